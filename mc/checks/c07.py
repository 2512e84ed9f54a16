"""C07: class-conditional sampling and the class posterior."""
import itertools

import torch

from .. import models as M
from ..sampling import density, distance, exact, large_batch, rows

LEVEL = "model_checking"
BOUNDS = ("every class, every list of up to 2 classes, every answer of every draw; lists of up to 300 classes with every single deviation from the most probable draws; posterior on every partial assignment of 3 variables, and on inputs whose likelihood underflows (values up to 300, 150 features); "
          "2 to 4 classes, depth <= 2, 1 or 2 repetitions")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))
TOL = 4e-4


def by_class(kw, seed):
    def case(rec):
        B = kw["L"] * kw["R"]
        cfg = M.config(leaf=f"cat{B}", **kw)
        m = M.tag_leaves(M.randomize(M.build(cfg, seed), seed))
        D, K = cfg.num_features, cfg.num_classes
        dom = M.grid([float(v) for v in range(B)], D).reshape(-1, 1, D)
        per = [density(m, dom, lambda ll, c=c: ll[:, c]) for c in range(K)]
        rep = {"config": M.describe(cfg), "seed": seed}

        def check(got, ex, want, key, what):
            rec.explored(ex)
            d, at = distance(got, want)
            for o in got:
                rec.outcome(o)
            rec.expect(d < TOL, key, lambda: f"{what}: sampler gives {got.get(at, 0):.5f}, the class density is {want.get(at, 0):.5f} at {at} ({M.describe(cfg)})", dict(rep, call=what))

        for c in range(K):
            got, ex = exact(lambda: m.sample(num_samples=1, class_index=c))
            check(got, ex, per[c], "int", f"sample(num_samples=1, class_index={c})")
            got, ex = exact(lambda: m.sample(class_index=c))
            check(got, ex, per[c], "int-default", f"sample(class_index={c})")
            got, ex = exact(lambda: m.sample(class_index=[c]))
            check(got, ex, per[c], "list1", f"sample(class_index=[{c}])")
            s = m.sample(num_samples=3, class_index=c, seed=4)
            rec.expect(s.shape == (3, 1, D), "shape", f"{tuple(s.shape)} samples for num_samples=3")
        if all(len(p) <= 9 for p in per):
            pos = [{k: v for k, v in p.items() if v > 1e-7} for p in per]
            for cs in itertools.product(range(K), repeat=2):
                want = {a + b: p * q for a, p in pos[cs[0]].items() for b, q in pos[cs[1]].items()}
                got, ex = exact(lambda: m.sample(class_index=list(cs)))
                check(got, ex, want, "list2", f"sample(class_index={list(cs)})")
                if cs[0] == cs[1]:
                    got, ex = exact(lambda: m.sample(num_samples=2, class_index=cs[0]))
                    check(got, ex, want, "int2", f"sample(num_samples=2, class_index={cs[0]})")
        for cs in itertools.product(range(K), repeat=3):
            s = m.sample(class_index=list(cs), seed=1)
            rec.expect(s.shape == (3, 1, D), "list-shape", f"{tuple(s.shape)} samples for {cs}")
        rec.sample(rep)
    return case


def large(kw, seed, n, stride):
    """long lists of classes: row i is drawn from class number i of the list"""
    def case(rec):
        cfg = M.config(leaf=f"cat{kw['L'] * kw['R']}", **kw)
        m = M.tag_leaves(M.randomize(M.build(cfg, seed), seed))
        cl = [(i * i + i // 3) % cfg.num_classes for i in range(n)]
        fs = [lambda c=c: m.sample(num_samples=1, class_index=c) for c in range(cfg.num_classes)]
        large_batch(rec, "large", {r: fs[cl[r]] for r in range(n)}, lambda: m.sample(class_index=cl), {"config": M.describe(cfg), "seed": seed}, stride)
        c = cfg.num_classes - 1
        large_batch(rec, "large-one", {r: fs[c] for r in range(n)}, lambda: m.sample(num_samples=n, class_index=c), {"config": M.describe(cfg), "seed": seed}, stride)
    return case


def mpe(kw, seed):
    """class-conditional MPE, in lists: row i is what class_index[i] alone gives; conditional on nothing but its class"""
    def case(rec):
        cfg = M.config(leaf="norm", **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        K = cfg.num_classes
        with torch.no_grad():
            single = [m.sample(num_samples=1, class_index=c, is_mpe=True) for c in range(K)]
            for cs in itertools.product(range(K), repeat=3):
                got = m.sample(class_index=list(cs), is_mpe=True)
                rec.ran()
                rec.state()
                rec.outcome(hash(tuple(got.reshape(-1).tolist())))
                want = torch.cat([single[c] for c in cs])
                rec.expect(got.shape == want.shape and torch.equal(got, want), "mpe-list", lambda: f"classes {cs}: {got.tolist()} instead of {want.tolist()} ({M.describe(cfg)})", {"classes": cs})
    return case


def diff(kw, seed):
    """differentiable class-conditional MPE gives the same values"""
    def case(rec):
        cfg = M.config(leaf="norm", **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        K = cfg.num_classes
        for cs in itertools.product(range(K), repeat=2):
            want = m.sample(class_index=list(cs), is_mpe=True)
            got = m.sample(class_index=list(cs), is_mpe=True, is_differentiable=True)
            rec.ran(2)
            rec.state()
            rec.outcome(hash(tuple(want.reshape(-1).tolist())))
            rec.expect(bool(((got - want).abs() < 1e-4).all()), "diff", lambda: f"classes {cs}: differentiable {got.tolist()} vs {want.tolist()} ({M.describe(cfg)})", {"classes": cs})
        for c in range(K):
            want = m.sample(num_samples=2, class_index=c, is_mpe=True)
            got = m.sample(num_samples=2, class_index=c, is_mpe=True, is_differentiable=True)
            rec.expect(bool(((got - want).abs() < 1e-4).all()), "diff-int", lambda: f"class {c}: differentiable {got.tolist()} vs {want.tolist()} ({M.describe(cfg)})")
    return case


def posterior(kw, leaf, seed):
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        dom = M.leaf_spec(leaf)[2]
        m = M.randomize(M.build(cfg, seed), seed, 1.5)
        D, K = cfg.num_features, cfg.num_classes
        x = M.grid([*dom, M.NAN], D).reshape(-1, 1, D)
        with torch.no_grad():
            ll = m(x).double()
            post = m.posterior(x).double()
        rec.ran(2 * len(x))
        rec.state(len(x))
        want = ll - torch.logsumexp(ll, 1, keepdim=True)  # Bayes' rule, uniform prior
        d = float((post - want).abs().max()) if post.shape == want.shape else float("inf")
        rec.outcome(tuple(round(float(v), 3) for v in post[0]))
        rec.expect(d < 2e-4, "bayes", lambda: f"posterior differs from Bayes' rule by {d:.4g} ({M.describe(cfg)})", {"config": M.describe(cfg), "seed": seed})
        rec.expect(bool(((post.exp().sum(1) - 1).abs() < 1e-4).all()), "normalised", "class posterior does not sum to 1")
        rec.expect(bool(((post[-1].exp() - 1 / K).abs() < 1e-4).all()), "prior", "with nothing observed the posterior is not the uniform prior")
        # joint with the observed classes: the model itself is the uniform mixture of its classes
        y = torch.full((1, 1, D), M.NAN)
        for i in range(D):
            for v in dom:
                y2 = y.clone()
                y2[0, 0, i] = v
                with torch.no_grad():
                    p = m.posterior(y2).exp()[0]
                    l = m(y2).exp()[0]
                rec.expect(bool(((p - l / l.sum()).abs() < 1e-4).all()), "bayes1", lambda: f"posterior given only feature {i}={v} is {p.tolist()}, Bayes gives {(l / l.sum()).tolist()}")
    return case


def far(kw, leaf, seed):
    """inputs whose likelihood underflows: far from every mean, or of many features"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        m = M.randomize(M.build(cfg, seed), seed, 1.5)
        D = cfg.num_features
        if leaf in ("norm", "rat"):
            x = M.grid((0.0, 1.5, -30.0, 300.0, M.NAN), D).reshape(-1, 1, D)
        else:
            x = torch.stack([torch.tensor([float((i * a + b) % 3) for i in range(D)]) for a in range(3) for b in range(3)]).unsqueeze(1)
        with torch.no_grad():
            ll = m(x).double()
            post = m.posterior(x).double()
        rec.ran(2 * len(x))
        rec.state(len(x))
        want = ll - torch.logsumexp(ll, 1, keepdim=True)
        tol = 2e-4 + 2e-6 * ll.abs().amax(1, keepdim=True)
        bad = ~((post - want).abs() <= tol)
        rec.outcome(tuple(round(float(v), 1) for v in post[-1]))
        i = int(bad.any(1).nonzero()[0]) if bad.any() else 0
        rec.expect(not bool(bad.any()), "far", lambda: f"posterior of {x[i].tolist()} is {post[i].tolist()}, Bayes' rule gives {want[i].tolist()} ({M.describe(cfg)})", {"config": M.describe(cfg), "seed": seed, "input": x[i].tolist()})
    return case


def rejects(rec):
    m1 = M.build(M.config(K=1))
    m2 = M.build(M.config(K=2))
    e = torch.full((1, 1, 3), M.NAN)
    for what, f in (("class_index on a one-class model", lambda: m1.sample(num_samples=1, class_index=0)),
                    ("class list on a one-class model", lambda: m1.sample(class_index=[0])),
                    ("evidence and class_index", lambda: m2.sample(evidence=e, class_index=0)),
                    ("evidence and class list", lambda: m2.sample(evidence=e, class_index=[0])),
                    ("three samples for two classes", lambda: m2.sample(num_samples=3, class_index=[0, 1])),
                    ("one sample for two classes", lambda: m2.sample(num_samples=1, class_index=[0, 1])),
                    ("evidence and num_samples", lambda: m2.sample(evidence=e, num_samples=1)),
                    ("posterior of a one-class model", lambda: m1.posterior(torch.zeros(1, 1, 3)))):
        rec.ran()
        rec.state()
        try:
            f()
        except (AssertionError, ValueError):
            rec.expect(True, what, "")
        else:
            rec.expect(False, what, f"{what} was accepted")
    rec.ran()
    n = m2.sample(num_samples=2, class_index=[0, 1]).shape[0]
    rec.expect(n == 2, "two samples for two classes", lambda: f"sample(num_samples=2, class_index=[0, 1]) returns {n} samples")


def cases(tier, seed):
    out = [("rejects", rejects)]
    big = tier == "thorough"
    for st, la in ARCH:
        for D, depth, R, K, L, S in ((2, 1, 1, 2, 2, 2), (2, 0, 1, 3, 2, 2), (2, 1, 1, 4, 3, 2), (2, 1, 2, 2, 1, 2), (2, 0, 2, 2, 1, 2), (3, 1, 1, 3, 2, 2), (2, 1, 2, 3, 2, 2),
                                    (4, 2, 1, 2, 2, 2)):
            if D * L * R * (2 if D > 3 else 1) > 8 and not big:
                if not (D == 4 and la == "linsum" and st == "top-down"):
                    continue
            out.append((f"class/{st}/{la}/D{D}d{depth}R{R}K{K}L{L}", by_class(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, L=L, S=S), seed)))
        for D, depth, R, K in ((3, 1, 1, 3), (3, 1, 3, 3), (4, 2, 2, 4), (5, 2, 1, 2), (2, 0, 2, 3)):
            kw = dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=3, L=3)
            out.append((f"mpe/{st}/{la}/D{D}d{depth}R{R}K{K}", mpe(kw, seed)))
            out.append((f"diff/{st}/{la}/D{D}d{depth}R{R}K{K}", diff(kw, seed)))
        for n, D, depth, R, K, stride in ((7, 4, 2, 2, 3, 1), (20, 3, 1, 1, 5, 1), (65, 2, 0, 2, 4, 1), (300, 3, 1, 2, 3, 83)):
            out.append((f"large/{st}/{la}/n{n}", large(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, L=2, S=2), seed, n, stride)))
        for leaf in ("cat2", "cat3", "bin2", "ber"):
            for depth, R, K in ((1, 1, 2), (1, 2, 3), (0, 2, 4)):
                out.append((f"posterior/{leaf}/{st}/{la}/d{depth}R{R}K{K}", posterior(dict(structure=st, layer=la, D=3, depth=depth, R=R, K=K, S=2, L=3), leaf, seed)))
        for leaf, D in (("norm", 3), ("rat", 2), ("cat3", 150)):
            for depth, R, K in ((1, 1, 2), (1, 2, 3), (0, 2, 2)):
                out.append((f"far/{leaf}/{st}/{la}/d{depth}R{R}K{K}", far(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=2, L=3), leaf, seed)))
    return out
