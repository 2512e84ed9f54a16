"""C04: samples given evidence follow the model's conditional distribution."""
import itertools
import math

import torch

from .. import models as M
from ..sampling import distance, exact, large_batch, rows, seeds_reach, uniform_mixture

LEVEL = "model_checking"
BOUNDS = ("every subset of missing features, every value of the observed ones (alphabet of L*R values), every answer of every "
          "draw; D<=5, depth<=2, repetitions<=3, classes<=3, batches of 1 and 2 rows; multivariate leaves: every subset of missing groups, D<=8; "
          "batches of up to 1030 partial rows: the most probable completion of every row and every single deviation from it (from 300 rows on: of a few rows); "
          "the seeds 0..599: every outcome of the flat models is reached")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))
TOL = 4e-4


def tag_missing(m, cfg, seed, missing):
    """categorical leaves: missing features name their leaf (a draw reveals it), observed features have general
    leaf distributions, so that the evidence re-weights every branch"""
    B = cfg.num_leaves * cfg.num_repetitions
    M.tag_leaves(m)
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for leaf in M.leaf_modules(m, M.Categorical):
            obs = [i for i in range(cfg.num_features) if i not in missing]
            r = torch.randn(leaf.logits[:, :, obs].shape, generator=g) * 1.2
            leaf.logits[:, :, obs] = r
    return m


def conditional(m, e, missing, dom):
    """P(x_missing | e) from the density, e: [C, D] with NaN; classes mixed uniformly"""
    C, D = e.shape
    n = len(missing) * C
    g = M.grid(dom, n).reshape(-1, C, len(missing)) if n else torch.zeros(1, C, 0)
    x = e.unsqueeze(0).repeat(len(g), 1, 1)
    x[:, :, missing] = g
    with torch.no_grad():
        ll = uniform_mixture(m(x).double())
        ll = ll - torch.logsumexp(ll, 0)
    return {rows(x[i]): float(ll[i].exp()) for i in range(len(x))}


def check_one(rec, m, cfg, e, missing, dom, what, replay, form="nan", **kw):
    want = conditional(m, e, missing, dom)
    if form == "nan":
        f = lambda: m.sample(evidence=e.unsqueeze(0), **kw)
    else:  # marginalized_scopes: the values at the missing positions are junk
        junk = torch.where(torch.isnan(e), torch.zeros_like(e), e)
        f = lambda: m.sample(evidence=junk.unsqueeze(0), marginalized_scopes=list(missing), **kw)
    got, ex = exact(f)
    rec.explored(ex)
    d, at = distance(got, want)
    for k in got:
        rec.outcome(k)
    rec.expect(d < TOL, what, lambda: f"evidence {e.tolist()}: sampler gives {got.get(at, 0):.5f}, conditional is {want.get(at, 0):.5f} to {at} "
               f"({M.describe(cfg)}; {form})", dict(replay, evidence=e.tolist()))
    return ex


def one(kw, seed, forms=("nan", "scopes"), values=None):
    def case(rec):
        B = kw["L"] * kw["R"]
        cfg = M.config(leaf=f"cat{B}", **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        D, C = cfg.num_features, cfg.num_channels
        alpha = list(range(B))[: (values or B)]
        replay = {"config": M.describe(cfg), "seed": seed}
        for missing in M.subsets(D):
            missing = list(missing)
            tag_missing(m, cfg, seed + len(missing), missing)
            obs = [i for i in range(D) if i not in missing]
            for vals in itertools.product(alpha, repeat=len(obs) * C):
                e = torch.full((C, D), M.NAN)
                if obs:
                    e[:, obs] = torch.tensor(vals, dtype=torch.float).reshape(C, len(obs))
                for form in forms:
                    if form == "scopes" and not missing:
                        continue
                    check_one(rec, m, cfg, e, missing, [float(v) for v in range(B)], form, replay, form)
        rec.sample(dict(replay, executions=rec.executions))
    return case


def batch(kw, seed):
    """two rows with different missing entries: the joint law is the product, row by row"""
    def case(rec):
        B = kw["L"] * kw["R"]
        cfg = M.config(leaf=f"cat{B}", **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        D = cfg.num_features
        dom = [float(v) for v in range(B)]
        # deterministic leaves for feature 0, general ones for the others: both rows miss feature 0, row 1 feature 1 too
        tag_missing(m, cfg, seed, [0])
        with torch.no_grad():
            for leaf in M.leaf_modules(m, M.Categorical):
                leaf.logits[:, :, 1] = torch.where(leaf.logits[:, :, 0] > 0, 60.0, -60.0)
        for v0, v1 in itertools.product(range(B), repeat=2):
            e = torch.full((2, 1, D), float(v0))
            e[1] = float(v1)
            e[:, :, 0] = M.NAN
            e[1, :, 1] = M.NAN
            e[0, :, 1] = dom[v0]
            w0 = conditional(m, e[0], [0], dom)
            w1 = conditional(m, e[1], [0, 1], dom)
            want = {a + b: p * q for a, p in w0.items() for b, q in w1.items() if p * q > 1e-9}
            if any(math.isnan(v) for v in want.values()):
                continue
            got, ex = exact(lambda: m.sample(evidence=e))
            rec.explored(ex)
            d, at = distance(got, want)
            for k in got:
                rec.outcome(k)
            rec.expect(d < TOL, "batch", lambda: f"evidence {e.tolist()}: sampler gives {got.get(at, 0):.5f}, product of conditionals is "
                       f"{want.get(at, 0):.5f} to {at} ({M.describe(cfg)})", {"config": M.describe(cfg), "seed": seed, "evidence": e.tolist()})
    return case


def seeded(kw, seed):
    """with a seed, too, all draws of a conditional query are independent of one another"""
    def case(rec):
        B = kw["L"] * kw["R"]
        cfg = M.config(leaf=f"cat{B}", **kw)
        m = M.tag_leaves(M.randomize(M.build(cfg, seed), seed, 0.0))
        D = cfg.num_features
        dom = [float(v) for v in range(B)]
        for missing in (list(range(D)), list(range(1, D))):
            e = torch.zeros(1, 1, D)
            e[:, :, missing] = M.NAN
            one_ = conditional(m, e[0], missing, dom)
            for n in (1, 2):
                want = one_ if n == 1 else {a + b: p * q for a, p in one_.items() for b, q in one_.items() if p * q > 1e-9}
                least = max(want.values()) * 0.99
                if least < 0.03:
                    continue
                rep = {"config": M.describe(cfg), "seed": seed, "missing": missing, "rows": n}
                seeds_reach(rec, "seed argument", lambda s: m.sample(evidence=e.repeat(n, 1, 1), seed=s), want, rep, least=least)
    return case


def large(kw, seed, n, stride, scopes=None):
    """a row of a large batch of different partial rows is completed as it would be alone"""
    def case(rec):
        cfg = M.config(leaf="norm", **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        D = cfg.num_features
        g = torch.Generator().manual_seed(seed)
        al = torch.randn(11, 1, D, generator=g)
        hide = torch.rand(11, 1, D, generator=g) < 0.55
        hide[0] = False  # one row is complete, one all but missing
        hide[1] = True
        hide[1, 0, D - 1] = False
        if scopes is None:
            al[hide] = M.NAN
        kws = {} if scopes is None else {"marginalized_scopes": list(scopes)}
        fs = [lambda i=i: m.sample(evidence=al[i : i + 1].clone(), **kws) for i in range(len(al))]
        idx = torch.arange(n) * 3 % len(al)
        large_batch(rec, "large", {r: fs[int(idx[r])] for r in range(n)}, lambda: m.sample(evidence=al[idx].clone(), **kws), {"config": M.describe(cfg), "seed": seed, "scopes": scopes}, stride)
    return case


def noisy(kw, leaf, seed):
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        dom = M.leaf_spec(leaf)[2]
        m = M.randomize(M.build(cfg, seed), seed)
        D, C = cfg.num_features, cfg.num_channels
        for missing in M.subsets(D):
            missing = list(missing)
            obs = [i for i in range(D) if i not in missing]
            for vals in itertools.product(dom, repeat=len(obs) * C):
                e = torch.full((C, D), M.NAN)
                if obs:
                    e[:, obs] = torch.tensor(vals).reshape(C, len(obs))
                check_one(rec, m, cfg, e, missing, dom, "noisy", {"config": M.describe(cfg), "seed": seed})
    return case


def gauss(kw, seed, values=(-0.7, 1.1, 5.0)):
    """real-valued evidence re-weights the branches of Gaussian models; missing features have well separated means"""
    def case(rec):
        cfg = M.config(leaf="norm", **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        D, C = cfg.num_features, cfg.num_channels
        for missing in M.subsets(D):
            missing = list(missing)
            if not missing:
                continue
            obs = [i for i in range(D) if i not in missing]
            g = torch.Generator().manual_seed(seed)
            with torch.no_grad():
                for mod in M.leaf_modules(m, M.Normal):
                    mod.means.copy_(torch.randn(mod.means.shape, generator=g))
                    mod.logvar.copy_(torch.randn(mod.means.shape, generator=g) * 0.3)
                    mm = mod.means[:, :, missing]
                    mod.means[:, :, missing] = (torch.arange(mm.numel(), dtype=torch.float) * 2).reshape(mm.shape)
                    mod.logvar[:, :, missing] = 2 * math.log(0.05)
            logc = (-math.log(0.05) - 0.5 * math.log(2 * math.pi)) * len(missing) * C
            for val, form in itertools.product(values, ("nan", "scopes")):
                e = torch.full((C, D), M.NAN)
                e[:, obs] = val + torch.arange(len(obs)) * 0.3 - torch.arange(C).unsqueeze(1) * 0.7
                if form == "nan":
                    got, ex = exact(lambda: m.sample(evidence=e.unsqueeze(0)))
                else:
                    junk = torch.nan_to_num(e, nan=17.0)
                    got, ex = exact(lambda: m.sample(evidence=junk.unsqueeze(0), marginalized_scopes=list(missing)))
                rec.explored(ex)
                with torch.no_grad():
                    base = uniform_mixture(m(e.unsqueeze(0)).double())
                    x = torch.tensor(list(got)).reshape(-1, C, D)
                    x[:, :, obs] = e[:, obs]
                    want = (uniform_mixture(m(x).double()) - base - logc).exp()
                rec.expect(abs(sum(got.values()) - 1) < 1e-3, "mass", "probabilities of the paths do not sum to 1")
                for v, w in zip(got, want.tolist()):
                    rec.outcome(v)
                    rec.expect(abs(got[v] - w) < 2e-3, "gauss", lambda: f"evidence {e.tolist()}: sampler {got[v]:.5f}, conditional {w:.5f} to {v} ({M.describe(cfg)})",
                               {"config": M.describe(cfg), "seed": seed, "evidence": e.tolist()})
    return case


def groups(kw, card, seed):
    """multivariate leaves: whole groups are missing, the leaves of missing groups have well separated means, observed groups re-weight the branches"""
    def case(rec):
        cfg = M.config(leaf=f"mvn{card}", **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        leaf = M.leaf_modules(m, M.MultivariateNormal)[0]
        D, C = cfg.num_features, cfg.num_channels
        G = D // card
        for miss in M.subsets(G):
            if not miss:
                continue
            scopes = [g * card + i for g in miss for i in range(card)]
            obs = [i for i in range(D) if i not in scopes]
            g = torch.Generator().manual_seed(seed + len(miss))
            with torch.no_grad():  # means: [C, G, L, R, card]
                leaf.means.copy_(torch.randn(leaf.means.shape, generator=g))
                leaf.L_diag_log.copy_(torch.randn(leaf.L_diag_log.shape, generator=g) * 0.2)
                leaf.L_offdiag.copy_(torch.randn(leaf.L_offdiag.shape, generator=g) * 0.4)
                sel = leaf.means[:, list(miss)]
                leaf.means[:, list(miss)] = (torch.randperm(sel.numel(), generator=g).float() * 2).reshape(sel.shape)
                leaf.L_diag_log[:, list(miss)] = math.log(0.05)
                leaf.L_offdiag[:, list(miss)] *= 0.05
            for val in (-0.7, 1.1, 4.0) if obs else (0.0,):
                e = torch.full((C, D), 17.0)
                e[:, obs] = val + torch.arange(len(obs)) * 0.3 - torch.arange(C).unsqueeze(1) * 0.7
                rep = {"config": M.describe(cfg), "card": card, "seed": seed, "missing": list(miss), "evidence": e.tolist()}
                got, ex = exact(lambda: m.sample(evidence=e.unsqueeze(0), marginalized_scopes=list(scopes)))
                rec.explored(ex)
                x = torch.tensor(list(got)).reshape(-1, C, D)
                rec.expect(bool(((x[:, :, obs] - e[:, obs]).abs() < 1e-5).all()), "kept", lambda: f"observed values {e.tolist()} became {x[0].tolist()} ({rep})", rep)
                with torch.no_grad():
                    base = uniform_mixture(m(e.unsqueeze(0), list(scopes)).double())
                    top = uniform_mixture(m(x).double()) - base
                logc = C * len(miss) * card * (-math.log(0.05) - 0.5 * math.log(2 * math.pi))
                want = (top - logc).exp()
                for v, w in zip(got, want.tolist()):
                    rec.outcome(v)
                    rec.expect(abs(got[v] - w) < 2e-3, "groups", lambda: f"evidence {e.tolist()}, groups {miss} missing: sampler {got[v]:.5f}, conditional {w:.5f} to {v} ({rep})", rep)
        rec.sample(M.describe(cfg))
    return case


def cases(tier, seed):
    out = []
    for la in ("linsum", "linsum2", "einsum"):
        for card, D, C, depth, L, R, K in ((2, 4, 1, 1, 3, 1, 1), (2, 4, 1, 1, 2, 2, 1), (2, 4, 1, 1, 2, 2, 2), (2, 6, 1, 1, 2, 2, 1), (3, 6, 1, 1, 2, 2, 1), (2, 4, 2, 1, 2, 1, 1), (2, 4, 1, 0, 2, 2, 2), (1, 3, 1, 1, 2, 2, 1), (4, 4, 1, 0, 3, 1, 1), (2, 8, 1, 2, 2, 1, 1)):
            if D // card * C > 3 and la != "linsum" and tier == "quick":
                continue
            out.append((f"groups/mvn{card}/{la}/D{D}C{C}depth{depth}/L{L}R{R}K{K}", groups(dict(layer=la, D=D, C=C, depth=depth, S=2, L=L, R=R, K=K), card, seed)))
    for st, la in ARCH:
        for n, D, depth, R, K, stride, sc in ((5, 4, 2, 2, 2, 1, None), (9, 5, 1, 2, 1, 1, (0, 3)), (33, 3, 1, 2, 2, 1, None), (70, 2, 1, 1, 2, 1, None), (12, 9, 3, 2, 2, 1, None),
                                              (300, 4, 1, 2, 2, 83, None), (1030, 3, 0, 2, 1, 301, None)):
            kw = dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=2, L=2)
            out.append((f"large/{st}/{la}/n{n}/D{D}/depth{depth}/R{R}K{K}", large(kw, seed, n, stride if tier == "quick" else max(1, stride // 20), sc)))
        for D, depth, R, K, L in ((2, 1, 1, 1, 2), (3, 1, 1, 2, 2), (4, 2, 1, 1, 2), (2, 1, 2, 2, 2), (2, 0, 1, 1, 4)):
            out.append((f"seeded/{st}/{la}/D{D}/depth{depth}/R{R}K{K}L{L}", seeded(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=L, L=L), seed)))
        for D in (2, 3, 4, 5):
            for depth in range(0, M.max_depth(D) + 1):
                for R, K, S, L, C in ((1, 1, 2, 2, 1), (1, 2, 2, 2, 1), (2, 1, 2, 2, 1), (2, 2, 2, 1, 1), (1, 3, 3, 2, 1), (3, 2, 2, 2, 1), (2, 1, 2, 2, 2)):
                    nodes = (2**depth - 1 if depth else 1) if st == "top-down" else D
                    fan = {"linsum": 1, "linsum2": 2, "einsum": 2}[la] if depth else 1
                    paths = R * K * max(S, L) ** (nodes * fan)
                    cost = paths * 2**D * 6
                    if cost > ((7000 if st == "top-down" else 2500) if tier == "quick" else 400000):
                        continue
                    values = (-0.7, 1.1, 5.0) if D < 4 else (-0.7, 5.0)
                    out.append((f"gauss/{st}/{la}/D{D}/depth{depth}/R{R}K{K}S{S}L{L}C{C}",
                                gauss(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=S, L=L, C=C), seed, values)))
        for depth, R, K in ((0, 1, 1), (1, 1, 1), (1, 1, 2), (1, 2, 1)):
            out.append((f"tag/{st}/{la}/D2/depth{depth}/R{R}K{K}", one(dict(structure=st, layer=la, D=2, depth=depth, R=R, K=K, S=2, L=2 if R == 1 else 1), seed)))
        for D, depth, R, K in ((2, 1, 1, 1), (2, 1, 2, 1), (3, 1, 1, 1), (2, 0, 1, 2), (2, 1, 1, 2)):
            out.append((f"batch/{st}/{la}/D{D}/depth{depth}/R{R}K{K}", batch(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=2, L=2), seed)))
    for leaf in ("cat2", "bin1", "bin2", "ber"):
        for st, la in (ARCH if leaf == "cat2" else ARCH[:1]):
            for C, D, L, R in ((1, 2, 2, 1), (2, 2, 1, 1), (1, 2, 1, 2)):
                k = len(M.leaf_spec(leaf)[2])
                if k ** (C * D * L * R) > 100:
                    continue
                out.append((f"noisy/{leaf}/{st}/{la}/C{C}D{D}L{L}R{R}", noisy(dict(structure=st, layer=la, D=D, depth=1, R=R, K=1, S=1, L=L, C=C), leaf, seed)))
    return out
