"""C03: unconditional samples follow the density the model assigns."""
import math

import torch

from .. import models as M
from ..explore import Explorer
from ..sampling import density, distance, exact, large_batch, rows, seeds_reach, uniform_mixture

LEVEL = "model_checking"
BOUNDS = ("batches of 1 and 2 samples, D<=6, depth<=2, repetitions<=3, leaves<=3, classes<=3; every answer of every random "
          "draw; every scope permutation and group-size shuffle for the structures listed as allperm; depth 3 with 8 and 9 features (linsum); batches of up to 1030 "
          "samples: the most probable sample of every row and every single deviation from it (from 300 rows on: of a few rows); "
          "the seeds 0..599: every outcome of the flat models is reached")
TOL = 2e-4


def compare(rec, m, cfg, dom, what, replay, n=1, **kw):
    x = M.grid(dom, cfg.num_features * cfg.num_channels).reshape(-1, cfg.num_channels, cfg.num_features)
    want = density(m, x, uniform_mixture)
    got, ex = exact(lambda: m.sample(num_samples=n, **kw))
    rec.explored(ex)
    if n == 2:
        want = {a + b: p * q for a, p in want.items() for b, q in want.items() if p * q > 1e-9}
    d, at = distance(got, want)
    for k in got:
        rec.outcome(k)
    rec.sample({"config": M.describe(cfg), "paths": ex.executions, "outcomes": len(got), "max_difference": d})
    rec.expect(d < TOL, what, lambda: f"sampler gives {got.get(at, 0):.5f}, density {want.get(at, 0):.5f} to {at} "
               f"({M.describe(cfg)})", replay)
    rec.expect(abs(sum(got.values()) - 1) < 1e-3, what + ":mass", "path probabilities do not sum to 1", replay)


def one(kw, seed, n=1):
    def case(rec):
        cfg = M.config(leaf=f"cat{kw['L'] * kw['R']}", **kw)
        m = M.tag_leaves(M.randomize(M.build(cfg, seed), seed))
        compare(rec, m, cfg, [float(v) for v in range(kw["L"] * kw["R"])], f"n{n}", {"config": M.describe(cfg), "seed": seed}, n)
    return case


def allperm(kw, seed, cap=2000):
    def case(rec):
        cfg = M.config(leaf=f"cat{kw['L'] * kw['R']}", **kw)
        ex = Explorer(cap)
        for m, trail in M.structures(cfg, seed, ex):
            M.tag_leaves(M.randomize(m, seed))
            compare(rec, m, cfg, [float(v) for v in range(kw["L"] * kw["R"])], "perm", {"config": M.describe(cfg), "structure": trail})
        rec.explored(ex)
    return case


def noisy(kw, leaf, seed, n):
    """leaves that are not deterministic: the leaf draws themselves are enumerated too"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        dom = M.leaf_spec(leaf)[2]
        m = M.randomize(M.build(cfg, seed), seed)
        compare(rec, m, cfg, dom, f"noisy:n{n}", {"config": M.describe(cfg), "seed": seed}, n)
    return case


def spread_means(m, leaf):
    """distinct means, tiny spread: a draw with noise 0 reveals the leaf; -> density of a leaf at its own mean"""
    logc = 0.0
    with torch.no_grad():
        for mod in m.modules():
            if isinstance(mod, (M.Normal, M.RatNormal, M.MultivariateNormal)):
                mod.means.copy_(torch.arange(mod.means.numel(), dtype=torch.float).reshape(mod.means.shape) * 2)
                sigma = 0.05
                if isinstance(mod, M.Normal):
                    mod.logvar.fill_(2 * math.log(sigma))
                elif isinstance(mod, M.RatNormal):
                    pass  # bounds of "rattight"
                else:
                    mod.L_diag_log.fill_(math.log(sigma))
                    mod.L_offdiag.zero_()
                logc = -math.log(sigma) - 0.5 * math.log(2 * math.pi)
    return logc


def gauss(kw, leaf, seed):
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        logc = spread_means(m, leaf) * cfg.num_features * cfg.num_channels
        shape = {}
        rows_ = lambda t: (shape.setdefault(tuple(t.shape), 1), rows(t))[1]
        got, ex = exact(lambda: m.sample(num_samples=1), observe=rows_)
        rec.explored(ex)
        rec.expect(list(shape) == [(1, cfg.num_channels, cfg.num_features)], "shape", f"sample shapes {list(shape)}")
        x = torch.tensor(list(got)).reshape(-1, cfg.num_channels, cfg.num_features)
        with torch.no_grad():
            want = (uniform_mixture(m(x).double()) - logc).exp()
        for v, w in zip(got, want):
            rec.outcome(v)
            rec.expect(abs(got[v] - float(w)) < 2e-3, "gauss", lambda: f"sampler picks {v} with {got[v]:.5f}, density says {float(w):.5f} "
                       f"({M.describe(cfg)})", {"config": M.describe(cfg), "seed": seed})
    return case


def large(kw, seed, n, stride):
    """a row of a large batch is drawn as it would be alone"""
    def case(rec):
        cfg = M.config(leaf=f"cat{kw['L'] * kw['R']}", **kw)
        m = M.tag_leaves(M.randomize(M.build(cfg, seed), seed))
        one_ = lambda: m.sample(num_samples=1)
        large_batch(rec, "large", {r: one_ for r in range(n)}, lambda: m.sample(num_samples=n), {"config": M.describe(cfg), "seed": seed}, stride)
    return case


def seeded(kw, seed, n):
    """with a seed, too, all draws of a call are independent of one another (flat weights: every outcome has its share)"""
    def case(rec):
        cfg = M.config(leaf=f"cat{kw['L'] * kw['R']}", **kw)
        m = M.tag_leaves(M.randomize(M.build(cfg, seed), seed, 0.0))
        x = M.grid([float(v) for v in range(kw["L"] * kw["R"])], cfg.num_features).reshape(-1, 1, cfg.num_features)
        want = density(m, x, uniform_mixture)
        if n == 2:
            want = {a + b: p * q for a, p in want.items() for b, q in want.items() if p * q > 1e-9}
        rep = {"config": M.describe(cfg), "seed": seed, "n": n}
        least = max(want.values()) * 0.99
        rec.expect(least >= 0.03, "flat", lambda: f"largest probability {least}", rep)
        seeds_reach(rec, "seed argument", lambda s: m.sample(num_samples=n, seed=s), want, rep, least=least)

        def outer(s):
            torch.manual_seed(s)
            return m.sample(num_samples=n)
        seeds_reach(rec, "global seed", outer, want, rep, least=least)
    return case


def distinct(kw, leaf, seed):
    """continuous leaves: no two rows of one call are alike"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        for n in (2, 3, 50, 600, 1030):
            for s in range(4):
                for kws in (dict(seed=s), dict()):
                    torch.manual_seed(s)
                    x = m.sample(num_samples=n, **kws).reshape(n, -1)
                    rec.ran()
                    rec.state()
                    rec.outcome(rows(x[0]))
                    u = len(torch.unique(x, dim=0))
                    rec.expect(u == n, "distinct", lambda: f"sample(num_samples={n}, {kws}) repeats rows: {u} different ones ({M.describe(cfg)})", {"config": M.describe(cfg), "seed": s, "n": n})
    return case


ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))


def cases(tier, seed):
    out = []
    groups = {}
    for st, la in ARCH:
        for D in (2, 3, 4, 5, 6):
            for depth in range(0, M.max_depth(D) + 1):
                for R, K, S, L in ((1, 1, 2, 2), (2, 1, 2, 2), (1, 2, 3, 2), (2, 2, 2, 1), (1, 3, 2, 2), (3, 1, 2, 1), (1, 1, 2, 3), (2, 2, 2, 2)):
                    if (L * R) ** D > 800:
                        continue
                    sums = {"linsum": 1, "linsum2": 2, "einsum": 2}[la]
                    nodes = 2**depth - 1 if st == "top-down" else D
                    if max(S, L) ** (sums * nodes) * R * K > (6000 if tier == "quick" else 200000):
                        continue
                    groups.setdefault((st, la, D, depth), []).append(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=S, L=L))
    for (st, la, D, de), kws in groups.items():
        for i, kw in enumerate(kws):
            out.append((f"tag/{st}/{la}/D{D}/depth{de}/R{kw['R']}K{kw['K']}S{kw['S']}L{kw['L']}", one(kw, seed + i)))
    for st, la in ARCH:
        for D, depth, R, K in ((2, 1, 1, 1), (2, 1, 2, 1), (3, 1, 1, 2), (2, 0, 2, 2)):
            kw = dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=2, L=2)
            out.append((f"pair/{st}/{la}/D{D}/depth{depth}/R{R}K{K}", one(kw, seed, n=2)))
    for st, la in ARCH:
        for D, depth, R in ((3, 1, 1), (4, 1, 1), (4, 2, 1), (3, 1, 2), (3, 0, 2)) + (((5, 1, 1), (5, 2, 1), (4, 2, 2)) if tier == "thorough" else ()):
            kw = dict(structure=st, layer=la, D=D, depth=depth, R=R, K=1, S=2, L=2)
            if la == "einsum" and depth == 2 and R == 2:
                continue
            out.append((f"allperm/{st}/{la}/D{D}/depth{depth}/R{R}", allperm(kw, seed, 800 if tier == "quick" else 20000)))
    for st, la in ARCH:
        for n, D, depth, R, K, stride in ((5, 4, 2, 2, 2, 1), (9, 5, 1, 1, 1, 1), (33, 3, 1, 2, 1, 1), (70, 2, 1, 1, 2, 1), (300, 3, 1, 2, 2, 83), (1030, 2, 0, 2, 1, 301)):
            kw = dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=2, L=2)
            out.append((f"large/{st}/{la}/n{n}/D{D}/depth{depth}/R{R}K{K}", large(kw, seed, n, stride if tier == "quick" else max(1, stride // 20))))
        for n, D, depth, R, K, L in ((1, 2, 1, 1, 1, 2), (1, 3, 1, 1, 1, 2), (1, 4, 2, 1, 1, 2), (1, 2, 1, 2, 2, 2), (1, 2, 1, 3, 1, 1), (1, 2, 0, 1, 1, 4), (2, 2, 1, 1, 1, 2), (2, 2, 1, 2, 1, 1), (2, 2, 0, 2, 2, 1)):
            out.append((f"seeded/{st}/{la}/n{n}/D{D}/depth{depth}/R{R}K{K}L{L}", seeded(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=L, L=L), seed, n)))
        for leaf in ("norm", "rat") + (("mvn2",) if st == "top-down" else ()):
            out.append((f"distinct/{st}/{la}/{leaf}", distinct(dict(structure=st, layer=la, D=4, depth=1, R=2, K=2, S=2, L=2), leaf, seed)))
        for D in (8, 9) if la == "linsum" else ():
            kw = dict(structure=st, layer=la, D=D, depth=3, R=1, K=1 if st == "bottom-up" else 2, S=2, L=2)
            out.append((f"deep/{st}/{la}/D{D}", one(kw, seed)))
        for D in (8, 9):
            # depth 3: one sample and all its alternatives
            kw = dict(structure=st, layer=la, D=D, depth=3, R=2, K=2, S=2, L=2)
            out.append((f"large/{st}/{la}/n4/D{D}/depth3", large(kw, seed, 4, 1)))
    for leaf in ("cat2", "bin1", "bin2", "ber", "cat3"):
        for st, la in (ARCH if leaf == "cat2" else ARCH[:1]):
            for C, D, L, R, n in ((1, 2, 2, 1, 1), (2, 2, 1, 1, 1), (1, 2, 1, 2, 1), (1, 2, 1, 1, 2), (1, 3, 2, 1, 1)):
                k = len(M.leaf_spec(leaf)[2])
                if k ** (C * D * L * R * n) > 300:
                    continue
                kw = dict(structure=st, layer=la, D=D, depth=1, R=R, K=1, S=1, L=L, C=C)
                out.append((f"noisy/{leaf}/{st}/{la}/C{C}D{D}L{L}R{R}n{n}", noisy(kw, leaf, seed, n)))
    for leaf, D, archs in (("norm", 3, ARCH), ("rattight", 3, ARCH[::3]), ("mvn2", 4, ARCH[:3]), ("mvn2", 6, ARCH[:1]), ("mvn3", 6, ARCH[:1]), ("mvn1", 3, ARCH[:1])):
        for st, la in archs:
            for depth, R, C, K in ((0, 1, 1, 1), (1, 1, 1, 1), (1, 2, 1, 1), (1, 2, 2, 2)):
                if leaf.startswith("mvn") and D // int(leaf[3:]) < 2**depth:
                    continue
                kw = dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=2, L=2, C=C)
                for k in range(2):
                    out.append((f"gauss/{leaf}/{st}/{la}/D{D}/depth{depth}/R{R}C{C}/s{k}", gauss(kw, leaf, seed + k)))
    return out
