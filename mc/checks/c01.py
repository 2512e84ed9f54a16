"""C01: the model is a probability distribution."""
import itertools
import math

import torch

from .. import models as M
from ..explore import Explorer

LEVEL = "model_checking"
BOUNDS = "all inputs of the leaf domain; D<=6 features, channels<=2, depth<=2, sums/leaves<=3, repetitions<=3, classes<=3; selected larger ones: D<=16, depth<=4, up to 13 sums/leaves, 9 repetitions, 11 classes"


def total(model, cfg, dom, channels):
    D = cfg.num_features * channels
    x = M.grid(dom, D).reshape(-1, channels, cfg.num_features)
    with torch.no_grad():
        lls = model(x)
    return lls, x


def one_config(kw, leaf, seeds, all_structures):
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        dom = M.leaf_spec(leaf)[2]

        def check(m, seed, trail, what):
            lls, x = total(m, cfg, dom, cfg.num_channels)
            rec.ran(len(x))
            rec.state(len(x))
            rec.expect(tuple(lls.shape) == (len(x), cfg.num_classes), "shape", f"output shape {tuple(lls.shape)}")
            s = torch.logsumexp(lls.double(), 0)
            bad = torch.isnan(lls).any() or (s.abs() > 2e-4).any()
            rec.outcome(tuple(round(float(v), 3) for v in lls[:4].flatten()))
            rec.expect(not bad, f"sum:{what}", lambda: f"log of the sum over all {len(x)} inputs is {s.tolist()} (must be 0), "
                       f"config {M.describe(cfg)}", {"config": M.describe(cfg), "seed": seed, "structure": trail})
            rec.sample({"config": M.describe(cfg), "log_total": s.tolist()})

        for seed in seeds:
            if all_structures:
                ex = Explorer(cap=800)
                for m, trail in M.structures(cfg, seed, ex):
                    check(M.randomize(m, seed), seed, trail, "perm")
                rec.explored(ex)
            else:
                m = M.build(cfg, seed)
                check(m, seed, None, "init")
                check(M.randomize(m, seed, 1.0), seed, None, "random")
                check(M.randomize(m, seed, 0.0), seed, None, "uniform")
                check(M.randomize(m, seed, 8.0), seed, None, "peaked")
                m.train()  # with dropout 0, training mode is the same function
                check(M.randomize(m, seed, 1.0), seed, None, "train")
    return case


def continuous(leaf, kw):
    """Two features, trapezoid rule on a box holding all but ~1e-9 of the mass (spectral accuracy for smooth densities)."""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        for seed in (1, 2):
            m = M.randomize(M.build(cfg, seed), seed, 0.5)
            n = 241
            g = torch.linspace(-14, 14, n)
            x = torch.cartesian_prod(g, g).reshape(-1, 1, 2)
            with torch.no_grad():
                p = m(x).double().exp()
            s = p.sum(0) * float(g[1] - g[0]) ** 2
            rec.ran(len(x))
            rec.state(len(x))
            rec.outcome(round(float(p.max()), 6))
            rec.expect(bool(((s - 1).abs() < 2e-3).all()), "integral", f"density integrates to {s.tolist()} for {M.describe(cfg)}")
            rec.sample({"config": M.describe(cfg), "integral": s.tolist()})
    return case


def cases(tier, seed):
    thorough = tier == "thorough"
    seeds = (seed, seed + 1) if not thorough else tuple(range(seed, seed + 6))
    out = []
    grid = []
    for structure, layer in (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum")):
        for D in (2, 3, 4, 5, 6):
            for depth in range(0, M.max_depth(D) + 1):
                for R, K in ((1, 1), (2, 1), (1, 2), (2, 3), (3, 2)):
                    for S, L in ((1, 1), (2, 2), (2, 3), (3, 2), (1, 3)):
                        grid.append(dict(structure=structure, layer=layer, D=D, depth=depth, R=R, K=K, S=S, L=L))
    groups = {}
    for kw in grid:
        groups.setdefault((kw["structure"], kw["layer"], kw["D"], kw["depth"]), []).append(kw)
    for (st, la, D, de), kws in groups.items():
        def case(rec, kws=kws):
            for kw in kws:
                one_config(kw, "cat2", seeds, False)(rec)
        out.append((f"cat2/{st}/{la}/D{D}/depth{de}", case))
    # depth 3 and 4, and wide models
    for structure, layer in (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum")):
        for D, depth, R, K, S, L in ((8, 3, 2, 2, 2, 2), (9, 3, 1, 2, 2, 3), (10, 3, 2, 1, 3, 2), (12, 3, 1, 1, 2, 2), (8, 2, 4, 3, 2, 2), (16, 4, 1, 1, 2, 2),
                                     (4, 2, 6, 2, 5, 7), (4, 1, 1, 11, 8, 9), (3, 1, 9, 4, 7, 4), (7, 2, 2, 2, 12, 2), (3, 0, 5, 6, 4, 13)):
            kw = dict(structure=structure, layer=layer, D=D, depth=depth, R=R, K=K, S=S, L=L)
            out.append((f"large/{structure}/{layer}/D{D}/depth{depth}/R{R}K{K}S{S}L{L}", one_config(kw, "cat2", seeds[:1], False)))
    # other leaves and channels
    for leaf in ("cat3", "bin1", "bin2", "bin3", "ber"):
        for C in (1, 2):
            def case(rec, leaf=leaf, C=C):
                n = len(M.leaf_spec(leaf)[2])
                for st, la in (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum")):
                    for D in (2, 3, 4):
                        if n ** (D * C) > 5000:
                            continue
                        for depth in range(0, M.max_depth(D) + 1):
                            for R, K in ((1, 1), (2, 2)):
                                one_config(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=2, L=2, C=C), leaf, seeds[:1], False)(rec)
            out.append((f"{leaf}/C{C}", case))
    # every random structure
    for st, la, D, depth, R in (("top-down", "linsum", 3, 1, 1), ("top-down", "einsum", 4, 2, 1), ("top-down", "linsum2", 4, 1, 1),
                                ("top-down", "linsum", 3, 1, 2), ("bottom-up", "linsum", 3, 1, 2), ("bottom-up", "linsum", 4, 2, 1),
                                ("top-down", "linsum", 5, 1, 1), ("top-down", "linsum", 4, 1, 2)):
        out.append((f"allperm/{st}/{la}/D{D}/depth{depth}/R{R}",
                    one_config(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=2, S=2, L=2), "cat2", (seed,), True)))
    for leaf in ("norm", "rat", "mvn2"):
        for st in ("top-down", "bottom-up"):
            if leaf == "mvn2" and st == "bottom-up":
                continue
            for depth in (0, 1):
                if leaf == "mvn2" and depth == 1:
                    continue
                for R, K in ((1, 1), (2, 2)):
                    out.append((f"{leaf}/{st}/depth{depth}/R{R}", continuous(leaf, dict(structure=st, D=2, depth=depth, R=R, K=K))))
    return out
