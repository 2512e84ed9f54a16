"""C02: marginalised variables are summed out exactly, however the request is spelled."""
import itertools

import torch

from .. import models as M
from ..explore import Explorer

LEVEL = "model_checking"
BOUNDS = "every assignment of {domain values, missing} to up to 4 features (2 channels: up to 3), every subset of scopes"
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))
TOL = 2e-4


def lattice(rec, m, cfg, dom, replay):
    """forward on all (|dom|+1)^(C*D) inputs; a missing entry must equal the sum over its values"""
    n = cfg.num_features * cfg.num_channels
    vals = list(dom) + [M.NAN]
    x = M.grid(vals, n).reshape(-1, cfg.num_channels, cfg.num_features)
    keep = x.clone()
    with torch.no_grad():
        ll = m(x).double()
    rec.ran(len(x))
    rec.state(len(x), len(x) * n)
    rec.expect(torch.equal(torch.nan_to_num(keep, nan=-99.0), torch.nan_to_num(x, nan=-99.0)), "mutated", "forward changed the caller's tensor", replay)
    T = ll.reshape([len(vals)] * n + [cfg.num_classes])
    for i in range(n):
        miss = T.select(i, len(vals) - 1)
        summed = torch.logsumexp(T.narrow(i, 0, len(vals) - 1), dim=i)
        d = (miss - summed).abs().max()
        rec.expect(bool(d < TOL), "nan", lambda: f"feature/channel {i} missing: log-likelihood off by {float(d):.4g} from the sum over its values "
                   f"({M.describe(cfg)})", replay)
    rec.expect(abs(float(ll[-1].abs().max())) < TOL, "all-missing", lambda: f"everything missing gives {ll[-1].tolist()}, not 0", replay)
    rec.outcome(tuple(round(v, 3) for v in ll[len(ll) // 2].tolist()))
    return x, ll


def scopes(rec, m, cfg, dom, replay):
    """marginalized_scopes = S must equal missing entries at S, for every S, every spelling and every junk value at S"""
    D, C = cfg.num_features, cfg.num_channels
    if len(dom) ** (D * C) > 300:
        dom = list(dom)[:2]
    x = M.grid(dom, D * C).reshape(-1, C, D)
    for S in M.subsets(D):
        xn = x.clone()
        xn[:, :, list(S)] = M.NAN
        with torch.no_grad():
            want = m(xn).double()
            for how, sc in (("list", list(S)), ("reversed", list(S)[::-1]), ("tensor", torch.tensor(S, dtype=torch.long)), ("int32", torch.tensor(S, dtype=torch.int32)),
                            ("tuple-list", list(S) + list(S)[:1]), ("from the end", [i - D for i in S]), ("tuple", tuple(S))):
                keep = x.clone()
                got = m(x, marginalized_scopes=sc).double()
                rec.ran(len(x))
                rec.state(len(x))
                d = (got - want).abs().max()
                rec.expect(bool(d < TOL), f"scopes:{how}", lambda: f"marginalized_scopes={sc!r} differs from missing entries by {float(d):.4g} ({M.describe(cfg)})", replay)
                rec.expect(torch.equal(keep, x), "mutated", "forward changed the caller's tensor", replay)
            got = m(xn, marginalized_scopes=list(S)).double()
            d = (got - want).abs().max()
            rec.expect(bool(d < TOL), "scopes:nan-there", lambda: f"marginalized_scopes={S} with NaN at S differs by {float(d):.4g}", replay)
    with torch.no_grad():
        d = (m(x, marginalized_scopes=None).double() - m(x).double()).abs().max()
    rec.expect(bool(d == 0), "scopes:none", "marginalized_scopes=None differs from leaving it out")


def discrete(kw, leaf, seed, do_scopes=True, train=False):
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        dom = M.leaf_spec(leaf)[2]
        m = M.randomize(M.build(cfg, seed), seed)
        if train:
            m.train()
        replay = {"config": M.describe(cfg), "seed": seed}
        lattice(rec, m, cfg, dom, replay)
        if do_scopes:
            scopes(rec, m, cfg, dom, replay)
        rec.sample(replay)
    return case


def perms(kw, seed):
    def case(rec):
        cfg = M.config(leaf="cat2", **kw)
        ex = Explorer(800)
        for m, trail in M.structures(cfg, seed, ex):
            lattice(rec, M.randomize(m, seed), cfg, [0.0, 1.0], {"config": M.describe(cfg), "structure": trail})
        rec.explored(ex)
    return case


def gaussian(kw, leaf, seed):
    """continuous leaves: the missing feature is integrated numerically, for every subset of observed features"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        m = M.randomize(M.build(cfg, seed), seed, 0.5)
        n = 401
        g = torch.linspace(-12, 12, n)
        h = float(g[1] - g[0])
        for v in (-1.0, 0.3, 2.0):
            for i in range(2):
                x = torch.full((n, 1, 2), v)
                x[:, 0, i] = g
                xn = torch.full((1, 1, 2), v)
                xn[0, 0, i] = M.NAN
                with torch.no_grad():
                    s = m(x).double().exp().sum(0) * h
                    want = m(xn).double().exp()[0]
                    want2 = m(torch.full((1, 1, 2), v), marginalized_scopes=[i]).double().exp()[0]
                rec.ran(n + 2)
                rec.state(n)
                rec.outcome(tuple(round(t, 4) for t in want.tolist()))
                rec.expect(bool(((s - want).abs() < 1e-3).all()), "integral", f"feature {i} missing: {want.tolist()} but the integral is {s.tolist()}")
                rec.expect(bool(((want2 - want).abs() < 1e-6).all()), "scopes", f"marginalized_scopes and NaN differ: {want2.tolist()} {want.tolist()}")
        with torch.no_grad():
            rec.expect(bool((m(torch.full((1, 1, 2), M.NAN)).abs() < 1e-4).all()), "all", "everything missing is not 0")
    return case


def groups(kw, seed):
    """multivariate leaves: whole groups of variables named by marginalized_scopes are integrated out"""
    def case(rec):
        cfg = M.config(leaf="mvn2", **kw)
        m = M.randomize(M.build(cfg, seed), seed, 0.5)
        D = cfg.num_features
        vals = (-1.0, 0.4)
        g = torch.linspace(-9, 9, 121)
        cell = float(g[1] - g[0]) ** 2
        for i in range(0, D, 2):
            for row in itertools.product(vals, repeat=D):
                base = torch.tensor(row)
                x = base.repeat(len(g) ** 2, 1)
                x[:, i : i + 2] = torch.cartesian_prod(g, g)
                with torch.no_grad():
                    want = torch.logsumexp(m(x[:, None]).double(), 0) + torch.log(torch.tensor(cell).double())
                    for sc in ([i, i + 1], [i + 1, i], torch.tensor([i, i + 1]), [i - D, i + 1 - D], torch.tensor([i + 1 - D, i - D])):
                        got = m(base.reshape(1, 1, D).clone(), marginalized_scopes=sc).double()[0]
                        rec.ran()
                        rec.expect(bool(((got - want).abs() < 5e-3).all()), "group", lambda: f"marginalized_scopes={sc}: {got.tolist()}, integrated {want.tolist()} ({M.describe(cfg)})", {"config": M.describe(cfg), "row": row})
                rec.state(len(x))
        for sc in (list(range(D)), torch.arange(D)):
            got = m(torch.zeros(1, 1, D), marginalized_scopes=sc)
            rec.expect(bool((got.abs() < 1e-4).all()), "group-all", lambda: f"everything marginalised gives {got.tolist()} ({M.describe(cfg)})")
        empty = m(torch.zeros(1, 1, D), marginalized_scopes=[])
        rec.expect(bool(torch.allclose(empty, m(torch.zeros(1, 1, D)), atol=1e-5)), "group-none", "marginalized_scopes=[] differs from leaving it out")
    return case


def cases(tier, seed):
    out = []
    for la in ("linsum", "linsum2", "einsum"):
        for D, R, K in ((4, 1, 1), (4, 2, 2), (6, 2, 1)):
            out.append((f"groups/{la}/D{D}R{R}K{K}", groups(dict(structure="top-down", layer=la, D=D, depth=1, R=R, K=K), seed)))
    for st, la in ARCH:
        for D in (2, 3, 4):
            for depth in range(0, M.max_depth(D) + 1):
                for R, K in ((1, 1), (2, 1), (2, 3)):
                    kw = dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=2, L=3)
                    out.append((f"cat2/{st}/{la}/D{D}/depth{depth}/R{R}K{K}", discrete(kw, "cat2", seed)))
        for leaf in ("cat3", "bin1", "bin2", "bin3", "ber"):
            for C, D, R in ((1, 3, 1), (1, 3, 2), (2, 2, 1), (2, 2, 2)):
                kw = dict(structure=st, layer=la, D=D, depth=1, R=R, K=2, S=2, L=2, C=C)
                out.append((f"{leaf}/{st}/{la}/C{C}D{D}R{R}", discrete(kw, leaf, seed)))
        kw = dict(structure=st, layer=la, D=3, depth=1, R=2, K=2, S=2, L=2, C=2)
        out.append((f"cat2/{st}/{la}/C2D3R2", discrete(kw, "cat2", seed)))
        out.append((f"train/{st}/{la}", discrete(dict(kw, C=1), "cat2", seed, train=True)))
        for D, depth, R in ((3, 1, 1), (4, 2, 1), (3, 1, 2)):
            out.append((f"allperm/{st}/{la}/D{D}R{R}", perms(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=1, S=2, L=2), seed)))
        for leaf in ("norm", "rat"):
            for R, depth in ((1, 0), (1, 1), (2, 1)):
                out.append((f"{leaf}/{st}/{la}/R{R}d{depth}", gaussian(dict(structure=st, layer=la, D=2, depth=depth, R=R, K=2), leaf, seed)))
    if tier == "thorough":
        for st, la in ARCH:
            for D in (5, 6):
                for depth in range(0, 3):
                    for R in (1, 3):
                        kw = dict(structure=st, layer=la, D=D, depth=depth, R=R, K=2, S=3, L=2)
                        out.append((f"cat2/{st}/{la}/D{D}/depth{depth}/R{R}K2", discrete(kw, "cat2", seed)))
            out.append((f"allperm/{st}/{la}/D5R1", perms(dict(structure=st, layer=la, D=5, depth=1, R=1, K=1, S=2, L=2), seed)))
    return out
