"""C12: the rows of a batch do not influence one another, and the layout of the input does not matter."""
import copy
import itertools

import torch

from .. import models as M

LEVEL = "model_checking"
BOUNDS = ("every batch of up to 3 rows (thorough: 4) over an alphabet of 7 to 9 rows (values, missing entries, extreme values); batches of 40 sizes up to 10001 rows of that alphabet; layouts [N,D], [N,C,D], "
          "[N,C,H,W] for 1 to 3 channels; four integer types and double precision; forward, posterior, MPE (plain and differentiable)")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))


def alphabet(leaf, n):
    """rows with values of the domain, missing entries, and values far outside the bulk of the distribution"""
    N = M.NAN
    if leaf in ("norm", "rat"):
        v = ((0.0, 1.0), (-2.0, N), (N, N), (40.0, -40.0), (N, 1e3), (0.5, 0.5), (1e-3, -7.0))
    elif leaf == "mvn2":
        v = ((0.0, 1.0), (-2.0, 0.3), (40.0, -40.0), (1e2, 3.0), (0.5, 0.5))
    else:
        top = M.leaf_spec(leaf)[2][-1]
        v = ((0.0, 1.0), (1.0, 0.0), (top, top), (0.0, 0.0), (N, 1.0), (top, N), (N, N))
    return [tuple(r[i % 2] if i < 2 or i % 3 else r[0] for i in range(n)) for r in v]


def close(a, b, slack=0.0):
    return a.shape == b.shape and bool(torch.isclose(a, b, atol=2e-5 + slack, rtol=2e-5, equal_nan=False).all())


def batches(kw, leaf, seed, k):
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        if leaf.startswith("mvn"):
            for mod in M.leaf_modules(m, M.MultivariateNormal):
                mod.L_diag_log.data.mul_(0.3)
        D, C = cfg.num_features, cfg.num_channels
        al = [torch.tensor(r).reshape(C, D) for r in alphabet(leaf, C * D)]
        fs = {"forward": lambda x: m(x)}
        if not leaf.startswith("mvn"):
            fs["mpe"] = lambda x: m.mpe(evidence=x)
            fs["forward with marginalized_scopes"] = lambda x: m(torch.nan_to_num(x, nan=0.0), marginalized_scopes=[D - 1])
            fs["differentiable mpe"] = lambda x: m.mpe(evidence=x, is_differentiable=True)
        if cfg.num_classes > 1:
            fs["posterior"] = lambda x: m.posterior(x)
        for what, f in fs.items():
            with torch.no_grad():
                ref = [f(r[None].clone())[0] for r in al]
                # a posterior is a difference of log-likelihoods: their rounding shows in it
                slack = [2e-6 * float(m(r[None].clone()).abs().max()) if what == "posterior" else 0.0 for r in al]
            for r, o in zip(al, ref):
                rec.expect(bool(torch.isfinite(o).all()), "finite", lambda: f"{what}({r.tolist()}) = {o.tolist()} ({M.describe(cfg)})", {"config": M.describe(cfg), "seed": seed, "row": r.tolist()})
            for n in range(1, k + 1):
                if n == k and what not in ("forward", "mpe"):
                    continue
                for idx in itertools.product(range(len(al)), repeat=n):
                    x = torch.stack([al[i] for i in idx])
                    keep = x.clone()
                    with torch.no_grad():
                        got = f(x)
                    rec.ran()
                    rec.state()
                    if cfg.num_classes > 1 and "mpe" in what:  # with nothing observed all classes are equally probable
                        sel = [j for j, i in enumerate(idx) if not bool(torch.isnan(al[i]).all())]
                    else:
                        sel = list(range(n))
                    ok = got.shape == (n, *ref[0].shape) and all(close(got[j], ref[idx[j]], slack[idx[j]]) for j in sel)
                    rec.expect(ok, what, lambda: f"{what} of the batch {keep.tolist()} is {got.tolist()}, row by row {[ref[i].tolist() for i in idx]} ({M.describe(cfg)})",
                               {"config": M.describe(cfg), "seed": seed, "batch": keep.tolist()})
            for o in ref:
                rec.outcome(hash(tuple(o.reshape(-1).tolist())))
        rec.sample(dict(M.describe(cfg), rows=len(al)))
    return case


SIZES = tuple(range(4, 21)) + (31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097, 10001)


def large(kw, leaf, seed):
    """batches of many rows: every rotation of the alphabet, repeated to the size"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        D, C = cfg.num_features, cfg.num_channels
        al = torch.stack([torch.tensor(r).reshape(C, D) for r in alphabet(leaf, C * D)])
        al = al[~torch.isnan(al).flatten(1).all(1)]
        fs = {"forward": lambda x: m(x), "mpe": lambda x: m.mpe(evidence=x), "differentiable mpe": lambda x: m.mpe(evidence=x, is_differentiable=True),
              "forward with marginalized_scopes": lambda x: m(torch.nan_to_num(x, nan=0.0), marginalized_scopes=[D - 1])}
        if cfg.num_classes > 1:
            fs["posterior"] = lambda x: m.posterior(x)
        for what, f in fs.items():
            with torch.no_grad():
                ref = torch.cat([f(r[None].clone()) for r in al])
                slack = 2e-6 * float(m(al.clone()).abs().max()) if what == "posterior" else 0.0
            for n in SIZES:
                if n > 1100 and "mpe" in what:
                    continue
                for off in range(len(al) if n < 600 else 1):
                    idx = torch.arange(off, off + n) % len(al)
                    idx[-1] = off  # the last row is not always the same one
                    with torch.no_grad():
                        got = f(al[idx].clone())
                    rec.ran()
                    rec.state(1, n)
                    ok = got.shape == (n, *ref.shape[1:]) and close(got, ref[idx], slack)
                    rec.expect(ok, what + ":large", lambda: f"{what} of a batch of {n} rows differs from the rows alone, first in row "
                               f"{int((got != ref[idx]).flatten(1).any(1).nonzero()[0]) if got.shape == (n, *ref.shape[1:]) else got.shape} ({M.describe(cfg)})",
                               {"config": M.describe(cfg), "seed": seed, "rows": n, "offset": off})
            for o in ref:
                rec.outcome(hash(tuple(o.reshape(-1).tolist())))
        for n in SIZES[-8:] + (10000,):
            s = m.sample(num_samples=n)
            rec.expect(s.shape == (n, C, D) and bool(torch.isfinite(s).all()), "sample-shape", lambda: f"sample(num_samples={n}) has shape {tuple(s.shape)}")
    return case


def layouts(C, D, hw, kw, leaf, seed):
    """the same data as [N, C, D], [N, C, H, W] and (one channel) [N, D]"""
    def case(rec):
        cfg = M.config(leaf=leaf, C=C, D=D, **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        vals = (0.0, 1.0, M.NAN)
        n = C * D
        pats = list(itertools.product(vals, repeat=n)) if n <= 4 else [tuple(vals[(a >> i & 1) if not o >> i & 1 else 2] for i in range(n)) for a in (0, 21, 63, 38) for o in range(0, 2**n, 3 if n < 8 else 37)]
        x = torch.tensor(pats).reshape(-1, C, D)
        if cfg.num_classes > 1:
            x = x[~torch.isnan(x).flatten(1).all(1)]
        base = {"forward": m(x.clone()).detach(), "mpe": m.mpe(evidence=x.clone()).detach()}
        fs = {"forward": lambda y: m(y), "mpe": lambda y: m.mpe(evidence=y), "mpe diff": lambda y: m.mpe(evidence=y, is_differentiable=True)}
        base["mpe diff"] = m.mpe(evidence=x.clone(), is_differentiable=True).detach()
        if cfg.num_classes > 1:
            fs["posterior"] = lambda y: m.posterior(y)
            base["posterior"] = m.posterior(x.clone()).detach()
        alts = {f"[N,C,{h},{w}]": (x.reshape(len(x), C, h, w), h * w) for h, w in hw}
        # the same values behind other strides
        for h, w in hw:
            y = x.reshape(len(x), C, h, w)
            alts[f"[N,C,{h},{w}] with transposed storage"] = (y.transpose(2, 3).contiguous().transpose(2, 3), D)
            alts[f"[N,C,{h},{w}] channels last"] = (y.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2), D)
            alts[f"[N,C,{h},{w}] sliced"] = (torch.stack([y, y + 1], -1)[..., 0], D)
        alts["[N,C,D] with transposed storage"] = (x.transpose(1, 2).contiguous().transpose(1, 2), D)
        alts["[N,C,D] batch last"] = (x.permute(1, 2, 0).contiguous().permute(2, 0, 1), D)
        if C == 1:
            alts["[N,D]"] = (x.reshape(len(x), D), D)
            alts["[N,D] with transposed storage"] = (x.reshape(len(x), D).t().contiguous().t(), D)
        for name, (y, _) in alts.items():
            for what, f in fs.items():
                for sel in (slice(None), slice(0, 1), slice(1, 3)):
                    z = y[sel] if "storage" in name or "sliced" in name or "last" in name else y[sel].clone()
                    got = f(z).detach()
                    want = base[what][sel]
                    rec.ran()
                    rec.state(len(z), len(z))
                    if "mpe" in what:
                        rec.expect(got.shape == z.shape, "shape", lambda: f"{what} of {name} returns {tuple(got.shape)}", None)
                        got = got.reshape(want.shape)
                    rec.expect(got.shape == want.shape and close(got, want), what, lambda: f"{what} differs between [N,C,D] and {name}: {got.tolist()[:2]} vs {want.tolist()[:2]} ({M.describe(cfg)})",
                               {"config": M.describe(cfg), "seed": seed})
        for o in base["forward"]:
            rec.outcome(hash(tuple(o.tolist())))
        # sizes of what is generated
        for k in (1, 2, 5):
            for kws in (dict(), dict(is_differentiable=True), dict(is_mpe=True), dict(mpe_at_leaves=True), dict(is_mpe=True, is_differentiable=True)):
                s = m.sample(num_samples=k, **kws)
                rec.ran()
                rec.expect(s.shape == (k, C, D), "sample-shape", lambda: f"sample(num_samples={k}, {kws}) has shape {tuple(s.shape)}, not {(k, C, D)} ({M.describe(cfg)})")
        rec.expect(m.sample().shape == (1, C, D) and m.mpe().shape == (1, C, D), "sample-shape", "sample() without arguments must return one sample")
        # wrong shapes are rejected
        bad = [torch.zeros(2, C + 1, D), torch.zeros(2, C, D + 1), torch.zeros(2, C, D - 1) if D > 1 else None, torch.zeros(D), torch.zeros(2, C, D, 1, 1)]
        # images of the right number of values, but with other numbers of channels
        bad += [torch.zeros(2, k, C * D // k, 1) for k in range(1, C * D + 1) if C * D % k == 0 and k != C]
        bad += [torch.zeros(2, C + 1, D, 1), torch.zeros(2, C, D + 1, 1), torch.zeros(2, C, 2, D)]
        for b in bad:
            if b is None:
                continue
            try:
                o = m(b)
                ok = False
            except Exception:
                ok = True
            rec.ran()
            rec.expect(ok, "accepted", lambda: f"an input of shape {tuple(b.shape)} is accepted by a model of {C} channels and {D} features ({M.describe(cfg)})")
    return case


KINDS = (torch.int64, torch.int32, torch.uint8, torch.int16)  # torch's Bernoulli rejects integers


def kinds(kw, leaf, seed):
    """whole numbers as integers, and everything in a double precision copy of the model"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        D, C = cfg.num_features, cfg.num_channels
        x = M.grid((0.0, 1.0), C * D).reshape(-1, C, D)
        fs = {"forward": lambda m, z: m(z)}
        if cfg.num_classes > 1:
            fs["posterior"] = lambda m, z: m.posterior(z)
        for S in ([0], [D - 1], list(range(1, D))):
            fs[f"forward without {S}"] = lambda m, z, S=S: m(z, marginalized_scopes=S)
            fs[f"MPE without {S}"] = lambda m, z, S=S: m.mpe(evidence=z, marginalized_scopes=S)
            fs[f"differentiable MPE without {S}"] = lambda m, z, S=S: m.mpe(evidence=z, marginalized_scopes=S, is_differentiable=True)
            fs[f"seeded sample without {S}"] = lambda m, z, S=S: m.sample(evidence=z, marginalized_scopes=S, seed=3)
        twin = copy.deepcopy(m).double()
        for what, f in fs.items():
            with torch.no_grad():
                want = f(m, x.clone()).double()
                res = {str(t): f(m, x.to(t)).double() for t in KINDS if leaf != "ber"}
                if "seeded" not in what:
                    res["double precision"] = f(twin, x.double()).double()
            for t, got in res.items():
                rec.ran()
                rec.state(1, len(x))
                rec.expect(got.shape == want.shape and torch.allclose(got, want, atol=1e-5, rtol=1e-5), "kind", lambda: f"{what} of {t} data differs from that of single precision ({M.describe(cfg)})",
                           {"config": M.describe(cfg), "seed": seed, "kind": t})
            rec.outcome(hash(tuple(want.reshape(-1).tolist())))
    return case


def cases(tier, seed):
    res = {}
    th = tier == "thorough"
    k = 4 if th else 3
    for st, la in ARCH:
        for leaf in ("cat3", "bin2", "ber", "norm", "rat"):
            for i, (D, dep, R, K, C) in enumerate(((2, 1, 1, 1, 1), (3, 1, 2, 2, 1), (4, 2, 3, 1, 1), (2, 1, 2, 3, 2), (5, 2, 1, 2, 1), (3, 0, 2, 1, 1))):
                if not th and (i + len(leaf) + len(la)) % 2:
                    continue
                kw = dict(structure=st, layer=la, D=D, depth=dep, R=R, K=K, C=C)
                res[M.cname(batches=leaf, **kw)] = batches(kw, leaf, seed + i, k)
        for leaf, D, dep, R, K, C in (("norm", 3, 1, 2, 2, 1), ("cat3", 5, 2, 1, 1, 1), ("bin2", 2, 1, 2, 3, 2), ("ber", 4, 0, 1, 2, 1), ("rat", 8, 3, 2, 2, 1)):
            kw = dict(structure=st, layer=la, D=D, depth=dep, R=R, K=K, C=C)
            res[M.cname(large=leaf, **kw)] = large(kw, leaf, seed)
        if st == "top-down":
            for R in (1, 2):
                kw = dict(structure=st, layer=la, D=4, depth=1, R=R, K=2)
                res[M.cname(batches="mvn2", **kw)] = batches(kw, "mvn2", seed + R, k)
        for leaf in ("cat3", "bin2", "ber", "norm", "rat"):
            for C, D, dep, R, K in ((1, 4, 2, 2, 2), (2, 3, 1, 1, 1)):
                kw = dict(structure=st, layer=la, D=D, C=C, depth=dep, R=R, K=K)
                res[M.cname(kinds=leaf, **kw)] = kinds(kw, leaf, seed)
        for leaf in ("ber", "norm", "cat2"):
            for C, D, hw in ((1, 4, ((2, 2), (4, 1), (1, 4))), (2, 4, ((2, 2),)), (3, 2, ((1, 2), (2, 1))), (2, 6, ((2, 3), (3, 2))), (1, 3, ((3, 1),)), (4, 4, ((2, 2),)), (1, 2, ((1, 2),))):
                for R, K in ((1, 1), (2, 2)):
                    kw = dict(structure=st, layer=la, depth=1, R=R, K=K)
                    res[M.cname(layouts=leaf, C=C, D=D, **kw)] = layouts(C, D, hw, kw, leaf, seed + C)
    return res
