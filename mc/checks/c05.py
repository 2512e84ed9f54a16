"""C05: a conditional query fills exactly the missing entries and touches nothing else."""
import itertools

import torch

from .. import models as M
from ..explore import Explorer, World

LEVEL = "model_checking"
BOUNDS = ("every partial assignment of up to 3 variables (2 channels: 2 variables), every pair of rows for batches of 2, every subset as "
          "marginalized_scopes, every answer of every draw; layouts [N,D], [N,C,D], [N,C,H,W]; draws of at most 2 cells are answered "
          "cell by cell, larger ones with one shared answer")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))
MODES = {
    "sample": dict(), "mpe": dict(is_mpe=True), "mpe_leaves": dict(mpe_at_leaves=True),
    "diff": dict(is_differentiable=True), "diff_mpe": dict(is_differentiable=True, is_mpe=True), "seed": dict(seed=3),
    "temp": dict(temperature_leaves=0.5, temperature_sums=2.0),
}
EV = {"cat2": (0.0, 1.0), "bin2": (0.0, 2.0), "ber": (0.0, 1.0), "norm": (-0.30000001192092896, 4.5), "rat": (0.25, 0.75)}


def snapshot(m):
    return ({k: v.clone() for k, v in m.state_dict().items()}, m.training,
            {k: (p.requires_grad, p.grad is None) for k, p in m.named_parameters()})


def same(a, b):
    return (a[1:] == b[1:] and set(a[0]) == set(b[0]) and all(torch.equal(torch.nan_to_num(a[0][k].float()), torch.nan_to_num(b[0][k].float())) for k in a[0]))


def query(rec, m, cfg, e, mode, dom, scopes=None, mpe_call=False, tie=2):
    """run one conditional query under every answer of its draws"""
    kw = dict(MODES[mode])
    keep = e.clone()
    if scopes is None:
        miss = torch.isnan(keep)
    else:
        miss = torch.zeros(keep.shape, dtype=torch.bool)
        v = miss.view(keep.shape[0], -1, cfg.num_features) if keep.is_contiguous() else miss.reshape(keep.shape[0], -1, cfg.num_features)
        v[:, :, scopes] = True
        kw["marginalized_scopes"] = list(scopes)
    snap = snapshot(m)
    ex = Explorer()
    rep = {"config": M.describe(cfg), "mode": mode, "evidence": e.tolist(), "scopes": scopes}
    eps = (0.0, 1.5) if dom is None and int(miss.sum()) <= 2 and not kw.get("is_differentiable") else (0.7,)

    def run(ch):
        torch.manual_seed(1)
        with World(ch, eps=eps, uniform=(0.3,), real=("rand",) if kw.get("is_differentiable") or "seed" in kw else (), tie=tie) as w:
            if mpe_call:
                return m.mpe(e, marginalized_scopes=kw.get("marginalized_scopes"), is_differentiable=bool(kw.get("is_differentiable")))
            return m.sample(evidence=e, **kw)

    for out, p, trail in ex.run(run):
        rp = dict(rep, choices=trail)
        rec.expect(tuple(out.shape) == tuple(keep.shape), "shape", lambda: f"evidence of shape {tuple(keep.shape)} gives a result of shape {tuple(out.shape)} ({rep})", rp)
        rec.expect(torch.equal(torch.nan_to_num(e, nan=-77.0), torch.nan_to_num(keep, nan=-77.0)), "evidence-mutated", lambda: f"the caller's evidence was changed ({rep})", rp)
        if tuple(out.shape) != tuple(keep.shape):
            continue
        o = out.detach()
        rec.expect(o.data_ptr() != e.data_ptr(), "alias", "the result shares memory with the evidence", rp)
        rec.expect(torch.equal(o[~miss], keep[~miss].to(o.dtype)), "observed-changed", lambda: f"observed entries changed: {keep.tolist()} -> {o.tolist()} ({rep})", rp)
        v = o[miss]
        rec.expect(bool(torch.isfinite(v).all()), "not-filled", lambda: f"missing entries are not filled: {keep.tolist()} -> {o.tolist()} ({rep})", rp)
        if dom is not None and mode not in ("diff", "diff_mpe"):
            rec.expect(all(float(t) in dom for t in v), "domain", lambda: f"{v.tolist()} not in the domain {dom} ({rep})", rp)
        rec.outcome(hash((mode, tuple(o.reshape(-1).tolist()))))
    rec.explored(ex)
    rec.expect(same(snap, snapshot(m)), "model-changed", lambda: f"the query changed parameters, buffers or flags of the model ({rep})", rep)


def general(kw, leaf, seed, modes):
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        dom = M.leaf_spec(leaf)[2]
        m = M.randomize(M.build(cfg, seed), seed)
        C, D = cfg.num_channels, cfg.num_features
        ev = EV[leaf]
        pats = itertools.product((*ev, M.NAN), repeat=C * D)
        for t in pats:
            e = torch.tensor(t).reshape(1, C, D)
            for mode in modes:
                query(rec, m, cfg, e, mode, dom)
            query(rec, m, cfg, e, "mpe", dom, mpe_call=True)
        rec.sample(M.describe(cfg))
    return case


def forms(kw, leaf, seed):
    """marginalized_scopes, batches, layouts and dtypes"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        dom = M.leaf_spec(leaf)[2]
        m = M.randomize(M.build(cfg, seed), seed)
        C, D = cfg.num_channels, cfg.num_features
        ev = EV[leaf]
        for t in list(itertools.product(ev, repeat=C * D))[:: 1 if C * D < 3 else 5]:
            e = torch.tensor(t).reshape(1, C, D)
            for S in M.subsets(D):
                for mode in ("sample", "mpe", "diff"):
                    query(rec, m, cfg, e, mode, dom, scopes=list(S), tie=2 if D < 4 else 1)
        rows = list(itertools.product((*ev, M.NAN), repeat=C * D))
        step = max(1, len(rows) ** 2 // 24) | 1
        for a, b in list(itertools.product(rows, rows))[::step]:
            e = torch.tensor([a, b]).reshape(2, C, D)
            query(rec, m, cfg, e, "sample", dom, tie=1)
            query(rec, m, cfg, e, "mpe", dom, tie=1)
            query(rec, m, cfg, e, "diff", dom, tie=1)
        for t in rows[:: max(1, len(rows) // 9) | 1][:: 1 if D < 4 else 3]:
            e = torch.tensor(t).reshape(1, C, D)
            lay = {"strided": torch.stack([e, e], -1)[..., 0], "transposed": e.transpose(1, 2).contiguous().transpose(1, 2)}
            if C == 1:
                lay["2d"] = e.reshape(1, D)
            if D % 2 == 0:
                lay["4d"] = e.reshape(1, C, 2, D // 2)
                lay["4d-b"] = e.reshape(1, C, D // 2, 2)
                lay["4d-transposed"] = e.reshape(1, C, 2, D // 2).transpose(2, 3).contiguous().transpose(2, 3)
            for name, x in lay.items():
                for mode in ("sample", "mpe"):
                    query(rec, m, cfg, x, mode, dom, tie=1)
                if name == "4d" or name == "2d":
                    query(rec, m, cfg, x, "sample", dom, scopes=[D - 1] if not any(v != v for v in t) else None)
        rec.sample(M.describe(cfg))
    return case


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for st, la in ARCH:
        for leaf in ("cat2", "bin2", "ber", "norm", "rat"):
            for D, C, depth, R, K in ((3, 1, 1, 1, 1), (2, 2, 1, 1, 2), (2, 1, 1, 2, 2), (2, 1, 0, 2, 1)) + (((4, 1, 2, 2, 2),) if big else ()):
                kw = dict(structure=st, layer=la, D=D, C=C, depth=depth, R=R, K=K, S=2, L=2)
                # all modes (each includes an exhaustive DFS) on the smaller models
                modes = tuple(MODES) if leaf in ("cat2", "norm") and D * C == 2 else ("sample", "diff")
                out.append((f"all/{leaf}/{st}/{la}/D{D}C{C}d{depth}R{R}K{K}", general(kw, leaf, seed, modes)))
        for leaf in ("cat2", "norm"):
            for D, C, R, K in ((2, 1, 2, 1), (2, 1, 1, 2), (2, 2, 1, 1), (4, 1, 1, 1)):
                kw = dict(structure=st, layer=la, D=D, C=C, depth=1, R=R, K=K, S=2, L=2)
                out.append((f"forms/{leaf}/{st}/{la}/D{D}C{C}R{R}K{K}", forms(kw, leaf, seed)))
    return list(dict(out).items())
