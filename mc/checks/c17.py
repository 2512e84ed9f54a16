"""C17: return_leaf_params gives the parameters of the leaves that the sampler picked."""
import itertools

import torch

from .. import models as M
from ..explore import Chooser, Explorer, HarnessError, World
from ..sampling import distance, rows
from .c08 import Winners

from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer  # noqa: E402

LEVEL = "model_checking"
BOUNDS = ("D<=4, depth<=2, repetitions<=3, leaves<=3, classes<=2, channels<=2, batches of 1 and 2 rows; every answer of every random draw; "
          "every partial assignment of 3 variables as evidence; every winner of every differentiable draw (first 400 per case)")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))
PARAMS = {"norm": 2, "rat": 2, "ber": 1}


def leaf(m):
    return next(x for x in m.modules() if isinstance(x, M_LEAVES) and not any(x is d for p in m.modules() if isinstance(p, MultiDistributionLayer) for d in p.dists))


M_LEAVES = (M.Normal, M.RatNormal, M.Bernoulli, M.Binomial, M.Categorical, MultiDistributionLayer)


def table(m, cfg):
    """all parameters, [C, D, L, R, P] and the value each leaf answers when asked for its mode, [C, D, L, R]"""
    lf = leaf(m)
    with torch.no_grad():
        p = lf.get_params()[0].detach().clone()
    return p


def check_rows(rec, cfg, tab, t, modes, rep):
    """every vector is the parameter vector of an existing leaf of its channel and feature, all of one repetition"""
    C, D = cfg.num_channels, cfg.num_features
    for i in range(t.shape[0]):
        ok_r = []
        for r in range(cfg.num_repetitions):
            close = (tab[:, :, :, r] - t[i][:, :, None]).abs().amax(-1) < 2e-3 * (1 + t[i].abs().amax(-1))[:, :, None]
            ok_r.append(bool(close.any(-1).all()))
        rec.expect(any(ok_r), "foreign", lambda: f"returned parameters {t[i].tolist()} are not those of leaves of one repetition {tab.tolist()} ({rep})", rep)


def mode_of(tab, modes, t, C, D):
    """parameter vectors -> the modes of the leaves they belong to (unique by construction of the parameters)"""
    out = torch.empty(t.shape[0], C, D)
    for c in range(C):
        for d in range(D):
            flat = tab[c, d].reshape(-1, tab.shape[-1])
            dist = (flat[None] - t[:, c, d][:, None]).abs().amax(-1)
            out[:, c, d] = modes[c, d].reshape(-1)[dist.argmin(1)]
    return out


def distinct(m, cfg, name, seed):
    """pairwise different modes and parameters in every channel and feature"""
    C, D, L, R = cfg.num_channels, cfg.num_features, cfg.num_leaves, cfg.num_repetitions
    n = L * R
    ids = torch.stack([(torch.arange(n).reshape(L, R) + c + 2 * d) % n for c in range(C) for d in range(D)]).reshape(C, D, L, R).float()
    g = torch.Generator().manual_seed(seed)
    jit = torch.rand(1, C, D, L, R, generator=g) * 0.4
    with torch.no_grad():
        for lf in m.modules():
            if isinstance(lf, (M.Normal,)):
                i = ids[:, :lf.means.shape[2]]
                lf.means.copy_(i * 3 - 4 + jit[:, :, :i.shape[1]])
                lf.logvar.copy_(jit[:, :, :i.shape[1]] * 3 - 1)
            elif isinstance(lf, M.RatNormal):
                lf.means.copy_(ids * 3 - 4 + jit)
                lf.stds.copy_(jit * 4 - 2) if hasattr(lf, "stds") else None
            elif isinstance(lf, M.Categorical):
                lf.logits.copy_(torch.randn(lf.logits.shape, generator=g) * 0.3)
                i = ids[:, :lf.logits.shape[2]].long()
                lf.logits.scatter_(-1, i[None, ..., None], 2 + jit[:, :, :i.shape[1]][..., None])
            elif isinstance(lf, M.Binomial):
                i = ids[:, :lf.logits.shape[2]]
                lf.logits.copy_(torch.logit((i + 0.5) / (lf.total_count + 1)) + 0.02 * jit[:, :, :i.shape[1]])
            elif isinstance(lf, M.Bernoulli):
                i = ids[:, :lf.probs.shape[2]]
                lf.probs.copy_((i % 2 * 2 - 1) * (0.5 + i))
    return m


def lname(name, n):
    return {"cat": f"cat{n}", "bin": f"bin{max(n - 1, 1)}"}.get(name, name)


def make(kw, name, seed):
    n = kw["L"] * kw["R"]
    if name.startswith("multi"):
        from simple_einet.einet import Einet, EinetConfig
        order = [int(v) for v in name[5:]]
        k = len(order) // 2
        cfg = EinetConfig(num_features=kw["D"], num_channels=kw.get("C", 1), num_sums=kw["S"], num_leaves=kw["L"], num_repetitions=kw["R"], num_classes=kw["K"],
                          depth=kw["depth"], dropout=0.0, leaf_type=MultiDistributionLayer,
                          leaf_kwargs={"scopes_to_dist": [(order[:k], M.Normal, {}), (order[k:], M.Categorical, {"num_bins": n})]},
                          layer_type=kw["layer"], structure=kw["structure"])
    else:
        cfg = M.config(leaf=lname(name, n), **kw)
    m = M.randomize(M.build(cfg, seed), seed, 0.7)
    return cfg, distinct(m, cfg, name, seed)


def truth(m, cfg):
    """the mode of every leaf, from its own definition"""
    C, D, L, R = cfg.num_channels, cfg.num_features, cfg.num_leaves, cfg.num_repetitions
    lf = leaf(m)

    def one(lf):
        with torch.no_grad():
            if isinstance(lf, M.Normal):
                return lf.means[0].clone()
            if isinstance(lf, M.RatNormal):
                lo, hi = lf.min_mean, lf.max_mean
                return (lf.means if hi is None else torch.sigmoid(lf.means) * (hi - lo) + lo)[0].clone()
            if isinstance(lf, M.Categorical):
                return lf.logits[0].argmax(-1).float()
            if isinstance(lf, M.Binomial):
                return torch.floor(torch.sigmoid(lf.logits[0]) * (lf.total_count + 1)).clamp(max=lf.total_count)
            if isinstance(lf, M.Bernoulli):
                return (lf.probs[0] > 0).float()
    if not isinstance(lf, MultiDistributionLayer):
        return one(lf)
    out = torch.zeros(C, D, L, R)
    for (scope, _, _), d in zip(cfg.leaf_kwargs["scopes_to_dist"], lf.dists):
        out[:, list(scope)] = one(d)
    return out


def expected_params(m, cfg):
    """the documented parameter vectors, by feature, padded with zeros: [C, D, L, R, P]"""
    lf = leaf(m)

    def one(lf):
        with torch.no_grad():
            if isinstance(lf, M.Normal):
                return torch.stack([lf.means[0], lf.logvar[0]], -1)
            if isinstance(lf, M.Categorical):
                return lf.logits[0].clone()
            if isinstance(lf, M.Binomial):
                return lf.logits[0].unsqueeze(-1).clone()
            if isinstance(lf, M.Bernoulli):
                return lf.probs[0].unsqueeze(-1).clone()
            # RatNormal: mean and standard deviation, read off its density
            lp = [lf(torch.full((1, lf.num_channels, lf.num_features), v), None)[0].double() for v in (-1.0, 0.0, 1.0)]
            var = -1 / (lp[2] + lp[0] - 2 * lp[1])
            return torch.stack([(lp[2] - lp[0]) / 2 * var, var.sqrt()], -1).float()
    if not isinstance(lf, MultiDistributionLayer):
        return one(lf)
    parts = [one(d) for d in lf.dists]
    P = max(p.shape[-1] for p in parts)
    out = torch.zeros(cfg.num_channels, cfg.num_features, cfg.num_leaves, cfg.num_repetitions, P)
    for (scope, _, _), p in zip(cfg.leaf_kwargs["scopes_to_dist"], parts):
        out[:, list(scope), ..., :p.shape[-1]] = p
    return out


def law(m, cfg, tab, modes, params, rec, rep, limit, **kw):
    """{modes of the chosen leaves: probability} over all draws of one call"""
    ex = Explorer(limit)
    out = {}
    C, D, P = cfg.num_channels, cfg.num_features, tab.shape[-1]
    n = kw["evidence"].shape[0] if kw.get("evidence") is not None else kw["num_samples"]

    def run(ch):
        with World(ch, eps=(0.9,)):
            return m.sample(return_leaf_params=True, **kw) if params else m.sample(mpe_at_leaves=True, **kw)

    for t, p, trail in ex.run(run):
        t = t.detach()
        if params:
            if not rec.expect(tuple(t.shape) == (n, C, D, P), "shape", lambda: f"parameters of shape {tuple(t.shape)} instead of {(n, C, D, P)} ({rep})", rep):
                return None
            check_rows(rec, cfg, tab, t, modes, rep)
            t = mode_of(tab, modes, t, C, D)
            if kw.get("evidence") is not None:
                e = kw["evidence"]
                t = torch.where(torch.isnan(e), t, e)
        k = rows(t)
        rec.outcome(k)
        out[k] = out.get(k, 0.0) + p
    rec.explored(ex)
    return out


def compare(rec, m, cfg, rep, limit=20000, **kw):
    modes, tab = truth(m, cfg), expected_params(m, cfg)
    a = law(m, cfg, tab, modes, True, rec, rep, limit, **kw)
    b = law(m, cfg, tab, modes, False, rec, rep, limit, **kw)
    if a is None:
        return
    d, at = distance(a, b)
    rec.expect(d < 2e-4, "law", lambda: f"leaves with modes {at} are reported with probability {a.get(at, 0):.5f} but sampled with {b.get(at, 0):.5f} ({rep})", rep)


def free(kw, name, seed):
    def case(rec):
        cfg, m = make(kw, name, seed)
        rep = {"config": M.describe(cfg), "seed": seed}
        got = leaf(m).get_params().detach()
        want = expected_params(m, cfg)
        rec.expect(tuple(got.shape[1:]) == tuple(want.shape) and bool(torch.allclose(got[0], want, atol=2e-3 if name == 'rat' else 1e-6)), "get-params", lambda: f"get_params() is not the parameters by feature ({rep})", rep)
        small = kw["depth"] < 2 and kw["D"] * kw.get("C", 1) < 5
        for n in (1, 2) if small and kw["R"] == 1 else (1,):
            compare(rec, m, cfg, rep, num_samples=n)
        compare(rec, m, cfg, rep, num_samples=2, is_mpe=True)
        if cfg.num_classes > 1:
            compare(rec, m, cfg, rep, num_samples=1, class_index=1)
        compare(rec, m, cfg, rep, num_samples=1, temperature_sums=0.5)
        rec.sample(rep)
    return case


def given(kw, name, seed):
    def case(rec):
        cfg, m = make(kw, name, seed)
        C, D = cfg.num_channels, cfg.num_features
        vals = (0.25, 2.0) if name in ("norm", "rat") else (0.0, 1.0)
        for t in itertools.product((*vals, M.NAN), repeat=D):
            if not any(v != v for v in t):
                continue
            e = torch.tensor(t).reshape(1, 1, D).repeat(1, C, 1)
            rep = {"config": M.describe(cfg), "seed": seed, "evidence": t}
            compare(rec, m, cfg, rep, evidence=e)
            compare(rec, m, cfg, rep, evidence=e, is_mpe=True)
        pair = torch.tensor([[M.NAN, vals[0]] + [M.NAN] * (D - 2), [vals[1]] + [M.NAN] * (D - 1)]).reshape(2, 1, D).repeat(1, C, 1)
        compare(rec, m, cfg, {"config": M.describe(cfg), "evidence": pair.tolist()}, evidence=pair)
        rec.sample(rep)
    return case


def races(kw, name, seed, n=1):
    """differentiable: under the same winners, the parameters reported are those of the leaves sampled"""
    def case(rec):
        cfg, m = make(kw, name, seed)
        C, D = cfg.num_channels, cfg.num_features
        modes, tab = truth(m, cfg), expected_params(m, cfg)
        rep = {"config": M.describe(cfg), "seed": seed, "differentiable": True}
        ex = Explorer(400)

        def run(ch, **kw2):
            with Winners(ch, eps=(0.9,)):
                return m.sample(num_samples=n, is_differentiable=True, **kw2)

        seen = {True: set(), False: set()}
        for t, p, trail in ex.run(lambda ch: run(ch, return_leaf_params=True)):
            if not rec.expect(tuple(t.shape) == (n, C, D, tab.shape[-1]), "diff-shape", lambda: f"parameters of shape {tuple(t.shape)} ({rep})", rep):
                break
            rec.expect(t.requires_grad, "diff-detached", "the parameters are detached from the model", rep)
            t = t.detach()
            check_rows(rec, cfg, tab, t, modes, dict(rep, choices=trail))
            mine = mode_of(tab, modes, t, C, D)
            idx = Chooser([(a, b) for a, b in trail])
            try:
                other = run(idx, mpe_at_leaves=True).detach()
                if len(idx.trail) != len(trail):
                    raise HarnessError
            except HarnessError:  # the two calls do not draw in the same order
                seen[True].add(rows(mine))
                continue
            rec.outcome(rows(mine))
            rec.expect(mine.shape == other.shape and bool(((mine - other).abs() < 1e-2).all()), "diff-value",
                       lambda: f"winners {trail}: parameters of leaves with modes {mine.tolist()}, but sampled {other.tolist()} ({rep})", dict(rep, choices=trail))
        rec.explored(ex)
        a, b = (m.sample(num_samples=2, is_mpe=True, return_leaf_params=True, is_differentiable=d).detach() for d in (False, True))
        rec.expect(a.shape == b.shape and bool(torch.allclose(a, b, atol=1e-3)), "diff-mpe", lambda: f"differentiable and index-based MPE report different leaves ({rep})", rep)
        rec.sample(rep)
    return case


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for st, la in ARCH:
        for name in ("norm", "rat", "cat", "bin", "ber", "multi2031"):
            for D, C, depth, R, L, K in ((2, 1, 1, 1, 2, 1), (3, 1, 1, 1, 2, 2), (3, 2, 1, 1, 2, 1), (2, 1, 1, 2, 2, 1), (3, 1, 0, 2, 2, 2), (4, 1, 2, 1, 2, 1), (3, 1, 1, 1, 3, 1)) + (
                    ((5, 1, 1, 2, 2, 2), (4, 2, 1, 2, 2, 1), (3, 1, 1, 3, 2, 1)) if big else ()):
                if name.startswith("multi"):
                    D = 4
                    depth = min(depth, 1) if la == "einsum" else depth
                    if depth == 2 and R == 2:
                        continue
                elif name in ("rat", "ber") and (D, R) not in ((3, 1), (2, 2)):
                    continue
                if name == "ber" and R * L > 2 and not big:
                    continue
                kw = dict(structure=st, layer=la, D=D, C=C, depth=depth, R=R, S=2, L=L, K=K)
                tag = f"{name}/{st}/{la}/D{D}C{C}d{depth}R{R}L{L}K{K}"
                out.append((f"free/{tag}", free(kw, name, seed)))
                out.append((f"races/{tag}", races(kw, name, seed, n=2 if D == 2 else 1)))
        for name in ("norm", "cat", "bin"):
            for D, C, depth, R, K in ((3, 1, 1, 1, 2), (2, 2, 1, 2, 1)) + (((3, 1, 1, 2, 2), (4, 1, 2, 1, 1)) if big else ()):
                kw = dict(structure=st, layer=la, D=D, C=C, depth=depth, R=R, S=2, L=2, K=K)
                out.append((f"given/{name}/{st}/{la}/D{D}C{C}d{depth}R{R}K{K}", given(kw, name, seed)))
    return list(dict(out).items())
