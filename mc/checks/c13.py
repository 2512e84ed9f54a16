"""C13: exactly the valid configurations are accepted, and every accepted one yields a model on which every operation works."""
import itertools

import numpy as np
import torch

from .. import models as M
from ..models import Einet, EinetConfig
from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer

LEVEL = "model_checking"
BOUNDS = ("full grid: num_features 0..8, depth -1..4, 3 layer types, 2 structures, 7 leaf families, cardinality 1..4, repetitions and classes 1..2; "
          "every single-field deviation to an invalid value; every pair of deviations for the integer fields")
LAYERS = ("linsum", "linsum2", "einsum")
LEAVES = ("cat3", "bin2", "ber", "norm", "rat", "mvn1", "mvn2", "mvn3", "mvn4")


def valid(D, depth, layer, structure, card):
    if not (D >= 2 and depth >= 0):
        return False
    if structure == "bottom-up" and (layer != "linsum" or card != 1):
        return False
    return D % card == 0 and 2**depth <= D // card


def make(**kw):
    """-> model or the exception"""
    torch.manual_seed(3)
    np.random.seed(3)
    try:
        return Einet(EinetConfig(**kw))
    except Exception as e:
        return e


def works(rec, m, rep, mvn):
    """every operation runs and returns what its shape promises"""
    cfg = m.config
    C, D, K = int(cfg.num_channels), int(cfg.num_features), int(cfg.num_classes)
    for train in (True, False):
        m.train(train)
        x = (torch.arange(3 * C * D) % 2).float().reshape(3, C, D)
        try:
            what = "forward"
            ll = m(x.clone())
            rec.expect(ll.shape == (3, K) and bool(torch.isfinite(ll).all()), what, lambda: f"forward returns {ll.tolist()} ({rep})", rep)
            what = "backward"
            m.zero_grad()
            (-ll.mean()).backward()
            for n, p in m.named_parameters():
                if p.requires_grad:
                    rec.expect(p.grad is not None and bool(torch.isfinite(p.grad).all()), what, lambda: f"parameter {n} has gradient {p.grad} ({rep})", rep)
            if K > 1:
                what = "posterior"
                po = m.posterior(x.clone()).detach()
                rec.expect(po.shape == (3, K) and bool((po.exp().sum(1) - 1).abs().max() < 1e-4), what, lambda: f"posterior {po.tolist()} ({rep})", rep)
                what = "sample(class_index)"
                rec.expect(m.sample(num_samples=2, class_index=K - 1).shape == (2, C, D), what, f"wrong shape ({rep})", rep)
            what = "sample"
            rec.expect(m.sample(num_samples=4).shape == (4, C, D), what, f"wrong shape ({rep})", rep)
            what = "mpe"
            rec.expect(m.mpe().shape == (1, C, D), what, f"wrong shape ({rep})", rep)
            what = "differentiable sample"
            s = m.sample(num_samples=2, is_differentiable=True)
            rec.expect(s.shape == (2, C, D), what, f"wrong shape ({rep})", rep)
            if not mvn:
                e = x.clone()
                e[:, :, 0] = M.NAN
                what = "marginal forward"
                rec.expect(bool(torch.isfinite(m(e.clone())).all()), what, f"infinite ({rep})", rep)
                for what, f in (("conditional sample", lambda: m.sample(evidence=e)), ("conditional mpe", lambda: m.mpe(evidence=e)),
                                ("conditional differentiable sample", lambda: m.sample(evidence=e, is_differentiable=True)),
                                ("conditional sample, scopes", lambda: m.sample(evidence=x, marginalized_scopes=[0]))):
                    s = f().detach()
                    rec.expect(s.shape == e.shape and bool(torch.isfinite(s).all()) and torch.equal(s[:, :, 1:], e[:, :, 1:]), what, lambda: f"{what} returns {s.tolist()} ({rep})", rep)
        except Exception as e:
            rec.expect(False, f"{what}:{type(e).__name__}", f"{what} raises {type(e).__name__}: {str(e)[:200]} for an accepted configuration ({rep})", rep)
        rec.ran(10)


def grid(leaf, structure, layer, K, R, drop):
    def case(rec):
        lt, lkw, _ = M.leaf_spec(leaf)
        card = lkw.get("cardinality", 1)
        for D in range(0, 9):
            for depth in range(-1, 5):
                rep = dict(num_features=D, depth=depth, layer_type=layer, structure=structure, leaf=leaf, num_classes=K, num_repetitions=R, dropout=drop)
                m = make(num_features=D, num_channels=1 + (D + depth) % 2, num_sums=1 + D % 3, num_leaves=1 + depth % 3, num_repetitions=R, num_classes=K, depth=depth,
                         dropout=drop, leaf_type=lt, leaf_kwargs=lkw, layer_type=layer, structure=structure)
                ok = valid(D, depth, layer, structure, card)
                rec.state()
                rec.ran()
                rec.outcome((D, depth, ok))
                got = not isinstance(m, Exception)
                rec.expect(got == ok, "accepted" if got else "rejected", lambda: f"configuration is {'valid' if ok else 'invalid'} but {'a model is built' if got else 'building raises ' + repr(m)[:200]} ({rep})", rep)
                if got and ok:
                    works(rec, m, rep, leaf.startswith("mvn") and card > 1)
        rec.sample(dict(leaf=leaf, structure=structure, layer=layer, K=K, R=R))
    return case


GOOD = dict(num_features=4, num_channels=2, num_sums=2, num_leaves=3, num_repetitions=2, num_classes=2, depth=1, dropout=0.0, leaf_type=M.Normal, leaf_kwargs={},
            layer_type="linsum", structure="top-down")
INTS = ("num_channels", "num_sums", "num_leaves", "num_repetitions", "num_classes")
BAD = {
    **{f: (0, -1, -3, 1.5, 2.0, "2", None) for f in INTS},
    "num_features": (1, 0, -4, 4.0, "4", None),
    "depth": (-1, -2, 1.0, "1", None, 3),
    "dropout": (1.0, 1.5, -0.1, -1.0, 0, 1, "0.1"),
    "leaf_type": (None, "Normal", int, torch.nn.Linear, 3),
    "layer_type": (None, "", "linsum3", "sum", "LINSUM", 1),
    "structure": (None, "", "topdown", "poon-domingos", 0),
}
FINE = {
    **{f: (1, 2, 3, np.int64(2)) for f in INTS},
    "num_features": (2, 3, 5, np.int64(4)),
    "depth": (0, 1, 2, np.int64(1)),
    "dropout": (0.0, 0.5, 0.99, None),
    "layer_type": LAYERS,
    "structure": ("top-down", "bottom-up"),
}


def single(layer, structure):
    def case(rec):
        base = dict(GOOD, layer_type=layer, structure=structure)
        for f, vs in BAD.items():
            for v in vs:
                rep = {"field": f, "value": repr(v), "layer_type": layer, "structure": structure}
                m = make(**{**base, f: v})
                rec.ran()
                rec.state()
                rec.outcome((f, repr(v)))
                rec.expect(isinstance(m, Exception), f"accepted:{f}", lambda: f"{f}={v!r} is accepted ({layer}, {structure})", rep)
        for f, vs in FINE.items():
            for v in vs:
                if f == "num_features" and v < 2 ** base["depth"] or f in ("layer_type", "structure"):
                    continue
                rep = {"field": f, "value": repr(v), "layer_type": layer, "structure": structure}
                m = make(**{**base, f: v})
                rec.ran()
                rec.state()
                rec.expect(not isinstance(m, Exception), f"rejected:{f}", lambda: f"{f}={v!r} is rejected: {m!r} ({layer}, {structure})", rep)
                if not isinstance(m, Exception):
                    works(rec, m, rep, False)
        for (f, g) in itertools.combinations(("num_features", "depth", *INTS), 2):  # two deviations do not hide one another
            for v, w in itertools.product(BAD[f][:2], BAD[g][:2]):
                m = make(**{**base, f: v, g: w})
                rec.ran()
                rec.state()
                rec.expect(isinstance(m, Exception), f"accepted:{f},{g}", lambda: f"{f}={v!r}, {g}={w!r} is accepted ({layer}, {structure})")
        # the model remembers the configuration it was built from, and does not change it
        cfg = EinetConfig(**base)
        before = repr(cfg)
        m = Einet(cfg)
        rec.expect(m.config == cfg and repr(cfg) == before, "config", f"the configuration changed: {before} -> {cfg}")
        try:
            cfg.depth = 0
            rec.expect(False, "frozen", "a configuration can be modified after a model was built from it")
        except Exception:
            pass
    return case


def leaf_args(rec):
    """invalid leaf parameters are rejected, valid ones work"""
    B, R_ = M.Binomial, M.RatNormal
    N_, K_ = M.Normal, M.Categorical
    multi = MultiDistributionLayer
    bad = [(B, dict(total_count=0)), (B, dict(total_count=-2)), (B, dict(total_count=1.5)), (B, {}), (K_, {}), (R_, dict(min_sigma=0.5, max_sigma=0.2)), (R_, dict(min_sigma=-0.1)),
           (R_, dict(min_sigma=0.2, max_sigma=0.2)), (R_, dict(min_mean=1.0, max_mean=-1.0)), (R_, dict(min_mean=0.0, max_mean=-1.0)), (R_, dict(min_mean=1.0, max_mean=0.0)),
           (R_, dict(min_mean=1, max_mean=2)), (R_, dict(min_mean=0.0)), (R_, dict(max_mean=0.0)), (R_, dict(min_mean=-1.0)), (R_, dict(max_mean=1.0)), (N_, dict(cardinality=2)),
           (M.MultivariateNormal, dict(cardinality=3)), (M.MultivariateNormal, dict(cardinality=0)), (M.MultivariateNormal, dict(cardinality=-1)), (M.MultivariateNormal, dict(cardinality=4)), (M.MultivariateNormal, dict(cardinality=8)),
           (multi, dict(scopes_to_dist=[([0, 1], N_, {})])), (multi, dict(scopes_to_dist=[([0, 1], N_, {}), ([2, 3, 1], N_, {})])),
           (multi, dict(scopes_to_dist=[([0, 1, 2], N_, {}), ([4], N_, {})])), (multi, dict(scopes_to_dist=[([0, 1, 1, 2], N_, {})])), (multi, dict(scopes_to_dist=[([0, 1], N_, {}), ([1, 2], N_, {})]))]
    good = [(B, dict(total_count=1)), (B, dict(total_count=255)), (K_, dict(num_bins=2)), (R_, dict(min_sigma=0.0, max_sigma=1.0)), (R_, dict(min_mean=-1.0, max_mean=0.0)), (R_, dict(min_mean=0.0, max_mean=1.0)),
            (M.MultivariateNormal, dict(cardinality=2)), (M.MultivariateNormal, dict(cardinality=1)),
            (multi, dict(scopes_to_dist=[([0, 1], N_, {}), ([2, 3], K_, dict(num_bins=3))])), (multi, dict(scopes_to_dist=[([3, 0], N_, {}), ([1], B, dict(total_count=2)), ([2], M.Bernoulli, {})]))]
    for (structure, layer) in (("top-down", "linsum"), ("top-down", "einsum"), ("bottom-up", "linsum")):
        for lt, kw in bad:
            m = make(**{**GOOD, "leaf_type": lt, "leaf_kwargs": kw, "layer_type": layer, "structure": structure})
            rec.ran()
            rec.state()
            rec.outcome((lt.__name__, repr(kw)))
            rec.expect(isinstance(m, Exception), "accepted:leaf", lambda: f"{lt.__name__} with {kw} is accepted ({structure}, {layer})")
        for lt, kw in good:
            if structure == "bottom-up" and lt is M.MultivariateNormal:
                continue
            rep = {"leaf": lt.__name__, "kwargs": repr(kw), "structure": structure, "layer": layer}
            m = make(**{**GOOD, "leaf_type": lt, "leaf_kwargs": kw, "layer_type": layer, "structure": structure})
            rec.ran()
            rec.state()
            rec.expect(not isinstance(m, Exception), "rejected:leaf", lambda: f"{lt.__name__} with {kw} is rejected: {m!r} ({structure}, {layer})", rep)
            if not isinstance(m, Exception):
                works(rec, m, rep, kw.get("cardinality", 1) > 1)


def cases(tier, seed):
    res = {}
    th = tier == "thorough"
    for leaf in LEAVES:
        for st in ("top-down", "bottom-up"):
            for la in LAYERS:
                for K in (1, 2):
                    for R in (1, 2, 3) if th else (1, 2):
                        if not th and K != R and leaf in ("mvn1", "mvn4", "ber", "rat"):
                            continue
                        res[M.cname(grid=leaf, structure=st, layer=la, K=K, R=R)] = grid(leaf, st, la, K, R, 0.3 if K == R else 0.0)
    for st in ("top-down", "bottom-up"):
        for la in LAYERS:
            if st == "bottom-up" and la != "linsum":
                continue
            res[M.cname(single="field", structure=st, layer=la)] = single(la, st)
    res["leaf-args"] = leaf_args
    return res
