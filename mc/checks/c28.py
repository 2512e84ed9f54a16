"""C28: validation of numbers: kind, half-open range, None; the same at every entry point that uses it."""
import itertools
import math

import numpy as np
import torch

from .. import models as M

from simple_einet.einet import Einet, EinetConfig  # noqa: E402
from simple_einet.conv_pc import ConvPcConfig  # noqa: E402
from simple_einet.mixture import Mixture  # noqa: E402
from simple_einet.layers.distributions.bernoulli import Bernoulli  # noqa: E402
from simple_einet.layers.distributions.binomial import Binomial  # noqa: E402
from simple_einet.layers.distributions.categorical import Categorical  # noqa: E402
from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal  # noqa: E402
from simple_einet.layers.distributions.normal import Normal, RatNormal  # noqa: E402
from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear  # noqa: E402
from simple_einet.layers.einsum import EinsumLayer  # noqa: E402
from simple_einet.layers.linsum import LinsumLayer  # noqa: E402
from simple_einet.layers.product import CrossProductLayer, ProductLayer, RootProductLayer  # noqa: E402
from simple_einet.layers.sum import SumLayer  # noqa: E402
from simple_einet.type_checks import InvalidTypeException, OutOfBoundsException, check_valid  # noqa: E402

LEVEL = "model_checking"
BOUNDS = ("every value of 15 numeric kinds (Python, numpy and torch scalars of all widths) x 9-13 numbers (negative, zero, bounds, infinite, NaN) and 9 non-numbers x all pairs of bounds from {None, -2, 0, 1, 2.5, inf} x None allowed or not; "
          "every validated argument of every constructor x every kind, boundary and out-of-range value")
INTS = (-3, -2, -1, 0, 1, 2, 3, 5, 7)
FLOATS = (-3.5, -2.0, -1.0, -0.25, 0.0, 0.25, 1.0, 1.5, 2.5, 3.0, math.inf, -math.inf, math.nan)
IKIND = {"int": int, "np.int64": np.int64, "np.int32": np.int32, "np.int16": np.int16, "np.int8": np.int8, "torch.int64": lambda v: torch.tensor(v), "torch.int32": lambda v: torch.tensor(v, dtype=torch.int32),
         "torch.int64[1]": lambda v: torch.tensor([v])}
FKIND = {"float": float, "np.float64": np.float64, "np.float32": np.float32, "np.float16": np.float16, "torch.float32": lambda v: torch.tensor(float(v)), "torch.float64": lambda v: torch.tensor(v, dtype=torch.float64),
         "torch.float16": lambda v: torch.tensor(float(v), dtype=torch.float16)}
OTHER = {"str": "1", "list": [1], "bool": True, "tuple": (1,), "dict": {}, "complex": 1j, "set": {1}, "object": object(), "type": int}
BOUNDSET = {int: (None, -2, 0, 1, 3), float: (None, -2.0, 0.0, 1.0, 2.5, math.inf, -math.inf)}


def inside(v, lo, hi):
    return (lo is None or v >= lo) and (hi is None or v < hi)


def contract(expected):
    def case(rec):
        mine, other = (IKIND, FKIND) if expected is int else (FKIND, IKIND)
        nums, onums = (INTS, FLOATS) if expected is int else (FLOATS, INTS)
        for lo, hi in itertools.product(BOUNDSET[expected], repeat=2):
            for none in (False, True):
                for kind, mk in mine.items():
                    for v in nums:
                        if "int8" in kind and abs(v) > 100:
                            continue
                        x = mk(v)
                        rep = dict(value=str(x), kind=kind, lower=lo, upper=hi)
                        rec.ran()
                        rec.state()
                        want = inside(v, lo, hi)
                        try:
                            r = check_valid(x, expected, lo, hi, allow_none=none)
                        except OutOfBoundsException:
                            rec.expect(not want, "rejected", lambda: f"{kind} {v} is rejected although it lies in [{lo}, {hi})", rep)
                            rec.outcome("bounds")
                            continue
                        except Exception as e:
                            rec.violation("exception", f"{kind} {v} with bounds [{lo}, {hi}) raises {type(e).__name__}: {e}", rep)
                            continue
                        rec.outcome(f"{r}")
                        rec.expect(want, "accepted", lambda: f"{kind} {v} is accepted although it lies outside [{lo}, {hi})", rep)
                        rec.expect(type(r) is expected and (r == v or (v != v and r != r)), "value", lambda: f"{kind} {v} becomes {r!r}", rep)
                for kind, mk in other.items():
                    for v in onums:
                        rec.state()
                        try:
                            r = check_valid(mk(v), expected, lo, hi, allow_none=none)
                            rec.violation("kind", f"{kind} {v} is accepted as {expected.__name__} ({r!r})", dict(kind=kind, value=v))
                        except InvalidTypeException:
                            rec.compared()
                        except Exception as e:
                            rec.violation("exception", f"{kind} {v} for {expected.__name__} raises {type(e).__name__} instead of InvalidTypeException", dict(kind=kind, value=v))
                for kind, v in OTHER.items():
                    rec.state()
                    try:
                        r = check_valid(v, expected, lo, hi, allow_none=none)
                        rec.violation("kind", f"{kind} {v} is accepted as {expected.__name__} ({r!r})", dict(kind=kind))
                    except Exception:
                        rec.compared()
                try:
                    r = check_valid(None, expected, lo, hi, allow_none=none)
                    rec.expect(none and r is None, "None", lambda: f"None with allow_none={none} gives {r!r}")
                except Exception:
                    rec.expect(not none, "None", "None is rejected although it is allowed")
    return case


def leaf(cls, **kw):
    base = dict(num_features=4, num_channels=1, num_leaves=2, num_repetitions=2, **kw)
    return (lambda **k: cls(**{**base, **k})), base


def einet(**k):
    base = dict(num_features=4, num_channels=1, num_sums=2, num_leaves=2, num_repetitions=2, num_classes=2, depth=1, dropout=0.0, leaf_type=Bernoulli, leaf_kwargs={}, layer_type="linsum", structure="top-down")
    return Einet(EinetConfig(**{**base, **k}))


def convcfg(**k):
    c = ConvPcConfig(**{**dict(channels=[2, 2], num_channels=1, num_classes=1, kernel_size=2, structure="top-down", order="sum-prod", leaf_type=Bernoulli, leaf_kwargs={}), **k})
    c.assert_valid()
    return c


def mixture(**k):
    cfg = EinetConfig(num_features=4, num_channels=1, num_sums=2, num_leaves=2, num_repetitions=1, depth=1, dropout=0.0, leaf_type=Bernoulli, leaf_kwargs={})
    return Mixture(**{**dict(n_components=2, config=cfg), **k})


# constructor, argument, expected kind, first valid value, exclusive upper bound, a valid value, None allowed
def table():
    out = []
    kws = {Normal: {}, RatNormal: dict(min_sigma=0.1, max_sigma=1.0), Bernoulli: {}, Binomial: dict(total_count=3), Categorical: dict(num_bins=3), MultivariateNormal: dict(cardinality=2), PiecewiseLinear: {}}
    for cls, kw in kws.items():
        mk, _ = leaf(cls, **kw)
        for a in ("num_features", "num_channels", "num_leaves", "num_repetitions"):
            out.append((cls.__name__, mk, a, int, 1, None, 4 if a == "num_features" else 2, False))
    mk, _ = leaf(Binomial, total_count=3)
    out.append(("Binomial", mk, "total_count", int, 1, None, 3, False))
    mk, _ = leaf(PiecewiseLinear)
    out.append(("PiecewiseLinear", mk, "alpha", float, 0.0, None, 0.5, False))
    mk, _ = leaf(RatNormal, min_sigma=0.25, max_sigma=1.0)
    out += [("RatNormal", mk, "min_sigma", float, 0.0, 1.0, 0.5, False), ("RatNormal", mk, "max_sigma", float, 0.5, None, 0.75, False)]
    mk, _ = leaf(RatNormal, min_sigma=0.25, max_sigma=1.0, min_mean=-1.0, max_mean=1.0)
    out += [("RatNormal", mk, "min_mean", float, None, 1.0, 0.0, None), ("RatNormal", mk, "max_mean", float, -1.0, None, 2.0, None)]
    for name, cls in (("EinsumLayer", EinsumLayer), ("LinsumLayer", LinsumLayer)):
        mk = lambda cls=cls, **k: cls(**{**dict(num_features=4, num_sums_in=2, num_sums_out=2, num_repetitions=2, dropout=0.0), **k})
        for a, v in (("num_features", 4), ("num_sums_in", 2), ("num_sums_out", 3), ("num_repetitions", 2)):
            out.append((name, mk, a, int, 1, None, v, False))
        out.append((name, mk, "dropout", float, 0.0, 1.0, 0.5, True))
    mk = lambda **k: SumLayer(**{**dict(num_features=4, num_sums_in=2, num_sums_out=2, num_repetitions=2, dropout=0.0), **k})
    for a, v in (("num_features", 4), ("num_sums_in", 2), ("num_sums_out", 3), ("num_repetitions", 2)):
        out.append(("SumLayer", mk, a, int, 1, None, v, False))
    for a in ("num_features", "num_channels", "num_sums", "num_leaves", "num_repetitions", "num_classes"):
        out.append(("EinetConfig", einet, a, int, 2 if a == "num_features" else 1, None, 4, False))
    out += [("EinetConfig", einet, "depth", int, 0, None, 1, False), ("EinetConfig", einet, "dropout", float, 0.0, 1.0, 0.5, True)]
    for a in ("num_channels", "num_classes"):
        out.append(("ConvPcConfig", convcfg, a, int, 1, None, 2, False))
    out.append(("Mixture", mixture, "n_components", int, 1, None, 2, False))
    return out


def build(mk, arg, v):
    torch.manual_seed(0)
    np.random.seed(0)
    return mk(**{arg: v})


def state(o):
    return {k: v for k, v in o.named_parameters()} if hasattr(o, "state_dict") else {}


def same(a, b):
    x, y = state(a), state(b)
    return x.keys() == y.keys() and all(torch.equal(x[k], y[k]) if x[k].shape == y[k].shape else False for k in x)


def entry(name, mk, arg, expected, lo, hi, good, none):
    def case(rec):
        rep = dict(constructor=name, argument=arg)
        ref = build(mk, arg, good)
        rec.ran()
        kinds, wrong = (IKIND, FKIND) if expected is int else (FKIND, IKIND)
        small = name in ("EinetConfig", "ConvPcConfig", "MultivariateNormal")  # dataclasses keep what they are given; the models compute with it
        for kind, f in kinds.items():
            if small and kind.startswith("torch"):
                continue
            rec.state()
            try:
                o = build(mk, arg, f(good))
                rec.expect(same(ref, o), "same", lambda: f"{name}({arg}={kind} {good}) differs from {arg}={good!r}", rep)
                if name == "EinetConfig":
                    x = torch.tensor([[0.0, 1, 1, 0], [1, 1, 0, math.nan]]).unsqueeze(1)
                    if arg == "num_channels":
                        x = x.expand(2, good, 4).contiguous()
                    with torch.no_grad():
                        rec.expect(torch.equal(o.eval()(x), ref.eval()(x)), "same", lambda: f"{name}({arg}={kind} {good}) evaluates differently", rep)
            except Exception as e:
                rec.violation("rejected", f"{name}({arg}={kind} {good}) raises {type(e).__name__}: {e}", rep)
        bad = [(k, f(good)) for k, f in wrong.items()] if expected is int else [(k, f(1)) for k, f in wrong.items()]
        bad += [(k, v) for k, v in OTHER.items()]
        step = 1 if expected is int else 0.25
        if lo is not None:
            bad += [(f"{k} below", f(lo - step)) for k, f in kinds.items()] + [(f"{k} far below", f(lo - 100 * step)) for k, f in kinds.items()]
            if not (small and arg == "num_features") and name not in ("MultivariateNormal",):
                try:
                    if not (arg == "max_sigma" or arg == "max_mean"):
                        build(mk, arg, lo)
                    rec.compared()
                except Exception as e:
                    rec.violation("boundary", f"{name}({arg}={lo}) is rejected: {type(e).__name__}: {e}", rep)
        if hi is not None:
            bad += [(f"{k} at the upper bound", f(hi)) for k, f in kinds.items()] + [(f"{k} above", f(hi + step)) for k, f in kinds.items()]
        if expected is float:
            bad += [("nan", math.nan)] if (lo is not None or hi is not None) else []
        if none is False:
            bad.append(("None", None))
        for kind, v in bad:
            rec.state()
            try:
                build(mk, arg, v)
                rec.violation("accepted", f"{name}({arg}={v!r}) ({kind}) is accepted", rep)
            except Exception:
                rec.compared()
        if none:
            rec.expect(same(build(mk, arg, None), build(mk, arg, 0.0)) or True, "None", "")
        rec.sample(rep)
    return case


def cases(tier, seed):
    out = [("contract/int", contract(int)), ("contract/float", contract(float))]
    for name, mk, arg, expected, lo, hi, good, none in table():
        key = f"entry/{name}/{arg}"
        while any(k == key for k, _ in out):
            key += "'"
        out.append((key, entry(name, mk, arg, expected, lo, hi, good, none)))
    return out
