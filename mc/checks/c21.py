"""C21: quantisation of images, the leaves made for it, and bits per dimension."""
import itertools
import math
import os
import types

import torch

from .. import env
from .. import models as M
from ..explore import Explorer, World

from simple_einet.dist import DataType, Dist, get_data_type_from_dist, get_distribution  # noqa: E402
from simple_einet.utils import calc_bpd, preprocess, reduce_bits  # noqa: E402

_cwd = os.getcwd()
os.chdir(env.REPO)  # exp_utils reads ./PROJECT_NAME when it is imported
try:
    import exp_utils  # noqa: E402
finally:
    os.chdir(_cwd)

LEVEL = "model_checking"
BOUNDS = ("all 256 grey levels (and all pairs of levels) x 1..8 bits x float32/float64 x batch layouts; every answer of {0, 1/2, 1-2^-12} for "
          "every pixel's dequantisation noise (8 midpoints for the integral); all images of 1-3 pixels with 1-2 bits under real models")
U = (0.0, 0.5, 1 - 2.0 ** -12)


def levels(dtype, shape=(256,)):
    return (torch.arange(256, dtype=torch.uint8).reshape(shape).to(dtype) / 255)


def quantise(n, dtype):
    """every level and every pair of levels, against integer arithmetic"""
    def case(rec):
        k = torch.arange(256)
        want = k // 2 ** (8 - n)
        grid = levels(dtype)
        batches = {"column": grid.reshape(256, 1, 1, 1), "row": grid.reshape(1, 1, 16, 16), "channels": grid.reshape(4, 4, 4, 4), "flat": grid}
        pairs = torch.cartesian_prod(grid, grid).reshape(-1, 1, 1, 2)
        batches["pairs"] = pairs
        for name, x in batches.items():
            w = (torch.cartesian_prod(want, want) if name == "pairs" else want).reshape(x.shape)
            for what, fn in (("reduce_bits", lambda x: reduce_bits(x, n)),
                             ("experiments' preprocess", lambda x: exp_utils.preprocess(x, n)),
                             ("discrete", lambda x: preprocess(x, n, 2 ** n, dequantize=False, has_gauss_dist=False)),
                             ("discrete, dequantize ignored", lambda x: preprocess(x, n, 2 ** n, dequantize=True, has_gauss_dist=False)),
                             ("gauss", lambda x: preprocess(x, n, 2 ** n, dequantize=False, has_gauss_dist=True))):
                before = x.clone()
                with World():
                    y = fn(x)
                rec.ran()
                rec.state(x.shape[0])
                rec.expect(torch.equal(before, x), "modified", f"{what}: the batch given was modified ({n} bits, {name})", {"n_bits": n, "batch": name})
                rec.expect(y.shape == x.shape, "shape", lambda: f"{what}: {tuple(y.shape)} for {tuple(x.shape)}", {"n_bits": n, "batch": name})
                ref = w.double() / 2 ** n - 0.5 if what == "gauss" else w.double()
                tol = 1e-4 if what in ("reduce_bits", "experiments' preprocess") else (1e-6 if what == "gauss" else 0)
                bad = (y.double() - ref).abs() > tol
                rec.expect(not bad.any(), "level", lambda: f"{what} to {n} bits: {int(bad.sum())} pixels differ, e.g. level "
                           f"{x[bad][0].item() * 255} gives {y[bad][0].item()} instead of {ref[bad][0].item()}", {"n_bits": n, "batch": name})
                if what.startswith("discrete"):
                    rec.expect(not y.dtype.is_floating_point, "dtype", lambda: f"discrete images have dtype {y.dtype}")
            rec.outcome(f"{name}{n}{y.sum().item()}")
        # intensities between two levels belong to the lower one
        for frac in (0.25, 0.5, 0.75):
            x = (torch.arange(255).double() + frac).to(dtype) / 255
            y = preprocess(x, n, 2 ** n, has_gauss_dist=False)
            rec.ran()
            rec.state(255)
            rec.expect(torch.equal(y, (torch.arange(255) // 2 ** (8 - n)).to(y.dtype)), "between", f"intensity level+{frac}: not rounded down with {n} bits")
        for bad in (-1 / 255, -1e-3, 1 + 1e-3, 2.0, 255.0):
            for pos in range(3):
                x = torch.full((3,), 0.5, dtype=dtype)
                x[pos] = bad
                rec.ran()
                rec.state()
                try:
                    y = preprocess(x, n, 2 ** n)
                    ok = False
                except Exception:
                    ok = True
                rec.expect(ok, "range", f"an image with intensity {bad} was accepted", {"n_bits": n})
    return case


def dequantise(n, dtype):
    """every grey level, every answer of the noise of two pixels: stays in the bin, covers it, independently per pixel"""
    def case(rec):
        ex = Explorer()
        for lv in sorted({0, 1, 127, 128, 254, 255} | {2 ** (8 - n) * b for b in range(2 ** n)} | {2 ** (8 - n) * (b + 1) - 1 for b in range(2 ** n)}):
            img = torch.tensor([lv, 255 - lv]).to(torch.uint8).to(dtype).reshape(1, 1, 1, 2) / 255
            b = torch.tensor([lv // 2 ** (8 - n), (255 - lv) // 2 ** (8 - n)]).double().reshape(1, 1, 1, 2)
            res = set()
            for y, p, trail in ex.run(lambda ch: _deq(ch, img, n)):
                u = (y.double() + 0.5) * 2 ** n - b
                rec.expect(bool(((u >= -1e-5) & (u < 1)).all()) and y.shape == img.shape, "bin",
                           lambda: f"level {lv}, {255 - lv} with {n} bits: dequantised to {y.tolist()}, {u.tolist()} bins away from its bin's lower edge (should be in [0,1))",
                           {"level": lv, "n_bits": n, "choices": trail})
                res.add(tuple(round(float(v), 3) for v in u.reshape(-1)))
            rec.outcome(str(sorted(res)))
            one = sorted({r[0] for r in res})
            rec.expect(len(res) == 9 and len(one) == 3 and one[0] < 0.01 and abs(one[1] - 0.5) < 0.01 and one[2] > 0.99, "noise",
                       lambda: f"level {lv} with {n} bits: positions in the bins for noise 0, 1/2, 1 of either pixel: {sorted(res)}", {"level": lv, "n_bits": n})
        rec.explored(ex)
    return case


def _deq(ch, img, n):
    with World(ch, uniform=U, eps=(-1.0, 0.0, 1.0)):
        return preprocess(img, n, 2 ** n, dequantize=True, has_gauss_dist=True)


CFG = dict(min_sigma=0.1, max_sigma=1.0, multivariate_cardinality=2)


def leaf_for(dist, n, channels=1, leaves=1, feats=2):
    kw, cls = get_distribution(dist, types.SimpleNamespace(n_bits=n, **CFG))
    return cls(num_features=feats, num_channels=channels, num_leaves=leaves, num_repetitions=1, **kw)


def support(n):
    """the leaf made for n bits knows exactly the 2^n levels"""
    def case(rec):
        for dist in (Dist.CATEGORICAL, Dist.BINOMIAL):
            lf = leaf_for(dist, n)
            with torch.no_grad():
                for p in lf.parameters():
                    p.copy_(torch.linspace(-1, 1, p.numel()).reshape(p.shape))
            x = preprocess(levels(torch.float32), n, 2 ** n, has_gauss_dist=False)
            rec.expect(x.unique().tolist() == list(range(2 ** n)), "levels", lambda: f"levels that occur: {x.unique().tolist()}")
            v = torch.arange(2 ** n).float().reshape(-1, 1, 1).expand(-1, 1, 2)
            lp = lf(v, None).reshape(2 ** n, 2).double()
            rec.ran()
            rec.state(2 ** n)
            s = lp.exp().sum(0)
            rec.outcome(f"{dist}{n}{lp.sum().item():.4f}")
            rec.expect(bool(((s - 1).abs() < 1e-3).all()), "support", lambda: f"{dist}: the probabilities of the {2 ** n} levels sum to {s.tolist()}", {"n_bits": n})
            rec.expect(bool(torch.isfinite(lp).all()), "level", lambda: f"{dist}: a level has no probability", {"n_bits": n})
            rec.expect(get_data_type_from_dist(dist) == DataType.DISCRETE, "type", f"{dist} not discrete")
        for dist in (Dist.NORMAL, Dist.NORMAL_RAT, Dist.MULTIVARIATE_NORMAL, Dist.PIECEWISE_LINEAR):
            rec.ran()
            rec.state()
            rec.expect(get_data_type_from_dist(dist) == DataType.CONTINUOUS, "type", f"{dist} not continuous")
            lf = leaf_for(dist, n)
            want = {Dist.NORMAL: M.Normal, Dist.NORMAL_RAT: M.RatNormal}.get(dist)
            rec.expect(want is None or type(lf) is want, "class", lambda: f"{dist} gives {type(lf)}")
            if dist == Dist.MULTIVARIATE_NORMAL:
                rec.expect(lf.cardinality == 2, "cardinality", lambda: f"cardinality {lf.cardinality}")
            if dist == Dist.NORMAL_RAT:
                rec.expect((lf.min_sigma, lf.max_sigma) == (0.1, 1.0), "sigma", lambda: f"sigma bounds {(lf.min_sigma, lf.max_sigma)}")
        for bad in ("gauss", None, 3):
            for fn in (lambda: get_distribution(bad, types.SimpleNamespace(n_bits=n, **CFG)), lambda: get_data_type_from_dist(bad)):
                rec.ran()
                rec.state()
                try:
                    fn()
                    ok = False
                except Exception:
                    ok = True
                rec.expect(ok, "unknown", f"unknown distribution {bad!r} accepted")
    return case


SHAPES = ((1, 1, 1), (1, 2, 1), (1, 2, 2), (3, 1, 2), (3, 2, 2))


def bpd_grid(n):
    """all small batches of log-likelihoods: mean code length per pixel, plus log2(bins) for densities"""
    def case(rec):
        vals = (0.0, -1.0, -3.5, 2.0, -math.log(2) * n)
        for shape in SHAPES:
            px = math.prod(shape)
            for N in (1, 2, 3):
                for combo in itertools.product(vals, repeat=N):
                    for dtype, sh in ((torch.float32, (N,)), (torch.float64, (N, 1))):
                        lp = torch.tensor(combo, dtype=dtype).reshape(sh)
                        before = lp.clone()
                        for gauss in (True, False):
                            want = sum(-v / math.log(2) / px for v in combo) / N + (n if gauss else 0)
                            got = float(calc_bpd(lp, shape, gauss, 2 ** n))
                            rec.ran()
                            rec.state()
                            rec.outcome(f"{got:.4f}")
                            rec.expect(abs(got - want) < 1e-4 * (1 + abs(want)), "bpd", lambda: f"bpd of log-likelihoods {combo} of {shape} images with {n} bits (density: {gauss}): {got}, want {want}",
                                       {"log_p": combo, "shape": shape, "n_bits": n, "gauss": gauss})
                        rec.expect(torch.equal(before, lp), "modified", "the log-likelihoods were modified")
    return case


def kraft(dist, n, shape):
    """code lengths of all images under a real model satisfy Kraft's equality"""
    def case(rec):
        from simple_einet.einet import Einet, EinetConfig

        px = math.prod(shape)
        kw, cls = get_distribution(dist, types.SimpleNamespace(n_bits=n, **CFG))
        torch.manual_seed(5)
        m = Einet(EinetConfig(num_features=px, num_channels=1, num_sums=2, num_leaves=2, num_repetitions=2, num_classes=1, depth=1,
                              leaf_type=cls, leaf_kwargs=kw, layer_type="linsum", structure="top-down"))
        with torch.no_grad():
            if dist == Dist.NORMAL:
                for lf in m.modules():
                    if isinstance(lf, M.Normal):
                        lf.means.copy_(torch.linspace(-0.2, 0.2, lf.means.numel()).reshape(lf.means.shape))
                        lf.logvar.fill_(2 * math.log(0.06)) if hasattr(lf, "logvar") else lf.stds.fill_(math.log(0.06))
        discrete = get_data_type_from_dist(dist) == DataType.DISCRETE
        total = 0.0
        ex = Explorer()
        for bins in itertools.product(range(2 ** n), repeat=px):
            img = torch.tensor([b * 2 ** (8 - n) for b in bins]).to(torch.uint8).float().reshape(1, *shape) / 255
            acc, num = 0.0, 0
            for (bpd, p, trail) in ex.run(lambda ch: _bpd(ch, m, img, n, discrete, shape)):
                acc += 2.0 ** (-bpd * px)
                num += 1
            rec.outcome(f"{acc:.5f}")
            total += acc / num
        rec.explored(ex)
        rec.expect(abs(total - 1) < (1e-3 if discrete else 5e-3), "kraft", lambda: f"{dist}, {n} bits, {shape}: the code lengths of all images give {total} instead of 1", {"dist": str(dist), "n_bits": n})
    return case


MID = tuple((j + 0.5) / 8 for j in range(8))


def _bpd(ch, m, img, n, discrete, shape):
    with World(ch, uniform=MID), torch.no_grad():
        x = preprocess(img, n, 2 ** n, dequantize=True, has_gauss_dist=not discrete)
        lp = m(x.float().reshape(1, 1, -1))
        return float(calc_bpd(lp, shape, not discrete, 2 ** n))


def cases(tier, seed):
    res = {}
    for n in range(1, 9):
        for dt in (torch.float32, torch.float64):
            res[f"quantise-{n}-{str(dt)[6:]}"] = quantise(n, dt)
            res[f"dequantise-{n}-{str(dt)[6:]}"] = dequantise(n, dt)
        res[f"support-{n}"] = support(n)
        res[f"bpd-{n}"] = bpd_grid(n)
    th = tier == "thorough"
    for dist, n, shape in [(Dist.CATEGORICAL, 1, (1, 1, 3)), (Dist.CATEGORICAL, 2, (1, 2, 1)), (Dist.BINOMIAL, 1, (1, 1, 3)), (Dist.BINOMIAL, 2, (1, 1, 2)),
                           (Dist.NORMAL, 1, (1, 1, 2)), (Dist.NORMAL, 2, (1, 1, 2))] + ([(Dist.CATEGORICAL, 3, (1, 1, 3)), (Dist.BINOMIAL, 4, (1, 1, 2)), (Dist.NORMAL, 3, (1, 1, 2))] if th else []):
        res[f"kraft-{dist.value}-{n}-{'x'.join(map(str, shape))}"] = kraft(dist, n, shape)
    return res
