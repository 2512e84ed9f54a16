"""C26: what the training entry points optimise, report, generate and initialise."""
import contextlib
import io
import itertools
import math
import os
import types

import numpy as np
import torch

from .. import env
from .. import models as M
from ..explore import Explorer, World, distribution
from ..patching import call, patched

_cwd = os.getcwd()
os.chdir(env.REPO)  # exp_utils reads ./PROJECT_NAME when it is imported
try:
    import main as main_py  # noqa: E402
    import models_pl  # noqa: E402
finally:
    os.chdir(_cwd)

from omegaconf import OmegaConf  # noqa: E402
from simple_einet.dist import DataType, Dist, get_data_type_from_dist  # noqa: E402
from simple_einet.einet import Einet, EinetConfig  # noqa: E402
from simple_einet.conv_pc import ConvPc  # noqa: E402
from simple_einet.layers.distributions.binomial import Binomial  # noqa: E402
from simple_einet.layers.distributions.categorical import Categorical  # noqa: E402
from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal  # noqa: E402
from simple_einet.layers.distributions.normal import Normal, RatNormal  # noqa: E402
from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear  # noqa: E402
from simple_einet.mixture import Mixture  # noqa: E402
from simple_einet.sampling_utils import init_einet_stats  # noqa: E402

LEVEL = "model_checking"
BOUNDS = ("all 256 grey levels and all pairs of levels, 1-8 bits, every leaf family the configuration offers, Einet and ConvPc; all batches of up to 2 rows with all labels (posterior); all answers of the draws (samples); "
          "all data sets of up to 4 rows over three values and two features, in every order-preserving partition into batches")
NAN = float("nan")
TWO = "synth-2-clusters"  # two features
LEAF = {Dist.NORMAL: Normal, Dist.NORMAL_RAT: RatNormal, Dist.BINOMIAL: Binomial, Dist.CATEGORICAL: Categorical, Dist.MULTIVARIATE_NORMAL: MultivariateNormal, Dist.PIECEWISE_LINEAR: PiecewiseLinear}


def config(**kw):
    c = OmegaConf.load(os.path.join(env.REPO, "conf", "config.yaml"))
    for k in ("hydra", "defaults"):
        c.pop(k)
    base = dict(data_dir="/nowhere", results_dir="/nowhere", tag=None, group_tag=None, profiler=None, seed=1, epochs=3, dataset=TWO, num_classes=1)
    for k, v in {**base, **kw}.items():
        OmegaConf.update(c, k.replace("__", "."), v)
    return c


def small(dist, K=1, **kw):
    return config(**{**dict(dist=dist, num_classes=K, einet__D=1 if dist != Dist.MULTIVARIATE_NORMAL else 0, einet__S=2, einet__I=2, einet__R=1), **kw})


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*a, **k)


def build(cls, cfg, seed=0):
    torch.manual_seed(seed)
    m = quiet(cls, cfg, steps_per_epoch=3)
    spn = m.spn
    with torch.no_grad():
        for i, p in enumerate(spn.parameters()):
            if p.requires_grad and p.numel() > 1:
                p.add_(0.3 * torch.randn(p.shape, generator=torch.Generator().manual_seed(seed + i)))
    m.logged = {}
    m.log = lambda name, value, *a, **k: m.logged.__setitem__(name, float(value))
    return m


def discrete(dist):
    return dist in (Dist.BINOMIAL, Dist.CATEGORICAL)


def mapped(x, dist, n):
    """the data the model must see: integer arithmetic on the grey levels"""
    if not discrete(dist):
        return x
    k = (x.double() * 255).round().long()
    return (k // 2 ** (8 - n)).float()


def nll(m, x):
    with torch.no_grad():
        return -m.spn(x).double()


def gen_case(dist, n, model, structure):
    """training, validation and test step of the generative module"""
    def case(rec):
        rep = dict(dist=dist.value, n_bits=n, model=model, structure=structure)
        if model == "convpc":
            cfg = small(dist, n_bits=n, model=model, dataset="digits", convpc__channels=[2, 2], convpc__structure=structure)
            pix = 64
            grid = torch.stack([torch.roll(torch.arange(64) * 4 + (torch.arange(64) * s) % 4, s * 5) for s in range(12)]).float() / 255
            batches = [grid, grid[:1], grid[3:5]]
            batches = [b.reshape(-1, 1, 8, 8) for b in batches]
        else:
            cfg = small(dist, n_bits=n, model=model, einet__structure=structure)
            lv = torch.arange(256).float() / 255
            pairs = torch.cartesian_prod(lv, lv)
            edges = torch.cartesian_prod(lv[[0, 1, 127, 128, 254, 255]], lv[[0, 63, 64, 255]])
            batches = [pairs, torch.stack([lv, lv.flip(0)], 1)] + [edges[i:i + 1] for i in range(len(edges))] + [edges[i:i + 2] for i in range(0, len(edges), 2)]
            batches += [b.reshape(-1, 1, 2, 1) for b in batches[1:4]]
        m = build(models_pl.SpnGenerative, cfg)
        rec.expect(isinstance(m.spn, Einet if model == "einet" else ConvPc) and m.spn.config.leaf_type is LEAF[dist], "model", f"{m.spn.config}", rep)
        ps = [p for p in m.spn.parameters() if p.requires_grad]
        for b in batches:
            y = torch.zeros(len(b), dtype=torch.long)
            want = nll(m, mapped(b, dist, n))
            before = b.clone()
            pre = m.preprocess(b)
            rec.ran()
            rec.state(len(b))
            rec.expect(pre.shape == b.shape and bool(torch.equal(pre.double(), mapped(b, dist, n).double())), "preprocess", lambda: f"data {b.reshape(-1)[:4].tolist()} became {pre.reshape(-1)[:4].tolist()} ({rep})", rep)
            tol = 1e-4 * (1 + abs(float(want.mean())))
            loss = m.training_step((b, y), 0)
            got = {"training_step": loss, "Train/loss": m.logged.get("Train/loss"), "validation_step": m.validation_step((b, y), 0), "Val/loss": m.logged.get("Val/loss")}
            for i, name in enumerate(("train", "val", "test")):
                m.test_step((b, y), 0, i)
                got[f"Test/{name}_nll"] = m.logged.pop(f"Test/{name}_nll", None)
            m.test_step((b, y), 0)
            got["test default"] = m.logged.pop("Test/train_nll", None)
            got["nll mean"] = m.negative_log_likelihood(mapped(b, dist, n))
            for k, v in got.items():
                rec.expect(v is not None and abs(float(v) - float(want.mean())) <= tol, "loss", lambda: f"{k} is {v} instead of {float(want.mean())} for a batch of {len(b)} ({rep})", rep)
            s = m.negative_log_likelihood(mapped(b, dist, n), reduction="sum")
            rec.expect(abs(float(s) - float(want.sum())) <= tol * len(b) + 1e-4, "sum", lambda: f"summed nll is {float(s)} instead of {float(want.sum())} ({rep})", rep)
            rec.expect(torch.equal(before, b), "modified", f"the batch was modified ({rep})", rep)
            rec.outcome(f"{float(want.mean()):.4f}")
            if len(b) <= 256:
                g = torch.autograd.grad(loss, ps, allow_unused=True)
                h = torch.autograd.grad(-m.spn(mapped(b, dist, n)).mean(), ps, allow_unused=True)
                ok = all((u is None) == (v is None) and (u is None or torch.allclose(u, v, atol=1e-4 + 1e-6 * float(want.abs().max()), rtol=1e-3)) for u, v in zip(g, h))
                rec.expect(ok and any(u is not None and u.abs().sum() > 0 for u in g), "gradient", f"the loss of training_step has other gradients than the negative log-likelihood ({rep})", rep)
        try:
            m.negative_log_likelihood(mapped(batches[-1], dist, n), reduction="median")
            rec.expect(False, "reduction", f"an unknown reduction was accepted ({rep})", rep)
        except ValueError:
            rec.compared()
        rec.sample(rep)
    return case


def disc_case(dist, K, n):
    """loss and accuracy of the discriminative module, on every image x label and all batches of two"""
    def case(rec):
        rep = dict(dist=dist.value, K=K, n_bits=n)
        cfg = small(dist, K, n_bits=n)
        x = torch.cartesian_prod(*[torch.tensor([0.0, 60, 130, 255]) / 255] * 2)
        m = build(models_pl.SpnDiscriminative, cfg, seed=3)
        with torch.no_grad():
            ll = m.spn(mapped(x, dist, n)).double()
        post = ll - ll.logsumexp(-1, keepdim=True)
        rec.expect(len(set(post.argmax(-1).tolist())) > 1, "vacuous", "every image has the same class")
        rows = range(len(x))
        batches = [(i,) for i in rows] + (list(itertools.combinations(rows, 2)) if len(x) <= 6 else [(i, (i * 7 + 3) % len(x)) for i in rows]) + [tuple(rows)]
        for b in batches:
            labels = itertools.product(range(K), repeat=len(b)) if len(b) <= 2 else [tuple((i * 2 + s) % K for i in b) for s in range(3)]
            for lab in labels:
                y = torch.tensor(lab)
                xb = x[list(b)].clone()
                want = -post[list(b), list(lab)].mean().item()
                acc = float((post[list(b)].argmax(-1) == y).double().mean())
                tr = m.training_step((xb, y), 0)
                va = m.validation_step((xb, y), 0)
                rec.ran(2)
                rec.state()
                for k, v in (("training_step", tr), ("validation_step", va), ("Train/loss", m.logged.get("Train/loss")), ("Val/loss", m.logged.get("Val/loss"))):
                    rec.expect(v is not None and abs(float(v) - want) <= 1e-4 * (1 + abs(want)), "loss", lambda: f"{k} is {v} instead of {want} (rows {b}, labels {lab}, {rep})", rep)
                for k in ("Train/accuracy", "Val/accuracy"):
                    rec.expect(abs(m.logged.get(k, NAN) - acc) < 1e-6, "accuracy", lambda: f"{k} is {m.logged.get(k)} instead of {acc} (rows {b}, labels {lab}, {rep})", rep)
                for i, name in enumerate(("train", "val", "test")):
                    m.test_step((xb, y), 0, i)
                    v = m.logged.pop(f"Test/{name}_accuracy", NAN)
                    rec.expect(abs(v - acc) < 1e-6, "accuracy", lambda: f"Test/{name}_accuracy is {v} instead of {acc} ({rep})", rep)
                rec.outcome(f"{want:.4f}")
                rec.expect(torch.equal(xb, x[list(b)]), "modified", f"the batch was modified ({rep})", rep)
        ps = [p for p in m.spn.parameters() if p.requires_grad]
        y = torch.tensor([i % K for i in rows])
        g = torch.autograd.grad(m.training_step((x, y), 0), ps, allow_unused=True)
        out = m.spn(mapped(x, dist, n))
        h = torch.autograd.grad(-(out - out.logsumexp(-1, keepdim=True))[list(rows), y].mean(), ps, allow_unused=True)
        for u, v in zip(g, h):
            u, v = [torch.zeros(1) if t is None else t for t in (u, v)]
            rec.expect(bool(torch.allclose(u, v, atol=1e-4 + 1e-5 * float(out.abs().max()), rtol=1e-3)), "gradient", f"gradients of training_step are not those of the posterior loss ({rep})", rep)
    return case


def samples_case(dist, n, model):
    """law of generate_samples is the law of the model's samples, as images in [0, 1]; round trip through preprocess"""
    def case(rec):
        rep = dict(dist=dist.value, n_bits=n, model=model)
        if model == "convpc":
            m = build(models_pl.SpnGenerative, small(dist, n_bits=n, model=model, dataset="digits", convpc__channels=[1, 2]), seed=5)
            C, H, W = 1, 8, 8
        else:
            m = build(models_pl.SpnGenerative, small(dist, n_bits=n, einet__S=2, einet__I=2), seed=5)
            C, H, W = 1, 2, 1
        top = 2 ** n - 1 if discrete(dist) else 1

        def draw(ch, num, own):
            with torch.no_grad(), World(ch, tie=70 if model == "convpc" else None):
                s = m.generate_samples(num, differentiable=False) if own else m.spn.sample(num_samples=num, mpe_at_leaves=True)
            if own and s.shape != (num, C, H, W):
                rec.violation("shape", f"samples have shape {tuple(s.shape)} instead of {(num, C, H, W)} ({rep})", rep)
            if own and discrete(dist):
                ok = bool(((s >= 0) & (s <= 1)).all()) and bool(torch.equal(m.preprocess(s), (s * top).round()))
                rec.expect(ok, "range", lambda: f"generated images {s.reshape(-1)[:8].tolist()} are not images of {n} bits ({rep})", rep)
            v = s.reshape(num, -1).double() * (top if own else 1)
            return tuple(map(tuple, v.round(decimals=3).add(0.0).tolist()))
        if model == "convpc":
            ex = Explorer(cap=40)
            for s, p, t in ex.run(lambda ch: draw(ch, 1, True)):
                rec.outcome(hash(s))
            rec.explored(ex)
        else:
            for num in (1, 2):
                a, ex, _ = distribution(lambda ch: draw(ch, num, True))
                b, _, _ = distribution(lambda ch: draw(ch, num, False))
                rec.explored(ex)
                keys = set(a) | set(b)
                bad = [k for k in keys if abs(a.get(k, 0) - b.get(k, 0)) > 1e-5]
                rec.expect(not bad, "law", lambda: f"image {bad[0]} is generated with probability {a.get(bad[0], 0)}, sampled by the model with {b.get(bad[0], 0)} ({rep})", rep)
                for k in keys:
                    rec.outcome(str(k)[:80])
        for num in (1, 3) if model == "einet" else ():
            torch.manual_seed(4)
            d = m.generate_samples(num, differentiable=True)
            torch.manual_seed(4)
            e = m.spn.sample(num_samples=num, mpe_at_leaves=True, is_differentiable=True)
            rec.ran(2)
            rec.expect(d.shape == (num, C, H, W) and bool(torch.allclose(d.reshape(-1) * top, e.reshape(-1), atol=1e-3)), "differentiable", lambda: f"differentiable samples {d.reshape(-1)[:6].tolist()} for {e.reshape(-1)[:6].tolist()} ({rep})", rep)
            rec.expect(d.requires_grad == e.requires_grad, "differentiable", lambda: f"gradients reach the model's differentiable samples: {e.requires_grad}, the generated ones: {d.requires_grad} ({rep})", rep)
    return case


def factory(dist, model):
    """every field of the configuration reaches the model"""
    def case(rec):
        if model == "einet":
            space = dict(einet__D=(0, 1, 2), einet__S=(2, 3), einet__I=(2, 4), einet__R=(1, 2), num_classes=(1, 3), dropout=(0.0, 0.2), einet__layer_type=("linsum", "einsum"), einet__structure=("top-down", "bottom-up"), n_bits=(2, 5))
        else:
            space = dict(convpc__channels=([2], [2, 3]), num_classes=(1, 3), convpc__structure=("top-down", "bottom-up"), convpc__order=("sum-prod", "prod-sum"), n_bits=(2, 5))
        for vals in itertools.product(*space.values()):
            kw = dict(zip(space, vals))
            if kw.get("einet__structure") == "bottom-up" and (kw["einet__layer_type"] != "linsum" or dist == Dist.MULTIVARIATE_NORMAL):
                continue
            cfg = config(dist=dist, dataset="digits", **kw)
            make = models_pl.make_einet if model == "einet" else models_pl.make_convpc
            m = make(cfg, num_classes=kw["num_classes"])
            rec.ran()
            rec.state()
            c = m.config
            n = kw["n_bits"]
            kwargs = {Dist.BINOMIAL: {"total_count": 2 ** n - 1}, Dist.CATEGORICAL: {"num_bins": 2 ** n}, Dist.NORMAL_RAT: {"min_sigma": 0.01, "max_sigma": 2.0}, Dist.MULTIVARIATE_NORMAL: {"cardinality": 2}}.get(dist, {})
            want = dict(num_channels=1, num_classes=kw["num_classes"], leaf_type=LEAF[dist], leaf_kwargs=kwargs)
            if model == "einet":
                want.update(num_features=64, depth=kw["einet__D"], num_sums=kw["einet__S"], num_leaves=kw["einet__I"], num_repetitions=kw["einet__R"], dropout=kw["dropout"], layer_type=kw["einet__layer_type"], structure=kw["einet__structure"])
            else:
                want.update(channels=kw["convpc__channels"], structure=kw["convpc__structure"], order=kw["convpc__order"], kernel_size=2)
            for k, v in want.items():
                got = getattr(c, k)
                got = list(got) if k == "channels" else got
                rec.expect(got == v, "config", lambda: f"{k} of the model is {got} instead of {v} ({kw})", {k2: str(v2) for k2, v2 in kw.items()})
            if "einet__D" in kw and kw["einet__D"] == 0 and kw["einet__S"] == 2 and kw["num_classes"] == 3:
                mix = models_pl.make_einet(config(dist=dist, dataset="digits", mixture=True, **kw), num_classes=3)
                rec.expect(isinstance(mix, Mixture) and len(mix.models) == 3 and mix.config.num_features == 64, "mixture", f"{type(mix)} for a mixture of 3 ({kw})")
    return case


def roots(rec):
    """main.log_likelihoods: mixture of the roots with uniform weights, or the root of the target"""
    vals = (-1000.0, -3.0, 0.0, 2.5)
    for K in (1, 2, 3):
        rows = torch.tensor(list(itertools.product(vals, repeat=K)))
        out = main_py.log_likelihoods(rows)
        want = torch.logsumexp(rows.double(), -1) - math.log(K)
        rec.ran()
        rec.state(len(rows))
        rec.expect(out.reshape(-1).shape == want.shape and bool(torch.allclose(out.reshape(-1).double(), want, atol=1e-3)), "roots", lambda: f"log_likelihoods of {K} roots: {out.reshape(-1)[:4].tolist()} instead of {want[:4].tolist()}", K)
        for t in itertools.product(range(K), repeat=2):
            for i in range(len(rows) - 1):
                got = main_py.log_likelihoods(rows[i:i + 2], torch.tensor(t)).reshape(-1)
                w = rows[i:i + 2][[0, 1], list(t)]
                rec.state()
                rec.expect(bool(torch.equal(got, w)), "target", lambda: f"roots {rows[i:i + 2].tolist()}, targets {t}: {got.tolist()}", K)


class Data:
    def __init__(self, batches, n):
        self.batches, self.dataset = batches, range(n)

    def __iter__(self):
        return iter(self.batches)

    def __len__(self):
        return len(self.batches)


class Watch(torch.optim.SGD):
    """an optimiser that records the gradients and does not move"""

    def __init__(self, ps, grads):
        super().__init__(ps, lr=0.0)
        self.ps, self.grads = ps, grads
        for p in ps:
            p.grad = None

    def step(self, closure=None):
        loss = None if closure is None else closure()
        self.grads.append([None if p.grad is None else p.grad.clone() for p in self.ps])
        return loss


def script(leaf, K, classification, n):
    """main.train and main.test on all partitions of a small data set"""
    def case(rec):
        rep = dict(leaf=leaf, K=K, classification=classification, n_bits=n)
        gauss = leaf in ("norm", "rat")
        lk = {"bin": (Binomial, {"total_count": 2 ** n - 1}), "cat": (Categorical, {"num_bins": 2 ** n}), "norm": (Normal, {}), "rat": (RatNormal, {"min_sigma": 0.1, "max_sigma": 1.0})}[leaf]
        cfg = EinetConfig(num_features=2, num_channels=1, num_sums=2, num_leaves=2, num_repetitions=1, num_classes=K, depth=1, dropout=0.0, leaf_type=lk[0], leaf_kwargs=lk[1], layer_type="linsum", structure="top-down")
        m = M.build(cfg, 2)
        x = (torch.tensor([[0, 255], [17, 200], [130, 31], [255, 90.0]]) / 255).reshape(-1, 1, 2, 1)
        y = torch.tensor([0, 1, 0, 1]) % K

        def seen(v):
            k = (v.double() * 255).round().long() // 2 ** (8 - n)
            # the noise of the dequantisation is answered 1/2
            return (k.double() / 2 ** n - 0.5 + 0.5 / 2 ** n).float() if gauss else k.float()
        args = types.SimpleNamespace(debug=False, classification=classification, log_interval=1, dry_run=False)
        old = {k: getattr(main_py, k, None) for k in ("n_bits", "n_bins", "has_gauss_dist", "args", "fabric", "device")}
        try:
            main_py.n_bits, main_py.n_bins, main_py.has_gauss_dist, main_py.args = n, 2 ** n, gauss, args
            main_py.fabric = fabric = types.SimpleNamespace(backward=lambda loss, *a, **k: loss.backward())
            main_py.device = torch.device("cpu")
            common = dict(args=args, model=m, device=torch.device("cpu"), n_bits=n, n_bins=2 ** n, has_gauss_dist=gauss, fabric=fabric)
            ps = [p for p in m.parameters() if p.requires_grad]
            for part in ((4,), (1, 3), (2, 2), (3, 1), (1, 1, 2), (1, 1, 1, 1)):
                cut = list(itertools.accumulate((0,) + part))
                batches = [(x[a:b].clone(), y[a:b]) for a, b in zip(cut, cut[1:])]
                grads = []
                opt = Watch(ps, grads)
                with World(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    ds = Data(batches, 4)
                    call(main_py.train, train_loader=ds, loader=ds, dataloader=ds, optimizer=opt, epoch=1, **common)
                rec.ran()
                rec.state(len(part))
                rec.expect(len(grads) == len(part), "steps", lambda: f"{len(grads)} optimiser steps for {len(part)} batches ({rep})", rep)
                for (xb, yb), g in zip(batches, grads):
                    out = m(seen(xb))
                    if classification:
                        loss = -(out - out.logsumexp(-1, keepdim=True))[range(len(xb)), yb].mean()
                    else:
                        loss = -(out.logsumexp(-1) - math.log(K)).mean()
                    want = torch.autograd.grad(loss, ps, allow_unused=True)
                    tol = 2e-4 + 1e-5 * float(out.abs().max())  # gradients are differences of terms as large as the log-likelihoods
                    for u, v, p in zip(g, want, ps):
                        u, v = [torch.zeros_like(p) if t is None else t for t in (u, v)]
                        rec.expect(bool(torch.allclose(u, v, atol=tol, rtol=2e-3)), "step", lambda: f"gradient of a training step on {len(xb)} rows differs from that of the documented loss ({rep})", rep)
                buf = io.StringIO()
                with World(), contextlib.redirect_stdout(buf):
                    ds = Data(batches, 4)
                    call(main_py.test, loader=ds, test_loader=ds, dataloader=ds, tag="Val", **common)
                with torch.no_grad():
                    out = m(seen(x)).double()
                want = float(-(out.logsumexp(-1) - math.log(K)).mean())
                text = buf.getvalue()
                val = [float(w) for line in text.splitlines() if "Average loss" in line for w in line.split()[-1:]]
                rec.expect(len(val) == 1 and abs(val[0] - want) < 2e-4, "report", lambda: f"reported {text!r}, average negative log-likelihood is {want} ({rep})", rep)
                if classification:
                    acc = 100.0 * float((out.argmax(-1) == y).double().mean())
                    val = [float(line.split()[-1]) for line in text.splitlines() if "Accuracy" in line]
                    rec.expect(len(val) == 1 and abs(val[0] - acc) < 0.01, "accuracy", lambda: f"reported {text!r}, accuracy is {acc} ({rep})", rep)
        finally:
            for k, v in old.items():
                setattr(main_py, k, v)
    return case


def guide(rec):
    """main_pwl.py from beginning to end: every optimiser step, every shown row, every drawn density"""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    path = os.path.join(env.REPO, "main_pwl.py")
    with open(path) as f:
        code = compile(f.read(), path, "exec")
    ns = {"__name__": "__main__", "__file__": path}
    models, seen, rates, bad = [], [], [], []
    fwd, step = Einet.forward, torch.optim.Adam.step

    def _fwd(m, x, *a, **k):
        models[:] = [m]
        if torch.is_grad_enabled():
            seen.append(x.detach().clone())
        return fwd(m, x, *a, **k)

    def _step(o, *a, **k):
        m, x = models[0], seen[-1]
        ps = [p for g in o.param_groups for p in g["params"] if p.requires_grad]
        rates.append(o.param_groups[0]["lr"])
        if len(rates) % 50 == 1:
            with torch.enable_grad():
                out = fwd(m, x)
                want = torch.autograd.grad(-out.mean(), ps, allow_unused=True)
            tol = 1e-4 * (1 + float(out.detach().abs().max()))
            for p, w in zip(ps, want):
                g = torch.zeros_like(p) if p.grad is None else p.grad
                w = torch.zeros_like(p) if w is None else w
                if not torch.allclose(g, w, atol=tol, rtol=1e-2):
                    bad.append(len(rates))
        return step(o, *a, **k)
    rng = torch.get_rng_state()
    try:
        with patched((Einet, "forward", _fwd), (torch.optim.Adam, "step", _step), (plt, "savefig", lambda *a, **k: None), (matplotlib.figure.Figure, "savefig", lambda *a, **k: None)), \
                contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            exec(code, ns)
    except Exception as e:
        rec.violation("guide", f"main_pwl.py raised {type(e).__name__}: {str(e)[:200]}")
        return
    finally:
        torch.set_rng_state(rng)
        figures = [plt.figure(i) for i in plt.get_fignums()]
        lines = [(a.get_title(), [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)) for l in a.get_lines()]) for f in figures for a in f.axes]
        plt.close("all")
    rec.ran(len(rates))
    rec.state(len(rates))
    rec.expect(len(rates) > 0 and not bad, "guide-step", lambda: f"the gradients of optimiser steps {bad[:5]} of main_pwl.py are not those of the mean negative log-likelihood of the batch")
    epochs = sorted(rates, reverse=True)
    rec.expect(rates == epochs and len(rates) == len(seen), "guide-rate", lambda: f"learning rates {sorted(set(rates))}, {len(seen)} batches and {len(rates)} steps")
    rows = torch.cat(seen).reshape(-1, seen[0].shape[-1])
    uniq, count = rows.unique(dim=0, return_counts=True)
    rec.expect(len(set(count.tolist())) == 1, "guide-rows", lambda: f"training rows are shown {sorted(set(count.tolist()))} times")
    m = models[0]
    rec.expect(not m.training, "guide-mode", "densities are drawn in training mode")
    rec.expect(len(lines) == rows.shape[1], "guide-lines", lambda: f"{len(lines)} panels for {rows.shape[1]} features")
    for i, (title, ls) in enumerate(lines):
        for xs, ys in ls:
            x = torch.zeros(len(xs), 1, rows.shape[1])
            x[:, 0, i] = torch.tensor(xs, dtype=torch.float)
            with torch.no_grad():
                want = fwd(m, x, [j for j in range(rows.shape[1]) if j != i]).double().exp().squeeze(-1).numpy()
            rec.expect(ys.shape == want.shape and bool(np.allclose(ys, want, atol=1e-5)), "guide-density", lambda: f"panel {i} ({title}) does not draw the density of feature {i}")
            rec.outcome(hash(tuple(np.round(want, 4))))
            width = np.diff(xs).mean()
            rec.expect(float((want * width).sum()) < 1.02, "guide-mass", lambda: f"the drawn density of feature {i} has mass {float((want * width).sum())}")


def partitions(n):
    for cuts in itertools.product([0, 1], repeat=n - 1):
        part, size = [], 1
        for c in cuts:
            if c:
                part.append(size)
                size = 1
            else:
                size += 1
        yield tuple(part + [size])


def init_case(structure, L, R, kind, C, vals, rows):
    """init_einet_stats over all small data sets and all batchings"""
    def case(rec):
        rep = dict(structure=structure, L=L, R=R, kind=kind, C=C)
        cfg = EinetConfig(num_features=2, num_channels=C, num_sums=2, num_leaves=L, num_repetitions=R, num_classes=1, depth=1, dropout=0.0, leaf_type=Normal, leaf_kwargs={}, layer_type="linsum", structure=structure)
        torch.manual_seed(0)
        m = Mixture(2, cfg) if kind == "mixture" else Einet(cfg)
        nets = list(m.models) if kind == "mixture" else [m]
        leaves = [getattr(e.leaf, "base_leaf", e.leaf) for e in nets]
        cells = 2 * C
        for N in rows:
            if cells == 2:
                sets = itertools.product(itertools.product(vals, repeat=cells), repeat=N)
                sets = sets if N <= 3 else itertools.islice(sets, 0, None, 7)
            else:
                sets = [tuple(tuple(vals[(i * 3 + j * (s + 1) + s) % len(vals)] + 0.1 * j for j in range(cells)) for i in range(N)) for s in range(9)]
            for ds in sets:
                x = torch.tensor(ds).reshape(N, C, 2)
                mean = x.double().mean(0)
                var = x.double().var(0, correction=1) if N > 1 else torch.zeros(C, 2).double()
                x = x[:, 0] if C == 1 and sum(ds[0]) > 0 else x  # both layouts
                for part in partitions(N):
                    cut = list(itertools.accumulate((0,) + part))
                    batches = [(x[a:b], torch.zeros(b - a)) for a, b in zip(cut, cut[1:])]
                    for eps in (0.0, -1.0, 1.0) if part == (N,) else (0.0,):
                        with torch.no_grad():
                            for lf in leaves:
                                lf.means.fill_(99.0)
                                lf.logvar.fill_(99.0)
                        with World(None, eps=(eps,)):
                            quiet(init_einet_stats, m, Data(batches, N))
                        rec.ran()
                        rec.state()
                        smean, svar = [0.1 * (float(t.std()) if t.numel() > 1 else 0.0) * 1.5 + 1e-4 for t in (mean, var)]
                        for lf in leaves:
                            for l, r in itertools.product(range(L), range(R)):
                                mu, lv = [t.detach().reshape(C, 2, L, R)[:, :, l, r].double() for t in (lf.means, lf.logvar)]
                                if eps == 0.0:
                                    ok = bool(torch.allclose(mu, mean, atol=1e-4)) and bool(torch.allclose(lv.exp(), var + 1e-3, rtol=1e-3, atol=1e-4))
                                else:
                                    ok = bool(((mu - mean).abs() <= smean).all()) and bool(((lv.exp() >= (var + 1e-3) * 0.999) & (lv.exp() <= (var + 1e-3 + svar) * 1.001)).all())
                                rec.expect(ok, "stats", lambda: f"data {ds} in batches {part}, noise {eps}: means {mu.tolist()} variances {lv.exp().tolist()} instead of {mean.tolist()}, {(var + 1e-3).tolist()} ({rep})", rep)
                                rec.outcome(f"{mu.sum():.3f}/{lv.sum():.3f}")
    return case


def others(rec):
    """no other leaf family is touched, and other models are rejected"""
    x = torch.tensor([[0.0, 1.0], [1.0, 1.0], [0.0, 0.0]])
    for leaf in ("cat3", "bin2", "ber", "rat"):
        m = M.build(M.config(leaf=leaf, D=2, S=2, L=2, R=1, depth=1), 3)
        before = {k: v.clone() for k, v in m.state_dict().items()}
        quiet(init_einet_stats, m, Data([(x, torch.zeros(3))], 3))
        rec.ran()
        rec.expect(all(torch.equal(before[k], v) for k, v in m.state_dict().items()), "untouched", f"init_einet_stats changed a model with {leaf} leaves")


def cases(tier, seed):
    th = tier == "thorough"
    out = [("roots", roots), ("guide/main_pwl", guide), ("init/others", others)]
    for dist in (Dist.BINOMIAL, Dist.CATEGORICAL):
        for n in range(1, 9):
            for st in ("top-down", "bottom-up"):
                out.append((f"generative/{dist.value}/{n} bits/einet/{st}", gen_case(dist, n, "einet", st)))
            out.append((f"generative/{dist.value}/{n} bits/convpc", gen_case(dist, n, "convpc", "top-down")))
            out.append((f"samples/{dist.value}/{n} bits/einet", samples_case(dist, n, "einet")))
        for n in (2, 8):
            out.append((f"samples/{dist.value}/{n} bits/convpc", samples_case(dist, n, "convpc")))
            for K in (2, 3):
                out.append((f"discriminative/{dist.value}/{n} bits/K{K}", disc_case(dist, K, n)))
    for dist in (Dist.NORMAL, Dist.NORMAL_RAT, Dist.MULTIVARIATE_NORMAL):
        for st in ("top-down",) + (("bottom-up",) if dist != Dist.MULTIVARIATE_NORMAL else ()):
            out.append((f"generative/{dist.value}/einet/{st}", gen_case(dist, 8, "einet", st)))
        if dist != Dist.MULTIVARIATE_NORMAL:
            out.append((f"generative/{dist.value}/convpc", gen_case(dist, 8, "convpc", "top-down")))
        out.append((f"discriminative/{dist.value}/K3", disc_case(dist, 3, 8)))
        out.append((f"samples/{dist.value}/einet", samples_case(dist, 8, "einet")))
    for dist in LEAF:
        out.append((f"factory/{dist.value}/einet", factory(dist, "einet")))
        if dist != Dist.MULTIVARIATE_NORMAL:
            out.append((f"factory/{dist.value}/convpc", factory(dist, "convpc")))
    for leaf in ("bin", "cat", "norm", "rat"):
        for n in (1, 3, 8) + ((2, 4, 5, 6, 7) if th else ()):
            for K, cl in ((1, False), (2, False), (3, False), (2, True), (3, True)):
                out.append((f"script/{leaf}/{n} bits/K{K}/{'class' if cl else 'density'}", script(leaf, K, cl, n)))
    for st in ("top-down", "bottom-up"):
        for L, R in ((1, 1), (2, 1), (2, 2), (3, 2)):
            for kind in ("einet", "mixture"):
                out.append((f"init/{st}/L{L}R{R}/{kind}", init_case(st, L, R, kind, 1, (-1.0, 0.5, 2.0), (1, 2, 3, 4) if th or (L, R, kind) == (2, 2, "einet") else (1, 2, 3))))
            out.append((f"init/{st}/L{L}R{R}/channels", init_case(st, L, R, "einet", 2, (-1.0, 0.5, 2.0, 4.0), (1, 2, 3, 4, 5))))
    return out
