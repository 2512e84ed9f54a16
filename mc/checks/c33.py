"""C33: whole runs of main_pl.py with the real trainer: what is trained is what is stored, reported and evaluated later.  Histories of runs (train, evaluate) in two run directories are enumerated."""
import contextlib
import io
import itertools
import logging
import math
import os
import shutil
import sys
import tempfile
import types
import warnings

import torch

from .. import env
from . import c30
from .c30 import P, config, environ, exp_utils, models_pl, data_py, wandb_py, hydra
import lightning.pytorch
import lightning.pytorch.loggers
from lightning.pytorch.loggers.logger import Logger
from omegaconf import OmegaConf

from ..patching import patched, swapped
from simple_einet.dist import Dist
from simple_einet.einet import Einet
from simple_einet.mixture import Mixture

LEVEL = "model_checking"
BOUNDS = ("every history of 3 runs, each of which trains from seed 1, trains from seed 2 or evaluates, in two run directories; 5 leaf families x 2 layer types x density / classification x 7 variants (averaging, mixture, dropout, data initialisation, "
          "bottom-up, convolutional); 1 to 10 epochs x 5 batch sizes; thorough: histories of classifiers, too")
ROWS = (7, 3, 5)


def dataset(shape, n, classes=2):
    g = torch.Generator().manual_seed(97 + n)
    x = torch.randint(0, 256, (n, *shape), generator=g)
    x[:, 0, 0, 0] = torch.arange(n) * 31 % 256
    return (x / 255.0).float(), torch.arange(n) % classes


class Recorder(Logger):
    def __init__(self):
        super().__init__()
        self.metrics, self.images = [], []

    name = property(lambda self: "recorder")
    version = property(lambda self: "0")

    def log_hyperparams(self, *a, **k):
        pass

    def log_metrics(self, metrics, step=None):
        self.metrics.append(dict(metrics))

    def log_image(self, key, images, **k):
        self.images.append((key, images))


class Run:
    def __init__(self, run_dir, shape, cfg):
        self.logger, self.lr, self.shown, self.lit, self.error, self.fits = Recorder(), [], [], [], None, 0
        sets = [torch.utils.data.TensorDataset(*dataset(shape, n, cfg.num_classes)) for n in ROWS]
        run = self
        hyd = types.SimpleNamespace(get=lambda: types.SimpleNamespace(runtime=types.SimpleNamespace(output_dir=run_dir)))
        step, T = torch.optim.Adam.step, lightning.pytorch.Trainer
        fit, test = T.fit, T.test
        tstep = {c: c.training_step for c in (models_pl.SpnGenerative, models_pl.SpnDiscriminative)}

        def _fit(t, model, *a, **k):
            run.lit.append(model)
            run.fits += 1
            return fit(t, model, *a, **k)

        def _test(t, model, *a, **k):
            run.lit.append(model)
            return test(t, model, *a, **k)

        def _step(o, *a, **k):
            run.lr.append(tuple(g["lr"] for g in o.param_groups))
            return step(o, *a, **k)

        def _tstep(c):
            def f(m, batch, *a, **k):
                run.shown += [(tuple(x.reshape(-1).tolist()), int(y)) for x, y in zip(*batch)]
                return tstep[c](m, batch, *a, **k)
            return f
        rng = torch.get_rng_state()
        logging.disable(logging.CRITICAL)
        try:
            pairs = [(data_py.get_datasets, lambda *a, **k: tuple(sets)), (lightning.pytorch.loggers.WandbLogger, lambda **k: run.logger), (hydra.core.hydra_config.HydraConfig, hyd)]
            places = (P, data_py, exp_utils, lightning.pytorch, lightning.pytorch.loggers, hydra.core.hydra_config)
            with swapped(pairs, places), patched((wandb_py, "finish", lambda *a, **k: None), (wandb_py, "Settings", lambda **k: None), (T, "fit", _fit), (T, "test", _test), (torch.optim.Adam, "step", _step),
                                                 *((c, "training_step", _tstep(c)) for c in tstep)), \
                    environ(WANDB_MODE=None, PL_GLOBAL_SEED=os.environ.get("PL_GLOBAL_SEED"), PL_SEED_WORKERS=os.environ.get("PL_SEED_WORKERS")), warnings.catch_warnings(), \
                    contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                warnings.simplefilter("ignore")
                P.main(cfg)
        except (SystemExit, Exception) as e:
            self.error = e
        finally:
            logging.disable(logging.NOTSET)
            torch.set_rng_state(rng)
        self.tests = {k: float(v) for m in self.logger.metrics for k, v in m.items() if k.startswith("Test/")}


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c33")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def files(home):
    res = {}
    for d, _, fs in os.walk(home):
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                res[os.path.relpath(os.path.join(d, f), home)] = hash(h.read())
    return res


def reference(spn, cfg, shape, rows, discrete):
    """average negative log-likelihood (or accuracy) of the model on the examples, one at a time"""
    x, y = dataset(shape, rows, cfg.num_classes)
    if discrete:
        x = ((x.double() * 255).round().long() // 2 ** (8 - cfg.n_bits)).float()
    spn.eval()
    vals = []
    with torch.no_grad():
        for i in range(rows):
            if cfg.classification:
                vals.append(float(int(spn.posterior(x[i:i + 1]).argmax(-1)) == int(y[i])))
            else:
                vals.append(-float(spn(x[i:i + 1]).double().mean()))
    return sum(vals) / rows


def runs(shape, opts, histories, lr=True):
    discrete = opts["dist"] in ("binomial", "categorical")

    def case(rec):
        trained = {}  # seed -> state
        for hist in histories:
            with scratch() as home:
                last = {}
                for i, sym in enumerate(hist):
                    where, act = ("b", {"A": "1", "B": "2", "E": "e"}[sym]) if sym in "ABE" else ("a", sym)
                    rep = {"options": opts, "history": hist[:i + 1]}
                    kw = dict(num_classes=1, num_workers=0, einet__D=1, einet__S=2, einet__I=2, einet__R=2, precision="32", tag="t", group_tag="g", profiler=None, data_dir="/nowhere", results_dir="/nowhere", lr=0.05, n_bits=3,
                              dataset="digits", epochs=1, batch_size=4)
                    kw.update(opts)
                    kw.update(load_and_eval=act == "e", seed=int(act) if act != "e" else 1)
                    cfg = config(**kw)
                    os.makedirs(os.path.join(home, where), exist_ok=True)
                    before = files(home)
                    run = Run(os.path.join(home, where), shape, cfg)
                    now = files(home)
                    rec.ran()
                    rec.state()
                    rec.expect(all(now.get(k) == v for k, v in before.items() if not k.startswith(where)), "modified", lambda: f"the run changed {[k for k, v in before.items() if now.get(k) != v]} ({rep})", rep)
                    if act == "e" and where not in last:
                        rec.expect(run.error is not None and not run.tests, "nothing", lambda: f"an evaluation without a trained model reports {run.tests} ({rep})", rep)
                        continue
                    if run.error is not None:
                        rec.violation("failed", f"the run raised {type(run.error).__name__}: {str(run.error)[:200]} ({rep})", rep)
                        break
                    lit = run.lit[-1]
                    rec.expect(all(m is lit for m in run.lit), "same", lambda: f"another model is evaluated than trained ({rep})", rep)
                    path = os.path.join(home, where, "model.pt")
                    if not os.path.exists(path):
                        rec.violation("saved", f"no model in the run directory: {sorted(now)} ({rep})", rep)
                        break
                    state = torch.load(path, weights_only=False)["state_dict"]
                    own = lit.state_dict()
                    rec.expect(set(own) == set(state) and all(torch.equal(own[k], state[k]) for k in own), "state", lambda: f"the stored parameters are not those of the model ({rep})", rep)
                    if act != "e":
                        per = math.ceil(ROWS[0] / cfg.batch_size)
                        rec.expect(len(run.lr) == cfg.epochs * per, "steps", lambda: f"{len(run.lr)} optimiser steps instead of {cfg.epochs * per} ({rep})", rep)
                        if lr:
                            cut = [max(1, int(f * cfg.epochs)) for f in (0.7, 0.9)]
                            want = [cfg.lr * 0.1 ** sum(e >= c for c in cut) for e in range(cfg.epochs) for _ in range(per)]
                            got = [v[0] for v in run.lr]
                            rec.expect(len(got) == len(want) and all(abs(a - b) < 1e-9 for a, b in zip(got, want)), "rate", lambda: f"learning rates {got} instead of {want} ({rep})", rep)
                        x, y = dataset(shape, ROWS[0], cfg.num_classes)
                        count = {(tuple(a.reshape(-1).tolist()), int(b)): 0 for a, b in zip(x, y)}
                        for e in run.shown:
                            count[e] = count.get(e, 0) + 1
                        rec.expect(set(count.values()) == {cfg.epochs} and len(count) == ROWS[0], "examples", lambda: f"training examples are shown {sorted(count.values())} times in {cfg.epochs} epochs ({rep})", rep)
                        if act in trained:
                            rec.expect(all(torch.equal(trained[act][k], state[k]) for k in state), "reproducible", lambda: f"training from the same seed gives other parameters ({rep})", rep)
                        trained[act] = state
                        last[where] = act
                    else:
                        rec.expect(not run.lr and not run.fits, "steps", lambda: f"an evaluation makes {len(run.lr)} optimiser steps ({rep})", rep)
                        rec.expect(all(torch.equal(trained[last[where]][k], state[k]) for k in state), "other", lambda: f"the evaluated model is not the one trained last ({rep})", rep)
                    name = "accuracy" if cfg.classification else "nll"
                    want = {f"Test/{t}_{name}": reference(lit.spn, cfg, shape, n, discrete) for t, n in zip(("train", "val", "test"), ROWS)}
                    for k, v in want.items():
                        got = run.tests.get(k, math.nan)
                        rec.expect(abs(got - v) <= 1e-4 + 1e-5 * abs(v), "metric", lambda: f"{k} {got} reported, it is {v} for the stored model ({rep})", rep)
                    rec.expect(set(run.tests) == set(want), "metrics", lambda: f"{sorted(run.tests)} are reported ({rep})", rep)
                    rec.outcome((sym, tuple(round(v, 3) for v in want.values())))
        if len(trained) > 1:
            a, b = trained.values()
            rec.expect(any(not torch.equal(a[k], b[k]) for k in a), "seeds", "training from different seeds gives the same parameters", opts)
        rec.sample({"options": opts, "histories": len(histories)})
    return case


def cases(tier, seed):
    th = tier == "thorough"
    res = {}
    digits = (1, 8, 8)
    allh = ["".join(h) for h in itertools.product("12eABE", repeat=3)]
    for part in range(24):
        res[f"histories/{part}"] = runs(digits, dict(dist="normal"), allh[part::24])
        if th:
            res[f"histories/{part}/class"] = runs(digits, dict(dist="binomial", classification=True, num_classes=2), allh[part::24])
    for dist, layer, c in itertools.product(("normal", "normal_rat", "binomial", "categorical", "multivariate_normal"), ("linsum", "einsum"), (False, True)):
        for extra in ({}, {"swa": True}, {"mixture": True, "num_classes": 2}, {"dropout": 0.3}, {"init_leaf_data": True}, {"einet__structure": "bottom-up"}, {"model": "convpc", "convpc__channels": [3, 2]}, {"model": "convpc", "convpc__channels": [2, 2, 3], "convpc__structure": "bottom-up"}):
            kind = next(iter(extra), "plain")
            if kind == "einet__structure" and (layer == "einsum" or dist == "multivariate_normal") or kind == "model" and (c or layer == "einsum" or dist == "multivariate_normal") or kind == "mixture" and c:
                continue  # not supported
            o = dict(dist=dist, einet__layer_type=layer, classification=c, batch_size=3, epochs=2)
            if c:
                o["num_classes"] = 3
            o.update(extra)
            res[f"families/{dist}/{layer}/{'class' if c else 'density'}/{kind}{len(extra)}"] = runs(digits, o, ["1e", "11"], lr="swa" not in extra)
    for e in (1, 2, 3, 4, 5, 10):
        for b in (1, 2, 3, 7, 9):
            res[f"epochs/{e}/batch {b}"] = runs(digits, dict(dist="binomial", classification=True, num_classes=2, epochs=e, batch_size=b), ["1e"])
    return res
