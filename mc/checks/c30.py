"""C30: the entry points do what their configuration says: completion of it, the pipeline of main_pl, the command line."""
import argparse
import contextlib
import io
import itertools
import logging
import math
import os
import shutil
import sys
import tempfile
import time
import types

import numpy as np
import torch

from .. import env

_cwd = os.getcwd()
os.chdir(env.REPO)  # exp_utils reads ./PROJECT_NAME when it is imported
try:
    import args as args_py  # noqa: E402
    import main_pl as P  # noqa: E402
    import models_pl  # noqa: E402
finally:
    os.chdir(_cwd)

import exp_utils  # noqa: E402
import hydra.core.hydra_config  # noqa: E402
import lightning.pytorch  # noqa: E402
import lightning.pytorch.loggers  # noqa: E402
import simple_einet.data as data_py  # noqa: E402
import wandb as wandb_py  # noqa: E402
from omegaconf import OmegaConf  # noqa: E402
from ..patching import swapped  # noqa: E402
from simple_einet.dist import Dist  # noqa: E402
from simple_einet.conv_pc import ConvPc  # noqa: E402
from simple_einet.einet import Einet  # noqa: E402
from simple_einet.layers.distributions.binomial import Binomial  # noqa: E402
from simple_einet.layers.distributions.categorical import Categorical  # noqa: E402
from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal  # noqa: E402
from simple_einet.layers.distributions.normal import Normal, RatNormal  # noqa: E402
from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear  # noqa: E402
from simple_einet.mixture import Mixture  # noqa: E402

LEVEL = "model_checking"
BOUNDS = ("every configuration of main_pl over 6 leaf families x classification, data initialisation, mixture, averaging, debug, online logging, evaluation only (all 2^7) x 2 data sets, run to the end with a recording trainer; "
          "all subsets of missing settings x environment variables x precision; all single options and pairs of options of the command line with every listed value")
LEAF = {Dist.NORMAL: Normal, Dist.NORMAL_RAT: RatNormal, Dist.BINOMIAL: Binomial, Dist.CATEGORICAL: Categorical, Dist.MULTIVARIATE_NORMAL: MultivariateNormal, Dist.PIECEWISE_LINEAR: PiecewiseLinear}
GAUSS = (Dist.NORMAL, Dist.NORMAL_RAT, Dist.MULTIVARIATE_NORMAL)
logging.getLogger("main_pl").setLevel(logging.CRITICAL + 1)


@contextlib.contextmanager
def environ(**kw):
    old = {k: os.environ.get(k) for k in kw}
    try:
        for k, v in kw.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
        yield
    finally:
        for k, v in old.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)


@contextlib.contextmanager
def patched(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    try:
        for k, v in kw.items():
            setattr(obj, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="mc30_")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*a, **k)


def config(**kw):
    c = OmegaConf.load(os.path.join(env.REPO, "conf", "config.yaml"))
    for k in ("hydra", "defaults"):
        c.pop(k)
    for k, v in kw.items():
        OmegaConf.update(c, k.replace("__", "."), v)
    return c


class Crash(Exception):
    pass


class World:
    """Everything main_pl talks to, recording in the order of the calls."""

    def __init__(self, cfg, run_dir, crash=None):
        self.cfg, self.run_dir, self.crash = cfg, run_dir, crash
        self.log, self.trainers, self.seen = [], [], {}
        shape = (1, 8, 8) if cfg.dataset == "digits" else (1, 1, 2)
        g = torch.Generator().manual_seed(3)
        self.loaders = [[((torch.rand(6, *shape, generator=g) * 0.5 + off), torch.tensor([0, 1, 0, 1, 0, 1])) for _ in range(2)] for off in (0.0, 0.25, 0.5)]
        self.loaded = None

    def build_dataloader(self, dataset_name, data_dir, batch_size, num_workers, loop=False, normalize=True, seed=1, **kw):
        self.log.append("data")
        self.seen["data"] = dict(dataset_name=dataset_name, data_dir=data_dir, batch_size=batch_size, num_workers=num_workers, loop=loop, normalize=normalize, seed=seed)
        return tuple(self.loaders)

    def Trainer(self, **kw):
        w = self

        class T:
            def fit(self, model, train_dataloaders=None, val_dataloaders=None, **k):
                w.log.append("fit")
                w.seen["fit"] = (model, train_dataloaders, val_dataloaders)
                w.seen["means"] = leaf_means(model.spn)
                w.seen["weights"] = model.spn.mixture_weights.clone() if isinstance(model.spn, Mixture) else None
                if w.crash == "fit":
                    raise Crash("fit")

            def test(self, model=None, dataloaders=None, **k):
                w.log.append("test")
                w.seen["test"] = (model, dataloaders)

            def save_checkpoint(self, path, *a, **k):
                w.log.append("save")
                w.seen["save"] = path
        self.trainers.append(kw)
        return T()

    def plot(self, model, dataset_name, logger_wandb=None):
        self.log.append("plot")
        self.seen["plot"] = (model, dataset_name, logger_wandb)

    def load(self, results_dir, load_fn, args):
        self.log.append("load")
        self.loaded = models_pl.SpnGenerative(args, steps_per_epoch=2)
        return self.loaded

    def run(self, fn):
        hyd = types.SimpleNamespace(get=lambda: types.SimpleNamespace(runtime=types.SimpleNamespace(output_dir=self.run_dir)))
        self.logger = types.SimpleNamespace(name="wandb")
        self.wandb_kw = None

        def wlog(**kw):
            self.wandb_kw = kw
            return self.logger
        wandb = types.SimpleNamespace(Settings=lambda **k: None, finish=lambda: self.log.append("finish"))
        logging.disable(logging.CRITICAL)
        try:
            pairs = [(data_py.build_dataloader, self.build_dataloader), (lightning.pytorch.loggers.WandbLogger, wlog), (hydra.core.hydra_config.HydraConfig, hyd), (exp_utils.plot_distribution, self.plot),
                     (exp_utils.load_from_checkpoint, self.load), (wandb_py, wandb), (lightning.pytorch.Trainer, self.Trainer)]
            places = (P, data_py, exp_utils, lightning.pytorch, lightning.pytorch.loggers, hydra.core.hydra_config)
            with swapped(pairs, places), patched(wandb_py, finish=wandb.finish, Settings=wandb.Settings), \
                    environ(WANDB_MODE=None, PL_GLOBAL_SEED=os.environ.get("PL_GLOBAL_SEED"), PL_SEED_WORKERS=os.environ.get("PL_SEED_WORKERS")):
                quiet(fn, self.cfg)
                self.mode = os.environ.get("WANDB_MODE")
        finally:
            logging.disable(logging.NOTSET)


def leaf_means(spn):
    net = spn.models[0] if isinstance(spn, Mixture) else spn
    leaf = getattr(net, "leaf", None)
    leaf = getattr(leaf, "base_leaf", leaf)
    m = getattr(leaf, "means", None)
    return None if m is None else m.detach().clone()


def params(m):
    return [p.detach().clone() for p in m.parameters()]


def pipeline(dist, dataset, classification):
    def case(rec):
        for init, mix, swa, debug, online, only in itertools.product((False, True), repeat=6):
            if only and (swa or init or mix or classification):  # evaluation loads a stored generative model
                continue
            D = 1 if dist != Dist.MULTIVARIATE_NORMAL else 0
            kw = dict(dist=dist.value, dataset=dataset, classification=classification, init_leaf_data=init, mixture=mix, swa=swa, debug=debug, wandb=online, load_and_eval=only, num_classes=2, batch_size=7, num_workers=0,
                      einet__D=D, einet__S=2, einet__I=3, einet__R=1, epochs=5, precision="32", seed=11, tag="t", group_tag="g", profiler=None, data_dir="/nowhere/d", results_dir="/nowhere/r", lr=0.25, n_bits=3)
            rep = dict(kw)
            rec.state()
            with scratch() as d:
                cfg = config(**kw)
                w = World(cfg, d)
                try:
                    w.run(P.main)
                except Exception as e:
                    rec.violation(f"crash/{type(e).__name__}", f"{rep}: {type(e).__name__}: {e}", rep)
                    continue
                rec.ran()
                s = w.seen
                want = ["data"] + (["load"] if only else ["fit"]) + (["plot"] if "synth" in dataset and not classification else []) + ["test", "save"]
                rec.outcome(tuple(w.log))
                if not rec.expect(sorted(w.log) == sorted(want) and w.log.index("data") == 0 and (only or w.log.index("fit") < w.log.index("test")) and w.log.index("fit" if not only else "load") < w.log.index("save"),
                                  "order", lambda: f"steps {w.log} instead of {want}", rep):
                    continue
                rec.expect({k: v for k, v in s["data"].items() if k != "num_workers"} == dict(dataset_name=dataset, data_dir="/nowhere/d", batch_size=7, loop=False, normalize=dist in GAUSS, seed=11) and s["data"]["num_workers"] == 0,
                           "data", lambda: f"data is loaded with {s['data']}", rep)
                tm, tl = s["test"]
                model = tm
                if only:
                    rec.expect(tm is w.loaded, "evaluate", "the loaded model is not the one evaluated", rep)
                else:
                    model, tr, va = s["fit"]
                    rec.expect(tr is w.loaders[0] and va is w.loaders[1], "fit", "the model is not fitted to the training set with the validation set", rep)
                    rec.expect(tm is model, "evaluate", "another model is evaluated than trained", rep)
                    rec.expect(type(model) is (models_pl.SpnDiscriminative if classification else models_pl.SpnGenerative), "model", lambda: f"{type(model).__name__}", rep)
                    rec.expect(isinstance(model.spn, Mixture) == mix, "model", lambda: f"{type(model.spn).__name__}", rep)
                    rec.expect(model.spn.config.leaf_type is LEAF[dist] and model.steps_per_epoch == 2, "model", "leaf family or steps per epoch", rep)
                    if mix:
                        X = torch.cat([b[0] for b in w.loaders[0]]).flatten(1)
                        wts = s["weights"]
                        rec.expect(abs(float(wts.sum()) - 1) < 1e-6 and bool((wts >= 0).all()), "mixture", lambda: f"weights {wts.tolist()} before training", rep)
                        c = model.spn.centroids / (2 ** 3 - 1 if dist == Dist.BINOMIAL else 1)
                        rec.expect(torch.allclose((wts.unsqueeze(1) * c.float()).sum(0), X.float().mean(0), atol=1e-3), "mixture", "centroids are not those of the training set", rep)
                    if dist == Dist.NORMAL:
                        X = torch.cat([b[0] for b in w.loaders[0]]).flatten(1)
                        m = s["means"].squeeze(0)
                        mean = X.mean(0).view(-1, 1, 1)
                        near = bool(((m - mean).abs() <= 6 * 0.1 * X.mean(0).std() + 1e-6).all())
                        rec.expect(near == init or dataset != "digits", "init", lambda: f"leaf means are {'' if near else 'not '}those of the training set although init_leaf_data={init}", rep)
                        rec.expect(near or not init, "init", "leaf means are not those of the training set", rep)
                rec.expect(isinstance(tl, (list, tuple)) and len(tl) == 3 and all(a is b for a, b in zip(tl, w.loaders)), "evaluate", "the model is not evaluated on training, validation and test set in this order", rep)
                if "plot" in s:
                    rec.expect(s["plot"][0] is model.spn and s["plot"][1] == dataset and s["plot"][2] is w.logger, "plot", "the density plotted is not that of the model", rep)
                if rec.expect(len(w.trainers) == 1, "trainer", "number of trainers", rep):
                    t = w.trainers[0]
                    rec.expect(t.get("max_epochs") == 5 and t.get("precision") == 32 and bool(t.get("fast_dev_run")) == debug and t.get("logger") is w.logger and t.get("accelerator") == "cpu", "trainer", lambda: f"trainer gets {t}", rep)
                    has = [c for c in t.get("callbacks") or [] if type(c).__name__ == "StochasticWeightAveraging"]
                    rec.expect(len(has) == int(swa), "trainer", "weight averaging", rep)
                rec.expect(s["save"] == os.path.join(d, "model.pt"), "save", lambda: f"model is stored at {s['save']}", rep)
                c = OmegaConf.load(os.path.join(d, "config.yaml"))
                bad = [k for k in kw if "__" not in k and k not in ("precision", "dist") and c.get(k) != kw[k]]
                rec.expect(not bad and c.einet.D == D and c.einet.I == 3 and str(c.precision) == "32", "config", lambda: f"stored configuration differs in {bad}", rep)
                rec.expect(cfg.run_dir == d, "config", "run directory", rep)
                rec.expect((w.mode == "offline") == (not online) and bool(w.wandb_kw.get("offline")) == (not online) and w.wandb_kw.get("save_dir") == d, "logger", lambda: f"logging mode {w.mode}", rep)
                # same seed, same model; another seed, another one
                if not (swa or debug or online or only):
                    same = []
                    for seed in (11, 12):
                        torch.rand(3), np.random.rand(2)
                        w2 = World(config(**{**kw, "seed": seed}), d)
                        w2.run(P.main)
                        same.append(all(torch.equal(a, b) for a, b in zip(params(model), params(w2.seen["fit"][0]))))
                    rec.expect(same == [True, False], "seed", lambda: f"models of the same / another seed are equal: {same}", rep)
                    rec.ran(2)
        rec.sample(dict(dist=dist.value, dataset=dataset, classification=classification))
    return case


def crashes(rec):
    for crash in (None, "fit"):
        for dataset in ("digits", "synth-2-clusters"):
            with scratch() as d:
                w = World(config(dist="normal", dataset=dataset, num_classes=1, einet__D=1, einet__S=2, einet__I=2, precision="32", seed=1, tag="t", group_tag="g", profiler=None, data_dir="/d", results_dir="/r", num_workers=0), d, crash=crash)
                hook = P.main_hydra.__wrapped__
                w.run(hook)
                rec.ran()
                rec.state()
                rec.expect(w.log.count("finish") == 1 and w.log[-1] == "finish", "finish", lambda: f"steps {w.log}: logging is not closed", dict(crash=crash))
                rec.expect(("save" in w.log) == (crash is None), "finish", "a failed run stores a model", dict(crash=crash))


def complete(rec):
    KEYS = ("data_dir", "results_dir", "profiler", "tag", "group_tag", "seed")
    given = dict(data_dir="/D", results_dir="/R", profiler="simple", tag="t", group_tag="g", seed=0)
    for how in ("unknown", "mandatory"):
        for missing in itertools.product((False, True), repeat=6):
            for dd, rd in itertools.product((None, "/env/d"), (None, "/env/r")):
                for prec, want in (("16", 16), ("32", 32), (16, 16), (32, 32), ("bf16", "bf16"), ("bf16-mixed", "bf16-mixed"), ("16-mixed", "16-mixed"), ("64", "64")):
                    if prec not in ("32", "bf16") and sum(missing) not in (0, 6):
                        continue
                    for dist in Dist:
                        if dist != Dist.NORMAL and sum(missing) not in (0, 6):
                            continue
                        for name in (dist.value, dist.value.upper(), dist.name):
                            c = OmegaConf.create(dict(precision=prec, dist=name, other=5, nested=dict(a=1)))
                            for k, m in zip(KEYS, missing):
                                if not m:
                                    c[k] = given[k]
                                elif how == "mandatory":
                                    c[k] = "???"
                            rep = dict(missing=[k for k, m in zip(KEYS, missing) if m], how=how, precision=prec, dist=name, DATA_DIR=dd, RESULTS_DIR=rd)
                            rec.state()
                            t0 = int(time.time())
                            with environ(HOME="/home/x", DATA_DIR=dd, RESULTS_DIR=rd):
                                P.preprocess_cfg(c)
                            t1 = int(time.time())
                            exp = dict(data_dir=dd or "/home/x/data", results_dir=rd or "/home/x/results", profiler=None, tag=None, group_tag=None)
                            for k, m in zip(KEYS, missing):
                                if k == "seed" and m:
                                    s = c.get("seed")
                                    rec.expect(isinstance(s, int) and t0 <= s <= t1, "seed", lambda: f"seed {s}", rep)
                                else:
                                    w = exp[k] if m else given[k]
                                    g = c.get(k, "nothing")
                                    rec.expect(g == w, k, lambda: f"{k} becomes {g!r} instead of {w!r}", rep)
                            rec.expect(c.precision == want and type(c.precision) is type(want), "precision", lambda: f"precision {prec!r} becomes {c.precision!r}", rep)
                            rec.expect(c.dist == dist and isinstance(c.dist, Dist), "dist", lambda: f"{name} becomes {c.dist!r}", rep)
                            rec.expect(c.other == 5 and c.nested == dict(a=1), "other", "other settings change", rep)
        rec.ran()


OPTIONS = dict(
    train=[([], True)], data_dir=[(["/x"], "/x")], results_dir=[(["/y"], "/y")], mixture=[(["1"], 1), (["3"], 3)], lr=[(["0.5"], 0.5), (["1e-3"], 1e-3)], batch_size=[(["1"], 1), (["128"], 128)], n_bits=[(["5"], 5)],
    num_workers=[(["0"], 0)], epochs=[(["0"], 0), (["7"], 7)], temperature_leaves=[(["0.0"], 0.0), (["0.5"], 0.5)], temperature_sums=[(["0.25"], 0.25)], dropout=[(["0.3"], 0.3)], min_sigma=[(["1e-3"], 1e-3)], max_sigma=[(["3"], 3.0)],
    dry_run=[([], True)], seed=[(["0"], 0), (["9"], 9)], log_interval=[(["2"], 2)], classification=[([], True)], device=[(["cpu"], "cpu")], debug=[([], True)], S=[(["4"], 4)], I=[(["5"], 5)], D=[(["0"], 0), (["2"], 2)], R=[(["6"], 6)],
    layer=[(["einsum"], "einsum"), (["linsum"], "linsum")], dist=[([d.value], d) for d in Dist], precision=[(["16"], 16), (["32"], 32), (["bf16"], "bf16")], group_tag=[(["g"], "g")], tag=[(["t"], "t")], wandb=[([], True)], swa=[([], True)],
    profiler=[(["simple"], "simple"), (["pytorch"], "pytorch"), (["advanced"], "advanced")], log_weights=[([], True)], num_devices=[(["2"], 2)], structure=[(["bottom-up"], "bottom-up"), (["top-down"], "top-down")], gpu=[(["1"], "1")])


def parse(argv):
    with patched(sys, argv=["main.py"] + argv):
        return quiet(args_py.parse_args)


def command_line(rec):
    flag = lambda k: f"-{k}" if len(k) == 1 else "--" + k.replace("_", "-")
    with environ(HOME="/home/x", DATA_DIR=None, RESULTS_DIR=None):
        base = vars(parse(["--dataset", "mnist"]))
        defaults = dict(dataset="mnist", train=False, data_dir="/home/x/data", results_dir="/home/x/results", dry_run=False, classification=False, debug=False, wandb=False, swa=False, log_weights=False, tag=None, group_tag=None, precision=32)
        for k, v in defaults.items():
            rec.expect(base.get(k, base) == v, "default", lambda: f"{k} is {base.get(k)!r} by default", dict(option=k))
        flat = [(k, a, v) for k, vs in OPTIONS.items() for a, v in vs]
        for A, B in itertools.product(flat, repeat=2):
            if A[0] == B[0] and A != B:
                continue
            argv = [flag(A[0]), *A[1]] + ([flag(B[0]), *B[1]] if A != B else [])
            rec.state()
            rep = dict(argv=argv)
            try:
                got = vars(parse(["--dataset", "x"] + argv))
            except SystemExit:
                rec.violation("option", f"{argv} is rejected", rep)
                continue
            want = {**base, "dataset": "x", A[0]: A[2], B[0]: B[2]}
            bad = [k for k in want if got.get(k) != want[k] or type(got.get(k)) is not type(want[k])]
            rec.expect(not bad, "option", lambda: f"{argv}: {[(k, got.get(k), want[k]) for k in bad]}", rep)
        rec.ran()
        for argv in ([], ["--dataset", "x", "--layer", "foo"], ["--dataset", "x", "--dist", "foo"], ["--dataset", "x", "--precision", "8"], ["--dataset", "x", "--structure", "sideways"], ["--dataset", "x", "--lr", "fast"], ["--dataset", "x", "--epochs", "1.5"], ["--dataset", "x", "--profiler", "none"], ["--dataset", "x", "--unknown"]):
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    parse(argv)
                rec.violation("reject", f"{argv} is accepted", dict(argv=argv))
            except SystemExit as e:
                rec.expect(e.code != 0, "reject", f"{argv} exits with 0", dict(argv=argv))
    for dd, rd in itertools.product((None, "/e/d"), (None, "/e/r")):
        for given in (False, True):
            with environ(HOME="/home/x", DATA_DIR=dd, RESULTS_DIR=rd):
                a = parse(["--dataset", "x"] + (["--data-dir", "/g/d", "--results-dir", "/g/r"] if given else []))
            rec.state()
            w = ("/g/d", "/g/r") if given else (dd or "/home/x/data", rd or "/home/x/results")
            rec.expect((a.data_dir, a.results_dir) == w, "directories", lambda: f"{(a.data_dir, a.results_dir)} instead of {w}", dict(DATA_DIR=dd, RESULTS_DIR=rd, given=given))


def cases(tier, seed):
    out = [("complete", complete), ("command line", command_line), ("crashes", crashes)]
    for dist in Dist:
        for ds in ("digits", "synth-2-clusters"):
            for cl in (False, True):
                if dist in (Dist.BINOMIAL, Dist.CATEGORICAL) and ds != "digits":
                    continue
                out.append((f"pipeline/{dist.value}/{ds}/{'classes' if cl else 'density'}", pipeline(dist, ds, cl)))
    return out
