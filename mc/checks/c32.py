"""C32: whole runs of the command-line script: what it trains is what it saves, what it reports is the saved model, and its
reconstructions keep the evidence.  Histories of runs (train, evaluate) that share two results directories are enumerated."""
import contextlib
import io
import itertools
import math
import os
import re
import shutil
import sys
import tempfile
import types

import lightning
import torch
import torchvision.utils

from .. import env

_cwd = os.getcwd()
os.chdir(env.REPO)  # exp_utils reads ./PROJECT_NAME when it is imported
try:
    import exp_utils  # noqa: E402,F401
finally:
    os.chdir(_cwd)

import simple_einet.data as data_py  # noqa: E402
from simple_einet.einet import Einet  # noqa: E402
from simple_einet.layers.distributions.normal import Normal, RatNormal  # noqa: E402

from ..patching import patched  # noqa: E402

LEVEL = "model_checking"
BOUNDS = ("every history of up to 3 runs (thorough: 4), each of which trains from seed 1, trains from seed 2 or evaluates, over two results directories; 4 leaf families with 1 to 8 bits x 2 layer types x 2 structures x classification; "
          "images with 1 and 3 channels; 1 to 3 epochs; debug and dry runs")
ROWS = (7, 3, 4)  # training, validation and test examples


def dataset(shape, n):
    """distinct images with intensities k / 255, and labels"""
    C, H, W = shape
    g = torch.Generator().manual_seed(97 + n)
    x = torch.randint(0, 256, (n, C, H, W), generator=g)
    x[:, 0, 0, 0] = torch.arange(n) * 31 % 256
    return (x / 255.0).float(), torch.arange(n) % 10


def binned(x, n):
    return (x.double() * 255).round().long() // 2 ** (8 - n)


def seen(x, n, gauss, noise):
    """what the model is shown for images x; noise: the dequantisation draws"""
    k = binned(x, n)
    if not gauss:
        return k.float()
    return (k.double() / 2 ** n - 0.5 + noise / 2 ** n).float()


class Run:
    """one run of the script, with everything it does to the outside recorded"""

    def __init__(self, home, name, shape, opts, seed, train, environ=None):
        self.steps = 0
        self.models = []
        self.shown = []  # inputs of forward passes in training mode
        self.images = {}
        self.error = None
        sets = [torch.utils.data.TensorDataset(*dataset(shape, n)) for n in ROWS]
        argv = ["main.py", "--dataset", name, "--device", "cpu", "--seed", str(seed)] + [str(v).replace("HOME", home) for v in opts] + (["--train"] if train else [])
        out = io.StringIO()
        init, forward, step = Einet.__init__, Einet.forward, torch.optim.Adam.step
        run = self

        def _init(m, *a, **k):
            init(m, *a, **k)
            run.models.append(m)

        def _forward(m, x, *a, **k):
            if m.training:
                run.shown.append(x.detach().clone())
            return forward(m, x, *a, **k)

        def _step(o, *a, **k):
            run.steps += 1
            run.lr.update(g["lr"] for g in o.param_groups)
            return step(o, *a, **k)

        def _grid(t, *a, **k):
            return t

        def _save(t, path, *a, **k):
            run.images[os.path.basename(str(path))] = t.detach().clone() if torch.is_tensor(t) else t
            run.dirs.add(os.path.dirname(os.path.abspath(str(path))))

        class Fabric(lightning.Fabric):
            def __init__(self, *a, **k):
                k["precision"] = "32-true"  # exact numbers instead of mixed precision
                super().__init__(*a, **k)
        self.dirs = set()
        self.lr = set()
        old_main = sys.modules["__main__"]
        self.data_dir = None

        def _sets(name, data_dir=None, *a, **k):
            run.data_dir = data_dir
            return tuple(sets)
        old_argv, cwd = sys.argv, os.getcwd()
        old_env = {k: os.environ.pop(k, None) for k in ("HOME", "DATA_DIR", "RESULTS_DIR")}
        rng = torch.get_rng_state()
        try:
            sys.argv = argv
            os.environ["HOME"] = home
            os.environ.update({k: v.replace("HOME", home) for k, v in (environ or {}).items()})
            os.chdir(home)
            with patched((data_py, "get_datasets", _sets), (os, "cpu_count", lambda: 0), (lightning, "Fabric", Fabric), (Einet, "__init__", _init), (Einet, "forward", _forward),
                         (torch.optim.Adam, "step", _step), (torchvision.utils, "make_grid", _grid), (torchvision.utils, "save_image", _save),
                         (torch, "rand_like", lambda t, **k: torch.full_like(t, 0.5))), \
                    contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                path = os.path.join(str(env.REPO), "main.py")
                with open(path) as f:
                    code = compile(f.read(), path, "exec")
                script = types.ModuleType("__main__")
                script.__file__ = path
                sys.modules["__main__"] = script
                exec(code, script.__dict__)
        except (SystemExit, Exception) as e:
            self.error = e
        finally:
            sys.argv = old_argv
            sys.modules["__main__"] = old_main
            os.chdir(cwd)
            for k, v in old_env.items():
                os.environ.pop(k, None)
                if v is not None:
                    os.environ[k] = v
            torch.set_rng_state(rng)
        self.out = out.getvalue()
        self.losses = {m.group(1): float(m.group(2)) for m in re.finditer(r"(\w+) set: Average loss: (\S+)", self.out)}
        self.accuracy = [float(v) for v in re.findall(r"^Accuracy: (\S+)", self.out, re.M)]


def files(home):
    res = {}
    for d, _, fs in os.walk(home):
        for f in fs:
            if "matplotlib" not in d and ".cache" not in d:
                p = os.path.join(d, f)
                with open(p, "rb") as h:
                    res[os.path.relpath(p, home)] = hash(h.read())
    return res


def model_file(home):
    found = [os.path.join(d, f) for d, _, fs in os.walk(home) for f in fs if f.endswith((".pth", ".pt"))]
    return found


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c32")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_eval(rec, run, m, n, gauss, K, shape, rep):
    """reported losses and accuracies are those of the model"""
    rec.expect(set(run.losses) == {"Train", "Val", "Test"}, "reports", lambda: f"reported {sorted(run.losses)} ({rep})", rep)
    m.eval()
    for (tag, rows), i in zip((("Train", ROWS[0]), ("Val", ROWS[1]), ("Test", ROWS[2])), range(3)):
        x, y = dataset(shape, rows)
        with torch.no_grad():
            out = m(seen(x, n, gauss, 0.5)).double()
        want = -float((out.logsumexp(-1) - math.log(K)).mean())
        got = run.losses.get(tag, math.nan)
        rec.expect(abs(got - want) <= 1e-4 * abs(want) + 2e-3, "loss", lambda: f"{tag} loss {got} reported, the saved model's average is {want:.4f} ({rep})", rep)
        if K > 1:
            acc = 100.0 * float((out.argmax(-1) == y).double().mean())
            got = run.accuracy[i] if i < len(run.accuracy) else math.nan
            rec.expect(abs(got - acc) < 0.01, "accuracy", lambda: f"accuracy {got} reported for the {tag} set, it is {acc:.2f} ({rep})", rep)
        rec.outcome(f"{want:.3f}")


def check_images(rec, run, m, n, gauss, shape, batch, rep):
    C, H, W = shape
    scale = 1.0 if gauss else 2.0 ** n
    x, _ = dataset(shape, ROWS[2])
    truth = seen(x, n, gauss, 0.0)[:batch]  # the first batch of the test set
    want = {"ground_truth.png"} | {f"{a}{d}{b}.png" for a in ("samples", "reconstructions") for d in ("", "-diff") for b in ("", "-mpe-leaves")} | {f"{a}{d}.png" for a in ("mpe", "reconstructions_mpe") for d in ("", "-diff")}
    rec.expect(want <= set(run.images), "images", lambda: f"images {sorted(want - set(run.images))} are not written ({rep})", rep)
    tol = 1e-4 if gauss else 1e-5
    hidden = torch.zeros(H, W, dtype=torch.bool)
    hidden[:round(W / 2)] = True
    for name, t in run.images.items():
        t = t.double()
        rec.expect(tuple(t.shape[1:]) == tuple(shape), "shape", lambda: f"{name} shows images of shape {tuple(t.shape[1:])} ({rep})", rep)
        if tuple(t.shape[1:]) != tuple(shape):
            continue
        rec.expect(bool(torch.isfinite(t).all()), "finite", lambda: f"{name} has values that are not finite ({rep})", rep)
        if not gauss and not name.startswith("ground"):
            v = t * scale if not name.startswith("mpe") or float(t.max()) < 1 else t
            rec.expect(("-diff" in name or bool(((v - v.round()).abs() < 1e-3).all())) and float(v.min()) >= -1e-3 and float(v.max()) < 2 ** n - 1 + 1e-3, "values", lambda: f"{name} shows values that no leaf can produce ({rep})", rep)
        if name.startswith("ground"):
            rec.expect(t.shape[0] == len(truth) and bool(torch.allclose(t, truth.double(), atol=tol)), "ground-truth", lambda: f"the ground truth is not the test set ({rep})", rep)
        if name.startswith("reconstructions"):
            ok = t.shape[0] == len(truth)
            rec.expect(ok and bool(torch.allclose(t[..., ~hidden] * scale, truth.double()[..., ~hidden], atol=tol)), "evidence", lambda: f"{name} does not keep the given part of the images ({rep})", rep)
            rec.expect(ok and not bool(torch.allclose(t[..., hidden] * scale, truth.double()[..., hidden], atol=tol)), "completed", lambda: f"{name} shows the part of the images that is to be reconstructed ({rep})", rep)
    scopes = hidden.reshape(-1).nonzero().reshape(-1).tolist()
    m.eval()
    for name, q in (("mpe.png", lambda: m.mpe(evidence=None)), ("reconstructions_mpe.png", lambda: m.mpe(evidence=truth.clone(), marginalized_scopes=scopes))):
        if name in run.images:
            with torch.no_grad():
                w = q().reshape(-1, *shape).double()
            t = run.images[name].double()
            rec.expect(any(t.shape == w.shape and torch.allclose(t * s, w, atol=1e-4 * max(1.0, s)) for s in {1.0, scale}), "mpe", lambda: f"{name} is not the model's most probable explanation ({rep})", rep)


def options(name, extra, n, want, environ=None):
    """options reach the model and the optimiser"""
    def case(rec):
        o = ["-R", 3, "-S", 4, "-I", 5, "-D", 2, "--n-bits", n, "--batch-size", 4, "--epochs", 1] + extra
        rep = {"data": name, "options": o}
        with scratch() as home:
            run = Run(home, name, (1, 8, 8), o, 1, True, environ)
            written = {os.path.relpath(d, home) for d in run.dirs | {os.path.dirname(f) for f in model_file(home)}}
            data_dir = run.data_dir and os.path.relpath(run.data_dir, home)
        rec.ran()
        rec.state()
        if run.error is not None:
            rec.violation("failed", f"the run raised {type(run.error).__name__}: {str(run.error)[:200]} ({rep})", rep)
            return
        m = run.models[-1]
        got = {"repetitions": m.config.num_repetitions, "sums": m.config.num_sums, "leaves": m.config.num_leaves, "depth": m.config.depth, "classes": m.config.num_classes, "layer": m.config.layer_type, "structure": m.config.structure,
               "features": int(m.config.num_features), "channels": m.config.num_channels, "leaf": m.config.leaf_type.__name__, "lr": sorted(run.lr), "dropout": m.config.dropout, "results": sorted(written), "data": data_dir}
        leaf = m.leaf.base_leaf if hasattr(m.leaf, "base_leaf") else m.leaf
        if isinstance(leaf, RatNormal):
            with torch.no_grad():
                leaf.stds.copy_(torch.full_like(leaf.stds, -60.0))
                low = leaf.get_params()[..., 1]
                leaf.stds.copy_(torch.full_like(leaf.stds, 60.0))
                high = leaf.get_params()[..., 1]
            got["sigma"] = (round(float(low.min()), 4), round(float(high.max()), 4))
        full = {"repetitions": 3, "sums": 4, "leaves": 5, "depth": 2, "classes": 1, "layer": "linsum", "structure": "top-down", "features": 64, "channels": 1, "leaf": "Binomial", "lr": [0.1], "dropout": 0.0, "results": ["results/simple-einet/digits"], "data": "data"}
        full.update({k: v for k, v in want.items() if k != "cold"})
        for k, v in full.items():
            rec.expect(got.get(k) == v, "option", lambda: f"{k} is {got.get(k)} instead of {v} ({rep})", rep)
        if "samples.png" in run.images and want.get("cold"):
            # leaves without variance: every value is the mean of one of the leaves of its pixel
            means = leaf.means.detach().reshape(64, -1)
            v = run.images["samples.png"].reshape(-1, 64)
            rec.expect(bool(((v[:, :, None] - means[None]).abs().min(-1).values < 1e-4).all()), "temperature", lambda: f"samples at leaf temperature 0 are not the leaves' means ({rep})", rep)
        rec.outcome(str(sorted(got.items())))
        rec.sample(rep)
    return case


def runs(name, shape, opts, n, gauss, K, histories, epochs=1, cut=None, seeds=(1, 2), images=True):
    """opts: options of the script; a history is a sequence of "1", "2" (train from that seed) and "e" (evaluate), or "A", "B", "E" in another results directory"""
    def case(rec):
        batch = opts[opts.index("--batch-size") + 1]
        per_epoch = math.ceil(ROWS[0] / batch) if cut is None else min(cut, math.ceil(ROWS[0] / batch))
        trained = {}  # seed -> state
        for hist in histories:
            with scratch() as home:
                last = {}  # directory -> seed
                for i, sym in enumerate(hist):
                    where, act = ("other", {"A": "1", "B": "2", "E": "e"}[sym]) if sym in "ABE" else ("results", sym)
                    rep = {"data": name, "options": opts, "history": hist[:i + 1]}
                    before = files(home)
                    run = Run(home, name, shape, opts + (["--results-dir", "HOME/other"] if where == "other" else []), int(act) if act != "e" else 1, act != "e")
                    now = files(home)
                    rec.ran()
                    rec.state()
                    rec.expect(all(now.get(k) == v for k, v in before.items() if act == "e" or not k.startswith(where)), "modified", lambda: f"the run changed {[k for k, v in before.items() if now.get(k) != v]} ({rep})", rep)
                    if act == "e" and where not in last:
                        rec.expect(run.error is not None and not run.losses, "nothing", lambda: f"an evaluation without a trained model reports {run.losses} ({rep})", rep)
                        continue
                    if run.error is not None:
                        rec.violation("failed", f"the run raised {type(run.error).__name__}: {str(run.error)[:200]} ({rep})", rep)
                        break
                    found = model_file(os.path.join(home, where))
                    rec.expect(len(found) == 1 and all(os.path.relpath(d, home).startswith(where) for d in run.dirs), "saved", lambda: f"model files {found}, images in {run.dirs} after the run ({rep})", rep)
                    if len(found) != 1:
                        break
                    state = torch.load(found[0])
                    m = run.models[-1]
                    own = m.state_dict()
                    rec.expect(set(own) == set(state) and all(torch.equal(own[k], state[k]) for k in own), "state", lambda: f"the saved parameters are not those of the model that was {'trained' if act != 'e' else 'evaluated'} ({rep})", rep)
                    if act != "e":
                        rec.expect(run.steps == epochs * per_epoch, "steps", lambda: f"{run.steps} optimiser steps instead of {epochs * per_epoch} ({rep})", rep)
                        x, _ = dataset(shape, ROWS[0])
                        want = sorted(seen(x, n, gauss, 0.5).reshape(len(x), -1).tolist())
                        if cut is None:
                            shown = torch.cat([v.reshape(-1, math.prod(shape)) for v in run.shown])
                            times = len(shown) / len(x)
                            uniq = {tuple(round(a, 5) for a in r): 0 for r in want}
                            for r in shown.tolist():
                                r = tuple(round(a, 5) for a in r)
                                uniq[r] = uniq.get(r, 0) + 1
                            rec.expect(len(uniq) == len(want) and len(set(uniq.values())) == 1 and times >= epochs, "examples", lambda: f"training examples are shown {sorted(uniq.values())} times in {epochs} epochs ({rep})", rep)
                        if act in trained:
                            rec.expect(all(torch.equal(trained[act][k], state[k]) for k in state), "reproducible", lambda: f"training from the same seed gives other parameters ({rep})", rep)
                        trained[act] = state
                        last[where] = act
                    else:
                        rec.expect(run.steps == 0, "steps", lambda: f"an evaluation makes {run.steps} optimiser steps ({rep})", rep)
                        rec.expect(all(torch.equal(trained[last[where]][k], state[k]) for k in state), "other", lambda: f"the evaluated model is not the last one trained ({rep})", rep)
                        check_eval(rec, run, m, n, gauss, K, shape, rep)
                    if K == 1 and images:
                        check_images(rec, run, m, n, gauss, shape, batch, rep)
                    rec.outcome((sym, tuple(sorted((k, round(v, 3)) for k, v in run.losses.items()))))
        if len(trained) > 1:
            a, b = trained.values()
            rec.expect(any(not torch.equal(a[k], b[k]) for k in a), "seeds", "training from different seeds gives the same parameters", opts)
        rec.sample({"data": name, "options": opts, "histories": len(histories)})
    return case


def cases(tier, seed):
    th = tier == "thorough"
    res = {}
    size = ["-R", 2, "-S", 2, "-I", 2]
    digits, colour = ("digits", (1, 8, 8)), ("fake", (3, 32, 32))
    dists = [("binomial", 8), ("binomial", 4), ("binomial", 1), ("categorical", 3), ("normal", 8), ("normal_rat", 5)]
    allh = ["".join(h) for h in itertools.product("12eABE", repeat=4 if th else 3)]
    for dist, n in dists:
        gauss = dist.startswith("normal")
        for layer, structure in itertools.product(("linsum", "einsum"), ("top-down", "bottom-up")):
            if structure == "bottom-up" and layer == "einsum" and not th:
                continue
            for classification in (False, True):
                o = size + ["-D", 2, "--dist", dist, "--n-bits", n, "--layer", layer, "--structure", structure, "--batch-size", 3, "--epochs", 1] + (["--classification"] if classification else [])
                hs = ["1e", "11"]
                res[f"runs/{dist}/{n} bits/{layer}/{structure}{'/class' if classification else ''}"] = runs(*digits, o, n, gauss, 10 if classification else 1, hs)
    for ci in (False, True):
        for part in range(24):
            o = size + ["-D", 1, "--dist", "binomial", "--n-bits", 2, "--batch-size", 4, "--epochs", 1] + (["--classification"] if ci else [])
            res[f"histories/{part}{'/class' if ci else ''}"] = runs(*digits, o, 2, False, 10 if ci else 1, allh[part::24], images=False)
    for e in (2, 3):
        for b in (1, 2, 3, 7, 9):
            o = ["-R", 1, "-S", 1, "-I", 2, "-D", 1, "--dist", "binomial", "--n-bits", 3, "--batch-size", b, "--epochs", e, "--classification"]
            res[f"epochs/{e}/batch {b}"] = runs(*digits, o, 3, False, 10, ["1e"], epochs=e)
    for dist, n in dists if th else (("binomial", 4), ("normal", 8)):
        o = ["-R", 1, "-S", 2, "-I", 2, "-D", 2, "--dist", dist, "--n-bits", n, "--batch-size", 4, "--epochs", 1]
        res[f"colour/{dist}/{n} bits"] = runs(*colour, o, n, dist.startswith("normal"), 1, ["1e"])
    for c, layer, structure, lr in itertools.product((False, True), ("linsum", "einsum"), ("top-down", "bottom-up"), (0.1, 0.02)):
        if layer == "einsum" and structure == "bottom-up":
            continue
        for leaf, extra, w in (("Binomial", ["--dist", "binomial"], {}), ("Categorical", ["--dist", "categorical"], {}), ("Normal", ["--dist", "normal", "--temperature-leaves", 0.0], {"cold": True}),
                               ("RatNormal", ["--dist", "normal_rat", "--min-sigma", 0.25, "--max-sigma", 0.75], {"sigma": (0.25, 0.75)}), ("RatNormal", ["--dist", "normal_rat"], {"sigma": (0.01, 2.0)})):
            want = {"classes": 10 if c else 1, "layer": layer, "structure": structure, "leaf": leaf, "lr": [lr]}
            want.update(w)
            if layer == "einsum":
                want["leaves"] = 4  # the einsum layers need as many leaves as sums
            o = extra + ["--layer", layer, "--structure", structure, "--lr", lr] + (["--classification"] if c else []) + (["-I", 4] if layer == "einsum" else [])
            res[f"options/{layer}/{structure}/{leaf}{len(extra)}/{lr}{'/class' if c else ''}"] = options("digits", o, 3, want)
    for a, ea, b, eb, d in itertools.product((False, True), (False, True), (False, True), (False, True), (0.0, 0.25)):
        environ = ({"RESULTS_DIR": "HOME/env_r"} if ea else {}) | ({"DATA_DIR": "HOME/env_d"} if eb else {})
        extra = (["--results-dir", "HOME/opt_r"] if a else []) + (["--data-dir", "HOME/opt_d"] if b else []) + (["--dropout", d] if d else [])
        want = {"dropout": d, "results": [("opt_r" if a else "env_r" if ea else "results") + "/simple-einet/digits"], "data": "opt_d" if b else "env_d" if eb else "data"}
        res[f"directories/{a}{ea}{b}{eb}/{d}"] = options("digits", extra, 2, want, environ)
    for dist, n in dists:
        for layer, c in itertools.product(("linsum", "einsum"), (False, True)):
            o = size + ["-D", 2, "--dist", dist, "--n-bits", n, "--layer", layer, "--batch-size", 3, "--epochs", 2, "--dropout", 0.4] + (["--classification"] if c else [])
            res[f"dropout/{dist}/{n} bits/{layer}{'/class' if c else ''}"] = runs(*digits, o, n, dist.startswith("normal"), 10 if c else 1, ["1e", "11"], epochs=2)
    for flag, cut in (("--debug", 3), ("--dry-run", 1)):
        o = size + ["-D", 1, "--dist", "binomial", "--n-bits", 4, "--batch-size", 1, "--epochs", 2, flag]
        res[f"short/{flag}"] = runs(*digits, o, 4, False, 1, ["1"], epochs=2, cut=cut, images=False)
    return res
