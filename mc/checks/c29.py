"""C29: histories of runs on the file system: results are never mixed, overwritten or lost; helpers of experiments."""
import argparse
import contextlib
import copy
import datetime
import io
import itertools
import json
import logging
import math
import os
import random
import shutil
import tempfile
import types

import numpy as np
import torch

from .. import env

_cwd = os.getcwd()
os.chdir(env.REPO)  # exp_utils reads ./PROJECT_NAME when it is imported
try:
    import exp_utils as X  # noqa: E402
finally:
    os.chdir(_cwd)

LEVEL = "model_checking"
BOUNDS = ("all histories of up to 5 (thorough: 6) operations out of 9 (start a run under 4 colliding tags, in debug mode, on top of an earlier run, or without results yet; a run fails; a run is interrupted) on a real scratch file system, checked after every operation; "
          "all pairs of run directories by timestamp over 3 times x 3 tags x 3 sub-directory lists x debug; every state of a path (absent, file, directory, below a file); all losses of up to 3 values incl. infinite and NaN; all world sizes 1-8")
logging.getLogger().setLevel(logging.CRITICAL + 1)
MK = [("mk", None, False, True), ("mk", "a", False, True), ("mk", "a", True, True), ("mk", "a_2", False, True), ("mk", "a_error", False, True), ("mk", "a", False, False)]
OPS = MK + [("mk", "a", False, True, "idle"), ("fail",), ("interrupt",)]


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*a, **k)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="mc29_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    log = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        yield d
    finally:
        logging.disable(log)
        shutil.rmtree(d)


@contextlib.contextmanager
def environ(**kw):
    old = {k: os.environ.get(k) for k in kw}
    try:
        for k, v in kw.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
        yield
    finally:
        for k, v in old.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)


def tree(root):
    """directory -> names and contents of its files, for directories that hold files."""
    out = {}
    for d, _, fs in os.walk(root):
        if fs:
            out[d] = {f: open(os.path.join(d, f)).read() for f in fs}
    return out


class Boom(Exception):
    pass


def run_history(rec, hist):
    """Replays a history; returns False where an operation is not enabled."""
    with scratch() as root:
        base = os.path.join(root, "simple-einet", "exp", "data")
        model = {}  # directory -> {file: content} (None: any content)
        open_runs = []  # directories of runs that have not ended
        for i, op in enumerate(hist):
            rep = dict(history=[list(map(str, o)) for o in hist], step=i)
            if op[0] == "mk":
                _, tag, debug, fresh, *idle = op  # an idle run has not written anything yet
                want = os.path.join(base, ("unnamed" if tag is None else tag) + ("_debug" if debug else ""))
                existed = os.path.exists(want)
                before = tree(root)
                p = quiet(X.make_results_dir, root, "exp", tag, "data", debug=debug, remove_if_exists=fresh)
                d = p.rstrip("/")
                if not rec.expect(p == d + "/" and os.path.isdir(d) and os.path.dirname(d) == base, "path", lambda: f"{p!r} is no directory of experiment and data set below the results directory", rep):
                    return True
                rec.expect(tree(root) == before, "lost", "starting a run changes files of earlier runs", rep)
                if not fresh or not existed:
                    rec.expect(d == want, "name", lambda: f"run is placed at {os.path.basename(d)} instead of {os.path.basename(want)}", rep)
                if fresh:
                    rec.expect(os.path.basename(d).startswith(os.path.basename(want)), "name", lambda: f"run is placed at {os.path.basename(d)}", rep)
                    rec.expect(d not in model and not os.listdir(d), "mixed", lambda: f"a new run gets the directory {os.path.basename(d)} of an earlier run ({sorted(os.listdir(d))})", rep)
                model.setdefault(d, {})
                f = f"run{i}.txt"
                if not idle:
                    with open(p + f, "w") as h:
                        h.write(f"result of {i}")
                    model[d][f] = f"result of {i}"
                if d not in open_runs:
                    open_runs.append(d)
            else:
                if not open_runs:
                    return False
                d = open_runs.pop()
                arg = d + "/" if i % 2 else d
                dirs = {os.path.join(base, x) for x in os.listdir(base)}
                if op[0] == "fail":
                    def inner():
                        raise Boom(f"broken {i}")
                    err, got = None, None
                    try:
                        inner()
                    except Boom as e:
                        err = e
                    try:
                        quiet(X.catch_exception, arg, err)
                    except Exception as e:
                        got = e
                    rec.expect(got is err, "masked", lambda: f"failure of the run is reported as {type(got).__name__}: {got} instead of {err!r}", rep)
                else:
                    try:
                        quiet(X.catch_kb_interrupt, arg)
                    except Exception as e:
                        rec.violation("masked", f"interrupting a run raises {type(e).__name__}: {e}", rep)
                new = {os.path.join(base, x) for x in os.listdir(base)} - dirs
                if not rec.expect(len(new) == 1 and not os.path.exists(d), "moved", lambda: f"ended run {os.path.basename(d)} is not moved to a directory of its own (new: {sorted(map(os.path.basename, new))})", rep):
                    return True
                n = new.pop()
                rec.expect(os.path.basename(n).startswith(os.path.basename(d) + ("_error" if op[0] == "fail" else "_interrupted")), "name", lambda: f"ended run {os.path.basename(d)} is moved to {os.path.basename(n)}", rep)
                model[n] = model.pop(d)
                if op[0] == "fail":
                    t = os.path.join(n, "error.txt")
                    text = open(t).read() if os.path.exists(t) else ""
                    rec.expect(f"broken {i}" in text and "inner" in text, "report", lambda: f"error report {text!r} lacks the error or its traceback", rep)
                    model[n]["error.txt"] = text
            rec.state(1, 1)
            if not rec.expect(tree(root) == {k: v for k, v in model.items() if v}, "lost", "files of the runs are lost, overwritten or mixed", rep):
                return True
            rec.outcome(tuple(sorted(os.path.basename(k) for k in model)))
        rec.ran()
    return True


def histories(first, depth):
    def case(rec):
        def go(h):
            if len(h) == depth:
                run_history(rec, h)
                return
            any_ = False
            for op in OPS:
                if op[0] != "mk" and sum(o[0] == "mk" and not (o == MK[5] and o in h[:j]) for j, o in enumerate(h)) <= sum(o[0] != "mk" for o in h):
                    continue
                any_ = True
                go(h + [op])
            if not any_:
                run_history(rec, h)
        go([first])
        rec.sample(dict(first=str(first), depth=depth))
    return case


def by_time(rec):
    times = (0, 86399, 1700000000)
    combos = list(itertools.product(times, (None, "a", "a_debug"), (None, [], ["x", "y"]), (False, True)))
    for A, B in itertools.product(combos, repeat=2):
        rec.state()
        rep = dict(first=str(A), second=str(B))
        with scratch() as root:
            paths = []
            for j, (t, tag, sub, debug) in enumerate((A, B)):
                p = X.generate_run_base_dir(root, timestamp=t, tag=tag, sub_dirs=sub, debug=debug)
                want = datetime.datetime.fromtimestamp(t).strftime("%y%m%d_%H%M") + ("" if tag is None else "_" + tag) + ("_debug" if debug else "")
                want = os.path.join(root, want, *(sub or [])) + "/"
                rec.expect(p == want and os.path.isdir(p), "time/path", lambda: f"{p[len(root):]!r} instead of {want[len(root):]!r}", rep)
                with open(p + f"{j}.txt", "w") as h:
                    h.write(str(j))
                paths.append(p)
            rec.expect(all(open(p + f"{j}.txt").read() == str(j) for j, p in enumerate(paths)), "time/lost", "results of the earlier run are lost", rep)
        rec.ran()


def paths(rec):
    for fn in ("mkdir_p", "ensure_dir"):
        for what in ("absent", "file", "directory", "nested", "below file", "full", "bare"):
            with scratch() as root:
                p = os.path.join(root, "p")
                if what in ("file", "below file"):
                    open(p, "w").write("keep")
                if what in ("directory", "full"):
                    os.mkdir(p)
                if what == "full":
                    open(os.path.join(p, "f"), "w").write("keep")
                target = {"nested": p + "/q/r", "below file": p + "/q"}.get(what, p)
                arg = target if fn == "mkdir_p" else target + "/baz.csv"
                rep = dict(function=fn, path=what)
                before = tree(root)
                rec.state()
                if what == "bare":
                    cwd = os.getcwd()
                    os.chdir(root)
                    try:
                        getattr(X, fn)("q" if fn == "mkdir_p" else "baz.csv")
                        rec.expect(os.path.isdir("q") if fn == "mkdir_p" else os.listdir(root) == [], "path/bare", f"{fn} of a name in the working directory", rep)
                    except Exception as e:
                        rec.violation("path/bare", f"{fn} of a name in the working directory raises {type(e).__name__}: {e}", rep)
                    finally:
                        os.chdir(cwd)
                    continue
                try:
                    getattr(X, fn)(arg)
                    ok = True
                except OSError:
                    ok = False
                blocked = what in ("file", "below file")
                if fn == "mkdir_p" or what != "file":
                    rec.expect(ok == (not blocked), f"path/{what}", lambda: f"{fn} {'succeeds' if ok else 'fails'} for {what}", rep)
                if not blocked:
                    rec.expect(os.path.isdir(target), f"path/{what}", lambda: f"{fn} does not create the directory ({what})", rep)
                rec.expect(tree(root) == before, "path/lost", lambda: f"{fn} changes files ({what})", rep)
                rec.ran()
    for name in ("mnist", "a-b", "x/y"):
        with scratch() as root, environ(HOME=root):
            for again in range(2):
                p = X.get_data_dir(name)
                rec.expect(os.path.isdir(p) and p.startswith(root + "/") and p.rstrip("/").endswith("/" + name), "path/data", lambda: f"data directory {p}", dict(name=name))
                open(os.path.join(p, "f"), "w").write("keep")
            rec.expect(open(os.path.join(p, "f")).read() == "keep", "path/data", "data is lost", dict(name=name))


def stored(rec):
    vals = [None, True, False, 0, -3, 1.5, "x", "", "ü\n", [1, 2], {"k": None}]
    for a, b in itertools.product(vals, repeat=2):
        rec.state()
        with scratch() as root:
            X.save_args(root, argparse.Namespace(first="old", second=1, third=2))
            X.save_args(root, argparse.Namespace(first=a, second=b))
            got = json.load(open(os.path.join(root, "args.json")))
            rec.expect(got == dict(first=a, second=b), "args", lambda: f"arguments {a!r}, {b!r} are stored as {got}", dict(first=repr(a), second=repr(b)))
    # checkpoints
    for other in (False, True):  # the model of the named run, not that of a run stored next to it or below it
        with scratch() as root:
            for d in ("a",) + (("b", "a/b") if other else ()):
                os.makedirs(os.path.join(root, d))
                open(os.path.join(root, d, "model.pt"), "w").write("x")
            seen = []
            m = X.load_from_checkpoint(os.path.join(root, "a"), lambda *a, **k: seen.append([*a, *k.values()]) or "model", object())
            rec.state()
            rec.expect(m == "model" and len(seen) == 1 and os.path.join(root, "a", "model.pt") in [os.path.normpath(v) for v in seen[0] if isinstance(v, (str, os.PathLike))], "checkpoint", lambda: f"loads {seen}")
    # images of samples
    import PIL.Image
    for C, N, nrow in itertools.product((1, 3), (1, 2, 4), (1, 2)):
        with scratch() as root:
            calls = []

            def gen(n):
                g = torch.zeros(n, C, 3, 3)
                for j in range(n):
                    g[j] = (j + 1 + len(calls)) / 10 if C == 1 else torch.tensor([0.1, 0.5, 0.9]).view(3, 1, 1) * (j + 1) / 4
                g[0, :, 0, 0] = 0.0
                g[-1, :, 2, 2] = 1.0
                calls.append(g)
                return g.clone()
            X.save_samples(gen, root, N, nrow)
            rec.state()
            rep = dict(channels=C, samples=N, nrow=nrow)
            rec.expect(len(calls) == 5 and all(len(c) == N for c in calls) and sorted(os.listdir(root)) == [f"{i}.png" for i in range(5)], "samples", lambda: f"{len(calls)} batches, files {sorted(os.listdir(root))}", rep)
            for i, c in enumerate(calls):
                img = np.asarray(PIL.Image.open(os.path.join(root, f"{i}.png"))).astype(float) / 255
                cols = min(nrow, N)
                bad = None
                for j in range(N):
                    y0, x0 = (j // cols) * 5 + 2, (j % cols) * 5 + 2
                    if N == 1:
                        y0 = x0 = 0
                    tile = img[y0:y0 + 3, x0:x0 + 3]
                    if tile.shape != (3, 3, 3) or np.abs(tile - c[j].expand(3, 3, 3).permute(1, 2, 0).numpy()).max() > 1 / 128:
                        bad = j
                rec.expect(bad is None, "samples", lambda: f"image {i} does not show sample {bad}", rep)


def draws():
    return random.random(), float(np.random.rand()), float(torch.rand(()))


def seeds(rec):
    st = random.getstate(), np.random.get_state(), torch.get_rng_state()
    try:
        with environ(PYTHONHASHSEED=os.environ.get("PYTHONHASHSEED")):
            ref = {}
            for hist in itertools.product((0, 1, 2, 12345, 2 ** 32 - 1), repeat=3):
                for s in hist:
                    X.seed_all_rng(s)
                    d = draws()
                    rec.state()
                    rec.expect(ref.setdefault(s, d) == d, "seed", lambda: f"seed {s} does not determine the draws of all three generators", dict(history=hist))
                rec.expect(os.environ["PYTHONHASHSEED"] == str(s), "seed", "hash seed")
            rec.expect(all(len(set(c)) == len(ref) for c in zip(*ref.values())), "seed", "different seeds give the same draws")
            try:
                X.seed_all_rng(None)
                X.seed_all_rng()
                rec.compared()
            except Exception as e:
                rec.violation("seed/none", f"seeding without a seed raises {type(e).__name__}: {e}", {})
            for base in (0, 7, 2 ** 31 - 1, 2 ** 31, 2 ** 40 + 5):
                seen = {}
                for rnd in range(2):
                    for w in range(8):
                        torch.manual_seed(base)
                        X.worker_init_reset_seed(w)
                        d = draws()
                        rec.state()
                        rec.expect(seen.setdefault(w, d) == d, "worker", f"worker {w} of seed {base} is not reproducible")
                rec.expect(all(len(set(c)) == 8 for c in zip(*seen.values())), "worker", f"two workers of seed {base} draw the same numbers")
    finally:
        random.setstate(st[0]), np.random.set_state(st[1]), torch.set_rng_state(st[2])


class Cfg(types.SimpleNamespace):
    """Stand-in for the node of yacs that detectron's function expects."""

    def clone(self):
        return copy.deepcopy(self)

    def is_frozen(self):
        return self.frozen

    def defrost(self):
        self.frozen = False

    def freeze(self):
        self.frozen = True


def scale(rec):
    for old, new, per, it, frozen in itertools.product((0, 1, 2, 3, 4, 8), range(1, 9), (1, 3, 16), (8, 5000), (False, True)):
        bs = per * max(old, 1)
        N = types.SimpleNamespace
        c = Cfg(frozen=frozen, system=N(reference_world_size=old), train=N(batch_size=bs), solver=N(LR=0.5, max_iter=it, scheduler=N(warmuplr=N(iters=it // 2))), test=N(eval_period=it), checkpoints=N(period=it))
        orig = copy.deepcopy(c)
        r = X.auto_scale_workers(c, new)
        rec.state()
        rep = dict(old=old, new=new, per_worker=per, iterations=it)
        rec.expect(c == orig, "scale", "the given configuration is modified", rep)
        if old in (0, new):
            rec.expect(r == orig, "scale", "configuration changes although nothing has to be scaled", rep)
            continue
        s = new / old
        rec.expect(r.train.batch_size == per * new, "scale", lambda: f"batch size {r.train.batch_size} instead of {per} on each of {new} workers", rep)
        rec.expect(abs(r.solver.LR - 0.5 * s) < 1e-12, "scale", lambda: f"learning rate {r.solver.LR}", rep)
        for n, got, was in (("iterations", r.solver.max_iter, it), ("warm-up", r.solver.scheduler.warmuplr.iters, it // 2), ("evaluation period", r.test.eval_period, it), ("checkpoint period", r.checkpoints.period, it)):
            rec.expect(abs(got - was / s) <= 0.5 + 1e-9 and isinstance(got, int), "scale", lambda: f"{n} {got} instead of {was / s}", rep)
        rec.expect(r.system.reference_world_size == new and r.frozen == frozen, "scale", "world size or frozen state", rep)
        again = X.auto_scale_workers(r, new)
        rec.expect(again == r, "scale", "scaling twice changes the configuration again", rep)


def small(rec):
    for n in (1, 2, 3):
        for v in itertools.product((0.0, -1.5, 1e38, math.inf, -math.inf, math.nan), repeat=n):
            for dt in (torch.float32, torch.float64):
                rec.state()
                bad = not all(map(math.isfinite, v))
                try:
                    X.detect_anomaly(torch.tensor(v, dtype=dt), 17)
                    got = False
                except FloatingPointError as e:
                    got = "17" in str(e)
                rec.expect(got == bad, "anomaly", lambda: f"loss {v} is {'reported' if got else 'not reported'}", dict(loss=str(v)))
    for E in range(1, 13):
        taus = [float(X.anneal_tau(e, E)) for e in range(E + 1)]
        rec.expect(taus[0] == 1.0 and all(0.5 <= b <= a for a, b in zip(taus, taus[1:])) and all(abs(t - max(0.5, math.exp(-e / E))) < 1e-12 for e, t in enumerate(taus)), "tau", lambda: f"temperatures {taus} of {E} epochs", dict(epochs=E))
    for d, p in itertools.product(({}, {"a": 1.0}, {"a": 3.0, "b": -1.5}), (1, 2, 10)):
        got = X.loss_dict_to_str(d, p)
        rec.expect(got == ", ".join(f"{k}: {v / p:.2f}" for k, v in d.items()), "loss", lambda: f"losses {d} over {p} steps are shown as {got!r}")
    for n in (1, 2, 5, 8):
        with environ(NVIDIA_VISIBLE_DEVICES=",".join(map(str, range(n)))):
            rec.expect(X.num_gpus() == n, "gpus", f"{n} visible devices")
    lin = torch.nn.Sequential(torch.nn.Linear(2, 3), torch.nn.Linear(3, 1, bias=False), torch.nn.BatchNorm1d(1))
    ps = list(lin.parameters())
    for mask in itertools.product((False, True), repeat=len(ps)):
        for q, m in zip(ps, mask):
            q.requires_grad_(m)
        rec.state()
        want = sum(q.numel() for q, m in zip(ps, mask) if m)
        rec.expect(X.count_params(lin) == want, "params", lambda: f"{X.count_params(lin)} instead of {want} learnable parameters", dict(learnable=mask))
    for s, a in itertools.product((0.1, 0.5, 1.0), (0.5, 0.8, 1.0)):
        w, h = X.get_figsize(s, a)
        rec.expect(abs(h - a * w) < 1e-9 and abs(w - s * X.get_figsize(1.0, a)[0]) < 1e-9, "figure", f"scale {s} and aspect ratio {a} give {w} x {h}")


def cases(tier, seed):
    depth = 5 if tier == "quick" else 6
    out = [(f"histories/{'-'.join(map(str, f))}", histories(f, depth)) for f in MK]
    out += [("by time", by_time), ("paths", paths), ("stored", stored), ("seeds", seeds), ("scale", scale), ("small", small)]
    return out
