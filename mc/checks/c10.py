"""C10: a query that fails half-way leaves no trace."""
import itertools

import torch
from torch.overrides import TorchFunctionMode

from .. import models as M
from .. import ops as O

LEVEL = "fault_enumeration"
BOUNDS = "an exception at every torch call of every operation (one fault per run), then every operation as a probe; 8 Einets, 4 convolutional circuits, 4 mixtures; natural failures"
RULE = ("a run is (model, operation, index of the torch call that fails); it is non-trivial if the exception reached the caller; "
        "distinct by (operation, name of the torch call, index)")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))


class Fault(RuntimeError):
    pass


class Stop(BaseException):
    """what an interrupt or a killed worker looks like"""


class FailAt(TorchFunctionMode):
    def __init__(self, at, exc=Fault):
        super().__init__()
        self.at, self.exc, self.n, self.where = at, exc, 0, None

    def __torch_function__(self, func, types, args=(), kwargs=None):
        if "grad_enabled" in getattr(func, "__name__", ""):
            return func(*args, **(kwargs or {}))  # switching gradients is how the clean-up works: it is not a fault point
        i = self.n
        self.n += 1
        if i == self.at:
            self.where = getattr(func, "__name__", str(func))
            raise self.exc(f"injected at call {i}: {self.where}")
        return func(*args, **(kwargs or {}))


def faults(kw, leaf, seed, exc=Fault, only=None, part=(0, 1)):
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        base = M.randomize(M.build(cfg, seed), seed)
        ops = {n: f for n, f in O.operations(cfg, leaf).items() if not n.startswith("bad")}
        a, b, e, f = O.data(cfg, leaf)
        ops["forward(a, cache_index)"] = lambda m: m(a.clone(), cache_index=0)
        fresh = {n: O.observe(g, O.clone(base), 23) for n, g in ops.items()}
        probes = [n for n in ops if n in ("forward(a)", "sample(2)", "sample(e)", "sample(2, diff)", "sample(3, seed)", "mpe(f)", "posterior(a)", "mpe()")]
        names = [n for n in ops if only is None or n == only]
        for n in names:
            with FailAt(-1) as t:
                O.observe(ops[n], O.clone(base), 23)
            total = t.n
            m = O.clone(base)
            for i in range(part[0], total, part[1]):
                torch.manual_seed(23)
                mode = FailAt(i, exc)
                before = torch.get_rng_state().clone()
                grad = torch.is_grad_enabled()
                try:
                    with mode:
                        ops[n](m)
                except (Fault, Stop):
                    rec.outcome(f"{n}:{mode.where}:{i}")
                except Exception:
                    rec.outcome(f"{n}:{mode.where}:{i}:wrapped")
                rec.ran()
                rec.state()
                rep = {"config": M.describe(cfg), "seed": seed, "operation": n, "fault": f"call {i} ({mode.where})"}
                ok = rec.expect(torch.is_grad_enabled() == grad, "grad-mode", f"{n} failing at call {i} ({mode.where}) leaves gradients {'on' if not grad else 'off'}", rep)
                torch.set_grad_enabled(grad)
                if "seed" in n and mode.where is not None:
                    ok &= rec.expect(torch.equal(before, torch.get_rng_state()), "generator", f"{n} failing at call {i} ({mode.where}) does not put torch's generator back", rep)
                for q in probes:
                    got = O.observe(ops[q], m, 23)
                    ok &= rec.expect(O.equal(got[0], fresh[q][0]), "trace", lambda: f"{n} failed at call {i} ({mode.where}); afterwards {q} gives {str(got[0])[:150]} instead of {str(fresh[q][0])[:150]} ({M.describe(cfg)})", rep)
                if n == "forward(a, cache_index)":
                    got = O.observe(ops[n], m, 23)
                    ok &= rec.expect(O.equal(got[0], fresh[n][0]), "cache", lambda: f"{n} failed at call {i} ({mode.where}); repeated with the same cache index it gives another result", rep)
                    m.reset_cache()
                if not ok:
                    m = O.clone(base)
                    if len(rec.violations) > 20:
                        return
            same = all(torch.equal(u, v) for u, v in zip(base.state_dict().values(), m.state_dict().values()))
            rec.expect(same, "parameters", f"failing {n} changed parameters or buffers")
        rec.sample({"config": M.describe(cfg), "operations": names})
    return case


def faults_of(make, ops, about, seed, only, exc=Fault):
    """one fault in an operation of a mixture or convolutional circuit"""
    def case(rec):
        base = make(seed)
        fresh = {n: O.observe(g, O.clone(base), 23) for n, g in ops.items()}
        probes = [n for n in ops if n in ("forward(a)", "forward(e)", "sample(2)", "sample(e)", "sample(f, seed)", "mpe(f)")]
        with FailAt(-1) as t:
            O.observe(ops[only], O.clone(base), 23)
        m = O.clone(base)
        for i in range(t.n):
            torch.manual_seed(23)
            mode = FailAt(i, exc)
            before = torch.get_rng_state().clone()
            grad = torch.is_grad_enabled()
            failed = False
            try:
                with mode:
                    ops[only](m)
            except (Fault, Stop):
                failed = True
            except Exception:
                failed = True
            rec.outcome(f"{only}:{mode.where}:{i}")
            rec.ran()
            rec.state()
            rep = {"model": about, "seed": seed, "operation": only, "fault": f"call {i} ({mode.where})"}
            ok = rec.expect(failed or mode.where is None, "swallowed", f"{only} failing at call {i} ({mode.where}) returns a result ({about})", rep)
            ok &= rec.expect(torch.is_grad_enabled() == grad, "grad-mode", f"{only} failing at call {i} ({mode.where}) leaves gradients {'on' if not grad else 'off'} ({about})", rep)
            torch.set_grad_enabled(grad)
            if "seed" in only and mode.where is not None:
                ok &= rec.expect(torch.equal(before, torch.get_rng_state()), "generator", f"{only} failing at call {i} ({mode.where}) does not put torch's generator back ({about})", rep)
            for q in probes:
                got = O.observe(ops[q], m, 23)
                ok &= rec.expect(O.equal(got[0], fresh[q][0]), "trace", lambda: f"{only} failed at call {i} ({mode.where}); afterwards {q} gives {str(got[0])[:150]} instead of {str(fresh[q][0])[:150]} ({about})", rep)
            if not ok:
                m = O.clone(base)
                if len(rec.violations) > 20:
                    return
        same = all(torch.equal(u, v) for u, v in zip(base.state_dict().values(), m.state_dict().values()))
        rec.expect(same, "parameters", f"failing {only} changed parameters or buffers ({about})")
        rec.sample({"model": about, "operation": only})
    return case


def natural(kw, leaf, seed, tier_big=False):
    """calls that fail by themselves"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        base = M.randomize(M.build(cfg, seed), seed)
        D, C, K = cfg.num_features, cfg.num_channels, cfg.num_classes
        ops = {n: f for n, f in O.operations(cfg, leaf).items() if not n.startswith("bad")}
        fresh = {n: O.observe(g, O.clone(base), 23) for n, g in ops.items()}
        nan = M.NAN
        e = torch.zeros(2, C, D)
        e[:, :, 0] = nan
        bad = {
            "too many features": lambda m: m.sample(evidence=torch.zeros(2, C, D + 1), seed=1),
            "too many channels": lambda m: m.sample(evidence=torch.zeros(2, C + 1, D), seed=1),
            "one dimension": lambda m: m.sample(evidence=torch.zeros(D), seed=1),
            "scope out of range": lambda m: m.sample(evidence=e.clone(), marginalized_scopes=[D + 5], seed=1),
            "text": lambda m: m.sample(evidence="abc", seed=1),
            "no temperature": lambda m: m.sample(evidence=e.clone(), temperature_sums=None, seed=1),
            "no temperature (leaves)": lambda m: m.sample(evidence=e.clone(), temperature_leaves="x", seed=1),
            "evidence and samples": lambda m: m.sample(evidence=e.clone(), num_samples=3, seed=1),
            "negative samples": lambda m: m.sample(num_samples=-1, seed=1),
            "bad class": lambda m: m.sample(num_samples=1, class_index=K + 1, seed=1),
            "bad class list": lambda m: m.sample(class_index=[K + 1], seed=1),
        }
        if leaf == "cat2":
            bad["value out of domain"] = lambda m: m.sample(evidence=torch.where(torch.isnan(e), e, torch.tensor(9.0)), seed=1)
        bad = {k: v for k, v in bad.items()}
        for seq in list(itertools.product(bad, repeat=1)) + list(itertools.product(bad, repeat=2))[:: 1 if tier_big else 3]:
            m = O.clone(base)
            torch.manual_seed(23)
            before = torch.get_rng_state().clone()
            for n in seq:
                try:
                    bad[n](m)
                except Exception as x:
                    rec.outcome(f"{n}:{type(x).__name__}")
                torch.set_grad_enabled(True)
            rec.ran()
            rec.state()
            rec.expect(torch.equal(before, torch.get_rng_state()), "generator", f"after the failing calls {seq} torch's generator is not where it was")
            for q in ops:
                got = O.observe(ops[q], m, 23)
                rec.expect(O.equal(got[0], fresh[q][0]), "trace", lambda: f"after the failing calls {seq}, {q} gives {str(got[0])[:150]} instead of {str(fresh[q][0])[:150]} ({M.describe(cfg)})", {"history": seq})
    return case


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for st, la in ARCH:
        for leaf, D, C, depth, R, K in (("norm", 3, 1, 1, 2, 2), ("cat2", 2, 1, 1, 1, 1)) + ((("bin2", 3, 2, 0, 2, 1), ("norm", 4, 1, 2, 1, 3)) if big else ()):
            kw = dict(structure=st, layer=la, D=D, C=C, depth=depth, R=R, K=K, S=2, L=2)
            names = [n for n in O.operations(M.config(leaf=leaf, **kw), leaf) if not n.startswith("bad")] + ["forward(a, cache_index)"]
            for n in names:
                if not big and leaf == "cat2" and n not in ("sample(e)", "mpe(e, diff)", "sample(f, seed)"):
                    continue
                parts = 1 if big or leaf == "cat2" else 2
                for p in range(parts):
                    out.append((f"fault/{leaf}/{st}/{la}/R{R}K{K}/{n}/{p}", faults(kw, leaf, seed, only=n, part=(p, parts))))
            out.append((f"interrupt/{leaf}/{st}/{la}/R{R}K{K}", faults(kw, leaf, seed, Stop, only="sample(f, seed)")))
            out.append((f"natural/{leaf}/{st}/{la}/R{R}K{K}", natural(kw, leaf, seed, big)))
    for name, (make, ops) in O.circuits().items():
        for n in ops:
            if not n.startswith("bad") and (big or n in ("forward(e)", "sample(2)", "sample(f, seed)", "sample(b, scopes)", "mpe(f)")):
                out.append((f"fault/{name}/{n}", faults_of(make, ops, name, seed, n)))
    return out
