"""C08: differentiable sampling computes what index-based sampling computes, and is differentiable."""
import itertools

import torch

from .. import models as M
from ..explore import Chooser, Explorer, HarnessError, World
from ..sampling import rows, uniform_mixture

LEVEL = "model_checking"
BOUNDS = ("every combination of winners of all differentiable draws (D<=4, depth<=2, repetitions<=3, classes<=3), with and without evidence, "
          "batches of 1 to 3 rows; winner frequencies on a 48x48 grid of uniform answers, and of every single race of up to 4 alternatives (the others fixed) against the probabilities of the index-based draw; every MPE query on all partial assignments of 3 variables")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))


class Winners(World):
    """A uniform draw of shape [..., n] is a race between n alternatives: the explorer chooses who wins each race.
    The winner's answer is close to one, the others' close to zero."""

    def _uni(self, shape):
        shape = tuple(shape)
        self.log.append(("race", shape))
        o = torch.full(shape, 1e-4)
        f = o.view(-1, shape[-1])
        for i in range(f.shape[0]):
            k = self._free(list(range(shape[-1])), "race")
            f[i, k] = 1 - 1e-6
        return o


def lined_up(rec, kw, leaf, seed, evidence, n=1, limit=600, call=None):
    """the same decisions, taken once through races and once through index draws, must give the same sample"""
    cfg = M.config(leaf=leaf, **kw)
    m = M.randomize(M.build(cfg, seed), seed, 0.5)
    D, C = cfg.num_features, cfg.num_channels
    ex = Explorer(limit)
    e = evidence(n, C, D) if evidence else None
    rep = {"config": M.describe(cfg), "seed": seed, "evidence": None if e is None else e.tolist()}

    def run(diff, ch):
        kwargs = dict(evidence=e) if e is not None else dict(num_samples=n)
        cls = Winners if diff else World
        with cls(ch, eps=(0.7,)):
            return m.sample(is_differentiable=diff, **kwargs, **(call or {}))

    support = None
    for out, p, trail in ex.run(lambda ch: run(True, ch)):
        idx = Chooser([(a, b) for a, b in trail])
        try:
            other = run(False, idx)
        except HarnessError:  # other option counts
            idx.trail = None
            other = None
        if idx.trail is None or len(idx.trail) != len(trail):
            # the two paths do not take the same decisions one by one: at least the sample must be a possible one
            if support is None:
                support = [o for o, _, _ in Explorer(3000).run(lambda ch: run(False, ch))]
            other = min(support, key=lambda o: float((o - out.detach()).abs().max()) if o.shape == out.shape else 1e9)
        ok = out.shape == other.shape and bool(((out.detach() - other).abs() < 1e-3).all())
        rec.outcome(hash(rows(out)))
        rec.expect(ok, "values", lambda: f"decisions {trail}: differentiable {out.detach().tolist()}, index-based {other.tolist()} ({rep})", dict(rep, choices=trail))
        rec.expect(not ok or out.requires_grad, "no-grad", "the differentiable sample is detached from the parameters")
        if ok and leaf == "norm" and e is None and ex.executions <= 20:
            m.zero_grad()
            out.sum().backward()
            tot = sum(float(mod.means.grad.sum()) for mod in M.leaf_modules(m, M.Normal) if mod.means.grad is not None)
            rec.expect(abs(tot - n * C * D) < 1e-2, "leaf-gradient", lambda: f"gradient of the sample with respect to the chosen means sums to {tot}, not {n * C * D} ({rep})", dict(rep, choices=trail))
            for name, prm in m.named_parameters():
                if prm.grad is not None:
                    rec.expect(bool(torch.isfinite(prm.grad).all()), "gradient", lambda: f"gradient of {name} is not finite ({rep})")
    rec.explored(ex)


def values(kw, leaf, seed):
    def case(rec):
        lined_up(rec, kw, leaf, seed, None)
        lined_up(rec, kw, leaf, seed + 1, None, n=2, limit=150)
        pat = lambda miss: (lambda n, C, D: torch.stack([torch.where(torch.tensor([(i + r) % D in miss for i in range(D)]), torch.tensor(M.NAN), torch.full((C, D), 1.0)) for r in range(n)]))
        D = kw["D"]
        for miss in ((0,), tuple(range(1, D)), tuple(range(D))):
            lined_up(rec, kw, leaf, seed, pat(miss), limit=100)
        lined_up(rec, kw, leaf, seed, pat((0, 1)), n=2, limit=60)
        lined_up(rec, kw, leaf, seed, None, limit=30, call=dict(mpe_at_leaves=True))
        lined_up(rec, kw, leaf, seed, None, limit=30, call=dict(temperature_sums=0.5))
        rec.sample(dict(kw))
    return case


def mpe(kw, leaf, seed):
    """differentiable MPE == MPE, for all evidence and several parameter settings (rounding of one-hot vectors)"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        D, C = cfg.num_features, cfg.num_channels
        for s in range(8):
            m = M.randomize(M.build(cfg, seed + s), seed + s, (1.0, 0.3, 2.0)[s % 3])
            ev = M.grid((-1.0, 1.0, M.NAN) if leaf in ("norm", "rat") else (0.0, 1.0, M.NAN), D).reshape(-1, 1, D).repeat(1, C, 1)
            if cfg.num_classes > 1:
                ev = ev[:-1]  # with nothing observed all classes are equally probable
            for x in (ev, None):
                want = m.sample(evidence=x, is_mpe=True) if x is not None else m.sample(num_samples=3, is_mpe=True)
                got = m.sample(evidence=x, is_mpe=True, is_differentiable=True) if x is not None else m.sample(num_samples=3, is_mpe=True, is_differentiable=True)
                rec.ran(2)
                rec.state(len(want), len(want))
                if got.shape != want.shape:
                    rec.expect(False, "mpe-shape", f"{tuple(got.shape)} instead of {tuple(want.shape)}")
                    continue
                bad = ((got.detach() - want).abs() > 1e-3).flatten(1).any(1)
                for r in range(len(want)):
                    rec.outcome(hash(rows(want[r])))
                i = int(bad.float().argmax())
                rec.expect(not bad.any(), "mpe", lambda: f"differentiable MPE {got[i].detach().tolist()} but MPE {want[i].tolist()} for evidence "
                           f"{None if x is None else x[i].tolist()} ({M.describe(cfg)})", {"config": M.describe(cfg), "seed": seed + s, "evidence": None if x is None else x[i].tolist()})
    return case


class Grid(World):
    """races between two alternatives are answered, row by row of the batch, by a full grid of uniform pairs"""
    n = 48

    def _uni(self, shape):
        shape = tuple(shape)
        n = self.n
        u = (torch.arange(n) + 0.5) / n
        if shape[-1] != 2 or shape[0] != n * n:
            return torch.full(shape, 0.5)
        g = torch.cartesian_prod(u, u)
        return g.reshape(n * n, *([1] * (len(shape) - 2)), 2).expand(shape).clone()


def frequencies(kw, seed, evidence):
    """one decision at a time: the winner's frequency over the grid is the probability the density assigns to the outcome"""
    def case(rec):
        n = Grid.n
        for s in range(6):
            cfg = M.config(leaf="norm", **kw)
            m = M.randomize(M.build(cfg, seed + s), seed + s, 1.0)
            D = cfg.num_features
            with torch.no_grad():
                for mod in M.leaf_modules(m, M.Normal):
                    if evidence:
                        mod.means[:, :, 1:] *= 0.7
                        mod.logvar.fill_(0.0)
                    mm = mod.means[:, :, 0] if evidence else mod.means
                    mm.copy_((torch.arange(mm.numel(), dtype=torch.float) * 5).reshape(mm.shape))
                    (mod.logvar[:, :, 0] if evidence else mod.logvar).fill_(-6.0)
            with Grid(None, eps=(0.0,)):
                if evidence:
                    e = torch.full((n * n, 1, D), 0.8)
                    e[:, :, 0] = M.NAN
                    out = m.sample(evidence=e, is_differentiable=True)
                else:
                    out = m.sample(num_samples=n * n, is_differentiable=True)
            out = out.detach()
            rec.ran(n * n)
            rec.state(n * n)
            freq = {}
            for r in range(n * n):
                k = tuple(round(v) for v in out[r].reshape(-1).tolist()) if not evidence else (round(float(out[r, 0, 0])),)
                freq[k] = freq.get(k, 0) + 1 / (n * n)
            vals = torch.tensor(list(freq), dtype=torch.float)
            x = out[:1].repeat(len(freq), 1, 1)
            x[:, 0, : vals.shape[1]] = vals
            with torch.no_grad():
                ll = uniform_mixture(m(x).double())
                p = torch.softmax(ll, 0)
            for (k, f), q in zip(freq.items(), p.tolist()):
                rec.outcome(k)
                rec.expect(abs(f - q) < 0.035, "frequency", lambda: f"outcome {k} wins {f:.3f} of the grid, its probability is {q:.3f} ({M.describe(cfg)}, evidence={evidence})",
                           {"config": M.describe(cfg), "seed": seed + s, "outcome": k})
    return case


class Recorder(Chooser):
    """remembers the probabilities of all alternatives of every decision"""
    table = None

    def choose(self, options, probs=None, label=""):
        n = len(self.trail)
        o = super().choose(options, probs, label)
        if len(self.trail) > n:
            self.table = (self.table or []) + [[p for p in probs if p > 1e-12] if probs is not None else None]
        return o


def race_grid(k):
    """uniform answers for k alternatives: a full grid, shifted so that no two alternatives ever tie"""
    n = {2: 40, 3: 16, 4: 9}[k]
    return torch.cat([torch.cartesian_prod(*[(torch.arange(n) + ((i + c) % k + 1) / (k + 1)) / n for i in range(k)]) for c in range(k)])


class OneRace(World):
    """all rows of the batch take the given decisions, except that race number `at` is answered by the whole grid"""
    def __init__(self, trail, at, grid, **kw):
        super().__init__(None, **kw)
        self.trail_, self.at, self.grid, self.i = trail, at, grid, 0

    def _uni(self, shape):
        shape = tuple(shape)
        o = torch.full(shape, 1e-4)
        f = o.view(shape[0], -1, shape[-1])
        for c in range(f.shape[1]):
            if shape[-1] == 1:
                continue
            if self.i >= len(self.trail_):
                raise HarnessError("more races than decisions")
            if self.i == self.at:
                if self.grid.shape != f[:, c].shape:
                    raise HarnessError("another race than expected")
                f[:, c] = self.grid
            else:
                f[:, c, self.trail_[self.i][0]] = 1 - 1e-6
            self.i += 1
        return o


def one_race(kw, seed, limit=12, only=None):
    """every decision on its own, the others fixed: over the grid each alternative wins with the probability of the index-based draw"""
    def case(rec):
        cfg = M.config(leaf="norm", **kw)
        m = M.randomize(M.build(cfg, seed), seed, 1.0)
        D, C = cfg.num_features, cfg.num_channels
        with torch.no_grad():
            for mod in M.leaf_modules(m, M.Normal):
                mod.means.copy_((torch.arange(mod.means.numel(), dtype=torch.float) * 0.05).reshape(mod.means.shape))
                mod.logvar.copy_((torch.arange(mod.means.numel(), dtype=torch.float) * 0.37 % 1).reshape(mod.means.shape))
        e = torch.full((1, C, D), 0.8)
        e[:, :, 0] = M.NAN
        e2 = torch.full((1, C, D), M.NAN)
        e2[:, :, D - 1] = -0.5
        calls = [dict(), dict(temperature_sums=0.4), dict(temperature_sums=3.0), dict(evidence=e), dict(evidence=e2), dict(evidence=e2, temperature_sums=2.5), dict(mpe_at_leaves=True, temperature_sums=2.0)]
        if cfg.num_classes > 1:
            calls += [dict(class_index=1), dict(class_index=0, temperature_sums=3.0)]
        for call in calls:
            if only is not None and only not in call:
                continue
            def index(trail):
                ch = Recorder(trail)
                with World(ch):
                    out = m.sample(**(call if "evidence" in call else dict(call, num_samples=1)))
                return out, ch

            def diff(at, trail, grid):
                n = len(grid)
                c = dict(call, evidence=call["evidence"].repeat(n, 1, 1)) if "evidence" in call else dict(call, num_samples=n)
                w = OneRace(trail, at, grid)
                with w:
                    out = m.sample(is_differentiable=True, **c).detach()
                return out, w.i

            seen = set()
            ex = Explorer(limit)
            tables = {}
            for (out, table), p, trail in ex.run(lambda ch: _both(ch, m, call)):
                for t in range(len(trail)):
                    key = (t, tuple(x for i, x in enumerate(trail) if i != t))
                    k = trail[t][1]
                    if key in seen or k > 4:
                        continue
                    seen.add(key)
                    alts = [index(trail[:t] + [(j, k)] + trail[t + 1:])[0] for j in range(k)]
                    grid = race_grid(k)
                    try:
                        got, used = diff(t, trail, grid)
                    except HarnessError:
                        continue  # the decisions do not correspond one by one: covered by `values` and `frequency`
                    if used != len(trail):
                        continue
                    rec.ran(len(grid))
                    rec.state(len(grid))
                    gap = torch.stack([(got - a).flatten(1).abs().amax(1) for a in alts])
                    which = gap.argmin(0)
                    rep = {"config": M.describe(cfg), "seed": seed, "decisions": trail, "race": t, "call": {a: b if not torch.is_tensor(b) else b.tolist() for a, b in call.items()}}
                    rec.expect(bool((gap.amin(0) < 1e-3).all()), "outcome", lambda: f"an outcome of the race is none of the alternatives ({rep})", rep)
                    for j in range(k):
                        same = [i for i in range(k) if bool(((alts[i] - alts[j]).abs() < 1e-3).all())]
                        f = float(sum((which == i).float().mean() for i in same))
                        q = sum(table[t][i] for i in same)
                        rec.outcome((t, j, len(same)))
                        rec.expect(abs(f - q) < 0.04, "race", lambda: f"alternative {j} of decision {t} wins {f:.3f} of the races, index-based sampling draws it with {q:.3f} ({rep})", rep)
    return case


def _both(ch, m, call):
    r = Recorder(ch.prefix, ch.horizon)
    with World(r):
        out = m.sample(**(call if "evidence" in call else dict(call, num_samples=1)))
    ch.trail, ch.prob = r.trail, r.prob
    return out, r.table


def gradients(kw, seed):
    """every sum weight that can change the expected sample receives a finite, non-zero gradient"""
    def case(rec):
        cfg = M.config(leaf="norm", **kw)
        for evid in (None, (0,), (0, 2)):
            m = M.randomize(M.build(cfg, seed), seed)
            D = cfg.num_features
            if evid is None:
                torch.manual_seed(0)
                out = m.sample(num_samples=40, is_differentiable=True)
            else:
                torch.manual_seed(0)
                e = torch.zeros(40, 1, D)
                e[:, :, list(evid)] = M.NAN
                out = m.sample(evidence=e, is_differentiable=True)
            w = torch.randn(out.shape, generator=torch.Generator().manual_seed(3))
            (out * w).sum().backward()
            rec.ran()
            rec.state()
            for name, prm in m.named_parameters():
                if not prm.requires_grad:
                    continue
                rec.expect(prm.grad is not None and bool(torch.isfinite(prm.grad).all()) and float(prm.grad.abs().sum()) > 0, "grad",
                           lambda: f"parameter {name} receives {'no' if prm.grad is None else 'a zero or non-finite'} gradient ({M.describe(cfg)}, missing {evid})", {"parameter": name})
                rec.outcome(f"{name}:{evid}")
    return case


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for st, la in ARCH:
        for leaf in ("norm", "cat2", "rat", "ber") if not big else ("norm", "cat2", "cat3", "rat", "ber"):
            for D, C, depth, R, K, S, L in ((2, 1, 1, 1, 1, 2, 3), (3, 1, 1, 2, 1, 2, 2), (2, 1, 0, 2, 3, 2, 2), (4, 1, 2, 1, 2, 2, 2), (2, 2, 1, 3, 2, 2, 2), (5, 1, 2, 2, 1, 2, 2)):
                if leaf != "norm" and not big and (D > 2 or C > 1):
                    continue
                if leaf != "norm":
                    L, R, K = 1, min(R, 2), 1
                kw = dict(structure=st, layer=la, D=D, C=C, depth=depth, R=R, K=K, S=S, L=L)
                out.append((f"values/{leaf}/{st}/{la}/D{D}C{C}d{depth}R{R}K{K}L{L}", values(kw, leaf, seed)))
        for leaf in ("norm", "bin2", "cat2", "rat"):
            for D, C, depth, R, K in ((3, 1, 1, 1, 1), (3, 1, 1, 3, 2), (4, 1, 2, 2, 3), (5, 1, 1, 2, 1), (3, 2, 0, 2, 2)):
                kw = dict(structure=st, layer=la, D=D, C=C, depth=depth, R=R, K=K, S=3, L=3)
                out.append((f"mpe/{leaf}/{st}/{la}/D{D}C{C}d{depth}R{R}K{K}", mpe(kw, leaf, seed)))
        for evidence in (False, True):
            for name, kw in (("class", dict(depth=1, R=1, K=2, L=1, S=1)), ("repetition", dict(depth=1, R=2, K=1, L=1, S=1)),
                             ("sum", dict(depth=0, R=1, K=1, L=2, S=1)), ("layer", dict(depth=1, R=1, K=1, L=2, S=1))):
                if la in ("linsum2", "einsum") and name == "layer" or st == "bottom-up" and name in ("sum", "layer"):
                    continue  # several coupled decisions: covered by `values` and C03/C04
                out.append((f"frequency/{st}/{la}/{name}/{'cond' if evidence else 'free'}", frequencies(dict(kw, structure=st, layer=la, D=2), seed, evidence)))
        for D, depth, R, K, S, L in ((2, 1, 1, 1, 1, 2), (3, 1, 2, 2, 2, 2), (4, 2, 2, 1, 2, 2), (2, 0, 3, 2, 2, 3), (4, 2, 1, 3, 2, 1), (5, 2, 2, 1, 2, 1), (3, 1, 1, 1, 2, 3)):
            out.append((f"race/{st}/{la}/D{D}d{depth}R{R}K{K}S{S}L{L}", one_race(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=S, L=L), seed, 12 if not big else 200)))
        for D, depth, R, K in ((4, 2, 2, 1), (4, 1, 1, 2), (3, 0, 2, 1)):
            out.append((f"grad/{st}/{la}/D{D}d{depth}R{R}K{K}", gradients(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=2, L=2), seed)))
    return out
