"""C14: dropout removes children of sum nodes, never all of them, and only while training."""
import itertools
import math

import torch

from .. import models as M
from ..explore import Chooser, Explorer, World
from ..sampling import distance, rows
from simple_einet.layers.einsum import EinsumLayer
from simple_einet.layers.linsum import LinsumLayer, LinsumLayer2
from simple_einet.layers.mixing import MixingLayer
from simple_einet.layers.sum import SumLayer

LEVEL = "model_checking"
BOUNDS = ("every dropout mask of every layer type with up to 8 maskable children (law of the output, rejection loops unrolled until less than 1% of the "
          "mass is left); every mask with up to two dropped children of depth <= 2 models; 7 inputs including missing values")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))


class Cut(Exception):
    pass


def grid(p):
    """a mask may be drawn by comparing a uniform draw with p or with 1 - p: one answer for every cell between the two thresholds"""
    t = sorted({0.0, p, 1 - p, 1.0})
    return sorted((((a + b) / 2, b - a) for a, b in zip(t, t[1:])), key=lambda c: abs(c[0] - (1 + p) / 2))  # "kept" first, for u < p


class Masks(World):
    """cuts runs that are still resampling after `horizon` draws of single cells"""
    horizon = 10**9

    def __init__(self, ch, p):
        super().__init__(ch)
        self.grid = grid(p)

    def _pick(self, options, probs, label):
        if self.draws >= self.horizon:
            raise Cut()
        return super()._pick(options, probs, label)


def spec_law(groups, p):
    """groups: list of (x [n], log w [n, O], combine) independent child groups -> every kept subset with its probability"""
    for kept in itertools.product(*[[s for s in itertools.product((0, 1), repeat=n) if any(s)] for n in groups]):
        pr = 1.0
        for s in kept:
            k = sum(s)
            pr *= (1 - p) ** k * p ** (len(s) - k) / (1 - p ** len(s))
        yield kept, pr


def lse(v):
    v = [a for a in v if a != -math.inf]
    m = max(v)
    return m + math.log(sum(math.exp(a - m) for a in v))


def spec_layer(kind, layer, x, p):
    """exact law of the layer's output under dropout, written from the meaning of the layer"""
    lg = layer.logits.detach().double()
    x = x.double()
    N, D, S = x.shape[0], x.shape[1], x.shape[2]
    R = x.shape[3]
    law = {}
    if kind == "mixing":  # x [N, D, O, R]
        cells = [(n, d, o) for n in range(N) for d in range(D) for o in range(S)]
        w = torch.log_softmax(lg, 2)
        for kept, pr in spec_law([R] * len(cells), p):
            out = [lse([float(x[n, d, o, r] + w[d, o, r]) if k[r] else -math.inf for r in range(R)]) for (n, d, o), k in zip(cells, kept)]
            add(law, out, pr)
        return law
    if kind == "einsum":
        cells = [(n, d, r) for n in range(N) for d in range(D) for r in range(R)]
        O = lg.shape[1]
        w = torch.log_softmax(lg.reshape(*lg.shape[:3], -1), -1).reshape(lg.shape)  # D/2 O R S S
        for kept, pr in spec_law([S] * len(cells), p):
            k = dict(zip(cells, kept))
            out = [lse([float(x[n, 2 * d, i, r] + x[n, 2 * d + 1, j, r] + w[d, o, r, i, j]) if k[n, 2 * d, r][i] and k[n, 2 * d + 1, r][j] else -math.inf
                        for i in range(S) for j in range(S)]) for n in range(N) for d in range(D // 2) for o in range(O) for r in range(R)]
            add(law, out, pr)
        return law
    O = lg.shape[2]
    w = torch.log_softmax(lg, 1)  # D S O R
    if kind == "linsum":
        if D % 2:
            x = torch.cat([x, torch.zeros_like(x[:, :1])], 1)
        x = x[:, 0::2] + x[:, 1::2]
        D = x.shape[1]
    cells = [(n, d, r) for n in range(N) for d in range(D) for r in range(R)]
    for kept, pr in spec_law([S] * len(cells), p):
        k = dict(zip(cells, kept))
        s = {(n, d, o, r): lse([float(x[n, d, i, r] + w[d, i, o, r]) if k[n, d, r][i] else -math.inf for i in range(S)]) for n, d, r in cells for o in range(O)}
        if kind == "linsum2":
            out = [s[n, 2 * d, o, r] + (s[n, 2 * d + 1, o, r] if 2 * d + 1 < D else 0.0) for n in range(N) for d in range((D + 1) // 2) for o in range(O) for r in range(R)]
        else:
            out = [s[n, d, o, r] for n in range(N) for d in range(D) for o in range(O) for r in range(R)]
        add(law, out, pr)
    return law


def add(law, out, pr):
    key = tuple(round(v, 3) + 0.0 for v in out)
    law[key] = law.get(key, 0.0) + pr


def near(law, key):
    """the rounding of a 32-bit and a 64-bit computation may differ in the last digit"""
    if key in law:
        return key
    for k in law:
        if len(k) == len(key) and all(abs(a - b) < 2.5e-3 for a, b in zip(k, key)):
            return k
    return key


KINDS = {
    "sum": lambda D, S, O, R, p: SumLayer(num_sums_in=S, num_features=D, num_sums_out=O, num_repetitions=R, dropout=p),
    "linsum": lambda D, S, O, R, p: LinsumLayer(num_features=D, num_sums_in=S, num_sums_out=O, num_repetitions=R, dropout=p),
    "linsum2": lambda D, S, O, R, p: LinsumLayer2(num_features=D, num_sums_in=S, num_sums_out=O, num_repetitions=R, dropout=p),
    "einsum": lambda D, S, O, R, p: EinsumLayer(num_features=D, num_sums_in=S, num_sums_out=O, num_repetitions=R, dropout=p),
    "mixing": lambda D, S, O, R, p: MixingLayer(num_features=D, num_sums_in=R, num_sums_out=O, dropout=p),
}


def layer_law(kind, N, D, S, O, R, p, seed, apart=0.0):
    def case(rec):
        torch.manual_seed(seed)
        layer = M.randomize(KINDS[kind](D, S, O, R, p), seed)
        with torch.no_grad():
            layer.dropout.fill_(p)
        g = torch.Generator().manual_seed(seed + 5)
        x = -2 * torch.rand(N, D, O if kind == "mixing" else S, R, generator=g)
        if apart:  # children of very different likelihoods: a removed child has no weight left at all
            x = x - apart * torch.randperm(x.numel(), generator=g).reshape(x.shape)
        want = spec_layer(kind, layer, x, p)
        rep = {"layer": kind, "N": N, "D": D, "S": S, "O": O, "R": R, "dropout": p, "seed": seed, "apart": apart}
        # evaluation mode: no draws, nothing removed
        layer.eval()
        with World(None) as w, torch.no_grad():
            plain = layer(x.clone())
        rec.expect(w.draws == 0, "eval-draws", lambda: f"{kind}: dropout draws in evaluation mode ({rep})", rep)
        ref = KINDS[kind](D, S, O, R, 0.0).train()
        ref.load_state_dict({**layer.state_dict(), "dropout": torch.tensor(0.0)})
        with World(None) as w, torch.no_grad():
            rec.expect(torch.allclose(ref(x.clone()), plain, atol=1e-5) and w.draws == 0, "zero", lambda: f"{kind}: dropout 0 changes the output ({rep})", rep)
        layer.train()
        # how many cells does one draw of the whole mask have?
        with Masks(Chooser(), p) as w, torch.no_grad():
            layer(x.clone())
        cells = w.draws
        ex = Explorer(60000)
        law, lost = {}, 0.0

        def run(ch):
            keep = x.clone()
            w = Masks(ch, p)
            w.horizon = cells + layer_law.extra
            try:
                with w, torch.no_grad():
                    out = layer(keep)
            except Cut:
                return None
            rec.expect(torch.equal(keep, x), "input", lambda: f"{kind}: dropout modified its input ({rep})", rep)
            return out

        for out, pr, trail in ex.run(run):
            if out is None:
                lost += pr
                continue
            if not bool(torch.isfinite(out).all()):
                rec.expect(False, "infinite", f"{kind}: output {out.tolist()} for mask draws {[t[0] for t in trail]} ({rep})", dict(rep, choices=trail))
                continue
            rec.expect(bool((out <= plain + 1e-4).all()), "larger", lambda: f"{kind}: dropout increased the output ({rep})", dict(rep, choices=trail))
            key = near(want, tuple(round(float(v), 3) + 0.0 for v in out.reshape(-1).double()))
            law[key] = law.get(key, 0.0) + pr
            rec.outcome(key)
        rec.explored(ex)
        if ex.capped:
            return
        if lost > 0.2:
            rec.violation("livelock", f"{kind}: mass {lost:.3f} is still resampling after {cells + layer_law.extra} draws ({rep})", rep)
            return
        for key in set(law) | set(want):
            d = abs(law.get(key, 0.0) - want.get(key, 0.0))
            if d > lost + 1e-3:
                rec.expect(False, "law", f"{kind}: P(output = {key}) = {law.get(key, 0):.4f}, must be {want.get(key, 0):.4f} (undecided mass {lost:.4f}; {rep})", rep)
                break
        rec.compared(len(want))
        rec.sample(dict(rep, outcomes=len(want), undecided=round(lost, 5)))
    return case


layer_law.extra = 12


def cells_of(cfg):
    """children that can be dropped in one forward pass of one row: [(number of groups, children per group)]"""
    R, K, S, L, d = cfg.num_repetitions, cfg.num_classes, cfg.num_sums, cfg.num_leaves, cfg.depth
    res = []
    if cfg.structure == "top-down":
        if d == 0:
            res.append((R, L))
        for i in range(1, d + 1):
            n = S if i < d else L
            regions = {"linsum": 2 ** (i - 1), "linsum2": 2**i, "einsum": 2**i}[cfg.layer_type]
            res.append((regions * R, n))
    else:
        D = cfg.num_features
        for i in range(d):
            D = (D + 1) // 2
            res.append((D * R, L if i == 0 else S))
        res.append((D * R, S if d else L))
    if R > 1:
        res.append((K, R))
    return [(g, n) for g, n in res]


class Few(World):
    """drop masks: at most `budget` cells are dropped, everywhere; a resampled cell is kept"""

    def __init__(self, ch, budget, first, p, below):
        super().__init__(ch)
        self.grid = [(0.5, 1 - p), (p / 2 if below else 1 - p / 2, p)]  # p < 1/2: kept, dropped
        self.left = budget
        self.first = first
        self.cells = 0
        self.probs = 1.0

    def _pick(self, options, probs, label):
        self.draws += 1
        self.cells += 1
        if len(options) != 2:
            return super()._pick(options, probs, label)
        v = options[0]
        if self.left and self.cells <= self.first:
            v = self.ch.choose(options, None, label)
        if v != options[0]:
            self.left -= 1
        return v


def wiring(kw, leaf, seed, p, budget):
    """whole models: which children can be dropped, what dropping them does, and that nothing happens in evaluation mode"""
    def case(rec):
        cfg = M.config(leaf=leaf, dropout=p, **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        base = M.randomize(M.build(M.config(leaf=leaf, dropout=0.0, **kw), seed), seed)
        rep = {"config": M.describe(cfg), "seed": seed}
        D, C = cfg.num_features, cfg.num_channels
        xs = [torch.zeros(1, C, D), torch.ones(1, C, D), torch.full((1, C, D), M.NAN)] + [
            torch.tensor([float((i + o) % 2) if i % 3 != o else M.NAN for i in range(C * D)]).reshape(1, C, D) for o in range(3)]
        spec = cells_of(cfg)
        total = sum(g * n for g, n in spec)
        below = True
        for xi, x in enumerate(xs):
            want = base(x.clone()).detach()
            m.eval()
            with World(None) as w:
                got = m(x.clone()).detach()
            rec.ran(2)
            rec.expect(w.draws == 0 and torch.allclose(got, want, atol=1e-5), "eval", lambda: f"dropout acts in evaluation mode ({rep})", rep)
            m.train()
            base.train()
            with World(None) as w:
                rec.expect(torch.allclose(base(x.clone()), want, atol=1e-5) and w.draws == 0, "zero", lambda: f"dropout 0 acts in training mode ({rep})", rep)
            ex = Explorer(20000)
            reduced = 0

            def run(ch):
                with Few(ch, budget, total, p, below) as w:
                    out = m(x.clone())
                return out, w.cells

            # where masks are drawn by comparing uniform draws: on which side of the threshold is a child dropped?
            for below in (False, True):
                if any(not torch.allclose(run(Chooser([(0, 2)] * i + [(1, 2)]))[0].detach(), want, atol=1e-6) for i in range(total)):
                    break

            for (out, n), pr, trail in ex.run(run):
                o = out.detach()
                drops = [i for i, t in enumerate(trail) if t[0]]
                if not drops:
                    rec.expect(n == total, "children", lambda: f"{n} children can be dropped, the model has {total}: (groups, children) {spec} ({rep})", rep)
                    rec.expect(torch.allclose(o, want, atol=1e-5), "kept", lambda: f"nothing is dropped, yet the log-likelihood is {o.tolist()} instead of {want.tolist()} ({rep})", rep)
                rec.outcome(hash((xi, rows(o))))
                rec.expect(bool(torch.isfinite(o).all()), "infinite", lambda: f"log-likelihood {o.tolist()} for {x.tolist()} after dropping {drops} ({rep})", dict(rep, choices=trail))
                rec.expect(bool((o <= want + 1e-4).all()), "larger", lambda: f"dropping {drops} increased the log-likelihood of {x.tolist()} from {want.tolist()} to {o.tolist()} ({rep})", dict(rep, choices=trail))
                if len(drops) == 1 and n == total:
                    rec.expect(not torch.allclose(o, want, atol=1e-6) and bool((o < want + 1e-6).all()), "no-effect", lambda: f"dropping child {drops} has no effect on {x.tolist()} ({rep})", dict(rep, choices=trail))
                    if xi == 3:
                        m.zero_grad()
                        out.sum().backward()
                        rec.expect(all(bool(torch.isfinite(q.grad).all()) for q in m.parameters() if q.grad is not None), "gradient",
                                   lambda: f"a gradient is not finite after dropping {drops} ({rep})", dict(rep, choices=trail))
            rec.explored(ex)
            m.eval()
            base.eval()
        rec.sample(dict(rep, droppable=total))
    return case


def cases(tier, seed):
    res = {}
    th = tier == "thorough"
    for p in (0.25, 0.5) if th else (0.3,):
        shapes = {
            "sum": [(1, 1, 3, 2, 1), (1, 2, 2, 1, 1), (1, 1, 2, 2, 2), (2, 1, 2, 1, 1), (1, 1, 1, 2, 2)],
            "linsum": [(1, 2, 3, 2, 1), (1, 3, 2, 1, 1), (1, 2, 2, 2, 2), (2, 2, 2, 1, 1), (1, 2, 1, 2, 2)],
            "linsum2": [(1, 2, 2, 2, 1), (1, 3, 2, 1, 1), (1, 2, 3, 2, 1), (1, 2, 2, 1, 2), (2, 2, 2, 1, 1), (1, 2, 1, 3, 2)],
            "einsum": [(1, 2, 2, 2, 1), (1, 2, 3, 1, 1), (1, 2, 1, 2, 2), (1, 2, 2, 1, 2)],
            "mixing": [(1, 1, 1, 1, 3), (1, 1, 1, 2, 2), (2, 1, 1, 1, 2), (1, 1, 1, 3, 2)],
        }
        for kind, ss in shapes.items():
            for s in ss:
                if th or s[0] * s[1] * s[2] * s[4] <= 8:
                    res[f"law:{kind}:{s}:p={p}"] = layer_law(kind, *s, p, seed)
                    if s[0] == 1:
                        res[f"law:{kind}:{s}:p={p}:apart"] = layer_law(kind, *s, p, seed, 120.0)
    for st, la in ARCH:
        for D, dep, R, K, S, L in ((2, 1, 1, 1, 2, 3), (4, 2, 1, 2, 2, 2), (3, 1, 2, 1, 2, 2), (4, 2, 2, 2, 3, 2), (3, 0, 2, 2, 2, 2), (5, 2, 2, 1, 2, 3), (2, 1, 3, 3, 1, 1), (2, 0, 1, 3, 2, 3)):
            kw = dict(structure=st, layer=la, D=D, depth=dep, R=R, K=K, S=S, L=L)
            for leaf in ("ber", "norm") if th else ("ber",):
                res[M.cname(wiring=leaf, **kw)] = wiring(kw, leaf, seed + D, 0.4, 3 if th else 2)
    return res
