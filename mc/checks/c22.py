"""C22: sampling at a temperature is sampling from the tempered circuit."""
import copy
import itertools

import torch

from .. import conv as V
from .. import models as M
from ..explore import Explorer, World
from ..sampling import density, distance, exact, rows, uniform_mixture
from .c08 import Grid, one_race
from .c19 import descr, law, table

from simple_einet.abstract_layers import AbstractSumLayer  # noqa: E402

LEVEL = "model_checking"
BOUNDS = ("D<=4, depth<=2, repetitions<=3, classes<=3, temperatures 0.25, 0.5, 2, 7 of sums and leaves (and both); every answer of every draw; conditional queries of "
          "circuits with one sum; differentiable draws on a 48x48 grid of uniform answers, and every single race of circuits of up to 5 variables over a full grid of answers against the index-based draw at the same temperature; images of 2x2 pixels")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))
TEMPS = (0.25, 0.5, 2.0, 7.0)
TOL = 3e-4


def tempered(m, ts=1.0, tl=1.0):
    """the circuit with weights proportional to w^(1/ts) and leaves tempered by tl"""
    t = copy.deepcopy(m)
    with torch.no_grad():
        for mod in t.modules():
            if isinstance(mod, AbstractSumLayer) or type(mod).__name__ in ("SumConv", "SumLayer"):
                mod.logits /= ts
            elif isinstance(mod, M.Categorical):
                mod.logits /= tl
            elif isinstance(mod, M.Normal):
                mod.logvar += torch.log(torch.tensor(tl))
    return t


def sums(kw, seed, ts):
    """leaves that name themselves: the law of the choices is the tempered density"""
    def case(rec):
        n = kw["L"] * kw["R"]
        cfg = M.config(leaf=f"cat{n}", **kw)
        m = M.tag_leaves(M.randomize(M.build(cfg, seed), seed, 1.5))
        x = M.grid([float(v) for v in range(n)], cfg.num_features).reshape(-1, 1, cfg.num_features)
        rep = {"config": M.describe(cfg), "seed": seed, "temperature_sums": ts}
        want = density(tempered(m, ts), x, uniform_mixture)
        got, ex = exact(lambda: m.sample(num_samples=1, temperature_sums=ts))
        rec.explored(ex)
        for k in got:
            rec.outcome(k)
        d, at = distance(got, want)
        rec.expect(d < TOL, "law", lambda: f"at temperature {ts}, {at} is drawn with {got.get(at, 0):.5f} instead of {want.get(at, 0):.5f} ({rep})", rep)
        plain = density(m, x, uniform_mixture)
        rec.expect(cfg.depth == 0 and kw["R"] == 1 or n == 1 or kw["S"] == 1 or distance(plain, want)[0] > TOL, "vacuous", lambda: f"the temperature changes nothing ({rep})")
        for T in (1.0, 1):
            got, ex = exact(lambda: m.sample(num_samples=1, temperature_sums=T, temperature_leaves=T))
            rec.explored(ex)
            d, at = distance(got, plain)
            rec.expect(d < TOL, "one", lambda: f"at temperature 1, {at} is drawn with {got.get(at, 0):.5f} instead of {plain.get(at, 0):.5f} ({rep})", rep)
        for k in range(cfg.num_classes if cfg.num_classes > 1 else 0):
            got, ex = exact(lambda: m.sample(num_samples=1, class_index=k, temperature_sums=ts))
            rec.explored(ex)
            want = density(tempered(m, ts), x, lambda ll: ll[:, k])
            d, at = distance(got, want)
            rec.expect(d < TOL, "class", lambda: f"class {k} at temperature {ts}: {at} is drawn with {got.get(at, 0):.5f} instead of {want.get(at, 0):.5f} ({rep})", rep)
        # the most probable explanation does not depend on temperatures
        a, b = m.sample(num_samples=2, is_mpe=True), None
        for t1, t2 in ((ts, 1.0), (1.0, ts), (ts, ts)):
            b = m.sample(num_samples=2, is_mpe=True, temperature_sums=t1, temperature_leaves=t2)
            rec.ran(2)
            rec.expect(torch.equal(a, b), "mpe", lambda: f"MPE at temperatures {(t1, t2)} is {b.tolist()} instead of {a.tolist()} ({rep})", rep)
        rec.sample(rep)
    return case


def leaves(kw, leaf, seed, ts, tl):
    """the leaf draws are enumerated"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        dom = M.leaf_spec(leaf)[2]
        m = M.randomize(M.build(cfg, seed), seed, 1.3)
        x = M.grid(dom, cfg.num_features * cfg.num_channels).reshape(-1, cfg.num_channels, cfg.num_features)
        rep = {"config": M.describe(cfg), "seed": seed, "temperature_sums": ts, "temperature_leaves": tl}
        for mode in (dict(), dict(is_differentiable=True)):
            if mode and (kw["L"] > 1 or kw["R"] > 1 or kw["K"] > 1 or kw["S"] > 1):
                continue
            got, ex = exact(lambda: m.sample(num_samples=1, temperature_sums=ts, temperature_leaves=tl, **mode))
            rec.explored(ex)
            want = density(tempered(m, ts, tl), x, uniform_mixture)
            d, at = distance(got, want)
            for k in got:
                rec.outcome(k)
            rec.expect(d < TOL, "law", lambda: f"at temperatures {(ts, tl)}, {at} is drawn with {got.get(at, 0):.5f} instead of {want.get(at, 0):.5f} ({mode}, {rep})", rep)
            plain = density(m, x, uniform_mixture)
            rec.expect(distance(plain, want)[0] > TOL, "vacuous", f"the temperature changes nothing ({rep})")
            if kw["L"] == kw["R"] == kw["K"] == kw["S"] == 1:  # independent leaves: the missing entries are drawn from the tempered leaves
                for miss in M.subsets(cfg.num_features):
                    if not miss:
                        continue
                    e = torch.ones(1, cfg.num_channels, cfg.num_features)
                    e[:, :, list(miss)] = M.NAN
                    got, ex = exact(lambda: m.sample(evidence=e, temperature_leaves=tl, **mode))
                    rec.explored(ex)
                    comp = {k: v for k, v in want.items() if all(a != a or a == b for a, b in zip(e.reshape(-1).tolist(), k))}
                    z = sum(comp.values())
                    d, at = distance(got, {k: v / z for k, v in comp.items()})
                    rec.expect(d < TOL, "given", lambda: f"given {e.tolist()} at leaf temperature {tl}, {at} is drawn with {got.get(at, 0):.5f} instead of {comp.get(at, 0) / z:.5f} ({mode}, {rep})", rep)
    return case


def gauss(kw, leaf, seed, tl):
    """a standard-normal answer e becomes mean + e * sigma * sqrt(T)"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        rep = {"config": M.describe(cfg), "seed": seed, "temperature_leaves": tl}
        N, C, D = 2, cfg.num_channels, cfg.num_features
        for mode in (dict(), dict(is_differentiable=True)):
            for ev in (None, torch.tensor([[M.NAN] * (D - 1) + [0.3]] * N).reshape(N, 1, D).repeat(1, C, 1)):
                call = dict(num_samples=N) if ev is None else dict(evidence=ev)
                mean = m.sample(mpe_at_leaves=True, **call, **mode).detach()
                res = {}
                ex = Explorer()
                for r, p, t in ex.run(lambda ch: _one(ch, m, dict(call, temperature_leaves=tl, **mode))):
                    res[ex.executions] = r
                for r, p, t in ex.run(lambda ch: _one(ch, m, dict(call, **mode))):
                    res[ex.executions] = r
                k = len(res) // 2
                rec.explored(ex)
                for i in range(1, k + 1):
                    hot, plain = res[i], res[k + i]
                    want = mean + (plain - mean) * tl ** 0.5
                    if ev is not None:
                        want[:, :, -1] = 0.3
                    rec.outcome(rows(hot))
                    rec.expect(torch.allclose(hot, want, atol=1e-4), "scale", lambda: f"leaf temperature {tl}: sample {hot.tolist()} instead of {want.tolist()} (mean {mean.tolist()}, {mode}, {rep})", rep)
    return case


def _one(ch, m, call):
    with World(ch, eps=(-1.0, 0.5, 2.0), joint_eps=True):
        return m.sample(**call).detach()


def given(kw, seed, ts):
    """one sum node over leaves: given evidence, children are drawn in proportion to tempered weight times likelihood"""
    def case(rec):
        n = kw["L"]
        cfg = M.config(leaf=f"cat{n}", **kw)
        m = M.tag_leaves(M.randomize(M.build(cfg, seed), seed, 1.5), 1.0)  # soft: every leaf explains every value
        hard = M.tag_leaves(copy.deepcopy(m))
        dom = [float(v) for v in range(n)]
        x = M.grid(dom, 2).reshape(-1, 1, 2)
        rep = {"config": M.describe(cfg), "seed": seed, "temperature_sums": ts}
        want = density(tempered(m, ts), x)
        for miss in ((0,), (1,), (0, 1)):
            for v in dom:
                e = torch.full((1, 1, 2), v)
                e[:, :, list(miss)] = M.NAN
                got, ex = exact(lambda: m.sample(evidence=e, temperature_sums=ts))
                rec.explored(ex)
                comp = {k: q for k, q in want.items() if all(a != a or a == b for a, b in zip(e.reshape(-1).tolist(), k))}
                z = sum(comp.values())
                comp = {k: q / z for k, q in comp.items()}
                d, at = distance(got, comp)
                for k in got:
                    rec.outcome(k)
                rec.expect(d < TOL, "law", lambda: f"given {e.tolist()} at temperature {ts}, {at} is drawn with {got.get(at, 0):.5f} instead of {comp.get(at, 0):.5f} ({rep})", rep)
    return case


def races(layer, structure, seed, ts):
    """differentiable draws: the frequency over a grid of uniform answers is the tempered weight"""
    def case(rec):
        n = Grid.n
        for s in range(4):
            cfg = M.config(leaf="norm", D=2, S=1, L=2, R=1, K=1, depth=1, layer=layer, structure=structure)
            m = M.randomize(M.build(cfg, seed + s), seed + s, 1.5)
            with torch.no_grad():
                for mod in M.leaf_modules(m, M.Normal):
                    mod.means.copy_((torch.arange(mod.means.numel()).float() * 5).reshape(mod.means.shape))
                    mod.logvar.fill_(-6.0)
            with Grid(None, eps=(0.0,)):
                out = m.sample(num_samples=n * n, is_differentiable=True, temperature_sums=ts).detach()
            rec.ran(n * n)
            rec.state(n * n)
            vals, count = torch.unique(out.reshape(n * n, -1).round(), dim=0, return_counts=True)
            t = tempered(m, ts)
            with torch.no_grad():
                ll = t(vals.reshape(-1, 1, 2))[:, 0].double()
            peak = 2 * (3.0 - 0.5 * torch.log(torch.tensor(2 * torch.pi)).double())  # log density of a leaf at its mean: -log(sigma) - log(2 pi)/2
            want = (ll - peak).exp()
            for v, c, w in zip(vals, count, want):
                rec.outcome(f"{v.tolist()}{int(c)}")
                if layer == "linsum" and structure == "top-down":
                    rec.expect(abs(float(c) / n / n - float(w)) < 0.03, "race", lambda: f"{v.tolist()} wins {float(c) / n / n:.3f} of the races at temperature {ts}, its tempered weight is {float(w):.3f}", {"seed": seed + s, "temperature": ts})
    return case


def conv(kw, seed, ts, tl, leaf=None):
    def case(rec):
        L = kw["channels"][0]
        cfg, shape = V.config(leaf=leaf or f"cat{L}", **kw)
        m = V.build(cfg, shape, seed)
        dom = M.leaf_spec(leaf or f"cat{L}")[2]
        if leaf is None:
            V.tag(m)
        x = M.grid(dom, shape.channels * shape.height * shape.width).reshape(-1, shape.channels, shape.height, shape.width)
        rep = {"config": descr(cfg, shape), "seed": seed, "temperatures": (ts, tl)}
        got = law(rec, lambda: m.sample(1, temperature_sums=ts, temperature_leaves=tl))
        if got is None:
            return
        want = table(tempered(m, ts, tl), x)
        d, at = distance(got, want)
        for k in got:
            rec.outcome(k)
        rec.expect(d < TOL, "law", lambda: f"at temperatures {(ts, tl)}, image {at} is drawn with {got.get(at, 0):.5f} instead of {want.get(at, 0):.5f} ({rep})", rep)
        rec.expect(distance(table(m, x), want)[0] > TOL, "vacuous", f"the temperature changes nothing ({rep})")
        a = m.sample(1, is_mpe=True).detach()
        b = m.sample(1, is_mpe=True, temperature_sums=ts, temperature_leaves=tl).detach()
        rec.expect(torch.equal(a, b), "mpe", lambda: f"MPE depends on the temperature ({rep})", rep)
    return case


def cases(tier, seed):
    th = tier == "thorough"
    out = []
    for st, la in ARCH:
        for D, depth, R, K, S, L in ((2, 1, 1, 1, 2, 2), (2, 1, 2, 1, 2, 2), (3, 1, 1, 2, 2, 2), (4, 2, 1, 1, 2, 2), (2, 0, 2, 2, 2, 2), (2, 1, 3, 2, 2, 1), (3, 1, 1, 3, 2, 3), (2, 1, 1, 1, 3, 2)) + (
                ((4, 2, 2, 1, 2, 1), (4, 1, 2, 2, 2, 1), (5, 2, 1, 1, 2, 2)) if th else ()):
            nodes = {"linsum": 1, "linsum2": 2, "einsum": 2}[la] * (2**depth - 1 if st == "top-down" else D)
            if max(S, L) ** nodes * R * K > (7000 if not th else 60000):
                continue
            for i, ts in enumerate(TEMPS):
                kw = dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=S, L=L)
                out.append((f"sums/{st}/{la}/D{D}/depth{depth}/R{R}K{K}S{S}L{L}/T{ts}", sums(kw, seed + i, ts)))
        for leaf, D, R, K, S, L, C in (("cat2", 2, 1, 1, 1, 1, 2), ("cat3", 2, 1, 1, 1, 1, 1), ("cat2", 2, 1, 1, 1, 2, 1), ("cat2", 2, 2, 1, 1, 1, 1)):
            for ts, tl in ((1.0, 2.0), (0.5, 0.5), (4.0, 0.25)):
                kw = dict(structure=st, layer=la, D=D, depth=1, R=R, K=K, S=S, L=L, C=C)
                out.append((f"leaves/{leaf}/{st}/{la}/R{R}L{L}C{C}/T{ts},{tl}", leaves(kw, leaf, seed, ts, tl)))
        for D, depth, R, K, S, L in ((3, 1, 2, 2, 2, 2), (4, 2, 1, 1, 2, 1), (2, 0, 3, 2, 2, 2), (5, 2, 2, 1, 2, 1), (3, 1, 1, 1, 2, 3)):
            out.append((f"differentiable/{st}/{la}/D{D}d{depth}R{R}K{K}S{S}L{L}", one_race(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=S, L=L), seed, 8 if not th else 100, "temperature_sums")))
        for tl in (0.25, 4.0):
            for R, L, S in ((1, 1, 1), (2, 1, 1)) if th else ((1, 1, 1),):
                out.append((f"gauss/{st}/{la}/R{R}/T{tl}", gauss(dict(structure=st, layer=la, D=3, depth=1, R=1, K=1, S=1, L=1, C=2), "norm", seed, tl)))
        if la != "linsum2" and st == "top-down":  # a single sum between the root and the leaves
            for L in (2, 3) if la == "linsum" and th else (2,):
                for ts in TEMPS:
                    out.append((f"given/{st}/{la}/L{L}/T{ts}", given(dict(structure=st, layer=la, D=2, depth=1, R=1, K=1, S=2, L=L), seed, ts)))
    for tl in (0.25, 4.0):
        out.append((f"gauss-rat/T{tl}", gauss(dict(D=3, depth=1, R=1, K=1, S=1, L=1, C=2), "rat", seed, tl)))
    for ts in TEMPS:
        out.append((f"races/T{ts}", races("linsum", "top-down", seed, ts)))
    for st, order in itertools.product(("bottom-up", "top-down"), ("sum-prod", "prod-sum")):
        for ts in (0.5, 4.0):
            out.append((f"conv/{st}/{order}/T{ts}", conv(dict(channels=(2,), structure=st, order=order), seed, ts, 1.0)))
        out.append((f"conv-leaves/{st}/{order}", conv(dict(channels=(1,), structure=st, order=order), seed, 1.0, 3.0, leaf="cat2")))
    return out
