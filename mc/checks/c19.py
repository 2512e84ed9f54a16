"""C19: convolutional circuits give the same guarantees as Einets."""
import itertools

import torch
from torch.nn import functional as F

from .. import conv as V
from .. import models as M
from ..explore import Explorer
from ..sampling import distance, large_batch, rows, seeds_reach

LEVEL = "model_checking"
BOUNDS = ("images of 2x2 to 4x4 pixels, 1-2 data channels, 1-3 channels per layer, both structures and orders; all inputs and all partial inputs of the 2x2 images, every answer "
          "of every draw; evidence: every missing pattern of 4 pixels; sum-convolution layers of kernel 1 and 2 on up to 4x2 pixels; "
          "batches of up to 270 images: the most probable draw of every row and every single deviation from it (from 270 rows on: of a few rows)")
STRUCT = tuple(itertools.product(("bottom-up", "top-down"), ("sum-prod", "prod-sum")))


def descr(cfg, shape):
    return dict(channels=list(cfg.channels), H=shape.height, W=shape.width, C=shape.channels, structure=cfg.structure, order=cfg.order, kernel=cfg.kernel_size, leaf=cfg.leaf_type.__name__)


def images(dom, C, H, W):
    return M.grid(dom, C * H * W).reshape(-1, C, H, W)


def table(m, x):
    with torch.no_grad():
        return {rows(x[i]): float(v) for i, v in enumerate(m(x).double().exp())}


def law(rec, fn, mpe=False):
    """{result: probability} of a sampling call, None if the code draws in a way the explorer does not own"""
    ex = Explorer(60000)
    out, flags = {}, {"used": True, "bad": None}

    def run(ch):
        with V.Draws(ch) as d:
            r = fn()
        if not d.used:
            flags["used"] = False
        flags["bad"] = flags["bad"] if d.bad is None else d.bad
        return rows(r)

    for res, p, trail in ex.run(run):
        out[res] = out.get(res, 0.0) + p
        if not flags["used"]:
            rec.skipped.append(f"{rec.name}: children are not drawn through sample_categorical_differentiably; the law of samples is not compared")
            return None
    rec.explored(ex)
    rec.expect(flags["bad"] is None, "unnormalised", lambda: f"the probabilities handed to the draw of a child sum to {flags['bad']}")
    return out


def density(kw, leaf, seed):
    """normalised; missing entries are summed out; rows independent; marginalized_scopes == NaN"""
    def case(rec):
        cfg, shape = V.config(leaf=leaf, **kw)
        dom = M.leaf_spec(leaf)[2]
        m = V.build(cfg, shape, seed)
        n = shape.channels * shape.height * shape.width
        x = images(dom, shape.channels, shape.height, shape.width)
        with torch.no_grad():
            ll = m(x)
        rep = {"config": descr(cfg, shape), "seed": seed}
        rec.ran()
        rec.state(len(x))
        rec.expect(tuple(ll.shape) == (len(x),), "shape", f"output of shape {tuple(ll.shape)} for {len(x)} images ({rep})", rep)
        tot = float(ll.double().exp().sum())
        rec.expect(abs(tot - 1) < 1e-3, "mass", f"probabilities sum to {tot} ({rep})", rep)
        for i in (0, len(x) // 2, len(x) - 1):
            with torch.no_grad():
                one = m(x[i:i + 1])
            rec.expect(bool(torch.allclose(one[0], ll[i], atol=1e-4)), "row", f"row {i} alone gives {one.tolist()}, in the batch {float(ll[i])} ({rep})", rep)
        if n <= 8 and len(dom) == 2:
            parts = list(itertools.product((*dom, M.NAN), repeat=n))
            e = torch.tensor(parts).reshape(-1, *x.shape[1:])
            keep = e.clone()
            with torch.no_grad():
                got = m(e)
            rec.state(len(e))
            rec.expect(torch.equal(torch.nan_to_num(e, nan=-5.0), torch.nan_to_num(keep, nan=-5.0)), "mutated", "the input was changed", rep)
            # fold the full table variable by variable: T[..., missing] = sum over the values
            T = ll.double().exp().reshape([2] * n)
            for d in range(n):
                T = torch.cat([T, T.sum(dim=d, keepdim=True)], dim=d)
            want = T.reshape(-1).log()
            bad = (got.double() - want).abs()
            i = int(bad.argmax())
            rec.expect(not bool((bad > 2e-3).any()) and not bool(torch.isnan(got).any()), "marginal", lambda: f"partial input {parts[i]}: {float(got[i])} instead of {float(want[i])} ({rep})", rep)
            lay = {"transposed": e.transpose(2, 3).contiguous().transpose(2, 3), "channels last": e.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2),
                   "sliced": torch.stack([e, e], -1)[..., 0], "[N,C,D]": e.reshape(len(e), shape.channels, -1)}
            for name, y in lay.items():
                with torch.no_grad():
                    other = m(y)
                rec.ran()
                rec.expect(other.shape == got.shape and bool(torch.allclose(other, got, atol=1e-4)), "layout", lambda: f"{name}: other log-likelihoods than those of the same images in plain layout ({rep})", rep)
            for name, y in lay.items():
                fill = m.sample(evidence=y[-3:-1], is_mpe=True)
                want = m.sample(evidence=e[-3:-1].clone(), is_mpe=True)
                rec.expect(fill.shape == y[-3:-1].shape and bool(torch.allclose(fill.reshape(want.shape), want, atol=1e-4)), "layout-mpe", lambda: f"{name}: another completion than that of the same images in plain layout ({rep})", rep)
            pix = shape.height * shape.width
            for S in M.subsets(pix):
                y = x[:: 5].clone()
                y2 = y.reshape(len(y), shape.channels, pix).clone()
                y2[:, :, list(S)] = M.NAN
                with torch.no_grad():
                    a = m(y2.reshape(y.shape))
                    b = m(y, list(S))
                rec.expect(bool(torch.allclose(a, b, atol=1e-4)), "scopes", lambda: f"marginalized_scopes={S} differs from missing entries ({rep})", rep)
        for v in ll[:40]:
            rec.outcome(hash(round(float(v), 5)))
        rec.sample(rep)
    return case


def sampler(kw, seed, evidence=False, calls=({},)):
    """tagged leaves: the law of a sample is the density"""
    def case(rec):
        L = kw["channels"][0]
        cfg, shape = V.config(leaf=f"cat{L}", **kw)
        m = V.tag(V.build(cfg, shape, seed))
        C, H, W = shape.channels, shape.height, shape.width
        rep = {"config": descr(cfg, shape), "seed": seed}
        x = M.grid([float(v) for v in range(L)], H * W).reshape(-1, 1, H, W).repeat(1, C, 1, 1)
        dens = table(m, x)
        got = law(rec, lambda: m.sample(1))
        if got is None:
            return
        d, at = distance(got, dens)
        for k in got:
            rec.outcome(k)
        rec.expect(d < 3e-4, "law", lambda: f"sample {at} has probability {got.get(at, 0):.5f}, density {dens.get(at, 0):.5f} ({rep})", rep)
        if evidence:
            for S in M.subsets(H * W):
                if not S:
                    continue
                for t in itertools.product(range(L), repeat=H * W - len(S)):
                    it = iter(t)
                    flat = torch.tensor([M.NAN if i in S else float(next(it)) for i in range(H * W)])
                    e = flat.reshape(1, 1, H, W).repeat(1, C, 1, 1)
                    keep = e.clone()
                    got = law(rec, lambda: m.sample(evidence=e))
                    comp = [k for k in dens if all(a != a or abs(a - b) < 1e-3 for a, b in zip(keep.reshape(-1).tolist(), k))]
                    z = sum(dens[k] for k in comp)
                    want = {k: dens[k] / z for k in comp}
                    d, at = distance(got, want)
                    rp = dict(rep, evidence=flat.tolist())
                    rec.expect(d < 1e-3, "conditional", lambda: f"given {flat.tolist()}, {at} has probability {got.get(at, 0):.5f} instead of {want.get(at, 0):.5f} ({rep})", rp)
                    rec.expect(torch.equal(torch.nan_to_num(e, nan=-5.0), torch.nan_to_num(keep, nan=-5.0)), "evidence-mutated", "the evidence was changed", rp)
                    full = torch.where(torch.isnan(e), torch.tensor(0.0), e)
                    got = law(rec, lambda: m.sample(evidence=full, marginalized_scopes=list(S)))
                    d, at = distance(got, want)
                    rec.expect(d < 1e-3, "conditional-scopes", lambda: f"given {flat.tolist()} by marginalized_scopes={S}, {at} has probability {got.get(at, 0):.5f} instead of {want.get(at, 0):.5f} ({rep})", rp)
            for mod in m.modules():
                if hasattr(mod, "_is_input_cache_enabled"):  # where there is none, the conditional laws above tell
                    rec.expect(not mod._is_input_cache_enabled, "cache-left", "an input cache is left enabled after a conditional query")
        rec.sample(rep)
    return case


def noisy(kw, leaf, seed):
    """the leaf draws are enumerated, too; two rows are independent; class of calls that must not change the law"""
    def case(rec):
        cfg, shape = V.config(leaf=leaf, **kw)
        dom = M.leaf_spec(leaf)[2]
        m = V.build(cfg, shape, seed)
        rep = {"config": descr(cfg, shape), "seed": seed}
        dens = table(m, images(dom, shape.channels, shape.height, shape.width))
        got = law(rec, lambda: m.sample(1))
        if got is None:
            return
        d, at = distance(got, dens)
        rec.expect(d < 3e-4, "noisy", lambda: f"sample {at} has probability {got.get(at, 0):.5f}, density {dens.get(at, 0):.5f} ({rep})", rep)
        rec.sample(rep)
    return case


def rows_independent(kw, seed):
    def case(rec):
        cfg, shape = V.config(leaf=f"cat{kw['channels'][0]}", **kw)
        m = V.tag(V.build(cfg, shape, seed))
        H, W = shape.height, shape.width
        rep = {"config": descr(cfg, shape), "seed": seed}
        x = M.grid([float(v) for v in range(kw["channels"][0])], H * W).reshape(-1, 1, H, W)
        dens = table(m, x)
        got = law(rec, lambda: m.sample(2))
        if got is None:
            return
        want = {a + b: p * q for a, p in dens.items() for b, q in dens.items()}
        d, at = distance(got, want)
        rec.expect(d < 3e-4, "pair", lambda: f"the pair {at} has probability {got.get(at, 0):.5f} instead of {want.get(at, 0):.5f} ({rep})", rep)
        e = torch.full((2, 1, H, W), M.NAN)
        e[0, 0, 0, 0], e[1, 0, -1, -1] = 0.0, 1.0
        got = law(rec, lambda: m.sample(evidence=e))
        per = []
        for r in range(2):
            comp = {k: v for k, v in dens.items() if all(a != a or a == b for a, b in zip(e[r].reshape(-1).tolist(), k))}
            z = sum(comp.values())
            per.append({k: v / z for k, v in comp.items()})
        want = {a + b: p * q for a, p in per[0].items() for b, q in per[1].items()}
        d, at = distance(got, want)
        rec.expect(d < 1e-3, "pair-conditional", lambda: f"given two rows of evidence the pair {at} has probability {got.get(at, 0):.5f} instead of {want.get(at, 0):.5f} ({rep})", rep)
        rec.sample(rep)
    return case


def large(kw, seed, n, stride):
    """rows of large batches are drawn and completed as they would be alone"""
    def case(rec):
        cfg, shape = V.config(leaf=f"cat{kw['channels'][0]}", **kw)
        m = V.tag(V.build(cfg, shape, seed))
        H, W = shape.height, shape.width
        rep = {"config": descr(cfg, shape), "seed": seed}
        inside = lambda w: V.Draws(None, world=w)
        f = lambda: m.sample(1)
        large_batch(rec, "large", {r: f for r in range(n)}, lambda: m.sample(n), rep, stride, inside)
        cells = [float(v) for v in range(kw["channels"][0])] + [M.NAN]
        al = torch.tensor([[cells[(i * 7 + j * (i + 1)) % len(cells)] for j in range(H * W)] for i in range(7)]).reshape(7, 1, H, W)
        al[0] = M.NAN
        fs = [lambda i=i: m.sample(evidence=al[i : i + 1].clone()) for i in range(7)]
        idx = torch.arange(n) * 3 % 7
        large_batch(rec, "large-conditional", {r: fs[int(idx[r])] for r in range(n)}, lambda: m.sample(evidence=al[idx].clone()), rep, stride, inside)
        rec.sample(rep)
    return case


def seeds(kw, seed, n):
    """with a seed, too, all draws of a call are independent of one another"""
    def case(rec):
        cfg, shape = V.config(leaf=f"cat{kw['channels'][0]}", **kw)
        m = V.tag(M.randomize(V.build(cfg, shape, seed), seed, 0.0))
        rep = {"config": descr(cfg, shape), "seed": seed}
        H, W = shape.height, shape.width
        one = table(m, M.grid([float(v) for v in range(kw["channels"][0])], H * W).reshape(-1, 1, H, W))
        want = one if n == 1 else {a + b: p * q for a, p in one.items() for b, q in one.items() if p * q > 1e-9}
        least = max(want.values()) * 0.9
        if least > 0.03:
            seeds_reach(rec, "seed argument", lambda s: m.sample(n, seed=s), want, rep, least=least)
        e = torch.full((2, 1, H, W), M.NAN)
        e[0, 0, :, 0], e[1, 0, 0] = 0.0, 1.0
        laws = []
        for r in range(2):
            comp = {k: v for k, v in one.items() if all(a != a or a == b for a, b in zip(e[r].reshape(-1).tolist(), k))}
            z = sum(comp.values())
            laws.append({k: v / z for k, v in comp.items()})
        want = {a + b: p * q for a, p in laws[0].items() for b, q in laws[1].items()}
        if max(want.values()) > 0.04:
            seeds_reach(rec, "conditional", lambda s: m.sample(evidence=e, seed=s), want, rep, least=0.04)
        rec.sample(rep)
    return case


def greedy(kw, leaf, seed):
    """MPE makes no draw and takes the most probable child everywhere; modes at the leaves; returned parameters"""
    def case(rec):
        cfg, shape = V.config(leaf=leaf, **kw)
        dom = M.leaf_spec(leaf)[2] or [-1.0, 0.5]
        m = V.build(cfg, shape, seed)
        C, H, W = shape.channels, shape.height, shape.width
        rep = {"config": descr(cfg, shape), "seed": seed}
        al = (dom[0], dom[-1], M.NAN)
        pats = list(itertools.product(al, repeat=4))
        if H * W > 4:  # every pattern of the four quadrants, shifted from row to row
            pats = [tuple(t[(2 * (i // W >= H // 2) + (i % W >= W // 2) + i // W) % 4] for i in range(H * W)) for t in pats[::2]]
        for t in [None] + pats:
            e = None if t is None else torch.tensor(t).reshape(1, 1, H, W).repeat(1, C, 1, 1)
            args = dict(num_samples=1) if e is None else dict(evidence=e)
            torch.manual_seed(4)
            before = torch.get_rng_state()
            a = m.sample(is_mpe=True, **args).detach()
            rec.ran()
            rec.state()
            rec.expect(torch.equal(before, torch.get_rng_state()) if leaf != "bin2" else True, "mpe-draws", f"MPE advances the generator ({rep})", rep)
            with V.Draws(None, pick="max") as d:
                b = m.sample(mpe_at_leaves=True, **args).detach()
            if not d.used:
                rec.skipped.append("draws are not owned")
                return
            rec.expect(a.shape == b.shape and bool(torch.allclose(a, b, atol=1e-3)), "mpe", lambda: f"MPE {a.tolist()} but greedy choices give {b.tolist()} for evidence {t} ({rep})", dict(rep, evidence=t))
            rec.outcome(rows(a))
            if e is not None:
                miss = torch.isnan(e)
                rec.expect(torch.equal(a[~miss], e[~miss]) and not bool(torch.isnan(a).any()), "mpe-evidence", f"MPE changes observed or leaves missing entries ({t}, {rep})", rep)
            if leaf in ("norm", "cat3"):
                p = m.sample(is_mpe=True, return_leaf_params=True, **args).detach()
                mode = p[..., 0] if leaf == "norm" else p.argmax(-1).float()
                full = m.sample(is_mpe=True, **args).detach()
                miss = torch.ones_like(full, dtype=torch.bool) if e is None else torch.isnan(e)
                rec.expect(mode.shape == full.shape and bool(torch.allclose(mode[miss], full[miss], atol=1e-3)), "params", lambda: f"returned parameters {p.tolist()} are not those of the leaves of {full.tolist()} ({rep})", rep)
        s = m.sample(2)
        rec.expect(tuple(s.shape) == (2, C, H, W), "shape", f"samples of shape {tuple(s.shape)} ({rep})", rep)
        torch.manual_seed(1)
        u = m.sample(3, seed=9)
        torch.manual_seed(2)
        mark = torch.get_rng_state()
        v = m.sample(3, seed=9)
        rec.expect(torch.equal(u, v), "seed", f"the same seed gives different samples ({rep})", rep)
        rec.expect(torch.equal(mark, torch.get_rng_state()), "seed-state", f"seeded sampling moves the generator ({rep})", rep)
        rec.sample(rep)
    return case


def sumconv(Co, Ci, K, H, W, seed, temp=1.0):
    """the sum convolution on its own: mixture per position, sampling with and without evidence"""
    def case(rec):
        torch.manual_seed(seed)
        layer = V.CP.SumConv(Ci, Co, K)
        M.randomize(layer, seed)
        g = torch.Generator().manual_seed(seed)
        x = torch.randn(2, Ci, H, W, generator=g)
        with torch.no_grad():
            got = layer(x)
            lw = F.log_softmax(layer.logits, dim=1)
            rep = dict(layer="SumConv", Co=Co, Ci=Ci, K=K, H=H, W=W, seed=seed)
            for n, o, h, w in itertools.product(range(2), range(Co), range(H), range(W)):
                want = torch.logsumexp(x[n, :, h, w] + lw[o, :, h % K, w % K], 0)
                rec.expect(abs(float(got[n, o, h, w] - want)) < 1e-4, "sumconv", f"node ({o},{h},{w}) gives {float(got[n, o, h, w])} instead of {float(want)} ({rep})", rep)
            for cond in (False, True) if hasattr(layer, "_enable_input_cache") and hasattr(layer, "_disable_input_cache") else (False,):
                for pat in itertools.product(range(Co), repeat=H * W) if Co**(H * W) <= 16 else [tuple((i + s) % Co for i in range(H * W)) for s in range(Co)]:
                    idx = torch.zeros(1, Co, H, W)
                    for j, o in enumerate(pat):
                        idx[0, o, j // W, j % W] = 1
                    ctx = V.CP.SamplingContext(num_samples=1, indices_out=idx, temperature_sums=temp)
                    ex = Explorer(20000)
                    seen = {}
                    if cond:
                        layer._enable_input_cache()
                        layer(x[:1])

                    def run(ch):
                        c = V.CP.SamplingContext(num_samples=1, indices_out=idx.clone(), temperature_sums=temp)
                        with V.Draws(ch) as d:
                            r = layer.sample(c).indices_out
                        return rows(r.argmax(1).float()), d.used

                    for (r, used), p, _ in ex.run(run):
                        if not used:
                            rec.skipped.append("draws are not owned")
                            return
                        seen[r] = seen.get(r, 0) + p
                    rec.explored(ex)
                    if cond:
                        layer._disable_input_cache()
                    want = {}
                    per = []
                    for j, o in enumerate(pat):
                        h, w = j // W, j % W
                        q = F.log_softmax(layer.logits[o, :, h % K, w % K] / temp, 0) + (x[0, :, h, w] if cond else 0)
                        per.append(torch.softmax(q.double(), 0).tolist())
                    for r in itertools.product(range(Ci), repeat=H * W):
                        p = 1.0
                        for j, k in enumerate(r):
                            p *= per[j][k]
                        want[tuple(float(k) for k in r)] = p
                    d, at = distance(seen, want)
                    rec.outcome(hash((cond, pat)))
                    rec.expect(d < 3e-4, "sumconv-law", lambda: f"children {at} are drawn with probability {seen.get(at, 0):.5f} instead of {want.get(at, 0):.5f} (parents {pat}, evidence {cond}, {rep})", rep)
        rec.sample(rep)
    return case


def cases(tier, seed):
    big = tier == "thorough"
    out = []
    for st, od in STRUCT:
        t = f"{st}/{od}"
        for ch, H, W, C in (((2,), 2, 2, 1), ((1,), 2, 2, 1), ((3,), 2, 2, 1), ((2,), 2, 2, 2), ((2, 3), 4, 4, 1), ((1, 2), 4, 4, 1), ((2,), 4, 4, 1), ((2,), 2, 4, 1), ((3,), 4, 2, 1)) + (
                ((2, 3), 2, 4, 1), ((2, 2), 4, 2, 1)) * (st == "bottom-up"):
            if st == "bottom-up" and len(ch) == 2 and H == W == 2:
                continue
            if len(ch) == 2 and st == "bottom-up" and (H % 2 or W % 2):
                continue
            kw = dict(channels=ch, H=H, W=W, C=C, structure=st, order=od)
            name = f"{t}/{'-'.join(map(str, ch))}/{H}x{W}x{C}"
            out.append((f"density/{name}", density(kw, "cat2", seed)))
            if H * W * C <= 4:
                out.append((f"density3/{name}", density(kw, "cat3", seed)))
                out.append((f"density-bin/{name}", density(kw, "bin1", seed)))
        for ch, H, W, C, ev in (((2,), 2, 2, 1, True), ((3,), 2, 2, 1, False), ((2,), 2, 2, 2, True), ((2, 2), 2, 4, 1, False), ((2, 3), 4, 2, 1, False), ((2,), 2, 4, 1, False), ((2, 2), 4, 4, 1, False)):
            if st == "top-down" and len(ch) == 2 and (H, W) != (4, 4):
                continue
            if od == "sum-prod" and (H, W) == (4, 4):
                continue
            if (H, W) == (4, 4) and not big and st == "bottom-up":
                continue
            for s in range(2 if H * W == 4 else 1):
                out.append((f"sample/{t}/{'-'.join(map(str, ch))}/{H}x{W}x{C}/s{s}", sampler(dict(channels=ch, H=H, W=W, C=C, structure=st, order=od), seed + s, ev)))
        out.append((f"noisy/{t}/1", noisy(dict(channels=(1,), H=2, W=2, structure=st, order=od), "cat2", seed)))
        out.append((f"noisy/{t}/2", noisy(dict(channels=(2,), H=2, W=1 if st == "bottom-up" and od == "prod-sum" else 2, structure=st, order=od, kernel=2) if big else dict(channels=(1,), H=2, W=2, C=2, structure=st, order=od), "cat2", seed)))
        for ch, H, W, n, stride in (((2,), 2, 2, 5, 1), ((2, 2), 4, 4, 3, 1), ((2,), 2, 2, 33, 1), ((2,), 2, 2, 270, 67)):
            out.append((f"large/{t}/{'-'.join(map(str, ch))}/{H}x{W}/n{n}", large(dict(channels=ch, H=H, W=W, structure=st, order=od), seed, n, stride)))
        for ch, H, W, n in (((2,), 2, 2, 1), ((2,), 2, 2, 2)):
            out.append((f"seeds/{t}/{ch[0]}/{H}x{W}/n{n}", seeds(dict(channels=ch, H=H, W=W, structure=st, order=od), seed, n)))
        out.append((f"pair/{t}", rows_independent(dict(channels=(2,), H=2, W=2, structure=st, order=od), seed)))
        for leaf in ("norm", "cat3", "bin2", "rat", "ber"):
            for ch, H, W in (((2,), 2, 2), ((2, 2), 4, 4), ((3, 2), 4, 4)):
                out.append((f"mpe/{leaf}/{t}/{'-'.join(map(str, ch))}", greedy(dict(channels=ch, H=H, W=W, C=2 if leaf == "norm" else 1, structure=st, order=od), leaf, seed)))
    for Co, Ci, K, H, W in ((2, 2, 1, 1, 2), (2, 2, 2, 2, 2), (2, 3, 2, 2, 2), (1, 3, 1, 2, 1), (3, 2, 2, 4, 2), (2, 2, 2, 2, 4)):
        for temp in (1.0, 0.5):
            out.append((f"sumconv/{Co}-{Ci}/K{K}/{H}x{W}/t{temp}", sumconv(Co, Ci, K, H, W, seed, temp)))
    return list(dict(out).items())
