"""C24: each layer is the mixture or product that its weights and shape define; index primitives; the differentiable draw."""
import itertools

import numpy as np
import torch

from ..explore import Explorer, World
from ..sampling import distance, exact, rows
from .c08 import OneRace, race_grid

from simple_einet.abstract_layers import logits_to_log_weights  # noqa: E402
from simple_einet.layers.einsum import EinsumLayer  # noqa: E402
from simple_einet.layers.linsum import LinsumLayer, LinsumLayer2  # noqa: E402
from simple_einet.layers.mixing import MixingLayer  # noqa: E402
from simple_einet.layers.product import CrossProductLayer, ProductLayer, RootProductLayer  # noqa: E402
from simple_einet.layers.sum import SumLayer  # noqa: E402
from simple_einet.sampling_utils import DiffSampleMethod, SamplingContext, index_one_hot, sample_categorical_differentiably  # noqa: E402
from simple_einet.utils import invert_permutation  # noqa: E402

import simple_einet.layers.einsum as _einsum  # noqa: E402
masked_logsumexp = getattr(_einsum, "logsumexp", None)

LEVEL = "model_checking"
BOUNDS = ("1-5 features, 1-3 sums in and out, 1-3 repetitions; all assignments of child log-likelihoods from {0, -0.5, -90, -1000, -1e5} (rows of up to 6 cells); every combination of parent and "
          "repetition indices and every answer of every draw; all permutations of up to 6 elements; differentiable draws on a full grid of uniform answers, each race of each layer on its own")
X = (0.0, -0.5, -90.0, -1000.0, -1e5)


def lse(a, axis):
    m = a.max(axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0.0)
    return np.log(np.exp(a - m).sum(axis=axis)) + m.squeeze(axis)


def lsm(a, axis):
    return a - np.expand_dims(lse(a, axis), axis)


def pairs(x):
    """left and right children; an odd last one is paired with a marginalised variable"""
    if x.shape[1] % 2:
        x = np.concatenate([x, np.zeros_like(x[:, :1])], 1)
    return x[:, 0::2], x[:, 1::2]


def ref_linsum(x, lg):
    l, r = pairs(x)
    return lse((l + r)[:, :, :, None] + lsm(lg, 1)[None], 2)


def ref_linsum2(x, lg):
    l, r = pairs(lse(x[:, :, :, None] + lsm(lg, 1)[None], 2))
    return l + r


def ref_einsum(x, lg):
    l, r = pairs(x)  # N d i r
    d, o, R, i, j = lg.shape
    w = lsm(lg.reshape(d, o, R, i * j), 3).reshape(lg.shape)
    s = l.transpose(0, 1, 3, 2)[:, :, None, :, :, None] + r.transpose(0, 1, 3, 2)[:, :, None, :, None, :] + w[None]
    return lse(s.reshape(*s.shape[:4], i * j), 4)


def ref_sum(x, lg):
    return lse(x[:, :, :, None] + lsm(lg, 1)[None], 2)


def ref_mixing(x, lg):
    return lse(x + lsm(lg, 2)[None], 3)


KINDS = {"linsum": (LinsumLayer, ref_linsum), "linsum2": (LinsumLayer2, ref_linsum2), "einsum": (EinsumLayer, ref_einsum), "sum": (SumLayer, ref_sum), "mixing": (MixingLayer, ref_mixing)}


def make(kind, D, Sin, Sout, R, seed, scale=1.5):
    torch.manual_seed(seed)
    kw = dict(num_features=D, num_sums_in=Sin, num_sums_out=Sout)
    if kind != "mixing":
        kw["num_repetitions"] = R
    m = KINDS[kind][0](**kw)
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        m.logits.copy_(torch.randn(m.logits.shape, generator=g) * scale)
    return m.eval()


def inshape(kind, D, Sin, Sout, R):
    return (D, Sout, Sin) if kind == "mixing" else (D, Sin, R)


def assignments(cells, seed):
    """all assignments of X to up to 6 cells; for more cells every pair of cells takes every pair of values"""
    if cells <= 6:
        return np.array(list(itertools.product(X, repeat=cells)))
    out = []
    rng = np.random.RandomState(seed)
    for i, j in itertools.combinations(range(cells), 2):
        for a, b in itertools.product(X, repeat=2):
            row = np.array(X)[rng.randint(len(X), size=cells)]
            row[i], row[j] = a, b
            out.append(row)
            row = np.full(cells, -0.5)
            row[i], row[j] = a, b
            out.append(row)
    return np.array(out)


def forward(kind, D, Sin, Sout, R, seed):
    def case(rec):
        sh = inshape(kind, D, Sin, Sout, R)
        rep = dict(layer=kind, D=D, sums_in=Sin, sums_out=Sout, R=R, seed=seed)
        for scale in (0.0, 1.5, 4.0, 10.0):
            m = make(kind, D, Sin, Sout, R, seed, scale)
            a = assignments(int(np.prod(sh)), seed).reshape(-1, *sh)
            x = torch.tensor(a, dtype=torch.float)
            keep = x.clone()
            want = KINDS[kind][1](a, m.logits.detach().double().numpy())
            for mode in ("eval", "train", "grad"):
                m.train(mode == "train")
                with torch.set_grad_enabled(mode == "grad"):
                    got = m(x)
                rec.ran()
                rec.state(len(x))
                rec.expect(tuple(got.shape) == want.shape, "shape", lambda: f"output of shape {tuple(got.shape)} instead of {want.shape} ({rep})", rep)
                bad = np.abs(got.detach().double().numpy() - want) > 2e-3 + 3e-6 * np.abs(want)
                bad |= ~np.isfinite(got.detach().numpy())
                i = tuple(np.argwhere(bad)[0]) if bad.any() else None
                rec.expect(i is None, "value", lambda: f"children {a[i[0]].tolist()}: node {i[1:]} has log-likelihood {got[i].item()} instead of {want[i]} ({mode}, {rep})", rep)
                rec.expect(torch.equal(x, keep), "mutated", f"the input was changed ({rep})", rep)
            for v in want.reshape(-1)[:: max(1, want.size // 50)]:
                rec.outcome(f"{v:.4f}")
        m.train()
        rec.sample(rep)
    return case


def decisions(kind, m, D, Sin, parents, r):
    """the decisions of a layer, each as {child indices: probability}, for given indices of the parents and the repetition"""
    lg = m.logits.detach().double().numpy()
    per = []
    if kind == "linsum":
        w = np.exp(lsm(lg, 1))
        for d, p in enumerate(parents):
            k = 2 if 2 * d + 1 < D else 1
            per.append({(i,) * k: w[d, i, p, r] for i in range(Sin)})
    elif kind == "linsum2":
        w = np.exp(lsm(lg, 1))
        for f in range(D):
            per.append({(i,): w[f, i, parents[f // 2], r] for i in range(Sin)})
    elif kind == "einsum":
        for d, p in enumerate(parents):
            w = np.exp(lsm(lg[d, p, r].reshape(-1), 0)).reshape(Sin, Sin)
            per.append({(i, j): w[i, j] for i in range(Sin) for j in range(Sin)})
    elif kind == "sum":
        w = np.exp(lsm(lg, 1))
        for d, p in enumerate(parents):
            per.append({(i,): w[d, i, p, r] for i in range(Sin)})
    else:
        w = np.exp(lsm(lg, 2))
        for d, p in enumerate(parents):
            per.append({(i,): w[d, p, i] for i in range(Sin)})
    return per


def law_of_children(*args):
    """{tuple of child indices: probability}"""
    out = {(): 1.0}
    for q in decisions(*args):
        out = {a + b: x * y for a, x in out.items() for b, y in q.items()}
    return out


def sampling(kind, D, Sin, Sout, R, seed):
    """for every parent, every repetition: the children follow the weights; two rows are independent; MPE takes the largest"""
    def case(rec):
        m = make(kind, D, Sin, Sout, R, seed)
        rep = dict(layer=kind, D=D, sums_in=Sin, sums_out=Sout, R=R, seed=seed)
        combos = [(p, r) for p in itertools.product(range(Sout), repeat=m.num_features_out) for r in range(R)]

        def draw(rowset, **kw):
            ctx = SamplingContext(num_samples=len(rowset), indices_out=torch.tensor([p for p, _ in rowset]).reshape(len(rowset), -1), indices_repetition=torch.tensor([r for _, r in rowset]),
                                  num_repetitions=R, **kw)
            c = m.sample(ctx=ctx)
            rec.expect(tuple(c.indices_out.shape) == (len(rowset), D), "shape", lambda: f"child indices of shape {tuple(c.indices_out.shape)} ({rep})", rep)
            rec.expect(c.indices_repetition.tolist() == [r for _, r in rowset], "repetition", lambda: f"the layer changed the repetition indices ({rep})", rep)
            return tuple(int(v) for v in c.indices_out.reshape(-1))

        laws = {c: law_of_children(kind, m, D, Sin, *c) for c in combos}
        for c in combos:
            got, ex = exact(lambda: draw([c]), observe=lambda t: t)
            rec.explored(ex)
            for k in got:
                rec.outcome((c, k))
            d, at = distance(got, laws[c])
            rec.expect(d < 1e-4, "law", lambda: f"parent {c[0]}, repetition {c[1]}: children {at} drawn with {got.get(at, 0):.5f} instead of {laws[c].get(at, 0):.5f} ({rep})", rep)
            best = draw([c], is_mpe=True)
            rec.ran()
            rec.expect(laws[c].get(best, 0) >= max(laws[c].values()) * (1 - 1e-5), "mpe", lambda: f"parent {c[0]}, repetition {c[1]}: MPE takes {best} ({rep})", rep)
        if len(laws[combos[0]]) <= 27:
            for c1, c2 in list(itertools.product(combos, repeat=2))[:: max(1, len(combos) ** 2 // 12)]:
                got, ex = exact(lambda: draw([c1, c2]), observe=lambda t: t)
                rec.explored(ex)
                want = {a + b: p * q for a, p in laws[c1].items() for b, q in laws[c2].items()}
                d, at = distance(got, want)
                rec.expect(d < 1e-4, "rows", lambda: f"parents {c1[0]}, {c2[0]}, repetitions {c1[1]}, {c2[1]}: children {at} drawn with {got.get(at, 0):.5f} instead of {want.get(at, 0):.5f} ({rep})", rep)
    return case


def racing(kind, D, Sin, Sout, R, seed):
    """differentiable draws of a layer: every race on its own, for every parent and repetition; MPE takes the largest"""
    def case(rec):
        m = make(kind, D, Sin, Sout, R, seed, 0.5)
        rep = dict(layer=kind, D=D, sums_in=Sin, sums_out=Sout, R=R, seed=seed, differentiable=True)
        combos = [(p, r) for p in itertools.product(range(Sout), repeat=m.num_features_out) for r in range(R)]
        oh = torch.nn.functional.one_hot

        def draw(rowset, **kw):
            ctx = SamplingContext(num_samples=len(rowset), indices_out=oh(torch.tensor([p for p, _ in rowset]), Sout).float(), indices_repetition=oh(torch.tensor([r for _, r in rowset]), R).float(),
                                  num_repetitions=R, is_differentiable=True, **kw)
            out = m.sample(ctx=ctx).indices_out
            rec.expect(tuple(out.shape) == (len(rowset), D, Sin) and out.requires_grad, "shape", lambda: f"child indices of shape {tuple(out.shape)} ({rep})", rep)
            out = out.detach()
            rec.expect(bool(((out.sum(-1) - 1).abs() < 1e-4).all()) and bool(((out - out.round()).abs() < 1e-4).all()), "one-hot", lambda: f"children are not one-hot: {out[0].tolist()} ({rep})", rep)
            return out.argmax(-1)

        best = draw(combos, is_mpe=True)
        rec.ran(len(combos))
        for c, b in zip(combos, best.tolist()):
            law = law_of_children(kind, m, D, Sin, *c)
            rec.outcome((c, tuple(b)))
            rec.expect(law.get(tuple(b), 0) >= max(law.values()) * (1 - 1e-4), "mpe", lambda: f"parent {c[0]}, repetition {c[1]}: differentiable MPE takes {b} ({rep})", rep)
        K = Sin ** 2 if kind == "einsum" else Sin
        if not 2 <= K <= 4:
            return
        grid = race_grid(K)
        for c in combos[:: max(1, len(combos) // 24)]:
            per = decisions(kind, m, D, Sin, *c)
            where = [0] + list(np.cumsum([len(next(iter(q))) for q in per]))
            varied = set()
            for at in range(len(per)):
                with OneRace([(0, K)] * len(per), at, grid):
                    got = draw([c] * len(grid))
                rec.ran(len(grid))
                rec.state(len(grid))
                moves = [t for t in range(len(per)) if bool((got[:, where[t]:where[t + 1]] != got[:1, where[t]:where[t + 1]]).any())]
                if not rec.expect(len(moves) == 1, "coupled", lambda: f"one race decides for the groups {moves} of parent {c[0]} ({rep})", rep):
                    continue
                varied.add(moves[0])
                sub = got[:, where[moves[0]]:where[moves[0] + 1]]
                for k, q in per[moves[0]].items():
                    f = float((sub == torch.tensor(k)).all(1).float().mean())
                    rec.expect(abs(f - q) < 0.04, "race", lambda: f"parent {c[0]}, repetition {c[1]}: children {k} of group {moves[0]} win {f:.3f} of the races, weight {q:.3f} ({rep})", rep)
            rec.expect(len(varied) == len(per), "races", lambda: f"the races decide only for the groups {sorted(varied)} ({rep})", rep)
    return case


def as_root(rec, lay, R, rep):
    """a product without parents stands for its first and only output of the only repetition"""
    for n in (1, 3):
        try:
            out = lay.sample(SamplingContext(num_samples=n))
            got = (out.indices_out.tolist(), out.indices_repetition.tolist())
        except Exception as e:
            got = None
        rec.expect(got == (([[0]] * n, [0] * n) if R == 1 else None), "product-root", lambda: f"sampling {n} without parents starts with {got} ({rep})", rep)


def products(rec):
    for D, C, R in itertools.product(range(1, 8), (1, 2, 3), (1, 2)):
        rng = np.random.RandomState(D * 100 + C * 10 + R)
        a = rng.randn(3, D, C, R)
        x = torch.tensor(a, dtype=torch.float)
        for card in range(1, D + 1):
            lay = ProductLayer(in_features=D, cardinality=card, num_repetitions=R)
            want = np.stack([a[:, i:i + card].sum(1) for i in range(0, D, card)], 1)
            got = lay(x)
            rep = dict(layer="product", D=D, C=C, R=R, cardinality=card)
            rec.ran()
            rec.state()
            rec.outcome(f"{want.sum():.5f}")
            rec.expect(tuple(got.shape) == want.shape and np.allclose(got.detach().numpy(), want, atol=1e-4), "product", lambda: f"products {got.tolist()} instead of {want.tolist()} ({rep})", rep)
            parents = list(itertools.product(range(min(C, 2)), repeat=want.shape[1]))
            reps = torch.arange(len(parents)) % R
            ctx = SamplingContext(num_samples=len(parents), indices_out=torch.tensor(parents), indices_repetition=reps.clone())
            out = lay.sample(ctx)
            got = out.indices_out.tolist()
            ok = all(row == [p[i // card] for i in range(D)] for row, p in zip(got, parents)) and torch.equal(out.indices_repetition, reps)
            as_root(rec, lay, R, rep)
            rec.state(len(parents))
            rec.expect(ok, "product-sample", lambda: f"parents {parents} gave children {got} ({rep})", rep)
        root = RootProductLayer(num_features=D, num_repetitions=R)
        rec.expect(np.allclose(root(x).numpy(), a.sum(1, keepdims=True), atol=1e-4), "root-product", f"root product of {D} features")
        ctx = SamplingContext(num_samples=C, indices_out=torch.arange(C).reshape(C, 1), indices_repetition=torch.zeros(C, dtype=torch.long))
        got = root.sample(ctx).indices_out.tolist()
        rec.expect(got == [[c] * D for c in range(C)], "root-sample", lambda: f"root product hands on {got}")
        if D > 1:
            lay = CrossProductLayer(in_features=D, in_channels=C, num_repetitions=R)
            l, r = pairs(a)
            want = (l[:, :, :, None] + r[:, :, None]).reshape(3, l.shape[1], C * C, R)
            got = lay(x)
            rec.ran()
            rec.state()
            rep = dict(layer="cross product", D=D, C=C, R=R)
            rec.expect(tuple(got.shape) == want.shape and np.allclose(got.detach().numpy(), want, atol=1e-4), "cross", lambda: f"products {got.tolist()} instead of {want.tolist()} ({rep})", rep)
            Do = want.shape[1]
            parents = list(itertools.product(range(C * C), repeat=Do))[:600]
            reps = torch.arange(len(parents)) % R
            ctx = SamplingContext(num_samples=len(parents), indices_out=torch.tensor(parents), indices_repetition=reps.clone())
            out = lay.sample(ctx)
            got = out.indices_out.tolist()
            as_root(rec, lay, R, rep)
            ok = torch.equal(out.indices_repetition, reps) and all(row == [v for q in p for v in divmod(q, C)][:D] for row, p in zip(got, parents))
            rec.state(len(parents))
            rec.expect(ok, "cross-sample", lambda: f"parents {parents[:3]} gave children {got[:3]} ({rep})", rep)


def primitives(rec):
    for n in range(1, 7):
        for p in itertools.permutations(range(n)):
            inv = invert_permutation(torch.tensor(p))
            rec.ran()
            rec.state()
            rec.outcome(p)
            rec.expect([p[int(i)] for i in inv] == list(range(n)) and [int(inv[i]) for i in p] == list(range(n)), "permutation", lambda: f"inverse of {p} is {inv.tolist()}")
    for shape in ((2,), (3,), (2, 3), (3, 1, 2), (2, 2, 3), (1, 3, 2, 2)):
        t = torch.arange(int(np.prod(shape))).float().reshape(shape) - 2.5
        for dim in range(-len(shape), len(shape)):
            n = shape[dim]
            rest = [s for i, s in enumerate(shape) if i != dim % len(shape)]
            for idx in itertools.islice(itertools.product(range(n), repeat=int(np.prod(rest, dtype=int))), 300):
                ix = torch.tensor(idx).reshape(rest)
                oh = torch.nn.functional.one_hot(ix, n).float().movedim(-1, dim % len(shape))
                got = index_one_hot(t, oh, dim)
                want = t.gather(dim, ix.unsqueeze(dim)).squeeze(dim)
                rec.ran()
                rec.state()
                rec.expect(torch.equal(got, want), "index", lambda: f"indexing {t.tolist()} with {ix.tolist()} in dimension {dim} gives {got.tolist()}")
            for other in (n + 1, n - 1):
                if other < 1 or other == 1:
                    continue
                bad = list(shape)
                bad[dim] = other
                try:
                    index_one_hot(t, torch.ones(bad), dim)
                    ok = False
                except Exception:
                    ok = True
                rec.expect(ok, "index-size", f"an index of size {other} was accepted for a dimension of size {n}")
    if masked_logsumexp is not None:
        for a in itertools.product((0.0, -1.5, -200.0, 90.0), repeat=3):
            for mask in (None, [1, 1, 1], [1, 0, 1], [2, 1, 0], [1, 1, -1]):
                w = np.array(mask if mask is not None else [1, 1, 1], dtype=float)
                top = max(a)
                tot = (np.exp(np.array(a) - top) * w).sum()
                if tot <= 1e-6:
                    continue
                want = np.log(tot) + top
                t = torch.tensor(a)
                calls = [lambda: masked_logsumexp(t, mask=None if mask is None else torch.tensor(mask)), lambda: masked_logsumexp(t[:, None].repeat(1, 2), mask=None if mask is None else torch.tensor(mask), dim=0)[1],
                         lambda: masked_logsumexp([v for v in t], mask=mask), lambda: masked_logsumexp(t.expand(3, 3), mask=mask, dim=1)[2], lambda: masked_logsumexp(t[:, None].expand(3, 3), mask=mask, dim=0)[2]]
                for i, call in enumerate(calls):
                    got = float(call())
                    rec.ran()
                    rec.state()
                    rec.expect(abs(got - want) < 1e-3 + 1e-5 * abs(want), "logsumexp", lambda: f"logsumexp of {a} with mask {mask} is {got} instead of {want} (call {i})")
    g = torch.Generator().manual_seed(1)
    for shape in ((3,), (2, 3), (2, 3, 2), (2, 1, 3, 2)):
        for dim in range(-len(shape), len(shape)):
            for T in (0.25, 1.0, 3.0):
                lg = torch.randn(shape, generator=g) * 2
                keep = lg.clone()
                got = logits_to_log_weights(lg, dim, T)
                want = lsm(lg.double().numpy() / T, dim)
                rec.ran()
                rec.state()
                rec.expect(np.allclose(got.numpy(), want, atol=1e-4) and torch.equal(lg, keep), "weights", lambda: f"log weights {got.tolist()} instead of {want.tolist()}")
                if T == 1.0:
                    rec.expect(np.allclose(logits_to_log_weights(lg, dim).numpy(), want, atol=1e-4), "weights", "default temperature is not one")


class Fed(World):
    """uniform answers are fed from a prepared tensor"""
    feed = None

    def _uni(self, shape):
        assert tuple(shape) == tuple(self.feed.shape), (shape, self.feed.shape)
        return self.feed.clone()


def race(method, k, normalised, seed):
    """winner frequencies over the full grid of uniform answers are the probabilities, along any dimension"""
    def case(rec):
        n = {2: 64, 3: 24, 4: 14}[k]
        # each alternative has its own grid, shifted a little, so that no two of them ever tie; the shifts go round
        grid = torch.cat([torch.cartesian_prod(*[(torch.arange(n) + ((i + c) % k + 1) / (k + 1)) / n for i in range(k)]) for c in range(k)])
        rng = np.random.RandomState(seed)
        for p in ([1.0 / k] * k, [0.7] + [0.3 / (k - 1)] * (k - 1), [0.05] * (k - 1) + [1 - 0.05 * (k - 1)], list(rng.dirichlet([2.0] * k))):
            lw = torch.tensor(p).log()
            if not normalised:
                lw = lw + 1.7
            for dim in (1, -1, 0):
                w = lw.expand(len(grid), k).clone()
                feed = grid.clone()
                if dim == 0:
                    w, feed = w.t().contiguous(), feed.t().contiguous()
                w.requires_grad_(True)
                arg = dict(log_weights=w) if normalised else dict(logits=w)
                fed = Fed(None)
                fed.feed = feed
                with fed:
                    out = sample_categorical_differentiably(dim=dim, is_mpe=False, hard=True, tau=1.0, method=method, **arg)
                rec.ran(len(grid))
                rec.state(len(grid))
                o = out.detach() if dim else out.detach().t()
                rec.expect(bool(((o.sum(1) - 1).abs() < 1e-4).all()) and bool(((o - o.round()).abs() < 1e-4).all()), "one-hot", lambda: f"not one-hot: {o[0].tolist()} ({method}, {p})")
                freq = o.mean(0)
                rec.outcome(f"{freq.tolist()}")
                rec.expect(bool(((freq - torch.tensor(p)).abs() < 0.035).all()), "race", lambda: f"{method}: winners {freq.tolist()} instead of {p} along dimension {dim}", {"p": p, "dim": dim})
                out.square().sum().backward()
                rec.expect(w.grad is not None and bool(torch.isfinite(w.grad).all()) and bool((w.grad != 0).any()), "gradient", lambda: f"no finite gradient ({method})")
                w.grad = None
                with World(None):
                    out = sample_categorical_differentiably(dim=dim, is_mpe=True, hard=True, tau=1.0, method=method, **arg)
                rec.expect(out.requires_grad, "mpe-gradient", lambda: f"MPE is cut off from the weights ({method})")
                if out.requires_grad:
                    out.square().sum().backward()
                    rec.expect(w.grad is not None and bool(torch.isfinite(w.grad).all()) and bool((w.grad != 0).any()), "mpe-gradient", lambda: f"no finite gradient of MPE ({method})")
                o = out.detach() if dim else out.detach().t()
                best = max(p)
                rec.ran()
                rec.expect(all(p[int(i)] > best - 1e-6 for i in o.argmax(1)) and bool(((o.max(1)[0] - 1).abs() < 1e-4).all()), "mpe", lambda: f"{method}: MPE takes {o[0].tolist()} for {p}")
        for both in (dict(), dict(logits=torch.zeros(2), log_weights=torch.zeros(2))):
            try:
                sample_categorical_differentiably(dim=0, is_mpe=True, hard=True, tau=1.0, method=method, **both)
                ok = False
            except Exception:
                ok = True
            rec.expect(ok, "either", f"accepted with {sorted(both)}")
    return case


def cases(tier, seed):
    th = tier == "thorough"
    out = [("products", products), ("primitives", primitives)]
    for kind in KINDS:
        for D, Sin, Sout, R in itertools.product((1, 2, 3, 4, 5), (1, 2, 3), (1, 2, 3), (1, 2, 3)):
            if kind == "einsum" and D % 2:
                continue
            if kind == "mixing" and R > 1 or D * max(Sin, 2) * R > 24:
                continue
            out.append((f"forward/{kind}/D{D}/S{Sin}-{Sout}/R{R}", forward(kind, D, Sin, Sout, R, seed + D)))
            n = Sin ** (D if kind != "linsum" else (D + 1) // 2)
            Do = {"sum": D, "mixing": D}.get(kind, (D + 1) // 2)
            if n * Sout ** Do * R <= (400 if not th else 6000):
                out.append((f"sample/{kind}/D{D}/S{Sin}-{Sout}/R{R}", sampling(kind, D, Sin, Sout, R, seed + D)))
        for D, Sin, Sout, R in ((1, 2, 1, 1), (2, 2, 2, 2), (3, 2, 2, 1), (3, 3, 2, 2), (5, 2, 2, 1), (4, 2, 3, 2), (5, 4, 1, 2)):
            if kind == "einsum" and D % 2 or kind == "mixing" and R > 1:
                continue
            out.append((f"races/{kind}/D{D}/S{Sin}-{Sout}/R{R}", racing(kind, D, Sin, Sout, R, seed + D)))
    for method in (DiffSampleMethod.SIMPLE, DiffSampleMethod.GUMBEL):
        for k in (2, 3, 4):
            for norm in (True, False):
                out.append((f"race/{method.value}/{k}/{'log_weights' if norm else 'logits'}", race(method, k, norm, seed)))
    return out
