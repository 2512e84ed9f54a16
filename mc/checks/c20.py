"""C20: piecewise-linear leaves estimated from data."""
import itertools

import numpy as np
import torch

from .. import models as M
from ..explore import Explorer, World
from ..sampling import distance, exact

from fast_pytorch_kmeans import KMeans  # noqa: E402  (the stand-in)
from simple_einet.dist import Domain  # noqa: E402
from simple_einet.einet import Einet, EinetConfig  # noqa: E402
from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear  # noqa: E402

LEVEL = "model_checking"
BOUNDS = ("every data set of 4 rows over domains of 3 values (three discrete domains, one continuous alphabet of 5 points), every clustering into up to 3 clusters (environment answer of k-means), "
          "smoothing 0 and 0.5; every category and 64 (or more) answers of the uniform draw when sampling; every partial assignment of small models")
FLOOR = -100.0  # the leaf reports impossible values with a very low, finite likelihood


class Clusters:
    """k-means answers with the given labels"""

    def __init__(self, labels):
        self.labels = torch.tensor(labels)

    def __enter__(self):
        KMeans.answer = lambda X, k: self.labels
        KMeans.answer_sim = lambda a, b: self.labels

    def __exit__(self, *exc):
        KMeans.answer = None
        KMeans.answer_sim = None
        return False


def fresh(data, domains, labels=None, L=1, R=1, alpha=0.0):
    """a leaf layer estimated from data [N, C, D]"""
    N, C, D = data.shape
    leaf = PiecewiseLinear(num_features=D, num_channels=C, num_leaves=L, num_repetitions=R, alpha=alpha)
    with Clusters(labels if labels is not None else [0] * N):
        leaf.initialize(data, domains)
    return leaf


def pmf(values, data, alpha):
    n = len(data)
    if n == 0:
        return [1 / len(values)] * len(values)
    c = [sum(1 for d in data if d == v) for v in values]
    return [(k + alpha) / (n + alpha * len(values)) for k in c]


def curve(data):
    """knots of the piecewise-linear approximation of numpy's automatic histogram (None: the number of bins is a close call)"""
    a = np.asarray(data, dtype=np.float64)
    edges = np.histogram_bin_edges(a, bins="auto")
    width = None
    if len(a) and np.ptp(a) > 0:
        iqr = np.subtract(*np.percentile(a, [75, 25]))
        fd, st = 2.0 * iqr * len(a) ** (-1.0 / 3.0), np.ptp(a) / (np.log2(len(a)) + 1.0)
        width = min(fd, st) if fd else st
        q = np.ptp(a) / width
        if abs(q - round(q)) < 1e-4:
            return None
    h, _ = np.histogram(a, bins=edges, density=True)
    # points on an inner edge may be counted in either bin
    for e in edges[1:-1]:
        if np.min(np.abs(a - e)) < 1e-5 * (1 + abs(e)):
            return None
    x = np.concatenate([[edges[0]], (edges[:-1] + edges[1:]) / 2, [edges[-1]]])
    y = np.concatenate([[0.0], h, [0.0]])
    return x, y / np.trapezoid(y, x) if hasattr(np, "trapezoid") else y / np.trapz(y, x)


DOMAINS = {"range0": (Domain.discrete_range(0, 2), [0.0, 1.0, 2.0]), "range3": (Domain.discrete_range(3, 5), [3.0, 4.0, 5.0]), "bins": (Domain.discrete_bins([0, 2, 5]), [0.0, 2.0, 5.0])}


def discrete(dom, L, alpha, n):
    """likelihoods are the (smoothed) relative frequencies in the leaf's cluster; uniform without data"""
    domain, values = DOMAINS[dom]

    def case(rec):
        for data in itertools.product(values, repeat=n):
            if L == 1 and list(data) != sorted(data):
                continue
            for labels in itertools.product(range(L), repeat=n):
                leaf = fresh(torch.tensor(data).reshape(n, 1, 1), [domain], labels, L=L, alpha=alpha)
                with torch.no_grad():
                    got = leaf(torch.tensor(values).reshape(-1, 1, 1), None).reshape(len(values), L)
                rec.ran()
                rec.state()
                rep = {"domain": dom, "data": data, "labels": labels, "alpha": alpha}
                w = leaf.mixture_weights.reshape(-1).tolist()
                freq = [labels.count(k) / n for k in range(L)]
                rec.expect(len(w) == L and all(abs(a - b) < 1e-5 for a, b in zip(w, freq)), "weights", lambda: f"weights of the leaves {w} instead of {freq} ({rep})", rep)
                for k in range(L):
                    want = pmf(values, [d for d, c in zip(data, labels) if c == k], alpha)
                    p = got[:, k].exp().tolist()
                    rec.outcome(tuple(round(v, 4) for v in p))
                    rec.expect(all(abs(a - b) < 1e-4 for a, b in zip(p, want)), "pmf", lambda: f"leaf {k}: probabilities {p} instead of {want} ({rep})", rep)
        rec.sample({"domain": dom, "leaves": L, "alpha": alpha, "rows": n})
    return case


ALPHA = (0.0, 0.1, 0.55, 1.0, 3.2)


def continuous(L, n, scale, shift):
    def case(rec):
        for base in itertools.combinations_with_replacement(ALPHA, n):
            data = tuple(float(np.float32(v * scale + shift)) for v in base)
            for labels in itertools.product(range(L), repeat=n):
                leaf = fresh(torch.tensor(data).reshape(n, 1, 1), [Domain.continuous_range(-1e6, 1e6)], labels, L=L)
                rep = {"data": data, "labels": labels}
                lo, hi = min(data) - 0.1 * scale - 0.6, max(data) + 0.1 * scale + 0.6
                g = torch.linspace(lo, hi, 4001)
                with torch.no_grad():
                    p = leaf(g.reshape(-1, 1, 1), None).exp().reshape(-1, L).double().numpy()
                rec.ran()
                rec.state()
                gd = g.double().numpy()
                for k in range(L):
                    mine = [d for d, c in zip(data, labels) if c == k]
                    rec.expect(bool(np.isfinite(p[:, k]).all()) and float(p[:, k].min()) >= 0, "density", f"leaf {k}: density is negative or not finite ({rep})", rep)
                    if not mine:
                        # nothing to estimate from: any density will do, wherever it lies
                        w = torch.linspace(-20.0, 20.0, 8001)
                        with torch.no_grad():
                            q = leaf(w.reshape(-1, 1, 1), None).exp().reshape(-1, L)[:, k].double().numpy()
                        rec.expect(abs(np.trapz(q, w.double().numpy()) - 1) < 5e-3, "mass", lambda: f"leaf {k} without data integrates to {np.trapz(q, w.double().numpy())} ({rep})", rep)
                        continue
                    mass = np.trapz(p[:, k], gd)
                    rec.expect(abs(mass - 1) < 1e-2, "mass", lambda: f"leaf {k} integrates to {mass} ({rep})", rep)
                    c = curve(mine)
                    if c is None:
                        continue
                    want = np.interp(gd, c[0], c[1], left=0, right=0)
                    # away from the ends, where a grid point may fall on either side of the support
                    err = np.abs(p[:, k] - want).max() / max(want.max(), 1e-9)
                    rec.outcome(round(float(want.max()), 3))
                    rec.expect(err < 5e-3, "histogram", lambda: f"leaf {k}: density differs from the interpolated histogram by {err:.3f} of its maximum ({rep})", rep)
        rec.sample({"leaves": L, "rows": n, "scale": scale, "shift": shift})
    return case


def context(n, **kw):
    from simple_einet.sampling_utils import SamplingContext
    return SamplingContext(num_samples=n, indices_repetition=torch.zeros(n, dtype=torch.long), num_repetitions=1, **kw)


def law_discrete(dom, alpha):
    domain, values = DOMAINS[dom]

    def case(rec):
        for data in itertools.combinations_with_replacement(values, 4):
            leaf = fresh(torch.tensor(data).reshape(4, 1, 1), [domain], alpha=alpha)
            with torch.no_grad():
                want = {(v,): p for v, p in zip(values, leaf(torch.tensor(values).reshape(-1, 1, 1), None).reshape(-1).exp().tolist()) if p > 1e-9}
            got, ex = exact(lambda: leaf.sample(context(1)))
            rec.explored(ex)
            d, at = distance({tuple(np.ravel(k)): p for k, p in got.items()}, want)
            rep = {"domain": dom, "data": data, "alpha": alpha}
            rec.expect(d < 1e-4, "law", lambda: f"samples follow {got} instead of {want} ({rep})", rep)
            m = leaf.sample(context(2, is_mpe=True)).reshape(-1).tolist()
            best = max(want.values())
            rec.expect(len(m) == 2 and m[0] == m[1] and want.get((m[0],), 0) > best - 1e-5, "mode", lambda: f"mode {m}, probabilities {want} ({rep})", rep)
        rec.sample({"domain": dom, "alpha": alpha})
    return case


def law_continuous(scale, shift, steps):
    """the answers of the uniform draw, pushed through the sampler, have the leaf's distribution function"""
    def case(rec):
        for base in itertools.combinations_with_replacement(ALPHA, 4):
            data = [float(v * scale + shift) for v in base]
            leaf = fresh(torch.tensor(data).reshape(4, 1, 1), [Domain.continuous_range(-1e6, 1e6)])
            answers = [(i + 0.5) / steps for i in range(steps)]
            ex = Explorer(20 * steps)
            got = []

            def run(ch):
                with World(ch, uniform=answers):
                    return float(leaf.sample(context(1)).reshape(()))
            for v, _, _ in ex.run(run):
                got.append(v)
            rec.explored(ex)
            rep = {"data": data}
            lo, hi = min(data) - 0.1 * scale - 0.6, max(data) + 0.1 * scale + 0.6
            g = torch.linspace(lo, hi, 4001)
            with torch.no_grad():
                p = leaf(g.reshape(-1, 1, 1), None).exp().reshape(-1).double().numpy()
            gd = g.double().numpy()
            F = np.concatenate([[0.0], np.cumsum((p[1:] + p[:-1]) / 2 * np.diff(gd))])
            F /= F[-1]
            got = np.sort(np.array(got))
            rec.expect(bool(np.isfinite(got).all()) and got[0] >= lo and got[-1] <= hi, "support", lambda: f"samples between {got[0]} and {got[-1]} ({rep})", rep)
            at = np.interp(got, gd, F)
            emp = (np.arange(len(got)) + 0.5) / len(got)
            err = float(np.abs(at - emp).max())
            rec.outcome(round(err, 4))
            rec.expect(err < 2.0 / steps, "law", lambda: f"distribution function of the samples is off by {err:.3f} at {got[np.abs(at - emp).argmax()]:.3f} ({rep})", rep)
            m = float(leaf.sample(context(1, is_mpe=True)).reshape(()))
            with torch.no_grad():
                top = float(leaf(torch.tensor([[[m]]]), None).exp())
            rec.expect(top >= p.max() * (1 - 1e-3), "mode", lambda: f"mode {m} has density {top}, the maximum is {p.max()} ({rep})", rep)
        rec.sample({"scale": scale, "shift": shift, "answers": steps})
    return case


def several(order):
    """every feature and channel of a layer is estimated from its own data, with its own domain"""
    def case(rec):
        doms = [(Domain.discrete_range(0, 2), [0.0, 1.0, 2.0]), (Domain.discrete_bins([1, 4]), [1.0, 4.0]), (Domain.continuous_range(0, 5), None)]
        doms = [doms[i] for i in order]
        C, N = 2, 4
        for pick in itertools.product(range(3), repeat=3):
            data = torch.empty(N, C, 3)
            for f, (d, vals) in enumerate(doms):
                for c in range(C):
                    for i in range(N):
                        src = vals if vals is not None else [0.3, 1.7, 2.9, 4.4]
                        data[i, c, f] = src[(i * (c + 1) + pick[f] * (i // 2 + c)) % len(src)]
            for labels in ((0, 0, 1, 1), (0, 1, 0, 1), (1, 1, 1, 0)):
                leaf = fresh(data, [d for d, _ in doms], labels, L=2, R=2)
                rep = {"order": order, "data": data.tolist(), "labels": labels}
                for f, (d, vals) in enumerate(doms):
                    pts = vals if vals is not None else [0.3, 1.0, 1.9, 2.6, 4.0]
                    for c in range(C):
                        x = torch.zeros(len(pts), C, 3)
                        for g, (_, v2) in enumerate(doms):
                            x[:, :, g] = v2[0] if v2 is not None else 1.0
                        x[:, c, f] = torch.tensor(pts)
                        with torch.no_grad():
                            got = leaf(x, None)[:, c, f].exp()
                        rec.ran()
                        rec.state()
                        for k in range(2):
                            mine = torch.tensor([data[i, c, f].item() for i in range(N) if labels[i] == k]).reshape(-1, 1, 1)
                            with torch.no_grad():
                                want = fresh(mine, [d])(torch.tensor(pts).reshape(-1, 1, 1), None).exp().reshape(-1)
                            for r in range(2):
                                rec.outcome(tuple(round(v, 3) for v in got[:, k, r].tolist()))
                                rec.expect(bool(torch.allclose(got[:, k, r], want, atol=1e-4)), "own-data",
                                           lambda: f"feature {f}, channel {c}, leaf {k}, repetition {r}: {got[:, k, r].tolist()} instead of {want.tolist()} ({rep})", rep)
        rec.sample({"order": order})
    return case


def inside(R, K, structure, layer, depth):
    """a model with piecewise-linear leaves: normalised, sums out missing values, samples from its density"""
    def case(rec):
        domain, values = DOMAINS["bins"]
        D = 2
        torch.manual_seed(1)
        np.random.seed(1)
        for labels in ((0, 0, 1, 1), (0, 1, 1, 1), (0, 0, 0, 0)):
            m = Einet(EinetConfig(num_features=D, num_channels=1, num_sums=2, num_leaves=2, num_repetitions=R, num_classes=K, depth=depth, leaf_type=PiecewiseLinear,
                                  leaf_kwargs={"alpha": 0.3}, layer_type=layer, structure=structure)).eval()
            M.randomize(m, 3)
            data = torch.tensor([[0.0, 5.0], [2.0, 5.0], [0.0, 0.0], [5.0, 2.0]]).reshape(4, 1, 2)
            with Clusters(labels):
                M.leaf_modules(m, PiecewiseLinear)[0].initialize(data, [domain, domain])
            rep = {"R": R, "K": K, "structure": structure, "layer": layer, "labels": labels}
            xs = M.grid(values, D)
            with torch.no_grad():
                p = m(xs).exp()
                tot = p.sum(0)
                rec.expect(bool(torch.allclose(tot, torch.ones(K), atol=1e-4)), "model-mass", lambda: f"the probabilities sum to {tot.tolist()} ({rep})", rep)
                for part in itertools.product(values + [M.NAN], repeat=D):
                    e = torch.tensor([part])
                    hit = [i for i in range(len(xs)) if all(a != a or a == b for a, b in zip(part, xs[i].tolist()))]
                    want = p[hit].sum(0)
                    rec.ran()
                    rec.state()
                    rec.expect(bool(torch.allclose(m(e).exp()[0], want, atol=1e-4)), "model-marginal", lambda: f"P{part} = {m(e).exp()[0].tolist()} instead of {want.tolist()} ({rep})", rep)
            dens = {tuple(x): float(q) for x, q in zip(xs.tolist(), p.mean(1).tolist())}
            if R > 1 or depth > 1:
                continue
            for e in ([M.NAN, 5.0], [0.0, M.NAN]):
                t = torch.tensor([[e]])
                got, ex = exact(lambda: m.sample(evidence=t))
                rec.explored(ex)
                sel = {k: v for k, v in dens.items() if all(a != a or a == b for a, b in zip(e, k))}
                z = sum(sel.values())
                d, at = distance({tuple(np.ravel(k)): v for k, v in got.items()}, {k: v / z for k, v in sel.items()})
                rec.expect(d < 1e-3, "model-conditional", lambda: f"given {e}: {got} instead of {sel} ({rep})", rep)
        rec.sample({"R": R, "K": K, "structure": structure})
    return case


def histogram(n, scale):
    """the automatic bins are numpy's"""
    def case(rec):
        from simple_einet.histogram import _get_bin_edges_torch
        pts = (0.0, 0.1, 0.37, 0.5, 1.0, 2.9, 7.0)
        for base in itertools.combinations_with_replacement(pts, n):
            a = np.array([v * scale for v in base], dtype=np.float32)
            edges = _get_bin_edges_torch(torch.from_numpy(a).reshape(-1, 1))[0].double().numpy()
            want = np.histogram_bin_edges(a.astype(np.float64), bins="auto")
            rec.ran()
            rec.state()
            rec.outcome(len(want))
            rep = {"data": a.tolist()}
            if len(edges) != len(want):
                b = a.astype(np.float64)
                iqr = np.subtract(*np.percentile(b, [75, 25]))
                fd, st = 2.0 * iqr * n ** (-1.0 / 3.0), np.ptp(b) / (np.log2(n) + 1.0)
                q = np.ptp(b) / (min(fd, st) if fd else st)
                rec.expect(abs(q - round(q)) < 1e-4 and abs(len(edges) - len(want)) == 1, "bins", f"{len(edges) - 1} bins instead of {len(want) - 1} ({rep})", rep)
            else:
                rec.expect(bool(np.allclose(edges, want, atol=1e-5 * max(1, scale))), "edges", lambda: f"edges {edges.tolist()} instead of {want.tolist()} ({rep})", rep)
        rec.sample({"rows": n, "scale": scale})
    return case


def lifecycle(rec):
    """a leaf that has not been estimated says so, before the first and after every reset"""
    domain, values = DOMAINS["range0"]
    x = torch.zeros(2, 1, 1)
    leaf = PiecewiseLinear(num_features=1, num_channels=1, num_leaves=1, num_repetitions=1)
    data = torch.tensor([0.0, 0.0, 1.0, 2.0]).reshape(4, 1, 1)
    for ops in itertools.product(("init", "reset", "forward", "sample"), repeat=4):
        leaf = PiecewiseLinear(num_features=1, num_channels=1, num_leaves=1, num_repetitions=1)
        ready = False
        for op in ops:
            rec.ran()
            rec.state()
            try:
                if op == "init":
                    with Clusters([0] * 4):
                        leaf.initialize(data, [domain])
                    ready = True
                elif op == "reset":
                    leaf.reset()
                    ready = False
                elif op == "forward":
                    v = leaf(x, None).exp().reshape(-1).tolist()
                    rec.expect(ready and all(abs(a - 0.5) < 1e-5 for a in v), "state", f"{ops}: likelihood {v}")
                else:
                    leaf.sample(context(1))
                    rec.expect(ready, "state", f"{ops}: samples without having been estimated")
            except ValueError:
                rec.expect(not ready, "state", f"{ops}: {op} fails on an estimated leaf")
            rec.outcome((op, ready))


def cases(tier, seed):
    big = tier == "thorough"
    out = [("lifecycle", lifecycle)]
    for dom in DOMAINS:
        for alpha in (0.0, 0.5):
            out.append((f"discrete/{dom}/one/a{alpha}", discrete(dom, 1, alpha, 5 if big else 4)))
            out.append((f"discrete/{dom}/two/a{alpha}", discrete(dom, 2, alpha, 4 if big else 3)))
            if big or dom == "bins":
                out.append((f"discrete/{dom}/three/a{alpha}", discrete(dom, 3, alpha, 3)))
            out.append((f"law/{dom}/a{alpha}", law_discrete(dom, alpha)))
    for scale, shift in ((1.0, 0.0), (1.0, -2.0), (25.0, 100.0), (0.1, 0.0)):
        out.append((f"continuous/one/{scale},{shift}", continuous(1, 5 if big else 4, scale, shift)))
        out.append((f"continuous/two/{scale},{shift}", continuous(2, 4 if big else 3, scale, shift)))
        out.append((f"law/continuous/{scale},{shift}", law_continuous(scale, shift, 256 if big else 64)))
    for order in itertools.permutations(range(3)):
        out.append((f"several/{order}", several(order)))
    for R, K, st, la, de in itertools.product((1, 2), (1, 2), ("top-down", "bottom-up"), ("linsum", "einsum"), (1,)):
        if st == "bottom-up" and la == "einsum":
            continue
        out.append((f"model/R{R}K{K}/{st}/{la}", inside(R, K, st, la, de)))
    for n in (1, 2, 3, 4, 5):
        for scale in (1.0, 100.0):
            out.append((f"histogram/{n}/{scale}", histogram(n, scale)))
    return out
