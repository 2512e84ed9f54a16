"""Exact distribution of a sampler, by enumerating every answer of its random draws."""
import torch

from .explore import Explorer, World


def rows(t):
    """Result tensor -> hashable tuple of (rounded) numbers."""
    return tuple(round(float(v), 4) for v in t.detach().reshape(-1).double())


def exact(fn, cap=200000, observe=rows, eps=(0.0,), uniform=(0.5,), horizon=5000):
    """fn() is run under every combination of draws; -> {observed: probability}, explorer"""
    ex = Explorer(cap, horizon)
    out = {}

    def run(ch):
        with World(ch, eps=eps, uniform=uniform):
            return observe(fn())

    for res, p, trail in ex.run(run):
        out[res] = out.get(res, 0.0) + p
    return out, ex


def density(model, domain_x, combine=None):
    """{value tuple: probability} from forward over all rows of domain_x ([M, C, D]); combine: [M, K] -> [M] log"""
    with torch.no_grad():
        ll = model(domain_x).double()
    ll = combine(ll) if combine is not None else ll[:, 0]
    return {rows(domain_x[i]): float(ll[i].exp()) for i in range(len(domain_x))}


def uniform_mixture(ll):
    return torch.logsumexp(ll, dim=1) - torch.log(torch.tensor(float(ll.shape[1]), dtype=ll.dtype))


def distance(p, q):
    """largest absolute difference and where"""
    worst, at = 0.0, None
    for k in set(p) | set(q):
        d = abs(p.get(k, 0.0) - q.get(k, 0.0))
        if not d <= worst:  # NaN counts as a difference
            worst, at = d, k
    return worst, at


class _Deviate(World):
    """every draw takes its most probable outcome, except cell `target`, which takes its alternative number `alt`"""

    def __init__(self, target=None, alt=0):
        super().__init__()
        self.target, self.alt, self.cell = target, alt, 0
        self.options = []  # per cell: number of alternatives
        self.prob = None

    def _pick(self, options, probs, label):
        live = [(o, p) for o, p in zip(options, probs) if p > 1e-9]
        best = max(range(len(live)), key=lambda i: (live[i][1], -i))
        rest = live[:best] + live[best + 1 :]
        self.options.append(len(rest))
        self.cell += 1
        if self.target == self.cell - 1:
            self.prob = rest[self.alt][1]
            return rest[self.alt][0]
        return live[best][0]


def deviations(fn, stride=1, inside=lambda w: w):
    """fn() -> [rows, ...].  The result with every draw at its most probable outcome, and the results of every run in which one
    single cell of one draw takes another outcome: base, [(probability of that outcome, result)].  Executions: len + 1.
    inside(world): the context to run in, if it takes more than the world itself."""
    w = _Deviate()
    with inside(w):
        base = fn()
    out = []
    for c, n in list(enumerate(w.options))[::stride]:
        for a in range(n):
            v = _Deviate(c, a)
            with inside(v):
                out.append((fn(), v.prob))
    return base, [(p, r) for r, p in out]


def large_batch(rec, what, single, batch, replay, stride=1, inside=lambda w: w):
    """batch() draws many rows; single: {row number: function drawing that row alone}.  Each row must be as if it were drawn alone:
    the same most probable sample, the same alternatives with the same probabilities, and no draw may decide more than one row."""
    alone, seen = {}, {}
    for r, f in single.items():
        key = f
        if key not in seen:
            b, dev = deviations(f, 1, inside)
            seen[key] = (rows(b[0]), sorted((round(p, 5), rows(x[0])) for p, x in dev if rows(x[0]) != rows(b[0])))
            rec.ran(len(dev) + 1)
        alone[r] = seen[key]
    base, dev = deviations(batch, stride, inside)
    rec.ran(len(dev) + 1)
    rec.state(len(dev) + 1)
    rec.expect(len(base) == len(single), what + ":shape", lambda: f"{len(base)} rows instead of {len(single)}", replay)
    keys = [rows(v) for v in base]
    for r in single:
        if not rec.expect(keys[r] == alone[r][0], what + ":row", lambda: f"with every draw at its most probable outcome, row {r} of {len(keys)} is {keys[r]}, alone it is {alone[r][0]}", dict(replay, row=r, rows=len(keys))):
            return
    got = {r: [] for r in single}
    for p, x in dev:
        diff = [r for r in single if rows(x[r]) != keys[r]] if not torch.equal(x, base) else []
        if not rec.expect(len(diff) <= 1, what + ":shared", lambda: f"one cell of one draw decides rows {diff[:4]} of {len(keys)}", dict(replay, rows=len(keys))):
            return
        for r in diff:
            got[r].append((round(p, 5), rows(x[r])))
            rec.outcome(rows(x[r]))
    for r in single:
        a, b = sorted(got[r]), alone[r][1]
        if stride == 1:
            ok = len(a) == len(b) and all(abs(u[0] - v[0]) < 2e-4 and u[1] == v[1] for u, v in zip(sorted(a, key=lambda t: t[::-1]), sorted(b, key=lambda t: t[::-1])))
        else:
            ok = all(any(abs(u[0] - v[0]) < 2e-4 and u[1] == v[1] for v in b) for u in a)
        if not rec.expect(ok, what + ":law", lambda: f"the alternatives of row {r} of {len(keys)} are {a}, alone they are {b}", dict(replay, row=r, rows=len(keys))):
            return


def seeds_reach(rec, what, call, want, replay, seeds=range(600), least=0.04):
    """call(seed) runs on the real generator.  Over all given seeds every result of probability >= least must occur (a sampler
    whose draws depend on one another when a seed is given misses some), and none of probability 0."""
    seen = {}
    for s in seeds:
        seen.setdefault(rows(call(s)), s)
        rec.ran()
    rec.state(len(seen))
    for k in seen:
        rec.outcome(k)
    missed = [k for k, p in want.items() if p >= least and k not in seen]
    rec.expect(not missed, what + ":seeds", lambda: f"no seed of {len(seeds)} gives {missed[0]}, which has probability {want[missed[0]]:.4f}", replay)
    extra = [k for k in seen if want.get(k, 0.0) < 1e-9]
    rec.expect(not extra, what + ":seeds", lambda: f"seed {seen[extra[0]]} gives {extra[0]}, which has probability {want.get(extra[0], 0.0):.2g}", replay)
