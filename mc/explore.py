"""The stateless explorer.

`Explorer(fn)` runs fn(chooser) again and again, depth first, until every combination of answers to
chooser.choose(...) has been taken (or a cap is hit, which is reported).  Every run executes the real
code from the start; a node of the choice tree is a state, an edge (an answer taken) is a transition.

`World(chooser)` owns the randomness of the code under test: inside it each draw torch or numpy makes
becomes an explicit choice among the outcomes of that draw, carrying the outcome's probability.  Summing
path probabilities per observed result gives the *exact* distribution of a sampler.
A draw that is not intercepted changes the generator state and is reported as an error of the check.
"""
import math

import numpy as np
import torch


class HarnessError(Exception):
    """The check, not the code under test, is at fault."""


class Unmodelled(HarnessError):
    pass


class Horizon(Exception):
    """More choice points than the declared horizon: the code keeps drawing (livelock)."""


class Chooser:
    def __init__(self, prefix=(), horizon=100000):
        self.prefix = list(prefix)
        self.trail = []  # [(chosen position, number of options, label, prob)]
        self.prob = 1.0
        self.horizon = horizon

    def choose(self, options, probs=None, label=""):
        """options: list of outcomes; probs: matching probabilities (or None for plain nondeterminism)."""
        if probs is not None:
            live = [(o, p) for o, p in zip(options, probs) if p > 1e-12]
        else:
            live = [(o, None) for o in options]
        if not live:
            raise HarnessError(f"no outcome has positive probability at {label}")
        if len(live) == 1:
            return live[0][0]
        i = len(self.trail)
        if i >= self.horizon:
            raise Horizon(f"{i} choice points")
        if i < len(self.prefix):
            pos, n = self.prefix[i]
            if n != len(live):
                raise HarnessError(f"replay diverged at choice {i} ({label}): {n} options recorded, {len(live)} now")
        else:
            pos = 0
        o, p = live[pos]
        self.trail.append((pos, len(live), label, p))
        if p is not None:
            self.prob *= p
        return o


class Explorer:
    def __init__(self, cap=10**9, horizon=100000):
        self.cap = cap
        self.horizon = horizon
        self.executions = 0
        self.states = 0
        self.transitions = 0
        self.capped = False
        self.max_depth = 0

    def run(self, fn):
        """Yield (result, prob, trail) for every execution of fn(chooser)."""
        prefix = []
        while True:
            if self.executions >= self.cap:
                self.capped = True
                return
            ch = Chooser(prefix, self.horizon)
            res = fn(ch)
            self.executions += 1
            new = len(ch.trail) - max(len(prefix) - 1, 0)
            self.states += max(new, 0) + (1 if self.executions == 1 else 0)
            self.transitions += max(new, 0)
            self.max_depth = max(self.max_depth, len(ch.trail))
            yield res, ch.prob, [(t[0], t[1]) for t in ch.trail]
            # next prefix in depth-first order
            t = ch.trail
            i = len(t) - 1
            while i >= 0 and t[i][0] + 1 >= t[i][1]:
                i -= 1
            if i < 0:
                return
            prefix = [(x[0], x[1]) for x in t[:i]] + [(t[i][0] + 1, t[i][1])]


_ORIG = {
    "multinomial": torch.multinomial,
    "bernoulli": torch.bernoulli,
    "binomial": torch.binomial,
    "normal": torch.normal,
    "randn": torch.randn,
    "rand": torch.rand,
    "rand_like": torch.rand_like,
    "randn_like": torch.randn_like,
    "randint": torch.randint,
    "randperm": torch.randperm,
}
_ORIG_T = {n: getattr(torch.Tensor, n) for n in (
    "bernoulli_", "bernoulli", "uniform_", "normal_", "exponential_", "random_", "multinomial")}
_ORIG_NP = {n: getattr(np.random, n) for n in ("shuffle", "permutation", "randn", "rand", "choice", "randint")}


class World:
    """Context manager: every random draw becomes a choice of `chooser`.

    eps:     the standard-normal answers offered for each draw (default: only 0, i.e. "the mean"); these
             carry no probability, they are an alphabet of environment answers.
    uniform: the answers offered for each uniform draw, likewise.
    pick:    None to enumerate, "max" to answer every discrete draw with its most probable outcome
             (first one on ties) -- the deterministic run MPE is compared with.
    real:    names of draws that are left to the real generator (parameter initialisation)
    """

    grid = None  # [(answer, probability)] for uniform draws, in place of `uniform`

    def __init__(self, chooser=None, eps=(0.0,), uniform=(0.5,), pick=None, real=(), joint_eps=False, log=None, tie=None):
        self.ch = chooser
        self.eps = list(eps)
        self.uniform = list(uniform)
        self.pick = pick
        self.real = set(real)
        self.joint_eps = joint_eps  # one choice for the whole tensor of a normal draw
        self.log = log if log is not None else []
        self.draws = 0
        # tie=n: the cells of a draw tensor with more than n cells share one answer ("every cell takes its j-th outcome");
        # such a run carries no probability.  None: every cell is answered on its own.
        self.tie = tie

    def _tied(self, cells, n):
        """shared rank of outcome for a draw of `cells` cells with n outcomes each, or None"""
        if self.tie is None or cells <= self.tie or self.pick == "max":
            return None
        self.draws += 1
        return self.ch.choose(list(range(n)), None, "tied")

    # ---- primitive choices
    def _pick(self, options, probs, label):
        self.draws += 1
        if self.pick == "max":
            m = max(probs)
            for o, p in zip(options, probs):
                if p >= m * (1 - 1e-6):
                    return o
        return self.ch.choose(options, probs, label)

    def _free(self, options, label):
        self.draws += 1
        if len(options) == 1:
            return options[0]
        if self.pick == "max":
            return options[0]
        return self.ch.choose(options, None, label)

    # ---- draws
    def multinomial(self, input, num_samples, replacement=False, *, generator=None, out=None):
        squeeze = input.dim() == 1
        p = input.detach().reshape(1, -1) if squeeze else input.detach()
        res = torch.empty(p.shape[0], num_samples, dtype=torch.long)
        if torch.isnan(p).any() or torch.isinf(p).any() or (p < 0).any():
            raise RuntimeError("probability tensor contains either `inf`, `nan` or element < 0")
        j = self._tied(p.shape[0] * num_samples, p.shape[1]) if replacement or num_samples == 1 else None
        if j is not None:
            live = p > 1e-12  # the j-th outcome of every row, counting (cyclically) those that can occur
            for r in range(p.shape[0]):
                idx = live[r].nonzero().reshape(-1)
                res[r, :] = idx[j % len(idx)]
            return res.reshape(-1) if squeeze else res
        for r in range(p.shape[0]):
            row = [float(v) for v in p[r].double()]
            for s in range(num_samples):
                tot = sum(row)
                if tot <= 0:
                    raise RuntimeError("invalid multinomial distribution (sum of probabilities <= 0)")
                k = self._pick(list(range(len(row))), [v / tot for v in row], "multinomial")
                res[r, s] = k
                if not replacement:
                    row[k] = 0.0
        self.log.append(("multinomial", tuple(input.shape)))
        return res.reshape(-1) if squeeze else res

    def _bern(self, p, shape=None):
        p = torch.as_tensor(p).detach()
        out = torch.empty(p.shape)
        flat = p.reshape(-1)
        o = out.reshape(-1)
        j = self._tied(flat.numel(), 2)
        if j is not None:
            return torch.where(p >= 1, 1.0, torch.where(p <= 0, 0.0, float(j)))
        for i in range(flat.numel()):
            q = float(flat[i])
            if not (0.0 <= q <= 1.0):
                raise RuntimeError(f"Expected p_in >= 0 && p_in <= 1 to be true, but got {q}")
            o[i] = self._pick([0.0, 1.0], [1 - q, q], "bernoulli")
        self.log.append(("bernoulli", tuple(p.shape)))
        return o.reshape(p.shape)

    def bernoulli(self, input, p=None, *, generator=None, out=None):
        r = self._bern(input if p is None else torch.full(input.shape, float(p)))
        return r.to(input.dtype)

    def binomial(self, count, prob, generator=None):
        c = count.detach().expand_as(prob).reshape(-1) if count.shape != prob.shape else count.detach().reshape(-1)
        q = prob.detach().reshape(-1)
        o = torch.empty(q.shape)
        j = self._tied(q.numel(), int(c.max()) + 1) if q.numel() else None
        if j is not None:
            v = torch.minimum(torch.full(q.shape, float(j)), c.float())
            v = torch.where(q <= 0, 0.0, torch.where(q >= 1, c.float(), v))
            return v.reshape(prob.shape).to(prob.dtype)
        for i in range(q.numel()):
            n, p = int(c[i]), min(max(float(q[i].double()), 0.0), 1.0)
            o[i] = float(self._pick(list(range(n + 1)), [math.comb(n, k) * p**k * (1 - p) ** (n - k) for k in range(n + 1)],
                                    "binomial"))
        self.log.append(("binomial", tuple(prob.shape)))
        return o.reshape(prob.shape).to(prob.dtype)

    def _eps(self, shape):
        shape = tuple(shape)
        self.log.append(("normal", shape))
        if len(self.eps) == 1:
            self.draws += 1
            return torch.full(shape, float(self.eps[0]))
        if self.joint_eps or (self.tie is not None and math.prod(shape) > self.tie):
            return torch.full(shape, float(self._free(self.eps, "normal")))
        o = torch.empty(shape)
        f = o.view(-1)
        for i in range(f.numel()):
            f[i] = float(self._free(self.eps, "normal"))
        return o

    def _uni(self, shape):
        shape = tuple(shape)
        self.log.append(("uniform", shape))
        if self.grid is not None:
            # a yes/no draw written as a comparison with a uniform one: each cell of the grid with its probability
            v, q = zip(*self.grid)
            return torch.tensor([self._pick(list(v), list(q), "uniform") for _ in range(math.prod(shape))]).reshape(shape)
        if len(self.uniform) == 1:
            self.draws += 1
            return torch.full(shape, float(self.uniform[0]))
        o = torch.empty(shape)
        f = o.view(-1)
        for i in range(f.numel()):
            f[i] = float(self._free(self.uniform, "uniform"))
        return o

    @staticmethod
    def _size(args):
        if len(args) == 1 and not isinstance(args[0], int):
            return tuple(int(a) for a in args[0])
        return tuple(int(a) for a in args)

    def randn(self, *size, **kw):
        if "size" in kw:
            size = (kw["size"],)
        return self._eps(self._size(size)).to(kw.get("dtype") or torch.get_default_dtype())

    def rand(self, *size, **kw):
        if "size" in kw:
            size = (kw["size"],)
        return self._uni(self._size(size)).to(kw.get("dtype") or torch.get_default_dtype())

    def randn_like(self, t, **kw):
        return self._eps(t.shape).to(t.dtype)

    def rand_like(self, t, **kw):
        return self._uni(t.shape).to(t.dtype)

    def normal(self, mean=0.0, std=1.0, size=None, *, generator=None, out=None, **kw):
        if size is not None:
            return mean + std * self._eps(size)
        m = torch.as_tensor(mean, dtype=torch.get_default_dtype()) if not torch.is_tensor(mean) else mean
        s = torch.as_tensor(std, dtype=torch.get_default_dtype()) if not torch.is_tensor(std) else std
        shape = torch.broadcast_shapes(m.shape, s.shape)
        return m + s * self._eps(shape)

    def randperm(self, n=None, **kw):
        if n is None:
            n = kw["n"]
        n = int(n)
        rest = list(range(n))
        res = []
        for i in range(n):
            res.append(rest.pop(self._free(list(range(len(rest))), "randperm")))
        self.log.append(("randperm", n))
        return torch.tensor(res, dtype=torch.long)

    def randint(self, low=0, high=None, size=None, *, generator=None, out=None, **kw):
        if size is None:
            low, high, size = 0, low, high
        elif high is None:
            low, high = 0, low
        size = (size,) if isinstance(size, int) else tuple(size)
        n = int(high) - int(low)
        cells = int(math.prod(size))
        j = self._tied(cells, n)
        v = [j if j is not None else self._pick(list(range(n)), [1.0 / n] * n, "randint") for _ in range(cells)]
        self.log.append(("randint", size))
        return torch.tensor(v, dtype=kw.get("dtype") or torch.long).reshape(size) + int(low)

    def np_randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        r = self.randint(low, high, () if size is None else size)
        return int(r) if size is None else r.numpy().astype(dtype)

    def np_choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        w = [1.0 / len(a)] * len(a) if p is None else [float(v) for v in p]
        n = 1 if size is None else int(np.prod(size))
        out = []
        for _ in range(n):
            t = sum(w)
            k = self._pick(list(range(len(a))), [v / t for v in w], "choice")
            out.append(k)
            if not replace:
                w[k] = 0.0
        self.log.append(("choice", n))
        return a[out[0]] if size is None else a[np.array(out, dtype=int)].reshape((size,) if isinstance(size, (int, np.integer)) else size)

    def np_shuffle(self, a):
        rest = list(range(len(a)))
        perm = []
        seen = set()
        # equal elements are interchangeable: offer one representative per distinct value
        while rest:
            opts, vals = [], set()
            for j in range(len(rest)):
                v = repr(a[rest[j]])
                if v not in vals:
                    vals.add(v)
                    opts.append(j)
            perm.append(rest.pop(self._free(opts, "shuffle")))
        a[:] = [a[i] for i in perm] if isinstance(a, list) else a[np.array(perm, dtype=int)]
        self.log.append(("shuffle", len(a)))

    def np_permutation(self, x):
        a = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        self.np_shuffle(a)
        return a

    # ---- install
    def __enter__(self):
        w = self
        tab = {
            "multinomial": w.multinomial, "bernoulli": w.bernoulli, "binomial": w.binomial, "normal": w.normal,
            "randn": w.randn, "rand": w.rand, "rand_like": w.rand_like, "randn_like": w.randn_like,
            "randperm": w.randperm, "randint": w.randint,
        }
        for n, f in tab.items():
            if n not in w.real:
                setattr(torch, n, f)
        if "bernoulli" not in w.real:
            torch.Tensor.bernoulli_ = lambda t, p=0.5, **k: t.copy_(w._bern(torch.as_tensor(p, dtype=torch.float).expand(t.shape)))
            torch.Tensor.bernoulli = lambda t, *a, **k: w.bernoulli(t, *a)
        if "multinomial" not in w.real:
            torch.Tensor.multinomial = lambda t, *a, **k: w.multinomial(t, *a, **k)
        if "rand" not in w.real:
            def uniform_(t, a=0.0, b=1.0, **k):
                return t.copy_(a + (b - a) * w._uni(t.shape))

            def exponential_(t, lambd=1.0, **k):
                return t.copy_(-torch.log(w._uni(t.shape)) / lambd)
            torch.Tensor.uniform_ = uniform_
            torch.Tensor.exponential_ = exponential_
        if "randn" not in w.real:
            torch.Tensor.normal_ = lambda t, mean=0.0, std=1.0, **k: t.copy_(mean + std * w._eps(t.shape))
        if "shuffle" not in w.real:
            np.random.shuffle = w.np_shuffle
            np.random.permutation = w.np_permutation
            np.random.choice = w.np_choice
            np.random.randint = w.np_randint
        self._state = torch.get_rng_state().clone()
        self._np_state = np.random.get_state()[1:3]
        return self

    def __exit__(self, et, ev, tb):
        for n, f in _ORIG.items():
            setattr(torch, n, f)
        for n, f in _ORIG_T.items():
            setattr(torch.Tensor, n, f)
        for n, f in _ORIG_NP.items():
            setattr(np.random, n, f)
        if et is None and not self.real:
            if not torch.equal(self._state, torch.get_rng_state()):
                raise Unmodelled("the code drew from torch's generator through a call the explorer does not own")
            st = np.random.get_state()[1:3]
            if not (np.array_equal(st[0], self._np_state[0]) and st[1] == self._np_state[1]):
                raise Unmodelled("the code drew from numpy's generator through a call the explorer does not own")
        return False


PARAM_DRAWS = ("randn", "rand", "normal", "rand_like", "randn_like")


def distribution(fn, cap=10**9, horizon=100000):
    """Exact distribution {observed result: probability} of fn(chooser), plus the explorer's counts."""
    ex = Explorer(cap, horizon)
    out = {}
    paths = {}
    for res, p, trail in ex.run(fn):
        out[res] = out.get(res, 0.0) + p
        paths.setdefault(res, trail)
    return out, ex, paths
