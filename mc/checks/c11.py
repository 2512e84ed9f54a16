"""C11: the leaf cache is transparent.  Model: cache index -> (input, scopes, leaf parameters) stored since the last reset."""
import itertools

import torch

from .. import models as M
from .. import ops as O

LEVEL = "model_checking"
BOUNDS = "all histories of up to 4 (thorough: 5) operations over 11 operations, two cache indices, two models, three parameter versions"
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))

OPS = ("F a 0", "F b 1", "F b 0", "F e 1", "Fs a 1", "F a -", "reset", "sum weights", "leaf weights", "sample", "other F b 0")


class Spec:
    """what a user may assume: version counters for parameters and one entry per cache index"""

    def __init__(self):
        self.s = self.l = 0
        self.cache = {}

    def key(self):
        return (self.s, self.l, tuple(sorted(self.cache.items())))


def world(kw, leaf, seed, train):
    cfg = M.config(leaf=leaf, **kw)
    base = M.randomize(M.build(cfg, seed), seed)
    base.train(train)
    leafp = [n for n, p in base.named_parameters() if n.startswith("leaf") and p.requires_grad]
    sump = [n for n, p in base.named_parameters() if not n.startswith("leaf") and p.requires_grad]
    sd = {v: {n: torch.randn(p.shape, generator=torch.Generator().manual_seed(97 * v + i)) for i, (n, p) in enumerate(base.named_parameters()) if n in leafp + sump} for v in range(5)}
    with torch.no_grad():
        for n, p in base.named_parameters():
            if n in sd[0]:
                p.copy_(sd[0][n])
    a, b, e, f = O.data(cfg, leaf)
    x = {"a": a, "b": b, "e": e}
    S = [cfg.num_features - 1]

    ref_model = O.clone(base)
    memo = {}

    def ref(s, l, name, scoped):
        k = (s, l, name, scoped)
        if k not in memo:
            with torch.no_grad():
                for n, p in ref_model.named_parameters():
                    if n in sd[0]:
                        p.copy_(sd[l if n in leafp else s][n])
                memo[k] = ref_model(x[name].clone(), marginalized_scopes=S if scoped else None)
        return memo[k]

    def setp(m, names, v):
        with torch.no_grad():
            for n, p in m.named_parameters():
                if n in names:
                    p.copy_(sd[v][n])
    return cfg, base, x, S, ref, setp, leafp, sump


def mixed(ref, s, entry):
    """forward with cached leaf output of an older leaf version, current sum weights"""
    name, scoped, l = entry
    return ref(s, l, name, scoped)


def sequences(kw, leaf, seed, depth, first, train=False):
    def case(rec):
        cfg, base, x, S, ref, setp, leafp, sump = world(kw, leaf, seed, train)
        states = set()
        for seq in itertools.product(OPS, repeat=depth - 1):
            seq = (first,) + seq
            m, other = O.clone(base), O.clone(base)
            sp = Spec()
            for i, op in enumerate(seq):
                w = op.split()
                got = want = None
                with torch.no_grad():
                    if w[0] in ("F", "Fs"):
                        idx = None if w[2] == "-" else int(w[2])
                        sc = S if w[0] == "Fs" else None
                        xin = x[w[1]].clone()
                        got = m(xin, marginalized_scopes=sc, cache_index=idx)
                        if idx is not None and idx not in sp.cache:
                            sp.cache[idx] = (w[1], sc is not None, sp.l)
                        entry = sp.cache[idx] if idx is not None else (w[1], sc is not None, sp.l)
                        want = mixed(ref, sp.s, entry)
                        xin.fill_(0.5)  # the caller may reuse its tensor
                    elif op == "reset":
                        m.reset_cache()
                        sp.cache = {}
                    elif op == "sum weights":
                        sp.s += 1
                        setp(m, sump, sp.s)
                    elif op == "leaf weights":
                        sp.l += 1
                        setp(m, leafp, sp.l)
                    elif op == "sample":
                        m.sample(evidence=x["e"].clone(), seed=1)
                    elif op == "other F b 0":
                        got = other(x["b"].clone(), cache_index=0)
                        want = ref(0, 0, "b", False)
                rec.ran()
                rec.transitions += 1
                if got is not None:
                    ok = got.shape == want.shape and bool(((got - want).abs() < 1e-5).all())
                    if not rec.expect(ok, "cache", lambda: f"history {seq[: i + 1]}: forward gives {got.tolist()}, expected {want.tolist()} ({M.describe(cfg)})",
                                      {"config": M.describe(cfg), "seed": seed, "history": seq[: i + 1]}):
                        break
                states.add(sp.key())
            rec.outcome(hash(seq))
        rec.states += len(states)
        rec.sample({"config": M.describe(cfg), "first": first, "specification states": len(states)})
    return case


def trained(kw, leaf, seed):
    """cached and uncached forward give the same gradients for the sum weights, repeatedly; training mode without dropout"""
    def case(rec):
        cfg, base, x, S, ref, setp, leafp, sump = world(kw, leaf, seed, True)
        m = O.clone(base)
        for rep in range(3):
            for name, idx in (("a", 0), ("e", 1)):
                m.zero_grad()
                m(x[name].clone()).sum().backward()
                want = {n: p.grad.clone() for n, p in m.named_parameters() if n in sump}
                m.reset_cache()
                for k in range(2):
                    m.zero_grad()
                    with torch.no_grad():
                        for n, p in m.named_parameters():
                            if n in leafp:
                                p.requires_grad_(False)
                    m(x[name].clone(), cache_index=idx).sum().backward()
                    for n, p in m.named_parameters():
                        if n in sump:
                            rec.expect(bool(((p.grad - want[n]).abs() < 1e-5).all()), "gradient", lambda: f"gradient of {n} differs with the cache ({M.describe(cfg)})")
                    rec.ran()
                    rec.state()
                for n, p in m.named_parameters():
                    if n in leafp:
                        p.requires_grad_(True)
    return case


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for st, la in ARCH:
        for leaf, D, C, depth, R, K in (("norm", 4, 1, 1, 2, 2), ("cat2", 3, 1, 1, 1, 1), ("bin2", 2, 2, 0, 2, 1)):
            kw = dict(structure=st, layer=la, D=D, C=C, depth=depth, R=R, K=K, S=2, L=2)
            d = 4 if (leaf == "norm" and la in ("linsum", "einsum")) else 3
            for op in OPS:
                out.append((f"{leaf}/{st}/{la}/R{R}K{K}/{op}", sequences(kw, leaf, seed, d + (1 if big else 0), op)))
            out.append((f"train/{leaf}/{st}/{la}/R{R}K{K}", trained(kw, leaf, seed)))
    return out
