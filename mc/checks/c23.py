"""C23: a model that is saved and loaded, copied or pickled is the same model."""
import copy
import io
import itertools
import pickle

import numpy as np
import torch

from .. import conv as V
from .. import models as M
from ..explore import Explorer
from ..sampling import rows

from simple_einet.einet import Einet, EinetConfig  # noqa: E402
from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer  # noqa: E402
from simple_einet.mixture import Mixture  # noqa: E402

LEVEL = "model_checking"
BOUNDS = ("every random structure of the saved and of the loading model (D<=3 exhaustively, sampled seeds up to D=6), all leaf families, layer types, structures, 1-3 repetitions, 1-2 classes; "
          "every sequence of 4 operations from {load A, load B, deep copy, pickle, query, train step}")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))
LEAVES = ("cat3", "bin2", "ber", "norm", "rat", "mvn2", "multi")


def einet(leaf, kw, seed, ch=None):
    if leaf == "multi":
        D = kw["D"]
        cfg = EinetConfig(num_features=D, num_channels=kw.get("C", 1), num_sums=kw["S"], num_leaves=kw["L"], num_repetitions=kw["R"], num_classes=kw["K"], depth=kw["depth"],
                          dropout=0.0, leaf_type=MultiDistributionLayer, leaf_kwargs={"scopes_to_dist": [([D - 1], M.Normal, {}), (list(range(D - 1)), M.Binomial, {"total_count": 2})]},
                          layer_type=kw["layer"], structure=kw["structure"])
    else:
        cfg = M.config(leaf=leaf, **kw)
    return M.randomize(M.build(cfg, seed, ch), seed)


def values(m, leaf):
    C, D = m.config.num_channels, m.config.num_features
    g = torch.Generator().manual_seed(7)
    x = torch.randint(0, 2, (6, C, D), generator=g).float()
    if leaf in ("norm", "rat", "mvn2"):
        x = x * 1.3 - 0.4
    return x


def fingerprint(m, x, mvn=False, full=True):
    """everything a user can ask of a model"""
    out = []
    was = m.training
    m.eval()
    try:
        with torch.no_grad():
            out.append(m(x))
        torch.manual_seed(11)
        np.random.seed(11)
        if hasattr(m, "mpe") and not isinstance(m, Mixture):
            out.append(m.mpe())
        out.append(m.sample(4, seed=5).detach())
        if full:
            out.append(m.sample(3, mpe_at_leaves=True, seed=6).detach())
            if isinstance(m, Einet):
                out.append(m.sample(num_samples=3, is_differentiable=True, seed=7).detach())
            if getattr(m.config, "num_classes", 1) > 1:
                out.append(m.posterior(x).detach())
                out.append(m.sample(num_samples=2, class_index=1, seed=8).detach())
            if not mvn:
                e = x.clone()
                e.view(e.shape[0], -1)[:, 0] = M.NAN
                e.view(e.shape[0], -1)[::2, -1] = M.NAN
                with torch.no_grad():
                    out.append(m(e))
                out.append(m.sample(evidence=e, seed=9).detach())
                if not isinstance(m, Mixture):
                    out.append(m.sample(evidence=e, is_mpe=True).detach())
    finally:
        m.train(was)
    return out


def equal(a, b):
    return len(a) == len(b) and all(p.shape == q.shape and torch.allclose(p, q, atol=1e-6, rtol=0, equal_nan=True) for p, q in zip(a, b))


NAMES = "likelihood, MPE or samples"


def state(m):
    buf = io.BytesIO()
    torch.save(m.state_dict(), buf)
    buf.seek(0)
    return torch.load(buf, weights_only=True)


def through_pickle(m):
    return pickle.loads(pickle.dumps(m))


def through_file(m):
    buf = io.BytesIO()
    torch.save(m, buf)
    buf.seek(0)
    return torch.load(buf, weights_only=False)


def transfers(rec, src, dsts, x, mvn, rep):
    """state of src into every dst; copies of src; nothing of src changes"""
    ref = fingerprint(src, x, mvn)
    for t in ref:
        rec.outcome(hash(rows(t)))
    st = state(src)
    for i, dst in enumerate(dsts):
        rec.ran()
        rec.state()
        res = dst.load_state_dict(st)
        got = fingerprint(dst, x, mvn)
        rec.expect(equal(ref, got), "load", lambda: f"after load_state_dict another model of the same configuration differs in its {NAMES}: {_diff(ref, got)} ({rep}, target {i})", dict(rep, target=i))
        # the loaded model does not share memory with the state it was loaded from
        with torch.no_grad():
            for p in dst.parameters():
                p.mul_(-0.7) if p.requires_grad else None
        rec.expect(equal(ref, fingerprint(src, x, mvn)), "shared", lambda: f"changing the loaded model changes the saved one ({rep})", rep)
    for how, fn in (("deepcopy", copy.deepcopy), ("pickle", through_pickle), ("file", through_file)):
        rec.ran()
        rec.state()
        c = fn(src)
        got = fingerprint(c, x, mvn)
        rec.expect(equal(ref, got), how, lambda: f"{how} differs in its {NAMES}: {_diff(ref, got)} ({rep})", rep)
        with torch.no_grad():
            for p in c.parameters():
                p.mul_(-0.7) if p.requires_grad else None
        rec.expect(equal(ref, fingerprint(src, x, mvn)), how + ":shared", lambda: f"changing the {how} changes the original ({rep})", rep)
        rec.expect(not equal(ref, fingerprint(c, x, mvn)), how + ":stale", lambda: f"changing the parameters of the {how} does not change what it computes ({rep})", rep)


def _diff(a, b):
    for i, (p, q) in enumerate(zip(a, b)):
        if p.shape != q.shape or not torch.allclose(p, q, atol=1e-6, equal_nan=True):
            return f"query {i}: {p.reshape(-1)[:6].tolist()} vs {q.reshape(-1)[:6].tolist()}"
    return "different queries"


def pairs(leaf, kw, seed, n=3):
    def case(rec):
        srcs = [einet(leaf, kw, seed + i) for i in range(n)]
        x = values(srcs[0], leaf)
        for i, s in enumerate(srcs):
            dsts = [einet(leaf, kw, seed + 100 + 10 * i + j) for j in range(n)]
            transfers(rec, s, dsts, x, leaf == "mvn2", {"leaf": leaf, **kw, "seed": seed + i})
        rec.sample({"leaf": leaf, **kw})
    return case


def structures(leaf, kw, seed, cap):
    """every structure of the saved model, into a few of the others"""
    def case(rec):
        ex = Explorer(cap)
        all_ = [(einet(leaf, kw, seed, ch), trail) for ch, trail in _structs(leaf, kw, seed, ex)]
        rec.explored(ex)
        x = values(all_[0][0], leaf)
        step = max(1, len(all_) // 3)
        for i, (s, trail) in enumerate(all_):
            ref = fingerprint(s, x, leaf == "mvn2", full=False)
            st = state(s)
            for j in {(i + 1) % len(all_), (i + step) % len(all_), (i + 2 * step) % len(all_)}:
                dst = copy.deepcopy(all_[j][0])
                with torch.no_grad():
                    for p in dst.parameters():
                        p.add_(0.1) if p.requires_grad else None
                dst.load_state_dict(st)
                rec.ran()
                rec.state()
                got = fingerprint(dst, x, leaf == "mvn2", full=False)
                rec.outcome(hash(rows(ref[0])))
                rec.expect(equal(ref, got), "load", lambda: f"structure {trail} loaded into {all_[j][1]}: {_diff(ref, got)} ({kw})", {"leaf": leaf, **kw, "choices": trail})
    return case


def _structs(leaf, kw, seed, ex):
    from ..explore import Chooser
    for _, _, trail in ex.run(lambda ch: einet(leaf, kw, seed, ch) and None):
        yield Chooser(trail), trail


OPS = ("loadA", "loadB", "copy", "pickle", "query", "train")


def histories(leaf, kw, seed, depth):
    """all sequences of operations; after each prefix the model is the one expected"""
    def case(rec):
        A, B, T = (einet(leaf, kw, seed + i) for i in range(3))
        x = values(A, leaf)
        mvn = leaf == "mvn2"
        sA, sB = state(A), state(B)
        fps = {}

        def train(m):
            m.train()
            opt = torch.optim.SGD([p for p in m.parameters() if p.requires_grad], lr=0.1)
            (-m(x).mean()).backward()
            opt.step()
            opt.zero_grad(set_to_none=True)
            m.eval()
            return m

        def act(m, op):
            if op == "loadA":
                m.load_state_dict(sA)
            elif op == "loadB":
                m.load_state_dict(sB)
            elif op == "copy":
                m = copy.deepcopy(m)
            elif op == "pickle":
                m = through_pickle(m)
            elif op == "query":
                fingerprint(m, x, mvn)
            elif op == "train":
                train(m)
            return m

        # identity of a state: which parameters were loaded and how many training steps followed
        def ident(seq):
            who, steps = "T", 0
            for op in seq:
                if op in ("loadA", "loadB"):
                    who, steps = op[-1], 0
                elif op == "train":
                    steps += 1
            return who, steps

        for seq in itertools.product(OPS, repeat=depth):
            m = copy.deepcopy(T)
            for op in seq:
                m = act(m, op)
            got = fingerprint(m, x, mvn, full=False)
            key = ident(seq)
            rec.ran()
            rec.state(depth)
            ref = fps.setdefault(key, got)
            rec.outcome(hash(rows(got[0])))
            rec.expect(equal(ref, got), "history", lambda: f"after {seq} the model is not the one loaded and trained ({key}): {_diff(ref, got)}", {"leaf": leaf, **kw, "operations": seq})
        for key, src in (("A", A), ("B", B), ("T", T)):
            rec.expect(equal(fps[(key, 0)], fingerprint(src, x, mvn, full=False)), "source", lambda: f"{key} is not what was saved")
    return case


def convs(kw, leaf, seed):
    def case(rec):
        cfg, shape = V.config(leaf=leaf, **kw)
        srcs = [V.build(cfg, shape, seed + i) for i in range(2)]
        for s in srcs:
            s.config = cfg
        x = (torch.arange(3 * shape.channels * shape.height * shape.width) % 2).float().reshape(3, shape.channels, shape.height, shape.width)
        for i, s in enumerate(srcs):
            transfers(rec, s, [V.build(cfg, shape, seed + 50 + j) for j in range(2)], x, False, {"conv": str(kw), "leaf": leaf, "seed": seed + i})
    return case


def mixtures(leaf, kw, n, seed):
    def case(rec):
        def make(s):
            torch.manual_seed(s)
            np.random.seed(s)
            m = Mixture(n, M.config(leaf=leaf, **kw))
            for i, c in enumerate(m.models):
                M.randomize(c, s + i)
            g = torch.Generator().manual_seed(s)
            with torch.no_grad():
                m.mixture_weights.data = torch.rand(n, generator=g).softmax(0)
                m.centroids.data = torch.rand(n, kw["D"] * kw.get("C", 1), generator=g)
            return m.eval()

        srcs = [make(seed + i) for i in range(2)]
        x = torch.randint(0, 2, (6, kw.get("C", 1), kw["D"]), generator=torch.Generator().manual_seed(1)).float()
        for i, s in enumerate(srcs):
            transfers(rec, s, [make(seed + 70 + j) for j in range(2)], x, False, {"mixture": n, "leaf": leaf, **kw, "seed": seed + i})
    return case


def cases(tier, seed):
    th = tier == "thorough"
    out = []
    for leaf in LEAVES:
        for st, la in ARCH:
            if leaf == "mvn2" and st == "bottom-up":
                continue
            for D, depth, R, K, C in ((4, 1, 1, 1, 1), (4, 2, 2, 2, 1), (6, 1, 3, 1, 2), (5, 0, 2, 2, 1)) + (((6, 2, 2, 2, 2), (8, 3, 2, 1, 1)) if th else ()):
                if leaf == "mvn2" and (D % 2 or 2**depth > D // 2 or C > 1):
                    continue
                kw = dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, C=C, S=2, L=2)
                out.append((f"pairs/{leaf}/{st}/{la}/D{D}/depth{depth}/R{R}K{K}C{C}", pairs(leaf, kw, seed)))
    for st, la in ARCH:
        for D, depth, R in ((2, 1, 2), (3, 1, 1), (3, 1, 2), (4, 1, 1)) + (((4, 2, 1), (3, 1, 3)) if th else ()):
            for leaf in ("cat2", "norm"):
                kw = dict(structure=st, layer=la, D=D, depth=depth, R=R, K=1, S=2, L=2)
                out.append((f"structures/{leaf}/{st}/{la}/D{D}/depth{depth}/R{R}", structures(leaf, kw, seed, 150 if not th else 1500)))
        for leaf in ("norm", "bin2"):
            kw = dict(structure=st, layer=la, D=4, depth=1, R=2, K=2, S=2, L=2)
            out.append((f"histories/{leaf}/{st}/{la}", histories(leaf, kw, seed, 3 if not th else 4)))
        for n in (2, 3):
            for leaf in ("cat2", "norm"):
                out.append((f"mixture/{leaf}/{st}/{la}/n{n}", mixtures(leaf, dict(structure=st, layer=la, D=3, depth=1, R=2, K=1, S=2, L=2), n, seed)))
    for st, order in itertools.product(("bottom-up", "top-down"), ("sum-prod", "prod-sum")):
        for leaf in ("cat2", "norm", "bin2"):
            out.append((f"conv/{leaf}/{st}/{order}", convs(dict(channels=(2, 3), H=4, W=4, C=2, structure=st, order=order), leaf, seed)))
    return out
