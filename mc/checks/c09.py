"""C09: every query is a function of parameters, arguments and generator state; nothing of earlier queries shows."""
import itertools

import torch

from .. import models as M
from .. import ops as O

LEVEL = "model_checking"
BOUNDS = ("all histories of up to 3 operations (thorough: 4) over 18 operations (inference, sampling, conditional, differentiable, MPE, "
          "posterior, failing calls), for 14 Einets; all pairs (thorough: triples) of 15 operations for 4 convolutional circuits and 4 mixtures (also of convolutional circuits); seeds under 3 different generator states")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))


def state(m):
    return {k: v.clone() for k, v in m.state_dict().items()}


def same_state(a, m):
    b = m.state_dict()
    return set(a) == set(b) and all(torch.equal(torch.nan_to_num(a[k].float()), torch.nan_to_num(b[k].float())) for k in a)


def histories(kw, leaf, seed, depth, first=None, train=False):
    cfg = M.config(leaf=leaf, **kw)
    return histories_of(lambda s: M.randomize(M.build(cfg, s), s), O.operations(cfg, leaf), M.describe(cfg), seed, depth, first, train)


def histories_of(make, ops, about, seed, depth, first=None, train=False):
    def case(rec):
        base = make(seed)
        base.train(train)
        sd = state(base)
        names = list(ops)
        fresh = {}
        for n in names:
            fresh[n] = O.observe(ops[n], O.clone(base), 17)
            seeded = "seed" in n
            rec.expect(fresh[n][2], "grad-mode", f"{n} left the gradient mode changed")
            if n.startswith(("forward", "mpe", "posterior")) or seeded:
                rec.expect(fresh[n][3], "generator", f"{n} leaves torch's generator in another state ({about})")
            rec.expect(n.startswith("bad") or not isinstance(fresh[n][0], str), "raises", f"{n} raised {fresh[n][0]}")
        m = O.clone(base)
        seqs = [s for s in itertools.product(names, repeat=depth) if first is None or s[0] == first]
        for seq in seqs:
            # one live model runs the history; the state it starts from is the one the previous history left behind,
            # which by induction is indistinguishable from a fresh one -- otherwise an earlier history was reported
            for i, n in enumerate(seq):
                got = O.observe(ops[n], m, 17)
                rec.ran()
                rec.state()
                rec.comparisons += 1
                if not O.equal(got[0], fresh[n][0]) or not torch.equal(got[1], fresh[n][1]) or got[2] != fresh[n][2]:
                    rec.violation("history", f"after {seq[:i]} on a used model, {n} gives {str(got[0])[:200]}, on a fresh model {str(fresh[n][0])[:200]} ({about})",
                                  {"config": about, "seed": seed, "history": seq[: i + 1]})
                    m = O.clone(base)
                    break
            rec.outcome(hash(seq))
        rec.expect(same_state(sd, m), "parameters", "queries changed the state of the model")
        rec.expect(m.training == train, "mode", "queries changed the training flag")
        rec.sample({"config": about, "histories": len(seqs)})
    return case


def updates(kw, leaf, seed):
    """parameters (or the caller's tensor) change in place between two queries: the second one must see the change"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        ops = {n: f for n, f in O.operations(cfg, leaf).items() if not n.startswith("bad")}
        one = M.randomize(M.build(cfg, seed), seed)
        two = M.randomize(O.clone(one), seed + 1)
        sd1, sd2 = state(one), state(two)
        fresh = {n: O.observe(f, O.clone(two), 17) for n, f in ops.items()}
        for n in ops:
            for how in ("load", "data", "step"):
                m = O.clone(one)
                O.observe(ops[n], m, 17)
                if how == "load":
                    m.load_state_dict(sd2)
                elif how == "data":
                    for k, p in m.named_parameters():
                        p.data = sd2[k].clone()
                else:
                    with torch.no_grad():
                        for k, p in m.named_parameters():
                            p.copy_(sd2[k])
                for q in ops:
                    got = O.observe(ops[q], m, 17)
                    rec.ran()
                    rec.state()
                    rec.outcome(hash((n, q)))
                    rec.expect(O.equal(got[0], fresh[q][0]), f"stale:{how}", lambda: f"{n}, then new parameters ({how}), then {q}: {str(got[0])[:150]} instead of {str(fresh[q][0])[:150]} ({M.describe(cfg)})",
                               {"config": M.describe(cfg), "history": [n, how, q]})
        # the same tensor object with new contents
        a, b, e, f = O.data(cfg, leaf)
        calls = {"forward": lambda x: one(x), "sample": lambda x: one.sample(evidence=x, seed=1), "mpe": lambda x: one.mpe(evidence=x),
                 "diff": lambda x: one.sample(evidence=x, is_differentiable=True, seed=1)}
        for (n1, f1), (n2, f2) in itertools.product(calls.items(), repeat=2):
            x = e.clone()
            f1(x)
            x.copy_(f)
            got = f2(x).detach()
            want = f2(f.clone()).detach()
            rec.ran(3)
            rec.expect(O.equal(got, want), "stale-input", f"{n1}(x), x changed in place, {n2}(x) does not see the change ({M.describe(cfg)})")
    return case


def updates_of(make, ops, about, seed):
    """parameters change between two queries of a mixture or convolutional circuit"""
    def case(rec):
        calls = {n: f for n, f in ops.items() if not n.startswith("bad")}
        one, two = make(seed), make(seed + 1)
        sd2 = state(two)
        with torch.no_grad():
            for k, v in one.state_dict().items():
                if "permutation" in k:
                    sd2[k] = v.clone()
        m2 = O.clone(one)
        m2.load_state_dict(sd2)
        fresh = {n: O.observe(f, O.clone(m2), 17) for n, f in calls.items()}
        for n, q in itertools.product(calls, repeat=2):
            m = O.clone(one)
            O.observe(calls[n], m, 17)
            m.load_state_dict(sd2)
            got = O.observe(calls[q], m, 17)
            rec.ran()
            rec.state()
            rec.outcome(hash((n, q)))
            rec.expect(O.equal(got[0], fresh[q][0]), "stale:load", lambda: f"{n}, then new parameters, then {q}: {str(got[0])[:150]} instead of {str(fresh[q][0])[:150]} ({about})", {"model": about, "history": [n, "load", q]})
    return case


def seeds_of(make, ops, about, seed):
    """seeded queries of mixtures and convolutional circuits"""
    def case(rec):
        m = make(seed)
        for name, f in ops.items():
            if "seed" not in name:
                continue
            got = []
            for g in (0, 7, 99, 12345):
                torch.manual_seed(g)
                torch.rand(g % 5)
                before = torch.get_rng_state().clone()
                got.append(f(m).detach().clone())
                rec.ran()
                rec.state()
                rec.outcome((name, g))
                rec.expect(torch.equal(before, torch.get_rng_state()), "restore", f"{name} does not put the generator back ({about})", {"model": about, "call": name})
            rec.expect(all(O.equal(got[0], x) for x in got), "seed", f"{name} depends on the generator's state ({about})", {"model": about, "call": name})
    return case


def seeds(kw, leaf, seed):
    """a seed decides the result whatever the generator's state, and the generator is put back where it was"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        a, b, e, f = O.data(cfg, leaf)
        K = cfg.num_classes
        calls = {
            "sample": lambda s: m.sample(num_samples=20, seed=s), "evidence": lambda s: m.sample(evidence=e.repeat(10, 1, 1), seed=s),
            "diff": lambda s: m.sample(num_samples=20, is_differentiable=True, seed=s), "scopes": lambda s: m.sample(evidence=a.repeat(10, 1, 1), marginalized_scopes=[0, 1], seed=s),
            "diff-evidence": lambda s: m.sample(evidence=f.repeat(10, 1, 1), is_differentiable=True, seed=s),
            "mpe": lambda s: m.sample(evidence=e, is_mpe=True, seed=s),
        }
        if K > 1:
            calls["class"] = lambda s: m.sample(num_samples=20, class_index=1, seed=s)
        for name, f_ in calls.items():
            seen = {}
            for s in (0, 1, 123456):
                got = []
                for g in (0, 7, 99):
                    torch.manual_seed(g)
                    torch.rand(g % 5)
                    before = torch.get_rng_state().clone()
                    got.append(f_(s).detach().clone())
                    rec.ran()
                    rec.state()
                    rec.expect(torch.equal(before, torch.get_rng_state()), "restore", f"{name} with seed={s} does not put the generator back ({M.describe(cfg)})", {"call": name, "seed": s})
                rec.expect(all(O.equal(got[0], x) for x in got), "seed", f"{name} with seed={s} depends on the generator's state ({M.describe(cfg)})", {"call": name, "seed": s})
                # the seed means: as if torch.manual_seed(seed) had been called before
                torch.manual_seed(s)
                ref = f_(None).detach()
                rec.expect(O.equal(got[0], ref), "manual-seed", f"{name} with seed={s} differs from the same call after torch.manual_seed({s}) ({M.describe(cfg)})", {"call": name, "seed": s})
                seen[s] = got[0]
                rec.outcome(hash(tuple(got[0].reshape(-1).tolist())))
            if name != "mpe" and leaf == "norm":
                rec.expect(not O.equal(seen[0], seen[1]), "constant", f"{name}: two seeds give the same 20 continuous samples")
            # without a seed consecutive calls differ
            if name != "mpe" and leaf == "norm":
                torch.manual_seed(0)
                x, y = f_(None).detach(), f_(None).detach()
                rec.expect(not O.equal(x, y), "stuck", f"{name}: consecutive calls without a seed repeat the same samples")
    return case


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for st, la in ARCH:
        for leaf in ("norm", "cat2"):
            for D, C, depth, R, K in ((3, 1, 1, 2, 2), (4, 1, 2, 1, 1), (2, 2, 0, 2, 1)):
                kw = dict(structure=st, layer=la, D=D, C=C, depth=depth, R=R, K=K, S=2, L=2)
                if R * K == 4 and leaf == "norm":
                    names = list(O.operations(M.config(leaf=leaf, **kw), leaf))
                    for n in names:
                        if big or st == "bottom-up" or la == "einsum":
                            out.append((f"history3/{leaf}/{st}/{la}/D{D}R{R}K{K}/{n}", histories(kw, leaf, seed, 3 if not big else 4, first=n)))
                out.append((f"history/{leaf}/{st}/{la}/D{D}C{C}d{depth}R{R}K{K}", histories(kw, leaf, seed, 2)))
                out.append((f"update/{leaf}/{st}/{la}/D{D}C{C}d{depth}R{R}K{K}", updates(kw, leaf, seed)))
                out.append((f"seed/{leaf}/{st}/{la}/D{D}C{C}d{depth}R{R}K{K}", seeds(kw, leaf, seed)))
        kw = dict(structure=st, layer=la, D=3, C=1, depth=1, R=2, K=2, S=2, L=2)
        out.append((f"history-train/{st}/{la}", histories(kw, "norm", seed, 2, train=True)))
    for name, (make, ops) in O.circuits().items():
        out.append((f"history/{name}", histories_of(make, ops, name, seed, 2)))
        for n in ops:
            if big or name.startswith("mixture2/conv"):
                out.append((f"history3/{name}/{n}", histories_of(make, ops, name, seed, 3, first=n)))
        out.append((f"update/{name}", updates_of(make, ops, name, seed)))
        out.append((f"seed/{name}", seeds_of(make, ops, name, seed)))
    return out
