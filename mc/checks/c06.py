"""C06: MPE takes the most probable alternative at every decision, deterministically."""
import itertools

import torch

from .. import models as M
from ..explore import Chooser, Explorer, World
from ..sampling import distance, exact, rows

LEVEL = "model_checking"
BOUNDS = ("every partial assignment of up to 3 variables, D<=5, depth<=2, repetitions<=3, classes<=3; the decisions of depth<=1 models are recovered "
          "from the density alone (tagged leaves), deeper ones from the sampler with every draw answered by its most probable outcome")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))
EV = {"cat3": (0.0, 2.0), "bin2": (0.0, 2.0), "ber": (0.0, 1.0), "norm": (-0.4, 1.6), "rat": (-0.4, 1.6)}


def quiet_run(rec, f, key, rep):
    """run f; it may not draw anything"""
    torch.manual_seed(11)
    before = torch.get_rng_state().clone()
    with World(None, pick="max") as w:
        out = f()
    rec.ran()
    rec.expect(w.draws == 0 and torch.equal(before, torch.get_rng_state()), f"{key}:draws", lambda: f"an MPE query made {w.draws} random draws {w.log} ({rep})", rep)
    return out.detach()


def greedy(kw, leaf, seed):
    """mpe(e) == the sample whose every draw is answered by its most probable outcome"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        C, D = cfg.num_channels, cfg.num_features
        n = C * D
        ev = EV[leaf]
        pats = [None] + list(itertools.product((*ev, M.NAN), repeat=n)) if n <= 4 else [None] + [
            tuple(ev[(a >> i) % 2] if o >> i & 1 else M.NAN for i in range(n)) for o in range(2**n) for a in (0, 0b0110101, 0b1011010)]
        for t in pats:
            e = None if t is None else torch.tensor(t).reshape(1, C, D)
            rep = {"config": M.describe(cfg), "seed": seed, "evidence": None if e is None else e.tolist()}
            with World(None, pick="max"):
                wants = [m.sample(evidence=e) if e is not None else m.sample(num_samples=1)]
                if cfg.num_classes > 1 and (t is None or all(v != v for v in t)):  # all classes are equally probable: any may be taken
                    wants = [m.sample(num_samples=1, class_index=c) for c in range(cfg.num_classes)]
            rec.ran()
            a = quiet_run(rec, lambda: m.mpe(evidence=e), "mpe", rep)
            b = quiet_run(rec, lambda: m.sample(evidence=e, is_mpe=True) if e is not None else m.sample(num_samples=1, is_mpe=True), "sample", rep)
            rec.state(1)
            rec.outcome(hash(tuple(a.reshape(-1).tolist())))
            for what, got in (("mpe", a), ("sample(is_mpe)", b)):
                rec.expect(got.shape == wants[0].shape and any(bool(((got - w).abs() < 1e-5).all()) for w in wants), "greedy",
                           lambda: f"{what} gives {got.tolist()}, taking the most probable alternative everywhere gives {wants[0].tolist()} ({rep})", rep)
            for s in (0, 1):  # neither the global state nor a seed argument may matter
                torch.manual_seed(s)
                c = m.sample(evidence=e, is_mpe=True, seed=s + 5) if e is not None else m.sample(num_samples=1, is_mpe=True, seed=s + 5)
                rec.expect(torch.equal(c.detach(), a), "deterministic", lambda: f"MPE depends on the random state ({rep})", rep)
            # MPE under missing entries == MPE under marginalized_scopes
            if e is not None and C == 1:
                S = [i for i in range(D) if t[i] != t[i]]
                if S:
                    j = torch.nan_to_num(e, nan=1.0)
                    c = m.mpe(evidence=j, marginalized_scopes=S).detach()
                    rec.expect(torch.equal(c, a) or len(wants) > 1, "scopes", lambda: f"MPE with marginalized_scopes {c.tolist()} != MPE with NaN {a.tolist()} ({rep})", rep)
        if cfg.num_classes > 1:
            for c in range(cfg.num_classes):
                with World(None, pick="max"):
                    want = m.sample(num_samples=2, class_index=c)
                got = quiet_run(rec, lambda: m.sample(num_samples=2, class_index=c, is_mpe=True), "class", {"class": c})
                rec.expect(bool(((got - want).abs() < 1e-5).all()), "class", lambda: f"class {c}: MPE {got.tolist()} vs {want.tolist()} ({M.describe(cfg)})")
        rec.sample(M.describe(cfg))
    return case


def tagged(kw, seed):
    """Channel 0 is missing and its leaves name themselves, channel 1 is the evidence.  The class, repetition and branch that
    MPE must take follow from the density of all completions."""
    def case(rec):
        B = kw["L"] * kw["R"]
        cfg = M.config(leaf=f"cat{B}", C=2, **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        M.tag_leaves(m)
        D, L, R, K = cfg.num_features, cfg.num_leaves, cfg.num_repetitions, cfg.num_classes
        g = torch.Generator().manual_seed(seed)
        with torch.no_grad():
            for leaf in M.leaf_modules(m, M.Categorical):
                leaf.logits[:, 1] = torch.randn(leaf.logits[:, 1].shape, generator=g) * 1.5
        comp = M.grid([float(v) for v in range(B)], D)
        for vals in itertools.product((*range(B), None), repeat=D):
            e = torch.full((1, 2, D), M.NAN)
            e[0, 1] = torch.tensor([M.NAN if v is None else float(v) for v in vals])
            x = e.repeat(len(comp), 1, 1)
            x[:, 0] = comp
            with torch.no_grad():
                ll = m(x).double().exp()  # [M, K]
            got = m.mpe(evidence=e).detach()
            rec.ran(1 + len(x))
            rec.state(1, len(x))
            c = int(ll.sum(0).argmax())
            if K > 1 and all(v is None for v in vals):
                continue  # all classes are equally probable
            p = ll[:, c]
            rep_of = (comp[:, 0] % R).long()
            r = int(torch.stack([p[rep_of == i].sum() for i in range(R)]).argmax())
            p = torch.where(rep_of == r, p, 0.0)
            best = comp[int(p.argmax())]
            rep = {"config": M.describe(cfg), "seed": seed, "evidence": e.tolist()}
            second = torch.sort(p, descending=True)[0]
            if second.numel() > 1 and float(second[1]) > float(second[0]) * (1 - 1e-4):
                continue
            rec.outcome(tuple(best.tolist()))
            rec.expect(torch.equal(got[0, 0], best), "decisions", lambda: f"evidence {e.tolist()}: MPE chose leaves {got[0, 0].tolist()}, the most probable "
                       f"decisions (class {c}, repetition {r}) give {best.tolist()} ({rep})", rep)
        rec.sample(M.describe(cfg))
    return case


def factorised(leaf, st, la, D, C, depth, seed):
    """without any sum (one leaf, one sum, one class, one repetition) MPE is the true maximiser, for all evidence"""
    def case(rec):
        cfg = M.config(leaf=leaf, structure=st, layer=la, D=D, C=C, depth=depth, S=1, L=1, R=1, K=1)
        dom = M.leaf_spec(leaf)[2]
        for k in range(3):
            m = M.randomize(M.build(cfg, seed + k), seed + k, 1.5)
            for t in itertools.product((*dom, M.NAN), repeat=C * D):
                e = torch.tensor(t).reshape(1, C, D)
                miss = torch.isnan(e).reshape(-1)
                fill = M.grid(dom, int(miss.sum()))
                x = e.reshape(1, -1).repeat(len(fill), 1)
                x[:, miss] = fill
                x = x.reshape(-1, C, D)
                with torch.no_grad():
                    ll = m(x)[:, 0]
                    got = m.mpe(evidence=e)
                    mine = float(m(got)[0, 0])
                rec.ran(len(x))
                rec.state(1, len(x))
                rec.outcome(hash(tuple(got.reshape(-1).tolist())))
                rec.expect(mine > float(ll.max()) - 1e-4, "maximiser", lambda: f"evidence {e.tolist()}: MPE {got.tolist()} has log-likelihood {mine:.5f}, "
                           f"{x[int(ll.argmax())].tolist()} has {float(ll.max()):.5f} ({M.describe(cfg)})", {"evidence": e.tolist(), "seed": seed + k, "config": M.describe(cfg)})
    return case


def grouped(kw, card, seed):
    """Multivariate leaves with far apart means: the leaves MPE must take for every subset of missing groups follow from the
    density of all combinations of leaf means; the answer is those means, each at its own variables."""
    def case(rec):
        cfg = M.config(leaf=f"mvn{card}", **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        leaf = M.leaf_modules(m, M.MultivariateNormal)[0]
        D, C, L, R, K = cfg.num_features, cfg.num_channels, cfg.num_leaves, cfg.num_repetitions, cfg.num_classes
        G = D // card
        with torch.no_grad():
            leaf.means.copy_(torch.randperm(leaf.means.numel(), generator=torch.Generator().manual_seed(seed)).reshape(leaf.means.shape) * 1.5)
            leaf.L_diag_log.fill_(-1.0)
            leaf.L_offdiag.zero_()
            means = leaf.means.clone()  # [C, G, L, R, card]
        units = [(c, g) for c in range(C) for g in range(G)]
        combos = [(r, ls) for r in range(R) for ls in itertools.product(range(L), repeat=len(units))]
        comp = torch.empty(len(combos), C, D)
        for i, (r, ls) in enumerate(combos):
            for (c, g), l in zip(units, ls):
                comp[i, c, g * card : (g + 1) * card] = means[c, g, l, r]
        rows_ = comp[:: max(1, len(combos) // 12)]
        for miss in M.subsets(G):
            scopes = [g * card + i for g in miss for i in range(card)]
            for e in rows_[: 1 if len(miss) == G else None]:
                x = e.repeat(len(comp), 1, 1)
                x[:, :, scopes] = comp[:, :, scopes]
                x, back = torch.unique(x, dim=0, return_inverse=True)
                with torch.no_grad():
                    ll = m(x).double()  # [M, K]
                rec.state(1, len(x))
                forms = [dict(evidence=e[None].clone(), marginalized_scopes=scopes)]
                if len(miss) == G:
                    forms += [dict(), dict(num_samples=1, is_mpe=True)] + [dict(num_samples=1, is_mpe=True, class_index=c) for c in range(K) if K > 1]
                for f in forms:
                    rep = {"config": M.describe(cfg), "card": card, "seed": seed, "missing": list(miss), "row": e.tolist(), "call": sorted(f)}
                    got = quiet_run(rec, lambda: m.sample(**f) if "is_mpe" in f else m.mpe(**f), "mpe", rep)
                    if cfg.depth > 1:  # decisions above sums are not read off the leaf combinations: answer every draw with its most probable outcome
                        ref = {k: v for k, v in f.items() if k != "is_mpe"} or {"num_samples": 1}
                        with World(None, pick="max"):
                            wants = [m.sample(**ref)]
                            if K > 1 and len(miss) == G and "class_index" not in ref:
                                wants = [m.sample(num_samples=1, class_index=c) for c in range(K)]
                        rec.outcome(tuple(got.reshape(-1).tolist()))
                        rec.expect(any(got.shape == w.shape and bool(((got - w).abs() < 1e-3).all()) for w in wants), "groups", lambda: f"MPE with the groups {list(miss)} of {e.tolist()} missing gives "
                                   f"{got.tolist()}, the most probable alternatives give {wants} ({rep})", rep)
                        continue
                    tot = torch.logsumexp(ll, 0)
                    if "class_index" in f:
                        cs = [f["class_index"]]
                    elif len(miss) == G:
                        cs = list(range(K))
                    else:
                        cs = [c for c in range(K) if float(tot[c]) > float(tot.max()) - 1e-3]
                    ok = []
                    for c in cs:
                        p = ll[:, c]
                        byrep = torch.full((R,), -1e30).double()
                        for i, (r, _) in enumerate(combos):  # what does not agree with the evidence has next to no density
                            byrep[r] = torch.logaddexp(byrep[r], p[back[i]])
                        for r in range(R):
                            if float(byrep[r]) < float(byrep.max()) - 1e-3:
                                continue
                            mine = {int(back[i]) for i, (q, _) in enumerate(combos) if q == r}
                            top = max(float(p[j]) for j in mine)
                            ok += [x[j] for j in mine if float(p[j]) > top - 1e-3]
                    rec.outcome(tuple(got.reshape(-1).tolist()))
                    rec.expect(got.shape == (1, C, D) and any(bool(((got[0] - o).abs() < 1e-3).all()) for o in ok), "groups",
                               lambda: f"MPE with the groups {list(miss)} of {e.tolist()} missing gives {got.tolist()}, the most probable leaves have the means "
                               f"{[o.tolist() for o in ok]} ({rep})", rep)
                # several rows at once answer as each alone
            if 0 < len(miss) < G:
                a = m.mpe(evidence=rows_.clone(), marginalized_scopes=scopes).detach()
                b = torch.cat([m.mpe(evidence=e[None].clone(), marginalized_scopes=scopes) for e in rows_]).detach()
                rec.ran(1 + len(rows_))
                rec.expect(torch.allclose(a, b, atol=1e-4), "rows", lambda: f"MPE of a batch differs from its rows alone ({M.describe(cfg)}, groups {list(miss)})")
        # branches are sampled, leaves answer with their means
        if C == 1:
            for n in (1, 2) if (L * R) ** G <= 8 and G == 2 else (1,):
                law, ex = exact(lambda: m.sample(num_samples=n, mpe_at_leaves=True), eps=(0.0, 1.0))
                rec.explored(ex)
                ref, ex = exact(lambda: m.sample(num_samples=n))
                rec.explored(ex)
                d, at = distance(law, ref)
                names = {rows(c) for c in comp}
                rec.expect(d < 1e-4 and all(tuple(o[i * D:(i + 1) * D]) in names for o in law for i in range(n)), "leaves",
                           lambda: f"{at} has probability {law.get(at, 0):.5f} with mpe_at_leaves, {ref.get(at, 0):.5f} if each leaf answers with its mean ({M.describe(cfg)})")
        rec.sample(M.describe(cfg))
    return case


def leaves_only(kw, leaf, seed):
    """mpe_at_leaves: branches are sampled as usual, every leaf answers with its mode"""
    def case(rec):
        cfg = M.config(leaf=leaf, **kw)
        m = M.randomize(M.build(cfg, seed), seed)
        D = cfg.num_features
        for t in [None] + list(itertools.product((*EV[leaf], M.NAN), repeat=D)):
            e = None if t is None else torch.tensor(t).reshape(1, 1, D)
            f = (lambda: m.sample(num_samples=1, mpe_at_leaves=True)) if e is None else (lambda: m.sample(evidence=e, mpe_at_leaves=True))
            g = (lambda: m.sample(num_samples=1)) if e is None else (lambda: m.sample(evidence=e))
            got, ex = exact(f, eps=(0.0, 1.0))
            rec.explored(ex)
            if leaf in ("norm", "rat"):
                want, ex = exact(g)  # standard-normal answer 0: every leaf answers with its mean
            else:
                want = {}
                ex = Explorer()

                def run(ch):
                    with LeafMax(ch) as w:
                        return rows(g())
                for o, p, _ in ex.run(run):
                    want[o] = want.get(o, 0.0) + p
            rec.explored(ex)
            d, at = distance(got, want)
            for o in got:
                rec.outcome(o)
            rec.expect(d < 1e-4, "leaves", lambda: f"evidence {None if e is None else e.tolist()}: {at} has probability {got.get(at, 0):.5f} with mpe_at_leaves, "
                       f"{want.get(at, 0):.5f} if each leaf answers with its mode ({M.describe(cfg)})", {"evidence": None if e is None else e.tolist()})
    return case


class LeafMax(World):
    """the draws of the leaf layer (the last draw tensor of more than 3 rows) are answered by their mode"""

    def multinomial(self, input, num_samples, replacement=False, **kw):
        big = input.dim() == 2 and input.shape[0] > 3
        old, self.pick = self.pick, "max" if big else self.pick
        try:
            return super().multinomial(input, num_samples, replacement)
        finally:
            self.pick = old

    def _bern(self, p, shape=None):
        self.pick = "max"
        try:
            return super()._bern(p, shape)
        finally:
            self.pick = None

    def binomial(self, count, prob, generator=None):
        self.pick = "max"
        try:
            return super().binomial(count, prob)
        finally:
            self.pick = None


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for st, la in ARCH:
        for leaf in ("cat3", "bin2", "ber", "norm", "rat"):
            for D, C, depth, R, K in ((3, 1, 1, 1, 1), (4, 1, 2, 1, 2), (3, 1, 1, 3, 1), (5, 1, 2, 2, 3), (2, 2, 1, 2, 2), (3, 1, 0, 2, 2)):
                kw = dict(structure=st, layer=la, D=D, C=C, depth=depth, R=R, K=K, S=3, L=3)
                for s in range(3 if big else 1):
                    out.append((f"greedy/{leaf}/{st}/{la}/D{D}C{C}d{depth}R{R}K{K}s{s}", greedy(kw, leaf, seed + s)))
        for leaf, D, C, depth, R, K in (("norm", 8, 1, 3, 2, 2), ("cat3", 9, 1, 3, 1, 1), ("ber", 7, 1, 2, 4, 4), ("bin2", 6, 1, 2, 5, 1)):
            kw = dict(structure=st, layer=la, D=D, C=C, depth=depth, R=R, K=K, S=4, L=4)
            out.append((f"greedy/{leaf}/{st}/{la}/D{D}C{C}d{depth}R{R}K{K}", greedy(kw, leaf, seed)))
        for D, depth, R, K, L in ((2, 1, 1, 1, 3), (2, 1, 1, 3, 2), (2, 1, 2, 1, 2), (2, 1, 2, 2, 2), (3, 1, 1, 2, 2), (3, 1, 2, 2, 1), (2, 0, 2, 2, 2), (3, 0, 1, 2, 3)):
            if st == "bottom-up" and (depth or D > 2):
                continue
            out.append((f"tagged/{st}/{la}/D{D}d{depth}R{R}K{K}L{L}", tagged(dict(structure=st, layer=la, D=D, depth=depth, R=R, K=K, S=2, L=L), seed)))
        for leaf in ("cat3", "cat2", "bin2", "bin3", "ber"):
            for D, C, depth in ((3, 1, 1), (2, 2, 1), (4, 1, 2)):
                if D * C == 4 and leaf == "bin3":
                    continue
                out.append((f"max/{leaf}/{st}/{la}/D{D}C{C}", factorised(leaf, st, la, D, C, depth, seed)))
        for leaf in ("cat3", "bin2", "ber", "norm", "rat"):
            for R, K in ((1, 1), (2, 1), (1, 2)):
                out.append((f"leaves/{leaf}/{st}/{la}/R{R}K{K}", leaves_only(dict(structure=st, layer=la, D=2, depth=1, R=R, K=K, S=2, L=2), leaf, seed)))
    for la in ("linsum", "linsum2", "einsum"):
        for card, D, C, depth, L, R, K in ((2, 4, 1, 1, 3, 1, 1), (2, 4, 1, 1, 2, 2, 1), (2, 4, 1, 1, 2, 2, 2), (3, 6, 1, 1, 2, 2, 1), (2, 8, 1, 2, 2, 1, 2), (2, 6, 1, 1, 2, 2, 1),
                                           (2, 4, 2, 1, 2, 1, 1), (2, 4, 1, 0, 2, 2, 2), (1, 3, 1, 1, 2, 2, 1), (4, 4, 1, 0, 3, 1, 1)):
            for s in range(4 if big else 1):
                out.append((f"grouped/mvn{card}/{la}/D{D}C{C}d{depth}L{L}R{R}K{K}/s{s}", grouped(dict(layer=la, D=D, C=C, depth=depth, S=2, L=L, R=R, K=K), card, seed + s)))
    return out
