"""C16: a leaf layer made of several distributions is, feature by feature, the distribution given for that feature."""
import itertools
import math

import torch

from .. import models as M
from ..explore import Explorer, World
from ..sampling import density, distance, exact, rows, uniform_mixture

from simple_einet.einet import Einet, EinetConfig  # noqa: E402
from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer  # noqa: E402
from simple_einet.sampling_utils import SamplingContext  # noqa: E402

LEVEL = "model_checking"
BOUNDS = ("every order of 2 to 4 features cut into consecutive groups in every way, every rotation of 5 leaf families over the groups; all values of the discrete "
          "domains, every NaN pattern and every subset as marginalized_scopes, every combination of leaf indices and repetitions, every answer of every draw")
FAMS = {
    "norm": (M.Normal, {}, (-1.5, 0.0, 0.75)),
    "cat": (M.Categorical, {"num_bins": 3}, (0.0, 1.0, 2.0)),
    "ber": (M.Bernoulli, {}, (0.0, 1.0)),
    "bin": (M.Binomial, {"total_count": 2}, (0.0, 1.0, 2.0)),
    "rat": (M.RatNormal, {"min_sigma": 0.2, "max_sigma": 1.0}, (-0.5, 0.25)),
}


def splits(D):
    """all compositions of D: tuples of group sizes"""
    for k in range(1, D + 1):
        for cut in itertools.combinations(range(1, D), k - 1):
            b = (0, *cut, D)
            yield tuple(b[i + 1] - b[i] for i in range(k))


def groups(order, sizes):
    out, i = [], 0
    for s in sizes:
        out.append(list(order[i:i + s]))
        i += s
    return out


def build(gr, fams, C, L, R, seed, form=list):
    torch.manual_seed(seed)
    D = sum(len(g) for g in gr)
    layer = MultiDistributionLayer([(form(g), FAMS[f][0], dict(FAMS[f][1])) for g, f in zip(gr, fams)], num_features=D, num_channels=C, num_leaves=L, num_repetitions=R)
    M.randomize(layer, seed)
    return layer


def refs(layer, gr, fams, C, L, R):
    """one leaf layer per feature, holding a copy of that feature's parameters"""
    out = {}
    for d, g, f in zip(layer.dists, gr, fams):
        for pos, feat in enumerate(g):
            ref = FAMS[f][0](num_features=1, num_channels=C, num_leaves=L, num_repetitions=R, **FAMS[f][1])
            with torch.no_grad():
                src = dict(d.named_parameters())
                for n, p in ref.named_parameters():
                    if p.dim() >= 5:
                        p.copy_(src[n][:, :, pos:pos + 1])
            out[feat] = ref
    return [out[i] for i in range(len(out))]


def fam_of(gr, fams):
    at = {}
    for g, f in zip(gr, fams):
        for i in g:
            at[i] = f
    return [at[i] for i in range(len(at))]


def forward(rec, layer, ref, gr, fams, C, rep, scopes=True):
    D = len(ref)
    names = fam_of(gr, fams)
    # a Latin-square-like set of rows that shows every value of every feature, with every NaN pattern
    x = torch.tensor([[[FAMS[f][2][(i + c) % len(FAMS[f][2])] for f in names] for c in range(C)] for i in range(3)])
    full = []
    for i in range(3):
        for S in M.subsets(D):
            y = x[i].clone()
            y[:, list(S)] = M.NAN
            full.append(y)
    X = torch.stack(full)
    keep = X.clone()
    with torch.no_grad():
        got = layer(X)
        want = torch.cat([ref[i](X[:, :, i:i + 1], None) for i in range(D)], dim=2)
    rec.state(len(X))
    rec.ran()
    rec.outcome(hash(rows(want)))
    rec.expect(got.shape == want.shape and bool(torch.allclose(got, want, atol=1e-5)), "forward",
               lambda: f"feature by feature the layer gives {got[0].tolist()}, the single distributions {want[0].tolist()} ({rep})", rep)
    rec.expect(torch.equal(torch.nan_to_num(X, nan=-9.0), torch.nan_to_num(keep, nan=-9.0)), "mutated", f"the input was changed ({rep})", rep)
    if scopes:
        for S in M.subsets(D):
            if not S:
                continue
            with torch.no_grad():
                got = layer(x, marginalized_scopes=list(S))
                y = x.clone()
                y[:, :, list(S)] = M.NAN
                want = torch.cat([ref[i](y[:, :, i:i + 1], None) for i in range(D)], dim=2)
            rec.ran()
            rec.expect(bool(torch.allclose(got, want, atol=1e-5)), "scopes", lambda: f"marginalized_scopes={S} gives {got.tolist()} instead of {want.tolist()} ({rep})", rep)


def ctx(n, R, out, reps, **kw):
    return SamplingContext(num_samples=n, indices_out=out, indices_repetition=reps, num_repetitions=R, **kw)


def draws(rec, layer, ref, gr, fams, C, L, R, rep):
    """modes for every combination of indices; the law of a draw"""
    D = len(ref)
    idx = torch.tensor(list(itertools.product(range(L), repeat=D)))
    for r in range(R):
        n = len(idx)
        reps = torch.full((n,), r)
        with torch.no_grad(), World(None, pick="max"):
            want = torch.cat([rf.sample(ctx(n, R, idx[:, i:i + 1].clone(), reps, is_mpe=True)) for i, rf in enumerate(ref)], dim=2)
            got = layer.sample(ctx(n, R, idx.clone(), reps, is_mpe=True))
            got2 = layer.sample(ctx(n, R, None, reps, is_mpe=True))
        rec.ran(2)
        rec.expect(got.shape == want.shape and bool(torch.allclose(got, want, atol=1e-5)), "mode", lambda: f"modes {got.tolist()} instead of {want.tolist()} ({rep})", rep)
        one = idx.view(n, 1, D, 1).expand(n, C, D, 1)
        got2 = got2.gather(3, one).squeeze(3)
        rec.expect(bool(torch.allclose(got2, want, atol=1e-5)), "mode-all", lambda: f"modes of all leaves {got2.tolist()} instead of {want.tolist()} ({rep})", rep)
        with torch.no_grad():
            a = layer.sample(ctx(n, R, idx.clone(), reps, return_leaf_params=True))
            b = [rf.sample(ctx(n, R, idx[:, i:i + 1].clone(), reps, return_leaf_params=True)) for i, rf in enumerate(ref)]
        P = max(t.shape[-1] for t in b)
        b = torch.cat([torch.nn.functional.pad(t, (0, P - t.shape[-1])) for t in b], dim=2)
        rec.expect(a.shape == b.shape and bool(torch.allclose(a, b, atol=1e-5)), "params", lambda: f"parameters {a.tolist()} instead of {b.tolist()} ({rep})", rep)
    with torch.no_grad():
        a = layer.get_params()[0]
        b = [rf.get_params()[0] for rf in ref]
    b = torch.cat([torch.nn.functional.pad(t, (0, P - t.shape[-1])) for t in b], dim=1)
    rec.expect(a.shape == b.shape and bool(torch.allclose(a, b)), "get-params", lambda: f"get_params() {a.tolist()} instead of {b.tolist()} ({rep})", rep)


def law(rec, layer, ref, gr, fams, C, L, R, rep):
    D = len(ref)
    names = fam_of(gr, fams)
    for idx in itertools.product(range(L), repeat=D):
        for r in range(R):
            def fn():
                with torch.no_grad():
                    return layer.sample(ctx(1, R, torch.tensor([idx]), torch.tensor([r])))
            got, ex = exact(fn)
            rec.explored(ex)
            lp = []
            for i, rf in enumerate(ref):
                dom = FAMS[names[i]][2]
                with torch.no_grad():
                    lp.append(rf(torch.tensor(dom).reshape(-1, 1, 1).expand(-1, C, 1), None)[:, :, 0, idx[i], r].exp().double())
            want = {}
            for v in itertools.product(*[range(len(FAMS[f][2])) for _ in range(C) for f in names]):
                p = 1.0
                for j, k in enumerate(v):
                    p *= float(lp[j % D][k, j // D])
                want[tuple(FAMS[names[j % D]][2][k] for j, k in enumerate(v))] = p
            d, at = distance(got, want)
            rec.expect(d < 2e-4, "law", lambda: f"sample {at} has probability {got.get(at, 0)} instead of {want.get(at, 0)} ({rep})", rep)


def layers(order_list, D, C, L, R, seed, what):
    def case(rec):
        names = list(FAMS)
        for order in order_list:
            for sizes in splits(D):
                gr = groups(order, sizes)
                for rot in range(len(names) if D < 4 else 2):
                    fams = [names[(rot * (1 if D < 4 else 2) + i) % len(names)] for i in range(len(gr))]
                    rep = {"scopes": gr, "families": fams, "C": C, "L": L, "R": R, "seed": seed}
                    if what == "law":
                        fams = [("cat", "ber", "bin")[(rot + i) % 3] for i in range(len(gr))]
                        if rot > 2:
                            continue
                    for form in (list, tuple) if rot == 0 and D < 4 and what != "law" else (list,):
                        layer = build(gr, fams, C, L, R, seed, form)
                        ref = refs(layer, gr, fams, C, L, R)
                        if what == "law":
                            law(rec, layer, ref, gr, fams, C, L, R, dict(rep, families=fams))
                        else:
                            forward(rec, layer, ref, gr, fams, C, rep)
                            draws(rec, layer, ref, gr, fams, C, L, R, rep)
        rec.sample(rep)
    return case


def whole(order, sizes, st, la, R, K, seed):
    """inside a model: normalised, sampler == density, conditional sampler == conditional density"""
    def case(rec):
        gr = groups(order, sizes)
        D = len(order)
        fams = [("cat", "ber", "bin")[i % 3] for i in range(len(gr))]
        names = fam_of(gr, fams)
        cfg = EinetConfig(num_features=D, num_channels=1, num_sums=2, num_leaves=1, num_repetitions=R, num_classes=K, depth=1, dropout=0.0,
                          leaf_type=MultiDistributionLayer, leaf_kwargs={"scopes_to_dist": [(g, FAMS[f][0], dict(FAMS[f][1])) for g, f in zip(gr, fams)]},
                          layer_type=la, structure=st)
        rep = {"scopes": gr, "families": fams, "config": M.describe(cfg), "seed": seed}
        m = M.randomize(M.build(cfg, seed), seed)
        x = torch.tensor(list(itertools.product(*[FAMS[f][2] for f in names]))).reshape(-1, 1, D)
        want = density(m, x, uniform_mixture)
        rec.expect(abs(sum(want.values()) - 1) < 1e-4, "normalised", f"the density sums to {sum(want.values())} ({rep})", rep)
        # MPE tags the chosen leaf; the law of its answers must be the one of the branch draws, feature by feature
        for i in range(D):
            # the law of one feature: the others are observed
            e = torch.zeros(1, 1, D)
            e[0, 0, i] = M.NAN
            got, ex = exact(lambda: m.sample(evidence=e))
            rec.explored(ex)
            dom = FAMS[names[i]][2]
            cand = torch.stack([torch.where(torch.isnan(e[0]), torch.tensor(v), e[0]) for v in dom])
            with torch.no_grad():
                ll = uniform_mixture(m(cand).double())
            pr = torch.softmax(ll, 0)
            wt = {rows(cand[k]): float(pr[k]) for k in range(len(dom))}
            d, at = distance(got, wt)
            rec.expect(d < 3e-4, "conditional", lambda: f"{at} is imputed with probability {got.get(at, 0):.5f} instead of {wt.get(at, 0):.5f} ({rep})", rep)
        rec.sample(rep)
    return case


def cases(tier, seed):
    big = tier == "thorough"
    out = []
    for D in (2, 3, 4):
        perms = list(itertools.permutations(range(D)))
        for C, L, R in ((1, 2, 1), (2, 2, 2)) if D < 4 or big else ((1, 2, 1),):
            for j in range(0, len(perms), 3):
                out.append((f"layer/D{D}C{C}L{L}R{R}/{j}", layers(perms[j:j + 3], D, C, L, R, seed, "all")))
    for D, C, L, R in ((2, 1, 1, 2), (2, 2, 1, 1), (3, 1, 1, 1), (2, 1, 2, 1)) + (((3, 1, 2, 1), (4, 1, 1, 1)) if big else ()):
        for j, p in enumerate(itertools.permutations(range(D))):
            out.append((f"law/D{D}C{C}L{L}R{R}/{j}", layers([p], D, C, L, R, seed, "law")))
    for st, la in (("top-down", "linsum"), ("top-down", "einsum"), ("bottom-up", "linsum")):
        for order in itertools.permutations(range(3)):
            for sizes in ((1, 2), (1, 1, 1), (2, 1)):
                for R, K in ((1, 1), (2, 2)):
                    if R == 2 and not big and (order[0] != 2 or sizes == (2, 1) or st == "bottom-up"):
                        continue
                    out.append((f"model/{st}/{la}/{''.join(map(str, order))}/{'+'.join(map(str, sizes))}/R{R}K{K}", whole(order, sizes, st, la, R, K, seed)))
    return out
