"""C31: conditional leaves are the conditional distribution that their network computes from the condition."""
import itertools
import math

import torch
from torch import nn

from .. import models as M
from ..sampling import distance, exact, large_batch, rows, uniform_mixture
from simple_einet.einet import Einet, EinetConfig
from simple_einet.layers.distributions.binomial import Binomial, ConditionalBinomial

LEVEL = "model_checking"
BOUNDS = ("2 and 8 variables, 1 and 2 channels, total_count 1 to 3, repetitions and classes 1 and 2, every order of the condition for 8 variables in 4 rotations; all "
          "inputs, all subsets of missing variables, all answers of all draws; batches of up to 270 rows: the most probable draws and every single deviation from them (270 rows: of a few rows)")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))


class Net(nn.Module):
    """maps [N, C, h, w] to [N, C * leaves * repetitions, h, w]; every output depends on every pixel"""

    def __init__(self, C, L, R, hw, seed):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        n = C * hw * hw
        self.w = nn.Parameter(torch.randn(n, n * L * R, generator=g))
        self.b = nn.Parameter(torch.randn(n * L * R, generator=g))
        self.out = (C * L * R, hw, hw)
        self.gain = 1.5

    def forward(self, x):
        assert x.dim() == 4 and x.shape[2] == x.shape[3]
        return self.gain * torch.sin(x.flatten(1) @ self.w + self.b).reshape(-1, *self.out)


def models(kw, tc, seed, order=None, sharp=False):
    """-> conditional model, plain(x_cond): the same circuit with Binomial leaves of the logits for this condition"""
    F, C, L, R, K = kw["F"], kw["C"], kw["L"], kw["R"], kw["K"]
    half = F // 2
    hw = int(round(math.sqrt(half)))
    idx = list(range(half, F)) if order is None else order
    net = Net(C, L, R, hw, seed)
    common = dict(num_features=F, num_channels=C, num_sums=2, num_leaves=L, num_repetitions=R, num_classes=K, depth=kw["depth"], layer_type=kw["layer"], structure=kw["structure"])
    torch.manual_seed(seed)
    m = Einet(EinetConfig(**common, leaf_type=ConditionalBinomial, leaf_kwargs=dict(total_count=tc, cond_fn=net, cond_idxs=idx))).eval()
    torch.manual_seed(seed)
    p = Einet(EinetConfig(**common, leaf_type=Binomial, leaf_kwargs=dict(total_count=tc))).eval()
    leaf = [x for x in m.modules() if isinstance(x, ConditionalBinomial)][0]
    target = [x for x in p.modules() if isinstance(x, Binomial)][0]
    g = torch.Generator().manual_seed(seed + 3)
    with torch.no_grad():
        for prm in m.parameters():
            if prm.requires_grad and prm.dim() > 0 and not any(prm is q for q in leaf.parameters()):
                prm.copy_(torch.randn(prm.shape, generator=g))
        for prm in (leaf.probs_conditioned_base, leaf.probs_unconditioned):
            prm.copy_(torch.randn(prm.shape, generator=g))
        if sharp:  # deterministic leaves
            net.gain = 400.0
            leaf.probs_unconditioned.copy_(torch.where(leaf.probs_unconditioned > 0, 60.0, -60.0))
    # the same sums and structure
    mine = dict(m.named_parameters()) | dict(m.named_buffers())
    for name, t in list(p.named_parameters()) + list(p.named_buffers()):
        if name in mine and t.shape == mine[name].shape:
            t.data.copy_(mine[name].data)

    def plain(cond):
        """cond: [C, half] values of the conditioning variables, in the order of cond_idxs"""
        with torch.no_grad():
            o = net(cond.reshape(1, C, hw, hw)).reshape(C, L, R, half).permute(0, 3, 1, 2)
            target.logits.data[0, :, :half] = leaf.probs_conditioned_base[0] + o
            target.logits.data[0, :, half:] = leaf.probs_unconditioned[0]
        return p
    return m, plain, idx


def describe(kw, tc, order=None):
    return dict(kw, total_count=tc, cond_idxs=order)


def density(kw, tc, seed, order=None):
    """forward, for every input and every set of missing conditioned variables"""
    def case(rec):
        F, C, K = kw["F"], kw["C"], kw["K"]
        half = F // 2
        m, plain, idx = models(kw, tc, seed, order)
        rep = dict(describe(kw, tc, order), seed=seed)
        dom = [float(v) for v in range(tc + 1)]
        conds = M.grid(dom, C * half).reshape(-1, C, half)
        vals = M.grid(dom + [M.NAN], C * half).reshape(-1, C, half)
        whole = ~torch.isnan(vals).flatten(1).any(1)
        total = 0.0
        batch = []
        for cond in conds:
            x = torch.empty(len(vals), C, F)
            x[:, :, :half] = vals
            x[:, :, half:] = M.NAN
            x[:, :, idx] = cond
            keep = x.clone()
            with torch.no_grad():
                got = m(x)
                want = plain(cond)(x)
            rec.ran(2)
            rec.state(len(x))
            rec.expect(torch.equal(torch.nan_to_num(x, nan=-1.0), torch.nan_to_num(keep, nan=-1.0)), "mutated", "forward changes the input", rep)
            bad = (got - want).abs().max(1).values if got.shape == want.shape else torch.full((len(x),), math.inf)
            i = int(torch.nan_to_num(bad, nan=math.inf).argmax())
            rec.expect(bool((bad < 1e-4).all()), "density", lambda: f"input {x[i].tolist()}: {got[i].tolist()} instead of {want[i].tolist()} ({rep})", dict(rep, x=x[i].tolist()))
            total = total + got[whole].double().exp().sum(0)
            batch.append((x[len(x) // 2], got[len(x) // 2]))
            for v in got[:3]:
                rec.outcome(hash(rows(v)))
            # variables named by marginalized_scopes, whatever stands there
            full = x[whole]
            for S in M.subsets(half) if half == 1 else ((0,), (1, 3), (0, 2), (0, 1, 2, 3)):
                y = full[:: max(1, len(full) // 16)].clone()
                z = y.clone()
                z[:, :, list(S)] = M.NAN
                with torch.no_grad():
                    a, b = m(y, marginalized_scopes=list(S)), m(z)
                rec.ran()
                rec.expect(bool(torch.allclose(a, b, atol=1e-5)), "scopes", lambda: f"marginalized_scopes={S} differs from missing entries ({rep})", rep)
        rec.expect(bool(((torch.as_tensor(total) - 1).abs() < 1e-3).all()), "mass", lambda: f"probabilities sum to {torch.as_tensor(total).tolist()} ({rep})", rep)
        # rows with different conditions do not influence one another
        with torch.no_grad():
            got = m(torch.stack([b[0] for b in batch]))
        want = torch.stack([b[1] for b in batch])
        rec.expect(bool(torch.allclose(got, want, atol=1e-4)), "rows", lambda: f"rows with different conditions in one batch give {got.tolist()[:4]}, one condition at a time {want.tolist()[:4]} ({rep})", rep)
        # gradients reach the network
        m.zero_grad()
        m(torch.stack([b[0] for b in batch])).sum().backward()
        gs = [q.grad for q in m.parameters() if q.requires_grad]
        rec.expect(all(q is not None and bool(torch.isfinite(q).all()) for q in gs), "gradient", lambda: f"a parameter gets no finite gradient ({rep})", rep)
        rec.sample(rep)
    return case


def sampler(kw, tc, seed, sharp=False):
    """imputations follow the conditional distribution given the condition; batches of rows with their own conditions"""
    def case(rec):
        F, C, K = kw["F"], kw["C"], kw["K"]
        half = F // 2
        m, plain, idx = models(kw, tc, seed, None, sharp)
        rep = dict(describe(kw, tc), seed=seed, sharp=sharp)
        dom = [float(v) for v in range(tc + 1)]
        conds = [torch.tensor(c).reshape(C, half) for c in itertools.product(dom, repeat=C * half)]
        opts = [M.NAN] + dom[:1] if C > 1 else [M.NAN]
        laws = {}
        for ci, cond in enumerate(conds):
            for part in itertools.product(opts, repeat=C * half):
                if not any(v != v for v in part):
                    continue
                e = torch.empty(C, F)
                e[:, :half] = torch.tensor(part).reshape(C, half)
                e[:, idx] = cond
                p = plain(cond)
                miss = torch.isnan(e)
                comp = M.grid(dom, int(miss.sum()))
                x = e.repeat(len(comp), 1, 1)
                x[miss.expand_as(x)] = comp.flatten()
                with torch.no_grad():
                    ll = uniform_mixture(p(x).double())
                want = {rows(x[i]): float((ll[i] - torch.logsumexp(ll, 0)).exp()) for i in range(len(x))}
                laws[(ci, part)] = (e, want)
                ways = [("nan", lambda: m.sample(evidence=e[None]))]
                if C == 1:
                    junk = torch.nan_to_num(e, nan=dom[-1])[None]
                    ways.append(("scopes", lambda: m.sample(evidence=junk, marginalized_scopes=list(range(half)))))
                for how, f in ways:
                    got, ex = exact(f)
                    rec.explored(ex)
                    d, at = distance(got, want)
                    for k in got:
                        rec.outcome(k)
                    rec.expect(d < 4e-4, how, lambda: f"evidence {e.tolist()}: sampler gives {got.get(at, 0):.5f}, conditional is {want.get(at, 0):.5f} to {at} ({rep})", dict(rep, evidence=e.tolist()))
        if sharp:
            picks = list(laws.values())
            for a, b in itertools.product(picks[:: max(1, len(picks) // 4)], repeat=2):
                e = torch.stack([a[0], b[0]])
                want = {k + j: v * w for k, v in a[1].items() for j, w in b[1].items() if v * w > 1e-9}
                got, ex = exact(lambda: m.sample(evidence=e))
                rec.explored(ex)
                d, at = distance(got, want)
                rec.expect(d < 4e-4, "batch", lambda: f"evidence {e.tolist()}: sampler gives {got.get(at, 0):.5f}, product of conditionals {want.get(at, 0):.5f} to {at} ({rep})", dict(rep, evidence=e.tolist()))
        rec.sample(rep)
    return case


def large(kw, tc, seed, n, stride):
    """rows of large batches, each with its own condition"""
    def case(rec):
        F, C = kw["F"], kw["C"]
        half = F // 2
        m, plain, idx = models(kw, tc, seed, None, False)
        rep = dict(describe(kw, tc), seed=seed)
        g = torch.Generator().manual_seed(seed)
        al = torch.randint(0, tc + 1, (9, C, F), generator=g).float()
        full = al.clone()
        al[:, :, :half] = M.NAN
        fs = [lambda i=i: m.sample(evidence=al[i : i + 1].clone()) for i in range(len(al))]
        at = torch.arange(n) * 4 % len(al)
        large_batch(rec, "large", {r: fs[int(at[r])] for r in range(n)}, lambda: m.sample(evidence=al[at].clone()), rep, stride)
        with torch.no_grad():
            ref = torch.cat([m(v[None]) for v in full])
            for size in (n, 31, 64, 65, 129, 257, 1025):
                at2 = torch.arange(size) * 5 % len(al)
                got = m(full[at2].clone())
                rec.ran()
                rec.expect(got.shape == ref[at2].shape and torch.allclose(got, ref[at2], atol=2e-5), "large-forward", lambda: f"a batch of {size} rows differs from its rows alone ({rep})", rep)
    return case


def modes(kw, tc, seed):
    """MPE and modes at the leaves agree with the plain circuit of the same condition; no draw in MPE"""
    def case(rec):
        F, C = kw["F"], kw["C"]
        half = F // 2
        m, plain, idx = models(kw, tc, seed)
        rep = dict(describe(kw, tc), seed=seed)
        dom = [float(v) for v in range(tc + 1)]
        conds = M.grid(dom, C * half).reshape(-1, C, half)
        conds = conds[:: max(1, len(conds) // 16)]
        es, ws = [], []
        for cond in conds:
            for miss in M.subsets(half):
                if not miss:
                    continue
                e = torch.ones(C, F)
                e[:, list(miss)] = M.NAN
                e[:, idx] = cond
                torch.manual_seed(3)
                mark = torch.get_rng_state()
                got = m.mpe(evidence=e[None])
                rec.ran()
                rec.state()
                rec.expect(torch.equal(mark, torch.get_rng_state()), "mpe-draws", "MPE makes a random draw", rep)
                want = plain(cond).mpe(evidence=e[None])
                rec.expect(got.shape == want.shape and torch.equal(got, want), "mpe", lambda: f"evidence {e.tolist()}: MPE {got.tolist()}, the circuit with these leaves gives {want.tolist()} ({rep})", dict(rep, evidence=e.tolist()))
                rec.outcome(rows(got))
                es.append(e)
                ws.append(want[0])
                if F == 2:
                    a, ex = exact(lambda: m.sample(evidence=e[None], mpe_at_leaves=True))
                    rec.explored(ex)
                    p = plain(cond)
                    b, _ = exact(lambda: p.sample(evidence=e[None], mpe_at_leaves=True))
                    d, at = distance(a, b)
                    rec.expect(d < 1e-5, "modes", lambda: f"evidence {e.tolist()}: modes at the leaves give {a}, the circuit with these leaves gives {b} ({rep})", dict(rep, evidence=e.tolist()))
        got = m.mpe(evidence=torch.stack(es))
        rec.expect(torch.equal(got, torch.stack(ws)), "mpe-rows", f"MPE of a batch differs from that of its rows ({rep})", rep)
        rec.sample(rep)
    return case


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for st, la in ARCH:
        for tc in (1, 2, 3):
            for C, L, R, K, depth in ((1, 2, 1, 1, 1), (1, 3, 2, 2, 1), (2, 2, 2, 1, 0), (2, 3, 1, 2, 1)):
                kw = dict(structure=st, layer=la, F=2, C=C, L=L, R=R, K=K, depth=depth)
                for s in range(3 if big else 1):
                    out.append((f"density/{st}/{la}/tc{tc}C{C}L{L}R{R}K{K}d{depth}/s{s}", density(kw, tc, seed + s)))
                    out.append((f"modes/{st}/{la}/tc{tc}C{C}L{L}R{R}K{K}d{depth}/s{s}", modes(kw, tc, seed + s)))
        for R, depth, order in ((1, 1, None), (2, 2, [5, 6, 7, 4]), (2, 1, [7, 6, 5, 4]), (1, 3, [6, 4, 7, 5])):
            kw = dict(structure=st, layer=la, F=8, C=1, L=2, R=R, K=1, depth=depth)
            out.append((f"density/{st}/{la}/F8R{R}d{depth}", density(kw, 1, seed, order)))
            if order is None or big:
                out.append((f"modes/{st}/{la}/F8R{R}d{depth}", modes(kw, 2, seed)))
        for C, L, R, K, tc in ((1, 2, 1, 1, 2), (1, 2, 1, 2, 1), (1, 2, 2, 1, 1), (2, 1, 1, 1, 1)) + (((1, 2, 2, 2, 1), (1, 3, 1, 1, 2)) if big else ()):
            kw = dict(structure=st, layer=la, F=2, C=C, L=L, R=R, K=K, depth=1)
            out.append((f"sample/{st}/{la}/tc{tc}C{C}L{L}R{R}K{K}", sampler(kw, tc, seed)))
        for n, F, C, L, R, K, tc, stride in ((5, 2, 1, 2, 2, 2, 2, 1), (33, 2, 1, 2, 1, 1, 1, 1), (3, 8, 1, 2, 1, 2, 1, 1), (270, 2, 1, 2, 1, 1, 1, 67)):
            out.append((f"large/{st}/{la}/n{n}F{F}", large(dict(structure=st, layer=la, F=F, C=C, L=L, R=R, K=K, depth=1), tc, seed, n, stride)))
        for C, L, R, K, tc in ((1, 2, 2, 2, 1), (2, 2, 2, 1, 1), (1, 3, 2, 1, 2)):
            kw = dict(structure=st, layer=la, F=2, C=C, L=L, R=R, K=K, depth=1)
            out.append((f"sharp/{st}/{la}/tc{tc}C{C}L{L}R{R}K{K}", sampler(kw, tc, seed, True)))
    return out
