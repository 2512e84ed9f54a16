"""C18: a mixture routes inputs to the closest component and samples from the weighted components."""
import itertools

import torch

from .. import conv as V
from .. import models as M
from ..sampling import distance, exact, large_batch, rows, seeds_reach

from fast_pytorch_kmeans import KMeans  # noqa: E402  (the stand-in)
from simple_einet.mixture import Mixture  # noqa: E402

LEVEL = "model_checking"
BOUNDS = ("2 and 3 components; every clustering of 4 training rows (environment answer of k-means); every batch of up to 3 rows over an alphabet of 6, every assignment of up to 5 rows to components, every missing pattern, "
          "every subset as marginalized_scopes; every answer of every draw for up to 3 samples; batches of up to 300 rows: the most probable draws and every single deviation from them (300 rows: of a few rows), forward up to 1025 rows")


def build(n, cfg, seed, shape=None):
    torch.manual_seed(seed)
    mix = Mixture(n, cfg, shape) if shape is not None else Mixture(n, cfg)
    for i, m in enumerate(mix.models):
        M.randomize(m, seed + 10 * i)
    return mix.eval()


def setup(mix, weights, cents):
    """the state of an initialised mixture"""
    with torch.no_grad():
        mix.mixture_weights.data = torch.tensor(weights)
        mix.centroids.data = torch.tensor(cents)
    return mix


def nearest(cents, x, keep):
    """indices of the closest centroids on the features in keep (several on ties)"""
    d = [sum((c[i] - x[i]) ** 2 for i in keep) for c in cents]
    return [k for k in range(len(d)) if d[k] < min(d) + 1e-6]


def product(laws):
    out = {(): 1.0}
    for q in laws:
        out = {a + b: p * r for a, p in out.items() for b, r in q.items() if p * r > 1e-12}
    return out


def blend(laws, w):
    out = {}
    for q, v in zip(laws, w):
        for k, p in q.items():
            out[k] = out.get(k, 0.0) + v * p
    return out


def same(rec, got, want, key, msg, rep):
    d, at = distance(got, want)
    for k in list(got)[:50]:
        rec.outcome(k)
    rec.expect(d < 3e-4, key, lambda: f"{msg}: {at} has probability {got.get(at, 0):.5f} instead of {want.get(at, 0):.5f} ({rep})", rep)


CENTS = {2: ((0.0, 0.25), (1.0, 0.9)), 3: ((0.0, 0.1), (1.0, 0.8), (0.3, 1.0))}
WEIGHTS = {2: (0.3, 0.7), 3: (0.2, 0.5, 0.3)}


def small(n, seed, C=1, K=1, D=2, **kw):
    cfg = M.config(leaf="cat2", D=D, C=C, K=K, S=1, L=1, R=1, depth=1 if D > 1 else 0, **kw)
    mix = build(n, cfg, seed)
    cents = [tuple(c[i % 2] + 0.05 * (i // 2) for i in range(C * D)) for c in CENTS[n]]
    return cfg, setup(mix, WEIGHTS[n], cents), cents


def sampling(n, seed, K=1, C=1):
    """unconditional samples: clusters by weight, in order, independent rows"""
    def case(rec):
        cfg, mix, cents = small(n, seed, K=K, C=C)
        rep = {"components": n, "classes": K, "C": C, "seed": seed}
        w = WEIGHTS[n]
        for kw in (dict(), dict(temperature_leaves=0.5), dict(mpe_at_leaves=True), dict(temperature_sums=2.0)) + ((dict(class_index=1),) if K > 1 else ()):
            comp = [exact(lambda: m.sample(1, **kw))[0] for m in mix.models]
            one = blend(comp, w)
            for k in (1, 2, 3) if K * C == 1 else (1, 2):
                if k == 3 and kw:
                    continue
                got, ex = exact(lambda: mix.sample(k, **kw))
                rec.explored(ex)
                same(rec, got, product([one] * k), "law", f"sample({k}, {kw})", rep)
            for per in (1, 2) if n == 2 and K * C == 1 and not kw else (1,):
                if K * C > 1 and n == 3:
                    continue
                got, ex = exact(lambda: mix.sample(num_samples_per_cluster=per, **kw))
                rec.explored(ex)
                same(rec, got, product([comp[i] for i in range(n) for _ in range(per)]), "per-cluster", f"sample(num_samples_per_cluster={per}, {kw})", rep)
        got, ex = exact(lambda: mix.sample())
        rec.explored(ex)
        same(rec, got, blend([exact(lambda: m.sample(1))[0] for m in mix.models], w), "default", "sample()", rep)
        top = max(range(n), key=lambda i: w[i])
        for k in (1, 2, 3):
            torch.manual_seed(0)
            a = mix.sample(k, is_mpe=True)
            torch.manual_seed(0)
            b = mix.models[top].sample(k, is_mpe=True)
            rec.ran(2)
            rec.state()
            rec.expect(a.shape == b.shape and torch.equal(a, b), "mpe", lambda: f"MPE of {k} samples gives {a.tolist()}, the component of largest weight {b.tolist()} ({rep})", rep)
        a, b = mix.mpe(), mix.models[top].mpe()
        rec.expect(torch.equal(a, b), "mpe", f"mpe() gives {a.tolist()} instead of {b.tolist()} ({rep})", rep)
        rec.sample(rep)
    return case


def seeded(n, seed, K=1):
    def case(rec):
        cfg, mix, cents = small(n, seed, K=K)
        e = torch.tensor([[[0.0, M.NAN]], [[M.NAN, 1.0]], [[M.NAN, 0.0]]])
        for kw in (dict(num_samples=5), dict(num_samples_per_cluster=2), dict(evidence=e), dict(evidence=torch.nan_to_num(e), marginalized_scopes=[0]), dict(num_samples=4, is_mpe=True)):
            ref = {}
            for s in range(6):
                for pre in range(4):
                    torch.manual_seed(pre)
                    mark = torch.get_rng_state()
                    x = mix.sample(seed=s, **kw)
                    rec.ran()
                    rec.state()
                    rec.expect(torch.equal(mark, torch.get_rng_state()), "seed-state", f"seeded sampling moves the generator ({kw})")
                    k = ref.setdefault(s, x)
                    rec.expect(torch.equal(torch.nan_to_num(k), torch.nan_to_num(x)), "seed", lambda: f"sample(seed={s}) gives {k.tolist()} or {x.tolist()}, depending on the generator ({kw})")
                    rec.outcome(hash(rows(x)))
            if "num_samples" in kw and "is_mpe" not in kw:
                rec.expect(len({rows(v) for v in ref.values()}) > 1, "seed-constant", "six different seeds give the same samples")
            torch.manual_seed(1)
            a = torch.get_rng_state()
            mix.sample(**kw)
            if "is_mpe" not in kw:
                rec.expect(not torch.equal(a, torch.get_rng_state()), "unseeded", f"unseeded sampling does not advance the generator ({kw})")
    return case


def forward(n, seed, C, D, K, form):
    """each row by the component with the closest centroid, in the order of the batch; marginalised features do not count"""
    def case(rec):
        cfg, mix, cents = small(n, seed, C=C, D=D, K=K)
        alpha = [tuple(float((v >> i) & 1) for i in range(C * D)) for v in range(2 ** (C * D))]
        alpha = alpha if len(alpha) <= 6 else alpha[:: len(alpha) // 6][:6]
        rep = {"components": n, "C": C, "D": D, "K": K, "layout": form}

        def lay(r):
            x = torch.tensor(r).reshape(len(r), C, D)
            if form == "2d":
                return x.reshape(len(r), C * D)
            if form == "4d":
                return x.reshape(len(r), C, 1, D)
            return x

        def check(batch, keepers, got, key, call):
            for i, r in enumerate(batch):
                ks = nearest(cents, r, keepers[i])
                want = [call(mix.models[k], lay([r])) for k in ks]
                rec.expect(any(got[i].shape == u[0].shape and bool(torch.allclose(got[i], u[0], atol=1e-5)) for u in want), key,
                           lambda: f"row {i} of {batch}: {got[i].tolist()}, component {ks} gives {[u[0].tolist() for u in want]} ({rep})", dict(rep, batch=batch))

        every = list(range(C * D))
        with torch.no_grad():
            for k in (1, 2, 3):
                for batch in itertools.product(alpha, repeat=k):
                    x = lay(batch)
                    got = mix(x)
                    rec.ran()
                    rec.state()
                    rec.outcome(hash(rows(got)))
                    if rec.expect(tuple(got.shape) == (k, K), "shape", f"output of shape {tuple(got.shape)} for {k} rows", rep):
                        check(batch, [every] * k, got, "forward", lambda m, z: m(z))
                    if k < 3:
                        for S in M.subsets(D):
                            if not S or len(S) == D:
                                continue
                            keep = [i for i in every if i % D not in S]
                            got = mix(x, list(S))
                            check(batch, [keep] * k, got, "scopes", lambda m, z: m(z, list(S)))
            # missing entries
            parts = [p for p in itertools.product((0.0, 1.0, M.NAN), repeat=C * D) if any(v == v for v in p)]
            parts = parts if len(parts) < 30 else parts[:: len(parts) // 24]
            for batch in itertools.product(parts, repeat=2):
                got = mix(lay(batch))
                rec.ran()
                rec.state()
                check(batch, [[i for i in every if r[i] == r[i]] for r in batch], got, "partial", lambda m, z: m(z))
        rec.sample(rep)
    return case


def ordering(n, seed, most):
    """longer batches: every assignment of the rows to components, so that the order of the results is told apart from its inverse"""
    def case(rec):
        cfg, mix, cents = small(n, seed)
        with torch.no_grad():
            for k in range(1, most + 1):
                for ks in itertools.product(range(n), repeat=k):
                    x = torch.tensor([cents[c] for c in ks]).round().reshape(k, 1, 2)
                    # rows of the same component differ where the alphabet allows it: one entry of every other row is missing
                    y = x.clone()
                    y[1::2, 0, 1] = M.NAN
                    y[::2, 0, 0] = M.NAN
                    got, part, mode = mix(x), mix(y), mix.mpe(evidence=y)
                    rec.ran(3)
                    rec.state()
                    rec.outcome(ks)
                    for i in range(k):
                        full = [i for i in range(2)]
                        for r, z, keep, what, fn in ((got, x, full, "forward", lambda m, e: m(e)), (part, y, [f for f in full if not torch.isnan(y[i, 0, f])], "partial", lambda m, e: m(e)),
                                                     (mode, y, [f for f in full if not torch.isnan(y[i, 0, f])], "mpe-rows", lambda m, e: m.mpe(evidence=e))):
                            near = nearest(cents, z[i, 0].tolist(), keep)
                            want = [fn(mix.models[c], z[i:i + 1])[0] for c in near]
                            rec.expect(any(r[i].shape == u.shape and bool(torch.allclose(r[i], u, atol=1e-5)) for u in want), "order-" + what,
                                       lambda: f"row {i} of a batch assigned to components {ks}: {r[i].tolist()} instead of {[u.tolist() for u in want]} ({what})", {"rows": ks, "what": what})
        rec.sample({"components": n, "rows": most})
    return case


def conditional(n, seed, C, K=1, deep=False):
    """every row is completed by the component that is closest on its observed entries"""
    def case(rec):
        cfg, mix, cents = small(n, seed, C=C, K=K)
        D = 2
        every = list(range(C * D))
        parts = [p for p in itertools.product((0.0, 1.0, M.NAN), repeat=C * D) if any(v == v for v in p)]
        parts = parts if C == 1 else parts[::7] if deep else parts[::11]
        rep = {"components": n, "C": C, "K": K, "seed": seed}

        def rowlaw(r, keep, kw, lim):
            k = nearest(cents, r, keep)
            e = torch.tensor(r).reshape(1, C, D)
            return [exact(lambda: mix.models[i].sample(evidence=e, **lim, **kw))[0] for i in k]

        options = (dict(), dict(temperature_leaves=0.5), dict(mpe_at_leaves=True), dict(is_mpe=True))
        for kw in options if deep or n == 2 and C == 1 else options[::3]:
            laws = {r: rowlaw(r, [i for i in every if r[i] == r[i]], kw, {}) for r in parts}
            for k in (1, 2):
                if k == 2 and n > 2 and C * K > 1 and not deep:
                    continue
                if k == 2 and (C * K > 1 or n > 2) and kw:
                    continue
                full = k == 1 or C * K == 1 and (n == 2 or deep)
                step = 1 if deep or C == 1 else 2
                pairs = [(parts[i], parts[-1 - i]) for i in range(0, len(parts), step)]
                for batch in itertools.product(parts, repeat=k) if full else pairs:
                    e = torch.tensor(batch).reshape(k, C, D)
                    keep = e.clone()
                    got, ex = exact(lambda: mix.sample(evidence=e, **kw))
                    rec.explored(ex)
                    cands = [product(c) for c in itertools.product(*[laws[r] for r in batch])]
                    want = min(cands, key=lambda c: distance(got, c)[0])
                    same(rec, got, want, "conditional", f"sample(evidence={list(batch)}, {kw})", rep)
                    rec.expect(torch.equal(torch.nan_to_num(e, nan=-3.0), torch.nan_to_num(keep, nan=-3.0)), "mutated", "the evidence was changed", rep)
        for S in ([0], [1], [-1], torch.tensor([0]), []):
            whole = list(itertools.product((0.0, 1.0), repeat=C * D))
            for r in whole if deep or C == 1 else whole[::4]:
                e = torch.tensor(r).reshape(1, C, D)
                for kw in (dict(), dict(is_mpe=True)):
                    got, ex = exact(lambda: mix.sample(evidence=e, marginalized_scopes=S, **kw))
                    rec.explored(ex)
                    cands = rowlaw(r, [i for i in every if i % D not in {int(j) % D for j in S}], kw, dict(marginalized_scopes=S))
                    same(rec, got, min(cands, key=lambda c: distance(got, c)[0]), "conditional-scopes", f"sample(evidence={r}, marginalized_scopes={S}, {kw})", rep)
        rec.sample(rep)
    return case


def large(n, seed, k, stride, K=1):
    """rows of large batches are drawn, completed and evaluated as they would be alone"""
    def case(rec):
        cfg, mix, cents = small(n, seed, K=K)
        rep = {"components": n, "K": K, "seed": seed}
        f = lambda: mix.sample(1)
        large_batch(rec, "large", {r: f for r in range(k)}, lambda: mix.sample(k), rep, stride)
        al = torch.tensor([p for p in itertools.product((0.0, 1.0, M.NAN), repeat=2) if any(v == v for v in p)]).reshape(-1, 1, 2)
        fs = [lambda i=i: mix.sample(evidence=al[i : i + 1].clone()) for i in range(len(al))]
        idx = torch.arange(k) * 3 % len(al)
        large_batch(rec, "large-conditional", {r: fs[int(idx[r])] for r in range(k)}, lambda: mix.sample(evidence=al[idx].clone()), rep, stride)
        with torch.no_grad():
            ref = torch.cat([mix(v[None]) for v in al])
            for size in (k, 64, 65, 129, 257, 1025):
                idx = torch.arange(size) * 5 % len(al)
                got = mix(al[idx].clone())
                rec.ran()
                rec.expect(got.shape == ref[idx].shape and torch.allclose(got, ref[idx], atol=1e-5), "large-forward", lambda: f"a batch of {size} rows differs from its rows alone ({rep})", rep)
    return case


def seeds(n, seed):
    """with a seed, too, all draws of a call are independent of one another"""
    def case(rec):
        cfg, mix, cents = small(n, seed)
        setup(mix, [1.0 / n] * n, cents)
        for i, m in enumerate(mix.models):
            M.randomize(m, seed + i, 0.0)
        rep = {"components": n, "seed": seed}
        one = blend([exact(lambda: m.sample(1))[0] for m in mix.models], [1.0 / n] * n)
        for k in (1, 2):
            want = product([one] * k)
            seeds_reach(rec, "seed argument", lambda s: mix.sample(k, seed=s), want, rep, least=max(0.03, max(want.values()) * 0.9))
        e = torch.full((2, 1, 2), M.NAN)
        e[0, 0, 0], e[1, 0, 1] = 0.0, 1.0
        laws = [exact(lambda: mix.sample(evidence=e[i : i + 1]))[0] for i in range(2)]
        seeds_reach(rec, "conditional", lambda s: mix.sample(evidence=e, seed=s), product(laws), rep, least=0.05)
    return case


def layouts(n, seed, C):
    """other strides and shapes of the same data, other spellings of the same scopes"""
    def case(rec):
        cfg, mix, cents = small(n, seed, C=C, D=4, K=1)
        rep = {"components": n, "C": C, "seed": seed}
        vals = (0.0, 1.0, M.NAN)
        pats = [p for p in itertools.product(vals, repeat=4) if any(v == v for v in p)]
        x = torch.tensor([p if i == 0 else p[::-1] for p in pats for i in range(C)]).reshape(-1, C, 4)
        ref = mix(x)
        full = mix.mpe(evidence=x)
        img = x.reshape(-1, C, 2, 2)
        alts = {"[N,C,H,W]": img, "transposed image": img.transpose(2, 3).contiguous().transpose(2, 3), "channels last": img.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2),
                "sliced": torch.stack([x, x], -1)[..., 0], "transposed": x.transpose(1, 2).contiguous().transpose(1, 2)}
        if C == 1:
            alts["[N,D]"] = x.reshape(-1, 4)
        for name, y in alts.items():
            got = mix(y)
            rec.ran(2)
            rec.state(len(y))
            rec.expect(got.shape == ref.shape and bool(torch.allclose(got, ref, atol=1e-5)), "layout", lambda: f"log-likelihoods of {name} differ from those of [N,C,D] ({rep})", rep)
            fill = mix.mpe(evidence=y)
            rec.expect(fill.shape == y.shape and torch.equal(fill.reshape(full.shape), full), "layout-mpe", lambda: f"MPE of {name} differs from that of [N,C,D] ({rep})", rep)
        whole = torch.tensor(list(itertools.product((0.0, 1.0), repeat=4))).reshape(-1, 1, 4).repeat(1, C, 1)
        for S in M.subsets(4):
            if len(S) == 4:
                continue
            y = whole.clone()
            y[:, :, list(S)] = M.NAN
            want = mix(y)
            for sc in (list(S), [i - 4 for i in S], torch.tensor(S, dtype=torch.long)):
                got = mix(whole, sc)
                rec.ran()
                rec.state(len(whole))
                rec.expect(got.shape == want.shape and bool(torch.allclose(got, want, atol=1e-5)), "scopes", lambda: f"scopes {sc!r}: {got.flatten().tolist()}, missing entries give {want.flatten().tolist()} ({rep})", rep)
        for v in ref.flatten().tolist():
            rec.outcome(v)
    return case


def initialise(n, leaf, seed, how, C=1):
    """weights are the cluster frequencies, centroids those of k-means, whatever clustering k-means answers"""
    def case(rec):
        lt, kw, dom = M.leaf_spec(leaf)
        cfg = M.config(leaf=leaf, D=2, C=C, S=1, L=1, R=1, depth=1)
        data = torch.tensor([[0.0, 0.0], [0.25, 1.0], [1.0, 0.5], [1.0, 1.0]]).reshape(4, 1, 2).repeat(1, C, 1)
        if C > 1:
            data = data + torch.arange(C).reshape(1, C, 1) * 0.1
        for labels in itertools.product(range(n), repeat=4):
            KMeans.answer = lambda X, k: torch.tensor(labels)
            try:
                mix = build(n, cfg, seed)
                if how == "data":
                    mix.initialize(data=data.clone() if C == 1 else data.transpose(1, 2).contiguous().transpose(1, 2))
                else:
                    dl = [(data[:2].clone(), torch.zeros(2)), (data[2:].clone(), torch.zeros(2))]
                    mix.initialize(dataloader=dl, device="cpu")
            finally:
                KMeans.answer = None
            rec.ran()
            rec.state()
            rep = {"labels": labels, "components": n, "leaf": leaf}
            want = torch.tensor([labels.count(k) / 4 for k in range(n)])
            w = mix.mixture_weights
            rec.expect(tuple(w.shape) == (n,) and bool(torch.allclose(w.float(), want)), "weights", lambda: f"mixture weights {w.tolist()} instead of {want.tolist()} ({rep})", rep)
            scale = kw.get("total_count", 1)
            flat = data.reshape(4, -1)
            for k in range(n):
                if k in labels:
                    c = flat[[i for i in range(4) if labels[i] == k]].mean(0) * scale
                    rec.expect(bool(torch.allclose(mix.centroids[k].float(), c, atol=1e-5)), "centroids", lambda: f"centroid {k} is {mix.centroids[k].tolist()} instead of {c.tolist()} ({rep})", rep)
            # the state of an initialised mixture can be stored and loaded
            other = build(n, cfg, seed + 5)
            other.load_state_dict(mix.state_dict())
            x = torch.zeros(3, C, 2)
            with torch.no_grad():
                rec.expect(torch.equal(other(x), mix(x)), "state", f"a loaded mixture gives other likelihoods ({rep})", rep)
            rec.outcome(hash(tuple(w.tolist())))
        rec.sample(rep)
    return case


def conv(n, st, od, seed):
    def case(rec):
        cfg, shape = V.config(leaf="cat2", channels=(1,), H=2, W=2, structure=st, order=od)
        mix = build(n, cfg, seed, shape)
        cents = [tuple(c[i % 2] for i in range(4)) for c in CENTS[n]]
        setup(mix, WEIGHTS[n], cents)
        rep = {"components": n, "structure": st, "order": od}

        def law(fn):
            from ..explore import Explorer
            ex, out = Explorer(60000), {}

            def run(ch):
                with V.Draws(ch):
                    return rows(fn())
            for r, p, _ in ex.run(run):
                out[r] = out.get(r, 0.0) + p
            rec.explored(ex)
            return out

        alpha = list(itertools.product((0.0, 1.0), repeat=4))
        with torch.no_grad():
            for batch in itertools.product(alpha[::3], repeat=2):
                x = torch.tensor(batch).reshape(2, 1, 2, 2)
                got = mix(x)
                rec.ran()
                for i, r in enumerate(batch):
                    want = [mix.models[k](x[i:i + 1])[0] for k in nearest(cents, r, range(4))]
                    rec.expect(any(bool(torch.allclose(got[i], u, atol=1e-5)) for u in want), "conv-forward", lambda: f"row {i} of {batch}: {got[i].tolist()} instead of {want} ({rep})", rep)
        comp = [law(lambda: m.sample(1)) for m in mix.models]
        same(rec, law(lambda: mix.sample(1)), blend(comp, WEIGHTS[n]), "conv-law", "sample(1)", rep)
        for e in ((0.0, M.NAN, 1.0, 0.0), (M.NAN, M.NAN, M.NAN, 1.0), (1.0, 1.0, M.NAN, M.NAN)):
            t = torch.tensor(e).reshape(1, 1, 2, 2)
            ks = nearest(cents, e, [i for i in range(4) if e[i] == e[i]])
            got = law(lambda: mix.sample(evidence=t))
            cands = [law(lambda: mix.models[k].sample(evidence=t)) for k in ks]
            same(rec, got, min(cands, key=lambda c: distance(got, c)[0]), "conv-conditional", f"sample(evidence={e})", rep)
            S = [i for i in range(4) if e[i] != e[i]]
            full = torch.nan_to_num(t)
            got = law(lambda: mix.sample(evidence=full, marginalized_scopes=S))
            same(rec, got, min(cands, key=lambda c: distance(got, c)[0]), "conv-scopes", f"sample(evidence={e}, marginalized_scopes={S})", rep)
        rec.sample(rep)
    return case


def cases(tier, seed):
    big = tier == "thorough"
    out = []
    for n in (2, 3):
        for s in range(2):
            out.append((f"sample/{n}/s{s}", sampling(n, seed + s)))
        out.append((f"order/{n}", ordering(n, seed, {2: 7, 3: 5}[n] if big else {2: 5, 3: 4}[n])))
        out.append((f"sample/{n}/classes", sampling(n, seed, K=2)))
        out.append((f"sample/{n}/channels", sampling(n, seed, C=2)))
        for k, K, stride in ((6, 1, 1), (17, 2, 1), (70, 1, 1), (300, 1, 83)):
            out.append((f"large/{n}/n{k}K{K}", large(n, seed, k, stride, K)))
        out.append((f"seeds/{n}", seeds(n, seed)))
        out.append((f"seed/{n}", seeded(n, seed)))
        out.append((f"seed/{n}/classes", seeded(n, seed, K=2)))
        for C, D, K, form in ((1, 2, 1, "3d"), (1, 2, 2, "2d"), (2, 2, 1, "3d"), (1, 3, 1, "2d"), (2, 2, 2, "4d"), (2, 3, 1, "3d")):
            out.append((f"forward/{n}/C{C}D{D}K{K}/{form}", forward(n, seed, C, D, K, form)))
        for C in (1, 2):
            out.append((f"layouts/{n}/C{C}", layouts(n, seed, C)))
        for C, K in ((1, 1), (2, 1), (1, 2)):
            out.append((f"conditional/{n}/C{C}K{K}", conditional(n, seed, C, K, big)))
        for leaf in ("cat2", "norm", "bin2"):
            for how in ("data", "loader"):
                out.append((f"init/{n}/{leaf}/{how}", initialise(n, leaf, seed, how)))
        out.append((f"init/{n}/norm/channels", initialise(n, "norm", seed, "data", C=2)))
        for st, od in itertools.product(("bottom-up", "top-down"), ("sum-prod", "prod-sum")):
            out.append((f"conv/{n}/{st}/{od}", conv(n, st, od, seed)))
    return out
