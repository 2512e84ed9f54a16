"""C15: every leaf is a proper distribution with the documented parametrisation, also at saturated parameters."""
import itertools
import math

import torch

from .. import models as M
from ..sampling import distance, exact, rows

LEVEL = "model_checking"
BOUNDS = ("every parameter on a grid that includes saturated values (up to +-1e3), every value of the domain (continuous: quadrature over +-12 standard deviations), "
          "every answer of every draw; 1-2 channels, 1-2 leaves, 1-2 repetitions")
ARCH = (("top-down", "linsum"), ("bottom-up", "linsum"))
SAT = (0.0, 0.3, -0.7, 2.0, -4.0, 9.0, -16.0, 18.0, -30.0, 60.0, -200.0, 1000.0, -1000.0)


def sigmoid(v):
    return 1 / (1 + math.exp(-v)) if v >= 0 else math.exp(v) / (1 + math.exp(v))


def logsig(v):  # log sigmoid(v)
    return -math.log1p(math.exp(-v)) if v > -30 else v


def fill(param, value):
    with torch.no_grad():
        param.copy_(torch.as_tensor(value, dtype=param.dtype).expand_as(param))


def log_probs(leaf, values):
    """[V] log probabilities of the (single) leaf"""
    x = torch.tensor(values, dtype=torch.float).reshape(-1, 1, 1)
    with torch.no_grad():
        return leaf(x, None).reshape(len(values)).double()


def one(cls, **kw):
    return cls(num_features=1, num_channels=1, num_leaves=1, num_repetitions=1, **kw)


def discrete(name, params):
    """value by value against the textbook formula, normalised, right mode"""
    def case(rec):
        cls, kw, dom = M.leaf_spec(name)
        torch.manual_seed(0)
        leaf = one(cls, **kw)
        n = len(dom)
        for par in params:
            if cls is M.Categorical:
                fill(leaf.logits, torch.tensor(par).reshape(1, 1, 1, 1, 1, n))
                mx = max(par)
                lse = mx + math.log(sum(math.exp(a - mx) for a in par))
                want = [a - lse for a in par]
            elif cls is M.Bernoulli:
                fill(leaf.probs, par)
                want = [logsig(-par), logsig(par)]
            else:
                fill(leaf.logits, par)
                t = n - 1
                want = [math.log(math.comb(t, k)) + k * logsig(par) + (t - k) * logsig(-par) for k in range(n)]
            got = log_probs(leaf, dom)
            rep = {"leaf": name, "parameter": par}
            rec.ran()
            rec.state(n, n)
            extreme = max(abs(v) for v in (par if isinstance(par, tuple) else (par,))) > 14  # torch clamps probabilities to 1e-7
            rec.outcome(hash((name, str(par))))
            rec.expect(not bool(torch.isnan(got).any()), "nan", lambda: f"{name} with parameter {par}: log probabilities {got.tolist()}", rep)
            rec.expect(abs(float(got.exp().sum()) - 1) < 1e-4, "normalised", lambda: f"{name} with parameter {par}: probabilities {got.exp().tolist()} sum to {float(got.exp().sum())}", rep)
            for v, g, w in zip(dom, got.tolist(), want):
                rec.expect(abs(math.exp(g) - math.exp(w)) < 1e-4 and (w < -11 or extreme or abs(g - w) < 5e-3 * max(1, abs(w))), "formula", lambda: f"{name} with parameter {par}: log P({v}) = {g}, must be {w}", rep)
            # mode and sampling through a model that is this leaf only
            m = M.build(M.config(leaf=name, D=2, S=1, L=1, depth=1), 1)
            src = leaf.state_dict()
            base = M.leaf_modules(m, cls)[0]
            for k in ("logits", "probs"):
                if k in src:
                    fill(getattr(base, k), src[k])
            mode = m.mpe().detach().reshape(-1).tolist()
            for v in mode:
                rec.expect(v in dom and math.exp(want[int(v)]) >= math.exp(max(want)) - 1e-5, "mode", lambda: f"{name} with parameter {par}: mode {v}, probabilities {[round(math.exp(w), 5) for w in want]}", rep)
            mode = m.mpe(is_differentiable=True).detach().reshape(-1).tolist()
            for v in mode:
                rec.expect(abs(v - round(v)) < 1e-3 and round(v) in range(n) and math.exp(want[round(v)]) >= math.exp(max(want)) - 1e-5, "diff-mode", lambda: f"{name} with parameter {par}: differentiable mode {v}", rep)
            if n <= 4:
                law, ex = exact(lambda: m.sample(num_samples=1))
                rec.explored(ex)
                spec = {tuple(c): math.exp(sum(want[int(v)] for v in c)) for c in itertools.product(dom, repeat=2)}
                d, at = distance(law, spec)
                rec.expect(d < 1e-4, "sampling", lambda: f"{name} with parameter {par}: P(sample = {at}) = {law.get(at, 0)}, must be {spec.get(at, 0)}", rep)
        rec.sample({"leaf": name, "parameters": len(params)})
    return case


def normal(rec):
    leaf = one(M.Normal)
    for mu, lv in itertools.product((0.0, -3.0, 250.0, 1e-3), (0.0, -4.0, 3.0, -12.0, 8.0)):
        fill(leaf.means, mu)
        fill(leaf.logvar, lv)
        sd = math.exp(0.5 * lv)
        gaussian(rec, f"Normal(mean={mu}, logvar={lv})", leaf, mu, sd, lambda m, mu=mu, lv=lv: (fill(M.leaf_modules(m, M.Normal)[0].means, mu), fill(M.leaf_modules(m, M.Normal)[0].logvar, lv)), "norm")


def gaussian(rec, what, leaf, mu, sd, setter, name, tol=1e-3, kw=None):
    rep = {"leaf": what}
    rec.ran()
    rec.outcome(what)
    zs = (-30.0, -5.0, -2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 3.0, 12.0)
    xs = [mu + z * sd for z in zs]
    got = log_probs(leaf, xs).tolist()
    rec.state(len(xs), len(xs))
    for x, g in zip(xs, got):
        x32 = float(torch.tensor(x, dtype=torch.float))
        z = (x32 - mu) / sd
        w = -0.5 * z * z - math.log(sd) - 0.5 * math.log(2 * math.pi)
        # the argument is a 32-bit number: its rounding shows for large means
        slack = abs(z) * abs(mu) * 2e-7 / sd + 1e-3 + 3e-6 * z * z
        rec.expect(abs(g - w) < slack, "density", lambda: f"{what}: log density at {x32} is {g}, must be {w}", rep)
    # integral (trapezoid, +-12 standard deviations)
    n = 4001
    grid = torch.linspace(-12, 12, n, dtype=torch.double) * sd + mu
    lp = log_probs(leaf, grid.float().tolist())
    integral = float(torch.trapezoid(lp.exp(), grid))
    if abs(mu) / sd < 1e3:
        rec.expect(abs(integral - 1) < 5e-3, "normalised", lambda: f"{what}: the density integrates to {integral}", rep)
    if setter is not None:
        M_kw = dict(leaf=name, D=2, S=1, L=1, depth=1)
        for st in ("top-down", "bottom-up"):
            cfg = M.config(structure=st, **M_kw)
            if kw:
                cfg = M.EinetConfig(**{**cfg.__dict__, "leaf_kwargs": kw})
            m = M.build(cfg, 1)
            setter(m)
            mode = m.mpe().detach().reshape(-1).tolist()
            rec.expect(all(abs(v - mu) < 1e-4 * max(1, abs(mu)) for v in mode), "mode", lambda: f"{what}: mode {mode}", rep)
            law, ex = exact(lambda: m.sample(num_samples=1), eps=(-1.0, 0.0, 2.0))
            rec.explored(ex)
            want = {(float(mu + a * sd), float(mu + b * sd)) for a in (-1, 0, 2) for b in (-1, 0, 2)}
            ok = len(law) == len(set(tuple(round(v, 4) for v in w) for w in want)) and all(any(abs(a - c) + abs(b - d) < 2e-4 * max(1, abs(mu), sd) for c, d in want) for a, b in law)
            rec.expect(ok, "sampling", lambda: f"{what}: standard-normal answers -1, 0, 2 give {sorted(law)}, must be mean + answer * deviation: {sorted(want)}", rep)


def rat(rec):
    """the deviation stays in [min_sigma, max_sigma], the mean in [min_mean, max_mean], whatever the parameters"""
    for ms, xs in ((0.1, 1.0), (0.5, 0.75), (0.01, 0.0101), (1.0, 8.0)):
        for bounds in (None, (-1.0, 1.0), (-2.0, 0.0), (0.0, 3.0), (5.0, 6.0)):
            kw = dict(min_sigma=ms, max_sigma=xs)
            if bounds:
                kw.update(min_mean=bounds[0], max_mean=bounds[1])
            leaf = one(M.RatNormal, **kw)
            for mu, s in itertools.product((0.0, 1.5, -40.0, 1e3), (0.0, -2.0, 50.0, -1e3)):
                fill(leaf.means, mu)
                fill(leaf.stds, s)
                sd = ms + (xs - ms) * sigmoid(s)
                mean = mu if not bounds else bounds[0] + (bounds[1] - bounds[0]) * sigmoid(mu)
                lim = [log_probs(leaf, [mean])[0].item()]
                # density at the mode tells the deviation
                dev = math.exp(-lim[0]) / math.sqrt(2 * math.pi)
                what = f"RatNormal({kw}, means={mu}, stds={s})"
                rec.expect(ms * 0.999 <= dev <= xs * 1.001, "sigma-bound", lambda: f"{what}: deviation {dev} outside [{ms}, {xs}]", {"leaf": what})
                m = None
                st = (lambda m, mu=mu, s=s: (fill(M.leaf_modules(m, M.RatNormal)[0].means, mu), fill(M.leaf_modules(m, M.RatNormal)[0].stds, s))) if s in (0.0, 50.0) and abs(mean) < 100 else None
                gaussian(rec, what, leaf, mean, sd, st, "rat", kw=kw)


def mvn(card):
    def case(rec):
        g = torch.Generator().manual_seed(card)
        leaf = M.MultivariateNormal(num_features=card, num_channels=1, num_leaves=1, num_repetitions=1, cardinality=card)
        for k in range(12):
            with torch.no_grad():
                leaf.means.copy_(torch.randn(leaf.means.shape, generator=g) * (0.1, 1, 20)[k % 3])
                leaf.L_diag_log.copy_(torch.randn(leaf.L_diag_log.shape, generator=g) * (0.2, 1)[k % 2])
                leaf.L_offdiag.copy_(torch.randn(leaf.L_offdiag.shape, generator=g) * (0.0, 0.5, 2.0)[k % 3])
            mu = leaf.means.detach().double().reshape(card)
            L = torch.diag(leaf.L_diag_log.detach().double().reshape(card).exp()) + leaf.L_offdiag.detach().double().reshape(card, card).tril(-1)
            cov = L @ L.T
            inv = torch.linalg.inv(cov)
            pts = M.grid((-1.5, 0.0, 0.7), card).double() @ L.T + mu
            got = leaf(pts.float().reshape(-1, 1, card), None).detach().reshape(-1).double()
            d = pts.float().double() - mu
            want = -0.5 * torch.einsum("ni,ij,nj->n", d, inv, d) - torch.log(torch.diag(L)).sum() - 0.5 * card * math.log(2 * math.pi)
            rec.ran()
            rec.state(len(pts), len(pts))
            rec.outcome(k)
            rec.expect(bool((got - want).abs().max() < 5e-2), "density", lambda: f"multivariate normal of cardinality {card}: log densities differ by {float((got - want).abs().max())}", {"k": k})
            # symmetric in no accidental way: a permuted covariance must differ unless it is diagonal
            m = M.build(M.EinetConfig(num_features=2 * card, num_channels=1, num_sums=1, num_leaves=1, num_repetitions=1, depth=1, leaf_type=M.MultivariateNormal, leaf_kwargs=dict(cardinality=card)), 1)
            base = M.leaf_modules(m, M.MultivariateNormal)[0]
            with torch.no_grad():
                base.means.copy_(leaf.means.expand_as(base.means))
                base.means[:, 1] += 5.0  # the two groups are different
                base.L_diag_log.copy_(leaf.L_diag_log.expand_as(base.L_diag_log))
                base.L_offdiag.copy_(leaf.L_offdiag.expand_as(base.L_offdiag))
            mode = m.mpe().detach().reshape(-1).double()
            rec.expect(bool((mode - torch.cat([mu, mu + 5])).abs().max() < 1e-3), "mode", lambda: f"mode {mode.tolist()} instead of {mu.tolist()} and 5 more", {"k": k})
            if card <= 2:
                law, ex = exact(lambda: m.sample(num_samples=1), eps=(-1.0, 0.0, 2.0))
                rec.explored(ex)
                z = M.grid((-1.0, 0.0, 2.0), card).double() @ L.T + mu
                want = [tuple(torch.cat([a, b + 5]).tolist()) for a in z for b in z]
                # torch's own sampler may use the standard-normal answers in any order or orientation: compare the first two moments over all answers
                A = torch.tensor(list(law), dtype=torch.double)
                B = torch.tensor(want, dtype=torch.double)
                rec.expect(len(A) == len(B) and bool((A.mean(0) - B.mean(0)).abs().max() < 1e-2) and bool((torch.cov(A.T) - torch.cov(B.T)).abs().max() < 2e-2 * max(1.0, float(cov.abs().max()))), "sampling",
                           lambda: f"over all standard-normal answers the samples have mean {A.mean(0).tolist()} / covariance {torch.cov(A.T).tolist()}, must be {B.mean(0).tolist()} / {torch.cov(B.T).tolist()}", {"k": k})
    return case


def layout(leaf, C, D, L, R, seed):
    """a leaf layer is the array of its leaves: entry (c, d, l, r) depends on parameter (c, d, l, r) and input (c, d) only"""
    def case(rec):
        cls, kw, dom = M.leaf_spec(leaf)
        torch.manual_seed(seed)
        lay = cls(num_features=D, num_channels=C, num_leaves=L, num_repetitions=R, **kw)
        M.randomize(lay, seed)
        vals = dom if dom is not None else (-0.7, 0.2, 1.9)
        for v in itertools.product(vals, repeat=2):
            x = torch.tensor([v[(i % 2)] for i in range(2 * C * D)]).reshape(2, C, D)
            got = lay(x, None).detach()
            rec.expect(got.shape == (2, C, D, L, R), "shape", f"{leaf}: {tuple(got.shape)}")
            for c, d, l, r in itertools.product(range(C), range(D), range(L), range(R)):
                s = one(cls, **kw)
                with torch.no_grad():
                    for n, p in s.named_parameters():
                        q = dict(lay.named_parameters())[n]
                        if p.requires_grad:
                            p.copy_(q[:, c:c + 1, d:d + 1, l:l + 1, r:r + 1])
                want = s(x[:, c:c + 1, d:d + 1], None).detach().reshape(2)
                rec.ran()
                rec.state(2, 2)
                rec.outcome(hash((c, d, l, r, v)))
                rec.expect(bool((got[:, c, d, l, r] - want).abs().max() < 1e-4), "layout", lambda: f"{leaf}: channel {c}, feature {d}, leaf {l}, repetition {r} gives {got[:, c, d, l, r].tolist()}, alone {want.tolist()}", {"leaf": leaf, "x": x.tolist()})
    return case


def cases(tier, seed):
    th = tier == "thorough"
    res = {"normal": normal, "rat": rat}
    for c in (1, 2, 3):
        res[f"mvn{c}"] = mvn(c)
    for t in (1, 2, 3, 8, 15, 255) if th else (1, 2, 3, 8, 255):
        dense = [i / 7 - 6 for i in range(85)] if t <= 8 else []
        res[f"bin{t}"] = discrete(f"bin{t}", list(SAT) + dense[:: 1 if th else 3])
    res["ber"] = discrete("ber", list(SAT) + [i / 10 for i in range(-12, 13) if i])
    res["cat2"] = discrete("cat2", [(a, b) for a in SAT for b in SAT[:4] if a != b])
    res["cat3"] = discrete("cat3", [p for a, b in itertools.product(SAT[1:], SAT[:5]) for p in [(a, b, 0.11), (b, 0.11, a)]])
    res["cat1"] = discrete("cat1", [(0.0,), (5.0,), (-1000.0,)])
    res["cat4"] = discrete("cat4", [(a, -a, 0.5, b) for a in SAT[1:] for b in (0.0, 17.0)])
    for leaf in ("cat3", "bin2", "ber", "norm", "rat"):
        for C, D, L, R in ((1, 2, 2, 2), (2, 3, 2, 1), (2, 2, 1, 2)):
            res[M.cname(layout=leaf, C=C, D=D, L=L, R=R)] = layout(leaf, C, D, L, R, seed)
    return res
