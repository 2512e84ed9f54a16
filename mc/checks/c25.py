"""C25: gradients are finite and are the derivatives of the log-likelihood."""
import itertools

import torch

from .. import conv as V
from .. import models as M
from .c18 import setup

from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer  # noqa: E402
from simple_einet.einet import Einet, EinetConfig  # noqa: E402
from simple_einet.mixture import Mixture  # noqa: E402

LEVEL = "model_checking"
BOUNDS = ("every parameter of the model x every partial assignment of up to 3 variables (2 channels: 2 variables), every subset as marginalized_scopes, every class; all leaf families, layer types and structures, "
          "1-3 repetitions, 1-3 classes, depth<=2; values up to 1e3 and saturated leaf parameters (finiteness)")
NAN = float("nan")
ARCH = (("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum"))
LEAVES = ("cat3", "bin2", "ber", "norm", "rat", "mvn2", "multi")
EPS = 0.02


def einet(leaf, kw, seed):
    torch.manual_seed(seed)
    if leaf == "multi":
        D = kw["D"]
        cfg = EinetConfig(num_features=D, num_channels=kw.get("C", 1), num_sums=kw["S"], num_leaves=kw["L"], num_repetitions=kw["R"], num_classes=kw["K"], depth=kw["depth"], dropout=0.0,
                          leaf_type=MultiDistributionLayer, leaf_kwargs={"scopes_to_dist": [([D - 1], M.Normal, {}), (list(range(D - 1)), M.Binomial, {"total_count": 2})]},
                          layer_type=kw["layer"], structure=kw["structure"])
    else:
        cfg = M.config(leaf=leaf, **kw)
    m = Einet(cfg).eval()
    with torch.no_grad():
        for n, p in m.named_parameters():
            if p.requires_grad and p.numel() > 1:
                p.copy_(torch.randn(p.shape, generator=torch.Generator().manual_seed(seed + p.numel())) * 0.7)
    return m


def alphabet(leaf):
    if leaf == "cat3":
        return [0.0, 2.0]
    if leaf in ("norm", "rat", "mvn2"):
        return [-0.7, 0.4]
    return [0.0, 1.0]


def inputs(leaf, D, C):
    v = alphabet(leaf) + ([NAN] if leaf != "mvn2" else [])
    if D * C <= 4:
        x = M.grid(v, D * C)
    else:
        x = torch.tensor([[v[(i * (j + 1) + i // 3) % len(v)] for j in range(D * C)] for i in range(60)])
    x = x.reshape(len(x), C, D)
    return x[:, 0] if C == 1 else x


def params(m):
    return [(n, p) for n, p in m.named_parameters() if p.requires_grad]


def jacobian(f, ps):
    """every row's and every output's gradient: {(row, out): [gradient or None]}; and the values"""
    out = f()
    rows = {}
    for i in range(out.shape[0]):
        for k in range(out.shape[1]):
            g = torch.autograd.grad(out[i, k], ps, retain_graph=True, allow_unused=True)
            rows[i, k] = g
    return out.detach(), rows


def numeric(f, p, j):
    flat = p.data.reshape(-1)
    keep = flat[j].item()
    vals = []
    with torch.no_grad():
        for e in (EPS, -EPS):
            flat[j] = keep + e
            vals.append(f().double())
    flat[j] = keep
    return (vals[0] - vals[1]) / (2 * EPS)


def judge(rec, f, named, rep, what, tol=1.0):
    """autograd against central differences, for every entry of every tensor in named, every row and output"""
    ps = [p for _, p in named]
    for p in ps:
        assert p.data.is_contiguous()
    out, jac = jacobian(f, ps)
    rec.ran()
    for t, (name, p) in enumerate(named):
        got = torch.stack([torch.stack([torch.zeros_like(p) if jac[i, k][t] is None else jac[i, k][t] for k in range(out.shape[1])]) for i in range(out.shape[0])])
        got = got.detach().reshape(out.shape[0], out.shape[1], -1).double()
        ok = bool(torch.isfinite(got).all())
        rec.expect(ok, "finite", lambda: f"{what}: gradient with respect to {name} is not finite: {got.tolist()} ({rep})", rep)
        for j in range(p.numel() if ok else 0):
            want = numeric(f, p, j)
            rec.ran(2)
            rec.state(want.numel())
            bad = (got[:, :, j] - want).abs() > tol * (6e-3 + 2e-2 * want.abs())
            rec.outcome(f"{want[0, 0]:.3f}")
            i = tuple(bad.nonzero()[0].tolist()) if bad.any() else None
            rec.expect(i is None, "value", lambda: f"{what}: d out{list(i)} / d {name}[{j}] = {got[i + (j,)]:.4f}, differences give {want[i]:.4f} ({rep})", rep)
    return out, jac


def model_case(leaf, kw, seed):
    def case(rec):
        rep = dict(leaf=leaf, seed=seed, **kw)
        m = einet(leaf, kw, seed)
        D, C = kw["D"], kw.get("C", 1)
        x = inputs(leaf, D, C)
        ps = params(m)
        m.train(seed % 2 == 0)
        f = lambda: m(x)
        out, jac = judge(rec, f, ps, rep, "forward")
        # the gradient of a batch is the sum of the gradients of its rows
        w = torch.linspace(0.5, 1.5, len(x)).unsqueeze(1)
        g = torch.autograd.grad((m(x) * w).sum(), [p for _, p in ps], allow_unused=True)
        for t, (name, p) in enumerate(ps):
            want = sum((jac[i, k][t] * w[i]) for i in range(len(x)) for k in range(out.shape[1]) if jac[i, k][t] is not None)
            rec.state()
            got = g[t] if g[t] is not None else torch.zeros_like(p)
            rec.expect(bool(torch.allclose(got, want + torch.zeros_like(p), atol=2e-3, rtol=1e-3)), "batch", lambda: f"gradient of the batch is not the sum of its rows' for {name} ({rep})", rep)
        # posterior
        if kw["K"] > 1:
            judge(rec, lambda: m.posterior(x), ps, rep, "posterior")
        # inputs
        if leaf in ("norm", "rat", "mvn2"):
            xi = x.clone().requires_grad_(True)
            o = m(xi)
            for k in range(o.shape[1]):
                got = torch.autograd.grad(o[:, k].sum(), xi, retain_graph=True)[0]
                miss = torch.isnan(x)
                rec.state(x.numel())
                rec.expect(bool(torch.isfinite(got[~miss]).all()), "input", lambda: f"gradient with respect to the observed inputs is not finite ({rep})", rep)
                for j in range(D * C):
                    vals = []
                    for e in (EPS, -EPS):
                        y = x.clone().reshape(len(x), -1)
                        y[:, j] += e
                        with torch.no_grad():
                            vals.append(m(y.reshape(x.shape))[:, k].double())
                    want = (vals[0] - vals[1]) / (2 * EPS)
                    gj = got.reshape(len(x), -1)[:, j].double()
                    ob = ~miss.reshape(len(x), -1)[:, j]
                    bad = ob & ((gj - want).abs() > 6e-3 + 2e-2 * want.abs())
                    rec.expect(not bad.any(), "input-value", lambda: f"gradient with respect to input {j} is {gj[bad].tolist()} instead of {want[bad].tolist()} ({rep})", rep)
        # marginalised scopes: no dependence on what stands there, and the same gradient as for NaN
        if leaf != "mvn2" and D * C <= 3:
            full = inputs(leaf, D, C)
            full = full[~torch.isnan(full).reshape(len(full), -1).any(1)]
            for sub in list(M.subsets(D))[1:]:
                y = full.clone()
                y[..., list(sub)] = NAN
                a = torch.autograd.grad(m(full, list(sub)).sum(), [p for _, p in ps], allow_unused=True)
                b = torch.autograd.grad(m(y).sum(), [p for _, p in ps], allow_unused=True)
                ok = all((u is None and v is None) or torch.allclose(u if u is not None else torch.zeros_like(v), v if v is not None else torch.zeros_like(u), atol=1e-3, rtol=1e-3) for u, v in zip(a, b))
                rec.state()
                rec.expect(ok, "scopes", lambda: f"gradient with scopes {sub} marginalised differs from that with missing values ({rep})", rep)
        rec.sample(rep)
    return case


def extreme(leaf, kw, seed):
    """finite gradients for unlikely inputs and saturated leaves"""
    def case(rec):
        rep = dict(leaf=leaf, seed=seed, **kw)
        D = kw["D"]
        vals = {"norm": [0.0, 30.0, -1e3, NAN], "rat": [0.0, 30.0, -100.0, NAN], "ber": [0.0, 1.0, NAN], "bin2": [0.0, 1.0, 2.0, NAN], "cat3": [0.0, 1.0, 2.0, NAN]}[leaf]
        x = M.grid(vals, D)
        for scale in (1.0, 8.0, 15.0) if leaf not in ("norm", "rat") else (1.0,):
            m = einet(leaf, kw, seed)
            with torch.no_grad():
                for n, p in params(m):
                    if "base_leaf" in n or n.startswith("leaf"):
                        p.mul_(scale)
            ps = params(m)
            for i in range(len(x)):
                o = m(x[i:i + 1])
                rec.ran()
                rec.expect(bool(torch.isfinite(o).all()), "ll", lambda: f"log-likelihood of {x[i].tolist()} is {o.tolist()} (scale {scale}, {rep})", rep)
                g = torch.autograd.grad(o.sum(), [p for _, p in ps], allow_unused=True)
                bad = [n for (n, _), v in zip(ps, g) if v is not None and not torch.isfinite(v).all()]
                rec.state()
                rec.outcome(f"{float(sum(v.abs().sum() for v in g if v is not None)):.3f}")
                rec.expect(not bad, "finite", lambda: f"input {x[i].tolist()}: gradient of {bad} is not finite (scale {scale}, {rep})", rep)
    return case


def conv_case(leaf, ckw, seed):
    def case(rec):
        rep = dict(leaf=leaf, seed=seed, **{k: str(v) for k, v in ckw.items()})
        cfg, shape = V.config(leaf=leaf, **ckw)
        m = V.build(cfg, shape, seed)
        C, H, W = ckw.get("C", 1), ckw.get("H", 2), ckw.get("W", 2)
        v = alphabet(leaf) + [NAN]
        x = M.grid(v, 4) if C * H * W == 4 else torch.tensor([[v[(i * (j + 1) + i // 3) % 3] for j in range(C * H * W)] for i in range(40)])
        x = x[:: max(1, len(x) // 40)].reshape(-1, C, H, W)
        judge(rec, lambda: m(x).reshape(len(x), -1), params(m), rep, "forward")
    return case


def mixture_case(leaf, seed):
    def case(rec):
        cfg = M.config(leaf=leaf, D=3, S=2, L=2, R=2, depth=1)
        torch.manual_seed(seed)
        m = Mixture(2, cfg).eval()
        for i, e in enumerate(m.models):
            M.randomize(e, seed + i, 0.7)
        v = alphabet(leaf)
        setup(m, (0.4, 0.6), [tuple([v[0] + 0.1] * 3), tuple([v[1] - 0.05] * 3)])
        x = M.grid(v + [NAN], 3)
        x = x[~torch.isnan(x).all(1)]
        judge(rec, lambda: m(x).reshape(len(x), -1), [(n, p) for n, p in params(m) if n.startswith("models") or n.startswith("_einets") or "layers" in n or "leaf" in n], dict(leaf=leaf, seed=seed), "mixture")
    return case


def cases(tier, seed):
    th = tier == "thorough"
    out = []
    for s in range(seed, seed + (6 if th else 3)):
        for (st, lay), leaf in itertools.product(ARCH, LEAVES):
            for D, depth, R, K, C in ((3, 1, 1, 1, 1), (3, 1, 2, 2, 1), (2, 1, 3, 3, 1), (2, 1, 1, 2, 2), (5, 2, 2, 1, 1)) + (((4, 2, 1, 2, 1), (3, 1, 3, 1, 1), (2, 1, 2, 1, 2), (7, 2, 2, 2, 1)) if th else ()):
                if leaf == "mvn2":
                    if D == 3:
                        D = 4
                    if C > 1 or st == "bottom-up":
                        continue
                    D, depth = {2: (2, 0), 4: (4, 1), 5: (4, 1), 7: (8, 2)}[D]
                if leaf == "multi" and C > 1 or st == "bottom-up" and D == 5 and lay != "linsum":
                    continue
                kw = dict(D=D, S=2, L=2, R=R, K=K, C=C, depth=depth, layer=lay, structure=st)
                out.append((f"grad/{leaf}/{st}/{lay}/D{D}/depth{depth}/R{R}K{K}C{C}/{s}", model_case(leaf, kw, s)))
        for (st, lay), leaf in itertools.product(ARCH, ("norm", "rat", "ber", "bin2", "cat3")):
            out.append((f"extreme/{leaf}/{st}/{lay}/{s}", extreme(leaf, dict(D=3, S=2, L=2, R=2, K=2, depth=1, layer=lay, structure=st), s)))
        for leaf, order, st in itertools.product(("cat3", "norm", "bin2"), ("sum-prod", "prod-sum"), ("top-down", "bottom-up")):
            for ck in (dict(channels=(2,)), dict(channels=(2, 3), H=4, W=4), dict(channels=(2,), C=2)):
                out.append((f"conv/{leaf}/{order}/{st}/{ck}/{s}", conv_case(leaf, dict(order=order, structure=st, **ck), s)))
        for leaf in ("cat3", "norm"):
            out.append((f"mixture/{leaf}/{s}", mixture_case(leaf, s)))
    return out
