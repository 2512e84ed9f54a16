"""The public operations of a model as an alphabet for histories and fault points."""
import copy

import torch

from . import models as M


def data(cfg, leaf):
    """two complete inputs and two partial ones"""
    C, D = cfg.num_channels, cfg.num_features
    a = (torch.arange(2 * C * D) % 2).float().reshape(2, C, D)
    b = 1 - a
    e = a.clone()
    e[:, :, 0] = M.NAN
    f = b.clone()
    f[:, :, 1:] = M.NAN
    return a, b, e, f


def operations(cfg, leaf):
    a, b, e, f = data(cfg, leaf)
    K = cfg.num_classes
    D = cfg.num_features
    one = e[:1]
    ops = {
        "forward(a)": lambda m: m(a.clone()),
        "forward(e)": lambda m: m(e.clone()),
        "forward(b, scopes)": lambda m: m(b.clone(), marginalized_scopes=[0, D - 1]),
        "sample(2)": lambda m: m.sample(num_samples=2),
        "sample(3, seed)": lambda m: m.sample(num_samples=3, seed=5),
        "sample(e)": lambda m: m.sample(evidence=e.clone()),
        "sample(f, seed)": lambda m: m.sample(evidence=f.clone(), seed=6),
        "sample(b, scopes)": lambda m: m.sample(evidence=b.clone(), marginalized_scopes=[1]),
        "sample(one)": lambda m: m.sample(evidence=one.clone()),
        "mpe()": lambda m: m.mpe(),
        "mpe(f)": lambda m: m.mpe(evidence=f.clone()),
        "sample(2, diff)": lambda m: m.sample(num_samples=2, is_differentiable=True),
        "sample(e, diff)": lambda m: m.sample(evidence=e.clone(), is_differentiable=True),
        "mpe(e, diff)": lambda m: m.mpe(evidence=e.clone(), is_differentiable=True),
        "sample(2, temperature)": lambda m: m.sample(num_samples=2, temperature_sums=0.5, temperature_leaves=0.5),
    }
    if K > 1:
        ops["posterior(a)"] = lambda m: m.posterior(a.clone())
        ops["sample(class)"] = lambda m: m.sample(num_samples=2, class_index=K - 1)
    ops["bad shape"] = lambda m: m(torch.zeros(2, cfg.num_channels, D + 1))
    ops["bad evidence"] = lambda m: m.sample(evidence=torch.zeros(2, cfg.num_channels + 1, D))
    if K > 1:
        ops["bad class"] = lambda m: m.sample(num_samples=2, class_index=K + 3)
    return ops


def observe(op, m, seed):
    """(result or the exception's type, did the generator move)"""
    torch.manual_seed(seed)
    before = torch.get_rng_state().clone()
    grad = torch.is_grad_enabled()
    try:
        r = op(m)
        r = r.detach().clone()
    except Exception as e:
        r = type(e).__name__
    moved = torch.get_rng_state()
    ok = torch.is_grad_enabled() == grad
    torch.set_grad_enabled(grad)
    return r, moved.clone(), ok, torch.equal(before, moved)


def equal(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return isinstance(x, str) == isinstance(y, str)
    return x.shape == y.shape and x.dtype == y.dtype and torch.equal(torch.nan_to_num(x), torch.nan_to_num(y))


def clone(m):
    return copy.deepcopy(m)


def _pairs(shape):
    a = (torch.arange(2 * int(torch.tensor(shape).prod())) % 2).float().reshape(2, *shape)
    b = 1 - a
    e, f = a.clone(), b.clone()
    e.view(2, shape[0], -1)[:, :, 0] = M.NAN
    f.view(2, shape[0], -1)[:, :, 1:] = M.NAN
    return a, b, e, f


def circuit_operations(shape, mixture=False):
    """the same alphabet for convolutional circuits (shape: channels, height, width) and mixtures (mixtures answer no class queries)"""
    a, b, e, f = _pairs(shape)
    n = a[0, 0].numel()
    mpe = (lambda m, **k: m.mpe(**k)) if mixture else (lambda m, **k: m.sample(is_mpe=True, num_samples=None if "evidence" in k else 1, **k))
    ops = {
        "forward(a)": lambda m: m(a.clone()),
        "forward(e)": lambda m: m(e.clone()),
        "forward(b, scopes)": lambda m: m(b.clone(), [0, n - 1]),
        "sample(2)": lambda m: m.sample(num_samples=2),
        "sample(3, seed)": lambda m: m.sample(num_samples=3, seed=5),
        "sample(e)": lambda m: m.sample(evidence=e.clone()),
        "sample(f, seed)": lambda m: m.sample(evidence=f.clone(), seed=6),
        "sample(b, scopes)": lambda m: m.sample(evidence=b.clone(), marginalized_scopes=[1]),
        "sample(one)": lambda m: m.sample(evidence=e[:1].clone()),
        "mpe(f)": lambda m: mpe(m, evidence=f.clone()),
        "mpe()": lambda m: m.sample(num_samples=1, is_mpe=True),
        "sample(2, leaf modes)": lambda m: m.sample(num_samples=2, mpe_at_leaves=True),
        "sample(2, temperature)": lambda m: m.sample(num_samples=2, temperature_sums=0.5, temperature_leaves=0.5),
    }
    if mixture:
        ops["sample(2 per cluster)"] = lambda m: m.sample(num_samples_per_cluster=2)
    else:
        ops["params(e)"] = lambda m: m.sample(evidence=e.clone(), return_leaf_params=True)
    ops["bad shape"] = lambda m: m(torch.zeros(2, shape[0] + 1, *shape[1:]))
    ops["bad evidence"] = lambda m: m.sample(evidence=torch.zeros(2, shape[0] + 1, *shape[1:]))
    return ops


def circuits():
    """name -> (builder of a model from a seed, its operations): mixtures and convolutional circuits"""
    from . import conv as V
    from .checks import c18
    res = {}
    for leaf, st, order, ch, H, C in (("norm", "top-down", "sum-prod", (2,), 2, 1), ("cat2", "bottom-up", "sum-prod", (2, 2), 4, 1), ("norm", "bottom-up", "prod-sum", (2, 3), 4, 2), ("norm", "top-down", "sum-prod", (2, 2), 4, 2)):
        cfg, shape = V.config(leaf, ch, H, H, C, structure=st, order=order)
        res[f"conv/{leaf}/{st}/{order}/{H}x{H}x{C}"] = (lambda s, cfg=cfg, shape=shape: V.build(cfg, shape, s), circuit_operations((C, H, H)))
    for n, leaf, D, C, R in ((2, "norm", 2, 1, 2), (3, "cat2", 2, 1, 1), (3, "norm", 3, 2, 2)):
        def make(s, n=n, leaf=leaf, D=D, C=C, R=R):
            mix = c18.build(n, M.config(leaf=leaf, D=D, C=C, K=1, S=2, L=2, R=R, depth=1), s)
            return c18.setup(mix, c18.WEIGHTS[n], [tuple(c[i % 2] + 0.05 * (i // 2) for i in range(C * D)) for c in c18.CENTS[n]])
        res[f"mixture{n}/{leaf}/D{D}C{C}R{R}"] = (make, circuit_operations((C, D), True))
    shape_cfg = V.config("norm", (2,), 2, 2, 1)

    def make_conv_mixture(s):
        mix = c18.build(2, shape_cfg[0], s, shape_cfg[1])
        return c18.setup(mix, c18.WEIGHTS[2], [(0.0, 0.25, 0.1, 0.2), (1.0, 0.9, 0.8, 0.7)])
    res["mixture2/conv"] = (make_conv_mixture, circuit_operations((1, 2, 2), True))
    return res
