"""Building small models of the real code, and the finite domains they are explored over."""
import itertools

import numpy as np
import torch

from . import env  # noqa: F401
from .explore import PARAM_DRAWS, Chooser, World

from simple_einet.einet import Einet, EinetConfig  # noqa: E402
from simple_einet.layers.distributions.bernoulli import Bernoulli  # noqa: E402
from simple_einet.layers.distributions.binomial import Binomial  # noqa: E402
from simple_einet.layers.distributions.categorical import Categorical  # noqa: E402
from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal  # noqa: E402
from simple_einet.layers.distributions.normal import Normal, RatNormal  # noqa: E402

NAN = float("nan")


def leaf_spec(name):
    """-> (leaf type, kwargs, list of domain values or None if continuous)"""
    if name.startswith("cat"):
        k = int(name[3:])
        return Categorical, {"num_bins": k}, [float(v) for v in range(k)]
    if name.startswith("bin"):
        n = int(name[3:])
        return Binomial, {"total_count": n}, [float(v) for v in range(n + 1)]
    if name == "ber":
        return Bernoulli, {}, [0.0, 1.0]
    if name == "norm":
        return Normal, {}, None
    if name == "rat":
        return RatNormal, {"min_sigma": 0.2, "max_sigma": 1.0}, None
    if name == "rattight":
        return RatNormal, {"min_sigma": 0.05, "max_sigma": 0.050001}, None
    if name.startswith("mvn"):
        return MultivariateNormal, {"cardinality": int(name[3:])}, None
    raise KeyError(name)


def config(leaf="cat2", D=3, C=1, S=2, L=2, R=1, K=1, depth=1, dropout=0.0, layer="linsum", structure="top-down"):
    lt, kw, dom = leaf_spec(leaf)
    return EinetConfig(num_features=D, num_channels=C, num_sums=S, num_leaves=L, num_repetitions=R, num_classes=K,
                       depth=depth, dropout=dropout, leaf_type=lt, leaf_kwargs=kw, layer_type=layer,
                       structure=structure)


def build(cfg, seed=1, structure_chooser=None):
    """Einet(cfg) with parameters from a seeded generator; structural draws (scope permutations, group sizes)
    are answered by structure_chooser, or drawn with the seed."""
    torch.manual_seed(seed)
    np.random.seed(seed)
    if structure_chooser is None:
        m = Einet(cfg)
    else:
        with World(structure_chooser, real=PARAM_DRAWS):
            m = Einet(cfg)
    m.eval()
    return m


def structures(cfg, seed, ex):
    """Every model that construction can produce for cfg as far as random structure goes (same parameters)."""
    for m, _, trail in ex.run(lambda ch: build(cfg, seed, ch)):
        yield m, trail


def leaf_modules(model, cls):
    return [m for m in model.modules() if isinstance(m, cls)]


def tag_leaves(model, strength=60.0):
    """Make every categorical leaf put all its mass on one value that names its (leaf, repetition): a draw then
    reveals which leaf the sampler used.  Value = leaf * R + repetition."""
    for leaf in leaf_modules(model, Categorical):
        with torch.no_grad():
            lg = leaf.logits
            L, R, B = lg.shape[-3], lg.shape[-2], lg.shape[-1]
            assert B == L * R
            t = torch.full_like(lg, -strength)
            for l in range(L):
                for r in range(R):
                    t[..., l, r, l * R + r] = strength
            leaf.logits.copy_(t)
    return model


def randomize(model, seed, scale=1.0):
    """General-position parameters, the same for every implementation with the same parameter shapes."""
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for n, p in model.named_parameters():
            if p.requires_grad:
                p.copy_(torch.randn(p.shape, generator=g) * scale)
    return model


def grid(values, n):
    """All tuples in values^n as a float tensor [len(values)**n, n]."""
    return torch.tensor(list(itertools.product(values, repeat=n)), dtype=torch.float).reshape(len(values) ** n, n)


def describe(cfg):
    return dict(D=cfg.num_features, C=cfg.num_channels, S=cfg.num_sums, L=cfg.num_leaves, R=cfg.num_repetitions,
                K=cfg.num_classes, depth=cfg.depth, layer=cfg.layer_type, structure=cfg.structure,
                leaf=cfg.leaf_type.__name__, dropout=cfg.dropout)


def subsets(n):
    for r in range(n + 1):
        yield from itertools.combinations(range(n), r)


def cname(**kw):
    return ",".join(f"{k}={v}" for k, v in kw.items())


def max_depth(D, card=1):
    return int(np.floor(np.log2(D // card)))
