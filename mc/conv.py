"""Small convolutional circuits, and a draw of a node's child that the explorer owns."""
import torch

from . import models as M
from .explore import World

import simple_einet.conv_pc as CP  # noqa: E402
from simple_einet.data import Shape  # noqa: E402


def config(leaf="cat2", channels=(2,), H=2, W=2, C=1, structure="top-down", order="sum-prod", kernel=2):
    lt, kw, dom = M.leaf_spec(leaf)
    cfg = CP.ConvPcConfig(channels=list(channels), kernel_size=kernel, num_channels=C, leaf_type=lt, leaf_kwargs=kw, structure=structure, order=order)
    return cfg, Shape(channels=C, height=H, width=W)


def build(cfg, shape, seed):
    torch.manual_seed(seed)
    m = CP.ConvPc(cfg, shape)
    M.randomize(m, seed)
    return m.eval()


def tag(m):
    """leaf channel i of every pixel answers i"""
    lg = m.leaf_data.logits
    assert lg.shape[-1] == lg.shape[-3]
    with torch.no_grad():
        lg.fill_(-60.0)
        for i in range(lg.shape[-3]):
            lg[..., i, :, i] = 60.0
    return m


class Draws:
    """Within this context the choice of a child in a convolutional circuit is a categorical draw that belongs to
    `chooser`, with the probabilities the circuit hands to its sampler.  (That the sampler realises the
    probabilities it is handed is C24.)  `used` tells whether the code still draws through this function."""

    def __init__(self, chooser, pick=None, world=None, **kw):
        self.w = world or World(chooser, pick=pick, **kw)
        self.used = 0
        self.bad = None

    def draw(self, dim=None, is_mpe=None, hard=None, tau=None, logits=None, log_weights=None, **kw):
        self.used += 1
        lw = log_weights if log_weights is not None else logits.log_softmax(dim)
        p = lw.detach().movedim(dim, -1).double().exp()
        s = p.sum(-1)
        if not bool((s - 1).abs().max() < 1e-3):
            self.bad = float(s.reshape(-1)[(s - 1).abs().argmax()])
            p = p / s.unsqueeze(-1)
        flat = p.reshape(-1, p.shape[-1])
        out = torch.zeros_like(flat)
        for i in range(len(flat)):
            row = [float(v) for v in flat[i]]
            if is_mpe:
                k = max(range(len(row)), key=lambda j: row[j])
            else:
                k = self.w._pick(list(range(len(row))), row, "child")
            out[i, k] = 1.0
        res = out.reshape(p.shape).movedim(-1, dim).to(lw.dtype)
        return res + 0.0 * torch.nan_to_num(lw.exp())

    def __enter__(self):
        self.old = CP.__dict__.get("sample_categorical_differentiably")
        if self.old is not None:
            CP.sample_categorical_differentiably = self.draw
        self.w.__enter__()
        return self

    def __exit__(self, *a):
        if self.old is not None:
            CP.sample_categorical_differentiably = self.old
        return self.w.__exit__(*a)
