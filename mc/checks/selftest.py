"""The explorer checks itself: known distributions, completeness of the enumeration, detection of unowned draws."""
import numpy as np
import torch

from ..explore import Explorer, Unmodelled, World, distribution

LEVEL = "model_checking"


def tree(rec):
    ex = Explorer()
    got = sorted("".join(map(str, r)) for r, _, _ in ex.run(lambda ch: [ch.choose([0, 1]) for _ in range(3)]))
    rec.explored(ex)
    rec.expect(got == sorted(f"{i:03b}" for i in range(8)), "tree", f"{got}")
    rec.expect(ex.states == 15 and ex.transitions == 14, "count", f"{ex.states} {ex.transitions}")


def law(rec):
    def f(ch):
        with World(ch):
            a = torch.distributions.Categorical(probs=torch.tensor([0.2, 0.3, 0.5])).sample().item()
            b = torch.distributions.Bernoulli(probs=torch.tensor(0.25)).sample().item()
            c = torch.distributions.Binomial(2, probs=torch.tensor(0.5)).sample().item()
        return (a, b, c)
    out, ex, _ = distribution(f)
    rec.explored(ex)
    rec.expect(len(out) == 18 and abs(sum(out.values()) - 1) < 1e-6, "law", f"{out}")
    rec.expect(abs(out[(2, 1.0, 1.0)] - 0.5 * 0.25 * 0.5) < 1e-6, "law", f"{out}")


def integers(rec):
    def f(ch):
        with World(ch):
            a = tuple(torch.randint(1, 3, (2,)).tolist())
            b = int(np.random.randint(2))
            c = tuple(int(v) for v in np.random.choice(3, 2, replace=False))
            d = int(np.random.choice([5, 7], p=[0.25, 0.75]))
        return (a, b, c, d)
    before = np.random.choice, np.random.randint, torch.randint
    out, ex, _ = distribution(f)
    rec.explored(ex)
    rec.expect((np.random.choice, np.random.randint, torch.randint) == before, "restore", "patches left in place")
    rec.expect(len(out) == 4 * 2 * 6 * 2 and abs(sum(out.values()) - 1) < 1e-6, "integers", f"{out}")
    rec.expect(abs(out[((1, 2), 0, (2, 0), 5)] - 1 / 4 / 2 / 6 / 4) < 1e-9, "integers", f"{out}")


def unowned(rec):
    try:
        with World(None):
            torch.empty(3).geometric_(0.5)
    except Unmodelled:
        return rec.expect(True, "", "")
    rec.expect(False, "unowned", "a draw escaped the explorer unnoticed")


def cases(tier, seed):
    return [("tree", tree), ("law", law), ("integers", integers), ("unowned", unowned)]
