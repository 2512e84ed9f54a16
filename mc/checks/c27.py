"""C27: data sets, splits, loaders and samplers."""
import contextlib
import io
import itertools
import os
import shutil
import subprocess
import tempfile

import numpy as np
import PIL.Image
import torch
import torchvision.datasets

from .. import env
from .. import models as M
from ..explore import World, distribution
from ..patching import patched as raw_patched, swapped

_cwd = os.getcwd()
os.chdir(env.REPO)  # exp_utils reads ./PROJECT_NAME when it is imported
try:
    import exp_utils  # noqa: E402,F401
    import simple_einet.data as D  # noqa: E402
finally:
    os.chdir(_cwd)

import sklearn.datasets  # noqa: E402
from simple_einet.einet import Einet, EinetConfig  # noqa: E402
from simple_einet.layers.distributions.normal import Normal  # noqa: E402

LEVEL = "model_checking"
BOUNDS = ("every data set name of the shape table (network sources replaced by stand-ins that tag each example; mnist-bin excluded), normalised or not, several sizes; all permutations a sampler can draw for up to 4 examples and two epochs, "
          "all rank/world sizes up to 4; loaders with batch sizes 1, 7, 64 and larger than the data set, three epochs, several seeds; all shapes up to 4 x 6 x 6")

VISION = {"mnist": "MNIST", "mnist-16": "MNIST", "mnist-32": "MNIST", "fmnist": "FashionMNIST", "fmnist-16": "FashionMNIST", "fmnist-32": "FashionMNIST", "cifar": "CIFAR10", "svhn": "SVHN", "svhn-extra": "SVHN", "celeba": "CelebA",
          "celeba-small": "CelebA", "celeba-tiny": "CelebA", "lsun": "LSUN", "flowers": "Flowers102", "tiny-imagenet": "ImageFolder", "lfw": "LFWPeople"}
SHAPES = {"mnist-16": (1, 16, 16), "mnist-32": (1, 32, 32), "mnist": (1, 28, 28), "fmnist": (1, 28, 28), "fmnist-16": (1, 16, 16), "fmnist-32": (1, 32, 32), "cifar": (3, 32, 32), "svhn": (3, 32, 32), "svhn-extra": (3, 32, 32),
          "celeba": (3, 128, 128), "celeba-small": (3, 64, 64), "celeba-tiny": (3, 32, 32), "lsun": (3, 32, 32), "fake": (3, 32, 32), "flowers": (3, 32, 32), "tiny-imagenet": (3, 32, 32), "lfw": (3, 32, 32),
          "20newsgroup": (1, 50, 1), "kddcup99": (1, 118, 1), "covtype": (1, 54, 1), "breast_cancer": (1, 30, 1), "wine": (1, 13, 1), "digits": (1, 8, 8)}
CLASSES = {"mnist": 10, "mnist-16": 10, "mnist-32": 10, "fmnist": 10, "fmnist-16": 10, "fmnist-32": 10, "cifar": 10, "svhn": 10, "svhn-extra": 10, "fake": 10, "flowers": 102, "tiny-imagenet": 200, "20newsgroup": 20, "kddcup99": 23,
           "covtype": 7, "breast_cancer": 2, "wine": 3, "digits": 10}
SYNTH = {"2-clusters": 2, "3-clusters": 3, "9-clusters": 9, "2-moons": 2, "circles": 2, "aniso": 3, "varied": 3}
TABULAR = ("digits", "wine", "breast_cancer", "covtype", "kddcup99", "20newsgroup")


def patched(*sets):
    """a class of torchvision or a loader of sklearn may be reached through the module or through an imported name"""
    more, pairs = [], []
    for o, n, v in sets:
        if o is D:
            pairs.append((getattr(torchvision.datasets, n), v))
        elif o is sklearn.datasets:
            pairs.append((getattr(o, n), v))
        else:
            more.append((o, n, v))
    stack = contextlib.ExitStack()
    stack.enter_context(raw_patched(*more))
    stack.enter_context(swapped(pairs, (D, torchvision.datasets, sklearn.datasets)))
    return stack


def no_network(*a, **k):
    raise RuntimeError(f"the code tried to run {a}")


def label_of(i):
    return (i * 7 + 3) % 10


def fake_set(sizes, made):
    """stand-in for a torchvision data set: example i of a part is an image of the constant grey level offset + i"""
    offsets = {"train": 0, "test": 100, "val": 150, "extra": 200}

    class Fake(torch.utils.data.Dataset):
        def __init__(self, root=None, train=None, split=None, download=None, transform=None, classes=None, **kw):
            if train is not None:
                part = "train" if train else "test"
            elif split is not None:
                part = "val" if split in ("val", "valid") else split
            elif classes is not None:
                part = {"church_outdoor_train": "train", "church_outdoor_val": "test"}[classes[0]]
            else:
                part = os.path.basename(root)
            self.part, self.transform = part, transform
            self.n = sizes[part]
            self.data = self.targets = list(range(self.n))
            self.length = self.n
            self.off = offsets[part]
            self.mode = "L" if made["channels"] == 1 else "RGB"
            made["sets"].append((part, root))

        def __len__(self):
            return self.n

        def __getitem__(self, i):
            if not 0 <= i < self.n:
                raise IndexError(i)
            g = self.off + i
            img = PIL.Image.new(self.mode, (40, 36), g if self.mode == "L" else (g, g, g))
            return self.transform(img), label_of(g)
    return Fake


def vision(name, normalize, n):
    def case(rec):
        rep = dict(name=name, normalize=normalize, n=n)
        made = {"sets": [], "channels": SHAPES[name][0]}
        sizes = {"train": n, "test": 6, "val": 5, "extra": 4}
        Fake = fake_set(sizes, made)

        def ids(ds):
            out = []
            for i in range(len(ds)):
                x, y = ds[i]
                rec.state()
                rec.expect(tuple(x.shape) == SHAPES[name] and x.dtype == torch.float32, "item", lambda: f"item of shape {tuple(x.shape)} {x.dtype} ({rep})", rep)
                v = x.double() * 0.5 + 0.5 if normalize else x.double()
                g = round(float(v.reshape(-1)[0]) * 255)
                rec.expect(bool(((v * 255 - g).abs() < 1e-3).all()), "values", lambda: f"pixel values {x.reshape(-1)[:3].tolist()} of a grey image {g} ({rep})", rep)
                rec.expect(y == label_of(g), "label", lambda: f"example {g} has label {y} instead of {label_of(g)} ({rep})", rep)
                out.append(g)
            return out
        runs = []
        for seed in (0, 1):
            torch.manual_seed(seed)
            np.random.seed(seed)
            with patched((D, VISION[name], Fake), (os, "system", no_network), (subprocess, "run", no_network)):
                tr, va, te = D.get_datasets(name, "/nowhere", normalize=normalize)
            rec.ran()
            runs.append((ids(tr), ids(va), ids(te)))
        rec.expect(runs[0] == runs[1], "fixed", f"the split depends on the global generators ({rep})", rep)
        tr, va, te = runs[0]
        rec.outcome(str(runs[0]))
        whole = list(range(n))
        if name.startswith("celeba") or name in ("flowers", "tiny-imagenet"):
            want = (whole, list(range(150, 155)), list(range(100, 106)))
            rec.expect((tr, va, te) == want, "parts", f"train, validation and test are {tr}, {va}, {te} ({rep})", rep)
        else:
            if name == "svhn-extra":
                rec.expect(tr[-4:] == [200, 201, 202, 203], "extra", f"training examples {tr} ({rep})", rep)
                tr = tr[:-4]
            rec.expect(sorted(tr + va) == whole, "split", f"train {tr} and validation {va} are not a partition of the {n} training examples ({rep})", rep)
            rec.expect(len(tr) == round(0.9 * n), "size", f"{len(tr)} of {n} examples for training ({rep})", rep)
            rec.expect(te == list(range(100, 106)), "test", f"test examples {te} ({rep})", rep)
    return case


def identify(rec, rep, splits, raw, labels, scaled):
    """the raw rows each split consists of, recovered from the data (per feature an affine image of the raw values)"""
    z = np.concatenate([np.stack([ds[i][0].numpy().reshape(-1) for i in range(len(ds))]) for ds in splits]).astype(np.float64)
    y = [[int(ds[i][1]) for i in range(len(ds))] for ds in splits]
    sizes = [len(ds) for ds in splits]
    if not rec.expect(len(z) == len(raw), "complete", f"{sizes} examples of {len(raw)} ({rep})", rep):
        return
    span = raw.max(0) - raw.min(0)
    live = span > 0
    zspan = np.where(live, z.max(0) - z.min(0), 1)
    back = np.where(live, (z - z.min(0)) / np.where(zspan > 0, zspan, 1) * span + raw.min(0), raw.min(0))
    code = (raw - raw.min(0)) / np.where(live, span, 1)
    bcode = (back - raw.min(0)) / np.where(live, span, 1)
    dist = ((bcode[:, None, :] - code[None, :, :]) ** 2).max(-1) if len(raw) < 700 else None
    owner, taken = [], set()
    for r in range(len(z)):
        d = dist[r] if dist is not None else ((bcode[r] - code) ** 2).max(-1)
        cand = [int(c) for c in np.nonzero(d < 1e-6)[0] if int(c) not in taken]
        if not rec.expect(len(cand) > 0, "match", lambda: f"an example of the splits is no (further) row of the source, nearest {int(d.argmin())} ({rep})", rep):
            return
        lab = sum(y, [])[r]
        pick = next((c for c in cand if labels[c] == lab), None)
        if not rec.expect(pick is not None, "label", lambda: f"source row {cand[0]} has label {lab} instead of {labels[cand[0]]} ({rep})", rep):
            return
        taken.add(pick)
        owner.append(pick)
        rec.state()
    a, b = sizes[0], sizes[0] + sizes[1]
    parts = owner[:a], owner[a:b], owner[b:]
    if scaled:
        mu, sd = raw[parts[0]].mean(0), raw[parts[0]].std(0)
        want = (raw[owner] - mu) / np.where(sd > 0, sd, 1)
        ok = np.abs(want - z)[:, live].max() < 5e-3
        rec.expect(ok, "scale", lambda: f"features are not standardised with the statistics of the training split: {z[0, :4]} instead of {want[0, :4]} ({rep})", rep)
    else:
        rec.expect(np.abs(z - raw[owner] / raw.max()).max() < 1e-5, "scale", f"features are not the source's divided by its maximum ({rep})", rep)
    rec.outcome(str(parts)[:400])
    return parts


class Sparse:
    def __init__(self, a):
        self.a = a

    def toarray(self):
        return self.a

    def __getitem__(self, i):
        return Sparse(self.a[i])

    @property
    def shape(self):
        return self.a.shape

    def __len__(self):
        return len(self.a)


def source(name, seed):
    """(patches, raw features as float, class of each row)"""
    g = np.random.RandomState(seed)
    if name == "digits":
        d = sklearn.datasets.load_digits()
        return [], d.data, d.target
    if name == "wine":
        return [], *sklearn.datasets.load_wine(return_X_y=True)
    if name == "breast_cancer":
        return [], *sklearn.datasets.load_breast_cancer(return_X_y=True)
    if name == "covtype":
        X = g.rand(280, 54) * np.arange(1, 55)
        y = np.arange(280) % 7
        return [(sklearn.datasets, "fetch_covtype", lambda *a, **k: (X.copy(), y + 1))], X, y
    if name == "kddcup99":
        N = 690
        num = g.rand(N, 38) * 5
        cat = [np.arange(N) % 3, (np.arange(N) // 3) % 66, (np.arange(N) * 5) % 11]
        names = [[b"icmp", b"tcp", b"udp"], [b"s%02d" % i for i in range(66)], [b"f%02d" % i for i in range(11)]]
        X = np.empty((N, 41), dtype=object)
        cols = [0] + list(range(4, 41))
        for j, c in enumerate(cols):
            X[:, c] = num[:, j]
        for j in range(3):
            X[:, 1 + j] = [names[j][k] for k in cat[j]]
        y = np.arange(N) % 23
        raw = np.concatenate([num] + [np.eye(len(n))[c] for n, c in zip(names, cat)], 1)
        lab = np.array([b"class%02d." % k for k in y], dtype=object)
        return [(sklearn.datasets, "fetch_kddcup99", lambda *a, **k: (X.copy(), lab.copy()))], raw, y
    raise KeyError(name)


def get(name, normalize=True):
    with contextlib.redirect_stderr(io.StringIO()):
        return D.get_datasets(name, "/nowhere", normalize=normalize)


def tabular(name, seed):
    def case(rec):
        rep = dict(name=name, seed=seed)
        patches, raw, y = source(name, seed)
        raw, y = np.asarray(raw, dtype=np.float64), np.asarray(y)
        runs = []
        for s in (0, 1):
            np.random.seed(s)
            torch.manual_seed(s)
            with patched(*patches):
                splits = get(name, normalize=bool(s))
            rec.ran()
            for ds in splits:
                x, lab = ds[0]
                rec.expect(tuple(x.shape) == SHAPES[name] and x.dtype == torch.float32, "item", lambda: f"item of shape {tuple(x.shape)} {x.dtype} ({rep})", rep)
            runs.append(identify(rec, rep, splits, raw, y, name != "digits"))
        if runs[0] is None:
            return
        rec.expect(runs[0] == runs[1], "fixed", f"the split depends on the global generators ({rep})", rep)
        n = [len(p) for p in runs[0]]
        rec.expect(abs(n[2] - 0.1 * sum(n)) <= 1 and abs(n[1] - 0.09 * sum(n)) <= 1, "size", f"splits have sizes {n} ({rep})", rep)
        labs = [set(int(y[i]) for i in p) for p in runs[0]]
        K = CLASSES[name]
        rec.expect(labs[0] == set(range(K)) and labs[1] == labs[0] == labs[2], "classes", f"classes of the splits {labs}, {K} expected ({rep})", rep)
    return case


def newsgroup(rec):
    """first component identifies the document; PCA and scaling come from the training documents only"""
    g = np.random.RandomState(0)
    N, T, F = 240, 40, 60
    v = g.rand(F)
    X = np.arange(N + T)[:, None] * v[None, :] + 0.05 * g.rand(N + T, F)
    X[N:] += 500 * v  # the test documents lie elsewhere
    code = np.concatenate([np.arange(N), np.arange(N, N + T) + 500.0])
    y = np.arange(N + T) % 20

    def fetch(*a, subset=None, **k):
        i = slice(0, N) if subset == "train" else slice(N, N + T)
        return Sparse(X[i].copy()), y[i].copy()
    import scipy.sparse

    def fetch_sparse(*a, subset=None, **k):
        x, lab = fetch(subset=subset)
        return scipy.sparse.csr_matrix(x.a), lab
    with patched((sklearn.datasets, "fetch_20newsgroups_vectorized", fetch_sparse)):
        tr, va, te = get("20newsgroup")
    rec.ran()
    z = [np.stack([ds[i][0].numpy().reshape(-1) for i in range(len(ds))]).astype(np.float64) for ds in (tr, va, te)]
    rec.expect(all(tuple(ds[0][0].shape) == SHAPES["20newsgroup"] and ds[0][0].dtype == torch.float32 for ds in (tr, va, te)), "item", f"{tr[0][0].shape} {tr[0][0].dtype}")
    allz = np.concatenate([q[:, 0] for q in z])
    good = False
    for sign in (1, -1):
        w = sign * allz
        val = (w - w.min()) / (w.max() - w.min()) * (code.max() - code.min())
        ids = [int(np.abs(code - c).argmin()) for c in val]
        rec.state(len(ids))
        if sorted(ids) == list(range(N + T)):
            labs = [int(ds[i][1]) for ds in (tr, va, te) for i in range(len(ds))]
            a, b = len(tr), len(tr) + len(va)
            if all(labs[r] == y[ids[r]] for r in range(len(ids))) and sorted(ids[b:]) == list(range(N, N + T)) and len(va) == 24:
                t = code[ids[:a]]
                good = bool(np.abs((code[ids] - t.mean()) / t.std() - w).max() < 5e-2)
    rec.expect(good, "split", "20newsgroup: splits are not the documents with their labels, scaled by the training documents")
    rec.expect(np.abs(z[0].mean(0)).max() < 1e-3 and np.abs(z[0].std(0) - 1).max() < 1e-2, "scale", "20newsgroup: the training split is not standardised")


def debd(rec):
    """every binary density estimation benchmark, from a scratch directory laid out like its repository"""
    tmp = tempfile.mkdtemp(prefix="c27-")
    try:
        rec.expect(sorted(D.DEBD) == sorted(D.DEBD_shapes) == sorted(D.DEBD_display_name), "tables", "the tables of the DEBD data sets list different names")
        for k, name in enumerate(D.DEBD):
            width = D.DEBD_shapes[name]["train"][1]
            rec.expect(len({s[1] for s in D.DEBD_shapes[name].values()}) == 1, "tables", f"{name}: {D.DEBD_shapes[name]}")
            d = os.path.join(tmp, "debd", "datasets", name)
            os.makedirs(d)
            raw = {}
            for j, (part, rows) in enumerate((("train", 5), ("valid", 3), ("test", 4))):
                a = (np.add.outer(np.arange(rows) * (j + 2), np.arange(width) * (k + 1)) // 3 + j) % 2
                a[:, :3] = [[(j >> b) & 1 for b in range(2)] + [r % 2] for r in range(rows)]
                raw[part] = a
                with open(os.path.join(d, f"{name}.{part}.data"), "w") as f:
                    f.write("\n".join(",".join(map(str, row)) for row in a) + "\n")
            with patched((subprocess, "run", no_network), (os, "system", no_network)):
                splits = dict(zip(("train", "valid", "test"), D.get_datasets(name, tmp, normalize=False)))
            rec.ran()
            for part, ds in splits.items():
                got = np.stack([ds[i][0].numpy() for i in range(len(ds))])
                rec.state(len(ds))
                rec.expect(got.shape == (len(raw[part]), 1, width, 1) and np.array_equal(got.reshape(len(got), -1), raw[part]), "rows", f"{name}: rows of the {part} split differ from the file")
                rec.expect(tuple(D.get_data_shape(name)) == (1, width, 1), "shape", f"{name}: {D.get_data_shape(name)}")
            rec.outcome(f"{name}:{width}")
    finally:
        shutil.rmtree(tmp)


def tables(rec):
    names = list(SHAPES) + ["synth-" + s for s in SYNTH] + list(D.DEBD) + ["mnist-bin"]
    for n in names:
        s = D.get_data_shape(n)
        rec.state()
        if n in SHAPES:
            rec.expect(tuple(s) == SHAPES[n], "shape", f"{n}: {s}")
        if n in CLASSES or n.startswith("synth"):
            want = CLASSES.get(n) or SYNTH[n.replace("synth-", "")]
            rec.expect(D.get_data_num_classes(n) == want, "classes", f"{n}: {D.get_data_num_classes(n)} classes instead of {want}")
            rec.expect(D.is_classification_data(n) is True, "classification", f"{n} is a classification data set")
        else:
            D.get_data_num_classes(n)
        if n in D.DEBD or "celeba" in n:
            rec.expect(D.is_classification_data(n) is False, "classification", f"{n} has no classes")
        rec.expect(D.is_1d_data(n) == (s.width == 1), "1d", f"{n} with shape {s}: is_1d_data is {D.is_1d_data(n)}")
    for bad in ("", "imagenet", "Wine", "mnist-64"):
        for fn in (D.get_data_shape, D.get_data_num_classes, lambda n: D.get_datasets(n, "/nowhere", normalize=False)):
            try:
                r = fn(bad)
                rec.violation("unknown", f"the unknown data set {bad!r} gives {r}")
            except Exception:
                rec.compared()
    for c, h, w in itertools.product(range(1, 5), range(1, 7), range(1, 7)):
        s = D.Shape(c, h, w)
        rec.state()
        ok = list(s) == [c, h, w] and [s[i] for i in range(3)] == [c, h, w] and s.num_pixels == h * w and (s.channels, s.height, s.width) == (c, h, w)
        for k in (1, 2, 3):
            ok = ok and list(s.upscale(k)) == [c, h * k, w * k] and list(s.upscale(k).downscale(k)) == [c, h, w]
        rec.expect(ok, "Shape", f"{s}")


def synth(name):
    def case(rec):
        K = SYNTH[name]
        for n in list(range(9, 25)) + [300, 1000]:
            torch.manual_seed(n)
            np.random.seed(n)
            x, y = D.generate_data("synth-" + name, n)
            rec.ran()
            rec.state(n)
            rec.expect(tuple(x.shape) == (n, 2) and x.dtype == torch.float32 and tuple(y.shape) == (n,) and y.dtype == torch.int64, "shape", f"{name}: {tuple(x.shape)} {x.dtype} {tuple(y.shape)} {y.dtype}")
            rec.expect(bool(torch.isfinite(x).all()) and int(y.min()) >= 0 and int(y.max()) < K, "labels", f"{name}: labels {y.unique().tolist()}, {K} classes")
            if n >= 300:
                rec.expect(len(y.unique()) == K, "labels", f"{name}: only classes {y.unique().tolist()}")
                # the label belongs to the point: most points share their nearest neighbour's label
                d = torch.cdist(x, x).fill_diagonal_(9e9).argmin(1)
                agree = float((y[d] == y).double().mean())
                rec.expect(agree > (0.65 if name == 'varied' else 0.8), "attached", f"{name}: only {agree:.2f} of the points share their nearest neighbour's label")
            if name != "circles":
                x2, y2 = D.generate_data("synth-" + name, n)
                rec.expect(torch.equal(x, x2) and torch.equal(y, y2), "fixed", f"{name}: two calls give different data")
        tr, va, te = D.get_datasets("synth-" + name, "/nowhere", normalize=False)
        rec.expect((len(tr), len(va), len(te)) == (3000, 1000, 1000), "size", f"{len(tr)} {len(va)} {len(te)}")
        x, y = D.generate_data("synth-" + name, 3000)
        if name != "circles":
            rec.expect(all(torch.equal(tr[i][0], x[i]) and int(tr[i][1]) == int(y[i]) for i in range(0, 3000, 7)), "dataset", f"{name}: the training set is not the generated data")
        try:
            D.generate_data("synth-" + name + "-x", 10)
            rec.violation("unknown", f"generate_data accepts {name}-x")
        except ValueError:
            rec.compared()
    return case


def accepts(name):
    """a model made for the declared shape evaluates, differentiates and completes a batch of the loader"""
    def case(rec):
        made = {"sets": [], "channels": D.get_data_shape(name).channels}
        patches = []
        if name in VISION:
            patches = [(D, VISION[name], fake_set({"train": 40, "test": 6, "val": 5, "extra": 4}, made))]
        elif name in ("covtype", "kddcup99"):
            patches = source(name, 0)[0]
        with patched(*patches), contextlib.redirect_stderr(io.StringIO()):
            loaders = D.build_dataloader(name, "/nowhere", batch_size=3, num_workers=0, loop=False, normalize=True, seed=0)
        s = D.get_data_shape(name)
        for lay in ("linsum", "einsum"):
            m = Einet(EinetConfig(num_features=s.num_pixels, num_channels=s.channels, depth=1, num_sums=2, num_leaves=2, num_repetitions=1, leaf_type=Normal, leaf_kwargs={}, layer_type=lay))
            for ld in loaders:
                x, y = next(iter(ld))
                out = m(x)
                rec.ran()
                rec.state()
                rec.expect(tuple(out.shape) == (3, 1) and bool(torch.isfinite(out).all()), "evaluate", lambda: f"{name}: {tuple(out.shape)} {out[:2]}")
                out.mean().backward()
                z = m.sample(evidence=x, marginalized_scopes=[0])
                rec.expect(z.reshape(3, -1).shape == x.reshape(3, -1).shape, "complete", lambda: f"{name}: {tuple(z.shape)} for {tuple(x.shape)}")
                rec.expect(not torch.is_floating_point(y) and len(y) == 3, "labels", f"{name}: {y}")
    return case


def sampler(n, seed):
    def case(rec):
        # every answer of the shuffle, two epochs
        plain = D.TrainingSampler(size=n, seed=seed)
        sharded = hasattr(plain, "_rank") and hasattr(plain, "_world_size")  # there is no public way to be worker 1 of 2
        for rank, world in ((0, 1), (0, 2), (1, 2), (1, 3), (3, 4)) if sharded else ((0, 1),):
            def f(ch):
                with World(ch):
                    s = D.TrainingSampler(size=n, seed=seed)
                    if sharded:
                        s._rank, s._world_size = rank, world
                    need = len(range(rank, 2 * n, world))
                    return tuple(itertools.islice(iter(s), need))
            dist, ex, _ = distribution(f)
            rec.explored(ex)
            total = sum(dist.values())  # permutations are plain choices: all runs weigh the same
            dist = {k: v / total for k, v in dist.items()}
            perms = list(itertools.permutations(range(n)))
            want = {}
            for a, b in itertools.product(perms, repeat=2):
                k = tuple((a + b)[rank::world])
                want[k] = want.get(k, 0) + 1 / len(perms) ** 2
            bad = [k for k in set(dist) | set(want) if abs(dist.get(k, 0) - want.get(k, 0)) > 1e-6]
            rec.expect(not bad, "law", lambda: f"size {n}, rank {rank} of {world}: stream {bad[0]} has probability {dist.get(bad[0], 0)} instead of {want.get(bad[0], 0)}", dict(n=n, rank=rank, world=world))
            for k in dist:
                rec.outcome(str(k))
        # the real generator: permutations epoch by epoch, fixed by the seed, untouched by and not touching the global one
        for s0 in range(seed, seed + 4):
            torch.manual_seed(s0 + 1)
            before = torch.get_rng_state()
            a = list(itertools.islice(iter(D.TrainingSampler(size=n, seed=s0)), 6 * n))
            same = torch.equal(before, torch.get_rng_state())
            torch.manual_seed(99)
            b = list(itertools.islice(iter(D.TrainingSampler(size=n, seed=s0)), 6 * n))
            rec.ran(2)
            rec.expect(a == b and same, "seed", f"the stream is not a function of the seed alone (size {n})")
            rec.expect(all(sorted(a[i:i + n]) == list(range(n)) for i in range(0, 6 * n, n)), "epochs", f"{a}: an epoch is no permutation of the {n} examples")
            parts = []
            for r in range(3) if sharded else ():
                w = D.TrainingSampler(size=n, seed=s0)
                w._rank, w._world_size = r, 3
                parts.append(list(itertools.islice(iter(w), 2 * n)))
            rec.expect(not sharded or [x for row in zip(*parts) for x in row] == a[:6 * n], "shards", f"the workers' shards do not interleave to the common stream (size {n})")
            c = list(itertools.islice(iter(D.TrainingSampler(size=n, shuffle=False, seed=s0)), 3 * n))
            rec.expect(c == list(range(n)) * 3, "order", f"without shuffling: {c}")
        if n >= 4:
            streams = {tuple(itertools.islice(iter(D.TrainingSampler(size=n, seed=s)), 2 * n)) for s in range(8)}
            rec.expect(len(streams) >= 6, "seeds", f"{len(streams)} different streams for 8 seeds")
            a = list(itertools.islice(iter(D.TrainingSampler(size=n, seed=3)), 8 * n))
            rec.expect(len({tuple(a[i:i + n]) for i in range(0, 8 * n, n)}) > 1, "epochs", "every epoch has the same order")
    return case


def loader(name, bs):
    def case(rec):
        rep = dict(name=name, batch_size=bs)
        with contextlib.redirect_stderr(io.StringIO()):
            splits = D.get_datasets(name, "/nowhere", normalize=False)

        def key(x, y):
            return (x.reshape(-1).numpy().tobytes(), int(y))
        rows = [[key(*ds[i]) for i in range(len(ds))] for ds in splits]

        def stream(ld, n=None):
            got, sizes = [], []
            for x, y in ld:
                got += [key(a, b) for a, b in zip(x, y)]
                sizes.append(len(x))
                if n is not None and len(got) >= n:
                    break
            return got, sizes
        for seed in (0, 5):
            torch.manual_seed(seed)
            with contextlib.redirect_stderr(io.StringIO()):
                lds = D.build_dataloader(name, "/nowhere", batch_size=bs, num_workers=0, loop=False, normalize=False, seed=seed)
            orders = []
            for epoch in range(3):
                for k, ld in enumerate(lds):
                    got, sizes = stream(ld)
                    rec.ran()
                    rec.state(len(got))
                    n = len(rows[k])
                    rec.expect(sizes == [bs] * (n // bs) + ([n % bs] if n % bs else []), "batches", lambda: f"batches of sizes {sizes[:3]}..{sizes[-1]} for {n} examples ({rep})", rep)
                    if k == 0:
                        rec.expect(sorted(got) == sorted(rows[0]), "epoch", f"an epoch of the training loader is not every example (with its label) once ({rep})", rep)
                        orders.append(tuple(got))
                    else:
                        rec.expect(got == rows[k], "order", f"{('', 'validation', 'test')[k]} loader is not the data set in order ({rep})", rep)
            rec.expect(orders[0] != tuple(rows[0]) and len(set(orders)) > 1, "shuffle", f"the training loader does not shuffle ({rep})", rep)
        n = len(rows[0])
        seen = []
        for seed, glob in ((0, 1), (0, 2), (7, 1)):
            torch.manual_seed(glob)
            with contextlib.redirect_stderr(io.StringIO()):
                lds = D.build_dataloader(name, "/nowhere", batch_size=bs, num_workers=0, loop=True, normalize=False, seed=seed)
            got, _ = stream(lds[0], 2 * n)
            rec.ran()
            rec.expect(sorted(got[:n]) == sorted(rows[0]) == sorted(got[n:2 * n]), "loop", f"the endless training loader does not pass over every example once per epoch ({rep})", rep)
            seen.append(tuple(got[:2 * n]))
            for k in (1, 2):
                got, _ = stream(lds[k])
                rec.expect(got == rows[k], "order", f"with loop, split {k} is not the data set in order ({rep})", rep)
        rec.expect(seen[0] == seen[1] != seen[2], "seed", f"the endless training loader is not determined by its seed ({rep})", rep)
    return case


def cases(tier, seed):
    th = tier == "thorough"
    out = [("tables", tables), ("debd", debd), ("tabular/20newsgroup", newsgroup)]
    for name in VISION:
        for normalize in (False, True):
            for n in (10, 20, 40) + ((25, 33, 90) if th and name not in ("svhn", "svhn-extra", "lsun") else ()):
                if D.get_data_shape(name).height > 32 and n > 10:
                    continue
                out.append((f"vision/{name}/{'normalised' if normalize else 'raw'}/{n}", vision(name, normalize, n)))
    for name in TABULAR[:5]:
        for s in range(seed, seed + (1 if name in TABULAR[:3] else 4 if th else 2)):
            out.append((f"tabular/{name}/{s}", tabular(name, s)))
    for name in SYNTH:
        out.append((f"synth/{name}", synth(name)))
    for name in list(VISION) + ["fake", "digits", "wine", "breast_cancer", "covtype", "kddcup99"] + ["synth-" + s for s in SYNTH]:
        out.append((f"accepts/{name}", accepts(name)))
    for n in (1, 2, 3, 4):
        out.append((f"sampler/{n}", sampler(n, seed)))
    for name, bs in itertools.product(("wine", "breast_cancer", "digits", "synth-2-moons"), (1, 7, 64, 5000)):
        if bs == 1 and name in ("digits", "synth-2-moons") and not th:
            continue
        out.append((f"loader/{name}/{bs}", loader(name, bs)))
    return out
