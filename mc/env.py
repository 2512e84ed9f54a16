"""Process set-up shared by every check: where the code under test comes from, how torch behaves.

The code under test is always the working tree at /repo (override: MC_REPO, used only for experiments).
`fast_pytorch_kmeans` is not installed in this sandbox, so a stub takes its place: k-means is treated as
part of the environment, whose answers the explorer chooses (see mc/stub).
"""
import atexit
import importlib.machinery
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

os.environ["CUDA_VISIBLE_DEVICES"] = ""
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("WANDB_MODE", "disabled")
os.environ.setdefault("PYTHONHASHSEED", "0")

_scratch = tempfile.mkdtemp(prefix="mc_")
_owner = os.getpid()


def _cleanup():
    if os.getpid() == _owner and _scratch.startswith(tempfile.gettempdir()):
        shutil.rmtree(_scratch, ignore_errors=True)


atexit.register(_cleanup)
SCRATCH = _scratch
os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
sys.dont_write_bytecode = True


# never trust byte code next to the sources under test: a patched file of equal size and mtime must be re-read
class _FreshLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, "exec", dont_inherit=True)


def _hook(path):
    path = os.path.abspath(path or ".")
    if path != REPO and not path.startswith(REPO + os.sep):
        raise ImportError
    return importlib.machinery.FileFinder(path, (_FreshLoader, [".py"]))


sys.path_hooks.insert(0, _hook)
sys.path_importer_cache.clear()

sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(VERIF, "mc", "stub"))

import warnings  # noqa: E402

warnings.filterwarnings("ignore")

import torch  # noqa: E402

torch.set_num_threads(1)

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

import simple_einet  # noqa: E402

assert simple_einet.__file__.startswith(REPO + os.sep), simple_einet.__file__
