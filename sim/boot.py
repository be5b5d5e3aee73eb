"""Start-up: seams first, then the library, always compiled from /repo's current source (no stale .pyc)."""
import os, sys
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
from . import seam
seam.install()

import importlib.machinery, importlib.util


class _Fresh(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, "exec", dont_inherit=True)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "gerrychain" and not name.startswith("gerrychain."):
            return None
        base = os.path.join(os.environ.get("SIM_REPO_DEV", "/repo"), *name.split("."))
        if os.path.isdir(base):
            f, sub = os.path.join(base, "__init__.py"), [base]
        else:
            f, sub = base + ".py", None
        if not os.path.exists(f):
            return None
        return importlib.util.spec_from_file_location(name, f, loader=_Fresh(name, f), submodule_search_locations=sub)


sys.meta_path.insert(0, _Finder)
import gerrychain  # noqa
import gerrychain.updaters.locality_split_scores, gerrychain.meta.diversity, gerrychain.metagraph  # noqa
import gerrychain.optimization, gerrychain.grid, gerrychain.accept, gerrychain.proposals  # noqa
import gerrychain.partition.geographic  # noqa
