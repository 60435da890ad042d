"""Import `starlette` from /repo's working tree, always compiled from source.

A .pyc is keyed on (mtime second, size): an edit made in the same second with
the same size would silently run the old code, so bytecode caches are bypassed.
"""
from __future__ import annotations

import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


class _SourceOnly(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "starlette" and not name.startswith("starlette."):
            return None
        base = os.path.join(REPO, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_SourceOnly(name, init), submodule_search_locations=[base]
            )
        mod = base + ".py"
        if os.path.isfile(mod):
            return importlib.util.spec_from_file_location(name, mod, loader=_SourceOnly(name, mod))
        return None


def install():
    for m in list(sys.modules):
        if m == "starlette" or m.startswith("starlette."):
            del sys.modules[m]
    sys.meta_path.insert(0, _Finder)
