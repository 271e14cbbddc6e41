"""Find and load contract files."""
import glob
import os
import types

from . import api

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(HERE, "specs")


def files():
    return sorted(glob.glob(os.path.join(SPECS, "*.py")))


class Store(dict):
    def __init__(self):
        super().__init__()
        self.stubs = {}


def load_symbolic(L):
    store = Store()
    for f in files():
        _load(f, store, L)
    return store


def load_concrete():
    store = Store()
    for f in files():
        _load(f, store, None)
    return store


def _load(f, store, L):
    name = os.path.basename(f)[:-3]
    with open(f, encoding="utf-8") as fh:
        src = fh.read()
    m = types.ModuleType("specs." + name)
    m.__file__ = f

    def stub(target, proved_by):
        def deco(fn):
            store.stubs[target] = (fn, proved_by)
            return fn
        return deco

    m.__dict__["contract"] = api.registrar(store, name)
    m.__dict__["stub"] = stub
    shared = store.__dict__.setdefault("shared", {})
    m.__dict__.update({k: v for k, v in shared.items()})
    if L is not None:
        from .load import instrument, HELPERS
        m.__dict__["__builtins__"] = L.builtins
        m.__dict__.update(HELPERS)
        exec(instrument(src, f), m.__dict__)
    else:
        exec(compile(src, f, "exec"), m.__dict__)
    if name.startswith("_"):
        # shared reference semantics used by the other contract files
        for k, v in m.__dict__.items():
            if not k.startswith("__") and k not in ("contract", "stub"):
                shared[k] = v


def closure(store, prop):
    """contracts deciding a property, including those whose contracts are used at call sites"""
    names = [n for n, c in store.items() if prop in c.props]
    seen = list(names)
    for n in seen:
        for u in store[n].uses:
            if u in store.stubs:
                p = store.stubs[u][1]
                if p not in seen:
                    seen.append(p)
    return seen
