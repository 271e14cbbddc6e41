"""What contract files import: ``contract`` registers a contract in the module being loaded."""
from .harness import Contract


def registrar(store, module):
    def contract(props, funcs, bounded=None, budget=1.0, max_paths=3000, samples=None, uses=(), note="", numeric=None,
                 internal=False, quick=True, secs=None):
        if isinstance(props, str):
            props = [props]
        if isinstance(funcs, str):
            funcs = [funcs]

        def deco(fn):
            k = samples or (600 if bounded == "runtime" else 80)
            c = Contract(fn.__name__, module, list(props), list(funcs), bounded, budget, max_paths, k, list(uses),
                         note, numeric, internal, quick, secs)
            c.fn = fn
            c.doc = fn.__doc__ or ""
            if fn.__name__ in store:
                raise RuntimeError("duplicate contract " + fn.__name__)
            store[fn.__name__] = c
            return fn
        return deco
    return contract
