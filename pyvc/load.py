"""Load the current source of /repo into instrumented modules.

The text that is verified is the file in /repo, read on every run.  The only rewriting is the list in
``Instrument`` below; each rewrite keeps the meaning of the expression and routes it through the shims."""
import ast
import os
import tokenize
import types

from . import ghostxml, shim
from .sym import vc_mod

REPO = os.environ.get("VERIF_REPO", "/repo")


class Instrument(ast.NodeTransformer):
    """% -> vc_mod, / -> vc_div, ** -> vc_pow, float literals -> exact rationals,
    ``while`` loops that add a constant to one local -> closed form (vc_accel)."""

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return self._call("__vc_lit__", ast.Constant(repr(n.value)), n)
        if isinstance(n.value, complex):
            return self._call("__vc_clit__", ast.Constant(repr(n.value.imag)), n)
        return n

    def _call(self, f, *args):
        node = args[-1]
        args = args[:-1]
        c = ast.Call(ast.Name(f, ast.Load()), list(args), [])
        return ast.copy_location(c, node)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Mod: "__vc_mod__", ast.Div: "__vc_div__", ast.Pow: "__vc_pow__"}.get(type(n.op))
        if f:
            return self._call(f, n.left, n.right, n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        f = {ast.Mod: "__vc_imod__", ast.Div: "__vc_idiv__", ast.Pow: "__vc_pow__"}.get(type(n.op))
        simple = isinstance(n.target, ast.Name) or (
            isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name))
        if f and simple:
            import copy
            load = copy.deepcopy(n.target)
            load.ctx = ast.Load()
            return ast.copy_location(ast.Assign([n.target], self._call(f, load, n.value, n)), n)
        return n

    def visit_JoinedStr(self, n):
        # leave constants inside f-strings alone, instrument the expressions
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_While(self, n):
        acc = self._accel(n)
        if acc is not None:
            return acc
        self.generic_visit(n)
        return n

    def _accel(self, n):
        if n.orelse or len(n.body) != 1:
            return None
        s = n.body[0]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)):
            name = s.target.id
            step = ast.BinOp(ast.Name(name, ast.Load()), s.op, s.value)
            val = s.value
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(
                s.value, ast.BinOp) and isinstance(s.value.op, (ast.Add, ast.Sub)) and isinstance(
                s.value.left, ast.Name) and s.value.left.id == s.targets[0].id:
            name = s.targets[0].id
            step = s.value
            val = s.value.right
        else:
            return None
        if not isinstance(n.test, ast.Compare) or len(n.test.ops) != 1:
            return None
        for x in ast.walk(n.test):
            if isinstance(x, (ast.Call, ast.NamedExpr)):
                return None
        used = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
        if name not in used or any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(val)):
            return None
        args = ast.arguments([], [ast.arg(name)], None, [], [], None, [])
        test = self.visit(n.test)
        step = self.visit(step)
        call = ast.Call(ast.Name("__vc_accel__", ast.Load()),
                        [ast.Name(name, ast.Load()), ast.Lambda(args, test), ast.Lambda(args, step)], [])
        return ast.copy_location(ast.Assign([ast.Name(name, ast.Store())], call), n)


HELPERS = {"__vc_mod__": vc_mod, "__vc_div__": shim.vc_div, "__vc_idiv__": shim.vc_idiv, "__vc_imod__": shim.vc_imod,
           "__vc_pow__": shim.vc_pow, "__vc_lit__": shim.vc_lit, "__vc_clit__": shim.vc_clit,
           "__vc_accel__": shim.vc_accel}


def instrument(src, filename):
    tree = ast.parse(src, filename)
    tree = Instrument().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


class Loaded:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.registry = {}
        self.registry["math"] = shim.make_math()
        self.registry["re"] = shim.ReShim()
        self.ghostxml = ghostxml.make(self.registry)
        self.builtins = shim.make_builtins(self.registry)
        self.builtins["open"] = self.registry["io"].open
        pkg = types.ModuleType("svgio")
        pkg.__path__ = [os.path.join(self.repo, "svgio")]
        self.registry["svgio"] = pkg
        self.pkg = pkg
        self.registry["load"] = self.lazy
        for name in ("constants", "basic", "path", "nodes"):
            m = self.registry.get("svgio." + name) or self.load_module(name)
            setattr(self, name, m)
        with tokenize.open(os.path.join(self.repo, "svgio", "__init__.py")) as f:
            init = f.read()
        pkg.__dict__["__builtins__"] = self.builtins
        pkg.__dict__.update(HELPERS)
        exec(instrument(init, "svgio/__init__.py"), pkg.__dict__)

    def lazy(self, full):
        """a further module of the package, loaded when first imported"""
        name = full[len("svgio."):]
        if full in self.registry or not os.path.exists(os.path.join(self.repo, "svgio", name + ".py")):
            return self.registry.get(full)
        return self.load_module(name)

    def load_module(self, name):
        path = os.path.join(self.repo, "svgio", name + ".py")
        with tokenize.open(path) as f:      # in the encoding the file declares
            src = f.read()
        m = types.ModuleType("svgio." + name)
        m.__file__ = path
        m.__package__ = "svgio"
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__.update(HELPERS)
        self.registry["svgio." + name] = m
        setattr(self.pkg, name, m)
        exec(instrument(src, path), m.__dict__)
        return m

    def load_spec(self, path, modname):
        with open(path, encoding="utf-8") as f:
            src = f.read()
        m = types.ModuleType(modname)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__.update(HELPERS)
        exec(instrument(src, path), m.__dict__)
        return m


def concrete(repo=None):
    """the unmodified package, ordinary Python floats"""
    import importlib
    import sys
    sys.dont_write_bytecode = True
    repo = repo or REPO
    if repo not in sys.path:
        sys.path.insert(0, repo)
    out = types.SimpleNamespace()
    for name in ("constants", "basic", "path", "nodes"):
        m = importlib.import_module("svgio." + name)
        assert os.path.realpath(m.__file__).startswith(os.path.realpath(repo)), m.__file__
        setattr(out, name, m)
    out.repo = repo
    return out
