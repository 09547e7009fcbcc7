"""Load a second, symbolically executable copy of the qldpc package from /repo's current source.

The source of every module is parsed on every run; the only rewriting done is that of a few builtins
whose C implementation would force a symbolic value to become concrete (int(), bool(), dict displays),
and the modules it imports (numpy, galois, scipy, ...) are replaced by the symbolic stand-ins.
"""
from __future__ import annotations

import ast
import builtins
import dataclasses
import functools
import importlib
import importlib.util
import math
import os
import sys
import types

import numpy as np

from . import engine as _e
from . import symnp as S
from . import values as V
from .engine import EngineGap

REPO = os.environ.get("VF_REPO", "/repo")


# ---------------------------------------------------------------- builtins
def vf_int(*args, **kwargs):
    if len(args) == 1 and not kwargs:
        x = args[0]
        if isinstance(x, (V.SymInt, V.SymBool, V.SymWord, V.GFElem)):
            return V.to_int(x)
        if isinstance(x, str):
            return V.untoken(x)
        if type(x).__module__ == "sympy.core.numbers" and x.is_Integer:
            return V.untoken(str(x))
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return V.to_int(S.raw(x).reshape(-1)[0])
    return int(*args, **kwargs)


def vf_bool(*args):
    if len(args) == 1:
        x = args[0]
        if isinstance(x, (V.SymInt, V.SymBool, V.SymWord, V.GFElem)):
            return V.mkbool(V.blit(x))
    return bool(*args)


def vf_isinstance(obj, cls):
    if isinstance(obj, cls):
        return True
    if isinstance(obj, (V.SymInt, V.SymWord)):
        return _mentions(cls, (int, np.integer))
    if isinstance(obj, V.SymBool):
        return _mentions(cls, (bool, int, np.bool_))
    if isinstance(obj, V.GFElem):
        return _mentions(cls, (np.ndarray,)) or (
            isinstance(cls, type) and getattr(cls, "info", None) is obj.info
        )
    return False


def _mentions(cls, wanted) -> bool:
    if isinstance(cls, tuple):
        return any(_mentions(c, wanted) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(_mentions(c, wanted) for c in cls.__args__)
    return cls in wanted


def vf_all(iterable):
    lits = []
    for x in iterable:
        if isinstance(x, (V.SymBool, V.SymInt, V.GFElem, V.SymWord)) or isinstance(x, S.SymArray):
            lit = V.blit(x)
            if lit == 0:
                return False
            lits.append(lit)
        elif not x:
            return False
    return V.mkbool(V._dag().and_all(lits)) if lits else True


def vf_any(iterable):
    lits = []
    for x in iterable:
        if isinstance(x, (V.SymBool, V.SymInt, V.GFElem, V.SymWord)) or isinstance(x, S.SymArray):
            lit = V.blit(x)
            if lit == 1:
                return True
            lits.append(lit)
        elif x:
            return True
    return V.mkbool(V._dag().or_all(lits)) if lits else False


def _extreme(real, pick):
    def func(*args, **kwargs):
        items = list(args[0]) if len(args) == 1 else list(args)
        if "key" in kwargs or not any(isinstance(x, (V.SymInt, V.SymBool, V.SymWord, V.GFElem)) for x in items):
            return real(items, **kwargs) if len(args) == 1 else real(*args, **kwargs)
        # infinities are ordered concretely; the rest are merged
        if any(isinstance(x, float) for x in items):
            kept = []
            for x in items:
                if isinstance(x, float) and x in (float("inf"), float("-inf")):
                    if (x > 0) == (real is builtins.max):
                        return x
                    continue
                kept.append(x)
            items = kept
        return functools.reduce(pick, items)

    return func


vf_min = _extreme(builtins.min, S.sym_min2)
vf_max = _extreme(builtins.max, S.sym_max2)


def vf_sum(iterable, start=0):
    items = list(iterable)
    if isinstance(start, int) and start == 0 and items and all(isinstance(x, (int, V.SymInt, V.SymBool)) for x in items):
        return S.balanced_sum([V.to_int(x) for x in items])
    total = start
    for x in items:
        total = total + x
    return total


class SymDict(dict):
    """dict whose keys may be tuples of symbolic integers; lookups merge over all entries."""

    def __init__(self, *args, **kwargs):
        super().__init__()
        self._sym: list[tuple[tuple, object]] = []
        self.update(*args, **kwargs)

    def update(self, *args, **kwargs):
        if args:
            src = args[0]
            pairs = src.items() if hasattr(src, "items") else src
            for k, v in pairs:
                self[k] = v
        for k, v in kwargs.items():
            self[k] = v

    @staticmethod
    def _symbolic(key) -> bool:
        return V.is_sym(key) or isinstance(key, tuple) and any(SymDict._symbolic(k) for k in key)

    @staticmethod
    def _same(a, b) -> int:
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return 0
            return V._dag().and_all([SymDict._same(x, y) for x, y in zip(a, b)])
        if isinstance(a, tuple) or isinstance(b, tuple):
            return 0
        return V.blit(a == b)

    def _all(self):
        return [(k, v) for k, v in dict.items(self)] + list(self._sym)

    def __setitem__(self, key, value):
        if not self._symbolic(key) and not self._sym:
            return super().__setitem__(key, value)
        # later entries win on lookup
        if not self._sym:
            self._sym = [(k, v) for k, v in dict.items(self)]
            dict.clear(self)
        self._sym.append((key, value))

    def _lookup(self, key, default, missing):
        if not self._sym and not self._symbolic(key):
            if dict.__contains__(self, key):
                return dict.__getitem__(self, key)
            if missing:
                raise KeyError(key)
            return default
        entries = self._all()
        conds = [self._same(key, k) for k, _ in entries]
        found = V.mkbool(V._dag().or_all(conds))
        if missing or default is None or not isinstance(default, (int, np.ndarray, *S._SCALARS)):
            if not bool(found):  # fork: default and stored values are of different kinds
                if missing:
                    raise KeyError(key)
                return default
            result = None
        else:
            result = default
        for c, (_, v) in zip(conds, entries):
            if c == 0:
                continue
            result = v if result is None else _merge(V.mkbool(c), v, result)
        return result

    def __getitem__(self, key):
        return self._lookup(key, None, True)

    def get(self, key, default=None):
        return self._lookup(key, default, False)

    def __contains__(self, key):
        if not self._sym and not self._symbolic(key):
            return dict.__contains__(self, key)
        return bool(V.mkbool(V._dag().or_all([self._same(key, k) for k, _ in self._all()])))

    def __len__(self):
        if self._sym:
            raise EngineGap("length of a dictionary with symbolic keys")
        return dict.__len__(self)

    def __iter__(self):
        if self._sym:
            self._settle()
        return dict.__iter__(self)

    def items(self):
        if self._sym:
            self._settle()
        return dict.items(self)

    def values(self):
        if self._sym:
            self._settle()
        return dict.values(self)

    def keys(self):
        if self._sym:
            self._settle()
        return dict.keys(self)

    def _settle(self):
        """Decide all symbolic keys (by forking)."""
        entries, self._sym = self._sym, []
        for k, v in entries:
            dict.__setitem__(self, tuple(int(x) for x in k) if isinstance(k, tuple) else int(k), v)

    def setdefault(self, key, default=None):
        if key in self:
            return self[key]
        self[key] = default
        return default


def _merge(cond, a, b):
    if isinstance(cond, bool):
        return a if cond else b
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
        return S.where_merge(cond, a, b)
    if isinstance(a, (int, *S._SCALARS)) and isinstance(b, (int, *S._SCALARS)):
        return V.ite(cond, a, b)
    return a if bool(cond) else b


def vf_settle(x):
    """A concrete value (by forking)."""
    if isinstance(x, V.SymBool):
        return bool(x)
    return int(x) if isinstance(x, V.SymInt) else x


class _Rewriter(ast.NodeTransformer):
    CALLS = {"int": "vf_int_", "bool": "vf_bool_"}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name):
            if node.func.id in self.CALLS:
                node.func = ast.copy_location(ast.Name(self.CALLS[node.func.id], ast.Load()), node.func)
            elif node.func.id == "dict" and not any(k.arg is None for k in node.keywords):
                node.func = ast.copy_location(ast.Name("vf_dict_", ast.Load()), node.func)
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        if node.name in ("__bool__", "__len__", "__hash__"):  # Python insists on real values
            for sub in ast.walk(node):
                if isinstance(sub, ast.Return) and sub.value is not None:
                    sub.value = ast.copy_location(ast.Call(ast.Name("vf_settle_", ast.Load()), [sub.value], []), sub.value)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if node.keys and any(k is None for k in node.keys):
            return node
        new = ast.Call(
            ast.Name("vf_dict_", ast.Load()),
            [ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())],
            [],
        )
        return ast.copy_location(new, node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(ast.Call(ast.Name("vf_dict_", ast.Load()), [gen], []), node)


BUILTIN_OVERRIDES = {
    "isinstance": vf_isinstance,
    "all": vf_all,
    "any": vf_any,
    "min": vf_min,
    "max": vf_max,
    "sum": vf_sum,
    "map": lambda func, *iterables: map(vf_int if func is int else vf_bool if func is bool else func, *iterables),
    "vf_int_": vf_int,
    "vf_bool_": vf_bool,
    "vf_dict_": SymDict,
    "vf_settle_": vf_settle,
}


def _symbolic(x) -> bool:
    return S.has_sym(x) or (dataclasses.is_dataclass(x) and not isinstance(x, type) and any(S.has_sym(v) for v in vars(x).values()))


def vf_cache(func=None, **_):
    """functools.cache that is bypassed for symbolic arguments."""
    if func is None:
        return vf_cache
    cached = functools.cache(func)

    @functools.wraps(func)
    def wrapper(*args, **kwargs):
        if any(_symbolic(a) for a in [*args, *kwargs.values()]):
            return func(*args, **kwargs)
        return cached(*args, **kwargs)

    wrapper.cache_clear = cached.cache_clear
    wrapper.cache_info = cached.cache_info
    CACHES.append(cached)
    return wrapper


CACHES: list = []


class SymPackage:
    """The symbolic copy of the package: a private module registry with its own import hook."""

    def __init__(self, stubs: dict | None = None) -> None:
        self.modules: dict[str, types.ModuleType] = {}
        self.sources: dict[str, str] = {}
        stubs = stubs or {}
        npx = S.NPProxy()
        self.np = self.base_np = npx
        self.galois = S.GaloisProxy()
        import scipy
        import scipy.linalg

        linalg = S.ModuleProxy("scipy.linalg", scipy.linalg, block_diag=S.sym_block_diag)
        self.shims = {
            "numpy": npx,
            "galois": self.galois,
            "scipy": S.ModuleProxy("scipy", scipy, linalg=linalg),
            "scipy.linalg": linalg,
            "random": S.PyRandomProxy("random"),
            "math": S.ModuleProxy("math", math, gcd=S.sym_gcd),
            "functools": S.ModuleProxy("functools", functools, cache=vf_cache, lru_cache=vf_cache),
        }
        self.shims.update(stubs)
        self.builtins = dict(vars(builtins))
        self.builtins.update(BUILTIN_OVERRIDES)
        self.builtins["__import__"] = self._import

    # ---- import hook ----
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            package = globals["__package__"].split(".")
            base = ".".join(package[: len(package) - level + 1])
            name = f"{base}.{name}" if name else base
        root = name.split(".")[0]
        if root == "qldpc":
            module = self.load(name)
            if fromlist:
                for item in fromlist:
                    if item != "*" and not hasattr(module, item):
                        try:
                            self.load(f"{name}.{item}")
                        except ModuleNotFoundError:
                            pass
                return module
            return module if level else self.modules[root]
        if name in self.shims:
            return self.shims[name] if fromlist else self.shims.get(root, self.shims[name])
        if root in self.shims:
            real = importlib.import_module(name)
            return real if fromlist else self.shims[root]
        return __import__(name, globals, locals, fromlist, 0)

    def load(self, name: str) -> types.ModuleType:
        if name in self.modules:
            return self.modules[name]
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        path = os.path.join(REPO, *name.split("."))
        if os.path.isdir(path):
            filename, package = os.path.join(path, "__init__.py"), name
        else:
            filename, package = path + ".py", parent
        if not os.path.exists(filename):
            raise ModuleNotFoundError(name)
        with open(filename) as file:
            text = file.read()
        tree = ast.fix_missing_locations(_Rewriter().visit(ast.parse(text, filename)))
        module = types.ModuleType(name)
        module.__file__ = filename
        module.__package__ = package
        if package == name:
            module.__path__ = [path]
        module.__dict__["__builtins__"] = self.builtins
        self.modules[name] = module
        self.sources[name] = text
        if parent:
            # set before execution: in circular imports, "from package import name" must not fall back
            # to the real module of that name in sys.modules
            setattr(self.modules[parent], name.rpartition(".")[2], module)
        # dataclasses and typing look modules up by name
        key = "vfsym_" + name.replace(".", "_")
        module.__dict__["__name__"] = name
        sys.modules.setdefault(key, module)
        try:
            exec(compile(tree, filename, "exec"), module.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            if parent:
                vars(self.modules[parent]).pop(name.rpartition(".")[2], None)
            raise
        return module
