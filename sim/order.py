"""The seam for hash order: histbook is imported with its sets (and hash and id) under the simulator's control.

Import this module before anything imports histbook.  Every set the library makes, by calling set or frozenset or by a
set display or comprehension, iterates in an order that the current seed decides (0: insertion order).  For odd seeds the
order is a permutation of insertion order, a function of the seed and the size of the set; for even seeds it depends on
the elements only (as with hashes that do not collide).  A set that is not modified always iterates in the same order, as
a real one does."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import random
import sys
import zlib

if "histbook" in sys.modules:
    raise ImportError("the seam for hash order must be installed before histbook is imported")

REPO = os.environ.get("HISTBOOK_REPO", "/repo")

SEED = [0]
COUNT = {"iterations": 0, "reordered": 0}
_perms = {}

def _order(items):
    COUNT["iterations"] += 1
    n = len(items)
    if SEED[0] == 0 or n < 2:
        return items
    if SEED[0] % 2 == 0:
        COUNT["reordered"] += 1
        salt = str(SEED[0])
        return sorted(items, key=lambda x: zlib.crc32((salt + repr(x)).encode("utf-8", "replace")))
    perm = _perms.get((SEED[0], n))
    if perm is None:
        perm = list(range(n))
        random.Random("{0}:{1}".format(SEED[0], n)).shuffle(perm)
        _perms[SEED[0], n] = perm
    COUNT["reordered"] += 1
    return [items[i] for i in perm]

def _make(base, name):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, base)
        def __subclasscheck__(cls, x):
            return issubclass(x, base)
    def wrap(method):
        def f(self, *args):
            return cls(getattr(base, method)(self, *args))
        f.__name__ = method
        return f
    def it(self):
        return iter(_order(list(base.__iter__(self))))
    def pop(self):
        for x in self:
            base.remove(self, x)
            return x
        raise KeyError("pop from an empty set")
    def rep(self):
        items = ", ".join(repr(x) for x in self)
        return ("{" + items + "}" if base is set else "frozenset({" + items + "})") if items else base.__name__ + "()"
    space = {"__iter__": it, "__repr__": rep, "__str__": rep, "__reduce__": lambda self: (base, (list(self),))}
    if base is set:
        space["pop"] = pop
        space["__hash__"] = None
    for m in ("union", "intersection", "difference", "symmetric_difference", "copy", "__or__", "__and__", "__sub__", "__xor__", "__ror__", "__rand__", "__rsub__", "__rxor__"):
        space[m] = wrap(m)
    cls = Meta(name, (base,), space)
    return cls

Set = _make(builtins.set, "set")
FrozenSet = _make(builtins.frozenset, "frozenset")

_MASK = 2**61 - 1

def _hash(x):
    h = builtins.hash(x)
    return h if SEED[0] == 0 else ((h * (2 * SEED[0] + 1)) ^ (SEED[0] * 0x9E3779B97F4A7C15)) & _MASK

def _id(x):
    i = builtins.id(x)
    return i if SEED[0] == 0 else ((i * (2 * SEED[0] + 1)) ^ (SEED[0] * 0x9E3779B97F4A7C15)) & (2**63 - 1)

class _Rewrite(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("set", ast.Load()), [ast.List(node.elts, ast.Load())], []), node)
    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("set", ast.Load()), [ast.ListComp(node.elt, node.generators)], []), node)

class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        tree = ast.fix_missing_locations(_Rewrite().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)
    def exec_module(self, module):
        module.__dict__.update({"set": Set, "frozenset": FrozenSet, "hash": _hash, "id": _id})
        super(_Loader, self).exec_module(module)

class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname == "histbook" or fullname.startswith("histbook."):
            spec = importlib.machinery.PathFinder.find_spec(fullname, path if path is not None else [REPO])
            if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
                spec.loader = _Loader(spec.loader.name, spec.loader.path)
            return spec
        return None

sys.meta_path.insert(0, _Finder())

from sim import env
