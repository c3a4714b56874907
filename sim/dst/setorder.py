"""Code of one module re-executed with every set iterating in a seeded order.

Set literals, set comprehensions and calls of set()/frozenset() in the module produce `OrderedSetSim`
objects: real sets whose iteration order is a seeded permutation (one per set instance and content).
"""
import ast
import builtins
import importlib.machinery
import random
import sys
import types

import numpy as np


class Order:
    seed = 0
    sets = 0


_PLAIN = (int, float, bool, type(None), np.integer, np.floating, np.bool_)


def _perm(items):
    if Order.seed is None or all(isinstance(x, _PLAIN) for x in items):
        return items  # numbers hash alike in every process
    items = sorted(items, key=lambda x: (type(x).__name__, repr(x)))
    r = random.Random("%s/%d" % (Order.seed, len(items)))
    r.shuffle(items)
    Order.sets += len(items) > 1
    return items


def _ops(base):
    class S(base):
        __slots__ = ()

        def __iter__(self):
            return iter(_perm(list(base.__iter__(self))))

        def __reduce__(self):
            return (base, (list(base.__iter__(self)),))

        def __repr__(self):
            return repr(base(list(base.__iter__(self))))

        def __eq__(self, o):
            return base(list(base.__iter__(self))) == o

        def __ne__(self, o):
            return not self == o

        if base is frozenset:
            def __hash__(self):
                return hash(frozenset(list(base.__iter__(self))))
        else:
            __hash__ = None

            def pop(self):
                for x in self:
                    break
                else:
                    raise KeyError("pop from an empty set")
                base.discard(self, x)
                return x

    def mk(name):
        def f(self, *others):
            conv = [list(o) if isinstance(o, base) else o for o in others]
            r = getattr(base, name)(base(list(base.__iter__(self))), *conv)
            return S(r)
        f.__name__ = name
        return f

    for n in ("union", "intersection", "difference", "symmetric_difference", "copy"):
        setattr(S, n, mk(n))

    def op(name):
        def f(self, o):
            if not isinstance(o, (set, frozenset)) and not hasattr(o, "isdisjoint"):
                return NotImplemented
            r = getattr(base, name)(base(list(base.__iter__(self))), base(list(o)))
            return S(r)
        f.__name__ = name
        return f

    for n in ("__or__", "__and__", "__sub__", "__xor__"):
        setattr(S, n, op(n))
    for n, m in (("__ror__", "__or__"), ("__rand__", "__and__"), ("__rxor__", "__xor__")):
        setattr(S, n, op(m))

    def rsub(self, o):
        return S(base(list(o)) - base(list(base.__iter__(self))))
    S.__rsub__ = rsub
    S.__name__ = base.__name__
    return S


SimSet = _ops(set)
SimFrozen = _ops(frozenset)


class Rewrite(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("_sim_set", ast.Load()), [ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("_sim_set", ast.Load()), [ast.ListComp(node.elt, node.generators)], []), node)

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and node.id in ("set", "frozenset"):
            return ast.copy_location(ast.Name("_sim_" + node.id, ast.Load()), node)
        return node

    def visit_BinOp(self, node):
        # operations on dictionary views make sets
        self.generic_visit(node)
        if isinstance(node.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            for v in (node.left, node.right):
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("keys", "items") and not v.args:
                    return ast.copy_location(ast.Call(ast.Name("_sim_set", ast.Load()), [node], []), node)
        return node

    def visit_Call(self, node):
        # isinstance(x, set) keeps the real type
        if isinstance(node.func, ast.Name) and node.func.id in ("isinstance", "issubclass"):
            return node
        return self.generic_visit(node)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node


def compile_file(path):
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read(), path)
    tree = ast.fix_missing_locations(Rewrite().visit(tree))
    return compile(tree, path, "exec")


_cache = {}


def load(path, name, seed):
    """A private copy of the module with seeded set order."""
    Order.seed = seed
    if path not in _cache:
        _cache[path] = compile_file(path)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = name.rsplit(".", 1)[0]
    m._sim_set, m._sim_frozenset = SimSet, SimFrozen
    exec(_cache[path], m.__dict__)
    return m


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, name):
        return compile_file(self.get_filename(name))


class Finder:
    """Import hook: every module of IMPROVER with seeded set order."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "improver" and not name.startswith("improver."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    builtins._sim_set, builtins._sim_frozenset = SimSet, SimFrozen
    sys.meta_path.insert(0, Finder)
