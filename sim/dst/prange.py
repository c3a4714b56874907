"""A stand-in for numba whose parallel loops run under a seeded schedule.

The body of each outermost `for ... in prange(n)` becomes a generator that can be suspended after every statement.  The
iterations are dealt to simulated threads in consecutive blocks; names assigned in the body are private to a thread (as numba
makes them), arrays are shared.  The scheduler picks which simulated thread runs its next statements."""
import ast
import importlib.machinery
import random
import sys
import types


class Sched:
    """The schedule of the loops that start now.  None: in sequence."""

    threads = 1
    seed = None
    order = "blocks"
    on_pause = None  # called between statements (another call made meanwhile)
    loops = steps = switches = 0
    shape = ()


def _stored(nodes):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda = visit_FunctionDef = visit_ListComp
    for n in nodes:
        V().visit(n)
    return out


def _augmented(nodes):
    return {n.target.id for x in nodes for n in ast.walk(x) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}


def _is_prange(node):
    f = node.func if isinstance(node, ast.Call) else None
    return isinstance(f, ast.Name) and f.id == "prange" or isinstance(f, ast.Attribute) and f.attr == "prange"


class _Serial(ast.NodeTransformer):
    """Inside a parallel loop another prange is an ordinary range."""

    def visit_Call(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("range", ast.Load()), n.args, n.keywords), n) if _is_prange(n) else n


def _pausing(body):
    out = []
    for s in body:
        for f in ("body", "orelse"):
            if getattr(s, f, None) and isinstance(s, (ast.For, ast.While, ast.If)):
                setattr(s, f, _pausing(getattr(s, f)))
        out.append(s)
        if not isinstance(s, (ast.Break, ast.Continue, ast.Return, ast.FunctionDef)):
            out.append(ast.Expr(ast.Yield(None)))
    return out


class Parallel(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn = None

    def visit_FunctionDef(self, node):
        outer, self.fn = self.fn, node
        self.generic_visit(node)
        self.fn = outer
        return node

    def visit_For(self, node):
        if self.fn is None or not _is_prange(node.iter) or not isinstance(node.target, ast.Name) or node.orelse:
            return self.generic_visit(node)
        inside = _stored(node.body) | {node.target.id}
        a = self.fn.args
        rest = {x.arg for x in a.args + a.kwonlyargs + getattr(a, "posonlyargs", [])} | _stored([s for s in self.fn.body if s is not node and not any(x is node for x in ast.walk(s))])
        for s in self.fn.body:  # siblings of the loop, when it is nested
            if s is not node and any(x is node for x in ast.walk(s)):
                rest |= _stored([s])
        shared = inside & rest - {node.target.id}
        if shared & _augmented(node.body) or any(isinstance(x, (ast.Return, ast.Yield)) for s in node.body for x in ast.walk(s)):
            return node  # a reduction: only the order of the iterations is chosen (prange itself)
        self.n += 1
        name = "_par%d" % self.n
        body = [_Serial().visit(s) for s in node.body]
        pre = [ast.parse("if %r in _outer:\n    %s = _outer[%r]" % (v, v, v)).body[0] for v in sorted(shared)]
        loop = ast.For(node.target, ast.Name("_chunk", ast.Load()), _pausing(body), [], None)
        fn = ast.parse("def %s(_chunk, _outer):\n    yield" % name).body[0]
        fn.body += pre + [loop]
        call = ast.Expr(ast.Call(ast.Name("_sim_run", ast.Load()), [ast.Call(ast.Name("range", ast.Load()), node.iter.args, []), ast.Name(name, ast.Load()), ast.Call(ast.Name("locals", ast.Load()), [], [])], []))
        return [ast.copy_location(fn, node), ast.copy_location(call, node)]


def _sim_run(iters, body, outer):
    iters = list(iters)
    Sched.loops += 1
    if Sched.seed is None:
        for _ in body(iters, outer):
            pass
        return
    r = random.Random(Sched.seed * 1009 + Sched.loops)
    if Sched.order == "shuffled":
        r.shuffle(iters)
    elif Sched.order == "reversed":
        iters.reverse()
    k = max(1, min(Sched.threads, len(iters)))
    cuts = [len(iters) * i // k for i in range(k + 1)]
    live = [body(iters[cuts[i]:cuts[i + 1]], outer) for i in range(k)]
    last = None
    while live:
        g = r.choice(live)
        if g is not last:
            Sched.switches += 1
            last = g
        for _ in range(r.choice([1, 1, 2, 3, 8, 40])):
            Sched.steps += 1
            try:
                next(g)
            except StopIteration:
                live.remove(g)
                break
        if Sched.on_pause:
            Sched.on_pause()


def prange(*a):
    it = list(range(*a))
    if Sched.seed is not None:
        if Sched.order == "reversed":
            it.reverse()
        else:
            random.Random(Sched.seed).shuffle(it)
    return it


def _decorator(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


def stub():
    m = types.ModuleType("numba")
    m.njit = m.jit = m.generated_jit = m.stencil = _decorator
    m.prange = prange
    m.config = types.SimpleNamespace(THREADING_LAYER="default", NUMBA_NUM_THREADS=8)
    m._threads = 8

    def set_num_threads(n):
        if not 1 <= int(n) <= 8:
            raise ValueError("The number of threads must be between 1 and 8")
        m._threads = int(n)

    m.set_num_threads = set_num_threads
    m.get_num_threads = lambda: m._threads
    for t in ("float32", "float64", "int32", "int64", "boolean"):
        setattr(m, t, None)
    m.__version__ = "0.53.1"
    m.__path__ = []
    return m


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, name):
        path = self.get_filename(name)
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read(), path)
        p = Parallel()
        tree = ast.fix_missing_locations(p.visit(tree))
        FOUND[name] = p.n
        return compile(tree, path, "exec")


FOUND = {}


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if not name.startswith("improver."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            with open(spec.loader.path, encoding="utf-8") as f:
                if "prange" in f.read():
                    spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    import builtins

    builtins._sim_run = _sim_run
    sys.meta_path.insert(0, Finder)
    sys.modules["numba"] = stub()
