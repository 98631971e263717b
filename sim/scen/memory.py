"""P21: the C++ structures survive whatever the code of the caller does while they call it
(comparators, comparison methods, type checks, finalizers, visitors), and refer to every object
exactly as often as they contain it."""
import gc
import sys

from core import need, Violation, InjectedError, pick_faults
from native import NATIVE
from scen.common import err, show

META = {
    "rule": "A run draws a C++ structure (array, stack, graph, search tree) or algorithm (sort, "
            "search, traversal) and a history of operations; at drawn calls of the caller's "
            "comparators, comparison methods, type checks, conversions to text, finalizers, pivot "
            "pickers and visitors these raise, return something odd or change the structure that "
            "is being worked on; drawn mallocs fail. After every operation references to all "
            "objects are compared with the contents; other runs repeat one operation and watch "
            "the number of allocated blocks.",
    "quick_runs": 100000, "block": 500, "quick_wall": 240, "thorough_wall": 400,
    "real": ["the C++ arrays, stack, sorts, searches, binary indexed tree, graphs, graph "
             "algorithms and search trees, in a process that overwrites freed memory"],
    "stub": ["caller-supplied code (raises, returns odd results, re-enters)", "C++ malloc"],
    "must_probe": ["array", "stack", "sort", "search", "graph_list", "graph_matrix", "tree",
                   "steady", "reentrant", "callback_raise", "odd_result", "finalizer_reentrant",
                   "malloc_failed", "failed_construction", "bfs_changed_graph", "refused_nested",
                   "released", "edge_text", "tree_released"],
}
KINDS = ["array", "array", "array", "stack", "sort", "sort", "search", "graph", "graph", "graph",
         "tree", "tree", "steady", "steady"]
NPOOL = 6
LIMIT = 1500
ODD = [None, "x", 1, 0, 2.5, [], -1, 2 ** 70]
NAMES = ["a", "b", "c", "d", "e", "f", "g"]
NERR = (InjectedError, TypeError, ValueError, IndexError, KeyError, AttributeError, RuntimeError,
        MemoryError)
SORTS = ["bubble_sort", "selection_sort", "insertion_sort", "quick_sort"]
SEARCHES = ["linear_search", "binary_search", "jump_search", "is_ordered"]
TREES = ["BinarySearchTree", "AVLTree", "RedBlackTree", "SplayTree", "Treap", "CartesianTree"]


def gen(rng, tier):
    kind = rng.choice(KINDS)
    n = rng.choice([3, 6, 12, 25])
    case = {"kind": kind, "ops": [], "acts": [], "malloc_at": [], "init": [], "dyn": 1, "flag": 0}
    if kind == "steady":
        case["ops"] = [[rng.choice(STEADY), rng.randrange(8), rng.randrange(8)]]
        if rng.random() < .002:
            case["ops"][0][0] = "tree_insert"
        return case
    code = lambda: rng.choice([0, 1, 2, 3, 4, 5, 6, 6, 6, 7 if rng.random() < .3 else 6])
    case["dyn"] = int(rng.random() < .65)
    case["flag"] = rng.randrange(1 << 10)
    case["init"] = [code() for _ in range(rng.choice([0, 1, 2, 4, 8]))]
    if kind in ("sort", "search"):
        case["init"] = [code() % 7 for _ in range(rng.choice([2, 3, 5, 9, 14]))]
        n = rng.choice([1, 2, 3])
    if kind == "graph":
        case["init"] = [c % 7 for c in case["init"]] or [6, 6, 0]
        for _ in range(rng.choice([0, 3, 6, 12])):
            case["ops"].append(["adde", rng.randrange(6), rng.randrange(49)])
    for _ in range(n):
        case["ops"].append(action(rng, kind, case["dyn"], code, True))
    calls = {"array": 3, "stack": 2, "sort": 40, "search": 8, "graph": 2, "tree": 6}[kind] * n
    for at in pick_faults(rng, 1, calls, rng.choice([0, 1, 2, 4, 8])) if calls else []:
        x = rng.random()
        if x < .2:
            a = ["raise", 0, 0]
        elif x < .35:
            a = ["odd", rng.randrange(len(ODD)), 0]
        else:
            a = action(rng, kind if kind not in ("sort", "search") else "array", case["dyn"],
                       code, False)
        case["acts"].append([at] + a)
        while rng.random() < .3:
            case["acts"].append([at] + action(rng, kind if kind not in ("sort", "search") else
                                              "array", case["dyn"], code, False))
    if kind in ("array", "stack", "sort") and rng.random() < .3:
        case["malloc_at"] = pick_faults(rng, 1, rng.choice([2, 5, 10]), rng.choice([1, 2]))
    return case


def action(rng, kind, dyn, code, outer):
    i = rng.choice([rng.randrange(-1, 12), rng.randrange(4)])
    if kind == "array":
        ops = ["set", "set", "set", "fill", "get", "none"]
        if dyn:
            ops += ["append", "append", "append", "delete", "delete", "delete"]
        if outer:
            ops += ["str"]
        return [rng.choice(ops), code(), i]
    if kind == "stack":
        return [rng.choice(["push", "push", "push", "pop", "peek", "str"]), code(), i]
    if kind == "sort":
        return [rng.choice(SORTS), rng.randrange(4), rng.randrange(8)]
    if kind == "search":
        return [rng.choice(SEARCHES), rng.randrange(4), rng.randrange(7)]
    if kind == "graph":
        ops = ["adde"] * 4 + ["dele", "setd", "setd", "near", "lone", "edge"]
        ops += ["addv", "addv", "delv", "delv"]
        if outer:
            ops += ["bfs", "bfs", "bfs", "mst", "dijkstra"]
        return [rng.choice(ops), code() % 7, rng.randrange(49)]
    ops = ["ins"] * 5 + ["del"] * 3 + ["find", "lower", "upper"]
    if outer:
        ops += ["ins"] * 5 + ["split", "join", "rank", "lca"]
    return [rng.choice(ops), rng.randrange(30), rng.randrange(30)]


# -- objects of the caller ------------------------------------------------------
H = [None]
LIVE = {}


class Hooks(object):
    """Decides what the code of the caller does at each of its calls."""

    def __init__(self, env, acts):
        self.env = env
        self.acts = {}
        for at, op, a, b in acts:
            self.acts.setdefault(at, []).append((op, a, b))
        self.n = 0
        self.on = False
        self.depth = 0
        self.raised = []
        self.odd = 0
        self.changed = 0
        self.nested = None

    def hit(self, real, final=False):
        """A call of the caller's code whose proper result is `real`."""
        if not self.on:
            return real
        self.n += 1
        if self.n > LIMIT and not final:
            self.raised.append(InjectedError(self.n))
            raise self.raised[-1]
        for op, a, b in self.acts.get(self.n, ()):
            if op == "raise":
                if final:
                    continue
                self.env.fault("callback_raise")
                if self.depth:
                    raise InjectedError(self.n)
                self.raised.append(InjectedError(self.n))
                raise self.raised[-1]
            if op == "odd":
                self.env.fault("odd_result")
                self.odd += 1
                real = ODD[a % len(ODD)]
            elif self.depth < 2 and self.nested:
                self.env.fault("reentrant")
                if final:
                    self.env.probe("finalizer_reentrant")
                self.depth += 1
                try:
                    self.changed += 1
                    self.nested(op, a, b)
                except NERR as e:
                    self.env.ev("nested", op, a, b, err(e))
                finally:
                    self.depth -= 1
        return real


class Meta(type):
    def __instancecheck__(cls, x):
        return H[0].hit(type.__instancecheck__(cls, x))


class Obj(object, metaclass=Meta):
    """What arrays are declared to hold; comparisons call the hooks."""

    def __init__(self, v, serial=0):
        self.v = v
        self.serial = serial
        if serial:
            LIVE[serial] = 1

    def __del__(self):
        if self.serial:
            LIVE.pop(self.serial, None)
            H[0].hit(None, True)

    def __lt__(self, o):
        return H[0].hit(self.v < o.v)

    def __le__(self, o):
        return H[0].hit(self.v <= o.v)

    def __gt__(self, o):
        return H[0].hit(self.v > o.v)

    def __ge__(self, o):
        return H[0].hit(self.v >= o.v)

    def __eq__(self, o):
        return H[0].hit(self.v == o.v)

    def __ne__(self, o):
        return H[0].hit(self.v != o.v)

    def __str__(self):
        return H[0].hit("o%d" % self.v)

    __repr__ = __str__
    __hash__ = None


class Sub(Obj):
    pass


class World(object):
    """The objects of a run, and how often they are referenced."""

    def __init__(self, env, case):
        LIVE.clear()
        self.env = env
        self.h = H[0] = Hooks(env, case["acts"])
        self.serial = 0
        self.pool = [Sub(i % 4) for i in range(NPOOL)]
        self.base = [sys.getrefcount(self.pool[i]) for i in range(NPOOL)]
        self.types = sys.getrefcount(Obj)
        self.malloc_at = case["malloc_at"]
        NATIVE.reset()

    def obj(self, code):
        if code < NPOOL:
            return self.pool[code]
        if code == 7:
            return "wrong"
        self.serial += 1
        return Sub(self.serial % 5, self.serial)

    def outer(self, what, fn):
        """Carries out one operation; the outcome, without keeping anything alive."""
        h = self.h
        self.env.nops += 1
        f0, n0 = NATIVE.fired, h.n
        h.odd = h.changed = 0
        h.raised = []
        h.on = True
        NATIVE.arm(self.malloc_at)
        try:
            fn()
            out = ("ok", None, "")
        except Violation:
            raise
        except BaseException as e:
            out = ("raise", type(e), err(e) if not isinstance(e, InjectedError) else "")
            same = bool(h.raised) and e is h.raised[0]
            e.__traceback__ = None
        NATIVE.disarm(self.env)
        hurt = bool(h.raised)
        h.raised = []
        gc.collect() if out[0] == "raise" or hurt else None
        h.on = False
        native = NATIVE.fired > f0
        self.env.ev(what, out[0], out[2], h.n)
        if out[0] == "raise":
            need(issubclass(out[1], Exception) and not issubclass(out[1], SystemError),
                 "unexpected-error", "%s: %s %s", what, out[1].__name__, out[2])
            need(native or not issubclass(out[1], MemoryError), "unexpected-error",
                 "%s: %s %s", what, out[1].__name__, out[2])
        if hurt:
            need(out[0] == "raise" and (same or native or out[1] is ValueError), "error-lost",
                 "%s: the error raised by the caller's code ended as %s", what,
                 show(out[1:] if out[0] == "raise" else "success"))
        if native and not hurt and not h.odd and not h.changed:
            need(out[0] == "raise" and out[1] is MemoryError, "error-lost",
                 "%s: a malloc failed, but the result is %s", what, show(out))
        self.plain = not (hurt or native or h.odd or h.changed)
        return out[0] == "ok"

    def excess(self):
        """How often each pool object is referenced by the structure."""
        return [sys.getrefcount(self.pool[i]) - self.base[i] for i in range(NPOOL)]

    def check(self, what, vis):
        """`vis`: the elements that the structure contains, as a fresh list."""
        cnt = {}
        ser = set()
        for x in vis:
            if type(x) is not Sub:
                continue
            if x.serial:
                ser.add(x.serial)
            else:
                for i in range(NPOOL):
                    if self.pool[i] is x:
                        cnt[i] = cnt.get(i, 0) + 1
        del vis[:]
        x = None
        want = [cnt.get(i, 0) for i in range(NPOOL)]
        got = self.excess()
        need(got == want, "reference-count", "after %s: objects are contained %s times and "
             "referenced %s times", what, want, got)
        live = sorted(LIVE)
        need(live == sorted(ser), "reference-count", "after %s: contained objects are %s, objects "
             "that exist are %s", what, sorted(ser), live)

    def gone(self, what):
        """Nothing is left, the type of elements is not referenced either."""
        self.check(what, [])
        n = sys.getrefcount(Obj) - self.types
        need(not n, "reference-count", "after %s: the type of the elements is referenced %d times "
             "more than before", what, n)

    def end(self, what):
        gc.collect()
        self.gone("release of " + what)
        self.env.probe("released")


def run(case, env):
    kind = case["kind"]
    if kind not in KINDS or len(case["ops"]) > 400:
        return
    gc.collect()
    try:
        if kind == "steady":
            steady(case, env)
        else:
            w = World(env, case)
            {"array": array, "stack": stack, "sort": sorting, "search": sorting, "graph": graph,
             "tree": tree}[kind](case, env, w)
    finally:
        if H[0]:
            H[0].on = False
            H[0].nested = None


# -- arrays -----------------------------------------------------------------------
def make_array(case, env, w, what):
    from pydatastructs import OneDimensionalArray, DynamicOneDimensionalArray
    from pydatastructs.utils.misc_util import Backend
    cls = DynamicOneDimensionalArray if case["dyn"] else OneDimensionalArray
    box = []
    how = case["flag"] % 4
    init = [w.obj(c) for c in case["init"]]
    if how == 0:
        fn = lambda: box.append(cls(Obj, len(init), init=w.obj(case["flag"] // 4 % 7),
                                    backend=Backend.CPP))
    elif how == 1:
        fn = lambda: box.append(cls(Obj, len(init), tuple(init), backend=Backend.CPP))
    else:
        fn = lambda: box.append(cls(Obj, init, backend=Backend.CPP))
    ok = w.outer(what, fn)
    fn = None
    del init[:]
    if not ok:
        env.probe("failed_construction")
        w.gone(what)
        return None
    return box.pop()


def array_op(a, w, op, c, i):
    if op == "set":
        a[i] = w.obj(c)
    elif op == "none":
        a[i] = None
    elif op == "append":
        a.append(w.obj(c))
    elif op == "delete":
        a.delete(i)
    elif op == "fill":
        a.fill(w.obj(c))
    elif op == "get":
        a[i]
    elif op == "str":
        str(a)


def array(case, env, w):
    env.probe("array")
    name = "%s array" % ("dynamic" if case["dyn"] else "static")
    a = make_array(case, env, w, "construction of a %s from %s" % (name, case["init"]))
    if a is None:
        return
    w.h.nested = lambda op, c, i: array_op(a, w, op, c, i) if case["dyn"] or \
        op not in ("append", "delete") else None
    contents = lambda: [a[i] for i in range(len(a))]
    w.check("construction of a %s" % name, contents())
    for op, c, i in case["ops"]:
        if not case["dyn"] and op in ("append", "delete"):
            continue
        what = "%s(%d, %d) of a %s" % (op, i, c, name)
        w.outer(what, lambda: array_op(a, w, op, c, i))
        w.check(what, contents())
    w.h.nested = None
    a = contents = None
    w.end("a " + name)


# -- stack --------------------------------------------------------------------------
def stack(case, env, w):
    from pydatastructs import Stack
    from pydatastructs.utils.misc_util import Backend
    env.probe("stack")
    box = []
    init = [w.obj(c) for c in case["init"]]
    what = "construction of a stack of %s" % case["init"]
    ok = w.outer(what, lambda: box.append(Stack(
        implementation="array", items=init if init else None, dtype=Obj, backend=Backend.CPP)
        if init else Stack(implementation="array", dtype=Obj, backend=Backend.CPP)))
    del init[:]
    if not ok:
        env.probe("failed_construction")
        w.gone(what)
        return
    s = box.pop()
    wrong = [0]

    def do(op, c, i):
        if op == "push":
            x = w.obj(c)
            try:
                s.push(x)
            finally:
                del x
        elif op == "pop":
            s.pop()
        elif op == "peek":
            s.peek if len(s) else None
        elif op == "str":
            str(s)

    def balance(what):
        ex = w.excess()
        n = sum(ex) + len(LIVE)
        need(min(ex) >= 0 and n <= len(s), "reference-count", "after %s: the stack has %d elements,"
             " objects are referenced %s times, objects that exist are %s", what, len(s), ex,
             sorted(LIVE))
        need(n == len(s) or 7 in [o[1] for o in case["ops"]] + [o[2] for o in case["acts"]] +
             case["init"], "reference-count", "after %s: the stack has %d elements, objects are "
             "referenced %s times, objects that exist are %s", what, len(s), ex, sorted(LIVE))
    w.h.nested = do
    balance(what)
    for op, c, i in case["ops"]:
        what = "%s(%s) of a stack" % (op, c)
        w.outer(what, lambda: do(op, c, i))
        balance(what)
    w.h.nested = None
    if case["flag"] & 1:
        ex = w.excess()
        live = sorted(LIVE)
        out = []
        while len(s):
            out.append(s.pop())
        got = sorted(x.serial for x in out if type(x) is Sub and x.serial)
        need(got == live, "wrong-contents", "a stack contained objects %s, %s exist", got, live)
        have = [sum(x is o for x in out) for o in w.pool]
        o = None
        need(have == ex, "wrong-contents", "a stack contained objects %s times and referred to "
             "them %s times", have, ex)
        del out[:]
        w.check("emptying of a stack", out)
    s = None
    w.end("a stack")


# -- sorts and searches -------------------------------------------------------------
def sorting(case, env, w):
    import pydatastructs as p
    from pydatastructs.utils.misc_util import Backend
    kind = case["kind"]
    env.probe(kind)
    acts, w.h.acts = w.h.acts, {}
    malloc, w.malloc_at = w.malloc_at, []
    a = make_array(case, env, w, "construction")
    if a is None:
        return
    w.h.acts, w.malloc_at, w.h.n = acts, malloc, 0
    w.h.nested = lambda op, c, i: array_op(a, w, op, c, i) if case["dyn"] or \
        op not in ("append", "delete") else None
    contents = lambda: [a[i] for i in range(len(a))]

    def comp(x, y):
        return w.h.hit(x.v <= y.v if x is not None and y is not None else True)

    def pivot(low, high, arr):
        return w.h.hit(arr[(low + high) // 2])
    for alg, how, b in case["ops"]:
        if alg not in SORTS + SEARCHES:
            return
        fn = getattr(p, alg)
        kw = {"backend": Backend.CPP}
        if how & 1:
            kw["comp"] = comp
        if alg == "quick_sort" and how & 2:
            kw["pick_pivot_element"] = pivot
        elif how & 2 and b % 2:
            kw["start"] = b // 2
            kw["end"] = max(0, len(a) - 1 - b // 4)
        args = (a,)
        if alg in SEARCHES[:3]:
            args = (a, w.obj(b))
        what = "%s of a %s array%s" % (alg, "dynamic" if case["dyn"] else "static",
                                       " with %s" % sorted(kw))
        w.outer(what, lambda: fn(*args, **kw))
        args = kw = None
        w.check(what, contents())
    w.h.nested = None
    a = contents = None
    w.end("the array after " + what)


# -- graphs ---------------------------------------------------------------------------
def graph(case, env, w):
    import pydatastructs as p
    from pydatastructs.utils.misc_util import Backend
    lst = bool(case["dyn"])
    env.probe("graph_list" if lst else "graph_matrix")
    C = {"backend": Backend.CPP}
    N = p.AdjacencyListGraphNode if lst else p.AdjacencyMatrixGraphNode
    name = "graph (adjacency %s)" % ("list" if lst else "matrix")
    nodes = {}
    data = {}
    edges = {}
    tok = [0]
    visits = []

    def vertex(n, c):
        x = w.obj(c)
        data[n] = x.serial or -1 - c
        return N(n, x, **C)
    for i, c in enumerate(case["init"][:7]):
        nodes[NAMES[i]] = vertex(NAMES[i], c % 7)
    names = list(nodes)
    box = [p.Graph(*nodes.values(), implementation="adjacency_" + ("list" if lst else "matrix"),
                   **C)]
    if not lst and not names:
        return
    g = box.pop()

    def serial(n, c):
        data[n] = w.serial if c >= NPOOL else -1 - c

    def do(op, c, b):
        u, v = NAMES[b % 7], NAMES[b // 7 % 7]
        if not lst:
            u, v = names[b % len(names)], names[b // 7 % len(names)]
        if op == "adde":
            g.add_edge(u, v, 1 + c)
            edges[u, v] = 1 + c
        elif op == "dele":
            g.remove_edge(u, v)
            edges.pop((u, v), None)
        elif op == "addv":
            if lst:
                if u in nodes:
                    g.add_vertex(N(u, None, **C))
                    return
                x = w.obj(c)
                n = x.serial or -1 - c
                node = N(u, x, **C)
                del x
                # from here on it is in the graph
                nodes[u], data[u] = node, n
                g.add_vertex(node)
        elif op == "delv":
            if lst:
                old = nodes.pop(u, None)
                data.pop(u, None)
                if c & 1:
                    # the vertex goes, and what it refers to, within the call
                    old = None
                for k in [k for k in edges if u in k]:
                    del edges[k]
                try:
                    g.remove_vertex(u)
                finally:
                    del old
        elif op == "setd":
            if u in nodes:
                x = w.obj(c)
                data[u] = x.serial or -1 - c
                try:
                    nodes[u].data = x
                finally:
                    del x
        elif op == "near":
            [x.name for x in g.neighbors(u)]
            e = g.get_edge(u, v)
            if e is not None:
                str(e)
        elif op == "lone" and lst:
            x = N("z", w.obj(c), **C)
            y = N("y", w.obj(b % 7), [x], **C)
            x.add_adjacent_node("k", w.obj(c))
            x.add_adjacent_node("k", w.obj(6))
            if c & 1:
                x.remove_adjacent_node("k")
            if c & 2:
                y.add_adjacent_node("k")
            if b & 1:
                y.adjacent = {"x": x, "y": y, "k": x}
                need(y.adjacent["k"] is x, "wrong-contents", "a vertex forgot what is adjacent")
                try:
                    y.adjacent = {"x": x, "l": w.obj(c)}
                except TypeError:
                    need(len(y.adjacent) == 3, "wrong-contents", "a refused assignment of adjacent "
                         "vertices left %d of 3", len(y.adjacent))
                else:
                    need(False, "no-error", "a vertex took for adjacent what is no vertex")
                if b & 2:
                    y.adjacent = {}
        elif op == "edge":
            class End(object):
                name = "end"
            ends = [nodes.get(u), nodes.get(v), End(), w.obj(6), N(u, None), None, 3, u]
            s, t = ends[c % 8], ends[b % 8]
            x = [None, 7, "txt", 2 ** 62][b % 4]
            # the edge refers to its ends as long as it lives
            e = p.GraphEdge(s, t, x, **C)
            ends = None
            named = [y.name for y in (s, t) if hasattr(y, "name")]
            s = t = None
            gc.collect()
            try:
                text = str(e)
            except AttributeError:
                need(len(named) < 2, "no-text", "an edge between %s has no text", named)
            else:
                env.probe("edge_text")
                need(len(named) == 2 and text == "('%s', '%s', %s)" % (named[0], named[1], x),
                     "wrong-text", "the text of an edge between %s of value %s is %s", named, x,
                     show(text))
            e.value = c
            try:
                e.value = w.obj(c)
            except TypeError:
                need(e.value == c, "wrong-contents", "a refused value of an edge replaced it")
            need(e.value == c, "wrong-contents", "the value of an edge is wrong")
        elif op == "bfs":
            seen = visits[:] = []
            n0 = w.h.changed

            def visit(x, y, *more):
                seen.append((x.name, getattr(y, "name", y)))
                w.h.changed != n0 and env.probe("bfs_changed_graph")
                return w.h.hit(True)
            try:
                p.breadth_first_search(g, u, visit, *[w.obj(c) for _ in range(c % 3)], **C)
            finally:
                visit = None
        elif op == "mst" and lst:
            mst(p.minimum_spanning_tree(g, "prim", **C), c, b)
        elif op == "dijkstra" and lst:
            p.shortest_paths(g, "dijkstra", u, **C)

    def mst(T, c, b):
        """Uses a tree, releases it, and what is left of it after that."""
        held = {}
        for n in sorted(nodes):
            try:
                for x in T.neighbors(n):
                    held[x.name] = x
            except KeyError:                    # not connected
                pass
        if c & 1:
            size = T.num_vertices(), T.num_edges()
            T.add_vertex(N("zz", w.obj(b % 7), **C))
            for n in sorted(held):
                T.add_edge("zz", n, 1)
                T.add_edge(n, "zz", 1)
            out = p.shortest_paths(T, "dijkstra", "zz", **C)[0]
            need(sorted(k for k in out if out[k] != float("inf")) == sorted(held) + ["zz"],
                 "wrong-contents", "from a vertex added to a tree, with edges to %s, %s are "
                 "reached", sorted(held), sorted(out))
            if c & 2:
                T.remove_vertex("zz")
                need((T.num_vertices(), T.num_edges()) == size, "wrong-contents", "a tree has %s "
                     "vertices and edges after a vertex came and went, had %s",
                     (T.num_vertices(), T.num_edges()), size)
        T = x = None
        gc.collect()
        for n in sorted(held):
            need(held[n].name == n, "wrong-contents", "vertex %s of a tree is named %s after the "
                 "tree has been released", n, show(held[n].name))
            d = held[n].data
            need(n not in data or data[n] == (d.serial or -1 - [o is d for o in w.pool]
                                              .index(True)), "wrong-contents",
                 "vertex %s of a tree holds something else", n)
            d = None
        env.probe("tree_released")

    def check(what):
        need(g.num_vertices() == len(nodes) and g.num_edges() == len(edges), "wrong-contents",
             "after %s: %d vertices and %d edges, should be %d and %d", what, g.num_vertices(),
             g.num_edges(), len(nodes), len(edges))
        for u in nodes:
            need(sorted(x.name for x in g.neighbors(u)) == sorted(v for x, v in edges if x == u),
                 "wrong-contents", "after %s: wrong neighbours of %s", what, u)
        for (u, v), c in edges.items():
            e = g.get_edge(u, v)
            need(e is not None and e.value == c, "wrong-contents", "after %s: the edge from %s to "
                 "%s is %s, its cost should be %s", what, u, v, e and str(e), c)
            e = None
        for n, x in nodes.items():
            d = x.data
            need(data[n] == (d.serial or -1 - [o is d for o in w.pool].index(True)),
                 "wrong-contents", "after %s: vertex %s holds something else", what, n)
            d = x = None
        gc.collect()
        w.check(what, [x.data for x in nodes.values()])
    w.h.nested = do
    check("construction of a " + name)
    for op, c, b in case["ops"]:
        what = "%s(%s, %s) of a %s of %s with edges %s" % (op, c, b, name, sorted(nodes),
                                                          show(sorted(edges)))
        w.outer(what, lambda: do(op, c, b))
        if op == "bfs" and visits:
            far = [y for x, y in visits if y != ""]
            need(len(far) == len(set(far)) and len(far) <= LIMIT, "visited-twice",
                 "%s: visited %s", what, far)
        check(what)
    w.h.nested = None
    keep = dict(nodes) if case["flag"] & 1 else {}
    nodes.clear()
    if keep:
        # vertices outlive their graph
        g = do = None
        gc.collect()
        w.check("release of a graph whose vertices live on", [x.data for x in keep.values()])
        for n, x in keep.items():
            need(x.name == n, "wrong-contents", "vertex %s is named %s after its graph has been "
                 "released", n, x.name)
        x = None
        keep.clear()
    g = do = check = None
    w.end("a " + name)


# -- search trees ---------------------------------------------------------------------
def tree(case, env, w):
    import pydatastructs as p
    from pydatastructs.utils.misc_util import Backend
    env.probe("tree")
    kind = TREES[case["flag"] % len(TREES)]
    cls = getattr(p, kind, None)
    if cls is None:
        import pydatastructs.trees as T
        cls = getattr(T, kind)
    cart = kind == "CartesianTree"
    model = {}
    stat = bool(case["flag"] & 64)
    eq = case["flag"] & 128

    class Key(object):
        """Keys whose comparison is code of the caller, too."""

        def __init__(self, k):
            self.k = k

        def __lt__(self, o):
            return self.k < o.k

        def __eq__(self, o):
            return w.h.hit(isinstance(o, Key) and self.k == o.k)

        def __hash__(self):
            return hash(self.k)

        def __repr__(self):
            return "Key%d" % self.k
    mk = Key if eq else (lambda k: k * 1000)

    def comp(a, b):
        return w.h.hit(a < b)
    NATIVE.rand([(i * 7919 + case["flag"] * 104729) % 0x7fffffff for i in range(512)])
    t = cls(comp=comp, backend=Backend.CPP, is_order_statistic=stat)
    uid = [0]

    def do(op, a, b):
        k = mk(a)
        if op == "ins":
            uid[0] += 1
            u = uid[0]
            d = "data %d" % u
            t.insert(k, b, d) if cart else t.insert(k, d)
            model[a] = "data %d" % u
        elif op == "del":
            if t.delete(k):
                model.pop(a, None)
        elif op == "find":
            t.search(k)
        elif op == "lower":
            t.lower_bound(k)
        elif op == "upper":
            t.upper_bound(k)
        elif op == "rank" and stat:
            t.rank(k)
        elif op == "lca" and model:
            t.lowest_common_ancestor(k, mk(b), 1 + b % 2)
        elif op == "split" and kind == "SplayTree":
            o = t.split(k)
            if o is not None:
                for x in [x for x in model if x > a]:
                    del model[x]
        elif op == "join" and kind == "SplayTree" and model and w.h.depth == 0:
            o = cls(comp=comp, backend=Backend.CPP)
            uid[0] += 1
            u = uid[0]
            o.insert(mk(50 + a), "data %d" % u)
            if max(model) < 50 + a:
                t.join(o)
                model[50 + a] = "data %d" % u

    def check(what):
        out = []
        todo = [t.root_idx] if len(model) or t.tree[t.root_idx].key is not None else []
        n = 0
        path = []
        i = todo[0] if todo else None
        while (path or i is not None) and n < 1000:
            n += 1
            if i is not None:
                path.append(i)
                i = t.tree[i].left
            else:
                i = path.pop()
                x = t.tree[i]
                out.append((x.key.k if eq else x.key // 1000, x.data))
                i = x.right
        need(out == sorted(model.items()), "wrong-contents", "after %s: the tree holds %s, should "
             "be %s", what, show(out), show(sorted(model.items())))
    w.h.nested = do
    for op, a, b in case["ops"]:
        before = w.h.changed
        what = "%s(%s, %s) of a %s of %s" % (op, a, b, kind, show(sorted(model)))
        was = dict(model)
        w.outer(what, lambda: do(op, a, b))
        if w.h.changed:
            env.probe("refused_nested")
        if not w.h.odd:
            check(what)
        else:
            # an odd answer may put a key anywhere; go on with another tree
            break
    w.h.nested = None


# -- operations which leave everything as it was ---------------------------------------
STEADY = ["bit", "array_get", "array_set", "array_str", "array_refused", "array_fill",
          "array_churn", "array_make", "array_not_made", "sort", "sort_comp", "search",
          "search_comp", "comp_fails", "stack", "stack_make", "stack_refused", "graph_make",
          "graph_query", "graph_edges", "graph_vertices", "graph_bfs", "graph_bfs_fails",
          "graph_mst", "graph_dijkstra", "graph_refused", "vertex", "vertex_near", "tree_find",
          "tree_str"]


def steady(case, env):
    """One operation over and over: memory must not grow with it."""
    import pydatastructs as p
    from pydatastructs.utils.misc_util import Backend
    env.probe("steady")
    H[0] = Hooks(env, [])
    C = {"backend": Backend.CPP}
    op, c, b = case["ops"][0] if case["ops"] else ("", 0, 0)
    big = lambda k: 10 ** 6 + k
    f = None

    def refused(fn):
        try:
            fn()
        except Exception:
            return
        need(False, "no-error", "%s %d %d was not refused", op, c, b)
    if op == "bit":
        t = p.BinaryIndexedTree([big(i) for i in range(9)], **C)

        def f():
            t.update(c, big(b))
            t.get_sum(1, 5)
            t.get_prefix_sum(c)
            p.BinaryIndexedTree([big(i) for i in range(4)], **C)
            if b & 1:
                refused(lambda: t.update("x", 3))
                refused(lambda: p.BinaryIndexedTree(["x"], **C))
    elif op.startswith("array") or op.startswith("sort") or op.startswith("search") or \
            op == "comp_fails":
        cls = p.DynamicOneDimensionalArray if c & 1 else p.OneDimensionalArray
        a = cls(int, [big(i * 5 % 9) for i in range(9)], **C)
        alg = getattr(p, (SORTS if op.startswith("sort") else SEARCHES)[b % 4])
        if op == "array_get":
            def f():
                a[c]
                len(a)
                refused(lambda: a[99])
        elif op == "array_set":
            def f():
                a[c] = big(c)
                a[b] = None
                a[b] = big(b)
        elif op == "array_str":
            def f():
                str(a)
        elif op == "array_refused":
            def f():
                refused(lambda: a.__setitem__(c, "x%d" % c))
                refused(lambda: a.__setitem__("x", big(1)))
                refused(lambda: a.__delitem__(c))
                refused(lambda: a.fill("x"))
                refused(lambda: a.fill())
                refused(lambda: a["x"])
        elif op == "array_fill":
            def f():
                a.fill(big(3))
        elif op == "array_churn" and c & 1:
            def f():
                for i in range(b * 3):
                    a.append(big(i))
                for i in range(len(a)):
                    a.delete(i)
        elif op == "array_make":
            def f():
                cls(int, 5, init=big(3), **C)
                cls(int, [big(i) for i in range(b)], **C)
                cls(int, b, [big(i) for i in range(b)], **C)
                if c & 1:
                    cls(int, 5, load_factor=.3, **C)
        elif op == "array_not_made":
            def f():
                refused(lambda: cls(int, [big(1), "x"], **C))
                refused(lambda: cls(int, 3, [big(1)], **C))
                refused(lambda: cls(int, 3, init="x%d" % c, **C))
                refused(lambda: cls(None, 3, **C))
                refused(lambda: cls(int, "x", **C))
                refused(lambda: cls(int, "x", "y", **C))
        elif op == "sort":
            def f():
                alg(a, **C)
                a[c] = big(b)
        elif op == "sort_comp":
            def f():
                alg(a, comp=lambda x, y: x <= y, **C)
                alg(a, comp=lambda x, y: x >= y, start=1, end=5, **C)
        elif op == "search":
            def f():
                alg(*((a, big(c)) if b % 4 < 3 else (a,)), **C)
        elif op == "search_comp":
            def f():
                alg(*((a, big(c)) if b % 4 < 3 else (a,)), comp=lambda x, y: x <= y, **C)
        elif op == "comp_fails":
            alg = getattr(p, (SORTS + SEARCHES[1:])[b % 7])

            def comp(x, y):
                n[0] += 1
                if n[0] > c // 4:
                    raise InjectedError(n[0])
                return x <= y
            n = [0]

            def f():
                n[0] = 0
                try:
                    alg(*((a, big(c)) if b % 7 in (4, 5) else (a,)), comp=comp, **C)
                except InjectedError:
                    pass
    elif op.startswith("stack"):
        s = p.Stack(implementation="array", dtype=int, **C)
        for i in range(c):
            s.push(big(i))

        def f():
            if op == "stack":
                for i in range(b + 1):
                    s.push(big(i))
                s.peek
                len(s)
                s.is_empty
                str(s)
                for i in range(b + 1):
                    s.pop()
            elif op == "stack_make":
                p.Stack(implementation="array", items=[big(i) for i in range(b + 1)], dtype=int,
                        **C)
            else:
                if not c:
                    refused(lambda: s.pop())
                    refused(lambda: s.peek)
                refused(lambda: s.push())
                refused(lambda: p.Stack(implementation="array", items=["x", big(1)], dtype=int,
                                        **C))
    elif op.startswith("graph") or op.startswith("vertex"):
        lst = bool(c & 1) or op in ("graph_vertices", "graph_mst", "graph_dijkstra", "vertex_near")
        N = p.AdjacencyListGraphNode if lst else p.AdjacencyMatrixGraphNode
        impl = "adjacency_list" if lst else "adjacency_matrix"

        def make(m):
            h = p.Graph(*[N("v%d" % i, big(i), **C) for i in range(m)], implementation=impl, **C)
            for i in range(m):
                h.add_edge("v%d" % i, "v%d" % ((i * 3 + c) % m), big(i))
                h.add_edge("v%d" % ((i * 3 + c) % m), "v%d" % i, big(i))
            return h
        g = make(5)

        def visit(x, y):
            if op.endswith("fails"):
                raise InjectedError(1)
            return True
        if op == "graph_make":
            def f():
                make(2 + b)
        elif op == "graph_query":
            def f():
                g.neighbors("v1")
                g.is_adjacent("v1", "v2")
                str(g.get_edge("v0", "v%d" % (c % 5)))
                e = g.get_edge("v0", "v%d" % (c % 5))
                if e is not None:
                    e.value
                g.num_edges()
                g.num_vertices()
        elif op == "graph_edges":
            def f():
                g.add_edge("v0", "v%d" % (b % 5), [None, 3, 2.5, "txt"][c % 4] if lst else 3)
                g.add_edge("v0", "v%d" % (b % 5), big(3))
                g.remove_edge("v0", "v%d" % (b % 5))
        elif op == "graph_vertices":
            def f():
                g.add_vertex(N("w", big(1), **C))
                g.add_edge("w", "v1", 3)
                g.add_edge("v1", "w", 3)
                g.add_edge("w", "w", 3)
                g.remove_vertex("w")
        elif op.startswith("graph_bfs"):
            def f():
                try:
                    p.breadth_first_search(g, "v0", visit, **C)
                except InjectedError:
                    pass
        elif op == "graph_mst":
            def f():
                p.minimum_spanning_tree(g, "prim", **C)
        elif op == "graph_dijkstra":
            def f():
                p.shortest_paths(g, "dijkstra", "v%d" % (b % 5), **C)
        elif op == "graph_refused":
            def f():
                refused(lambda: p.Graph("x", implementation=impl, **C))
                refused(lambda: p.breadth_first_search(g, "nope", visit, **C))
                refused(lambda: g.add_edge("v0", "nope", 3))
                if lst:
                    refused(lambda: g.remove_vertex("nope"))
                    refused(lambda: p.shortest_paths(g, "dijkstra", "nope", **C))
                else:
                    refused(lambda: g.add_edge("v0", "v1", "x"))
        elif op == "vertex":
            n = N("n", big(0), **C)

            def f():
                edge = p.GraphEdge(n, n, [None, "txt", big(3), 2.5][b % 4], **C)
                edge.value = "text%d" % b
                str(edge)
                edge.value
                refused(lambda: p.GraphEdge(n, n, [], **C))
                refused(lambda: str(p.GraphEdge(big(1), n, **C)))
                n.data = big(1)
                n.data
                n.name
                str(n)
                if b & 1:
                    n.name = "m%d" % b
                N("k", big(2), **C)
        elif op == "vertex_near":
            def f():
                x = N("x", big(1), **C)
                y = N("y", big(2), [x], **C)
                x.add_adjacent_node("y", big(3))
                x.add_adjacent_node("y", big(4))
                y.add_adjacent_node("x", big(5))
                y.remove_adjacent_node("x")
                str(y)
                y.adjacent = {"x": x, "z": y}
                y.adjacent
                refused(lambda: setattr(y, "adjacent", {"x": x, "k": 1}))
                y.adjacent = {}
                refused(lambda: y.remove_adjacent_node("nope"))
                refused(lambda: N("z", 1, ["no vertex"], **C))
    elif op.startswith("tree"):
        T = TREES[c % len(TREES)]
        import pydatastructs.trees as pt
        t = getattr(pt, T)(**C)
        for i in range(12):
            t.insert(*((big(i * 5 % 12), i, i) if T == "CartesianTree" else (big(i * 5 % 12), i)))

        def f():
            if op == "tree_find":
                t.search(big(b))
                t.search(5)
            elif op == "tree_str":
                str(t)
            else:
                t.insert(*((big(20), 1, 1) if T == "CartesianTree" else (big(20), 1)))
                t.delete(big(20))
    if f is None:
        return
    reps = 40
    for i in range(reps):
        f()
    gc.collect()
    for again in range(12):
        x, y = sys.getallocatedblocks(), NATIVE.in_use()
        for _ in range(reps):
            f()
        gc.collect()
        grown = sys.getallocatedblocks() - x
        # no block that malloc gives takes less than 32 bytes
        grown = max(grown, (NATIVE.in_use() - y) // 32)
        env.nops += reps
        if grown < reps // 2:
            break
    # the pools of the interpreter fill up only once, a leak goes on
    env.ev(op, c, b, grown >= reps // 2)
    env.nontrivial = True
    need(grown < reps // 2, "tree-leak" if op == "tree_insert" else "leak", "%s (%d, %d): every "
         "%d repetitions leave more memory allocated", op, c, b, reps)
