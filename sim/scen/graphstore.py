"""P17: graphs and vertices as containers: after any history they hold exactly the
vertices and edges put there, also when an allocation or a conversion fails."""
import gc
import sys
import weakref

from core import need, gen_sched, pick_faults, AllocFault, Violation, InjectedError, \
    InjectedMemoryError
from scen.common import err, show, run_threads

META = {
    "rule": "A run draws a graph (adjacency list or matrix; Python or C++), vertices (some given "
            "their neighbours at construction) and a history of vertices and edges added, added "
            "again with another or no cost, removed and added anew, also for unknown vertices and "
            "with costs that cannot be stored; drawn allocations and conversions of costs fail; "
            "some histories are carried out by several threads at once, each on a graph of its own.",
    "quick_runs": 60000, "block": 500, "quick_wall": 200, "thorough_wall": 400,
    "real": ["AdjacencyList, AdjacencyMatrix, AdjacencyListGraphNode, AdjacencyMatrixGraphNode, "
             "GraphEdge; their C++ counterparts", "CPython's threading on the simulated _thread"],
    "stub": ["allocation of edges and vertices, conversion of costs to numbers (fail on demand)",
             "_thread"],
    "must_probe": ["allocation_failed", "conversion_failed", "callers", "py_list", "py_matrix",
                   "cpp_list", "cpp_matrix", "removed_vertex", "vertex_again", "edge_again",
                   "removed_edge", "refused", "given_neighbours", "released", "node",
                   "underscores", "cost_refused"],
}
KINDS = ["py_list", "py_list", "py_list", "py_matrix", "py_matrix", "cpp_list", "cpp_list",
         "cpp_matrix", "cpp_matrix"]
PLAIN = ["a", "b", "c", "d", "e1", "\u00e9"]
UNDER = ["v_1", "v_2", "v_3", "w", "node_10", "x"]
PARTS = ["v", "2", "v_2", "w", "10", "w_10"]  # names which end or begin as others do
MIXED = ["a", "a_b", "b", "b_c", "c", "c_d"]
RESERVED = ["vertices", "edge_weights", "neighbors", "is_adjacent", "name", "data", "adjacent"]
COSTS = [1, 2, 0, -3, 1.5, 7, 2 ** 40, True]
ODD = ["text", "big", "huge", "surrogate", "nul", "list", "dict"]


def gen(rng, tier):
    kind = rng.choice(KINDS)
    r = rng.random()
    names = PLAIN if r < .5 else rng.choice([UNDER, PARTS])
    if r > .75 and kind[0] == "c" or r > .998:
        names = MIXED
    elif r > .996:
        names = RESERVED[:6]
    n = rng.choice([2, 3, 4, 5, 6])
    names = rng.sample(names, n)
    init = [i for i in range(n) if rng.random() < .7]
    given = []
    if kind.endswith("list") and rng.random() < .3:
        given = [[i, j] for i in init for j in init if i > j and rng.random() < .4]
    ops = []
    for _ in range(rng.choice([2, 6, 12, 25])):
        x = rng.random()
        i, j = rng.randrange(n), rng.randrange(n)
        if x < .55:
            y = rng.random()
            c = None if y < .3 else rng.choice(ODD) if y > .9 else rng.choice(COSTS)
            ops.append(["adde", i, j, c])
        elif x < .7:
            ops.append(["dele", i, j])
        elif x < .82 and kind.endswith("list"):
            ops.append(["addv", i])
        elif x < .94 and kind.endswith("list"):
            ops.append(["delv", i])
        else:
            ops.append(["same"])
    case = {"kind": kind, "names": names, "init": init, "given": given, "ops": ops, "alloc_at": [],
            "conv_at": [], "par": 0, "scheds": [], "release": rng.random() < .1,
            "node": rng.random() < .15, "implicit": rng.random() < .5}
    x = rng.random()
    if kind[0] == "p" and x < .35:
        case["alloc_at"] = pick_faults(rng, 1, rng.choice([3, 8, 20]), rng.choice([1, 2, 3]))
    elif kind == "cpp_matrix" and x < .4:
        case["conv_at"] = pick_faults(rng, 1, rng.choice([3, 8]), rng.choice([1, 2]))
    if kind[0] == "p" and rng.random() < .15 and not case["alloc_at"]:
        case["par"] = rng.choice([2, 3])
        case["scheds"] = [gen_sched(rng, horizon=1500)]
    return case


class Data(object):
    """What a vertex is for."""

    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return "Data(%s)" % self.x


class Cost(object):
    """A cost that is not a number yet; becoming one can fail."""

    def __init__(self, v, ctl):
        self.v = v
        self.ctl = ctl

    def __float__(self):
        c = self.ctl
        c["n"] += 1
        if c["n"] in c["at"]:
            c["fired"] += 1
            c["env"].fault("conversion_failed")
            raise InjectedError(c["n"])
        return float(self.v)

    def __repr__(self):
        return "Cost(%s)" % self.v


def run(case, env):
    ns = case["names"]
    if len(set(ns)) < len(ns) or not ns:
        return
    odd = case["kind"][0] == "p" and [x for x in ns if x in RESERVED]
    if not odd:
        return play(case, env)
    # A vertex is an attribute of the graph, and an adjacent one of the vertex,
    # so that these names replace something else (see known_findings.jsonl).
    try:
        play(case, env)
    except (Violation, AttributeError, TypeError, ValueError, IndexError, KeyError) as e:
        raise Violation("reserved-name", "%s with vertices named %s: %s" % (
            case["kind"], ns, getattr(e, "msg", None) or err(e)))


class Store(object):
    """A graph, the model of it, and the comparison of the two."""

    def __init__(self, case, env, ctl):
        import pydatastructs as p
        from pydatastructs.utils.misc_util import Backend
        self.p, self.env, self.case, self.ctl = p, env, case, ctl
        self.kind = kind = case["kind"]
        self.py = kind[0] == "p"
        self.list = kind.endswith("list")
        self.kw = {} if self.py else {"backend": Backend.CPP}
        self.names = case["names"]
        self.made = 0
        self.refs = []
        self.nodes = {}
        self.given = {}
        n = len(self.names)
        for i in case["init"]:
            if i < n and self.names[i] not in self.nodes:
                near = [self.nodes[self.names[j]] for a, j in case["given"]
                        if a == i and j < i and self.names[j] in self.nodes]
                self.given[i] = (near, list(near))
                self.nodes[self.names[i]] = self.node(self.names[i], near)
        impl = "adjacency_" + kind[3 if self.py else 4:]
        kw = dict(self.kw)
        if not (self.py and case["implicit"] and self.nodes):
            kw["implementation"] = impl
        self.G = p.Graph(*self.nodes.values(), **kw)
        self.adj = {}
        self.cost = {}
        for i, (_, near) in self.given.items():
            for x in near:
                self.adj[self.names[i], x.name] = True
                self.cost[self.names[i], x.name] = [None]
        self.given_names = [(a, [x.name for x in b]) for a, b in self.given.values()]

    def node(self, name, near=()):
        self.made += 1
        d = Data(self.made) if self.made % 3 else self.made
        if self.made % 3:
            self.refs.append(weakref.ref(d))
        if self.list:
            if near:
                x = self.p.AdjacencyListGraphNode(name, d, near, **self.kw)
                self.env.probe("given_neighbours")
            else:
                x = self.p.AdjacencyListGraphNode(name, d, **self.kw)
        else:
            x = self.p.AdjacencyMatrixGraphNode(name, d, **self.kw)
        need(x.data is d or x.data == d, "wrong-data", "new vertex %s has data %s, not %s", name,
             show(x.data), d)
        return x

    def copy(self):
        return dict(self.nodes), dict(self.adj), {k: list(v) for k, v in self.cost.items()}

    def quiet(self, what, fn, *nothing):
        """Something about an unknown vertex: refused, or there is nothing."""
        try:
            v = fn()
        except Exception as e:
            need(not isinstance(e, (SystemError, MemoryError, RecursionError)), "unexpected-error",
                 "%s: %s", what, err(e))
            return
        need(v in nothing, "phantom", "%s: there is no such vertex, but got %s", what, show(v))

    def look(self, what, state=None):
        nodes, adj, cost = state or (self.nodes, self.adj, self.cost)
        G, names = self.G, self.names
        refs = [sys.getrefcount(x) for x in nodes.values()]
        got = G.num_vertices()
        need(got == len(nodes), "wrong-vertex-count", "%s: %s vertices, should be %s", what, got,
             len(nodes))
        got = G.num_edges()
        need(got == len(adj), "wrong-edge-count", "%s: %s edges, should be %s (%s)", what, got,
             len(adj), show(sorted(adj)))
        for u in names:
            if u not in nodes:
                self.quiet("%s: neighbors(%r)" % (what, u), lambda: G.neighbors(u), [])
                self.quiet("%s: is_adjacent(%r, %r)" % (what, u, names[0]),
                           lambda: G.is_adjacent(u, names[0]), False)
                self.quiet("%s: is_adjacent(%r, %r)" % (what, names[0], u),
                           lambda: G.is_adjacent(names[0], u), False)
                if not (self.py and self.joined(u + "_" + names[0])):
                    self.quiet("%s: get_edge(%r, %r)" % (what, u, names[0]),
                               lambda: G.get_edge(u, names[0]), None)
                continue
            near = G.neighbors(u)
            want = sorted(v for v in names if (u, v) in adj)
            need(sorted(getattr(x, "name", "?") for x in near) == want, "wrong-neighbours",
                 "%s: neighbours of %s are %s, should be %s", what, u,
                 sorted(str(getattr(x, "name", x)) for x in near), want)
            for x in near:
                need(x is nodes[x.name], "wrong-vertex-object", "%s: neighbour %s of %s is not the "
                     "vertex of the graph", what, x.name, u)
            del near
            for v in names:
                if v not in nodes:
                    continue
                got = G.is_adjacent(u, v)
                need(got is ((u, v) in adj), "wrong-adjacency", "%s: is_adjacent(%s, %s) is %s",
                     what, u, v, got)
                e = G.get_edge(u, v)
                ok = cost.get((u, v), [None])
                if not (self.right(e, u, v, ok) if (u, v) in adj else e is None):
                    other = [k for k in cost if "_".join(k) == u + "_" + v and k != (u, v)]
                    dead = "_".join((u, v))
                    if self.py and self.joined(dead):
                        raise Violation("edge-key-collision", "%s: get_edge(%r, %r) is %s; its key "
                                        "%r is that of another edge too" % (
                                            what, u, v, self.show(e), dead))
                    need(False, "wrong-edge", "%s: get_edge(%s, %s) is %s instead of %s%s", what,
                         u, v, self.show(e), ok if (u, v) in adj else "no edge",
                         " (%s)" % other if other else "")
                if e is not None:
                    need(sys.getrefcount(e) >= 3, "edge-not-owned", "%s: get_edge(%s, %s) gave an "
                         "edge that is freed although the graph holds it", what, u, v)
                e = None
        for x, (name, d) in self.datas(nodes):
            need(x.name == name and (x.data is d or x.data == d), "wrong-data", "%s: vertex %s has "
                 "name %s and data %s instead of %s", what, name, x.name, show(x.data), d)
        for a, b in self.given_names:
            need([x.name for x in a] == b, "argument-modified", "%s: the caller's list of adjacent "
                 "vertices was %s, is %s", what, b, [getattr(x, "name", x) for x in a])
        x = None
        refs2 = [sys.getrefcount(x) for x in nodes.values()]
        x = None
        need(refs2 == refs, "reference-count", "%s: reading changed how often the vertices %s are "
             "referenced from %s to %s", what, list(nodes), refs, refs2)

    def joined(self, key):
        """Is this the key of two pairs of vertices?"""
        return sum(u + "_" + v == key for u in self.names for v in self.names) > 1

    def datas(self, nodes):
        out = []
        for name, x in nodes.items():
            out.append((x, self.data[name]))
        return out

    def show(self, e):
        if e is None:
            return None
        return "%s with value %s" % (str(e), show(e.value))

    def right(self, e, u, v, ok):
        if e is None:
            return None in ok
        val = e.value
        if not any(val is c or c is not None and val == c or c is None and val is None
                   for c in ok):
            return False
        s = str(e)
        if hasattr(e, "source"):
            return (e.source.name, e.target.name) == (u, v)
        return s.startswith("('%s', '%s'" % (u, v))


def value(c, kind, ctl):
    """(cost to pass, value the edge must have, may it be refused?)"""
    if c == "text":
        return "h", "h", kind == "cpp_matrix"
    if c == "big":
        return 2 ** 70, 2 ** 70, kind[0] == "c"
    if c == "huge":
        return 10 ** 400, 10 ** 400, kind[0] == "c"
    if c == "surrogate":
        return "x\ud800", "x\ud800", kind[0] == "c"
    if c == "nul":
        return "a\0b", "a\0b", kind == "cpp_matrix"
    if c == "list":
        return [1], [1], kind[0] == "c"
    if c == "dict":
        return {}, {}, kind[0] == "c"
    if c is not None and ctl["at"] and kind == "cpp_matrix":
        return Cost(c, ctl), c, False
    return c, c, False


def play(case, env):
    from pydatastructs.utils.misc_util import GraphEdge, AdjacencyListGraphNode
    kind = case["kind"]
    if case["node"] and kind.endswith("list"):
        lone_node(case, env)
    ctl = {"at": set(case["conv_at"]), "n": 0, "env": env, "fired": 0}
    classes = [GraphEdge, AdjacencyListGraphNode] if kind[0] == "p" else []
    with AllocFault(env, classes, case["alloc_at"]) as af:
        s = history(case, env, af, ctl, True)
        env.probe(kind)
        if any("_" in x for x in case["names"]):
            env.probe("underscores")
        if case["scheds"] and case["par"]:
            env.probe("callers")
            want = seen(s)
            outs = run_threads(env, case["scheds"][0], [
                lambda: seen(history(case, env, af, ctl, False)) for _ in range(case["par"])])
            for k, v in outs:
                need(k == "ok", "unexpected-error", "%s built by several threads: %s", kind,
                     err(v) if k == "raise" else "")
                need(v == want, "wrong-graph", "%s built by several threads at once, each for "
                     "itself: %s instead of %s", kind, show(v), show(want))
            v = None
            s.look("graphs built by other threads after " + s.what)
    if case["release"]:
        refs = s.refs
        cyc = kind == "cpp_list" and s.cyclic
        s.G = s.nodes = s.data = s.given = s.given_names = s.last = s = None
        outs = v = None
        gc.collect()
        left = sum(r() is not None for r in refs)
        need(cyc or not left, "not-released", "%s: the graph, its vertices and edges are gone, but "
             "%d of the %d data of vertices are still referenced: %s", kind, left, len(refs),
             show(case["ops"]))
        env.probe("released")


def seen(s):
    names = s.names
    out = [s.G.num_vertices(), s.G.num_edges()]
    for u in s.nodes:
        out.append([u, sorted(x.name for x in s.G.neighbors(u)),
                    sorted(str(getattr(s.G.get_edge(u, v), "value", None)) for v in s.nodes)])
    return out


def history(case, env, af, ctl, judge):
    kind = case["kind"]
    s = Store(case, env, ctl)
    names = s.names
    s.data = {}
    s.cyclic = False
    for name, x in s.nodes.items():
        s.data[name] = (name, x.data)
    s.what = "%s of %s" % (kind, list(s.nodes)) + (" given %s" % case["given"] if s.given else "")
    if judge:
        s.look("new " + s.what)
    n = len(names)
    done = []
    for op in case["ops"]:
        if any(i >= n for i in op[1:3] if isinstance(i, int)):
            continue
        done.append([op[0]] + [names[i] for i in op[1:3]] + op[3:])
        what = "%s after %s on %s" % (done[-1], show(done[:-1]), s.what)
        env.nops += 1
        f0 = af.fired + ctl["fired"]
        before = s.copy()
        bdata = dict(s.data)
        refuse = maybe = False
        u = names[op[1]] if len(op) > 1 else None
        v = names[op[2]] if len(op) > 2 else None
        x = None
        if op[0] == "same":
            continue
        elif op[0] == "adde":
            c, val, may = value(op[3], kind, ctl)
            if u not in s.nodes or v not in s.nodes:
                refuse = ValueError
            else:
                maybe = may
                if judge and (u, v) in s.adj:
                    env.probe("edge_again")
                old = s.cost.get((u, v), [None])
                s.adj[u, v] = True
                s.cost[u, v] = [val] if c is not None else sorted(
                    set([None] + [z for z in old if z is not None]), key=repr) \
                    if all(z.__hash__ for z in old) else [None] + old
                if u == v or (v, u) in s.adj or len(s.nodes) > 1:
                    s.cyclic = s.cyclic or s.list and loops(s.adj)

            def fn():
                return s.G.add_edge(u, v) if c is None and len(done) % 2 else s.G.add_edge(u, v, c)
        elif op[0] == "dele":
            if (u, v) not in s.adj:
                maybe = True
            else:
                del s.adj[u, v]
                s.cost.pop((u, v))
                env.probe("removed_edge")

            def fn():
                return s.G.remove_edge(u, v)
        elif op[0] == "addv":
            x = s.node(u)
            if u in s.nodes:
                maybe = True
            else:
                if judge and u in bdata:
                    env.probe("vertex_again")
                s.nodes[u] = x
                s.data[u] = (u, x.data)

            def fn():
                return s.G.add_vertex(x)
        else:
            if u not in s.nodes:
                maybe = True
            else:
                del s.nodes[u]
                for k in [k for k in s.adj if u in k]:
                    del s.adj[k]
                    s.cost.pop(k)
                env.probe("removed_vertex")

            def fn():
                return s.G.remove_vertex(u)
        after = s.copy()
        af.armed = judge
        try:
            k, out = "ok", fn()
        except Exception as e:
            k, out = "raise", e
        finally:
            af.armed = False
        fired = af.fired + ctl["fired"] - f0 if judge else 0
        if judge:
            env.ev(done[-1], k, err(out) if k == "raise" else "")
        if fired:
            need(k == "raise" and isinstance(out, (InjectedError, InjectedMemoryError)),
                 "fault-swallowed", "%s: something failed inside, but got %s", what,
                 err(out) if k == "raise" else "a normal return")
        elif refuse:
            need(k == "raise" and isinstance(out, refuse), "not-refused", "%s: should be refused, "
                 "got %s", what, err(out) if k == "raise" else "a normal return")
            env.probe("refused")
        elif k == "raise":
            need(maybe and not isinstance(out, (SystemError, MemoryError, RecursionError)),
                 "unexpected-error", "%s: %s", what, err(out))
            env.probe("cost_refused" if op[0] == "adde" else "refused")
        if k == "raise":
            # nothing of it may remain
            s.nodes, s.adj, s.cost = before
            s.data = bdata
            out = None
            if judge:
                try:
                    s.look(what)
                except Violation:
                    if not fired or refuse:
                        raise
                    s.nodes, s.adj, s.cost = after
                    s.look(what)
        else:
            need(out is None, "wrong-result", "%s: returned %s", what, show(out))
            if judge:
                s.look(what)
        for kk, ok in s.cost.items():
            if len(ok) > 1 and judge:
                e = s.G.get_edge(*kk)
                s.cost[kk] = [None if e is None else e.value]
                e = None
        before = after = x = fn = None
    return s


def loops(adj):
    near = {}
    for u, v in adj:
        near.setdefault(u, []).append(v)
    for s in near:
        todo, seen = list(near[s]), set()
        while todo:
            x = todo.pop()
            if x == s:
                return True
            if x not in seen:
                seen.add(x)
                todo += near.get(x, [])
    return False


def lone_node(case, env):
    """A vertex outside any graph, given a list of neighbours."""
    import pydatastructs as p
    from pydatastructs.utils.misc_util import Backend
    py = case["kind"][0] == "p"
    kw = {} if py else {"backend": Backend.CPP}
    names = case["names"]
    near = [p.AdjacencyListGraphNode(x, i, **kw) for i, x in enumerate(names[1:])]
    mine = list(near)
    x = p.AdjacencyListGraphNode(names[0], "d", mine, **kw)
    want = {y.name: y.data for y in near}
    hist = []
    for op in case["ops"][:8]:
        if op[0] not in ("adde", "dele") or op[2] >= len(names):
            continue
        nm = names[op[2]]
        hist.append([op[0], nm])
        what = "vertex %s given %s: %s" % (names[0], names[1:], hist)
        if op[0] == "dele":
            try:
                x.remove_adjacent_node(nm)
                k = "ok"
            except ValueError:
                k = "raise"
            need((k == "ok") == (nm in want), "wrong-adjacency", "%s: %s", what, k)
            want.pop(nm, None)
        else:
            if not py and nm in want:
                continue                   # the C++ vertex holds the data itself from then on
            x.add_adjacent_node(nm, len(hist))
            want[nm] = len(hist)
        got = {z: getattr(x, z).data for z in x.adjacent} if py else \
            {z: y.data for z, y in x.adjacent.items()}
        need(got == want, "wrong-adjacency", "%s: adjacent are %s instead of %s", what, got, want)
        need(mine == near and all(a is b for a, b in zip(mine, near)), "argument-modified",
             "%s: the caller's list became %s", what, show(mine))
    env.probe("node")
