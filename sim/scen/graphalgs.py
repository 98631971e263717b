"""P14: graph algorithms on one shared graph: right answers for every caller, the
graph as it was, also when weight arithmetic or an allocation fails."""
from core import need, gen_sched, pick_faults, AllocFault, InjectedError, InjectedMemoryError
from scen.common import err, show, run_threads, stock_recursion_limit
from scen.graphs_common import (gen_graph, ok_graph, adjacency, weights, build_graph, snapshot,
                                component, depths, has_cycle, churn, cpp_snapshot, UF,
                                mst_weight, change_tree)
from scen.parmst import check_mst
from simthread import SCHED

META = {
    "rule": "A run draws a graph (directed or not, list or matrix, cyclic, disconnected, negative "
            "and zero weights, fractions, loops, ties), a hash seed and a history of 1..8 calls of "
            "graph algorithms on it, between which edges come, go and get other costs (spanning trees, strongly connected components, shortest paths, all-pairs "
            "shortest paths, topological sort, maximum flow, bridges), made one after another or "
            "by several threads at the same time; in half of the runs a drawn addition or "
            "comparison of weights or a drawn allocation fails. A few runs use a path of more "
            "than a thousand vertices.",
    "quick_runs": 40000, "block": 200, "quick_wall": 400, "thorough_wall": 500,
    "real": ["minimum_spanning_tree, strongly_connected_components, shortest_paths, "
             "all_pair_shortest_paths, topological_sort(_parallel), max_flow, find_bridges; the "
             "graph containers, disjoint sets and priority queues they use; C++ Dijkstra and Prim",
             "CPython's threading on the simulated _thread"],
    "stub": ["arithmetic and comparison of weights, allocation of edges, vertices, sets and heap "
             "nodes (can fail on demand)", "_thread", "string hashing"],
    "must_probe": ["arithmetic_failed", "allocation_failed", "callers", "negative_cycle",
                   "unreachable", "cyclic", "kruskal", "prim", "kosaraju", "tarjan",
                   "bellman_ford", "dijkstra", "floyd_warshall", "johnson", "kahn",
                   "kahn_parallel", "edmonds_karp", "dinic", "bridges", "cpp_dijkstra",
                   "cpp_prim", "refused", "churned", "edited", "self_loops", "costless",
                   "deep"],
}
INF = float("inf")


class W(int):
    """A weight; operations of the code under test on it can fail."""
    ctl = None

    def _op(name):
        base = getattr(int, name)
        wrap = name not in ("__lt__", "__le__", "__gt__", "__ge__")

        def f(self, o):
            c = W.ctl
            if c["on"] and c["at"]:
                c["n"] += 1
                if c["n"] in c["at"]:
                    c["fired"] += 1
                    c["env"].fault("arithmetic_failed")
                    raise InjectedError(c["n"])
            r = base(self, o)
            return W(r) if wrap and r is not NotImplemented else r
        f.__name__ = name
        return f
    for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__lt__", "__le__", "__gt__",
               "__ge__"):
        locals()[_n] = _op(_n)
    del _n, _op
    __hash__ = int.__hash__


UND = ["kruskal", "prim", "bridges", "kosaraju", "tarjan", "dijkstra", "bellman_ford",
       "floyd_warshall", "edmonds_karp", "dinic", "cpp_dijkstra", "cpp_prim", "cpp_prim"]
DIR = ["kosaraju", "tarjan", "bellman_ford", "bellman_ford", "dijkstra", "floyd_warshall",
       "johnson", "johnson", "kahn", "kahn_parallel", "edmonds_karp", "dinic", "cpp_dijkstra"]


TREES = ["kruskal", "prim", "cpp_prim", "cpp_prim", "bridges"]
BARE_U = ["bridges", "kosaraju", "tarjan"]
BARE_D = ["kosaraju", "tarjan", "kahn", "kahn_parallel"]


def gen(rng, tier):
    if rng.random() < .0025:
        return gen_deep(rng)
    directed = rng.random() < .6
    neg = directed and rng.random() < .3
    big = rng.random() < .05
    g = gen_graph(rng, rng.choice([12, 16, 24]) if big else rng.choice([4, 6, 6, 8]),
                  directed=directed, dag=directed and rng.random() < .3,
                  connected=not directed and rng.random() < .6, neg=neg,
                  dens=[.06, .1, .2] if big else None)
    if rng.random() < .2:
        for e in g["edges"]:
            if rng.random() < .3:
                e[2] = 0
    if not neg and rng.random() < .25:
        # every further hop shortens a path, so that distances improve again and again
        c = rng.choice([1, 2, 3])
        for e in g["edges"]:
            e[2] = c * (e[0] - e[1]) ** 2 + rng.randrange(c)
    if rng.random() < .12:
        n = len(g["names"])
        for i in rng.sample(range(n), rng.randrange(1, min(n, 3) + 1)):
            g["edges"].append([i, i, rng.randrange(4)])
    if rng.random() < .15:
        for e in g["edges"]:
            e[2] = e[2] / rng.choice([1, 2, 4])     # sums stay exact
    if rng.random() < .06:
        scale = 2 ** rng.choice([31, 33, 36])           # floats remain exact
        for e in g["edges"]:
            e[2] *= scale
    if not directed and rng.random() < .12:
        # spanning trees of costs of zero and below (shortest paths have none)
        by = rng.choice([1, 2, 5, 60])
        for e in g["edges"]:
            e[2] -= by
    impl = rng.choice(["adjacency_list", "adjacency_list", "adjacency_matrix"])
    ops = []
    gadget = rng.random() < .1
    if gadget:
        g = matching(rng)
    if g["directed"]:
        algs = DIR
    else:
        algs = TREES if any(e[2] < 0 for e in g["edges"]) else UND
    edits = rng.random() < .3
    bare = not gadget and rng.random() < .06
    for _ in range(rng.choice([3, 5, 8] if edits else [1, 2, 3, 5])):
        if edits and ops and rng.random() < .4:
            ops.append(["edit", rng.randrange(24), rng.randrange(24),
                        rng.choice([None, 1, 2, 3, 7])])
            if rng.random() < .7:
                ops.append(list(rng.choice([o for o in ops if o[0] != "edit"])))
            continue
        if bare:
            ops.append([rng.choice(BARE_D if g["directed"] else BARE_U), rng.randrange(8),
                        rng.randrange(8), rng.randrange(3)])
            continue
        if gadget and rng.random() < .8:
            ops.append([rng.choice(["edmonds_karp", "dinic"]), 0, 1, 0])
            continue
        ops.append([rng.choice(algs), rng.randrange(8), rng.randrange(8), rng.randrange(3)])
    case = {"g": g, "impl": impl, "ops": ops, "scheds": [], "arith_at": [], "alloc_at": [],
            "churn": [[rng.choice(["vertex", "edge", "ghost", "again"]), rng.randrange(20)]
                      for _ in range(rng.choice([0, 0, 0, 1, 1, 3, 3, 15]))],
            "floats": rng.random() < .3, "bare": bare}
    if len(ops) > 1 and rng.random() < (.15 if edits else .5):
        case["scheds"] = [gen_sched(rng, horizon=4000)]
        if big:
            del ops[3:]
    if rng.random() < .55:
        if rng.random() < .6:
            case["arith_at"] = pick_faults(rng, 1, rng.choice([5, 30, 150]), rng.choice([1, 2]))
        else:
            case["alloc_at"] = pick_faults(rng, 1, rng.choice([5, 15, 40]), rng.choice([1, 2]))
    return case


def matching(rng):
    """A flow network in which greedily found paths have to be rerouted: vertex 0
    is the source, vertex 1 the sink."""
    layers = [[0]] + [[] for _ in range(rng.choice([2, 2, 3]))] + [[1]]
    n = 2
    for l in layers[1:-1]:
        for _ in range(rng.choice([2, 3, 3])):
            l.append(n)
            n += 1
    unit = rng.random() < .6
    edges = []
    for a, b in zip(layers, layers[1:]):
        for i in a:
            ends = [j for j in b if i == 0 or j == 1 or rng.random() < .6] or [rng.choice(b)]
            edges += [[i, j, 1 if unit else rng.choice([1, 2, 3])] for j in ends]
    if rng.random() < .3:
        edges += [[b, a, w] for a, b, w in rng.sample(edges, 1)]
    rng.shuffle(edges)
    names = ["%s%d" % (rng.choice("abxyz"), i) for i in range(n)]
    return {"names": names, "edges": edges, "directed": True}


def ref_bf(names, wt, s):
    """(distances, reachable negative cycle?)"""
    d = {v: INF for v in names}
    d[s] = 0
    for _ in range(len(names)):
        ch = False
        for (u, v), w in sorted(wt.items()):
            if d[u] + w < d[v]:
                d[v] = d[u] + w
                ch = True
        if not ch:
            return d, False
    return d, True


def ref_flow(names, wt, s, t):
    res = {}
    for (u, v), w in wt.items():
        res.setdefault(u, {}).setdefault(v, 0)
        res.setdefault(v, {}).setdefault(u, 0)
        res[u][v] += w
    tot = 0
    while True:
        par = {s: None}
        q = [s]
        for u in q:
            for v, c in res.get(u, {}).items():
                if c > 0 and v not in par:
                    par[v] = u
                    q.append(v)
        if t not in par:
            return tot
        f, v = INF, t
        while v != s:
            f = min(f, res[par[v]][v])
            v = par[v]
        v = t
        while v != s:
            res[par[v]][v] -= f
            res[v][par[v]] += f
            v = par[v]
        tot += f


def run(case, env):
    from pydatastructs.utils.misc_util import (GraphEdge, AdjacencyListGraphNode, Set,
                                               AdjacencyMatrixGraphNode, BinomialTreeNode, Backend)
    from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
    from pydatastructs.miscellaneous_data_structures import DisjointSetForest
    from pydatastructs.trees.heaps import BinomialHeap
    if "deep" in case:
        return run_deep(case, env)
    g = case["g"]
    if not ok_graph(g):
        return
    names = g["names"]
    und = not g["directed"]
    if und and any(e[2] < 0 for e in g["edges"]):
        return
    if any(a == b for a, b, _ in g["edges"]):
        env.probe("self_loops")
    bare = case.get("bare")
    W.ctl = ctl = {"on": False, "at": set(case["arith_at"]), "n": 0, "env": env, "fired": 0}
    gw = dict(g, edges=[[a, b, weight(w)] for a, b, w in g["edges"]])
    G = build_graph(gw, case["impl"], weighted=not bare, data=True)
    # the container decides the order of vertices and neighbours
    churn(G, gw, case["churn"], weighted=not bare, data=True)
    if case["churn"]:
        env.probe("churned")
    before = snapshot(G)
    H = CppTwin(case)
    todo = []
    if case["scheds"]:
        for op in case["ops"]:
            j = job(op, case, G, H, g, names, und, env)
            if j:
                todo.append(j)
        if not todo:
            return
    classes = [GraphEdge, AdjacencyListGraphNode, AdjacencyMatrixGraphNode, BinomialTreeNode,
               BinomialTree, BinomialHeap, Set, DisjointSetForest]
    env.ev("graph", case["impl"], sorted(weights(g).items()), und)
    with AllocFault(env, classes, case["alloc_at"]) as af:
        if case["scheds"]:
            env.probe("callers")
            env.nops += len(todo)
            af.armed = ctl["on"] = True
            try:
                outs = run_threads(env, case["scheds"][0], [j[1] for j in todo[:3]])
            finally:
                af.armed = ctl["on"] = False
            failed = 0
            for (what, fn, check), (k, out) in zip(todo, outs):
                if k == "raise" and isinstance(out, (InjectedError, InjectedMemoryError)):
                    env.ev(what, "injected")
                    failed += 1
                    continue
                env.ev(what, k, err(out) if k == "raise" else "")
                check(what, k, out)
            fired = ctl["fired"] + af.fired
            need(failed == fired, "fault-swallowed", "%d operations failed, %d callers were told",
                 fired, failed)
        else:
            for op in case["ops"]:
                if op[0] == "edit":
                    g = edit(op, g, G, H, bare, env)
                    before = snapshot(G)
                    continue
                j = job(op, case, G, H, g, names, und, env)
                if not j:
                    continue
                todo.append(j)
                what, fn, check = j
                f0 = ctl["fired"] + af.fired
                af.armed = ctl["on"] = True
                env.nops += 1
                try:
                    k, out = "ok", fn()
                except Exception as e:
                    k, out = "raise", e
                finally:
                    af.armed = ctl["on"] = False
                env.ev(what, k, err(out) if k == "raise" else "")
                if ctl["fired"] + af.fired - f0:
                    need(k == "raise" and isinstance(out, (InjectedError, InjectedMemoryError)),
                         "fault-swallowed", "%s: injected failure, but got %s", what,
                         err(out) if k == "raise" else show(out))
                else:
                    check(what, k, out)
                need(snapshot(G) == before, "graph-modified", "%s: the graph was %s, is %s", what,
                     show(before), show(snapshot(G)))
    need(snapshot(G) == before, "graph-modified", "after %s: the graph was %s, is %s",
         [t[0][:40] for t in todo], show(before), show(snapshot(G)))


def weight(w):
    """Integers can fail, other numbers are as they are."""
    return W(w) if isinstance(w, int) else w


def edit(op, g, G, H, bare, env):
    """Change the graph (and its C++ twin) between two calls: an edge goes,
    comes or gets another cost."""
    _, i, j, w = op
    n = len(g["names"])
    i, j = i % n, j % n
    old = [e for e in g["edges"] if (e[0], e[1]) == (i, j) or
           not g["directed"] and (e[1], e[0]) == (i, j)]
    if i == j and not old or w is None and not old:
        return g
    u, v = g["names"][i], g["names"][j]
    both = [(u, v)] + ([(v, u)] if not g["directed"] and i != j else [])
    env.ev("edit", u, v, w)
    env.probe("edited")
    for X in [G] + ([H.graph] if H.graph is not None else []):
        for x, y in both:
            if w is None:
                X.remove_edge(x, y)
            elif bare:
                X.add_edge(x, y)
            else:
                X.add_edge(x, y, weight(w) if X is G else H.cost(i, j, w))
    return dict(g, edges=[e for e in g["edges"] if e not in old] +
                ([[i, j, w]] if w is not None else []))


class CppTwin(object):
    """The same graph in C++, made when first needed."""

    def __init__(self, case):
        self.case, self.graph = case, None

    def cost(self, a, b, w):
        # costs of both kinds, equal as numbers
        return float(w) if self.case["floats"] and (a + b) % 2 else w

    def get(self, g, what):
        """The graph and a check that it is as it was."""
        from pydatastructs.utils.misc_util import Backend
        if self.graph is None:
            g = dict(g, edges=[[a, b, self.cost(a, b, w)] for a, b, w in g["edges"]])
            self.graph = build_graph(g, "adjacency_list", backend=Backend.CPP, data=True)
            churn(self.graph, g, self.case["churn"], data=True)
        H = self.graph
        before = cpp_snapshot(H, g["names"])

        def after():
            now = cpp_snapshot(H, g["names"])
            need(now == before, "graph-modified", "%s: the graph was %s, is %s", what,
                 show(before), show(now))
        return H, after


def check_cpp_tree(T, names, adj, wt, what):
    comp = component(adj, names[0])
    need(T.num_vertices() == len(comp), "wrong-vertices", "%s: %s vertices instead of %s", what,
         T.num_vertices(), len(comp))
    nbr = {u: sorted(x.name for x in T.neighbors(u)) for u in sorted(comp)}
    tot, uf, cnt = 0, UF(comp), 0
    for u in nbr:
        for x in T.neighbors(u):
            need(x.data == "data of " + x.name, "wrong-data", "%s: %s has data %s", what, x.name,
                 show(x.data))
        for v in nbr[u]:
            need((u, v) in wt, "foreign-edge", "%s: tree edge %s-%s is not of the graph", what, u, v)
            e, r = T.get_edge(u, v), T.get_edge(v, u)
            need(u in nbr[v] and r is not None, "asymmetric",
                 "%s: edge %s-%s present in one direction only", what, u, v)
            need(e is not None and e.value == wt[u, v] == r.value, "foreign-edge",
                 "%s: cost of %s-%s is %s instead of %s", what, u, v, e and e.value, wt[u, v])
            if u < v:
                need(uf.union(u, v), "cycle", "%s: the tree has a cycle through %s-%s", what, u, v)
                cnt += 1
                tot += e.value
    w, want = mst_weight(sorted(comp), {(u, v): x for (u, v), x in wt.items()
                                        if u in comp and v in comp})
    need(cnt == want, "not-spanning", "%s: %d edges instead of %d", what, cnt, want)
    need(T.num_edges() == 2 * cnt, "wrong-count", "%s: %d edges counted instead of %d", what,
         T.num_edges(), 2 * cnt)
    need(tot == w, "not-minimum", "%s: weight %s instead of %s", what, tot, w)


def grow_cpp_tree(T, names, what):
    """A tree is a graph like any other."""
    from pydatastructs import AdjacencyListGraphNode, shortest_paths
    from pydatastructs.utils.misc_util import Backend
    edges = T.num_edges()
    T.add_vertex(AdjacencyListGraphNode("added", backend=Backend.CPP))
    T.add_edge("added", names[-1], 1)
    T.add_edge(names[0], "added", 2)
    need((T.num_vertices(), T.num_edges()) == (len(names) + 1, edges + 2), "wrong-count",
         "%s: a tree of %d vertices and %d edges has %d and %d with one vertex and two edges more",
         what, len(names), edges, T.num_vertices(), T.num_edges())
    got = shortest_paths(T, "dijkstra", "added", backend=Backend.CPP)[0]
    need(sorted(k for k in got if got[k] != float("inf")) == sorted(names + ["added"]) and
         got[names[-1]] == 1, "wrong-distance", "%s: from a vertex added to the tree, at distance "
         "1 of %s, the distances are %s", what, names[-1], show(sorted(got.items())))


def job(op, case, G, twin, g, names, und, env):
    """(description, call, check of the outcome) or None."""
    import pydatastructs as p
    from pydatastructs.utils.misc_util import Backend
    alg, a, b, c = op
    if alg == "edit" or case.get("bare") and alg not in BARE_U + BARE_D:
        return None
    if case.get("bare"):
        env.probe("costless")
    adj, wt = adjacency(g), weights(g)
    neg = any(w < 0 for w in wt.values())
    negcycle = neg and any(ref_bf(names, wt, s)[1] for s in names)
    s, t = names[a % len(names)], names[b % len(names)]
    impl = case["impl"]
    what = "%s on %s %s %s" % (alg, impl, "undirected" if und else "directed",
                               show(sorted(wt.items()), 600))

    def ok(what, k, out):
        need(k == "ok", "unexpected-error", "%s: %s", what, err(out) if k == "raise" else "")
        env.probe(alg)

    if alg in ("kruskal", "prim"):
        if not und or alg == "prim" and impl != "adjacency_list":
            return None

        def check(what, k, out):
            ok(what, k, out)
            check_mst(out, g, adj, wt, alg, what, env)
            for v in sorted(out.vertices):
                need(getattr(out, v).data == "data of " + v, "wrong-data", "%s: %s has data %s",
                     what, v, show(getattr(out, v).data))
            change_tree(out)            # the graph is compared afterwards
        return what, lambda: p.minimum_spanning_tree(G, alg), check
    if alg == "cpp_prim":
        if not und or impl != "adjacency_list":
            return None
        H, after = twin.get(g, what)

        def check(what, k, out):
            ok(what, k, out)
            after()
            check_cpp_tree(out, names, adj, wt, what)
            grow_cpp_tree(out, sorted(component(adj, names[0])), what)
        return what, lambda: p.minimum_spanning_tree(H, "prim", backend=Backend.CPP), check
    if alg in ("kosaraju", "tarjan"):
        comps = {}
        reach = {v: component(adj, v) for v in names}
        want = sorted(set(tuple(sorted(u for u in reach[v] if v in reach[u])) for v in names))

        def check(what, k, out):
            ok(what, k, out)
            got = sorted(tuple(sorted(x)) for x in out)
            need(got == want, "wrong-components", "%s: %s instead of %s", what, got, want)
        return what, lambda: p.strongly_connected_components(G, alg), check
    if alg in ("bellman_ford", "dijkstra", "cpp_dijkstra"):
        if neg and alg != "bellman_ford":
            return None
        target = t if c == 1 else ""
        what += " from %s%s" % (s, " to " + t if target else "")
        H, after = G, lambda: None
        if alg == "cpp_dijkstra":
            if impl != "adjacency_list":
                return None
            H, after = twin.get(g, what)
        want, cyc = ref_bf(names, wt, s)

        if c == 2 and b % 4 == 0 and alg == "cpp_dijkstra":
            # a caller that names vertices that are not there
            which = b % 8 == 0
            args = (("missing", target) if which else (s, "missing"))

            def check(what, k, out):
                after()
                if cyc and not which:
                    return
                need(k == "raise" and isinstance(out, (LookupError, ValueError, AttributeError)), "not-refused",
                     "%s: %s, which the graph has not, but got %s", what, args,
                     err(out) if k == "raise" else show(out))
                env.probe("refused")
            name = alg.replace("cpp_", "")
            kw = {"backend": Backend.CPP} if alg == "cpp_dijkstra" else {}
            return what, lambda: p.shortest_paths(H, name, *args, **kw), check

        def check(what, k, out):
            after()
            if cyc:
                env.probe("negative_cycle")
                need(k == "raise" and isinstance(out, ValueError), "negative-cycle",
                     "%s: a negative cycle is reachable, but got %s", what,
                     err(out) if k == "raise" else show(out))
                return
            ok(what, k, out)
            dist, pred = out
            if target:
                need(dist == want[t], "wrong-distance", "%s: distance %s instead of %s", what,
                     dist, want[t])
            else:
                need(dist == want, "wrong-distance", "%s: %s instead of %s", what, show(dist),
                     show(want))
            need(sorted(pred) == sorted(names), "wrong-predecessors", "%s: predecessors of %s",
                 what, sorted(pred))
            if INF in want.values():
                env.probe("unreachable")
            chain = set(names)
            if target:                    # nothing else was asked for
                chain, x = set(), t
                while x is not None and x not in chain:
                    chain.add(x)
                    x = pred[x]
            for v in sorted(chain):
                u = pred[v]
                if v == s or want[v] == INF:
                    need(u is None, "wrong-predecessors", "%s: predecessor of %s is %s", what, v, u)
                    continue
                need((u, v) in wt and want[u] + wt[u, v] == want[v], "wrong-predecessors",
                     "%s: predecessor of %s is %s", what, v, u)
                seen, x = set(), v
                while x is not None and x not in seen:
                    seen.add(x)
                    last, x = x, pred[x]
                need(x is None and last == s, "wrong-predecessors",
                     "%s: predecessors from %s do not lead to the source", what, v)
        name = alg.replace("cpp_", "")
        kw = {"backend": Backend.CPP} if alg == "cpp_dijkstra" else {}
        return what, lambda: p.shortest_paths(H, name, s, target, **kw), check
    if alg in ("floyd_warshall", "johnson"):
        if und and neg or alg == "johnson" and impl != "adjacency_list":
            return None
        if negcycle and alg == "floyd_warshall":
            return None

        def check(what, k, out):
            if negcycle:
                env.probe("negative_cycle")
                need(k == "raise" and isinstance(out, ValueError), "negative-cycle",
                     "%s: there is a negative cycle, but got %s", what,
                     err(out) if k == "raise" else show(out))
                return
            ok(what, k, out)
            dist = out[0]
            for u in names:
                want = ref_bf(names, wt, u)[0]
                got = {v: dist.get(u, {}).get(v, INF) for v in names}
                need(got == want, "wrong-distance", "%s: from %s %s instead of %s", what, u,
                     show(got), show(want))
        return what, lambda: p.all_pair_shortest_paths(G, alg), check
    if alg in ("kahn", "kahn_parallel"):
        if und or impl != "adjacency_list":
            return None
        cyc = has_cycle(adj)

        def check(what, k, out):
            if cyc:
                env.probe("cyclic")
                need(k == "raise" and isinstance(out, ValueError), "cycle-not-reported",
                     "%s: cyclic, but got %s", what, err(out) if k == "raise" else show(out))
                return
            ok(what, k, out)
            need(sorted(out) == sorted(names), "not-a-permutation", "%s: %s", what, show(out))
            pos = {v: i for i, v in enumerate(out)}
            for u, v in wt:
                need(pos[u] < pos[v], "wrong-order", "%s: edge %s->%s but order %s", what, u, v,
                     show(out))
        if alg == "kahn":
            return what, lambda: p.topological_sort(G, "kahn"), check
        if not case["scheds"]:
            return None                               # needs the simulated threads
        return what, lambda: p.topological_sort_parallel(G, "kahn", 1 + c), check
    if alg in ("edmonds_karp", "dinic"):
        if s == t or neg:
            return None
        want = ref_flow(names, wt, s, t)
        what += " %s -> %s" % (s, t)

        def check(what, k, out):
            ok(what, k, out)
            need(out == want, "wrong-flow", "%s: %s instead of %s", what, out, want)
        return what, lambda: p.max_flow(G, s, t, alg), check
    if alg == "bridges":
        if not und:
            return None
        base = len(set(tuple(sorted(component(adj, v))) for v in names))
        want = []
        for u, v in sorted(wt):
            if u < v:
                cut = {x: [y for y in ys if {x, y} != {u, v}] for x, ys in adj.items()}
                if len(set(tuple(sorted(component(cut, x))) for x in names)) > base:
                    want.append((u, v))

        def check(what, k, out):
            ok(what, k, out)
            need(sorted(tuple(x) for x in out) == want, "wrong-bridges", "%s: %s instead of %s",
                 what, show(out), show(want))
        return what, lambda: p.find_bridges(G), check
    return None


def gen_deep(rng):
    """One long path, some edges over several of its vertices."""
    n = rng.choice([1020, 1100, 1300])
    alg = rng.choice(["tarjan", "tarjan", "kosaraju", "bridges", "bridges", "edmonds_karp",
                      "dinic", "dinic", "bellman_ford", "kahn", "kruskal", "prim"])
    over = [[a, min(n - 1, a + rng.choice([2, 5, 40, 900]))]
            for a in (rng.randrange(n - 3) for _ in range(rng.choice([0, 1, 4, 20])))]
    return {"deep": [alg, n, over, rng.randrange(1, 9)],
            "impl": rng.choice(["adjacency_list", "adjacency_matrix"]) if alg not in
            ("prim", "kahn") else "adjacency_list"}


def run_deep(case, env):
    """The path is so long that recursion along it would exceed any limit."""
    import pydatastructs as p
    alg, n, over, w = case["deep"]
    if n < 3 or any(not (0 <= a and a + 1 < b < n) for a, b in over):
        return
    over = sorted(set(map(tuple, over)))
    names = ["v%d" % i for i in range(n)]
    und = alg in ("bridges", "kruskal", "prim")
    scc = alg in ("tarjan", "kosaraju")
    edges = [[i, i + 1, w + (i * i) % 7] for i in range(n - 1)]
    if scc:
        edges += [[b, a, 1] for a, b in over]                # backwards
    elif alg in ("bridges", "kruskal", "prim"):
        edges += [[a, b, 50] for a, b in over]
    elif alg in ("bellman_ford", "kahn"):
        edges += [[a, b, 9 * n] for a, b in over]
    g = {"names": names, "edges": edges, "directed": not und}
    G = build_graph(g, case["impl"])
    before = snapshot(G)
    env.probe("deep")
    env.nops += 1
    what = "%s on a path of %d vertices (%s) with %s" % (alg, n, case["impl"], show(over))
    calls = {"tarjan": lambda: p.strongly_connected_components(G, alg),
             "bridges": lambda: p.find_bridges(G),
             "dinic": lambda: p.max_flow(G, names[0], names[-1], alg),
             "bellman_ford": lambda: p.shortest_paths(G, alg, names[0])[0],
             "kahn": lambda: p.topological_sort(G, alg),
             "prim": lambda: p.minimum_spanning_tree(G, alg)}
    calls.update(kosaraju=calls["tarjan"], edmonds_karp=calls["dinic"], kruskal=calls["prim"])
    try:
        with stock_recursion_limit():
            out = calls[alg]()
    except RecursionError as e:
        need(False, "unexpected-error", "%s: %s", what, err(e))
    covered = set()
    for a, b in over:
        covered.update(range(a, b))
    if scc:
        want, cur = [], [0]
        for i in range(n - 1):
            if i in covered:
                cur.append(i + 1)
            else:
                want.append(cur)
                cur = [i + 1]
        want = sorted(tuple(sorted(names[i] for i in c)) for c in want + [cur])
        out = sorted(tuple(sorted(c)) for c in out)
    elif alg == "bridges":
        want = sorted(tuple(sorted((names[i], names[i + 1]))) for i in range(n - 1)
                      if i not in covered)
        out = sorted(tuple(sorted(x)) for x in out)
    elif alg in ("dinic", "edmonds_karp"):
        want = min(e[2] for e in edges)
    elif alg == "bellman_ford":
        want, d = {names[0]: 0}, 0
        for a, b, c in edges[:n - 1]:
            d += c
            want[names[b]] = d
    elif alg == "kahn":
        want = names
    else:
        check_mst(out, g, adjacency(g), weights(g), alg, what, env) if not over else None
        want = sorted(e[2] for e in edges[:n - 1])
        out = sorted(e.value for e in out.edge_weights.values())[::2]
    diff = "lengths %s and %s" % (len(out), len(want)) if isinstance(want, (list, dict)) else ""
    need(out == want, "wrong-answer", "%s: %s instead of %s (%s)", what, show(out), show(want), diff)
    need(snapshot(G) == before, "graph-modified", "%s: the graph changed", what)
