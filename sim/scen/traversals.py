"""P15: traversals of graphs and trees: everything once, in order, stopped and failing
on demand, for every caller, and what is traversed stays as it was."""
from core import need, truth, bad_answer, gen_sched, pick_faults, AllocFault, InjectedError, InjectedMemoryError
from scen.common import err, run_threads, show, size
from scen.graphs_common import gen_graph, ok_graph, adjacency, build_graph, snapshot, depths, churn
from simthread import SCHED

META = {
    "truth": True,
    "rule": "A run draws a graph (list or matrix, Python or C++) or a binary tree made by a "
            "history of insertions and deletions, and 1..4 traversals of it (breadth-first, "
            "depth-first, the four tree orders, from any vertex), made one after another, by "
            "several threads at the same time, or by the visitor of another traversal; visitors "
            "answer false or raise at drawn calls, drawn allocations fail.",
    "quick_runs": 30000, "block": 300, "quick_wall": 200, "thorough_wall": 500,
    "real": ["breadth_first_search, depth_first_search, C++ breadth_first_search, "
             "BinaryTreeTraversal, Stack, Queue, graphs and search trees",
             "CPython's threading on the simulated _thread"],
    "stub": ["visitor", "allocation of queue and stack nodes (can fail on demand)", "_thread",
             "string hashing"],
    "must_probe": ["callback_raise", "callback_cancel", "allocation_failed", "callers", "nested",
                   "bfs", "dfs", "cpp_bfs", "cpp_bfs_matrix", "complete", "in_order",
                   "pre_order", "post_order", "out_order", "level_order", "subtree",
                   "empty_tree", "tree_with_gaps", "missing_source"],
}
TREES = ["BinarySearchTree", "AVLTree", "SplayTree", "RedBlackTree"]
ORDERS = ["in_order", "pre_order", "post_order", "out_order", "level_order"]


def gen(rng, tier):
    if rng.random() < .35:
        n = size(rng, [0, 1, 3, 6, 10, 16], (17, 120))
        keys = [rng.randrange(30 + n) for _ in range(n)]
        ops = [["i", k] for k in keys]
        for _ in range(rng.choice([0, 0, 2, 5, 12])):
            ops.append([rng.choice("idd"), rng.choice(keys) if keys and rng.random() < .8
                        else rng.randrange(30)])
        jobs = [[rng.choice(ORDERS), rng.choice([None, None, rng.randrange(16)])]
                for _ in range(rng.choice([1, 2, 4]))]
        case = {"tree": rng.choice(TREES), "ops": ops, "jobs": jobs, "scheds": [],
                "alloc_at": pick_faults(rng, 1, rng.choice([3, 12, 40])) if rng.random() < .3
                else []}
        if len(jobs) > 1 and rng.random() < .5:
            case["scheds"] = [gen_sched(rng, horizon=2000)]
        return case
    g = gen_graph(rng, size(rng, [8] * 6 + [14], (15, 40)))
    n = len(g["names"])
    backend = "cpp" if rng.random() < .3 else "py"
    mode = rng.choice(["none", "none", "raise", "cancel", "cancel", "alloc"])
    jobs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        jobs.append({"kind": "bfs" if backend == "cpp" else rng.choice(["bfs", "bfs", "dfs"]),
                     "src": rng.randrange(n) if rng.random() < .95 else -1,
                     "nargs": rng.choice([0, 0, 1, 2]), "kw": rng.random() < .3,
                     "raise_at": pick_faults(rng, 1, n + 1) if mode == "raise" else [],
                     "false_at": pick_faults(rng, 1, n + 1, rng.choice([1, 1, 2]))
                     if mode == "cancel" else [],
                     "falsy": rng.choice([False, False, None, 0]),
                     "nest": rng.randrange(1, n + 1) if rng.random() < .15 else 0})
    case = {"g": g, "backend": backend, "jobs": jobs, "scheds": [],
            "impl": rng.choice(["adjacency_list", "adjacency_matrix"]),
            "alloc_at": pick_faults(rng, 1, rng.choice([3, 12, 30])) if mode == "alloc" else []}
    case["churn"] = [[rng.choice(["vertex", "edge", "ghost", "again"]), rng.randrange(20)]
                     for _ in range(rng.choice([0, 0, 1, 3]))]
    if len(jobs) > 1 and rng.random() < .5:
        case["scheds"] = [gen_sched(rng, horizon=2000)]
    return case


def run(case, env):
    from pydatastructs.utils.misc_util import LinkedListNode
    from pydatastructs import OneDimensionalArray
    if "tree" in case:
        run_tree(case, env, [LinkedListNode, OneDimensionalArray])
    else:
        run_graph(case, env, [LinkedListNode])


def perform(case, env, jobs, classes, unchanged):
    """jobs: (what, call, state, check).  One after another or as callers."""
    with AllocFault(env, classes, case["alloc_at"]) as af:
        env.nops += len(jobs)
        if case["scheds"]:
            env.probe("callers")
            af.armed = True
            try:
                outs = run_threads(env, case["scheds"][0], [j[1] for j in jobs])
            finally:
                af.armed = False
            told = 0
            for (what, fn, st, check), (k, v) in zip(jobs, outs):
                env.ev(what, k, err(v) if k == "raise" else "")
                if k == "raise" and isinstance(v, InjectedMemoryError):
                    told += 1
                    continue
                check(k, v)
            need(told == af.fired, "error-swallowed", "%d allocations failed, %d callers were "
                 "told", af.fired, told)
        else:
            for what, fn, st, check in jobs:
                f0 = af.fired
                af.armed = True
                try:
                    k, v = "ok", fn()
                except Exception as e:
                    k, v = "raise", e
                finally:
                    af.armed = False
                env.ev(what, k, err(v) if k == "raise" else "")
                if af.fired > f0:
                    need(k == "raise" and isinstance(v, InjectedMemoryError), "error-swallowed",
                         "%s: an allocation failed, but got %s", what,
                         err(v) if k == "raise" else show(v))
                else:
                    check(k, v)
                unchanged(what)
    unchanged("all traversals")


# -- trees ----------------------------------------------------------------
def ref_order(t, i, order):
    out = []
    if order == "level_order":
        q = [i]
        for x in q:
            out.append(t[x])
            q.extend(y for y in (t[x].left, t[x].right) if y is not None)
        return out

    def go(x):
        if x is None:
            return
        if order == "pre_order":
            out.append(t[x])
        go(t[x].left)
        if order in ("in_order", "out_order"):
            out.append(t[x])
        go(t[x].right)
        if order == "post_order":
            out.append(t[x])
    go(i)
    return out[::-1] if order == "out_order" else out


def run_tree(case, env, classes):
    import pydatastructs as p
    T = getattr(p, case["tree"])()
    for op, k in case["ops"]:
        if op == "i":
            T.insert(k, k)
        else:
            T.delete(k)

    def look():
        t = T.tree
        return (T.root_idx, T.size, [None if t[i] is None else
                (t[i].key, t[i].data, t[i].left, t[i].right) for i in range(t.size)])
    before = look()
    B = p.BinaryTreeTraversal(T)
    live = [i for i in range(T.tree.size) if T.tree[i] is not None]
    empty = T.root_idx is None or T.tree[T.root_idx].key is None
    if empty:
        env.probe("empty_tree")
    elif max(live) >= len(live):
        env.probe("tree_with_gaps")
    jobs = []
    for order, node in case["jobs"]:
        start = None if node is None or T.root_idx is None else live[node % len(live)]
        at = T.root_idx if start is None else start
        want = [] if T.root_idx is None else ref_order(T.tree, at, order)
        what = "%s of %s from %s after %s" % (order, case["tree"], start, show(case["ops"]))

        def fn(order=order, start=start):
            if order == "level_order":
                return list(B.breadth_first_search(start))
            return list(B.depth_first_search(order, start))

        def check(k, v, what=what, want=want, order=order, start=start):
            need(k == "ok", "unexpected-error", "%s: %s", what, err(v) if k == "raise" else "")
            need(len(v) == len(want) and all(a is b for a, b in zip(v, want)), "wrong-order",
                 "%s: %s instead of %s", what, [x.key for x in v], [x.key for x in want])
            env.probe(order)
            if start is not None:
                env.probe("subtree")
        jobs.append((what, fn, None, check))

    def unchanged(what):
        need(look() == before, "tree-modified", "%s: the tree was %s, is %s", what, show(before),
             show(look()))
    perform(case, env, jobs, classes, unchanged)


# -- graphs ---------------------------------------------------------------
def cpp_snapshot(G, adj):
    vs = sorted(v if isinstance(v, str) else v.name for v in G.vertices) \
        if hasattr(G, "vertices") else None
    return vs, G.num_vertices(), G.num_edges(), \
        {u: sorted(v.name for v in G.neighbors(u)) for u in adj}


def run_graph(case, env, classes):
    import pydatastructs as p
    from pydatastructs.utils.misc_util import Backend
    g = case["g"]
    if not ok_graph(g) or any(j["src"] >= len(g["names"]) for j in case["jobs"]):
        return
    cpp = case["backend"] == "cpp"
    G = build_graph(g, case["impl"], weighted=False, backend=Backend.CPP if cpp else None)
    churn(G, g, case["churn"], weighted=False)
    adj = adjacency(g)
    look = (lambda: cpp_snapshot(G, adj)) if cpp else (lambda: snapshot(G))
    before = look()
    env.ev("graph", case["impl"], case["backend"], sorted(adj.items()))
    name = lambda v: v if isinstance(v, str) else v.name
    jobs = []

    def search(kind, src, op, *a, **k):
        f = p.depth_first_search if kind == "dfs" else p.breadth_first_search
        if cpp:
            return f(G, src, op, *a, backend=Backend.CPP, **k)
        return f(G, src, op, *a, **k)

    for j in case["jobs"]:
        src = "missing" if j["src"] < 0 else g["names"][j["src"]]
        what = "%s %s of %s %s from %s" % (case["backend"], j["kind"], case["impl"],
                                           show(sorted(adj.items())), src)
        st = {"n": 0, "fired": 0, "log": [], "after": 0}
        extra = list(range(j["nargs"]))
        kw = {"key": 7} if j["kw"] else {}

        def op(cur, nxt, *a, j=j, st=st, extra=extra, kw=kw, src=src, **k):
            if SCHED.active:
                SCHED.point()
            st["n"] += 1
            if list(a) != extra or k != kw:
                st["badargs"] = (a, k)
            if st["fired"] or st["log"] and not st["log"][-1][2]:
                st["after"] += 1
            if st["n"] == j["nest"]:
                env.probe("nested")
                inner = []
                try:
                    search(j["kind"], src, lambda c, x: inner.append((name(c), name(x))) or True)
                    st["inner"] = inner
                except InjectedMemoryError:
                    raise
            if st["n"] in j["raise_at"]:
                def fail(n=st["n"]):
                    st["fired"] += 1
                    env.fault("callback_raise")
                    raise InjectedError(n)
                return bad_answer(fail)
            ret = True
            if st["n"] in j["false_at"]:
                env.fault("callback_cancel")
                ret = j["falsy"]
            st["log"].append((name(cur), name(nxt), bool(ret)))
            return truth(ret)

        def fn(j=j, src=src, op=op, extra=extra, kw=kw):
            return search(j["kind"], src, op, *extra, **kw)

        def check(k, v, what=what, st=st, src=src, j=j):
            env.ev(st["log"])
            if src == "missing":
                need(k == "raise" and isinstance(v, (KeyError, ValueError, AttributeError,
                                                     InjectedError)) or
                     k == "ok" and all(x[:2] == (src, "") for x in st["log"]),
                     "missing-source", "%s: the source is no vertex, but got %s", what,
                     err(v) if k == "raise" else "visits of %s" % show(st["log"]))
                env.probe("missing_source")
                return
            need("badargs" not in st, "wrong-arguments", "%s: arguments not passed on: %s", what,
                 st.get("badargs"))
            need(not st["after"], "not-stopped", "%s: the visitor was called again after it "
                 "stopped the search: %s", what, show(st["log"]))
            if st["fired"]:
                need(k == "raise" and isinstance(v, InjectedError), "error-swallowed",
                     "%s: the visitor raised, the caller got %s", what,
                     err(v) if k == "raise" else "a normal return")
            else:
                need(k == "ok", "unexpected-error", "%s: %s", what, err(v) if k == "raise" else "")
            judge(what, st["log"], src, j["kind"], adj, cpp)
            cancelled = any(not x[2] for x in st["log"])
            if not st["fired"] and not cancelled:
                complete(what, st["log"], src, adj, cpp)
                env.probe("complete")
            env.probe(("cpp_" if cpp else "") + j["kind"] +
                      ("_matrix" if cpp and case["impl"] == "adjacency_matrix" else ""))
            if "inner" in st:
                log = [x + (True,) for x in st["inner"]]
                judge("nested " + what, log, src, j["kind"], adj, cpp)
                complete("nested " + what, log, src, adj, cpp)
        jobs.append((what, fn, st, check))

    def unchanged(what):
        need(look() == before, "graph-modified", "%s: the graph was %s, is %s", what,
             show(before), show(look()))
    perform(case, env, jobs, classes, unchanged)


def judge(what, log, src, kind, adj, cpp):
    """Every call is a tree edge to a vertex not yet seen, or a leaf."""
    d = {src: 0}
    want = depths(adj, src)
    last = 0
    left = set()
    current = None
    for cur, nxt, ok in log:
        need(cur in d, "unreachable", "%s: %s expanded before it was reached: %s", what, cur,
             show(log))
        if cur != current:
            need(cur not in left, "expanded-twice", "%s: %s expanded twice: %s", what, cur,
                 show(log))
            left.add(current)
            current = cur
        if nxt == "":
            need(not cpp and not adj[cur], "spurious-leaf", "%s: %s was reported as a vertex "
                 "without neighbours", what, cur)
        else:
            need(nxt in adj[cur], "no-such-edge", "%s: visitor got (%s, %s)", what, cur, nxt)
            need(nxt not in d, "visited-twice", "%s: %s visited twice: %s", what, nxt, show(log))
            d[nxt] = d[cur] + 1
        if kind == "bfs":
            need(d[cur] == want[cur] and d[cur] >= last, "layer-order",
                 "%s: %s at distance %d expanded after distance %d: %s", what, cur, want[cur],
                 last, show(log))
            last = d[cur]


def complete(what, log, src, adj, cpp):
    want = set(depths(adj, src)) - {src}
    got = [n for _, n, _ in log if n]
    need(sorted(got) == sorted(want), "incomplete", "%s: visited %s instead of %s", what,
         sorted(got), sorted(want))
    if not cpp:
        leaves = sorted(c for c, n, _ in log if not n)
        exp = sorted(v for v in want | {src} if not adj[v])
        need(leaves == exp, "incomplete", "%s: leaves reported %s instead of %s", what, leaves, exp)
