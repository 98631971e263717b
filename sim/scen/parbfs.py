"""P03: parallel breadth first search under every schedule, hash order, visitor
cancellation, visitor failure and failing thread starts."""
from core import need, truth, bad_answer, InjectedError, pick_faults, gen_sched
from scen.common import err, run_threads, show, size
from scen.graphs_common import gen_graph, ok_graph, adjacency, build_graph, snapshot, depths, \
    churn
from simthread import SCHED, START_FAILURE

META = {
    "truth": True,
    "rule": "A run draws a graph (directed or not, cyclic, disconnected, layered; list or matrix "
            "representation), a source, a worker count, one or two caller threads sharing the "
            "graph, a scheduling policy and hash seed and, in over half of the runs, a visitor "
            "that raises or answers false at drawn calls or thread starts that fail.",
    "quick_runs": 8000, "block": 100, "quick_wall": 240, "thorough_wall": 400,
    "real": ["breadth_first_search_parallel, graph containers", "CPython's ThreadPoolExecutor, "
             "queue and threading on top of the simulated _thread"],
    "stub": ["_thread (locks, thread start, thread choice)", "string hashing: PYTHONHASHSEED "
             "chosen per block"],
    "must_probe": ["callback_raise", "callback_cancel", "thread_start_failed", "cyclic_graph",
                   "layer_with_several_vertices", "two_callers"],
}


def gen(rng, tier):
    g = gen_graph(rng, size(rng, [8, 8, 8, 8, 13], (15, 28), .02))
    mode = rng.choice(["none", "none", "raise", "cancel", "cancel", "start"])
    n = len(g["names"])
    nc = 2 if rng.random() < .2 else 1
    callers = []
    for _ in range(nc):
        callers.append({"src": rng.randrange(n), "threads": rng.choice([1, 2, 3, 4, 8]),
                        "nargs": rng.choice([0, 0, 1, 2]),
                        "raise_at": pick_faults(rng, 1, max(1, n)) if mode == "raise" else [],
                        "false_at": pick_faults(rng, 1, max(1, n), rng.choice([1, 1, 2]))
                        if mode == "cancel" else [],
                        "falsy": rng.choice([False, False, None, 0])})
    return {"g": g, "impl": rng.choice(["adjacency_list", "adjacency_matrix"]),
            "churn": [[rng.choice(["vertex", "edge", "ghost", "again"]), rng.randrange(20)]
                      for _ in range(rng.choice([0, 0, 1, 3]))],
            "callers": callers, "scheds": [gen_sched(rng, start_fail=(mode == "start"))]}


def run(case, env):
    from pydatastructs import breadth_first_search_parallel
    g = case["g"]
    if not ok_graph(g) or any(c["src"] >= len(g["names"]) or c["threads"] < 1
                              for c in case["callers"]):
        return
    G = build_graph(g, case["impl"], weighted=False)
    churn(G, g, case["churn"], weighted=False)
    before = snapshot(G)
    adj = adjacency(g)
    env.ev("graph", case["impl"], sorted(adj.items()))
    bodies, logs, states = [], [], []
    for c in case["callers"]:
        log = []
        st = {"n": 0, "fired": 0, "cancelled": 0}
        extra = list(range(c["nargs"]))

        def op(cur, nxt, *a, c=c, log=log, st=st, extra=extra):
            if SCHED.active:
                SCHED.point()
            st["n"] += 1
            if list(a) != extra:
                st["badargs"] = a
            if st["n"] in c["raise_at"]:
                def fail(n=st["n"]):
                    st["fired"] += 1
                    env.fault("callback_raise")
                    raise InjectedError(n)
                return bad_answer(fail)
            ret = True
            if st["n"] in c["false_at"]:
                st["cancelled"] += 1
                env.fault("callback_cancel")
                ret = c["falsy"]
            log.append((cur, nxt, bool(ret)))
            return truth(ret)
        src = g["names"][c["src"]]
        logs.append(log)
        states.append(st)
        bodies.append(lambda src=src, c=c, op=op, extra=extra:
                      breadth_first_search_parallel(G, src, c["threads"], op, *extra))
    env.nops += len(bodies)
    if len(bodies) == 1:
        outs = [env.simulate(case["scheds"][0], bodies[0])]
    else:
        env.probe("two_callers")
        outs = run_threads(env, case["scheds"][0], bodies)
    sf = SCHED.start_failures
    need(snapshot(G) == before, "graph-modified", "the graph changed during the traversal")
    for c, log, st, (kind, val) in zip(case["callers"], logs, states, outs):
        src = g["names"][c["src"]]
        d = depths(adj, src)
        what = "parallel BFS from %s of %s (%d workers)" % (src, show(sorted(adj.items())),
                                                           c["threads"])
        env.ev("out", kind, err(val) if kind == "raise" else None, log)
        need("badargs" not in st, "wrong-arguments", "%s: extra arguments not passed on: %r",
             what, st.get("badargs"))
        seen = {}
        layer = 0
        stop_after = None
        for cur, nxt, ok in log:
            need(cur in d, "unreachable", "%s: visitor called for unreachable %s", what, cur)
            need(d[cur] >= layer, "layer-order", "%s: %s (distance %d) expanded after distance "
                 "%d: %s", what, cur, d[cur], layer, show(log))
            layer = d[cur]
            need(stop_after is None or layer <= stop_after, "not-cancelled",
                 "%s: the visitor answered false at distance %s but distance %d was still "
                 "expanded: %s", what, stop_after, layer, show(log))
            if nxt == "":
                need(not adj[cur], "spurious-leaf", "%s: %s has neighbours but was reported "
                     "without", what, cur)
                key = ("leaf", cur)
            else:
                need(nxt in adj[cur], "no-such-edge", "%s: visitor got (%s, %s)", what, cur, nxt)
                need(d.get(nxt) == d[cur] + 1 and nxt != src, "revisit",
                     "%s: %s reached again from %s: %s", what, nxt, cur, show(log))
                key = ("vertex", nxt)
            need(key not in seen, "visited-twice", "%s: %s visited twice: %s", what, key, show(log))
            seen[key] = 1
            if not ok and stop_after is None:
                stop_after = layer
        if st["fired"]:
            need(kind == "raise" and (isinstance(val, InjectedError) or
                 sf and isinstance(val, RuntimeError) and START_FAILURE in str(val)),
                 "error-swallowed",
                 "%s: the visitor raised, the caller got %s", what,
                 err(val) if kind == "raise" else "a normal return")
            continue
        if kind == "raise":
            need(sf and isinstance(val, RuntimeError) and START_FAILURE in str(val),
                 "unexpected-error", "%s: raised %s", what, err(val))
            env.probe("start_failure_reached_caller")
            continue
        if stop_after is None:
            want = set(("vertex", v) for v in d if v != src) | \
                set(("leaf", v) for v in d if not adj[v])
            need(set(seen) == want, "incomplete", "%s: visited %s, expected %s", what,
                 show(sorted(seen)), show(sorted(want)))
            env.probe("complete_traversal")
        else:
            env.probe("cancelled_traversal")
        if any(v in d and src in adj[v] for v in d):
            env.probe("cyclic_graph")
        ks = list(d.values())
        if any(ks.count(k) > 1 for k in set(ks)):
            env.probe("layer_with_several_vertices")
