"""P04: parallel minimum spanning trees under every schedule and failing thread
starts."""
from core import need, gen_sched
from scen.common import err, show, size
from scen.graphs_common import (gen_graph, ok_graph, adjacency, weights, build_graph, snapshot,
                                component, mst_weight, UF, churn, change_tree)
from simthread import SCHED, START_FAILURE

META = {
    "rule": "A run draws an undirected weighted graph (ties, costs of zero and below, "
            "disconnected, single vertex and edgeless included, with a history of edges and "
            "vertices that came and went), Kruskal (list, matrix) or Prim (list), a worker count, a "
            "scheduling policy and hash seed and, in 40% of the runs, thread starts that fail.",
    "quick_runs": 6000, "block": 100, "quick_wall": 240, "thorough_wall": 400,
    "real": ["minimum_spanning_tree_parallel with the parallel merge sort, disjoint sets, "
             "binomial-heap priority queue and graph containers it uses",
             "CPython's ThreadPoolExecutor, queue, threading on the simulated _thread"],
    "stub": ["_thread (locks, thread start, thread choice)", "string hashing"],
    "must_probe": ["thread_start_failed", "disconnected", "kruskal_adjacency_list",
                   "kruskal_adjacency_matrix", "prim_adjacency_list"],
}


def gen(rng, tier):
    g = gen_graph(rng, size(rng, [7, 7, 7, 7, 11], (15, 28), .02), directed=False,
                  connected=rng.random() < .5)
    if rng.random() < .35:              # costs of zero and below are costs, too
        by = rng.choice([1, 1, 2, 5, 9, 60])
        for e in g["edges"]:
            e[2] -= by
    elif rng.random() < .2:
        for e in g["edges"]:
            e[2] = 0 if rng.random() < .4 else e[2]
    if rng.random() < .1:
        for e in g["edges"]:
            e[2] = e[2] / 4             # sums stay exact
    alg = rng.choice(["kruskal", "kruskal", "prim", "prim"])
    impl = "adjacency_list" if alg == "prim" else rng.choice(["adjacency_list", "adjacency_matrix"])
    return {"g": g, "alg": alg, "impl": impl, "threads": rng.choice([1, 2, 3, 4, 6]),
            "churn": [[rng.choice(["vertex", "edge", "ghost", "again"]), rng.randrange(20)]
                      for _ in range(rng.choice([0, 0, 1, 3]))],
            "scheds": [gen_sched(rng, start_fail=rng.random() < .4)]}


def run(case, env):
    from pydatastructs import minimum_spanning_tree_parallel
    g = case["g"]
    if not ok_graph(g) or case["threads"] < 1 or g["directed"] or any(
            a == b for a, b, _ in g["edges"]):
        return
    G = build_graph(g, case["impl"], data=True)
    churn(G, g, case["churn"], data=True)
    before = snapshot(G)
    adj, wt = adjacency(g), weights(g)
    alg = case["alg"]
    env.probe(alg + "_" + case["impl"])
    env.nops += 1
    what = "parallel %s (%s, %d workers) on %s" % (alg, case["impl"], case["threads"],
                                                  show(sorted(wt.items())))
    env.ev("job", what)
    kind, val = env.simulate(case["scheds"][0], lambda: minimum_spanning_tree_parallel(
        G, alg, case["threads"]))
    need(snapshot(G) == before, "graph-modified", "%s: the input graph changed", what)
    if kind == "raise":
        env.ev("raise", err(val))
        need(SCHED.start_failures and isinstance(val, RuntimeError) and
             START_FAILURE in str(val), "unexpected-error", "%s: raised %s", what, err(val))
        env.probe("start_failure_reached_caller")
        return
    check_mst(val, g, adj, wt, alg, what, env)
    for v in sorted(val.vertices):
        need(getattr(val, v).data == "data of " + v, "wrong-data", "%s: %s has data %s", what, v,
             show(getattr(val, v).data))
    change_tree(val)
    need(snapshot(G) == before, "shared-state", "%s: a change of the tree changed the graph: %s", what,
         show(snapshot(G)))


def check_mst(mst, g, adj, wt, alg, what, env):
    names = g["names"]
    comp = component(adj, names[0]) if alg == "prim" else set(names)
    env.ev("mst", sorted((k, e.value) for k, e in mst.edge_weights.items()))
    need(sorted(mst.vertices) == sorted(comp), "wrong-vertices",
         "%s: tree has vertices %s, expected %s", what, sorted(mst.vertices), sorted(comp))
    und = {}
    for k, e in mst.edge_weights.items():
        u, v = e.source.name, e.target.name
        need((u, v) in wt and wt[u, v] == e.value, "foreign-edge",
             "%s: tree edge %s-%s (%s) is not an edge of the graph", what, u, v, e.value)
        und[tuple(sorted((u, v)))] = e.value
        rev = mst.get_edge(v, u)
        need(rev is not None and rev.value == e.value, "asymmetric",
             "%s: edge %s-%s present in one direction only", what, u, v)
    for v in sorted(comp):
        want = sorted(b if a == v else a for a, b in und if v in (a, b))
        need(sorted(x.name for x in mst.neighbors(v)) == want, "wrong-adjacency",
             "%s: in the tree %s is adjacent to %s but its tree edges lead to %s", what, v,
             sorted(x.name for x in mst.neighbors(v)), want)
    uf = UF(comp)
    for u, v in sorted(und):
        need(uf.union(u, v), "cycle", "%s: the tree has a cycle through %s-%s", what, u, v)
    w, cnt = mst_weight(sorted(comp), {(u, v): x for (u, v), x in wt.items()
                                       if u in comp and v in comp})
    need(len(und) == cnt, "not-spanning", "%s: %d edges instead of %d", what, len(und), cnt)
    need(sum(und.values()) == w, "not-minimum", "%s: weight %s instead of %s: %s", what,
         sum(und.values()), w, show(sorted(und.items())))
    env.probe("minimum_ok")
    if len(component(adj, names[0])) < len(names):
        env.probe("disconnected")
