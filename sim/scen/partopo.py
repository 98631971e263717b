"""P05: parallel topological sort under every schedule and failing thread starts."""
from core import need, gen_sched
from scen.common import err, show, size
from scen.graphs_common import gen_graph, ok_graph, adjacency, build_graph, has_cycle, churn
from simthread import SCHED, START_FAILURE

META = {
    "rule": "A run draws a directed graph (acyclic in two thirds of the runs, otherwise with "
            "cycles), weighted edges or not, a worker count, a scheduling policy and hash seed "
            "and, in 35% of the runs, thread starts that fail.",
    "quick_runs": 8000, "block": 100, "quick_wall": 240, "thorough_wall": 400,
    "real": ["topological_sort_parallel and the adjacency list graph it consumes",
             "CPython's ThreadPoolExecutor, queue, threading on the simulated _thread"],
    "stub": ["_thread (locks, thread start, thread choice)", "string hashing"],
    "must_probe": ["thread_start_failed", "order_ok", "cycle_reported", "more_than_one_worker"],
}


def gen(rng, tier):
    g = gen_graph(rng, size(rng, [9, 9, 9, 9, 14], (15, 28), .02), directed=True, dag=rng.random() < .67)
    return {"g": g, "weighted": rng.random() < .5, "threads": rng.choice([1, 2, 2, 3, 4, 8]),
            "churn": [[rng.choice(["vertex", "edge", "ghost", "again"]), rng.randrange(20)]
                      for _ in range(rng.choice([0, 0, 1, 3]))],
            "scheds": [gen_sched(rng, start_fail=rng.random() < .35)]}


def run(case, env):
    from pydatastructs import topological_sort_parallel
    g = case["g"]
    if not ok_graph(g) or case["threads"] < 1 or not g["directed"]:
        return
    G = build_graph(g, "adjacency_list", weighted=case["weighted"])
    churn(G, g, case["churn"], weighted=case["weighted"])
    adj = adjacency(g)
    env.nops += 1
    what = "parallel Kahn (%d workers) on %s" % (case["threads"], show(sorted(adj.items())))
    env.ev("job", what)
    kind, val = env.simulate(case["scheds"][0], lambda: topological_sort_parallel(
        G, "kahn", case["threads"]))
    cyc = has_cycle(adj)
    env.ev("out", kind, err(val) if kind == "raise" else list(val))
    if env.max_alive > 2:
        env.probe("more_than_one_worker")
    if kind == "raise":
        if isinstance(val, RuntimeError) and START_FAILURE in str(val) and SCHED.start_failures:
            env.probe("start_failure_reached_caller")
            return
        need(isinstance(val, ValueError) and cyc, "unexpected-error", "%s: raised %s", what,
             err(val))
        env.probe("cycle_reported")
        return
    need(not cyc, "cycle-not-reported", "%s: graph is cyclic but %s was returned", what, show(val))
    need(sorted(val) == sorted(g["names"]), "not-a-permutation",
         "%s: result %s is not a permutation of the vertices", what, show(val))
    pos = {v: i for i, v in enumerate(val)}
    for u in adj:
        for v in adj[u]:
            need(pos[u] < pos[v], "wrong-order", "%s: edge %s->%s but order %s", what, u, v,
                 show(val))
    env.probe("order_ok")
