"""P09: heaps and priority queues under failing comparisons and allocations."""
from core import need, truth, bad_answer, AllocFault, CallFault, InjectedError, InjectedMemoryError, pick_faults
from scen.common import err, filled, show, size

META = {
    "truth": True,
    "rule": "A run draws a heap (d-ary for d 2..6, binary, ternary, min or max, binomial) or a "
            "priority queue (linked list, binary heap with a drawn comparator, binomial heap) and "
            "a history of insertions, extractions, peeks, decrease-key, deletions and merges over "
            "keys with ties; in most runs chosen key comparisons raise or chosen allocations "
            "fail.",
    "quick_runs": 40000, "block": 1000, "quick_wall": 200, "thorough_wall": 300,
    "real": ["DHeap, BinaryHeap, TernaryHeap, BinomialHeap, BinomialTree",
             "PriorityQueue (linked_list, binary_heap, binomial_heap)"],
    "stub": ["key comparison and comparator (can fail on demand)", "allocation of nodes, trees "
             "and arrays (can fail on demand)"],
    "must_probe": ["allocation_failed", "comparison_failed", "emptied", "pop_empty", "merged",
                   "tie"],
}
KINDS = ["dheap", "dheap", "binary", "ternary", "binomial", "binomial", "pq-linked_list",
         "pq-binary_heap", "pq-binomial_heap"]


class K(object):
    """A key whose comparisons go through the simulator."""
    ctl = None
    __slots__ = ["k"]

    def __init__(self, k):
        self.k = k

    def _hit(self, answer):
        c = K.ctl
        if c["on"]:
            c["n"] += 1
            if c["n"] in c["at"]:
                def fail(n=c["n"]):
                    c["fired"] += 1
                    c["env"].fault("comparison_failed")
                    raise InjectedError(n)
                return bad_answer(fail)
        return truth(answer)

    def __lt__(self, o):
        return self._hit(self.k < o.k)

    def __le__(self, o):
        return self._hit(self.k <= o.k)

    def __gt__(self, o):
        return self._hit(self.k > o.k)

    def __ge__(self, o):
        return self._hit(self.k >= o.k)

    def __eq__(self, o):
        return isinstance(o, K) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __sub__(self, o):
        return K(self.k - o)

    def __repr__(self):
        return "K%s" % self.k


def gen(rng, tier):
    n = size(rng, [4, 8, 16, 32, 60], (61, 200), .03)
    uni = rng.choice([2, 5, 20, 100])
    p = rng.choice([.4, .55, .7])
    ops = []
    for i in range(n):
        x = rng.random()
        if x < p:
            ops.append(["ins", rng.randrange(uni), 0])
        elif x < p + .25:
            ops.append(["ext", 0, 0])
        elif x < p + .3:
            ops.append(["peek", 0, 0])
        elif x < p + .35:
            ops.append(["dec", rng.randrange(1, 40), rng.randrange(60)])
        elif x < p + .38:
            ops.append(["del", 0, rng.randrange(60)])
        elif x < p + .4:
            ops.append(["merge", rng.randrange(1 << 20), size(rng, [0, 1, 2, 3, 7], (8, 40), .1)])
        else:
            ops.append([rng.choice(["ins", "ext"]), rng.randrange(uni), 0])
    case = {"kind": rng.choice(KINDS), "d": rng.choice([2, 3, 4, 5, 6, 9]), "max": rng.random() < .4,
            "form": rng.choice(["list", "list", "tuple", "array", "dynamic"]),
            "init": [rng.randrange(uni) for _ in range(size(rng, [0, 0, 1, 2, 5, 9, 20], (21, 120)))],
            "ops": ops, "cmp_at": [], "alloc_at": []}
    x = rng.random()
    if x < .4:
        case["cmp_at"] = pick_faults(rng, 1, n * 4, rng.choice([1, 2, 4]))
    if n > 60 and case["kind"] in ("binomial", "pq-binomial_heap") and x > .5:
        ops[:0] = [["ins", rng.randrange(uni), 0] for _ in range(rng.randrange(40, 100))]
    if x > .3 and x < .7:
        case["alloc_at"] = pick_faults(rng, 1, n * 2, rng.choice([1, 2, 4]))
    return case


def run(case, env):
    from pydatastructs import DHeap, BinaryHeap, TernaryHeap, BinomialHeap, PriorityQueue
    from pydatastructs.linear_data_structures.arrays import OneDimensionalArray, \
        DynamicOneDimensionalArray
    from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
    from pydatastructs.utils.misc_util import LinkedListNode, TreeNode, BinomialTreeNode
    kind, mx, d = case["kind"], bool(case["max"]), case["d"]
    if kind not in KINDS or d < 2:
        return
    K.ctl = ctl = {"on": False, "at": set(case["cmp_at"]), "n": 0, "env": env, "fired": 0}
    model = {}                       # id -> key
    uid = 0
    pq = kind.startswith("pq")
    if kind in ("binomial", "pq-binomial_heap"):
        mx = False
    comp = CallFault(env, (lambda u, v: u.k > v.k) if mx else (lambda u, v: u.k < v.k),
                     case["cmp_at"], "comparison_failed", truthy=True)
    comp.armed = False
    if kind in ("dheap", "binary", "ternary"):
        cls = {"dheap": DHeap, "binary": BinaryHeap, "ternary": TernaryHeap}[kind]
        d = {"dheap": d, "binary": 2, "ternary": 3}[kind]
        kw = {"heap_property": "max" if mx else "min"}
        if kind == "dheap":
            kw["d"] = d
        if case["init"]:
            nodes = []
            for k in case["init"]:
                uid += 1
                model[uid] = k
                nodes.append(TreeNode(K(k), uid))
            form = case.get("form", "list")
            if form == "list":
                kw["elements"] = nodes
            elif form == "tuple":
                kw["elements"] = tuple(nodes)
            elif form == "array":
                kw["elements"] = given = OneDimensionalArray(TreeNode, len(nodes) + 2)
                for i, x in enumerate(nodes):
                    given[i + (i > 1) + (i > 3)] = x
            else:
                kw["elements"] = given = DynamicOneDimensionalArray(TreeNode, 0)
                for x in nodes:
                    given.append(x)
        h = cls(**kw)
        if "elements" in kw:        # they are the caller's, who may use the list for others
            given = kw["elements"]
            if type(given) is list:
                need(len(given) == len(case["init"]), "input-changed",
                     "the list given to the constructor now has %d elements", len(given))
                del given[:]
            elif type(given) is not tuple:
                need(sum(1 for i in range(len(given)) if given[i] is not None) ==
                     len(case["init"]), "input-changed",
                     "the array given to the constructor lost or gained elements")
                for i in range(len(given)):
                    given[i] = None
    elif kind == "binomial":
        h = BinomialHeap()
    elif kind == "pq-binary_heap" or kind == "pq-linked_list":
        h = PriorityQueue(implementation=kind[3:], comp=comp)
    else:
        h = PriorityQueue(implementation="binomial_heap")

    def content():
        if kind in ("dheap", "binary", "ternary"):
            n = len(model)
            arr = [(x.key.k, x.data) for x in filled(h.heap)]
            for i in range(1, len(arr)):
                a, b = arr[(i - 1) // d][0], arr[i][0]
                need(a >= b if mx else a <= b, "heap-order",
                     "after %s: element %d of %s is out of heap order (d=%d, %s)", what, i,
                     show(arr), d, "max" if mx else "min")
            want = str([(K(k), i, list(range(d * j + 1, min(d * j + d, len(arr) - 1) + 1)))
                        for j, (k, i) in enumerate(arr)])
            need(str(h) == want, "wrong-str", "after %s: str %s, expected %s", what, str(h), want)
            return arr
        if kind == "binomial" or kind == "pq-binomial_heap":
            return [(n.key.k, n.data) for n in bnodes(h if not pq else h.items)]
        if kind == "pq-linked_list":
            return [(n.key.k, n.data) for n in [h.items[i] for i in range(h.items.size)]]
        return [(x.key.k, x.data) for x in filled(h.items.heap)]

    def bnodes(hb):
        out = []
        orders = []
        for t in hb.root_list:
            need(t.root.is_root is True, "tree-shape", "after %s: a root is not marked as root",
                 what)
            orders.append(t.order)
            size = [0]
            walk(t.root, out, size, 0)
            need(size[0] == 2 ** t.order, "tree-shape",
                 "after %s: a tree of order %s has %d nodes", what, t.order, size[0])
        need(len(set(orders)) == len(orders), "tree-shape",
             "after %s: several trees of one order, %s", what, orders)
        return out

    def walk(n, out, size, depth):
        need(depth < 40, "tree-shape", "after %s: endless tree", what)
        out.append(n)
        size[0] += 1
        for i in range(len(n.children)):
            c = n.children[i]
            if c is not None:
                need(c.parent is n and c.is_root is False, "tree-shape",
                     "after %s: a child does not point back to its parent", what)
                need(n.key.k <= c.key.k, "heap-order", "after %s: child %s below parent %s", what,
                     c.key, n.key)
                walk(c, out, size, depth + 1)

    def verify(what):
        need(h.is_empty == (not model), "wrong-empty", "after %s: is_empty is %s with %d elements",
             what, h.is_empty, len(model))
        got = sorted(content(), key=lambda x: x[1])
        want = sorted(((k, i) for i, k in model.items()), key=lambda x: x[1])
        need(got == want, "wrong-contents", "after %s: holds %s, expected %s", what, show(got),
             show(want))
        if model and kind not in ("dheap", "binary", "ternary"):
            node = h.peek if pq else h.find_minimum()
            check_ext(node.key.k, node.data, "peek after " + what)

    def check_ext(k, i, what):
        best = max(model.values()) if mx else min(model.values())
        need(model.get(i) == k, "unknown-element", "%s: got (%s, %s) which is not in it", what, k,
             i)
        need(k == best, "not-extremal", "%s: got key %s, the best is %s of %s", what, k, best,
             show(sorted(model.values())))
        if sum(1 for x in model.values() if x == best) > 1:
            env.probe("tie")
    what = "construction"
    verify(what)
    classes = [OneDimensionalArray, LinkedListNode, TreeNode, BinomialTreeNode, BinomialTree,
               BinomialHeap]
    ops = list(case["ops"])
    with AllocFault(env, classes, case["alloc_at"]) as af:
        i = 0
        drained = False
        while True:
            if i == len(ops):
                if drained:
                    break
                drained = True
                ops.extend([["ext", 0, 0]] * (len(model) + 1))
                ctl["at"] = set()
                comp.at = set()
                af.at = set()
                continue
            op, a, b = ops[i]
            i += 1
            if op in ("dec", "del", "merge") and kind != "binomial":
                continue
            node = other = None
            new = {}
            if op in ("dec", "del"):
                ns = bnodes(h)
                if not ns:
                    continue
                node = ns[b % len(ns)]
                nk, nid = node.key.k, node.data
            if op == "merge":
                import random
                r = random.Random(a)
                other = BinomialHeap()
                for _ in range(b):
                    uid += 1
                    new[uid] = r.randrange(30)
                    other.insert(K(new[uid]), uid)
            what = "%s(%s) on %s of %s" % (op, a if op in ("ins", "dec") else "", kind,
                                           show(sorted(model.values())))
            env.nops += 1
            f0 = af.fired + ctl["fired"] + comp.fired
            key = None
            if op == "ins":
                uid += 1
                key = K(a)
            elif op == "dec":
                key = K(nk - a)
            af.armed = ctl["on"] = comp.armed = True
            try:
                if op == "ins":
                    out = h.push(uid, key) if pq else h.insert(key, uid)
                elif op == "ext":
                    if pq:
                        out = h.pop()
                    elif kind == "binomial":
                        m = h.find_minimum()
                        h.delete_minimum()
                        out = m
                    else:
                        out = h.extract()
                elif op == "peek":
                    if pq:
                        out = h.peek
                    elif kind == "binomial":
                        out = h.find_minimum()
                    else:
                        out = None
                elif op == "dec":
                    out = h.decrease_key(node, key)
                elif op == "del":
                    out = h.delete(node)
                else:
                    out = h.merge(other)
                k = "ok"
            except Exception as e:
                k, out = "raise", e
            finally:
                af.armed = ctl["on"] = comp.armed = False
            env.ev(op, a, k, err(out) if k == "raise" else "")
            if af.fired + ctl["fired"] + comp.fired > f0:
                need(k == "raise" and isinstance(out, (InjectedMemoryError, InjectedError)),
                     "fault-swallowed", "%s: injected failure, but got %s", what, show(out))
                if op == "merge":
                    # the other heap still has its elements as well
                    model0, model = model, new
                    got = sorted((n.data, n.key.k) for n in bnodes(other))
                    need(got == sorted(new.items()), "wrong-contents",
                         "after %s failed, the other heap holds %s, expected %s", what, show(got),
                         show(sorted(new.items())))
                    model = model0
            elif op == "ins":
                need(k == "ok", "unexpected-error", "%s: %s", what,
                     err(out) if k == "raise" else "")
                model[uid] = a
            elif op == "peek" and model:
                need(k == "ok", "unexpected-error", "%s: %s", what,
                     err(out) if k == "raise" else "")
                if out is not None:
                    check_ext(out.key.k, out.data, what)
            elif op in ("ext", "peek"):
                if not model:
                    if op == "ext" or out is not None:
                        env.probe("pop_empty")
                        need(k == "raise" and isinstance(out, IndexError), "pop-empty",
                             "%s: expected IndexError, got %s", what, show(out))
                else:
                    need(k == "ok", "unexpected-error", "%s: %s", what,
                         err(out) if k == "raise" else "")
                    if pq:
                        check_ext(model.get(out), out, what)
                        del model[out]
                    else:
                        check_ext(out.key.k, out.data, what)
                        del model[out.data]
                    if not model:
                        env.probe("emptied")
            else:
                need(k == "ok", "unexpected-error", "%s: %s", what,
                     err(out) if k == "raise" else "")
                if op == "dec":
                    model[nid] = nk - a
                elif op == "del":
                    del model[nid]
                else:
                    model.update(new)
                    env.probe("merged")
            # large heaps are not looked at after every single step
            if i % (1 + len(model) // 24) == 0 or af.fired + ctl["fired"] + comp.fired > f0:
                verify(what)
    K.ctl = None
