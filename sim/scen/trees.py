"""P10: search trees are ordered maps under failing comparisons and allocations
and for every stream of treap priorities."""
import random

from core import (need, truth, Truth, AllocFault, CallFault, InjectedError, InjectedMemoryError, RandomSeam,
                  RANDOM_MODES, pick_faults)
from native import NATIVE
from scen.common import err, show, stock_recursion_limit

META = {
    "truth": True,
    "rule": "A run draws a search tree (plain, AVL, red-black, splay, Cartesian, treap), a "
            "comparator, a key type and a history of insertions, overwrites, deletions, lookups, "
            "bounds, order statistics, ancestors, traversals, splits and joins; in most runs chosen "
            "comparisons raise or chosen allocations fail; treap priorities come from a drawn "
            "stream. A few trees are chains of more than a thousand keys.",
    "quick_runs": 100000, "block": 500, "quick_wall": 240, "thorough_wall": 400,
    "real": ["BinarySearchTree, AVLTree, RedBlackTree, SplayTree, CartesianTree, Treap (Python)",
             "ArrayForTrees", "BinaryTreeTraversal"],
    "stub": ["comparator (can fail on demand)", "allocation of nodes and arrays (can fail on "
             "demand)", "random (treap priorities come from the simulator)"],
    "must_probe": ["allocation_failed", "comparison_failed", "emptied", "overwritten",
                   "missing_key", "refilled", "root_deleted", "split", "joined", "traversed",
                   "large", "trimmed", "deep"],
}
KINDS = ["bst", "bst", "avl", "avl", "rb", "rb", "splay", "splay", "cartesian", "treap", "treap"]


def gen(rng, tier, backend="python"):
    if rng.random() < .0004:
        return {"backend": backend, "deep": [rng.choice(["bst", "bst", "cartesian"]),
                                             rng.choice([1010, 1060]), rng.randrange(1 << 20)],
                "comp": rng.choice(["default", "greater"]), "order_stat": rng.random() < .5}
    n = rng.choice([4, 8, 16, 32, 64])
    uni = rng.choice([3, 6, 12, 30])
    p = rng.choice([.4, .5, .6])
    wave = rng.random() < .5
    ops = []
    big = rng.random() < .02
    if big:
        # more nodes than a small tree has positions, most of them deleted again
        n = rng.choice([4, 8, 16])
        uni = 600
        ops.append(["fill", rng.choice([120, 280, 300, 520]), rng.randrange(1 << 20)])
    for i in range(n):
        if big and rng.random() < .2:
            ops.append([rng.choice(["fill", "trim", "trim"]), rng.choice([30, 100, 250]),
                        rng.randrange(1 << 20)])
        if wave and i % 8 == 0:
            p = rng.choice([.1, .4, .85])
        x = rng.random()
        k = rng.randrange(uni)
        if x < p * .85:
            ops.append(["ins", k, rng.randrange(12)])
        elif x < .85:
            ops.append(["del", k, rng.random() < .3])
        else:
            ops.append([rng.choice(["find", "lower", "upper", "select", "rank", "lca1", "lca2",
                                    "split", "join", "str", "trav"]), k, rng.randrange(uni)])
    case = {"backend": backend, "kind": rng.choice(KINDS), "comp": rng.choice(["default", "less", "greater"]),
            "keys": rng.choice(["int", "big", "str", "float", "plain"]), "order_stat": rng.random() < .5,
            "root": rng.random() < .3,
            "ops": ops, "cmp_at": [], "alloc_at": [],
            "rand": [rng.choice(RANDOM_MODES), rng.randrange(1 << 30)]}
    x = rng.random()
    if x < .4:
        case["comp"] = rng.choice(["less", "greater"])
        case["cmp_at"] = pick_faults(rng, 1, n * 4, rng.choice([1, 2, 4]))
    if x > .3 and x < .7:
        case["alloc_at"] = pick_faults(rng, 1, n * 2, rng.choice([1, 2, 4]))
    return case


SLACK = 3


class Unhashable(int):
    """Keys have to be ordered, nothing more."""
    armed = False

    def __hash__(self):
        if Unhashable.armed:
            raise TypeError("unhashable key")
        return int.__hash__(self)

    def __lt__(self, o):
        return truth(int.__lt__(self, o))

    def __gt__(self, o):
        return truth(int.__gt__(self, o))


KEY = {"plain": Unhashable, "int": lambda k: k, "big": lambda k: k * 1000 - 1500, "str": lambda k: "k%03d" % k, "float": lambda k: k * .5 - 1}
INJ = (InjectedError, InjectedMemoryError)


def shape(t, kind, what, order_stat):
    """In-order list of (key, data); checks links, balance, colours, priorities."""
    tree = t.tree
    seen = set()
    out = []

    def node(i):
        need(type(i) is int and 0 <= i < tree.size and tree[i] is not None, "dangling-link",
             "after %s: link to position %s which holds no node", what, i)
        need(i not in seen, "corrupt", "after %s: a node is reachable twice", what)
        seen.add(i)
        return tree[i]

    def walk(i, parent, depth):
        n = node(i)
        need(n.parent == parent, "parent-link", "after %s: node %s has parent %s, expected %s",
             what, n.key, n.parent, parent)
        lh = rh = 0
        ls = rs = 0
        if n.left is not None:
            lh, ls = walk(n.left, i, depth + 1)
        out.append((n.key, n.data))
        if n.right is not None:
            rh, rs = walk(n.right, i, depth + 1)
        if order_stat:
            need(n.size == ls + rs + 1, "order-statistic", "after %s: node %s counts %s nodes "
                 "below it, there are %d", what, n.key, n.size, ls + rs + 1)
        if order_stat and hasattr(t, "left_size"):
            need((t.left_size(n), t.right_size(n)) == (ls, rs), "order-statistic", "after %s: sizes "
                 "below node %s are told to be %s, are %s", what, n.key,
                 (t.left_size(n), t.right_size(n)), (ls, rs))
        if kind == "avl":
            need(abs(lh - rh) <= 1, "unbalanced", "after %s: node %s has subtrees of height %d "
                 "and %d", what, n.key, lh, rh)
            need(n.height == max(lh, rh), "wrong-height", "after %s: node %s has height %s, "
                 "expected %d", what, n.key, n.height, max(lh, rh))
            if hasattr(t, "balance_factor"):
                need(t.balance_factor(n) == rh - lh, "wrong-height", "after %s: the balance factor "
                     "of node %s is told to be %s, is %s", what, n.key, t.balance_factor(n),
                     rh - lh)
        if kind == "rb":
            need(n.color in (0, 1), "colour", "after %s: node %s has no colour", what, n.key)
            need(lh == rh, "black-height", "after %s: node %s has black heights %d and %d", what,
                 n.key, lh, rh)
            if n.color == 1:
                for c in (n.left, n.right):
                    need(c is None or tree[c].color == 0, "red-red",
                         "after %s: red node %s has a red child", what, n.key)
            return lh + (n.color == 0), ls + rs + 1
        if kind in ("cartesian", "treap"):
            for c in (n.left, n.right):
                need(c is None or n.priority <= tree[c].priority, "heap-order",
                     "after %s: node %s with priority %s lies above one with priority %s", what,
                     n.key, n.priority, c is not None and tree[c].priority)
        return max(lh, rh) + 1, ls + rs + 1
    root = node(t.root_idx)
    seen.clear()
    if root.key is None:
        need(root.left is None and root.right is None and root.parent is None, "corrupt",
             "after %s: an empty tree has nodes", what)
        return out
    if kind == "rb":
        need(root.color == 0, "red-root", "after %s: the root is red", what)
    walk(t.root_idx, None, 0)
    return out


def run_deep(case, env):
    """A tree that degenerated to a chain, deeper than recursion could go."""
    import pydatastructs.trees as T
    kind, n, seed = case["deep"]
    if not 4 <= n <= 1100:
        return
    r = random.Random(seed)
    kw = {}
    if case["comp"] == "greater":
        kw["comp"] = lambda a, b: a > b
    stat = bool(case["order_stat"])
    if stat:
        kw["is_order_statistic"] = True
    if case.get("backend") == "cpp":
        from pydatastructs import Backend
        kw["backend"] = Backend.CPP
    t = {"bst": T.BinarySearchTree, "cartesian": T.CartesianTree}[kind](**kw)
    keys = [2 * i for i in range(n)]                 # outermost first
    if r.random() < .5:
        keys.reverse()
    up = "comp" not in kw
    env.probe("deep")
    env.ev("deep", case["deep"], up, stat)
    what = "%s which is a chain of %d keys" % (kind, n)

    def ask(name, want, *args):
        env.nops += 1
        try:
            with stock_recursion_limit():
                got = getattr(t, name)(*args)
        except Exception as e:
            need(False, "unexpected-error", "%s%s on a %s: %s", name, show(args), what, err(e))
        if name == "search":
            got = got if got is None else t.tree[got].key
        if name == "select":
            got = got.key
        need(got == want, "wrong-result", "%s%s on a %s: %s instead of %s", name, show(args), what,
             show(got), show(want))
    for i, k in enumerate(keys):
        ask("insert", None, k, *([i, k + 1] if kind == "cartesian" else [k + 1]))
    have = sorted(keys, reverse=not up)
    for _ in range(12):
        k = r.choice([keys[-1], keys[-2], r.choice(keys)])
        i = have.index(k)
        step = 1 if up else -1
        ask("search", k, k)
        ask("search", None, k + 1)
        ask("lower_bound", k, k)
        ask("lower_bound", k, k - step)
        ask("upper_bound", have[i + 1] if i + 1 < len(have) else None, k)
        ask("lowest_common_ancestor", min(k, keys[-1], key=keys.index), k, keys[-1], 1)
        ask("lowest_common_ancestor", min(k, keys[-1], key=keys.index), k, keys[-1], 2)
        if stat:
            ask("rank", i + 1, k)
            ask("select", k, i + 1)
        if k != keys[-1] and k != keys[0] and r.random() < .5:
            ask("delete", True, k)
            keys.remove(k)
            have.remove(k)
    with stock_recursion_limit():
        v = T.BinaryTreeTraversal(t, **({"backend": kw["backend"]} if "backend" in kw else {}))
        got = {o: [x.key for x in v.depth_first_search(order=o)] for o in
               ("in_order", "pre_order", "post_order", "out_order")}
        got["breadth_first"] = [x.key for x in v.breadth_first_search()]
    for o, want in (("in_order", have), ("pre_order", keys), ("post_order", keys[::-1]),
                    ("out_order", have[::-1]), ("breadth_first", keys)):
        need(got[o] == want, "wrong-traversal", "%s of a %s: %s", o, what, show(got[o]))


def run(case, env):
    if "deep" in case:
        return run_deep(case, env)
    import pydatastructs.trees as T
    from pydatastructs.linear_data_structures.arrays import OneDimensionalArray
    from pydatastructs.utils.misc_util import TreeNode, CartesianTreeNode, RedBlackTreeNode
    kind = case["kind"]
    if kind not in KINDS or case["keys"] not in KEY:
        return
    key = KEY[case["keys"]]
    if Truth.how:
        Truth.how = "int"                    # all that the trees ask for
    up = case["comp"] != "greater"
    comp = CallFault(env, (lambda a, b: a < b) if up else (lambda a, b: a > b), case["cmp_at"],
                     "comparison_failed")
    comp.armed = False
    cls = {"bst": T.BinarySearchTree, "avl": T.AVLTree, "rb": T.RedBlackTree,
           "splay": T.SplayTree, "cartesian": T.CartesianTree, "treap": T.Treap}[kind]
    kw = {} if case["comp"] == "default" else {"comp": comp}
    bk = {}
    cpp = case.get("backend") == "cpp"
    if cpp:
        from pydatastructs import Backend
        bk["backend"] = Backend.CPP
        kw.update(bk)
        seam = RandomSeam(env, *case["rand"])
        NATIVE.rand([int(seam.unit() * 0x7fffffff) for i in range(512)])
    stat = bool(case["order_stat"])
    if stat:
        kw["is_order_statistic"] = True
    model = {}
    prio = {}
    # keys and data in a C++ tree are referenced by nothing else
    own = (lambda x: type(x)(str(x) + " ") if type(x) is int or type(x) is float else x if type(x) is not str else "".join(list(x))) \
        if cpp else (lambda x: x)
    odd = {3: None, 7: 0, 11: "", 14: False}
    dat = lambda u: odd.get(u % 17, u)                      # all kinds of data are data
    uid = 10 ** 6 if cpp else 0
    if case["root"] and kind != "cartesian":
        kw["key"], kw["root_data"] = key(0), "root"
        model[key(0)] = "root"
    with RandomSeam(env, *case["rand"]), \
            AllocFault(env, [OneDimensionalArray, TreeNode, CartesianTreeNode, RedBlackTreeNode],
                       case["alloc_at"]) as af:
        t = cls(**kw)

        def order(ks):
            return sorted(ks, reverse=not up)

        def call(fn, *a, **k):
            f0 = af.fired + comp.fired
            af.armed = comp.armed = Unhashable.armed = True
            try:
                out = ("ok", fn(*a, **k))
            except Exception as e:
                out = ("raise", e)
            finally:
                af.armed = comp.armed = Unhashable.armed = False
            hit = af.fired + comp.fired > f0
            env.ev(op, a1, a2, out[0], err(out[1]) if out[0] == "raise" else "", hit)
            if out[0] == "raise":
                need(hit and isinstance(out[1], INJ) or not hit, "fault-swallowed",
                     "%s: injected failure became %s", what, show(out[1]))
            return out + (hit,)

        def lca(a, b):
            pa, pb = path(a), path(b)
            best = None
            for x, y in zip(pa, pb):
                if x != y:
                    break
                best = x
            return t.tree[best].key

        def path(k):
            p, i = [], t.root_idx
            while True:
                p.append(i)
                n = t.tree[i]
                if n.key == k:
                    return p
                i = n.left if ((k < n.key) if up else (k > n.key)) else n.right

        def depths():
            out, todo = {}, [(t.root_idx, 0)]
            while todo:
                i, d = todo.pop()
                n = t.tree[i]
                out[n.key] = d
                todo += [(c, d + 1) for c in (n.left, n.right) if c is not None]
            return out

        def orders():
            pre, ino, post, lev = [], [], [], [t.root_idx]

            def walk(i):
                if i is not None:
                    n = t.tree[i]
                    pre.append(n.key)
                    walk(n.left)
                    ino.append(n.key)
                    walk(n.right)
                    post.append(n.key)
            walk(t.root_idx)
            for i in lev:
                lev += [c for c in (t.tree[i].left, t.tree[i].right) if c is not None]
            return pre, ino, post, ino[::-1], [t.tree[i].key for i in lev]
        empt = False
        for op, a1, a2 in case["ops"]:
            if op in ("fill", "trim"):
                r = random.Random(a2)
                some = r.sample(range(600), a1) if op == "fill" else \
                    r.sample(order(model), min(a1, len(model)))
                for i, x in enumerate(some):
                    if op == "trim":
                        need(t.delete(x) is True, "wrong-result", "delete of %r failed", x)
                        del model[x]
                        continue
                    x = key(x)
                    uid += 1
                    if kind == "cartesian":
                        t.insert(own(x), r.randrange(12), own(dat(uid)))
                        prio[x] = None
                    else:
                        t.insert(own(x), own(dat(uid)))
                    model[x] = dat(uid)
                    if not i % 97:
                        need(shape(t, kind, "filling", stat) == [(y, model[y]) for y in
                                                                 order(model)],
                             "wrong-contents", "%s %r: insertion of %r", op, a1, x)
                env.probe("large" if op == "fill" else "trimmed")
                need(shape(t, kind, op, stat) == [(y, model[y]) for y in order(model)],
                     "wrong-contents", "after %s %d of seed %d", op, a1, a2)
                continue
            k, k2 = key(a1), key(a2)
            env.nops += 1
            ks = order(model)
            what = "%s(%r, %r) on %s of %s" % (op, k, a2, kind, show(ks))
            if op == "ins":
                uid += 1
                deep = {}
                if kind == "splay" and model:
                    d0 = depths()
                    i = t.root_idx
                    while i is not None:
                        n = t.tree[i]
                        deep[n.key] = d0[n.key]
                        i = None if n.key == k else \
                            n.left if ((k < n.key) if up else (k > n.key)) else n.right
                if kind == "cartesian":
                    st, out, hit = call(t.insert, own(k), a2, own(dat(uid)))
                else:
                    st, out, hit = call(t.insert, own(k), own(dat(uid)))
                if st == "ok":
                    if k in model:
                        env.probe("overwritten")
                    if empt:
                        env.probe("refilled")
                    model[k] = dat(uid)
                    prio[k] = a2
                    if kind == "splay":
                        need(t.tree[t.root_idx].key == k, "not-at-root",
                             "%s: the inserted key is not at the root", what)
                        now = depths() if len(deep) > 6 else {}
                        for x, d in deep.items():
                            need(now.get(x, 0) <= d // 2 + SLACK, "not-splayed",
                                 "%s: %r on the path to the inserted key moved from depth %d to "
                                 "%d", what, x, d, now.get(x))
                        if now:
                            env.probe("splayed_deep")
                else:
                    need(hit, "unexpected-error", "%s: %s", what, err(out))
            elif op == "del":
                if a2 and ks and t.tree[t.root_idx].key in model:
                    k = t.tree[t.root_idx].key
                    what += " (the root, %r)" % k
                    env.probe("root_deleted")
                st, out, hit = call(t.delete, k)
                if st == "raise":
                    need(hit, "unexpected-error", "%s: %s", what, err(out))
                elif k in model:
                    need(out is True, "wrong-result", "%s: returned %s", what, out)
                    del model[k]
                    if not model:
                        empt = True
                        env.probe("emptied")
                else:
                    env.probe("missing_key")
                    need(out is None, "wrong-result", "%s: returned %s", what, out)
            elif op == "find":
                st, out, hit = call(t.search, k)
                if st == "raise":
                    need(hit, "unexpected-error", "%s: %s", what, err(out))
                elif k in model:
                    need(out is not None and t.tree[out].key == k, "wrong-result",
                         "%s: returned %s", what, out)
                else:
                    need(out is None, "wrong-result", "%s: returned %s", what, out)
            elif op in ("lower", "upper"):
                st, out, hit = call(t.lower_bound if op == "lower" else t.upper_bound, k)
                after = (lambda x: x >= k if op == "lower" else x > k) if up else \
                    (lambda x: x <= k if op == "lower" else x < k)
                want = [x for x in ks if after(x)]
                if st == "raise":
                    need(hit, "unexpected-error", "%s: %s", what, err(out))
                else:
                    need(out == (want[0] if want else None), "wrong-result", "%s: returned %s",
                         what, out)
            elif op == "select" and stat and ks:
                st, out, hit = call(t.select, a1)
                if st == "raise" and not hit:
                    need(isinstance(out, ValueError) and not 1 <= a1 <= len(ks),
                         "unexpected-error", "%s: %s", what, err(out))
                elif st == "ok":
                    need(1 <= a1 <= len(ks) and out.key == ks[a1 - 1], "wrong-result",
                         "%s: returned %s", what, out)
            elif op == "rank" and stat:
                st, out, hit = call(t.rank, k)
                if st == "raise":
                    need(hit, "unexpected-error", "%s: %s", what, err(out))
                else:
                    need(out == (ks.index(k) + 1 if k in model else None), "wrong-result",
                         "%s: returned %s", what, out)
            elif op in ("lca1", "lca2") and ks:
                st, out, hit = call(t.lowest_common_ancestor, k, k2, int(op[3]))
                if st == "raise" and not hit:
                    need(isinstance(out, ValueError) and not (k in model and k2 in model),
                         "unexpected-error", "%s: %s", what, err(out))
                elif st == "ok":
                    need(k in model and k2 in model and out == lca(k, k2), "wrong-result",
                         "%s: returned %s", what, out)
            elif op == "split" and kind == "splay":
                st, out, hit = call(t.split, k)
                if st == "raise":
                    need(hit, "unexpected-error", "%s: %s", what, err(out))
                elif k not in model:
                    need(out is None, "wrong-result", "%s: returned %s", what, out)
                else:
                    rest = ks[ks.index(k) + 1:]
                    got = shape(out, kind, "the split-off part of " + what, False)
                    need(got == [(x, model[x]) for x in rest], "wrong-split",
                         "%s: split off %s", what, show(got))
                    for x in rest:
                        del model[x]
                    env.probe("split")
                    if a2 % 2:
                        # join them again, possibly after both changed
                        uid += 1
                        what = "join after " + what
                        if rest and model:
                            st, _, hit = call(t.join, out)
                            if st == "raise":
                                need(hit, "unexpected-error", "%s: %s", what, err(_))
                                need(shape(out, kind, what, False) == got, "wrong-contents",
                                     "%s failed and changed the other tree", what)
                            else:
                                model.update(got)
                                env.probe("joined")
            elif op == "join" and kind == "splay" and ks:
                o = cls(**{x: v for x, v in kw.items() if x not in ("key", "root_data")})
                hi = [(key(40 + i) if up else key(-40 - i), uid + i + 1) for i in range(a2 % 4 + 1)]
                if case["keys"] == "str" and not up:
                    hi = [("a%03d" % i, uid + i + 1) for i in range(a2 % 4 + 1)]
                if a1 % 3 == 0:
                    hi.append((k, 0))
                for x, u in hi:
                    o.insert(own(x), own(u))
                if a1 % 2:
                    o.delete(hi[0][0])
                    hi = [h for h in hi if h[0] != hi[0][0]]
                if not hi:
                    continue
                uid += 5
                hk = order(x for x, u in hi)
                ok = (ks[-1] < hk[0]) if up else (ks[-1] > hk[0])
                st, out, hit = call(t.join, o)
                if st == "raise":
                    need(hit or (not ok and isinstance(out, ValueError)), "unexpected-error",
                         "%s: %s", what, err(out))
                else:
                    need(ok, "wrong-result", "%s: joined with overlapping %s", what, hk)
                    model.update(dict(hi))
                    env.probe("joined")
            elif op == "str":
                str(t)
                got = [(n.key, n.data) for n in T.BinaryTreeTraversal(t, **bk).depth_first_search(
                    order="in_order")] if ks else []
                need(got == [(x, model[x]) for x in ks], "wrong-contents",
                     "in-order traversal of %s gives %s", show(ks), show(got))
            elif op == "trav" and ks:
                v = T.BinaryTreeTraversal(t, **bk)
                got = [list(v.depth_first_search(order=o)) for o in
                       ("pre_order", "in_order", "post_order", "out_order")] + \
                    [list(v.breadth_first_search())]
                want = orders()
                for o, a, b in zip(("pre", "in", "post", "out", "breadth first"), got, want):
                    need([n.key for n in a] == b, "wrong-traversal", "%s order of %s gives %s, "
                         "expected %s", o, what, show([n.key for n in a]), show(b))
                env.probe("traversed")
            else:
                continue
            got = shape(t, kind, what, stat)
            need(got == [(x, model[x]) for x in order(model)], "wrong-contents",
                 "after %s: holds %s, expected %s", what, show(got),
                 show([(x, model[x]) for x in order(model)]))
            if kind == "cartesian":
                for i in range(t.tree.size):
                    n = t.tree[i]
                    if n is not None and n.key is not None and prio[n.key] is not None:
                        need(n.priority == prio[n.key], "wrong-priority",
                             "after %s: key %s has priority %s, expected %s", what, n.key,
                             n.priority, prio[n.key])
