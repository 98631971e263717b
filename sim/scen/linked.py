"""P07: linked lists as sequences under failing node allocations and failing
operations."""
from core import need, AllocFault, InjectedMemoryError, pick_faults
from scen.common import err, show, size

META = {
    "rule": "A run draws one of the four list classes and a history of positional and relative "
            "insertions, extractions, pops, lookups and out-of-range requests with positive and "
            "negative indices; in half of the runs node allocations fail at drawn points.",
    "quick_runs": 16000, "block": 400, "quick_wall": 200, "thorough_wall": 300,
    "real": ["SinglyLinkedList, DoublyLinkedList, SinglyCircularLinkedList, "
             "DoublyCircularLinkedList"],
    "stub": ["node allocation (can fail on demand)"],
    "must_probe": ["allocation_failed", "bad_index", "emptied", "negative_index"],
}
CLASSES = ["SinglyLinkedList", "DoublyLinkedList", "SinglyCircularLinkedList",
           "DoublyCircularLinkedList"]


def gen(rng, tier):
    n = size(rng, [4, 8, 15, 30], (31, 200))
    ops = []
    grow = rng.choice([.3, .5, .7])
    for _ in range(n):
        x = rng.random()
        pos = rng.choice([0, 0, -1, rng.randrange(6), -rng.randrange(7), rng.randrange(12),
                          -rng.randrange(14)])
        if x < grow:
            ops.append([rng.choice(["append", "appendleft", "insert_at", "insert_at", "insert_at",
                                    "insert_after", "insert_before"]), pos, rng.randrange(9)])
        elif x < .9:
            ops.append([rng.choice(["extract", "extract", "extract", "popleft", "popright"]), pos,
                        0])
        else:
            ops.append([rng.choice(["getitem", "search", "set"]), pos, rng.randrange(9)])
    return {"cls": rng.choice(CLASSES), "ops": ops,
            "alloc_at": pick_faults(rng, 1, n, rng.choice([1, 2, 3])) if rng.random() < .5 else []}


def verify(lst, model, cls, what):
    n = len(model)
    need(len(lst) == n and lst.size == n, "wrong-length", "after %s: length %s/%s, expected %d",
         what, len(lst), lst.size, n)
    need(lst.is_empty == (n == 0), "wrong-empty", "after %s: is_empty %s", what, lst.is_empty)
    got = [(lst[i].key, lst[i].data) for i in range(n)]
    need(got == model, "wrong-contents", "after %s: contents %s, expected %s", what, show(got),
         show(model))
    need(str(lst) == str([str(x) for x in model]), "wrong-str", "after %s: str is %s", what,
         str(lst))
    circ = "Circular" in cls
    doubly = cls.startswith("Doubly")
    if n == 0:
        need(lst.head is None, "stale-head", "after %s: empty list has a head", what)
        return
    need((lst.tail.key, lst.tail.data) == model[-1] and lst.tail is lst[n - 1], "wrong-tail",
         "after %s: tail is %s", what, lst.tail)
    need(lst.head is lst[0], "wrong-head", "after %s: head is %s", what, lst.head)
    node = lst.tail.next
    need(node is (lst.head if circ else None), "wrong-end",
         "after %s: the last node is followed by %s", what, node)
    if doubly:
        back = []
        node = lst.tail
        for _ in range(n):
            back.append((node.key, node.data))
            node = node.prev
            if node is None:
                break
        need(back == model[::-1], "wrong-backward", "after %s: backwards %s, expected %s", what,
             show(back), show(model[::-1]))
        need(node is (lst.tail if circ else None), "wrong-begin",
             "after %s: the first node is preceded by %s", what, node)


def run(case, env):
    import pydatastructs
    from pydatastructs.utils.misc_util import LinkedListNode
    cls = case["cls"]
    lst = getattr(pydatastructs, cls)()
    model = []
    uid = 0
    with AllocFault(env, [LinkedListNode], case["alloc_at"]) as af:
        for op, pos, key in case["ops"]:
            n = len(model)
            if op == "insert_before" and not cls.startswith("Doubly"):
                op = "insert_after"
            uid += 1
            what = "%s(%d, %d) on %s of %s" % (op, pos, key, cls, show(model))
            anchor = None
            if op in ("insert_after", "insert_before"):
                if not n:
                    continue
                anchor = pos % n
                node = lst[anchor]
            if pos < 0:
                env.probe("negative_index")
            env.nops += 1
            af.armed = True
            f0 = af.fired
            try:
                if op == "append":
                    out = lst.append(key, uid)
                elif op == "appendleft":
                    out = lst.appendleft(key, uid)
                elif op == "insert_at":
                    out = lst.insert_at(pos, key, uid)
                elif op == "insert_after":
                    out = lst.insert_after(node, key, uid)
                elif op == "insert_before":
                    out = lst.insert_before(node, key, uid)
                elif op == "extract":
                    out = lst.extract(pos)
                elif op == "popleft":
                    out = lst.popleft()
                elif op == "popright":
                    out = lst.popright()
                elif op == "search":
                    out = lst.search(key)
                elif op == "set":
                    out = lst[pos]
                    out.key = key
                else:
                    out = lst[pos]
                kind = "ok"
            except Exception as e:
                kind, out = "raise", e
            finally:
                af.armed = False
            env.ev(op, pos, key, kind, err(out) if kind == "raise" else str(out))
            if af.fired > f0:
                need(kind == "raise" and isinstance(out, InjectedMemoryError), "fault-swallowed",
                     "%s: allocation failed, got %s", what, show(out))
            elif op in ("append", "appendleft", "insert_at", "insert_after", "insert_before"):
                at = {"append": n, "appendleft": 0}.get(op)
                if op == "insert_at":
                    at = pos if pos >= 0 else n + pos
                    if n == 0 and pos == -1:
                        at = 0
                    if at < 0 or at > n:
                        at = None
                elif op == "insert_after":
                    at = anchor + 1
                elif op == "insert_before":
                    at = anchor
                if at is None:
                    env.probe("bad_index")
                    need(kind == "raise" and isinstance(out, IndexError), "bad-index",
                         "%s: expected IndexError, got %s", what, show(out))
                else:
                    need(kind == "ok", "unexpected-error", "%s: raised %s", what,
                         err(out) if kind == "raise" else "")
                    model.insert(at, (key, uid))
            elif op in ("extract", "popleft", "popright"):
                at = {"popleft": 0, "popright": -1}.get(op, pos)
                at = at if at >= 0 else n + at
                if n == 0:
                    need(kind == "raise" and isinstance(out, (ValueError, IndexError)),
                         "bad-index", "%s: expected an error, got %s", what, show(out))
                elif not 0 <= at < n:
                    env.probe("bad_index")
                    need(kind == "raise" and isinstance(out, IndexError), "bad-index",
                         "%s: expected IndexError, got %s", what, show(out))
                else:
                    need(kind == "ok" and (out.key, out.data) == model[at], "wrong-extract",
                         "%s: got %s", what, err(out) if kind == "raise" else str(out))
                    model.pop(at)
                    if not model:
                        env.probe("emptied")
            elif op == "search":
                hit = [m for m in model if m[0] == key]
                need(kind == "ok" and ((out is None) == (not hit)) and
                     (not hit or (out.key, out.data) == hit[0]), "wrong-search",
                     "%s: got %s", what, out)
            else:
                at = pos if pos >= 0 else n + pos
                if not 0 <= at < n:
                    env.probe("bad_index")
                    need(kind == "raise" and isinstance(out, IndexError), "bad-index",
                         "%s: expected IndexError, got %s", what, show(out))
                elif op == "set":
                    need(kind == "ok", "unexpected-error", "%s: %s", what, show(out))
                    model[at] = (key, model[at][1])
                else:
                    need(kind == "ok" and (out.key, out.data) == model[at], "wrong-item",
                         "%s: got %s", what, show(out))
            verify(lst, model, cls, what)
