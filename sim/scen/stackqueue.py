"""P08: stacks and queues are LIFO/FIFO for every history, under failing
allocations, elements that cannot be copied and elements of a wrong type."""
from core import need, AllocFault, InjectedError, InjectedMemoryError, pick_faults
from scen.common import err, show, size

META = {
    "rule": "A run draws one stack or queue implementation (array or linked list, single or "
            "double ended, Python or C++), initial items and a history of pushes and pops at "
            "either end; in most runs allocations of arrays or nodes fail at drawn points, "
            "elements refuse to be copied, or elements of a wrong type are offered.",
    "quick_runs": 60000, "block": 1500, "quick_wall": 200, "thorough_wall": 300,
    "real": ["Stack (array, linked list, C++), Queue (array, linked list, double ended)",
             "DynamicOneDimensionalArray, SinglyLinkedList beneath them"],
    "stub": ["array and node allocation, element copying (can fail on demand)"],
    "must_probe": ["single_ended", "allocation_failed", "copy_failed", "rejected_element", "emptied",
                   "pop_empty", "refilled"],
}
KINDS = ["stack-array", "stack-array", "stack-list", "queue-array", "queue-array", "deque-array",
         "deque-array", "deque-array", "queue-list", "deque-list", "stack-cpp"]


def gen(rng, tier):
    n = size(rng, [4, 8, 16, 32, 60], (61, 300))
    kind = rng.choice(KINDS)
    ops = []
    p = rng.choice([.3, .5, .5, .6, .8])
    side = rng.choice([0, .3, .5, .9])
    wave = rng.random() < .4
    for i in range(n):
        if wave and i % 9 == 0:
            p = rng.choice([.1, .5, .9])
        if rng.random() < p:
            ops.append(["appendleft" if rng.random() < side else "append"])
        else:
            ops.append(["pop" if rng.random() < side else "popleft"])
        if rng.random() < .05:
            ops.append(["side"])
        if rng.random() < .05:
            ops.append(["reject" if rng.random() < .6 else "rejectleft"])
    elem = rng.choice(["int", "int", "str", "obj"])
    case = {"kind": kind, "ops": ops, "elem": elem,
            "init": rng.choice([None, None, 0, 1, 2, 3, 5, 8]), "tuple": rng.random() < .2, "alloc_at": [], "copy_at": []}
    x = rng.random()
    if x < .45:
        case["alloc_at"] = pick_faults(rng, 1, n, rng.choice([1, 2, 3]))
    if x > .35 and x < .6:
        case["elem"] = "obj"
        case["copy_at"] = pick_faults(rng, 1, max(1, n // 2), rng.choice([1, 2]))
    return case


class El(object):
    """An element that may refuse to be copied."""
    ctl = None

    def __init__(self, n):
        if isinstance(n, El) or not isinstance(n, int):
            raise ValueError("no element")
        self.n = n

    def __eq__(self, o):
        return isinstance(o, El) and o.n == self.n

    def __hash__(self):
        return self.n

    def __repr__(self):
        return "El%d" % self.n

    def __deepcopy__(self, memo):
        c = El.ctl
        if c["on"]:
            c["n"] += 1
            if c["n"] in c["at"]:
                c["fired"] += 1
                c["env"].fault("copy_failed")
                raise InjectedError(c["n"])
        return El(self.n)


MAKE = {"int": lambda i: i, "str": lambda i: "s%d" % i, "obj": El}
WRONG = {"int": "not a number", "obj": "nothing"}


def run(case, env):
    from pydatastructs import Stack, Queue
    from pydatastructs.linear_data_structures.arrays import OneDimensionalArray
    from pydatastructs.utils.misc_util import LinkedListNode, Backend
    kind, elem = case["kind"], case["elem"]
    if kind not in KINDS or elem not in MAKE:
        return
    array = kind.endswith("array") or kind.endswith("cpp")
    make = MAKE[elem]
    uid = 0
    model = []
    kw = {}
    if case["init"] is not None:
        model = [make(i + 1) for i in range(case["init"])]
        uid = case["init"]
        kw["items"] = tuple(model) if case.get("tuple") else list(model)
    if kind.startswith("stack"):
        if array:
            kw["dtype"] = type(make(1))
        if kind == "stack-cpp":
            kw["backend"] = Backend.CPP
        s = Stack(implementation="array" if array else "linked_list", **kw)
    else:
        if array:
            kw["dtype"] = type(make(1))
        kw["double_ended"] = kind.startswith("deque")
        s = Queue(implementation="array" if array else "linked_list", **kw)
    given = kw.get("items")
    if type(given) is list:             # it is the caller's, who may use it for something else
        need(given == model, "input-changed", "the list given to the constructor is now %s",
             show(given))
        given[:] = ["of the caller"]
    El.ctl = ctl = {"on": False, "at": set(case["copy_at"]), "n": 0, "env": env, "fired": 0}
    hot = (int, str, El)

    def plain(x):
        return x if array else x.key

    def verify(what):
        need(len(s) == len(model), "wrong-length", "after %s: length %d, expected %d", what,
             len(s), len(model))
        need(s.is_empty == (not model), "wrong-empty", "after %s: is_empty %s", what, s.is_empty)
        if kind.startswith("stack"):
            if kind == "stack-list":
                need(str(s) == str([str_node(x) for x in model]), "wrong-str",
                     "after %s: str %s, expected contents %s", what, str(s), show(model))
            if model:
                need(plain(s.peek) == model[-1], "wrong-peek", "after %s: peek is %s of %s", what,
                     s.peek, show(model))
        elif array:
            need(str(s) == str(model), "wrong-str", "after %s: str %s, expected %s", what, str(s),
                 show(model))
        else:
            need(str(s) == str([str_node(x) for x in model]), "wrong-str",
                 "after %s: str %s, expected contents %s", what, str(s), show(model))
            if model:
                need(s.front.key == model[0] and s.rear.key == model[-1], "wrong-front",
                     "after %s: front %s rear %s of %s", what, s.front, s.rear, show(model))

    def str_node(x):
        return str((x, None))
    verify("construction")
    empt = False
    with AllocFault(env, [OneDimensionalArray, LinkedListNode], case["alloc_at"]) as af:
        for op, in case["ops"]:
            if kind.startswith("stack"):
                op = {"append": "push", "appendleft": "push", "popleft": "pop",
                      "rejectleft": "reject"}.get(op, op)
            elif kind.startswith("queue"):
                op = {"appendleft": "append", "pop": "popleft", "rejectleft": "reject"}.get(op, op)
            if op == "side":
                # the other end of a queue that has only one
                if kind.startswith("queue"):
                    for name, arg in (("appendleft", (make(999),)), ("pop", ())):
                        try:
                            k, out = "ok", getattr(s, name)(*arg)
                        except Exception as e:
                            k, out = "raise", e
                        need(k == "raise" and isinstance(out, NotImplementedError), "not-refused",
                             "%s() on %s of %s, which is not double ended: %s", name, kind,
                             show(model), err(out) if k == "raise" else show(out))
                        verify(name + "() on a queue that is not double ended")
                    env.probe("single_ended")
                continue
            arg = ()
            rejected = False
            name = op
            if op in ("push", "append", "appendleft"):
                uid += 1
                x = make(uid)
                arg = (x,)
            elif op in ("reject", "rejectleft"):
                # an element which cannot be converted to the type of the array
                if not array or kind == "stack-cpp" or not model or elem == "str":
                    continue
                x = WRONG[elem]
                if op == "rejectleft":
                    # the array takes the type of the new element: nothing converts to El
                    if elem != "obj":
                        continue
                    name = "appendleft"

                    class Never(object):
                        def __init__(self, *a):
                            raise TypeError("no conversion")
                    x = Never.__new__(Never)
                else:
                    name = "push" if kind.startswith("stack") else "append"
                arg = (x,)
                rejected = True
                env.fault("rejected_element")
            what = "%s%s on %s of %s" % (name, "(...)" if arg else "()", kind, show(model))
            env.nops += 1
            f0, c0 = af.fired, ctl["fired"]
            af.armed = ctl["on"] = True
            try:
                out = getattr(s, name)(*arg)
                k = "ok"
            except Exception as e:
                k, out = "raise", e
            finally:
                af.armed = ctl["on"] = False
            env.ev(name, k, err(out) if k == "raise" else str(out))
            if af.fired > f0 or ctl["fired"] > c0:
                need(k == "raise" and isinstance(out, (InjectedMemoryError, InjectedError)),
                     "fault-swallowed", "%s: injected failure, but got %s", what, show(out))
            elif rejected:
                need(k == "raise" and isinstance(out, (TypeError, ValueError)), "not-rejected",
                     "%s: unconvertible element accepted: %s", what, show(out))
            elif name in ("push", "append", "appendleft"):
                need(k == "ok", "unexpected-error", "%s: %s", what,
                     err(out) if k == "raise" else "")
                if name == "appendleft":
                    model.insert(0, x)
                else:
                    model.append(x)
                if empt:
                    env.probe("refilled")
            elif not model:
                env.probe("pop_empty")
                need(k == "raise" and isinstance(out, IndexError), "pop-empty",
                     "%s: expected IndexError, got %s", what, show(out))
            else:
                want = model[0] if name == "popleft" else model[-1]
                need(k == "ok" and plain(out) == want, "wrong-element", "%s: got %s", what,
                     err(out) if k == "raise" else show(out))
                model.pop(0 if name == "popleft" else -1)
                if not model:
                    empt = True
                    env.probe("emptied")
            verify(what)
    El.ctl = None
    need(type(given) is not list or given == ["of the caller"], "input-changed",
         "the list which was given to the constructor is now %s", show(given))
