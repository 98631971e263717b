"""P11: static, dynamic and multi-dimensional arrays when growth, contraction or
the conversion of an element fails."""
from core import need, AllocFault, InjectedError, InjectedMemoryError, pick_faults
from native import NATIVE
from scen.common import err, show, size

META = {
    "rule": "A run draws an array (static, dynamic or multi-dimensional; Python or C++; created "
            "from a size, a size and an initial value or a list) and a history of reads, writes "
            "(also of empty slots, out of range and of the wrong type), appends, deletions and "
            "fills; in most runs a drawn allocation (Python object or C++ malloc) or element "
            "conversion fails.",
    "quick_runs": 60000, "block": 1000, "quick_wall": 240, "thorough_wall": 400,
    "real": ["OneDimensionalArray, DynamicOneDimensionalArray, MultiDimensionalArray; the C++ "
             "static and dynamic arrays"],
    "stub": ["allocation of array buffers (Python constructor, C++ malloc): fails on demand",
             "element type's constructor: fails on demand"],
    "must_probe": ["allocation_failed", "malloc_failed", "conversion_failed", "contracted",
                   "grown", "wrong_type", "out_of_range", "emptied"],
}
KINDS = ["oda", "doda", "doda", "doda", "cpp_oda", "cpp_doda", "cpp_doda", "mda"]


class T(object):
    """An element type whose construction from another value can fail."""
    ctl = None
    __slots__ = ["v"]

    def __init__(self, v=0):
        c = T.ctl
        if c["on"]:
            c["n"] += 1
            if c["n"] in c["at"]:
                c["fired"] += 1
                c["env"].fault("conversion_failed")
                raise InjectedError(c["n"])
        self.v = v.v if isinstance(v, T) else v

    def __eq__(self, o):
        return isinstance(o, T) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "T%s" % self.v


def gen(rng, tier):
    kind = rng.choice(KINDS)
    n = size(rng, [3, 6, 12, 25, 60], (61, 200), .02)
    ops = []
    up = rng.choice([.2, .4, .6, .95 if n > 60 else .5])
    wild = rng.choice([0, .1, .3])
    for i in range(n):
        x = rng.random()
        if "doda" in kind and x < .8:
            if x < up * .8:
                ops.append(["append" if rng.random() < .95 else "appendnone",
                            rng.randrange(1000), 0, 0])
            else:
                ops.append(["delete", 0, rng.randrange(-1, 70), rng.randrange(3)])
        else:
            ops.append([rng.choice(["set", "set", "set", "setnone", "get", "fill"]),
                        rng.randrange(1000), rng.randrange(-2, 40), rng.randrange(3)])
        if rng.random() < wild:
            ops[-1][3] = 9                            # wrong type
    case = {"kind": kind, "elem": rng.choice(["int", "T"]),
            "how": rng.choice(["size", "init", "list", "list", "both"]),
            "tuple": rng.random() < .2,
            "n": size(rng, [0, 0, 1, 2, 3, 5, 8, 20], (21, 150), .02),
            "dims": [rng.randrange(1, 5) for _ in range(rng.choice([1, 2, 2, 3, 4]))],
            "lf": rng.choice([None, None, .1, .25, .4, .5, .5, .7]), "ops": ops,
            "raw": [rng.randrange(9) for _ in range(rng.choice([0, 0, 0, 1, 3]))],
            "alloc_at": [], "malloc_at": [], "conv_at": []}
    if rng.random() < .65:
        if "cpp" in kind:
            case["malloc_at"] = pick_faults(rng, 1, rng.choice([3, 6, 10]), rng.choice([1, 2]))
        else:
            x = rng.random()
            if x < .6:
                case["alloc_at"] = pick_faults(rng, 1, rng.choice([3, 6, 10]), rng.choice([1, 2]))
            if x > .4:
                case["elem"] = "T"
                case["conv_at"] = pick_faults(rng, 1, n, rng.choice([1, 2]))
    return case


def run(case, env):
    from pydatastructs import OneDimensionalArray, DynamicOneDimensionalArray, \
        MultiDimensionalArray
    from pydatastructs.utils.misc_util import Backend
    T.ctl = ctl = {"on": False, "at": set(case["conv_at"]), "n": 0, "env": env, "fired": 0}
    kind = case["kind"]
    E = {"int": int, "T": T}[case["elem"]]
    cpp = kind.startswith("cpp")
    dyn = kind.endswith("doda")
    kw = {"backend": Backend.CPP} if cpp else {}
    cls = {"oda": OneDimensionalArray, "doda": DynamicOneDimensionalArray,
           "mda": MultiDimensionalArray}[kind.replace("cpp_", "")]
    n = case["n"]
    lf = .25
    if dyn and case["lf"] is not None:
        lf = kw["load_factor"] = case["lf"]
    nat = NATIVE if cpp else None

    def fired():
        return af.fired + ctl["fired"] + (nat.fired if nat else 0)

    def guarded(fn):
        f0 = fired()
        env.nops += 1
        af.armed = ctl["on"] = True
        if nat:
            nat.arm(case["malloc_at"])
        try:
            k, out = "ok", fn()
        except Exception as e:
            k, out = "raise", e
        finally:
            if nat:
                nat.disarm(env)
            af.armed = ctl["on"] = False
        f = fired() - f0
        if f:
            need(k == "raise" and isinstance(out, (InjectedError, MemoryError)),
                 "fault-swallowed", "%s: injected failure, but got %s", what, show(out))
        return k, out, f

    def wrong(code):
        """A value which is not of the element type."""
        if E is int:
            return [3.7, "x", [1]][code % 3]
        return [5, "x", 2.5][code % 3]

    def converted(v):
        """What a Python array stores for v; raises like the conversion does."""
        return v if type(v) is E else E(v)

    with AllocFault(env, [OneDimensionalArray], case["alloc_at"]) as af:
        if nat:
            nat.reset()
        what = kind
        if kind == "mda":
            mda(case, env, cls, E, guarded, wrong)
            return
        # -- construction
        vals = [E(i + 1) for i in range(n)]
        how = case["how"]
        what = "construction (%s, n=%d, raw %s)" % (how, n, case["raw"])
        raw = list(vals)
        for i in case["raw"]:
            if i < n:
                raw[i] = wrong(i)
        keep = list(raw)
        if how == "size":
            args, model = (n,), [None] * n
        elif how == "init":
            x = E(77)
            args, model = (n,), [x] * n
            kw["init"] = x
        else:
            data = tuple(raw) if case.get("tuple") else raw
            args = (data,) if how == "list" else (n, data)
            try:
                if cpp and any(not isinstance(v, E) for v in raw):
                    raise TypeError
                model = [converted(v) for v in raw]
                expect = None
            except (ValueError, TypeError) as e:
                expect = type(e)
        k, out, f = guarded(lambda: cls(E, *args, **kw))
        env.ev(kind, how, n, k, err(out) if k == "raise" else "")
        need(len(raw) == len(keep) and all(x is y for x, y in zip(raw, keep)), "input-changed",
             "%s: the list given to the constructor was %s and is %s", what, show(keep), show(raw))
        if k == "raise":
            if f:
                pass
            elif how in ("list", "both") and expect:
                env.probe("wrong_type")
                need(isinstance(out, expect), "wrong-error", "%s: %s, expected %s", what, err(out),
                     expect.__name__)
            else:
                need(False, "unexpected-error", "%s: %s", what, err(out))
            return
        need(how not in ("list", "both") or not expect, "wrong-type-accepted", "%s: got %s", what,
             show(out))
        a = out
        raw[:] = ["of the caller"]      # who may use the list for something else

        def read():
            return [a[i] for i in range(len(a))]

        def eq(xs, ys):
            return len(xs) == len(ys) and all(x is y or x is not None and y is not None and
                                              type(x) is type(y) and x == y
                                              for x, y in zip(xs, ys))
        now = read()
        need(eq(now, model), "wrong-contents", "%s: holds %s, expected %s", what, show(now),
             show(model))
        nth = 0
        for op, v, i, flag in case["ops"]:
            if not dyn and op in ("append", "appendnone", "delete"):
                continue
            if op == "fill" and len(now) > 60:
                continue                              # each fill lets the next append double it
            old = now
            size = len(old)
            bad = flag == 9
            filled = [j for j in range(size) if old[j] is not None]
            if op == "delete" and filled and flag == 1:
                i = filled[i % len(filled)]
            elif op == "delete" and filled and flag == 2:
                i = filled[-1]
            val = wrong(v) if bad else E(v + 1)
            what = "%s(%s%s) on %s %s" % (
                op, "" if op[:6] == "append" else i,
                "" if op in ("delete", "get", "setnone", "appendnone") else
                " %r" % (val,), kind, show(old))
            expect = None
            stored = val
            if op in ("set", "append", "fill"):
                if cpp:
                    if op == "append" and bad:
                        continue                      # C++ appends take any object
                    if not isinstance(val, E):
                        expect = TypeError
                else:
                    try:
                        stored = converted(val)
                    except (ValueError, TypeError) as e:
                        expect = type(e)
                if op == "fill" and not cpp and E is T:
                    stored = T(val)
            if op in ("set", "setnone", "get") and (i >= size or i < 0):
                if i < 0 and not cpp and op != "get":
                    continue
                env.probe("out_of_range")
                expect = (IndexError,) + ((expect,) if expect else ())
            if op == "set":
                k, out, f = guarded(lambda: a.__setitem__(i, val))
            elif op == "setnone":
                k, out, f = guarded(lambda: a.__setitem__(i, None))
            elif op == "get":
                k, out, f = guarded(lambda: a[i])
            elif op == "append":
                k, out, f = guarded(lambda: a.append(val))
            elif op == "appendnone":
                env.probe("appended_none")
                k, out, f = guarded(lambda: a.append(None))
            elif op == "delete":
                k, out, f = guarded(lambda: a.delete(i))
            else:
                k, out, f = guarded(lambda: a.fill(val))
            env.ev(op, v, i, flag, k, err(out) if k == "raise" else "")
            now = read()
            need(raw == ["of the caller"], "input-changed",
                 "%s: the list which was given to the constructor is now %s", what, show(raw))
            if f:
                # a failed append may have added room
                room = op[:6] == "append" and len(now) > len(old)
                need(eq(now, old + [None] * (len(now) - len(old)) if room else old),
                     "changed-on-failure", "%s failed, but the array is now %s", what, show(now))
            elif expect:
                if bad:
                    env.probe("wrong_type")
                need(k == "raise" and isinstance(out, expect), "no-error",
                     "%s: expected %s, got %s", what, expect, show(out))
                need(eq(now, old), "changed-on-failure", "%s failed, but the array is now %s",
                     what, show(now))
            else:
                need(k == "ok", "unexpected-error", "%s: %s", what, err(out) if k == "raise" else "")
                if op == "set":
                    want = old[:i] + [stored] + old[i + 1:]
                elif op == "setnone":
                    want = old[:i] + [None] + old[i + 1:]
                elif op == "fill":
                    want = [stored] * size
                elif op == "get":
                    want = old
                    need(out is old[i] or out == old[i], "wrong-result", "%s: got %s", what, out)
                else:
                    want = None
                if want is not None:
                    need(eq(now, want), "wrong-contents", "%s: now %s", what, show(now))
                else:
                    dynamic(old, now, op, i, stored, lf, what)
                    num = sum(1 for x in now if x is not None)
                    if not num:
                        env.probe("emptied")
                    removed = op[:6] == "append" or num < sum(1 for x in old if x is not None)
                    need(not removed or len(now) == 0 or num / len(now) >= lf - 1e-6 or len(now) <= 2 * num + 1,
                         "not-contracted", "%s: %d of %d positions are filled, load factor %s",
                         what, num, len(now), lf)
                    if len(now) < len(old):
                        env.probe("contracted")
                    if len(now) > len(old):
                        env.probe("grown")
            nth += 1
            if dyn and nth % (1 + len(now) // 60) == 0:
                need(a.size == len(now), "wrong-size", "%s: size is %s of %d", what, a.size,
                     len(now))
                text = [str(x) if x is not None else "" for x in now]
                rest = eval(str(a))
                while text and text[-1] == "":
                    text.pop()
                while rest and rest[-1] == "":
                    rest.pop()
                need(rest == text, "wrong-str", "%s: str is %s, contents %s", what, show(str(a)),
                     show(now))
                if not cpp:
                    back = list(reversed(a))
                    while back and back[0] is None:
                        del back[0]
                    fw = list(now)
                    while fw and fw[-1] is None:
                        fw.pop()
                    need(eq(back, fw[::-1]), "wrong-reversed", "%s: reversed gives %s for %s",
                         what, show(back), show(now))


def dynamic(old, now, op, i, stored, lf, what):
    """Contents after a successful append or delete: same elements in the same
    order; positions kept unless the array fell below its load factor."""
    if op[:6] == "append":
        want = [x for x in old if x is not None] + [stored][:op == "append"]
    else:
        want = [x for j, x in enumerate(old) if x is not None and j != i]
    got = [x for x in now if x is not None]
    need(len(got) == len(want) and all(x is y or x == y for x, y in zip(got, want)),
         "wrong-contents", "%s: now %s", what, show(now))
    size = len(old) * 2 + 1 if op[:6] == "append" else len(old)
    if size and len(got) / size < lf + (0 if lf in (.25, .5) else 1e-6):
        return                                        # may have been compacted
    for j, x in enumerate(old):
        if x is not None and not (op == "delete" and j == i):
            need(j < len(now) and (now[j] is x or now[j] == x), "element-moved", "%s: now %s",
                 what, show(now))


def mda(case, env, cls, E, guarded, wrong):
    import itertools
    dims = [d for d in case["dims"] if d > 0]
    if not dims:
        return
    a = cls(E, *dims)
    need(a.shape == tuple(dims), "wrong-shape", "shape of dimensions %s is %s", dims, a.shape)
    model = {p: None for p in itertools.product(*[range(d) for d in dims])}
    for op, v, i, flag in case["ops"]:
        bad = flag == 9
        # the digits of i * 7 + v choose the position, sometimes out of range
        x, pos = abs(i) * 37 + v, []
        for d in dims:
            pos.append(x % (d + (2 if flag == 2 else 0)))
            x //= d
        pos = tuple(pos)
        key = pos if len(pos) > 1 else pos[0]
        what = "%s(%s) on dimensions %s" % (op, pos, dims)
        inside = pos in model
        if op == "set":
            val = E(v)
            k, out, f = guarded(lambda: a.__setitem__(key, val))
        elif op == "fill":
            val = wrong(v) if bad else E(v)
            k, out, f = guarded(lambda: a.fill(val))
        else:
            op = "get"
            k, out, f = guarded(lambda: a[key])
        env.ev(op, pos, flag, k, err(out) if k == "raise" else "")
        if f:
            pass
        elif op == "fill":
            try:
                val = val if type(val) is E else E(val)
                ok = True
            except (ValueError, TypeError):
                ok = False
            need((k == "ok") == ok, "unexpected-error" if k != "ok" else "no-error", "%s: %s", what,
                 show(out))
            if ok:
                for p in model:
                    model[p] = val
        elif not inside:
            env.probe("out_of_range")
            need(k == "raise" and isinstance(out, IndexError), "no-error",
                 "%s: out of range, but got %s", what, show(out))
        else:
            need(k == "ok", "unexpected-error", "%s: %s", what, err(out) if k == "raise" else "")
            if op == "set":
                model[pos] = val
            else:
                need(out is model[pos] or out == model[pos], "wrong-result", "%s: got %s, not %s",
                     what, out, model[pos])
        for p, want in model.items():
            got = a[p if len(p) > 1 else p[0]]
            need(got is want or got is not None and want is not None and got == want,
                 "wrong-contents", "after %s: position %s holds %s, not %s", what, p, got, want)
