"""P18: disjoint sets, multisets and tries hold exactly what was put there, also
when a key cannot be compared or hashed or an allocation fails half-way."""
from core import need, truth, gen_sched, pick_faults, AllocFault, InjectedError, InjectedMemoryError
from scen.common import err, run_threads, show, size
from simthread import SCHED

META = {
    "truth": True,
    "rule": "A run draws a disjoint set forest, a multiset or a trie and a history of insertions, "
            "unions, new roots, removals and queries, also of absent keys; drawn comparisons, hash "
            "computations, allocations or steps through a string fail; everything is read back "
            "after each step; then several threads read the structure at the same time, or carry "
            "out the history each for itself.",
    "quick_runs": 60000, "block": 500, "quick_wall": 200, "thorough_wall": 400,
    "real": ["DisjointSetForest, Set, Multiset with its red black tree, Trie, TrieNode",
             "CPython's threading on the simulated _thread"],
    "stub": ["comparison and hashing of keys, iteration of strings, allocation of sets, tree nodes "
             "and trie nodes (fail on demand)", "_thread"],
    "must_probe": ["allocation_failed", "comparison_failed", "hash_failed", "string_failed", "dsu",
                   "multiset", "trie", "new_root", "absent", "emptied", "prefix_is_word",
                   "readers", "own_structures", "again"],
}


class Key(object):
    """A key whose comparison or hash may fail."""
    ctl = None

    def __init__(self, v):
        self.v = v

    def _step(self, kind):
        c = Key.ctl
        if c and c["on"]:
            if SCHED.active:
                SCHED.point()
            if c["at"]:
                c["n"] += 1
                if c["n"] in c["at"] and not c["off"]:
                    c["fired"] += 1
                    c["off"] = True
                    c["env"].fault(kind)
                    raise InjectedError(c["n"])

    def __hash__(self):
        self._step("hash_failed")
        return self.v % 5

    def __eq__(self, o):
        self._step("comparison_failed")
        return isinstance(o, Key) and self.v == o.v

    def __lt__(self, o):
        self._step("comparison_failed")
        return truth(self.v < o.v)

    def __le__(self, o):
        self._step("comparison_failed")
        return truth(self.v <= o.v)

    def __gt__(self, o):
        self._step("comparison_failed")
        return truth(self.v > o.v)

    def __ge__(self, o):
        self._step("comparison_failed")
        return truth(self.v >= o.v)

    def __repr__(self):
        return "K%d" % self.v


class Word(str):
    """A string; the step to its next character may fail."""
    ctl = None

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __getitem__(self, i):
        c = Word.ctl
        if c and c["on"] and c["at"]:
            c["n"] += 1
            if c["n"] in c["at"] and not c["off"]:
                c["fired"] += 1
                c["off"] = True
                c["env"].fault("string_failed")
                raise InjectedError(c["n"])
        return str.__getitem__(self, i)
    __hash__ = str.__hash__


def gen(rng, tier):
    kind = rng.choice(["dsu", "multiset", "trie"])
    n = size(rng, [4, 8, 16, 30], (31, 150))
    ops = []
    case = {"kind": kind, "ops": ops, "keys": rng.choice(["int", "str", "key", "key"]),
            "at": [], "alloc_at": [], "scheds": [], "par": 0,
            "hash": rng.randrange(1 << 16)}
    if kind == "dsu":
        m = rng.choice([2, 4, 6, 9] if n <= 30 else [9, 20, 40])
        for _ in range(n):
            x = rng.random()
            a, b = rng.randrange(m), rng.randrange(m)
            if x < .3:
                ops.append(["make", a])
            elif x < .65:
                ops.append(["union", a, b])
            elif x < .8:
                ops.append(["root", a])
            else:
                ops.append(["find", a])
        if rng.random() < .6:
            ops[:0] = [["make", i] for i in range(m)]
        case["m"] = m
    elif kind == "multiset":
        m = rng.choice([2, 4, 6, 10] if n <= 30 else [10, 20, 40])
        p = rng.choice([.5, .6, .8])
        for _ in range(n):
            ops.append(["add" if rng.random() < p else "remove", rng.randrange(m)])
        case["m"] = m
        case["init"] = [rng.randrange(m) for _ in range(rng.choice([0, 0, 1, 4, 7]))]
    else:
        alpha = rng.choice(["ab", "ab", "abc", "a\u00e9$"])
        words = ["".join(rng.choice(alpha) for _ in range(size(rng, [0, 1, 1, 2, 3, 4], (5, 40))))
                 for _ in range(rng.choice([2, 4, 8]))]
        words += [w[:rng.randrange(len(w) + 1)] for w in words if rng.random() < .3]
        p = rng.choice([.5, .6, .8])
        for _ in range(n):
            ops.append(["insert" if rng.random() < p else "delete", rng.choice(words)])
        case["keys"] = "word"
    x = rng.random()
    if x < .35:
        case["at"] = pick_faults(rng, 1, rng.choice([4, 15, 60]), rng.choice([1, 2, 3]))
        if kind != "trie":
            case["keys"] = "key"
    elif x < .6:
        case["alloc_at"] = pick_faults(rng, 1, rng.choice([3, 8, 20]), rng.choice([1, 2, 3]))
    if rng.random() < .12:
        case["par"] = rng.choice([2, 3])
        case["scheds"] = [gen_sched(rng, horizon=2000), gen_sched(rng, horizon=1000)]
    return case


class Dsu(object):
    """The forest and a plain model of it."""

    def __init__(self, case, env, ctl):
        from pydatastructs import DisjointSetForest
        self.s, self.env = DisjointSetForest(), env
        self.keys = make_keys(case)
        self.data = {}
        self.sets = {}               # index -> list shared by the members, the root first

    def copy(self):
        seen = {}
        return {i: seen.setdefault(id(g), list(g)) for i, g in self.sets.items()}

    def do(self, op):
        k = self.keys
        i = op[1]
        f = {"make": lambda: self.s.make_set(k[i], ("data", i, len(self.data))),
             "union": lambda: self.s.union(k[i], k[op[2]]),
             "root": lambda: self.s.make_root(k[i]),
             "find": lambda: self.s.find_root(k[i])}[op[0]]
        self.pending = ("data", i, len(self.data))
        return f

    def expect(self, op):
        """(refused?, check of the answer, change of the model)"""
        s = self.sets
        if op[0] == "make":
            def change():
                if op[1] in s:
                    self.env.probe("again")
                else:
                    s[op[1]] = [op[1]]
                    self.data[op[1]] = self.pending
            return False, None, change
        if any(i not in s for i in op[1:]):
            return True, None, None
        if op[0] == "union":
            def change():
                a, b = s[op[1]], s[op[2]]
                if a is b:
                    return
                if len(a) == len(b):
                    # any of the two may become the root
                    r = self.index(self.s.find_root(self.keys[op[1]]).key)
                    if b[0] == r:
                        a, b = b, a
                elif len(a) < len(b):
                    a, b = b, a
                a += b
                for i in b:
                    s[i] = a
            return False, None, change
        if op[0] == "root":
            def change():
                g = s[op[1]]
                g.remove(op[1])
                g.insert(0, op[1])
                self.env.probe("new_root")
            return False, None, change
        return False, lambda out: need(
            out.key == self.keys[s[op[1]][0]], "wrong-root", "%s: root %s, should be %s", op,
            show(out.key), self.keys[s[op[1]][0]]), None

    def index(self, key):
        return [i for i, k in enumerate(self.keys) if k == key][0]

    def differs(self, sets=None):
        """What a reader sees otherwise than it should, or None."""
        sets = self.sets if sets is None else sets
        groups, roots = {}, {}
        for i, k in enumerate(self.keys):
            if i not in sets:
                for f in (self.s.find_root, self.s.find_size):
                    try:
                        out = f(k)
                    except KeyError:
                        continue
                    return "phantom", "%s is in no set, but %s says %s" % (k, f.__name__, show(out))
                continue
            g = sets[i]
            r = self.s.find_root(k)
            if r.key != self.keys[g[0]]:
                return "wrong-root", "the root of %s is %s instead of %s" % (k, r.key,
                                                                            self.keys[g[0]])
            if roots.setdefault(id(g), r) is not r:
                return "wrong-root", "members of one set have different root objects"
            if r.data != self.data[g[0]]:
                return "wrong-data", "the root of %s holds %s instead of %s" % (k, show(r.data),
                                                                              self.data[g[0]])
            if self.s.find_size(k) != len(g):
                return "wrong-size", "the set of %s has size %s instead of %s" % (
                    k, self.s.find_size(k), len(g))
            groups[id(g)] = sorted(self.keys[j] for j in g)
        want = sorted(groups.values())
        got = self.s.disjoint_sets()
        if got != want:
            return "wrong-sets", "disjoint_sets() is %s instead of %s" % (show(got), show(want))

    def reader(self):
        return [(str(k), str(self.s.find_root(k).key), self.s.find_size(k))
                for i, k in enumerate(self.keys) if i in self.sets] + [str(self.s.disjoint_sets())]


class Multi(object):
    def __init__(self, case, env, ctl):
        from pydatastructs.miscellaneous_data_structures import Multiset
        self.env = env
        self.keys = make_keys(case)
        init = [i for i in case["init"] if i < len(self.keys)]
        self.s = Multiset(*[self.keys[i] for i in init])
        self.n = {}
        for i in init:
            self.n[i] = self.n.get(i, 0) + 1

    def copy(self):
        return dict(self.n)

    def do(self, op):
        k = self.keys[op[1]]
        return (lambda: self.s.add(k)) if op[0] == "add" else (lambda: self.s.remove(k))

    def expect(self, op):
        i = op[1]

        def change():
            if op[0] == "add":
                if self.n.get(i):
                    self.env.probe("again")
                self.n[i] = self.n.get(i, 0) + 1
            else:
                self.n[i] -= 1
                if not self.n[i]:
                    del self.n[i]
                if not self.n:
                    self.env.probe("emptied")
        if op[0] == "remove" and i not in self.n:
            return None, None, None           # refused or without effect
        return False, None, change

    def differs(self, n=None):
        n = self.n if n is None else n
        s = self.s
        if len(s) != sum(n.values()):
            return "wrong-length", "length %s instead of %s" % (len(s), sum(n.values()))
        order = sorted(n)
        for i, k in enumerate(self.keys):
            if s.count(k) != n.get(i, 0):
                return "wrong-count", "count(%s) is %s instead of %s" % (k, s.count(k), n.get(i, 0))
            if (k in s) is not (i in n):
                return "wrong-member", "%s in the multiset: %s" % (k, k in s)
            lo = [self.keys[j] for j in order if j >= i][:1]
            up = [self.keys[j] for j in order if j > i][:1]
            for name, f, want in (("lower_bound", s.lower_bound, lo),
                                  ("upper_bound", s.upper_bound, up)):
                got = f(k)
                if got != (want[0] if want else None):
                    return "wrong-bound", "%s(%s) is %s instead of %s" % (
                        name, k, got, want[0] if want else None)

    def reader(self):
        s = self.s
        return [(str(k), s.count(k), str(s.lower_bound(k)), str(s.upper_bound(k)), k in s)
                for k in self.keys] + [len(s)]


class Words(object):
    def __init__(self, case, env, ctl):
        from pydatastructs import Trie
        self.s, self.env = Trie(), env
        self.words = sorted(set(w for _, w in case["ops"]))
        self.near = sorted(set(w[:i] for w in self.words for i in range(len(w) + 1)) |
                           set(w + "a" for w in self.words))
        self.set = set()

    def copy(self):
        return set(self.set)

    def do(self, op):
        w = Word(op[1])
        return (lambda: self.s.insert(w)) if op[0] == "insert" else (lambda: self.s.delete(w))

    def expect(self, op):
        w = op[1]
        if op[0] == "insert":
            def change():
                if w in self.set:
                    self.env.probe("again")
                self.set.add(w)
                if any(v != w and v.startswith(w) for v in self.set):
                    self.env.probe("prefix_is_word")
            return False, None, change
        if w in self.set:
            def change():
                self.set.discard(w)
                if not self.set:
                    self.env.probe("emptied")
            return False, lambda out: need(out is True, "wrong-answer", "delete(%r) of a string "
                                           "that is there: %s", w, show(out)), change
        # a prefix of other strings counts as present in the documentation
        ok = (None, True) if not w or any(v.startswith(w) for v in self.set) else (None,)
        return False, lambda out: need(out in ok, "wrong-answer", "delete(%r) of a string that is "
                                       "not there: %s", w, show(out)), lambda: self.env.probe("absent")

    def differs(self, words=None):
        words = self.set if words is None else words
        s = self.s
        for w in self.near:
            if s.is_inserted(w) is not (w in words):
                return "wrong-member", "is_inserted(%r) is %s" % (w, s.is_inserted(w))
            under = sorted(v for v in words if v.startswith(w))
            if w and s.is_present(w) is not bool(under):
                return "wrong-prefix", "is_present(%r) is %s, strings with this prefix: %s" % (
                    w, s.is_present(w), under)
            got = s.strings_with_prefix(w)
            if sorted(got, key=str) != under:
                return "wrong-strings", "strings_with_prefix(%r) is %s instead of %s" % (
                    w, show(got), show(under))

    def reader(self):
        return [(w, self.s.is_inserted(w), self.s.is_present(w), sorted(self.s.strings_with_prefix(w)))
                for w in self.near]


def make_keys(case):
    k = case["keys"]
    return [i if k == "int" else "k%02d" % i if k == "str" else Key(i) for i in range(case["m"])]


def history(case, env, ctl, af, faults):
    s = {"dsu": Dsu, "multiset": Multi, "trie": Words}[case["kind"]](case, env, ctl)
    done = []
    for op in case["ops"]:
        if len(op) < 2 or not isinstance(op[1], str) and any(i >= case["m"] for i in op[1:]):
            continue
        before = s.copy()
        refused, check, change = s.expect(op)
        fn = s.do(op)
        what = "%s %s after %s" % (case["kind"], op, show(done, 400))
        if faults:
            env.nops += 1
            ctl["on"] = af.armed = True
            ctl["off"] = False               # at most one failing key operation per call
            c0 = ctl["fired"]
            f0 = c0 + af.fired
        try:
            k, out = "ok", fn()
        except Exception as e:
            k, out = "raise", e
        finally:
            if faults:
                ctl["on"] = af.armed = False
        failed = faults and ctl["fired"] + af.fired - f0
        if failed and k == "ok" and op[0] == "remove" and ctl["fired"] == c0:
            failed = 0                       # an array may stay larger than it need be
        if faults:
            env.ev(op[0], op[1:], k, err(out) if k == "raise" else "")
        if failed:
            need(k == "raise" and isinstance(out, (InjectedError, InjectedMemoryError)),
                 "fault-swallowed", "%s: injected failure, but got %s", what,
                 err(out) if k == "raise" else show(out))
            was = s.differs(before)
            if was and change:
                change()
            done.append(op + ["failed"])
        elif refused:
            env.probe("absent")
            need(k == "raise" and isinstance(out, KeyError), "not-refused",
                 "%s: absent key, but got %s", what, err(out) if k == "raise" else show(out))
            done.append(op)
        elif refused is None:
            env.probe("absent")
            need(k == "ok" or isinstance(out, (KeyError, ValueError)), "unexpected-error",
                 "%s: absent element: %s", what, err(out) if k == "raise" else "")
            done.append(op)
        else:
            need(k == "ok", "unexpected-error", "%s: %s", what, err(out) if k == "raise" else "")
            if check:
                check(out)
            if change:
                change()
            done.append(op)
        bad = s.differs() if faults or op is case["ops"][-1] else None
        need(not bad, bad and bad[0], "%s%s: %s", what, " (failed)" if failed else "",
             bad and bad[1])
    s.done = done
    return s


def run(case, env):
    from pydatastructs.utils.misc_util import Set, TrieNode, RedBlackTreeNode, TreeNode
    from pydatastructs.linear_data_structures.arrays import OneDimensionalArray
    if case["kind"] != "trie" and case["m"] < 1:
        return
    ctl = {"on": False, "at": set(case["at"]), "n": 0, "env": env, "fired": 0,
           "off": False}
    Key.ctl = Word.ctl = ctl
    try:
        with AllocFault(env, [Set, TrieNode, RedBlackTreeNode, TreeNode, OneDimensionalArray],
                        case["alloc_at"]) as af:
            s = history(case, env, ctl, af, True)
            env.probe(case["kind"])
        if not (case["par"] and case["scheds"]):
            return
        af.armed = False
        ctl["at"] = set()
        # several readers
        want = s.reader()
        ctl["on"] = True
        env.probe("readers")
        outs = run_threads(env, case["scheds"][0], [s.reader for _ in range(case["par"])])
        for k, v in outs:
            need(k == "ok", "unexpected-error", "%s after %s read by several threads: %s",
                 case["kind"], show(s.done), err(v) if k == "raise" else "")
            need(v == want, "wrong-answer", "%s after %s read by several threads: %s instead of %s",
                 case["kind"], show(s.done), show(v), show(want))
        # every thread with a structure of its own
        ctl["on"] = False
        short = dict(case, ops=case["ops"][:10])
        want = history(short, env, ctl, af, False).reader()
        ctl["on"] = True
        env.probe("own_structures")
        outs = run_threads(env, case["scheds"][1], [
            lambda: history(short, env, ctl, af, False).reader() for _ in range(case["par"])])
        ctl["on"] = False
        for k, v in outs:
            need(k == "ok", "unexpected-error", "several threads, each with %s of its own, %s: %s",
                 case["kind"], show(case["ops"]), getattr(v, "msg", None) or err(v)
                 if k == "raise" else "")
            need(v == want, "wrong-answer", "several threads, each with %s of its own, %s: %s "
                 "instead of %s", case["kind"], show(case["ops"]), show(v), show(want))
        bad = s.differs()
        need(not bad, bad and bad[0], "%s after %s and other threads: %s", case["kind"],
             show(s.done), bad and bad[1])
    finally:
        Key.ctl = Word.ctl = None
