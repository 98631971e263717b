"""P06: skip list as an ordered collection for every coin-flip stream and under
failing allocations."""
import random

from core import need, AllocFault, RandomSeam, RANDOM_MODES, InjectedMemoryError, pick_faults
from scen.common import err, show, size

META = {
    "rule": "A run draws a history of inserts, extractions, searches and prints over a small key "
            "universe (ints, floats or strings-free mixes, repeated keys included), a coin-flip "
            "stream (fair, all-heads, all-tails, alternating, biased) and, in half of the runs, "
            "node allocations that fail.",
    "quick_runs": 12000, "block": 300, "quick_wall": 200, "thorough_wall": 300,
    "real": ["SkipList, SkipNode"],
    "stub": ["random (coin flips come from the simulator)", "node allocation (can fail on "
             "demand)"],
    "must_probe": ["allocation_failed", "missing_key", "duplicate_key", "emptied", "tall"],
}


def gen(rng, tier):
    n = size(rng, [3, 6, 12, 25, 40], (41, 200))
    uni = rng.choice([2, 4, 8, 16] if n <= 40 else [16, 60, 150])
    dup = rng.random() < .3
    ops = []
    bias = rng.choice([0.35, 0.5, 0.7])
    for _ in range(n):
        k = rng.randrange(uni)
        x = rng.random()
        if x < bias:
            ops.append(["ins", k, rng.randrange(1000)])
        elif x < bias + 0.3:
            ops.append(["del", k, 0])
        elif x < bias + 0.4:
            ops.append(["has", k, 0])
        elif x < bias + 0.43:
            ops.append(["str", 0, 0])
        elif x < bias + 0.45:
            ops.append(["bad", 0, 0])
        else:
            ops.append(["ins" if rng.random() < .5 else "del", k, rng.randrange(1000)])
    return {"ops": ops, "keys": rng.choice(["int", "neg", "float"]), "dup": dup,
            "rand": [rng.choice(RANDOM_MODES), rng.randrange(1 << 30)],
            "alloc_at": pick_faults(rng, 1, n * 2, rng.choice([1, 2, 4]))
            if rng.random() < .5 else []}


KEY = {"int": lambda k: k, "neg": lambda k: -3 * k + 5, "float": lambda k: k / 2.0 - 1}


def structure(sl, what):
    """Level by level, when the nodes are reachable from `head`."""
    head = getattr(sl, "head", None)
    if head is None:
        return None
    below = None
    rows = []
    try:
        row = head
        while row is not None:
            keys = []
            node = row.next
            while node is not None and node.next is not None:
                keys.append(node.key)
                node = node.next
                need(len(keys) < 10000, "corrupt", "%s: endless level", what)
            rows.append(keys)
            row = row.down
    except AttributeError:
        return None
    for up, low in zip(rows, rows[1:]):
        need(up == sorted(up), "corrupt", "%s: unsorted level %s", what, up)
        pool = list(low)
        for k in up:
            need(k in pool, "corrupt", "%s: key %s on an upper level only: %s", what, k, rows)
            pool.remove(k)
    return rows[-1] if rows else None


def run(case, env):
    from pydatastructs import SkipList
    from pydatastructs.utils.misc_util import SkipNode
    conv = KEY[case["keys"]]
    model = {}          # key -> list of data, any of which may come out
    with RandomSeam(env, *case["rand"]) as rs, \
            AllocFault(env, [SkipNode], case["alloc_at"]) as af:
        sl = SkipList()
        universe = [conv(k) for k in range(17)]
        for op, k, d in case["ops"]:
            key = conv(k)
            what = "%s(%s) after %s" % (op, key, show(sorted(model.items())))
            if op == "ins" and key in model:
                if not case["dup"]:
                    continue
                env.probe("duplicate_key")
            env.nops += 1
            af.armed = True
            f0 = af.fired
            try:
                if op == "ins":
                    out = sl.insert(key, d)
                elif op == "del":
                    out = sl.extract(key)
                elif op == "has":
                    out = sl.search(key)
                elif op == "bad":
                    out = sl.insert("not a number", 1)
                else:
                    out = str(sl)
                kind = "ok"
            except Exception as e:
                kind, out = "raise", e
            finally:
                af.armed = False
            env.ev(op, key, kind, err(out) if kind == "raise" else
                   (str(out) if op != "ins" else None))
            if af.fired > f0:
                need(kind == "raise" and isinstance(out, InjectedMemoryError), "fault-swallowed",
                     "%s: an allocation failed but the operation gave %s", what, show(out))
            elif op == "ins":
                need(kind == "ok", "unexpected-error", "%s: %s", what, show(out))
                model.setdefault(key, []).append(d)
            elif op == "del":
                if key in model:
                    need(kind == "ok" and out.key == key and out.data in model[key],
                         "wrong-extract", "%s: got %s", what,
                         err(out) if kind == "raise" else str(out))
                    model[key].remove(out.data)
                    if not model[key]:
                        del model[key]
                    if not model:
                        env.probe("emptied")
                else:
                    env.probe("missing_key")
                    need(kind == "raise" and isinstance(out, KeyError), "missing-key",
                         "%s: expected KeyError, got %s", what, show(out))
            elif op == "has":
                need(kind == "ok" and bool(out) == (key in model), "wrong-search",
                     "%s: got %s", what, show(out))
            elif op == "bad":
                if not model and kind == "ok":
                    return      # a list of strings from now on: nothing to compare with
                need(kind == "raise" and isinstance(out, TypeError), "incomparable-key",
                     "%s: expected TypeError, got %s", what, show(out))
            else:
                need(kind == "ok", "unexpected-error", "%s: str failed: %s", what, show(out))
                for kk, ds in model.items():
                    need("(%s, " % kk in out, "wrong-str", "%s: %s is missing in %r", what,
                         kk, out)
            total = sum(len(v) for v in model.values())
            need(sl.size == total, "wrong-size", "after %s: size %s, expected %s", what,
                 sl.size, total)
            for u in universe:
                need(bool(sl.search(u)) == (u in model), "wrong-membership",
                     "after %s: search(%s) is %s", what, u, not (u in model))
            need(sl.levels >= 1, "wrong-levels", "after %s: %s levels", what, sl.levels)
            if sl.levels > 4:
                env.probe("tall")
            row = structure(sl, what)
            if row is not None:
                exp = sorted(k for k, v in model.items() for _ in v)
                need(row == exp, "wrong-contents", "after %s: bottom level %s, expected %s",
                     what, row, exp)
        env.ev("draws", rs.draws)
        if rs.draws and rs.mode != "fair":
            env.fault("biased_random_stream")
