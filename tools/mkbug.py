#!/usr/bin/env python3
"""Plant a bug described by a spec file in a scratch copy, confirm it (builds,
passes the repository's tests, demo fails with it and passes without it), run the
check of its property against it and store it under seeded/.

usage: mkbug.py SPEC.py [...]     (SPEC: prop, needs, breaks, edits, demo)
       mkbug.py --recheck [ID..]  run the checks against the stored bugs
"""
import json, os, shutil, subprocess, sys, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "sim"))
sys.dont_write_bytecode = True
import build as builder
PY = "/opt/venv/bin/python"
WT = "/tmp/mkbug-wt"


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def fresh():
    shutil.rmtree(WT, ignore_errors=True)
    os.makedirs(WT)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % WT, shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x "
                   "commit -qm base", shell=True, cwd=WT, check=True)


def tests(pkg):
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "4",
            "--doctest-modules", "--ignore-glob=*/tests/benchmarks", "pydatastructs"],
           cwd=pkg, env=dict(os.environ, PYTHONPATH=pkg, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
    return r.returncode == 0, r.stdout[-1500:]


def demo(d, pkg):
    try:
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=pkg, timeout=290)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def check(prop):
    r = sh(["./check.sh", prop], cwd=VERIF, env=dict(os.environ, SIM_REPO=WT, VERIF_SEED="1",
           VERIF_TIER="quick", SIM_MIN_SECS="5"))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
    first = [l for l in r.stdout.splitlines() if "violated" in l or "ERROR" in l or l.startswith("ok")]
    return r.returncode == 1 and bool(v), (first or [r.stdout[-300:]])[0][:260]


def plant(spec):
    ns = {}
    exec(open(spec).read(), ns)
    bid = os.path.splitext(os.path.basename(spec))[0]
    fresh()
    for f, old, new in ns["edits"]:
        p = os.path.join(WT, "pydatastructs", f)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        s = s.replace("\r\n", "\n")
        assert s.count(old) == 1, "%s: %d matches in %s: %s" % (bid, s.count(old), f, old)
        s = s.replace(old, new)
        open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
    diff = sh(["git", "diff"], cwd=WT).stdout
    d = os.path.join(VERIF, "seeded", bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "demo.py"), "w").write(ns["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 250 %s "$(dirname "$0")/demo.py"\n' % PY)
    raw = subprocess.run(["git", "diff"], cwd=WT, capture_output=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(raw)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    try:
        pkg = builder.build(WT)
        ok, out = tests(pkg)
        base = builder.build("/repo")
        d0, o0 = demo(d, base)
        d1, o1 = demo(d, pkg)
    except builder.BuildError as e:
        ok, out, d0, d1, o0, o1 = False, str(e), 9, 9, "", ""
    good = ok and d0 == 0 and d1 != 0
    if not good:
        print(bid, "REJECTED tests=%s demo clean=%s buggy=%s" % (ok, d0, d1))
        if not ok:
            print(out)
        print(o0, o1)
        shutil.rmtree(d)
        return

    c, msg = check(ns["prop"])
    print(bid, "confirmed;", "CAUGHT" if c else "MISSED", msg, flush=True)


def recheck(ids):
    for bid in ids or sorted(os.listdir(os.path.join(VERIF, "seeded"))):
        fresh()
        d = os.path.join(VERIF, "seeded", bid)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        r = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=WT)
        if r.returncode:
            print(bid, "DOES NOT APPLY", r.stderr[-300:], flush=True)
            continue
        c, msg = check(prop)
        print(bid, prop, "CAUGHT" if c else "MISSED", msg, flush=True)


if sys.argv[1] == "--recheck":
    recheck(sys.argv[2:])
else:
    for s in sys.argv[1:]:
        plant(s)
shutil.rmtree(WT, ignore_errors=True)
