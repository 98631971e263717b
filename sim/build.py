"""Builds the package under test from /repo's working tree, outside /repo: a
copy of the Python sources next to freshly compiled C++ extensions.  The cache
is keyed by the contents of every source file, so a stale build cannot be used."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
VENV = "/opt/venv/bin"
PY = VENV + "/python"


class BuildError(Exception):
    pass


def native():
    """The preloaded allocation seam (sim/native.c)."""
    src = os.path.join(VERIF, "sim", "native.c")
    with open(src, "rb") as fh:
        key = hashlib.sha256(fh.read()).hexdigest()[:16]
    so = os.path.join(CACHE, "native-%s.so" % key)
    if not os.path.exists(so):
        os.makedirs(CACHE, exist_ok=True)
        fd, tmp = tempfile.mkstemp(prefix="native-", suffix=".tmp", dir=CACHE)
        os.close(fd)
        p = subprocess.run(["/usr/bin/gcc", "-O1", "-shared", "-fPIC", "-fno-builtin", src, "-o",
                            tmp, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        if p.returncode:
            raise BuildError(p.stdout)
        os.rename(tmp, so)
    return so


def sources(repo):
    out = []
    for root, dirs, files in os.walk(os.path.join(repo, "pydatastructs")):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith((".py", ".cpp", ".hpp", ".h", ".cc", ".pxd", ".pyx")) \
                    or f == "meson.build":
                out.append(os.path.relpath(os.path.join(root, f), repo))
    out.append("meson.build")
    return out


def build(repo=None, quiet=True):
    repo = repo or REPO
    os.makedirs(CACHE, exist_ok=True)
    native()
    files = sources(repo)
    h = hashlib.sha256(b"v3")
    hc = hashlib.sha256(b"c3")
    blobs = {}
    for f in files:
        with open(os.path.join(repo, f), "rb") as fh:
            blobs[f] = fh.read()
        for hh in ([h] if f.endswith(".py") else [h, hc]):
            hh.update(f.encode() + b"\0" + hashlib.sha256(blobs[f]).digest())
    dest = os.path.join(CACHE, "pkg-" + h.hexdigest()[:24])
    extd = os.path.join(CACHE, "ext-" + hc.hexdigest()[:24])
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(extd, "exts.json")):
            _build_ext(files, blobs, extd)
        if not os.path.exists(os.path.join(dest, ".ok")):
            shutil.rmtree(dest, ignore_errors=True)
            _write(dest, [f for f in files if f.endswith(".py")], blobs)
            for src, dst in json.load(open(os.path.join(extd, "exts.json"))).items():
                d = os.path.join(dest, dst)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copy2(os.path.join(extd, src), d)
            open(os.path.join(dest, ".ok"), "w").close()
        os.utime(dest)
        os.utime(extd)
        _prune()
    return dest


def _write(dest, files, blobs):
    for f in files:
        d = os.path.join(dest, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        with open(d, "wb") as fh:
            fh.write(blobs[f])


def _build_ext(files, blobs, extd):
    tmp = extd + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    _write(tmp, files, blobs)
    env = {"PATH": VENV + ":" + os.environ.get("PATH", "/usr/bin:/bin"),
           "HOME": os.environ.get("HOME", "/root"), "CXXFLAGS": "-std=c++17",
           "CC": "/usr/bin/gcc", "CXX": "/usr/bin/g++", "VIRTUAL_ENV": "/opt/venv",
           "LANG": "C.UTF-8"}
    log = []

    def run(*cmd):
        p = subprocess.run(cmd, cwd=tmp, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        log.append(p.stdout)
        if p.returncode:
            raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
        return p.stdout
    run("meson", "setup", "_b", "--prefix=/usr")
    run("ninja", "-C", "_b")
    info = json.loads(subprocess.run(["meson", "introspect", "--installed", "_b"], cwd=tmp,
                                     env=env, stdout=subprocess.PIPE, check=True,
                                     text=True).stdout)
    exts = {}
    out = extd + ".out"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    for n, (src, dst) in enumerate(sorted(info.items())):
        if src.endswith(".so"):
            name = "%d-%s" % (n, os.path.basename(src))
            shutil.copy2(src, os.path.join(out, name))
            exts[name] = dst[dst.index("pydatastructs/"):]
    with open(os.path.join(out, "exts.json"), "w") as fh:
        json.dump(exts, fh)
    shutil.rmtree(extd, ignore_errors=True)
    os.rename(out, extd)
    shutil.rmtree(tmp, ignore_errors=True)


def _prune(keep=12):
    for pre in ("pkg-", "ext-"):
        ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith(pre)]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[keep:]:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e)
        sys.exit(2)
