"""Seam for C++ allocations: see native.c."""
import ctypes
import os


class Mallinfo(ctypes.Structure):
    _fields_ = [(f, ctypes.c_size_t) for f in (
        "arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks",
        "fordblks", "keepcost")]


class Native(object):
    def __init__(self):
        self.lib = None
        self.fired = 0
        self.seen = 0

    def load(self, so, prefix):
        """`so` has been preloaded; failing mallocs are those of extension
        modules below `prefix`."""
        self.lib = ctypes.CDLL(so)
        lib = self.lib
        self.mallinfo = ctypes.CDLL(None).mallinfo2
        self.mallinfo.restype = Mallinfo
        lib.sim_native_region.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
        lib.sim_native_rand.argtypes = [ctypes.POINTER(ctypes.c_int), ctypes.c_long]
        lib.sim_native_add.argtypes = [ctypes.c_long]
        lib.sim_native_count.restype = lib.sim_native_fired.restype = ctypes.c_long
        n = 0
        for line in open("/proc/self/maps"):
            f = line.split()
            if len(f) > 5 and f[5].startswith(prefix) and "x" in f[1]:
                a, b = f[0].split("-")
                lib.sim_native_region(int(a, 16), int(b, 16))
                n += 1
        return n

    def rand(self, values):
        """The next results of rand() in C++, the real one again if empty."""
        self.lib.sim_native_rand((ctypes.c_int * len(values))(*values), len(values))

    def in_use(self):
        """Bytes that malloc gave and that were not freed."""
        m = self.mallinfo()
        return m.uordblks + m.hblkhd

    def reset(self):
        self.lib.sim_native_reset()
        self.fired = 0

    def arm(self, at):
        lib = self.lib
        lib.sim_native_clear()
        for k in at:
            lib.sim_native_add(k)
        lib.sim_native_arm(1)

    def disarm(self, env):
        self.lib.sim_native_arm(0)
        n = self.lib.sim_native_fired()
        if n > self.fired:
            env.fault("malloc_failed", n - self.fired)
            self.fired = n


NATIVE = Native()
