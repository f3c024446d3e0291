#!/usr/bin/env python3
"""setup_cmd: nothing to install; checks that the tools the checks call exist and
that the oracle compiles and answers known values."""
import ctypes
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("gcc", "g++", "git"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
with tempfile.TemporaryDirectory() as d:
    subprocess.check_call(["gcc", "-O2", "-ffp-contract=off", "-shared", "-fPIC", V + "/src/oracle.c", "-lm", "-o", d + "/o.so"])
    o = ctypes.CDLL(d + "/o.so")
    o.o_h2d.restype = ctypes.c_double
    o.o_d2h.argtypes = [ctypes.c_double]
    o.o_d2h.restype = ctypes.c_uint16
    import struct
    for h in range(65536):
        w = struct.unpack("<e", struct.pack("<H", h))[0]
        g = o.o_h2d(h)
        assert (w != w and g != g) or struct.pack("<d", w) == struct.pack("<d", g), hex(h)
        if w == w and abs(w) != float("inf"):
            assert o.o_d2h(w) == h, hex(h)
    import random
    r = random.Random(1)
    for _ in range(100000):
        x = struct.unpack("<d", struct.pack("<Q", (r.getrandbits(1) << 63) | ((1023 + r.randrange(-26, 16)) << 52) | (r.getrandbits(52) & r.choice([-1, -1 << 40, -1 << 41, -1 << 42, -1 << 36])) & ((1 << 52) - 1)))[0]
        try:
            w = struct.unpack("<H", struct.pack("<e", x))[0]
        except OverflowError:
            w = 0xfc00 if x < 0 else 0x7c00
        assert o.o_d2h(x) == w, x
print("selftest ok")
