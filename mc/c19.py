"""C19: SIMD vector setters place every lane; feature flags tell the truth."""
import ctypes
import json
import mmap
import os
import struct
import subprocess
import sys

from mc.common import *

NSH = 16
M = None
BASE = None
PAGE = mmap.PAGESIZE
SETTERS = {"setAVX512Vector32": (64, 4), "setAVX512Vector16": (64, 2), "setAVX512Vector8": (64, 1), "setAVX2Vector32": (32, 4), "setAVX2Vector16": (32, 2),
           "setAVX2Vector8": (32, 1)}
BITS = ("max1", "avx", "xsave", "avx2", "avx512f", "sse41", "ssse3")
XCR0 = [1 | a for a in range(0, 8, 2)] + []
FMT = {1: "b", 2: "h", 4: "i"}


def BOUNDS(tier):
    return "flags: all %d combinations of 7 CPUID facts and 6 XCR0 bits, each in a process of its own whose CPUID and XGETBV are answered by the explorer, and the real " \
           "processor; setters: 6 setters x every lane x %s values of its width over 3 backgrounds of distinct lanes, every pair of lanes with extreme values, every place " \
           "against an inaccessible page; all argument counts 0-80; every kind of bad argument at every position" % (
               2 ** 7 * 64, "boundary (8 bits: all)" if tier == "quick" else "boundary (8 and 16 bits: all)")


def spaces(tier):
    return [{"name": "flags", "variant": "cpu@avx512", "shards": 32}, {"name": "real", "variant": "plain", "shards": 1}, {"name": "lanes", "variant": "plain", "shards": NSH},
            {"name": "pairs", "variant": "plain", "shards": NSH}, {"name": "args", "variant": "plain", "shards": NSH}]


def xcr0s():
    for m in range(64):
        v = 0
        for i, b in enumerate((0, 1, 2, 5, 6, 7)):
            if m >> i & 1:
                v |= 1 << b
        yield v


def values(size, tier):
    if size == 1:
        return range(-128, 256)
    if size == 2 and tier != "quick":
        return range(-32768, 65536)
    lim = 8 * size
    out = set()
    for k in range(lim):
        for d in (-1, 0, 1):
            out.add(2 ** k + d)
            out.add(-2 ** k + d)
    top = 2 ** (lim - 1) if size == 4 else 2 ** lim
    return sorted(v for v in out if -2 ** (lim - 1) <= v < top)


def gen(space, tier):
    if space == "flags":
        for m in range(128):
            yield ("f", m)
    elif space == "real":
        yield ("r",)
    elif space == "lanes":
        for f, (n, size) in SETTERS.items():
            for lane in range(n // size):
                yield ("l", f, lane, tier)
    elif space == "pairs":
        for f, (n, size) in SETTERS.items():
            for a in range(n // size):
                yield ("p", f, a)
    else:
        for f, (n, size) in SETTERS.items():
            for c in range(0, 81):
                yield ("c", f, c)
            for pos in range(n // size + 1):
                yield ("b", f, pos)


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, {"flags": 32, "real": 1}.get(space, NSH))


# ------------------------------------------------------------------ flags

ZYGOTE = r"""
import os, sys, json, ctypes
sys.path[:0] = json.loads(sys.argv[1])
import importlib
assert importlib
for line in sys.stdin:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.environ["FAKECPU"] = line.strip()
        try:
            from pyfastutil.unsafe import SIMD
            s = SIMD()
            lib = ctypes.CDLL(sys.modules["pyfastutil.__pyfastutil"].__file__) if "pyfastutil.__pyfastutil" in sys.modules else None
            n = {}
            for k in ("fakecpu_calls", "fakecpu_xgetbv", "fakecpu_fault"):
                try:
                    n[k] = ctypes.c_ulong.in_dll(lib, k).value
                except (ValueError, TypeError):
                    n[k] = 0
            n["flags"] = [s.isSSE41Supported(), s.isSSSE3Supported(), s.isAVX2Supported(), s.isAVX512Supported(), s.isArmNeonSupported()]
            out = json.dumps(n)
        except BaseException as e:
            out = json.dumps({"error": repr(e)})
        os.write(w, out.encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    print(data.decode() if st == 0 and data else json.dumps({"error": "status %d" % st}), flush=True)
"""
Z = None
FULL = "avx,xsave,avx2,avx512f,sse41,ssse3,xcr0=e7"


def ask(words):
    global Z
    if Z is None:
        env = dict(os.environ)
        env.pop("MC_WORKER", None)
        Z = subprocess.Popen([sys.executable, "-S", "-c", ZYGOTE, json.dumps([p for p in sys.path if p])], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True, env=env)
    Z.stdin.write(words + "\n")
    Z.stdin.flush()
    return json.loads(Z.stdout.readline())


def cleanup_worker():
    if Z is not None:
        Z.stdin.close()
        Z.wait()


def flags(m):
    on = [b for i, b in enumerate(BITS) if m >> i & 1]
    full = ask(FULL)
    if "error" in full:
        return "the module does not load: %s" % full["error"]
    if full["fakecpu_calls"] == 0:
        S.outcome("processor not asked through a known way")
        return None
    for x in xcr0s():
        if full["fakecpu_xgetbv"] == 0 and x != 0xe7:
            S.outcome("state register not asked through a known way")
            continue
        S.transitions += 1
        words = ",".join(on + ["xcr0=%x" % x])
        S.visit(("flags", words))
        r = ask(words)
        if "error" in r:
            return "on a processor with %s the module does not load: %s" % (words, r["error"])
        if r["fakecpu_fault"]:
            return "on a processor with %s XGETBV is executed though the operating system has not enabled it" % words
        leaf7 = "max1" not in on
        ymm = "avx" in on and "xsave" in on and x & 6 == 6
        want = ["sse41" in on, "ssse3" in on, ymm and leaf7 and "avx2" in on, ymm and leaf7 and "avx512f" in on and x & 0xe6 == 0xe6, False]
        if r["flags"] != want:
            names = ("isSSE41Supported", "isSSSE3Supported", "isAVX2Supported", "isAVX512Supported", "isArmNeonSupported")
            return "on a processor with %s: %s" % (words, ", ".join("%s is %r" % (n, g) for n, g, w in zip(names, r["flags"], want) if g != w))
    return None


def real():
    with open("/proc/cpuinfo") as fh:
        words = set()
        for line in fh:
            if line.startswith("flags"):
                words = set(line.split(":")[1].split())
                break
    for fn, w in (("isSSE41Supported", "sse4_1"), ("isSSSE3Supported", "ssse3"), ("isAVX2Supported", "avx2"), ("isAVX512Supported", "avx512f")):
        got = getattr(M, fn)()
        if got is not (w in words):
            return "%s is %r, the operating system says %r" % (fn, got, w in words)
    if M.isArmNeonSupported() is not False:
        return "isArmNeonSupported on this processor"
    msg = context_manager(type(M))
    if msg:
        return msg
    for fn in ("isSSE41Supported", "isSSSE3Supported", "isAVX2Supported", "isAVX512Supported", "isArmNeonSupported"):
        try:
            getattr(M, fn)(1)
        except TypeError:
            continue
        return "%s takes an argument" % fn
    return None


# ------------------------------------------------------------------ setters

AREA = 4096


def setup():
    global M, BASE
    if M is not None:
        return
    from pyfastutil.unsafe import SIMD
    M = SIMD()
    libc = ctypes.CDLL(None)
    libc.mmap.restype = ctypes.c_void_p
    libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t] + [ctypes.c_int] * 3 + [ctypes.c_long]
    libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
    b = libc.mmap(None, 3 * PAGE, 0, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS, -1, 0)
    BASE = b + PAGE
    if libc.mprotect(BASE, PAGE, 3) != 0:
        raise OSError("mprotect")


def pattern(size):
    n = size
    return bytes((i * 37 + 11) % 256 for i in range(n))


def places(n):
    return (BASE, BASE + 1024, BASE + PAGE - n)


def check(f, n, size, vals, at, why):
    """vals: the arguments, first to last."""
    lo, hi = max(BASE, at - 128), min(BASE + PAGE, at + n + 128)
    before = pattern(hi - lo)
    ctypes.memmove(lo, before, hi - lo)
    S.transitions += 1
    try:
        r = getattr(M, f)(at, *vals)
    except Exception as e:
        return "%s with %s raises %r" % (f, why, e)
    if r is not None:
        return "%s returns %r" % (f, r)
    want = b"".join((v & (1 << 8 * size) - 1).to_bytes(size, "little") for v in reversed(vals))
    got = ctypes.string_at(lo, hi - lo)
    if got[at - lo:at - lo + n] != want:
        return "%s with %s stores %s instead of %s" % (f, why, got[at - lo:at - lo + n].hex(), want.hex())
    if got != before[:at - lo] + want + before[at - lo + n:]:
        return "%s with %s writes outside the vector" % (f, why)
    return None


def backgrounds(n, size):
    c = n // size
    top = 2 ** (8 * size - 1)
    return [[i + 1 for i in range(c)], [-top + (i * 37) % (2 * top) for i in range(c)], [top - 1 - (i * 91) % (2 * top) for i in range(c)]]


def lanes(f, lane, tier):
    n, size = SETTERS[f]
    for b in backgrounds(n, size):
        for at in places(n):
            r = check(f, n, size, b, at, "distinct lanes")
            if r:
                return r
        for v in values(size, tier):
            w = list(b)
            w[lane] = v
            r = check(f, n, size, w, BASE + 1024, "argument %d = %d" % (lane + 1, v))
            if r:
                return r
    b = backgrounds(n, size)[0]
    for v in (True, False, type("I", (int,), {})(-1)):
        w = list(b)
        w[lane] = v
        r = check(f, n, size, w, BASE + 1024, "argument %d = %r" % (lane + 1, v))
        if r:
            return r
    return None


def pairs(f, a):
    n, size = SETTERS[f]
    c = n // size
    top = 2 ** (8 * size - 1)
    for b in range(c):
        for x in (-top, top - 1, -1, 0):
            for y in (-top, top - 1, -1, 0):
                for bg in (0, -1):
                    w = [bg] * c
                    w[a] = x
                    w[b] = y
                    r = check(f, n, size, w, BASE + 1024, "arguments %d = %d, %d = %d and %d otherwise" % (a + 1, x, b + 1, y, bg))
                    if r:
                        return r
    return None


def refused(f, args, kinds, why):
    before = pattern(PAGE)
    ctypes.memmove(BASE, before, PAGE)
    S.transitions += 1
    try:
        getattr(M, f)(*args)
    except kinds as e:
        got = ctypes.string_at(BASE, PAGE)
        if got != before:
            return "%s with %s raises %s after storing something" % (f, why, type(e).__name__)
        return None
    except BaseException as e:
        return "%s with %s raises %r" % (f, why, e)
    return "%s with %s does not raise" % (f, why)


def counts(f, c):
    n, size = SETTERS[f]
    if c == n // size + 1:
        return None
    return refused(f, [BASE + 1024] * min(c, 1) + [1] * (c - 1), TypeError, "%d arguments" % c)


def bad(f, pos):
    n, size = SETTERS[f]
    good = [BASE + 1024] + list(range(n // size))
    vals = [("x", TypeError), (None, TypeError), (1.5, TypeError), (b"1", TypeError), ([], TypeError), (2 ** 64, OverflowError), (-2 ** 64, OverflowError),
            (10 ** 100, OverflowError), (-2 ** 63 - 1, OverflowError)]
    if pos > 0:
        vals += [(2 ** 63, OverflowError)]
        if size == 4:
            vals += [(2 ** 32, OverflowError), (-2 ** 31 - 1, OverflowError)]
    for v, kind in vals:
        w = list(good)
        w[pos] = v
        r = refused(f, w, (TypeError, OverflowError), "%r as argument %d" % (v, pos))
        if r:
            return r
    # two bad arguments
    for q in range(1, n // size + 1, 5):
        w = list(good)
        w[pos] = "x"
        w[q] = 2 ** 70
        r = refused(f, w, (TypeError, OverflowError), "two bad arguments")
        if r:
            return r
    return None


def execute(space, case):
    if case[0] == "f":
        return flags(case[1])
    setup()
    S.visit((space, case))
    return {"r": real, "l": lanes, "p": pairs, "c": counts, "b": bad}[case[0]](*case[1:])
