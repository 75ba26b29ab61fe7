"""C18: SIMD copy and reverse are exact for every type, count and address."""
import ctypes
import mmap

from mc.common import *
from mc.huge import Range

NSH = 32
HUGE_CPUS = ("real", "avx2", "none")
CPUS = ("real", "avx512", "avx2", "sse", "none")
# element types and their sizes on this platform
SIZES = dict(Int=4, UnsignedInt=4, Long=8, UnsignedLong=8, LongLong=8, UnsignedLongLong=8, Short=2, UnsignedShort=2, Float=4, Double=8, LongDouble=16, Char=1,
             UnsignedChar=1, WChar=4, Char16=2, Char32=4, Bool=1, Int8=1, UInt8=1, Int16=2, UInt16=2, Int32=4, UInt32=4, Int64=8, UInt64=8, VoidPtr=8, IntPtr=8,
             FloatPtr=8, PyObjectPtr=8)
PAGE = mmap.PAGESIZE
SPAN = 160 * 1024  # accessible bytes of each region
GUARD = 192  # bytes examined on both sides of what an operation may touch
M = None
LIBC = None
SRC = DST = None
DATA = {}
FILL = bytes((7 * i + 3) % 251 for i in range(SPAN))


def BOUNDS(tier):
    return "29 element types x memcpy, memcpyAligned, reverse; every count up to %d bytes (at least 40 elements) and %d larger ones up to 2 pages and 128 KiB; %s; every " \
           "placement against an inaccessible page before or behind; 3 contents (all bytes distinct from their neighbours, all ones, infinities and signalling NaNs); on " \
           "this processor and on four others (AVX-512, AVX2, SSE, none); more than 2^32 bytes and elements of %d types (copies to both ends of the memory, reversal from two offsets), over memory mapped again and again; every wrong number and kind of arguments" % (
               reach(tier), len(BIG), "64 source x 8 target offsets within a cache line" if tier == "quick" else "64 x 64 offsets within a cache line", len(HUGE_TYPES) if tier == "quick" else len(SIZES))


BIG = (511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 131072)


def reach(tier):
    return 460 if tier == "quick" else 900


def counts(size, tier):
    return list(range(max(41, reach(tier) // size + 2)))


def offsets(o, tier):
    return range(64) if tier != "quick" else sorted({o, (o + 1) % 64, 0, 63, (64 - o) % 64, (o + 32) % 64, (o + 16) % 64, (o * 5 + 7) % 64})


def spaces(tier):
    return [{"name": "%s-%s" % (k, c), "variant": "plain" if c == "real" else "cpu@" + c, "shards": NSH} for c in CPUS for k in ("copy", "aligned", "reverse")] + \
           [{"name": "refuse", "variant": "plain", "shards": 1}] + \
           [{"name": "huge-" + c, "variant": "plain" if c == "real" else "cpu@" + c, "shards": NSH} for c in HUGE_CPUS]


def enum(space, shard, tier):
    kind = space.split("-")[0]

    def gen():
        if kind == "refuse":
            for t in SIZES:
                for op in ("copy", "aligned", "reverse"):
                    yield ("refuse", op, t)
            return
        if kind == "huge":
            for t in SIZES:
                for op in ("copy", "aligned", "reverse"):
                    if tier == "thorough" or t in (HUGE_TYPES if space == "huge-real" else ("Int8", "LongLong")):
                        yield ("huge", op, t, tier)
            return
        for t in SIZES:
            for n in counts(SIZES[t], tier):
                yield (kind, t, n, tier)
            for b in BIG:
                yield (kind + "big", t, b // SIZES[t], tier)
    return shard_filter(gen(), shard, 1 if kind == "refuse" else NSH)


class Region:
    """SPAN accessible bytes between inaccessible pages."""

    def __init__(self):
        LIBC.mmap.restype = ctypes.c_void_p
        LIBC.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t] + [ctypes.c_int] * 3 + [ctypes.c_long]
        LIBC.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        base = LIBC.mmap(None, SPAN + 2 * PAGE, 0, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS, -1, 0)
        self.lo = base + PAGE
        self.hi = self.lo + SPAN
        if LIBC.mprotect(self.lo, SPAN, 3) != 0:
            raise OSError("mprotect")


def setup():
    global M, LIBC, SRC, DST
    if M is not None:
        return
    from pyfastutil.unsafe import SIMD
    M = SIMD()
    LIBC = ctypes.CDLL(None)
    SRC = Region()
    DST = Region()
    x = 1
    b = bytearray()
    while len(b) < SPAN:
        x = (x * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        b += (x >> 16).to_bytes(6, "little")
    DATA["mix"] = bytes(b[:SPAN])
    DATA["ones"] = b"\xff" * SPAN
    nan = bytes.fromhex("0000a07f" "010080ff" "00000000000000c0" "0100000000f0f07f" "0000000000000080ff7f0000dead" "beef")
    DATA["nan"] = (nan * (SPAN // len(nan) + 1))[:SPAN]
    ctypes.memmove(DST.lo, FILL, SPAN)


def refuse(op, t):
    """Calls with a wrong number or kind of arguments, and with numbers no machine word holds."""
    fn = getattr(M, {"copy": "memcpy%s", "aligned": "memcpy%sAligned", "reverse": "reverse%s"}[op] % t)
    good = [SRC.lo, DST.lo, 4] if op != "reverse" else [DST.lo, 4]
    ctypes.memmove(SRC.lo, DATA["mix"], 4096)
    ctypes.memmove(DST.lo, FILL, 4096)
    bad = [good[:i] for i in range(len(good))] + [good + good[:i] for i in range(1, 4)] + [good + [None]]
    for i in range(len(good)):
        for v in (None, "4", 4.0, b"4", [4], (), 2 ** 64, 2 ** 64 + 4, 2 ** 70, -2 ** 70, good[i] + 2 ** 64):
            bad.append(good[:i] + [v] + good[i + 1:])
    for v in (-1, -4, -2 ** 63, -2 ** 64 + 4):
        bad.append(good[:-1] + [v])
    for args in bad:
        S.transitions += 1
        try:
            fn(*args)
        except (TypeError, OverflowError, ValueError) as e:
            if len(args) != len(good) and type(e) is not TypeError:
                return "%s of %s with %d arguments raises %r" % (op, t, len(args), e)
        else:
            return "%s of %s takes %r" % (op, t, args)
        try:
            fn(*good, x=1)
        except TypeError:
            pass
        else:
            return "%s of %s takes a keyword" % (op, t)
        if ctypes.string_at(SRC.lo, 4096) != DATA["mix"][:4096] or ctypes.string_at(DST.lo, 4096) != FILL[:4096]:
            return "%s of %s with %r is refused but changes memory" % (op, t, args)
    S.visit("refuse", op, t)
    return None


def copy(fn, size, n, src, dst, data, what):
    """One copy of n elements: everything around and inside is compared."""
    k = n * size
    a0, a1 = max(SRC.lo, src - GUARD), min(SRC.hi, src + k + GUARD)
    b0, b1 = max(DST.lo, dst - GUARD), min(DST.hi, dst + k + GUARD)
    before = data[a0 - SRC.lo:a1 - SRC.lo]
    fill = FILL[b0 - DST.lo:b1 - DST.lo]
    ctypes.memmove(a0, before, a1 - a0)
    ctypes.memmove(b0, fill, b1 - b0)
    S.transitions += 1
    if fn(src, dst, n) is not None:
        return "%s returned something" % what
    if ctypes.string_at(a0, a1 - a0) != before:
        return "%s changed its source" % what
    got = ctypes.string_at(b0, b1 - b0)
    if got != fill[:dst - b0] + before[src - a0:src - a0 + k] + fill[dst - b0 + k:]:
        if got[dst - b0:dst - b0 + k] != before[src - a0:src - a0 + k]:
            return "%s did not copy the elements" % what
        return "%s wrote outside its destination" % what
    return None


def reverse(fn, size, n, at, data, what):
    k = n * size
    b0, b1 = max(DST.lo, at - GUARD), min(DST.hi, at + k + GUARD)
    before = data[b0 - DST.lo:b1 - DST.lo]
    ctypes.memmove(b0, before, b1 - b0)
    S.transitions += 1
    if fn(at, n) is not None:
        return "%s returned something" % what
    got = ctypes.string_at(b0, b1 - b0)
    body = before[at - b0:at - b0 + k]
    want = b"".join(body[i:i + size] for i in range(k - size, -1, -size)) if size > 1 else body[::-1]
    if got != before[:at - b0] + want + before[at - b0 + k:]:
        if got[at - b0:at - b0 + k] != want:
            return "%s did not reverse the elements" % what
        return "%s wrote outside the elements" % what
    return None


# one type of each size
HUGE_TYPES = ("Int8", "UInt16", "Int32", "LongLong", "LongDouble")


def huge(op, t):
    """More than 2^32 bytes, and for small elements more than 2^32 of them."""
    size = SIZES[t]
    P = 1 << 20
    if op == "reverse":
        # the two halves are two blocks, repeated: each pair of elements is exchanged a known number of times
        r = 64 * PAGE
        half = 2 ** 31 + P + r if (2 ** 31 // P) % 2 == 0 else 2 ** 31 + r
        rg = Range(2 * half, P, True)
        try:
            for skip in (0, 5 * size):
                a0, b0 = DATA["mix"][:SPAN // 2] * (P // (SPAN // 2) + 1), DATA["mix"][SPAN // 2:] * (P // (SPAN // 2) + 1)
                a0, b0 = a0[:P], b0[:P]
                rg.a[1][:] = a0
                rg.b[1][:] = b0
                n = (2 * half - 2 * skip) // size
                S.transitions += 1
                getattr(M, "reverse" + t)(rg.lo + skip, n)
                # elements of a block, from the outside to the inside
                def els(b, back):
                    return [b[P - i - size:P - i] if back else b[i:i + size] for i in range(0, P, size)]
                m = half // P
                wa, wb = els(a0, False), els(b0, True)
                for i in range(P // size):
                    times = m + (i < r // size) - (i < skip // size)
                    if times & 1:
                        wa[i], wb[i] = wb[i], wa[i]
                if rg.a[1][:] != b"".join(wa):
                    return "reverse%s of %d elements: the first half is wrong" % (t, n)
                if rg.b[1][:] != b"".join(reversed(wb)):
                    return "reverse%s of %d elements: the second half is wrong" % (t, n)
        finally:
            rg.close()
        return None
    fn = getattr(M, "memcpy" + t + ("Aligned" if op == "aligned" else ""))
    src, dst = Range(2 ** 32 + P, P), Range(2 ** 32 + P, P)
    try:
        # copied: 2^32 bytes and 64 elements more, from the start of the block on
        for extra in (64, 64 + PAGE // size):
            n = 2 ** 32 // size + extra
            src.a[1][:] = (DATA["mix"] * (P // SPAN + 1))[:P]
            dst.a[1][:] = (FILL * (P // SPAN + 1))[:P]
            S.transitions += 1
            fn(src.lo, dst.lo, n)
            if src.a[1][:] != (DATA["mix"] * (P // SPAN + 1))[:P]:
                return "memcpy%s of %d elements changes its source" % (t, n)
            if dst.a[1][:] != src.a[1][:]:
                return "memcpy%s of %d elements does not copy them" % (t, n)
            # at the end of the range: nothing beyond it is touched
            dst.a[1][:] = bytes(P)
            fn(src.hi - n * size, dst.hi - n * size, n)
            if dst.a[1][:] != src.a[1][:]:
                return "memcpy%s of %d elements up to the end of the memory does not copy them" % (t, n)
    finally:
        src.close()
        dst.close()
    return None


def execute(space, case):
    setup()
    if case[0] == "huge":
        S.visit((space, case))
        return huge(case[1], case[2])
    if case[0] == "refuse":
        return refuse(case[1], case[2])
    kind, t, n, tier = case
    S.visit((space, case))
    size = SIZES[t]
    k = n * size
    mid = PAGE + GUARD + 64
    mid -= mid % 64
    big = kind.endswith("big")
    names = ("mix",) if big else ("mix", "ones", "nan")
    if kind.startswith("copy"):
        fn = getattr(M, "memcpy" + t)
        pairs = [(SRC.lo + mid + o, DST.lo + mid + p) for o in range(64) for p in offsets(o, tier)] if not big else \
            [(SRC.lo + mid + o, DST.lo + mid + p) for o in (0, 1, 8, 63) for p in (0, 1, 16, 33)]
        pairs += [(s, d) for s in (SRC.lo, SRC.hi - k, SRC.hi - k - 1, SRC.lo + 1) for d in (DST.lo, DST.hi - k, DST.hi - k - 1, DST.lo + 1)]
        for nm in names:
            for s, d in pairs if nm == "mix" else pairs[::17]:
                r = copy(fn, size, n, s, d, DATA[nm], "memcpy%s of %d elements from an address %d to one %d beyond a cache line (%s)" % (t, n, s % 64, d % 64, nm))
                if r:
                    return r
    elif kind.startswith("aligned"):
        fn = getattr(M, "memcpy" + t + "Aligned")
        ends = [SRC.lo, SRC.lo + mid, SRC.lo + mid + 64, (SRC.hi - k) // 64 * 64]
        ends2 = [DST.lo, DST.lo + mid, DST.lo + mid + 64, (DST.hi - k) // 64 * 64]
        for nm in names:
            for s in ends:
                for d in ends2:
                    r = copy(fn, size, n, s, d, DATA[nm], "memcpy%sAligned of %d elements (%s)" % (t, n, nm))
                    if r:
                        return r
    else:
        fn = getattr(M, "reverse" + t)
        places = [DST.lo + mid + o for o in (range(64) if not big else (0, 1, 8, 63))] + [DST.lo, DST.lo + 1, DST.hi - k, DST.hi - k - 1]
        for nm in names:
            for a in places:
                r = reverse(fn, size, n, a, DATA[nm], "reverse%s of %d elements at an address %d beyond a cache line (%s)" % (t, n, a % 64, nm))
                if r:
                    return r
    return None
