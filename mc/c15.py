"""C15: Unsafe memory operations act on exactly the bytes they name."""
import ctypes
import mmap
import sys

from mc.common import *
from mc.huge import Range, room

NSH = 32
U = None


def BOUNDS(tier):
    return "all histories of %d operations out of %d on up to 2 live blocks, plain and under AddressSanitizer, every byte of every live block compared " \
           "after each; every operation x every size 0-%d x offsets at both ends of a region between inaccessible pages; realloc between all pairs of " \
           "sizes of a set of %d; aligned_malloc for all alignments 1-8192 x sizes; sizes and addresses of more than 64 bits refused; memset for all values -600..600 and extremes; memset, memcpy, get, set and allocations of more than 2^32 bytes" % (
               depth(tier), len(ALPHA), 300 if tier == "quick" else 1100, len(RS))


def depth(tier):
    return 4 if tier == "quick" else 5


def spaces(tier):
    return [{"name": "hist", "variant": "plain", "shards": NSH}, {"name": "hist-asan", "variant": "asan", "shards": NSH},
            {"name": "sizes", "variant": "plain", "shards": 16}, {"name": "sizes-asan", "variant": "asan", "shards": 16},
            {"name": "realloc", "variant": "plain", "shards": 16}, {"name": "realloc-asan", "variant": "asan", "shards": 16},
            {"name": "aligned", "variant": "plain", "shards": 8}, {"name": "aligned-asan", "variant": "asan", "shards": 8},
            {"name": "values", "variant": "plain", "shards": 8}, {"name": "types", "variant": "plain", "shards": 1},
            {"name": "huge", "variant": "plain", "shards": 8}]


# ------------------------------------------------------------------ histories
# operations name a slot (0 or 1); one on an empty slot is skipped, an allocation goes to the named slot if it is empty
ALPHA = [("m", 0, 0), ("m", 0, 5), ("m", 0, 24), ("m", 1, 8), ("c", 0, 3, 4), ("c", 1, 1, 7), ("c", 0, 0, 3), ("a", 0, 13, 64), ("a", 1, 32, 16),
         ("r", 0, 3), ("r", 0, 40), ("r", 1, 8), ("r", 1, 100), ("r", 0, 0), ("f", 0), ("f", 1),
         ("s", 0, 0, 1), ("s", 0, 2, 3), ("s", 1, 0, 99), ("s", 1, 1, 4), ("s", 0, 0, 0),
         ("y", 0, 1, 0, 0, 99), ("y", 1, 0, 1, 2, 3), ("y", 0, 0, 0, 3, 2), ("y", 1, 0, 0, 0, 1),
         ("t", 0, 0, 0x41, 99), ("t", 0, 1, 0x1FF, 2), ("t", 1, 2, -3, 5), ("t", 1, 0, 0, 99), ("t", 0, 0, 300, 0)]
RS = tuple(range(0, 42)) + (47, 48, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 1024, 4095, 4096, 65536, 131071, 131072, 200000)


def gen(space, tier):
    if space.startswith("hist"):
        d = depth(tier) - (1 if space.endswith("asan") else 0)
        for h in itertools.product(range(len(ALPHA)), repeat=d - 1):
            yield ("h", h)
    elif space.startswith("sizes"):
        m = 300 if tier == "quick" else 1100
        for n in list(range(m + 1)) + [4095, 4096]:
            yield ("z", n, space.endswith("asan"))
    elif space.startswith("realloc"):
        for a in RS:
            yield ("r", a)
    elif space.startswith("aligned"):
        for al in ((1, 2, 4) if space == "aligned" else ()) + (8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192):
            yield ("a", al)
    elif space == "values":
        for v in list(range(-600, 601)) + [s * 2 ** k + d for k in (10, 15, 16, 24, 31, 32, 33, 40, 62, 63, 64, 70) for s in (1, -1) for d in (-1, 0, 1, 0x5a)]:
            yield ("v", v)
    elif space == "huge":
        for op in ("memset", "memcpy", "get", "alloc"):
            yield ("g", op)
    else:
        yield ("t",)


def enum(space, shard, tier):
    n = {"hist": NSH, "sizes": 16, "realloc": 16, "aligned": 8, "values": 8, "types": 1, "huge": 8}[space.split("-")[0]]
    return shard_filter(gen(space, tier), shard, n)


PAT = bytes((i * 37 + 11) & 255 for i in range(70000))


def peek(addr, n):
    return ctypes.string_at(addr, n)


class Block:
    __slots__ = ("addr", "data", "aligned")

    def __init__(self, addr, data, aligned=False):
        self.addr = addr
        self.data = data
        self.aligned = aligned


def run(h):
    slots = [None, None]
    serial = 0
    try:
        for step, i in enumerate(h):
            op = ALPHA[i]
            k = op[0]
            b = slots[op[1]]
            serial += 1
            S.transitions += 1
            if k in "mca":
                if b is not None:
                    continue
                if k == "m":
                    addr, n = U.malloc(op[2]), op[2]
                elif k == "c":
                    n = op[2] * op[3]
                    addr = U.calloc(op[2], op[3])
                    if peek(addr, n) != bytes(n):
                        return "%r: calloc gives %r" % (h, peek(addr, n))
                else:
                    n = op[2]
                    addr = U.aligned_malloc(n, op[3])
                    if addr % op[3]:
                        return "%r: aligned_malloc(%d, %d) gives %#x" % (h, n, op[3], addr)
                if type(addr) is not int or addr <= 0:
                    return "%r: an allocation gives %r" % (h, addr)
                o = slots[1 - op[1]]
                if o is not None and addr < o.addr + len(o.data) and o.addr < addr + n:
                    return "%r: two live blocks overlap" % (h,)
                b = slots[op[1]] = Block(addr, bytearray(peek(addr, n)), k == "a")
            elif b is None:
                continue
            elif k == "r":
                if b.aligned:
                    continue
                addr = U.realloc(b.addr, op[2])
                m = min(len(b.data), op[2])
                got = peek(addr, op[2])
                if got[:m] != b.data[:m]:
                    return "%r: realloc does not keep the contents: %r, not %r" % (h, got[:m], b.data[:m])
                b.addr, b.data = addr, bytearray(got)
            elif k == "f":
                (U.aligned_free if b.aligned else U.free)(b.addr)
                slots[op[1]] = None
            elif k == "s":
                n = max(0, min(op[3], len(b.data) - op[2]))
                off = min(op[2], len(b.data))
                data = PAT[serial:serial + n]
                r = U.set(b.addr + off, data)
                if r is not None or data != PAT[serial:serial + n]:
                    return "%r: set changes its argument" % (h,)
                b.data[off:off + n] = data
            elif k == "y":
                o = slots[op[2]]
                if o is None:
                    continue
                f, t = op[3], op[4]
                n = min(op[5], len(b.data) - f, len(o.data) - t)
                if n < 0 or (b is o and abs(f - t) < n and f != t):
                    continue
                U.memcpy(b.addr + f, o.addr + t, n)
                o.data[t:t + n] = b.data[f:f + n]
            else:
                off = min(op[2], len(b.data))
                n = min(op[4], len(b.data) - off)
                U.memset(b.addr + off, op[3], n)
                b.data[off:off + n] = bytes([op[3] & 255]) * n
            for s, o in enumerate(slots):
                if o is not None:
                    n = len(o.data)
                    if peek(o.addr, n) != o.data:
                        return "%r, step %d: block %d holds %r, not %r" % (tuple(ALPHA[j] for j in h), step, s, peek(o.addr, n), bytes(o.data))
                    if U.get(o.addr, n) != o.data:
                        return "%r, step %d: get of block %d gives %r, not %r" % (tuple(ALPHA[j] for j in h), step, s, U.get(o.addr, n), bytes(o.data))
        for s, o in enumerate(slots):
            if o is not None:
                n = len(o.data)
                for off in range(0, n, 3):
                    for m in (0, 1, n - off):
                        if U.get(o.addr + off, m) != o.data[off:off + m]:
                            return "%r: get(%d, %d) of block %d is wrong" % (h, off, m, s)
                S.visit(s, n, bytes(o.data))
        return None
    finally:
        for o in slots:
            if o is not None:
                (U.aligned_free if o.aligned else U.free)(o.addr)


# ------------------------------------------------------------------ more than 2^32 bytes
def huge(op):
    P = 1 << 20
    if op == "alloc":
        room()
        for n in (2 ** 31 - 1, 2 ** 31, 2 ** 31 + 100, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 100, 2 ** 33 + 5):
            small = U.malloc(64)
            U.set(small, PAT[:64])
            for name, mk, free in (("malloc", lambda: U.malloc(n), U.free), ("calloc n, 1", lambda: U.calloc(n, 1), U.free), ("calloc 1, n", lambda: U.calloc(1, n), U.free),
                                   ("calloc 2^16", lambda: U.calloc(2 ** 16, n // 2 ** 16 + 1), U.free), ("realloc", lambda: U.realloc(small, n), U.free),
                                   ("realloc 0", lambda: U.realloc(0, n), U.free),
                                   ("aligned_malloc", lambda: U.aligned_malloc(n // 64 * 64 + 64, 64), U.aligned_free)):
                addr = mk()
                S.transitions += 1
                # the pages of the block are there: whatever was given is at least as large
                for off in (n - 4, n // 2, 2 ** 31 - 47, 0):
                    if off + 4 <= n and not (name == "realloc" and off < 64):
                        if name.startswith("calloc") and U.get(addr + off, 4) != bytes(4):
                            return "%s of %d bytes: not zero at %d" % (name, n, off)
                        U.set(addr + off, b"wxyz")
                        if U.get(addr + off, 4) != b"wxyz":
                            return "%s of %d bytes: not usable at %d" % (name, n, off)
                if name == "realloc" and U.get(addr, 64) != PAT[:64]:
                    return "realloc to %d bytes loses the contents" % n
                if name == "realloc":
                    addr = U.realloc(addr, 40)
                    if U.get(addr, 40) != PAT[:40]:
                        return "realloc from %d bytes loses the contents" % n
                free(addr)
            S.visit("huge", n)
        return None
    pat = (PAT[:65536] * (P // 65536 + 1))[:P]
    a = Range(2 ** 32 + P, P)
    try:
        for extra in (0, 1, 4096, P):
            n = 2 ** 32 + extra
            S.transitions += 1
            S.visit(op, n)
            if op == "memset":
                for at in (a.lo, a.hi - n):
                    a.a[1][:] = pat
                    U.memset(at, 0x5b, n)
                    if a.a[1][:] != b"\x5b" * P:
                        return "memset of %d bytes does not set them" % n
            elif op == "memcpy":
                b = Range(2 ** 32 + P, P)
                try:
                    for end in (0, 1):
                        a.a[1][:] = pat
                        b.a[1][:] = bytes(P)
                        U.memcpy(*((a.lo, b.lo) if not end else (a.hi - n, b.hi - n)), n)
                        if b.a[1][:] != pat or a.a[1][:] != pat:
                            return "memcpy of %d bytes does not copy them" % n
                finally:
                    b.close()
            elif extra == 1:
                # needs as much memory: skipped where there is not enough
                with open("/proc/meminfo") as f:
                    free = int(f.read().split("MemAvailable:")[1].split()[0]) * 1024
                if free < 3 * 2 ** 32:
                    S.outcome("skipped: no memory")
                    continue
                a.a[1][:] = pat
                got = U.get(a.lo, n)
                if len(got) != n or got[:100] != pat[:100] or got[-1000:] != (pat[1:] + pat[:1])[-1000:] or got[2 ** 31 - 50:2 ** 31 + 50] != pat[-50:] + pat[:50]:
                    return "get of %d bytes gives %d other ones" % (n, len(got))
                a.a[1][:] = bytes(P)
                U.set(a.lo, got)
                if a.a[1][:] != pat:
                    return "set of %d bytes does not write them" % n
                del got
    finally:
        a.close()
    return None


# ------------------------------------------------------------------ sizes
PAGE = 4096
REGION = None
LIBC = None


def region():
    """Four accessible pages between inaccessible ones, twice."""
    global REGION, LIBC
    if REGION is None:
        LIBC = ctypes.CDLL(None)
        LIBC.mmap.restype = ctypes.c_void_p
        LIBC.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        LIBC.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        base = LIBC.mmap(None, 11 * PAGE, 3, 0x22, -1, 0)
        for p in (0, 5, 10):
            LIBC.mprotect(base + p * PAGE, PAGE, 0)
        REGION = (base + PAGE, base + 6 * PAGE)
    return REGION


def sizes(n, asan):
    a, b = region()
    SZ = 4 * PAGE
    fill_a, fill_b = PAT[100:100 + SZ], PAT[7:7 + SZ]
    places = []
    for off in (0, 1, 7, SZ - n, SZ - n - 1, 64, 65, 4096 - n // 2):
        if 0 <= off and off + n <= SZ and off not in places:
            places.append(off)
    data = PAT[3000:3000 + n]

    def put():
        ctypes.memmove(a, fill_a, SZ)
        ctypes.memmove(b, fill_b, SZ)

    def chk(what, wa, wb):
        if peek(a, SZ) != wa:
            return what + " changes bytes it was not given (first region)"
        if peek(b, SZ) != wb:
            return what + " is wrong or changes bytes it was not given"
        return None
    for p in places:
        put()
        S.transitions += 3
        if U.get(a + p, n) != fill_a[p:p + n]:
            return "get(%d bytes at %d) is wrong" % (n, p)
        r = U.set(b + p, data)
        if r is not None:
            return "set returns %r" % (r,)
        msg = chk("set of %d bytes at %d" % (n, p), fill_a, fill_b[:p] + data + fill_b[p + n:])
        if msg:
            return msg
        for v in (0, 0x7f, 0xff):
            put()
            U.memset(b + p, v, n)
            msg = chk("memset(%d) of %d bytes at %d" % (v, n, p), fill_a, fill_b[:p] + bytes([v]) * n + fill_b[p + n:])
            if msg:
                return msg
        for q in places:
            put()
            U.memcpy(a + q, b + p, n)
            S.transitions += 1
            msg = chk("memcpy of %d bytes from %d to %d" % (n, q, p), fill_a, fill_b[:p] + fill_a[q:q + n] + fill_b[p + n:])
            if msg:
                return msg
            # within one region
            if q + n <= p or p + n <= q:
                put()
                U.memcpy(b + q, b + p, n)
                msg = chk("memcpy of %d bytes from %d to %d of one region" % (n, q, p), fill_a, fill_b[:p] + fill_b[q:q + n] + fill_b[p + n:])
                if msg:
                    return msg
    # heap blocks of exactly this size: every byte can be used
    for mk, fr in ((lambda: U.malloc(n), U.free), (lambda: U.calloc(1, n), U.free), (lambda: U.calloc(n, 1), U.free), (lambda: U.aligned_malloc(n, 64), U.aligned_free),
                   (lambda: U.realloc(U.malloc(3), n), U.free), (lambda: U.realloc(0, n), U.free)):
        x, y = mk(), mk()
        U.set(x, data)
        U.memset(y, 0x33, n)
        if U.get(x, n) != data or U.get(y, n) != b"\x33" * n:
            return "blocks of %d bytes share memory" % n
        U.memcpy(x, y, n)
        if U.get(y, n) != data:
            return "memcpy between blocks of %d bytes is wrong" % n
        fr(x)
        if U.get(y, n) != data:
            return "freeing a block of %d bytes changes another" % n
        fr(y)
        S.transitions += 8
    S.visit("size", n)
    return None


def reallocs(a):
    for b in RS:
        for src in ("malloc", "calloc"):
            p = U.malloc(a) if src == "malloc" else U.calloc(a, 1)
            if src == "calloc" and peek(p, a) != bytes(a):
                return "calloc(%d, 1) is not zero" % a
            data = PAT[a % 97:a % 97 + min(a, 60000)].ljust(a, b"\xee")
            U.set(p, data)
            other = U.malloc(24)
            U.memset(other, 9, 24)
            q = U.realloc(p, b)
            m = min(a, b)
            if U.get(q, m) != data[:m]:
                return "realloc from %d to %d loses contents" % (a, b)
            U.memset(q, 0x44, b)
            if U.get(other, 24) != b"\x09" * 24:
                return "realloc from %d to %d overlaps another block" % (a, b)
            q2 = U.realloc(q, a)
            if U.get(q2, m) != b"\x44" * m:
                return "realloc from %d to %d and back loses contents" % (a, b)
            U.set(q2, data)
            U.free(q2)
            U.free(other)
            S.transitions += 10
        S.visit("re", a, b)
    # a request that cannot be met leaves the block
    p = U.malloc(a)
    U.memset(p, 5, a)
    for bad in (2 ** 63 - 1, 2 ** 64 - 1, 2 ** 62):
        try:
            U.realloc(p, bad)
            return "realloc to %d succeeds" % bad
        except MemoryError:
            pass
        if U.get(p, a) != b"\x05" * a:
            return "a refused realloc changes the block"
        for f in (lambda: U.malloc(bad), lambda: U.calloc(bad, 1), lambda: U.calloc(bad, bad), lambda: U.calloc(2 ** 33, 2 ** 33), lambda: U.aligned_malloc(bad - bad % 64, 64)):
            try:
                f()
                return "an impossible allocation succeeds"
            except (MemoryError, RuntimeError):
                pass
    U.free(p)
    return None


def aligned(al):
    for n in list(range(0, 140)) + [255, 256, 257, 1000, 4096, 5000, 70000]:
        live = []
        for k in range(3):
            p = U.aligned_malloc(n, al)
            if p % al or p == 0:
                return "aligned_malloc(%d, %d) gives %#x" % (n, al, p)
            U.memset(p, 0x60 + k, n)
            live.append(p)
        for k, p in enumerate(live):
            if U.get(p, n) != bytes([0x60 + k]) * n:
                return "aligned_malloc(%d, %d): blocks overlap" % (n, al)
        U.aligned_free(live.pop(1))
        for k, p in zip((0, 2), live):
            if U.get(p, n) != bytes([0x60 + k]) * n:
                return "aligned_free changes another block"
            U.aligned_free(p)
        S.transitions += 12
        S.visit(al, n)
    return None


def setvalues(v):
    a, b = region()
    for n in (0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 200):
        for off in (0, 1, 5):
            ctypes.memmove(b, PAT, 300)
            big = v
            c = sys.getrefcount(big)
            r = U.memset(b + off, v, n)
            S.transitions += 1
            if r is not None or sys.getrefcount(big) != c:
                return "memset(%d) of %d bytes returns or keeps something" % (v, n)
            want = PAT[:off] + bytes([v & 255]) * n + PAT[off + n:300]
            if peek(b, 300) != want:
                return "memset(%d) of %d bytes at %d gives %r" % (v, n, off, peek(b, off + n + 2))
    S.visit("v", v)
    return None


def types():
    """Arguments and results: plain ints and bytes, nothing shared, nothing changed."""
    p = U.malloc(600)
    got = set()
    for n in range(0, 257):
        data = bytes([n & 255]) * n
        base = sys.getrefcount(data)
        U.set(p, data)
        g = U.get(p, n)
        if type(g) is not bytes or g != data or hash(g) != hash(data):
            return "get of %d bytes gives %r" % (n, g)
        U.memset(p, 0, n + 1)
        if g != data or data != bytes([n & 255]) * n:
            return "the result of get changes with the memory"
        if sys.getrefcount(data) != base:
            return "set keeps its argument"
        g = U.get(p, n)
        S.transitions += 3

    # single bytes: the shared one-byte objects of the interpreter must not be written
    for v in range(256):
        U.set(p, bytes([v]))
        if U.get(p, 1) != bytes([v]) or bytes([v])[0] != v:
            return "one-byte object %d is changed" % v
        U.memset(p, v ^ 255, 1)
        if bytes([v])[0] != v:
            return "one-byte object %d is changed by memset" % v
    for bad in (-1, -5, -2 ** 40):
        try:
            U.get(p, bad)
            return "get of %d bytes succeeds" % bad
        except (ValueError, OverflowError, MemoryError):
            pass
    for f in (lambda: U.set(p, "text"), lambda: U.set(p, 5), lambda: U.set("a", b"x"), lambda: U.get("a", 1), lambda: U.get(p), lambda: U.set(p), lambda: U.memcpy(p, p),
              lambda: U.memset(p, 1), lambda: U.memcpy(p, p, "x"), lambda: U.memset(p, "x", 1), lambda: U.memset("p", 1, 1), lambda: U.malloc("x"), lambda: U.free("x"),
              lambda: U.realloc(p), lambda: U.calloc(3), lambda: U.aligned_malloc(4), lambda: U.aligned_free("x"), lambda: U.malloc(None), lambda: U.memcpy(None, p, 1),
              lambda: U.memset(p, 1, 4, 5), lambda: U.memset(p, 1, 4, None), lambda: U.memcpy(p, p + 8, 4, 4), lambda: U.memcpy(p, p + 8, 4, None), lambda: U.set(p, b"x", 1),
              lambda: U.get(p, 4, 4), lambda: U.realloc(p, 8, 8), lambda: U.calloc(2, 2, 2), lambda: U.aligned_malloc(8, 64, 1), lambda: U.malloc(8, 8), lambda: U.free(p, p),
              lambda: U.memset(), lambda: U.memcpy(), lambda: U.memset(p), lambda: U.memcpy(p), lambda: U.set(), lambda: U.get(), lambda: U.set(p, bytearray(b"x")),
              lambda: U.set(p, memoryview(b"x")), lambda: U.set(p, None), lambda: U.memset(p, None, 1), lambda: U.memset(p, 1.5, 1), lambda: U.memset(p, 1, 1.5),
              lambda: U.memcpy(p, p + 8, 1.5), lambda: U.get(p, 1.5), lambda: U.malloc(1.5), lambda: U.calloc(1.5, 2), lambda: U.memset(p, 1, -1), lambda: U.memcpy(p, p + 8, -1)):
        U.memset(p, 0x21, 600)
        try:
            f()
            return "a call with wrong arguments succeeds"
        except (TypeError, ValueError, OverflowError):
            pass
        if U.get(p, 600) != b"\x21" * 600:
            return "a refused call writes"
        S.transitions += 1
    # an address or a size that no machine word holds is refused, not cut to one that it does hold
    for far in (2 ** 64, 2 ** 65, 2 ** 128, 3 * 2 ** 64):
        U.memset(p, 0x21, 600)
        for f in (lambda: U.malloc(far + 8), lambda: U.calloc(far + 8, 1), lambda: U.calloc(1, far + 8), lambda: U.calloc(far + 2, far + 2), lambda: U.realloc(p, far + 8),
                  lambda: U.realloc(far + p, 8), lambda: U.free(far + p), lambda: U.aligned_malloc(far + 8, 64), lambda: U.aligned_malloc(8, far + 64),
                  lambda: U.aligned_free(far + p), lambda: U.get(far + p, 4), lambda: U.get(p, far + 4), lambda: U.set(far + p, b"abcd"), lambda: U.memcpy(far + p, p + 8, 4),
                  lambda: U.memcpy(p + 8, far + p, 4), lambda: U.memcpy(p, p + 8, far + 4), lambda: U.memset(far + p, 1, 4), lambda: U.memset(p, 1, far + 4)):
            try:
                r = f()
                return "a call with a size or address of more than 64 bits succeeds: %r" % (r,)
            except (OverflowError, MemoryError, ValueError):
                pass
            if U.get(p, 600) != b"\x21" * 600:
                return "a refused call writes"
            S.transitions += 1
    U.free(p)
    with T_UNSAFE() as u:
        q = u.malloc(3)
        u.set(q, b"abc")
        if u.get(q, 3) != b"abc":
            return "with Unsafe() as u: wrong"
        u.free(q)
    S.visit("types")
    return None


T_UNSAFE = None


def execute(space, case):
    global U, T_UNSAFE
    if U is None:
        from pyfastutil.unsafe import Unsafe
        T_UNSAFE = Unsafe
        U = Unsafe()
    k = case[0]
    if k == "g":
        return huge(case[1])
    if k == "h":
        for last in range(len(ALPHA)):
            msg = run(case[1] + (last,))
            if msg:
                return msg
        return None
    if k == "z":
        return sizes(case[1], case[2])
    if k == "r":
        return reallocs(case[1])
    if k == "a":
        return aligned(case[1])
    if k == "v":
        return setvalues(case[1])
    return types()
