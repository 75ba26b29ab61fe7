"""C07: every representable integer is read back as the same number."""
import array
import ctypes
import struct

from mc.common import *

NSH = 16
BITS = {"IntArrayList": 32, "BigIntArrayList": 64, "IntLinkedList": 32}


def BOUNDS(tier):
    s = "values +-2^k+d (|d|<=3), +-10^k+d, byte patterns, -300..300, for each of 3 containers: 26 ways of storing x 27 ways of " \
        "reading, at every position of contents to 9 and at both ends and in the middle of contents to 70001; the same values as results of native calls; "
    if tier == "thorough":
        return s + "all 2^32 C ints through from_range, to_list, iteration, item reads and the buffer"
    return s + "all values of -2^20..2^20 and of the bands of 2^13 around every +-2^k (2^12 where 2^k exceeds a C int) through from_range, to_list, iteration, items"


def spaces(tier):
    return [{"name": "values", "variant": "plain", "shards": NSH},
            {"name": "position", "variant": "plain", "shards": 8}, {"name": "position+sub", "variant": "plain", "shards": 8},
            {"name": "native", "variant": "plain", "shards": 2},
            {"name": "sweep", "variant": "plain", "shards": 16 if tier == "quick" else 64}]


def interesting(bits):
    out = set(range(-300, 301))
    for k in range(0, bits):
        for d in range(-3, 4):
            out |= {2 ** k + d, -2 ** k + d}
    for k in range(0, 20):
        for d in (-1, 0, 1):
            out |= {10 ** k + d, -10 ** k + d}
    for b in range(256):
        for rep in (1, 2, 3, 4, 5, 6, 7, 8):
            v = int.from_bytes(bytes([b] * rep), "little")
            out |= {v, v - (1 << bits), -v}
    for d in (2 ** 15, 2 ** 30):  # digits of ints
        for a in (0, 1, 2, d - 1, d - 2):
            for b in (0, 1, d // 2, d - 1):
                for c in (0, 1, 7):
                    v = a + b * d + c * d * d
                    out |= {v, -v}
    lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
    return sorted(v for v in out if lo <= v <= hi)


def bands(tier):
    """Ranges of C ints, each [a, b)."""
    if tier == "thorough":
        step = 1 << 20
        return [(a, a + step) for a in range(-2 ** 31, 2 ** 31, step)]
    step = 1 << 14
    out = [(a, a + step) for a in range(-2 ** 20, 2 ** 20, step)]
    for k in range(20, 32):
        for s in (1, -1):
            m = s * 2 ** k
            a, b = max(-2 ** 31, m - 2 ** 12), min(2 ** 31, m + 2 ** 12)
            if a < b:
                out.append((a, b))
    return out


def gen(space, tier):
    if space == "values":
        for t in INT_TYPES:
            for v in interesting(BITS[t]):
                yield ("v", t, v)
    elif space == "position":
        for t in INT_TYPES:
            b = BITS[t]
            for v in (-2 ** (b - 1), 2 ** (b - 1) - 1, -1, -2 ** 30, 2 ** 30, 2 ** 31 - 1, -2 ** 16, 255):
                for n in range(1, 10):
                    for i in range(n):
                        yield ("p", t, v, n, i)
    elif space == "native":
        for v in interesting(64):
            yield ("n", v)
    else:
        for a, b in bands(tier):
            yield ("s", a, b)
        # numbers of more than one digit, which only one container holds
        for k in range(32, 64):
            for sign in (1, -1):
                m = sign * 2 ** k
                a, b = max(-2 ** 63, m - 2 ** 11), min(2 ** 63 - 1, m + 2 ** 11)
                if a < b:
                    yield ("s", a, b)


def enum(space, shard, tier):
    n = {"values": NSH, "position": 8, "native": 2, "sweep": 16 if tier == "quick" else 64}[space]
    return shard_filter(gen(space, tier), shard, n)


class Sub(int):
    pass


def exact(r, v):
    """r is the int v, in every respect."""
    if type(r) is not int:
        return "is a %s" % type(r).__name__
    w = int(str(v))
    if not (r == w and w == r) or r != w or r < w or r > w:
        return "compares different: %r" % (r,)
    if hash(r) != hash(w):
        return "hash %d" % hash(r)
    if repr(r) != repr(w) or "%d" % r != "%d" % w or hex(r) != hex(w):
        return "prints %r" % r
    if r.bit_length() != w.bit_length() or bool(r) != bool(w) or float(r) != float(w):
        return "bit_length/bool/float differ"
    if r + 1 != w + 1 or -r != -w or abs(r) != abs(w) or r * 3 != w * 3 or r * w != w * w or r - w != 0 or r // 7 != w // 7 \
            or r % 7 != w % 7 or r >> 3 != w >> 3 or r << 5 != w << 5 or r & 0xFFFF != w & 0xFFFF or r ^ w != 0 or ~r != ~w:
        return "computes differently: %r" % r
    if r.to_bytes(9, "little", signed=True) != w.to_bytes(9, "little", signed=True):
        return "bytes differ"
    if {w: 1}.get(r) != 1 or r not in (w,) or (r,) != (w,):
        return "is not found in a dict or tuple"
    return None


def fresh(v):
    return int(str(v))


def _one(x, *a):
    return x


def s_setitem(t, v):
    x = T[t]([1])
    x[0] = v
    return x


def s_setneg(t, v):
    x = T[t]([1])
    x[-1] = v
    return x


def s_slice(t, v):
    x = T[t]([1, 2])
    x[0:2] = [v]
    return x


def s_slicemore(t, v):
    x = T[t]()
    x[0:0] = (v,)
    return x


def s_slicegen(t, v):
    x = T[t]([5])
    x[:] = (w for w in [v])
    return x


def s_slicesame(t, v):
    x = T[t]([5])
    x[:] = T[t]([v])
    return x


def s_append(t, v):
    x = T[t]()
    x.append(v)
    return x


def s_insert(t, v):
    x = T[t]()
    x.insert(0, v)
    return x


def s_insertmid(t, v):
    x = T[t]([1, 2])
    x.insert(1, v)
    x.pop(0)
    x.pop()
    return x


def s_extend(src):
    def f(t, v):
        x = T[t]()
        x.extend(src(t, v))
        return x
    return f


def s_iadd(src):
    def f(t, v):
        x = T[t]()
        x += src(t, v)
        return x
    return f


def s_imul(t, v):
    x = T[t]([v])
    x *= 2
    x.pop(0)
    return x


def s_grown(t, v):
    x = T[t]([v])
    for i in range(20):
        x.append(i)
    del x[1:]
    return x


def s_sorted(t, v):
    x = T[t]([v])
    x.sort()
    return x


def s_sortedkey(t, v):
    x = T[t]([v, v])
    x.sort(key=lambda e: -e)
    x.pop()
    return x


def s_reversed(t, v):
    x = T[t]([v, 0])
    x.reverse()
    del x[0]
    return x


def s_from1(t, v):
    if v >= 2 ** 63 - 1:
        return T[t]([v])
    return T[t].from_range(v, v + 1)


def s_from3(t, v):
    if v <= -2 ** 63:
        return T[t]([v])
    return T[t].from_range(v, v - 1, -1)


def s_fromstep(t, v):
    w = v - 7
    if w < RANGE[t][0] or v >= 2 ** 63 - 1:
        return T[t]([v])
    x = T[t].from_range(w, v + 1, 7)
    x.pop(0)
    return x


def s_buffer(t, v):
    if t == "IntLinkedList":
        return T[t]([v])
    x = T[t]([0])
    m = memoryview(x)
    m[0] = v
    m.release()
    return x


STORE = {
    "ctor": lambda t, v: T[t]([v]), "tuple": lambda t, v: T[t]((v,)), "gen": lambda t, v: T[t](w for w in [v]),
    "array": lambda t, v: T[t](array.array("q", [v])), "same": lambda t, v: T[t](T[t]([v])), "sub": lambda t, v: T[t]([Sub(v)]),
    "idx": lambda t, v: T[t]([Idx(v)]), "idxappend": lambda t, v: s_append(t, Idx(v)), "idxset": lambda t, v: s_setitem(t, Idx(v)),
    "append": s_append, "insert": s_insert, "insertmid": s_insertmid, "setitem": s_setitem, "setneg": s_setneg, "slice": s_slice,
    "slicemore": s_slicemore, "slicegen": s_slicegen, "slicesame": s_slicesame,
    "extend": s_extend(lambda t, v: [v]), "extendgen": s_extend(lambda t, v: iter([v])), "extendsame": s_extend(lambda t, v: T[t]([v])),
    "iadd": s_iadd(lambda t, v: (v,)), "iaddsame": s_iadd(lambda t, v: T[t]([v])), "iaddgen": s_iadd(lambda t, v: (w for w in (v,))),
    "imul": s_imul, "mul": lambda t, v: T[t]([v]) * 1, "rmul": lambda t, v: 1 * T[t]([v]), "add": lambda t, v: T[t]([v]) + T[t](),
    "addr": lambda t, v: T[t]() + T[t]([v]), "copy": lambda t, v: T[t]([v]).copy(), "grown": s_grown, "sorted": s_sorted,
    "sortedkey": s_sortedkey, "reversed": s_reversed, "from2": s_from1, "from3": s_from3, "fromstep": s_fromstep, "buffer": s_buffer,
}


def _pop0(x):
    return x.pop(0)


def _keyseen(x):
    seen = []
    x.sort(key=lambda e: seen.append(e) or 0)
    return seen[0]


READ = {
    "item": lambda x: x[0], "neg": lambda x: x[-1], "idx": lambda x: x[Idx(0)], "slice": lambda x: x[0:1][0], "slicerev": lambda x: x[::-1][0],
    "iter": lambda x: [e for e in x][0], "next": lambda x: next(iter(x)), "rev": lambda x: list(reversed(x))[0],
    "list": lambda x: list(x)[0], "tuple": lambda x: tuple(x)[0], "to_list": lambda x: x.to_list()[0], "star": lambda x: [*x][0],
    "sum": lambda x: sum(x), "max": lambda x: max(x), "repr": lambda x: int(repr(x)[1:-1]), "str": lambda x: int(str(x)[1:-1]),
    "add": lambda x: (x + [])[0], "keyseen": _keyseen, "copy": lambda x: x.copy()[0], "mul": lambda x: (x * 2)[1],
    "sorted": lambda x: sorted(x)[0], "unpack": lambda x: (lambda *a: a[0])(*x), "pop": lambda x: x.copy().pop(), "pop0": lambda x: _pop0(x.copy()),
}
ARRAY_READ = {
    "view": lambda x: memoryview(x)[0], "tolist": lambda x: memoryview(x).tolist()[0],
    "raw": lambda x: int.from_bytes(memoryview(x).tobytes(), "little", signed=True),
}


def readers(t):
    yield from READ.items()
    if t in ARRAY_TYPES:
        yield from ARRAY_READ.items()


_unsafe = None


def unsafe():
    global _unsafe
    if _unsafe is None:
        from pyfastutil.unsafe import Unsafe
        _unsafe = Unsafe()
    return _unsafe


def execute(space, case):
    k = case[0]
    if k == "v":
        _, t, v = case
        for sname, st in STORE.items():
            x = st(t, v)
            if len(x) != 1:
                return "%s: storing %d by %s gives %d elements" % (t, v, sname, len(x))
            for rname, rd in readers(t):
                S.transitions += 1
                r = rd(x)
                if r is not v and not (type(r) is int and r == v):
                    return "%s: %d stored by %s is read by %s as %r" % (t, v, sname, rname, r)
                msg = exact(r, v)
                if msg:
                    return "%s: %d stored by %s, read by %s: %s" % (t, v, sname, rname, msg)
            w = fresh(v)
            if not (x == [w] and [w] == x and not x != [w] and w in x and x.index(w) == 0 and x.count(w) == 1):
                return "%s: %d stored by %s is not found by ==, in, index or count" % (t, v, sname)
            for d in (-1, 1):
                o = v + d
                if (x < [o]) != (v < o) or (x > [o]) != (v > o) or x == [o] or (o in x):
                    return "%s: %d stored by %s compares wrongly with %d" % (t, v, sname, o)
                if RANGE[t][0] <= o <= RANGE[t][1]:
                    y = T[t]([o])
                    if (x < y) != (v < o) or (x > y) != (v > o) or x == y or (x <= y) != (v <= o) or (x >= y) != (v >= o):
                        return "%s: %d stored by %s compares wrongly with %s([%d])" % (t, v, sname, t, o)
                    if x.count(o) != 0:
                        return "%s: %d stored by %s is counted as %d" % (t, v, sname, o)
            x.remove(w)
            if len(x):
                return "%s: %d stored by %s is not removed" % (t, v, sname)
        S.visit(t, v)
        return None
    if k == "p":
        _, t, v, n, i = case
        base = [j * 3 - 4 for j in range(n)]
        want = list(base)
        want[i] = v
        xs = []
        x = T[t](base)
        x[i] = v
        xs.append(x)
        x = T[t](base)
        x[i - n] = v
        xs.append(x)
        x = T[t](base[:i] + base[i + 1:])
        x.insert(i, v)
        xs.append(x)
        xs.append(T[t](want))
        x = T[t](base)
        x[i:i + 1] = [v]
        xs.append(x)
        for x in xs:
            S.transitions += 1
            msg = check_deep(x, want)
            if msg:
                return "%s %d at %d of %d: %s" % (t, v, i, n, msg)
            for r in (x[i], x[i - n], x[i:i + 1][0], list(x)[i], list(reversed(x))[n - 1 - i], x.to_list()[i], x[::-1][n - 1 - i], x.copy().pop(i),
                      x.copy().pop(i - n)):
                msg = exact(r, v)
                if msg:
                    return "%s %d at %d of %d: %s" % (t, v, i, n, msg)
            if repr(x) != repr(want) or str(x) != str(want) or x != want or x.index(v, i) != i:
                return "%s %d at %d of %d: repr, == or index is wrong" % (t, v, i, n)
            if t in ARRAY_TYPES:
                m = memoryview(x)
                if m[i] != v or m.tobytes() != struct.pack("=%d%s" % (n, "i" if t == "IntArrayList" else "q"), *want):
                    return "%s %d at %d of %d: buffer is wrong" % (t, v, i, n)
                m.release()
        S.visit(t, v, n, i)
        return None
    if k == "n":
        v = case[1]
        u = unsafe()
        f = ctypes.CFUNCTYPE(ctypes.c_longlong)(lambda: v)
        a = ctypes.cast(f, ctypes.c_void_p).value
        r = u.callLongLong(a)
        S.transitions += 1
        msg = exact(r, v)
        if msg:
            return "callLongLong of a function returning %d: %s" % (v, msg)
        if -2 ** 31 <= v < 2 ** 31:
            f = ctypes.CFUNCTYPE(ctypes.c_int)(lambda: v)
            a = ctypes.cast(f, ctypes.c_void_p).value
            r = u.callInt(a)
            S.transitions += 1
            msg = exact(r, v)
            if msg:
                return "callInt of a function returning %d: %s" % (v, msg)
        else:
            r = u.callInt(a)  # the upper half of the register is not part of an int
            msg = exact(r, ctypes.c_int(v).value)
            if msg:
                return "callInt of a function leaving %d: %s" % (v, msg)
        S.visit("n", v)
        return None
    _, a, b = case
    want = list(range(a, b))
    hw = hash(tuple(want))
    rw = None
    for t in INT_TYPES:
        if a < RANGE[t][0] or b - 1 > RANGE[t][1]:
            continue
        x = T[t].from_range(a, b)
        for name, got in (("to_list", x.to_list()), ("iteration", list(x)), ("slice", x[:])):
            S.transitions += 1
            if got != want or hash(tuple(got)) != hw:
                i = next((i for i in range(len(want)) if i >= len(got) or got[i] != want[i]), -1)
                return "%s.from_range(%d, %d) read by %s is wrong at %d" % (t, a, b, name, a + i)
        y = T[t](want)
        if x != y or not x == y:
            return "%s.from_range(%d, %d) differs from the one built from the list" % (t, a, b)
        if t in ARRAY_TYPES:
            m = memoryview(x)
            if m.tolist() != want:
                return "%s.from_range(%d, %d): the buffer differs" % (t, a, b)
            m.release()
            got = [x[i] for i in range(len(want))]
            if got != want:
                return "%s.from_range(%d, %d): items differ" % (t, a, b)
        if rw is None:
            rw = repr(want)
        if repr(x) != rw:
            return "%s.from_range(%d, %d): repr differs" % (t, a, b)
        S.visit(t, a, b)
    return None
