"""C16: Unsafe object access and native calls keep counts and values exact."""
import ctypes
import gc
import mmap
import struct
import sys

from mc.common import *

NSH = 32
U = None


def BOUNDS(tier):
    return "all histories of %d operations (%d of them: taking addresses, getting objects back, keeping and dropping results, incref, decref, refcnt) on two " \
           "objects of %d kinds, plain and under AddressSanitizer, all counts compared after each and the object's end observed; native functions returning " \
           "every value of a set of %d (and all of -70000..70000 as int and long long) x garbage in the unused half of the register; results of 0-8 bytes and " \
           "17-300 bytes (and up to 1000003) x places at the ends of a region between inaccessible pages, on four processor configurations" % (
               depth(tier), len(ALPHA), len(KINDS), len(vals64()))


def depth(tier):
    return 6 if tier == "quick" else 7


def spaces(tier):
    out = [{"name": "hist", "variant": "plain", "shards": NSH}, {"name": "hist-asan", "variant": "asan", "shards": NSH}, {"name": "kinds", "variant": "plain", "shards": 4},
           {"name": "ret", "variant": "plain", "shards": 16}, {"name": "size", "variant": "plain", "shards": 16}, {"name": "big", "variant": "plain", "shards": 8}]
    return out + [{"name": "big-" + c, "variant": "cpu@" + c, "shards": 8} for c in ("avx2", "sse", "none")]


class Obj:
    __slots__ = ("name", "log")

    def __init__(self, name, log):
        self.name = name
        self.log = log

    def __del__(self):
        self.log.append(self.name)


KINDS = {"object": lambda i: Obj(i, []), "list": lambda i: [i, []], "tuple": lambda i: (i, object()), "dict": lambda i: {i: i}, "str": lambda i: "text %d" % (i + 5),
         "bytes": lambda i: b"%d bytes" % i, "int": lambda i: 10 ** 20 + i, "float": lambda i: 1.5 + i, "class": lambda i: type("C%d" % i, (), {}),
         "func": lambda i: (lambda: i), "set": lambda i: {i}, "subint": lambda i: type("I", (int,), {})(i), "container": lambda i: T["ObjectArrayList"]([i])}
# operations on object 0 or 1: keep another reference obtained by as_object, drop one, incref, decref (only what incref added), read, address
ALPHA = [(op, o) for o in (0, 1) for op in ("keep", "drop", "inc", "dec", "use", "addr")]


def vals64():
    v = {0, 1, -1, 2, -2, 255, 256, -255, -256}
    for k in (7, 8, 15, 16, 29, 30, 31, 32, 33, 45, 59, 60, 61, 62, 63):
        for d in range(-3, 4):
            for s in (1, -1):
                w = s * 2 ** k + d
                if -2 ** 63 <= w < 2 ** 63:
                    v.add(w)
    for b in range(8):
        v.add(struct.unpack("<q", bytes([0x80 | i if i == b else 0x11 * i for i in range(8)]))[0])
        v.add(struct.unpack("<q", bytes([0xff if i == b else 0 for i in range(8)]))[0])
        v.add(struct.unpack("<q", bytes([0 if i == b else 0xff for i in range(8)]))[0])
    v.add(0x0123456789abcdef)
    v.add(-0x0123456789abcdef)
    return sorted(v)


def gen(space, tier):
    if space.startswith("hist"):
        d = depth(tier) - (1 if space.endswith("asan") else 0)
        for h in itertools.product(range(len(ALPHA)), repeat=d - 1):
            yield ("h", h)
    elif space == "kinds":
        for k in KINDS:
            yield ("k", k)
        yield ("misc",)
    elif space == "ret":
        for v in vals64():
            yield ("v", v)
        for a in range(-70000, 70001, 500):
            yield ("vr", a, min(a + 500, 70001))
    elif space == "size":
        for v in vals64():
            yield ("s", v)
    else:
        for n in list(range(17, 301)) + [511, 512, 513, 1023, 1024, 1025, 2048, 4000]:
            yield ("b", n)
        for n in VAST:
            yield ("B", n)


def enum(space, shard, tier):
    n = {"hist": NSH, "hist-asan": NSH, "kinds": 4, "ret": 16, "size": 16}.get(space, 8)
    return shard_filter(gen(space, tier), shard, n)


# ------------------------------------------------------------------ counts

def run(h):
    log = []
    objs = [Obj(0, log), Obj(1, log)]
    addr = [U.get_address(objs[0]), U.get_address(objs[1])]
    if addr[0] != id(objs[0]) or addr[1] != id(objs[1]):
        return "get_address is not the object's address"
    held = [[objs[0]], [objs[1]]]
    extra = [0, 0]
    objs = None
    for step, i in enumerate(h):
        op, o = ALPHA[i]
        total = len(held[o]) + extra[o]
        S.transitions += 1
        if total == 0:
            continue
        if op == "keep":
            held[o].append(U.as_object(addr[o]))
        elif op == "drop":
            if held[o]:
                held[o].pop()
        elif op == "inc":
            if U.incref(U.as_object(addr[o])) is not None:
                return "incref returns something"
            extra[o] += 1
        elif op == "dec":
            if extra[o]:
                if U.decref(U.as_object(addr[o])) is not None:
                    return "decref returns something"
                extra[o] -= 1
        elif op == "use":
            if U.as_object(addr[o]).name != o:
                return "as_object gives another object"
        else:
            if U.get_address(U.as_object(addr[o])) != addr[o]:
                return "get_address and as_object are not inverse"
        what = [ALPHA[j] for j in h[:step + 1]]
        for k in (0, 1):
            total = len(held[k]) + extra[k]
            dead = log.count(k)
            if dead != (total == 0):
                return "%r: object %d has %d references and was freed %d times" % (what, k, total, dead)
            if total:
                if held[k]:
                    # the count seen by an argument: what is held, and the argument itself
                    got = sys.getrefcount(held[k][0])
                    if got != total + 1:
                        return "%r: object %d has %d references, not %d" % (what, k, got - 1, total)
                    r = U.refcnt(held[k][0])
                    if r != got:
                        return "%r: refcnt reports %d, not %d" % (what, r, got)
                r = U.refcnt(U.as_object(addr[k]))
                if r != total + 1:
                    return "%r: refcnt through as_object reports %d, not %d" % (what, r, total + 1)
    S.visit(tuple(len(x) for x in held), tuple(extra))
    for k in (0, 1):
        held[k].clear()
        while extra[k]:
            U.decref(U.as_object(addr[k]))
            extra[k] -= 1
    if sorted(log) != [0, 1]:
        return "%r: objects freed: %r" % ([ALPHA[j] for j in h], log)
    return None


def kind(k):
    mk = KINDS[k]
    for i in range(20):
        a, b = mk(i), mk(i + 100)
        ca, cb = sys.getrefcount(a), sys.getrefcount(b)
        for n in range(1, 6):
            pa = U.get_address(a)
            if pa != id(a) or type(pa) is not int:
                return "%s: get_address gives %r" % (k, pa)
            if U.as_object(pa) is not a:
                return "%s: as_object gives another object" % k
            if U.refcnt(a) != ca or sys.getrefcount(a) != ca:
                return "%s: refcnt %d, getrefcount %d, expected %d" % (k, U.refcnt(a), sys.getrefcount(a), ca)
            for m in range(n):
                U.incref(a)
                if sys.getrefcount(a) != ca + m + 1 or U.refcnt(a) != ca + m + 1 or sys.getrefcount(b) != cb:
                    return "%s: after %d increfs, %d and %d references more" % (k, m + 1, sys.getrefcount(a) - ca, sys.getrefcount(b) - cb)
            got = [U.as_object(pa) for _ in range(n)]
            if sys.getrefcount(a) != ca + 2 * n or sys.getrefcount(b) != cb:
                return "%s: %d results of as_object own %d references" % (k, n, sys.getrefcount(a) - ca - n)
            for m in range(n):
                U.decref(a)
                if sys.getrefcount(a) != ca + 2 * n - m - 1 or sys.getrefcount(b) != cb:
                    return "%s: after %d decrefs, %d references less" % (k, m + 1, ca + 2 * n - sys.getrefcount(a))
            got = None
            if sys.getrefcount(a) != ca:
                return "%s: %d references left over" % (k, sys.getrefcount(a) - ca)
            S.transitions += 5 * n
        S.visit(k, i)
    return None


def misc():
    msg = context_manager(type(U))
    if msg:
        return msg
    for o in (None, True, False, Ellipsis, NotImplemented, 0, 5, -5, 256, "", "a", (), b"", b"a", int, object, U, sys):
        p = U.get_address(o)
        if p != id(o) or U.as_object(p) is not o:
            return "get_address and as_object are not inverse on %r" % (o,)
        if o is not U and U.refcnt(o) != sys.getrefcount(o):
            return "refcnt of %r is %d, not %d" % (o, U.refcnt(o), sys.getrefcount(o))
        S.transitions += 3
    for f in (lambda: U.as_object(0), lambda: U.as_object("x"), lambda: U.as_object(2 ** 70), lambda: U.callVoid(), lambda: U.callInt(), lambda: U.callLongLong(), lambda: U.call(),
              lambda: U.callInt(F.addr, 1), lambda: U.callVoid(F.addr, 1), lambda: U.callLongLong(F.addr, 1), lambda: U.call(F.addr, 1), lambda: U.call(F.addr, 1, 2, 3),
              lambda: U.callInt("x"), lambda: U.callVoid("x"), lambda: U.callLongLong(None), lambda: U.call("x", 0, 0), lambda: U.call(F.addr, "x", 4), lambda: U.call(F.addr, 0, "x"),
              lambda: U.call(F.addr, 0, -1), lambda: U.incref(), lambda: U.decref(), lambda: U.refcnt(), lambda: U.get_address(), lambda: U.incref(1, 2), lambda: U.call(F.addr, 0, 4, 5), lambda: U.callVoid(F.addr, None)):
        F.set(0)
        F.reset()
        try:
            f()
            return "a call with wrong arguments succeeds"
        except (TypeError, ValueError, OverflowError):
            pass
        if F.calls():
            return "a refused call runs the function"
        S.transitions += 1
    # functions that come back into Python
    seen = []
    cb = ctypes.CFUNCTYPE(ctypes.c_int)(lambda: seen.append(1) or -len(seen))
    p = ctypes.cast(cb, ctypes.c_void_p).value
    if [U.callInt(p) for _ in range(4)] != [-1, -2, -3, -4]:
        return "a function that calls back gives wrong results"
    U.callVoid(p)
    if len(seen) != 5:
        return "a function is called %d times instead of 5" % len(seen)
    inner = ctypes.CFUNCTYPE(ctypes.c_longlong)(lambda: U.callInt(p) - 2 ** 40)
    if U.callLongLong(ctypes.cast(inner, ctypes.c_void_p).value) != -6 - 2 ** 40:
        return "nested calls give a wrong result"
    return None


# ------------------------------------------------------------------ native calls

class Func:
    """A native function made of bytes: loads a constant into rax, counts its calls, spoils the other result registers."""

    def __init__(self):
        self.mem = mmap.mmap(-1, 4096, prot=mmap.PROT_READ | mmap.PROT_WRITE | mmap.PROT_EXEC)
        self.addr = ctypes.addressof(ctypes.c_char.from_buffer(self.mem))
        self.counter = self.addr + 2048
        # mov r11, counter; inc qword [r11]; mov rdx, -1; mov rax, imm64; ret
        self.code = b"\x49\xbb" + struct.pack("<Q", self.counter) + b"\x49\xff\x03" + b"\x48\xc7\xc2\xff\xff\xff\xff" + b"\x48\xb8"
        self.at = len(self.code)
        self.mem[:self.at] = self.code
        self.mem[self.at + 8:self.at + 9] = b"\xc3"

    def set(self, v):
        self.mem[self.at:self.at + 8] = struct.pack("<Q", v & (2 ** 64 - 1))

    def reset(self):
        self.mem[2048:2056] = bytes(8)

    def calls(self):
        return struct.unpack("<Q", self.mem[2048:2056])[0]


F = None
REGION = None
PAGE = 4096
PAT = bytes((i * 37 + 11) & 255 for i in range(20000))


def region():
    global REGION
    if REGION is None:
        c = ctypes.CDLL(None)
        c.mmap.restype = ctypes.c_void_p
        c.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        c.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        base = c.mmap(None, 7 * PAGE, 3, 0x22, -1, 0)
        for p in (0, 3, 6):
            c.mprotect(base + p * PAGE, PAGE, 0)
        REGION = (base + PAGE, base + 4 * PAGE)
    return REGION


def sameint(got, want, what):
    if type(got) is not int or got != want or not got == want or hash(got) != hash(want) or str(got) != str(want) or got - want != 0 or got + 1 != want + 1 \
            or (got < 0) != (want < 0) or int(str(got)) != got or got.bit_length() != want.bit_length() or -got != -want or bool(got) != bool(want) or got // 3 != want // 3:
        return "%s gives %r, not %d" % (what, got, want)
    return None


def returns(v, garbage=(0, -1, 0x5a5a5a5a, 0x80000000)):
    F.reset()
    F.set(v)
    msg = sameint(U.callLongLong(F.addr), v, "callLongLong")
    if msg:
        return msg
    n = 1
    if -2 ** 31 <= v < 2 ** 31:
        for g in garbage:
            F.set((g << 32) | (v & 0xffffffff))
            msg = sameint(U.callInt(F.addr), v, "callInt (upper half %#x)" % (g & 0xffffffff))
            if msg:
                return msg
            n += 1
    else:
        w = (v & 0xffffffff) - (2 ** 32 if v & 0x80000000 else 0)
        F.set(v)
        msg = sameint(U.callInt(F.addr), w, "callInt (result register %d)" % v)
        if msg:
            return msg
        n += 1
    if U.callVoid(F.addr) is not None:
        return "callVoid returns something"
    n += 1
    if F.calls() != n:
        return "%d calls ran the function %d times" % (n, F.calls())
    S.transitions += n
    return None


def sizes(v):
    a, _ = region()
    end = 2 * PAGE
    F.set(v)
    raw = struct.pack("<q", v)
    for n in range(9):
        for off in list(range(0, 17)) + [end - n - i for i in range(0, 17)] + [PAGE - 4, PAGE - n]:
            ctypes.memmove(a, PAT, end)
            F.reset()
            r = U.call(F.addr, a + off, n)
            S.transitions += 1
            if r is not None:
                return "call returns %r" % (r,)
            if F.calls() != 1:
                return "call of size %d runs the function %d times" % (n, F.calls())
            got = ctypes.string_at(a, end)
            if got != PAT[:off] + raw[:n] + PAT[off + n:end]:
                return "call of size %d with result %d at offset %d stores %r (with its surroundings)" % (n, v, off, got[max(0, off - 3):off + n + 3])
        S.visit(v, n)
    # the address is not looked at when the size is 0
    F.reset()
    for p in (0, 1, a):
        U.call(F.addr, p, 0)
    return None if F.calls() == 3 else "call of size 0 runs the function %d times in 3 calls" % F.calls()


def big(n):
    a, b = region()
    end = 2 * PAGE
    for so in (0, 1, 8, 63, 64, end - n, (end - n) & ~63):
        for off in (0, 3, 16, 64, end - n, (end - n) & ~63, end - n - 1):
            ctypes.memmove(a, PAT, end)
            ctypes.memmove(b, PAT[5000:], end)
            F.set(b + so)
            F.reset()
            if U.call(F.addr, a + off, n) is not None or F.calls() != 1:
                return "call of size %d runs the function %d times" % (n, F.calls())
            S.transitions += 1
            if ctypes.string_at(b, end) != PAT[5000:5000 + end]:
                return "call of size %d changes the result it copies" % n
            if ctypes.string_at(a, end) != PAT[:off] + PAT[5000 + so:5000 + so + n] + PAT[off + n:end]:
                return "call of size %d from offset %d to offset %d stores the wrong bytes" % (n, so, off)
    S.visit("big", n)
    return None


VAST = (8191, 8192, 8193, 16384, 16391, 32768, 40007, 65535, 65536, 65537, 70001, 131072, 131075, 262144, 1000003)


def vast(n):
    """Results of many pages, at every alignment of the last bytes."""
    src = ctypes.create_string_buffer(n + 400)
    dst = ctypes.create_string_buffer(n + 400)
    s, d = ctypes.addressof(src), ctypes.addressof(dst)
    pat = (PAT[:19997] * (n // 19997 + 2))[:n + 400]
    back = bytes(b ^ 0x55 for b in pat)
    for so in (0, 1, 16, 37, 64):
        for off in (0, 5, 32, 63, 64):
            ctypes.memmove(s, pat, n + 400)
            ctypes.memmove(d, back, n + 400)
            F.set(s + so)
            F.reset()
            if U.call(F.addr, d + off, n) is not None or F.calls() != 1:
                return "call of size %d runs the function %d times" % (n, F.calls())
            S.transitions += 1
            if src.raw[:n + 400] != pat:
                return "call of size %d changes the result it copies" % n
            if dst.raw[:n + 400] != back[:off] + pat[so:so + n] + back[off + n:]:
                return "call of size %d from offset %d to offset %d stores the wrong bytes" % (n, so, off)
    S.visit("vast", n)
    return None


def execute(space, case):
    global U, F
    if U is None:
        from pyfastutil.unsafe import Unsafe
        U = Unsafe()
        F = Func()
        gc.disable()
    k = case[0]
    if k == "h":
        for last in range(len(ALPHA)):
            msg = run(case[1] + (last,))
            if msg:
                return msg
        return None
    if k == "k":
        return kind(case[1])
    if k == "misc":
        return misc()
    if k == "v":
        S.visit(case)
        return returns(case[1])
    if k == "vr":
        for v in range(case[1], case[2]):
            msg = returns(v, (0, -1))
            if msg:
                return msg
        S.visit(case)
        return None
    if k == "s":
        return sizes(case[1])
    if k == "B":
        return vast(case[1])
    return big(case[1])
