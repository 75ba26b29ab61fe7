"""C20: Each AVX-512 binding performs exactly the intrinsic it is named after."""
import ctypes
import itertools
import os
import struct

from mc import build as B
from mc.common import *

NSH = 32
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "avx512.txt")
M = None
REF = None
FUNCS = {}
SIZE = {"__m512i": 64, "__m512": 64, "__m512d": 64, "__m256i": 32, "__m256": 32, "__m256d": 32, "__m128i": 16, "__m128": 16, "__m128d": 16, "__mmask8": 1, "__mmask16": 2,
        "int": 4, "unsigned": 4, "unsigned int": 4, "long long": 8, "unsigned long long": 8, "short": 2, "char": 1, "unsigned char": 1, "float": 4, "double": 8}
FMT = {"int": "i", "unsigned": "I", "unsigned int": "I", "long long": "q", "unsigned long long": "Q", "short": "h", "char": "b", "float": "f", "double": "d"}


def BOUNDS(tier):
    return "all %s bindings that are implemented: %s combinations of operand patterns (up to 9 per vector, 16 or 22 masks, up to 11 per number) where there are no more than %d, " \
           "otherwise all pairs; each operand in turn also the place of the result; every wrong number of arguments up to 3 too many; the others refuse; all named constants" % (
               sum(1 for f in table() if f[2] == "yes"), "all", limit(tier))


def limit(tier):
    return 20000 if tier == "quick" else 120000


def table():
    out = []
    with open(TABLE) as fh:
        for line in fh:
            port, name, status, ret, types = line.rstrip("\n").split("|")
            out.append((port, name, status, ret, types.split(",") if types else []))
    return out


def prepare():
    B.build_avx_reference(TABLE)


def spaces(tier):
    out = [{"name": "results", "variant": "plain", "shards": NSH, "needs": "avx512"}, {"name": "optimised", "variant": "full", "shards": NSH, "needs": "avx512"},
           {"name": "counts", "variant": "plain", "shards": 8, "needs": "avx512"}, {"name": "refuse", "variant": "plain", "shards": 8}]
    return out


def enum(space, shard, tier):
    def gen():
        for f in table():
            if space in ("results", "optimised"):
                if f[2] == "yes":
                    yield ("r", f[0], tier)
            elif space == "counts":
                if f[2] == "yes":
                    yield ("n", f[0])
            elif f[2] != "yes":
                yield ("x", f[0])
        if space == "refuse":
            yield ("const",)
            yield ("context",)
    return shard_filter(gen(), shard, NSH if space in ("results", "optimised") else 8)


# ------------------------------------------------------------------ operands

def mix(seed, n):
    x = seed * 2654435761 % 2 ** 64 + 12345
    b = bytearray()
    while len(b) < n:
        x = (x * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        b += (x >> 20).to_bytes(6, "little")[:5]
    return bytes(b[:n])


NAN32 = bytes.fromhex("0000c0ff")
NAN64 = bytes.fromhex("000000000000f8ff")


def canonical(b, w):
    """Random bits as floats of width w, every NaN the same."""
    out = b""
    for i in range(0, len(b), w):
        v = b[i:i + w]
        f = struct.unpack("<f" if w == 4 else "<d", v)[0]
        out += (NAN32 if w == 4 else NAN64) if f != f else v
    return out


def rep(items, n, w):
    """n bytes of numbers of w bytes out of items, again and again."""
    out = b""
    k = 0
    while len(out) < n:
        out += (items[k % len(items)] % 2 ** (8 * w)).to_bytes(w, "little")
        k += 1
    return out[:n]


def floats(vals, n, w):
    f = "<f" if w == 4 else "<d"
    nan = NAN32 if w == 4 else NAN64
    out = b""
    k = 0
    while len(out) < n:
        v = vals[k % len(vals)]
        out += nan if v is None else struct.pack(f, v)
        k += 1
    return out[:n]


def special(w):
    if w == 4:
        raw = [0x00000001, 0x807fffff, 0x00800000, 0x7f7fffff, 0xff7fffff]
    else:
        raw = [1, 0x800fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0xffefffffffffffff]
    vals = [struct.unpack("<f" if w == 4 else "<d", r.to_bytes(w, "little"))[0] for r in raw]
    inf = float("inf")
    return [0.0, -0.0, inf, -inf, None, 1.0, vals[0], vals[1], vals[3], -1.5, vals[2], vals[4], 2.5, None, -2.5, 0.5]


def vector(t):
    """The patterns of a vector type."""
    n = SIZE[t]
    if t.endswith("i"):
        return [mix(n, n), mix(n + 7, n), rep([0, 1, 31, 5, 32, 33, 63, 7, 64, 65, 2, 100, 15, 16, 17, 3], n, 4), rep([3, 0, 31, 64, 1, 33, 63, 32], n, 8),
                rep([0x80000000, 0x7fffffff, 0xffffffff, 0, 0x8000, 0x7fff, 0xff80, 0x7f], n, 4), rep([2 ** 63, 2 ** 63 - 1, -1, -2 ** 31, 2 ** 31, 0, 2 ** 32, -129], n, 8),
                b"\xff" * n, rep([5, 0], n, 8), rep([15 - i for i in range(16)], n, 4)]
    w = 8 if t.endswith("d") else 4
    big = 1e300 if w == 8 else 1e30
    return [floats([1.25 * (i + 1) * (-1) ** (i * i // 3) for i in range(16)], n, w), floats([(7.7 - i * 3.1) * 2.0 ** (i % 5 - 2) for i in range(16)], n, w),
            floats(special(w), n, w), floats(special(w)[3:] + special(w)[:3], n, w), canonical(mix(n + w, n), w),
            floats([0.5, 1.5, 2.5, -0.5, -1.5, 2147483648.0, -2147483649.0, 4294967296.0, 9.3e18, -1e19, big, 1 / big, 3.0000002, -7.999999, 65504.0, 0.1], n, w),
            canonical(rep([0x3f800000 + 3 * i for i in range(16)] if w == 4 else [0x3ff0000000000000 + 3 * i for i in range(16)], n, w), w)]


def masks(n):
    out = [0, 2 ** n - 1, 0x5555 & 2 ** n - 1, 0xaaaa & 2 ** n - 1, 0x0ff0 >> (0 if n == 16 else 4) & 2 ** n - 1, 0xb2d1 & 2 ** n - 1] + [1 << i for i in range(n)]
    return [m.to_bytes(n // 8, "little") for m in out]


def numbers(t):
    if t == "char":
        return [1, -1, -128, 127, 0, 0x35, -0x22, 64]
    if t == "short":
        return [1, -1, -2 ** 15, 2 ** 15 - 1, 0, 0x1235, -0x2277, 0xff]
    if t == "int":
        return [1, -1, -2 ** 31, 2 ** 31 - 1, 0, 0x12345678, -0x23456789, 0xffff, 0x10000]
    if t in ("unsigned", "unsigned int"):
        return [1, 0, 2 ** 31, 2 ** 32 - 1, 2 ** 31 - 1, 5, 31, 32, 33, 63, 64]
    if t == "long long":
        return [1, -1, -2 ** 63, 2 ** 63 - 1, 0, 2 ** 32, -2 ** 32, 0x123456789abcdef0, 2 ** 31]
    if t == "unsigned long long":
        return [1, 0, 2 ** 63, 2 ** 64 - 1, 2 ** 32, 0x123456789abcdef0, 2 ** 53 + 1]
    inf = float("inf")
    return [1.5, -0.0, inf, -inf, 0.1, -3.25, 5, -7, 2 ** 40, True, 1e-320, 3.4e38]


def pointed(t):
    """The memory a pointer operand points to: where, what there."""
    return [(o, k) for o in (0, 64, 192) for k in (0, 1)]


def candidates(name, t):
    if t.endswith("*"):
        return pointed(t)
    if t.startswith("__mmask"):
        return masks(int(t[7:]))
    if t.startswith("__m"):
        return vector(t)
    return numbers(t)


SLOT = 192  # one operand, its surroundings included
REGION = 512


class Fn:
    def __init__(self, entry):
        self.port, self.name, self.status, self.ret, self.types = entry
        self.cands = [candidates(self.name, t) for t in self.types]
        self.method = getattr(M, self.port)
        self.first = 0 if self.ret == "void" else 1
        self.nargs = self.first + len(self.types)
        # offsets an unaligned access may have
        self.unaligned = "u_" in self.name or "expandload" in self.name or "compressstore" in self.name
        if self.ret == "void" or not self.ret.startswith("__m") or "_undefined_" in self.name:
            self.defined = 0 if "_undefined_" in self.name else None
        else:
            self.defined = None
        # the upper part of what these give is not specified
        for small in ("128", "256"):
            if "_cast" in self.name and small in self.name.split("_cast")[1].split("_")[0]:
                self.defined = int(small) // 8
        self.align_in = "_load_" in self.name or "_store_" in self.name or "_stream" in self.name


def setup():
    global M, REF, MEM, OPS, RES, RES2, REG, REG2
    if M is not None:
        return
    from pyfastutil.unsafe import SIMDLowAVX512
    M = SIMDLowAVX512()
    REF = ctypes.CDLL(B.build_avx_reference(TABLE))
    MEM = ctypes.create_string_buffer(65536)
    base = (ctypes.addressof(MEM) + 63) // 64 * 64
    OPS = base
    RES = base + 20480
    RES2 = RES + 1024
    REG = RES2 + 1024
    REG2 = REG + 4 * REGION
    for f in table():
        if f[2] == "yes":
            FUNCS[f[0]] = f


PRE = mix(99, 256)
POOL = [mix(5, REGION), None]


def region(kind):
    if POOL[1] is None:
        POOL[1] = canonical(mix(6, REGION), 4)
        POOL[1] = canonical(floats(special(8), REGION, 8)[:REGION // 2], 4) + POOL[1][REGION // 2:]
        POOL[0] = canonical(POOL[0], 8)
    return POOL[kind]


def combos(cands, lim):
    total = 1
    for c in cands:
        total *= len(c)
    if total <= lim:
        yield from itertools.product(*[range(len(c)) for c in cands])
        return
    seen = set()
    n = len(cands)
    if n > 8:
        # many numbers: each of them all its values over several backgrounds, and neighbours together
        for bg in range(4):
            base = [(i * 3 + bg) % len(c) for i, c in enumerate(cands)]
            yield tuple(base)
            for i in range(n):
                for v in range(len(cands[i])):
                    w = list(base)
                    w[i] = v
                    if tuple(w) not in seen:
                        seen.add(tuple(w))
                        yield tuple(w)
        return
    k = 0
    for i in range(n):
        for j in range(i):
            for a in range(len(cands[i])):
                for b in range(len(cands[j])):
                    for turn in range(3):
                        k += 1
                        w = tuple(a if x == i else b if x == j else (k * (x + 1) + x + turn) % len(cands[x]) for x in range(n))
                        if w not in seen:
                            seen.add(w)
                            yield w


def results(port, tier):
    f = Fn(FUNCS[port])
    ref = getattr(REF, "r_" + port)
    ref.restype = None
    arr = (ctypes.c_void_p * (f.nargs + 1))()
    n = len(f.types)
    slots = [OPS + SLOT * i + 64 for i in range(n)]
    rsize = SIZE.get(f.ret, 0)
    if f.first:
        arr[0] = RES
    for i in range(n):
        arr[f.first + i] = slots[i]
    ptrs = [i for i, t in enumerate(f.types) if t.endswith("*")]
    nums = [i for i, t in enumerate(f.types) if t in FMT]
    shown = 0
    string_at = ctypes.string_at
    memmove = ctypes.memmove
    lim = limit(tier)
    count = 0
    for w in combos(f.cands, lim):
        count += 1
        ops = b""
        args = []
        for i, t in enumerate(f.types):
            c = f.cands[i][w[i]]
            if i in ptrs:
                b = (REG + 128 + c[0]).to_bytes(8, "little")
            elif i in nums:
                v = c
                if t == "float":
                    b = ctypes.c_float(v).value
                    b = struct.pack("<f", b)
                else:
                    b = struct.pack("<" + FMT[t], v)
            else:
                b = c
            if i in nums:
                args.append(c)
            else:
                args.append(slots[i])
            ops += PRE[:64] + b + PRE[64:SLOT - len(b)]
        memmove(OPS, ops, len(ops))
        for k, i in enumerate(ptrs):
            memmove(REG + k * REGION, region(f.cands[i][w[i]][1]), REGION)
        memmove(RES - 64, PRE, 192)
        ref(arr)
        want = string_at(RES - 64, 192)
        wregs = [string_at(REG + k * REGION, REGION) for k in range(len(ptrs))]
        for k, i in enumerate(ptrs):
            memmove(REG + k * REGION, region(f.cands[i][w[i]][1]), REGION)
        memmove(RES2 - 64, PRE, 192)
        S.transitions += 1
        why = None
        try:
            r = f.method(RES2, *args) if f.first else f.method(*args)
            if r is not None:
                why = "returns %r" % (r,)
        except Exception as e:
            why = "raises %r" % (e,)
        if why is None:
            got = string_at(RES2 - 64, 192)
            if f.defined is not None:
                d = 64 + f.defined
                got = got[:d] + want[d:64 + rsize] + got[64 + rsize:]
            if got != want:
                if got[:64] + got[64 + rsize:] != want[:64] + want[64 + rsize:]:
                    why = "writes outside its result"
                else:
                    why = "gives %s, the intrinsic %s" % (got[64:64 + rsize].hex(), want[64:64 + rsize].hex())
            elif string_at(OPS, len(ops)) != ops:
                why = "changes its operands"
            else:
                for k in range(len(ptrs)):
                    if string_at(REG + k * REGION, REGION) != wregs[k]:
                        why = "leaves other memory behind a pointer operand than the intrinsic"
        if why is None and f.first and count <= 60 and f.defined is None:
            # the result in place of an operand
            for i in range(n):
                if i in nums or i in ptrs or SIZE[f.types[i]] < rsize:
                    continue
                memmove(OPS, ops, len(ops))
                f.method(slots[i], *args)
                S.transitions += 1
                if string_at(slots[i], rsize) != want[64:64 + rsize]:
                    why = "gives another result when it replaces operand %d" % (i + 1)
        if why:
            return "%s(%s) %s" % (port, ", ".join(repr(f.cands[i][w[i]]) if i in nums or i in ptrs else f.cands[i][w[i]].hex() for i in range(n)), why)
    S.outcome("%d operands" % n)
    return None


def wrong(port):
    f = Fn(FUNCS[port])
    slots = [OPS + SLOT * i + 64 for i in range(f.nargs + 3)]
    for c in range(f.nargs + 4):
        if c == f.nargs:
            continue
        memory = mix(c, SLOT * (f.nargs + 3))
        for i in range(f.nargs + 3):
            # every place holds the address of memory that may be read and written
            memory = memory[:SLOT * i + 64] + REG.to_bytes(8, "little") + memory[SLOT * i + 72:]
        ctypes.memmove(OPS, memory, len(memory))
        ctypes.memmove(REG, POOL[0], REGION)
        args = [slots[i] if not (f.first <= i < f.nargs and f.types[i - f.first] in FMT) else 1 for i in range(c)]
        S.transitions += 1
        try:
            f.method(*args)
        except TypeError:
            if ctypes.string_at(OPS, len(memory)) != memory or ctypes.string_at(REG, REGION) != POOL[0]:
                return "%s with %d arguments stores something" % (port, c)
            continue
        except BaseException as e:
            return "%s with %d arguments raises %r" % (port, c, e)
        return "%s takes %d arguments instead of %d" % (port, c, f.nargs)
    return None


def refuse(port):
    entry = next(f for f in table() if f[0] == port)
    method = getattr(M, port)
    first = 0 if entry[3] == "void" else 1
    n = first + len(entry[4])
    memory = mix(3, SLOT * (n + 1))
    ctypes.memmove(OPS, memory, len(memory))
    args = [OPS + SLOT * i + 64 if not (i >= first and entry[4][i - first] not in SIZE and "*" not in entry[4][i - first]
                                       or i >= first and entry[4][i - first].replace("const ", "") in FMT) else 1 for i in range(n)]
    S.transitions += 1
    try:
        method(*args)
    except NotImplementedError:
        if ctypes.string_at(OPS, len(memory)) != memory:
            return "%s stores something though it is not implemented" % port
        return None
    except BaseException as e:
        return "%s raises %r instead of NotImplementedError" % (port, e)
    S.outcome("implemented meanwhile")
    return None


def const():
    import pyfastutil.unsafe as P
    from itertools import product
    want = {"".join(p): sum("ABCD".index(c) << (6 - 2 * i) for i, c in enumerate(p)) for p in product("ABCD", repeat=4)}
    got = {m: int(v) for m, v in P.MM_PERM_ENUM.__members__.items()}
    if got != want:
        return "MM_PERM_ENUM: %r" % {k: got.get(k) for k in want if got.get(k) != want[k]}
    got = {m: int(v) for m, v in P.MM_MANTISSA_NORM_ENUM.__members__.items()}
    if got != {"NORM_1_2": 0, "NORM_p5_2": 1, "NORM_p5_1": 2, "NORM_p75_1p5": 3}:
        return "MM_MANTISSA_NORM_ENUM: %r" % got
    got = {m: int(v) for m, v in P.MM_MANTISSA_SIGN_ENUM.__members__.items()}
    if got != {"src": 0, "zero": 1, "nan": 2}:
        return "MM_MANTISSA_SIGN_ENUM: %r" % got
    return None


def context():
    msg = context_manager(type(M))
    if msg:
        return msg
    return None


def execute(space, case):
    setup()
    region(0)
    S.visit(case)
    return {"r": results, "n": wrong, "x": refuse, "const": const, "context": context}[case[0]](*case[1:])
