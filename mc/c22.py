"""C22: Machine code handed to ASM runs until freed, and never after."""
import ctypes
import itertools
import os
import signal

from mc import build as B
from mc.common import *

NSH = 32
A = U = LIB = None
COUNTER = None
OPS = ("mk", "mkbig", "mkfast", "mkfastbig", "free0", "free1", "again", "run", "runfast", "bad")
BIG = 5000


def BOUNDS(tier):
    return "on this platform: every method with every shape of arguments refuses; as built for Windows, Windows' memory functions answered by a stand-in with its page " \
           "rules: all histories of %d operations out of %d, every function alive inspected and called after each; the same with each call of a memory function failing, " \
           "for all histories of %d; up to %d functions at once freed in 5 orders; every code length 1-%d" % (depth(tier), len(OPS), depth(tier) - 1, 700 if tier == "quick" else 2000, lengths(tier))


ASSUMPTIONS = ["Windows' VirtualProtect, VirtualAlloc and VirtualFree behave as documented (mc/native/win.c: protection per page, previous protection of the first page returned)"]


def depth(tier):
    return 5 if tier == "quick" else 6


def lengths(tier):
    return 8300 if tier == "quick" else 66000


def prepare():
    # what only Windows builds contain may use more of Windows than the stand-in offers
    global WIN
    try:
        B.build("windows")
    except B.BuildError:
        WIN = False


def spaces(tier):
    out = [{"name": "refuse", "variant": "plain", "shards": 1}]
    try:
        B.build("windows")
    except B.BuildError:
        return out
    return out + [{"name": "hist", "variant": "windows", "shards": NSH}, {"name": "fault", "variant": "windows", "shards": NSH}, {"name": "length", "variant": "windows", "shards": 8},
                  {"name": "args", "variant": "windows", "shards": 1}, {"name": "many", "variant": "windows", "shards": 8}]


def gen(space, tier):
    if space == "refuse":
        for m in METHODS:
            for i in range(len(shapes())):
                yield ("refuse", m, i)
        yield ("pages",)
    elif space == "hist":
        for h in itertools.product(range(len(OPS)), repeat=depth(tier)):
            if OPS[h[0]].startswith(("mk", "run")):
                yield ("h", h)
    elif space == "fault":
        for h in itertools.product(range(len(OPS)), repeat=depth(tier) - 1):
            if OPS[h[0]].startswith(("mk", "run")):
                yield ("f", h)
    elif space == "length":
        n = lengths(tier)
        for a in range(1, n + 1, 100):
            yield ("l", a, min(a + 100, n + 1))
    elif space == "many":
        for k in (3, 17, 127, 128, 129, 255, 256, 257, 258, 700) + ((2000,) if tier == "thorough" else ()):
            for order in range(5):
                for size in (6, 700, 4096):
                    yield ("many", k, order, size)
    else:
        yield ("args",)
        yield ("leak",)


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, {"hist": NSH, "fault": NSH, "length": 8, "many": 8}.get(space, 1))


METHODS = ("run", "runFast", "makeFunction", "makeFunctionFast", "freeFunction", "freeFunctionFast")


def shapes():
    code = b"\xc3"
    return [(code,), (b"",), (), (0,), (12345,), (None,), ("x",), (code, code), (code, 1, 2), (1.5,), (bytearray(code),), (-1,), (2 ** 70,), (b"\x90" * 5000 + code,)]


def setup(space):
    global A, U, LIB, COUNTER
    if A is not None:
        return
    from pyfastutil.unsafe import ASM, Unsafe
    A = ASM()
    U = Unsafe()
    COUNTER = ctypes.c_int(0)
    if space != "refuse":
        import sys
        LIB = ctypes.CDLL(sys.modules["pyfastutil.__pyfastutil"].__file__)
        for f in ("win_protection",):
            getattr(LIB, f).argtypes = [ctypes.c_void_p]
            getattr(LIB, f).restype = ctypes.c_ulong


def refuse(m, i):
    def rwx():
        with open("/proc/self/maps") as fh:
            return [line.split()[0] for line in fh if "wx" in line.split()[1]]
    before = rwx()
    COUNTER.value = 0
    args = shapes()[i]
    if i == 0:
        args = (inc_code(),)
    S.transitions += 1
    try:
        getattr(A, m)(*args)
    except NotImplementedError:
        pass
    except BaseException as e:
        return "%s%r raises %r instead of NotImplementedError" % (m, args, e)
    else:
        return "%s%r does not raise" % (m, args)
    if COUNTER.value or rwx() != before:
        return "%s%r has an effect" % (m, args)
    return None


def pages():
    msg = context_manager(type(A))
    if msg:
        return msg
    return None


def mov(value, size):
    """mov eax, value; nop ...; ret"""
    if size < 6:
        return b"\x90" * (size - 1) + b"\xc3"
    return b"\xb8" + value.to_bytes(4, "little") + b"\x90" * (size - 6) + b"\xc3"


def inc_code():
    """mov rax, counter; inc dword [rax]; ret"""
    return b"\x48\xb8" + ctypes.addressof(COUNTER).to_bytes(8, "little") + b"\xff\x00\xc3"


RWX = (0x10, 0x20, 0x40)


def broken(live):
    for addr, code, value in live:
        n = len(code)
        for p in range(addr & ~4095, addr + n, 4096):
            if LIB.win_protection(p) not in RWX:
                return "the function made as number %d is not executable any more" % value
        if ctypes.string_at(addr, n) != code:
            return "the function made as number %d does not hold its code" % value
    spans = sorted((a, a + len(c)) for a, c, v in live)
    for (a, b), (c, d) in zip(spans, spans[1:]):
        if c < b:
            return "two functions overlap"
    for addr, code, value in live:
        if len(code) >= 6 and U.callInt(addr) != value:
            return "the function made as number %d returns something else" % value
    return None


def history(h, fail_at):
    """None, or what went wrong."""
    signal.alarm(60)
    live = []  # address, code, number
    fast = set()
    dead = None
    made = 0
    A_ = A
    LIB_fail = ctypes.c_long.in_dll(LIB, "win_fail_at")
    calls = ctypes.c_long.in_dll(LIB, "win_calls")
    calls.value = 0
    LIB_fail.value = fail_at
    base_pages = LIB.win_executable_pages()
    base_allocs = LIB.win_allocations()
    failed = False
    try:
        for step, i in enumerate(h):
            op = OPS[i]
            S.transitions += 1
            what = " ".join(OPS[j] for j in h[:step + 1])
            hit = calls.value
            try:
                if op.startswith("mk"):
                    made += 1
                    code = mov(made, BIG if op.endswith("big") else 6)
                    given = bytes(bytearray(code))
                    addr = (A_.makeFunctionFast if "fast" in op else A_.makeFunction)(given)
                    ctypes.memset(id(given) + bytes.__basicsize__ - 1, 0xcc, len(given))
                    live.append((addr, code, made))
                    if "fast" in op:
                        fast.add(addr)
                elif op.startswith("free"):
                    if not live:
                        continue
                    k = 0 if op == "free0" else -1
                    addr = live[k][0]
                    r = (A_.freeFunctionFast if addr in fast else A_.freeFunction)(addr)
                    if r is not None:
                        return "%s: freeing returns %r" % (what, r)
                    fast.discard(addr)
                    dead = live.pop(k)[0]
                elif op == "again":
                    if dead is None or any(a <= dead < a + len(c) for a, c, v in live):
                        continue
                    try:
                        A_.freeFunction(dead)
                    except ValueError:
                        pass
                    else:
                        return "%s: a function can be freed twice" % what
                elif op.startswith("run"):
                    COUNTER.value = 0
                    if (A_.run if op == "run" else A_.runFast)(inc_code()) is not None:
                        return "%s: running returns something" % what
                    if COUNTER.value != 1:
                        return "%s: the code ran %d times" % (what, COUNTER.value)
                else:
                    for args, kind in (((), TypeError), ((b"\xc3", 1), TypeError), (("x",), TypeError), ((b"",), ValueError)):
                        for fn in (A_.makeFunction, A_.run):
                            try:
                                fn(*args)
                            except kind:
                                continue
                            return "%s: bad arguments are taken" % what
            except (OSError, MemoryError) as e:
                if not (fail_at and hit < fail_at <= calls.value):
                    return "%s: %r" % (what, e)
                failed = True
                if op.startswith("free"):
                    # whether the function is still there is not specified
                    live.pop(k)
                    base_allocs = base_pages = None
                    dead = None
                continue
            r = broken(live)
            if r:
                return "%s: %s" % (what, r)
        LIB_fail.value = 0
        while live:
            addr = live[0][0]
            try:
                (A_.freeFunctionFast if addr in fast else A_.freeFunction)(addr)
            except Exception as e:
                return "%s: freeing the rest: %r" % (" ".join(OPS[j] for j in h), e)
            live.pop(0)
            r = broken(live)
            if r:
                return "%s, then freeing: %s" % (" ".join(OPS[j] for j in h), r)
        if base_pages is not None and (fail_at == 0 or not any(OPS[j].startswith("run") for j in h)):
            if LIB.win_executable_pages() != base_pages or LIB.win_allocations() != base_allocs:
                return "%s: memory stays executable or allocated after everything is freed" % " ".join(OPS[j] for j in h)
        if fail_at:
            return None if calls.value >= fail_at or failed else "end"
        return None
    finally:
        LIB_fail.value = 0
        signal.alarm(0)


def faults(h):
    for k in range(1, 30):
        r = history(h, k)
        if r == "end":
            return None
        if r:
            return "with memory function call %d failing: %s" % (k, r)
    return None


def many(k, order, size):
    """k functions at once, freed first to last, last to first, from the middle, every seventh, or while others are made."""
    signal.alarm(120)
    try:
        base = LIB.win_executable_pages(), LIB.win_allocations()
        live = []
        number = 0
        for i in range(k):
            number += 1
            code = mov(number, size)
            live.append(((A.makeFunctionFast if order == 4 and i % 2 else A.makeFunction)(code), code, number))
        extra = k if order == 3 else 0
        S.transitions += k
        while live:
            n = len(live)
            if n < 4 or n % 64 < 3 or n == k:
                r = broken(live)
                if r:
                    return "%d functions of %d bytes, %d alive (order %d): %s" % (k, size, n, order, r)
            S.visit("many", k, order, size, n)
            i = (0, n - 1, n // 2, (n * 7) % n if n % 7 else 0, (7 * n + 3) % n if n else 0)[order]
            if order == 3:
                i = (number * 7) % n
            a, code, v = live.pop(i)
            (A.freeFunctionFast if order == 4 and (v - 1) % 2 else A.freeFunction)(a)
            if extra:
                extra -= 1
                number += 1
                if extra % 2:
                    code = mov(number, size)
                    live.append((A.makeFunction(code), code, number))
        if (LIB.win_executable_pages(), LIB.win_allocations()) != base:
            return "%d functions of %d bytes (order %d): memory stays executable or allocated after all are freed" % (k, size, order)
    finally:
        signal.alarm(0)
    return None


def length(a, b):
    signal.alarm(60)
    try:
        for n in range(a, b):
            S.transitions += 2
            f = A.makeFunction(mov(n, n))
            g = A.makeFunctionFast(mov(n + 1, n))
            live = [(f, mov(n, n), n), (g, mov(n + 1, n), n + 1)]
            r = broken(live)
            if r:
                return "code of %d bytes: %s" % (n, r)
            if n < 6:
                U.callVoid(f)
                U.callVoid(g)
            A.freeFunction(f)
            r = broken(live[1:])
            if r:
                return "code of %d bytes: %s" % (n, r)
            A.freeFunctionFast(g)
            COUNTER.value = 0
            code = inc_code()
            code = code[:-1] + b"\x90" * n + b"\xc3"
            A.run(code)
            A.runFast(code)
            if COUNTER.value != 2:
                return "code of %d bytes ran %d times instead of 2" % (len(code), COUNTER.value)
    finally:
        signal.alarm(0)
    return None


def args():
    signal.alarm(60)
    try:
        for fn in (A.makeFunction, A.run):
            for a, kind in (((), TypeError), ((b"\xc3", 2), TypeError), ((None,), TypeError), ((bytearray(b"\xc3"),), TypeError), (("x",), TypeError), ((1,), TypeError),
                            ((b"",), ValueError)):
                try:
                    fn(*a)
                except kind:
                    continue
                except BaseException as e:
                    return "%r raises %r" % (a, e)
                return "%r is taken" % (a,)
        for a, kind in (((), TypeError), ((1, 2), TypeError), ((0,), ValueError), ((12345,), ValueError), ((2 ** 63,), ValueError)):
            try:
                A.freeFunction(*a)
            except kind:
                pass
            except BaseException as e:
                return "freeFunction%r raises %r" % (a, e)
            else:
                return "freeFunction%r is taken" % (a,)
            f = A.makeFunction(mov(7, 6))
            if U.callInt(f) != 7:
                return "a made function returns something else"
            A.freeFunction(f)
    finally:
        signal.alarm(0)
    return None


def leak():
    class Info(ctypes.Structure):
        _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = Info
    code = mov(1, BIG)
    run = inc_code()[:-1] + b"\x90" * BIG + b"\xc3"

    def once():
        A.freeFunction(A.makeFunction(code))
        A.freeFunctionFast(A.makeFunctionFast(code))
        A.run(run)
        A.runFast(run)
        try:
            A.freeFunction(1)
        except ValueError:
            pass
    for i in range(50):
        once()
    before = libc.mallinfo2().uordblks
    for i in range(400):
        once()
    grown = libc.mallinfo2().uordblks - before
    if grown > 400 * BIG // 4:
        return "400 functions of %d bytes made and freed leave %d bytes behind" % (BIG, grown)
    return None


def execute(space, case):
    setup(space)
    S.visit((space, case))
    if space != "refuse" and not LIB.win_can_execute():
        S.outcome("no executable memory here")
        return None
    k = case[0]
    if k == "h":
        return history(case[1], 0)
    return {"refuse": refuse, "pages": pages, "f": faults, "l": length, "args": args, "leak": leak, "many": many}[k](*case[1:])
