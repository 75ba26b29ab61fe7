"""C17: Unsafe stream functions pass text through unchanged."""
import ctypes
import os
import shutil
import sys
import tempfile

from mc.common import *

NSH = 32
U = None
LIBC = None
DIR = None
IN = OUT = None

PIECES = (b"a", b"\n", "é".encode(), b"\0", b"\xff", "€".encode(), b"\r")
TEXTS = ("a", "\n", "é", "\0", "€\n", "", "😀", "%s%n", "line\n")
BIGTEXTS = ("x" * 4095, "x" * 4096, "é" * 2048, "é" * 2049, "y\n" * 3000, "z" * 70000, "\0" * 5000)


def BOUNDS(tier):
    return "fgets: all inputs of up to %d pieces out of %d (text, newline, NUL, multi-byte characters, invalid bytes) x every buffer size 1-9, all sequences of 3 buffer " \
           "sizes, from files, and from a pipe delivering line by line; long lines around the stream buffer's size; fputs: all sequences of %d calls out of %d texts and " \
           "fflush; memory in use across hundreds of calls" % (ilen(tier), len(PIECES), plen(tier), len(TEXTS) + 1)


def ilen(tier):
    return 5 if tier == "quick" else 6


def plen(tier):
    return 4 if tier == "quick" else 5


def spaces(tier):
    return [{"name": n, "variant": "plain", "shards": NSH} for n in ("in", "mixed", "out")] + \
        [{"name": n, "variant": "plain", "shards": 8} for n in ("long", "pipe", "memory")] + [{"name": "in-asan", "variant": "asan", "shards": NSH}]


def gen(space, tier):
    if space.startswith("in"):
        for w in words(range(len(PIECES)), ilen(tier) - (1 if space.endswith("asan") else 0)):
            yield ("i", w)
    elif space == "mixed":
        for w in words(range(4), ilen(tier) - 1, 2):
            yield ("m", w)
    elif space == "out":
        for w in words(range(len(TEXTS) + 1), plen(tier)):
            yield ("o", w)
        for i in range(len(BIGTEXTS)):
            for j in range(len(BIGTEXTS)):
                yield ("ob", i, j)
        for i in range(6):
            yield ("bad", i)
    elif space == "long":
        for n in (1, 2, 100, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 65536):
            for b in (2, 3, 100, 4095, 4096, 4097, 4098, 8193, 100000, 2 ** 20):
                yield ("l", n, b)
    elif space == "pipe":
        for w in words(range(4), 3, 1):
            yield ("p", w)
    else:
        for i in range(8):
            yield ("mem", i)


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, NSH if space in ("in", "mixed", "out", "in-asan") else 8)


def setup():
    global U, LIBC, DIR, IN, OUT
    if U is not None:
        return
    from pyfastutil.unsafe import Unsafe
    U = Unsafe()
    LIBC = ctypes.CDLL(None)
    for n in ("fseek", "clearerr", "__fpurge", "fflush"):
        getattr(LIBC, n).argtypes = [ctypes.c_void_p] + ([ctypes.c_long, ctypes.c_int] if n == "fseek" else [])
    DIR = tempfile.mkdtemp(prefix="mc17-")
    IN = os.open(os.path.join(DIR, "in"), os.O_RDWR | os.O_CREAT)
    OUT = os.open(os.path.join(DIR, "out"), os.O_RDWR | os.O_CREAT)
    shutil.rmtree(DIR)


def stream(name):
    return ctypes.c_void_p.in_dll(LIBC, name).value


def feed(data):
    """Standard input is a file holding data, at its start."""
    os.ftruncate(IN, 0)
    os.pwrite(IN, data, 0)
    os.lseek(IN, 0, 0)
    LIBC.__fpurge(stream("stdin"))
    os.dup2(IN, 0)
    LIBC.clearerr(stream("stdin"))


def expected(data, n):
    """What a read of a buffer of n returns of data: bytes."""
    k = data.find(b"\n") + 1
    if k == 0:
        k = len(data)
    return data[:min(k, n - 1)]


def enc(s):
    return s.encode("utf-8", "surrogateescape")


def drain(data, ns, what):
    """Reads with buffer sizes ns (the last one repeated) until the end of input."""
    feed(data)
    rest = data
    i = 0
    while True:
        n = ns[min(i, len(ns) - 1)]
        i += 1
        got = U.fgets(n)
        S.transitions += 1
        if type(got) is not str:
            return "%s: fgets returns %r" % (what, got)
        want = expected(rest, n)
        try:
            b = enc(got)
        except UnicodeEncodeError:
            return "%s: fgets(%d) gives %r of %r" % (what, n, got, rest[:80])
        if b != want:
            return "%s: fgets(%d) call %d gives %r, the next bytes are %r" % (what, n, i, b[:80], want[:80])
        rest = rest[len(want):]
        if n == 1 and i >= len(ns):
            return None
        if not rest:
            for _ in range(2):
                g = U.fgets(n)
                if g != "":
                    return "%s: fgets at the end of input gives %r" % (what, g)
            # valid text comes back as itself
            return None


def to_out():
    os.ftruncate(OUT, 0)
    os.lseek(OUT, 0, 0)
    LIBC.__fpurge(stream("stdout"))
    os.dup2(OUT, 1)


def written():
    n = os.fstat(OUT).st_size
    return os.pread(OUT, n + 1, 0)


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def used():
    LIBC.mallinfo2.restype = Mallinfo
    m = LIBC.mallinfo2()
    return m.uordblks + m.hblkhd


def execute(space, case):
    setup()
    k = case[0]
    if k == "i":
        data = b"".join([PIECES[i] for i in case[1]])
        for n in range(1, 10):
            msg = drain(data, (n,), "input %r" % data)
            if msg:
                return msg
        # whole lines come back as the very text
        feed(data)
        for line in data.splitlines(True) if b"\r" not in data else ():
            got = U.fgets(100)
            try:
                want = line.decode()
            except UnicodeDecodeError:
                continue
            if b"\x85" not in line and got != want and b"\0" not in line:
                return "input %r: fgets(100) gives %r, not %r" % (data, got, want)
        S.visit(data)
        return None
    if k == "m":
        data = b"".join([PIECES[i] for i in case[1]]) + b"ab\ncd"
        for ns in itertools.product((1, 2, 3, 5), repeat=3):
            msg = drain(data, ns + (4,), "input %r" % data)
            if msg:
                return msg
        S.visit(data)
        return None
    if k == "l":
        _, n, b = case
        for tail in (b"", b"\n", b"\nmore\n", b"\n\n", "é\n".encode()):
            data = b"q" * n + tail + b"r" * 10
            msg = drain(data, (b,), "a line of %d bytes" % n)
            if msg:
                return msg
            msg = drain(("é" * n).encode() + tail, (b,), "a line of %d two-byte characters" % n)
            if msg:
                return msg
        S.visit("long", n, b)
        return None
    if k == "p":
        # a pipe that stays open: a complete line is returned without waiting for more
        lines = [(b"a\n", b"\n", "bé\n".encode(), b"ccccc\n")[i] for i in case[1]]
        for n in (2, 3, 4, 20):
            r, w = os.pipe()
            LIBC.__fpurge(stream("stdin"))
            os.dup2(r, 0)
            os.close(r)
            LIBC.clearerr(stream("stdin"))
            LIBC.__fpurge(stream("stdin"))
            for line in lines:
                os.write(w, line)
                rest = line
                while rest:
                    want = expected(rest, n)
                    got = enc(U.fgets(n))
                    S.transitions += 1
                    if got != want:
                        return "pipe delivering %r: fgets(%d) gives %r, not %r" % (lines, n, got, want)
                    rest = rest[len(want):]
            os.write(w, b"tail")
            os.close(w)
            got = [U.fgets(100), U.fgets(100), U.fgets(100)]
            if got != ["tail", "", ""]:
                return "pipe at its end: fgets gives %r" % got
            os.dup2(IN, 0)
            LIBC.clearerr(stream("stdin"))
        S.visit("pipe", case[1])
        return None
    if k == "o":
        to_out()
        done = b""
        sure = 0
        for i in case[1]:
            if i == len(TEXTS):
                if U.fflush() is not None:
                    return "fflush returns something"
                sure = len(done)
            else:
                if U.fputs(TEXTS[i]) is not None:
                    return "fputs returns something"
                done += TEXTS[i].encode()
            S.transitions += 1
            got = written()
            if not done.startswith(got) or len(got) < sure:
                return "%r: written %r, expected %r" % ([TEXTS[j] if j < len(TEXTS) else "fflush" for j in case[1]], got, done)
        U.fflush()
        if written() != done:
            return "%r: after fflush, %r was written instead of %r" % ([TEXTS[j] if j < len(TEXTS) else "fflush" for j in case[1]], written()[:200], done[:200])
        S.visit(done)
        return None
    if k == "ob":
        to_out()
        done = b""
        for i in (case[1], case[2], case[1]):
            U.fputs(BIGTEXTS[i])
            U.fputs("|")
            done += BIGTEXTS[i].encode() + b"|"
            if not done.startswith(written()):
                return "long texts %r are written out of order" % (case[1:],)
            if i == case[2]:
                U.fflush()
                if written() != done:
                    return "long texts %r: after fflush, %d bytes are written instead of %d" % (case[1:], len(written()), len(done))
            S.transitions += 3
        U.fflush()
        if written() != done:
            return "long texts %r: written %d bytes instead of %d" % (case[1:], len(written()), len(done))
        S.visit(case)
        return None
    if k == "bad":
        i = case[1]
        to_out()
        U.fputs("before")
        if i < 5:
            f = (lambda: U.fputs("a\udc80b"), lambda: U.fputs(b"bytes"), lambda: U.fputs(None), lambda: U.fputs(5), lambda: U.fputs())[i]
            try:
                f()
                return "a text that cannot be written is accepted (%d)" % i
            except (UnicodeEncodeError, TypeError):
                pass
            U.fputs("after")
            U.fflush()
            if written() != b"beforeafter":
                return "after a refused call, %r is written" % written()
        else:
            # delivery that fails is not reported as done
            U.fflush()
            fd = os.open("/dev/full", os.O_WRONLY)
            os.dup2(fd, 1)
            os.close(fd)
            failed = False
            try:
                U.fputs("lost")
                U.fflush()
            except OSError:
                failed = True
            LIBC.__fpurge(stream("stdout"))
            LIBC.clearerr(stream("stdout"))
            os.dup2(OUT, 1)
            if not failed:
                return "fflush returns although the text was not delivered"
            U.fputs("next")
            U.fflush()
            if not written().endswith(b"next"):
                return "after a failed write, %r is written" % written()
        for bad in (0, -1, 2 ** 31, 2 ** 70, "x", None, 1.5):
            feed(b"abc\n")
            try:
                U.fgets(bad)
                return "fgets(%r) succeeds" % (bad,)
            except (TypeError, ValueError, OverflowError):
                pass
            if U.fgets(10) != "abc\n":
                return "fgets(%r) consumes input" % (bad,)
        S.visit("bad", i)
        return None
    i = case[1]

    def calls():
        if i == 0:
            feed(b"line\n" * 200)
            for _ in range(200):
                U.fgets(4000)
        elif i == 1:
            feed(b"")
            for _ in range(200):
                U.fgets(4000)
        elif i == 2:
            feed(b"x" * 5000)
            for _ in range(200):
                U.fgets(20)
        elif i == 3:
            feed(b"\xff" * 4000)
            for _ in range(200):
                U.fgets(2000)
        elif i == 4:
            to_out()
            for j in range(200):
                U.fputs("text %d" % j)
            U.fflush()
        elif i == 5:
            to_out()
            for j in range(200):
                U.fputs("é%d" % j * 300)
                U.fflush()
        elif i == 6:
            for j in range(200):
                try:
                    U.fputs("\udc80" + "x" * 2000 + str(j))
                except UnicodeEncodeError:
                    pass
        else:
            fd = os.open("/", os.O_RDONLY)
            os.dup2(fd, 0)
            os.close(fd)
            LIBC.__fpurge(stream("stdin"))
            LIBC.clearerr(stream("stdin"))
            for j in range(200):
                try:
                    U.fgets(3000)
                    return
                except (RuntimeError, OSError):
                    pass
            os.dup2(IN, 0)
            LIBC.clearerr(stream("stdin"))
    calls()
    calls()
    a, ab = used(), sys.getallocatedblocks()
    for _ in range(5):
        calls()
    b, bb = used(), sys.getallocatedblocks()
    S.transitions += 1400
    if b - a > 100000 or bb - ab > 500:
        return "memory grows by %d bytes, %d blocks in 1000 calls (%d)" % (b - a, bb - ab, i)
    if i == 3:
        # one call that reads a large block keeps nothing of it
        feed(b"y" * 10)
    S.visit("mem", i)
    return None
