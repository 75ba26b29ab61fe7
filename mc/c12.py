"""C12: exported buffers stay valid and show the container's elements."""
import array
import ctypes
import gc
import struct
import sys

from mc.common import *

NSH = 32
TYPES = ("IntArrayList", "BigIntArrayList")
FMT = {"IntArrayList": "i", "BigIntArrayList": "q"}


def BOUNDS(tier):
    return "all histories of 3 of %d operations (%d of %d) on a container and up to 3 views (releases, writes through views, dropping the " \
           "container and its last view in every order included) from %d starts, both containers, under AddressSanitizer; all requests " \
           "(2^9 flag sets) x lengths; all lengths 0-300 x writes in both directions; %d consumers of buffers; %d counts of simultaneous views up to 65538 x 3 orders of release, with 7 changes tried on the way" % (
               len(HOPS), 4 if tier == "quick" else 5, len(CORE), len(STARTS), len(CONSUMERS), len(COUNTS))


def spaces(tier):
    return [{"name": "hist", "variant": "asan", "shards": NSH}, {"name": "deep", "variant": "asan", "shards": NSH},
            {"name": "hist+sub", "variant": "asan", "shards": NSH},
            {"name": "deep-plain", "variant": "plain", "shards": NSH},
            {"name": "many", "variant": "plain", "shards": 8},
            {"name": "flags", "variant": "asan", "shards": 8}, {"name": "lengths", "variant": "asan", "shards": 8}]


class Boom(Exception):
    pass


def genfail(items):
    yield from items
    raise Boom


# operations on the container and on the list alike; L: may be refused with BufferError while views exist although the length stays
COPS = {
    "app": lambda x: x.append(7), "ins0": lambda x: x.insert(0, 8), "insend": lambda x: x.insert(99, 8), "pop": lambda x: x.pop(), "pop0": lambda x: x.pop(0),
    "ext1": lambda x: x.extend([5]), "ext40": lambda x: x.extend(range(40)), "ext0": lambda x: x.extend([]), "extgen": lambda x: x.extend(v for v in (1, 2)),
    "extself": lambda x: x.extend(x), "extfail": lambda x: x.extend(genfail(())), "iadd": lambda x: x.__iadd__([3, 4]), "imul2": lambda x: x.__imul__(2),
    "imul1": lambda x: x.__imul__(1), "imul0": lambda x: x.__imul__(0), "clear": lambda x: x.clear(), "rem": lambda x: x.remove(7), "del0": lambda x: x.__delitem__(0),
    "delall": lambda x: x.__delitem__(slice(None)), "delstep": lambda x: x.__delitem__(slice(None, None, 2)), "delnone": lambda x: x.__delitem__(slice(2, 2)),
    "delrev": lambda x: x.__delitem__(slice(None, None, -2)),
    "setsame": lambda x: x.__setitem__(slice(0, 1), [9] * (1 if len(x) else 0)), "setall": lambda x: x.__setitem__(slice(None), [i - 3 for i in range(len(x))]),
    "setself": lambda x: x.__setitem__(slice(None), x), "setgrow": lambda x: x.__setitem__(slice(0, 0), [1, 2]), "setshrink": lambda x: x.__setitem__(slice(0, 2), ()),
    "setgen": lambda x: x.__setitem__(slice(0, 1), (v for v in (4, 5))), "set0": lambda x: x.__setitem__(0, -2), "set-1": lambda x: x.__setitem__(-1, 6),
    "setbad": lambda x: x.__setitem__(99, 6), "sort": lambda x: x.sort(), "sortr": lambda x: x.sort(reverse=True), "sortkey": lambda x: x.sort(key=lambda v: -v), "rev": lambda x: x.reverse(),
    "init0": lambda x: x.__init__(), "init": lambda x: x.__init__([1, 2, 3]), "initgen": lambda x: x.__init__(v for v in (4, 3)),
    "resize1": lambda x: resize(x, 1), "resize9": lambda x: resize(x, 9), "resize99": lambda x: resize(x, 99),
}
LENIENT = {"ext0", "imul1", "imul0", "imul2", "clear", "delnone", "delall", "delstep", "delrev", "init0", "init", "initgen", "resize1", "resize9", "resize99", "extself", "setshrink",
           "extfail"}
# operations on views
VOPS = ("view", "view2", "wview", "ctype", "rel0", "rel1", "w0", "w-1", "wsl", "drop", "gc", "cast", "read")
HOPS = list(COPS) + list(VOPS)
CORE = ("app", "pop", "ext40", "setall", "clear", "sort", "rev", "init", "resize9", "delstep", "imul2", "setgrow", "view", "wview", "rel0", "w-1", "drop", "ctype")
STARTS = ((), (1,), (3, 1, 2), tuple(range(16)))


COUNTS = [1, 2, 3, 50] + [b + d for b in (127, 255, 32767, 65535) for d in range(4)]


def many(t, k, order):
    """k views at once: the length is fixed until the last one goes."""
    vals = [3, 1, 2]
    x = T[t](vals)
    views = [memoryview(x) for _ in range(k)]

    def refused(left):
        for name, f in (("append", lambda: x.append(1)), ("resize", lambda: x.resize(5000)), ("clear", lambda: x.clear()), ("pop", lambda: x.pop()),
                        ("init", lambda: x.__init__(range(5000))), ("iadd", lambda: x.__iadd__([1])), ("slice", lambda: x.__setitem__(slice(0, 0), [1]))):
            S.transitions += 1
            try:
                f()
            except BufferError:
                if x.to_list() != vals:
                    return "%s with %d of %d views: refused, but holds %r" % (name, left, k, x)
                continue
            return "%s with %d of %d views of %s is not refused" % (name, left, k, t)
        return None
    msg = refused(k)
    if msg:
        return msg
    for i in range(k - 1):
        v = views.pop(0 if order == 0 and k < 1000 else -1)
        v.release()
        if order == 2:
            v.release()
        if i < 3 or len(views) < 3 or len(views) & (len(views) - 1) == 0 or (len(views) + 1) % 256 < 2:
            msg = refused(len(views))
            if msg:
                return msg
        S.visit(t, k, order, len(views))
    v = views.pop()
    if v.tolist() != vals:
        return "the last of %d views shows %r" % (k, v.tolist())
    v[0] = -5
    if x[0] != -5:
        return "a write through the last of %d views is not seen" % k
    v.release()
    x.append(9)
    x.resize(5)
    x.pop()
    if x.to_list() != [-5, 1, 2, 9]:
        return "after %d views were released, the container holds %r" % (k, x)
    return None


def resize(x, n):
    if type(x) is list:
        x[n:] = [0] * (n - len(x))
    else:
        x.resize(n)


def gen(space, tier):
    if space == "hist":
        for t in TYPES:
            for s in range(len(STARTS)):
                for h in itertools.product(range(len(HOPS)), repeat=2):
                    yield ("h", t, s, tuple(HOPS[i] for i in h), "all")
    elif space.startswith("deep"):
        d = (4 if tier == "quick" else 5) - (1 if space == "deep" else 0)
        for t in TYPES:
            for s in (1, 2):
                for h in itertools.product(range(len(CORE)), repeat=d - 1):
                    yield ("h", t, s, tuple(CORE[i] for i in h), "core")
    elif space == "many":
        for t in TYPES:
            for k in COUNTS:
                for order in range(3):
                    yield ("m", t, k, order)
    elif space == "flags":
        for t in TYPES:
            for n in (0, 1, 2, 17):
                for sub in (0, 1):
                    yield ("f", t, n, sub)
        for t in TYPES:
            for i in range(len(CONSUMERS)):
                yield ("c", t, i)
    else:
        for t in TYPES:
            for n in list(range(0, 301)) + [511, 512, 513, 1000, 4097, 65535, 65536, 65537, 140001]:
                yield ("l", t, n)


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, NSH if space in ("hist", "deep", "deep-plain") else 8)


class View:
    """A view and what it must show if it is detached from the container's length."""

    def __init__(self, v, t, ct=False):
        self.v = v
        self.ct = ct
        self.t = t

    def items(self):
        if self.ct:
            return list(self.v)
        return self.v.tolist()

    def set(self, i, val):
        self.v[i] = val

    def release(self):
        if not self.ct:
            self.v.release()
        self.v = None


def run(t, start, hist):
    lst = list(STARTS[start])
    x = T[t](lst)
    views = []
    ct = ctypes.c_int if t == "IntArrayList" else ctypes.c_longlong
    for step, op in enumerate(hist):
        S.transitions += 1
        where = (t, STARTS[start] if start < 3 else "0..15", hist[:step + 1])
        f = COPS.get(op)
        if f is not None:
            if x is None:
                continue
            before = list(lst)
            res = err = rerr = rres = None
            try:
                rres = f(lst)
                rres = None if rres is lst else rres
            except Exception as e:
                rerr = type(e)
            try:
                res = f(x)
                res = None if res is x else res
            except Exception as e:
                err = type(e)
            if err is BufferError and rerr is not BufferError:
                if not views:
                    return "%r: BufferError without a view" % (where,)
                if len(before) == len(lst) and op not in LENIENT and rerr is None:
                    return "%r: refused although the length stays" % (where,)
                lst = before
            elif err is not rerr and not (err and rerr and issubclass(err, rerr)):
                return "%r: raises %r, list raises %r" % (where, err, rerr)
            elif res != rres:
                return "%r: returns %r, list %r" % (where, res, rres)
            elif views and len(before) != len(lst):
                # it was allowed: then every view's contents are intact
                for w in views:
                    if w.items() != before:
                        return "%r: changed the length under a view, which now shows %.200r" % (where, w.items())
                    w.release()
                views.clear()
        elif op in ("view", "view2"):
            if x is not None:
                views.append(View(memoryview(x), t))
                if op == "view2":
                    views.append(View(memoryview(views[-1].v), t))
        elif op == "wview":
            if x is not None:
                v = memoryview(x)
                views.append(View(v[:], t))
                v.release()
                v = None
        elif op == "cast":
            if views and not views[-1].ct:
                b = views[-1].v.cast("B") if True else None
                if bytes(b) != struct.pack("=%d%s" % (len(lst), FMT[t]), *lst):
                    return "%r: the bytes are %r" % (where, bytes(b)[:100])
                b.release()
                b = None
        elif op == "ctype":
            if x is not None and lst:
                views.append(View((ct * len(lst)).from_buffer(x), t, True))
        elif op in ("rel0", "rel1"):
            i = 0 if op == "rel0" else -1
            if views:
                w = views[i]
                try:
                    w.release()
                    del views[i]
                except BufferError:
                    pass
                w = None
        elif op in ("w0", "w-1"):
            if views and lst:
                i = 0 if op == "w0" else -1
                views[i].set(i, -77)
                lst[i] = -77
        elif op == "wsl":
            if views and lst:
                n = len(lst)
                views[0].v[:] = [9] * n if views[0].ct else array.array(FMT[t], [9] * n)
                lst = [9] * n
        elif op == "drop":
            x = None
        elif op == "gc":
            gc.collect(0)
        elif op == "read":
            if x is not None:
                x.copy()
                x.to_list()
                x.count(1)
                x == lst
                repr(x)
        n = len(lst)
        if x is not None and (len(x) != n or x.to_list() != lst):
            return "%r: holds %.200r, not %.200r" % (where, x.to_list(), lst)
        for w in views:
            if w.items() != lst:
                return "%r: a view shows %.200r, not %.200r" % (where, w.items(), lst)
            if not w.ct:
                v = w.v
                if v.ndim != 1 or v.shape != (n,) or v.itemsize != struct.calcsize(FMT[t]) or v.nbytes != n * v.itemsize or v.readonly or v.strides != (v.itemsize,) \
                        or struct.calcsize(v.format) != v.itemsize or not v.contiguous or v.suboffsets not in ((), None):
                    return "%r: a view is %r %r %r %r %r" % (where, v.ndim, v.shape, v.itemsize, v.strides, v.format)
                v = None
        w = None
        S.states.add(hash((t, tuple(lst), len(views), x is None)))
    # release everything, in either order, and use the container again
    if len(hist) % 2:
        views.reverse()
    while views:
        # a view taken of a view goes first
        for i in range(len(views)):
            try:
                views[i].release()
                del views[i]
                break
            except BufferError:
                pass
        else:
            return "%r: views cannot be released" % (hist,)
        if x is not None and x.to_list() != lst:
            return "%r: after releasing a view, holds %r" % (hist, x.to_list())
    if x is not None:
        for op in ("app", "ext40", "pop0", "init"):
            COPS[op](x)
            COPS[op](lst)
            if x.to_list() != lst:
                return "%r, all views released, %s: holds %r" % (hist, op, x.to_list())
    return None


# ------------------------------------------------------------------ requests

class Py_buffer(ctypes.Structure):
    _fields_ = [("buf", ctypes.c_void_p), ("obj", ctypes.c_void_p), ("len", ctypes.c_ssize_t), ("itemsize", ctypes.c_ssize_t), ("readonly", ctypes.c_int),
                ("ndim", ctypes.c_int), ("format", ctypes.c_char_p), ("shape", ctypes.POINTER(ctypes.c_ssize_t)), ("strides", ctypes.POINTER(ctypes.c_ssize_t)),
                ("suboffsets", ctypes.POINTER(ctypes.c_ssize_t)), ("internal", ctypes.c_void_p)]


FLAG_BITS = (0x1, 0x4, 0x8, 0x10 | 0x8, 0x20 | 0x18, 0x40 | 0x18, 0x80 | 0x18, 0x100 | 0x18)


def flags(t, n, sub):
    cls = T[t]
    if sub:
        class cls(T[t]):
            pass
    get = ctypes.pythonapi.PyObject_GetBuffer
    get.argtypes = [ctypes.py_object, ctypes.POINTER(Py_buffer), ctypes.c_int]
    rel = ctypes.pythonapi.PyBuffer_Release
    rel.argtypes = [ctypes.POINTER(Py_buffer)]
    size = struct.calcsize(FMT[t])
    for combo in range(1 << len(FLAG_BITS)):
        fl = 0
        for i, b in enumerate(FLAG_BITS):
            if combo >> i & 1:
                fl |= b
        vals = list(range(100, 100 + n))
        x = cls(vals)
        base = sys.getrefcount(x)
        b = Py_buffer()
        try:
            get(x, ctypes.byref(b), fl)
        except BufferError:
            if sys.getrefcount(x) != base:
                return "a refused request (%#x) leaves a reference" % fl
            x.append(1)
            continue
        S.transitions += 2
        what = "%s of %d, request %#x: " % (t, n, fl)
        if b.obj != id(x) or sys.getrefcount(x) != base + 1:
            return what + "the view does not own the container"
        if b.len != n * size or b.itemsize != size or b.ndim != 1 or b.readonly:
            return what + "len %d itemsize %d ndim %d readonly %d" % (b.len, b.itemsize, b.ndim, b.readonly)
        if fl & 4:
            if not b.format or struct.calcsize(b.format.decode()) != size or b.format.decode() not in ("i", "l", "q"):
                return what + "format %r" % b.format
        elif b.format is not None:
            return what + "a format was not asked for"
        if fl & 8:
            if not b.shape or b.shape[0] != n:
                return what + "no or a wrong shape"
        elif b.shape:
            return what + "a shape was not asked for"
        if fl & 0x10:
            if not b.strides or b.strides[0] != size:
                return what + "no or wrong strides"
        elif b.strides:
            return what + "strides were not asked for"
        if b.suboffsets:
            return what + "suboffsets"
        if n:
            raw = ctypes.string_at(b.buf, b.len)
            if raw != struct.pack("=%d%s" % (n, FMT[t]), *vals):
                return what + "shows %r" % raw
            ctypes.memmove(b.buf, struct.pack("=" + FMT[t], -5), size)
            if x[0] != -5:
                return what + "a write does not arrive"
        try:
            x.append(1)
            return what + "append is not refused"
        except BufferError:
            pass
        b2 = Py_buffer()
        get(x, ctypes.byref(b2), fl)
        rel(ctypes.byref(b))
        try:
            x.append(1)
            return what + "append is not refused after one of two views is released"
        except BufferError:
            pass
        rel(ctypes.byref(b2))
        x.append(1)
        if len(x) != n + 1 or sys.getrefcount(x) != base:
            return what + "released, but the container is not as before"
    return None


def _frombytes(x, raw):
    a = array.array("b")
    a.frombytes(memoryview(x).cast("B"))
    return a.tobytes()


def _readinto(x, raw):
    import io
    r = io.BytesIO(raw[::-1]).readinto(x)
    if r != len(raw):
        return None
    return bytes(x)[::-1]


def _packinto(x, raw):
    struct.pack_into("%ds" % len(raw), x, 0, raw[::-1])
    return bytes(x)[::-1]


def _hold_iter(x, raw):
    return b"".join(struct.pack("=" + memoryview(x).format, v) for v in memoryview(x))


def _hash(x, raw):
    import hashlib
    return raw if hashlib.sha256(x).digest() == hashlib.sha256(raw).digest() else None


CONSUMERS = [
    ("bytes", lambda x, r: bytes(x)), ("bytearray", lambda x, r: bytes(bytearray(x))), ("tobytes", lambda x, r: memoryview(x).tobytes()),
    ("cast", lambda x, r: bytes(memoryview(x).cast("B"))), ("frombytes", _frombytes), ("readinto", _readinto), ("pack_into", _packinto),
    ("join", lambda x, r: b"".join([x])), ("iter_unpack", lambda x, r: bytes(b for (b,) in struct.iter_unpack("B", x))), ("iterate", _hold_iter), ("hash", _hash),
    ("eq", lambda x, r: r if memoryview(x).cast("B") == r else None), ("extend", lambda x, r: (lambda b: (b.extend(memoryview(x).cast("B")), bytes(b))[1])(bytearray())),
    ("concat", lambda x, r: b"" + x), ("from_bytes", lambda x, r: int.from_bytes(memoryview(x).cast("B"), "little").to_bytes(len(r), "little")),
    ("hex", lambda x, r: bytes.fromhex(memoryview(x).hex())), ("slices", lambda x, r: bytes(memoryview(x)[::-1][::-1])), ("setall", lambda x, r: setall(x, r)),
]


def setall(x, r):
    memoryview(x).cast("B")[:] = r[::-1]
    return bytes(x)[::-1]


def execute(space, case):
    k = case[0]
    if k == "h":
        _, t, start, h, which = case
        for last in (HOPS if which == "all" else CORE):
            msg = run(t, start, h + (last,))
            if msg:
                return msg
        return None
    if k == "m":
        return many(*case[1:])
    if k == "f":
        S.visit(*case)
        return flags(*case[1:])
    if k == "c":
        _, t, i = case
        name, f = CONSUMERS[i]
        for n in (1, 2, 3, 16, 40):
            vals = [j * 77777 - 100000 for j in range(n)]
            x = T[t](vals)
            raw = struct.pack("=%d%s" % (n, FMT[t]), *vals)
            base = sys.getrefcount(x)
            if f(x, raw) != raw:
                return "%s: %s of %d elements is wrong" % (t, name, n)
            gc.collect(0)
            if sys.getrefcount(x) != base:
                return "%s: %s leaves a reference" % (t, name)
            x.append(4)
            x.resize(0)
            S.transitions += 2
        S.visit(t, name)
        return None
    _, t, n = case
    vals = [j * 7919 - 60000 for j in range(n)]
    for way in ("ctor", "append", "hint", "shrunk", "init"):
        if way == "append":
            x = T[t]()
            for v in vals:
                x.append(v)
        elif way == "hint":
            x = T[t](vals, n + 100)
        elif way == "shrunk":
            x = T[t](vals + [1] * 30)
            del x[n:]
        elif way == "init":
            x = T[t]([1] * (n + 9))
            x.__init__(vals)
        else:
            x = T[t](vals)
        v = memoryview(x)
        if v.tolist() != vals:
            return "%s of %d by %s: the view shows %.200r" % (t, n, way, v.tolist())
        if n and v.obj is not x:
            return "%s of %d: obj is another object" % (t, n)
        for i in range(n) if n <= 64 else notable(n):
            v[i] = i - 9
            if x[i] != i - 9:
                return "%s of %d: a write through the view at %d does not arrive" % (t, n, i)
            x[i] = 9 - i
            if v[i] != 9 - i:
                return "%s of %d: a write at %d does not show in the view" % (t, n, i)
        ref = x.to_list()
        x.sort()
        ref.sort()
        if v.tolist() != ref:
            return "%s of %d: sort does not show in the view" % (t, n)
        x.reverse()
        if v.tolist() != ref[::-1]:
            return "%s of %d: reverse does not show in the view" % (t, n)
        x = None
        if v.tolist() != ref[::-1]:
            return "%s of %d: the view does not keep its elements alive" % (t, n)
        v = v[::-1]
        if v.tolist() != ref:
            return "%s of %d: the reversed view is wrong" % (t, n)
        v = None
        S.transitions += 2 * n + 6
    S.visit(t, n)
    return None
