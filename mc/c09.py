"""C09: a refused operation raises its own exception and changes nothing."""
import ctypes
import decimal

from mc.common import *

NSH = 16
SIZES = (0, 1, 2, 3, 8, 20)


def BOUNDS(tier):
    return "5 containers x sizes %s x %d ways of building x every operation with every refused argument of 19 kinds in every position; " \
           "every source of elements (6 kinds) failing at every step k <= %d (in __iter__, __next__, __len__, __length_hint__, the " \
           "conversion of the k-th element, and the k-th comparison of a query); every wrong number of arguments and keyword; all pairs of " \
           "refused operations; up to 70001 elements with sources failing after up to 70000" % (SIZES, len(ways(tier)), 6 if tier == "quick" else 20)


def ways(tier):
    return ("ctor", "pre", "front") if tier == "quick" else BUILDS


def spaces(tier):
    return [{"name": "args", "variant": "plain", "shards": NSH}, {"name": "args-asan", "variant": "asan", "shards": NSH}, {"name": "source+sub", "variant": "plain", "shards": NSH},
            {"name": "source", "variant": "plain", "shards": NSH}, {"name": "source-asan", "variant": "asan", "shards": NSH},
            {"name": "count", "variant": "plain", "shards": 5}, {"name": "pairs", "variant": "plain", "shards": NSH},
            {"name": "long", "variant": "plain", "shards": NSH}]


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


class BadIndex:
    """Raises its exception when converted."""

    def __init__(self, exc):
        self.exc = exc

    def __index__(self):
        raise self.exc


class NonInt:
    def __index__(self):
        return "x"


class OnlyInt:
    """Has __int__ but no __index__."""

    def __int__(self):
        return 3


class Plain:
    pass


class BadEq:
    def __init__(self, exc):
        self.exc = exc

    def __eq__(self, other):
        raise self.exc

    __hash__ = None


class BadBool:
    """Its comparison gives a value without a truth value."""

    def __init__(self, exc):
        self.exc = exc

    def __bool__(self):
        raise self.exc

    def __eq__(self, other):
        return self

    __hash__ = None


NOT_INT = {"str": lambda: "12", "float": lambda: 1.5, "none": lambda: None, "list": lambda: [1], "bytes": lambda: b"1", "object": Plain,
           "complex": lambda: 1j, "decimal": lambda: decimal.Decimal(3), "onlyint": OnlyInt, "nonint": NonInt, "type": lambda: int,
           "floatint": lambda: 3.0, "tuple": lambda: (1,), "dots": lambda: ...}
EXCS = {"boom": lambda: Boom("b"), "type": lambda: TypeError("mine"), "value": lambda: ValueError("mine"), "overflow": lambda: OverflowError("mine"),
        "index": lambda: IndexError("mine"), "stop": lambda: StopIteration("mine"), "base": lambda: BoomBase("mine"),
        "memory": lambda: MemoryError("mine"), "attr": lambda: AttributeError("mine"), "kbd": lambda: KeyboardInterrupt("mine")}


def out_of_range(t):
    lo, hi = RANGE[t]
    out = {hi + 1, lo - 1, hi + 2, 2 * hi, 2 ** 63, -2 ** 63 - 1, 2 ** 64, 2 ** 64 - 1, 2 ** 200, -2 ** 200, 2 ** 32 + 5, -2 ** 32, 2 ** 32, 2 ** 62 if hi < 2 ** 40 else 2 ** 65,
           2 ** 64 + 5, 2 ** 96}
    return sorted(v for v in out if not lo <= v <= hi)


def probe():
    """An error left pending by the operation before comes up here."""
    len(())
    ctypes.pythonapi.PyErr_Occurred()
    int("3")
    return None


def content(t, n):
    return distinct(t, n)


def good(t):
    return 4 if t in INT_TYPES else "g"


# ------------------------------------------------------------------ the operations

def element_ops(t, n):
    """Operations taking one element v: name -> (function, kind). kind: 'store', 'query', 'bulk' (old elements and a prefix may stay)."""
    g = good(t)
    ops = {
        "append": (lambda x, v: x.append(v), "store"),
        "extend1": (lambda x, v: x.extend([v]), "store"),
        "extend2": (lambda x, v: x.extend([g, v, g]), "bulk"),
        "extendt": (lambda x, v: x.extend((g, g, v)), "bulk"),
        "extendg": (lambda x, v: x.extend(w for w in (g, v)), "bulk"),
        "iadd2": (lambda x, v: x.__iadd__([g, v, g]), "bulk"),
        "iaddg": (lambda x, v: x.__iadd__(w for w in (g, g, v)), "bulk"),
        "iaddt": (lambda x, v: x.__iadd__((v,)), "store"),
        "ctor": (lambda x, v: T[t]([g, v]), "new"),
        "ctort": (lambda x, v: T[t]((v, g)), "new"),
        "ctorg": (lambda x, v: T[t](w for w in (g, v)), "new"),
        "remove": (lambda x, v: x.remove(v), "query"),
        "index": (lambda x, v: x.index(v), "query"),
        "indexr": (lambda x, v: x.index(v, 0, n), "query"),
        "count": (lambda x, v: x.count(v), "query"),
    }
    for i in sorted({0, n, n // 2, -1, n + 5, -n - 5}):
        ops["insert%d" % i] = (lambda x, v, i=i: x.insert(i, v), "store")
    for i in sorted({0, n - 1, n // 2, -1, -n}):
        if n and -n <= i < n:
            ops["set%d" % i] = (lambda x, v, i=i: x.__setitem__(i, v), "store")
    for a, b in ((0, 0), (0, 1), (0, None), (1, 2), (n, n), (-1, None), (n // 2, n), (5, 2)):
        ops["setsl%r1" % ((a, b),)] = (lambda x, v, a=a, b=b: x.__setitem__(slice(a, b), [v]), "store")
        ops["setsl%r2" % ((a, b),)] = (lambda x, v, a=a, b=b: x.__setitem__(slice(a, b), [g, v, g]), "store")
        ops["setsl%rg" % ((a, b),)] = (lambda x, v, a=a, b=b: x.__setitem__(slice(a, b), (w for w in (g, g, v))), "store")
        ops["setsl%rt" % ((a, b),)] = (lambda x, v, a=a, b=b: x.__setitem__(slice(a, b), (g, v)), "store")
    return ops


def index_ops(t, n):
    """Operations taking an index."""
    g = good(t)
    return {
        "get": lambda x, i: x[i],
        "set": lambda x, i: x.__setitem__(i, g),
        "del": lambda x, i: x.__delitem__(i),
        "pop": lambda x, i: x.pop(i),
        "insert": lambda x, i: x.insert(i, g),
        "indexstart": lambda x, i: x.index(x[0] if len(x) else g, i),
        "indexstop": lambda x, i: x.index(x[0] if len(x) else g, 0, i),
        "getsl1": lambda x, i: x[i:],
        "getsl2": lambda x, i: x[:i],
        "getsl3": lambda x, i: x[::i],
        "delsl1": lambda x, i: x.__delitem__(slice(i, None)),
        "delsl2": lambda x, i: x.__delitem__(slice(None, i)),
        "delsl3": lambda x, i: x.__delitem__(slice(None, None, i)),
        "setsl1": lambda x, i: x.__setitem__(slice(i, None), [g]),
        "setsl2": lambda x, i: x.__setitem__(slice(None, i), [g]),
        "setsl3": lambda x, i: x.__setitem__(slice(None, None, i), [g]),
    }


BAD_INDEX = dict(NOT_INT)

ANY = (Exception,)


def other_calls(t, n):
    """(name, function, exceptions allowed) which must be refused."""
    g = good(t)
    out = []
    lim = (MemoryError, RuntimeError, OverflowError, ValueError)
    for i in (n, n + 1, -n - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 63 - 1, -2 ** 63, n + 2 ** 32, n - 2 ** 32 if n < 2 ** 31 else n):
        out.append(("get%d" % i, lambda x, i=i: x[i], IndexError))
        out.append(("set%d" % i, lambda x, i=i: x.__setitem__(i, g), IndexError))
        out.append(("del%d" % i, lambda x, i=i: x.__delitem__(i), IndexError))
        out.append(("pop%d" % i, lambda x, i=i: x.pop(i), IndexError))
        out.append(("getidx%d" % i, lambda x, i=i: x[Idx(i)], IndexError))
    for i in (2 ** 63, -2 ** 63 - 1, 2 ** 64, 2 ** 64 + 1, 2 ** 200, -2 ** 200, 2 ** 64 - 1):
        out.append(("get%d" % i, lambda x, i=i: x[i], IndexError))
        out.append(("set%d" % i, lambda x, i=i: x.__setitem__(i, g), IndexError))
        out.append(("del%d" % i, lambda x, i=i: x.__delitem__(i), IndexError))
        out.append(("pop%d" % i, lambda x, i=i: x.pop(i), (IndexError, OverflowError)))
        out.append(("insert%d" % i, lambda x, i=i: x.insert(i, g), (OverflowError, IndexError)))
        out.append(("mul%d" % i, lambda x, i=i: x * i, (OverflowError, MemoryError)))
        out.append(("rmul%d" % i, lambda x, i=i: i * x, (OverflowError, MemoryError)))
        out.append(("imul%d" % i, lambda x, i=i: x.__imul__(i), (OverflowError, MemoryError)))
    if n == 0:
        out.append(("popempty", lambda x: x.pop(), IndexError))
        out.append(("popempty0", lambda x: x.pop(0), IndexError))
        out.append(("popempty-1", lambda x: x.pop(-1), IndexError))
    missing = -12345 if t in INT_TYPES else Plain()
    out.append(("removemissing", lambda x: x.remove(missing), ValueError))
    out.append(("indexmissing", lambda x: x.index(missing), ValueError))
    out.append(("indexmissing2", lambda x: x.index(missing, 0, n), ValueError))
    if n > 1:
        out.append(("indexbefore", lambda x: x.index(x[0], 1), ValueError))
        out.append(("indexafter", lambda x: x.index(x[n - 1], 0, n - 1), ValueError))
        out.append(("indexempty", lambda x: x.index(x[1], 1, 1), ValueError))
        out.append(("indexcross", lambda x: x.index(x[1], 2, 1), ValueError))
    for name, mk in dict(NOT_INT, emptylist=lambda: [], dict=lambda: {}).items():
        if name not in ("nonint",):
            out.append(("mul" + name, lambda x, mk=mk: x * mk(), TypeError))
            out.append(("imul" + name, lambda x, mk=mk: x.__imul__(mk()), TypeError))
            out.append(("rmul" + name, lambda x, mk=mk: mk() * x, TypeError))
        if name not in ("list", "emptylist"):
            out.append(("add" + name, lambda x, mk=mk: x + mk(), TypeError))
        if name not in ("str", "list", "bytes", "tuple", "emptylist", "dict"):
            out.append(("iadd" + name, lambda x, mk=mk: x.__iadd__(mk()), TypeError))
            out.append(("extend" + name, lambda x, mk=mk: x.extend(mk()), TypeError))
            out.append(("setsl" + name, lambda x, mk=mk: x.__setitem__(slice(0, 1), mk()), TypeError))
            out.append(("setslempty" + name, lambda x, mk=mk: x.__setitem__(slice(n, n), mk()), TypeError))
            out.append(("ctor" + name, lambda x, mk=mk: T[t](mk()), TypeError))
    out.append(("setself0", lambda x: x.__setitem__(slice(None, None, 0), [g]), ValueError))
    out.append(("getstep0", lambda x: x[::0], ValueError))
    out.append(("delstep0", lambda x: x.__delitem__(slice(None, None, 0)), ValueError))
    for st in (2, -1, 3, -2, 2 ** 70, -2 ** 70):
        m = len(range(n)[::st])
        for w in {m + 1, m + 2}:
            out.append(("setstep%d,%d" % (st, w), lambda x, st=st, w=w: x.__setitem__(slice(None, None, st), [g] * w),
                        (NotImplementedError, ValueError)))
        out.append(("setstepbad%d" % st, lambda x, st=st: x.__setitem__(slice(None, None, st), 5), (NotImplementedError, TypeError)))
    out.append(("hash", lambda x: hash(x), TypeError))
    out.append(("sub", lambda x: x - x, TypeError))
    out.append(("matmul", lambda x: x @ x, TypeError))
    out.append(("call", lambda x: x(), TypeError))
    out.append(("attr", lambda x: x.nothing, AttributeError))
    out.append(("setattr", lambda x: setattr(x, "nothing", 1), AttributeError))
    out.append(("listadd", lambda x: [1] + x, TypeError))
    out.append(("tupleindex", lambda x: x[0, 0], TypeError))
    out.append(("sortkeybad", lambda x: x.sort(key=5), TypeError) if n else ("noop", lambda x: x.pop(n), IndexError))
    out.append(("sortkwbad", lambda x: x.sort(cmp=None), TypeError))
    out.append(("sortrevbad", lambda x: x.sort(reverse=BadBool(Boom())), Boom))
    out.append(("sort3", lambda x: x.sort(None, False, 1), TypeError))
    out.append(("itertype", lambda x: type(iter(x))(5), TypeError))
    out.append(("itertype2", lambda x: type(iter(x))(), TypeError))
    out.append(("addint", lambda x: x + 1, TypeError))
    out.append(("raddint", lambda x: 1 + x, TypeError))
    if t in ARRAY_TYPES:
        for s in (-1, -5, -2 ** 31, -2 ** 63, -2 ** 70):
            out.append(("resize%d" % s, lambda x, s=s: x.resize(s), (ValueError, OverflowError)))
        for s in (2 ** 60, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 64 + 3, 2 ** 200):
            out.append(("resize%d" % s, lambda x, s=s: x.resize(s), lim))
            out.append(("ctorsize%d" % s, lambda x, s=s: T[t](s), lim))
            out.append(("ctorhint%d" % s, lambda x, s=s: T[t]([g], s), lim))
        for name, mk in NOT_INT.items():
            out.append(("resize" + name, lambda x, mk=mk: x.resize(mk()), TypeError))
            out.append(("hint" + name, lambda x, mk=mk: T[t]([g], mk()), TypeError))
        for n2 in (2 ** 60, 2 ** 62, 2 ** 63 - 1):
            if n:
                out.append(("mul%d" % n2, lambda x, n2=n2: x * n2, (MemoryError, OverflowError, RuntimeError)))
                out.append(("imul%d" % n2, lambda x, n2=n2: x.__imul__(n2), (MemoryError, OverflowError, RuntimeError)))
    elif n > 2:
        for n2 in (2 ** 62, 2 ** 63 - 1):
            out.append(("mul%d" % n2, lambda x, n2=n2: x * n2, (MemoryError, OverflowError, RuntimeError)))
            out.append(("imul%d" % n2, lambda x, n2=n2: x.__imul__(n2), (MemoryError, OverflowError, RuntimeError)))
    else:
        out.append(("hint", lambda x: T[t]([g], 5), TypeError))
    if t in INT_TYPES:
        for name, mk in NOT_INT.items():
            out.append(("from_range" + name, lambda x, mk=mk: T[t].from_range(mk()), TypeError))
            out.append(("from_range2" + name, lambda x, mk=mk: T[t].from_range(0, mk()), TypeError))
            out.append(("from_range3" + name, lambda x, mk=mk: T[t].from_range(0, 5, mk()), TypeError))
        for v in (2 ** 63, -2 ** 63 - 1, 2 ** 200):
            out.append(("from_range%d" % v, lambda x, v=v: T[t].from_range(v), OverflowError))
            out.append(("from_range2%d" % v, lambda x, v=v: T[t].from_range(0, v), OverflowError))
            out.append(("from_range3%d" % v, lambda x, v=v: T[t].from_range(0, 3, v), OverflowError))
        out.append(("from_range0", lambda x: T[t].from_range(0, 3, 0), ValueError))
    return out


def refused_calls(t, n):
    """Every refused call: (name, maker of the call, kind, exceptions or None for the very exception)."""
    for name, (f, kind) in element_ops(t, n).items():
        if t in INT_TYPES:
            for bname, mk in NOT_INT.items():
                allowed = (TypeError, ValueError) if kind == "query" else TypeError
                yield (name + ":" + bname, lambda x, f=f, mk=mk: f(x, mk()), kind, allowed)
            for v in out_of_range(t):
                allowed = (OverflowError, ValueError) if kind == "query" else OverflowError
                if name == "count":
                    allowed = (OverflowError,)
                yield (name + ":%d" % v, lambda x, f=f, v=v: f(x, v), kind, allowed)
            for ename in EXCS:
                exc = EXCS[ename]()
                yield (name + ":raise" + ename, lambda x, f=f, exc=exc: f(x, BadIndex(exc)), kind, exc)
        elif kind == "query":
            for ename in EXCS:
                if n == 0:
                    continue
                exc = EXCS[ename]()
                yield (name + ":eq" + ename, lambda x, f=f, exc=exc: f(x, BadEq(exc)), kind, exc)
                exc = EXCS[ename]()
                yield (name + ":bool" + ename, lambda x, f=f, exc=exc: f(x, BadBool(exc)), kind, exc)
    for name, f in index_ops(t, n).items():
        for bname, mk in BAD_INDEX.items():
            if "sl" in name and bname == "none":
                continue
            allowed = TypeError
            if name == "setsl3":
                allowed = (TypeError, NotImplementedError)
            yield (name + ":" + bname, lambda x, f=f, mk=mk: f(x, mk()), "store", allowed)
        for ename in EXCS:
            exc = EXCS[ename]()
            yield (name + ":raise" + ename, lambda x, f=f, exc=exc: f(x, BadIndex(exc)), "store", exc)
    if t in ARRAY_TYPES:
        for ename in EXCS:
            exc = EXCS[ename]()
            yield ("hint:raise" + ename, lambda x, exc=exc: T[t]([], BadIndex(exc)), "new", exc)
    for ename in EXCS:
        exc = EXCS[ename]()
        yield ("mul:raise" + ename, lambda x, exc=exc: x * BadIndex(exc), "store", exc)
        exc = EXCS[ename]()
        yield ("imul:raise" + ename, lambda x, exc=exc: x.__imul__(BadIndex(exc)), "store", exc)
        if t in INT_TYPES:
            for k in range(3):
                exc = EXCS[ename]()
                yield ("range%d:raise" % k + ename, lambda x, exc=exc, k=k: T[t].from_range(*[5, 9, 2][:k], BadIndex(exc)), "store", exc)
    for name, f, allowed in other_calls(t, n):
        yield (name, f, "store", allowed)


def refuse(t, x, before, name, f, kind, allowed, bulk=None):
    """Runs a call that must be refused."""
    S.transitions += 1
    try:
        r = f(x)
    except BaseException as e:
        exc = e
    else:
        probe()
        if kind == "query" and name.startswith("count"):
            if r == 0:
                return None  # no such element
        if name.startswith(("mul", "imul", "rmul")) and not before and type(r) is T[t] and len(r) == 0 and name[-1].isdigit():
            return None
        return "%s %s is not refused: returns %.200r" % (t, name, r)
    if exc is None:
        return None
    S.outcome(type(exc).__name__)
    probe()
    if isinstance(exc, SystemError):
        return "%s %s raises %r" % (t, name, exc)
    if isinstance(allowed, BaseException):
        if exc is not allowed:
            return "%s %s raises %r, not the exception of the source %r" % (t, name, exc, allowed)
        if exc.__cause__ is not None:
            return "%s %s: the exception has a cause %r" % (t, name, exc.__cause__)
        exc.__traceback__ = None
    elif not isinstance(exc, allowed):
        return "%s %s raises %r" % (t, name, exc)
    elif type(exc) in (TypeError, ValueError, IndexError, OverflowError) and not str(exc):
        return "%s %s raises an empty %r" % (t, name, exc)
    if kind == "bulk":
        got = x.to_list()
        n = len(before)
        more = bulk if bulk is not None else [good(t)] * 2
        if not same_seq(got[:n], before) or not same_seq(got[n:], more[:len(got) - n]) or len(got) - n > len(more):
            return "%s %s: contents %.300r, before %.300r" % (t, name, got, before)
        before = got
    msg = check_contents(x, before)
    if msg:
        return "%s %s: %s" % (t, name, msg)
    return None


def usable(t, x):
    """The container still works."""
    ref = x.to_list()
    g = good(t)
    x.append(g)
    ref.append(g)
    x.insert(0, g)
    ref.insert(0, g)
    x.extend([g, g])
    ref.extend([g, g])
    if x.pop() != ref.pop() or x.pop(0) != ref.pop(0):
        return "pop is wrong"
    x.reverse()
    ref.reverse()
    x[0] = g
    ref[0] = g
    return check_deep(x, ref)


# ------------------------------------------------------------------ sources failing at step k

def gen_source(items, k, exc):
    for i, v in enumerate(items):
        if i == k:
            raise exc
        yield v
    if k >= len(items):
        raise exc


class It:
    def __init__(self, items, k, exc):
        self.items, self.k, self.exc, self.i = items, k, exc, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i == self.k:
            raise self.exc
        if self.i >= len(self.items):
            raise StopIteration
        self.i += 1
        return self.items[self.i - 1]


class HintIt(It):
    def __length_hint__(self):
        return 3


class BadHint(It):
    def __length_hint__(self):
        raise self.exc


class NegHint(It):
    def __length_hint__(self):
        return -1


class BadLen:
    def __init__(self, items, exc):
        self.items, self.exc = items, exc

    def __len__(self):
        raise self.exc

    def __iter__(self):
        return iter(list(self.items))


class BadIter:
    def __init__(self, exc):
        self.exc = exc

    def __iter__(self):
        raise self.exc


class IterNone:
    __iter__ = None


class IterInt:
    def __iter__(self):
        return 5


class Get:
    def __init__(self, items, k, exc):
        self.items, self.k, self.exc = items, k, exc

    def __getitem__(self, i):
        if i == self.k:
            raise self.exc
        return self.items[i]


def bulk_ops(t, n):
    ops = {
        "extend": (lambda x, s: x.extend(s), "bulk"), "iadd": (lambda x, s: x.__iadd__(s), "bulk"),
        "ctor": (lambda x, s: T[t](s), "new"), "ctorkw": (lambda x, s: T[t](iterable=s), "new"),
    }
    if t in ARRAY_TYPES:
        ops["ctorhint"] = (lambda x, s: T[t](s, 7), "new")
    for a, b in ((0, 0), (0, None), (1, 2), (n, n), (-1, None), (n // 2, n)):
        ops["setsl%r" % ((a, b),)] = (lambda x, s, a=a, b=b: x.__setitem__(slice(a, b), s), "store")
    return ops


def gen(space, tier):
    sizes = SIZES
    if space.startswith("args"):
        for t in ALL_TYPES:
            for n in sizes:
                for way in ways(tier) if not space.endswith("asan") else ("ctor", "append"):
                    yield ("a", t, n, way)
    elif space.startswith("source"):
        m = 6 if tier == "quick" else 20
        for t in ALL_TYPES:
            for n in sizes:
                for way in ways(tier) if not space.endswith("asan") else ("ctor", "append"):
                    for k in range(m + 1):
                        yield ("s", t, n, way, k, m)
    elif space == "count":
        for t in ALL_TYPES:
            yield ("c", t)
    elif space == "long":
        for t in ALL_TYPES:
            for n in (0, 3, 255, 300, 4097, 70001):
                for k in (7, 15, 64, 255, 256, 257, 1000, 4100, 65536, 70000):
                    yield ("L", t, n, k)
    else:
        for t in ALL_TYPES:
            for n in (0, 3) if tier == "quick" else (0, 1, 3, 20):
                for i in range(0, 60):
                    yield ("p", t, n, i, 60)


def long(t, n, k):
    """Long contents, and sources that fail after k elements: the very exception, everything old in place, at most a prefix of the new behind it."""
    V = [i * 3 - 1000 for i in range(max(n, k + 5))]
    if t in OBJ_TYPES:
        V = [Eq(i, "d") for i in V]
    c, new = V[:n], V[::-1][:k]
    exc = Boom("b")

    def conv(mk):
        return mk(new + [BadIndex(exc)] + new[:3])
    srcs = {"gen": lambda: gen_source(new, k, exc), "hintit": lambda: HintIt(new, k, exc), "get": lambda: Get(new, k, exc)}
    if t in INT_TYPES:
        srcs.update({"list": lambda: conv(list), "tuple": lambda: conv(tuple), "iter": lambda: conv(iter), "objects": lambda: conv(T["ObjectLinkedList"]),
                     "wide": lambda: new + [2 ** 70], "widegen": lambda: iter(new + [2 ** 70] + new[:3]), "str": lambda: new + ["x"] + new[:3]})
    for oname, (f, kind) in bulk_ops(t, n).items():
        for sname, mk in srcs.items():
            x = T[t](c)
            src = mk()
            S.transitions += 1
            what = "%s of %d: %s from %s failing after %d elements" % (t, n, oname, sname, k)
            try:
                f(x, src)
                return what + " is not refused"
            except (Boom, OverflowError, TypeError) as e:
                if (e is not exc) if sname[:4] != "wide" and sname != "str" else type(e) is not (TypeError if sname == "str" else OverflowError):
                    return "%s raises %r" % (what, e)
                exc.__traceback__ = None
            probe()
            got = x.to_list()
            if not same_seq(got[:n], c) or len(got) != len(x) or (len(got) > n and kind != "bulk") or len(got) > n + k or not same_seq(got[n:], new[:len(got) - n]):
                return "%s: %d elements are left" % (what, len(got))
            if not same_seq(list(reversed(x)), got[::-1]):
                return what + ": the container is inconsistent"
            x.append(c[0] if n else V[0])
            x.extend(V[:2])
            if not same_seq(x.to_list(), got + [c[0] if n else V[0]] + V[:2]):
                return what + ": the container does not work any more"
            S.visit(t, n, k, oname, sname)
    # operations that find nothing, or nothing at that place
    x = T[t](c)
    missing = -12345 if t in INT_TYPES else Plain()
    g = good(t)
    for name, f, kind in (("remove", lambda: x.remove(missing), ValueError), ("index", lambda: x.index(missing), ValueError), ("get", lambda: x[n], IndexError),
                          ("get-", lambda: x[-n - 1], IndexError), ("set", lambda: x.__setitem__(n, g), IndexError), ("del", lambda: x.__delitem__(-n - 1), IndexError),
                          ("pop", lambda: x.pop(n), IndexError), ("pop-", lambda: x.pop(-n - 1), IndexError), ("step0", lambda: x[::0], ValueError),
                          ("index3", lambda: x.index(c[n - 1] if n else g, 0, max(0, n - 1)), ValueError), ("add", lambda: x + 5, TypeError),
                          ("setbad", lambda: x.__setitem__(slice(1, -1), 5), TypeError), ("key", lambda: x.sort(key=lambda v: 1 // 0), ZeroDivisionError),
                          ("mul", lambda: x * 2 ** 62, (MemoryError, RuntimeError, OverflowError))):
        if name in ("key", "mul") and (n == 0 or "Linked" in t and name == "mul"):
            continue
        S.transitions += 1
        try:
            f()
            return "%s of %d: %s is not refused" % (t, n, name)
        except kind:
            pass
        probe()
        if not same_seq(x.to_list(), c) or not same_seq(list(reversed(x)), c[::-1]):
            return "%s of %d: the refused %s changes it" % (t, n, name)
    return None


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, 5 if space == "count" else NSH)


def execute(space, case):
    k = case[0]
    if k == "L":
        return long(*case[1:])
    if k == "a":
        _, t, n, way = case
        c = content(t, n)
        for name, f, kind, allowed in refused_calls(t, n):
            x = build(t, c, way)
            msg = refuse(t, x, c, name, f, kind, allowed)
            if msg is None:
                u = usable(t, x)
                msg = u and "%s of %d after %s was refused: %s" % (t, n, name, u)
            if msg:
                return "%s [%d, built by %s]" % (msg, n, way)
            S.visit(t, n, way, name)
        return None
    if k == "s":
        _, t, n, way, step, m = case
        c = content(t, n)
        items = [good(t)] * m
        for oname, (f, kind) in bulk_ops(t, n).items():
            for ename in EXCS:
                if ename in ("stop", "index"):
                    continue
                srcs = {"gen": lambda e: gen_source(items, step, e), "it": lambda e: It(items, step, e), "hintit": lambda e: HintIt(items, step, e),
                        "get": lambda e: Get(items, step, e)}
                if step == 0:
                    srcs["baditer"] = BadIter
                    if ename not in ("type",):
                        srcs["badhint"] = lambda e: BadHint(items, 99, e)
                        srcs["badlen"] = lambda e: BadLen(items, e)
                if t in INT_TYPES and step < m:
                    def conv(e, mk):
                        src = list(items)
                        src[step] = BadIndex(e)
                        return mk(src)
                    srcs["convlist"] = lambda e: conv(e, list)
                    srcs["convtuple"] = lambda e: conv(e, tuple)
                    srcs["conviter"] = lambda e: conv(e, iter)
                    srcs["convobj"] = lambda e: conv(e, T["ObjectArrayList"])
                for sname, mk in srcs.items():
                    if sname in ("badhint", "badlen"):
                        # whether the hint is looked at is up to the operation
                        x = build(t, c, way)
                        exc = EXCS[ename]()
                        S.transitions += 1
                        try:
                            r = f(x, mk(exc))
                        except BaseException as e:
                            if e is not exc:
                                return "%s %s from %s (%s): raises %r" % (t, oname, sname, ename, e)
                            probe()
                            msg = check_contents(x, c)
                            if msg:
                                return "%s %s from %s: %s" % (t, oname, sname, msg)
                        else:
                            probe()
                            got = r.to_list() if kind == "new" else x.to_list()
                            if got.count(items[0]) < m:
                                return "%s %s from %s: lost elements: %r" % (t, oname, sname, got)
                        continue
                    if sname == "get" and ename == "attr":
                        pass
                    exc = EXCS[ename]()
                    x = build(t, c, way)
                    msg = refuse(t, x, c, "%s from %s failing at %d by %s" % (oname, sname, step, ename), lambda x: f(x, mk(exc)), kind,
                                 TypeError if sname == "baditer" and ename == "type" else exc, items[:step])  # as list does
                    if msg is None:
                        u = usable(t, x)
                        msg = u and "%s after %s from %s failed at %d: %s" % (t, oname, sname, step, u)
                    if msg:
                        return "%s [%d, built by %s]" % (msg, n, way)
                    S.visit(t, n, way, step, oname, sname, ename)
            for bad in (IterNone(), IterInt()):
                x = build(t, c, way)
                msg = refuse(t, x, c, "%s from %s" % (oname, type(bad).__name__), lambda x: f(x, bad), kind, TypeError, [])
                if msg:
                    return msg
        # queries failing at the k-th comparison
        if t in OBJ_TYPES and step < n:
            class E:
                count = 0

                def __eq__(self, other):
                    E.count += 1
                    if E.count == step + 1:
                        raise exc
                    return alike
                __hash__ = None
            for qname, q in (("index", lambda x: x.index(e)), ("count", lambda x: x.count(e)), ("remove", lambda x: x.remove(e)), ("in", lambda x: e in x),
                             ("index3", lambda x: x.index(e, 0, n)), ("eq", lambda x: x == [e] * n), ("eqsame", lambda x: x == T[t]([e] * n)),
                             ("ne", lambda x: x != [e] * n), ("lt", lambda x: x < [e] * n)):
                alike = qname in ("eq", "eqsame", "ne", "lt")
                for ename in EXCS:
                    exc = EXCS[ename]()
                    E.count = 0
                    e = E()
                    x = build(t, c, way)
                    msg = refuse(t, x, c, "%s failing at comparison %d by %s" % (qname, step, ename), q, "store", exc)
                    if msg:
                        return "%s [%d, built by %s]" % (msg, n, way)
        if step < n:
            # sort with a key failing at the k-th call: a permutation stays
            for ename in EXCS:
                exc = EXCS[ename]()
                calls = [0]

                def key(v):
                    calls[0] += 1
                    if calls[0] == step + 1:
                        raise exc
                    return repr(v)
                x = build(t, c, way)
                S.transitions += 1
                try:
                    x.sort(key=key)
                except BaseException as e2:
                    if e2 is not exc:
                        return "%s sort with a key failing at call %d raises %r" % (t, step, e2)
                else:
                    return "%s sort with a key failing at call %d succeeds" % (t, step)
                probe()
                got = x.to_list()
                if sorted(map(repr, got)) != sorted(map(repr, c)):
                    return "%s sort with a key failing at call %d leaves %r" % (t, step, got)
        # repr failing at the k-th element
        if t in OBJ_TYPES and step < n:
            class R:
                def __repr__(self):
                    raise exc
            c2 = list(c)
            c2[step] = R()
            for ename in EXCS:
                exc = EXCS[ename]()
                x = build(t, c2, way)
                for fn in (repr, str):
                    msg = refuse(t, x, c2, "%s failing at %d by %s" % (fn.__name__, step, ename), fn, "store", exc)
                    if msg:
                        return msg
        return None
    if k == "c":
        t = case[1]
        return counts(t)
    _, t, n, i, of = case
    c = content(t, n)
    calls = [r for r in refused_calls(t, n) if r[2] != "bulk" and not isinstance(r[3], BaseException)]
    mine = calls[i::of]
    # every refused call followed by every other (every 7th in turn, all over the shards)
    for a, (name, f, kind, allowed) in enumerate(mine):
        x = build(t, c, "append")
        for name2, f2, kind2, allowed2 in calls:
            msg = refuse(t, x, c, name, f, kind, allowed)
            if msg is None:
                msg = refuse(t, x, c, name2, f2, kind2, allowed2)
            if msg:
                return "%s [%d; %s, then %s]" % (msg, n, name, name2)
        msg = usable(t, x)
        if msg:
            return "%s after %s was refused many times: %s" % (t, name, msg)
        S.visit(t, n, name)
    return None


METHODS = {"append": {1}, "extend": {1}, "pop": {0, 1}, "index": {1, 2, 3}, "count": {1}, "insert": {2}, "remove": {1}, "reverse": {0}, "clear": {0},
           "copy": {0}, "to_list": {0}, "sort": {0, 1, 2}, "__rmul__": {1}, "__reversed__": {0}, "__len__": {0}, "__iter__": {0}, "__getitem__": {1},
           "__setitem__": {2}, "__delitem__": {1}, "__contains__": {1}, "__add__": {1}, "__mul__": {1}, "__iadd__": {1}, "__imul__": {1},
           "__repr__": {0}, "__str__": {0}, "__eq__": {1}, "__lt__": {1}}


def counts(t):
    """Wrong numbers of arguments, unexpected keywords."""
    c = content(t, 3)
    args = [[0, 1, 2, 1, 1], [c[0], 0, 1, 2, 3], [[], [], [], [], []], [c, 0, 1, 2, 3]]
    methods = dict(METHODS)
    if t in ARRAY_TYPES:
        methods["resize"] = {1}
    if t in INT_TYPES:
        methods["from_range"] = {1, 2, 3}
    for name, ok in methods.items():
        for k in range(0, 6):
            for a in args:
                if k not in ok:
                    x = T[t](c)
                    msg = refuse(t, x, c, "%s with %d arguments" % (name, k), lambda x: getattr(x, name)(*a[:k]), "store", TypeError)
                    if msg:
                        return msg
                    S.visit(t, name, k)
                # a keyword on top
                if name not in ("sort", "__eq__", "__lt__"):
                    x = T[t](c)
                    for kw in ("key", "value", "index", "iterable", "x"):
                        msg = refuse(t, x, c, "%s with %d arguments and a keyword" % (name, k), lambda x: getattr(x, name)(*a[:k], **{kw: 1}), "store",
                                     TypeError)
                        if msg:
                            return msg
    x = T[t](c)
    for a, kw in (((), {"foo": 1}), (([],), {"foo": 1}), (([], 1, 2), {}), (([],), {"iterable": []}), (([], 1, 2, 3), {})):
        msg = refuse(t, x, c, "constructor with %r %r" % (a, kw), lambda x: T[t](*a, **kw), "store", TypeError)
        if msg:
            return msg
        msg = refuse(t, x, c, "__init__ with %r %r" % (a, kw), lambda x: x.__init__(*a, **kw), "store", TypeError)
        if msg:
            return msg
    for f in (lambda x: x.sort(foo=1), lambda x: x.sort(key=None, reverse=False, cmp=None), lambda x: x.sort(None, key=None),
              lambda x: x.sort(None, True, None)):
        msg = refuse(t, x, c, "sort with wrong arguments", f, "store", TypeError)
        if msg:
            return msg
    it = iter(x)
    for f in (lambda x: it.__next__(1), lambda x: next(it, 1, 2), lambda x: it.__iter__(1), lambda x: it.nothing):
        msg = refuse(t, x, c, "iterator misused", f, "store", (TypeError, AttributeError))
        if msg:
            return msg
    if list(it) != c:
        return "%s iterator misused: moved" % t
    return None
