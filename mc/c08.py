"""C08: construction, ranges, copies and conversions are faithful and independent."""
import array
import collections

from mc.common import *

NSH = 16
INT_HAS_RANGE = INT_TYPES


def BOUNDS(tier):
    b = box(tier)
    return "all words to length %d over 3 values x 33 kinds of source x 12 size hints (positional and keyword), all lengths to 70 and " \
           "around the powers of two to 4100, 5001, 16385 and 70001; from_range for all triples in [-%d, %d]^3, all 1- and 2-argument forms, ranges of up to 140001 elements, and all triples " \
           "of extreme starts/stops/steps with at most 40 elements; all histories of %d changes on (source, copy) for 12 ways of copying; " \
           "repr and str of all contents to length 4 over values of 14 kinds" % (
               4 if tier == "quick" else 6, b, b, 3 if tier == "quick" else 4)


def box(tier):
    return 9 if tier == "quick" else 20


def spaces(tier):
    return [{"name": "source", "variant": "plain", "shards": NSH}, {"name": "length", "variant": "plain", "shards": NSH},
            {"name": "range", "variant": "plain", "shards": NSH}, {"name": "extreme", "variant": "plain", "shards": NSH},
            {"name": "independent", "variant": "plain", "shards": NSH}, {"name": "repr", "variant": "plain", "shards": NSH},
            {"name": "source+sub", "variant": "plain", "shards": NSH}, {"name": "repr+sub", "variant": "plain", "shards": NSH},
            {"name": "reinit", "variant": "asan", "shards": 4}, {"name": "source-asan", "variant": "asan", "shards": NSH}]


class ListSub(list):
    pass


class ListOdd(list):
    """A list whose iteration is its own."""

    def __iter__(self):
        return iter(list(self[::-1]))


class TupleOdd(tuple):
    def __iter__(self):
        return iter(self[::-1])


class GetItem:
    def __init__(self, c):
        self.c = c

    def __getitem__(self, i):
        return self.c[i]


class Hinted:
    """An iterator with a wrong length hint."""

    def __init__(self, c, hint):
        self.it = iter(c)
        self.hint = hint

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __length_hint__(self):
        return self.hint


class Lying:
    def __init__(self, c, n):
        self.c = c
        self.n = n

    def __len__(self):
        return self.n

    def __iter__(self):
        return iter(list(self.c))


class Stops:
    """Raises StopIteration from __next__ and would go on afterwards."""

    def __init__(self, c):
        self.c = list(c)
        self.i = -1

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        if self.i >= len(self.c):
            self.i = -2
            raise StopIteration
        return self.c[self.i]


class IterIdx(Stops):
    """An iterator that is usable as an integer, too, and false."""

    def __index__(self):
        return 3

    __int__ = __index__

    def __bool__(self):
        return False


class SeqIdx(GetItem):
    def __index__(self):
        return 2

    def __float__(self):
        return 2.0

    def __call__(self):
        return [9]


class NoBool:
    def __init__(self, c):
        self.c = c

    def __bool__(self):
        raise ValueError("no truth value")

    def __iter__(self):
        return iter(self.c)


def _dict(c):
    return dict.fromkeys(c)


def src_same(t):
    return lambda c: T[t](c)


SRC = {
    "list": list, "tuple": tuple, "listsub": ListSub, "listodd": ListOdd, "tupleodd": TupleOdd, "gen": lambda c: (v for v in c),
    "listiter": lambda c: iter(list(c)), "tupleiter": lambda c: iter(tuple(c)), "map": lambda c: map(lambda v: v, c),
    "chain": lambda c: itertools.chain(c, []), "deque": collections.deque, "reversed": lambda c: reversed(list(c)),
    "getitem": GetItem, "hint0": lambda c: Hinted(c, 0), "hint1": lambda c: Hinted(c, 1), "hint50": lambda c: Hinted(c, 50),
    "hintnone": lambda c: Hinted(c, NotImplemented), "len0": lambda c: Lying(c, 0), "len9": lambda c: Lying(c, 9), "stops": Stops,
    "dict": _dict, "dictvalues": lambda c: dict(enumerate(c)).values(), "listcomp": lambda c: [v for v in c], "zip": lambda c: c,
    "iteridx": IterIdx, "seqidx": SeqIdx, "nobool": NoBool, "halfiter": lambda c: _half(c),
}
INT_SRC = {
    "array": lambda c: array.array("q", c), "sub": lambda c: [Idx(v) for v in c], "view": lambda c: memoryview(array.array("q", c)),
}


def _half(c):
    """An iterator part of which is consumed already."""
    it = iter([None] + list(c))
    next(it)
    return it


def sources(t):
    d = dict(SRC)
    if t in INT_TYPES:
        d.update(INT_SRC)
    for o in ALL_TYPES:
        if o == t or o in INT_TYPES and t in OBJ_TYPES or o in INT_TYPES and t in INT_TYPES or o in OBJ_TYPES and t in OBJ_TYPES:
            d["c:" + o] = src_same(o)
            d["ci:" + o] = lambda c, o=o: iter(T[o](c))
            d["cr:" + o] = lambda c, o=o: reversed(T[o](c[::-1]))
    if t in INT_TYPES:
        for o in OBJ_TYPES:
            d["c:" + o] = src_same(o)
    return d


HINTS = [None, -5, -1, 0, 1, 2, 3, 4, 5, 17, 1000]
TOK = {True: (7, -3, 2 ** 31 - 1), False: (None, 1.5, "x")}
WORDLEN = {"quick": 4, "thorough": 6}

NOTE = sorted(set(range(0, 70)) | {2 ** k + d for k in range(6, 13) for d in (-1, 0, 1)})


def extremes(t):
    if t == "BigIntArrayList":
        m = 2 ** 63
    else:
        m = 2 ** 31
    out = set()
    for base in (0, m, -m, 2 ** 31, -2 ** 31, 2 ** 62, -2 ** 62, 2 ** 63, -2 ** 63, 2 ** 30):
        for d in (-2, -1, 0, 1, 2):
            out.add(base + d)
    return sorted(v for v in out if -2 ** 63 <= v < 2 ** 63)


STEPS = [1, -1, 2, -2, 3, -3, 2 ** 30, -2 ** 30, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 32, -2 ** 32, 2 ** 62, -2 ** 62, 2 ** 63 - 1, -2 ** 63, 2 ** 63 - 2,
         -2 ** 63 + 1, 2 ** 32 - 1, 7, 0]

COPIES = ("copy", "ctor", "ctorlist", "slice", "to_list", "mul1", "addempty", "iadd", "extend", "ctoriter", "copycopy", "setslice", "emptyadd",
          "listadd")
CHANGES = ["app", "ins0", "pop", "pop0", "set0", "setlast", "clear", "ext", "imul2", "rev", "delsl", "setsl", "sort"]
REPR_INT = (0, 7, -1, 2 ** 31 - 1, -2 ** 31, 10, -10, 99999)
REPR_OBJ = (None, True, 1.5, "a'b", "\u00e9\u4e2d\U0001f600", b"\0", (1,), [1, [2]], {"k": (1, 2)}, float("nan"), 10 ** 40, "", Ellipsis, frozenset())


def gen(space, tier):
    if space in ("source", "source-asan"):
        n = WORDLEN[tier] if space == "source" else 2
        for t in ALL_TYPES:
            for sname in sources(t):
                for w in words((0, 1, 2), n):
                    yield ("s", t, sname, w)
    elif space == "length":
        for t in ALL_TYPES:
            for n in NOTE + [5001, 16385, 70001]:
                yield ("l", t, n)
    elif space == "range":
        b = box(tier)
        for t in INT_TYPES:
            for a in range(-b, b + 1):
                yield ("r", t, a, b)
    elif space == "extreme":
        for t in INT_TYPES:
            for a in extremes(t):
                yield ("e", t, a)
    elif space == "independent":
        d = 3 if tier == "quick" else 4
        for t in ALL_TYPES:
            for way in COPIES:
                for n in (0, 3, 20):
                    for h in itertools.product(range(2 * len(CHANGES)), repeat=d - 1):
                        yield ("i", t, way, n, h)
                for n in (300, 5001):
                    for h in itertools.product(range(2 * len(CHANGES)), repeat=1 if n == 300 else 0):
                        yield ("i", t, way, n, h)
    elif space == "repr":
        for t in ALL_TYPES:
            vals = REPR_INT if t in INT_TYPES else REPR_OBJ
            for w in words(range(len(vals)), 3 if tier == "quick" else 4):
                yield ("p", t, w)
            for n in NOTE:
                yield ("q", t, n)
            yield ("rec", t)
    else:
        for t in ALL_TYPES:
            for n in (0, 1, 3, 20):
                for m in (0, 1, 3, 20):
                    yield ("j", t, n, m)


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, 4 if space == "reinit" else NSH)


def change(x, name, t):
    v = -9 if t in INT_TYPES else "new"
    if name == "app":
        x.append(v)
    elif name == "ins0":
        x.insert(0, v)
    elif name == "pop":
        if len(x):
            x.pop()
    elif name == "pop0":
        if len(x):
            x.pop(0)
    elif name == "set0":
        if len(x):
            x[0] = v
    elif name == "setlast":
        if len(x):
            x[-1] = v
    elif name == "clear":
        x.clear()
    elif name == "ext":
        x.extend([v, v])
    elif name == "imul2":
        if len(x) < 60:
            x *= 2
    elif name == "rev":
        x.reverse()
    elif name == "delsl":
        del x[0:2]
    elif name == "setsl":
        x[1:2] = [v, v, v]
    elif name == "sort":
        x.sort(key=lambda e: repr(e))


def make_copy(x, way, t):
    if way == "copy":
        return x.copy()
    if way == "ctor":
        return T[t](x)
    if way == "ctorlist":
        return T[t](x.to_list())
    if way == "slice":
        return x[:]
    if way == "to_list":
        return x.to_list()
    if way == "mul1":
        return x * 1
    if way == "addempty":
        return x + T[t]()
    if way == "emptyadd":
        return T[t]() + x
    if way == "listadd":
        return x + []
    if way == "iadd":
        y = T[t]()
        y += x
        return y
    if way == "extend":
        y = T[t]()
        y.extend(x)
        return y
    if way == "ctoriter":
        return T[t](iter(x))
    if way == "copycopy":
        return x.copy().copy()
    y = T[t]()
    y[:] = x
    return y


def check_any(x, want):
    if type(x) is list:
        return None if same_seq(x, want) else "is %.200r, not %.200r" % (x, want)
    return check_deep(x, want)


def rng(t, args):
    """What from_range must do: a list, or the exceptions allowed."""
    r = range(*args)
    lo, hi = RANGE[t]
    if len(r) and (min(r[0], r[-1]) < lo or max(r[0], r[-1]) > hi):
        return None
    return r


def check_range(t, args):
    S.transitions += 1
    r = None
    try:
        r = rng(t, args)
        bad = r is None and OverflowError
    except ValueError:
        bad = ValueError
    except OverflowError:
        # more elements than an index can count: cannot be held at all
        bad = (OverflowError, RuntimeError, MemoryError)
    try:
        x = T[t].from_range(*args)
    except Exception as e:
        if not bad:
            return "%s.from_range%r raises %r" % (t, args, e)
        if not isinstance(e, bad):
            return "%s.from_range%r raises %r, expected %r" % (t, args, e, bad)
        return None
    if bad:
        return "%s.from_range%r returns %.200r instead of raising %r" % (t, args, x, bad)
    if type(x) is not T[t]:
        return "%s.from_range%r is a %s" % (t, args, type(x).__name__)
    want = list(r)
    if x.to_list() != want or len(x) != len(want):
        return "%s.from_range%r gives %.300r, range %.300r" % (t, args, x, want)
    if want and (x[-1] != want[-1] or list(reversed(x)) != want[::-1]):
        return "%s.from_range%r: reading backwards gives %.300r" % (t, args, list(reversed(x)))
    x.append(5)
    if x.to_list() != want + [5]:
        return "%s.from_range%r cannot be appended to" % (t, args)
    return None


def execute(space, case):
    k = case[0]
    if k == "s":
        _, t, sname, w = case
        tok = TOK[t in INT_TYPES]
        if sname.startswith(("c:IntA", "c:IntL", "c:Big", "ci:IntA", "ci:IntL", "ci:Big", "cr:IntA", "cr:IntL", "cr:Big")):
            tok = TOK[True]
        c = [tok[i] for i in w]
        f = sources(t)[sname]
        want = [v.v if type(v) is Idx and t in INT_TYPES else v for v in list(f(c))]
        x = T[t](f(c))
        S.transitions += 1
        msg = check_deep(x, want)
        if msg:
            return "%s(%s of %r): %s" % (t, sname, c, msg)
        S.visit(t, sname, w)
        y = T[t](iterable=f(c))
        if not same_seq(y.to_list(), want):
            return "%s(iterable=%s of %r) gives %r" % (t, sname, c, y)
        if t in ARRAY_TYPES:
            for h in HINTS + [len(want), len(want) - 1, len(want) + 1]:
                if h is None:
                    continue
                for mode in (0, 1, 2):
                    s = f(c)
                    S.transitions += 1
                    x = T[t](s, h) if mode == 0 else T[t](s, exceptSize=h) if mode == 1 else T[t](exceptSize=h, iterable=s)
                    if not same_seq(x.to_list(), want) or len(x) != len(want):
                        return "%s(%s of %r, exceptSize=%d) gives %r" % (t, sname, c, h, x)
                    x.append(c[0] if c else tok[0])
                    if not same_seq(x.to_list(), want + [c[0] if c else tok[0]]):
                        return "%s(%s of %r, exceptSize=%d): after append %r" % (t, sname, c, h, x)
        for start in (0, 1, 9):
            x = T[t]([tok[0]] * start)
            x.extend(f(c))
            if not same_seq(x.to_list(), [tok[0]] * start + want):
                return "%s of %d extended by %s of %r gives %r" % (t, start, sname, c, x)
            x = T[t]([tok[0]] * start)
            x += f(c)
            if not same_seq(x.to_list(), [tok[0]] * start + want):
                return "%s of %d += %s of %r gives %r" % (t, start, sname, c, x)
            x = T[t]([tok[0]] * start)
            x[0:1] = f(c)
            if not same_seq(x.to_list(), want + [tok[0]] * (start - 1)):
                return "%s of %d with [0:1] = %s of %r gives %r" % (t, start, sname, c, x)
            S.transitions += 3
        return None
    if k == "l":
        _, t, n = case
        va = distinct(t, n)
        for sname in ("list", "tuple", "gen", "deque", "hint1", "hint50", "len9", "getitem", "c:" + t, "ci:" + t, "cr:" + t):
            f = sources(t)[sname]
            S.transitions += 1
            x = T[t](f(va))
            msg = check_deep(x, va)
            if msg:
                return "%s(%s of %d): %s" % (t, sname, n, msg)
            if t in ARRAY_TYPES:
                for h in (0, 1, n - 1, n, n + 1, 2 * n + 9, 5000) if n < 5000 else (1, n, 2 * n):
                    x = T[t](f(va), h)
                    if not same_seq(x.to_list(), va):
                        return "%s(%s of %d, %d) differs" % (t, sname, n, h)
                    x.extend(va)
                    if not same_seq(x.to_list(), va + va):
                        return "%s(%s of %d, %d) extended differs" % (t, sname, n, h)
        x = T[t](va)
        for way in COPIES:
            y = make_copy(x, way, t)
            msg = check_any(y, va)
            if msg:
                return "%s of %d, %s: %s" % (t, n, way, msg)
        if t in ARRAY_TYPES:
            for x in (T[t](n), T[t](exceptSize=n)):
                if len(x) or x.to_list() != [] or list(x) or repr(x) != "[]":
                    return "%s(%d) is not empty: %.200r" % (t, n, x)
                for v in va:
                    x.append(v)
                msg = check_deep(x, va)
                if msg:
                    return "%s(%d) filled: %s" % (t, n, msg)
        S.visit(t, n)
        return None
    if k == "r":
        _, t, a, b = case
        for args in [(a,)] + [(a, s) for s in range(-b, b + 1)] + [(a, s, p) for s in range(-b, b + 1) for p in range(-b, b + 1)]:
            msg = check_range(t, args)
            if msg:
                return msg
            S.visit(t, args)
        if a in (-1, 0, 1):
            for n in (1023, 1025, 4096, 5001, 65537, 140001):
                for args in ((a, n), (a, a + n * 7, 7), (a, a - n, -1), (a + 1, a - n * 1000, -1000), (a, a + 2 * n + 1, 2)):
                    msg = check_range(t, args)
                    if msg:
                        return msg[:300]
        for args in [(Idx(a),), (a, Idx(a + 3)), (a, a + 5, Idx(2)), (False, a), (True, a, 1)]:
            want = list(range(*args))
            if T[t].from_range(*args).to_list() != want:
                return "%s.from_range%r is wrong" % (t, args)
        return None
    if k == "e":
        _, t, a = case
        for s in extremes(t):
            for p in STEPS:
                try:
                    n = len(range(a, s, p))
                except (OverflowError, ValueError):
                    n = 0
                if n > 40:
                    # too long to hold: only those whose ends do not fit
                    lo, hi = RANGE[t]
                    r = range(a, s, p)
                    if lo <= min(r[0], r[-1]) and max(r[0], r[-1]) <= hi:
                        continue
                try:
                    len(range(a, s, p or 1))
                except OverflowError:
                    if t == "IntLinkedList":
                        continue
                msg = check_range(t, (a, s, p))
                if msg:
                    return msg
                S.visit(t, a, s, p)
            if s - a <= 40:
                msg = check_range(t, (a, s))
                if msg:
                    return msg
        if a <= 40:
            msg = check_range(t, (a,))
            if msg:
                return msg
        return None
    if k == "i":
        _, t, way, n, h = case
        for last in range(2 * len(CHANGES)):
            ra = distinct(t, n)
            x = T[t](ra)
            y = make_copy(x, way, t)
            rb = list(ra)
            if type(y) is not list and type(y) is not T[t]:
                return "%s %s is a %s" % (t, way, type(y).__name__)
            for c in h + (last,):
                name = CHANGES[c // 2]
                S.transitions += 1
                if c % 2:
                    change(y, name, t)
                    change(rb, name, t)
                else:
                    change(x, name, t)
                    change(ra, name, t)
            if not same_seq(x.to_list(), ra) or not same_seq(list(y), rb):
                return "%s of %d, %s, then %r: source %.200r (list %.200r), copy %.200r (list %.200r)" % (
                    t, n, way, [(CHANGES[c // 2], "copy" if c % 2 else "source") for c in h + (last,)], x, ra, y, rb)
            S.visit(t, state_key(ra), state_key(rb))
        return None
    if k == "p":
        _, t, w = case
        vals = REPR_INT if t in INT_TYPES else REPR_OBJ
        c = [vals[i] for i in w]
        for way in ("ctor", "append", "front"):
            x = build(t, c, way)
            S.transitions += 3
            if repr(x) != repr(c) or str(x) != str(c) or "%s" % (x,) != str(c) or format(x) != format(c):
                return "%s(%r) by %s: repr %r, str %r" % (t, c, way, repr(x), str(x))
            if repr([x, (x,)]) != repr([c, (c,)]):
                return "%s(%r): nested repr %r" % (t, c, repr([x]))
        S.visit(t, w)
        return None
    if k == "q":
        _, t, n = case
        for c in (list(range(n)), [-2 ** 31] * n, [i * 7919 % 100003 - 50000 for i in range(n)]):
            x = T[t](c)
            S.transitions += 1
            if repr(x) != repr(c) or str(x) != str(c):
                return "%s of %d: repr differs" % (t, n)
        return None
    if k == "rec":
        t = case[1]
        if t in INT_TYPES:
            return None
        x = T[t]()
        x.append(x)
        ref = []
        ref.append(ref)
        if repr(x) != repr(ref) or str(x) != str(ref):
            return "%s holding itself: repr %r" % (t, repr(x))
        x = T[t]([1])
        x.append([x, {"k": x}])
        ref = [1]
        ref.append([ref, {"k": ref}])
        if repr(x) != repr(ref) or repr(x) != repr(ref):
            return "%s reached through others: repr %r" % (t, repr(x))
        a, b = T[t](), T[t]()
        a.append(b)
        b.append(a)
        if repr(a) != "[[[...]]]":
            return "two %s holding each other: repr %r" % (t, repr(a))
        x = T[t]([5])
        for _ in range(50):
            x = T[t]([x])
        if repr(x) != "[" * 51 + "5" + "]" * 51:
            return "%s nested 51 times: repr %r" % (t, repr(x))
        return None
    _, t, n, m = case
    for sname in ("list", "tuple", "gen", "c:" + t, "empty", "hintonly"):
        va, vb = distinct(t, n), distinct(t, m + 1)[1:]
        x = T[t](va)
        it = iter(x)
        next(it, None)
        S.transitions += 1
        if sname == "empty":
            x.__init__()
            vb = []
        elif sname == "hintonly":
            if t not in ARRAY_TYPES:
                continue
            x.__init__(m)
            vb = []
        else:
            x.__init__(sources(t)[sname](vb))
        msg = check_deep(x, vb)
        if msg:
            return "%s of %d initialised again by %s of %d: %s" % (t, n, sname, m, msg)
        got = list(it)
        if not same_seq(got, vb[1:] if n else vb) and n:
            return "%s of %d initialised again by %s of %d: an older iterator gives %r" % (t, n, sname, m, got)
        x.__init__(x.copy())
        x.append(va[0] if va else distinct(t, 1)[0])
        if len(x) != len(vb) + 1:
            return "%s initialised again by its copy: %r" % (t, x)
    S.visit(t, n, m)
    return None
