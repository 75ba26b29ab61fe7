"""C11: user code called back during an operation cannot corrupt a container."""
import gc
import sys

from mc.common import *

NSH = 32
LARGE = {"quick": (300, 5001), "thorough": (300, 1100, 5001, 17000)}
SIZES = {"quick": (0, 1, 2, 3, 6, 20), "thorough": (0, 1, 2, 3, 4, 5, 6, 9, 17, 33, 70)}


def BOUNDS(tier):
    return "every operation that calls back x sizes %r x every callback position (beyond 60 callbacks: three reactions at every position, the others at the first 12, the last 6 and every seventh) x every reaction (%d) x every container it may act on; " \
           "what int containers do after the conversion of arguments that changes them compared with list; all pairs of callback positions x pairs of %d reactions for sizes up to %d; contents drawn from a closed set, every element's " \
           "reference count and the number of live elements compared with the contents afterwards; under AddressSanitizer; the same at sizes %r for the first, middle and last " \
           "callback x %d reactions; %d operations that go down chains of containers to a depth of 30000" % (
               SIZES[tier], len(REACT), len(PAIRS), 2 if tier == "quick" else 4, LARGE[tier], len(LARGE_REACT), len(NESTED))


def spaces(tier):
    return [{"name": "single", "variant": "asan", "shards": NSH}, {"name": "pairs", "variant": "asan", "shards": NSH},
            {"name": "repr", "variant": "asan", "shards": 4}, {"name": "large", "variant": "asan", "shards": NSH}, {"name": "nested", "variant": "plain", "shards": NSH}]


NESTED = ("repr", "str", "eq", "ne", "lt", "le", "gt", "ge", "in", "index", "count", "remove", "eqself", "ltself", "listeq", "listlt", "eqlist", "sort", "sortkey",
          "concat", "hash")
KINDS = ("A", "L", "AL", "S", "A[", "L(")


class Sub:
    pass


def nested(kind, depth, op):
    """Operations that go down a chain of containers: the answer list gives, or RecursionError, but no crash."""
    A, L = T["ObjectArrayList"], T["ObjectLinkedList"]
    if not issubclass(Sub, A):
        globals()["Sub"] = type("Sub", (A,), {})
    makers = [{"A": A, "L": L, "S": Sub, "[": list, "(": tuple}[c] for c in kind]

    def chain(v):
        for i in range(depth):
            m = makers[i % len(makers)]
            v = m([v]) if m is not tuple else (v,)
        return v
    for top in (A, L):
        for other in (top, list):
            x, y = top([chain(1)]), other([chain(2)])
            z = chain(1)
            S.transitions += 1
            S.visit(kind, depth, op)
            w = top([z, 0]) if op in ("in", "index", "count", "remove") else None
            try:
                if op == "repr":
                    r, want = repr(x).strip("[(,)]"), "1"
                elif op == "str":
                    r, want = str(x).strip("[(,)]"), "1"
                elif op == "eq":
                    r, want = x == y, False
                elif op == "ne":
                    r, want = x != y, True
                elif op == "lt":
                    r, want = x < y, True
                elif op == "le":
                    r, want = x <= y, True
                elif op == "gt":
                    r, want = x > y, False
                elif op == "ge":
                    r, want = x >= y, False
                elif op == "in":
                    r, want = x[0] in w, True
                elif op == "index":
                    r, want = w.index(x[0]), 0
                elif op == "count":
                    r, want = w.count(x[0]), 1
                elif op == "remove":
                    w.remove(x[0])
                    r, want = w.to_list(), [0]
                elif op == "eqself":
                    x.append(x)
                    y = top([x[0], x])
                    r, want = x == y, True
                elif op == "ltself":
                    x.append(x)
                    y = top([x[0], x])
                    r, want = x < y, False
                elif op == "listeq":
                    r, want = [x] == [y], False
                elif op == "listlt":
                    r, want = [x] < [y], True
                elif op == "eqlist":
                    r, want = y == x, False
                elif op == "sort":
                    w = top([y[0], x[0]])
                    w.sort()
                    r, want = w[0] is x[0] and w[1] is y[0], True
                elif op == "sortkey":
                    w = top([y[0], x[0]])
                    w.sort(key=lambda v: v)
                    r, want = w[0] is x[0] and w[1] is y[0], True
                elif op == "concat":
                    r, want = (x + y)[1] is y[0], True
                elif op == "hash":
                    try:
                        hash(x)
                        r = 1
                    except TypeError:
                        r = 0
                    want = 0
            except RecursionError:
                if depth < 300:
                    return "%s of a chain of %d (%s) in %s, %s: RecursionError" % (op, depth, kind, top.__name__, other.__name__)
                r = want = None
                S.outcome("RecursionError")
            except TypeError:
                if op in ("repr", "str", "in", "index", "count", "remove", "concat", "eq", "ne", "eqself", "listeq", "eqlist"):
                    raise
                if not ("[" in kind or "(" in kind or "AL" in kind or other is list):
                    raise
                r = want = None
                S.outcome("TypeError")
            if r is not want and r != want:
                return "%s of a chain of %d (%s) in %s, %s: %.80r, not %r" % (op, depth, kind, top.__name__, other.__name__, r, want)
            del x, y, z, w
    return None


class Boom(Exception):
    pass


# ------------------------------------------------------------------ the callback machinery

class Ctx:
    """One execution: the containers, and what happens at which callback."""
    n = 0            # callbacks so far
    plan = ()        # ((position, reaction, targets), ...)
    done = 0
    x = y = None
    live = 0
    keep = None
    intc = False
    snap = None      # contents (of ints) after the last reaction


C = Ctx


def hook(who=None):
    C.n += 1
    if C.done < len(C.plan) and C.plan[C.done][0] == C.n:
        _, r, on = C.plan[C.done]
        C.done += 1
        f = REACT[r]
        if "x" in on and C.x is not None:
            f(C.x, who)
        if "y" in on and C.y is not None:
            f(C.y, who)
        if C.intc and C.x is not None:
            C.snap = C.x.to_list()


class Tok:
    """Counts the live elements."""
    __slots__ = ()

    def __init__(self):
        C.live += 1

    def __del__(self):
        C.live -= 1


class Truth:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        hook()
        return self.v


class E:
    """An element whose every special method is a callback."""
    __slots__ = ("k", "t")

    def __init__(self, k):
        self.k = k
        self.t = Tok()

    def __eq__(self, o):
        hook(self)
        return Truth(type(o) is E and self.k == o.k)

    def __lt__(self, o):
        hook(self)
        return Truth(self.k < o.k)

    def __gt__(self, o):
        hook(self)
        return Truth(self.k > o.k)

    def __le__(self, o):
        hook(self)
        return self.k <= o.k

    def __ge__(self, o):
        hook(self)
        return self.k >= o.k

    def __repr__(self):
        hook(self)
        return "E"

    def __del__(self):
        hook(self)
    __hash__ = None


class I:
    """An int-like argument whose conversion is a callback."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __index__(self):
        hook()
        return self.v

    __int__ = __index__

    def __eq__(self, o):
        hook()
        return o == self.v

    def __lt__(self, o):
        hook()
        return self.v < o

    __hash__ = None


class Source:
    """An iterable: __iter__, __length_hint__ and every __next__ are callbacks."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        hook()
        return SourceIter(self.items)

    def __length_hint__(self):
        hook()
        return len(self.items)


class SizedSource(Source):
    def __len__(self):
        hook()
        return len(self.items)


class SourceIter:
    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        return self

    def __next__(self):
        hook()
        if not self.items:
            raise StopIteration
        return self.items.pop(0)

    def __length_hint__(self):
        hook()
        return len(self.items)


class OldSeq:
    """Iterable by __getitem__ alone."""

    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        hook()
        return self.items[i]


class SeqY:
    """A sequence whose length and items are callbacks."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        hook()
        return len(self.items)

    def __getitem__(self, i):
        hook()
        return self.items[i]

    def to_list(self):
        return list(self.items)


def key(v):
    hook(v if type(v) is E else None)
    return v.k if type(v) is E else v


def ekey(v):
    return E(v.k if type(v) is E else v)


# ------------------------------------------------------------------ reactions

def el(k):
    """An element that may be stored in a container of the type under test."""
    return k if C.intc else E(k)


def els(n):
    return [el(i % 3) for i in range(n)]


def r_app(c, w):
    c.append(el(1))


def r_app40(c, w):
    for i in range(40):
        c.append(el(i % 3))


def r_ins(c, w):
    c.insert(0, el(2))


def r_ext(c, w):
    c.extend(els(100))


def r_extself(c, w):
    c.extend(c)


def r_pop(c, w):
    if c:
        c.pop()


def r_pop0(c, w):
    if c:
        c.pop(0)


def r_clear(c, w):
    c.clear()


def r_clearapp(c, w):
    c.clear()
    c.append(el(1))


def r_clearfill(c, w):
    n = len(c)
    c.clear()
    c.extend(els(n))


def r_delall(c, w):
    del c[:]


def r_delhalf(c, w):
    del c[::2]


def r_deltail(c, w):
    del c[1:]


def r_set0(c, w):
    if c:
        c[0] = el(2)


def r_setlast(c, w):
    if c:
        c[-1] = el(0)


def r_setsl(c, w):
    c[:1] = els(3)


def r_setslall(c, w):
    c[:] = els(2)


def r_setslgrow(c, w):
    c[1:1] = els(60)


def r_rev(c, w):
    c.reverse()


def r_sort(c, w):
    c.sort()


def r_sortkey(c, w):
    c.sort(key=lambda v: 1, reverse=True)


def r_init(c, w):
    c.__init__()


def r_initn(c, w):
    c.__init__(els(5))


def r_initself(c, w):
    c.__init__(c)


def r_resize0(c, w):
    if hasattr(c, "resize"):
        c.resize(0)


def r_resize9(c, w):
    if hasattr(c, "resize"):
        c.resize(9)


def r_resize99(c, w):
    if hasattr(c, "resize"):
        c.resize(99)


def r_imul0(c, w):
    c *= 0


def r_imul3(c, w):
    if len(c) < 500:
        c *= 3


def r_swap(c, w):
    """Every element is replaced, the length stays."""
    n = len(c)
    c[:] = els(n)


def r_read(c, w):
    list(c)
    len(c)
    c.copy()
    c.to_list()
    if c:
        c[0], c[-1]
    next(reversed(c), None)
    c[::2]


def r_iter(c, w):
    it = iter(c)
    next(it, None)
    C.keep.append(it)
    it = reversed(c)
    next(it, None)
    C.keep.append(it)


def r_iter0(c, w):
    C.keep.append(iter(c))
    C.keep.append(reversed(c))


def r_raise(c, w):
    raise Boom


def r_clearraise(c, w):
    c.clear()
    raise Boom


def r_gc(c, w):
    gc.collect()


def r_view(c, w):
    try:
        C.keep.append(memoryview(c))
    except TypeError:
        pass


def r_viewapp(c, w):
    try:
        v = memoryview(c)
    except TypeError:
        return
    C.keep.append(v)
    try:
        for i in range(50):
            c.append(1)
    except BufferError:
        pass


def r_self(c, w):
    """The element called back is stored (again)."""
    if w is not None:
        c.append(w)


def r_drop(c, w):
    """The element called back is dropped from the container by identity."""
    if w is not None:
        for i in range(len(c) - 1, -1, -1):
            if c[i] is w:
                del c[i]


def r_eq(c, w):
    c == c.copy()
    c == c.to_list()


def r_search(c, w):
    c.count(el(1))
    el(0) in c


def r_same(c, w):
    c.__iadd__(type(c)(els(30)))


REACT = {k[2:]: v for k, v in list(globals().items()) if k.startswith("r_")}
LARGE_REACT = ("clear", "swap", "app40", "delhalf", "pop0", "deltail", "initn", "view", "sort", "raise")
PAIRS = ("app40", "clear", "pop0", "swap", "sort", "raise", "self", "resize9", "init", "deltail", "view")

# ------------------------------------------------------------------ operations

QUERY = [
    ("in", lambda x, y: el(7) in x), ("in1", lambda x, y: el(1) in x), ("index", lambda x, y: x.index(el(7))), ("index1", lambda x, y: x.index(el(1), 1)),
    ("indexr", lambda x, y: x.index(el(7), -2, 9)), ("count", lambda x, y: x.count(el(1))), ("remove", lambda x, y: x.remove(el(7))),
    ("remove2", lambda x, y: x.remove(el(2))), ("eq", lambda x, y: x == y), ("ne", lambda x, y: x != y), ("lt", lambda x, y: x < y), ("le", lambda x, y: x <= y),
    ("gt", lambda x, y: x > y), ("ge", lambda x, y: x >= y), ("eqself", lambda x, y: x == x), ("ltself", lambda x, y: x < x),
    ("indexI", lambda x, y: x.index(el(7), I(0), I(5))), ("eqI", lambda x, y: x == [I(i % 3) for i in range(len(x))]),
    ("ltI", lambda x, y: x < [I(i % 3) for i in range(len(x) + 1)]), ("repr", lambda x, y: repr(x)), ("str", lambda x, y: str(x)),
    ("inI", lambda x, y: I(7) in x), ("countI", lambda x, y: x.count(I(1))), ("idxI", lambda x, y: x.index(I(2))), ("removeI", lambda x, y: x.remove(I(2))),
    ("index1I", lambda x, y: x.index(1, I(0))), ("index2I", lambda x, y: x.index(2, I(-3), I(99))), ("indexII", lambda x, y: x.index(I(1), I(0), I(-1))),
    ("getI", lambda x, y: x[I(0)]), ("getI-1", lambda x, y: x[I(-1)]), ("getIend", lambda x, y: x[I(len(x) - 1)]), ("getsl", lambda x, y: x[I(0):I(9):I(1)]),
    ("getsl-", lambda x, y: x[I(9):I(-99):I(-1)]), ("getslend", lambda x, y: x[I(1):I(len(x))]),
]
CHANGE = [
    ("sort", lambda x, y: x.sort()), ("sortr", lambda x, y: x.sort(reverse=True)), ("sortkey", lambda x, y: x.sort(key=key)),
    ("sortkeyr", lambda x, y: x.sort(key=key, reverse=True)), ("sortekey", lambda x, y: x.sort(key=ekey)), ("sortekeyr", lambda x, y: x.sort(key=ekey, reverse=True)),
    ("sortI", lambda x, y: x.sort(reverse=I(1))), ("clear", lambda x, y: x.clear()), ("pop", lambda x, y: x.pop() and None), ("pop0", lambda x, y: x.pop(0) and None),
    ("popI", lambda x, y: x.pop(I(0)) and None), ("popI-1", lambda x, y: x.pop(I(-1)) and None), ("popIend", lambda x, y: x.pop(I(len(x) - 1)) and None),
    ("insI", lambda x, y: x.insert(I(0), el(1))), ("insIend", lambda x, y: x.insert(I(len(x)), el(1))), ("insII", lambda x, y: x.insert(I(1), I(1))),
    ("setI", lambda x, y: x.__setitem__(I(0), el(1))), ("setIend", lambda x, y: x.__setitem__(I(len(x) - 1), el(1))), ("setII", lambda x, y: x.__setitem__(I(0), I(1))),
    ("set0I", lambda x, y: x.__setitem__(0, I(1))), ("set-1I", lambda x, y: x.__setitem__(-1, I(1))), ("set-1", lambda x, y: x.__setitem__(-1, el(1))),
    ("appI", lambda x, y: x.append(I(1))), ("ins0I", lambda x, y: x.insert(0, I(1))), ("insendI", lambda x, y: x.insert(len(x), I(1))),
    ("del0", lambda x, y: x.__delitem__(0)), ("delI", lambda x, y: x.__delitem__(I(0))), ("delIend", lambda x, y: x.__delitem__(I(len(x) - 1))),
    ("delsl", lambda x, y: x.__delitem__(slice(0, 3))), ("delsltail", lambda x, y: x.__delitem__(slice(1, None))), ("delall", lambda x, y: x.__delitem__(slice(None))),
    ("delstep", lambda x, y: x.__delitem__(slice(None, None, 2))), ("delstep-", lambda x, y: x.__delitem__(slice(None, None, -3))),
    ("delslI", lambda x, y: x.__delitem__(slice(I(0), I(9), I(1)))), ("delslIend", lambda x, y: x.__delitem__(slice(I(1), I(len(x))))),
    ("delstepI", lambda x, y: x.__delitem__(slice(I(0), I(len(x)), I(2)))),
    ("setsl", lambda x, y: x.__setitem__(slice(0, 2), els(2))), ("setslgrow", lambda x, y: x.__setitem__(slice(1, 2), els(9))),
    ("setslshrink", lambda x, y: x.__setitem__(slice(0, 5), els(1))), ("setslempty", lambda x, y: x.__setitem__(slice(0, 5), [])),
    ("setslsame", lambda x, y: x.__setitem__(slice(None), y)), ("setslself", lambda x, y: x.__setitem__(slice(1, 2), x)),
    ("setslsrc", lambda x, y: x.__setitem__(slice(0, 2), Source(els(3)))), ("setslsized", lambda x, y: x.__setitem__(slice(1, 9), SizedSource(els(3)))),
    ("setslI", lambda x, y: x.__setitem__(slice(I(0), I(3)), [I(1), I(2)])), ("setslIend", lambda x, y: x.__setitem__(slice(I(1), I(len(x))), Source([I(1), I(2)]))),
    ("setslIs", lambda x, y: x.__setitem__(slice(0, 3), (I(1), I(2), I(0)))), ("setstep", lambda x, y: x.__setitem__(slice(None, None, -1), els(len(x)))),
    ("setstepI", lambda x, y: x.__setitem__(slice(None, None, I(2)), Source(els((len(x) + 1) // 2)))),
    ("ext", lambda x, y: x.extend(Source(els(3)))), ("extsized", lambda x, y: x.extend(SizedSource(els(3)))), ("extold", lambda x, y: x.extend(OldSeq(els(3)))),
    ("extI", lambda x, y: x.extend([I(1), I(2), I(0)])), ("extIt", lambda x, y: x.extend((I(1), I(2), I(0)))), ("extIsrc", lambda x, y: x.extend(Source([I(1), I(2)]))),
    ("extlie", lambda x, y: x.extend(Lying(els(9)))), ("extiter", lambda x, y: x.extend(iter(y))), ("exty", lambda x, y: x.extend(y)),
    ("extgenx", lambda x, y: x.extend(v for v in Walk(x))), ("extitx", lambda x, y: x.extend(Walk(x, 30))), ("extrev", lambda x, y: x.extend(reversed(y))),
    ("iadd", lambda x, y: x.__iadd__(Source(els(3)))), ("iaddI", lambda x, y: x.__iadd__([I(1), I(2)])), ("iaddy", lambda x, y: x.__iadd__(y)),
    ("add", lambda x, y: (x + y) and None), ("addI", lambda x, y: (x + [I(1), I(2)]) and None),
    ("mulI", lambda x, y: (x * I(2)) and None), ("rmulI", lambda x, y: (I(3) * x) and None), ("imulI", lambda x, y: x.__imul__(I(2))), ("imulI0", lambda x, y: x.__imul__(I(0))),
    ("imul0", lambda x, y: x.__imul__(0)), ("init", lambda x, y: x.__init__()), ("inits", lambda x, y: x.__init__(Source(els(3)))), ("inity", lambda x, y: x.__init__(y)),
    ("initI", lambda x, y: x.__init__([I(1), I(2)])), ("initx", lambda x, y: x.__init__(x)), ("initold", lambda x, y: x.__init__(OldSeq(els(4)))),
    ("inithint", lambda x, y: x.__init__(Source(els(3)), I(50))), ("inithintl", lambda x, y: x.__init__(els(3), I(5))), ("initlie", lambda x, y: x.__init__(Lying(els(9)))),
    ("new", lambda x, y: type(x)(Source(els(3))) and None), ("newI", lambda x, y: type(x)([I(1), I(2)]) and None), ("newwalk", lambda x, y: type(x)(Walk(x)) and None),
    ("resizeI", lambda x, y: x.resize(I(2))), ("resizeI9", lambda x, y: x.resize(I(30))), ("resize1", lambda x, y: x.resize(1)),
    ("range", lambda x, y: x.from_range(I(1), I(3), I(1)) and None), ("copy", lambda x, y: x.copy() and None), ("rev", lambda x, y: x.reverse()),
    ("iterate", lambda x, y: iterate(x)), ("riterate", lambda x, y: iterate(reversed(x))),
]
OPS11 = QUERY + CHANGE
OPD = dict(OPS11)


class Lying(SizedSource):
    """Says it is shorter than it is."""

    def __length_hint__(self):
        hook()
        return 1

    __len__ = __length_hint__


class Walk:
    """Walks over a container, a callback before each step."""

    def __init__(self, c, limit=100):
        self.it = iter(c)
        self.limit = limit

    def __iter__(self):
        return self

    def __next__(self):
        hook()
        self.limit -= 1
        if self.limit < 0:
            raise StopIteration
        return next(self.it)


def iterate(it):
    n = 0
    for v in it:
        hook(v if type(v) is E else None)
        v = None
        n += 1
        if n > 300:
            break


# the kinds of second operand; only some operations look at it
YOPS = ("eq", "ne", "lt", "le", "gt", "ge", "setslsame", "extiter", "exty", "extrev", "iaddy", "add", "inity")
YKINDS = ("same", "other", "list", "seq")


def applicable(t, name):
    if t in INT_TYPES and name in YOPS:
        return True
    if t in INT_TYPES:
        return name not in ("eq", "ne", "lt", "le", "gt", "ge", "eqself", "ltself", "in", "in1", "index", "index1", "indexr", "count", "remove", "remove2", "repr", "str",
                            "sort", "sortr", "clear", "del0", "delsl", "delsltail", "delall", "delstep", "delstep-", "setsl", "setslgrow", "setslshrink", "setslempty",
                            "pop", "pop0", "setslself", "setslsame", "iaddy", "exty", "add", "inity", "set-1", "copy", "rev", "init", "imul0", "setstep", "initx", "resize1",
                            "extiter", "extrev")
    if t == "ObjectLinkedList" and name.startswith(("resize", "inithint")):
        return False
    return name != "range"


def gen(space, tier):
    if space == "nested":
        for k in KINDS:
            for d in [0, 1, 2, 3, 8, 40, 199, 290, 999, 30000]:
                for op in NESTED:
                    yield ("nested", k, d, op)
        return
    if space == "repr":
        for t in OBJ_TYPES:
            for u in OBJ_TYPES:
                for i in range(6):
                    yield ("repr", t, u, i)
        return
    for n in LARGE[tier] if space == "large" else SIZES[tier]:
        if space == "pairs" and n > (2 if tier == "quick" else 4):
            continue
        for t in ALL_TYPES:
            for name, _ in OPS11:
                if not applicable(t, name):
                    continue
                for yk in (YKINDS if name in YOPS else ("same",)):
                    if t in INT_TYPES and name in YOPS and yk != "seq":
                        continue  # nothing is called back
                    for on in (("x", "y", "xy") if name in YOPS and yk not in ("list", "seq") else ("x",)):
                        for shape in (0, 1) if space != "large" else (0,):
                            yield ("op", t, name, n, yk, on, shape)


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, 4 if space == "repr" else NSH)


# ------------------------------------------------------------------ execution

def content(n, shape):
    if shape == 0:
        return [el(i % 3) for i in range(n)]
    e = [el(2), el(1)]
    return [e[i % 2] for i in range(n)]


def start(t, n, yk, shape, needy):
    C.x = T[t](content(n, shape))
    if not needy:
        C.y = None
    elif yk == "same":
        C.y = T[t](content(n, shape))
    elif yk == "other":
        C.y = T[{"IntArrayList": "IntLinkedList", "IntLinkedList": "IntArrayList", "BigIntArrayList": "IntArrayList",
                 "ObjectArrayList": "ObjectLinkedList", "ObjectLinkedList": "ObjectArrayList"}[t]](content(n, shape))
    elif yk == "seq":
        C.y = SeqY(content(n, shape))
    else:
        C.y = content(n, shape)


ALLOWED = (0, 1, 2)
# operations whose arguments are converted first: what they then do is what list does to the contents at that moment
AFTER = {"indexI", "index1I", "index2I", "indexII", "inI", "countI", "idxI", "removeI", "getI", "getI-1", "getsl", "getsl-", "popI", "popI-1", "insI", "insII", "setI", "setII",
         "set0I", "set-1I", "appI", "ins0I", "delI", "delslI", "mulI", "rmulI", "imulI", "imulI0"}
CONV = {"popI": lambda x, y: x.pop(I(0)), "popI-1": lambda x, y: x.pop(I(-1)), "mulI": lambda x, y: x * I(2), "rmulI": lambda x, y: I(3) * x,
        "imulI": lambda x, y: x.__imul__(I(2)) and None, "imulI0": lambda x, y: x.__imul__(I(0)) and None}


def plain(r):
    """A result as ints."""
    return r if type(r) in (int, bool, type(None)) else [v.v if type(v) is I else v for v in r]


def as_list(name, what, r, n):
    """Compares the result of an operation, and what it left, with those of list."""
    ref = C.snap
    if name in ("idxI", "index1I") and n < len(ref):
        # whether the search ends at the end before or after the conversion is left open
        ref = min(ref[:n], ref, key=lambda c: r != ("v", c.index(*((2,) if name == "idxI" else (1, 0)))) if (2 if name == "idxI" else 1) in c else r != ("e", ValueError))
    try:
        want = "v", plain(CONV.get(name, OPD[name])(ref, None))
    except Exception as e:
        want = "e", type(e)
    if r != want:
        return "%s: gives %.200r, a list of what it held then %.200r" % (what, r, want)
    got = C.x.to_list()
    if got != plain(C.snap if name in ("idxI", "index1I") else ref):
        return "%s: leaves %.200r, a list of what it held then %.200r" % (what, got, plain(ref))
    return None


def valid(t, what):
    """The container is a valid sequence of live elements, each owned as often as it occurs."""
    x, y = C.x, C.y
    for c in (x, y):
        if c is None:
            continue
        n = len(c)
        a = [v for v in c]
        if len(a) != n:
            return "%s: length %d, but iteration gives %d" % (what, n, len(a))
        b = list(reversed(c))
        if len(b) != n or any(p is not q and (type(p) is not int or p != q) for p, q in zip(a, b[::-1])):
            return "%s: forwards and backwards differ" % what
        if type(c) is not list:
            b = c.to_list()
            if len(b) != n or any(p is not q and (type(p) is not int or p != q) for p, q in zip(a, b)):
                return "%s: iteration and to_list differ" % what
        if C.intc:
            for v in a:
                if type(v) is not int or v not in ALLOWED:
                    return "%s: holds %r, which nobody stored" % (what, v)
        else:
            for v in a:
                if type(v) is not E and type(v) is not I and v is not None:
                    return "%s: holds %.200r, which nobody stored" % (what, v)
    v = p = q = a = b = None
    if C.intc:
        return None
    occ = {}
    objs = []
    for c in (x, y):
        if c is not None:
            for e in c:
                if type(e) is E:
                    if id(e) in occ:
                        occ[id(e)] += 1
                    else:
                        occ[id(e)] = 1
                        objs.append(e)
    e = c = None
    for i in range(len(objs)):
        got = sys.getrefcount(objs[i]) - BASE
        if got != occ[id(objs[i])]:
            return "%s: an element stored %d times is owned %d times" % (what, occ[id(objs[i])], got)
    if C.live != len(objs):
        return "%s: %d elements are alive, %d are stored" % (what, C.live, len(objs))
    return None


BASE = None


def once(t, name, n, yk, on, shape, plan):
    """Returns (message, number of callbacks)."""
    C.plan = ()
    C.done = 0
    C.keep = []
    C.live = 0
    start(t, n, yk, shape, name in YOPS)
    what = "%s of %d (%s, %s): %s with %r" % (t, n, yk, shape, name, plan)
    after = C.intc and name in AFTER
    f = CONV.get(name, OPD[name]) if after else OPD[name]
    C.snap = C.x.to_list() if after else None
    C.n = 0
    C.plan = plan
    r = None
    try:
        r = f(C.x, C.y)
        r = ("v", plain(r)) if after else None
    except SystemError as e:
        return "%s: %r" % (what, e), 0
    except (Boom, BufferError):
        after = False
    except Exception as e:
        r = "e", type(e)
    k = C.n
    C.plan = ()
    if after:
        msg = as_list(name, what, r, n)
        if msg:
            return msg, 0
    r = None
    S.transitions += 1 + len(plan)
    # views and iterators taken on the way are still good
    for o in C.keep:
        if type(o) is memoryview:
            o.tolist()
            if o.nbytes:
                o[0] = 1
            o.release()
        else:
            next(o, None)
            next(o, None)
    o = None
    C.keep.clear()
    msg = valid(t, what)
    if msg:
        return msg, k
    # fully usable
    m = len(C.x)
    C.x.append(el(1))
    C.x.insert(0, el(2))
    if len(C.x) != m + 2:
        return "%s: then append and insert give length %d, not %d" % (what, len(C.x), m + 2), k
    C.x.pop(0)
    C.x.extend(els(20))
    C.x.reverse()
    if len(C.x) != m + 21:
        return "%s: then extend gives length %d, not %d" % (what, len(C.x), m + 21), k
    del C.x[m // 2:]
    msg = valid(t, what + ", then used")
    if msg:
        return msg, k
    C.x = C.y = None
    if C.live:
        return "%s: %d elements outlive the container" % (what, C.live), k
    return None, k


def execute(space, case):
    global BASE
    if BASE is None:
        C.plan = ()
        gc.collect()
        gc.freeze()
        objs = [E(0)]
        for i in range(len(objs)):
            BASE = sys.getrefcount(objs[i])
        del objs
    if case[0] == "repr":
        return execute_repr(case)
    if case[0] == "nested":
        return nested(*case[1:])
    _, t, name, n, yk, on, shape = case
    C.intc = t in INT_TYPES
    gc.disable()
    if space == "large":
        msg, total = once(t, name, n, yk, on, shape, ())
        if msg:
            return msg
        S.visit(t, name, n, total)
        for k in sorted({1, total // 2, total}):
            if 0 < k <= total:
                for r in LARGE_REACT[: None if n < 1000 else 4]:
                    msg, _ = once(t, name, n, yk, on, shape, ((k, r, on),))
                    if msg:
                        return msg
        return None
    if space == "single":
        msg, total = once(t, name, n, yk, on, shape, ())
        if msg:
            return msg
        S.visit(t, name, n, total)
        total = min(total, 400)
        for k in range(1, total + 1):
            for r in REACT:
                if total > 60 and k > 12 and k % 7 and k < total - 6:
                    # long operations: every reaction at the ends and at every seventh position, three elsewhere
                    if r not in ("swap", "app40", "clear"):
                        continue
                msg, _ = once(t, name, n, yk, on, shape, ((k, r, on),))
                if msg:
                    return msg
        return None
    msg, total = once(t, name, n, yk, on, shape, ())
    if msg:
        return msg
    for k in range(1, min(total, 12) + 1):
        for r in PAIRS:
            msg, tot = once(t, name, n, yk, on, shape, ((k, r, on),))
            if msg:
                return msg
            for k2 in range(k + 1, min(tot, k + 8) + 1):
                for r2 in PAIRS:
                    msg, _ = once(t, name, n, yk, on, shape, ((k, r, on), (k2, r2, on)))
                    if msg:
                        return msg
    S.visit(t, name, n, total)
    return None


class Rep:
    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return self.f()


def execute_repr(case):
    _, t, u, i = case
    a, b = T[t](), T[u]()
    if i == 0:
        a.append(a)
        want = "[[...]]"
    elif i == 1:
        a.append(b)
        b.append(a)
        want = "[[[...]]]"
    elif i == 2:
        l = [a]
        a.extend([1, l, 2])
        want = "[1, [[...]], 2]"
    elif i == 3:
        d = {"k": a}
        a.extend([d, d])
        want = "[{'k': [...]}, {'k': [...]}]"
    elif i == 4:
        a.append(Rep(lambda: str(a)))
        want = "[[...]]"
    else:
        b.append(3)
        a.extend([b, b, a])
        want = "[[3], [3], [...]]"
    for k in range(3):
        got = repr(a)
        if got != want or str(a) != want:
            return "repr of a %s that holds itself (%d) is %r, not %r" % (t, i, got, want)
        S.transitions += 2
    # an element whose repr fails leaves no trace
    class Bad:
        def __repr__(self):
            raise Boom
    a.append(Bad())
    try:
        repr(a)
        return "repr of a failing element succeeds"
    except Boom:
        pass
    a.pop()
    if repr(a) != want:
        return "after a failed repr, repr of a %s (%d) is %r, not %r" % (t, i, repr(a), want)
    # one that changes the container on the way
    for f in ("clear", "append", "grow", "pop"):
        c = T[t]()

        def cb():
            if f == "clear":
                c.clear()
            elif f == "append":
                c.append(1) if len(c) < 10 else None
            elif f == "grow":
                c.extend([1] * 100) if len(c) < 90 else None
            else:
                c.pop()
            return "R"
        c.extend([Rep(cb) for _ in range(5)])
        repr(c)
        S.transitions += 1
        c.clear()
    a.clear()
    b.clear()
    S.visit(t, u, i)
    return None
