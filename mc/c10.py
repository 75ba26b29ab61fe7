"""C10: object containers own exactly one reference per element."""
import array
import gc
import sys

from mc.common import *

NSH = 32


def BOUNDS(tier):
    d = depth(tier)
    return "all histories of %d operations out of %d (refused and failing ones included) from 5 starts on both object containers, the reference " \
           "count of every element and of the container checked after every step against the occurrences in the model; every operation " \
           "with every kind of argument on all containers and sizes, the counts of every argument object, of the container and of its class " \
           "checked; every operation repeated 60 times, the number of allocated blocks checked; chains of containers to a depth of a million taken apart in %d ways; pairs of 53 operations on up to 4099 elements, single ones on 70001, of seven objects" % (
               d, len(OBJ_OPS), len(RELEASES))


def depth(tier):
    return 3 if tier == "quick" else 4


def spaces(tier):
    return [{"name": "hist", "variant": "plain", "shards": NSH}, {"name": "hist-asan", "variant": "asan", "shards": NSH}, {"name": "args+sub", "variant": "plain", "shards": 16},
            {"name": "args", "variant": "plain", "shards": 16}, {"name": "blocks", "variant": "plain", "shards": 16},
            {"name": "lengths", "variant": "plain", "shards": 8}, {"name": "deep", "variant": "plain", "shards": NSH},
            {"name": "long", "variant": "plain", "shards": NSH}]


# kinds of containers making up a chain, each in the next
CHAINS = ("A", "L", "AL", "SA", "SL", "A[", "L(", "A{", "SAL")
RELEASES = ("drop", "clear", "pop", "del", "set", "slice", "setslice", "init", "imul", "remove", "gc", "gcself", "iter", "extend")
LEAVES = []


class Leaf:
    __slots__ = ("__weakref__",)

    def __del__(self):
        LEAVES.append(1)


class SubA:
    pass


def deep(chain, depth, way):
    """A chain of containers is taken apart: everything goes, however deep."""
    A, L = T["ObjectArrayList"], T["ObjectLinkedList"]
    if not issubclass(SubA, A):
        globals()["SubA"] = type("SubA", (A,), {})
        globals()["SubL"] = type("SubL", (L,), {})
    makers = []
    i = 0
    while i < len(chain):
        if chain[i] == "S":
            makers.append(globals()["Sub" + chain[i + 1]])
            i += 1
        else:
            makers.append({"A": A, "L": L, "[": list, "(": tuple, "{": dict}[chain[i]])
        i += 1
    for top in (A, L):
        x = Leaf()
        for i in range(depth):
            m = makers[i % len(makers)]
            x = {0: x} if m is dict else (x,) if m is tuple else m([x])
        y = top([x])
        del LEAVES[:]
        S.transitions += 1
        S.visit(chain, depth, way)
        if way != "iter":
            del x
        if way == "drop":
            del y
        elif way == "clear":
            y.clear()
        elif way == "pop":
            y.pop()
        elif way == "del":
            del y[0]
        elif way == "set":
            y[0] = 0
        elif way == "slice":
            del y[:]
        elif way == "setslice":
            y[0:1] = [1, 2]
        elif way == "init":
            y.__init__()
        elif way == "imul":
            y *= 0
        elif way == "remove":
            y.remove(y[0])
        elif way == "gc":
            y.append(y)
            del y
            gc.collect()
        elif way == "gcself":
            z = y
            for i in range(min(depth, 3)):
                z = z[0]
            if type(z) not in (A, L):
                z = y
            z.append(y)
            del y, z
            gc.collect()
        elif way == "iter":
            it = iter(y)
            r = reversed(y)
            next(it)
            del x, y, it, r
        elif way == "extend":
            y.extend(top(y))
            y += y
            y.clear()
        if LEAVES != [1]:
            return "a chain of %d (%s) in a %s, released by %s: its last element was released %d times" % (
                depth, chain, top.__name__, way, len(LEAVES))
    return None


class Pt:
    """Seven of these fill long containers."""

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return self.k < o.k


def _setitem(x, i, v):
    x[i] = v


LONG_OPS = {
    "append": lambda x, p, n, mk: x.append(p[0]), "insert": lambda x, p, n, mk: x.insert(n // 2, p[1]), "pop": lambda x, p, n, mk: x.pop(), "pop0": lambda x, p, n, mk: x.pop(0),
    "popmid": lambda x, p, n, mk: x.pop(n // 2), "remove": lambda x, p, n, mk: x.remove(p[3]), "set": lambda x, p, n, mk: _setitem(x, n - 1, p[5]), "del": lambda x, p, n, mk: x.__delitem__(n // 2),
    "extlist": lambda x, p, n, mk: x.extend(p * 700), "exttuple": lambda x, p, n, mk: x.extend(tuple(p) * 700), "extgen": lambda x, p, n, mk: x.extend(v for v in p * 700),
    "extsame": lambda x, p, n, mk: x.extend(mk(p * 700)), "extself": lambda x, p, n, mk: x.extend(x), "iadd": lambda x, p, n, mk: x.__iadd__(p * 700), "iaddself": lambda x, p, n, mk: x.__iadd__(x),
    "imul3": lambda x, p, n, mk: x.__imul__(3), "imul0": lambda x, p, n, mk: x.__imul__(0), "mul": lambda x, p, n, mk: x * 2, "rmul": lambda x, p, n, mk: 2 * x, "add": lambda x, p, n, mk: x + mk(p * 9),
    "addlist": lambda x, p, n, mk: x + p * 9, "copy": lambda x, p, n, mk: x.copy(), "list": lambda x, p, n, mk: list(x), "rlist": lambda x, p, n, mk: list(reversed(x)),
    "slice": lambda x, p, n, mk: x[n // 3:n // 2], "slicestep": lambda x, p, n, mk: x[:3000:2], "delslice": lambda x, p, n, mk: x.__delitem__(slice(n // 3, n // 2)),
    "delstep": lambda x, p, n, mk: x.__delitem__(slice(None, None, 2)), "delrev": lambda x, p, n, mk: x.__delitem__(slice(None, None, -3)), "delall": lambda x, p, n, mk: x.__delitem__(slice(None)),
    "setslice": lambda x, p, n, mk: _setitem(x, slice(n // 3, n // 2), p * 50), "setgrow": lambda x, p, n, mk: _setitem(x, slice(1, 2), p * 900), "setall": lambda x, p, n, mk: _setitem(x, slice(None), p),
    "setsame": lambda x, p, n, mk: _setitem(x, slice(2, -2), mk(p * 400)), "setself": lambda x, p, n, mk: _setitem(x, slice(5, 9), x), "setgen": lambda x, p, n, mk: _setitem(x, slice(5, 5), (v for v in p * 300)),
    "clear": lambda x, p, n, mk: x.clear(), "reverse": lambda x, p, n, mk: x.reverse(), "sort": lambda x, p, n, mk: x.sort(), "sortkey": lambda x, p, n, mk: x.sort(key=lambda v: -v.k),
    "sortrev": lambda x, p, n, mk: x.sort(reverse=True), "sortbad": lambda x, p, n, mk: x.sort(key=failing_key(n)), "init": lambda x, p, n, mk: x.__init__(p * 30), "init0": lambda x, p, n, mk: x.__init__(),
    "index": lambda x, p, n, mk: x.index(p[2], n - 8), "count": lambda x, p, n, mk: x.count(p[2]), "in": lambda x, p, n, mk: p[2] in x, "missing": lambda x, p, n, mk: 5 in x,
    "iterpart": lambda x, p, n, mk: [v for v, _ in zip(x, range(n // 2))], "eq": lambda x, p, n, mk: x == list(x), "extfail": lambda x, p, n, mk: x.extend(failing_gen(p, 500)),
    "iaddfail": lambda x, p, n, mk: x.__iadd__(failing_gen(p, 500)), "setfail": lambda x, p, n, mk: _setitem(x, slice(2, n // 2), failing_gen(p, 500)), "repr": lambda x, p, n, mk: len(repr(x)) < 0,
    "resizeup": lambda x, p, n, mk: x.resize(n + 777) if hasattr(x, "resize") else x.extend([None] * 777), "resizedown": lambda x, p, n, mk: x.resize(n // 3) if hasattr(x, "resize") else x.__delitem__(slice(n // 3, None)),
}


def failing_key(n):
    c = [0]

    def key(v):
        c[0] += 1
        if c[0] == n - 1:
            raise Boom
        return v.k
    return key


def failing_gen(p, k):
    for i in range(k):
        yield p[i % 7]
    raise Boom


def tally(*held):
    """Occurrences of each object in lists."""
    c = {}
    for h in held:
        for v in h:
            c[id(v)] = c.get(id(v), 0) + 1
    return c


def long(t, n, name, then):
    """One operation and another on a long container of seven objects: each is counted as often as it occurs."""
    p = [Pt(k) for k in range(7)]
    mk = T[t]
    ref = [p[i * 5 % 7] for i in range(n)]
    start = tuple(ref)
    x = mk(ref)
    ref = None
    res = []
    import collections
    for op in (name, then):
        m = len(x)
        try:
            res.append(LONG_OPS[op](x, p, m, mk))
        except Boom:
            if not op.endswith(("bad", "fail")):
                return "%s of %d: %s raises" % (t, n, op)
        except (TypeError, AttributeError):
            if name != "resizeup" or not op.startswith("sort"):
                raise
        except ValueError:
            if not op in ("index", "remove"):
                raise
        except IndexError:
            if m > 0:
                raise
        S.transitions += 1
        held = collections.Counter(map(id, x.to_list()))
        held.update(map(id, start))
        for r in res:
            if r is x:
                continue
            if isinstance(r, (list, mk)):
                held.update(map(id, r))
            elif type(r) is Pt:
                held[id(r)] += 1
        r = None
        for i in range(7):
            # p itself and the argument of getrefcount
            want = held[id(p[i])] + 2
            got = sys.getrefcount(p[i])
            if got != want:
                return "%s of %d: after %s%s an element is referred to %d times, found in %d places" % (t, n, name, " and " + op if op is then else "", got - 2, want - 2)
    x = None
    res.clear()
    for i in range(7):
        if sys.getrefcount(p[i]) - 2 != start.count(p[i]):
            return "%s of %d: after %s, %s and releasing the container an element is referred to %d times too often" % (
                t, n, name, then, sys.getrefcount(p[i]) - 2 - start.count(p[i]))
    S.visit(t, n, name, then)
    return None


class Boom(Exception):
    pass


class Obj:
    """An element: ordered and equal by key."""
    __slots__ = ("k", "__weakref__")

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return self.k == o.k if type(o) is Obj else NotImplemented

    def __lt__(self, o):
        return self.k < o.k if type(o) is Obj else NotImplemented

    __hash__ = None


def failing(items, k):
    for i, v in enumerate(items):
        if i == k:
            raise Boom
        yield v
    raise Boom


def bad_key_at(k):
    n = [0]

    def key(v):
        n[0] += 1
        if n[0] > k:
            raise Boom
        return -v.k
    return key


class BadIdx:
    def __index__(self):
        raise Boom


class BadEq:
    __hash__ = None

    def __eq__(self, o):
        raise Boom


# name -> (operation on the container with objects o, operation on the model: a list of numbers of objects); the result is kept until
# the counts have been compared, its elements counted
def _ctor(x, src, *a):
    x.__init__(src, *a)


def _m(f):
    return f


OBJ_OPS = [
    ("app0", lambda x, o: x.append(o[0]), lambda m: m.append(0)),
    ("app1", lambda x, o: x.append(o[1]), lambda m: m.append(1)),
    ("ins0", lambda x, o: x.insert(0, o[2]), lambda m: m.insert(0, 2)),
    ("ins1", lambda x, o: x.insert(1, o[0]), lambda m: m.insert(1, 0)),
    ("ins-1", lambda x, o: x.insert(-1, o[1]), lambda m: m.insert(-1, 1)),
    ("ext", lambda x, o: x.extend([o[0], o[2], o[0]]), lambda m: m.extend([0, 2, 0])),
    ("extgen", lambda x, o: x.extend(v for v in (o[1], o[2])), lambda m: m.extend([1, 2])),
    ("extself", lambda x, o: x.extend(x), lambda m: m.extend(m)),
    ("extcopy", lambda x, o: x.extend(x.copy()), lambda m: m.extend(m)),
    ("extfail", lambda x, o: x.extend(failing([o[0], o[1]], 1)), "bulk0"),
    ("iaddfail", lambda x, o: x.__iadd__(failing([o[2], o[1]], 2)), "bulk21"),
    ("iadd", lambda x, o: x.__iadd__((o[1], o[1])), lambda m: m.extend([1, 1])),
    ("iaddself", lambda x, o: x.__iadd__(x), lambda m: m.extend(m)),
    ("iaddsame", lambda x, o: x.__iadd__(type(x)([o[2]])), lambda m: m.append(2)),
    ("imul2", lambda x, o: x.__imul__(2), lambda m: m.__imul__(2)),
    ("imul0", lambda x, o: x.__imul__(0), lambda m: m.clear()),
    ("imul1", lambda x, o: x.__imul__(1), None),
    ("imulbad", lambda x, o: x.__imul__("a"), None),
    ("add", lambda x, o: x + [o[0]], "res"),
    ("addsame", lambda x, o: x + x, "res"),
    ("addbad", lambda x, o: x + (o[0],), None),
    ("mul3", lambda x, o: x * 3, "res"),
    ("rmul2", lambda x, o: 2 * x, "res"),
    ("mul0", lambda x, o: x * 0, "res"),
    ("pop", lambda x, o: x.pop(), "pop-1"),
    ("pop0", lambda x, o: x.pop(0), "pop0"),
    ("pop1", lambda x, o: x.pop(1), "pop1"),
    ("pop-2", lambda x, o: x.pop(-2), "pop-2"),
    ("popbad", lambda x, o: x.pop(999), None),
    ("popidx", lambda x, o: x.pop(BadIdx()), None),
    ("rem0", lambda x, o: x.remove(o[0]), "rem0"),
    ("rem2", lambda x, o: x.remove(o[2]), "rem2"),
    ("remno", lambda x, o: x.remove(5), None),
    ("rembad", lambda x, o: x.remove(BadEq()), None),
    ("set0", lambda x, o: x.__setitem__(0, o[1]), "set0"),
    ("set-1", lambda x, o: x.__setitem__(-1, o[2]), "set-1"),
    ("setsame", lambda x, o: x.__setitem__(0, x[0]), None),
    ("setbad", lambda x, o: x.__setitem__(999, o[0]), None),
    ("setstr", lambda x, o: x.__setitem__("a", o[0]), None),
    ("del0", lambda x, o: x.__delitem__(0), "del0"),
    ("del-1", lambda x, o: x.__delitem__(-1), "del-1"),
    ("delbad", lambda x, o: x.__delitem__(-999), None),
    ("get0", lambda x, o: x[0], None),
    ("get-1", lambda x, o: x[-1], None),
    ("getbad", lambda x, o: x[999], None),
    ("getsl", lambda x, o: x[1:3], "res"),
    ("getslall", lambda x, o: x[::-1], "res"),
    ("delsl", lambda x, o: x.__delitem__(slice(1, 3)), lambda m: m.__delitem__(slice(1, 3))),
    ("delstep", lambda x, o: x.__delitem__(slice(None, None, 2)), lambda m: m.__delitem__(slice(None, None, 2))),
    ("delrev", lambda x, o: x.__delitem__(slice(None, None, -3)), lambda m: m.__delitem__(slice(None, None, -3))),
    ("delnone", lambda x, o: x.__delitem__(slice(3, 1)), None),
    ("setsl1", lambda x, o: x.__setitem__(slice(0, 2), [o[2]]), lambda m: m.__setitem__(slice(0, 2), [2])),
    ("setsl3", lambda x, o: x.__setitem__(slice(1, 2), (o[0], o[1], o[2])), lambda m: m.__setitem__(slice(1, 2), [0, 1, 2])),
    ("setsleq", lambda x, o: x.__setitem__(slice(0, 1), [o[0]]), lambda m: m.__setitem__(slice(0, 1), [0])),
    ("setslself", lambda x, o: x.__setitem__(slice(1, None), x), lambda m: m.__setitem__(slice(1, None), list(m))),
    ("setslgen", lambda x, o: x.__setitem__(slice(1, 1), (v for v in [o[1]])), lambda m: m.__setitem__(slice(1, 1), [1])),
    ("setslfail", lambda x, o: x.__setitem__(slice(0, 2), failing([o[0], o[1]], 1)), None),
    ("setslbad", lambda x, o: x.__setitem__(slice(0, 2), 5), None),
    ("setstepbad", lambda x, o: x.__setitem__(slice(None, None, 2), [o[0]] * 50), None),
    ("setstepeq", lambda x, o: x.__setitem__(slice(None, None, -1), [o[0]] * len(x)), "step"),
    ("clear", lambda x, o: x.clear(), lambda m: m.clear()),
    ("rev", lambda x, o: x.reverse(), lambda m: m.reverse()),
    ("sort", lambda x, o: x.sort(), lambda m: m.sort()),
    ("sortr", lambda x, o: x.sort(reverse=True), lambda m: m.sort(reverse=True)),
    ("sortkey", lambda x, o: x.sort(key=lambda v: -v.k), lambda m: m.sort(key=lambda v: -v)),
    ("sortfail", lambda x, o: x.sort(key=bad_key_at(1)), "perm"),
    ("sortbadkey", lambda x, o: x.sort(key=lambda v: BadEq()), "perm"),
    ("copy", lambda x, o: x.copy(), "res"),
    ("tolist", lambda x, o: x.to_list(), "res"),
    ("list", lambda x, o: list(x), "res"),
    ("rlist", lambda x, o: list(reversed(x)), "res"),
    ("ctor", lambda x, o: type(x)(x), "res"),
    ("ctorlist", lambda x, o: type(x)([o[0], o[1]]), "new"),
    ("ctorfail", lambda x, o: type(x)(failing([o[0], o[1]], 1)), None),
    ("ctorgen", lambda x, o: type(x)(v for v in (o[0], o[1])), "new"),
    ("reinit", lambda x, o: x.__init__([o[2], o[1]]), lambda m: m.__setitem__(slice(None), [2, 1])),
    ("reinitsame", lambda x, o: x.__init__(x.copy()), None),
    ("reinitempty", lambda x, o: x.__init__(), lambda m: m.clear()),
    ("reinitgen", lambda x, o: x.__init__(v for v in (o[0],)), lambda m: m.__setitem__(slice(None), [0])),
    ("reinitfail", lambda x, o: x.__init__(failing([o[0], o[1]], 1)), "reinit0"),
    ("iter", lambda x, o: iter(x), None),
    ("iternext", lambda x, o: next(iter(x), None), None),
    ("revnext", lambda x, o: next(reversed(x), None), None),
    ("iterdone", lambda x, o: [None for _ in x] and None, None),
    ("in", lambda x, o: o[1] in x, None),
    ("index", lambda x, o: x.index(o[2]), None),
    ("indexbad", lambda x, o: x.index(BadEq()), None),
    ("count", lambda x, o: x.count(o[0]), None),
    ("countbad", lambda x, o: x.count(BadEq()), None),
    ("eq", lambda x, o: x == [o[0], o[1], o[2]], None),
    ("eqlist", lambda x, o: x == x.to_list(), None),
    ("eqsame", lambda x, o: x == x.copy(), None),
    ("lt", lambda x, o: x < x.to_list() + [o[0]], None),
    ("ge", lambda x, o: x >= type(x)([o[1]]), None),
    ("ltbad", lambda x, o: x < [BadEq()] * 9, None),
    ("repr", lambda x, o: len(repr(x)), None),
    ("str", lambda x, o: len(str(x)), None),
    ("len", lambda x, o: len(x), None),
    ("unpack", lambda x, o: [*x], "res"),
    ("inself", lambda x, o: x in x, None),
    ("extno", lambda x, o: x.extend(5), None),
    ("dir", lambda x, o: x.nothing, None),
    ("hash", lambda x, o: hash(x), None),
]
ARR_OPS = [
    ("resize1", lambda x, o: x.resize(1), "resize1"),
    ("resize5", lambda x, o: x.resize(5), "resize5"),
    ("resizebad", lambda x, o: x.resize(-1), None),
]
STARTS = ((), (0,), (0, 1, 2), (0, 0, 1, 0, 2, 1), (2, 1, 0) * 4)


def ops_of(t):
    return OBJ_OPS + (ARR_OPS if t == "ObjectArrayList" else [])


def model(m, what):
    """Applies a named effect to the model; False if the operation must be refused."""
    if callable(what):
        what(m)
        return
    if what is None or what in ("res", "new"):
        return
    if what.startswith("pop") or what.startswith("del"):
        i = int(what[3:])
        if -len(m) <= i < len(m):
            del m[i]
    elif what.startswith("rem"):
        v = int(what[3:])
        if v in m:
            m.remove(v)
    elif what == "set0":
        if m:
            m[0] = 1
    elif what == "set-1":
        if m:
            m[-1] = 2
    elif what == "bulk0":
        m.append(0)
    elif what == "bulk21":
        m.extend([2, 1])
    elif what == "reinit0":
        m[:] = [0]
    elif what == "resize1":
        m[:] = m[:1] + [None] * (1 - len(m))
    elif what == "resize5":
        m[:] = m[:5] + [None] * (5 - len(m))


def gen(space, tier):
    if space == "long":
        for t in OBJ_TYPES:
            for n in (300, 1030, 4099) if tier == "quick" else (300, 1030, 4099, 16390, 70001):
                for a in LONG_OPS:
                    yield ("g", t, n, a)
            if tier == "quick":
                for a in LONG_OPS:
                    yield ("g1", t, 70001, a)
        return
    if space.startswith("hist"):
        d = depth(tier) - (1 if space.endswith("asan") else 0)
        for t in OBJ_TYPES:
            for s in STARTS:
                for h in itertools.product(range(len(ops_of(t))), repeat=d - 1):
                    yield ("h", t, s, h)
    elif space == "args":
        for t in ALL_TYPES:
            for n in (0, 1, 3, 20):
                yield ("a", t, n)
        for t in ALL_TYPES:
            yield ("sub", t)
    elif space == "blocks":
        for t in ALL_TYPES:
            for n in (0, 1, 3, 20, 70):
                for i in range(8):
                    yield ("b", t, n, i)
    elif space == "deep":
        for c in CHAINS:
            for d in list(range(1, 130 if tier == "quick" else 400)) + [200, 500, 1000, 10000, 1000000]:
                for w in RELEASES:
                    if d < 50 or d % 10 == 0 and d < 10 ** 6 or w == "drop" or w in ("clear", "gc", "iter") and len(c) == 1:
                        yield ("deep", c, d, w)
    else:
        for t in OBJ_TYPES:
            for n in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 1000]:
                yield ("l", t, n)


def enum(space, shard, tier):
    n = {"hist": NSH, "hist-asan": NSH, "args": 16, "blocks": 16, "lengths": 8, "deep": NSH, "long": NSH}[space]
    return shard_filter(gen(space, tier), shard, n)


BASE = None


def counted(o, x, m, res):
    """Compares the reference counts with the model. res: result still held."""
    for i in range(len(o)):
        v = o[i]
        want = BASE + m.count(i)
        if res is not None and res:
            if res[0] is v:
                want += 1
            elif type(res[0]) is list or type(res[0]) in OT:
                for w in res[0]:
                    if w is v:
                        want += 1
                w = None
        got = sys.getrefcount(v)
        if got != want:
            return "element %d has %d references, %d expected" % (i, got, want)
    return None


OT = ()


def run(t, start, hist, each=True):
    global BASE, OT
    OT = (T["ObjectArrayList"], T["ObjectLinkedList"])
    o = [Obj(0), Obj(1), Obj(2)]
    if BASE is None:
        v = o[0]
        BASE = sys.getrefcount(v)
        v = None
    ops = ops_of(t)
    x = T[t]([o[i] for i in start])
    m = list(start)
    xb = sys.getrefcount(x)
    for step, k in enumerate(hist):
        if len(m) > 60:
            break
        name, f, what = ops[k]
        res = []
        S.transitions += 1
        pending = None
        try:
            res.append(f(x, o))
        except Exception as e:
            pending = type(e)
        e = None
        if what == "perm" or name.startswith("sort") and None in m:
            c = [9 if v is None else v.k for v in x.to_list()]
            v = None
            if sorted(c) != sorted([9 if i is None else i for i in m]):
                return "%s: %s leaves %r of %r" % (t, name, c, m)
            m[:] = [None if i == 9 else i for i in c]
        elif what == "step":
            if pending is None:
                m[:] = [0] * len(m)
            elif pending is not NotImplementedError:
                return "%s: %s raises %r" % (t, name, pending)
        else:
            model(m, what)
        if res and res[0] is x:
            res.clear()
        if step == len(hist) - 1 or each:
            msg = counted(o, x, m, res)
            if msg is None and name != "iter":
                rx = sys.getrefcount(x)
                if rx != xb:
                    msg = "the container has %d references, %d expected" % (rx, xb)
            res.clear()
            if msg is None:
                if len(x) != len(m):
                    msg = "length %d, not %d" % (len(x), len(m))
            if msg is None:
                msg = counted(o, x, m, None)
                if msg:
                    msg += " after the result is dropped"
            if msg:
                return "%s from %r, %r, at %s: %s" % (t, start, [ops[i][0] for i in hist], name, msg)
        S.states.add(hash((t, tuple(m))))
    got = [v.k if v is not None else None for v in x]
    if got != m:
        return "%s from %r, %r: holds %r, not %r" % (t, start, [ops[i][0] for i in hist], got, m)
    it = iter(x) if len(hist) % 2 else reversed(x)
    next(it, None)
    x = None
    msg = counted(o, None, m, None)
    if msg:
        return "%s from %r, %r: with only an iterator left, %s" % (t, start, [ops[i][0] for i in hist], msg)
    it = None
    msg = counted(o, None, [], None)
    if msg:
        return "%s from %r, %r: after the container is gone, %s" % (t, start, [ops[i][0] for i in hist], msg)
    return None


# ------------------------------------------------------------------ arguments

def arg_calls(t, n):
    """(name, args to make, call): every object of args must have its counts unchanged, but for what is stored."""
    intc = t in INT_TYPES
    big = (lambda: int("2000000001")) if intc else (lambda: Obj(7))
    lst = lambda: [big(), big()]
    out = [
        ("append", lambda: [big()], lambda x, a: x.append(a)), ("insert", lambda: [int("1"), big()], lambda x, i, a: x.insert(i, a)),
        ("insertbig", lambda: [int("100000"), big()], lambda x, i, a: x.insert(i, a)),
        ("extend", lambda: [lst()], lambda x, a: x.extend(a)), ("extendt", lambda: [tuple(lst())], lambda x, a: x.extend(a)),
        ("extends", lambda: [T[t](lst())], lambda x, a: x.extend(a)), ("extendi", lambda: [iter(lst())], lambda x, a: x.extend(a)),
        ("iadd", lambda: [lst()], lambda x, a: x.__iadd__(a)), ("iadds", lambda: [T[t](lst())], lambda x, a: x.__iadd__(a)),
        ("iaddt", lambda: [tuple(lst())], lambda x, a: x.__iadd__(a)), ("iaddi", lambda: [iter(lst())], lambda x, a: x.__iadd__(a)),
        ("iaddx", lambda: [5.5], lambda x, a: x.__iadd__(a)), ("extendx", lambda: [5.5], lambda x, a: x.extend(a)),
        ("add", lambda: [lst()], lambda x, a: x + a), ("adds", lambda: [T[t](lst())], lambda x, a: x + a), ("addx", lambda: [5.5], lambda x, a: x + a),
        ("addt", lambda: [tuple(lst())], lambda x, a: x + a),
        ("mul", lambda: [int("3")], lambda x, a: x * a), ("rmul", lambda: [Idx(3)], lambda x, a: x * a), ("mulx", lambda: ["ab"], lambda x, a: x * a),
        ("imul", lambda: [Idx(2)], lambda x, a: x.__imul__(a)), ("rmulx", lambda: ["ab"], lambda x, a: x.__rmul__(a)),
        ("rmul1", lambda: [int("100000000000000000000")], lambda x, a: x.__rmul__(a)),
        ("get", lambda: [Idx(0)], lambda x, a: x[a]), ("getx", lambda: ["ab"], lambda x, a: x[a]), ("getbig", lambda: [2 ** 70 + n], lambda x, a: x[a]),
        ("getsl", lambda: [slice(Idx(0), 1000, 2)], lambda x, a: x[a]), ("getslx", lambda: [slice("a", 1000, 2)], lambda x, a: x[a]),
        ("getsl0", lambda: [slice(None, None, 0)], lambda x, a: x[a]),
        ("set", lambda: [Idx(0), big()], lambda x, i, a: x.__setitem__(i, a)), ("setx", lambda: ["ab", big()], lambda x, i, a: x.__setitem__(i, a)),
        ("setout", lambda: [100000 + n, big()], lambda x, i, a: x.__setitem__(i, a)),
        ("setsl", lambda: [slice(0, 1), lst()], lambda x, i, a: x.__setitem__(i, a)), ("setslt", lambda: [slice(0, 2), tuple(lst())], lambda x, i, a: x.__setitem__(i, a)),
        ("setsls", lambda: [slice(0, 1), T[t](lst())], lambda x, i, a: x.__setitem__(i, a)), ("setsli", lambda: [slice(1, 1), iter(lst())], lambda x, i, a: x.__setitem__(i, a)),
        ("setslx", lambda: [slice(0, 1), 5.5], lambda x, i, a: x.__setitem__(i, a)), ("setstep", lambda: [slice(0, 9, 2), [big()] * 77], lambda x, i, a: x.__setitem__(i, a)),
        ("del", lambda: [Idx(0)], lambda x, a: x.__delitem__(a)), ("delx", lambda: ["ab"], lambda x, a: x.__delitem__(a)),
        ("delsl", lambda: [slice(0, 2)], lambda x, a: x.__delitem__(a)), ("pop", lambda: [Idx(0)], lambda x, a: x.pop(a)), ("popx", lambda: ["ab"], lambda x, a: x.pop(a)),
        ("popout", lambda: [Idx(10 ** 6)], lambda x, a: x.pop(a)), ("remove", lambda: [big()], lambda x, a: x.remove(a)), ("removex", lambda: ["ab"], lambda x, a: x.remove(a)),
        ("index", lambda: [big()], lambda x, a: x.index(a)), ("index3", lambda: [big(), Idx(0), Idx(2)], lambda x, a, b, c: x.index(a, b, c)),
        ("indexx", lambda: [big(), "ab"], lambda x, a, b: x.index(a, b)), ("count", lambda: [big()], lambda x, a: x.count(a)), ("countx", lambda: [5.5], lambda x, a: x.count(a)),
        ("in", lambda: [big()], lambda x, a: a in x), ("inx", lambda: [5.5], lambda x, a: a in x), ("inbig", lambda: [2 ** 90 + n], lambda x, a: a in x),
        ("sort", lambda: [lambda v: 0], lambda x, a: x.sort(key=a)), ("sortr", lambda: [Idx(1)], lambda x, a: x.sort(reverse=a)), ("sortx", lambda: [5.5], lambda x, a: x.sort(key=a)),
        ("ctor", lambda: [lst()], lambda x, a: T[t](a)), ("ctort", lambda: [tuple(lst())], lambda x, a: T[t](a)), ("ctors", lambda: [T[t](lst())], lambda x, a: T[t](a)),
        ("ctori", lambda: [iter(lst())], lambda x, a: T[t](a)), ("ctorx", lambda: ["a\u1234" if intc else 5.5], lambda x, a: T[t](a)), ("reinit", lambda: [lst()], lambda x, a: x.__init__(a)),
        ("reinits", lambda: [T[t](lst())], lambda x, a: x.__init__(a)), ("reinitx", lambda: [5.5], lambda x, a: x.__init__(a)), ("ctorkw", lambda: [lst()], lambda x, a: T[t](iterable=a)),
        ("eq", lambda: [lst()], lambda x, a: x == a), ("eqs", lambda: [T[t](lst())], lambda x, a: x == a), ("eqt", lambda: [tuple(lst())], lambda x, a: x == a),
        ("eqx", lambda: [["x"] * n], lambda x, a: x == a), ("nex", lambda: [["x"] * n], lambda x, a: x != a),
        ("ltx", lambda: [["x"] * n], lambda x, a: x < a), ("eqnone", lambda: [5.5], lambda x, a: x == a), ("ne", lambda: [lst()], lambda x, a: x != a),
        ("self", lambda: [], lambda x: x), ("extself", lambda: [], lambda x: x.extend(x)), ("iaddself", lambda: [], lambda x: x.__iadd__(x)), ("addself", lambda: [], lambda x: x + x),
        ("setself", lambda: [], lambda x: x.__setitem__(slice(0, 1), x)), ("eqself", lambda: [], lambda x: x == x), ("ltself", lambda: [], lambda x: x < x),
        ("iter", lambda: [], lambda x: iter(x)), ("iternext", lambda: [], lambda x: next(iter(x), None)), ("rev", lambda: [], lambda x: reversed(x)),
        ("iterall", lambda: [], lambda x: list(x)), ("revall", lambda: [], lambda x: list(reversed(x))), ("iterend", lambda: [], lambda x: [next(i, 0) for i in [iter(x)] for _ in range(99)]),
        ("itertwice", lambda: [], lambda x: iter(iter(x))), ("copy", lambda: [], lambda x: x.copy()), ("to_list", lambda: [], lambda x: x.to_list()),
        ("repr", lambda: [], lambda x: repr(x)), ("str", lambda: [], lambda x: str(x)), ("len", lambda: [], lambda x: len(x)), ("bool", lambda: [], lambda x: bool(x)),
        ("reverse", lambda: [], lambda x: x.reverse()), ("sort0", lambda: [], lambda x: x.sort()), ("clear", lambda: [], lambda x: x.clear()), ("pop_", lambda: [], lambda x: x.pop()),
        ("hash", lambda: [], lambda x: hash(x)), ("generic", lambda: [int], lambda x, a: T[t][a]),
    ]
    for op in ("lt", "le", "gt", "ge"):
        out.append((op, lambda: [lst()], lambda x, a, op=op: getattr(x, "__%s__" % op)(a)))
        out.append((op + "s", lambda: [T[t](lst())], lambda x, a, op=op: getattr(x, "__%s__" % op)(a)))
        out.append((op + "c", lambda: [x_copy()], lambda x, a, op=op: getattr(x, "__%s__" % op)(a)))
        out.append((op + "n", lambda: [5.5], lambda x, a, op=op: getattr(x, "__%s__" % op)(a)))

    def x_copy():
        return content(t, n)
    if t in ARRAY_TYPES:
        out += [("resize", lambda: [int("2")], lambda x, a: x.resize(a)), ("resizex", lambda: ["ab"], lambda x, a: x.resize(a)),
                ("hint", lambda: [lst(), int("50")], lambda x, a, b: T[t](a, b)), ("hintx", lambda: [lst(), "ab"], lambda x, a, b: T[t](a, b)),
                ("resizebig", lambda: [2 ** 70 + n], lambda x, a: x.resize(a))]
    if intc:
        out += [("appendx", lambda: ["ab"], lambda x, a: x.append(a)), ("appendbig", lambda: [2 ** 70 + n], lambda x, a: x.append(a)),
                ("extendbad", lambda: [[1, "ab"]], lambda x, a: x.extend(a)), ("extendbadi", lambda: [iter([1, "ab"])], lambda x, a: x.extend(a)),
                ("ctorbad", lambda: [[1, "ab"]], lambda x, a: T[t](a)), ("ctorbadt", lambda: [(1, "ab")], lambda x, a: T[t](a)), ("ctorbadi", lambda: [iter([1, "ab"])], lambda x, a: T[t](a)),
                ("setbad", lambda: [0, "ab"], lambda x, i, a: x.__setitem__(i, a)), ("setslbad", lambda: [slice(0, 1), [1, "ab"]], lambda x, i, a: x.__setitem__(i, a)),
                ("insertbad", lambda: [0, "ab"], lambda x, i, a: x.insert(i, a)), ("from_range", lambda: [Idx(3), Idx(9), Idx(2)], lambda x, a, b, c: T[t].from_range(a, b, c)),
                ("from_range1", lambda: [int("20")], lambda x, a: T[t].from_range(a)), ("from_rangex", lambda: [2 ** 70 + n], lambda x, a: T[t].from_range(a)),
                ("iaddbad", lambda: [[1, "ab"]], lambda x, a: x.__iadd__(a)), ("extendo", lambda: [T["ObjectArrayList"](lst())], lambda x, a: x.extend(a)),
                ("ctoro", lambda: [T["ObjectLinkedList"](lst())], lambda x, a: T[t](a)), ("sortkeybad", lambda: [lambda v: 1 / 0], lambda x, a: x.sort(key=a)),
                ("sortkeyobj", lambda: [lambda v: [v]], lambda x, a: x.sort(key=a)), ("sortkeyrev", lambda: [lambda v: -v], lambda x, a: x.sort(key=a, reverse=True))]
        if t in ARRAY_TYPES:
            out += [("view", lambda: [], lambda x: memoryview(x)), ("views", lambda: [], lambda x: (memoryview(x), memoryview(x))),
                    ("bytes", lambda: [], lambda x: bytes(x)), ("array", lambda: [array.array("i")], lambda x, a: a.frombytes(x) if len(x) % 2 == 0 else None),
                    ("viewapp", lambda: [], lambda x: [memoryview(x), x.append(1)]), ("viewcast", lambda: [], lambda x: memoryview(x).cast("B"))]
    return out


def content(t, n):
    if t in INT_TYPES:
        return [1000000 + i for i in range(n)]
    return [Obj(i) for i in range(n)]


STORES = {"append", "insert", "insertbig", "extend", "extendt", "extends", "extendi", "iadd", "iadds", "iaddt", "iaddi", "set", "setsl", "setslt", "setsls",
          "setsli", "reinit", "reinits", "add", "adds", "ctor", "ctort", "ctors", "ctori", "ctorkw", "hint"}


def flat(args):
    """The argument objects and what they hold (iterators cannot be looked into)."""
    out = []
    for a in args:
        out.append(a)
        if type(a) in (list, tuple):
            out.extend(a)
        elif type(a) in OTYPES:
            out.extend(a)
        elif type(a) is slice:
            out.extend([a.start, a.stop, a.step])
    return out


OTYPES = ()


def execute(space, case):
    global OTYPES
    OTYPES = tuple(T.values())
    k = case[0]
    if k == "deep":
        return deep(*case[1:])
    if k == "g":
        for then in LONG_OPS:
            msg = long(*case[1:], then)
            if msg:
                return msg
        return None
    if k == "g1":
        return long(*case[1:], "append") or long(*case[1:], "clear")
    if k == "h":
        _, t, start, h = case
        # every depth-1 prefix is checked by its own case's first steps: all last operations here
        for last in range(len(ops_of(t))):
            msg = run(t, start, h + (last,), each=last == 0)
            if msg:
                return msg
        return None
    if k == "a":
        _, t, n = case
        for name, mk, f in arg_calls(t, n):
            c = content(t, n)
            x = T[t](c)
            args = mk()
            objs = flat(args) + [x, T[t], T["ObjectArrayList"], type(iter(x))] + (c if t in OBJ_TYPES else [])
            before = [sys.getrefcount(o) for o in objs]
            try:
                r = f(x, *args)
            except Exception:
                r = None
            r = None
            S.transitions += 1
            after = [sys.getrefcount(o) for o in objs]
            if t in OBJ_TYPES:
                # occurrences in the container now and before
                now = x.to_list()
                occ = {}
                for o in now:
                    occ[id(o)] = occ.get(id(o), 0) + 1
                was = {}
                for o in c:
                    was[id(o)] = was.get(id(o), 0) + 1
                want = [b + occ.get(id(o), 0) - was.get(id(o), 0) for o, b in zip(objs, before)]
                now = None
            else:
                want = before
            if name == "extendi" or name == "iaddi" or name == "setsli" or name.endswith("i"):
                # an exhausted iterator gives up its list; nothing of it is known here but itself
                pass
            if after != want:
                i = next(i for i in range(len(want)) if after[i] != want[i])
                return "%s of %d: %s changes the count of %s from %d to %d (expected %d)" % (
                    t, n, name, type(objs[i]).__name__ if i >= len(args) else "argument %d" % i, before[i], after[i], want[i])
            o = None
            S.visit(t, n, name)
        return None
    if k == "sub":
        t = case[1]

        class Sub(T[t]):
            pass

        class SubSlots(T[t]):
            __slots__ = ()
        for cls in (Sub, SubSlots):
            gc.collect()
            base = sys.getrefcount(cls)
            for _ in range(5):
                x = cls([1, 2, 3])
                x.append(4)
                y = x.copy()
                z = x + x
                w = x * 2
                it = iter(x)
                next(it)
                del x, y, z, w, it
                try:
                    cls("q") if t in INT_TYPES else cls(5)
                except Exception:
                    pass
                S.transitions += 1
            gc.collect()
            if sys.getrefcount(cls) != base:
                return "%s: a subclass has %d references more" % (t, sys.getrefcount(cls) - base)
            if t in OBJ_TYPES:
                o = Obj(1)
                b = sys.getrefcount(o)
                x = cls([o, o])
                x.extend(x)
                if sys.getrefcount(o) != b + 4:
                    return "%s: a subclass holds %d references, not 4" % (t, sys.getrefcount(o) - b)
                del x
                gc.collect()
                if sys.getrefcount(o) != b:
                    return "%s: a subclass leaves %d references" % (t, sys.getrefcount(o) - b)
        return None
    if k == "b":
        _, t, n, i = case
        calls = arg_calls(t, n)[i::8]
        for name, mk, f in calls:
            c = content(t, n)

            def once():
                x = T[t](c)
                args = mk()
                try:
                    f(x, *args)
                except Exception:
                    pass
            for _ in range(5):
                once()
            b = sys.getallocatedblocks()
            for _ in range(60):
                once()
            a = sys.getallocatedblocks()
            S.transitions += 65
            if a - b >= 30:
                # the interpreter's free lists (up to 2000 blocks of a kind) fill up first; a leak goes on
                for _ in range(2500):
                    once()
                gc.collect()
                for _ in range(2500):
                    once()
                b = sys.getallocatedblocks()
                for _ in range(600):
                    once()
                a = sys.getallocatedblocks()
                if a - b >= 300:
                    return "%s of %d: %s leaves %d blocks in 600 calls" % (t, n, name, a - b)
            S.visit(t, n, name)
        return None
    _, t, n = case
    # all lengths: the counts of distinct elements through bulk operations
    for name, mk in (("ctor", lambda c: T[t](c)), ("tuple", lambda c: T[t](tuple(c))), ("gen", lambda c: T[t](v for v in c)), ("same", lambda c: T[t](T[t](c))),
                     ("copy", lambda c: T[t](c).copy())):
        c = [Obj(i) for i in range(n)]
        base = [sys.getrefcount(v) for v in c]

        def expect(d, what):
            got = [sys.getrefcount(v) for v in c]
            want = [b + e for b, e in zip(base, d)]
            if got != want:
                j = next(j for j in range(n) if got[j] != want[j])
                return "%s of %d by %s: %s: element %d has %d references, expected %d" % (t, n, name, what, j, got[j], want[j])
        x = mk(c)
        S.transitions += 12
        msg = expect([1] * n, "built")
        if msg:
            return msg
        y = x * 3
        msg = expect([4] * n, "x * 3")
        if msg:
            return msg
        y *= 2
        msg = expect([7] * n, "y *= 2")
        if msg:
            return msg
        del y[n:]
        msg = expect([2] * n, "del y[n:]")
        if msg:
            return msg
        y.extend(x)
        y += y
        msg = expect([5] * n, "extended")
        if msg:
            return msg
        y[1:n] = x
        msg = expect([5 + (0 if i == 0 else 0)for i in range(n)] if n == 0 else [5 + 1 - (1 if i >= 1 else 0) for i in range(n)], "slice assigned")
        if msg and n > 1:
            return msg
        y.clear()
        msg = expect([1] * n, "cleared")
        if msg:
            return msg
        z = x + x
        del x[::2]
        msg = expect([2 + (i % 2) for i in range(n)], "x + x, del x[::2]")
        if msg:
            return msg
        z.sort(key=lambda v: -v.k)
        z.reverse()
        z = None
        x = None
        msg = expect([0] * n, "dropped")
        if msg:
            return msg
        S.visit(t, n, name)
    return None
