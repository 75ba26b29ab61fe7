"""C21: garbage collection of the object containers."""
import ctypes
import gc
import sys
import weakref

from mc.common import *

NSH = 32
CONT = "ALSTPR"     # ObjectArrayList, ObjectLinkedList, a subclass of each, a plain object, a resurrecting one
ITER = "fgre"       # iterators: fresh, advanced, reversed, exhausted
WAYS = ("append", "extend", "insert", "slice", "twice", "iadd", "set", "sorted")
ENV = {}


def BOUNDS(tier):
    return ("containers of up to 70001 elements in a cycle through one of them at notable places; every graph of up to %d nodes (array list, linked list, subclasses with attributes, plain and resurrecting objects; %s all edge sets, self-edges "
            "included), every subset of nodes held from outside; graphs of up to 2 containers and 2 iterators (fresh, advanced, reversed, exhausted); "
            "containers of %d origins with 5 kinds of contents, modified in %d ways and put in a cycle in 12; 8 ways of making the edges and collections of each generation in between (2 nodes); all histories of up to %d of %d operations on a container in a "
            "cycle with a collection after each; %d operations x contents of up to 3 elements x a collection in every callback, finaliser and before every "
            "allocation of a collectable object") % (3 if tier == "quick" else 4, "with 4 nodes: array lists, linked lists and plain objects only;" if tier != "quick" else "",
                                                     len(MAKE), len(MODIFY), 3 if tier == "quick" else 4, len(HIST), len(MID))


ASSUMPTIONS = ["a collection before the module's allocation stands for one during it"]


def leaf(name):
    """An object unknown to the collector; it is released when only this table refers to it."""
    v = object()
    ENV["leaves"].append((name, v))
    return v


def released():
    return sorted(name for name, v in ENV["leaves"] if sys.getrefcount(v) == 3)


def setup():
    if ENV:
        return ENV
    A, L = T["ObjectArrayList"], T["ObjectLinkedList"]

    class SA(A):
        pass

    class SL(L):
        pass

    class P:
        __slots__ = ("refs", "__weakref__")

        def __init__(self):
            self.refs = []

    class R(P):
        __slots__ = ()

        def __del__(self):
            ENV["saved"].append(self)

    ENV.update(leaves=[], A=A, L=L, S=SA, T=SL, P=P, R=R, log=[], saved=[])
    ENV["cont"] = (A, L, SA, SL)
    ENV["types"] = frozenset((A, L, SA, SL, P, R, type(iter(A())), type(iter(L())), type(reversed(A())), type(reversed(L()))))
    gc.disable()
    gc.collect()
    gc.freeze()
    return ENV


def seq(x):
    return x.refs if isinstance(x, ENV["P"]) else x


def alive():
    """How many containers, plain objects and iterators the collector knows."""
    ts = ENV["types"]
    return sum(1 for o in gc.get_objects() if type(o) in ts)


def put(x, items, way):
    s = seq(x)
    if way == "append":
        for i in items:
            s.append(i)
    elif way == "extend":
        s.extend(items)
    elif way == "insert":
        for i in items[::-1]:
            s.insert(len(s), i)
    elif way == "slice":
        s[len(s):] = items
    elif way == "twice":
        s.extend(items)
        s.extend(items)
    elif way == "iadd":
        s += items
        if s is not seq(x):
            raise AssertionError("+= returned another object")
    elif way == "set":
        n = len(s)
        s.extend([None] * len(items))
        for k, i in enumerate(items):
            s[n + k] = i
    elif way == "sorted":
        s.extend(items[::-1])
        s.sort(key=lambda v: 0 if type(v) is object else 1)


# ---- graphs

def graph_cases(n, kinds):
    """(kinds, edge masks, iterators, held mask): up to renaming of the nodes for the kinds."""
    for ks in itertools.combinations_with_replacement(kinds, n):
        for edges in itertools.product(range(1 << n), repeat=n):
            for held in range(1 << n):
                yield ("".join(ks), edges, (), held, "append", None)


def iter_cases(nc, ni, kinds):
    n = nc + ni
    forms = ITER if ni == 1 else "fr"
    for ks in itertools.product(kinds, repeat=nc):
        for its in itertools.product([(f, t) for f in forms for t in range(nc) if ks[t] in "ALST"], repeat=ni):
            for edges in itertools.product(range(1 << n), repeat=nc):
                for held in range(1 << n):
                    yield ("".join(ks), edges, its, held, "append", None)


def gen(space, tier):
    if space == "long":
        for k in "ALST":
            for n in (2, 33, 255, 256, 257, 1000, 1024, 1025, 4097, 70001) + ((2049, 16384, 65535, 65536, 65537, 300000) if tier != "quick" else ()):
                for way in LONG_WAYS:
                    yield (k, n, way)
        return
    if space == "graphs":
        for n in (1, 2, 3):
            yield from graph_cases(n, CONT)
    elif space == "iters":
        for nc, ni in ((1, 1), (1, 2), (2, 1)):
            yield from iter_cases(nc, ni, "ALSP" if nc == 2 else "ALST")
        if tier != "quick":
            yield from iter_cases(2, 2, "AL")
    elif space == "ways":
        for way in WAYS:
            for mid in (None, 0, 1, 2):
                for ks in itertools.product(CONT[:5], repeat=2):
                    for edges in itertools.product(range(4), repeat=2):
                        for held in range(4):
                            yield ("".join(ks), edges, (), held, way, mid)
    elif space == "graphs4":
        yield from graph_cases(4, "ALP")
    elif space == "histories":
        for t in "ALST":
            for d in range(1, 4 if tier == "quick" else 5):
                for ops in itertools.product(range(len(HIST)), repeat=d):
                    if d == 4 and t in "ST":
                        continue
                    yield (t, ops)
    elif space == "origin":
        yield from origin_cases()
    elif space.startswith("midop"):
        for t in "AL":
            for n in range(4):
                for word in itertools.product((0, 1), repeat=n):
                    for cyc in (0, 1, 2):
                        for op in range(len(MID)):
                            yield (t, word, cyc, op)


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, NSH)


def spaces(tier):
    out = [{"name": "origin", "variant": "plain", "shards": NSH}, {"name": "graphs", "variant": "plain", "shards": NSH}, {"name": "iters", "variant": "plain", "shards": NSH},
           {"name": "ways", "variant": "asan", "shards": NSH}, {"name": "histories", "variant": "asan", "shards": NSH},
           {"name": "midop", "variant": "gcp", "shards": NSH}, {"name": "long", "variant": "plain", "shards": NSH}]
    if tier != "quick":
        out.append({"name": "graphs4", "variant": "plain", "shards": NSH})
    return out


def execute(space, case):
    setup()
    if space == "histories":
        return history(*case)
    if space == "origin":
        return origin(*case)
    if space == "long":
        return long(*case)
    if space == "midop":
        return midop(*case)
    return graph(*case)


LONG_WAYS = ("self", "child", "back", "held", "many", "weak", "gen0", "extended", "spread")


def long(kind, n, way):
    """A long container in a cycle through its element number i."""
    C = ENV[kind]
    P = ENV["P"]
    for i in sorted({j for j in (0, 1, 15, 16, 127, 128, 255, 256, 1023, 1024, 65535, 65536, n // 2, n - 2, n - 1) if 0 <= j < n}):
        ENV["leaves"].clear()
        gc.collect()
        before = alive()
        x = C([leaf("end")] * n if way != "spread" else [None] * n)
        what = "%s of %d, %s at %d" % (C.__name__, n, way, i)
        if way in ("self", "gen0", "extended"):
            if way == "extended":
                x.extend(x)
            x[i] = x
            if way == "gen0":
                gc.collect(0)
                gc.collect(1)
        elif way == "child":
            x[i] = [x]
        elif way == "back":
            o = P()
            o.refs.append(x)
            x[i] = o
            del o
        elif way in ("held", "weak"):
            # reached from outside through that element only
            y = C([leaf("other"), None])
            y[1] = x
            x[i] = y
            if way == "held":
                del x
                gc.collect()
                if len(y) != 2 or len(y[1]) != n or y[1][i] is not y or released():
                    return what + ": what is still reachable was taken apart"
                x = y[1]
            del y
            gc.collect()
            if len(x) != n or len(x[i]) != 2 or x[i][1] is not x:
                return what + ": what is still reachable was taken apart"
        elif way == "many":
            for j in range(0, n, max(1, n // 50)):
                x[j] = [x, j]
            x[i] = x
        else:
            # every element in a cycle of its own with the container
            x[:] = C([x] * 3) if n < 3 else [[x] if j % max(1, n // 300) == 0 else leaf("e") if j == i else None for j in range(n)]
            if n < 3:
                x.append(leaf("end"))
        S.transitions += 1
        want = {"held": 2, "weak": 2}.get(way, 1)
        if way == "spread" and n >= 3:
            want = len(ENV["leaves"])
        if way == "self" and n == 1:
            want = 0
        gc.collect()
        if len(released()) > 0 and len(x) == 0:
            return what + ": taken apart while in use"
        got = x.to_list()
        if way in ("self", "gen0") and (got[i] is not x or len(got) != n):
            return what + ": the contents are changed"
        del got
        total = len(ENV["leaves"])
        del x
        gc.collect()
        if len(released()) != total or alive() != before:
            return what + ": the cycle is not reclaimed"
        S.visit(kind, n, way, i)
    return None


def shape(x):
    """The identities of what x holds."""
    return [id(v) for v in seq(x)]


def graph(kinds, edges, its, held, way, mid):
    ENV["leaves"].clear()
    ENV["saved"].clear()
    n = len(kinds)
    nodes = [ENV[k]() for k in kinds]
    for i, x in enumerate(nodes):
        seq(x).append(leaf(str(i)))
    if mid is not None:
        gc.collect(mid)
    iters = []
    for f, t in its:
        x = nodes[t]
        if f == "r":
            it = reversed(x)
        else:
            it = iter(x)
            if f != "f":
                next(it)
                if f == "e":
                    for _ in it:
                        pass
        iters.append(it)
    nodes += iters
    it = x = None
    reach = []
    for i in range(n):
        e = [j for j in range(len(nodes)) if edges[i] >> j & 1]
        reach.append(e)
        put(nodes[i], [nodes[j] for j in e], way)
        if kinds[i] in "ST":
            nodes[i].attribute = nodes[i]     # and a cycle of its own through its dictionary
    for f, t in its:
        reach.append([t])
    S.transitions += 1
    S.visit(kinds, edges, its, held, way, mid)
    keep = [nodes[i] for i in range(len(nodes)) if held >> i & 1]
    shapes = [shape(nodes[i]) if i < n else None for i in range(len(nodes))]
    ids = [id(x) for x in nodes]
    del nodes, iters, x

    def closure(start):
        seen, todo = set(start), list(start)
        while todo:
            for j in reach[todo.pop()]:
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        return seen

    nodes_left = range(kinds.count("R"))
    kept = closure([i for i in range(len(ids)) if held >> i & 1])
    saved = [i for i in range(n) if kinds[i] == "R" and i not in kept]
    live = closure(list(kept) + saved)

    def check(when, live, roots):
        want = sorted(str(i) for i in range(n) if i not in live)
        if released() != want:
            return "%s: the elements of nodes %r were released, expected %r" % (when, released(), want)
        if alive() != len(live):
            return "%s: %d of the objects are alive, expected %d (%r)" % (when, alive(), len(live), sorted(live))
        todo, seen = list(roots), set()
        while todo:
            x = todo.pop()
            if id(x) in seen or type(x) not in ENV["types"]:
                continue
            seen.add(id(x))
            k = ids.index(id(x))
            if k >= n:
                continue
            if shape(x) != shapes[k]:
                return "%s: the contents of node %d changed" % (when, k)
            todo.extend(seq(x))
        x = todo = None

    if mid is not None:
        gc.collect(mid)
    gc.collect()
    msg = check("after the collection", live, keep + ENV["saved"])
    if msg:
        return msg
    gc.collect()
    msg = check("after another collection", live, keep + ENV["saved"])
    if msg:
        return msg
    if its:      # iterators that survived still work, and do so on the survived contents
        for x in keep:
            if type(x) not in ENV["cont"] and not isinstance(x, ENV["P"]):
                list(x)
    keep.clear()
    x = None
    ENV["saved"].clear()
    gc.collect()
    for _ in nodes_left:      # finalised for the first time only now: each of them once
        ENV["saved"].clear()
        gc.collect()
    return check("after everything was dropped", set(), [])


# ---- containers of every origin

MAKE = {
    "new": lambda C, c: C(c), "newtuple": lambda C, c: C(tuple(c)), "newgen": lambda C, c: C(v for v in c), "newsame": lambda C, c: C(C(c)), "copy": lambda C, c: C(c).copy(),
    "copycopy": lambda C, c: C(c).copy().copy(), "add": lambda C, c: C(c) + C(), "emptyadd": lambda C, c: C() + C(c), "mul1": lambda C, c: C(c) * 1, "mul2": lambda C, c: C(c) * 2,
    "rmul": lambda C, c: 2 * C(c), "mul0": lambda C, c: C(c) * 0, "bare": lambda C, c: C.__new__(C), "append": lambda C, c: fill(C(), c), "subcopy": lambda C, c: type("U", (C,), {})(c).copy(),
    "hint": lambda C, c: C(c, 50) if C is T["ObjectArrayList"] else C(c), "iadd": lambda C, c: C().__iadd__(c), "setslice": lambda C, c: setsl(C(), c), "other": lambda C, c: C(T["IntArrayList"]([1, 2])),
    "otherkind": lambda C, c: C((T["ObjectLinkedList"] if C is T["ObjectArrayList"] else T["ObjectArrayList"])(c)), "slice": lambda C, c: C(c)[:],
}
MODIFY = {
    "none": lambda x: None, "gc0": lambda x: gc.collect(0), "gc": lambda x: gc.collect(), "clear": lambda x: x.clear(), "init": lambda x: x.__init__(), "initatoms": lambda x: x.__init__([1, 2, 3]),
    "imul0": lambda x: x.__imul__(0), "delall": lambda x: x.__delitem__(slice(None)), "sort": lambda x: x.sort(key=id), "reverse": lambda x: x.reverse(), "popall": lambda x: [x.pop() for _ in range(len(x))] and None,
    "iterate": lambda x: list(iter(x)) and list(reversed(x)) and None, "setatoms": lambda x: x.__setitem__(slice(None), [1, 2]), "cleargc": lambda x: x.clear() or gc.collect(), "resize": lambda x: x.resize(40) if hasattr(x, "resize") else None,
    "shrink": lambda x: x.resize(0) if hasattr(x, "resize") else None, "failed": lambda x: fails(x),
}


def fill(x, c):
    for v in c:
        x.append(v)
    return x


def setsl(x, c):
    x[:] = c
    return x


def fails(x):
    for f in (lambda: x.extend(1 // (2 - i) for i in range(9)), lambda: x.insert("", 1), lambda: x.sort(key=bad), lambda: x.__init__(9)):
        try:
            f()
        except Exception:
            pass


def origin_cases():
    for k in "ALST":
        for make in MAKE:
            for start in range(5):
                for mod in MODIFY:
                    for way in WAYS + ("iter", "riter", "attr", "inner"):
                        yield (k, make, start, mod, way)


def origin(kind, make, start, mod, way):
    ENV["leaves"].clear()
    x = MAKE[make](ENV[kind], ([], [1, "a", None, 2.5], [leaf("s")], [[], {}], [leaf("s"), 1, ()])[start])
    S.transitions += 3
    S.visit(kind, make, start, mod, way)
    if type(x) in (list, tuple):
        x = MAKE["new"](ENV[kind], x)
    MODIFY[mod](x)
    v = leaf("e")
    x.append(v)
    v = None
    n = len(x)
    if way == "iter":
        x.append(iter(x))
        x.append(reversed(x))
    elif way == "riter":
        it = reversed(x)
        next(it)
        x.insert(0, it)
        it = None
    elif way == "inner":
        x.append([{"k": (x,)}])
    elif way == "attr":
        if kind in "AL":
            return None
        if hasattr(x, "__dict__"):
            x.attribute = x
        else:
            x.append(x)
    else:
        put(x, [x], way)
    if len(x) < n:
        return "the container shrank"
    want = [id(v) for v in x]
    v = None
    gc.collect()
    if [id(v) for v in x] != want:
        return "%s made by %s, %s, %s: a collection changed a container in use" % (kind, make, mod, way)
    v = None
    if "e" in released():
        return "%s made by %s, %s, %s: an element of a container in use was released" % (kind, make, mod, way)
    x = None
    gc.collect()
    n = alive()
    if n or len(released()) != len(ENV["leaves"]):
        return "%s made by %s from %d, then %s, then in a cycle by %s: %d objects are not reclaimed, elements released: %r of %d" % (
            kind, make, start, mod, way, n, released(), len(ENV["leaves"]))
    return None


# ---- histories

HIST = (
    ("append self", lambda s, x, r: s.append(x)), ("insert list", lambda s, x, r: s.insert(0, r[0])), ("pop", lambda s, x, r: s.pop() and None),
    ("clear", lambda s, x, r: s.clear()), ("double", lambda s, x, r: s.extend(list(s))), ("reverse", lambda s, x, r: s.reverse()),
    ("set", lambda s, x, r: s.__setitem__(0, x)), ("slice", lambda s, x, r: s.__setitem__(slice(0, 1), [x, r[0]])), ("del", lambda s, x, r: s.__delitem__(slice(0, 2))),
    ("imul", lambda s, x, r: s.__imul__(2) and None), ("imul0", lambda s, x, r: s.__imul__(0) and None), ("add", lambda s, x, r: r[0].append(s + [x]) if len(r[0]) < 4 else None),
    ("copy", lambda s, x, r: r[0].append(s.copy()) if len(r[0]) < 4 else None), ("iter", lambda s, x, r: s.append(r[1]())), ("sort", lambda s, x, r: s.sort(key=lambda v: 0)),
    ("leaf", lambda s, x, r: s.append(leaf("l"))), ("init", lambda s, x, r: x.__init__([x, leaf("i")])),
)


def history(kind, ops):
    """The container, compared with a list of the same references after each operation and collection."""
    ENV["leaves"].clear()
    x = ENV[kind]()
    other = [x]
    first = leaf("f")
    x.append(first)
    x.append(other)
    ref = [id(v) for v in x]
    r = [other, None]
    if True:
        for o in ops:
            name, f = HIST[o]
            S.transitions += 1
            model = [v for v in x]
            made = []

            def mk():
                it = iter(x)
                made.append(it)
                return it

            r[1] = mk
            if name == "leaf":
                x.append(leaf("l"))
                model.append(x[-1])
            elif name == "init":
                v = leaf("i")
                x.__init__([x, v])
                model = [x, v]
                v = None
            else:
                ex = em = None
                try:
                    f(x, x, r)
                except (IndexError, ValueError) as e:
                    ex = type(e)
                if name in ("add", "copy"):
                    pass
                elif name == "iter":
                    model.append(made[0])
                else:
                    try:
                        f(model, x, r)
                    except (IndexError, ValueError) as e:
                        em = type(e)
                if ex != em:
                    return "%s: %s, a list: %s" % (name, ex, em)
            want = [id(v) for v in model]
            made.clear()
            gc.collect()
            if [id(v) for v in x] != want:
                return "after %s and a collection the contents differ from a list's" % name
            if other[0] is not x:
                return "an object held from outside changed"
            model = None
            gc.collect()
            if [id(v) for v in x] != want or "f" in released():
                return "after %s a collection changed the contents of a container in use" % name
            S.visit(kind, len(want), tuple(ops[:ops.index(o) + 1]))
    mk = f = model = r = None
    x = other = None
    first = None
    gc.collect()
    n = alive()
    if n:
        return "%d containers or iterators of the cycle are not reclaimed after %s" % (n, [HIST[o][0] for o in ops])
    if len(released()) != len(ENV["leaves"]):
        return "elements released: %r of %r" % (released(), sorted(v[0] for v in ENV["leaves"]))


# ---- a collection inside an operation

class E:
    """Every comparison and its end collect."""
    __slots__ = ("key", "on", "__weakref__")

    def __init__(self, key):
        self.key = key

    def __eq__(self, other):
        collect()
        return type(other) is E and self.key == other.key

    def __lt__(self, other):
        collect()
        return self.key < (other.key if type(other) is E else 5)

    def __gt__(self, other):
        collect()
        return self.key > (other.key if type(other) is E else 5)

    __hash__ = None

    def __repr__(self):
        collect()
        return "E%d" % self.key

    def __del__(self):
        ENV["log"].append(self.key)
        collect()


def collect():
    if ENV.get("collect"):
        gc.collect()


class Ix:
    def __init__(self, v):
        self.v = v

    def __index__(self):
        collect()
        return self.v


def stream(keys):
    for k in keys:
        collect()
        yield E(k)
        collect()


class Seq:
    def __init__(self, keys):
        self.keys = keys

    def __len__(self):
        collect()
        return len(self.keys)

    def __getitem__(self, i):
        collect()
        return E(self.keys[i])


def key(v):
    collect()
    return getattr(v, "key", 7)


def bad(v):
    collect()
    raise KeyError


def setall(x, i, v):
    x[i] = v


MID = (
    lambda x: x.append(E(0)), lambda x: x.insert(Ix(0), E(1)), lambda x: x.insert(Ix(-1), E(1)), lambda x: x.extend(stream([1, 0])), lambda x: x.extend(Seq([1, 0, 1])),
    lambda x: x.extend([E(1), E(0)]), lambda x: x.extend(x), lambda x: x.pop() and None, lambda x: x.pop(Ix(0)) and None, lambda x: x.remove(E(1)), lambda x: x.remove(E(9)),
    lambda x: x.index(E(1)), lambda x: x.index(E(1), Ix(1)), lambda x: x.count(E(1)), lambda x: E(1) in x, lambda x: x.clear(), lambda x: x.reverse(),
    lambda x: x.sort(key=key), lambda x: x.sort(key=key, reverse=True), lambda x: x.sort(), lambda x: x.sort(key=bad), lambda x: x.copy(), lambda x: x.to_list(), lambda x: list(x),
    lambda x: list(reversed(x)), lambda x: x[Ix(0)] and None, lambda x: x[Ix(0):Ix(2)], lambda x: x[::-1], lambda x: setall(x, Ix(0), E(1)), lambda x: setall(x, slice(Ix(0), Ix(1)), [E(1), E(0)]),
    lambda x: setall(x, slice(0, 2), stream([1])), lambda x: setall(x, slice(1, 1), x), lambda x: x.__delitem__(Ix(0)), lambda x: x.__delitem__(slice(Ix(0), None, 2)), lambda x: x.__delitem__(slice(None)),
    lambda x: x + [E(1)], lambda x: x + x, lambda x: x * Ix(2), lambda x: Ix(2) * x, lambda x: x.__iadd__(stream([1])) and None, lambda x: x.__imul__(2) and None, lambda x: x.__imul__(0) and None,
    lambda x: x == x.copy(), lambda x: x == [E(1), E(0)], lambda x: x < [E(1), E(0)], lambda x: x != x.copy(), lambda x: repr(x), lambda x: x.__init__(stream([1, 0])), lambda x: x.__init__(x.copy()),
    lambda x: type(x)(stream([0, 1, 0])), lambda x: type(x)(Seq([0, 1])), lambda x: type(x)(x), lambda x: type(x)([E(0), E(1)]), lambda x: type(x)({1: 2}), lambda x: [E(0)] + x, lambda x: next(iter(x)) and None,
    lambda x: type(x).__class_getitem__(int) and None, lambda x: x.resize(1) if hasattr(x, "resize") else None,
)


def tokens(v, x, depth=0):
    """A value in terms of keys."""
    if v is x:
        return "x"
    if type(v) is E:
        return v.key
    if type(v) in ENV["cont"] or type(v) in (list, tuple):
        if depth > 2:
            return "..."
        return [type(v).__name__] + [tokens(i, x, depth + 1) for i in v]
    return v if type(v) in (int, str, bool, type(None)) else type(v).__name__


def once(kind, word, cyc, op, on, lib):
    log = ENV["log"]
    log.clear()
    ENV["collect"] = False
    x = ENV[kind]([E(k) for k in word])
    if cyc == 1:
        x.append(x)
    elif cyc == 2:
        x.append([x])
    ENV["collect"] = on
    if on:
        lib.gcp_arm(1)
    try:
        r = ("v", MID[op](x))
    except Exception as e:
        r = ("e", type(e).__name__)
    lib.gcp_arm(0)
    ENV["collect"] = False
    out = (r[0], tokens(r[1], x), tokens(x, None))
    r = None
    x = None
    gc.collect()
    return out, sorted(log), alive()


def midop(kind, word, cyc, op):
    if "lib" not in ENV:
        import importlib
        ENV["lib"] = ctypes.CDLL(importlib.import_module("pyfastutil.__pyfastutil").__file__)
        ENV["lib"].gcp_points.restype = ctypes.c_long
    lib = ENV["lib"]
    S.visit(kind, word, cyc, op)
    S.transitions += 2
    p = lib.gcp_points()
    a = once(kind, word, cyc, op, False, lib)
    b = once(kind, word, cyc, op, True, lib)
    if lib.gcp_points() != p:
        S.outcome("with collections at allocations")
    if a[0] != b[0]:
        return "with collections: %r, without: %r" % (b[0], a[0])
    if a[1] != b[1]:
        return "elements released with collections: %r, without: %r" % (b[1], a[1])
    if a[2] or b[2]:
        return "not reclaimed: %d objects (without collections %d)" % (b[2], a[2])
