"""Shared by the checks of the containers: types, ways of building a content, operations, comparison."""
import itertools
import operator
import os

from mc.driver import S  # noqa: F401

INT_TYPES = ("IntArrayList", "BigIntArrayList", "IntLinkedList")
OBJ_TYPES = ("ObjectArrayList", "ObjectLinkedList")
ALL_TYPES = INT_TYPES + OBJ_TYPES
ARRAY_TYPES = ("IntArrayList", "BigIntArrayList", "ObjectArrayList")
RANGE = {"IntArrayList": (-2 ** 31, 2 ** 31 - 1), "IntLinkedList": (-2 ** 31, 2 ** 31 - 1),
         "BigIntArrayList": (-2 ** 63, 2 ** 63 - 1)}

T = {}
if os.environ.get("MC_WORKER"):
    from pyfastutil import ints as _ints, objects as _objects

    for _n in INT_TYPES:
        T[_n] = getattr(_ints, _n)
    for _n in OBJ_TYPES:
        T[_n] = getattr(_objects, _n)

BASE_T = dict(T)
SUB_T = {}


def use_subclasses(on):
    """Makes T hold subclasses that change nothing, or the types themselves."""
    if not on:
        T.update(BASE_T)
        return
    for n in BASE_T:
        if n not in SUB_T:
            SUB_T[n] = type(n, (BASE_T[n],), {})
    T.update(SUB_T)


class Eq:
    """Equal to others of the same key, ordered by key; identity differs."""

    def __init__(self, key, tag):
        self.key = key
        self.tag = tag

    def __eq__(self, other):
        return self.key == other.key if isinstance(other, Eq) else NotImplemented

    def __lt__(self, other):
        return self.key < other.key if isinstance(other, Eq) else NotImplemented

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "Eq(%r,%r)" % (self.key, self.tag)


NAN = float("nan")
# values by token; the object ones hold equal but distinct objects, an object unequal to itself,
# and unrelated types
INT_VALUES = [0, 7, -1, 300, -70000, 7]
OBJ_VALUES = [None, 1, 1.0, Eq(1, "x"), Eq(1, "y"), NAN, "a", True, (1, 2), 10 ** 30]


def values(tname):
    return INT_VALUES if tname in INT_TYPES else OBJ_VALUES


def fresh_int(v):
    """An int object of its own where possible."""
    return int(str(v))


BUILDS = ("ctor", "tuple", "gen", "append", "pre", "hint", "ins0", "shrunk", "front", "slice", "copy", "same",
          "cleared", "extend")


def build(tname, content, way, filler=None):
    t = T[tname]
    if filler is None:
        filler = 5 if tname in INT_TYPES else "filler"
    content = list(content)
    if way == "ctor":
        return t(content)
    if way == "tuple":
        return t(tuple(content))
    if way == "gen":
        return t(v for v in content)
    if way == "append":
        x = t()
        for v in content:
            x.append(v)
        return x
    if way == "pre":
        x = t(10) if tname in ARRAY_TYPES else t()
        for v in content:
            x.append(v)
        return x
    if way == "hint":
        return t(content, 20) if tname in ARRAY_TYPES else t(iter(content))
    if way == "ins0":
        x = t()
        for v in reversed(content):
            x.insert(0, v)
        return x
    if way == "shrunk":
        x = t(content + [filler] * 3)
        for _ in range(3):
            x.pop()
        return x
    if way == "front":
        x = t([filler] * 2 + content)
        del x[0]
        del x[0]
        return x
    if way == "slice":
        x = t([filler] + content + [filler])
        del x[-1:]
        del x[:1]
        return x
    if way == "copy":
        return t(content).copy()
    if way == "same":
        return t(t(content))
    if way == "cleared":
        x = t([filler] * 5)
        x.clear()
        x.extend(content)
        return x
    if way == "extend":
        x = t(content[:1])
        x += content[1:]
        return x
    raise AssertionError(way)


def _resize_list(x, n, pad):
    if n < 0:
        raise ValueError
    if n <= len(x):
        del x[n:]
    else:
        x.extend([pad] * (n - len(x)))


def _setitem(x, i, v):
    x[i] = v


def _delitem(x, i):
    del x[i]


def _iadd(x, o):
    y = x
    y += o
    return y is x


def _imul(x, n):
    y = x
    y *= n
    return y is x


# op name -> function(container or list, values, *args); tokens are looked up in values
OPS = {
    "append": lambda x, V, t: x.append(V[t]),
    "insert": lambda x, V, i, t: x.insert(i, V[t]),
    "extend": lambda x, V, ts: x.extend([V[t] for t in ts]),
    "pop": lambda x, V: x.pop(),
    "popi": lambda x, V, i: x.pop(i),
    "remove": lambda x, V, t: x.remove(V[t]),
    "clear": lambda x, V: x.clear(),
    "reverse": lambda x, V: x.reverse(),
    "get": lambda x, V, i: x[i],
    "set": lambda x, V, i, t: _setitem(x, i, V[t]),
    "del": lambda x, V, i: _delitem(x, i),
    "index": lambda x, V, t: x.index(V[t]),
    "index2": lambda x, V, t, a: x.index(V[t], a),
    "index3": lambda x, V, t, a, b: x.index(V[t], a, b),
    "count": lambda x, V, t: x.count(V[t]),
    "in": lambda x, V, t: V[t] in x,
    "len": lambda x, V: len(x),
    "bool": lambda x, V: bool(x),
    "getsl": lambda x, V, a, b, c: x[a:b:c],
    "setsl": lambda x, V, a, b, ts: _setitem(x, slice(a, b), [V[t] for t in ts]),
    "delsl": lambda x, V, a, b, c: _delitem(x, slice(a, b, c)),
    "iadd": lambda x, V, ts: _iadd(x, [V[t] for t in ts]),
    "imul": lambda x, V, n: _imul(x, n),
    "add": lambda x, V, ts: x + [V[t] for t in ts],
    "mul": lambda x, V, n: x * n,
    "rmul": lambda x, V, n: n * x,
    "copy": lambda x, V: x.copy(),
    "selfext": lambda x, V: x.extend(x),
    "selfiadd": lambda x, V: _iadd(x, x),
    "selfadd": lambda x, V: x + x,
    "sort": lambda x, V: x.sort(),
    "sortr": lambda x, V: x.sort(reverse=True),
    "repr": lambda x, V: repr(x),
    "list": lambda x, V: list(x),
    "rlist": lambda x, V: list(reversed(x)),
}


def apply_ref(ref, V, op, pad):
    if op[0] == "resize":
        return _resize_list(ref, op[1], pad)
    return OPS[op[0]](ref, V, *op[1:])


def apply_impl(x, V, op):
    if op[0] == "resize":
        return x.resize(op[1])
    return OPS[op[0]](x, V, *op[1:])


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def same_seq(got, want):
    if len(got) != len(want):
        return False
    if len(got) > 16:
        if all(map(operator.is_, got, want)):
            return True
        if set(map(type, got)) == set(map(type, want)) == {int}:
            return list(got) == list(want)
    for a, b in zip(got, want):
        if a is not b and not (type(a) is type(b) is int and a == b):
            return False
    return True


def check_contents(x, want):
    """Every way of looking at the whole agrees with the list `want`."""
    got = x.to_list()
    if type(got) is not list or not same_seq(got, want):
        return "to_list() is %.300r, not %.300r" % (got, want)
    if len(x) != len(want):
        return "len is %d, not %d" % (len(x), len(want))
    return None


_NOTABLE = {}


def notable(n):
    """Positions around the ends, the middle and the powers of two."""
    if n not in _NOTABLE:
        s = set(range(8)) | set(range(n - 8, n)) | set(range(n // 2 - 4, n // 2 + 4))
        k = 16
        while k < n:
            s |= {k - 1, k, k + 1, n - k}
            k *= 2
        _NOTABLE[n] = sorted(i for i in s if 0 <= i < n)
    return _NOTABLE[n]


def state_key(ref):
    return tuple([v.key if type(v) is Eq else v for v in ref])


def check_deep(x, want):
    msg = check_contents(x, want)
    if msg:
        return msg
    got = [v for v in x]
    if not same_seq(got, want):
        return "iteration gives %.300r, not %.300r" % (got, want)
    got = list(reversed(x))
    if not same_seq(got, want[::-1]):
        return "reversed gives %.300r, not %.300r" % (got, want[::-1])
    n = len(want)
    idx = range(n) if n <= 64 else notable(n)
    want = [want[i] for i in idx]
    got = [x[i] for i in idx]
    if not same_seq(got, want):
        return "items are %.300r, not %.300r" % (got, want)
    got = [x[i - n] for i in idx]
    if not same_seq(got, want):
        return "items by negative index are %.300r, not %.300r" % (got, want)
    return None


def result(tname, f, *args):
    try:
        return ("v", f(*args))
    except BaseException as e:
        return ("e", e)


EXC_OK = {}


def same_result(tname, got, want, op):
    """Compares the result of the implementation with that of the list."""
    if got[0] != want[0]:
        return "%r: %.300r, list: %.300r" % (op, got, want)
    if want[0] == "e":
        if isinstance(got[1], type(want[1])) and not isinstance(got[1], SystemError):
            return None
        return "%r raises %r, list raises %r" % (op, got[1], want[1])
    a, b = got[1], want[1]
    if type(b) is list:
        if isinstance(a, BASE_T[tname]):
            a = a.to_list()
        elif type(a) is not list:
            return "%r returns %.300r, list: %.300r" % (op, a, b)
        if not same_seq(a, b):
            return "%r returns %.300r, list: %.300r" % (op, a, b)
        return None
    if not same(a, b):
        return "%r returns %.300r, list: %.300r" % (op, a, b)
    return None


def words(tokens, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(tokens, repeat=n)


def run_history(tname, start, way, ops, deep=True):
    """Runs ops on a container and on a list; every result and the contents after every operation must agree."""
    V = values(tname)
    pad = 0 if tname in INT_TYPES else None
    ref = [V[t] for t in start]
    x = build(tname, ref, way)
    S.transitions += 1 + len(ops)
    msg = check_contents(x, ref)
    if msg:
        return "after building by %s: %s" % (way, msg)
    for k, op in enumerate(ops):
        try:
            want = ("v", apply_ref(ref, V, op, pad))
        except Exception as e:
            want = ("e", e)
        try:
            got = ("v", apply_impl(x, V, op))
        except Exception as e:
            got = ("e", e)
        msg = same_result(tname, got, want, op)
        if msg is None:
            msg = check_contents(x, ref)
        if msg:
            return "%s step %d of %r from %r (%s): %s" % (tname, k + 1, ops, start, way, msg)
        S.states.add(hash((tname, tuple([t if type(t) is not Eq else (t.key, t.tag) for t in ref]))))
    if deep:
        msg = check_deep(x, ref)
        if msg:
            return "%s after %r from %r (%s): %s" % (tname, ops, start, way, msg)
    return None


def shard_filter(it, shard, n):
    """Every n-th case, so that shards are of equal weight."""
    return itertools.islice(it, shard, None, n)


class Idx:
    """An int-like object."""

    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v

    def __repr__(self):
        return "Idx(%d)" % self.v


def distinct(tname, n):
    """n values that can be told apart."""
    if tname in INT_TYPES:
        return [((i * 40503) % 60000) - 30000 for i in range(n)]
    return [Eq(i, "d") for i in range(n)]


def both(tname, x, ref, f, what, deep=False, allow=None):
    """Runs f on the container and on the list: same result, same contents.

    allow: exception classes with which the container may refuse what the list does, changing nothing.
    """
    before = list(ref)
    try:
        want = ("v", f(ref))
    except Exception as e:
        want = ("e", e)
    try:
        got = ("v", f(x))
    except Exception as e:
        got = ("e", e)
    S.transitions += 1
    if allow and got[0] == "e" and isinstance(got[1], allow) and type(got[1]) is not SystemError:
        ref[:] = before
        msg = check_contents(x, ref)
        return msg and "%s: refused by %r, but %s" % (what, got[1], msg)
    msg = same_result(tname, got, want, what)
    if msg is None:
        msg = check_deep(x, ref) if deep else check_contents(x, ref)
        if msg:
            msg = "after %s: %s" % (what, msg)
    if msg:
        return "%s %.300r: %s" % (tname, before, msg)
    return None


# ints that a narrower type would take for small ones
WRAPS = tuple(v for b in (7, 8, 15, 16, 31, 32, 33, 48, 62) for s in (1, -1) for d in (-3, -2, -1, 0, 1, 2) for v in (s * 2 ** b + d,))


def context_manager(cls):
    """Entering gives the object itself, leaving lets exceptions through, and neither changes a count."""
    import sys

    class Stop(Exception):
        pass

    o = cls()
    base = sys.getrefcount(o), sys.getrefcount(None), sys.getrefcount(cls)
    for i in range(300):
        with o as got:
            if got is not o:
                return "entering the context gives another object"
        del got
        if o.__enter__() is not o:
            return "entering the context gives another object"
        if o.__exit__(None, None, None) is not None:
            return "leaving the context gives something"
        try:
            with o:
                raise Stop
        except Stop:
            pass
        else:
            return "leaving the context hides an exception"
        if sys.getrefcount(o) != base[0]:
            return "entering and leaving the context changes the object's reference count by %d" % (sys.getrefcount(o) - base[0])
        S.transitions += 4
    now = sys.getrefcount(None), sys.getrefcount(cls)
    if now[1] != base[2] or (base[1] < 2 ** 31 and abs(now[0] - base[1]) > 100):
        return "entering and leaving the context changes the reference counts of None or the class"
    n = sys.getrefcount(cls)
    for i in range(300):
        with cls() as got:
            if type(got) is not cls or sys.getrefcount(got) not in (3, 4):
                return "an object made for a context is %r with %d references" % (type(got), sys.getrefcount(got))
        del got
    if sys.getrefcount(cls) - n not in (0, 300, -300) and abs(sys.getrefcount(cls) - n) > 3:
        return "objects made for a context change the class's reference count by %d" % (sys.getrefcount(cls) - n)
    sub = type("Sub", (cls,), {})
    with sub() as got:
        if type(got) is not sub:
            return "entering the context of a subclass gives another object"
    got.mark = 5
    with got as again:
        if again is not got or again.mark != 5:
            return "entering the context of a subclass gives another object"
    return None
