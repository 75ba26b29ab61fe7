"""C02: indexing and slicing accept and mean what list indexing means."""
import ctypes

from mc.common import *

HUGE = (2 ** 63 - 1, -2 ** 63, 2 ** 64, -2 ** 70, 2 ** 31, -2 ** 31, 2 ** 32)
RHS = ("list", "tuple", "gen", "same", "iter", "range", "self", "dict", "revself", "other")
NSH = 16


def limits(tier):
    return {"get": 9, "del": 6, "set": 5, "int": 8, "hist": 4} if tier == "quick" else \
        {"get": 13, "del": 9, "set": 7, "int": 12, "hist": 5}


def BOUNDS(tier):
    return "lengths up to %r; every start, stop in -n-2..n+2, None and beyond Py_ssize_t; every step to +-(n+1); every " \
           "replacement length to n+2 of 10 kinds of iterable; all histories of slice operations to the depth; long lists " \
           "(to 70001) at notable bounds; the %d functions of the abstract sequence interface of C at every place in " \
           "-2n-3..2n+3; %d bounds, indices and steps that narrower types take for small ones" % (limits(tier), len(CAPI), len(WRAPS))


def spaces(tier):
    out = []
    for v, sp in (("plain", ("get", "del", "set", "int", "hist", "large")), ("asan", ("del", "set", "hist", "large"))):
        for s in sp:
            out.append({"name": s + "/" + v, "variant": v, "shards": NSH if s != "large" or v == "plain" else 8})
    out.append({"name": "long/plain", "variant": "plain", "shards": NSH})
    out.append({"name": "wide/plain", "variant": "plain", "shards": NSH})
    out.append({"name": "capi/plain", "variant": "plain", "shards": NSH})
    out.append({"name": "capi/asan", "variant": "asan", "shards": NSH})
    for s in ("get", "del", "set", "int"):
        out.append({"name": s + "/plain+sub", "variant": "plain", "shards": NSH})
    out.append({"name": "hist/asan+sub", "variant": "asan", "shards": NSH})
    return out


def bounds(n):
    return [None] + list(range(-n - 2, n + 3))


def gen(space, tier):
    kind, variant = space.split("/")
    lim = limits(tier)
    cut = 0 if variant == "plain" else 2 if kind == "set" else 1
    for tname in ALL_TYPES:
        if kind == "long":
            for n in LONG if tier == "quick" else LONG + (16385, 32769, 200001):
                for a in (None, 1, n // 2 + 1, 65536, n - 3, -65537, -4):
                    yield (kind, tname, n, a)
        elif kind == "wide":
            for n in (0, 1, 2, 4):
                for a in WRAPS + (None, 0, 1, -1, 2):
                    yield (kind, tname, n, a)
        elif kind in ("get", "del", "set"):
            for n in range(lim[kind] + 1 - cut):
                for a in bounds(n):
                    yield (kind, tname, n, a)
            for n in (0, 1, 3, 40):
                for a in HUGE:
                    yield (kind, tname, n, a)
        elif kind == "int":
            for n in list(range(lim[kind] + 1)) + [40]:
                for way in BUILDS:
                    yield (kind, tname, n, way)
        elif kind == "capi":
            for n in list(range(lim["int"] - 1)) + [33]:
                for f in sorted(CAPI):
                    yield (kind, tname, n, f)
        elif kind == "hist":
            for h in itertools.product(hist_ops(), repeat=lim[kind] - 1 - cut):
                yield (kind, tname, h)
        elif kind == "large":
            for n in large_sizes(tier):
                yield (kind, tname, n)


def cfun(name, res, *args):
    f = getattr(ctypes.pythonapi, name)
    f.restype, f.argtypes = res, args
    return f


_O, _I, _N = ctypes.py_object, ctypes.c_int, ctypes.c_ssize_t
# the abstract sequence interface of C: what it is given after the sequence (i a place, v a value, s some values, c a count)
CAPI = {n: (args, cfun(n, res, _O, *[{"i": _N, "c": _N}.get(a, _O) for a in args])) for n, args, res in (
    ("PySequence_GetItem", "i", _O), ("PySequence_SetItem", "iv", _I), ("PySequence_DelItem", "i", _I),
    ("PySequence_GetSlice", "ii", _O), ("PySequence_SetSlice", "iis", _I), ("PySequence_DelSlice", "ii", _I),
    ("PySequence_Repeat", "c", _O), ("PySequence_InPlaceRepeat", "c", _O), ("PySequence_Concat", "s", _O),
    ("PySequence_InPlaceConcat", "s", _O), ("PySequence_Contains", "v", _I), ("PySequence_Count", "v", _N),
    ("PySequence_Index", "v", _N), ("PySequence_Size", "", _N), ("PySequence_List", "", _O), ("PySequence_Tuple", "", _O),
    ("PySequence_Check", "", _I), ("PyObject_LengthHint", "c", _N), ("PyMapping_Size", "", _N), ("PyObject_IsTrue", "", _I),
    ("PyObject_GetItem", "o", _O), ("PyObject_SetItem", "ov", _I), ("PyObject_DelItem", "o", _I))}


def capi(tname, n, name):
    """What an extension that uses the abstract interface of C sees of the container and of a list."""
    sig, f = CAPI[name]
    vals = distinct(tname, n)
    places = list(range(-2 * n - 3, 2 * n + 4)) if n < 10 else [0, 1, n - 1, n, -1, -n, -n - 1, -2 * n, -2 * n - 1, 2 * n]
    edge = [2 ** 63 - 1, -2 ** 63, 2 ** 32, -2 ** 32 + 1]
    few = {"i": places + edge, "o": places + edge + [True, Idx(-1), Idx(-n - 1)], "v": [fin(tname)] + vals[:1] + vals[-1:],
           "s": [0, 1, 2, n + 1], "c": [0, 1, 2, 3, -1, -2 ** 63]}
    for args in itertools.product(*[few[a] for a in sig]):
        def run(y):
            a = [rhs(tname, "same" if type(y) is not list else "list", v, y) if k == "s" else v for k, v in zip(sig, args)]
            r = f(y, *a)
            return "self" if r is y else r
        ref = list(vals)
        x = T[tname](ref)
        msg = both(tname, x, ref, run, "%s%r" % (name, args), deep=True)
        if msg:
            return msg
        S.visit(tname, n, name, repr(args)[:80])
    return None


LONG = (1025, 4099, 70001)


def long_slices(tname, n, a):
    """Slices of a long container at notable places, and replacements by about as many elements."""
    vals = [i * 3 - 100000 for i in range(n)] if tname in INT_TYPES else [Eq(i, "d") for i in range(n)]
    few = n > 10000
    for b in (None, n - 1, 65537) if few else (None, n - 1, 2, -2):
        for c in (None, -1, 2, -3, 65536, -65537) if few else (None, -1, 2, -3, n // 2, 257):
            ref = list(vals)
            x = T[tname](ref)
            what = "%s of %d: [%s:%s:%s]" % (tname, n, a, b, c)
            S.transitions += 2
            S.visit(tname, n, a, b, c)
            # a linked list is walked anew for each element
            if not (few and "Linked" in tname and len(ref[a:b:c]) > 100) and not same_seq(x[a:b:c], ref[a:b:c]):
                return what + " is wrong"
            del x[a:b:c], ref[a:b:c]
            if not same_seq(x.to_list(), ref) or len(x) != len(ref):
                return "del " + what + " is wrong"
            if not same_seq(list(reversed(x)), ref[::-1]):
                return "del " + what + " is wrong backwards"
        span = len(range(*slice(a, b).indices(n)))
        for m in sorted({0, span - 1, span, span + 1, 66000} if few else {0, 1, span - 1, span, span + 1, 300, 66000}):
            if m < 0:
                continue
            for k in ("list", "gen", "same")[m % 3:][:1 if few else 3]:
                new = [-i for i in range(m)] if tname in INT_TYPES else [vals[-i % n] for i in range(m)]
                ref = list(vals)
                x = T[tname](ref)
                x[a:b] = new if k == "list" else (v for v in new) if k == "gen" else T[tname](new)
                ref[a:b] = new
                S.transitions += 1
                if not same_seq(x.to_list(), ref) or len(x) != len(ref):
                    return "%s of %d: [%s:%s] = %s of %d is wrong" % (tname, n, a, b, k, m)
                if not same_seq(list(reversed(x)), ref[::-1]):
                    return "%s of %d: [%s:%s] = %s of %d is wrong backwards" % (tname, n, a, b, k, m)
    return None


def large_sizes(tier):
    s = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257]
    return s + [255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 10001] if tier == "thorough" else s


def hist_ops():
    ops = []
    for sl in ((None, None, None), (0, 1, None), (1, 3, None), (-2, None, None), (None, None, 2), (None, None, -1), (2, 1, None)):
        ops.append(("del", sl))
        if sl[2] is None:
            for m in (0, 1, 3):
                ops.append(("set", sl, m))
            ops.append(("self", sl))
    ops += [("append",), ("pop0",), ("get", (None, None, -2))]
    return ops


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, NSH if space != "large/asan" else 8)


def steps(n):
    return [None] + [s for s in range(-n - 1, n + 2)] + [2 ** 70, -2 ** 70, 2 ** 63 - 1, -2 ** 63]


def rhs(tname, kind, m, y):
    """A replacement of m values of the kind. y is the container or list being changed."""
    if tname in INT_TYPES:
        vals = [100 + i for i in range(m)]
    else:
        vals = list(NEW[:m])
    if kind == "list":
        return vals
    if kind == "tuple":
        return tuple(vals)
    if kind == "gen":
        return (v for v in vals)
    if kind == "same":
        return T[tname](vals)
    if kind == "iter":
        return iter(vals)
    if kind == "range":
        return range(m) if tname in INT_TYPES else vals
    if kind == "self":
        return y
    if kind == "dict":
        return {v: 1 for v in vals}
    if kind == "revself":
        return reversed(y)
    if kind == "other":
        o = "IntLinkedList" if tname != "IntLinkedList" else "BigIntArrayList"
        if tname in OBJ_TYPES:
            o = [k for k in OBJ_TYPES if k != tname][0]
        return T[o](vals)


NEW = [Eq(1000 + i, "n") for i in range(5000)]


def execute(space, case):
    kind, tname = case[0], case[1]
    if kind == "get":
        _, _, n, a = case
        base = distinct(tname, n)
        x = T[tname](base)
        for b in bounds(n) + [Idx(1), True] + (list(HUGE) if n in (0, 1, 3) else []):
            for c in steps(n):
                msg = both(tname, x, base, lambda y: y[a:b:c], "[%s:%s:%s]" % (a, b, c))
                if msg:
                    return msg
        S.visit(tname, n)
        msg = both(tname, x, base, lambda y: y[a:], "[%s:]" % a, deep=True)
        return msg
    if kind == "del":
        _, _, n, a = case
        for b in bounds(n) + list(HUGE[:2]):
            for c in steps(n):
                ref = distinct(tname, n)
                x = T[tname](ref)
                msg = both(tname, x, ref, lambda y: y.__delitem__(slice(a, b, c)), "del [%s:%s:%s]" % (a, b, c), deep=True)
                if not msg:
                    msg = both(tname, x, ref, lambda y: y.append(fin(tname)), "append after del [%s:%s:%s]" % (a, b, c), deep=True)
                if msg:
                    return msg
                S.visit(tname, n, state_key(ref))
        return None
    if kind == "set":
        _, _, n, a = case
        for b in bounds(n) + list(HUGE[:2]):
            asan = space.endswith("asan")
            for c in (None, 1) if not asan else (None,):
                for k in RHS if not asan else ("list", "gen", "self", "same"):
                    for m in (range(n + 3) if k not in ("self", "revself") else (0,)):
                        ref = distinct(tname, n)
                        x = T[tname](ref)
                        what = "[%s:%s:%s] = %s of %d" % (a, b, c, k, m)
                        msg = both(tname, x, ref, lambda y: y.__setitem__(slice(a, b, c), rhs(tname, k, m, y)), what, deep=True)
                        if msg:
                            return msg
                        S.visit(tname, n, state_key(ref))
            for c in range(-n - 1, n + 2) if not asan else (2, -1):
                if c in (0, 1):
                    continue
                for k in ("list", "gen", "self", "same"):
                    # the number of elements list wants, and others
                    want = len(range(*slice(a, b, c).indices(n)))
                    for m in {0, want, want + 1, max(0, want - 1)} if k != "self" else (0,):
                        ref = distinct(tname, n)
                        x = T[tname](ref)
                        what = "[%s:%s:%s] = %s of %d" % (a, b, c, k, m)
                        msg = both(tname, x, ref, lambda y: y.__setitem__(slice(a, b, c), rhs(tname, k, m, y)), what,
                                   deep=True, allow=NotImplementedError)
                        if msg:
                            return msg
        return None
    if kind == "wide":
        _, _, n, a = case
        steps_ = (None, -1, 2) if a not in WRAPS[::6] else (None, -1, 2) + WRAPS
        for b in WRAPS + (None, 0, 1, -1, 2, n):
            for c in steps_ if b not in WRAPS else (None, -1, 2):
                ref = distinct(tname, n)
                x = T[tname](ref)
                msg = both(tname, x, ref, lambda y: y[a:b:c], "[%s:%s:%s]" % (a, b, c))
                if not msg and c in (None, 1):
                    msg = both(tname, x, ref, lambda y: y.__setitem__(slice(a, b), rhs(tname, "list", 2, y)), "[%s:%s] = 2" % (a, b))
                if not msg:
                    msg = both(tname, x, ref, lambda y: y.__delitem__(slice(a, b, c)), "del [%s:%s:%s]" % (a, b, c))
                if not msg and not same_seq(x.to_list(), ref):
                    msg = "%s of %d: after [%s:%s:%s] changes: %r, list %r" % (tname, n, a, b, c, x, ref)
                if msg:
                    return msg
        S.visit(tname, n, a)
        return None
    if kind == "int":
        _, _, n, way = case
        v = fin(tname)
        for i in list(range(-n - 3, n + 4)) + list(HUGE) + [True, False, Idx(0), Idx(-1), Idx(n), Idx(-n)] + (list(WRAPS) if way == "ctor" else []):
            for name, f in (("get", lambda y: y[i]), ("set", lambda y: y.__setitem__(i, v)), ("del", lambda y: y.__delitem__(i)),
                            ("pop", lambda y: y.pop(i)), ("insert", lambda y: y.insert(i, v))):
                if name == "insert" and (isinstance(i, int) and not -2 ** 63 <= i < 2 ** 63):
                    continue
                ref = distinct(tname, n)
                x = build(tname, ref, way)
                # a list says OverflowError when pop's index does not fit a word; IndexError is as good
                msg = both(tname, x, ref, f, "%s [%r]" % (name, i), deep=True,
                           allow=IndexError if name == "pop" and not -2 ** 63 <= int(getattr(i, "v", i)) < 2 ** 63 else None)
                if msg:
                    return msg + " (built by %s)" % way
            S.visit(tname, n, repr(i))
        return None
    if kind == "capi":
        return capi(*case[1:])
    if kind == "hist":
        _, _, h = case
        for op in hist_ops():
            ref = distinct(tname, 4)
            x = T[tname](ref)
            for o in h + (op,):
                msg = both(tname, x, ref, lambda y: apply_h(tname, y, o), repr(o), allow=None)
                if msg:
                    return "%s in %r" % (msg, h + (op,))
                S.visit(tname, state_key(ref))
        return None
    if kind == "long":
        return long_slices(*case[1:])
    if kind == "large":
        _, _, n = case
        pts = [None, 0, 1, 7, n // 2, n - 1, n + 1, -n]
        base = distinct(tname, n)
        for a in pts:
            for b in pts:
                for c in (None, 2, -1, -3, n):
                    x = T[tname](base)
                    ref = list(base)
                    msg = both(tname, x, ref, lambda y: y[a:b:c], "[%s:%s:%s]" % (a, b, c))
                    if not msg:
                        msg = both(tname, x, ref, lambda y: y.__delitem__(slice(a, b, c)), "del [%s:%s:%s]" % (a, b, c), deep=True)
                    if msg:
                        return msg[:1500]
                for m in (0, 1, 16, n, 2 * n + 1):
                    for k in ("list", "gen", "self", "same") if m == n else ("list",):
                        x = T[tname](base)
                        ref = list(base)
                        msg = both(tname, x, ref, lambda y: y.__setitem__(slice(a, b), rhs(tname, k, m, y)),
                                   "[%s:%s] = %s of %d" % (a, b, k, m), deep=True)
                        if msg:
                            return msg[:1500]
                S.visit(tname, n, a, b)
        return None


def fin(tname):
    return 77 if tname in INT_TYPES else NEW[-1]


def apply_h(tname, y, o):
    if o[0] == "del":
        del y[slice(*o[1])]
    elif o[0] == "set":
        y[slice(*o[1])] = rhs(tname, "list", o[2], y)
    elif o[0] == "self":
        y[slice(*o[1])] = y
    elif o[0] == "append":
        y.append(fin(tname))
    elif o[0] == "pop0":
        return y.pop(0)
    elif o[0] == "get":
        return y[slice(*o[1])]
