"""C14: running out of memory never corrupts or crashes a container."""
import ctypes
import gc
import operator
import sys

from mc.common import *

NSH = 32
LIB = None


def sizes(tier):
    return (0, 1, 2, 3, 4, 8, 16, 40) if tier == "quick" else tuple(range(0, 20)) + (31, 32, 33, 40, 64, 100, 129)


def BOUNDS(tier):
    return "every operation (%d forms) on all five containers x sizes %r x every k: the k-th allocation made while it runs fails, alone or with all " \
           "later ones; the module's and the interpreter's allocations alike; each followed by a comparison of the contents and reference counts, and the " \
           "operation again with memory available; sizes 300 and 5001 with selected k" % (len(FORMS), sizes(tier))


def spaces(tier):
    return [{"name": "one", "variant": "fault", "shards": NSH}, {"name": "all", "variant": "fault", "shards": NSH}, {"name": "leak", "variant": "fault", "shards": NSH}, {"name": "one+sub", "variant": "fault", "shards": NSH},
            {"name": "long", "variant": "fault", "shards": NSH}]


def mkel(t, i):
    """An element of its own identity; never a cached or freelisted object."""
    if t in INT_TYPES:
        return 100000 + i * 7 % 13
    return (i * 7 % 13, i)


def els(t, n, off=0):
    return [mkel(t, i + off) for i in range(n)]


NEG = operator.neg


def keyof(t):
    return operator.neg if t in INT_TYPES else operator.itemgetter(1)


def gen_of(l):
    return iter(tuple(l))


def resize(l, n, pad):
    l[n:] = [pad] * (n - len(l))


def pad(t):
    return 0 if t in INT_TYPES else None


# name -> (kind, how to call it (function, arguments made from container, type, n, new elements), what a list does (list, type, n, new))
# kinds: same: unchanged if it fails; perm: a permutation; ext: a prefix of what was to be added may have been added; any: any valid sequence
FORMS = {
    "append": ("same", lambda x, t, n, e: (T[t].append, (x, e[0])), lambda l, t, n, e: l.append(e[0])),
    "insert0": ("same", lambda x, t, n, e: (T[t].insert, (x, 0, e[0])), lambda l, t, n, e: l.insert(0, e[0])),
    "insertmid": ("same", lambda x, t, n, e: (T[t].insert, (x, n // 2, e[0])), lambda l, t, n, e: l.insert(n // 2, e[0])),
    "insertend": ("same", lambda x, t, n, e: (T[t].insert, (x, n, e[0])), lambda l, t, n, e: l.insert(n, e[0])),
    "insertbig": ("same", lambda x, t, n, e: (T[t].insert, (x, 10 ** 6, e[0])), lambda l, t, n, e: l.insert(10 ** 6, e[0])),
    "extlist": ("ext", lambda x, t, n, e: (T[t].extend, (x, e)), lambda l, t, n, e: l.extend(e)),
    "exttuple": ("ext", lambda x, t, n, e: (T[t].extend, (x, tuple(e))), lambda l, t, n, e: l.extend(e)),
    "extiter": ("ext", lambda x, t, n, e: (T[t].extend, (x, gen_of(e))), lambda l, t, n, e: l.extend(e)),
    "extgen": ("ext", lambda x, t, n, e: (T[t].extend, (x, (v for v in e))), lambda l, t, n, e: l.extend(e)),
    "extself": ("ext", lambda x, t, n, e: (T[t].extend, (x, x)), lambda l, t, n, e: l.extend(l)),
    "extsame": ("ext", lambda x, t, n, e: (T[t].extend, (x, T[t](e))), lambda l, t, n, e: l.extend(e)),
    "extother": ("ext", lambda x, t, n, e: (T[t].extend, (x, T[OTHER[t]](e))), lambda l, t, n, e: l.extend(e)),
    "iadd": ("ext", lambda x, t, n, e: (operator.iadd, (x, e)), lambda l, t, n, e: l.extend(e)),
    "iaddself": ("ext", lambda x, t, n, e: (operator.iadd, (x, x)), lambda l, t, n, e: l.extend(l)),
    "iaddgen": ("ext", lambda x, t, n, e: (operator.iadd, (x, gen_of(e))), lambda l, t, n, e: l.extend(e)),
    "iaddsame": ("ext", lambda x, t, n, e: (operator.iadd, (x, T[t](e))), lambda l, t, n, e: l.extend(e)),
    "imul2": ("same", lambda x, t, n, e: (operator.imul, (x, 2)), lambda l, t, n, e: l.__imul__(2) and None),
    "imul5": ("same", lambda x, t, n, e: (operator.imul, (x, 5)), lambda l, t, n, e: l.__imul__(5) and None),
    "imul0": ("same", lambda x, t, n, e: (operator.imul, (x, 0)), lambda l, t, n, e: l.clear()),
    "mul3": ("same", lambda x, t, n, e: (operator.mul, (x, 3)), lambda l, t, n, e: l * 3),
    "rmul2": ("same", lambda x, t, n, e: (operator.mul, (2, x)), lambda l, t, n, e: l * 2),
    "add": ("same", lambda x, t, n, e: (operator.add, (x, e)), lambda l, t, n, e: l + e),
    "addself": ("same", lambda x, t, n, e: (operator.add, (x, x)), lambda l, t, n, e: l + l),
    "addsame": ("same", lambda x, t, n, e: (operator.add, (x, T[t](e))), lambda l, t, n, e: l + e),
    "pop": ("same", lambda x, t, n, e: (T[t].pop, (x,)), lambda l, t, n, e: l.pop()),
    "pop0": ("same", lambda x, t, n, e: (T[t].pop, (x, 0)), lambda l, t, n, e: l.pop(0)),
    "popmid": ("same", lambda x, t, n, e: (T[t].pop, (x, n // 2)), lambda l, t, n, e: l.pop(n // 2)),
    "pop-1": ("same", lambda x, t, n, e: (T[t].pop, (x, -1)), lambda l, t, n, e: l.pop(-1)),
    "remove": ("same", lambda x, t, n, e: (T[t].remove, (x, mkel(t, n // 2))), lambda l, t, n, e: l.remove(mkel(t, n // 2))),
    "removeno": ("same", lambda x, t, n, e: (T[t].remove, (x, -5)), lambda l, t, n, e: l.remove(-5)),
    "index": ("same", lambda x, t, n, e: (T[t].index, (x, mkel(t, n - 1))), lambda l, t, n, e: l.index(mkel(t, n - 1))),
    "indexno": ("same", lambda x, t, n, e: (T[t].index, (x, -5)), lambda l, t, n, e: l.index(-5)),
    "indexr": ("same", lambda x, t, n, e: (T[t].index, (x, mkel(t, n - 1), -100, 100000)), lambda l, t, n, e: l.index(mkel(t, n - 1), -100, 100000)),
    "count": ("same", lambda x, t, n, e: (T[t].count, (x, mkel(t, 0))), lambda l, t, n, e: l.count(mkel(t, 0))),
    "in": ("same", lambda x, t, n, e: (operator.contains, (x, mkel(t, n))), lambda l, t, n, e: mkel(t, n) in l),
    "get0": ("same", lambda x, t, n, e: (operator.getitem, (x, 0)), lambda l, t, n, e: l[0]),
    "get-1": ("same", lambda x, t, n, e: (operator.getitem, (x, -1)), lambda l, t, n, e: l[-1]),
    "getmeth": ("same", lambda x, t, n, e: (T[t].__getitem__, (x, n // 2)), lambda l, t, n, e: l[n // 2]),
    "getsl": ("same", lambda x, t, n, e: (operator.getitem, (x, slice(1, 5))), lambda l, t, n, e: l[1:5]),
    "getall": ("same", lambda x, t, n, e: (operator.getitem, (x, slice(None))), lambda l, t, n, e: l[:]),
    "getrev": ("same", lambda x, t, n, e: (operator.getitem, (x, slice(None, None, -2))), lambda l, t, n, e: l[::-2]),
    "set0": ("same", lambda x, t, n, e: (operator.setitem, (x, 0, e[0])), lambda l, t, n, e: l.__setitem__(0, e[0])),
    "set-1": ("same", lambda x, t, n, e: (operator.setitem, (x, -1, e[0])), lambda l, t, n, e: l.__setitem__(-1, e[0])),
    "setslgrow": ("same", lambda x, t, n, e: (operator.setitem, (x, slice(1, 2), e)), lambda l, t, n, e: l.__setitem__(slice(1, 2), e)),
    "setsleq": ("same", lambda x, t, n, e: (operator.setitem, (x, slice(0, len(e)), e)), lambda l, t, n, e: l.__setitem__(slice(0, len(e)), e)),
    "setslshrink": ("same", lambda x, t, n, e: (operator.setitem, (x, slice(0, 8), e[:1])), lambda l, t, n, e: l.__setitem__(slice(0, 8), e[:1])),
    "setslgen": ("same", lambda x, t, n, e: (operator.setitem, (x, slice(0, 2), gen_of(e))), lambda l, t, n, e: l.__setitem__(slice(0, 2), e)),
    "setslself": ("same", lambda x, t, n, e: (operator.setitem, (x, slice(1, 3), x)), lambda l, t, n, e: l.__setitem__(slice(1, 3), list(l))),
    "setslsame": ("same", lambda x, t, n, e: (operator.setitem, (x, slice(0, 0), T[t](e))), lambda l, t, n, e: l.__setitem__(slice(0, 0), e)),
    "setslother": ("same", lambda x, t, n, e: (operator.setitem, (x, slice(1, 1), T[OTHER[t]](e))), lambda l, t, n, e: l.__setitem__(slice(1, 1), e)),
    "setslempty": ("same", lambda x, t, n, e: (operator.setitem, (x, slice(0, 3), ())), lambda l, t, n, e: l.__setitem__(slice(0, 3), ())),
    "setsltail": ("same", lambda x, t, n, e: (operator.setitem, (x, slice(n, None), e)), lambda l, t, n, e: l.__setitem__(slice(n, None), e)),
    "setstep": ("step", lambda x, t, n, e: (operator.setitem, (x, slice(None, None, -1), els(t, n, 5))), lambda l, t, n, e: l.__setitem__(slice(None, None, -1), els(t, n, 5))),
    "del0": ("same", lambda x, t, n, e: (operator.delitem, (x, 0)), lambda l, t, n, e: l.__delitem__(0)),
    "del-1": ("same", lambda x, t, n, e: (operator.delitem, (x, -1)), lambda l, t, n, e: l.__delitem__(-1)),
    "delsl": ("same", lambda x, t, n, e: (operator.delitem, (x, slice(1, 4))), lambda l, t, n, e: l.__delitem__(slice(1, 4))),
    "delall": ("same", lambda x, t, n, e: (operator.delitem, (x, slice(None))), lambda l, t, n, e: l.clear()),
    "delstep": ("same", lambda x, t, n, e: (operator.delitem, (x, slice(None, None, 2))), lambda l, t, n, e: l.__delitem__(slice(None, None, 2))),
    "delrev": ("same", lambda x, t, n, e: (operator.delitem, (x, slice(None, None, -3))), lambda l, t, n, e: l.__delitem__(slice(None, None, -3))),
    "clear": ("same", lambda x, t, n, e: (T[t].clear, (x,)), lambda l, t, n, e: l.clear()),
    "reverse": ("same", lambda x, t, n, e: (T[t].reverse, (x,)), lambda l, t, n, e: l.reverse()),
    "sort": ("perm", lambda x, t, n, e: (T[t].sort, (x,)), lambda l, t, n, e: l.sort()),
    "sortr": ("perm", lambda x, t, n, e: (sorter, (x, None, True)), lambda l, t, n, e: l.sort(reverse=True)),
    "sortkey": ("perm", lambda x, t, n, e: (sorter, (x, keyof(t), False)), lambda l, t, n, e: l.sort(key=keyof(t))),
    "sortkeyr": ("perm", lambda x, t, n, e: (sorter, (x, keyof(t), True)), lambda l, t, n, e: l.sort(key=keyof(t), reverse=True)),
    "sortlam": ("perm", lambda x, t, n, e: (sorter, (x, str, False)), lambda l, t, n, e: l.sort(key=str)),
    "copy": ("same", lambda x, t, n, e: (T[t].copy, (x,)), lambda l, t, n, e: l.copy()),
    "tolist": ("same", lambda x, t, n, e: (T[t].to_list, (x,)), lambda l, t, n, e: l.copy()),
    "list": ("same", lambda x, t, n, e: (list, (x,)), lambda l, t, n, e: list(l)),
    "tuple": ("same", lambda x, t, n, e: (tuple, (x,)), lambda l, t, n, e: tuple(l)),
    "iter": ("iter", lambda x, t, n, e: (iter, (x,)), lambda l, t, n, e: list(l)),
    "reversed": ("iter", lambda x, t, n, e: (T[t].__reversed__, (x,)), lambda l, t, n, e: l[::-1]),
    "next": ("same", lambda x, t, n, e: (next, (iter(x), None)), lambda l, t, n, e: next(iter(l), None)),
    "nextr": ("same", lambda x, t, n, e: (next, (reversed(x), None)), lambda l, t, n, e: next(reversed(l), None)),
    "repr": ("same", lambda x, t, n, e: (repr, (x,)), lambda l, t, n, e: repr(l)),
    "str": ("same", lambda x, t, n, e: (str, (x,)), lambda l, t, n, e: str(l)),
    "len": ("same", lambda x, t, n, e: (len, (x,)), lambda l, t, n, e: len(l)),
    "eqlist": ("same", lambda x, t, n, e: (operator.eq, (x, els(t, n))), lambda l, t, n, e: l == els(t, n)),
    "eqsame": ("same", lambda x, t, n, e: (operator.eq, (x, T[t](els(t, n)))), lambda l, t, n, e: l == els(t, n)),
    "eqother": ("same", lambda x, t, n, e: (operator.eq, (x, T[OTHER[t]](els(t, n)))), lambda l, t, n, e: l == els(t, n)),
    "nelist": ("same", lambda x, t, n, e: (operator.ne, (x, els(t, n))), lambda l, t, n, e: l != els(t, n)),
    "ltlist": ("same", lambda x, t, n, e: (operator.lt, (x, els(t, n) + e)), lambda l, t, n, e: l < els(t, n) + e),
    "gesame": ("same", lambda x, t, n, e: (operator.ge, (x, T[t](els(t, n) + e))), lambda l, t, n, e: l >= els(t, n) + e),
    "leother": ("same", lambda x, t, n, e: (operator.le, (x, T[OTHER[t]](els(t, n)))), lambda l, t, n, e: l <= els(t, n)),
    "revlist": ("same", lambda x, t, n, e: (operator.lt, (els(t, n), x)), lambda l, t, n, e: els(t, n) < l),
    "ctor0": ("same", lambda x, t, n, e: (T[t], ()), lambda l, t, n, e: []),
    "ctorlist": ("same", lambda x, t, n, e: (T[t], (els(t, n),)), lambda l, t, n, e: els(t, n)),
    "ctortuple": ("same", lambda x, t, n, e: (T[t], (tuple(els(t, n)),)), lambda l, t, n, e: els(t, n)),
    "ctoriter": ("same", lambda x, t, n, e: (T[t], (gen_of(els(t, n)),)), lambda l, t, n, e: els(t, n)),
    "ctorself": ("same", lambda x, t, n, e: (T[t], (x,)), lambda l, t, n, e: list(l)),
    "ctorother": ("same", lambda x, t, n, e: (T[t], (T[OTHER[t]](els(t, n)),)), lambda l, t, n, e: els(t, n)),
    "ctorhint": ("hint", lambda x, t, n, e: (T[t], (gen_of(els(t, n)), 50)), lambda l, t, n, e: els(t, n)),
    "reinit": ("any", lambda x, t, n, e: (T[t].__init__, (x, e)), lambda l, t, n, e: l.__setitem__(slice(None), e)),
    "reinititer": ("any", lambda x, t, n, e: (T[t].__init__, (x, gen_of(e))), lambda l, t, n, e: l.__setitem__(slice(None), e)),
    "reinitother": ("any", lambda x, t, n, e: (T[t].__init__, (x, T[OTHER[t]](e))), lambda l, t, n, e: l.__setitem__(slice(None), e)),
    "resizeup": ("array", lambda x, t, n, e: (T[t].resize, (x, n + 30)), lambda l, t, n, e: resize(l, n + 30, pad(t))),
    "resizedown": ("array", lambda x, t, n, e: (T[t].resize, (x, n // 2)), lambda l, t, n, e: resize(l, n // 2, pad(t))),
    "range": ("int", lambda x, t, n, e: (T[t].from_range, (5, 5 + n)), lambda l, t, n, e: list(range(5, 5 + n))),
    "rangestep": ("int", lambda x, t, n, e: (T[t].from_range, (3000, 3000 - 3 * n, -3)), lambda l, t, n, e: list(range(3000, 3000 - 3 * n, -3))),
    "view": ("view", lambda x, t, n, e: (memoryview, (x,)), lambda l, t, n, e: list(l)),
    "unpack": ("same", lambda x, t, n, e: (set, (x,)), lambda l, t, n, e: set(l)),
    "sum": ("same", lambda x, t, n, e: (sorted, (x,)), lambda l, t, n, e: sorted(l)),
    "hash": ("same", lambda x, t, n, e: (hash, (x,)), lambda l, t, n, e: hash(l)),
}
OTHER = {"IntArrayList": "BigIntArrayList", "BigIntArrayList": "IntLinkedList", "IntLinkedList": "IntArrayList", "ObjectArrayList": "ObjectLinkedList",
         "ObjectLinkedList": "ObjectArrayList"}


def sorter(x, key, rev):
    raise NotImplementedError


def applicable(t, name):
    kind = FORMS[name][0]
    if kind in ("array", "hint") and t not in ARRAY_TYPES:
        return False
    if kind == "int" and t not in INT_TYPES:
        return False
    if kind == "view" and t not in ("IntArrayList", "BigIntArrayList"):
        return False
    return True


WAYS14 = ("ctor", "tight")


def gen(space, tier):
    if space == "long":
        for n in (300, 5001) if tier == "quick" else (300, 5001, 20001):
            for t in ALL_TYPES:
                for name in FORMS:
                    if applicable(t, name):
                        yield (t, name, n, WAYS14[0])
        return
    for n in sizes(tier):
        for t in ALL_TYPES:
            for name in FORMS:
                if applicable(t, name):
                    for way in WAYS14:
                        yield (t, name, n, way)


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, NSH)


def setup():
    global LIB
    if LIB is not None:
        return
    m = sys.modules["pyfastutil.__pyfastutil"]
    LIB = ctypes.PyDLL(m.__file__)
    LIB.fault_call.argtypes = [ctypes.py_object, ctypes.py_object, ctypes.c_long, ctypes.c_int]
    LIB.fault_call.restype = ctypes.py_object
    LIB.fault_live.restype = ctypes.c_long
    LIB.fault_install()
    gc.collect()
    gc.disable()


def call(f, args, k, mode):
    if f is sorter:
        # keyword arguments: a partial object
        import functools
        x, key, rev = args
        f = functools.partial(type(x).sort, x, key=key, reverse=rev) if key is not None else functools.partial(type(x).sort, x, reverse=rev)
        args = ()
    return LIB.fault_call(f, args, k, mode)


def make(t, n, way):
    c = els(t, n)
    if way == "ctor":
        return T[t](c), c
    x = T[t](c)
    if t in ARRAY_TYPES:
        # no spare room
        x = x.copy()
    return x, c


def norm(r, t):
    if type(r) in TT:
        return r.to_list()
    if type(r) is memoryview:
        return r.tolist()
    if type(r).__name__.endswith(("Iter", "iterator", "Iterator")):
        return list(r)
    return r


TT = ()


def one(t, name, n, way, k, mode):
    """Returns (message, number of allocations, failed)."""
    kind, mk, ref = FORMS[name]
    x, c = make(t, n, way)
    new = els(t, 9, 50)
    l = list(c)
    refs0 = [sys.getrefcount(v) for v in l], [sys.getrefcount(v) for v in new]
    args = mk(x, t, n, new)
    what = "%s of %d (%s): %s, allocation %d fails%s" % (t, n, way, name, k, " and all after it" if mode else "")
    want = rerr = None
    l2 = list(l)
    try:
        want = ref(l2, t, n, new)
    except Exception as e:
        rerr = type(e)
    r, e, cnt, failed, neither = call(args[0], args[1], k, mode)
    S.transitions += 1
    if neither:
        return what + ": neither a result nor an exception", cnt, failed
    et = type(e) if e is not None else None
    refused = kind == "step" and et is NotImplementedError
    if refused:
        rerr, l2 = et, list(l)
    oom = False
    if et is not None:
        if et is rerr or (rerr is not None and issubclass(et, rerr)):
            pass
        elif failed and et in (MemoryError, RuntimeError):
            oom = True
        else:
            return "%s: raises %r" % (what, e), cnt, failed
    elif rerr is not None:
        return "%s: returns %.200r, list raises %r" % (what, r, rerr), cnt, failed
    now = x.to_list()
    if len(now) != len(x) or [v for v in x] != now or list(reversed(x)) != now[::-1]:
        return "%s: the container is not consistent" % what, cnt, failed
    if not oom:
        if now != l2:
            return "%s: succeeds, but leaves %.200r, not %.200r" % (what, now, l2), cnt, failed
        if rerr is None and r is not x and name != "imul0":
            got = norm(r, t)
            if got != want:
                return "%s: succeeds, but returns %.200r, not %.200r" % (what, got, want), cnt, failed
            got = None
    else:
        if kind == "perm":
            if sorted(now) != sorted(l):
                return "%s: leaves %.200r of %.200r" % (what, now, l), cnt, failed
        elif kind == "ext":
            if now[:n] != l or now[n:] != l2[n:len(now)] or len(now) > len(l2):
                return "%s: leaves %.200r" % (what, now), cnt, failed
        elif kind == "any":
            pass
        elif now != l:
            return "%s: fails, but leaves %.200r, not %.200r" % (what, now, l), cnt, failed
    r = e = got = args = want = l2 = now = None
    if t in OBJ_TYPES:
        occ = {}
        for v in x:
            occ[id(v)] = occ.get(id(v), 0) + 1
        v = None
        refs = [sys.getrefcount(v) for v in l], [sys.getrefcount(v) for v in new]
        for objs, before, after, was in ((l, refs0[0], refs[0], 1), (new, refs0[1], refs[1], 0)):
            for i in range(len(objs)):
                exp = before[i] - was + occ.get(id(objs[i]), 0)
                if after[i] != exp:
                    return "%s: element %d has %d references, %d expected" % (what, i, after[i], exp), cnt, failed
        objs = None
    # again, with memory
    if oom:
        l = x.to_list()
        l2 = list(l)
        want = rerr = None
        try:
            want = ref(l2, t, n, new)
        except Exception as e:
            rerr = type(e)
        a = mk(x, t, n, new)
        r, e, _, _, neither = call(a[0], a[1], 0, 0)
        if (type(e) if e is not None else None) is not rerr and not (e is not None and rerr and isinstance(e, rerr)) and type(e) is not NotImplementedError:
            return "%s: again with memory, raises %r" % (what, e), cnt, failed
        if e is None:
            if x.to_list() != l2:
                return "%s: again with memory, leaves %.200r, not %.200r" % (what, x.to_list(), l2), cnt, failed
            if r is not x and name != "imul0" and norm(r, t) != want:
                return "%s: again with memory, returns %.200r, not %.200r" % (what, norm(r, t), want), cnt, failed
        S.transitions += 1
        S.outcome("out of memory reported")
    elif failed:
        S.outcome("succeeded without the memory")
    r = e = a = None
    x.append(mkel(t, 1))
    x.extend(els(t, 20))
    x.pop(0)
    x.clear()
    return None, cnt, failed


def leak(t, name, n, way, k, mode):
    """The failing operation over and over: the interpreter's live blocks must not grow."""
    kind, mk, ref = FORMS[name]

    def once():
        x, c = make(t, n, way)
        a = mk(x, t, n, els(t, 9, 50))
        r = call(a[0], a[1], k, mode)
        return r[2], r[3]
    for _ in range(3):
        once()
    a = [LIB.fault_live(i) for i in range(3)]
    for _ in range(12):
        once()
    b = [LIB.fault_live(i) for i in range(3)]
    S.transitions += 15
    if any(q - p >= 10 for p, q in zip(a, b)):
        # free lists may have filled up: many more, then look again
        for _ in range(2500):
            once()
        a = [LIB.fault_live(i) for i in range(3)]
        for _ in range(300):
            once()
        b = [LIB.fault_live(i) for i in range(3)]
        if any(q - p >= 200 for p, q in zip(a, b)):
            return "%s of %d (%s): %s, allocation %d fails%s: 300 times leave %r blocks" % (
                t, n, way, name, k, " and all after it" if mode else "", [q - p for p, q in zip(a, b)])
    return None


def execute(space, case):
    global TT
    TT = tuple(T.values())
    setup()
    t, name, n, way = case
    msg, cnt, _ = one(t, name, n, way, 0, 0)
    if msg:
        return msg
    S.visit(t, name, n, way, cnt)
    mode = 1 if space == "all" else 0
    if space == "leak":
        for k in range(1, cnt + 1):
            msg = leak(t, name, n, way, k, 0) or leak(t, name, n, way, k, 1)
            if msg:
                return msg
        return None
    if space == "long":
        for k in sorted({k for k in range(1, cnt + 1) if k < 9 or k > cnt - 6 or k % (cnt // 30 + 1) == 0}):
            for mode in (0, 1):
                msg, cnt2, failed = one(t, name, n, way, k, mode)
                if msg:
                    return msg
        return None
    k = 1
    while True:
        msg, cnt, failed = one(t, name, n, way, k, mode)
        if msg:
            return msg
        if not failed:
            return None
        k += 1
