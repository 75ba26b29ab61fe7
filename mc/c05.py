"""C05: iterators stay safe and in step while the container changes."""
import gc
import sys
import weakref

from mc.common import *

NSH = 32


def depth(tier, asan):
    if asan:
        return 4 if tier == "quick" else 5
    return 5 if tier == "quick" else 6


def BOUNDS(tier):
    return "all histories of %d steps (%d under AddressSanitizer) of next() on two iterators (forward or reversed, created at the " \
           "start or on the way) and 14 changes of the container, from 3 starts; each iterator drained at the end, with the " \
           "container kept or dropped; long containers changed at every point of an iteration, and up to 70001 elements changed at notable ones; all histories of %d steps of 8 on two containers and an iterator of each, remade and dropped on the way; %d kinds of changes repeated about 2^7, 2^8, 2^15 and 2^16 times between two steps" % (depth(tier, 0), depth(tier, 1), depth(tier, 0), len(CYCLES))


def spaces(tier):
    return [{"name": "hist", "variant": "plain", "shards": NSH}, {"name": "hist-asan", "variant": "asan", "shards": NSH}, {"name": "hist-asan+sub", "variant": "asan", "shards": NSH},
            {"name": "long", "variant": "plain", "shards": 16}, {"name": "long-asan", "variant": "asan", "shards": 16},
            {"name": "two", "variant": "plain", "shards": NSH}, {"name": "two-asan", "variant": "asan", "shards": NSH},
            {"name": "misc", "variant": "asan", "shards": 5},
            {"name": "wrap", "variant": "plain", "shards": NSH}, {"name": "wrap-asan", "variant": "asan", "shards": NSH}]


# numbers of changes between two steps: a narrow change counter comes back to where it was
COUNTS = [k + d for k in (128, 256) for d in (-2, -1, 0, 1, 2)]
COUNTS16 = [k + d for k in (32768, 65536) for d in (-2, -1, 0, 1, 2)]
# repeated changes, each leaving the container about as long as before
CYCLES = (("app", "pop0"), ("ins0", "pop"), ("ins0", "pop0"), ("app", "pop"), ("rev",), ("sort",), ("set0",), ("del1", "app"), ("setsl", "delsl"), ("app", "del1"),
          ("setsame",), ("insmid", "popmid"), ("rem", "app"), ("setall",))
FIRST = ("none", "clear", "pop0", "delall", "rev")


def wrap(case):
    """Many changes between two steps of an iterator."""
    _, t, n, kind, first, cyc, k = case
    V = IV if t in INT_TYPES else OBJS
    for p in range(n + 1):
        ref = vals(t, n)
        x = T[t](ref)
        a, b = mk(kind, x), mk(kind, ref)
        for _ in range(p):
            step(a), step(b)
        if first != "none":
            mutate(x, t, first, V)
            mutate(ref, t, first, V)
        for i in range(k - (first != "none")):
            op = cyc[i % len(cyc)]
            mutate(x, t, op, V)
            mutate(ref, t, op, V)
        while True:
            got, want = step(a), step(b)
            S.transitions += 1
            if got is not want and not (t in INT_TYPES and got == want and type(got) is type(want)):
                return "%s of %d, %s iterator, %d steps, %s, then %r, %d changes in all: %r, list %r" % (t, n, kind, p, first, cyc, k, got, want)
            if want is STOP:
                break
        S.visit(t, n, kind, first, cyc, k, p)
    return None


FAR = ("app", "ins0", "pop0", "del1", "clear", "insmid", "delstep", "shrink", "sort", "rev")


def far(case):
    """A long container changed once, far into the iteration."""
    _, t, n, kind, m = case
    big = list(range(-500, n - 500)) if t in INT_TYPES else [Eq(i, "f") for i in range(n)]
    V = IV if t in INT_TYPES else OBJS
    for p in sorted({q for q in (0, 127, 128, 255, 256, 257, 4096, 32768, 65535, 65536, 65537, n // 2, n, n - 256) if 0 <= q <= n}):
        ref = list(big)
        x = T[t](ref)
        a, b = mk(kind, x), mk(kind, ref)
        if not same_seq(list(itertools.islice(a, p)), list(itertools.islice(b, p))):
            return "%s of %d, %s iterator: the first %d steps are wrong" % (t, n, kind, p)
        mutate(x, t, m, V)
        mutate(ref, t, m, V)
        rest, want = list(a), list(b)
        S.transitions += 1
        S.visit(t, n, kind, m, p)
        if not same_seq(rest, want):
            i = next((i for i, (v, w) in enumerate(zip(rest, want)) if v is not w and v != w), min(len(rest), len(want)))
            return "%s of %d, %s iterator, %d steps, then %s: %d more elements, list %d, different from number %d on" % (t, n, kind, p, m, len(rest), len(want), i)
        if step(a) is not STOP:
            return "%s of %d: an exhausted iterator goes on" % (t, n)
    return None


NEXT = [("n0",), ("n1",)]
MUT = [("app",), ("ins0",), ("pop",), ("pop0",), ("del1",), ("clear",), ("ext",), ("rev",), ("set0",), ("setsl",), ("delsl",),
       ("imul",), ("sort",), ("new0",)]
MORE = ["insmid", "insend", "ins1", "rem", "remlast", "dellast", "popmid", "delstep", "delneg", "setsame", "setfewer", "setgen", "sortkey",
        "sortrev", "iadd", "iaddself", "extself", "imul0", "grow", "shrink", "setlast", "setself", "delall", "setall", "popneg"]
# kinds of the two iterators: f forward, r reversed; "-" is created by new1 later
PAIRS = [("f", "f"), ("f", "r"), ("r", "r")]


def gen(space, tier):
    if space.startswith("hist"):
        d = depth(tier, space.endswith("asan"))
        for t in ALL_TYPES:
            for n in (0, 2, 4):
                for pair in PAIRS:
                    for h in itertools.product(NEXT + MUT, repeat=d - 2):
                        yield ("h", t, n, pair, h)
    elif space.startswith("wrap"):
        asan = space.endswith("asan")
        for t in ALL_TYPES:
            for n in (1, 3):
                for kind in "fr":
                    for cyc in CYCLES:
                        for first in FIRST:
                            for k in (COUNTS + [384, 512, 1024] if not asan else (256, 128)):
                                yield ("w", t, n, kind, first, cyc, k)
                        if n == 3 and (not asan) and cyc[0] not in ("setall", "setsame", "setsl") and (tier == "thorough" or cyc in CYCLES[:3]):
                            for k in COUNTS16 if tier == "thorough" else (32768, 65535, 65536, 65537):
                                yield ("w", t, n, kind, "clear", cyc, k)
    elif space.startswith("long"):
        for t in ALL_TYPES:
            for n in (1, 2, 5, 17, 40):
                for kind in "fr":
                    for m in [m[0] for m in MUT] + MORE:
                        yield ("l", t, n, kind, m)
            if space == "long":
                for n in (255, 256, 257, 4097, 70001) + ((32768, 65535, 65536, 65537) if tier == "thorough" else ()):
                    for kind in "fr":
                        for m in [m[0] for m in MUT] + MORE:
                            if m != "new0" and n < 4097 or m in FAR or tier == "thorough":
                                yield ("L", t, n, kind, m)
    else:
        for t in ALL_TYPES:
            yield ("m", t)


# two containers and an iterator over each, used in turn, replaced and dropped
TWO = ("next", "iter", "rev", "dropit", "app", "pop0", "remake", "drop")


def two(case, asan):
    _, t, h = case
    V = IV if t in INT_TYPES else OBJS
    for last in range(2 * len(TWO)) if not asan else range(0, 2 * len(TWO), 2):
        x, ref = [T[t](V[:3]), T[t](V[3:7])], [list(V[:3]), list(V[3:7])]
        a, b = [iter(y) for y in x], [iter(y) for y in ref]
        for i in h + (last,) + (0, 1, 0, 1):
            o, k = TWO[i // 2], i % 2
            S.transitions += 1
            if o == "next":
                if a[k] is None:
                    continue
                got, want = step(a[k]), step(b[k])
                if got is not want and not (t in INT_TYPES and got == want and type(got) is type(want)):
                    return "%s: two containers and their iterators, %s: next gives %r, list %r" % (
                        t, " ".join("%s(%s)" % (TWO[j // 2], "ab"[j % 2]) for j in h + (last,)), got, want)
            elif o == "iter":
                if x[k] is not None:
                    a[k], b[k] = iter(x[k]), iter(ref[k])
            elif o == "rev":
                if x[k] is not None:
                    a[k], b[k] = reversed(x[k]), reversed(ref[k])
            elif o == "dropit":
                a[k] = b[k] = None
            elif o == "app":
                if x[k] is not None:
                    x[k].append(V[20 + k])
                    ref[k].append(V[20 + k])
            elif o == "pop0":
                if ref[k]:
                    x[k].pop(0)
                    ref[k].pop(0)
            elif o == "drop":
                x[k] = ref[k] = None
            else:
                x[k] = None
                x[k], ref[k] = T[t](V[9 + k:14]), list(V[9 + k:14])
    S.visit("two", t, h)
    return None


def enum(space, shard, tier):
    if space.startswith("two"):
        d = depth(tier, space.endswith("asan")) - 1
        return shard_filter((("t", t, h) for t in ALL_TYPES for h in itertools.product(range(2 * len(TWO)), repeat=d)), shard, NSH)
    return shard_filter(gen(space, tier), shard, NSH if space.startswith(("hist", "wrap")) else 16 if space.startswith("long") else 5)


def vals(t, n):
    return list(range(10, 10 + n)) if t in INT_TYPES else OBJS[:n]


OBJS = [Eq(i, "o") for i in range(100)]


def mutate(x, t, op, V):
    if op == "app":
        x.append(V[90])
    elif op == "ins0":
        x.insert(0, V[91])
    elif op == "pop":
        if len(x):
            x.pop()
    elif op == "pop0":
        if len(x):
            x.pop(0)
    elif op == "del1":
        if len(x) > 1:
            del x[1]
    elif op == "clear":
        x.clear()
    elif op == "ext":
        x.extend([V[92], V[93], V[94]])
    elif op == "rev":
        x.reverse()
    elif op == "set0":
        if len(x):
            x[0] = V[95]
    elif op == "setsl":
        x[1:2] = [V[96], V[97]]
    elif op == "delsl":
        del x[0:2]
    elif op == "imul":
        if len(x) < 20:
            x *= 2
    elif op == "sort":
        x.sort()
    elif op == "insmid":
        x.insert(len(x) // 2, V[80])
    elif op == "insend":
        x.insert(len(x), V[80])
    elif op == "ins1":
        x.insert(1, V[80])
    elif op == "rem":
        if V[91] in x:
            x.remove(V[91])
        elif len(x):
            x.remove(x[len(x) // 2])
    elif op == "remlast":
        if len(x):
            x.remove(x[-1])
    elif op == "dellast":
        if len(x):
            del x[-1]
    elif op == "popmid":
        if len(x):
            x.pop(len(x) // 2)
    elif op == "popneg":
        if len(x) > 1:
            x.pop(-2)
    elif op == "delstep":
        del x[::2]
    elif op == "delneg":
        del x[::-3]
    elif op == "delall":
        del x[:]
    elif op == "setall":
        x[:] = [V[70], V[71]]
    elif op == "setsame":
        x[1:3] = [V[72], V[73]][:max(0, min(2, len(x) - 1))]
    elif op == "setfewer":
        x[0:3] = [V[74]]
    elif op == "setgen":
        x[2:2] = (V[i] for i in (75, 76, 77))
    elif op == "setself":
        x[1:2] = x
    elif op == "sortkey":
        x.sort(key=lambda v: -(v.key if type(v) is Eq else v))
    elif op == "sortrev":
        x.sort(reverse=True)
    elif op == "iadd":
        x += [V[78], V[79]]
    elif op == "iaddself":
        if len(x) < 100:
            x += x
    elif op == "extself":
        if len(x) < 100:
            x.extend(x)
    elif op == "imul0":
        x *= 0
    elif op in ("grow", "shrink"):
        m = len(x) + 3 if op == "grow" else len(x) // 2
        if hasattr(x, "resize"):
            x.resize(m)
        else:
            x[:] = x[:m] + [0 if isinstance(V, list) and V is IV else None] * (m - len(x))
    elif op == "setlast":
        if len(x):
            x[-1] = V[81]
    else:
        raise AssertionError(op)


IV = list(range(100))


class Model:
    """A list iterator; list.reverse and slice operations do what list's do, so the real one serves."""


def step(it):
    try:
        return next(it)
    except StopIteration:
        return STOP


STOP = "stop"


def mk(kind, x):
    return iter(x) if kind == "f" else reversed(x)


def execute(space, case):
    k = case[0]
    if k == "h":
        _, t, n, pair, h = case
        V = IV if t in INT_TYPES else OBJS
        ops = NEXT + MUT
        for o1 in ops:
            for o2 in ops:
                msg = history(t, n, pair, h + (o1, o2), V)
                if msg:
                    return msg
        return None
    if k == "w":
        return wrap(case)
    if k == "t":
        return two(case, space.endswith("asan"))
    if k == "l":
        return long(case)
    if k == "L":
        return far(case)
    return misc(case[1])


def history(t, n, pair, h, V):
    ref = vals(t, n)
    x = T[t](ref)
    a = [mk(p, x) for p in pair]
    b = [mk(p, ref) for p in pair]
    S.transitions += len(h)
    for i, (op,) in enumerate(h):
        if op == "n0" or op == "n1":
            j = 0 if op == "n0" else 1
            got, want = step(a[j]), step(b[j])
            if got is not want and not (t in INT_TYPES and type(got) is type(want) and got == want):
                return "%s of %d, iterators %r, %r: step %d: %s gives %r, list %r" % (t, n, pair, h, i, op, got, want)
        elif op == "new0":
            a[0] = mk(pair[0], x)
            b[0] = mk(pair[0], ref)
        else:
            mutate(x, t, op, V)
            mutate(ref, t, op, V)
    S.states.add(hash((t, pair, state_key(ref), b[0].__length_hint__(), b[1].__length_hint__())))
    # both iterators to their end, and past it; the container must not have moved
    if len(x) != len(ref):
        return "%s: length %d, list %d after %r" % (t, len(x), len(ref), h)
    keep = i % 2
    if not keep:
        x = None
    for j in (1, 0):
        for _ in range(len(ref) + 4):
            got, want = step(a[j]), step(b[j])
            if got is not want and not (t in INT_TYPES and type(got) is type(want) and got == want):
                return "%s of %d, iterators %r, %r: then draining %d gives %r, list %r" % (t, n, pair, h, j, got, want)
            if want is STOP:
                break
        if x is not None:
            x.append(V[0])
            ref.append(V[0])
        got = step(a[j])
        if got is not STOP:
            return "%s, %r: exhausted iterator %d gives %r again" % (t, h, j, got)
    return None


def long(case):
    """A change after every number of steps, then the rest."""
    _, t, n, kind, op = case
    V = IV if t in INT_TYPES else OBJS
    for p in range(n + 2):
        for twice in (0, 1, 2):
            ref = vals(t, n)
            x = T[t](ref)
            a, b = mk(kind, x), mk(kind, ref)
            for _ in range(p):
                if step(a) is STOP:
                    break
                step(b)
            else:
                pass
            a, b = mk(kind, x), mk(kind, ref)
            for _ in range(p):
                step(a), step(b)
            for q in range(twice + 1):
                if op == "new0":
                    break
                mutate(x, t, op, V)
                mutate(ref, t, op, V)
                got, want = step(a), step(b)
                S.transitions += 2
                if got is not want and not (t in INT_TYPES and got == want and type(got) is type(want)):
                    return "%s of %d, %s iterator, %s after %d steps (%d times): %r, list %r" % (t, n, kind, op, p, q + 1, got, want)
            while True:
                got, want = step(a), step(b)
                S.transitions += 1
                if got is not want and not (t in INT_TYPES and got == want and type(got) is type(want)):
                    return "%s of %d, %s iterator, %s after %d steps (%d times), later: %r, list %r" % \
                           (t, n, kind, op, p, twice + 1, got, want)
                if want is STOP:
                    break
            S.visit(t, n, kind, op, p, twice)
    return None


def misc(t):
    V = vals(t, 4)
    # it keeps its container alive, and gives it up
    for kind in "fr":
        for n in (0, 1, 4):
            for consumed in range(n + 2):
                class X(T[t]):
                    pass
                x = X(V[:n])
                w = weakref.ref(x)
                base = sys.getrefcount(x)
                it = mk(kind, x)
                mid = sys.getrefcount(x)
                if mid != base + 1:
                    return "%s iterator adds %d references to its container" % (t, mid - base)
                for _ in range(consumed):
                    step(it)
                del x
                got = []
                while True:
                    v = step(it)
                    if v is STOP:
                        break
                    got.append(v)
                want = (V[:n] if kind == "f" else V[:n][::-1])[consumed:]
                if got != want:
                    return "%s iterator of a dropped container gives %r, not %r" % (t, got, want)
                del it
                gc.collect()
                if w() is not None:
                    return "%s: the container outlives its %s iterator (%d of %d consumed)" % (t, kind, consumed, n)
                S.transitions += 2
                S.visit(t, kind, n, consumed)
    # iter(it) is it; many iterators; iterators outliving a re-initialisation
    x = T[t](V)
    it = iter(x)
    if iter(it) is not it or it.__iter__() is not it:
        return "%s: iter(iterator) is another object" % t
    r = reversed(x)
    if iter(r) is not r:
        return "%s: iter(reversed) is another object" % t
    its = [iter(x) for _ in range(50)]
    got = [next(i) for i in its for _ in range(1)] + [next(i) for i in reversed(its)]
    if got != [V[0]] * 50 + [V[1]] * 50:
        return "%s: fifty iterators get in each other's way" % t
    for kind in "fr":
        for p in range(5):
            for new in ([], V[:1], V + V):
                x = T[t](V)
                it = mk(kind, x)
                for _ in range(p):
                    step(it)
                x.__init__(new)
                seen = 0
                while step(it) is not STOP:
                    seen += 1
                    if seen > 20:
                        return "%s: endless iterator after re-initialisation" % t
                S.transitions += 1
    # an iterator type called by the user
    it_types = {type(iter(T[t]())), type(reversed(T[t]()))}
    for it_t in it_types:
        for args in ((), (1,), (T[t](V),), (None,), (T[t](V), 0), (V,), ("x", 1)):
            try:
                it = it_t(*args)
            except (TypeError, NotImplementedError, RuntimeError, ValueError):
                continue
            S.transitions += 1
            for _ in range(3):
                try:
                    next(it)
                except StopIteration:
                    pass
                except SystemError as e:
                    return "next of a bare %s: %r" % (it_t.__name__, e)
                except Exception:
                    pass
            try:
                iter(it)
                repr(it)
                it.__length_hint__()
            except AttributeError:
                pass
            del it
            gc.collect()
        # re-initialising a live iterator
        x = T[t](V)
        it = iter(x)
        next(it)
        for args in ((), (1,), (None,), (x,)):
            try:
                it.__init__(*args)
            except Exception:
                pass
            try:
                next(it)
            except StopIteration:
                pass
            except SystemError as e:
                return "next of a re-initialised %s: %r" % (it_t.__name__, e)
            except Exception:
                pass
        del it, x
        gc.collect()
    # builtins that read through iterators
    for f in (list, tuple, sum if t in INT_TYPES else len, lambda y: list(zip(y, y)), lambda y: list(enumerate(y)), lambda y: [*y, *y],
              lambda y: list(map(id, y)) and None, lambda y: list(reversed(list(reversed(y)))), lambda y: dict.fromkeys(y),
              lambda y: (lambda *a: a)(*y)):
        if f(T[t](V)) != f(V):
            return "%s read through %r differs" % (t, f)
    return None
