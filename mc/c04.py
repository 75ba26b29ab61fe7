"""C04: comparisons agree with list comparison."""
import operator

from mc.common import *

NSH = 16
CMP = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge]
NAN2 = float("nan")


class Odd:
    """Comparisons give objects that are no bools."""

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return [] if self.k != getattr(o, "k", None) else [1]

    def __lt__(self, o):
        return "" if not self.k < o.k else "yes"

    def __gt__(self, o):
        return 0 if not self.k > o.k else 5

    __hash__ = None


class Boom(Exception):
    pass


class Bomb:
    """The n-th comparison raises."""
    n = 0
    at = -1

    def __init__(self, k):
        self.k = k

    def tick(self):
        Bomb.n += 1
        if Bomb.n == Bomb.at:
            raise Boom

    def __eq__(self, o):
        self.tick()
        return self.k == o.k

    def __lt__(self, o):
        self.tick()
        return self.k < o.k

    def __le__(self, o):
        self.tick()
        return self.k <= o.k

    def __gt__(self, o):
        self.tick()
        return self.k > o.k

    def __ge__(self, o):
        self.tick()
        return self.k >= o.k

    __hash__ = None


OBJ_ALPHABETS = {
    "num": [1, 1.0, 2, True],
    "nan": [NAN, NAN2, 1.0],
    "eq": [Eq(1, "x"), Eq(1, "y"), Eq(2, "x")],
    "mixed": [1, "a", None],
    "odd": [Odd(1), Odd(1), Odd(2)],
    "str": ["", "a", "ab"],
    "nest": [[1], [1], [2]],
}


def BOUNDS(tier):
    return "all pairs of contents of length <= 4 (ints, 4 boundary values) and <= 3 (7 alphabets of 3-4 objects) x type pairs x " \
           "6 operators; int containers against lists of larger ints and of other types; contents up to 257 differing at every " \
           "position by differences of every magnitude, and up to 131075 at selected ones; every number of the failing element comparison"


def spaces(tier):
    return [{"name": n, "variant": v, "shards": NSH} for n, v in
            (("ints", "plain"), ("ints+sub", "plain"), ("objs+sub", "plain"), ("objs", "plain"), ("foreign", "plain"), ("long", "plain"), ("huge", "plain"), ("raise", "plain"),
             ("objs-asan", "asan"), ("foreign-asan", "asan"))]


HUGE = (513, 1000, 1024, 1025, 4095, 4096, 4097, 10001, 65535, 65536, 65537, 131075)
HUGE2 = (2047, 2048, 2049, 8191, 8192, 8193, 16385, 32767, 32768, 32769, 200003, 300000)


def int_contents(tier):
    return list(words(range(4), 4 if tier == "quick" else 5))


def gen(space, tier):
    if space == "ints":
        for ta in INT_TYPES + ("list",):
            for tb in INT_TYPES + ("list",):
                if ta == tb == "list":
                    continue
                for wa in int_contents(tier):
                    yield ("i", ta, tb, wa)
    elif space.startswith("objs"):
        m = 4 if tier == "thorough" and space == "objs" else 2 if space != "objs" else 3
        for ta in OBJ_TYPES + ("list",):
            for tb in OBJ_TYPES + ("list",):
                if ta == tb == "list":
                    continue
                for al in OBJ_ALPHABETS:
                    for wa in words(range(len(OBJ_ALPHABETS[al])), m):
                        yield ("o", ta, tb, al, wa, m)
    elif space.startswith("foreign"):
        for ta in INT_TYPES:
            for wa in words(range(3), 2):
                yield ("f", ta, wa)
        for ta in ALL_TYPES:
            yield ("n", ta)
    elif space == "long":
        for ta in ALL_TYPES:
            for n in (4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257) + ((512, 1000) if tier == "thorough" else ()):
                yield ("l", ta, n)
    elif space == "huge":
        for ta in ALL_TYPES:
            for n in HUGE if tier == "quick" else HUGE + HUGE2:
                for tb in (INT_TYPES if ta in INT_TYPES else OBJ_TYPES) + ("list",):
                    # a linked list as the other operand is walked anew for each element
                    if n < 5000 or tb == "list" or "Linked" not in ta + tb:
                        yield ("h", ta, tb, n)
    elif space == "raise":
        for ta in OBJ_TYPES + ("list",):
            for tb in OBJ_TYPES + ("list",):
                if ta == tb == "list":
                    continue
                for wa in words(range(2), 3):
                    yield ("r", ta, tb, wa)


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, NSH)


def make(t, vals):
    return list(vals) if t == "list" else T[t](vals)


def snap(x):
    return list(x)


def ask(op, a, b):
    try:
        return ("v", op(a, b))
    except Exception as e:
        return ("e", type(e))


def truth(r):
    if r[0] == "v":
        return ("v", bool(r[1]))
    return r


def compare(a, b, ra, rb, what):
    """All six operators on a and b must answer as on the lists ra and rb."""
    res = []
    for op in CMP:
        want = truth(ask(op, ra, rb))
        got = truth(ask(op, a, b))
        S.transitions += 1
        res.append(got)
        if got != want:
            return "%s: %s of %.200r and %.200r answers %r, lists %r" % (what, op.__name__, ra, rb, got, want)
        S.outcome(str(got[1]))
    if not same_seq(snap(a), ra) or not same_seq(snap(b), rb):
        return "%s: comparing %r and %r changed them to %r and %r" % (what, ra, rb, snap(a), snap(b))
    return None


def execute(space, case):
    k = case[0]
    if k == "i":
        _, ta, tb, wa = case
        tier = "thorough" if len(wa) > 3 else "quick"
        va = [_vals(ta, tb)[i] for i in wa]
        a = make(ta, va)
        for wb in words(range(4), max(4, len(wa))):
            vb = [_vals(ta, tb)[i] for i in wb]
            b = make(tb, vb)
            msg = compare(a, b, va, vb, "%s with %s" % (ta, tb))
            if msg:
                return msg
            S.visit(ta, tb, wa, wb)
        if ta == tb:
            return compare(a, a, va, va, ta + " with itself")
        return None
    if k == "o":
        _, ta, tb, al, wa, m = case
        A = OBJ_ALPHABETS[al]
        va = [A[i] for i in wa]
        a = make(ta, va)
        for wb in words(range(len(A)), m):
            vb = [A[i] for i in wb]
            b = make(tb, vb)
            msg = compare(a, b, va, vb, "%s with %s" % (ta, tb))
            if msg:
                return msg
            S.visit(ta, tb, al, wa, wb)
        if ta == tb:
            return compare(a, a, va, va, ta + " with itself")
        return None
    if k == "f":
        _, ta, wa = case
        lo, hi = RANGE[ta]
        V = [0, hi, lo]
        va = [V[i] for i in wa]
        a = make(ta, va)
        # larger ints and bools: as lists
        B = [0, hi, lo, hi + 1, lo - 1, 2 ** 63, -2 ** 63 - 1, 2 ** 64, -2 ** 100, 2 ** 32, True, False, hi + 1 + hi + 1 + hi]
        for wb in words(range(len(B)), 2):
            vb = [B[i] for i in wb]
            msg = compare(a, vb, va, vb, "%s with list" % ta) or compare(vb, a, vb, va, "list with %s" % ta)
            if msg:
                return msg
            S.visit(ta, wa, wb)
        # other types: == says False, != True
        C = ["a", None, 1.5, (1,), [1], object(), Idx(99)]
        for c in C:
            for n in range(len(va) + 1):
                vb = va[:n] + [c] + va[n + 1:]
                for x, y in ((a, vb), (vb, a)):
                    e = ask(operator.eq, x, y)
                    ne = ask(operator.ne, x, y)
                    S.transitions += 2
                    if e != ("v", False) or ne != ("v", True):
                        return "%s %r == %r: %r, !=: %r" % (ta, va, vb, e, ne)
                    for op in (operator.lt, operator.le, operator.gt, operator.ge):
                        r = ask(op, x, y)
                        S.transitions += 1
                        if r == ("e", SystemError):
                            return "%s %r %s %r raises SystemError" % (ta, va, op.__name__, vb)
                        if type(c) not in (float, Idx):
                            want = ask(op, va, vb) if x is a else ask(op, vb, va)
                            if r != want:
                                return "%s %s of %r and %r: %r, lists: %r" % (ta, op.__name__, va, vb, r, want)
        if not same_seq(snap(a), va):
            return "%s: comparing changed %r to %r" % (ta, va, snap(a))
        return None
    if k == "n":
        ta = case[1]
        for vals in ([], [1, 2]):
            a = make(ta, vals)
            for other in (None, 5, 1.5, object(), len, NotImplemented, Exception()):
                for x, y in ((a, other), (other, a)):
                    S.transitions += 6
                    S.visit(ta, len(vals), type(other).__name__)
                    r = [ask(op, x, y) for op in CMP]
                    if r[2:4] != [("v", False), ("v", True)] or ("e", SystemError) in r:
                        return "%s %r with %r: %r" % (ta, vals, other, r)
            # a list subclass is a list; a subclass of the container is a container

            class L(list):
                pass

            class X(T[ta]):
                pass
            for vb in ([], [1], [1, 2], [2], [1, 2, 0], [0, 9]):
                msg = compare(a, L(vb), vals, vb, ta + " with a subclass of list") or \
                      compare(X(vb), a, vb, vals, "subclass with " + ta) or \
                      compare(a, X(vb), vals, vb, ta + " with its subclass") or \
                      compare(X(vals), list(vb), vals, vb, "subclass with list")
                if msg:
                    return msg
        return None
    if k == "l":
        _, ta, n = case
        others = INT_TYPES if ta in INT_TYPES else OBJ_TYPES
        base = distinct(ta, n) if ta in OBJ_TYPES else [(i * 37) % 101 - 50 for i in range(n)]
        a = make(ta, base)
        for tb in others + ("list",):
            msg = compare(a, make(tb, base), base, list(base), "%s with %s" % (ta, tb))
            if msg:
                return msg[:1000]
            for p in range(n):
                for d in deltas(ta, tb):
                    vb = list(base)
                    if ta in INT_TYPES:
                        vb[p] += d
                    else:
                        vb[p] = Lte(vb[p].key + d)
                    b = make(tb, vb)
                    for op in CMP:
                        S.transitions += 1
                        for x, y, rx, ry in ((a, b, base, vb), (b, a, vb, base)):
                            got, want = ask(op, x, y), ask(op, rx, ry)
                            if got != want:
                                return "%s with %s of %d, differing at %d by %d: %s answers %r, lists %r" % \
                                       (ta, tb, n, p, d, op.__name__, got, want)
                    S.visit(ta, tb, n, p, d)
            for p in range(n):
                vb = base[:p]
                msg = compare(a, make(tb, vb), base, vb, "%s with its prefix of %d in %s" % (ta, p, tb))
                if msg:
                    return msg[:1000]
        return None
    if k == "h":
        return huge(*case[1:])
    if k == "r":
        _, ta, tb, wa = case
        for wb in words(range(2), 3):
            va, vb = [Bomb(i) for i in wa], [Bomb(i) for i in wb]
            a, b = make(ta, va), make(tb, vb)
            for op in CMP:
                for k in range(1, 9):
                    Bomb.n, Bomb.at = 0, k
                    want = ask(op, va, vb)
                    nw = Bomb.n
                    Bomb.n, Bomb.at = 0, k
                    got = ask(op, a, b)
                    Bomb.at = -1
                    S.transitions += 1
                    S.outcome(str(got[0]))
                    if got != want:
                        return "%s with %s, %r and %r, comparison %d raises: %s gives %r, lists %r" % \
                               (ta, tb, wa, wb, k, op.__name__, got, want)
                    if nw < k:
                        break
                if not same_seq(snap(a), va) or not same_seq(snap(b), vb):
                    return "comparing changed an operand: %r %r" % (wa, wb)
            S.visit(ta, tb, wa, wb)
        return None


def deltas(ta, tb):
    """Differences between two ints of each magnitude, those in the low and high halves only among them."""
    if ta not in INT_TYPES:
        return (-1, 1)
    if "Big" in ta and ("Big" in tb or tb == "list"):
        return (-1, 1, 256, -65536, 2 ** 31, -2 ** 32, 2 ** 32, 2 ** 33 + 1, -2 ** 62, 2 ** 62)
    return (-1, 1, 256, -65536, 2 ** 24, -2 ** 31 + 50, 2 ** 31 - 100)


def huge(ta, tb, n):
    """Long contents that differ at one position, or in length."""
    base = [(i * 37) % 101 - 50 for i in range(n)]
    if ta in OBJ_TYPES:
        pool = [Lte(i) for i in range(101)]
        base = [pool[i + 50] for i in base]
    a = make(ta, base)
    at = sorted({p for b in (0, 8, 64, 256, 512, 1024, 4096, 8192, 32768, 65536, 131072, n, n // 2) for p in (b - 1, b, b + 1) if 0 <= p < n})
    b = make(tb, base)
    msg = compare(a, b, base, list(base), "%s with %s of %d" % (ta, tb, n))
    if msg:
        return msg[:1000]
    vb = list(base)
    turn = 0
    for p in at:
        ds = deltas(ta, tb)
        for d in ds if n < 1100 and (tb == "list" or "Linked" not in ta + tb) else (ds[p % len(ds)],):
            old = vb[p]
            b[p] = vb[p] = old + d if ta in INT_TYPES else Lte(old.key + d)
            for op in (operator.eq, operator.lt, operator.ge)[:3 if n < 1100 else 2]:
                S.transitions += 1
                turn += 1
                for x, y, rx, ry in ((a, b, base, vb), (b, a, vb, base))[:: 1 if turn % 2 else -1][:2 if n < 1100 else 1]:
                    got, want = ask(op, x, y), ask(op, rx, ry)
                    if got != want:
                        return "%s with %s of %d, differing at %d by %d: %s answers %r, lists %r" % (ta, tb, n, p, d, op.__name__, got, want)
            b[p] = vb[p] = old
            S.visit("huge", ta, tb, n, p, d)
    for m in sorted({n - 1, n - 256, n - 65536, n - 65535, n // 2, 1, 0}):
        if 0 <= m < n:
            msg = compare(a, make(tb, base[:m]), base, base[:m], "%s of %d with its prefix of %d in %s" % (ta, n, m, tb))
            if msg:
                return msg[:1000]
    return None


class Lte(Eq):
    def __init__(self, key):
        Eq.__init__(self, key, "t")

    __hash__ = Eq.__hash__


def _vals(ta, tb):
    ts = [t for t in (ta, tb) if t != "list"]
    lo = max(RANGE[t][0] for t in ts)
    hi = min(RANGE[t][1] for t in ts)
    return [0, -1, lo, hi]
