"""C03: sort() yields the ordered permutation list.sort() would, stably."""
from mc.common import *

NSH = 16


class KeyErr(Exception):
    pass


class Lt:
    """Ordered by key; only < is defined; the count-th comparison may raise."""
    count = 0
    fail_at = -1

    def __init__(self, key, tag):
        self.key = key
        self.tag = tag

    def __lt__(self, other):
        Lt.count += 1
        if Lt.count == Lt.fail_at:
            raise KeyErr
        return self.key < other.key

    def __repr__(self):
        return "Lt(%r,%r)" % (self.key, self.tag)


# kinds of elements an object list may hold: CPython's sort has a shortcut for several of them
KINDS = {
    "lt": lambda k, i: Lt(k, i),
    "small": lambda k, i: int(str(k - 1)),
    "big": lambda k, i: (k - 1) * 10 ** 25 + 0,
    "mixint": lambda k, i: (k - 1) * 2 ** (29 + k),
    "float": lambda k, i: float(k - 1) / 4,
    "str": lambda k, i: ("s%02d" % k) + "",
    "uni": lambda k, i: "é%c" % (0x100 + k),
    "mixstr": lambda k, i: ("z" if k % 2 else "é\u1234") + "%02d" % k,
    "tuple": lambda k, i: (k // 2, Lt(k % 2, i)),
    "tuple2": lambda k, i: (float(k // 2), "%d" % (k % 2)),
    "intfloat": lambda k, i: k if k % 2 else float(k),
    "bool": lambda k, i: bool(k % 2),
    "boolint": lambda k, i: bool(k) if k < 2 else k,
    "list": lambda k, i: [k // 2, k % 2],
    "bytes": lambda k, i: b"%02d" % k,
}
INTMAPS = {
    "near": lambda k, i, t: k - 2,
    "wide": lambda k, i, t: (k - 3) * ((2 ** 60 + 12345) if t == "BigIntArrayList" else 2 ** 28 + 12345),
    "ext": lambda k, i, t: (RANGE[t][0], -1, 0, RANGE[t][1])[k] if k < 4 else k,
}
# (key function for ints, for objects by their integer key)
KEYS = {
    "none": None,
    "neg": lambda v: -v,
    "mod": lambda v: v % 3,
    "const": lambda v: 0,
    "str": lambda v: str(v),
    "tuple": lambda v: (v % 2, -v),
    "float": lambda v: v / 2,
    "big": lambda v: v * 10 ** 20,
    "big2": lambda v: v if v % 2 else v * 10 ** 30,
    "lt": lambda v: Lt(v % 2, 0),
}
REV = (False, True)


def okey(kind, name):
    if name == "none":
        return None
    f = KEYS[name]
    if kind == "lt":
        return lambda o: f(o.key)
    if kind in ("str", "bytes", "uni", "mixstr"):
        return lambda o: f(len(o) * 7 + (o[-1] if kind == "bytes" else ord(o[-1])))
    if kind == "tuple":
        return lambda o: f(int(o[0]) * 2 + o[1].key)
    if kind == "tuple2":
        return lambda o: f(int(o[0]) * 2 + int(o[1]))
    if kind == "list":
        return lambda o: f(o[0] * 2 + o[1])
    if kind == "float":
        return lambda o: f(int(o * 4))
    return lambda o: f(int(o))


def BOUNDS(tier):
    q = tier == "quick"
    return ("all permutations of up to %d distinct values and all words of up to %s over 2 and %s over 3 values x 10 keys "
            "x reverse, 3 magnitudes of ints, 15 kinds of objects; %d structured families for every length to %d and "
            "around 256..8192 for 4 CPU configurations, lengths to %d; two sorted runs of 5001 ints (301 objects) merged for every interleaving given by a word of up to 4 block lengths out of %d "
            "(ended by a rest or repeated, with and without ties); every stack of up to %d runs with lengths of %d shares; "
            "every number of the failing key call or comparison for all "
            "permutations of 6" % (((8, 14, 9, 14, 300, 131073) if q else (9, 17, 11, 14, 600, 400001)) + (len(BLOCKS[tier]), NRUNS[tier], len(SHARES[tier]))))


def spaces(tier):
    out = [{"name": n, "variant": "plain", "shards": NSH} for n in ("perm", "words", "kinds", "raise", "args", "fam")]
    for c in ("avx2", "none"):
        out.append({"name": "fam-" + c, "variant": "cpu@" + c, "shards": NSH})
    out.append({"name": "raise-asan", "variant": "asan", "shards": NSH})
    out.append({"name": "fam-asan", "variant": "asan", "shards": NSH})
    out.append({"name": "merge", "variant": "plain", "shards": NSH})
    out.append({"name": "stack", "variant": "plain", "shards": NSH})
    out.append({"name": "merge-asan", "variant": "asan", "shards": NSH})
    out.append({"name": "fam-long", "variant": "plain", "shards": NSH})
    out.append({"name": "words+sub", "variant": "plain", "shards": NSH})
    return out


LONG = {"quick": (32769, 65537, 131073), "thorough": (32767, 32768, 32769, 65535, 65536, 65537, 99991, 131071, 131073, 262145, 400001)}


def sizes(space, tier):
    if space == "fam-long":
        return LONG[tier]
    s = list(range(0, 301 if tier == "quick" else 601)) if space == "fam" else list(range(0, 70))
    big = [255, 256, 257, 511, 512, 513, 1023, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 4999, 5000, 5001, 5002, 5003, 5119, 5121,
           8191, 8193]
    if tier == "thorough":
        big += [6000, 7777, 10000, 16383, 16384, 16385, 32769, 65536, 100001]
    if space == "fam-asan":
        big = [257, 1025, 5001, 8193]
    return s + big


FAMS = ("sorted", "reversed", "equal", "saw", "organ", "two", "alt", "lcg", "nearly", "runs", "rot", "ext", "blocks", "desceq")


def family(name, n):
    """n integers in 0..n."""
    if name == "sorted":
        return list(range(n))
    if name == "reversed":
        return list(range(n, 0, -1))
    if name == "equal":
        return [3] * n
    if name == "saw":
        return [i % 17 for i in range(n)]
    if name == "organ":
        return [min(i, n - i) for i in range(n)]
    if name == "two":
        return [(i * 7919 >> 3) & 1 for i in range(n)]
    if name == "alt":
        return [i if i % 2 else n - i for i in range(n)]
    if name == "lcg":
        out, v = [], 12345
        for i in range(n):
            v = (v * 1103515245 + 12345) & 0x7fffffff
            out.append(v % (n + 1))
        return out
    if name == "nearly":
        a = list(range(n))
        for i in range(0, n - 5, 11):
            a[i], a[i + 5] = a[i + 5], a[i]
        return a
    if name == "runs":
        return [(i % 40) * (1 if (i // 40) % 2 else -1) + 40 for i in range(n)]
    if name == "rot":
        return [(i + n // 3) % n for i in range(n)]
    if name == "ext":
        return [0 if i % 3 == 0 else (n if i % 3 == 1 else n // 2) for i in range(n)]
    if name == "blocks":
        return [(i // 64) * 64 + 63 - i % 64 for i in range(n)]
    if name == "desceq":
        return [(n - i) // 4 for i in range(n)]


# Two sorted runs one after the other, for every way their blocks interleave once merged: a block longer than the gallop
# threshold (7) makes the merge gallop, a run of one element rotates.  A word is the lengths of alternate blocks; it either
# repeats to the end or leaves its last block to fill the rest.
BLOCKS = {"quick": (1, 2, 7, 8, 60), "thorough": (1, 2, 3, 6, 7, 8, 15, 60, 700)}
WORDLEN = {"quick": 4, "thorough": 4}
# lengths of successive runs, in shares of the whole: every shape of the stack of pending runs
SHARES = {"quick": (1, 2, 3, 7), "thorough": (1, 2, 3, 4, 6, 13)}
NRUNS = {"quick": 5, "thorough": 6}
MERGE_N = {"ints": 5001, "objects": 301, "keyed": 301}


def merged(word, first, fill, n, ties):
    sides = ([], [])
    v = i = 0
    while v < n:
        k = n - v if fill and i == len(word) - 1 else min(word[i % len(word)], n - v)
        sides[(first + i) % 2].extend(range(v, v + k))
        v += k
        i += 1
    return [x // ties for s in sides for x in s]


def stacked(shares, n, up):
    """Runs of these shares of n, each ascending (or strictly descending), values spread over each other."""
    out, tot, at = [], sum(shares), 0
    for j, s in enumerate(shares):
        k = n - at if j == len(shares) - 1 else n * s // tot
        run = [(i * n // max(k, 1)) * 8 + (j * 5) % 8 for i in range(k)]
        if not up[j]:
            run.reverse()
        out += run
        at += k
    return out


def runs_case(t, how, vals, what):
    if t in INT_TYPES:
        key = KEYS["neg"] if how == "keyed" else None
    else:
        vals = [float(v) for v in vals]
        key = None
    for rev in REV:
        msg = sort_both(t, vals, key, rev, what)
        if msg:
            return msg[:1500]
    return None


def gen(space, tier):
    q = tier == "quick"
    if space in ("merge", "stack", "merge-asan"):
        for t, how in [("IntArrayList", "ints"), ("BigIntArrayList", "ints"), ("ObjectArrayList", "objects"),
                       ("ObjectLinkedList", "objects"), ("IntArrayList", "keyed"), ("IntLinkedList", "keyed"),
                       ("IntLinkedList", "objects")]:
            if space == "stack":
                for pre in itertools.product(SHARES[tier], repeat=2):
                    yield ("stack", t, how, pre, tier)
            else:
                w = "quick" if space == "merge-asan" else tier
                for n in range(1, (3 if space == "merge-asan" else WORDLEN[tier]) + 1):
                    for pre in itertools.product(BLOCKS[w], repeat=min(n, 2)):
                        yield ("merge", t, how, pre, n, w)
        return
    if space == "perm":
        for t in ALL_TYPES:
            for n in range((8 if q else 9) + 1):
                for first in range(max(n, 1)):
                    yield ("perm", t, n, first)
    elif space == "words":
        for t in ALL_TYPES:
            for k, m in ((2, 14 if q else 17), (3, 9 if q else 11)):
                for n in range(m + 1):
                    if n < 4:
                        yield ("words", t, k, n, ())
                    else:
                        for pre in itertools.product(range(k), repeat=min(n, 4)):
                            yield ("words", t, k, n, pre)
    elif space == "kinds":
        for t in OBJ_TYPES:
            for kind in KINDS:
                for key in KEYS:
                    for n in range(7 if q else 8):
                        yield ("kinds", t, kind, key, n)
        for kind in KINDS:
            for kind2 in KINDS:
                if kind != kind2:
                    for t in OBJ_TYPES:
                        yield ("mixed", t, kind, kind2)
    elif space.startswith("raise"):
        for t in ALL_TYPES:
            for n in range(7 if q and space == "raise" else 6 if q else 8):
                for first in range(max(n, 1)):
                    yield ("raise", t, n, first)
            for n in (8, 16, 33, 64, 65, 70):
                yield ("raisebig", t, n)
    elif space == "args":
        for t in ALL_TYPES:
            yield ("args", t)
    elif space == "fam-long":
        for n in sizes(space, tier):
            for t in ALL_TYPES:
                for f in FAMS:
                    yield ("long", t, n, f)
    else:
        for t in ALL_TYPES:
            for n in sizes(space, tier):
                yield ("fam", t, n)


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, NSH)


def sort_both(t, vals, key, rev, what):
    ref = list(vals)
    x = T[t](ref)
    kw = {}
    if key is not None:
        kw["key"] = key
    if rev:
        kw["reverse"] = True
    ref.sort(**kw)
    r = x.sort(**kw)
    S.transitions += 1
    if r is not None:
        return "%s: sort returns %r" % (what, r)
    got = x.to_list()
    if not same_seq(got, ref):
        return "%s.sort of %.300r (%s, reverse=%s) gives %.400r, list.sort %.400r" % (t, vals, what, rev, got, ref)
    if len(vals) < 6:
        msg = check_deep(x, ref)
        if msg:
            return "%s.sort of %r (%s): %s" % (t, vals, what, msg)
    return None


def perms(n, first):
    if n == 0:
        yield ()
        return
    rest = [i for i in range(n) if i != first]
    for p in itertools.permutations(rest):
        yield (first,) + p


def execute(space, case):
    kind = case[0]
    t = case[1]
    if kind == "perm":
        _, _, n, first = case
        for p in perms(n, first):
            if t in INT_TYPES:
                for m in ("near", "wide"):
                    vals = [INTMAPS[m](k, i, t) for i, k in enumerate(p)]
                    for rev in REV:
                        for key in ("none",) if n > 5 else KEYS:
                            msg = sort_both(t, vals, KEYS[key], rev, key)
                            if msg:
                                return msg
            else:
                vals = [Lt(k, i) for i, k in enumerate(p)]
                for rev in REV:
                    for key in ("none",) if n > 5 else ("none", "neg", "mod"):
                        msg = sort_both(t, vals, okey("lt", key), rev, key)
                        if msg:
                            return msg
            S.visit(t, p)
        return None
    if kind == "words":
        _, _, k, n, pre = case
        for w in itertools.product(range(k), repeat=n - len(pre)):
            w = pre + w
            if t in INT_TYPES:
                for m in ("near", "ext") if n < 8 else ("ext",):
                    vals = [INTMAPS[m](c, i, t) for i, c in enumerate(w)]
                    for rev in REV:
                        msg = sort_both(t, vals, None, rev, "words")
                        if msg:
                            return msg
            else:
                vals = [Lt(c, i) for i, c in enumerate(w)]
                for rev in REV:
                    msg = sort_both(t, vals, None, rev, "words")
                    if msg:
                        return msg
                if n <= 8:
                    for rev in REV:
                        msg = sort_both(t, vals, okey("lt", "neg"), rev, "words")
                        if msg:
                            return msg
            S.visit(t, w)
        return None
    if kind == "kinds":
        _, _, ek, key, n = case
        for w in itertools.product(range(4), repeat=n) if n < 4 else itertools.permutations(range(n)):
            vals = [KINDS[ek](c, i) for i, c in enumerate(w)]
            for rev in REV:
                msg = sort_both(t, vals, okey(ek, key), rev, ek + "/" + key)
                if msg:
                    return msg
            S.visit(t, ek, key, w)
        return None
    if kind == "mixed":
        _, _, k1, k2 = case
        for n in range(2, 5):
            for w in itertools.product((0, 1), repeat=n):
                vals = [KINDS[k2 if c else k1](i, i) for i, c in enumerate(w)]
                ref = list(vals)
                x = T[t](vals)
                try:
                    ref.sort()
                    want = "ok"
                except TypeError:
                    want = "TypeError"
                except AttributeError:
                    want = "AttributeError"
                try:
                    x.sort()
                    got = "ok"
                except TypeError:
                    got = "TypeError"
                except AttributeError:
                    got = "AttributeError"
                S.transitions += 1
                S.visit(t, k1, k2, w)
                S.outcome(want)
                if got != want:
                    return "%s.sort of %r: %s, list: %s" % (t, vals, got, want)
                if want == "ok":
                    if not same_seq(x.to_list(), ref):
                        return "%s.sort of %r gives %r, list.sort %r" % (t, vals, x.to_list(), ref)
                elif sorted(map(id, x.to_list())) != sorted(map(id, vals)):
                    return "%s.sort of %r refused (%s) but holds %r" % (t, vals, want, x.to_list())
        return None
    if kind == "raise":
        _, _, n, first = case
        for p in perms(n, first):
            for rev in REV:
                msg = raising(t, p, rev)
                if msg:
                    return msg
            S.visit(t, p)
        return None
    if kind == "raisebig":
        for f in ("lcg", "saw", "reversed", "nearly"):
            p = family(f, case[2])
            for rev in REV:
                msg = raising(t, p, rev, range(1, 3 * len(p), 1 if len(p) < 20 else 7))
                if msg:
                    return msg
        return None
    if kind == "args":
        return args(t)
    if kind == "merge":
        _, _, how, pre, n, tier = case
        for rest in itertools.product(BLOCKS[tier], repeat=n - len(pre)):
            for first in (0, 1):
                for fill in (False, True):
                    for ties in (1, 3):
                        msg = runs_case(t, how, merged(pre + rest, first, fill, MERGE_N[how], ties),
                                        "runs interleaved by %r%s" % (pre + rest, " and the rest" if fill else ""))
                        if msg:
                            return msg
                        S.visit(t, how, pre + rest, first, fill, ties)
        return None
    if kind == "stack":
        _, _, how, pre, tier = case
        for m in range(NRUNS[tier] - 1):
            for rest in itertools.product(SHARES[tier], repeat=m):
                w = pre + rest
                for up in ((True,) * len(w), (False,) * len(w), (True, False) * len(w)):
                    msg = runs_case(t, how, stacked(w, MERGE_N[how], up), "runs of shares %r" % (w,))
                    if msg:
                        return msg
                    S.visit(t, how, w, up[:2])
        return None
    n = case[2]
    if kind == "long":
        f = case[3]
        base = family(f, n)
        if t in INT_TYPES:
            lo, hi = min(base), max(base)
            scale = (RANGE[t][1] - RANGE[t][0]) // max(1, hi - lo)
            maps = [base, [lo - v for v in base], [(v - lo) * scale + RANGE[t][0] for v in base]]
        else:
            maps = [base, [float(v) for v in base]]
        for vals in maps:
            for rev in REV:
                msg = sort_both(t, vals, None, rev, f)
                if msg:
                    return msg[:1500]
        S.visit(t, n, f)
        return None
    for f in FAMS:
        if n == 0 and f != "sorted":
            continue
        base = family(f, n)
        for rev in REV:
            if t in INT_TYPES:
                lo, hi = min(base, default=0), max(base, default=0)
                scale = (RANGE[t][1] - RANGE[t][0]) // max(1, hi - lo)
                vals = [(v - lo) * scale + RANGE[t][0] for v in base]
                maps = [vals, base]
                for vals in maps:
                    msg = sort_both(t, vals, None, rev, f)
                    if msg:
                        return msg[:1500]
                if n < 70 or n in (257, 1025, 5001):
                    for key in ("mod", "tuple") if n < 1000 else ("mod",):
                        msg = sort_both(t, vals, KEYS[key], rev, f + "/" + key)
                        if msg:
                            return msg[:1500]
            elif n <= 300 or f in ("lcg", "saw", "organ"):
                vals = [KINDS["lt"](v, i) for i, v in enumerate(base)] if n <= 1100 else [float(v) for v in base]
                msg = sort_both(t, vals, None, rev, f)
                if msg:
                    return msg[:1500]
            S.visit(t, n, f, rev)
    return None


def raising(t, p, rev, at=None):
    """The k-th call of the key function (or comparison) raises: that exception comes out, nothing is lost."""
    for what in ("key", "cmp", "keycmp"):
        if what == "cmp" and t in INT_TYPES:
            continue
        for k in at or itertools.count(1):
            vals = [Lt(c, i) for i, c in enumerate(p)] if t in OBJ_TYPES else [c - 2 for c in p]
            x = T[t](vals)
            Lt.count = 0
            Lt.fail_at = -1
            calls = 0
            raised = []

            def key(v):
                nonlocal calls
                calls += 1
                c = v.key if t in OBJ_TYPES else v
                if what == "key" and calls == k:
                    raised.append(KeyErr())
                    raise raised[0]
                return c if what == "key" else Lt(c, 0)

            if what != "key":
                Lt.fail_at = k
            try:
                if what == "cmp":
                    x.sort(reverse=rev)
                else:
                    x.sort(key=key, reverse=rev)
                exc = None
            except Exception as e:
                exc = e
            S.transitions += 1
            Lt.fail_at = -1
            expected = (calls >= k) if what == "key" else Lt.count >= k
            name = "%s.sort of %r (reverse=%s), %s number %d raises" % (t, vals, rev, what, k)
            if expected:
                S.outcome("raised " + what)
                if not isinstance(exc, KeyErr) or (raised and exc is not raised[0]):
                    return "%s: sort raised %r" % (name, exc)
                got = x.to_list()
                if t in OBJ_TYPES:
                    ok = sorted(map(id, got)) == sorted(map(id, vals))
                else:
                    ok = sorted(got) == sorted(vals) and all(type(v) is int for v in got)
                if not ok:
                    return "%s: the list then holds %r" % (name, got)
                msg = check_deep(x, got)
                if not msg:
                    y = list(got)
                    x.sort(key=lambda v: v.key if t in OBJ_TYPES else v)
                    y.sort(key=lambda v: v.key if t in OBJ_TYPES else v)
                    msg = check_deep(x, y)
                if msg:
                    return "%s: %s" % (name, msg)
            else:
                if exc is not None:
                    return "%s never, but sort raised %r" % (name, exc)
                if at is None:
                    break
    return None


def args(t):
    """Ways of calling sort."""
    for n in (0, 1, 2, 5, 9, 70):
        vals = [(i * 37) % 11 - 5 for i in range(n)]
        if t in OBJ_TYPES:
            vals = [Lt(v, i) for i, v in enumerate(vals)]
        k = (lambda v: -v.key) if t in OBJ_TYPES else (lambda v: -v)
        calls = [((), {"key": None}), ((), {"key": None, "reverse": False}), ((), {"key": None, "reverse": True}),
                 ((), {"reverse": 1}), ((), {"reverse": 0}), ((), {"reverse": -1}), ((), {"reverse": 2}), ((), {"key": k, "reverse": 1}),
                 ((), {"reverse": 256}), ((), {"reverse": 65536}), ((), {"reverse": -2 ** 31}), ((), {"reverse": 2 ** 31 - 1}), ((), {"key": k, "reverse": 512}),
                 ((), {"key": k, "reverse": 0}), ((), {"key": 5}), ((), {"key": "x"}), ((), {"kay": k}),
                 ((), {"key": k, "reverse": True, "x": 1}), ((), {"key": lambda a, b: 0}), ((), {"key": lambda: 0}),
                 ((), {"key": lambda v: object()})]
        # true, though a narrow type may take it for 0: in order from high to low, or refused
        for v in (2 ** 32, 2 ** 33, 2 ** 64, -2 ** 32, 1 << 200):
            x = T[t](vals)
            S.transitions += 1
            try:
                x.sort(reverse=v)
                ref = sorted(vals, reverse=True)
            except (OverflowError, TypeError):
                ref = vals
            if not same_seq(x.to_list(), ref):
                return "%s of %d: sort(reverse=%d) gives %r" % (t, n, v, x.to_list())
        for a, kw in calls:
            ref = list(vals)
            x = T[t](ref)
            try:
                ref.sort(*a, **kw)
                want = None
            except Exception as e:
                want = e
            try:
                x.sort(*a, **kw)
                got = None
            except Exception as e:
                got = e
            S.transitions += 1
            S.visit(t, n, repr(kw)[:20])
            if type(got) is not type(want):
                if want is not None and got is None and ref == x.to_list():
                    # more lenient where there is nothing to order or to call: harmless
                    if n < 2:
                        continue
                if type(got) is type(None) or type(want) is type(None) or not isinstance(got, type(want)):
                    return "%s of %d: sort(*%r, **%r): %r, list: %r" % (t, n, a, kw, got, want)
            if got is None:
                if not same_seq(x.to_list(), ref):
                    return "%s of %d: sort(*%r, **%r) gives %r, list: %r" % (t, n, a, kw, x.to_list(), ref)
            elif sorted(map(id, x.to_list())) != sorted(map(id, vals)) and sorted(x.to_list(), key=repr) != sorted(vals, key=repr):
                return "%s of %d: sort(*%r, **%r) refused, but holds %r" % (t, n, a, kw, x.to_list())
    return None
