"""C01: element operations behave as on list in every history."""
from mc.common import *

NSTATE = 16
HINT = 24
DEPTH = {"quick": 4, "thorough": 5}


def BOUNDS(tier):
    return ("contents of length <= 4 over 3 values (int) or 4 (object: equal and unequal distinct objects, NaN) reached "
            "in 14 ways x every element operation with every argument, twice; all histories of %d operations of 23-26 from "
            "2 starts, 3 of them under AddressSanitizer; lengths 0-70 and powers of two +-1 up to 4097, every position, "
            "and lengths about 2**15, 2**16 and 2**17%s at the positions about narrow counters' limits; "
            "%d indices that narrower types take for small ones; "
            "for 4 CPU configurations; all histories of %d operations of 12 on two containers of a type, remade on the way; every word of 3 "
            "operations of %d repeated %d times, of 4 operations an eighth as often" % (DEPTH[tier], "" if tier == "quick" else ", 2**18, 2**19 and 2**20", len(WRAPS),
                                                    DEPTH[tier], len(PERIOD), REPEAT[tier]))


def spaces(tier):
    big = tier == "thorough"
    out = [{"name": "states", "variant": "plain", "shards": NSTATE},
           {"name": "hist", "variant": "plain", "shards": HINT if not big else HINT * 8},
           {"name": "large", "variant": "plain", "shards": 16},
           {"name": "hist3", "variant": "asan", "shards": 16},
           {"name": "fresh", "variant": "plain", "shards": 16},
           {"name": "long", "variant": "plain", "shards": 40},
           {"name": "wide", "variant": "plain", "shards": 16},
           {"name": "pair", "variant": "plain", "shards": 16}, {"name": "pair-asan", "variant": "asan", "shards": 16},
           {"name": "period", "variant": "plain", "shards": 16}, {"name": "period4", "variant": "plain", "shards": 16},
           {"name": "period-asan", "variant": "asan", "shards": 16},
           {"name": "states+sub", "variant": "plain", "shards": NSTATE}, {"name": "hist3+sub", "variant": "asan", "shards": 16}]
    for c in ("avx2", "sse", "none"):
        out.append({"name": "large-" + c, "variant": "cpu@" + c, "shards": 8})
    return out


def element_ops(tname, n, toks, full):
    """Every element operation with every argument for a container of length about n."""
    ops = [("pop",), ("clear",), ("reverse",), ("len",), ("bool",)]
    idx = range(-n - 2, n + 3) if full else sorted({-n - 1, -n, -1, 0, 1, n // 2, n - 1, n})
    for t in toks:
        ops += [("append", t), ("remove", t), ("index", t), ("count", t), ("in", t)]
        for i in idx:
            ops += [("insert", i, t), ("set", i, t)]
            if full:
                ops.append(("index2", t, i))
    for i in idx:
        ops += [("popi", i), ("get", i), ("del", i)]
    if full:
        for t in toks[:2]:
            for a in range(-n - 1, n + 2):
                for b in range(-n - 1, n + 2):
                    ops.append(("index3", t, a, b))
        for i in (2 ** 63 - 1, -2 ** 63):
            ops += [("insert", i, toks[0]), ("popi", i), ("get", i), ("del", i), ("set", i, toks[0])]
            for j in (2 ** 63 - 1, -2 ** 63):
                ops.append(("index3", toks[0], i, j))
        ops.append(("index3", toks[0], -2 ** 70, 2 ** 70))
    for w in ((), (toks[0],), (toks[1], toks[0])):
        ops.append(("extend", w))
    if tname in ARRAY_TYPES:
        for m in (range(0, n + 4) if full else (0, 1, n, n + 2)):
            ops.append(("resize", m))
    return ops


def toks_for(tname):
    return (0, 1, 2) if tname in INT_TYPES else (1, 3, 4, 5)


def hist_ops(tname):
    if tname in INT_TYPES:
        t, u = 1, 2
    else:
        t, u = 3, 4
    ops = [("append", t), ("append", u), ("insert", 0, u), ("insert", 1, t), ("insert", -1, u), ("insert", 99, t),
           ("extend", (t, u)), ("extend", ()), ("pop",), ("popi", 0), ("popi", 1), ("popi", -2), ("remove", t),
           ("remove", u), ("clear",), ("reverse",), ("set", 0, u), ("set", -1, t), ("set", 2, t), ("del", 0), ("del", -1),
           ("index", u), ("count", t)]
    if tname in ARRAY_TYPES:
        ops += [("resize", 2), ("resize", 5), ("resize", 0)]
    return ops


def sizes(tier):
    s = list(range(0, 71))
    for k in range(7, 13):
        s += [2 ** k - 1, 2 ** k, 2 ** k + 1]
    if tier == "thorough":
        s += list(range(71, 200)) + [5000, 5001, 8191, 8192, 8193, 65537]
    return sorted(set(s))


def gen_states(tier):
    for tname in ALL_TYPES:
        toks = toks_for(tname)
        maxlen = (4 if tname in INT_TYPES else 3) if tier == "quick" else (5 if tname in INT_TYPES else 4)
        for w in words(toks, maxlen):
            for way in BUILDS:
                yield ("s", tname, w, way)


def gen_hist(tier, depth):
    for tname in ALL_TYPES:
        ops = hist_ops(tname)
        starts = ((), (1, 2, 1)) if tname in INT_TYPES else ((), (3, 6, 4))
        for start in starts:
            # the last operation is enumerated by execute
            for h in itertools.product(ops, repeat=depth - 1):
                yield ("h", tname, start, h)


def gen_large(tier):
    for tname in ALL_TYPES:
        for n in sizes(tier):
            yield ("l", tname, n)


# lengths about the limits of narrow counters (8, 15, 16, 17 and, thorough, 18-20 bits)
LONG = (32768, 65535, 65536, 65537, 131072, 131073, 150001)
LONG_THOROUGH = (32767, 32769, 65534, 98304, 131070, 131071, 131074, 262143, 262144, 262145, 524289, 1048577)


def gen_long(tier):
    for n in LONG if tier == "quick" else LONG + LONG_THOROUGH:
        for tname in ALL_TYPES:
            for part in range(4):
                yield ("g", tname, n, part)


FRESH = ["x.append(7)", "x.insert(0, 7)", "x.extend([7, 8])", "x.pop()", "x.pop(0)", "x.remove(1)", "x.clear()", "x.reverse()",
         "x.index(2)", "x.count(2)", "2 in x", "len(x)", "x[1]", "x[0:2]", "bool(x)", "x.sort()", "x.copy()", "x.to_list()",
         "x + [7]", "x * 2", "2 * x", "x == [1, 2, 3]", "x < [2]", "iter(x)", "next(iter(x))", "reversed(x)", "next(reversed(x))",
         "repr(x)", "str(x)", "x.__len__()", "x.__getitem__(0)", "x.__contains__(1)", "x.__setitem__(0, 7)", "x.__delitem__(0)",
         "x.__iadd__([7])", "x.__imul__(2)", "x.__eq__([1, 2, 3])", "x.__iter__().__next__()", "iter(x).__iter__()",
         "x.__reversed__().__next__()", "x.__repr__()", "x.__class__", "x.__doc__", "hash(x)", "isinstance(x, type(x))"]


def gen_fresh():
    """The first thing ever done with a type in a new process."""
    for tname in ALL_TYPES:
        for e in FRESH:
            yield ("f", tname, e, "call")
            name = e[2:].split("(")[0]
            if e.startswith("x.") and "(" in e:
                yield ("f", tname, "x.%s" % name, "attr")
                if e.count("(") == 1:
                    yield ("f", tname, "x.%s(*%s, **{})" % (name, "[%s]" % e[e.index("(") + 1:-1]), "kwargs")


FRESH_CODE = """
import sys
from pyfastutil.%s import %s as T
class S(list):
    def copy(self): return list(self)
    def to_list(self): return list(self)
def show(f, x):
    try:
        r = f(x)
    except Exception as e:
        return type(e).__name__, list(x)
    if not isinstance(r, (int, str, bool, type(None))):
        if type(r).__name__.endswith('List') or isinstance(r, list):
            r = list(r)
        else:
            r = None
    return r, list(x)
f = lambda x: %s
a = show(f, T([1, 2, 3]))
b = show(f, S([1, 2, 3]))
if 'doc' in %r: a = b
sys.exit(0 if a == b else '%%r instead of %%r' %% (a, b))
"""


def fresh(tname, e):
    import subprocess
    import sys
    mod = "ints" if tname in INT_TYPES else "objects"
    r = subprocess.run([sys.executable, "-c", FRESH_CODE % (mod, tname, e, e)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    S.transitions += 1
    S.visit(tname, e)
    if r.returncode:
        return "first operation on %s in a process, %s: exit %d %s" % (tname, e, r.returncode, r.stdout[-1500:])
    return None


# two containers of the same type used in turn, either of which may be dropped and made again
PAIR = ("append", "insert1", "pop0", "pop", "get1", "get-2", "set1", "del1", "reverse", "index", "new", "clear")


def pair_ops(x, o, v):
    if o == "append":
        return x.append(v)
    if o == "insert1":
        return x.insert(1, v)
    if o == "pop0":
        return x.pop(0)
    if o == "pop":
        return x.pop()
    if o == "get1":
        return x[1]
    if o == "get-2":
        return x[-2]
    if o == "set1":
        return _set(x, 1, v)
    if o == "del1":
        return _del(x, 1)
    if o == "reverse":
        return x.reverse()
    if o == "index":
        return x.index(x[2])
    return x.clear()


def outcome(x, o, v):
    try:
        return pair_ops(x, o, v)
    except IndexError:
        return IndexError
    except ValueError:
        return ValueError


def pair(tname, h):
    t = T[tname]
    fresh_value = (lambda i: 1000 + i) if tname in INT_TYPES else (lambda i: "value %d" % i)
    for last in range(2 * len(PAIR)):
        x = [t([fresh_value(j) for j in range(3)]), t([fresh_value(j) for j in range(10, 14)])]
        ref = [[fresh_value(j) for j in range(3)], [fresh_value(j) for j in range(10, 14)]]
        for step, i in enumerate(h + (last,)):
            o, k = PAIR[i // 2], i % 2
            v = fresh_value(20 + step)
            S.transitions += 1
            if o == "new":
                x[k] = None
                x[k] = t([v, fresh_value(30), fresh_value(31)])
                ref[k] = [v, fresh_value(30), fresh_value(31)]
                continue
            got, want = outcome(x[k], o, v), outcome(ref[k], o, v)
            if got != want:
                return "%s: step %d of %s gives %r, list %r" % (tname, step, pair_text(h + (last,)), got, want)
        for k in (1, 0):
            if len(x[k]) != len(ref[k]) or [x[k][j] for j in range(len(ref[k]))] != ref[k] or x[k].to_list() != ref[k]:
                return "%s: after %s number %d holds %r, list %r" % (tname, pair_text(h + (last,)), k, x[k].to_list(), ref[k])
    S.visit("pair", tname, h)
    return None


def pair_text(h):
    return " ".join("%s(%s)" % (PAIR[i // 2], "ab"[i % 2]) for i in h)


# the same few operations again and again: growing, shrinking and wandering containers
PERIOD = ("append", "insert0", "insertmid", "inserttail", "pop", "pop0", "popmid", "delthird", "setmid", "getmid", "get-1", "extend3",
          "clear", "reverse", "removemid", "sliceset", "slicedel")
REPEAT = {"quick": 400, "thorough": 2500}


def period_op(x, o, v, few, linked):
    n = len(x)
    if o == "append":
        return x.append(v)
    if o == "insert0":
        return x.insert(0, v)
    if o == "insertmid":
        return x.insert(n // 2, v)
    if o == "inserttail":
        return x.insert(-1, v)
    if o == "pop":
        return x.pop()
    if o == "pop0":
        return x.pop(0)
    if o == "popmid":
        return x.pop(n // 2)
    if o == "delthird":
        return _del(x, n // 3)
    if o == "setmid":
        return _set(x, n // 2, v)
    if o == "getmid":
        return x[n // 2]
    if o == "get-1":
        return x[-1]
    if o == "extend3":
        return x.extend(few)
    if o == "clear":
        return x.clear() if n > 40 else None
    if o == "reverse":
        return x.reverse()
    if o == "removemid":
        return x.remove(x[n // 2])
    if o == "sliceset":
        x[n // 2:n // 2 + 1] = few
        return None
    del x[n // 4:n // 4 + 4]
    return None


def period(tname, h, repeat):
    t = T[tname]
    linked = "Linked" in tname
    val = (lambda i: i) if tname in INT_TYPES else (lambda i: ("value", i))
    for last in range(len(PERIOD)):
        w = [PERIOD[i] for i in h + (last,)]
        x, ref = t(), []
        c = 0
        for r in range(repeat):
            for o in w:
                c += 4
                v, few = val(c), [val(c + 1), val(c + 2), val(c + 3)]
                try:
                    want = period_op(ref, o, v, few, linked)
                except IndexError:
                    want = IndexError
                try:
                    got = period_op(x, o, v, few, linked)
                except IndexError:
                    got = IndexError
                if got != want:
                    return "%s: round %d of %s: %s gives %r, list %r" % (tname, r, w, o, got, want)
            if r % 16 == 15 and (len(x) != len(ref) or x.to_list() != ref):
                return "%s: after %d rounds of %s the contents differ from the list's" % (tname, r + 1, w)
        S.transitions += repeat * len(w)
        msg = check_contents(x, ref)
        if msg:
            return "%s: after %d rounds of %s: %s" % (tname, repeat, w, msg[:500])
    S.visit("period", tname, h)
    return None


def enum(space, shard, tier):
    if space.startswith("pair"):
        d = DEPTH[tier] - (2 if space.endswith("asan") else 1)
        return shard_filter((("p", t, h) for t in ALL_TYPES for h in itertools.product(range(2 * len(PAIR)), repeat=d)), shard, 16)
    if space.startswith("period"):
        d = {"period": 2, "period4": 3, "period-asan": 1}[space]
        return shard_filter((("P", t, h, REPEAT[tier] // (8 if d == 3 else 1)) for t in ALL_TYPES for h in itertools.product(range(len(PERIOD)), repeat=d)), shard, 16)
    if space == "states":
        return shard_filter(gen_states(tier), shard, NSTATE)
    if space == "hist":
        return shard_filter(gen_hist(tier, DEPTH[tier]), shard, HINT if tier == "quick" else HINT * 8)
    if space == "hist3":
        return shard_filter(gen_hist(tier, 3), shard, 16)
    if space == "fresh":
        return shard_filter(gen_fresh(), shard, 16)
    if space == "long":
        return shard_filter(gen_long(tier), shard, 40)
    if space == "wide":
        return shard_filter((("w", t, n, i) for t in ALL_TYPES for n in (0, 1, 2, 3, 5) for i in WRAPS), shard, 16)
    if space == "large":
        return shard_filter(gen_large(tier), shard, 16)
    return shard_filter(gen_large(tier), shard, 8)


def execute(space, case):
    if case[0] == "s":
        _, tname, w, way = case
        ops = element_ops(tname, len(w), toks_for(tname), True)
        for op in ops:
            # and the same once more: the operation on what the first one left behind
            for seq in ((op,), (op, op)):
                msg = run_history(tname, w, way, seq)
                if msg:
                    return msg
        return None
    if case[0] == "h":
        _, tname, start, h = case
        for op in hist_ops(tname):
            msg = run_history(tname, start, "ctor", h + (op,), deep=False)
            if msg:
                return msg
        return None
    if case[0] == "f":
        return fresh(case[1], case[2])
    if case[0] == "w":
        _, tname, n, i = case
        toks = toks_for(tname)
        w = tuple(toks[j % 2] for j in range(n))
        ops = [(o, i, toks[2]) for o in ("insert", "set")] + [(o, i) for o in ("popi", "get", "del")]
        for t in toks[:3]:
            ops += [("index2", t, i)] + [("index3", t, a, b) for j in (-n, -1, 0, 1, n, i) for a, b in ((i, j), (j, i))]
        for op in ops:
            msg = run_history(tname, w, "ctor", (op,))
            if msg:
                return msg
        return None
    if case[0] == "p":
        return pair(case[1], case[2])
    if case[0] == "P":
        return period(*case[1:])
    return large(*case[1:])


def large(tname, n, part=None):
    """One long container of distinct values: every operation at every (or at every notable) position."""
    if tname in INT_TYPES:
        V = [((i * 2654435761) % (2 ** 32)) - 2 ** 31 for i in range(n)] + [123456789]
    else:
        V = [object() for i in range(n)] + [object()]
    base = V[:n]
    new = V[n]
    t = T[tname]
    if n <= 70:
        pos = range(-n - 1, n + 2)
    elif part is not None:
        pos = sorted({0, 1, n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1, n, n + 1, -1, -2, -n // 2, -n, -n - 1} |
                     {p for k in (255, 256, 32767, 32768, 65535, 65536, 131072) for p in (k, n - k, -k) if -n <= p < n})
    else:
        pos = sorted({p for b in (0, n // 2, n, 8, 16, 32, 64) for p in range(b - 2, b + 3) if p <= n + 1} |
                     {-p for b in (1, n // 2, n) for p in range(b - 1, b + 2)})
    ops = [("append",), ("reverse",), ("clear",), ("reverse2",), ("pop",), ("copyrev",)]
    for p in pos:
        ops += [("insert", p), ("popi", p), ("get", p), ("set", p), ("del", p)]
        if 0 <= p < n:
            ops += [("remove", p), ("index", p), ("count", p)]
    if tname in ARRAY_TYPES:
        ops += [("resize", m) for m in (0, 1, n // 2, max(0, n - 1), n, n + 1, n + 7, 2 * n + 1, 4 * n + 3)]
    if part is not None:
        ops = ops[part::4]
    for op in ops:
        ref = list(base)
        x = t(base)
        S.transitions += 1
        for k, y in enumerate((x, ref)):
            try:
                o = op[0]
                if o == "append":
                    r = y.append(new)
                elif o == "reverse":
                    r = y.reverse()
                elif o == "reverse2":
                    r = y.append(new), y.reverse(), y.append(new), y.reverse()
                elif o == "copyrev":
                    r = y.copy()
                    r.reverse()
                    r = r.copy() if k else r.to_list()
                elif o == "clear":
                    r = y.clear()
                elif o == "pop":
                    r = y.pop()
                elif o == "insert":
                    r = y.insert(op[1], new)
                elif o == "popi":
                    r = y.pop(op[1])
                elif o == "get":
                    r = y[op[1]]
                elif o == "set":
                    r = _set(y, op[1], new)
                elif o == "del":
                    r = _del(y, op[1])
                elif o == "remove":
                    r = y.remove(base[op[1]])
                elif o == "index":
                    r = y.index(base[op[1]])
                elif o == "count":
                    r = y.count(base[op[1]]), base[op[1]] in y, new in y
                elif o == "resize":
                    if k == 0:
                        r = y.resize(op[1])
                    else:
                        r = None
                        m = op[1]
                        y[:] = y[:m] + [0 if tname in INT_TYPES else None] * (m - len(y))
                r = ("v", r)
            except Exception as e:
                r = ("e", type(e))
            if k == 0:
                got = r
        S.visit(tname, n, op)
        if got != r:
            return "%s of %d elements: %r gives %.200r, list: %.200r" % (tname, n, op, got, r)
        msg = check_contents(x, ref)
        if msg:
            return "%s of %d elements after %r: %s" % (tname, n, op, msg[:500])
    return check_deep(t(base), base) if part in (None, 0) else None


def _set(x, i, v):
    x[i] = v


def _del(x, i):
    del x[i]
