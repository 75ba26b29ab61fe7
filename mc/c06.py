"""C06: concatenation and repetition match list, also on the container itself."""
import resource

from mc.common import *
from mc.common import build as build_plain

NSH = 16
KINDS = ("same", "list", "other", "tuple", "gen", "iter", "range", "dictkeys", "rev", "sub", "set1")


def BOUNDS(tier):
    return "all pairs of contents of length <= 4 over 2-3 values x kinds of operand x +, +=, extend, *, *= (n in -3..5 and beyond a " \
           "word) x ways of building, each result then changed and the operands checked, and the reverse; self operands; all " \
           "lengths 0-140 and around powers of two to 70001 for 4 CPU configurations; histories of 5 bulk operations; repetition counts around 2^7, 2^8, 2^15, 2^16, 2^31, 2^32, 2^33, 2^48, 2^62 in 16 MB of memory"


def spaces(tier):
    out = [{"name": n, "variant": "plain", "shards": NSH} for n in ("pairs", "rep", "self", "hist", "large")]
    out.append({"name": "wide", "variant": "plain", "shards": NSH})
    out += [{"name": n + "+sub", "variant": "plain", "shards": NSH} for n in ("pairs", "rep", "self")]
    out += [{"name": n + "-asan", "variant": "asan", "shards": NSH} for n in ("pairs", "rep", "self", "large")]
    out += [{"name": "large-" + c, "variant": "cpu@" + c, "shards": NSH} for c in ("avx2", "sse", "none")]
    return out


def sizes(space, tier):
    s = list(range(0, 141)) + [255, 256, 257, 511, 513, 1023, 1024, 1025]
    if tier == "thorough":
        s = list(range(0, 400)) + [511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10000]
    return s if "-asan" not in space else s[::3]


WAYS = ("ctor", "append", "pre", "shrunk", "front")


def gen(space, tier):
    m = 4 if tier == "quick" and "asan" not in space else 3 if tier == "quick" else 5
    if space.startswith("pairs"):
        for t in ALL_TYPES:
            for wa in words(range(2), m):
                for way in WAYS + ("subcls",):
                    for k in KINDS:
                        yield ("p", t, wa, way, k, m)
    elif space.startswith("rep"):
        for t in ALL_TYPES:
            for wa in words(range(3), m):
                for way in WAYS + ("subcls",):
                    yield ("r", t, wa, way)
    elif space.startswith("self"):
        for t in ALL_TYPES:
            for n in range(0, 40):
                for way in WAYS:
                    yield ("s", t, n, way)
    elif space == "wide":
        for t in ALL_TYPES:
            for n in (0, 1, 3):
                for c in WRAPS:
                    if n and c > 2 ** 34 and "Linked" in t and c & 1 and tier == "quick":
                        continue
                    if not (2 ** 17 < c < 2 ** 31 - 3):
                        for op in ("mul", "rmul", "imul"):
                            yield ("w", t, n, c, op)
    elif space == "hist":
        for t in ALL_TYPES:
            for h in itertools.product(range(len(HIST)), repeat=4 if tier == "quick" else 5):
                yield ("h", t, h)
    else:
        for t in ALL_TYPES:
            for n in sizes(space, tier):
                yield ("l", t, n)
            for n in (4095, 4096, 4097, 10001, 32767, 65535, 65536, 65537, 70001) + ((131072, 262145) if tier == "thorough" else ()) if "asan" not in space else ():
                yield ("L", t, n)


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, NSH)


_SUB = {}


def subclass(t):
    if t not in _SUB:
        _SUB[t] = type("Sub" + t, (T[t],), {})
    return _SUB[t]


def build(t, v, way):
    return subclass(t)(v) if way == "subcls" else build_plain(t, v, way)


def vals(t, w):
    V = [-5, 70000, 5] if t in INT_TYPES else [Eq(0, "v"), "v", None]
    return [V[i] for i in w]


def operand(t, kind, v):
    """(what the container gets, what the list gets)"""
    v = list(v)
    if kind == "same":
        return T[t](v), v
    if kind == "list":
        return list(v), v
    if kind == "other":
        o = "IntLinkedList" if t != "IntLinkedList" else "IntArrayList"
        if t in OBJ_TYPES:
            o = [k for k in OBJ_TYPES if k != t][0]
        return T[o](v), v
    if kind == "tuple":
        return tuple(v), v
    if kind == "gen":
        return (x for x in v), v
    if kind == "iter":
        return iter(v), v
    if kind == "range":
        return range(len(v)), list(range(len(v)))
    if kind == "dictkeys":
        return dict.fromkeys(v), list(dict.fromkeys(v))
    if kind == "rev":
        return reversed(T[t](v)), v[::-1]
    if kind == "set1":
        s = set(v[:1])
        return s, list(s)
    if kind == "sub":
        return subclass(t)(v), v


def check(x, want, what):
    msg = check_deep(x, want)
    return msg and "%s: %s" % (what, msg)


def fin(t, i):
    return 1000 + i if t in INT_TYPES else FIN[i]


FIN = [("f", i) for i in range(3000)]


def disturb(t, x):
    """Changes every part of x."""
    x.append(fin(t, 1))
    x.insert(0, fin(t, 2))
    if len(x) > 2:
        x[1] = fin(t, 3)
    x.reverse()
    x.extend([fin(t, 4)] * 20)
    x.clear()
    x.append(fin(t, 5))


def wide(t, n, c, op):
    """x * c for counts that a narrower type takes for small ones: what cannot be held is refused and changes nothing."""
    v = vals(t, range(n))
    x = build(t, v, "ctor")
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    with open("/proc/self/statm") as f:
        used = int(f.read().split()[0]) * 4096
    resource.setrlimit(resource.RLIMIT_AS, (min(hard, used + (16 << 20)), hard))
    got = err = None
    try:
        if op == "mul":
            got = x * c
        elif op == "rmul":
            got = c * x
        else:
            got = _imul(x, c)
    except (MemoryError, RuntimeError, OverflowError) as e:
        err = e
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    S.transitions += 1
    what = "%s of %d: %s by %d" % (t, n, op, c)
    if c > 2 ** 24 and n:
        S.outcome("refused")
        if err is None:
            return what + " gives %d elements" % len(got)
        if isinstance(err, OverflowError) and -2 ** 63 <= c < 2 ** 63:
            return what + ": %r" % err
        if not same_seq(x.to_list(), v):
            return what + ": refused, but %d elements are left" % len(x)
        x.append(v[0])
        if not same_seq(x.to_list(), v + v[:1]):
            return what + ": refused, and then append is wrong"
        return None
    if err is not None:
        return what + ": %r" % err
    S.outcome("result")
    if not same_seq(got.to_list(), v * c):
        return what + ": %d elements, not %d" % (len(got), max(0, n * c))
    if op != "imul" and not same_seq(x.to_list(), v):
        return what + " changes the operand"
    return None


def long(t, n):
    """Both operands, or one of them, long."""
    V = [i * 3 - 1000 for i in range(n)]
    if t in OBJ_TYPES:
        V = [Eq(i, "d") for i in V]
    for la, lb in ((n, n), (n, 3), (2, n), (n, 300), (300, n - 300), (0, n), (n, 0)):
        va, vb = V[:la], V[::-1][:lb]
        for k in ("same", "list", "tuple", "gen", "other", "self"):
            if k == "self":
                if lb != n:
                    continue
                vb = va
            mk = {"same": lambda: T[t](vb), "list": lambda: list(vb), "tuple": lambda: tuple(vb), "gen": lambda: (v for v in vb),
                  "other": lambda: T[("IntLinkedList" if t != "IntLinkedList" else "BigIntArrayList") if t in INT_TYPES else OBJ_TYPES[t == OBJ_TYPES[0]]](vb)}.get(k)
            for op in ("add", "extend", "iadd"):
                if op == "add" and k not in ("same", "list", "self"):
                    continue
                a = T[t](va)
                b = a if k == "self" else mk()
                S.transitions += 1
                if op == "extend":
                    a.extend(b)
                    r = a
                else:
                    r = a + b if op == "add" else _iadd(a, b)
                what = "%s of %d: %s with %s of %d" % (t, la, op, k, len(vb))
                want = va + vb
                if len(r) != len(want) or not same_seq(r if type(r) is list else r.to_list(), want):
                    return what + " is wrong"
                if not same_seq(list(reversed(r)), want[::-1]):
                    return what + " is wrong backwards"
                if op == "add" and not same_seq(a.to_list(), va):
                    return what + " changes the first operand"
                if k in ("same", "other", "list") and not same_seq(list(b), vb):
                    return what + " changes the second operand"
                S.visit(t, la, lb, k, op)
    for q in (0, 1, 2, 3):
        for op in ("mul", "rmul", "imul"):
            a = T[t](V)
            r = a * q if op == "mul" else q * a if op == "rmul" else _imul(a, q)
            S.transitions += 1
            if len(r) != n * q or not same_seq(r if type(r) is list else r.to_list(), V * q) or not same_seq(list(reversed(r)), (V * q)[::-1]):
                return "%s of %d: %s by %d is wrong" % (t, n, op, q)
            if op != "imul" and not same_seq(a.to_list(), V):
                return "%s of %d: %s by %d changes it" % (t, n, op, q)
    c = T[t](V).copy()
    if not same_seq(c.to_list(), V) or not same_seq(list(reversed(c)), V[::-1]):
        return "copy of %s of %d is wrong" % (t, n)
    return None


def execute(space, case):
    k = case[0]
    if k == "L":
        return long(*case[1:])
    if k == "w":
        S.visit(*case)
        return wide(*case[1:])
    if k == "p":
        _, t, wa, way, kind, m = case
        va = vals(t, wa)
        for wb in words(range(2), m):
            vb = vals(t, wb)
            what = "%s %r (%s) and %s %r" % (t, va, way, kind, vb)
            S.visit(t, wa, wb, kind)
            S.transitions += 6
            for op in ("extend", "iadd"):
                a = build(t, va, way)
                b, rb = operand(t, kind, vb)
                ra = list(va)
                old = a
                if op == "extend":
                    if a.extend(b) is not None:
                        return what + ": extend returns something"
                else:
                    a += b
                    if a is not old:
                        return what + ": += binds another object"
                ra.extend(rb)
                msg = check(a, ra, what + ": " + op)
                if msg:
                    return msg
                if kind in ("same", "list", "other", "sub"):
                    # operand unchanged, and independent afterwards
                    if not same_seq(list(b), rb):
                        return "%s: %s changed its operand to %r" % (what, op, list(b))
                    disturb(t, b)
                    msg = check(a, ra, what + ": %s, then the operand changed" % op)
                    if msg:
                        return msg
                    b, rb = operand(t, kind, vb)
                    a = build(t, va, way)
                    if op == "extend":
                        a.extend(b)
                    else:
                        a += b
                    disturb(t, a)
                    if not same_seq(list(b), rb):
                        return "%s: changing the result of %s changed the operand to %r" % (what, op, list(b))
                a.append(fin(t, 0))
            if kind in ("same", "list", "other", "sub"):
                a = build(t, va, way)
                b, rb = operand(t, kind, vb)
                if kind in ("other", "sub"):
                    try:
                        r = a + b
                    except TypeError:
                        r = None
                else:
                    r = a + b
                if r is not None:
                    if kind == "same" and not isinstance(r, BASE_T[t]):
                        return "%s: + gives a %s" % (what, type(r).__name__)
                    if r is a or r is b:
                        return what + ": + gives an operand"
                    if not same_seq(list(r), va + rb):
                        return "%s: + gives %r" % (what, list(r))
                    if not same_seq(list(a), va) or not same_seq(list(b), rb):
                        return "%s: + changed an operand: %r %r" % (what, a, b)
                    if isinstance(r, BASE_T[t]):
                        msg = check(r, va + rb, what + ": +")
                        if msg:
                            return msg
                    # independent both ways
                    disturb(t, a)
                    disturb(t, b)
                    if not same_seq(list(r), va + rb):
                        return "%s: the sum follows its operands: %r" % (what, list(r))
                    a = build(t, va, way)
                    b, rb = operand(t, kind, vb)
                    r = a + b
                    disturb(t, r)
                    if not same_seq(list(a), va) or not same_seq(list(b), rb):
                        return "%s: the operands follow the sum: %r %r" % (what, a, b)
        return None
    if k == "r":
        _, t, wa, way = case
        va = vals(t, wa)
        ns = list(range(-3, 6)) + [True, False, Idx(2), Idx(0), Idx(-1), -2 ** 63, -2 ** 62]
        if not va or len(va) >= 2:
            ns += [2 ** 62, 2 ** 63 - 1]
        for n in ns:
            for op in ("mul", "rmul", "imul"):
                a = build(t, va, way)
                S.transitions += 1
                S.visit(t, wa, repr(n))
                what = "%s %r (%s) %s %r" % (t, va, way, op, n)
                try:
                    want = list(va) * n
                except (MemoryError, OverflowError) as e:
                    want = e
                old = a
                try:
                    if op == "mul":
                        r = a * n
                    elif op == "rmul":
                        r = n * a
                    else:
                        a *= n
                        r = a
                except (MemoryError, OverflowError, RuntimeError) as e:
                    r = e
                if isinstance(want, Exception):
                    if not isinstance(r, Exception):
                        return "%s: %r, list raises %r" % (what, r, want)
                    if not same_seq(list(old), va):
                        return "%s: refused but the container is %r" % (what, list(old))
                    continue
                if isinstance(r, Exception):
                    return "%s raises %r" % (what, r)
                if op == "imul":
                    if r is not old:
                        return what + " binds another object"
                    msg = check(r, want, what)
                    if msg:
                        return msg
                    r.append(fin(t, 0))
                    r.insert(0, fin(t, 1))
                    msg = check(r, [fin(t, 1)] + want + [fin(t, 0)], what + ", then append and insert")
                    if msg:
                        return msg
                else:
                    if r is old or not same_seq(list(r), want):
                        return "%s gives %r" % (what, list(r))
                    if not same_seq(list(old), va):
                        return "%s changed its operand: %r" % (what, old)
                    if isinstance(r, BASE_T[t]):
                        msg = check(r, want, what)
                        if msg:
                            return msg
                    disturb(t, old)
                    if not same_seq(list(r), want):
                        return "%s: the result follows its operand: %r" % (what, r)
                    a = build(t, va, way)
                    r = a * n
                    disturb(t, r)
                    if not same_seq(list(a), va):
                        return "%s: the operand follows the result: %r" % (what, a)
        return None
    if k == "s":
        _, t, n, way = case
        va = distinct(t, n)
        for name, f, want in (
                ("a + a", lambda a: a + a, va + va),
                ("a += a", lambda a: _iadd(a, a), va + va),
                ("a.extend(a)", lambda a: a.extend(a) or a, va + va),
                ("a.extend(a) twice", lambda a: a.extend(a) or a.extend(a) or a, va * 4),
                ("a += a; a += a", lambda a: _iadd(_iadd(a, a), a), va * 4),
                ("a.extend(reversed(a))", lambda a: a.extend(reversed(a)) or a, va + va[::-1]),
                ("a += a + a", lambda a: _iadd(a, a + a), va * 3),
                ("a += a * 2", lambda a: _iadd(a, a * 2), va * 3),
                ("a += a[:]", lambda a: _iadd(a, a[:]), va * 2),
                ("a += a.copy()", lambda a: _iadd(a, a.copy()), va * 2),
                ("a += T(a)", lambda a: _iadd(a, T[t](a)), va * 2),
                ("a.__init__(a + a)", lambda a: a.__init__(a + a) or a, va * 2),
                ("a *= 2; a *= 2", lambda a: _imul(_imul(a, 2), 2), va * 4),
                ("a + a + a", lambda a: a + a + a, va * 3),
                ("2 * a + a", lambda a: 2 * a + T[t](a), va * 3),
        ):
            a = build(t, va, way)
            r = f(a)
            S.transitions += 1
            S.visit(t, n, name)
            if name.startswith("a.__init__") and "__init__" in name:
                pass
            if not same_seq(list(r), want):
                return "%s of %d (%s): %s gives %.500r, list %.500r" % (t, n, way, name, list(r), want)
            if isinstance(r, BASE_T[t]):
                msg = check(r, want, "%s of %d (%s): %s" % (t, n, way, name))
                if msg:
                    return msg
            if r is not a and not same_seq(list(a), va):
                return "%s of %d (%s): %s changed a" % (t, n, way, name)
        return None
    if k == "h":
        _, t, h = case
        for last in range(len(HIST)):
            ra = distinct(t, 2)
            a = T[t](ra)
            b, rb = T[t](), []
            seq = h + (last,)
            for i in seq:
                a, b = HIST[i](a, b)
                ra, rb = HIST[i](ra, rb)
                if len(ra) > 200 or len(rb) > 200:
                    break
                S.transitions += 1
            msg = None
            for x, y in ((a, ra), (b, rb)):
                if not same_seq(list(x), y):
                    msg = "holds %.300r, list %.300r" % (list(x), y)
                elif isinstance(x, BASE_T[t]):
                    msg = check_deep(x, y)
                if msg:
                    return "%s, bulk history %r: %s" % (t, seq, msg)
            if (a is b) != (ra is rb):
                return "%s, bulk history %r: aliasing differs" % (t, seq)
            S.visit(t, state_key(ra), state_key(rb))
        return None
    _, t, n = case
    va = distinct(t, n)
    for way in ("ctor", "append", "front"):
        a = build(t, va, way)
        for m in (0, 1, 7, 8, 9, 16, n):
            vb = [fin(t, i) for i in range(m)]
            for b in (T[t](vb), vb):
                r = a + b
                S.transitions += 3
                if not same_seq(list(r), va + vb):
                    return "%s of %d + %s of %d is wrong" % (t, n, type(b).__name__, m)
                if not isinstance(r, BASE_T[t]) and type(b) is not list:
                    return "%s + %s is a %s" % (t, t, type(r).__name__)
                c = build(t, va, way)
                c.extend(b)
                msg = check(c, va + vb, "%s of %d (%s) extended by %d" % (t, n, way, m))
                if msg:
                    return msg[:1000]
                c += b
                msg = check(c, va + vb + vb, "%s of %d (%s) extended by %d, += %d" % (t, n, way, m, m))
                if msg:
                    return msg[:1000]
        for q in (0, 1, 2, 3, 4, 9):
            r = a * q
            if not same_seq(list(r), va * q):
                return "%s of %d (%s) * %d is wrong" % (t, n, way, q)
            r = q * a
            if not same_seq(list(r), va * q):
                return "%d * %s of %d (%s) is wrong" % (q, t, n, way)
            c = build(t, va, way)
            c *= q
            S.transitions += 3
            msg = check(c, va * q, "%s of %d (%s) *= %d" % (t, n, way, q))
            if msg:
                return msg[:1000]
        if not same_seq(a.copy().to_list(), va) or not same_seq(list(T[t](a)), va):
            return "%s of %d (%s): copy is wrong" % (t, n, way)
        S.visit(t, n, way)
    return None


def _iadd(x, o):
    x += o
    return x


def _imul(x, n):
    x *= n
    return x


def _h_swap(a, b):
    return b, a


def _h_ext(a, b):
    a.extend(b)
    return a, b


def _h_iaddself(a, b):
    a += a
    return a, b


def _h_sum(a, b):
    return a, a + b


def _h_mul(a, b):
    a *= 2
    return a, b


def _h_mulnew(a, b):
    return a, a * 3


def _h_alias(a, b):
    return a, a


def _h_pop(a, b):
    if len(b):
        b.pop(0)
    return a, b


def _h_app(a, b):
    b.append(7)
    return a, b


def _h_zero(a, b):
    a *= 0
    return a, b


def _h_copy(a, b):
    return a.copy(), b


def _h_iadd(a, b):
    a += b
    return a, b


HIST = [_h_swap, _h_ext, _h_iaddself, _h_sum, _h_mul, _h_mulnew, _h_alias, _h_pop, _h_app, _h_zero, _h_copy, _h_iadd]
