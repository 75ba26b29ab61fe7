"""C13: container operations are atomic with respect to other threads."""
import _thread
import ctypes
import sys

from mc.common import *

NSH = 32
LIB = None
CAP = 60000   # instructions of a region at which a switch is possible
STEPS = {"quick": 100, "thorough": 600}


def BOUNDS(tier):
    return "two threads, one container; all pairs of %d operations and all pairs of sequences of 2 out of %d core operations x contents x all " \
           "five containers; every schedule with at most %d switches, a switch being possible between operations, where an operation gives " \
           "up the interpreter lock, before it takes it again, and at every machine instruction in between (in regions of more " \
           "than %d instructions at that many of the first 60000, evenly spaced ones; two switches within such a region at 12 x 12 places); contents of up to 70001 elements" % (len(OPS13), len(CORE), 2 if tier == "quick" else 3, STEPS[tier])


ASSUMPTIONS = ["two threads", "an operation that never gives up the interpreter lock cannot be interrupted (CPython 3.12 switches threads only between bytecodes)"]


def spaces(tier):
    return [{"name": "pairs", "variant": "sched", "shards": NSH}, {"name": "seqs", "variant": "sched", "shards": NSH}, {"name": "pairs+sub", "variant": "sched", "shards": NSH}, {"name": "large", "variant": "sched", "shards": NSH}]


def resize(x, n):
    if type(x) is list or not hasattr(x, "resize"):
        return None
    return x.resize(n)


OPS13 = {
    "sort": lambda x: x.sort(), "sortr": lambda x: x.sort(reverse=True), "rev": lambda x: x.reverse(), "mul": lambda x: (x * 3).to_list(), "rmul": lambda x: (2 * x).to_list(),
    "imul2": lambda x: x.__imul__(2) and None, "imul0": lambda x: x.__imul__(0) and None, "mul0": lambda x: (x * 0).to_list(), "copy": lambda x: x.copy().to_list(),
    "tolist": lambda x: x.to_list(), "list": lambda x: list(x), "rlist": lambda x: list(reversed(x)), "len": lambda x: len(x), "get0": lambda x: x[0], "get-1": lambda x: x[-1],
    "set0": lambda x: x.__setitem__(0, 50), "set-1": lambda x: x.__setitem__(-1, 60), "app": lambda x: x.append(70), "app40": lambda x: x.extend(list(range(40))),
    "ins0": lambda x: x.insert(0, 80), "pop": lambda x: x.pop(), "pop0": lambda x: x.pop(0), "rem": lambda x: x.remove(3), "del0": lambda x: x.__delitem__(0), "clear": lambda x: x.clear(),
    "getsl": lambda x: list(x[1:]), "getrev": lambda x: list(x[::-1]), "setsl": lambda x: x.__setitem__(slice(0, 2), [90, 91, 92]), "delsl": lambda x: x.__delitem__(slice(1, None)),
    "delstep": lambda x: x.__delitem__(slice(None, None, 2)), "ext": lambda x: x.extend([5, 6]), "extself": lambda x: x.extend(x), "iaddself": lambda x: x.__iadd__(x) and None,
    "add": lambda x: list(x + x), "addl": lambda x: list(x + [1]), "in": lambda x: 3 in x, "idx": lambda x: x.index(3), "count": lambda x: x.count(3), "eq": lambda x: x == x.copy(),
    "eql": lambda x: x == [3, 1, 2], "lt": lambda x: x < [3, 1, 3], "repr": lambda x: repr(x), "init": lambda x: x.__init__([4, 4]), "ctor": lambda x: type(x)(x).to_list(),
    "resize1": lambda x: resize(x, 1), "resize50": lambda x: resize(x, 50), "view": lambda x: view(x), "setall": lambda x: x.__setitem__(slice(None), [7] * 30),
}
CORE = ("sort", "rev", "imul2", "tolist", "set-1", "app", "pop0", "clear", "app40", "setsl", "view", "mul")
BIG = ("sort", "sortr", "rev", "mul", "imul2", "copy", "tolist", "list", "set0", "set-1", "app", "app40", "pop", "pop0", "clear", "setsl", "delstep", "extself", "resize1", "eq", "view", "add")
CONTENT = ((), (3, 1, 2), (5, 3, 3, -1, 2, 7, 0), (1, 2, 3, 4))


def view(x):
    try:
        v = memoryview(x)
    except TypeError:
        return None
    r = v.tolist()
    v.release()
    return r


def gen(space, tier):
    for t in ALL_TYPES:
        if space == "pairs":
            for ci in range(len(CONTENT)):
                for a in OPS13:
                    yield (t, ci, (a,), None)
        elif space == "seqs":
            for a in itertools.product(CORE, repeat=2):
                for b0 in CORE:
                    yield (t, 1, a, b0)
        else:
            for n in (40, 100) if tier == "quick" else (33, 40, 64, 65, 100, 300):
                for a in BIG:
                    yield (t, -n, (a,), "big")
            # the other sorting algorithm
            for n in (5001,) if tier == "quick" else (4999, 5000, 5001, 10000):
                for a in OPS13:
                    yield (t, -n, (a,), "huge")
            for n in (70001,) if tier == "quick" else (70001, 300000):
                for a in OPS13:
                    # a linked list is walked anew for each element of these
                    if "Linked" not in t or a not in ("getsl", "getrev", "eq"):
                        yield (t, -n, (a,), "vast")


def enum(space, shard, tier):
    return shard_filter(gen(space, tier), shard, NSH)


def setup():
    global LIB
    if LIB is not None:
        return
    import importlib
    m = sys.modules["pyfastutil.__pyfastutil"] if "pyfastutil.__pyfastutil" in sys.modules else importlib.import_module("pyfastutil.__pyfastutil")
    LIB = ctypes.CDLL(m.__file__)
    LIB.sched_setup.argtypes = [ctypes.POINTER(ctypes.c_long), ctypes.c_int, ctypes.c_long, ctypes.c_long]
    for n in ("sched_points", "sched_regions", "sched_steps"):
        getattr(LIB, n).restype = ctypes.c_long
        getattr(LIB, n).argtypes = []
    LIB.sched_enter.argtypes = [ctypes.c_int]
    LIB.sched_run.argtypes = [ctypes.c_int]
    sys.setswitchinterval(100)


def do(x, op):
    try:
        r = OPS13[op](x)
        return ("v", r)
    except Exception as e:
        return ("e", type(e).__name__)


def body(i, x, ops, out):
    LIB.sched_enter(i)
    try:
        for k, op in enumerate(ops):
            if k:
                LIB.sched_point()
            out.append(do(x, op))
        if i == 0:
            LIB.sched_point()
    except BaseException as e:
        out.append(("broken", repr(e)))
    x = None
    LIB.sched_exit()


def schedule(t, content, a, b, plan, stride):
    """One execution under one schedule: (results of a, results of b, contents), points, regions."""
    x = T[t](content)
    p = (ctypes.c_long * len(plan))(*plan)
    LIB.sched_setup(p, len(plan), stride, CAP)
    ra, rb = [], []
    _thread.start_new_thread(body, (0, x, a, ra))
    _thread.start_new_thread(body, (1, x, b, rb))
    LIB.sched_run(0)
    S.transitions += len(a) + len(b)
    n = len(x)
    c = [v for v in x]
    if len(c) != n or x.to_list() != c or list(reversed(x)) != c[::-1]:
        raise AssertionError("the container is not consistent: length %d, %r, %r" % (n, c[:50], x.to_list()[:50]))
    return (ra, rb, c), LIB.sched_points(), LIB.sched_regions()


def merges(a, b):
    """All orders of the operations: tuples of thread numbers."""
    for pos in itertools.combinations(range(len(a) + len(b)), len(a)):
        yield [0 if i in pos else 1 for i in range(len(a) + len(b))]


def sequential(t, content, a, b):
    out = []
    for order in merges(a, b):
        x = T[t](content)
        ra, rb = [], []
        ia, ib = iter(a), iter(b)
        for w in order:
            if w == 0:
                ra.append(do(x, next(ia)))
            else:
                rb.append(do(x, next(ib)))
        out.append((ra, rb, x.to_list()))
    return out


def explore(t, content, a, b, depth, limit):
    allowed = sequential(t, content, a, b)

    def run(plan, stride):
        try:
            got, points, regions = schedule(t, content, a, b, plan, stride)
        except AssertionError as e:
            return "%s %r, threads %r and %r, switches at %r: %s" % (t, content[:10], a, b, plan, e), 0, 0
        if got not in allowed:
            return "%s %.100r, threads %r and %r, switches at %r (stride %d): results and contents %.300r are those of no order of the operations (%.300r)" % (
                t, content, a, b, plan, stride, got, allowed), points, regions
        return None, points, regions
    msg, points, regions = run((), 1)
    if msg:
        return msg
    stride = 1
    if regions:
        steps = LIB.sched_steps()
        stride = steps // limit + 1
        msg, points, regions = run((), stride)
        if msg:
            return msg
        S.outcome("operations that give up the lock")
    S.visit(t, tuple(content), a, b)
    # depth-first over the positions of the switches: after each execution, the points past the last switch
    first = range(points)
    todo = [((k,), 1) for k in first]
    while todo:
        plan, d = todo.pop()
        msg, points2, _ = run(plan, stride)
        if msg:
            return msg
        if d < depth:
            rest = range(plan[-1] + 1, points2)
            if not regions:
                todo.extend((plan + (k,), d + 1) for k in rest)
            elif plan[0] % (points // 12 + 1) == 0:
                # two switches in a long region: at a coarser step
                todo.extend((plan + (k,), depth) for k in rest[::len(rest) // 12 + 1])
    return None


def execute(space, case):
    setup()
    t, ci, a, b0 = case
    tier = os.environ.get("VERIF_TIER", "quick")
    limit = STEPS[tier]
    depth = 2 if tier == "quick" else 3
    if space == "pairs":
        for b in OPS13:
            msg = explore(t, list(CONTENT[ci]), a, (b,), depth, limit)
            if msg:
                return msg
        return None
    if space == "seqs":
        for b1 in CORE:
            msg = explore(t, list(CONTENT[ci]), a, (b0, b1), depth, limit)
            if msg:
                return msg
        return None
    content = [(i * 7919) % 1000 - 300 for i in range(-ci)]
    for b in BIG if b0 == "big" else ("sort", "app", "clear", "set-1", "tolist", "resize1", "init") if b0 == "huge" else ("sort", "app40", "clear"):
        msg = explore(t, content, a, (b,), 1, limit if b0 == "big" else 10)
        if msg:
            return msg
    return None
