"""Explores the finite spaces of one check in worker processes and reports.

usage: python3 mc/driver.py C01            (VERIF_TIER=quick|thorough)
       python3 mc/driver.py --worker C01 VARIANT      (internal)
       python3 mc/driver.py --replay FILE

A check is a module mc/c01.py with
    spaces(tier)            -> list of dicts {name, variant, shards}: `shards` is a number; a name that ends in +sub is
                               the space of the name before it, run on trivial subclasses of the container types
    enum(space, shard, tier)-> generator of cases (nested tuples of literals), always the same ones
    execute(space, case)    -> None, or a text saying what is wrong

Every case is run against the real extension module in a worker process. A case that fails, or kills
or blocks its worker, is run again alone in a fresh process before it is reported; if it passes there,
the whole shard up to it is run again. Only what fails again is reported.
"""
import importlib
import json
import mmap
import os
import re
import selectors
import signal
import struct
import subprocess
import sys
import tempfile
import time
from array import array

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)

from mc import build as B  # noqa: E402

HANG = 60.0


# ------------------------------------------------------------------ worker side

class Stats:
    """What a check counts while it executes cases."""

    def __init__(self):
        self.transitions = 0
        self.states = set()
        self.outcomes = {}

    def visit(self, *state):
        self.states.add(hash(state))

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1


S = Stats()


def _limit_memory(variant):
    import resource
    if variant not in B.CHECKED:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 48 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def known_patterns(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=(/.*/) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)[1:-1]), m.group(3)))
    return out


def worker(pid, variant):
    import faulthandler
    rfd = os.dup(0)
    wfd = os.dup(1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    inp = os.fdopen(rfd, "r")
    out = os.fdopen(wfd, "w")
    shm_path = sys.argv[4]
    with open(shm_path, "r+b") as fh:
        shm = mmap.mmap(fh.fileno(), 64)
    if variant not in B.CHECKED:
        faulthandler.enable()
    _limit_memory(variant)
    sys.modules["mc.driver"] = sys.modules["__main__"]
    mod = importlib.import_module("mc." + pid.lower())
    known = known_patterns(pid)
    pack = struct.Struct("<q").pack_into
    for line in inp:
        task = json.loads(line)
        space, shard, tier = task["space"], task["shard"], task["tier"]
        if space.endswith("+sub"):
            space = space[:-4]
            importlib.import_module("mc.common").use_subclasses(True)
        elif "mc.common" in sys.modules:
            sys.modules["mc.common"].use_subclasses(False)
        lo, hi, only = task.get("lo", 0), task.get("hi"), task.get("only")
        S.transitions = 0
        S.states = set()
        S.outcomes = {}
        n = 0
        idx = -1
        samples = []
        fail = None
        knowns = {}
        pack(shm, 0, -1)
        for idx, case in enumerate(mod.enum(space, shard, tier)):
            if only is not None:
                if idx < only:
                    continue
                if idx > only:
                    break
            elif idx < lo:
                continue
            elif hi is not None and idx > hi:
                break
            pack(shm, 0, idx)
            n += 1
            msg = mod.execute(space, case)
            if n in (1, 50):
                samples.append(repr(case)[:400])
            if msg is not None:
                for pat, text in known:
                    if pat.search(msg):
                        knowns[text] = knowns.get(text, 0) + 1
                        break
                else:
                    fail = {"idx": idx, "msg": msg[:2000], "case": repr(case)[:20000]}
                    break
        pack(shm, 0, -2)
        fd, sp = tempfile.mkstemp(prefix="st-", dir=os.path.dirname(shm_path))
        with os.fdopen(fd, "wb") as fh:
            array("q", S.states).tofile(fh)
        out.write(json.dumps({"n": n, "fail": fail, "samples": samples, "transitions": S.transitions,
                              "outcomes": S.outcomes, "states": sp, "known": knowns}) + "\n")
        out.flush()
    os._exit(0)


def replay_case(path):
    info = json.load(open(path))
    pid = info["property"]
    dest = B.build(info["variant"])
    tmp = tempfile.mkdtemp(prefix="mc-")
    try:
        r = run_alone(pid, info["variant"], dest, tmp, info["task"], 240)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    print("case:", info["case"])
    print("recorded:", info["msg"])
    print("now:", r["msg"] if r else "passes")
    return 1 if r else 0


# ------------------------------------------------------------------ parent side

class Worker:
    def __init__(self, pid, variant, dest, tmp, tag):
        self.shm_path = os.path.join(tmp, "shm-%s" % tag)
        with open(self.shm_path, "wb") as fh:
            fh.write(b"\0" * 64)
        with open(self.shm_path, "r+b") as fh:
            self.shm = mmap.mmap(fh.fileno(), 64)
        self.err_path = os.path.join(tmp, "err-%s" % tag)
        self.err = open(self.err_path, "wb")
        self.variant = variant
        self.proc = subprocess.Popen([B.PYTHON, os.path.join(HERE, "driver.py"), "--worker", pid, variant, self.shm_path],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                     env=B.env_for(variant, dest), cwd=tmp, start_new_session=True)
        self.task = None
        self.last = None
        self.since = time.time()

    def start(self, task):
        self.task = task
        struct.pack_into("<q", self.shm, 0, -1)
        self.last = None
        self.since = time.time()
        try:
            self.proc.stdin.write((json.dumps(task) + "\n").encode())
            self.proc.stdin.flush()
        except BrokenPipeError:
            pass

    def idx(self):
        return struct.unpack_from("<q", self.shm, 0)[0]

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.proc.wait()
        self.err.close()

    def stderr_tail(self, n=6000):

        with open(self.err_path, "rb") as fh:
            data = fh.read().decode("utf-8", "replace")
        m = re.search(r"(==\d+==ERROR: AddressSanitizer.*)", data, re.S)
        if m:
            return m.group(1)[:n]
        return data[-n:]


def _death(w, rc):
    tail = w.stderr_tail()
    if rc < 0:
        try:
            name = signal.Signals(-rc).name
        except ValueError:
            name = str(-rc)
        head = "process ended by " + name
    else:
        head = "process exited with %d" % rc
    return head + ("\n" + tail if tail else "")


def run_alone(pid, variant, dest, tmp, task, limit):
    """Runs a task in a fresh worker. Returns None if it passes, else {idx, msg, case}."""
    w = Worker(pid, variant, dest, tmp, "alone-%d" % time.time_ns())
    w.start(task)
    sel = selectors.DefaultSelector()
    sel.register(w.proc.stdout, selectors.EVENT_READ)
    last, since = None, time.time()
    try:
        while True:
            if sel.select(0.5):
                line = w.proc.stdout.readline()
                if not line:
                    rc = w.proc.wait()
                    idx = w.idx()
                    if rc == -signal.SIGKILL:
                        return {"idx": idx, "msg": "killed", "case": None, "oom": True}
                    return {"idx": idx, "msg": _death(w, rc), "case": None}
                r = json.loads(line)
                return r["fail"]
            cur = w.idx()
            if cur != last:
                last, since = cur, time.time()
            if time.time() - since > limit:
                return {"idx": cur, "msg": "does not terminate within %d s" % limit, "case": None}
    finally:
        sel.close()
        w.kill()


def case_at(pid, task, idx):
    """The idx-th case of a task, enumerated here or, if that needs the module, not at all."""
    mod = importlib.import_module("mc." + pid.lower())
    for i, case in enumerate(mod.enum(task["space"].removesuffix("+sub"), task["shard"], task["tier"])):
        if i == idx:
            return repr(case)[:20000]
    return "?"


def explore(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "700" if tier == "quick" else "6000"))
    mod = importlib.import_module("mc." + pid.lower())
    spaces = mod.spaces(tier)
    only = os.environ.get("VERIF_SPACE")
    if only:
        spaces = [s for s in spaces if re.search(only, s["name"])]
    # a processor more capable than this one cannot be pretended
    try:
        with open("/proc/cpuinfo") as fh:
            words = next((line for line in fh if line.startswith("flags")), "").split()
    except OSError:
        words = []
    need = {"avx512": "avx512f", "avx2": "avx2", "sse": "sse4_1"}
    spaces = [s for s in spaces if need.get(s.get("needs") or s["variant"].partition("@")[2], "fpu") in words or not words]
    variants = []
    for s in spaces:
        if s["variant"] not in variants:
            variants.append(s["variant"])
    dests = {}
    from concurrent.futures import ThreadPoolExecutor
    bases = sorted({v.split("@")[0] for v in variants})
    with ThreadPoolExecutor(len(bases)) as pool:
        built = dict(zip(bases, pool.map(B.build, bases)))
    for v in variants:
        dests[v] = built[v.split("@")[0]]
    if hasattr(mod, "prepare"):
        mod.prepare()
    tb = time.time()
    tmp = tempfile.mkdtemp(prefix="mc-")
    os.chmod(tmp, 0o755)
    nproc = min(8, os.cpu_count() or 4)
    queue = []
    for s in spaces:
        for sh in range(s["shards"]):
            queue.append({"space": s["name"], "shard": sh, "tier": tier, "variant": s["variant"],
                          "jobs": s.get("jobs")})
    queue.reverse()
    total = {"cases": 0, "transitions": 0, "states": set(), "samples": {}, "outcomes": {}, "known": {}}
    per_space = {s["name"]: {"cases": 0, "shards": 0, "of": s["shards"]} for s in spaces}
    violation = None
    notes = []
    capped = False
    workers = []
    tag = 0
    sel = selectors.DefaultSelector()

    def confirm(task, fail):
        """Runs the failure again in a fresh process: alone, then with everything before it in its shard."""
        variant = task["variant"]
        t = dict(task)
        t.pop("lo", None)
        alone = dict(t, only=fail["idx"])
        again = None
        if fail["idx"] >= 0:
            again = run_alone(pid, variant, dests[variant], tmp, alone, 120)
            if again and again.get("oom"):
                again = None
        if again:
            again["task"] = alone
            return again
        for _ in range(3):
            t2 = dict(t)
            if fail["idx"] >= 0:
                t2["hi"] = fail["idx"]
            again = run_alone(pid, variant, dests[variant], tmp, t2, 150)
            if again and not again.get("oom"):
                again["task"] = t2
                return again
        return None

    def handle_failure(task, fail):
        nonlocal violation
        again = confirm(task, fail)
        if again is None:
            notes.append("not reproduced: %s shard %s case %s: %s" %
                         (task["space"], task["shard"], fail["idx"], fail["msg"][:300]))
            if fail["idx"] >= 0 and task.get("retries", 0) < 20:
                queue.append(dict(task, lo=fail["idx"] + 1, retries=task.get("retries", 0) + 1))
            return
        for pat, text in known_patterns(pid):
            if pat.search(again["msg"]):
                total["known"][text] = total["known"].get(text, 0) + 1
                queue.append(dict(task, lo=fail["idx"] + 1))
                return
        again["variant"] = task["variant"]
        if not again.get("case"):
            try:
                again["case"] = case_at(pid, task, again["idx"])
            except Exception as e:  # the enumeration may need the built module
                again["case"] = "case %d of shard %s of %s (%s)" % (again["idx"], task["shard"], task["space"], e)
        violation = again

    try:
        while (queue or any(w.task for w in workers)) and violation is None:
            if queue and time.time() - t0 > budget:
                capped = True
                queue.clear()
            # hand out work
            while queue:
                task = queue[-1]
                v = task["variant"]
                if task.get("jobs") and sum(1 for w in workers if w.task and w.task["space"] == task["space"]) >= task["jobs"]:
                    break
                idle = [w for w in workers if w.task is None and w.variant == v]
                if not idle:
                    if len(workers) >= nproc:
                        other = [w for w in workers if w.task is None]
                        if not other:
                            break
                        sel.unregister(other[0].proc.stdout)
                        other[0].kill()
                        workers.remove(other[0])
                    tag += 1
                    w = Worker(pid, v, dests[v], tmp, str(tag))
                    workers.append(w)
                    sel.register(w.proc.stdout, selectors.EVENT_READ, w)
                    idle = [w]
                queue.pop()
                idle[0].start(task)
            events = sel.select(1.0)
            now = time.time()
            for key, _ in events:
                if violation is not None:
                    break
                w = key.data
                line = w.proc.stdout.readline()
                task = w.task
                if not line:
                    rc = w.proc.wait()
                    sel.unregister(w.proc.stdout)
                    workers.remove(w)
                    w.kill()
                    if task is None:
                        continue
                    idx = w.idx()
                    if rc == -signal.SIGKILL:
                        if task.get("kills", 0) < 2:
                            queue.append(dict(task, kills=task.get("kills", 0) + 1))
                        else:
                            notes.append("killed from outside: %s shard %s" % (task["space"], task["shard"]))
                            capped = True
                        continue
                    if idx == -2:
                        notes.append("worker ended between cases: " + _death(w, rc)[:300])
                    handle_failure(task, {"idx": idx, "msg": _death(w, rc)})
                    continue
                r = json.loads(line)
                w.task = None
                with open(r["states"], "rb") as fh:
                    a = array("q")
                    a.frombytes(fh.read())
                os.unlink(r["states"])
                if len(total["states"]) < 20_000_000:
                    total["states"].update(a)
                total["cases"] += r["n"]
                total["transitions"] += r["transitions"]
                per_space[task["space"]]["cases"] += r["n"]
                smp = total["samples"].setdefault(task["space"], [])
                if len(smp) < 2:
                    smp.extend(r["samples"][:2 - len(smp)])
                for k, n in r["outcomes"].items():
                    total["outcomes"][k] = total["outcomes"].get(k, 0) + n
                for k, n in r["known"].items():
                    total["known"][k] = total["known"].get(k, 0) + n
                if r["fail"]:
                    sel.unregister(w.proc.stdout)
                    workers.remove(w)
                    w.kill()
                    handle_failure(task, r["fail"])
                else:
                    per_space[task["space"]]["shards"] += 1
            for w in list(workers):
                if w.task is None or violation is not None:
                    continue
                cur = w.idx()
                if cur != w.last:
                    w.last, w.since = cur, now
                elif now - w.since > HANG:
                    task = w.task
                    sel.unregister(w.proc.stdout)
                    w.kill()
                    workers.remove(w)
                    handle_failure(task, {"idx": cur, "msg": "hang"})
                    now = time.time()
                    for o in workers:  # they have run unobserved in the meantime
                        o.since = max(o.since, now - HANG / 2)
    finally:
        for w in workers:
            w.kill()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
        if hasattr(mod, "cleanup"):
            mod.cleanup()

    for text, n in sorted(total["known"].items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    complete = not capped and violation is None and not notes and not only and \
        all(p["shards"] == p["of"] for p in per_space.values())
    samples = [{"space": k, "case": c} for k, cs in total["samples"].items() for c in cs]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": len(total["states"]), "transitions": total["transitions"],
            "traces_validated_against_impl": total["cases"],
            "samples": samples[:40],
            "exhaustive": complete,
            "bounds": mod.BOUNDS(tier) if hasattr(mod, "BOUNDS") else "",
            "spaces": per_space,
            "outcomes": dict(sorted(total["outcomes"].items(), key=lambda kv: -kv[1])[:60]),
            "notes": notes[:20],
            "explanation": "states: distinct abstract states (container, contents, live iterators/views and what else "
                           "the check tracks) reached; transitions: operations executed on the real module and compared; "
                           "traces: cases (operation sequences, inputs or fault placements), each executed on the real module.",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "build_s": round(tb - t0, 1),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    print("%s %s: states=%d transitions=%d cases=%d complete=%s build=%.1fs wall=%.1fs" %
          (pid, tier, len(total["states"]), total["transitions"], total["cases"], complete,
           tb - t0, time.time() - t0))
    for s in per_space:
        print("  %-28s %d cases, %d/%d shards" % (s, per_space[s]["cases"], per_space[s]["shards"], per_space[s]["of"]))
    for n in notes:
        print("  note:", n)
    if violation:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (pid, time.strftime("%H%M%S")))
        info = {"property": pid, "variant": violation["variant"], "task": violation["task"],
                "case": violation["case"], "msg": violation["msg"],
                "how": "python3 mc/driver.py --replay " + os.path.relpath(path, VERIF)}
        with open(path, "w") as fh:
            json.dump(info, fh, indent=1)
        print("case:", violation["case"][:2000])
        print(violation["msg"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, VERIF)))
        return 1
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        worker(sys.argv[2], sys.argv[3])
    elif sys.argv[1] == "--replay":
        sys.exit(replay_case(sys.argv[2]))
    else:
        sys.modules["mc.driver"] = sys.modules["__main__"]
        sys.exit(explore(sys.argv[1]))
