"""Builds variants of the extension module from /repo's working tree, outside /repo.

A variant is a set of compiler and linker flags (plus, for some, extra source files of /verif/mc/native).
The result is a directory holding a `pyfastutil` package: copies of the Python files of /repo/pyfastutil
and the freshly built __pyfastutil.so. Objects are cached by the hash of everything that goes into them,
so that a changed tree is always compiled again.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), ".cache")
PYTHON = "/usr/bin/python3.12"
CXX = "g++"
CC = "gcc"

AVX = ["-mavx", "-mavx2", "-mavx512f", "-mavx512bw", "-mavx512dq", "-mavx512vl"]
BASE = ["-fPIC", "-std=c++20", "-fvisibility=hidden", "-fno-tree-vectorize", "-DNDEBUG",
        "-fno-strict-overflow", "-w", "-fpermissive"] + AVX

ASAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"]

GCPOINTS = ["PyList_New", "PyTuple_New", "_PyObject_GC_New", "PyType_GenericAlloc", "PyType_GenericNew",
            "PySequence_Fast", "PySequence_Concat", "PyMapping_Keys", "PyObject_GetIter", "PyObject_CallObject",
            "PyObject_CallOneArg"]
CHECKED = ("asan", "gcp")

VARIANTS = {
    # as setup.py builds it, but for link-time optimisation
    "plain": {"flags": ["-O3"], "link": [], "extra": [], "big_flags": ["-O1"]},
    # the AVX-512 bindings optimised as well
    "full": {"flags": ["-O3"], "link": [], "extra": []},
    # every access checked; aligned_alloc goes through posix_memalign, because ASan
    # rejects sizes that are no multiple of the alignment (glibc does not)
    "asan": {"flags": ASAN, "link": ["-fsanitize=address", "-Wl,--wrap=aligned_alloc"],
             "extra": ["wrap_aligned.c"], "big_flags": ["-O1"]},
    # every allocation made by the module can be made to fail
    "fault": {"flags": ["-O1", "-g1"],
              "link": ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc",
                       "-Wl,--wrap=aligned_alloc", "-Wl,--wrap=posix_memalign"],
              "extra": ["fault.cpp"], "big_flags": ["-O1"], "export": True},
    # the same, with the module's own accesses checked
    # control passes to the explorer wherever the module gives up or takes the interpreter lock
    "sched": {"flags": ["-O1", "-g1"],
              "link": ["-Wl,--wrap=PyEval_SaveThread", "-Wl,--wrap=PyEval_RestoreThread",
                       "-Wl,--wrap=PyEval_ReleaseThread", "-Wl,--wrap=PyEval_AcquireThread"],
              "extra": ["sched.c"], "big_flags": ["-O1"]},
    # a collection at every allocation of a collectable object, as CPython up to 3.11 may make one
    "gcp": {"flags": ASAN, "link": ["-fsanitize=address", "-Wl,--wrap=aligned_alloc"] +
            ["-Wl,--wrap=" + f for f in GCPOINTS],
            "extra": ["wrap_aligned.c", "gcp.c"], "big_flags": ["-O1"]},
    # the processor's answers to CPUID and XGETBV come from the explorer
    "cpu": {"flags": ["-O2", "-include", os.path.join(HERE, "native", "fakecpu.h")],
            "link": [], "extra": ["fakecpu.c"], "big_flags": ["-O1"]},
    # what only Windows builds have, with Windows' memory functions answered by the explorer
    "windows": {"flags": ["-O1", "-g1", "-DWINNT", "-I" + os.path.join(HERE, "native")],
                "link": [], "extra": ["win.c"], "big_flags": ["-O1"]},
}


def _sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "pyfastutil", "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".c")):
                out.append(os.path.join(root, f))
    return out


def tree_files():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "pyfastutil")):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if not f.endswith((".so", ".pyc", ".pyd")):
                out.append(os.path.join(root, f))
    return out


def _hash(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash():
    parts = []
    for f in tree_files():
        parts.append(os.path.relpath(f, REPO))
        with open(f, "rb") as fh:
            parts.append(fh.read())
    return _hash(parts)


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


class BuildError(Exception):
    pass


def _prune(keep, limit=14):
    """Keeps the cache small: at most `limit` entries that nobody used lately."""
    try:
        ents = [os.path.join(CACHE, e) for e in os.listdir(CACHE) if e.startswith("v-")]
    except OSError:
        return
    ents = [e for e in ents if e != keep]
    ents.sort(key=lambda e: os.path.getmtime(e))
    for e in ents[:max(0, len(ents) - limit)]:
        if time.time() - os.path.getmtime(e) > 3600:
            shutil.rmtree(e, ignore_errors=True)


def build(variant):
    """Returns the directory to put on sys.path."""
    variant = variant.split("@")[0]
    v = VARIANTS[variant]
    os.makedirs(CACHE, exist_ok=True)
    native = os.path.join(HERE, "native")
    parts = [tree_hash(), variant, repr(v), repr(BASE)]
    for f in sorted(os.listdir(native)):
        with open(os.path.join(native, f), "rb") as fh:
            parts.append(fh.read())
    key = _hash(parts)
    dest = os.path.join(CACHE, "v-%s-%s" % (variant, key))
    lock = open(os.path.join(CACHE, "lock-" + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(dest, "done")):
            os.utime(dest)
            return dest
        shutil.rmtree(dest, ignore_errors=True)
        obj = os.path.join(dest, "obj")
        os.makedirs(obj)
        inc = ["-I" + os.path.join(REPO, "pyfastutil", "src"),
               "-I" + sysconfig.get_paths()["include"], "-I/usr/include/python3.12"]
        jobs = []
        for i, src in enumerate(_sources()):
            flags = list(v["flags"])
            if os.path.getsize(src) > 500000 and "big_flags" in v:
                flags = v["big_flags"]
            o = os.path.join(obj, "%03d.o" % i)
            # setup.py builds C files with the C++ flags; gcc takes them as C
            comp = [CXX] if src.endswith(".cpp") else [CC]
            base = BASE if src.endswith(".cpp") else [b for b in BASE if not b.startswith(("-std=", "-fpermissive"))]
            jobs.append((os.path.getsize(src), comp + base + flags + inc + ["-c", src, "-o", o], o))
        for f in v["extra"]:
            src = os.path.join(native, f)
            o = os.path.join(obj, f + ".o")
            comp = [CXX, "-std=c++20"] if f.endswith(".cpp") else [CC]
            jobs.append((1, comp + ["-fPIC", "-O1", "-w"] + inc + ["-c", src, "-o", o], o))
        jobs.sort(key=lambda j: -j[0])
        with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
            list(pool.map(lambda j: _run(j[1]), jobs))
        pkg = os.path.join(dest, "pyfastutil")
        for f in tree_files():
            rel = os.path.relpath(f, os.path.join(REPO, "pyfastutil"))
            if rel.endswith(".py"):
                t = os.path.join(pkg, rel)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copy(f, t)
        _run([CXX, "-shared", "-fpermissive"] + [j[2] for j in jobs] +
             ["-o", os.path.join(pkg, "__pyfastutil.so")] + v["link"])
        shutil.rmtree(obj)
        with open(os.path.join(dest, "done"), "w"):
            pass
        _prune(dest)
        return dest
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def build_helper(name):
    """Builds /verif/mc/native/<name>.c, an extension module or library of our own. Returns its directory."""
    src = os.path.join(HERE, "native", name + ".c")
    with open(src, "rb") as fh:
        key = _hash([fh.read(), "helper2"])
    os.makedirs(CACHE, exist_ok=True)
    dest = os.path.join(CACHE, "h-%s-%s" % (name, key))
    lock = open(os.path.join(CACHE, "lock-h"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(os.path.join(dest, "done")):
            os.makedirs(dest, exist_ok=True)
            _run([CC, "-shared", "-fPIC", "-O2", "-w", "-I/usr/include/python3.12", src,
                  "-o", os.path.join(dest, name + ".so")] + AVX)
            with open(os.path.join(dest, "done"), "w"):
                pass
        return dest
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def build_avx_reference(table):
    """Compiles one C function per line of the table (name, C name, status, result type, operand types): the
    intrinsic applied to the operands a[1].. points to, stored at a[0]. Returns the library."""
    with open(table, "rb") as fh:
        data = fh.read()
    key = _hash([data, "ref2"])
    os.makedirs(CACHE, exist_ok=True)
    dest = os.path.join(CACHE, "h-avxref-%s" % key)
    lib = os.path.join(dest, "avxref.so")
    lock = open(os.path.join(CACHE, "lock-avxref"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(lib):
            return lib
        os.makedirs(dest, exist_ok=True)
        parts = [[] for _ in range(8)]
        for k, line in enumerate(data.decode().splitlines()):
            port, name, status, ret, types = line.split("|")
            if status != "yes":
                continue
            types = types.split(",") if types else []
            first = 0 if ret == "void" else 1
            call = "%s(%s)" % (name, ", ".join("*(%s *) a[%d]" % (t, first + i) for i, t in enumerate(types)))
            if first:
                call = "*(%s *) a[0] = %s" % (ret, call)
            parts[k % 8].append("__attribute__((visibility(\"default\"))) void r_%s(void **a) { %s; }\n" % (port, call))
        jobs = []
        for i, p in enumerate(parts):
            src = os.path.join(dest, "p%d.c" % i)
            with open(src, "w") as fh:
                fh.write("#include <immintrin.h>\n" + "".join(p))
            jobs.append([CC, "-fPIC", "-O1", "-w", "-fno-strict-aliasing", "-c", src, "-o", src[:-1] + "o"] + AVX)
        with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
            list(pool.map(_run, jobs))
        _run([CC, "-shared", "-o", lib + ".tmp"] + [j[j.index("-o") + 1] for j in jobs])
        os.rename(lib + ".tmp", lib)
        return lib
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


# what a variant's name may say after "@": the processor the module sees
CPUS = {
    "avx512": "avx,xsave,avx2,avx512f,sse41,ssse3,xcr0=e7",
    "avx2": "avx,xsave,avx2,sse41,ssse3,xcr0=7",
    "sse": "sse41,ssse3",
    "none": "none",
}


def env_for(variant, dest):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LD_", "ASAN"))}
    env["PYTHONPATH"] = os.pathsep.join([dest, os.path.dirname(HERE)])
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONNOUSERSITE"] = "1"
    env["MC_WORKER"] = "1"
    if "@" in variant:
        env["FAKECPU"] = CPUS[variant.split("@")[1]]
    if variant in CHECKED:
        lib = subprocess.run([CC, "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        std = subprocess.run([CXX, "-print-file-name=libstdc++.so.6"], stdout=subprocess.PIPE, text=True).stdout.strip()
        env["LD_PRELOAD"] = os.path.realpath(lib) + ":" + os.path.realpath(std)
        env["PYTHONMALLOC"] = "malloc"
        env["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=5000:"
                               "quarantine_size_mb=16:abort_on_error=0:exitcode=77:"
                               "detect_stack_use_after_return=0:handle_segv=1:print_stacktrace=1")
    return env


if __name__ == "__main__":
    for name in sys.argv[1:] or ["plain"]:
        t = time.time()
        print(name, build(name), "%.1fs" % (time.time() - t))
