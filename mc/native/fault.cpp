// Every allocation made while an operation runs -- by the module (operator new, malloc and relatives) and by the interpreter on its
// behalf (all three allocator domains) -- is numbered, and the k-th one (or all from the k-th on) fails.
#include <Python.h>
#include <cerrno>
#include <cstdlib>
#include <new>
#include <unordered_map>

#define EXP extern "C" __attribute__((visibility("default")))

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
}

static volatile int active = 0, mode = 0;
static volatile long count = 0, at = 0, failed = 0, native = 0;

static bool tick() {
    if (!active) return false;
    count++;
    const bool f = mode == 0 ? count == at : at > 0 && count >= at;
    if (f) failed++;
    return f;
}

extern "C" void *__wrap_malloc(size_t n) {
    if (active) native++;
    if (tick()) { errno = ENOMEM; return nullptr; }
    return __real_malloc(n);
}
extern "C" void *__wrap_calloc(size_t n, size_t m) {
    if (active) native++;
    if (tick()) { errno = ENOMEM; return nullptr; }
    return __real_calloc(n, m);
}
extern "C" void *__wrap_realloc(void *p, size_t n) {
    if (active) native++;
    if (tick()) { errno = ENOMEM; return nullptr; }
    return __real_realloc(p, n);
}
extern "C" void *__wrap_aligned_alloc(size_t a, size_t n) {
    if (active) native++;
    if (tick()) { errno = ENOMEM; return nullptr; }
    return __real_aligned_alloc(a, n);
}
extern "C" int __wrap_posix_memalign(void **p, size_t a, size_t n) {
    if (active) native++;
    if (tick()) return ENOMEM;
    return __real_posix_memalign(p, a, n);
}

static void *get(size_t n) {
    if (active) native++;
    if (tick()) return nullptr;
    return __real_malloc(n ? n : 1);
}
static void *get(size_t n, std::align_val_t a) {
    if (active) native++;
    if (tick()) return nullptr;
    const size_t al = (size_t) a < sizeof(void *) ? sizeof(void *) : (size_t) a;
    return __real_aligned_alloc(al, (n + al - 1) / al * al);
}
static void *orThrow(void *p) {
    if (p == nullptr) throw std::bad_alloc();
    return p;
}
#define VIS __attribute__((visibility("default")))
VIS void *operator new(size_t n) { return orThrow(get(n)); }
VIS void *operator new[](size_t n) { return orThrow(get(n)); }
VIS void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
VIS void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
VIS void *operator new(size_t n, std::align_val_t a) { return orThrow(get(n, a)); }
VIS void *operator new[](size_t n, std::align_val_t a) { return orThrow(get(n, a)); }
VIS void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return get(n, a); }
VIS void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return get(n, a); }
VIS void operator delete(void *p) noexcept { free(p); }
VIS void operator delete[](void *p) noexcept { free(p); }
VIS void operator delete(void *p, size_t) noexcept { free(p); }
VIS void operator delete[](void *p, size_t) noexcept { free(p); }
VIS void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
VIS void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
VIS void operator delete(void *p, std::align_val_t) noexcept { free(p); }
VIS void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
VIS void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
VIS void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }

static PyMemAllocatorEx orig[3];
static long live[3];

template<class T>
struct Plain {
    using value_type = T;
    Plain() = default;
    template<class U> Plain(const Plain<U> &) {}
    T *allocate(size_t n) { return static_cast<T *>(__real_malloc(n * sizeof(T))); }
    void deallocate(T *p, size_t) { free(p); }
    template<class U> bool operator==(const Plain<U> &) const { return true; }
};

// the sizes of the interpreter's blocks: making a block smaller never fails (the interpreter itself relies on that)
static auto *sizes = new std::unordered_map<void *, size_t, std::hash<void *>, std::equal_to<>, Plain<std::pair<void *const, size_t>>>();

static void *hMalloc(void *ctx, size_t n) {
    auto i = (long) (intptr_t) ctx;
    if (tick()) return nullptr;
    void *p = orig[i].malloc(orig[i].ctx, n);
    if (p) { live[i]++; (*sizes)[p] = n; }
    return p;
}
static void *hCalloc(void *ctx, size_t n, size_t m) {
    auto i = (long) (intptr_t) ctx;
    if (tick()) return nullptr;
    void *p = orig[i].calloc(orig[i].ctx, n, m);
    if (p) { live[i]++; (*sizes)[p] = n * m; }
    return p;
}
static void *hRealloc(void *ctx, void *q, size_t n) {
    auto i = (long) (intptr_t) ctx;
    if (q) {
        const auto it = sizes->find(q);
        if (it != sizes->end() && n > it->second && tick()) return nullptr;
    } else if (tick()) return nullptr;
    void *p = orig[i].realloc(orig[i].ctx, q, n);
    if (p) {
        if (!q) live[i]++;
        if (q && q != p) sizes->erase(q);
        (*sizes)[p] = n;
    }
    return p;
}
static void hFree(void *ctx, void *q) {
    auto i = (long) (intptr_t) ctx;
    if (q) { live[i]--; sizes->erase(q); }
    orig[i].free(orig[i].ctx, q);
}

EXP void fault_install() {
    const PyMemAllocatorDomain dom[3] = {PYMEM_DOMAIN_RAW, PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
    for (long i = 0; i < 3; i++) {
        PyMem_GetAllocator(dom[i], &orig[i]);
        PyMemAllocatorEx h = {(void *) (intptr_t) i, hMalloc, hCalloc, hRealloc, hFree};
        PyMem_SetAllocator(dom[i], &h);
    }
}

EXP long fault_live(int domain) { return live[domain]; }

// (result, None) or (None, exception); (None, None) if neither came
EXP PyObject *fault_call(PyObject *func, PyObject *args, long k, int how) {
    count = failed = native = 0;
    at = k;
    mode = how;
    active = 1;
    PyObject *r = PyObject_Call(func, args, nullptr);
    active = 0;
    PyObject *e = PyErr_GetRaisedException();
    PyObject *out = PyTuple_New(5);
    PyTuple_SET_ITEM(out, 0, r ? r : Py_NewRef(Py_None));
    PyTuple_SET_ITEM(out, 1, e ? e : Py_NewRef(Py_None));
    PyTuple_SET_ITEM(out, 2, PyLong_FromLong(count));
    PyTuple_SET_ITEM(out, 3, PyLong_FromLong(failed));
    PyTuple_SET_ITEM(out, 4, PyBool_FromLong(r == nullptr && e == nullptr));
    return out;
}
