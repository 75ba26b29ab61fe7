/* Windows' memory functions on top of Linux': protection per page, allocations of 64 KiB granularity. */
#define _GNU_SOURCE
#include <string.h>
#include <sys/mman.h>
#include "windows.h"
#define API __attribute__((visibility("default")))
#define MAXP 65536
#define PG 4096ul

/* pages whose protection differs from plain read and write */
static struct { uintptr_t page; DWORD prot; } pages[MAXP];
static int npages;
static struct { uintptr_t base; size_t size; } allocs[MAXP];
static int nallocs;
API long win_calls = 0, win_fail_at = 0, win_errors = 0;

static int native(DWORD p) {
    switch (p) {
        case PAGE_NOACCESS: return PROT_NONE;
        case PAGE_READONLY: return PROT_READ;
        case PAGE_READWRITE: return PROT_READ | PROT_WRITE;
        case PAGE_EXECUTE: return PROT_EXEC;
        case PAGE_EXECUTE_READ: return PROT_READ | PROT_EXEC;
        case PAGE_EXECUTE_READWRITE: return PROT_READ | PROT_WRITE | PROT_EXEC;
    }
    return -1;
}
static DWORD prot(uintptr_t page) {
    for (int i = 0; i < npages; i++) if (pages[i].page == page) return pages[i].prot;
    return PAGE_READWRITE;
}
static void set(uintptr_t page, DWORD p) {
    for (int i = 0; i < npages; i++) if (pages[i].page == page) {
        if (p == PAGE_READWRITE) pages[i] = pages[--npages]; else pages[i].prot = p;
        return;
    }
    if (p != PAGE_READWRITE && npages < MAXP) { pages[npages].page = page; pages[npages++].prot = p; }
}
static int fails(void) { return ++win_calls == win_fail_at; }

API DWORD win_protection(void *address) { return prot((uintptr_t) address & ~(PG - 1)); }
API int win_executable_pages(void) { int n = 0; for (int i = 0; i < npages; i++) n += pages[i].prot >= PAGE_EXECUTE; return n; }
API int win_allocations(void) { return nallocs; }
API int win_can_execute(void) {
    void *p = mmap(0, PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    int r = p != MAP_FAILED && mprotect(p, PG, PROT_READ | PROT_WRITE | PROT_EXEC) == 0;
    if (p != MAP_FAILED) munmap(p, PG);
    return r;
}

API BOOL VirtualProtect(LPVOID address, SIZE_T size, DWORD protect, PDWORD old) {
    uintptr_t a = (uintptr_t) address & ~(PG - 1), e = ((uintptr_t) address + size + PG - 1) & ~(PG - 1);
    if (fails()) return 0;
    if (!old || !size || native(protect) < 0) { win_errors++; return 0; }
    DWORD before = prot(a);
    if (mprotect((void *) a, e - a, native(protect)) != 0) { win_errors++; return 0; }
    *old = before;
    for (uintptr_t p = a; p < e; p += PG) set(p, protect);
    return 1;
}
API LPVOID VirtualAlloc(LPVOID address, SIZE_T size, DWORD type, DWORD protect) {
    if (fails()) return 0;
    if (!size || address || type != (MEM_COMMIT | MEM_RESERVE) && type != MEM_COMMIT || native(protect) < 0 || nallocs == MAXP) { win_errors++; return 0; }
    size = (size + PG - 1) & ~(PG - 1);
    char *p = mmap(0, size + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return 0;
    char *q = (char *) (((uintptr_t) p + 65535) & ~65535ul);
    if (q > p) munmap(p, q - p);
    munmap(q + size, p + size + 65536 - (q + size));
    if (mprotect(q, size, native(protect)) != 0) { munmap(q, size); return 0; }
    for (size_t i = 0; i < size; i += PG) set((uintptr_t) q + i, protect);
    allocs[nallocs].base = (uintptr_t) q;
    allocs[nallocs++].size = size;
    return q;
}
API BOOL VirtualFree(LPVOID address, SIZE_T size, DWORD type) {
    if (fails()) return 0;
    for (int i = 0; i < nallocs; i++) if (allocs[i].base == (uintptr_t) address && type == MEM_RELEASE && size == 0) {
        for (size_t o = 0; o < allocs[i].size; o += PG) set(allocs[i].base + o, PAGE_READWRITE);
        munmap(address, allocs[i].size);
        allocs[i] = allocs[--nallocs];
        return 1;
    }
    win_errors++;
    return 0;
}
API BOOL FlushInstructionCache(HANDLE process, LPCVOID address, SIZE_T size) { return 1; }
API HANDLE GetCurrentProcess(void) { return (HANDLE) -1; }
API DWORD GetLastError(void) { return 0; }
API void GetSystemInfo(SYSTEM_INFO *info) { memset(info, 0, sizeof *info); info->dwPageSize = PG; info->dwAllocationGranularity = 65536; }
