/* Stands in for the Windows header: the memory functions are answered by win.c, by the rules Windows documents. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
#include <map>
#include <mutex>
#include <stdexcept>
#include <string>
extern "C" {
#endif
typedef unsigned long DWORD;
typedef DWORD *PDWORD, *LPDWORD;
typedef int BOOL;
typedef void *LPVOID, *PVOID, *HANDLE;
typedef const void *LPCVOID;
typedef size_t SIZE_T;
#define TRUE 1
#define FALSE 0
#define WINAPI
#define PAGE_NOACCESS 0x01
#define PAGE_READONLY 0x02
#define PAGE_READWRITE 0x04
#define PAGE_EXECUTE 0x10
#define PAGE_EXECUTE_READ 0x20
#define PAGE_EXECUTE_READWRITE 0x40
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_DECOMMIT 0x4000
#define MEM_RELEASE 0x8000
typedef struct { DWORD dwPageSize; DWORD dwAllocationGranularity; void *lpMinimumApplicationAddress, *lpMaximumApplicationAddress; } SYSTEM_INFO;
BOOL VirtualProtect(LPVOID address, SIZE_T size, DWORD protect, PDWORD old);
LPVOID VirtualAlloc(LPVOID address, SIZE_T size, DWORD type, DWORD protect);
BOOL VirtualFree(LPVOID address, SIZE_T size, DWORD type);
BOOL FlushInstructionCache(HANDLE process, LPCVOID address, SIZE_T size);
HANDLE GetCurrentProcess(void);
DWORD GetLastError(void);
void GetSystemInfo(SYSTEM_INFO *info);
#ifdef __cplusplus
}
#endif
