"""Address ranges of several GB backed by little memory: the same pages mapped again and again."""
import ctypes
import mmap
import os
import resource

PAGE = mmap.PAGESIZE
LIBC = None


def libc():
    global LIBC
    if LIBC is None:
        LIBC = ctypes.CDLL(None, use_errno=True)
        LIBC.mmap.restype = ctypes.c_void_p
        LIBC.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t] + [ctypes.c_int] * 3 + [ctypes.c_long]
        LIBC.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
    return LIBC


def room():
    """Let this worker use more address space."""
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


class Range:
    """total bytes (whole pages) between inaccessible pages. mirrored: the first half shows the block a from its start, again and again, the second
    half shows the block b so that its last copy ends with the range."""

    def __init__(self, total, period=1 << 20, mirrored=False):
        room()
        assert total % (2 * PAGE) == 0 and period % PAGE == 0
        self.total, self.period, self.mirrored = total, period, mirrored
        self.res = libc().mmap(None, total + 2 * PAGE, 0, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000, -1, 0)
        if self.res in (None, ctypes.c_void_p(-1).value):
            raise OSError("no address space")
        self.lo = self.res + PAGE
        self.hi = self.lo + total
        self.a = self._block()
        self.b = self._block() if mirrored else None
        end = self.lo + (total // 2 if mirrored else total)
        at = self.lo
        while at < end:
            n = min(period, end - at)
            self._map(at, n, self.a[0], 0)
            at += n
        at = self.hi
        while at > end:
            n = min(period, at - end)
            self._map(at - n, n, self.b[0], period - n)
            at -= n

    def _block(self):
        fd = os.memfd_create("huge")
        os.ftruncate(fd, self.period)
        return fd, mmap.mmap(fd, self.period)

    def _map(self, at, n, fd, off):
        if LIBC.mmap(at, n, 3, mmap.MAP_SHARED | 0x10, fd, off) != at:
            raise OSError("mmap")

    def close(self):
        LIBC.munmap(self.res, self.total + 2 * PAGE)
        for blk in (self.a, self.b):
            if blk is not None:
                blk[1].close()
                os.close(blk[0])
