#include <stdlib.h>
void *__wrap_aligned_alloc(size_t alignment, size_t size) {
    void *p = 0;
    if (alignment < sizeof(void *)) alignment = sizeof(void *);
    if (posix_memalign(&p, alignment, size)) return 0;
    return p;
}
