// Preloaded: the allocation number VP_NOMEM (and those after it, with VP_NOMEM_PERSIST) fails. VP_NOMEM_COUNT names the file that receives the number of allocations.
#include <stdio.h>
#include <stdlib.h>
#include <new>

static long at = -1, count = 0;
static bool persist = false;

static void *allocate(size_t n)
{
    long k = count++;
    if (at >= 0 && (k == at || (persist && k > at))) return nullptr;
    return malloc(n ? n : 1);
}

__attribute__((constructor)) static void begin()
{
    const char *v = getenv("VP_NOMEM");
    if (v) at = atol(v);
    persist = getenv("VP_NOMEM_PERSIST") != nullptr;
    count = 0;
}

__attribute__((destructor)) static void end()
{
    const char *v = getenv("VP_NOMEM_COUNT");
    FILE *f = v ? fopen(v, "w") : nullptr;
    if (f) { fprintf(f, "%ld", count); fclose(f); }
}

void *operator new(size_t n) { void *p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return allocate(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return allocate(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
