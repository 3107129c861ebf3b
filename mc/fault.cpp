/* An allocator the checks control.
 *
 * Preloaded into a worker.  While armed, the k-th allocation through operator new
 * since arming fails with std::bad_alloc, all others succeed.  mc_live tells how many
 * allocations have not been released.  The binding layer allocates while it releases an
 * object and ends the process if that fails; mc_spare excepts this for one of its types.
 */
#include <Python.h>
#include <cstdlib>
#include <new>

static bool armed = false;
static long fail_at = 0, seen = 0, live = 0;
static destructor release = nullptr;

static void spared(PyObject *o)
{
    bool was = armed;
    armed = false;
    release(o);
    armed = was;
}

extern "C" {
void mc_fail_at(long k)
{
    fail_at = k;
    seen = 0;
    armed = true;
}

long mc_fail_off(void)
{
    armed = false;
    return seen;
}

long mc_live(void) { return live; }

int mc_spare(PyObject *o)
{
    PyTypeObject *t = reinterpret_cast<PyTypeObject *>(o);
    if (t->tp_dealloc == spared) return 1;
    if (release && t->tp_dealloc != release) return 0;
    release = t->tp_dealloc;
    t->tp_dealloc = spared;
    return 1;
}
}

static void *try_get(std::size_t n) noexcept
{
    if (armed && ++seen == fail_at) return nullptr;
    void *p = std::malloc(n ? n : 1);
    if (p) live++;
    return p;
}

static void *get(std::size_t n)
{
    void *p = try_get(n);
    if (!p) throw std::bad_alloc();
    return p;
}

static void put(void *p) noexcept
{
    if (p) live--;
    std::free(p);
}

void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return try_get(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return try_get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, std::size_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
