// Global operator new and delete over malloc, with the injected failures of the simulated heap.
#include "alloc.h"
#include <new>

namespace sim
{
Heap heap;
thread_local bool heap_exempt = false; // harness code inside a window

static void * get(std::size_t n, std::size_t align)
{
    if (heap.active && !heap_exempt) {
        if (heap.yield) {
            heap.yield();
        }
        ++heap.allocs;
        if (heap.fail_at && heap.allocs >= heap.fail_at && heap.allocs < heap.fail_at + heap.fail_run) {
            ++heap.failed;
            return nullptr;
        }
        if (n > heap.cap_single || heap.bytes + n > heap.cap_total) {
            ++heap.capped;
            if (n > heap.biggest) {
                heap.biggest = n;
            }
            return nullptr;
        }
        ++heap.live;
        heap.bytes += n;
        if (n > heap.biggest) {
            heap.biggest = n;
        }
    }
    if (!n) {
        n = 1;
    }
    return align > 16 ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n);
}
static void put(void * p)
{
    if (p && heap.active && !heap_exempt) {
        --heap.live;
        if (heap.yield) {
            heap.yield();
        }
    }
    std::free(p);
}
} // namespace sim

void * operator new(std::size_t n)
{
    if (void * p = sim::get(n, 0)) {
        return p;
    }
    throw std::bad_alloc();
}
void * operator new[](std::size_t n)
{
    return operator new(n);
}
void * operator new(std::size_t n, const std::nothrow_t &) noexcept
{
    return sim::get(n, 0);
}
void * operator new[](std::size_t n, const std::nothrow_t &) noexcept
{
    return sim::get(n, 0);
}
void * operator new(std::size_t n, std::align_val_t a)
{
    if (void * p = sim::get(n, std::size_t(a))) {
        return p;
    }
    throw std::bad_alloc();
}
void * operator new[](std::size_t n, std::align_val_t a)
{
    return operator new(n, a);
}
void operator delete(void * p) noexcept
{
    sim::put(p);
}
void operator delete[](void * p) noexcept
{
    sim::put(p);
}
void operator delete(void * p, std::size_t) noexcept
{
    sim::put(p);
}
void operator delete[](void * p, std::size_t) noexcept
{
    sim::put(p);
}
void operator delete(void * p, std::align_val_t) noexcept
{
    sim::put(p);
}
void operator delete[](void * p, std::align_val_t) noexcept
{
    sim::put(p);
}
void operator delete(void * p, std::size_t, std::align_val_t) noexcept
{
    sim::put(p);
}
void operator delete[](void * p, std::size_t, std::align_val_t) noexcept
{
    sim::put(p);
}
