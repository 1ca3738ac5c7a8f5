// The simulated heap: global operator new/delete with injected failures and accounting.
#pragma once
#include "choices.h"
#include <exception>

namespace sim
{
struct SimFault : std::exception // thrown by injected callback faults
{
    const char * what() const noexcept override
    {
        return "simulated fault";
    }
};

struct Heap
{
    bool active = false;      // inside a window: count, cap and fail
    u64 allocs = 0;           // allocations in this window
    i64 live = 0;             // allocations minus frees in this window
    u64 bytes = 0;            // bytes allocated in this window
    u64 biggest = 0;          // biggest single request
    u64 fail_at = 0;          // fail the k-th allocation of the window (1-based, 0: never)
    u64 fail_run = 1;         // how many consecutive ones fail
    u64 cap_single = 1 << 20; // a single request above this fails
    u64 cap_total = 1 << 22;  // and so does exceeding this total
    u64 failed = 0;           // injected failures that fired
    u64 capped = 0;
    void (*yield)() = nullptr; // scheduling point before every allocation and free
};
extern Heap heap;
extern thread_local bool heap_exempt;
struct Exempt // harness code called from inside the library
{
    bool old = heap_exempt;
    Exempt()
    {
        heap_exempt = true;
    }
    ~Exempt()
    {
        heap_exempt = old;
    }
};

// Counts heap traffic between open() and close().
struct Window
{
    explicit Window(u64 fail_at = 0, u64 run = 1)
    {
        auto y = heap.yield;
        heap = Heap{};
        heap.yield = y;
        heap.fail_at = fail_at;
        heap.fail_run = run;
        heap.active = true;
    }
    ~Window()
    {
        heap.active = false;
    }
    void pause()
    {
        heap.active = false;
    }
    void resume()
    {
        heap.active = true;
    }
};
} // namespace sim
