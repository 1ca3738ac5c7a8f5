// The single source of nondeterminism of a simulated run: a recorded choice stream.
// Random mode draws from one PRNG; replay mode reads a recorded list (0 past its end).
// 0 is always the simplest answer (no fault, stop, smallest value), so that deleting or
// zeroing recorded choices simplifies the run.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace sim
{
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

template <class T>
struct Mal // allocator outside the simulated heap
{
    using value_type = T;
    Mal() = default;
    template <class U>
    Mal(const Mal<U> &)
    {
    }
    T * allocate(std::size_t n)
    {
        return static_cast<T *>(std::malloc(n * sizeof(T)));
    }
    void deallocate(T * p, std::size_t)
    {
        std::free(p);
    }
    bool operator==(const Mal &) const
    {
        return true;
    }
};
template <class T>
using mvec = std::vector<T, Mal<T>>;

inline u64 mix64(u64 x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Ch
{
    bool replaying = false;
    u64 state = 0;
    mvec<u32> input;
    std::size_t next_in = 0;
    mvec<u32> rec;
    u32 * sink = nullptr; // survives a crash of the run
    std::size_t sink_cap = 0;
    u64 * n_sink = nullptr;
    void note(u32 v)
    {
        if (sink && rec.size() < sink_cap) {
            sink[rec.size()] = v;
            *n_sink = rec.size() + 1;
        }
        rec.push_back(v);
    }
    mvec<u32> marks; // indices in rec where a step starts

    static Ch & get()
    {
        static Ch * c = new (std::malloc(sizeof(Ch))) Ch();
        return *c;
    }
    void seed(u64 s)
    {
        replaying = false;
        state = s;
        rec.clear();
        marks.clear();
    }
    void replay(const mvec<u32> & in)
    {
        replaying = true;
        input = in;
        next_in = 0;
        rec.clear();
        marks.clear();
    }
    u32 next32()
    {
        state += 0x9e3779b97f4a7c15ull;
        return u32(mix64(state) >> 32);
    }
    // uniform in [0, n)
    u32 pick(u32 n)
    {
        if (n <= 1) {
            return 0;
        }
        u32 v;
        if (replaying) {
            v = next_in < input.size() ? input[next_in++] : 0;
            if (v >= n) {
                v %= n;
            }
        } else {
            v = u32((u64(next32()) * n) >> 32);
        }
        note(v);
        return v;
    }
    u32 raw()
    {
        u32 v;
        if (replaying) {
            v = next_in < input.size() ? input[next_in++] : 0;
        } else {
            v = next32();
        }
        note(v);
        return v;
    }
    // true with probability num/den; the 0 choice is false
    bool chance(u32 num, u32 den)
    {
        return pick(den) >= den - num;
    }
    u32 range(u32 lo, u32 hi) // inclusive
    {
        return lo + pick(hi - lo + 1);
    }
    void mark()
    {
        marks.push_back(u32(rec.size()));
    }
    // an integer biased to boundary values of `bits`-bit words
    u64 integer(unsigned bits)
    {
        u64 mask = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
        switch (pick(7)) {
        case 0:
            return pick(4);
        case 1:
            return pick(256) & mask;
        case 2: { // around a power of two
            u64 b = 1ull << pick(bits);
            return (b + pick(3) - 1) & mask;
        }
        case 3: // around a multiple-of-seven bit boundary (varint lengths)
        {
            u32 k = pick((bits + 6) / 7 + 1) * 7;
            u64 b = k >= 64 ? 0 : 1ull << k;
            return (b + pick(3) - 1) & mask;
        }
        case 4:
            return (0 - u64(pick(300))) & mask;
        case 5: {
            u64 r = raw();
            r = (r << 32) | raw();
            return r & mask & (~0ull >> pick(64));
        }
        default: {
            u64 r = raw();
            r = (r << 32) | raw();
            return r & mask;
        }
        }
    }
    u32 length() // element counts
    {
        switch (pick(10)) {
        case 0:
        case 1:
            return 0;
        case 2:
        case 3:
            return 1;
        case 4:
        case 5:
        case 6:
            return range(2, 4);
        case 7:
        case 8:
            return range(3, 12);
        default:
            if (pick(4)) {
                return range(8, 24);
            }
            // around the boundaries of one byte prefixes and two byte varints
            return range(120, 140) + (pick(2) ? 128 : 0);
        }
    }
};
} // namespace sim
