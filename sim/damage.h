// Damage to bytes in transit.
#pragma once
#include "world.h"

namespace sim
{
inline void corrupt(Ch & c, Bytes & b, const Bytes & other)
{
    switch (c.pick(11)) {
    case 0:
        if (b.size()) {
            b[c.pick(u32(b.size()))] ^= u8(1u << c.pick(8));
            fault("bit flip");
        }
        break;
    case 1:
        if (b.size()) {
            b[c.pick(u32(b.size()))] = u8(c.integer(8));
            fault("byte overwritten");
        }
        break;
    case 2:
        b.resize(c.pick(u32(b.size() + 1)));
        fault("truncation");
        break;
    case 3: { // forged length or value
        if (b.size()) {
            u32 w = 1u << c.pick(4);
            std::size_t at = c.pick(u32(b.size()));
            u64 x = c.integer(64);
            if (c.pick(2)) {
                x = c.pick(2) ? b.size() + c.pick(3) : ~0ull - c.pick(3);
            }
            bool big = c.pick(2);
            for (u32 i = 0; i < w && at + i < b.size(); ++i) {
                b[at + i] = u8(x >> (8 * (big ? w - 1 - i : i)));
            }
            fault("forged integer");
        }
        break;
    }
    case 4: {
        std::size_t at = c.pick(u32(b.size() + 1));
        u32 n = c.range(1, 8);
        for (u32 i = 0; i < n; ++i) {
            b.insert(b.begin() + long(at), u8(c.integer(8)));
        }
        fault("bytes inserted");
        break;
    }
    case 5:
        if (b.size()) {
            std::size_t at = c.pick(u32(b.size()));
            std::size_t n = 1 + c.pick(u32(std::min<std::size_t>(b.size() - at, 8)));
            b.erase(b.begin() + long(at), b.begin() + long(at + n));
            fault("bytes lost");
        }
        break;
    case 6:
        if (b.size()) {
            std::size_t at = c.pick(u32(b.size()));
            std::size_t n = 1 + c.pick(u32(std::min<std::size_t>(b.size() - at, 16)));
            Bytes d(b.begin() + long(at), b.begin() + long(at + n));
            b.insert(b.begin() + long(at), d.begin(), d.end());
            fault("block duplicated");
        }
        break;
    case 7:
        if (b.size() > 1) {
            std::size_t x = c.pick(u32(b.size())), y = c.pick(u32(b.size()));
            std::size_t n = 1 + c.pick(8);
            for (std::size_t i = 0; i < n && x + i < b.size() && y + i < b.size(); ++i) {
                std::swap(b[x + i], b[y + i]);
            }
            fault("blocks swapped");
        }
        break;
    case 8: {
        std::size_t at = c.pick(u32(b.size() + 1));
        std::size_t from = c.pick(u32(other.size() + 1));
        b.resize(at);
        b.insert(b.end(), other.begin() + long(from), other.end());
        fault("spliced with another message");
        break;
    }
    case 9: { // varint stretched: continuation bits set
        if (b.size()) {
            std::size_t at = c.pick(u32(b.size()));
            u32 n = c.range(1, 10);
            for (u32 i = 0; i < n && at + i < b.size(); ++i) {
                b[at + i] |= 0x80;
            }
            fault("continuation bits set");
        }
        break;
    }
    default:
        for (auto & x : b) {
            if (c.chance(1, 16)) {
                x = u8(c.integer(8));
            }
        }
        fault("burst of noise");
    }
}
// A length prefix says something else: about as much as is there, or so much that adding to it wraps around.
inline void forge_prefix(Ch & c, Bytes & b, const Enc & e)
{
    if (e.prefixes.empty()) {
        return;
    }
    auto p = e.prefixes[c.pick(u32(e.prefixes.size()))];
    std::size_t from = p.at + p.len;
    if (from > b.size()) {
        return;
    }
    std::size_t left = b.size() - from;
    u64 x = 0;
    switch (c.pick(6)) {
    case 0:
        x = left + c.pick(4);
        break;
    case 1:
        x = left ? left - 1 - c.pick(u32(std::min<std::size_t>(left, 3))) : 1;
        break;
    case 2: // the end wraps around into the buffer
        x = ~0ull - c.pick(u32(from + 4));
        break;
    case 3:
        x = (~0ull >> c.pick(40)) - c.pick(3);
        break;
    case 4: // the bytes wrap around to few
        x = (1ull << (64 - c.range(1, 6))) + c.pick(u32(left + 2));
        break;
    default:
        x = c.integer(64);
    }
    Enc f(e.w);
    f.sizep2(std::size_t(x), p.kind);
    b.erase(b.begin() + long(p.at), b.begin() + long(from));
    b.insert(b.begin() + long(p.at), f.b.begin(), f.b.end());
    fault("forged length prefix");
}
} // namespace sim
