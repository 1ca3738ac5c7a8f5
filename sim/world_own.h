// For worlds with object types of their own.
#pragma once
#include "world.h"

#include "cfgimpl.h"

namespace sim
{
using BVec = std::vector<std::byte>;

template <class T>
Bytes canon_of(const T & x)
{
    Canon k;
    k.put(x);
    return std::move(k.b);
}
inline Bytes to_bytes(const BVec & v, std::size_t from = 0)
{
    return Bytes(reinterpret_cast<const u8 *>(v.data()) + from, reinterpret_cast<const u8 *>(v.data()) + v.size());
}
inline BVec to_bvec(const Bytes & b)
{
    auto p = reinterpret_cast<const std::byte *>(b.data());
    return BVec(p, p + b.size());
}
} // namespace sim
