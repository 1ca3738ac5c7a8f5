// Type-erased operations on the structures of wide.h, for two configurations.
#pragma once
#include "wide.h"

namespace sim
{
struct WideOps
{
    const char * name;
    int members;
    void * (*make)();
    void (*destroy)(void *);
    void (*gen)(Ch &, void *);
    Bytes (*canon)(const void *);
    void (*enc)(Enc &, const void *);
    void (*dec)(Dec &, void *);
    // one object at the end of the bytes, or one at a position of them
    Res (*write[2])(BVec &, std::size_t, const void *, std::size_t &);
    Res (*read[2])(const BVec &, std::size_t, void *, std::size_t &);
};
constexpr int N_WIDE = 200; // A, B, P and vectors of B
extern WideOps wide_ops[N_WIDE];

template <int K>
struct WideCfg;
template <>
struct WideCfg<0>
{
    static auto out(auto & b)
    {
        return zb::out{b};
    }
    static auto in(auto & b)
    {
        return zb::in{b};
    }
};
template <>
struct WideCfg<1>
{
    static auto out(auto & b)
    {
        return zb::out{b, zb::endian::big{}, zb::size_varint{}};
    }
    static auto in(auto & b)
    {
        return zb::in{b, zb::endian::big{}, zb::size_varint{}};
    }
};
template <class T, int K>
Res wide_write(BVec & b, std::size_t at, const void * p, std::size_t & end)
{
    auto o = WideCfg<K>::out(b);
    o.position() = at;
    Res r = guarded([&]() -> zb::errc { return o(*static_cast<const T *>(p)); });
    end = o.position();
    return r;
}
template <class T, int K>
Res wide_read(const BVec & b, std::size_t at, void * p, std::size_t & end)
{
    auto i = WideCfg<K>::in(b);
    i.position() = at;
    Res r = guarded([&]() -> zb::errc { return i(*static_cast<T *>(p)); });
    end = i.position();
    return r;
}
template <class T>
void wide_fill(int at, const char * name, int members)
{
    wide_ops[at] = {name,
                    members,
                    []() -> void * { return new T{}; },
                    [](void * p) { delete static_cast<T *>(p); },
                    [](Ch & c, void * p) {
                        T x{};
                        gen(c, x, 0);
                        *static_cast<T *>(p) = x;
                    },
                    [](const void * p) { return canon_of(*static_cast<const T *>(p)); },
                    [](Enc & e, const void * p) { e.put(*static_cast<const T *>(p)); },
                    [](Dec & d, void * p) { d.get(*static_cast<T *>(p)); },
                    {wide_write<T, 0>, wide_write<T, 1>},
                    {wide_read<T, 0>, wide_read<T, 1>}};
}
template <int N>
struct Pb;
#define PB(N)                                                                                                                    \
    template <>                                                                                                                  \
    struct Pb<N>                                                                                                                 \
    {                                                                                                                            \
        using type = P##N;                                                                                                       \
    };
PB(1) PB(2) PB(3) PB(5) PB(8) PB(13) PB(17) PB(21) PB(29) PB(34) PB(43)
template <int N>
void wide_pb() // some sizes only: their decoders take long to compile
{
    if constexpr (requires { typename Pb<N>::type; }) {
        wide_fill<typename Pb<N>::type>(99 + N, "protobuf", N);
    }
}
#define WIDE(N)                                                                                                                  \
    wide_fill<A##N>(N - 1, "mixed", N);                                                                                          \
    wide_fill<B##N>(49 + N, "flat", N);                                                                                          \
    wide_fill<std::vector<B##N>>(149 + N, "vector of flat", N);                                                                  \
    wide_pb<N>();
#define WIDE10(D) WIDE(D##1) WIDE(D##2) WIDE(D##3) WIDE(D##4) WIDE(D##5) WIDE(D##6) WIDE(D##7) WIDE(D##8) WIDE(D##9)
} // namespace sim
