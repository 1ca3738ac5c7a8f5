// The archive configurations of simulated nodes.
#pragma once
#include "cfgimpl.h"

namespace sim
{
// a growable buffer that is not a standard container; its resizes can be made to fail or yield
struct SimBuffer
{
    using value_type = unsigned char;
    mvec<u8> mem;
    static inline u64 resizes = 0;
    static inline u64 fail_resize_at = 0;
    static inline void (*on_resize)() = nullptr;
    unsigned char * data()
    {
        return mem.data();
    }
    const unsigned char * data() const
    {
        return mem.data();
    }
    std::size_t size() const
    {
        return mem.size();
    }
    auto begin()
    {
        return mem.data();
    }
    auto end()
    {
        return mem.data() + mem.size();
    }
    auto begin() const
    {
        return mem.data();
    }
    auto end() const
    {
        return mem.data() + mem.size();
    }
    unsigned char & operator[](std::size_t i)
    {
        if (i >= mem.size()) {
            __builtin_trap(); // the library went past the buffer
        }
        return mem[i];
    }
    const unsigned char & operator[](std::size_t i) const
    {
        if (i >= mem.size()) {
            __builtin_trap();
        }
        return mem[i];
    }
    void resize(std::size_t n);
    void reserve(std::size_t n)
    {
        mem.reserve(n);
    }
};

template <int K>
struct CfgDef;

#define SIM_CFG(K, NAME, VIEW, INVIEW, WIRE, FLAGS, OUTLIMIT, MUL, DIV, OUTOPTS, INOPTS, OUTARGS, INARGS)                        \
    template <>                                                                                                                  \
    struct CfgDef<K>                                                                                                             \
    {                                                                                                                            \
        using View = VIEW;                                                                                                       \
        using InView = INVIEW;                                                                                                   \
        using Out = zb::out<View OUTOPTS>;                                                                                       \
        using In = zb::in<InView INOPTS>;                                                                                        \
        static constexpr auto name = NAME;                                                                                       \
        static constexpr Wire wire = Wire WIRE;                                                                                  \
        static constexpr unsigned flags = FLAGS;                                                                                 \
        static constexpr std::size_t out_limit = OUTLIMIT;                                                                       \
        static constexpr unsigned mul = MUL, div = DIV;                                                                          \
        static Out make_out(View & v)                                                                                            \
        {                                                                                                                        \
            return Out{v OUTARGS};                                                                                               \
        }                                                                                                                        \
        static In make_in(InView & v)                                                                                            \
        {                                                                                                                        \
            return In{v INARGS};                                                                                                 \
        }                                                                                                                        \
    };
#define NOTHING
#define COMMA ,

using ByteVec = std::vector<std::byte>;
using UVec = std::vector<unsigned char>;

SIM_CFG(0, "vector", ByteVec, ByteVec, (false COMMA 4), 0, unlimited, 3, 2, NOTHING, NOTHING, NOTHING, NOTHING)
SIM_CFG(1, "vector,big,append", ByteVec, ByteVec, (true COMMA 4), C_APPEND, unlimited, 3, 2, COMMA zb::endian::big COMMA zb::append,
        COMMA zb::endian::big, COMMA zb::endian::big {} COMMA zb::append{}, COMMA zb::endian::big{})
SIM_CFG(2, "string,size1b", std::string, std::string_view, (false COMMA 1), 0, unlimited, 3, 2, COMMA zb::size1b, COMMA zb::size1b,
        COMMA zb::size1b{}, COMMA zb::size1b{})
SIM_CFG(3, "uvector,size2b,big,x2,reserve", UVec, UVec, (true COMMA 2), 0, unlimited, 2, 1,
        COMMA zb::size2b COMMA zb::endian::network COMMA zb::enlarger<2> COMMA zb::reserve,
        COMMA zb::size2b COMMA zb::endian::network,
        COMMA zb::size2b{} COMMA zb::endian::network{} COMMA zb::enlarger<2>{} COMMA zb::reserve{64},
        COMMA zb::size2b{} COMMA zb::endian::network{})
SIM_CFG(4, "vector,size8b,exact", ByteVec, const ByteVec, (false COMMA 8), C_EXACT, unlimited, 1, 1,
        COMMA zb::size8b COMMA zb::exact_enlarger, COMMA zb::size8b, COMMA zb::size8b{} COMMA zb::exact_enlarger{},
        COMMA zb::size8b{})
SIM_CFG(5, "vector,size_varint", ByteVec, ByteVec, (false COMMA SZ_VARINT), 0, unlimited, 3, 2, COMMA zb::size_varint,
        COMMA zb::size_varint, COMMA zb::size_varint{}, COMMA zb::size_varint{})
SIM_CFG(6, "uvector,size_varint,swapped,no_fit", UVec, UVec, (true COMMA SZ_VARINT), C_NOFIT, unlimited, 3, 2,
        COMMA zb::size_varint COMMA zb::endian::swapped COMMA zb::no_fit_size, COMMA zb::size_varint COMMA zb::endian::swapped,
        COMMA zb::size_varint{} COMMA zb::endian::swapped{} COMMA zb::no_fit_size{},
        COMMA zb::size_varint{} COMMA zb::endian::swapped{})
SIM_CFG(7, "span", std::span<std::byte>, std::span<std::byte>, (false COMMA 4), C_FIXED, unlimited, 0, 0, NOTHING, NOTHING,
        NOTHING, NOTHING)
SIM_CFG(8, "uspan,big,size_native", std::span<unsigned char>, std::span<const unsigned char>, (true COMMA 8), C_FIXED,
        unlimited, 0, 0, COMMA zb::endian::big COMMA zb::size_native, COMMA zb::endian::big COMMA zb::size_native,
        COMMA zb::endian::big{} COMMA zb::size_native{}, COMMA zb::endian::big{} COMMA zb::size_native{})
SIM_CFG(9, "simbuffer,size_varint,nofit,limits", SimBuffer, SimBuffer, (false COMMA SZ_VARINT COMMA 512), C_NOFIT | C_LIMIT_OUT,
        2048, 3, 2, COMMA zb::size_varint COMMA zb::no_fit_size COMMA zb::alloc_limit<2048>,
        COMMA zb::size_varint COMMA zb::alloc_limit<512>, COMMA zb::size_varint{} COMMA zb::no_fit_size{} COMMA zb::alloc_limit<2048>{},
        COMMA zb::size_varint{} COMMA zb::alloc_limit<512>{})
SIM_CFG(10, "vector,limit256", ByteVec, ByteVec, (false COMMA 4 COMMA 256), C_LIMIT_OUT, 256, 3, 2, COMMA zb::alloc_limit<256>,
        COMMA zb::alloc_limit<256>, COMMA zb::alloc_limit<256>{}, COMMA zb::alloc_limit<256>{})
SIM_CFG(11, "vector,limit128,x3,big", ByteVec, std::span<std::byte>, (true COMMA 2 COMMA 128), C_LIMIT_OUT, 128, 3, 1,
        COMMA zb::endian::big COMMA zb::size2b COMMA zb::alloc_limit<128> COMMA zb::enlarger<3> COMMA zb::no_enlarge_overflow,
        COMMA zb::endian::big COMMA zb::size2b COMMA zb::alloc_limit<128>,
        COMMA zb::endian::big{} COMMA zb::size2b{} COMMA zb::alloc_limit<128>{} COMMA zb::enlarger<3>{} COMMA zb::no_enlarge_overflow{},
        COMMA zb::endian::big{} COMMA zb::size2b{} COMMA zb::alloc_limit<128>{})
SIM_CFG(12, "charspan,size_varint", std::span<char>, std::span<char>, (false COMMA SZ_VARINT), C_FIXED, unlimited, 0, 0,
        COMMA zb::size_varint, COMMA zb::size_varint, COMMA zb::size_varint{}, COMMA zb::size_varint{})
constexpr int N_CFGS = 13;
constexpr int N_GRPS = 2;

// two configurations serve every type, the others half of them each
constexpr bool cfg_serves(int cfg, int it)
{
    return cfg == 0 || cfg == 6 || (it / 2 + it + cfg) % 2 == 0;
}

template <int K, int G>
void fill(WTab<typename CfgDef<K>::Out> & w, RTab<typename CfgDef<K>::In> & r);
} // namespace sim
