// Registry of the object types under simulation.
#pragma once
#include "types.h"

namespace sim
{
enum : unsigned
{
    F_PB = 1,      // protobuf message: its length prefix is a message size
    F_MAP = 2,     // order of elements is the container's own (hashed)
    F_DYN = 4,     // contains dynamic containers
    F_PTR = 8,     // contains owning pointers
    F_VARINT = 16, // contains variable-length integers whatever the options
    F_VARIANT = 32,
    F_CLAMP = 64, // 8-bit counts inside: see gen
};

using t_bool = bool;
using t_u8 = u8;
using t_i16 = std::int16_t;
using t_u32 = u32;
using t_i64 = i64;
using t_f32 = float;
using t_f64 = double;
using t_c16 = char16_t;
using t_arr = std::array<u16, 5>;
using t_arrs = std::array<std::string, 2>;
using t_tuple = std::tuple<u8, std::string, i64>;
using t_pair = std::pair<std::string, u16>;
using t_str = std::string;
using t_u16str = std::u16string;
using t_vu8 = std::vector<u8>;
using t_vbyte = std::vector<std::byte>;
using t_vu32 = std::vector<u32>;
using t_vpacked = std::vector<Packed>;
using t_vpadded = std::vector<Padded>;
using t_vstr = std::vector<std::string>;
using t_vvu16 = std::vector<std::vector<u16>>;
using t_list = std::list<std::int32_t>;
using t_deque = Deque;
using t_vopt = std::vector<std::optional<std::string>>;
using t_map = std::map<u16, std::string>;
using t_mapv = std::map<std::string, std::vector<u16>>;
using t_umap = std::unordered_map<u32, std::string>;
using t_set = std::set<std::string>;
using t_uset = std::unordered_set<i64>;
using t_mmap = std::multimap<u8, u16>;
using t_mset = std::multiset<u16>;
using t_opt = std::optional<u32>;
using t_optstr = std::optional<std::string>;
using t_optvec = std::optional<std::vector<Padded>>;
using t_uptr = std::unique_ptr<std::string>;
using t_sptr = std::shared_ptr<Outer>;
using t_optptr = zb::optional_ptr<std::string>;
using t_vuptr = std::vector<std::unique_ptr<u32>>;
using t_bits5 = std::bitset<5>;
using t_bits8 = std::bitset<8>;
using t_bits67 = std::bitset<67>;
using t_vvarint = std::vector<zb::vint64_t>;
using t_mapvar = std::map<zb::vuint32_t, VarIdx>;
using t_vvarint32 = zb::vuint32_t;
using t_vsint64 = zb::vsint64_t;
using t_venum = zb::varint<E16>;
using t_vvariant = std::vector<VarInt>;
using t_varbits = std::vector<std::bitset<12>>;
using t_vviews = std::vector<Views>;
using t_vpb = std::vector<PbInner>;
using t_vbig = std::vector<Big>;

// X(group, type, flags)
#define SIM_ITEMS(X)                                                                                                             \
    X(0, t_bool, 0)                                                                                                              \
    X(0, t_u8, 0)                                                                                                                \
    X(0, t_i16, 0)                                                                                                               \
    X(0, t_u32, 0)                                                                                                               \
    X(0, t_i64, 0)                                                                                                               \
    X(0, t_f32, 0)                                                                                                               \
    X(0, t_f64, 0)                                                                                                               \
    X(0, t_c16, 0)                                                                                                               \
    X(0, E8, 0)                                                                                                                  \
    X(0, E32, 0)                                                                                                                 \
    X(0, t_arr, 0)                                                                                                               \
    X(0, t_arrs, F_DYN)                                                                                                          \
    X(0, t_tuple, F_DYN)                                                                                                         \
    X(0, t_pair, F_DYN)                                                                                                          \
    X(0, t_str, F_DYN)                                                                                                           \
    X(0, t_u16str, F_DYN)                                                                                                        \
    X(0, t_vu8, F_DYN)                                                                                                           \
    X(0, t_vbyte, F_DYN)                                                                                                         \
    X(0, t_vu32, F_DYN)                                                                                                          \
    X(0, t_vpacked, F_DYN)                                                                                                       \
    X(0, t_vpadded, F_DYN)                                                                                                       \
    X(0, t_vstr, F_DYN)                                                                                                          \
    X(0, t_vvu16, F_DYN)                                                                                                         \
    X(0, t_list, F_DYN)                                                                                                          \
    X(0, t_deque, F_DYN)                                                                                                         \
    X(0, t_vopt, F_DYN)                                                                                                          \
    X(0, t_bits5, 0)                                                                                                             \
    X(0, t_bits8, 0)                                                                                                             \
    X(0, t_bits67, 0)                                                                                                            \
    X(1, t_map, F_DYN)                                                                                                           \
    X(1, t_mapv, F_DYN)                                                                                                          \
    X(1, t_umap, F_DYN | F_MAP)                                                                                                  \
    X(1, t_set, F_DYN)                                                                                                           \
    X(1, t_uset, F_DYN | F_MAP)                                                                                                  \
    X(1, t_mmap, F_DYN)                                                                                                          \
    X(1, t_mset, F_DYN)                                                                                                          \
    X(1, t_opt, 0)                                                                                                               \
    X(1, t_optstr, F_DYN)                                                                                                        \
    X(1, t_optvec, F_DYN)                                                                                                        \
    X(1, t_uptr, F_DYN | F_PTR)                                                                                                  \
    X(1, t_sptr, F_DYN | F_PTR)                                                                                                  \
    X(1, t_optptr, F_DYN)                                                                                                        \
    X(1, t_vuptr, F_DYN | F_PTR)                                                                                                 \
    X(1, t_vvarint, F_DYN | F_VARINT)                                                                                            \
    X(1, t_mapvar, F_DYN | F_VARINT | F_VARIANT)                                                                                 \
    X(1, t_vvarint32, F_VARINT)                                                                                                  \
    X(1, t_vsint64, F_VARINT)                                                                                                    \
    X(1, t_venum, F_VARINT)                                                                                                      \
    X(1, Varints, F_VARINT)                                                                                                      \
    X(1, t_varbits, F_DYN)                                                                                                       \
    X(1, VarIdx, F_DYN | F_VARIANT)                                                                                              \
    X(1, VarInt, F_DYN | F_VARIANT)                                                                                              \
    X(1, VarStr, F_DYN | F_VARIANT)                                                                                              \
    X(1, t_vvariant, F_DYN | F_VARIANT)                                                                                          \
    X(1, KnownId, F_DYN | F_VARIANT)                                                                                             \
    X(1, Views, F_DYN)                                                                                                           \
    X(1, t_vbig, F_DYN)                                                                                                          \
    X(1, t_vviews, F_DYN)                                                                                                        \
    X(1, NoDefaultRef, F_DYN | F_VARIANT)                                                                                        \
    X(2, Packed, 0)                                                                                                              \
    X(2, Padded, 0)                                                                                                              \
    X(2, Bytes3, 0)                                                                                                              \
    X(2, Scalars, 0)                                                                                                             \
    X(2, Wide, F_DYN)                                                                                                            \
    X(2, Outer, F_DYN)                                                                                                           \
    X(2, WithCArray, F_DYN)                                                                                                      \
    X(2, NonAgg, F_DYN)                                                                                                          \
    X(2, MemberSer, F_DYN)                                                                                                       \
    X(2, AdlSer, F_DYN)                                                                                                          \
    X(2, RawBytes, F_DYN)                                                                                                        \
    X(2, Unsized, F_DYN)                                                                                                         \
    X(2, SizedMix, F_DYN)                                                                                                        \
    X(2, SizedRef, F_DYN)                                                                                                        \
    X(2, Node, F_DYN)                                                                                                            \
    X(2, Tree, F_DYN)                                                                                                            \
    X(2, Combos, F_DYN | F_MAP | F_VARIANT)                                                                                      \
    X(2, Combos2, F_DYN | F_VARIANT | F_PTR)                                                                                     \
    X(2, Turns, F_DYN | F_MAP)                                                                                                   \
    X(3, PbInner, F_PB | F_DYN | F_VARINT)                                                                                       \
    X(3, PbAll, F_PB | F_DYN | F_VARINT)                                                                                         \
    X(3, PbRepeated, F_PB | F_DYN | F_VARINT)                                                                                    \
    X(3, PbNumbered, F_PB | F_DYN | F_VARINT)                                                                                    \
    X(3, PbMapped, F_PB | F_DYN | F_VARINT)                                                                                      \
    X(3, PbTree, F_PB | F_DYN | F_VARINT)                                                                                        \
    X(3, PbLists, F_PB | F_DYN | F_VARINT)                                                                                       \
    X(3, PbMix, F_PB | F_DYN | F_VARINT)                                                                                         \
    X(3, t_vpb, F_PB | F_DYN | F_VARINT)

enum ItemId : int
{
#define X(g, t, f) IT_##t,
    SIM_ITEMS(X)
#undef X
        N_ITEMS
};

struct ItemOps // independent of the archive configuration
{
    const char * name;
    unsigned flags;
    int group;
    void * (*make)();
    void (*destroy)(void *);
    void (*gen)(Ch &, void *);
    void (*enc)(Enc &, const void *);
    void (*dec)(Dec &, void *);
    void (*canon)(Canon &, const void *);
};
extern const ItemOps * const item_ops;

struct Res
{
    int code = 0; // std::errc value
    enum Exc
    {
        none,
        bad_alloc,
        length_error,
        sim_fault,
        system_error,
        other
    } exc = none;
    bool ok() const
    {
        return !code && !exc;
    }
    bool operator==(const Res &) const = default;
};

// Type-erased archives and buffers of one configuration.
struct OutA
{
    virtual ~OutA() = default;
    virtual Res write(int item, const void * v) = 0;
    virtual Res write2(int item, const void * a, const void * b) = 0;
    virtual std::size_t pos() = 0;
    virtual void set_pos(std::size_t) = 0; // position() = p
    virtual void reset(std::size_t) = 0;
    virtual std::size_t size() = 0;
    virtual std::span<const u8> processed() = 0;
    virtual std::span<const u8> remaining() = 0;
};
struct InA
{
    virtual ~InA() = default;
    virtual Res read(int item, void * v) = 0;
    virtual Res read2(int item, void * a, void * b) = 0;
    virtual std::size_t pos() = 0;
    virtual void set_pos(std::size_t) = 0;
    virtual void reset(std::size_t) = 0;
    virtual std::span<const u8> processed() = 0;
    virtual std::span<const u8> remaining() = 0;
};
struct Buf // the bytes an archive works on
{
    virtual ~Buf() = default;
    virtual const u8 * data() const = 0;
    virtual std::size_t size() const = 0;
    virtual u8 * wdata() = 0;
    virtual bool growable() const = 0;
    virtual OutA * out() = 0;
    virtual InA * in() = 0;
    // for growable buffers: more bytes arrive, or the first n are dropped
    virtual void append(const u8 * p, std::size_t n) = 0;
    virtual void consume(std::size_t n) = 0;
    virtual bool live() const = 0; // input archives follow the container as it grows
};
enum : unsigned
{
    C_FIXED = 1,
    C_NOFIT = 2,
    C_LIMIT_OUT = 4,
    C_APPEND = 8,
    C_EXACT = 16,
};
struct Cfg
{
    int k;
    const char * name;
    Wire wire;
    unsigned flags;
    std::size_t out_limit;
    unsigned mul, div; // growth policy
    // n bytes of content (fixed configurations: exactly n bytes of capacity)
    Buf * (*make)(const u8 * p, std::size_t n);
    bool (*has)(int item);
};
extern const Cfg cfgs[];
extern const int n_cfgs;
} // namespace sim
