// Independent reference model of the wire format: an encoder and a decoder written from the
// documentation, sharing no code with the library. Structs list their members through
// fields(visitor); standard types are handled here.
#pragma once
#include "choices.h"
#include "zpp_bits.h"

#include <algorithm>
#include <array>
#include <bitset>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <variant>

namespace sim
{
namespace zb = zpp::bits;

enum Code : int
{
    OK = 0,
    RANGE = int(std::errc::result_out_of_range),
    MSGSIZE = int(std::errc::message_size),
    BADMSG = int(std::errc::bad_message),
    TOOLARGE = int(std::errc::value_too_large),
    PROTO = int(std::errc::protocol_error),
    INVALID = int(std::errc::invalid_argument),
    NOSPACE = int(std::errc::no_buffer_space),
    NOTSUP = int(std::errc::not_supported),
};
const char * code_name(int c);

constexpr std::size_t unlimited = ~std::size_t{};
constexpr int SZ_NONE = 0;
constexpr int SZ_VARINT = 9;

struct Wire
{
    bool big = false;
    int size = 4; // 0 none, 1/2/4/8 bytes, 9 varint
    std::size_t limit = unlimited; // input allocation limit

    bool same_wire(const Wire & o) const
    {
        return big == o.big && size == o.size;
    }
};

// ---- traits -------------------------------------------------------------------------------
template <class T>
struct is_sized : std::false_type
{
};
template <class T, class S>
struct is_sized<zb::sized_item<T, S>> : std::true_type
{
    using base = T;
    static constexpr int size = std::is_void_v<S>                    ? SZ_NONE
                                : zb::concepts::varint<S>            ? SZ_VARINT
                                                                     : int(sizeof(std::conditional_t<std::is_void_v<S>, char, S>));
};
template <class T>
struct is_varint : std::false_type
{
};
template <class T, zb::varint_encoding E>
struct is_varint<zb::varint<T, E>> : std::true_type
{
    using word = T;
    static constexpr bool zz = E == zb::varint_encoding::zig_zag;
};
template <class T, template <class...> class X>
struct is_tmpl : std::false_type
{
};
template <class... A, template <class...> class X>
struct is_tmpl<X<A...>, X> : std::true_type
{
};
template <class T>
struct is_bitset : std::false_type
{
};
template <std::size_t N>
struct is_bitset<std::bitset<N>> : std::true_type
{
    static constexpr std::size_t n = N;
};
template <class T>
struct is_stdarray : std::false_type
{
};
template <class T, std::size_t N>
struct is_stdarray<std::array<T, N>> : std::true_type
{
};
template <class T>
concept Fields = requires(T & t) { t.fields([](auto &...) {}); };
template <class T>
concept CustomRef = requires { typename T::custom_ref; };
template <class T>
concept PbMsg = requires { typename T::pb_message; };
template <class T>
concept Assoc = requires { typename T::key_type; };
template <class T>
concept MapLike = Assoc<T> && requires { typename T::mapped_type; };
template <class T>
concept Seq = !Assoc<T> && requires(T & t) {
    t.begin();
    t.size();
    t.resize(1);
};
template <class T>
concept Hashed = Assoc<T> && requires { typename T::hasher; };
template <class T>
concept Ptr = is_tmpl<T, std::unique_ptr>::value || is_tmpl<T, std::shared_ptr>::value;

// ids of a variant's alternatives on the wire
template <class V>
struct VarIds // default: one byte index
{
    static void id(auto & e, std::size_t i)
    {
        e.num(u8(i));
    }
    static int read(auto & d)
    {
        u8 b{};
        d.num(b);
        if (d.code) {
            return -1;
        }
        if (b < std::variant_size_v<V>) {
            return b;
        }
        d.code = BADMSG;
        return -1;
    }
};

// ---- encoder ------------------------------------------------------------------------------
struct Enc
{
    mvec<u8> b;
    Wire w;
    struct Prefix
    {
        std::size_t at, len;
        int kind;
    };
    mvec<Prefix> prefixes; // where the size prefixes are
    bool overflow = false; // a message is longer than its prefix can say
    explicit Enc(Wire w_ = {}) : w(w_)
    {
    }

    void raw(const void * p, std::size_t n)
    {
        auto c = static_cast<const u8 *>(p);
        b.insert(b.end(), c, c + n);
    }
    template <class T>
    void num(const T & v)
    {
        u8 t[sizeof(T)];
        std::memcpy(t, &v, sizeof(T));
        if (w.big) {
            std::reverse(t, t + sizeof(T));
        }
        raw(t, sizeof(T));
    }
    void var(u64 v)
    {
        while (v >= 0x80) {
            b.push_back(u8(v) | 0x80);
            v >>= 7;
        }
        b.push_back(u8(v));
    }
    // returns how many items the prefix can announce
    std::size_t sizep(std::size_t n, int kind)
    {
        std::size_t at = b.size();
        std::size_t r = sizep2(n, kind);
        if (kind != SZ_NONE) {
            prefixes.push_back({at, b.size() - at, kind});
        }
        return r;
    }
    std::size_t sizep2(std::size_t n, int kind)
    {
        switch (kind) {
        case 1:
            num(u8(n));
            return u8(n);
        case 2:
            num(u16(n));
            return u16(n);
        case 4:
            num(u32(n));
            return u32(n);
        case 8:
            num(u64(n));
            return n;
        case SZ_VARINT:
            var(n);
            return n;
        default:
            return n;
        }
    }
    template <class T>
    void put(const T & v)
    {
        put_sz(v, w.size);
    }
    template <class T>
    void put_sz(const T & v, int sz)
    {
        if constexpr (std::is_same_v<T, std::monostate>) {
        } else if constexpr (CustomRef<T>) {
            T::enc(*this, v);
        } else if constexpr (PbMsg<T>) {
            put_pb(v, sz);
        } else if constexpr (is_sized<T>::value) {
            put_sz(static_cast<const typename is_sized<T>::base &>(v), is_sized<T>::size);
        } else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) {
            num(v);
        } else if constexpr (is_varint<T>::value) {
            var(varint_image(v));
        } else if constexpr (Fields<T>) {
            const_cast<T &>(v).fields([&](auto &... m) { (put(m), ...); });
        } else if constexpr (std::is_array_v<T> || is_stdarray<T>::value) {
            for (auto & x : v) {
                put(x);
            }
        } else if constexpr (is_bitset<T>::value) {
            constexpr auto N = is_bitset<T>::n;
            u8 t[(N + 7) / 8] = {};
            for (std::size_t i = 0; i < N; ++i) {
                if (v[i]) {
                    t[i / 8] |= u8(1u << (i % 8));
                }
            }
            raw(t, sizeof(t));
        } else if constexpr (is_tmpl<T, std::optional>::value || is_tmpl<T, zb::optional_ptr>::value) {
            b.push_back(v ? 1 : 0);
            if (v) {
                put(*v);
            }
        } else if constexpr (Ptr<T>) {
            put(*v);
        } else if constexpr (is_tmpl<T, std::variant>::value) {
            VarIds<T>::id(*this, v.index());
            std::visit([&](auto & x) { put(x); }, v);
        } else if constexpr (is_tmpl<T, std::tuple>::value || is_tmpl<T, std::pair>::value) {
            std::apply([&](auto &... m) { (put(m), ...); }, v);
        } else if constexpr (Hashed<T>) {
            // the order is the container's own
            auto n = sizep(v.size(), sz);
            for (auto & x : v) {
                if (!n--) {
                    break;
                }
                put(x);
            }
        } else {
            auto n = sizep(std::size_t(v.size()), sz);
            for (auto & x : v) {
                if (!n--) {
                    break;
                }
                put(x);
            }
        }
    }
    template <class T>
    static u64 varint_image(const T & v)
    {
        using V = typename is_varint<T>::word;
        u64 mask = sizeof(V) == 8 ? ~0ull : (1ull << (8 * sizeof(V))) - 1;
        u64 x = u64(i64(v.value)) & mask;
        if constexpr (is_varint<T>::zz) {
            bool neg = (x >> (8 * sizeof(V) - 1)) & 1;
            u64 y = (x << 1) & mask;
            x = neg ? (~y & mask) : y;
        }
        return x;
    }
    template <class T>
    void put_pb(const T & v, int sz); // refpb.h
};

// ---- decoder ------------------------------------------------------------------------------
struct Dec
{
    const u8 * p;
    std::size_t n;
    std::size_t pos = 0;
    Wire w;
    int code = OK;
    bool mismatch = false; // a protobuf situation the model does not decide
    bool over_limit = false;
    bool bad_bool = false; // some bool is neither 0 nor 1
    bool huge = false; // some length prefix announced more than the simulated memory could hold
    static constexpr std::size_t huge_bytes = 1 << 17;
    u64 steps = 0;

    Dec(const u8 * p_, std::size_t n_, Wire w_ = {}) : p(p_), n(n_), w(w_)
    {
    }

    std::size_t left() const
    {
        return n - pos;
    }
    bool raw(void * to, std::size_t k)
    {
        if (code) {
            return false;
        }
        if (k > left()) {
            code = RANGE;
            return false;
        }
        if (k) {
            std::memcpy(to, p + pos, k);
        }
        pos += k;
        return true;
    }
    template <class T>
    void num(T & v)
    {
        u8 t[sizeof(T)];
        if (!raw(t, sizeof(T))) {
            return;
        }
        if (w.big) {
            std::reverse(t, t + sizeof(T));
        }
        if (std::is_same_v<T, bool>) {
            bad_bool |= t[0] > 1;
        }
        std::memcpy(static_cast<void *>(&v), t, sizeof(T));
    }
    // width in bits of the decoded word
    u64 var(unsigned bits)
    {
        if (code) {
            return 0;
        }
        unsigned max = bits / 7 + 1;
        u64 v = 0;
        for (unsigned i = 0;; ++i) {
            if (pos + i >= n) {
                code = RANGE;
                return 0;
            }
            u8 c = p[pos + i];
            if (7 * i < 64) {
                v |= u64(c & 0x7f) << (7 * i);
            }
            if (c < 0x80) {
                pos += i + 1;
                break;
            }
            if (i + 1 == max) {
                code = TOOLARGE;
                return 0;
            }
        }
        return bits == 64 ? v : v & ((1ull << bits) - 1);
    }
    std::size_t sizep(int kind)
    {
        switch (kind) {
        case 1: {
            u8 v{};
            num(v);
            return v;
        }
        case 2: {
            u16 v{};
            num(v);
            return v;
        }
        case 4: {
            u32 v{};
            num(v);
            return v;
        }
        case 8: {
            u64 v{};
            num(v);
            return v;
        }
        case SZ_VARINT:
            return var(64);
        default:
            return 0;
        }
    }
    template <class T>
    void get(T & v)
    {
        get_sz(v, w.size);
    }
    template <class T>
    void get_sz(T & v, int sz)
    {
        if (code) {
            return;
        }
        if constexpr (std::is_same_v<T, std::monostate>) {
        } else if constexpr (CustomRef<T>) {
            T::dec(*this, v);
        } else if constexpr (PbMsg<T>) {
            get_pb(v, sz);
        } else if constexpr (is_sized<T>::value) {
            get_sz(static_cast<typename is_sized<T>::base &>(v), is_sized<T>::size);
        } else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) {
            num(v);
        } else if constexpr (is_varint<T>::value) {
            using V = typename is_varint<T>::word;
            u64 x = var(8 * sizeof(V));
            if (code) {
                return;
            }
            if constexpr (is_varint<T>::zz) {
                x = (x & 1) ? ~(x >> 1) : (x >> 1);
            }
            v.value = V(x);
        } else if constexpr (Fields<T>) {
            v.fields([&](auto &... m) { (get(m), ...); });
        } else if constexpr (std::is_array_v<T> || is_stdarray<T>::value) {
            for (auto & x : v) {
                get(x);
            }
        } else if constexpr (is_bitset<T>::value) {
            constexpr auto N = is_bitset<T>::n;
            u8 t[(N + 7) / 8] = {};
            if (raw(t, sizeof(t))) {
                for (std::size_t i = 0; i < N; ++i) {
                    v[i] = (t[i / 8] >> (i % 8)) & 1;
                }
            }
        } else if constexpr (is_tmpl<T, std::optional>::value) {
            u8 has{};
            if (raw(&has, 1)) {
                if (has) {
                    v.emplace();
                    get(*v);
                } else {
                    v.reset();
                }
            }
        } else if constexpr (is_tmpl<T, zb::optional_ptr>::value) {
            u8 has{};
            if (raw(&has, 1)) {
                if (has) {
                    v.reset(new std::remove_cvref_t<decltype(*v)>());
                    get(*v);
                } else {
                    v.reset();
                }
            }
        } else if constexpr (Ptr<T>) {
            v.reset(new std::remove_cvref_t<decltype(*v)>());
            get(*v);
        } else if constexpr (is_tmpl<T, std::variant>::value) {
            int i = VarIds<T>::read(*this);
            if (!code) {
                get_alt(v, i, std::make_index_sequence<std::variant_size_v<T>>{});
            }
        } else if constexpr (is_tmpl<T, std::tuple>::value || is_tmpl<T, std::pair>::value) {
            std::apply([&](auto &... m) { (get(m), ...); }, v);
        } else if constexpr (MapLike<T>) {
            std::size_t k = sizep(sz);
            v.clear();
            for (std::size_t i = 0; i < k && !code; ++i) {
                std::pair<typename T::key_type, typename T::mapped_type> x{};
                get(x);
                if (!code) {
                    v.insert(std::move(x));
                }
            }
        } else if constexpr (Assoc<T>) {
            std::size_t k = sizep(sz);
            v.clear();
            for (std::size_t i = 0; i < k && !code; ++i) {
                typename T::value_type x{};
                get(x);
                if (!code) {
                    v.insert(std::move(x));
                }
            }
        } else {
            using E = typename T::value_type;
            std::size_t k = sizep(sz);
            if (code) {
                return;
            }
            if (w.limit != unlimited && k > w.limit / sizeof(E)) {
                code = MSGSIZE;
                return;
            }
            if (k > huge_bytes / sizeof(E)) {
                huge = true;
            }
            v.clear();
            for (std::size_t i = 0; i < k && !code; ++i) {
                E x{};
                get(x);
                v.push_back(std::move(x));
            }
        }
    }
    template <class V, std::size_t... I>
    void get_alt(V & v, int idx, std::index_sequence<I...>)
    {
        ((idx == int(I) ? (get_one_alt<I>(v), 0) : 0), ...);
    }
    template <std::size_t I, class V>
    void get_one_alt(V & v)
    {
        get(v.template emplace<I>());
    }
    template <class T>
    void get_pb(T & v, int sz); // refpb.h
};

// A canonical image of a value, for equality: unordered containers are sorted.
struct Canon
{
    mvec<u8> b;
    template <class T>
    void put(const T & v)
    {
        if constexpr (std::is_same_v<T, std::monostate>) {
        } else if constexpr (CustomRef<T>) {
            T::canon(*this, v);
        } else if constexpr (is_sized<T>::value) {
            put(static_cast<const typename is_sized<T>::base &>(v));
        } else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) {
            bytes(&v, sizeof(T));
        } else if constexpr (is_varint<T>::value) {
            bytes(&v.value, sizeof(v.value));
        } else if constexpr (Fields<T>) {
            const_cast<T &>(v).fields([&](auto &... m) { (put(m), ...); });
        } else if constexpr (std::is_array_v<T> || is_stdarray<T>::value) {
            for (auto & x : v) {
                put(x);
            }
        } else if constexpr (is_bitset<T>::value) {
            for (std::size_t i = 0; i < is_bitset<T>::n; ++i) {
                b.push_back(v[i]);
            }
        } else if constexpr (is_tmpl<T, std::optional>::value || Ptr<T> || is_tmpl<T, zb::optional_ptr>::value) {
            b.push_back(v ? 1 : 0);
            if (v) {
                put(*v);
            }
        } else if constexpr (is_tmpl<T, std::variant>::value) {
            b.push_back(u8(v.index()));
            if (v.index() != std::variant_npos) {
                std::visit([&](auto & x) { put(x); }, v);
            }
        } else if constexpr (is_tmpl<T, std::tuple>::value || is_tmpl<T, std::pair>::value) {
            std::apply([&](auto &... m) { (put(m), ...); }, v);
        } else if constexpr (Hashed<T>) {
            len(v.size());
            mvec<mvec<u8>> parts;
            for (auto & x : v) {
                Canon c;
                c.put(x);
                parts.push_back(std::move(c.b));
            }
            std::sort(parts.begin(), parts.end());
            for (auto & q : parts) {
                b.insert(b.end(), q.begin(), q.end());
            }
        } else {
            len(std::size_t(v.size()));
            for (auto & x : v) {
                put(x);
            }
        }
    }
    void bytes(const void * p, std::size_t n)
    {
        auto c = static_cast<const u8 *>(p);
        b.insert(b.end(), c, c + n);
    }
    void len(std::size_t n)
    {
        u32 k = u32(n);
        bytes(&k, 4);
    }
};

// ---- generators ---------------------------------------------------------------------------
template <class T>
void gen(Ch & c, T & v, int depth = 0);

template <class V, std::size_t... I>
void gen_alt(Ch & c, V & v, int depth, u32 k, std::index_sequence<I...>)
{
    ((k == I ? (gen(c, v.template emplace<I>(), depth), 0) : 0), ...);
}

inline u32 gen_len(Ch & c, int depth)
{
    return depth == 0 ? c.length() : depth == 1 ? c.pick(5) : c.pick(3);
}

template <class T>
void gen(Ch & c, T & v, int depth)
{
    if constexpr (std::is_same_v<T, std::monostate>) {
    } else if constexpr (CustomRef<T>) {
        T::gen(c, v, depth);
    } else if constexpr (is_sized<T>::value) {
        gen(c, static_cast<typename is_sized<T>::base &>(v), depth);
    } else if constexpr (std::is_same_v<T, bool>) {
        v = c.pick(2);
    } else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) {
        u64 x = c.integer(8 * sizeof(T));
        std::memcpy(&v, &x, sizeof(T)); // little-endian host
    } else if constexpr (is_varint<T>::value) {
        using V = typename is_varint<T>::word;
        u64 x = c.integer(8 * sizeof(V));
        std::memcpy(&v.value, &x, sizeof(V));
    } else if constexpr (Fields<T>) {
        v.fields([&](auto &... m) { (gen(c, m, depth), ...); });
    } else if constexpr (std::is_array_v<T> || is_stdarray<T>::value) {
        for (auto & x : v) {
            gen(c, x, depth + 1);
        }
    } else if constexpr (is_bitset<T>::value) {
        for (std::size_t i = 0; i < is_bitset<T>::n; ++i) {
            v[i] = c.pick(2);
        }
    } else if constexpr (is_tmpl<T, std::optional>::value) {
        if (c.pick(3)) {
            v.emplace();
            gen(c, *v, depth + 1);
        } else {
            v.reset();
        }
    } else if constexpr (is_tmpl<T, zb::optional_ptr>::value) {
        if (depth < 6 && c.pick(3)) {
            v.reset(new std::remove_cvref_t<decltype(*v)>());
            gen(c, *v, depth + 1);
        } else {
            v.reset();
        }
    } else if constexpr (Ptr<T>) {
        v.reset(new std::remove_cvref_t<decltype(*v)>());
        gen(c, *v, depth + 1);
    } else if constexpr (is_tmpl<T, std::variant>::value) {
        gen_alt(c, v, depth + 1, c.pick(std::variant_size_v<T>), std::make_index_sequence<std::variant_size_v<T>>{});
    } else if constexpr (is_tmpl<T, std::tuple>::value || is_tmpl<T, std::pair>::value) {
        std::apply([&](auto &... m) { (gen(c, const_cast<std::remove_const_t<std::remove_reference_t<decltype(m)>> &>(m), depth), ...); }, v);
    } else if constexpr (MapLike<T>) {
        v.clear();
        u32 n = gen_len(c, depth);
        for (u32 i = 0; i < n; ++i) {
            std::pair<typename T::key_type, typename T::mapped_type> x{};
            gen(c, x, depth + 1);
            v.insert(std::move(x));
        }
    } else if constexpr (Assoc<T>) {
        v.clear();
        u32 n = gen_len(c, depth);
        for (u32 i = 0; i < n; ++i) {
            typename T::value_type x{};
            gen(c, x, depth + 1);
            v.insert(std::move(x));
        }
    } else {
        v.clear();
        u32 n = depth > 5 ? 0 : gen_len(c, depth);
        for (u32 i = 0; i < n; ++i) {
            typename T::value_type x{};
            gen(c, x, depth + 1);
            v.push_back(std::move(x));
        }
    }
}
} // namespace sim
