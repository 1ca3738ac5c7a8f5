// Reference model of the protobuf subset: messages list their fields through
// pbfields(f) with f(number, member).
#pragma once
#include "ref.h"

namespace sim
{
template <class T>
concept PbBytes = Seq<T> && sizeof(typename T::value_type) == 1 && !std::is_same_v<typename T::value_type, bool> &&
                  !std::is_enum_v<std::conditional_t<std::is_same_v<typename T::value_type, std::byte>, char, typename T::value_type>>;
template <class T>
concept PbFixed = std::is_arithmetic_v<T> && !std::is_same_v<T, bool> && (sizeof(T) == 4 || sizeof(T) == 8);

template <class T>
constexpr int pb_wire()
{
    if constexpr (is_varint<T>::value || std::is_enum_v<T> || std::is_same_v<T, bool>) {
        return 0;
    } else if constexpr (PbFixed<T>) {
        return sizeof(T) == 4 ? 5 : 1;
    } else {
        return 2;
    }
}
template <class T>
u64 pb_enum_image(T v)
{
    using U = std::underlying_type_t<T>;
    return u64(std::make_unsigned_t<U>(U(v)));
}

// encoder over a little-endian, varint-sized sub-encoder
template <class T>
void pb_scalar(Enc & e, const T & v)
{
    if constexpr (is_varint<T>::value) {
        e.var(Enc::varint_image(v));
    } else if constexpr (std::is_enum_v<T>) {
        e.var(pb_enum_image(v));
    } else if constexpr (std::is_same_v<T, bool>) {
        e.b.push_back(v);
    } else {
        static_assert(PbFixed<T>);
        e.num(v);
    }
}
template <class T>
void pb_body(Enc & e, const T & v);
template <class T>
void pb_field_enc(Enc & e, u32 num, const T & v);
template <class T>
void pb_len(Enc & e, const T & v) // length-delimited value
{
    if constexpr (PbMsg<T>) {
        Enc s(Wire{false, SZ_VARINT});
        pb_body(s, v);
        e.var(s.b.size());
        e.raw(s.b.data(), s.b.size());
    } else {
        e.var(v.size());
        for (auto & x : v) {
            e.b.push_back(u8(x));
        }
    }
}
template <class T>
void pb_one(Enc & e, u32 num, const T & v)
{
    e.var(num * 8 + pb_wire<T>());
    if constexpr (pb_wire<T>() == 2) {
        pb_len(e, v);
    } else {
        pb_scalar(e, v);
    }
}
template <class T>
void pb_field_enc(Enc & e, u32 num, const T & v)
{
    if constexpr (MapLike<T>) {
        for (auto & [k, m] : v) {
            Enc s(Wire{false, SZ_VARINT});
            pb_field_enc(s, 1, k);
            pb_field_enc(s, 2, m);
            e.var(num * 8 + 2);
            e.var(s.b.size());
            e.raw(s.b.data(), s.b.size());
        }
    } else if constexpr (PbBytes<T>) {
        if (v.size()) { // empty strings and bytes are not written
            pb_one(e, num, v);
        }
    } else if constexpr (PbMsg<T> || !requires { typename T::value_type; } || is_varint<T>::value) {
        pb_one(e, num, v);
    } else {
        using E = typename T::value_type;
        if constexpr (pb_wire<E>() != 2) {
            Enc s(Wire{false, SZ_VARINT});
            for (auto & x : v) {
                pb_scalar(s, x);
            }
            if (s.b.size()) {
                e.var(num * 8 + 2);
                e.var(s.b.size());
                e.raw(s.b.data(), s.b.size());
            }
        } else {
            for (auto & x : v) {
                pb_one(e, num, x);
            }
        }
    }
}
template <class T>
void pb_body(Enc & e, const T & v)
{
    const_cast<T &>(v).pbfields([&](u32 num, auto & m) { pb_field_enc(e, num, m); });
}

template <class T>
void Enc::put_pb(const T & v, int sz)
{
    Enc s(Wire{false, SZ_VARINT});
    pb_body(s, v);
    std::size_t claimed = sizep(s.b.size(), sz);
    if (claimed != s.b.size() && sz != SZ_NONE) {
        overflow = true;
    }
    raw(s.b.data(), s.b.size());
}

struct PbState
{
    bool mismatch = false;
};

template <class T>
void pb_body_dec(Dec & d, T & v);

template <class T>
void pb_scalar_dec(Dec & d, T & v)
{
    // int32 and enum values are sign extended to 64 bits by other implementations
    if constexpr (std::is_enum_v<T>) {
        using U = std::underlying_type_t<T>;
        v = T(U(d.var(std::is_signed_v<U> && sizeof(U) == 4 ? 64 : 8 * sizeof(T))));
    } else if constexpr (is_varint<T>::value) {
        if constexpr (!is_varint<T>::zz && std::is_same_v<typename is_varint<T>::word, std::int32_t>) {
            v.value = std::int32_t(d.var(64));
        } else {
            d.get(v);
        }
    } else {
        d.get(v);
    }
}
template <class T>
void pb_value_dec(Dec & d, int wire, T & v)
{
    if (wire != pb_wire<T>()) {
        d.mismatch = true;
    }
    if constexpr (pb_wire<T>() != 2) {
        pb_scalar_dec(d, v);
    } else {
        std::size_t k = d.var(64);
        if (d.code) {
            return;
        }
        if constexpr (!PbMsg<T>) {
            if (d.w.limit != unlimited && k > d.w.limit / sizeof(typename T::value_type)) {
                d.code = MSGSIZE;
                return;
            }
        }
        if (k > d.left()) {
            d.code = RANGE;
            if (k > Dec::huge_bytes) {
                d.huge = true;
            }
            return;
        }
        if constexpr (PbMsg<T>) {
            Dec s(d.p + d.pos, k, Wire{false, SZ_VARINT, d.w.limit});
            pb_body_dec(s, v);
            d.code = s.code;
            d.huge |= s.huge;
            d.bad_bool |= s.bad_bool;
            d.mismatch |= s.mismatch;
            d.over_limit |= s.over_limit;
            d.pos += s.pos;
        } else {
            v.clear();
            for (std::size_t i = 0; i < k; ++i) {
                v.push_back(typename T::value_type(d.p[d.pos + i]));
            }
            d.pos += k;
        }
    }
}
template <class K, class V>
struct PbEntry
{
    using pb_message = void;
    K key{};
    V value{};
    void pbfields(auto && f)
    {
        f(1, key);
        f(2, value);
    }
};
template <class T, class E>
void pb_add(T & v, E && x)
{
    if constexpr (requires { v.push_back(std::move(x)); }) {
        v.push_back(std::move(x));
    } else {
        v.insert(std::move(x));
    }
}
template <class T>
void pb_field_dec(Dec & d, int wire, T & v)
{
    if constexpr (MapLike<T>) {
        PbEntry<typename T::key_type, typename T::mapped_type> e;
        pb_value_dec(d, wire, e);
        if (!d.code) {
            v.erase(e.key); // the last entry of a key counts
            v.emplace(std::move(e.key), std::move(e.value));
        }
    } else if constexpr (PbMsg<T> || PbBytes<T> || !requires { typename T::value_type; } || is_varint<T>::value) {
        if constexpr (PbBytes<T>) {
            if (wire != 2) {
                d.mismatch = true;
                d.code = PROTO;
                return;
            }
        }
        pb_value_dec(d, wire, v);
    } else {
        using E = typename T::value_type;
        if constexpr (pb_wire<E>() == 2) {
            E x{};
            pb_value_dec(d, wire, x);
            if (!d.code) {
                pb_add(v, std::move(x));
            }
        } else {
            if (wire != 2) {
                E x{};
                if (wire != pb_wire<E>()) {
                    d.mismatch = true;
                }
                pb_scalar_dec(d, x);
                if (!d.code) {
                    pb_add(v, std::move(x));
                }
                return;
            }
            std::size_t k = d.var(64);
            if (d.code) {
                return;
            }
            const bool over = d.w.limit != unlimited && k > d.w.limit;
            if (k > d.left()) {
                if (over || (PbFixed<E> && k % sizeof(E))) {
                    d.over_limit = true; // two reasons to reject: which comes first is not promised
                }
                d.code = RANGE;
                return;
            }
            if constexpr (PbFixed<E>) {
                if (over) {
                    d.over_limit = k % sizeof(E);
                    d.code = MSGSIZE;
                    return;
                }
                if (k % sizeof(E)) {
                    d.code = PROTO;
                    return;
                }
            } else if constexpr (requires { v.reserve(1); }) {
                std::size_t count = 0;
                for (std::size_t i = 0; i < k; ++i) {
                    count += d.p[d.pos + i] < 0x80;
                }
                if (d.w.limit != unlimited && count > d.w.limit / sizeof(E)) {
                    d.code = MSGSIZE;
                    return;
                }
            }
            std::size_t end = d.pos + k;
            while (!d.code && d.pos < end) {
                E x{};
                pb_scalar_dec(d, x);
                if (!d.code) {
                    pb_add(v, std::move(x));
                }
            }
            if (!d.code && d.pos != end) {
                d.code = PROTO;
            }
        }
    }
}
inline void pb_skip(Dec & d, int wire)
{
    u64 t;
    switch (wire) {
    case 0:
        d.var(64);
        break;
    case 1:
        d.raw(&t, 8);
        break;
    case 5:
        d.raw(&t, 4);
        break;
    case 2: {
        std::size_t k = d.var(64);
        if (d.code) {
            return;
        }
        if (k > d.left()) {
            d.code = RANGE;
            return;
        }
        d.pos += k;
        break;
    }
    default:
        d.code = PROTO;
    }
}
template <class T>
void pb_clear(T & m)
{
    if constexpr (!is_varint<T>::value && requires {
                      m.clear();
                      typename T::value_type;
                  }) {
        m.clear();
    }
}
template <class T>
void pb_body_dec(Dec & d, T & v)
{
    v.pbfields([&](u32, auto & m) { pb_clear(m); });
    while (!d.code && d.pos < d.n) {
        u32 tag = u32(d.var(32));
        if (d.code) {
            return;
        }
        u32 num = tag >> 3;
        int wire = tag & 7;
        if (!num) {
            d.code = PROTO;
            return;
        }
        bool done = false;
        v.pbfields([&](u32 k, auto & m) {
            if (!done && k == num) {
                done = true;
                pb_field_dec(d, wire, m);
            }
        });
        if (!done) {
            pb_skip(d, wire);
        }
    }
}
template <class T>
void Dec::get_pb(T & v, int sz)
{
    std::size_t k;
    if (sz == SZ_NONE) {
        k = left();
    } else {
        k = sizep(sz);
        if (code) {
            return;
        }
        if (k > left()) {
            code = RANGE;
            return;
        }
    }
    Dec s(p + pos, k, Wire{false, SZ_VARINT, w.limit});
    pb_body_dec(s, v);
    code = s.code;
    huge |= s.huge;
    bad_bool |= s.bad_bool;
    mismatch |= s.mismatch;
    over_limit |= s.over_limit;
    pos += s.pos;
}
} // namespace sim
