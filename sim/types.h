// The object types that simulated nodes exchange.
#pragma once
#include "refpb.h"

namespace sim
{
enum class E8 : u8
{
    a,
    b,
    c = 200
};
enum class E16 : u16
{
    a,
    b = 300
};
enum class E32 : std::int32_t
{
    a,
    neg = -5,
    b = 70000
};

// libc++'s deque::resize does not check max_size and overruns when it wraps; other standard libraries throw
struct Deque : std::deque<u16>
{
    using std::deque<u16>::deque;
    void resize(size_type n)
    {
        if (n > max_size()) {
            throw std::length_error("deque");
        }
        std::deque<u16>::resize(n);
    }
};

struct Packed
{
    u32 a{};
    u32 b{};
    void fields(auto && f)
    {
        f(a, b);
    }
};
struct Padded
{
    u8 a{};
    u32 b{};
    u16 c{};
    void fields(auto && f)
    {
        f(a, b, c);
    }
};
struct Bytes3 // endian independent
{
    u8 a{};
    u8 b{};
    u8 c{};
    void fields(auto && f)
    {
        f(a, b, c);
    }
};
struct Scalars
{
    bool a{};
    char b{};
    std::byte c{};
    std::int8_t d{};
    std::int16_t e{};
    u32 f{};
    i64 g{};
    float h{};
    double i{};
    char16_t j{};
    E16 k{};
    E32 l{};
    void fields(auto && x)
    {
        x(a, b, c, d, e, f, g, h, i, j, k, l);
    }
};
struct Wide
{
    u16 a{};
    std::string b;
    u8 c{};
    std::vector<u32> d;
    i64 e{};
    std::optional<u16> f;
    std::array<u16, 3> g{};
    std::string h;
    E8 i{};
    Packed j;
    std::vector<Padded> k;
    u32 l{};
    using serialize = zb::members<12>;
    void fields(auto && x)
    {
        x(a, b, c, d, e, f, g, h, i, j, k, l);
    }
};
struct Outer
{
    Packed p;
    Padded q;
    std::string s;
    struct Inner
    {
        u8 x{};
        std::vector<Packed> y;
        void fields(auto && f)
        {
            f(x, y);
        }
    } inner;
    void fields(auto && f)
    {
        f(p, q, s, inner);
    }
};
struct WithCArray
{
    u16 a[3]{};
    std::string b[2];
    Packed c[2]{};
    using serialize = zb::members<3>;
    void fields(auto && f)
    {
        f(a, b, c);
    }
};
class NonAgg // private members, declared count
{
public:
    NonAgg() = default;
    void fields(auto && f)
    {
        f(m_a, m_b, m_c);
    }
    using serialize = zb::members<3>;
    friend zb::access;

private:
    u32 m_a{};
    std::string m_b;
    u16 m_c{};
};
struct MemberSer // explicit serialize as a static member
{
    u16 a{};
    std::string b;
    std::vector<u16> c;
    static constexpr auto serialize(auto & ar, auto & self)
    {
        return ar(self.c, self.a, self.b);
    }
    void fields(auto && f)
    {
        f(c, a, b);
    }
};
struct Big // much larger in memory than on the wire
{
    u16 a{};
    alignas(8) u8 cache[280]{};
    std::string b;
    static constexpr auto serialize(auto & ar, auto & self)
    {
        return ar(self.a, self.b);
    }
    void fields(auto && f)
    {
        f(a, b);
    }
};
struct AdlSer
{
    AdlSer() = default;
    AdlSer(const AdlSer &) = default;
    AdlSer & operator=(const AdlSer &) = default;
    u32 a{};
    std::string b;
    void fields(auto && f)
    {
        f(b, a);
    }
};
template <class Ar, class Self>
constexpr auto serialize(Ar & ar, Self & self) requires std::is_same_v<std::remove_cvref_t<Self>, AdlSer>
{
    return ar(self.b, self.a);
}
struct RawBytes // trivially copyable content written as bytes
{
    std::vector<u8> v;
    std::vector<std::byte> w;
    u8 tail{};
    using custom_ref = void;
    static constexpr zb::errc serialize(auto & ar, auto & self)
    {
        using A = std::remove_cvref_t<decltype(ar)>;
        u8 n = u8(self.v.size()), m = u8(self.w.size());
        if (auto r = ar(n, m); zb::failure(r)) {
            return r;
        }
        if constexpr (A::kind() == zb::kind::in) {
            self.v.resize(n);
            self.w.resize(m);
            return ar(zb::bytes(self.v), zb::bytes(self.w), zb::as_bytes(self.tail));
        } else {
            return ar(zb::bytes(self.v, n), zb::bytes(self.w, m), zb::as_bytes(self.tail));
        }
    }
    static void enc(auto & e, const RawBytes & x)
    {
        u8 n = u8(x.v.size()), m = u8(x.w.size());
        e.num(n);
        e.num(m);
        e.raw(x.v.data(), n);
        e.raw(x.w.data(), m);
        e.num(x.tail);
    }
    static void dec(auto & d, RawBytes & x)
    {
        u8 n{}, m{};
        d.num(n);
        d.num(m);
        if (d.code) {
            return;
        }
        x.v.resize(n);
        x.w.resize(m);
        d.raw(x.v.data(), n);
        d.raw(x.w.data(), m);
        d.num(x.tail);
    }
    static void canon(auto & c, const RawBytes & x)
    {
        c.len(x.v.size());
        c.bytes(x.v.data(), x.v.size());
        c.len(x.w.size());
        c.bytes(x.w.data(), x.w.size());
        c.bytes(&x.tail, 1);
    }
    static void gen(Ch & c, RawBytes & x, int)
    {
        x.v.resize(c.length() % 256);
        x.w.resize(c.pick(6));
        for (auto & b : x.v) {
            b = u8(c.integer(8));
        }
        for (auto & b : x.w) {
            b = std::byte(c.integer(8));
        }
        x.tail = u8(c.integer(8));
    }
};
struct Unsized // containers without a prefix: their size is agreed beforehand
{
    u8 n{};
    std::vector<u32> v;
    std::string s;
    using custom_ref = void;
    static constexpr zb::errc serialize(auto & ar, auto & self)
    {
        using A = std::remove_cvref_t<decltype(ar)>;
        u8 n = u8(self.v.size() % 32);
        if (auto r = ar(n); zb::failure(r)) {
            return r;
        }
        if constexpr (A::kind() == zb::kind::in) {
            self.v.resize(n % 32);
            self.s.resize(n % 32);
        }
        return ar(zb::unsized(self.v), zb::unsized(self.s));
    }
    static void enc(auto & e, const Unsized & x)
    {
        e.num(u8(x.v.size()));
        for (auto & y : x.v) {
            e.num(y);
        }
        e.raw(x.s.data(), x.s.size());
    }
    static void dec(auto & d, Unsized & x)
    {
        u8 n{};
        d.num(n);
        if (d.code) {
            return;
        }
        n %= 32;
        x.v.resize(n);
        x.s.resize(n);
        for (auto & y : x.v) {
            d.num(y);
        }
        d.raw(x.s.data(), n);
    }
    static void canon(auto & c, const Unsized & x)
    {
        c.put(x.v);
        c.put(x.s);
    }
    static void gen(Ch & c, Unsized & x, int)
    {
        x.v.resize(c.length() % 32);
        x.s.resize(x.v.size());
        for (auto & y : x.v) {
            y = u32(c.integer(32));
        }
        for (auto & y : x.s) {
            y = char(c.integer(8));
        }
    }
};
struct SizedMix
{
    zb::vector1b<u16> a;
    zb::string2b b;
    zb::sized_t<std::vector<std::string>, zb::vsize_t> c;
    zb::vector8b<Padded> d;
    zb::sized_t<std::map<u8, u16>, u16> e;
    void fields(auto && f)
    {
        f(a, b, c, d, e);
    }
};
struct SizedRef // sized() wrappers chosen at the call
{
    std::vector<u32> a;
    std::list<std::string> b;
    std::set<u16> c;
    static constexpr auto serialize(auto & ar, auto & self)
    {
        return ar(zb::sized<u8>(self.a), zb::sized<zb::vsize_t>(self.b), zb::sized<u16>(self.c));
    }
    using custom_ref = void;
    static void enc(auto & e, const SizedRef & x)
    {
        e.put_sz(x.a, 1);
        e.put_sz(x.b, SZ_VARINT);
        e.put_sz(x.c, 2);
    }
    static void dec(auto & d, SizedRef & x)
    {
        d.get_sz(x.a, 1);
        d.get_sz(x.b, SZ_VARINT);
        d.get_sz(x.c, 2);
    }
    static void canon(auto & c, const SizedRef & x)
    {
        c.put(x.a);
        c.put(x.b);
        c.put(x.c);
    }
    static void gen(Ch & c, SizedRef & x, int)
    {
        sim::gen(c, x.a, 0);
        sim::gen(c, x.b, 1);
        sim::gen(c, x.c, 0);
    }
};
struct Varints
{
    zb::vint32_t a;
    zb::vint64_t b;
    zb::vuint32_t c;
    zb::vuint64_t d;
    zb::vsint32_t e;
    zb::vsint64_t f;
    zb::vsize_t g;
    zb::varint<u16> h;
    zb::varint<u8> i;
    zb::varint<std::int16_t, zb::varint_encoding::zig_zag> j;
    zb::varint<std::int16_t> k;
    void fields(auto && x)
    {
        x(a, b, c, d, e, f, g, h, i, j, k);
    }
};
struct Node // recursive through an optional pointer
{
    i64 v{};
    zb::optional_ptr<Node> next;
    void fields(auto && f)
    {
        f(v, next);
    }
};
struct Tree // recursive through containers
{
    std::string name;
    std::vector<Tree> kids;
    void fields(auto && f)
    {
        f(name, kids);
    }
};

// variants ---------------------------------------------------------------------------------
using VarIdx = std::variant<u32, std::string, std::vector<u16>, Packed>;

struct VInt1
{
    using serialize_id = zb::id<u32(0x11223344)>;
    u16 a{};
    std::string b;
    void fields(auto && f)
    {
        f(a, b);
    }
};
struct VInt2
{
    using serialize_id = zb::id<u32(0x01020304)>;
    std::vector<u32> a;
    void fields(auto && f)
    {
        f(a);
    }
};
struct VInt3
{
    using serialize_id = zb::id<u32(0x44332211)>;
    u64 a{};
    void fields(auto && f)
    {
        f(a);
    }
};
using VarInt = std::variant<VInt1, VInt2, VInt3>;

struct VStr1
{
    using serialize_id = zb::id<zb::string_literal{"alpha"}>;
    u32 a{};
    void fields(auto && f)
    {
        f(a);
    }
};
struct VStr2
{
    using serialize_id = zb::id<zb::string_literal{"gamma"}>;
    std::string a;
    void fields(auto && f)
    {
        f(a);
    }
};
using VarStr = std::variant<VStr1, VStr2>;

class NoDefault // only the library may default construct it
{
public:
    explicit NoDefault(u32 x) : m_x(x), m_s(std::to_string(x))
    {
    }
    void fields(auto && f)
    {
        f(m_x, m_s);
    }
    using serialize = zb::members<2>;
    friend zb::access;

    NoDefault(NoDefault &&) = default;
    NoDefault(const NoDefault &) = default;
    NoDefault & operator=(NoDefault &&) = default;
    NoDefault & operator=(const NoDefault &) = default;
    bool operator==(const NoDefault &) const = default;
    auto operator<=>(const NoDefault & o) const
    {
        return m_x <=> o.m_x;
    }

private:
    NoDefault() = default;
    u32 m_x{};
    std::string m_s;
};
using VarNoDef = std::variant<u8, NoDefault, std::string>;

template <>
struct VarIds<VarInt>
{
    static constexpr u32 ids[] = {0x11223344, 0x01020304, 0x44332211};
    static void id(auto & e, std::size_t i)
    {
        e.num(ids[i]);
    }
    static int read(auto & d)
    {
        u32 v{};
        d.num(v);
        for (int i = 0; i < 3 && !d.code; ++i) {
            if (ids[i] == v) {
                return i;
            }
        }
        if (!d.code) {
            d.code = BADMSG;
        }
        return -1;
    }
};
template <>
struct VarIds<VarStr>
{
    static constexpr const char * ids[] = {"alpha", "gamma"};
    static void id(auto & e, std::size_t i)
    {
        e.raw(ids[i], 5);
    }
    static int read(auto & d)
    {
        char t[5];
        if (!d.raw(t, 5)) {
            return -1;
        }
        for (int i = 0; i < 2; ++i) {
            if (!std::memcmp(t, ids[i], 5)) {
                return i;
            }
        }
        d.code = BADMSG;
        return -1;
    }
};

struct NoDefaultRef // wraps containers of NoDefault for gen/ref (they cannot construct it)
{
    std::optional<NoDefault> a;
    VarNoDef b;
    std::map<u8, std::optional<NoDefault>> c;
    std::set<NoDefault> d;
    static constexpr auto serialize(auto & ar, auto & self)
    {
        return ar(self.a, self.b, self.c, self.d);
    }
    using custom_ref = void;
    static NoDefault from(auto & d)
    {
        NoDefault x(0);
        d.get(x);
        return x;
    }
    static void enc(auto & e, const NoDefaultRef & x)
    {
        e.put(x.a);
        e.put(x.b);
        e.put(x.c);
        e.put(x.d);
    }
    static void dec(auto & d, NoDefaultRef & x)
    {
        u8 has{};
        d.num(has);
        if (d.code) {
            return;
        }
        if (has) {
            x.a = from(d);
        } else {
            x.a.reset();
        }
        u8 id{};
        d.num(id);
        if (d.code) {
            return;
        }
        if (id == 0) {
            d.get(x.b.emplace<0>());
        } else if (id == 1) {
            x.b.emplace<1>(from(d));
        } else if (id == 2) {
            d.get(x.b.emplace<2>());
        } else {
            d.code = BADMSG;
        }
        auto k = d.sizep(d.w.size);
        x.c.clear();
        for (std::size_t i = 0; i < k && !d.code; ++i) {
            u8 key{}, has{};
            d.get(key);
            d.num(has);
            std::optional<NoDefault> y;
            if (has && !d.code) {
                y = from(d);
            }
            if (!d.code) {
                x.c.insert({key, y});
            }
        }
        k = d.sizep(d.w.size);
        x.d.clear();
        for (std::size_t i = 0; i < k && !d.code; ++i) {
            auto y = from(d);
            if (!d.code) {
                x.d.insert(y);
            }
        }
    }
    static void canon(auto & c, const NoDefaultRef & x)
    {
        c.put(x.a);
        c.put(x.b);
        c.put(x.c);
        c.put(x.d);
    }
    static NoDefault make(Ch & c)
    {
        NoDefault x(0);
        x.fields([&](auto & a, auto & b) {
            sim::gen(c, a, 1);
            sim::gen(c, b, 1);
        });
        return x;
    }
    static void gen(Ch & c, NoDefaultRef & x, int)
    {
        if (c.pick(3)) {
            x.a = make(c);
        } else {
            x.a.reset();
        }
        switch (c.pick(3)) {
        case 0:
            sim::gen(c, x.b.emplace<0>(), 1);
            break;
        case 1:
            x.b.emplace<1>(make(c));
            break;
        default:
            sim::gen(c, x.b.emplace<2>(), 1);
        }
        x.c.clear();
        x.d.clear();
        for (u32 i = c.pick(4); i--;) {
            auto k = u8(c.integer(8));
            x.c.insert({k, c.pick(3) ? std::optional<NoDefault>(make(c)) : std::nullopt});
        }
        for (u32 i = c.pick(4); i--;) {
            x.d.insert(make(c));
        }
    }
};

struct KnownId // the alternative is known from outside the variant
{
    u8 which{};
    VarInt v;
    VarIdx w;
    static constexpr zb::errc serialize(auto & ar, auto & self)
    {
        using A = std::remove_cvref_t<decltype(ar)>;
        if constexpr (A::kind() == zb::kind::out) {
            u8 which = u8(self.v.index());
            u8 widx = u8(self.w.index());
            if (auto r = ar(which, widx); zb::failure(r)) {
                return r;
            }
            zb::errc r;
            switch (which) {
            case 0:
                r = ar(zb::known_id<u32(0x11223344)>(self.v));
                break;
            case 1:
                r = ar(zb::known_id<u32(0x01020304)>(self.v));
                break;
            default:
                r = ar(zb::known_id<u32(0x44332211)>(self.v));
            }
            if (zb::failure(r)) {
                return r;
            }
            return std::visit([&](auto & x) -> zb::errc { return ar(x); }, self.w);
        } else {
            u8 which{};
            u8 widx{};
            if (auto r = ar(which, widx); zb::failure(r)) {
                return r;
            }
            constexpr u32 ids[] = {0x11223344, 0x01020304, 0x44332211};
            zb::errc r;
            if (which == 0) {
                r = ar(zb::known_id<u32(0x11223344)>(self.v));
            } else {
                r = ar(zb::known_id(which < 3 ? ids[which] : u32(which), self.v));
            }
            if (zb::failure(r)) {
                return r;
            }
            return ar(zb::known_id(std::byte(widx), self.w));
        }
    }
    using custom_ref = void;
    static void enc(auto & e, const KnownId & x)
    {
        e.num(u8(x.v.index()));
        e.num(u8(x.w.index()));
        std::visit([&](auto & y) { e.put(y); }, x.v);
        std::visit([&](auto & y) { e.put(y); }, x.w);
    }
    static void dec(auto & d, KnownId & x)
    {
        u8 a{}, b{};
        d.num(a);
        d.num(b);
        if (d.code) {
            return;
        }
        if (a > 2) {
            d.code = BADMSG;
            return;
        }
        d.get_alt(x.v, a, std::make_index_sequence<3>{});
        if (d.code) {
            return;
        }
        if (b > 3) {
            d.code = BADMSG;
            return;
        }
        d.get_alt(x.w, b, std::make_index_sequence<4>{});
    }
    static void canon(auto & c, const KnownId & x)
    {
        c.put(x.v);
        c.put(x.w);
    }
    static void gen(Ch & c, KnownId & x, int)
    {
        sim::gen(c, x.v, 0);
        sim::gen(c, x.w, 0);
    }
};

// Views: the receiver looks at the bytes inside its buffer (and copies them after decoding, as they outlive it here), and fills
// room of its own through a mutable span.
struct Views
{
    static constexpr std::size_t room = 6;
    mvec<u8> a;
    u8 mid{};
    mvec<u8> b;
    mvec<u32> m;
    u16 end{};
    static zb::errc serialize(auto & ar, auto & self)
    {
        using A = std::remove_cvref_t<decltype(ar)>;
        using B = std::remove_const_t<typename A::byte_type>;
        if constexpr (A::kind() == zb::kind::out) {
            std::span<const B> a(reinterpret_cast<const B *>(self.a.data()), self.a.size());
            std::span<const B> b(reinterpret_cast<const B *>(self.b.data()), self.b.size());
            std::span<const u32> m(self.m.data(), self.m.size());
            return ar(a, self.mid, b, m, self.end);
        } else {
            std::span<const B> a, b;
            mvec<u32> mem(room);
            std::span<u32> m(mem.data(), room);
            auto r = ar(a, self.mid, b, m, self.end);
            if (zb::success(r)) {
                auto p = reinterpret_cast<const u8 *>(a.data());
                auto q = reinterpret_cast<const u8 *>(b.data());
                self.a.assign(p, p + a.size());
                self.b.assign(q, q + b.size());
                self.m.assign(m.begin(), m.end());
            }
            return r;
        }
    }
    using custom_ref = void;
    static void enc(auto & e, const Views & x)
    {
        e.sizep(x.a.size(), e.w.size);
        e.raw(x.a.data(), x.a.size());
        e.num(x.mid);
        e.sizep(x.b.size(), e.w.size);
        e.raw(x.b.data(), x.b.size());
        e.sizep(x.m.size(), e.w.size);
        for (auto y : x.m) {
            e.num(y);
        }
        e.num(x.end);
    }
    static void view(auto & d, mvec<u8> & v)
    {
        auto k = d.sizep(d.w.size);
        if (!d.code && k > d.left()) {
            d.code = RANGE;
        }
        if (!d.code) {
            v.assign(d.p + d.pos, d.p + d.pos + k);
            d.pos += k;
        }
    }
    static void dec(auto & d, Views & x)
    {
        view(d, x.a);
        d.num(x.mid);
        view(d, x.b);
        auto k = d.sizep(d.w.size);
        if (!d.code && k > room) {
            d.code = RANGE;
        }
        x.m.clear();
        for (std::size_t i = 0; i < k && !d.code; ++i) {
            u32 y{};
            d.num(y);
            x.m.push_back(y);
        }
        d.num(x.end);
    }
    static void canon(auto & c, const Views & x)
    {
        c.put(x.a);
        c.put(x.mid);
        c.put(x.b);
        c.put(x.m);
        c.put(x.end);
    }
    static void gen(Ch & c, Views & x, int)
    {
        auto bytes = [&](auto & v, std::size_t n) {
            v.resize(n);
            for (auto & y : v) {
                y = u8(c.integer(8));
            }
        };
        bytes(x.a, c.pick(4) == 3 ? c.pick(150) : c.pick(9));
        x.mid = u8(c.integer(8));
        bytes(x.b, c.pick(4) == 3 ? c.pick(150) : c.pick(9));
        x.m.resize(c.pick(room + 1));
        for (auto & y : x.m) {
            y = u32(c.integer(32));
        }
        x.end = u16(c.integer(16));
    }
};

// protobuf ---------------------------------------------------------------------------------
struct PbInner
{
    using pb_message = void;
    zb::vint32_t a{};
    std::string b;
    using serialize = zb::pb_protocol;
    void pbfields(auto && f)
    {
        f(1, a);
        f(2, b);
    }
    void fields(auto && f)
    {
        f(a, b);
    }
};
struct PbAll
{
    using pb_message = void;
    zb::vint32_t a{};
    zb::vuint64_t b{};
    zb::vsint32_t c{};
    bool d{};
    u32 e{};
    i64 f{};
    float g{};
    double h{};
    E32 i{};
    std::string j;
    std::vector<std::byte> k;
    PbInner l;
    using serialize = zb::pb_protocol;
    void pbfields(auto && x)
    {
        x(1, a);
        x(2, b);
        x(3, c);
        x(4, d);
        x(5, e);
        x(6, f);
        x(7, g);
        x(8, h);
        x(9, i);
        x(10, j);
        x(11, k);
        x(12, l);
    }
    void fields(auto && x)
    {
        x(a, b, c, d, e, f, g, h, i, j, k, l);
    }
};
struct PbRepeated
{
    using pb_message = void;
    std::vector<zb::vint32_t> a;
    std::vector<zb::vsint64_t> b;
    std::vector<u32> c;
    std::vector<E32> d;
    std::vector<std::string> e;
    std::vector<PbInner> f;
    std::map<u32, std::string> g;
    std::map<std::string, PbInner> h;
    std::vector<double> i;
    std::map<E32, zb::vuint32_t> j;
    using serialize = zb::pb_protocol;
    void pbfields(auto && x)
    {
        x(1, a);
        x(2, b);
        x(3, c);
        x(4, d);
        x(5, e);
        x(6, f);
        x(7, g);
        x(8, h);
        x(9, i);
        x(10, j);
    }
    void fields(auto && x)
    {
        x(a, b, c, d, e, f, g, h, i, j);
    }
};
struct PbNumbered // explicit numbers, some above one tag byte
{
    using pb_message = void;
    zb::pb_field<zb::vint32_t, 20> a;
    zb::pb_field<std::string, 3> b;
    zb::pb_field<u32, 1000> c{};
    zb::pb_field<PbInner, 16> d;
    zb::vuint32_t e{};
    using serialize = zb::pb_protocol;
    void pbfields(auto && x)
    {
        x(20, static_cast<zb::vint32_t &>(a));
        x(3, static_cast<std::string &>(b));
        x(1000, c.value);
        x(16, static_cast<PbInner &>(d));
        x(5, e);
    }
    void fields(auto && x)
    {
        x(static_cast<zb::vint32_t &>(a), static_cast<std::string &>(b), c.value, static_cast<PbInner &>(d), e);
    }
};
struct PbMapped // numbers mapped by the protocol, with a reserved member
{
    using pb_message = void;
    zb::vint32_t a{};
    zb::pb_reserved r;
    std::string b;
    zb::vsint32_t c{};
    using serialize = zb::protocol<zb::pb{zb::pb_map<1, 10>{}, zb::pb_map<4, 30>{}}>;
    void pbfields(auto && x)
    {
        x(10, a);
        x(3, b);
        x(30, c);
    }
    void fields(auto && x)
    {
        x(a, b, c);
    }
};
struct PbTree
{
    using pb_message = void;
    zb::vuint32_t v{};
    std::vector<PbTree> kids;
    using serialize = zb::pb_protocol;
    void pbfields(auto && x)
    {
        x(1, v);
        x(2, kids);
    }
    void fields(auto && x)
    {
        x(v, kids);
    }
};
struct PbLists // may have no field on the wire
{
    using pb_message = void;
    std::vector<zb::vsint32_t> a;
    std::map<u32, u64> b;
    using serialize = zb::pb_protocol;
    void pbfields(auto && x)
    {
        x(1, a);
        x(2, b);
    }
    void fields(auto && x)
    {
        x(a, b);
    }
};
struct PbMix // messages inside ordinary structures
{
    u16 a{};
    PbAll b;
    std::vector<PbInner> c;
    std::string d;
    void fields(auto && x)
    {
        x(a, b, c, d);
    }
};
struct Nil // writes nothing
{
    void fields(auto && f)
    {
        f();
    }
};
struct Combos
{
    using serialize = zb::members<10>;
    zb::sized_t<std::vector<Nil>, u8> a; // a small count: reading them takes no input
    std::array<Nil, 3> b;
    std::unordered_multimap<u16, std::string> c;
    std::unordered_multiset<u32> d;
    std::optional<std::map<u8, u16>> e;
    std::variant<std::monostate, std::string, std::vector<u8>> f;
    std::optional<std::optional<u8>> g;
    Nil h;
    std::u8string i;
    std::wstring j;
    void fields(auto && x)
    {
        x(a, b, c, d, e, f, g, h, i, j);
    }
};
struct Combos2
{
    using serialize = zb::members<10>;
    std::map<std::tuple<u8, std::string>, std::optional<std::vector<u16>>> a;
    std::array<std::array<u16, 2>, 3> b{};
    std::vector<std::tuple<u8, i64>> c;
    std::vector<std::array<std::string, 2>> d;
    std::optional<std::array<u16, 3>> e;
    std::list<std::bitset<9>> f;
    std::variant<u8, std::variant<u16, std::string>> g;
    std::map<u8, std::unique_ptr<u32>> h;
    std::pair<Nil, u8> i;
    std::tuple<> j;
    void fields(auto && x)
    {
        x(a, b, c, d, e, f, g, h, i, j);
    }
};
template <class W>
struct Turned // plain bytes in memory, written by its own serialize in another order
{
    W a{}, b{};
    static constexpr auto serialize(auto & ar, auto & self)
    {
        return ar(self.b, self.a);
    }
    void fields(auto && f)
    {
        f(b, a);
    }
};
template <class W>
struct TurnedAdl // the same through a free function
{
    W a{}, b{};
    void fields(auto && f)
    {
        f(b, a);
    }
};
template <class Ar, class W>
constexpr auto serialize(Ar & ar, TurnedAdl<W> & self)
{
    return ar(self.b, self.a);
}
template <class Ar, class W>
constexpr auto serialize(Ar & ar, const TurnedAdl<W> & self)
{
    return ar(self.b, self.a);
}
template <class T>
struct Around // and inside a structure that has no serialize of its own
{
    decltype(T::a) x{};
    T y;
    void fields(auto && f)
    {
        f(x, y);
    }
};
struct Turns
{
    using serialize = zb::members<10>;
    Turned<u8> a;
    std::vector<Turned<u8>> b;
    std::array<Around<Turned<u8>>, 3> c;
    std::vector<Around<Turned<u8>>> d;
    std::vector<Around<TurnedAdl<u8>>> e;
    std::vector<Around<Turned<u16>>> f;
    std::vector<std::array<Turned<u8>, 2>> g;
    std::array<TurnedAdl<u16>, 2> h;
    std::vector<TurnedAdl<u32>> i;
    std::map<u8, Around<Turned<i64>>> j;
    void fields(auto && x)
    {
        x(a, b, c, d, e, f, g, h, i, j);
    }
};
} // namespace sim
