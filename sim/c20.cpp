// C20: variable-length integers of every width, as values and as sizes, under any fragmentation and damage.
#include "world_own.h"

namespace sim
{
const WorldInfo world_info = {
    "C20",
    "A run writes 1..8 variable-length integers of random widths, signedness, encodings and values (and strings and vectors whose length "
    "is one) into a buffer of a random kind, sometimes with too little space, pads some to more bytes than needed, sets continuation bits, "
    "cuts or overwrites bytes, and delivers the stream in fragments to receivers of every kind, which try to decode at every step with "
    "whatever follows already there or not. Non-trivial: a value was decoded and another attempt was refused; distinct by the recorded "
    "choices.",
    "(kind of integer, encoded length, bytes that follow, receiver, result)", "zpp::bits::varint, varint_size, size_varint, in and out",
    "fragmentation, damage, buffers without space"};

enum class S8 : std::int8_t
{
    a,
    b = -1
};
enum class U64 : u64
{
    a
};
using zz = zb::varint_encoding;
template <class T>
using Z = zb::varint<T, zb::varint_encoding::zig_zag>;
template <class T>
using N = zb::varint<T>;

struct AnyIn
{
    virtual ~AnyIn() = default;
    virtual void stream(const Bytes & b) = 0; // all that has arrived so far
    virtual std::size_t pos() = 0;
    virtual void seek(std::size_t) = 0;
};
template <class F>
struct Recv // a receiver over a buffer of kind V
{
};

#define KINDS(X)                                                                                                                 \
    X(N<std::int8_t>)                                                                                                            \
    X(N<u8>)                                                                                                                     \
    X(N<std::int16_t>)                                                                                                           \
    X(N<u16>)                                                                                                                    \
    X(N<std::int32_t>)                                                                                                           \
    X(N<u32>)                                                                                                                    \
    X(N<i64>)                                                                                                                    \
    X(N<u64>)                                                                                                                    \
    X(Z<std::int8_t>)                                                                                                            \
    X(Z<std::int16_t>)                                                                                                           \
    X(Z<std::int32_t>)                                                                                                           \
    X(Z<i64>)                                                                                                                    \
    X(N<S8>)                                                                                                                     \
    X(N<E16>)                                                                                                                    \
    X(N<E32>)                                                                                                                    \
    X(N<U64>)                                                                                                                    \
    X(zb::vsize_t)                                                                                                               \
    X(N<long long>)                                                                                                              \
    X(std::string)                                                                                                               \
    X(std::vector<N<u32>>)                                                                                                       \
    X(std::vector<Z<i64>>)                                                                                                       \
    X(std::vector<u16>)

struct Item
{
    virtual ~Item() = default;
    virtual void gen(Ch & c) = 0;
    virtual void enc(Enc & e) = 0;
    virtual void dec(Dec & d) = 0;
    virtual Bytes canon() = 0;
    virtual Item * fresh() = 0;
    virtual std::size_t predicted() = 0; // varint_size, 0: does not apply
    virtual std::size_t most() = 0;      // varint_max_size
    virtual bool single() = 0;
    virtual zb::errc write(int kind, void * out) = 0;
    virtual zb::errc read(int kind, void * in) = 0;
};

// the buffers and archives
using O0 = zb::out<BVec, zb::size_varint>;
using O1 = zb::out<std::string, zb::size_varint, zb::endian::big>;
using O2 = zb::out<std::span<u8>, zb::size_varint>;
using O3 = zb::out<std::vector<u8>, zb::size_varint, zb::no_fit_size>;
using O4 = zb::out<std::span<char>, zb::size_varint, zb::endian::big>;
constexpr int N_OUT = 5;
using I0 = zb::in<BVec, zb::size_varint>;
using I1 = zb::in<std::string_view, zb::size_varint, zb::endian::big>;
using I2 = zb::in<std::span<const u8>, zb::size_varint>;
using I3 = zb::in<std::string, zb::size_varint>;
using I4 = zb::in<std::span<std::byte>, zb::size_varint, zb::endian::big>;
constexpr int N_IN = 5;
constexpr bool out_big(int k)
{
    return k == 1 || k == 4;
}
constexpr bool in_big(int k)
{
    return k == 1 || k == 4;
}

template <class T>
struct It : Item
{
    T v{};
    void gen(Ch & c) override
    {
        if constexpr (is_varint<T>::value) {
            using W = typename T::value_type;
            v = W(c.integer(8 * sizeof(W)));
        } else {
            sim::gen(c, v);
        }
    }
    void enc(Enc & e) override
    {
        e.put(v);
    }
    void dec(Dec & d) override
    {
        d.get(v);
    }
    Bytes canon() override
    {
        return canon_of(v);
    }
    Item * fresh() override
    {
        return new It<T>();
    }
    std::size_t predicted() override
    {
        if constexpr (is_varint<T>::value) {
            using W = typename T::value_type;
            if constexpr (!std::is_enum_v<W>) {
                return is_varint<T>::zz ? zb::varint_size<T::encoding>(v.value) : zb::varint_size(std::make_unsigned_t<W>(v.value));
            }
        }
        return 0;
    }
    std::size_t most() override
    {
        if constexpr (is_varint<T>::value) {
            return zb::varint_max_size<typename T::value_type>;
        }
        return 0;
    }
    bool single() override
    {
        return is_varint<T>::value;
    }
    zb::errc write(int kind, void * out) override
    {
        switch (kind) {
        case 0:
            return (*static_cast<O0 *>(out))(v);
        case 1:
            return (*static_cast<O1 *>(out))(v);
        case 2:
            return (*static_cast<O2 *>(out))(v);
        case 3:
            return (*static_cast<O3 *>(out))(v);
        default:
            return (*static_cast<O4 *>(out))(v);
        }
    }
    zb::errc read(int kind, void * in) override
    {
        switch (kind) {
        case 0:
            return (*static_cast<I0 *>(in))(v);
        case 1:
            return (*static_cast<I1 *>(in))(v);
        case 2:
            return (*static_cast<I2 *>(in))(v);
        case 3:
            return (*static_cast<I3 *>(in))(v);
        default:
            return (*static_cast<I4 *>(in))(v);
        }
    }
};
static Item * make_item(u32 k)
{
    u32 i = 0;
#define X(...)                                                                                                                   \
    if (i++ == k) {                                                                                                              \
        return new It<__VA_ARGS__>();                                                                                            \
    }
    KINDS(X)
#undef X
    return nullptr;
}
#define X(...) +1
constexpr u32 n_kinds = 0 KINDS(X);
#undef X

// bits needed, in groups of seven
static std::size_t minimal(u64 image)
{
    std::size_t bits = 64 - std::size_t(__builtin_clzll(image | 1));
    return (bits + 6) / 7;
}

struct Sender
{
    int kind;
    BVec b0;
    std::string b1;
    std::vector<u8> b3;
    u8 * mem = nullptr;
    std::size_t cap;
    std::span<u8> s2;
    std::span<char> s4;
    std::optional<O0> o0;
    std::optional<O1> o1;
    std::optional<O2> o2;
    std::optional<O3> o3;
    std::optional<O4> o4;
    Sender(int k, std::size_t cap_) : kind(k), cap(cap_)
    {
        mem = static_cast<u8 *>(std::malloc(cap ? cap : 1));
        std::memset(mem, 0x55, cap);
        s2 = {mem, cap};
        s4 = {reinterpret_cast<char *>(mem), cap};
        o0.emplace(b0, zb::size_varint{});
        o1.emplace(b1, zb::size_varint{}, zb::endian::big{});
        o2.emplace(s2, zb::size_varint{});
        o3.emplace(b3, zb::size_varint{}, zb::no_fit_size{});
        o4.emplace(s4, zb::size_varint{}, zb::endian::big{});
    }
    ~Sender()
    {
        std::free(mem);
    }
    bool fixed() const
    {
        return kind == 2 || kind == 4;
    }
    void * out()
    {
        return kind == 0 ? (void *) &*o0 : kind == 1 ? (void *) &*o1 : kind == 2 ? (void *) &*o2 : kind == 3 ? (void *) &*o3 : (void *) &*o4;
    }
    std::size_t pos()
    {
        return kind == 0 ? o0->position() : kind == 1 ? o1->position() : kind == 2 ? o2->position() : kind == 3 ? o3->position() : o4->position();
    }
    const u8 * data()
    {
        return kind == 0 ? (const u8 *) b0.data() : kind == 1 ? (const u8 *) b1.data() : kind == 3 ? b3.data() : mem;
    }
};
struct Receiver
{
    int kind;
    BVec b0;
    std::string b3;
    u8 * mem = nullptr;
    std::size_t at = 0;
    std::optional<I0> i0;
    std::optional<I1> i1;
    std::optional<I2> i2;
    std::optional<I3> i3;
    std::optional<I4> i4;
    std::string_view v1;
    std::span<const u8> v2;
    std::span<std::byte> v4;
    explicit Receiver(int k) : kind(k)
    {
    }
    ~Receiver()
    {
        std::free(mem);
    }
    // buffers of exactly the size that has arrived, so that reading further is seen
    void arrived(const Bytes & b)
    {
        std::size_t n = b.size();
        if (kind == 0) {
            b0 = to_bvec(b);
            b0.shrink_to_fit();
            if (!i0) {
                i0.emplace(b0, zb::size_varint{});
            }
            i0->position() = at;
            return;
        }
        if (kind == 3) {
            b3.assign(reinterpret_cast<const char *>(b.data()), n);
            if (!i3) {
                i3.emplace(b3, zb::size_varint{});
            }
            i3->position() = at;
            return;
        }
        std::free(mem);
        mem = static_cast<u8 *>(std::malloc(n ? n : 1));
        std::copy(b.begin(), b.end(), mem);
        u8 * p = mem;
        switch (kind) {
        case 1:
            v1 = {reinterpret_cast<char *>(p), n};
            i1.emplace(v1, zb::size_varint{}, zb::endian::big{});
            i1->reset(at);
            break;
        case 2:
            v2 = {p, n};
            i2.emplace(v2, zb::size_varint{});
            i2->reset(at);
            break;
        default:
            v4 = {reinterpret_cast<std::byte *>(p), n};
            i4.emplace(v4, zb::size_varint{}, zb::endian::big{});
            i4->reset(at);
        }
    }
    void * in()
    {
        return kind == 0 ? (void *) &*i0 : kind == 1 ? (void *) &*i1 : kind == 2 ? (void *) &*i2 : kind == 3 ? (void *) &*i3 : (void *) &*i4;
    }
    std::size_t & pos()
    {
        return kind == 0 ? i0->position() : kind == 1 ? i1->position() : kind == 2 ? i2->position() : kind == 3 ? i3->position() : i4->position();
    }
};

void world_run(Ch & c)
{
    u32 n = c.range(1, 8);
    int ok_kind = int(c.pick(N_OUT));
    const bool big = out_big(ok_kind);
    std::vector<std::unique_ptr<Item>> items;
    std::vector<u32> kinds;
    Bytes want;
    mvec<std::size_t> ends;
    const Wire w{big, SZ_VARINT};
    for (u32 i = 0; i < n; ++i) {
        u32 k = c.pick(n_kinds);
        items.emplace_back(make_item(k));
        kinds.push_back(k);
        items.back()->gen(c);
        Enc e(w);
        items.back()->enc(e);
        if (items.back()->single()) { // the reference itself: shortest possible and within the maximum
            u64 image = 0;
            for (std::size_t j = 0; j < e.b.size(); ++j) {
                image |= u64(e.b[j] & 0x7f) << (7 * j);
            }
            REQ(e.b.size() == minimal(image) && e.b.size() <= items.back()->most(), "reference", "kind %u: %zu bytes for %llx", k, e.b.size(),
                (unsigned long long) image);
            std::size_t predicted = items.back()->predicted();
            REQ(!predicted || predicted == e.b.size(), "varint-size", "kind %u: varint_size says %zu for a value of %zu bytes: %s", k, predicted,
                e.b.size(), hex(e.b).c_str());
        }
        want.insert(want.end(), e.b.begin(), e.b.end());
        ends.push_back(want.size());
    }
    bool refused = false, decoded = false;
    // sending
    {
        std::size_t cap = want.size() + c.pick(12);
        if (c.chance(1, 3)) {
            cap = c.pick(u32(want.size() + 1));
        }
        Sender s(ok_kind, cap);
        std::size_t at = 0;
        for (u32 i = 0; i < n; ++i) {
            c.mark();
            Res r = guarded([&] { return items[i]->write(ok_kind, s.out()); });
            ev("send %u by %d: %zu..%zu of %zu -> %s", kinds[i], ok_kind, at, ends[i], s.fixed() ? cap : 0, res_name(r).c_str());
            if (s.fixed() && ends[i] > cap) {
                fault("no space");
                refused = true;
                REQ(!r.exc && r.code == RANGE, "no-space", "kind %u: %s for %zu bytes in %zu", kinds[i], res_name(r).c_str(), ends[i] - at,
                    cap - at);
                if (items[i]->single()) {
                    REQ(s.pos() == at, "no-space", "kind %u: moved by %zu when it did not fit", kinds[i], s.pos() - at);
                    for (std::size_t j = at; j < cap; ++j) {
                        REQ(s.data()[j] == 0x55, "no-space", "kind %u: wrote byte %zu of a value that did not fit", kinds[i], j);
                    }
                }
                break;
            }
            REQ(r.ok(), "refused", "kind %u: %s for %zu bytes in %zu", kinds[i], res_name(r).c_str(), ends[i] - at, cap - at);
            REQ(s.pos() == ends[i], "length", "kind %u: wrote %zu bytes instead of %zu", kinds[i], s.pos() - at, ends[i] - at);
            REQ(!std::memcmp(s.data() + at, want.data() + at, ends[i] - at), "bytes", "kind %u: wrote %s instead of %s", kinds[i],
                hex(s.data() + at, ends[i] - at).c_str(), hex(want.data() + at, ends[i] - at).c_str());
            at = ends[i];
        }
    }
    // on the way
    Bytes wire = want;
    if (c.chance(2, 3)) {
        for (u32 m = c.range(1, 3); m; --m) {
            c.mark();
            u32 i = c.pick(n);
            std::size_t from = i ? ends[i - 1] : 0, len = ends[i] - from;
            switch (c.pick(6)) {
            case 0: // padded: the same value in more bytes than needed
                if (items[i]->single() && wire == want) {
                    Bytes x(wire.begin() + long(from), wire.begin() + long(ends[i]));
                    u32 more = c.range(1, 4);
                    for (u32 j = 0; j < more; ++j) {
                        x.back() |= 0x80;
                        x.push_back(0);
                    }
                    wire.erase(wire.begin() + long(from), wire.begin() + long(ends[i]));
                    wire.insert(wire.begin() + long(from), x.begin(), x.end());
                    fault("padded");
                    m = 1;
                }
                break;
            case 1: { // continuation bits
                u32 k = c.range(1, 12);
                for (std::size_t j = from; j < wire.size() && j < from + k; ++j) {
                    wire[j] |= 0x80;
                }
                fault("continuation bits set");
                break;
            }
            case 2:
                if (len && from + len <= wire.size()) {
                    wire[from + len - 1] = u8(c.integer(8));
                    fault("last byte overwritten");
                }
                break;
            case 3: {
                std::size_t j = c.pick(u32(wire.size() + 1));
                Bytes x(c.range(1, 11), u8(c.pick(2) ? 0xff : 0x80));
                wire.insert(wire.begin() + long(j), x.begin(), x.end());
                fault("run of continuation bytes inserted");
                break;
            }
            case 4:
                wire.resize(c.pick(u32(wire.size() + 1)));
                fault("cut");
                break;
            default:
                if (!wire.empty()) {
                    wire[c.pick(u32(wire.size()))] ^= u8(1u << c.pick(8));
                    fault("bit flip");
                }
            }
        }
    }
    if (c.pick(2)) {
        for (u32 k = c.range(1, 12); k; --k) {
            wire.push_back(u8(c.integer(8)));
        }
    }
    ev_bytes("stream", wire.data(), wire.size());
    // receiving
    int ik = int(c.pick(N_IN));
    const Wire rw{in_big(ik), SZ_VARINT};
    Receiver r(ik);
    Bytes seen;
    std::size_t next = 0;
    u32 i = 0;
    bool eof = wire.empty();
    while (i < n) {
        c.mark();
        if (!eof && (seen.empty() || c.pick(3))) {
            std::size_t k = c.pick(2) ? 1 : 1 + c.pick(u32(wire.size() - next));
            seen.insert(seen.end(), wire.begin() + long(next), wire.begin() + long(next + k));
            next += k;
            eof = next == wire.size();
        }
        r.arrived(seen);
        std::size_t at = r.at;
        std::unique_ptr<Item> got(items[i]->fresh()), model(items[i]->fresh());
        if (c.pick(2)) {
            got->gen(c); // whatever was there before
        }
        Dec d(seen.data() + at, seen.size() - at, rw);
        model->dec(d);
        Res res;
        {
            Window win;
            res = guarded([&] { return got->read(ik, r.in()); });
        }
        std::size_t pos = r.pos();
        ev("receive %u by %d at %zu of %zu -> %s, %zu; model %s %zu", kinds[i], ik, at, seen.size(), res_name(res).c_str(), pos,
           code_name(d.code), at + d.pos);
        state(hmix(hmix(kinds[i], u64(ik)), hmix(u64(res.code), std::min<std::size_t>(d.pos, 12) * 16 + std::min<std::size_t>(seen.size() - at, 15))));
        REQ(pos >= at && pos <= seen.size(), "position", "kind %u: from %zu to %zu of %zu", kinds[i], at, pos, seen.size());
        if (d.huge) {
            REQ(!res.ok(), "accepted", "kind %u: a huge length", kinds[i]);
        } else {
            REQ(!res.exc && res.code == d.code, res.ok() ? "accepted" : "code", "kind %u: %s, the format says %s: %s", kinds[i],
                res_name(res).c_str(), code_name(d.code), hex(seen.data() + at, seen.size() - at).c_str());
        }
        if (res.ok()) {
            REQ(pos == at + d.pos, "consumed", "kind %u: consumed %zu bytes, the value has %zu", kinds[i], pos - at, d.pos);
            REQ(got->canon() == model->canon(), "value", "kind %u: another value for %s", kinds[i], hex(seen.data() + at, d.pos).c_str());
            decoded = true;
            r.at = pos;
            ++i;
            continue;
        }
        refused = true;
        if (items[i]->single()) {
            REQ(pos == at, "position", "kind %u: a refused integer moved the position by %zu", kinds[i], pos - at);
        }
        if (d.code == RANGE && !d.huge && !eof) {
            probe("torn, tried again");
            continue;
        }
        if (eof || d.code != RANGE || d.huge) { // it will not get better
            break;
        }
    }
    if (decoded && refused) {
        nontrivial();
    }
}
} // namespace sim
