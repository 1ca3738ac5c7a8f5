// C21: errors raised anywhere below an operation come out of it, and stop it.
#include "world_own.h"
#include "tracked.h"

namespace sim
{
const WorldInfo world_info = {
    "C21",
    "A run writes and reads an object of a random type (user callbacks of four kinds inside containers, maps, keys, tuples, optionals, "
    "variants, owning pointers, sized and unsized wrappers, known ids, recursive and framed protocol messages), alone or between other "
    "objects, through the error code, exception and apply interfaces or as an RPC argument, handler or result, with the k-th callback "
    "failing with a random error code, of its own or from a nested archive of its own, on buffers that may also be too small or torn. "
    "Non-trivial: an injected failure reached the caller; distinct by the recorded choices.",
    "(type, interface, direction, code, how deep the failure was)",
    "zpp::bits::out, in, apply, rpc client and server, errc, value_or_errc", "the callbacks' failures, buffer sizes"};

#if SVC == 0
#define ARGS
#define OPTS
static const Wire wire{};
#elif SVC == 1
#define ARGS , zb::endian::big{}, zb::size_varint{}
#define OPTS , zb::endian::big, zb::size_varint
static const Wire wire{true, SZ_VARINT};
#else
#define ARGS , zb::size2b{}, zb::no_fit_size{}
#define OPTS , zb::size2b, zb::no_fit_size
static const Wire wire{false, 2};
#endif
#if SVC == 2
#define IARGS , zb::size2b{}, zb::alloc_limit<100000>{}
#define IOPTS , zb::size2b, zb::alloc_limit<100000>
#else
#define IARGS ARGS
#define IOPTS OPTS
#endif
using GOut = zb::out<BVec OPTS>;
using SOut = zb::out<std::span<std::byte> OPTS>;
using In = zb::in<BVec IOPTS>;

static const int codes[] = {RANGE, MSGSIZE, BADMSG, TOOLARGE, PROTO, INVALID, NOSPACE, NOTSUP, int(std::errc::timed_out),
                            int(std::errc::operation_canceled), int(std::errc::io_error), 1, 4095, -1, 0x10000, int(0x80000000)};

struct Inj
{
    u64 n = 0;       // callbacks so far
    u64 fail_at = 0; // this one fails
    u64 after = 0;   // callbacks after it
    bool fired = false;
    int code = 0;
    bool nested = false; // by failing itself at the library
    std::size_t deep = 0;
    void arm(u64 k, int c, bool nest)
    {
        *this = {};
        fail_at = k;
        code = c;
        nested = nest;
    }
    zb::errc tick()
    {
        after += fired;
        if (++n != fail_at) {
            return {};
        }
        fired = true;
        if (nested) {
            return fail_inside(code);
        }
        return std::errc(code);
    }
    static bool can_nest(int code)
    {
        return code == RANGE || code == MSGSIZE || code == BADMSG || code == TOOLARGE || code == PROTO || code == NOSPACE;
    }
    static zb::errc fail_inside(int code)
    {
        BVec v;
        switch (code) {
        case RANGE: {
            std::byte few[3];
            zb::out o{few};
            return o(u16(1), u16(2));
        }
        case NOSPACE: {
            zb::out o{v, zb::alloc_limit<4>{}};
            return o(std::string("too long"));
        }
        default:
            break;
        }
        std::byte b[4];
        if (code == MSGSIZE) {
            zb::out(b)(u32(1000)).or_throw();
            zb::in i{b, zb::alloc_limit<10>{}};
            return i(v);
        }
        if (code == BADMSG) {
            b[0] = std::byte(9);
            zb::in i{b};
            std::variant<u8, u16> x;
            return i(x);
        }
        if (code == TOOLARGE) {
            BVec w(20, std::byte(0xff));
            zb::in i{w};
            zb::vuint32_t x;
            return i(x);
        }
        // protocol error: a field's wire type contradicts the declared one
        b[0] = std::byte(3);
        b[1] = std::byte(7); // field 0
        b[2] = b[3] = std::byte(0);
        zb::in i{b, zb::size1b{}};
        PbInner m;
        return i(m);
    }
};
static Inj inj;

// the model's view of the callbacks: it stops at the same one
struct StopHere
{
};
struct Model
{
    u64 n = 0;
    u64 stop = 0;
    void tick()
    {
        if (++n == stop) {
            throw StopHere{};
        }
    }
};
static Model model;

struct Probe // member serialize, checks every step
{
    u8 v{};
    std::string s;
    bool operator<(const Probe & o) const
    {
        return v != o.v ? v < o.v : s < o.s;
    }
    bool operator==(const Probe & o) const = default;
    static constexpr zb::errc serialize(auto & ar, auto & self)
    {
        if (auto r = inj.tick(); zb::failure(r)) {
            return r;
        }
        if (auto r = ar(self.v); zb::failure(r)) {
            return r;
        }
        if (auto r = inj.tick(); zb::failure(r)) {
            return r;
        }
        if (auto r = ar(self.s); zb::failure(r)) {
            return r;
        }
        return inj.tick();
    }
    using custom_ref = void;
    static void enc(auto & e, const Probe & x)
    {
        model.tick();
        e.num(x.v);
        model.tick();
        e.put(x.s);
        model.tick();
    }
    static void dec(auto & d, Probe & x)
    {
        if (d.code) {
            return;
        }
        model.tick();
        d.num(x.v);
        if (d.code) {
            return;
        }
        model.tick();
        d.get(x.s);
        if (d.code) {
            return;
        }
        model.tick();
    }
    static void canon(auto & c, const Probe & x)
    {
        c.bytes(&x.v, 1);
        c.put(x.s);
    }
    static void gen(Ch & c, Probe & x, int d)
    {
        sim::gen(c, x.v, d);
        x.s.assign(c.pick(5), char('a' + c.pick(3)));
    }
};
struct Adl // found by argument dependent lookup, returns std::errc
{
    Adl() = default;
    Adl(const Adl &) = default;
    Adl & operator=(const Adl &) = default;
    u16 v{};
    Probe p;
    using custom_ref = void;
    static void enc(auto & e, const Adl & x)
    {
        model.tick();
        e.put(x.p);
        e.num(x.v);
        model.tick();
    }
    static void dec(auto & d, Adl & x)
    {
        if (d.code) {
            return;
        }
        model.tick();
        d.get(x.p);
        d.num(x.v);
        if (d.code) {
            return;
        }
        model.tick();
    }
    static void canon(auto & c, const Adl & x)
    {
        c.put(x.p);
        c.put(x.v);
    }
    static void gen(Ch & c, Adl & x, int d)
    {
        sim::gen(c, x.v, d);
        sim::gen(c, x.p, d);
    }
};
template <class Ar, class Self>
constexpr std::errc serialize(Ar & ar, Self & self) requires std::is_same_v<std::remove_cvref_t<Self>, Adl>
{
    if (std::errc r = inj.tick(); zb::failure(r)) {
        return r;
    }
    if (auto r = ar(self.p, self.v); zb::failure(r)) {
        return r;
    }
    return inj.tick();
}
struct Group // hands several objects on in one call, through wrappers
{
    Probe a;
    std::vector<Probe> b;
    std::list<Probe> c;
    std::variant<u8, Probe, std::string> d;
    std::array<Probe, 2> e;
    static constexpr zb::errc serialize(auto & ar, auto & self)
    {
        u8 n = u8(self.b.size() % 8), id = u8(self.d.index());
        constexpr bool in = std::remove_cvref_t<decltype(ar)>::kind() == zb::kind::in;
        if (auto r = ar(n, id); zb::failure(r)) {
            return r;
        }
        if constexpr (in) {
            self.b.resize(n % 8);
            return ar(self.a, zb::unsized(self.b), zb::sized<u8>(self.c), zb::known_id(std::byte(id), self.d), self.e);
        } else if (id == 1) {
            return ar(self.a, zb::unsized(self.b), zb::sized<u8>(self.c), zb::known_id<std::byte{1}>(self.d), self.e);
        } else if (id == 0) {
            return ar(self.a, zb::unsized(self.b), zb::sized<u8>(self.c), zb::known_id<std::byte{0}>(self.d), self.e);
        } else {
            return ar(self.a, zb::unsized(self.b), zb::sized<u8>(self.c), zb::known_id<std::byte{2}>(self.d), self.e);
        }
    }
    using custom_ref = void;
    static void enc(auto & e, const Group & x)
    {
        e.num(u8(x.b.size()));
        e.num(u8(x.d.index()));
        e.put(x.a);
        for (auto & y : x.b) {
            e.put(y);
        }
        e.put_sz(x.c, 1);
        std::visit([&](auto & y) { e.put(y); }, x.d);
        e.put(x.e);
    }
    static void dec(auto & d, Group & x)
    {
        u8 n{}, id{};
        d.num(n);
        d.num(id);
        if (d.code) {
            return;
        }
        x.b.resize(n % 8);
        d.get(x.a);
        for (auto & y : x.b) {
            d.get(y);
        }
        d.get_sz(x.c, 1);
        if (d.code) {
            return;
        }
        if (id > 2) {
            d.code = BADMSG;
            return;
        }
        d.get_alt(x.d, id, std::make_index_sequence<3>{});
        d.get(x.e);
    }
    static void canon(auto & c, const Group & x)
    {
        c.put(x.a);
        c.put(x.b);
        c.put(x.c);
        c.put(x.d);
        c.put(x.e);
    }
    static void gen(Ch & c, Group & x, int d)
    {
        sim::gen(c, x.a, d);
        x.b.resize(c.pick(4));
        for (auto & y : x.b) {
            sim::gen(c, y, d);
        }
        x.c.resize(c.pick(3));
        for (auto & y : x.c) {
            sim::gen(c, y, d);
        }
        sim::gen(c, x.d, d);
        sim::gen(c, x.e, d);
    }
};

struct Frame // a protocol of the user: counts its members and fails on demand
{
    template <class Ar, class Item>
    constexpr zb::errc operator()(Ar & ar, Item & item, std::size_t size = ~std::size_t{}) const
    {
        if (auto r = inj.tick(); zb::failure(r)) {
            return r;
        }
        auto start = ar.position();
        if (auto r = ar(item.k); zb::failure(r)) {
            return r;
        }
        if (auto r = ar(item.p, item.v); zb::failure(r)) {
            return r;
        }
        if (auto r = inj.tick(); zb::failure(r)) {
            return r;
        }
        if constexpr (Ar::kind() == zb::kind::in) {
            if (size != ~std::size_t{} && ar.position() - start != size) {
                return std::errc::protocol_error;
            }
        }
        return {};
    }
};
template <class Payload>
struct Framed
{
    Framed() = default;
    u16 k{};
    Payload p{};
    std::vector<Probe> v;
    using serialize = zb::protocol<Frame{}>;
    using custom_ref = void;
    static void enc(auto & e, const Framed & x)
    {
        // the size is known last: a byte for a varint, which moves the message when it grows
        std::size_t at = e.b.size();
        std::size_t hold = e.w.size == SZ_VARINT ? 1 : std::size_t(e.w.size);
        e.b.insert(e.b.end(), hold, 0);
        std::size_t start = e.b.size();
        model.tick();
        e.num(x.k);
        e.put(x.p);
        e.put(x.v);
        model.tick();
        std::size_t n = e.b.size() - start;
        Enc size(e.w);
        size.sizep(n, e.w.size);
        if (e.w.size == 2) {
            e.overflow |= n > 0xffff;
        }
        e.b.erase(e.b.begin() + std::ptrdiff_t(at), e.b.begin() + std::ptrdiff_t(start));
        e.b.insert(e.b.begin() + std::ptrdiff_t(at), size.b.begin(), size.b.end());
    }
    static void dec(auto & d, Framed & x)
    {
        std::size_t n = d.sizep(d.w.size);
        if (d.code) {
            return;
        }
        model.tick();
        std::size_t start = d.pos;
        d.num(x.k);
        d.get(x.p);
        d.get(x.v);
        if (d.code) {
            return;
        }
        model.tick();
        if (d.pos - start != n) {
            d.code = PROTO;
        }
    }
    static void canon(auto & c, const Framed & x)
    {
        c.put(x.k);
        c.put(x.p);
        c.put(x.v);
    }
    static void gen(Ch & c, Framed & x, int d)
    {
        sim::gen(c, x.k, d);
        sim::gen(c, x.p, d + 1);
        x.v.resize(c.pick(3) ? c.pick(3) : c.pick(30));
        for (auto & y : x.v) {
            sim::gen(c, y, d + 1);
        }
    }
};

struct Branch
{
    Probe p;
    std::vector<Branch> kids;
    void fields(auto && f)
    {
        f(p, kids);
    }
};
struct CArrays
{
    Probe a[2];
    Adl b[2];
    u16 c{};
    using serialize = zb::members<3>;
    void fields(auto && f)
    {
        f(a, b, c);
    }
};
struct Nest
{
    u8 a{};
    std::vector<std::optional<Probe>> b;
    std::map<u8, std::unique_ptr<Probe>> c;
    std::tuple<Probe, std::variant<u16, Adl>, u32> d;
    Probe e;
    u32 f{};
    using serialize = zb::members<6>;
    void fields(auto && x)
    {
        x(a, b, c, d, e, f);
    }
};
struct Last // the failing object is the last of everything
{
    std::vector<std::vector<Probe>> a;
    std::pair<u16, std::pair<u8, Probe>> b;
    void fields(auto && x)
    {
        x(a, b);
    }
};
struct Wrapped
{
    zb::vector1b<Probe> a;
    zb::sized_t<std::list<Probe>, zb::vsize_t> b;
    zb::sized_t<std::map<u8, Probe>, u16> c;
    zb::optional_ptr<Probe> d;
    std::shared_ptr<Probe> e = std::make_shared<Probe>();
    zb::optional_ptr<Wrapped> f;
    using serialize = zb::members<6>;
    void fields(auto && x)
    {
        x(a, b, c, d, e, f);
    }
};
} // namespace sim
template <>
struct std::hash<sim::Probe>
{
    std::size_t operator()(const sim::Probe & p) const
    {
        return p.v * 31u + p.s.size();
    }
};
namespace sim
{
// ---- one object through every interface ---------------------------------------------------
struct Outcome
{
    int code = 0;
    const char * how = "";
};
template <class F>
Outcome through(Ch & c, F && f)
{
    switch (c.pick(5)) {
    case 0: {
        zb::errc r = f();
        REQ(zb::success(r) == !int(r.code) && zb::failure(r) == !!int(r.code), "interface", "success and failure contradict the code");
        return {int(std::errc(r)), "errc"};
    }
    case 1: {
        std::errc r = f();
        REQ(zb::success(r) == !int(r) && zb::failure(r) == !!int(r), "interface", "success and failure contradict the code");
        return {int(r), "std::errc"};
    }
    case 2:
        try {
            f().or_throw();
            return {0, "or_throw"};
        } catch (const std::system_error & e) {
            REQ(e.code() == std::make_error_code(std::errc(e.code().value())), "interface", "another error category");
            REQ(e.code().value(), "interface", "or_throw threw a success");
            return {e.code().value(), "or_throw"};
        }
    case 3: {
        auto r = f();
        auto copy = r;
        zb::errc other;
        other = copy;
        return {int(std::errc(other)), "copied errc"};
    }
    default: {
        auto g = [&]() -> std::errc { return f(); };
        return {int(g()), "returned"};
    }
    }
}
static void check_fired(const char * name, const char * what, u64 k, const Outcome & r, int code)
{
    REQ(inj.after == 0, "continued", "%s: %s went on with %llu callbacks after callback %llu failed with %s", name, what,
        (unsigned long long)inj.after, (unsigned long long)k, code_name(code));
    if (inj.fired) {
        fault(inj.nested ? "callback failed in a nested archive" : "callback failed");
        nontrivial();
        REQ(r.code == code, "swallowed", "%s: callback %llu of %s failed with %d (%s) and the caller was told %d (%s, by %s)", name,
            (unsigned long long)k, what, code, code_name(code), r.code, code_name(r.code), r.how);
    }
}

// the bytes and callbacks up to callback `stop` (0: all of them)
template <class... T>
bool model_out(Enc & e, u64 stop, const T &... x)
{
    model = {0, stop};
    try {
        (e.put(x), ...);
        return true;
    } catch (const StopHere &) {
        return false;
    }
}
template <class... T>
bool model_in(Dec & d, u64 stop, T &... x)
{
    model = {0, stop};
    try {
        (d.get(x), ...);
        return true;
    } catch (const StopHere &) {
        return false;
    }
}

static int pick_code(Ch & c, bool & nested)
{
    int code = codes[c.pick(std::size(codes))];
    nested = Inj::can_nest(code) && c.pick(3) == 0;
    return code;
}
static u64 pick_tick(Ch & c, u64 n)
{
    switch (c.pick(4)) {
    case 0:
        return 1 + c.pick(u32(n));
    case 1:
        return n;
    case 2:
        return n - c.pick(u32(n < 6 ? n : 6));
    default:
        return 1 + c.pick(u32(n < 9 ? n : 9));
    }
}

template <class... T>
void write_some(Ch & c, const char * name, const T &... x)
{
    Enc whole(wire);
    model_out(whole, 0, x...);
    u64 ticks = model.n;
    if (whole.overflow) {
        return;
    }
    bool nested = false;
    int code = pick_code(c, nested);
    u64 k = ticks && c.pick(6) ? pick_tick(c, ticks) : 0;
    Enc live(wire);
    model_out(live, k, x...);

    bool fixed = c.pick(2);
    std::size_t start = c.pick(4) ? c.pick(40) : 0;
    std::size_t have = start + (c.pick(3) ? c.pick(u32(whole.b.size()) + 30) : 0);
    std::size_t room = have - start;
    if (fixed && c.pick(3)) {
        room = live.b.size() + 40;
        have = start + room;
    }
    Bytes before(have);
    for (std::size_t i = 0; i < have; ++i) {
        before[i] = u8(i * 37 + 11);
    }
    BVec buf = to_bvec(before);
    inj.arm(k, code, nested);
    Outcome r;
    std::size_t at = 0;
    if (fixed) {
        SOut o{std::span<std::byte>(buf) ARGS};
        o.position() = start;
        r = through(c, [&] { return o(x...); });
        at = o.position();
    } else {
        GOut o{buf ARGS};
        o.position() = start;
        r = through(c, [&] { return o(x...); });
        at = o.position();
    }
    ev("write %s: %zu bytes, %llu callbacks, %llu fails with %d%s; %s buffer of %zu from %zu -> %s, at %zu", name, whole.b.size(),
       (unsigned long long)ticks, (unsigned long long)k, code, nested ? " nested" : "", fixed ? "fixed" : "growing", have, start,
       code_name(r.code), at);
    state(hmix(hash_bytes(name, std::strlen(name)), hmix(u64(code) * 2 + fixed, u64(r.code) * 64 + (k ? 1 + 8 * k / (ticks + 1) : 0))));
    check_fired(name, "writing", k, r, code);
    REQ(at >= start && at <= buf.size(), "position", "%s: position %zu outside [%zu, %zu]", name, at, start, buf.size());
    auto p = reinterpret_cast<const u8 *>(buf.data());
    REQ(!std::memcmp(p, before.data(), start), "before", "%s: bytes before the position changed", name);
    if (inj.fired || (k && !r.code)) {
        REQ(inj.fired, "skipped", "%s: writing succeeded without the callback %llu of %llu", name, (unsigned long long)k,
            (unsigned long long)ticks);
        REQ(inj.n == k, "count", "%s: %llu callbacks instead of %llu", name, (unsigned long long)inj.n, (unsigned long long)k);
        REQ(at <= start + live.b.size(), "continued", "%s: the position is %zu, the failure was at %zu", name, at,
            start + live.b.size());
        REQ(!std::memcmp(p + start, live.b.data(), at - start), "bytes", "%s: the bytes before the failure are %s instead of %s", name,
            hex(p + start, at - start).c_str(), hex(live.b).c_str());
        std::size_t from = start + live.b.size(), to = before.size() < buf.size() ? before.size() : buf.size();
        for (std::size_t i = from; i < to; ++i) {
            REQ(p[i] == before[i], "continued", "%s: byte %zu was written, the failure was at %zu", name, i, from);
        }
        return;
    }
    if (r.code) {
        REQ(fixed && r.code == RANGE, "invented", "%s: writing fails with %s though no callback did", name, code_name(r.code));
        REQ(room < live.b.size() + 16, "invented", "%s: no room in %zu bytes for %zu", name, room, live.b.size());
        fault("full buffer");
        return;
    }
    REQ(inj.n == ticks, "skipped", "%s: %llu of %llu callbacks were made", name, (unsigned long long)inj.n, (unsigned long long)ticks);
    REQ(at == start + whole.b.size(), "position", "%s: %zu bytes written instead of %zu", name, at - start, whole.b.size());
    REQ(!std::memcmp(p + start, whole.b.data(), whole.b.size()), "bytes", "%s: wrote %s instead of %s", name,
        hex(p + start, at - start).c_str(), hex(whole.b).c_str());
}

template <class... T>
void read_some(Ch & c, const char * name, const T &... x)
{
    Enc whole(wire);
    model_out(whole, 0, x...);
    if (whole.overflow) {
        return;
    }
    Bytes bytes = whole.b;
    std::size_t start = c.pick(3) ? 0 : c.pick(20);
    bytes.insert(bytes.begin(), start, u8(0xa5));
    if (c.pick(3)) {
        bytes.insert(bytes.end(), c.pick(12), u8(0x5a));
    } else if (c.pick(2) && bytes.size() > start) {
        bytes.resize(start + c.pick(u32(bytes.size() - start)));
        fault("torn message");
    }
    std::tuple<T...> fresh{};
    Dec all(bytes.data(), bytes.size(), wire);
    all.pos = start;
    std::apply([&](auto &... y) { model_in(all, 0, y...); }, fresh);
    u64 ticks = model.n;
    bool nested = false;
    int code = pick_code(c, nested);
    u64 k = ticks && c.pick(6) ? pick_tick(c, ticks) : 0;
    std::tuple<T...> stopped{}, got{};
    Dec d(bytes.data(), bytes.size(), wire);
    d.pos = start;
    std::apply([&](auto &... y) { model_in(d, k, y...); }, stopped);

    BVec buf = to_bvec(bytes);
    Outcome r;
    inj.arm(k, code, nested);
    In in{buf IARGS};
    in.position() = start;
    std::apply([&](auto &... y) { r = through(c, [&] { return in(y...); }); }, got);
    std::size_t at = in.position();
    ev("read %s: %zu bytes from %zu, %llu callbacks, %llu fails with %d%s -> %s, at %zu", name, bytes.size(), start,
       (unsigned long long)ticks, (unsigned long long)k, code, nested ? " nested" : "", code_name(r.code), at);
    state(hmix(hash_bytes(name, std::strlen(name)) + 1, hmix(u64(code), u64(r.code) * 64 + (k ? 1 + 8 * k / (ticks + 1) : 0))));
    check_fired(name, "reading", k, r, code);
    REQ(at >= start && at <= bytes.size(), "position", "%s: position %zu outside the data", name, at);
    REQ(to_bytes(buf) == bytes, "before", "%s: reading changed the data", name);
    if (k) {
        REQ(inj.fired, "skipped", "%s: reading ended with %s without the callback %llu of %llu", name, code_name(r.code),
            (unsigned long long)k, (unsigned long long)ticks);
        REQ(inj.n == k, "count", "%s: %llu callbacks instead of %llu", name, (unsigned long long)inj.n, (unsigned long long)k);
        REQ(at <= d.pos, "continued", "%s: the position is %zu, the failure was at %zu", name, at, d.pos);
        return;
    }
    REQ(r.code == all.code, "invented", "%s: reading ends with %s instead of %s", name, code_name(r.code), code_name(all.code));
    REQ(inj.n == ticks, "skipped", "%s: %llu of %llu callbacks were made", name, (unsigned long long)inj.n, (unsigned long long)ticks);
    if (!r.code) {
        REQ(at == all.pos, "position", "%s: read up to %zu instead of %zu", name, at, all.pos);
        REQ(canon_of(got) == canon_of(fresh), "value", "%s: read %s instead of %s", name, hex(canon_of(got)).c_str(),
            hex(canon_of(fresh)).c_str());
    }
}

// ---- apply --------------------------------------------------------------------------------
static u64 applied;
static Bytes applied_with;
template <class... T>
void note_applied(const T &... x)
{
    Exempt e;
    ++applied;
    Canon k;
    (k.put(x), ...);
    applied_with = std::move(k.b);
}
static std::string free_one(Probe p, std::vector<Probe> v)
{
    note_applied(p, v);
    return p.s + std::to_string(v.size());
}
static void free_void(const Probe & p, std::vector<Probe> && v)
{
    note_applied(p, v);
}
struct Target
{
    int calls = 0;
    std::unique_ptr<Probe> member_one(Probe p, std::vector<Probe> v)
    {
        ++calls;
        note_applied(p, v);
        return std::make_unique<Probe>(p);
    }
    void member_void(const Probe & p, const std::vector<Probe> & v) const
    {
        note_applied(p, v);
    }
};
template <class V>
int unpack(Ch & c, V && r, Bytes & canon)
{
    auto take = [&](auto && v) {
        Canon k;
        k.put(v);
        canon = std::move(k.b);
    };
    REQ(r.success() != r.failure(), "interface", "both a value and an error, or neither");
    REQ(zb::success(r) == r.success() && zb::failure(r) == r.failure(), "interface", "success() and success differ");
    int code = r.failure() ? int(std::errc(r.error())) : 0;
    REQ(r.success() || code, "interface", "a failure without a code");
    switch (c.pick(4)) {
    case 0:
        if (r.success()) {
            take(r.value());
        }
        return code;
    case 1:
        try {
            auto && v = r.or_throw();
            take(v);
            REQ(!code, "interface", "or_throw returned a value for an error");
            return 0;
        } catch (const std::system_error & e) {
            REQ(e.code() == std::make_error_code(std::errc(code)), "interface", "or_throw threw %d for %d", e.code().value(), code);
            return e.code().value();
        }
    case 2:
        try {
            auto v = std::move(r).or_throw();
            take(v);
            REQ(!code, "interface", "or_throw returned a value for an error");
            return 0;
        } catch (const std::system_error & e) {
            return e.code().value();
        }
    default: {
        auto moved = std::move(r);
        REQ(moved.success() == !code && (moved.success() || int(std::errc(moved.error())) == code), "interface",
            "moving changed the outcome");
        const auto & cr = moved;
        if (moved.success()) {
            take(cr.value());
            take(cr.or_throw());
        }
        return code;
    }
    }
}
static void run_apply(Ch & c)
{
    Probe p;
    std::vector<Probe> v;
    gen(c, p);
    gen(c, v, 1);
    Enc e(wire);
    model_out(e, 0, p, v);
    u64 ticks = model.n;
    Bytes bytes = e.b;
    bool torn = false;
    if (!c.pick(4)) {
        bytes.resize(c.pick(u32(bytes.size())));
        torn = true;
        fault("torn message");
    }
    Probe p2;
    std::vector<Probe> v2;
    Dec all(bytes.data(), bytes.size(), wire);
    model_in(all, 0, p2, v2);
    ticks = model.n;
    bool nested = false;
    int code = pick_code(c, nested);
    u64 k = ticks && c.pick(4) ? pick_tick(c, ticks) : 0;
    BVec buf = to_bvec(bytes);
    In in{buf IARGS};
    inj.arm(k, code, nested);
    applied = 0;
    Outcome r;
    Bytes value, want;
    Target target;
    Canon args;
    args.put(p);
    args.put(v);
    int kind = int(c.pick(6));
    switch (kind) {
    case 0:
        r = {unpack(c, zb::apply(free_one, in), value), "apply"};
        want = canon_of(p.s + std::to_string(v.size()));
        break;
    case 1:
        r = through(c, [&] { return zb::apply(free_void, in); });
        break;
    case 2:
        r = {unpack(c, zb::apply([&](Probe x, std::vector<Probe> y) {
                        note_applied(x, y);
                        return y;
                    }, in), value), "apply"};
        want = canon_of(v);
        break;
    case 3:
        r = through(c, [&] {
            return zb::apply([&](const Probe & x, const std::vector<Probe> & y) { note_applied(x, y); }, in);
        });
        break;
    case 4:
        r = {unpack(c, zb::apply(target, &Target::member_one, in), value), "apply"};
        want = canon_of(std::make_unique<Probe>(p));
        break;
    default:
        r = through(c, [&] { return zb::apply(target, &Target::member_void, in); });
    }
    ev("apply %d: %llu callbacks, %llu fails with %d%s%s -> %s, %llu calls", kind, (unsigned long long)ticks, (unsigned long long)k, code,
       nested ? " nested" : "", torn ? ", torn" : "", code_name(r.code), (unsigned long long)applied);
    state(hmix(900 + u64(kind), hmix(u64(code), u64(r.code) * 2 + torn)));
    check_fired("apply", "reading", k, r, code);
    if (k) {
        REQ(inj.fired && inj.n == k, "count", "apply: %llu callbacks instead of %llu", (unsigned long long)inj.n, (unsigned long long)k);
        REQ(!applied, "continued", "apply called the function though its arguments failed");
        return;
    }
    REQ(r.code == all.code, "invented", "apply gives %s instead of %s", code_name(r.code), code_name(all.code));
    REQ(applied == (all.code ? 0u : 1u), "continued", "apply called the function %llu times after %s", (unsigned long long)applied,
        code_name(all.code));
    if (!all.code) {
        REQ(applied_with == args.b, "value", "apply passed %s instead of %s", hex(applied_with).c_str(), hex(args.b).c_str());
        REQ(value == want, "value", "apply returned %s instead of %s", hex(value).c_str(), hex(want).c_str());
    }
}

// ---- rpc ----------------------------------------------------------------------------------
static u64 handled;
static Bytes handled_with;
template <class... T>
void note_handled(const T &... x)
{
    Exempt e;
    ++handled;
    Canon k;
    (k.put(x), ...);
    handled_with = std::move(k.b);
}
static Nest answer_of(const Probe & p, u16 n)
{
    Nest r;
    r.a = u8(n);
    r.e = p;
    r.b.resize(n % 3, p);
    std::get<0>(r.d) = p;
    r.f = n;
    return r;
}
static int handler_code; // what a handler that returns an error returns
static Nest rpc_ask(const Probe & p, u16 n)
{
    note_handled(p, n);
    return answer_of(p, n);
}
static void rpc_tell(std::vector<Probe> v)
{
    note_handled(v);
}
static zb::errc rpc_poke()
{
    note_handled();
    return std::errc(handler_code);
}
struct Service21
{
    std::unique_ptr<Probe> own(std::unique_ptr<Probe> p, const std::map<u8, Probe> & m)
    {
        note_handled(p, m);
        return p;
    }
    zb::errc raw(In & in, GOut & out)
    {
        Probe p;
        if (auto r = in(p); zb::failure(r)) {
            return r;
        }
        note_handled(p);
        if (handler_code) {
            return std::errc(handler_code);
        }
        return out(p, u8(7));
    }
    zb::errc half(In & in)
    {
        Probe p;
        auto r = in(p);
        if (zb::failure(r)) {
            return r;
        }
        note_handled(p);
        return std::errc(handler_code);
    }
    Probe status()
    {
        note_handled();
        return Probe{9, "status"};
    }
};
using namespace zpp::bits::literals;
using Rpc = zb::rpc<zb::bind<rpc_ask, "ask"_sha256_int>, zb::bind<rpc_tell, "tell"_sha256_int>, zb::bind<rpc_poke, "poke"_sha256_int>,
                    zb::bind<&Service21::own, "own"_sha256_int>, zb::bind_opaque<&Service21::raw, "raw"_sha256_int>,
                    zb::bind_opaque<&Service21::half, "half"_sha256_int>, zb::bind<&Service21::status, "status"_sha256_int>>;

struct Call
{
    Probe p;
    u16 n{};
    std::vector<Probe> v;
    std::unique_ptr<Probe> u = std::make_unique<Probe>();
    std::map<u8, Probe> m;
};
template <class E>
bool model_args(E & e, u64 stop, int fn, Call & x)
{
    auto put = [&](auto &... y) {
        if constexpr (std::is_same_v<E, Enc>) {
            return model_out(e, stop, y...);
        } else {
            return model_in(e, stop, y...);
        }
    };
    switch (fn) {
    case 0:
        return put(x.p, x.n);
    case 1:
        return put(x.v);
    case 3:
        return put(x.u, x.m);
    case 4:
    case 5:
        return put(x.p);
    default:
        return put();
    }
}
static const char * fn21(int f)
{
    static const char * n[] = {"ask", "tell", "poke", "own", "raw", "half", "status"};
    return n[f];
}
static Bytes call_canon(int fn, const Call & x)
{
    Canon k;
    switch (fn) {
    case 0:
        k.put(x.p);
        k.put(x.n);
        break;
    case 1:
        k.put(x.v);
        break;
    case 3:
        k.put(x.u);
        k.put(x.m);
        break;
    case 4:
    case 5:
        k.put(x.p);
    }
    return std::move(k.b);
}
template <class E>
bool model_result(E & e, u64 stop, int fn, const Call & x)
{
    switch (fn) {
    case 0:
        return model_out(e, stop, answer_of(x.p, x.n));
    case 3:
        return model_out(e, stop, x.u);
    case 4:
        return model_out(e, stop, x.p, u8(7));
    case 6:
        return model_out(e, stop, Probe{9, "status"});
    default:
        return model_out(e, stop);
    }
}
static void run_rpc(Ch & c)
{
    BVec req, rsp;
    Service21 obj;
    u32 n = c.range(1, 4);
    GOut cout{req ARGS};
    In sin{req IARGS};
    GOut sout{rsp ARGS};
    In cin{rsp IARGS};
    typename Rpc::client client{cin, cout};
    typename Rpc::server server{sin, sout, obj};
    for (u32 i = 0; i < n; ++i) {
        c.mark();
        int fn = int(c.pick(7));
        Call x;
        gen(c, x.p);
        gen(c, x.n);
        gen(c, x.v, 1);
        gen(c, x.u);
        gen(c, x.m, 1);
        req.clear();
        rsp.clear();
        cout.reset();
        sin.reset();
        sout.reset();
        cin.reset();
        Enc args(wire);
        model_args(args, 0, fn, x);
        u64 arg_ticks = model.n;
        Enc result(wire);
        model_result(result, 0, fn, x);
        u64 result_ticks = model.n;
        // where it fails: sending, decoding the arguments, the handler, encoding the result, decoding it
        u32 phase = c.pick(6);
        bool nested = false;
        int code = pick_code(c, nested);
        handler_code = 0;
        handled = 0;
        auto send = [&]() -> zb::errc {
            switch (fn) {
            case 0:
                return client.request<"ask"_sha256_int>(x.p, x.n);
            case 1:
                return client.request<"tell"_sha256_int>(x.v);
            case 2:
                return client.request<"poke"_sha256_int>();
            case 3:
                return client.request<"own"_sha256_int>(x.u, x.m);
            case 4:
                return client.request<"raw"_sha256_int>(x.p);
            case 5:
                return client.request<"half"_sha256_int>(x.p);
            default:
                return client.request<"status"_sha256_int>();
            }
        };
        u64 k = phase == 1 && arg_ticks ? pick_tick(c, arg_ticks) : 0;
        inj.arm(k, code, nested);
        Outcome r = through(c, send);
        ev("call %s: phase %u, code %d; sent -> %s", fn21(fn), phase, code, code_name(r.code));
        state(hmix(1000 + u64(fn) * 8 + phase, u64(code)));
        check_fired(fn21(fn), "sending", k, r, code);
        if (k) {
            REQ(inj.fired && inj.n == k, "count", "sending %s: %llu callbacks instead of %llu", fn21(fn), (unsigned long long)inj.n,
                (unsigned long long)k);
            continue;
        }
        REQ(!r.code && inj.n == arg_ticks, "invented", "sending %s gives %s", fn21(fn), code_name(r.code));
        const std::size_t id_size = 4;
        REQ(req.size() >= cout.position() && cout.position() == id_size + args.b.size(), "position", "%s sent %zu bytes instead of %zu",
            fn21(fn), cout.position(), id_size + args.b.size());

        bool torn = false;
        if (phase == 5 && c.pick(2)) {
            req.resize(c.pick(u32(cout.position())));
            torn = true;
            fault("torn request");
        }
        Call y;
        Dec d(reinterpret_cast<const u8 *>(req.data()), torn ? req.size() : cout.position(), wire);
        d.pos = d.n < id_size ? d.n : id_size;
        if (d.n < id_size) {
            d.code = RANGE;
            model = {};
        } else {
            model_args(d, 0, fn, y);
        }
        u64 serve_ticks = model.n;
        k = 0;
        if (phase == 2 && arg_ticks) {
            k = pick_tick(c, arg_ticks);
        } else if (phase == 3 && (fn == 2 || fn == 4 || fn == 5)) {
            handler_code = code;
        } else if (phase == 4 && result_ticks) {
            k = arg_ticks + pick_tick(c, result_ticks);
        }
        inj.arm(k, code, nested);
        r = through(c, [&] { return server.serve(); });
        ev("serve%s -> %s, %llu callbacks, %llu calls, %zu bytes of response", torn ? " torn" : "", code_name(r.code),
           (unsigned long long)inj.n, (unsigned long long)handled, sout.position());
        check_fired(fn21(fn), "serving", k, r, code);
        if (torn) {
            REQ(r.code == d.code, "invented", "serving a torn %s gives %s instead of %s", fn21(fn), code_name(r.code), code_name(d.code));
            REQ(!handled && !sout.position(), "continued", "a torn %s was handled", fn21(fn));
            REQ(inj.n == serve_ticks, "count", "serving a torn %s made %llu callbacks instead of %llu", fn21(fn),
                (unsigned long long)inj.n, (unsigned long long)serve_ticks);
            continue;
        }
        if (k && k <= arg_ticks) {
            REQ(inj.fired && inj.n == k, "count", "serving %s: %llu callbacks instead of %llu", fn21(fn), (unsigned long long)inj.n,
                (unsigned long long)k);
            REQ(!handled, "continued", "%s was called though its arguments failed", fn21(fn));
            REQ(!sout.position(), "continued", "%s was answered though its arguments failed", fn21(fn));
            continue;
        }
        REQ(handled == 1 && handled_with == call_canon(fn, x), "value", "%s was called %llu times with %s", fn21(fn),
            (unsigned long long)handled, hex(handled_with).c_str());
        if (handler_code) {
            nontrivial();
            fault("handler failed");
            REQ(r.code == handler_code, "swallowed", "the handler of %s failed with %d and the server says %d", fn21(fn), handler_code,
                r.code);
            REQ(!sout.position(), "continued", "%s was answered though it failed", fn21(fn));
            continue;
        }
        if (k) {
            REQ(inj.fired && inj.n == k, "count", "answering %s: %llu callbacks instead of %llu", fn21(fn), (unsigned long long)inj.n,
                (unsigned long long)k);
            Enc live(wire);
            model_result(live, k - arg_ticks, fn, x);
            REQ(sout.position() <= live.b.size(), "continued", "the answer of %s has %zu bytes, the failure was at %zu", fn21(fn),
                sout.position(), live.b.size());
            continue;
        }
        REQ(!r.code && inj.n == arg_ticks + result_ticks, "invented", "serving %s gives %s after %llu callbacks", fn21(fn),
            code_name(r.code), (unsigned long long)inj.n);
        REQ(sout.position() == result.b.size(), "position", "%s answered with %zu bytes instead of %zu", fn21(fn), sout.position(),
            result.b.size());
        if (fn == 1 || fn == 2 || fn == 5) {
            continue;
        }
        torn = false;
        if (phase == 5 && result.b.size()) {
            rsp.resize(c.pick(u32(result.b.size())));
            torn = true;
            fault("torn response");
        }
        u64 model_ticks = 0;
        int model_code = 0;
        {
            Dec rd(reinterpret_cast<const u8 *>(rsp.data()), torn ? rsp.size() : sout.position(), wire);
            Nest a;
            std::unique_ptr<Probe> b = std::make_unique<Probe>();
            Probe q;
            switch (fn) {
            case 0:
                model_in(rd, 0, a);
                break;
            case 3:
                model_in(rd, 0, b);
                break;
            default:
                model_in(rd, 0, q);
            }
            model_ticks = model.n;
            model_code = rd.code;
        }
        k = phase == 0 && model_ticks && c.pick(2) ? pick_tick(c, model_ticks) : 0;
        inj.arm(k, code, nested);
        Bytes got, want;
        switch (fn) {
        case 0:
            r = {unpack(c, client.response<"ask"_sha256_int>(), got), "response"};
            want = canon_of(answer_of(x.p, x.n));
            break;
        case 3:
            r = {unpack(c, client.response<"own"_sha256_int>(), got), "response"};
            want = canon_of(x.u);
            break;
        case 4: { // the answer of an opaque function is read by hand
            Probe q;
            r = through(c, [&] { return cin(q); });
            got = canon_of(q);
            want = canon_of(x.p);
            break;
        }
        default:
            r = {unpack(c, client.response<"status"_sha256_int>(), got), "response"};
            want = canon_of(Probe{9, "status"});
        }
        ev("response%s -> %s", torn ? " torn" : "", code_name(r.code));
        check_fired(fn21(fn), "reading the response", k, r, code);
        if (k) {
            REQ(inj.fired && inj.n == k, "count", "response of %s: %llu callbacks instead of %llu", fn21(fn), (unsigned long long)inj.n,
                (unsigned long long)k);
            continue;
        }
        REQ(r.code == model_code, "invented", "the response of %s gives %s instead of %s", fn21(fn), code_name(r.code),
            code_name(model_code));
        if (!r.code) {
            REQ(got == want, "value", "the response of %s is %s instead of %s", fn21(fn), hex(got).c_str(), hex(want).c_str());
        }
    }
}

// ---- value_or_errc by itself --------------------------------------------------------------
template <class T>
void value_history(Ch & c, T && made)
{
    using V = zb::value_or_errc<std::remove_cvref_t<T>>;
    Bytes want = canon_of(made);
    bool bad = c.pick(2);
    bool nested = false;
    int code = pick_code(c, nested);
    auto make = [&] { return bad ? V{zb::errc(std::errc(code))} : V{std::forward<T>(made)}; };
    V a = make();
    u32 n = c.pick(4);
    auto rest = [&](auto && self, V v, u32 left) -> void {
        REQ(v.success() == !bad && v.failure() == bad, "interface", "moving changed the outcome");
        REQ(zb::success(v) == !bad && zb::failure(v) == bad, "interface", "the free functions disagree");
        if (bad) {
            REQ(int(std::errc(v.error())) == code, "interface", "moving changed the error to %d", int(std::errc(v.error())));
        } else {
            REQ(canon_of(v.value()) == want && canon_of(std::as_const(v).value()) == want, "interface", "moving changed the value");
        }
        if (left) {
            return self(self, std::move(v), left - 1);
        }
        int thrown = 0;
        Bytes got;
        try {
            switch (c.pick(4)) {
            case 0:
                got = canon_of(v.or_throw());
                break;
            case 1:
                got = canon_of(std::as_const(v).or_throw());
                break;
            case 2: {
                auto x = std::move(v).or_throw();
                got = canon_of(x);
                break;
            }
            default:
                if (bad) {
                    v.error().or_throw();
                } else {
                    auto x = std::move(v).value();
                    got = canon_of(x);
                }
            }
        } catch (const std::system_error & e) {
            thrown = e.code().value();
        }
        REQ(thrown == (bad ? code : 0), "interface", "threw %d for %d", thrown, bad ? code : 0);
        REQ(bad || got == want, "interface", "or_throw gives another value");
    };
    rest(rest, std::move(a), n);
    ev("value_or_errc: %s, %u moves", bad ? code_name(code) : "value", n);
    state(hmix(2000 + bad, hmix(u64(code), want.size())));
    if (bad) {
        nontrivial();
    }
}
static void run_values(Ch & c)
{
    auto & t = Ticks::get();
    t.alive.clear();
    t.broken = false;
    t.n = t.fail_at = 0;
    switch (c.pick(6)) {
    case 0: {
        u32 x{};
        gen(c, x);
        value_history(c, std::move(x));
        break;
    }
    case 1: {
        std::string x;
        gen(c, x);
        value_history(c, std::move(x));
        break;
    }
    case 2: {
        auto x = std::make_unique<Probe>();
        gen(c, *x);
        value_history(c, std::move(x));
        break;
    }
    case 3: {
        Bomb x;
        gen(c, x);
        value_history(c, std::move(x));
        break;
    }
    case 4: {
        Nest x;
        gen(c, x);
        value_history(c, std::move(x));
        break;
    }
    default: { // a reference
        u32 x = c.pick(1000), y = x;
        bool bad = c.pick(2);
        int code = codes[c.pick(std::size(codes))];
        using V = zb::value_or_errc<u32 &>;
        V v = bad ? V{zb::errc(std::errc(code))} : V{&x};
        V w = std::move(v);
        REQ(w.success() == !bad, "interface", "moving changed the outcome");
        if (!bad) {
            REQ(&w.value() == &x && &std::as_const(w).value() == &x, "interface", "another object is referred to");
            w.or_throw() = y + 1;
            REQ(x == y + 1, "interface", "a copy was changed");
        } else {
            REQ(int(std::errc(w.error())) == code, "interface", "moving changed the error");
        }
        ev("value_or_errc of a reference: %d", bad ? code : 0);
    }
    }
    REQ(!t.broken, "lifetime", "value_or_errc %s", t.how);
    REQ(t.alive.empty(), "leak", "%zu values are still alive", t.alive.size());
}

template <class T>
void one_type(Ch & c, const char * name)
{
    T x{};
    gen(c, x, 1);
    u16 before = u16(c.pick(500));
    std::string after(c.pick(4), 'z');
    Probe q;
    gen(c, q);
    u32 n = c.range(1, 3);
    for (u32 i = 0; i < n; ++i) {
        c.mark();
        switch (c.pick(6)) {
        case 0:
        case 1:
            write_some(c, name, x);
            break;
        case 2:
            write_some(c, name, before, x, q, after);
            break;
        case 3:
        case 4:
            read_some(c, name, x);
            break;
        default:
            read_some(c, name, before, x, q, after);
        }
    }
}
void world_run(Ch & c)
{
    inj = {};
    model = {};
    switch (c.pick(36)) {
#define T(n, ...)                                                                                                                \
    case n:                                                                                                                      \
        return one_type<__VA_ARGS__>(c, #__VA_ARGS__);
        T(0, Probe)
        T(1, std::vector<Probe>)
        T(2, std::list<Probe>)
        T(3, std::array<Probe, 3>)
        T(4, CArrays)
        T(5, std::map<u16, Probe>)
        T(6, std::map<Probe, u16>)
        T(7, std::multimap<Probe, Probe>)
        T(8, std::set<Probe>)
        T(9, std::unordered_map<u16, Probe>)
        T(10, std::tuple<Probe, u8, Probe, std::string, Probe>)
        T(11, std::pair<Probe, Adl>)
        T(12, std::optional<Probe>)
        T(13, std::variant<u16, Probe, std::vector<Probe>, Adl>)
        T(14, std::optional<std::unique_ptr<Probe>>)
        T(15, Wrapped)
        T(16, Group)
        T(17, std::vector<Group>)
        T(18, Adl)
        T(19, std::vector<Adl>)
        T(20, Framed<Probe>)
        T(21, Framed<Framed<Group>>)
        T(22, std::vector<Framed<std::optional<Adl>>>)
        T(23, std::variant<Framed<Probe>, u8>)
        T(24, Branch)
        T(25, Nest)
        T(26, Last)
        T(27, std::list<Nest>)
        T(28, std::map<u8, Framed<std::map<u8, Probe>>>)
        T(29, std::deque<Probe>)
        T(30, std::unordered_set<Probe>)
#undef T
    case 31:
    case 32:
        return run_apply(c);
    case 33:
    case 34:
        return run_rpc(c);
    default:
        return run_values(c);
    }
}
} // namespace sim
