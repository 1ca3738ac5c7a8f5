// C08: failures inside the user's own code, and RPC dispatch under both kinds of failure.
#include "tracked.h"
#include "world_own.h"

namespace sim
{
const WorldInfo world_info = {
    "C08",
    "A run serializes, deserializes or dispatches (RPC) objects made of tracked elements while a chosen callback, constructor, copy, "
    "move, comparison, handler or allocation throws, up to three times, resetting in between, then once without a failure, and "
    "compares with the run without failures. Elements register their address while alive. Non-trivial: a failure fired; distinct by "
    "the recorded choices.",
    "(shape, operation, kind of failure, which one of how many)",
    "zpp::bits::in, zpp::bits::out, zpp::bits::rpc server and client, libc++ containers",
    "the heap (fails on demand, counts blocks), the elements' callbacks, the handlers"};

struct Cargo
{
    std::vector<Bomb> a;
    std::map<Bomb, Bomb> b;
    std::optional<Bomb> c;
    std::variant<u16, Bomb, std::vector<Bomb>> d;
    std::unique_ptr<Bomb> e = std::make_unique<Bomb>();
    std::array<Bomb, 2> f;
    std::tuple<Bomb, u8> g;
    std::set<Bomb> h;
    using serialize = zb::members<8>;
    void fields(auto && x)
    {
        x(a, b, c, d, e, f, g, h);
    }
};
struct Nest
{
    std::vector<std::optional<Bomb>> a;
    std::list<std::vector<TossedBomb>> b;
    std::shared_ptr<Cargo> c = std::make_shared<Cargo>();
    zb::optional_ptr<Bomb> d;
    std::unordered_map<u16, std::unique_ptr<Bomb>> e;
    using serialize = zb::members<5>;
    void fields(auto && x)
    {
        x(a, b, c, d, e);
    }
};
class ShyBomb // only the library may default construct it
{
public:
    friend zb::access;
    using serialize = zb::members<2>;
    static ShyBomb make()
    {
        return {};
    }
    void fields(auto && f)
    {
        f(b, s);
    }

private:
    ShyBomb() = default;
    Bomb b;
    std::string s;
};
struct Shy
{
    std::optional<ShyBomb> a;
    std::variant<u16, ShyBomb> b;
    std::variant<ShyBomb, u8> c{u8(0)}; // its alternative is known from the byte in front of it
    std::map<u8, std::optional<ShyBomb>> d;
    static constexpr zb::errc serialize(auto & ar, auto & self)
    {
        u8 which = u8(self.c.index());
        if (auto r = ar(self.a, self.b, which); zb::failure(r)) {
            return r;
        }
        zb::errc r;
        if (which == 0) {
            r = ar(zb::known_id<std::byte{0}>(self.c));
        } else {
            r = ar(zb::known_id<std::byte{1}>(self.c));
        }
        if (zb::failure(r)) {
            return r;
        }
        return ar(self.d);
    }
    using custom_ref = void;
    static void each(auto & e, const Shy & x, auto && num)
    {
        num(u8(bool(x.a)));
        if (x.a) {
            e.put(*x.a);
        }
        num(u8(x.b.index()));
        std::visit([&](auto & y) { e.put(y); }, x.b);
        num(u8(x.c.index()));
        std::visit([&](auto & y) { e.put(y); }, x.c);
    }
    static void enc(auto & e, const Shy & x)
    {
        each(e, x, [&](u8 n) { e.num(n); });
        e.put(x.d);
    }
    static void canon(auto & k, const Shy & x)
    {
        each(k, x, [&](u8 n) { k.put(n); });
        k.put(x.d);
    }
    static ShyBomb from(auto & d)
    {
        ShyBomb x = ShyBomb::make();
        d.get(x);
        return x;
    }
    static void dec(auto & d, Shy & x)
    {
        u8 n{}, v{};
        u16 w{};
        d.num(n);
        x.a.reset();
        if (n) {
            x.a = from(d);
        }
        d.num(n);
        if (n == 0) {
            d.get(w);
            x.b = w;
        } else {
            x.b = from(d);
        }
        d.num(n);
        if (n == 0) {
            x.c = from(d);
        } else {
            d.get(v);
            x.c = v;
        }
        auto k = d.sizep(d.w.size);
        x.d.clear();
        for (std::size_t i = 0; i < k && !d.code; ++i) {
            u8 key{};
            d.get(key);
            d.num(n);
            std::optional<ShyBomb> y;
            if (n) {
                y = from(d);
            }
            x.d.insert({key, std::move(y)});
        }
    }
    static ShyBomb some(Ch & c, int depth)
    {
        ShyBomb x = ShyBomb::make();
        sim::gen(c, x, depth);
        return x;
    }
    static void gen(Ch & c, Shy & x, int depth)
    {
        x.a.reset();
        if (c.pick(2)) {
            x.a = some(c, depth);
        }
        if (c.pick(2)) {
            x.b = some(c, depth);
        } else {
            x.b = u16(c.integer(16));
        }
        if (c.pick(2)) {
            x.c = some(c, depth);
        } else {
            x.c = u8(c.integer(8));
        }
        x.d.clear();
        for (u32 k = c.pick(3); k--;) {
            x.d.insert({u8(c.integer(8)), c.pick(2) ? std::optional<ShyBomb>(some(c, depth)) : std::nullopt});
        }
    }
};
// ---- the service --------------------------------------------------------------------------
struct Service
{
    u64 invoked = 0;
    std::vector<Bomb> swap_all(std::vector<Bomb> x, Bomb y)
    {
        ++invoked;
        Ticks::get().tick(Ticks::handler);
        std::reverse(x.begin(), x.end());
        x.push_back(std::move(y));
        return x;
    }
    std::map<u16, std::string> index(const std::vector<std::string> & x, u16 from)
    {
        ++invoked;
        Ticks::get().tick(Ticks::handler);
        std::map<u16, std::string> r;
        for (auto & s : x) {
            r.emplace(from++, s);
        }
        return r;
    }
    zb::errc raw(auto & in, auto & out)
    {
        ++invoked;
        Ticks::get().tick(Ticks::handler);
        std::string s;
        Bomb b;
        if (auto r = in(s, b); zb::failure(r)) {
            return r;
        }
        Ticks::get().tick(Ticks::handler);
        return out(b, s);
    }
    std::string plain()
    {
        ++invoked;
        Ticks::get().tick(Ticks::handler);
        return "plain answer of some length to allocate";
    }
};
using In0 = zb::in<std::vector<std::byte>>;
using Out0 = zb::out<std::vector<std::byte>>;
using Rpc = zb::rpc<zb::bind<&Service::swap_all, 11>, zb::bind<&Service::index, 12>,
                    zb::bind_opaque<&Service::raw<In0, Out0>, 13>, zb::bind<&Service::plain, 14>>;

struct Fault
{
    bool alloc = false;
    u64 k = 0, run = 1;
};
static void arm(const Fault & f)
{
    auto & t = Ticks::get();
    t.failed = 0;
    heap.failed = 0;
    if (f.alloc) {
        heap.fail_at = heap.allocs + f.k;
        heap.fail_run = f.run;
    } else {
        t.fail_at = t.n + f.k;
    }
}
static u64 disarm()
{
    auto & t = Ticks::get();
    t.fail_at = 0;
    heap.fail_at = 0;
    return t.failed + heap.failed;
}
static Fault draw(Ch & c, u64 ticks, u64 allocs)
{
    Fault f;
    f.alloc = allocs && (!ticks || c.pick(2));
    f.k = 1 + c.pick(u32(f.alloc ? allocs : ticks));
    f.run = f.alloc && c.chance(1, 5) ? 1u << 20 : 1;
    return f;
}
static void whole(const char * what)
{
    auto & t = Ticks::get();
    REQ(!t.broken, "lifetime", "%s: %s", what, t.how);
}
static void all_gone(const char * what)
{
    auto & t = Ticks::get();
    whole(what);
    REQ(t.alive.empty(), "undestroyed", "%s: %zu elements were never destroyed", what, t.alive.size());
    REQ(heap.live == 0, "leak", "%s: %lld blocks leaked", what, (long long) heap.live);
}
static void expect_fault(const char * what, const Fault & f, const Res & r, u64 fired)
{
    fault(f.alloc ? "allocation failure" : "exception from a callback", fired);
    nontrivial();
    REQ(r.exc == (f.alloc ? Res::bad_alloc : Res::sim_fault), "swallowed", "%s: the failure became %s", what, res_name(r).c_str());
}

template <class T, class... O>
void roundtrip(Ch & c, const char * name, Wire w, O... opts)
{
    Ticks::get().alive.clear();
    Ticks::get().broken = false;
    disarm();
    Bytes want_bytes, want_canon;
    std::size_t p0 = c.pick(4);
    Window win;
    {
        T v;
        gen(c, v, 1);
        Enc e(w);
        e.put(v);
        if (e.overflow) {
            return;
        }
        want_bytes.assign(p0, u8(0x77));
        want_bytes.insert(want_bytes.end(), e.b.begin(), e.b.end());
        Bytes before = canon_of(v);
        T model;
        Dec d(e.b.data(), e.b.size(), w);
        d.get(model);
        want_canon = canon_of(model);
        if (d.code) {
            return;
        }

        if (c.pick(3) == 0) { // write
            std::vector<std::byte> buf(p0, std::byte(0x77));
            zb::out<std::vector<std::byte>, O...> out{buf, std::move(opts)...};
            out.position() = p0;
            u64 t0 = Ticks::get().n, a0 = heap.allocs;
            Res r = guarded([&]() -> zb::errc { return out(v); });
            u64 ticks = Ticks::get().n - t0, allocs = heap.allocs - a0;
            REQ(r.ok() && buf.size() == want_bytes.size(), "baseline", "%s: %s", name, res_name(r).c_str());
            buf.resize(p0);
            buf.shrink_to_fit();
            u32 tries = c.range(1, 3);
            for (u32 k = 0; k < tries && ticks + allocs; ++k) {
                c.mark();
                out.reset(p0);
                Fault f = draw(c, ticks, allocs);
                arm(f);
                r = guarded([&]() -> zb::errc { return out(v); });
                u64 fired = disarm();
                ev("write %s: %s %llu of %llu -> %s at %zu of %zu", name, f.alloc ? "allocation" : "callback", (unsigned long long) f.k,
                   (unsigned long long) (f.alloc ? allocs : ticks), res_name(r).c_str(), out.position(), buf.size());
                state(hmix(hash_bytes(name, 4), hmix(f.alloc, f.k * 1000 + std::min<u64>(f.alloc ? allocs : ticks, 999))));
                whole(name);
                if (fired) {
                    expect_fault(name, f, r, fired);
                }
                REQ(canon_of(v) == before, "object", "%s: the object being written changed", name);
                REQ(buf.size() >= p0 && !std::memcmp(buf.data(), want_bytes.data(), p0), "earlier-bytes", "%s: bytes before the position",
                    name);
                if (buf.capacity() && c.chance(1, 2)) {
                    buf.resize(p0);
                    buf.shrink_to_fit();
                }
            }
            out.reset(p0);
            r = guarded([&]() -> zb::errc { return out(v); });
            REQ(r.ok(), "retry", "%s: the retry gives %s", name, res_name(r).c_str());
            REQ(buf.size() == want_bytes.size() && !std::memcmp(buf.data(), want_bytes.data(), buf.size()), "bytes",
                "%s: the retry wrote %zu other bytes", name, buf.size());
        } else {
            auto bb = reinterpret_cast<const std::byte *>(want_bytes.data());
            std::vector<std::byte> buf(bb, bb + want_bytes.size());
            zb::in<std::vector<std::byte>, O...> in{buf, std::move(opts)...};
            in.position() = p0;
            u64 ticks, allocs;
            {
                T x;
                u64 t0 = Ticks::get().n, a0 = heap.allocs;
                Res r = guarded([&]() -> zb::errc { return in(x); });
                ticks = Ticks::get().n - t0;
                allocs = heap.allocs - a0;
                REQ(r.ok() && in.position() == buf.size(), "baseline", "%s: %s", name, res_name(r).c_str());
            }
            T x;
            if (c.chance(1, 3)) {
                gen(c, x, 1); // used before
            }
            u32 tries = c.range(1, 3);
            for (u32 k = 0; k < tries && ticks + allocs; ++k) {
                c.mark();
                in.reset(p0);
                Fault f = draw(c, ticks, allocs);
                arm(f);
                Res r = guarded([&]() -> zb::errc { return in(x); });
                u64 fired = disarm();
                ev("read %s: %s %llu of %llu -> %s at %zu of %zu", name, f.alloc ? "allocation" : "callback", (unsigned long long) f.k,
                   (unsigned long long) (f.alloc ? allocs : ticks), res_name(r).c_str(), in.position(), buf.size());
                state(hmix(hash_bytes(name, 4), hmix(f.alloc + 2, f.k * 1000 + std::min<u64>(f.alloc ? allocs : ticks, 999))));
                whole(name);
                REQ(in.position() <= buf.size(), "position", "%s: position outside", name);
                if (fired) {
                    expect_fault(name, f, r, fired);
                } else {
                    REQ(r.ok() && canon_of(x) == want_canon, "value", "%s: another value", name);
                }
            }
            if (c.chance(1, 3)) { // part of it has arrived
                std::vector<std::byte> some(buf.begin(), buf.begin() + long(p0 + c.pick(u32(buf.size() - p0 + 1))));
                zb::in<std::vector<std::byte>, O...> torn{some, O(opts)...};
                torn.position() = p0;
                Res r = guarded([&]() -> zb::errc { return torn(x); });
                ev("read %s torn at %zu of %zu -> %s", name, some.size(), buf.size(), res_name(r).c_str());
                whole(name);
                REQ(r.exc == Res::none && r.ok() == (some.size() == buf.size()), "torn", "%s: %zu of %zu bytes: %s", name, some.size(),
                    buf.size(), res_name(r).c_str());
                fault("torn input");
            }
            in.reset(p0);
            Res r = guarded([&]() -> zb::errc { return in(x); });
            REQ(r.ok() && in.position() == buf.size(), "retry", "%s: the retry gives %s", name, res_name(r).c_str());
            REQ(canon_of(x) == want_canon, "value", "%s: the retry gives another value", name);
        }
    }
    all_gone(name);
}

static void dispatch(Ch & c)
{
    Ticks::get().alive.clear();
    Ticks::get().broken = false;
    disarm();
    Window win;
    {
        std::vector<std::byte> reqs, resp;
        Service svc;
        {
            Out0 out{reqs};
            In0 in{resp};
            Rpc::client client{in, out};
            u32 n = c.range(1, 3);
            zb::errc r{};
            std::vector<Bomb> vb;
            Bomb b;
            std::vector<std::string> vs;
            std::string s;
            for (u32 k = 0; k < n; ++k) {
                switch (c.pick(4)) {
                case 0:
                    gen(c, vb, 1);
                    gen(c, b, 1);
                    r = client.request<11>(vb, b);
                    break;
                case 1: {
                    gen(c, vs, 1);
                    u16 from = u16(c.integer(16));
                    r = client.request<12>(vs, from);
                    break;
                }
                case 2:
                    gen(c, s, 1);
                    gen(c, b, 1);
                    r = client.request<13>(s, b);
                    break;
                default:
                    r = client.request<14>();
                }
                REQ(!zb::failure(r), "baseline", "request failed");
            }
        }
        In0 in{reqs};
        Out0 out{resp};
        Rpc::server server{in, out, svc};
        while (in.position() < reqs.size()) {
            std::size_t p0 = in.position(), q0 = resp.size();
            // the run without failures
            u64 t0 = Ticks::get().n, a0 = heap.allocs, i0 = svc.invoked;
            Res r = guarded([&]() -> zb::errc { return server.serve(); });
            u64 ticks = Ticks::get().n - t0, allocs = heap.allocs - a0;
            REQ(r.ok() && svc.invoked == i0 + 1, "baseline", "serve: %s", res_name(r).c_str());
            std::size_t p1 = in.position();
            Bytes want(reinterpret_cast<u8 *>(resp.data()), reinterpret_cast<u8 *>(resp.data()) + resp.size());
            u32 tries = c.range(1, 3);
            for (u32 k = 0; k < tries; ++k) {
                c.mark();
                resp.resize(q0);
                resp.shrink_to_fit();
                in.reset(p0);
                out.reset(q0);
                Fault f = draw(c, ticks, allocs);
                i0 = svc.invoked;
                arm(f);
                r = guarded([&]() -> zb::errc { return server.serve(); });
                u64 fired = disarm();
                ev("serve: %s %llu of %llu -> %s", f.alloc ? "allocation" : "callback", (unsigned long long) f.k,
                   (unsigned long long) (f.alloc ? allocs : ticks), res_name(r).c_str());
                state(hmix(99, hmix(f.alloc, f.k * 1000 + std::min<u64>(f.alloc ? allocs : ticks, 999))));
                whole("serve");
                if (fired) {
                    expect_fault("serve", f, r, fired);
                    REQ(svc.invoked <= i0 + 1, "invoked-twice", "serve: the handler ran %llu times", (unsigned long long) (svc.invoked - i0));
                }
                REQ(resp.size() >= q0 && !std::memcmp(resp.data(), want.data(), q0), "earlier-bytes", "serve: earlier responses changed");
            }
            if (c.pick(2)) {
                resp.resize(q0);
            }
            in.reset(p0);
            out.reset(q0);
            i0 = svc.invoked;
            r = guarded([&]() -> zb::errc { return server.serve(); });
            REQ(r.ok() && in.position() == p1 && svc.invoked == i0 + 1, "retry", "serve: the retry gives %s", res_name(r).c_str());
            REQ(resp.size() == want.size() && !std::memcmp(resp.data(), want.data(), want.size()), "response",
                "serve: the retry answered with %zu bytes instead of %zu", resp.size(), want.size());
        }
    }
    all_gone("serve");
}

void world_run(Ch & c)
{
    switch (c.pick(9)) {
    case 0:
        return roundtrip<std::vector<Bomb>>(c, "vector", {});
    case 1:
        return roundtrip<Cargo>(c, "cargo", {});
    case 2:
        return roundtrip<Cargo>(c, "cargo big", {true, 2}, zb::endian::big{}, zb::size2b{});
    case 3:
        return roundtrip<Nest>(c, "nest", {});
    case 4:
        return roundtrip<Nest>(c, "nest varint", {false, SZ_VARINT}, zb::size_varint{});
    case 5:
        return roundtrip<std::vector<std::variant<Bomb, std::list<TossedBomb>>>>(c, "variants", {});
    case 6:
        return roundtrip<Shy>(c, "shy", {});
    case 7:
        return roundtrip<std::vector<Shy>>(c, "shy vector", {true, SZ_VARINT}, zb::endian::big{}, zb::size_varint{});
    default:
        return dispatch(c);
    }
}
} // namespace sim
