// C18, second half: pairs of archives made by the helper functions, and callbacks that move the cursor.
#include "world_own.h"

namespace sim
{
const WorldInfo world_info = {
    "C18",
    "A run makes a pair of archives with one of the helper functions (in_out over vectors, strings, arrays and spans, data_in_out, "
    "data_in and data_out, input and output) and random options, then performs 2..40 writes, reads, arithmetic on position(), resets and "
    "changes of the buffer in random interleaving, with types whose serialize function moves the cursor itself (length patched in "
    "afterwards, alignment, look ahead, index at the end) and with such a function failing half way. Everything is compared with a byte "
    "tape and two cursors. Non-trivial: both ends moved; distinct by the recorded choices.",
    "(helper, type, result, cursors' relation, at the start / inside / at the end)",
    "zpp::bits::in_out, data_in_out, data_in, data_out, input, output", "the buffer, failing callbacks"};

static u32 fail_in = 0; // which callback fails
static bool fired = false;
static zb::errc step()
{
    if (fail_in && !--fail_in) {
        fired = true;
        return std::errc::operation_canceled;
    }
    return {};
}

struct Patched // a record whose length is written once it is known
{
    std::string body;
    std::vector<u16> more;
    using custom_ref = void;
    static constexpr zb::errc serialize(auto & ar, auto & self)
    {
        using A = std::remove_cvref_t<decltype(ar)>;
        u32 length = 0;
        std::size_t at = ar.position();
        if (auto r = ar(length); zb::failure(r)) {
            return r;
        }
        if (auto r = step(); zb::failure(r)) {
            return r;
        }
        std::size_t start = ar.position();
        if constexpr (A::kind() == zb::kind::in) {
            if (length > ar.remaining_data().size()) {
                return std::errc::result_out_of_range;
            }
        }
        if (auto r = ar(self.body, self.more); zb::failure(r)) {
            return r;
        }
        std::size_t end = ar.position();
        if constexpr (A::kind() == zb::kind::in) {
            return end - start == length ? std::errc{} : std::errc::bad_message;
        } else {
            ar.position() = at;
            auto r = ar(u32(end - start));
            ar.position() = end;
            return r;
        }
    }
    static void enc(auto & e, const Patched & x)
    {
        std::remove_cvref_t<decltype(e)> f(e.w);
        f.put(x.body);
        f.put(x.more);
        e.num(u32(f.b.size()));
        e.raw(f.b.data(), f.b.size());
    }
    static void dec(auto & d, Patched & x)
    {
        u32 length{};
        d.num(length);
        if (!d.code && length > d.left()) {
            d.code = RANGE;
        }
        if (d.code) {
            return;
        }
        std::size_t start = d.pos;
        d.get(x.body);
        if (!d.code) {
            d.get(x.more);
        }
        if (!d.code && d.pos - start != length) {
            d.code = BADMSG;
        }
    }
    static void canon(auto & c, const Patched & x)
    {
        c.put(x.body);
        c.put(x.more);
    }
    static void gen(Ch & c, Patched & x, int)
    {
        sim::gen(c, x.body);
        sim::gen(c, x.more);
    }
};
struct Peek // looks at what follows and goes back
{
    u8 kind{};
    u32 wide{};
    u16 narrow{};
    using custom_ref = void;
    static constexpr zb::errc serialize(auto & ar, auto & self)
    {
        using A = std::remove_cvref_t<decltype(ar)>;
        if constexpr (A::kind() == zb::kind::in) {
            if (ar.remaining_data().empty()) {
                return std::errc::result_out_of_range;
            }
            auto next = u8(ar.remaining_data()[0]);
            std::size_t p = ar.position();
            if (auto r = ar(self.kind); zb::failure(r)) {
                return r;
            }
            if (self.kind != next) {
                return std::errc::state_not_recoverable;
            }
            ar.reset(p);
            ar.position() += 1;
        } else if (auto r = ar(self.kind); zb::failure(r)) {
            return r;
        }
        if (auto r = step(); zb::failure(r)) {
            return r;
        }
        return self.kind & 1 ? ar(self.wide) : ar(self.narrow);
    }
    static void enc(auto & e, const Peek & x)
    {
        e.num(x.kind);
        x.kind & 1 ? e.num(x.wide) : e.num(x.narrow);
    }
    static void dec(auto & d, Peek & x)
    {
        d.num(x.kind);
        if (!d.code) {
            x.kind & 1 ? d.num(x.wide) : d.num(x.narrow);
        }
    }
    static void canon(auto & c, const Peek & x)
    {
        c.put(x.kind);
        x.kind & 1 ? c.put(x.wide) : c.put(x.narrow);
    }
    static void gen(Ch & c, Peek & x, int)
    {
        sim::gen(c, x.kind);
        x.kind & 1 ? sim::gen(c, x.wide) : sim::gen(c, x.narrow);
    }
};
struct Plain
{
    u8 a{};
    u32 b{};
    void fields(auto && f)
    {
        f(a, b);
    }
};
using Many = std::vector<Patched>;
using Names = std::map<u16, std::string>;

template <class E>
std::span<const u8> sp(std::span<E> s)
{
    return {reinterpret_cast<const u8 *>(s.data()), s.size()};
}

struct Opt
{
    Wire wire;
    bool append = false;
    bool nofit = false;
    std::size_t limit = unlimited;
    std::size_t start = unlimited; // where the output starts
};

template <bool Fixed, class D, class O, class I>
struct Pair
{
    Ch & c;
    const char * name;
    D & data;
    O & out;
    I & in;
    Opt opt;
    Bytes tape;
    std::size_t op = 0, ip = 0;
    bool wrote = false, read_ = false;
    struct Spot
    {
        std::size_t at;
        u32 it;
    };
    mvec<Spot> spots;

    const u8 * base() const
    {
        return reinterpret_cast<const u8 *>(std::data(data));
    }
    void check()
    {
        REQ(std::size(data) == tape.size(), "size", "%s: %zu bytes, the model has %zu", name, std::size(data), tape.size());
        REQ(tape.empty() || !std::memcmp(base(), tape.data(), tape.size()), "bytes", "%s: the content differs from the model", name);
        REQ(std::as_const(out).position() == op && out.position() == op, "cursor", "%s: the output stands at %zu, the model at %zu", name,
            out.position(), op);
        REQ(std::as_const(in).position() == ip && in.position() == ip, "cursor", "%s: the input stands at %zu, the model at %zu", name,
            in.position(), ip);
        REQ(out.data().size() == tape.size() && in.data().size() == tape.size(), "data", "%s: data() has %zu and %zu bytes", name,
            out.data().size(), in.data().size());
        if (tape.empty()) {
            return;
        }
        auto a = sp(out.processed_data()), b = sp(out.remaining_data()), d = sp(in.processed_data()), e = sp(in.remaining_data());
        REQ(a.data() == base() && a.size() == op && b.data() == base() + op && b.size() == tape.size() - op, "views",
            "%s: processed / remaining data of the output at %zu of %zu: %zu, %zu", name, op, tape.size(), a.size(), b.size());
        REQ(d.data() == base() && d.size() == ip && e.data() == base() + ip && e.size() == tape.size() - ip, "views",
            "%s: processed / remaining data of the input at %zu of %zu: %zu, %zu", name, ip, tape.size(), d.size(), e.size());
    }
    template <class T>
    void write(u32 it)
    {
        T v{};
        gen(c, v);
        Enc e(opt.wire);
        e.put(v);
        if (tape.size() > 4000) {
            return;
        }
        bool calls = it >= 5;
        fail_in = calls && c.chance(1, 5) ? c.range(1, 3) : 0;
        fired = false;
        Res r = guarded([&]() -> zb::errc {
            if constexpr (requires { v.begin(); }) {
                return out(v);
            } else if (c.pick(2)) {
                return out(v);
            } else {
                return out(std::as_const(v));
            }
        });
        std::size_t pos = out.position(), end = op + e.b.size(), s0 = tape.size(), s1 = std::size(data);
        ev("writes %u: %zu bytes at %zu of %zu -> %s, %zu of %zu", it, e.b.size(), op, s0, res_name(r).c_str(), pos, s1);
        note(it, r);
        REQ(s1 >= s0 && pos <= s1, "position", "%s: position %zu of %zu, before %zu of %zu", name, pos, s1, op, s0);
        if (!r.ok()) {
            if (fired) {
                fault("callback failed in a write");
                REQ(!r.exc && r.code == int(std::errc::operation_canceled), "error", "%s: the callback's error became %s", name,
                    res_name(r).c_str());
            } else if (Fixed) {
                fault("no space");
                REQ(!r.exc && r.code == RANGE && end + 10 > s0, "refused", "%s: %s for %zu bytes at %zu of %zu", name, res_name(r).c_str(),
                    e.b.size(), op, s0);
            } else {
                fault("limit met");
                REQ(!r.exc && r.code == NOSPACE && opt.limit != unlimited, "refused", "%s: %s", name, res_name(r).c_str());
            }
            REQ(!op || !std::memcmp(base(), tape.data(), op), "earlier-bytes", "%s: a failed write changed earlier bytes", name);
            REQ(pos >= op, "position", "%s: a failed write went back from %zu to %zu", name, op, pos);
            op = pos;
            tape.assign(base(), base() + s1);
            return;
        }
        REQ(!fired, "swallowed", "%s: the callback's error went unreported", name);
        if (opt.nofit) {
            REQ(s1 >= end, "size", "%s: ends at %zu before %zu", name, s1, end);
            tape.insert(tape.end(), base() + s0, base() + s1);
        } else if (end > s0) {
            tape.resize(end);
        }
        std::copy(e.b.begin(), e.b.end(), tape.begin() + long(op));
        spots.push_back({op, it});
        op = end;
        wrote = true;
    }
    template <class T>
    void read(u32 it)
    {
        T got{}, want{};
        Dec d(tape.data() + ip, tape.size() - ip, opt.wire);
        d.get(want);
        fail_in = it >= 5 && c.chance(1, 5) ? c.range(1, 3) : 0;
        fired = false;
        Res r;
        {
            Window w;
            r = guarded([&]() -> zb::errc { return in(got); });
        }
        std::size_t pos = in.position();
        ev("reads %u at %zu of %zu -> %s, %zu; model %s %zu", it, ip, tape.size(), res_name(r).c_str(), pos, code_name(d.code), ip + d.pos);
        note(100 + it, r);
        REQ(pos >= ip && pos <= tape.size(), "position", "%s: read from %zu stands at %zu of %zu", name, ip, pos, tape.size());
        bool unsure = d.mismatch || d.huge || d.over_limit || d.bad_bool;
        if (fired) {
            fault("callback failed in a read");
            REQ(!r.exc && r.code == int(std::errc::operation_canceled), "error", "%s: the callback's error became %s", name, res_name(r).c_str());
        } else if (!unsure) {
            REQ(!r.exc && r.code == d.code, r.ok() ? "accepted" : "code", "%s: %s, the model says %s", name, res_name(r).c_str(),
                code_name(d.code));
            if (r.ok()) {
                REQ(pos == ip + d.pos, "advance", "%s: moved by %zu, the encoding has %zu bytes", name, pos - ip, d.pos);
                REQ(canon_of(got) == canon_of(want), "value", "%s: another value than the one at the position", name);
                probe("read back");
                read_ = true;
            }
        }
        ip = pos;
    }
    void note(u32 kind, const Res & r)
    {
        state(hmix(hmix(hash_bytes(name, std::strlen(name)), kind),
                   hmix(u64(r.code), u64((op < ip) * 9 + (op == ip) * 18 + (op == 0) + (op == tape.size()) * 2 + (ip == 0) * 4))));
    }
#define EACH(f, k)                                                                                                               \
    switch (k) {                                                                                                                 \
    case 0:                                                                                                                      \
        f<u32>(0);                                                                                                               \
        break;                                                                                                                   \
    case 1:                                                                                                                      \
        f<std::string>(1);                                                                                                       \
        break;                                                                                                                   \
    case 2:                                                                                                                      \
        f<std::vector<u16>>(2);                                                                                                  \
        break;                                                                                                                   \
    case 3:                                                                                                                      \
        f<Plain>(3);                                                                                                             \
        break;                                                                                                                   \
    case 4:                                                                                                                      \
        f<Names>(4);                                                                                                             \
        break;                                                                                                                   \
    case 5:                                                                                                                      \
        f<Patched>(5);                                                                                                           \
        break;                                                                                                                   \
    case 6:                                                                                                                      \
        f<Peek>(6);                                                                                                              \
        break;                                                                                                                   \
    case 7:                                                                                                                      \
        f<Many>(7);                                                                                                              \
        break;                                                                                                                   \
    default:                                                                                                                     \
        f<std::optional<Patched>>(8);                                                                                            \
    }
    void run()
    {
        tape.assign(base(), base() + std::size(data));
        op = opt.start != unlimited ? opt.start : opt.append ? tape.size() : 0;
        ev("%s, %zu bytes", name, tape.size());
        check();
        u32 n = c.range(2, 40);
        for (u32 k = 0; k < n; ++k) {
            c.mark();
            switch (c.pick(10)) {
            case 0:
            case 1:
            case 2:
            case 3: {
                u32 it = c.pick(9);
                EACH(write, it)
                break;
            }
            case 4:
            case 5:
            case 6: {
                u32 it = c.pick(9);
                if (!spots.empty() && c.pick(4)) {
                    Spot s = spots[c.pick(u32(spots.size()))];
                    if (s.at <= tape.size()) {
                        it = s.it;
                        ip = s.at;
                        in.reset(ip);
                    }
                }
                EACH(read, it)
                break;
            }
            case 7: {
                std::size_t to = c.pick(u32(tape.size() + 1));
                switch (c.pick(4)) {
                case 0:
                    in.reset(to);
                    break;
                case 1:
                    in.position() += to - ip;
                    break;
                case 2:
                    in.position() = to;
                    break;
                default:
                    to = 0;
                    in.reset();
                }
                ip = to;
                ev("input to %zu", to);
                break;
            }
            case 8: {
                std::size_t to = c.pick(u32(tape.size() + 1));
                switch (c.pick(4)) {
                case 0:
                    out.reset(to);
                    break;
                case 1:
                    out.position() -= op - to;
                    break;
                case 2:
                    out.position() = to;
                    break;
                default:
                    to = 0;
                    out.reset();
                }
                op = to;
                ev("output to %zu", to);
                break;
            }
            default:
                if constexpr (!Fixed) {
                    if (c.pick(2)) {
                        auto more = data;
                        more.resize(c.range(1, 9));
                        for (auto & x : more) {
                            auto v = u8(c.integer(8));
                            std::memcpy(&x, &v, 1);
                        }
                        data.insert(data.end(), more.begin(), more.end());
                        tape.assign(base(), base() + std::size(data));
                        ev("%zu bytes arrive", more.size());
                    } else {
                        std::size_t m = std::max(op, ip);
                        m += c.pick(u32(tape.size() - m + 1));
                        data.resize(m);
                        data.shrink_to_fit();
                        tape.resize(m);
                        ev("cut to %zu", m);
                    }
                }
            }
            check();
        }
        if (wrote && read_) {
            nontrivial();
        }
    }
};
template <bool Fixed>
void pair_run(Ch & c, const char * name, auto & data, auto & out, auto & in, Opt opt)
{
    Pair<Fixed, std::remove_reference_t<decltype(data)>, std::remove_reference_t<decltype(out)>, std::remove_reference_t<decltype(in)>> p{
        c, name, data, out, in, opt, {}, 0, 0, false, false, {}};
    p.run();
}

// a buffer an option resizes: its leading bytes stay, the rest is zero
template <class B>
struct Resized
{
    std::vector<u8> before;
    std::size_t n, keep;
    Resized(Ch & c, auto & data) : n(c.pick(3) ? c.pick(u32(data.size() + 2)) : c.pick(60)), keep(std::min(n, data.size()))
    {
        for (auto & x : data) {
            auto v = u8(c.integer(8));
            std::memcpy(&x, &v, 1);
            before.push_back(v);
        }
    }
    void kept(auto & data)
    {
        auto p = reinterpret_cast<const u8 *>(data.data());
        REQ(data.size() == n, "resize", "resize{%zu} leaves %zu bytes", n, data.size());
        for (std::size_t i = 0; i < n; ++i) {
            REQ(p[i] == (i < keep ? before[i] : 0), "resize", "resize{%zu} of %zu bytes: byte %zu is %02x", n, before.size(), i, p[i]);
        }
    }
    void run(Ch & c, const char * name, auto & out, auto & data, const Wire & wire, std::size_t start)
    {
        kept(data);
        Opt o{wire};
        o.start = start;
        if (wire.big) {
            zb::in in(data, zb::endian::big{}, zb::size2b{});
            pair_run<false>(c, name, data, out, in, o);
        } else if (wire.size == SZ_VARINT) {
            zb::in in(data, zb::size_varint{});
            pair_run<false>(c, name, data, out, in, o);
        } else {
            zb::in in(data);
            pair_run<false>(c, name, data, out, in, o);
        }
    }
};

void world_run(Ch & c)
{
    const Wire plain{}, big2{true, 2}, var{false, SZ_VARINT};
    std::size_t n0 = c.pick(3) ? c.pick(40) : 0;
    std::vector<std::byte> bytes(n0, std::byte(7));
    std::vector<unsigned char> ubytes(n0, 7);
    std::string text(n0, 'x');
    u8 zone[400] = {};
    switch (c.pick(22)) {
    case 0: {
        auto [data, in, out] = zb::data_in_out();
        return pair_run<false>(c, "data_in_out", data, out, in, {plain});
    }
    case 1: {
        auto [data, in, out] = zb::data_in_out(zb::size2b{}, zb::endian::big{});
        return pair_run<false>(c, "data_in_out big size2b", data, out, in, {big2});
    }
    case 2: {
        auto [data, in, out] = zb::data_in_out<unsigned char>(zb::size_varint{}, zb::no_fit_size{});
        return pair_run<false>(c, "data_in_out varint no_fit", data, out, in, {var, false, true});
    }
    case 3: {
        auto [data, in, out] = zb::data_in_out(zb::alloc_limit<200>{});
        return pair_run<false>(c, "data_in_out limit", data, out, in, {Wire{false, 4, 200}, false, false, 200});
    }
    case 4: {
        auto [in, out] = zb::in_out(bytes);
        return pair_run<false>(c, "in_out vector", bytes, out, in, {plain});
    }
    case 5: {
        auto [in, out] = zb::in_out(bytes, zb::append{}, zb::endian::big{}, zb::size2b{});
        return pair_run<false>(c, "in_out append big", bytes, out, in, {big2, true});
    }
    case 6: {
        auto [in, out] = zb::in_out(text, zb::size_varint{});
        return pair_run<false>(c, "in_out string", text, out, in, {var});
    }
    case 7: {
        auto [in, out] = zb::in_out(ubytes, zb::enlarger<2>{}, zb::reserve{100});
        return pair_run<false>(c, "in_out enlarger", ubytes, out, in, {plain});
    }
    case 8: {
        std::array<std::byte, 100> a{};
        auto [in, out] = zb::in_out(a);
        return pair_run<true>(c, "in_out array", a, out, in, {plain});
    }
    case 9: {
        unsigned char a[333]{};
        auto [in, out] = zb::in_out(a, zb::endian::network{}, zb::size2b{});
        return pair_run<true>(c, "in_out C array", a, out, in, {big2});
    }
    case 10: {
        u32 n = c.pick(300);
        std::span<u8> s(zone, n);
        auto [in, out] = zb::in_out(s, zb::size_varint{});
        return pair_run<true>(c, "in_out span", s, out, in, {var});
    }
    case 11: { // two helpers, one buffer
        auto in = zb::input(bytes, zb::endian::big{}, zb::size2b{});
        auto out = zb::output(bytes, zb::endian::big{}, zb::size2b{});
        return pair_run<false>(c, "input and output", bytes, out, in, {big2});
    }
    case 12: {
        u32 n = c.pick(300);
        std::span<u8> s(zone, n);
        auto in = zb::input(std::span<u8>(zone, n));
        auto out = zb::output(std::span<u8>(zone, n));
        return pair_run<true>(c, "input and output on spans", s, out, in, {plain});
    }
    case 13: {
        auto [data, out] = zb::data_out(zb::size_varint{});
        zb::in in(data, zb::size_varint{});
        return pair_run<false>(c, "data_out", data, out, in, {var});
    }
    case 14: {
        auto [data, in] = zb::data_in<unsigned char>(zb::endian::big{}, zb::size2b{});
        data.assign(n0, 9);
        zb::out out(data, zb::endian::big{}, zb::size2b{}, zb::exact_enlarger{});
        return pair_run<false>(c, "data_in", data, out, in, {big2});
    }
    case 15: { // options take effect from left to right
        Resized<std::byte> z(c, bytes);
        zb::out out(bytes, zb::append{}, zb::resize{z.n});
        return z.run(c, "append resize", out, bytes, plain, std::min(n0, z.n));
    }
    case 16: {
        Resized<std::byte> z(c, bytes);
        auto out = zb::output(bytes, zb::resize{z.n}, zb::append{}, zb::size_varint{});
        return z.run(c, "resize append", out, bytes, var, z.n);
    }
    case 17: {
        Resized<unsigned char> z(c, ubytes);
        zb::out out(ubytes, zb::endian::big{}, zb::resize{z.n}, zb::size2b{}, zb::reserve{z.n + 7});
        REQ(ubytes.capacity() >= z.n + 7, "reserve", "capacity %zu after reserve{%zu}", ubytes.capacity(), z.n + 7);
        return z.run(c, "resize reserve", out, ubytes, big2, 0);
    }
    case 18: {
        std::string before = text;
        std::size_t n = c.pick(60);
        zb::out out(text, zb::append{}, zb::reserve{n}, zb::append{});
        REQ(text == before && text.capacity() >= n, "reserve", "reserve{%zu} gives capacity %zu, %zu bytes of %zu", n, text.capacity(),
            text.size(), before.size());
        zb::in in(text);
        return pair_run<false>(c, "append reserve", text, out, in, {plain, true});
    }
    case 19: {
        Resized<char> z(c, text);
        zb::out out(text, zb::append{}, zb::resize{z.n}, zb::append{}, zb::size_varint{}, zb::no_fit_size{});
        zb::in in(text, zb::size_varint{});
        z.kept(text);
        Opt o{var, true, true};
        return pair_run<false>(c, "append resize append", text, out, in, o);
    }
    case 20: { // the pieces of a sequence of resizes that outlive it
        std::size_t a = c.pick(60), b = c.pick(60);
        Resized<std::byte> z(c, bytes);
        z.n = b;
        z.keep = std::min({n0, a, b});
        zb::out out(bytes, zb::append{}, zb::resize{a}, zb::resize{b});
        return z.run(c, "append resize resize", out, bytes, plain, std::min({n0, a, b}));
    }
    default: {
        zb::endian::big e;
        zb::size2b z;
        auto [data, in, out] = zb::data_in_out(e, z); // options kept by reference
        return pair_run<false>(c, "data_in_out, named options", data, out, in, {big2});
    }
    }
}
} // namespace sim
