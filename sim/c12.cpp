// C12: opaque and regular requests on one stream.
#include "rpcsvc.h"

namespace sim
{
const WorldInfo world_info = {
    "C12",
    "A run sends 1..5 batches of 1..5 requests, opaque and regular in any order, through one stream to one server; batches are torn and "
    "completed, opaque handlers read any part of their arguments, move the cursor, shrink their view, fail, throw or run out of memory, "
    "and answers may not fit. Each handler must find exactly the delivered bytes at its first argument byte and the stream must stand "
    "where the handler left it. Non-trivial: an opaque handler ran; distinct by the recorded choices.",
    "(service, function, part taken, outcome, previous function and outcome)",
    "zpp::bits::rpc with bind and bind_opaque, client requests and server over vectors and spans",
    "the stream's fragmentation, handlers, heap failures"};

enum : int
{
    R_ADD,
    R_NOTE,
    R_STATUS,
    O_INOUT,
    O_IN,
    O_INVOID,
    O_OUT,
    O_VIEW,
    O_VIEWREF,
    O_NONE,
    O_FREE,
    O_FREEIN,
    N
};
static const char * nm[] = {"add", "note", "status", "opaque(in, out)", "opaque(in)", "opaque(in) void", "opaque(out)", "opaque(view)",
                            "opaque(view &)", "opaque()", "opaque free(view &)", "opaque free(in)"};

struct Payload
{
    std::string s;
    u64 n{};
    std::vector<u16> v;
    void make(Ch & c)
    {
        gen(c, s);
        gen(c, n);
        gen(c, v);
    }
};
struct Plan // what the handler is going to do
{
    u32 take = 0;   // fields or bytes
    int code = 0;   // its own error
    bool throws = false;
    u32 cursor = 0; // 1: skips to the end, 2: steps back to the start
};
struct Seen
{
    int fn = -1;
    u32 ran = 0;
    const void * at = nullptr;
    std::size_t pos = 0, size = 0; // at entry
    std::size_t exit_pos = 0;
    bool took = false; // decoding its arguments succeeded
    int code = 0;      // what its own archive calls returned first
    Payload got;
    std::int32_t a{};
    i64 b{};
};
static Plan plan;
static Seen seen;
static u64 note_sum;

static void enter(int fn)
{
    seen.fn = fn;
    ++seen.ran;
}
static std::string reply(const Payload & p)
{
    return p.s + "/" + std::to_string(p.n % 1000) + "/" + std::to_string(p.v.size());
}
template <class In>
static zb::errc read_some(In & in)
{
    struct Exit
    {
        In & in;
        ~Exit()
        {
            seen.exit_pos = in.position();
        }
    } at_exit{in};
    auto d = in.remaining_data();
    seen.at = d.data();
    seen.pos = in.position();
    seen.size = d.size();
    auto take = [&](auto &... x) -> zb::errc {
        auto r = in(x...);
        seen.code = int(std::errc(r));
        seen.took = !seen.code;
        return r;
    };
    auto & g = seen.got;
    zb::errc r{};
    if (plan.take == 0) {
        seen.took = true;
    } else if (plan.take == 1) {
        r = take(g.s);
    } else if (plan.take == 2) {
        r = take(g.s, g.n);
    } else {
        r = take(g.s, g.n, g.v);
    }
    if (plan.throws) {
        throw SimFault();
    }
    if (zb::failure(r)) {
        return r;
    }
    if (plan.cursor == 1) {
        in.position() = seen.pos + seen.size;
    } else if (plan.cursor == 2) {
        in.reset(seen.pos);
    }
    return {};
}
template <class S>
static void shrink(S & data)
{
    seen.at = data.data();
    seen.size = data.size();
    data = data.first(std::min<std::size_t>(plan.take, data.size()));
    if (plan.throws) {
        throw SimFault();
    }
}
static i64 f_add(std::int32_t a, i64 b)
{
    enter(R_ADD);
    seen.a = a;
    seen.b = b;
    return do_add(a, b);
}
static zb::errc f_free(std::span<const std::byte> & data)
{
    enter(O_FREE);
    shrink(data);
    return std::errc(plan.code);
}
template <class In>
std::string f_freein(In & in)
{
    enter(O_FREEIN);
    (void) read_some(in);
    return reply(seen.got);
}
template <class In, class Out>
struct Handlers
{
    void note(std::string s)
    {
        enter(R_NOTE);
        seen.got.s = s;
        ++note_sum;
    }
    std::pair<u64, std::string> status()
    {
        enter(R_STATUS);
        return {note_sum, std::string(note_sum % 5, 'x')};
    }
    zb::errc inout(In & in, Out & out)
    {
        enter(O_INOUT);
        if (auto r = read_some(in); zb::failure(r)) {
            return r;
        }
        if (plan.code) {
            return std::errc(plan.code);
        }
        return out(seen.got.n, reply(seen.got));
    }
    std::string in_only(In & in)
    {
        enter(O_IN);
        (void) read_some(in);
        return reply(seen.got);
    }
    void in_void(In & in) const
    {
        enter(O_INVOID);
        (void) read_some(in);
    }
    zb::errc out_only(Out & out)
    {
        enter(O_OUT);
        if (plan.throws) {
            throw SimFault();
        }
        if (plan.code) {
            return std::errc(plan.code);
        }
        return out(u32(77), std::string(plan.take, 'o'));
    }
    u64 view(std::span<const std::byte> data)
    {
        enter(O_VIEW);
        seen.at = data.data();
        seen.size = data.size();
        if (plan.throws) {
            throw SimFault();
        }
        return data.size() * 3 + 1;
    }
    std::vector<u16> view_ref(std::span<const std::byte> & data)
    {
        enter(O_VIEWREF);
        shrink(data);
        return std::vector<u16>(data.size() % 7, u16(0x1234));
    }
    u32 none()
    {
        enter(O_NONE);
        if (plan.throws) {
            throw SimFault();
        }
        return 0xa1b2c3d4;
    }
};

#if SVC == 0
#define ID(n) (7 + n * 4099)
#elif SVC == 1
#define ID(n) "opq" #n ""_sha256_int
#elif SVC == 3
#define ID(n) "opaque::fn" #n ""_sha256
#else
#define ID(n) "opaque::fn" #n ""_sha1, 8
#endif

template <class InView, class OutView, class... O>
struct World
{
    using In = zb::in<InView, O...>;
    using Out = zb::out<OutView, O...>;
    using H = Handlers<In, Out>;
    using rpc = zb::rpc<zb::bind<f_add, ID(0)>, zb::bind_opaque<&H::inout, ID(3)>, zb::bind<&H::note, ID(1)>,
                        zb::bind_opaque<&H::in_only, ID(4)>, zb::bind_opaque<&H::in_void, ID(5)>, zb::bind<&H::status, ID(2)>,
                        zb::bind_opaque<&H::out_only, ID(6)>, zb::bind_opaque<&H::view, ID(7)>, zb::bind_opaque<&H::view_ref, ID(8)>,
                        zb::bind_opaque<&H::none, ID(9)>, zb::bind_opaque<f_free, ID(10)>, zb::bind_opaque<f_freein<In>, ID(11)>>;
    static constexpr bool live = In::resizable;
    static constexpr bool fixed = !Out::resizable;

    static std::size_t enc_id(Enc & e, int fn)
    {
        auto at = e.b.size();
        switch (fn) {
#define X(n)                                                                                                                     \
    case n:                                                                                                                      \
        e.put(zb::id_v<ID(n)>);                                                                                                  \
        break;
            X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11)
#undef X
        }
        return e.b.size() - at;
    }
    template <class C>
    static zb::errc send(C & cl, int fn, const Payload & p, std::int32_t a, i64 b, u32 shape)
    {
        auto opq = [&]<auto... I>() -> zb::errc {
            switch (shape) {
            case 0:
                return cl.template request<I...>(p.s, p.n, p.v);
            case 1:
                return cl.template request<I...>(p.s, p.n);
            case 2:
                return cl.template request<I...>(p.s);
            default:
                return cl.template request<I...>();
            }
        };
        switch (fn) {
        case R_ADD:
            return cl.template request<ID(0)>(a, b);
        case R_NOTE:
            return cl.template request<ID(1)>(p.s);
        case R_STATUS:
            return cl.template request<ID(2)>();
        case O_INOUT:
            return opq.template operator()<ID(3)>();
        case O_IN:
            return opq.template operator()<ID(4)>();
        case O_INVOID:
            return opq.template operator()<ID(5)>();
        case O_OUT:
            return opq.template operator()<ID(6)>();
        case O_VIEW:
            return opq.template operator()<ID(7)>();
        case O_VIEWREF:
            return opq.template operator()<ID(8)>();
        case O_NONE:
            return cl.template request<ID(9)>();
        case O_FREE:
            return opq.template operator()<ID(10)>();
        default:
            return opq.template operator()<ID(11)>();
        }
    }
    struct Frame
    {
        int fn;
        Payload p;
        std::int32_t a{};
        i64 b{};
        u32 shape = 0; // how many of the opaque arguments were left out
        std::size_t at = 0, args = 0, end = 0;
    };

    void run(Ch & c, Wire w, O... o)
    {
        std::tuple<O...> opts(o...);
        H h;
        note_sum = 0;
        BVec in_mem, out_mem;
        InView in_view{};
        OutView out_view{};
        std::optional<In> in;
        std::optional<Out> out;
        auto open_in = [&](std::size_t pos) {
            in.reset();
            if constexpr (live) {
                in.emplace(std::make_from_tuple<In>(std::tuple_cat(std::tuple<BVec &>(in_mem), opts)));
            } else {
                in_mem.shrink_to_fit();
                in_view = InView(in_mem);
                in.emplace(std::make_from_tuple<In>(std::tuple_cat(std::tuple<InView &>(in_view), opts)));
            }
            in->position() = pos;
        };
        auto open_out = [&] {
            out.reset();
            if constexpr (fixed) {
                out_mem = BVec(c.pick(160), std::byte(0xee));
                out_mem.shrink_to_fit();
                out_view = OutView(out_mem);
                out.emplace(std::make_from_tuple<Out>(std::tuple_cat(std::tuple<OutView &>(out_view), opts)));
            } else {
                out_mem.clear();
                out.emplace(std::make_from_tuple<Out>(std::tuple_cat(std::tuple<BVec &>(out_mem), opts)));
            }
        };
        open_in(0);
        open_out();
        u64 last = 0;
        for (u32 batch = c.range(1, 5); batch--;) {
            // ---- the client serializes a batch
            std::vector<Frame, Mal<Frame>> frames;
            BVec sent;
            zb::out<BVec, O...> cout(std::make_from_tuple<zb::out<BVec, O...>>(std::tuple_cat(std::tuple<BVec &>(sent), opts)));
            BVec dummy_mem;
            zb::in<BVec, O...> cin(std::make_from_tuple<zb::in<BVec, O...>>(std::tuple_cat(std::tuple<BVec &>(dummy_mem), opts)));
            typename rpc::client client{cin, cout};
            for (u32 k = c.range(1, 5); k--;) {
                c.mark();
                Frame f;
                f.fn = int(c.pick(N));
                f.p.make(c);
                gen(c, f.a);
                gen(c, f.b);
                f.shape = c.pick(3) ? 0 : c.pick(4);
                f.at = cout.position();
                Enc e(w);
                f.args = f.at + enc_id(e, f.fn);
                if (f.fn == R_ADD) {
                    e.put(f.a);
                    e.put(f.b);
                } else if (f.fn == R_NOTE) {
                    e.put(f.p.s);
                } else if (f.fn != R_STATUS && f.fn != O_NONE) {
                    if (f.shape < 3) {
                        e.put(f.p.s);
                    }
                    if (f.shape < 2) {
                        e.put(f.p.n);
                    }
                    if (f.shape < 1) {
                        e.put(f.p.v);
                    }
                }
                auto r = guarded([&]() -> zb::errc { return send(client, f.fn, f.p, f.a, f.b, f.shape); });
                REQ(r.ok(), "request", "request of %s: %s", nm[f.fn], res_name(r).c_str());
                f.end = cout.position();
                REQ(to_bytes(sent, f.at) == e.b, "request-bytes", "request of %s is not what the format says", nm[f.fn]);
                frames.push_back(std::move(f));
            }
            Bytes bytes = to_bytes(sent);
            // ---- delivery
            std::size_t base; // where the batch starts in the receive buffer
            std::size_t have = bytes.size();
            if (c.chance(1, 3)) {
                have = c.pick(u32(bytes.size()));
                fault("stall");
            }
            auto deliver = [&](std::size_t from, std::size_t to, std::size_t pos) {
                auto p = reinterpret_cast<const std::byte *>(bytes.data());
                if (!live) {
                    in.reset();
                }
                in_mem.insert(in_mem.end(), p + from, p + to);
                if (!live || c.pick(2)) {
                    open_in(pos);
                } else {
                    in->position() = pos;
                }
            };
            if (in->position() == in_mem.size() && c.pick(2)) {
                in.reset();
                in_mem.clear();
                open_in(0);
            }
            base = in_mem.size();
            deliver(0, have, base);
            u32 heap_tries = 0;
            for (std::size_t fi = 0; fi < frames.size(); ++fi) {
                auto & f = frames[fi];
                c.mark();
                std::size_t start = base + f.at;
                if (in->position() != start) {
                    in->position() = start; // the boundary is known to the receiver
                }
                if (c.chance(1, 3)) {
                    open_out();
                }
                plan = {};
                bool reads = f.fn == O_INOUT || f.fn == O_IN || f.fn == O_INVOID || f.fn == O_FREEIN;
                bool opaque = f.fn >= O_INOUT;
                if (reads) {
                    plan.take = c.pick(4) ? 3 - f.shape : c.pick(4);
                    plan.cursor = c.pick(3) ? 0 : c.range(1, 2);
                } else if (f.fn == O_OUT) {
                    plan.take = c.pick(30);
                } else if (f.fn == O_VIEWREF || f.fn == O_FREE) {
                    plan.take = c.pick(4) ? u32(f.end - f.args) : c.pick(2) ? 1000000 : c.pick(40);
                }
                if (opaque) {
                    plan.throws = c.chance(1, 8);
                    plan.code = c.chance(1, 8) ? int(std::errc::owner_dead) : 0;
                }
                u64 fail_at = c.chance(1, 8) && heap_tries < 3 ? c.range(1, 6) : 0;
                std::size_t total = base + have;
                std::size_t out0 = out->position();
                Bytes before = to_bytes(out_mem);
                seen = {};
                u64 notes = note_sum;
                typename rpc::server srv{*in, *out, h};
                Res r;
                u64 failed = 0;
                bool external = c.chance(1, 6) && f.args <= have;
                {
                    Window win(fail_at);
                    r = guarded([&]() -> zb::errc {
                        if (!external) {
                            return srv.serve();
                        }
                        in->position() = base + f.args;
                        switch (f.fn) {
#define X(n)                                                                                                                     \
    case n:                                                                                                                      \
        return srv.serve(zb::id_v<ID(n)>);
                            X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11)
#undef X
                        }
                        return {};
                    });
                    failed = heap.failed;
                }
                std::size_t wrote = out->position() - out0;
                std::size_t pos = in->position();
                const char * who = nm[f.fn];
                ev("%s take %u cursor %u -> %s, at %zu of %zu, ran %u, wrote %zu%s", who, plan.take, plan.cursor, res_name(r).c_str(),
                   pos, in_mem.size(), seen.ran, wrote, external ? " (external id)" : "");
                state(hmix(hmix(u64(f.fn) * 64 + plan.take % 8 * 4 + plan.cursor, u64(r.code * 8 + r.exc)), last));
                last = hmix(u64(f.fn), u64(r.code));
                REQ(in_mem.size() == total && !std::memcmp(in_mem.data() + base, bytes.data(), have), "input",
                    "%s: serving changed the received bytes", who);
                REQ(pos <= total && out->position() <= out_mem.size(), "position", "%s: a position is outside", who);
                REQ(!std::memcmp(out_mem.data(), before.data(), std::min(out0, before.size())), "earlier-answers",
                    "%s: earlier answers changed", who);
                REQ(seen.ran <= 1 && (!seen.ran || seen.fn == f.fn), "wrong-function", "%s: %u functions ran, the last %s", who, seen.ran,
                    seen.fn < 0 ? "none" : nm[seen.fn]);
                if (failed) {
                    fault("allocation failure");
                    ++heap_tries;
                    REQ(r.exc == Res::bad_alloc, "exception", "%s: a failed allocation became %s", who, res_name(r).c_str());
                    if (seen.ran && reads) {
                        REQ(pos == seen.exit_pos, "stream", "%s: the stream is at %zu, its handler left it at %zu", who, pos, seen.exit_pos);
                    }
                    out->position() = out0;
                    note_sum = notes;
                    --fi;
                    continue;
                }
                // ---- torn?
                bool refused = false;
                bool torn_id = have < f.args;
                if (torn_id) {
                    REQ(r.code == RANGE && !r.exc && !seen.ran && !wrote, "torn", "%s with a torn id: %s, ran %u, wrote %zu", who,
                        res_name(r).c_str(), seen.ran, wrote);
                } else if (!opaque) {
                    if (have < f.end) {
                        REQ(r.code == RANGE && !r.exc && !seen.ran && !wrote, "torn", "%s torn: %s, ran %u, wrote %zu", who,
                            res_name(r).c_str(), seen.ran, wrote);
                    } else {
                        REQ(seen.ran == 1, "not-served", "%s: %s", who, res_name(r).c_str());
                        REQ(f.fn != R_ADD || (seen.a == f.a && seen.b == f.b), "arguments", "%s ran with other arguments", who);
                        REQ(f.fn != R_NOTE || seen.got.s == f.p.s, "arguments", "%s ran with other arguments", who);
                        REQ(pos == base + f.end, "stream", "%s: the stream is at %zu instead of %zu", who, pos, base + f.end);
                    }
                } else {
                    nontrivial();
                    REQ(seen.ran == 1, "not-served", "%s: %s", who, res_name(r).c_str());
                    std::size_t args = base + f.args;
                    if (reads) {
                        REQ(seen.pos == args, "handed", "%s was handed the archive at %zu instead of %zu", who, seen.pos, args);
                    }
                    if (f.fn != O_OUT && f.fn != O_NONE) {
                        REQ(seen.size == total - args && (!seen.size || seen.at == in_mem.data() + args), "handed",
                            "%s was handed %zu bytes, %zu remain", who, seen.size, total - args);
                    }
                    std::size_t expect = reads                                     ? seen.exit_pos
                                         : f.fn == O_VIEW                          ? total
                                         : f.fn == O_VIEWREF || f.fn == O_FREE     ? args + std::min<std::size_t>(plan.take, total - args)
                                                                                   : args;
                    REQ(pos == expect, "stream", "%s: the stream is at %zu, its handler left it at %zu", who, pos, expect);
                    if (reads) { // running into the next message, a length can be absurd
                        if (r.exc == Res::bad_alloc || r.exc == Res::length_error) {
                            Payload m;
                            Dec d(bytes.data(), have, w);
                            d.pos = f.args;
                            d.get(m.s);
                            d.get(m.n);
                            d.get(m.v);
                            REQ(d.huge && !wrote, "exception", "%s: %s", who, res_name(r).c_str());
                            refused = true;
                            probe("absurd length refused");
                        }
                    }
                    if (reads && !refused) {
                        // what it decoded, by the model
                        Payload m;
                        Dec d(bytes.data(), have, w);
                        d.pos = f.args;
                        if (plan.take > 0) {
                            d.get(m.s);
                        }
                        if (plan.take > 1) {
                            d.get(m.n);
                        }
                        if (plan.take > 2) {
                            d.get(m.v);
                        }
                        if (!d.mismatch && !d.over_limit && !d.huge) {
                            REQ(seen.code == d.code, "handler-code", "%s decoded its arguments with %s instead of %s", who,
                                code_name(seen.code), code_name(d.code));
                            if (!d.code) {
                                REQ(seen.got.s == m.s && seen.got.n == m.n && seen.got.v == m.v, "arguments",
                                    "%s decoded other arguments", who);
                                if (!plan.throws && !plan.cursor) {
                                    REQ(pos == base + d.pos, "stream", "%s: the stream is at %zu instead of %zu", who, pos, base + d.pos);
                                }
                            }
                        } else {
                            probe("arguments run into the next message");
                        }
                    }
                    if (plan.throws && !refused) {
                        fault("handler throws");
                        REQ(r.exc == Res::sim_fault, "exception", "%s threw, serving reported %s", who, res_name(r).c_str());
                        REQ(!wrote, "wrote", "%s threw, %zu bytes were written", who, wrote);
                    }
                }
                // ---- the answer
                if (seen.ran && !refused && !(opaque && plan.throws)) {
                    Enc e(w);
                    int code = 0;
                    switch (f.fn) {
                    case R_ADD:
                        e.put(do_add(f.a, f.b));
                        break;
                    case R_STATUS:
                        e.put(std::pair<u64, std::string>(note_sum, std::string(note_sum % 5, 'x')));
                        break;
                    case O_INOUT:
                        code = seen.code ? seen.code : plan.code;
                        e.put(seen.got.n);
                        e.put(reply(seen.got));
                        break;
                    case O_IN:
                    case O_FREEIN:
                        e.put(reply(seen.got));
                        break;
                    case O_OUT:
                        code = plan.code;
                        e.put(u32(77));
                        e.put(std::string(plan.take, 'o'));
                        break;
                    case O_VIEW:
                        e.put(u64(seen.size * 3 + 1));
                        break;
                    case O_VIEWREF:
                        e.put(std::vector<u16>(std::min<std::size_t>(plan.take, seen.size) % 7, u16(0x1234)));
                        break;
                    case O_NONE:
                        e.put(u32(0xa1b2c3d4));
                        break;
                    case O_FREE:
                        code = plan.code;
                        break;
                    }
                    if (code) {
                        fault("handler fails");
                        REQ(r.code == code && !r.exc && !wrote, "handler-error", "%s returned %s, serving returned %s and wrote %zu", who,
                            code_name(code), res_name(r).c_str(), wrote);
                    } else if (e.b.size() > (fixed ? out_mem.size() - out0 : std::size_t(-1))) {
                        fault("answer does not fit");
                        REQ(r.code == RANGE && !r.exc, "answer", "%s: %s for %zu bytes in %zu", who, res_name(r).c_str(), e.b.size(),
                            out_mem.size() - out0);
                        out->position() = out0;
                    } else {
                        REQ(r.ok() && wrote == e.b.size() && !std::memcmp(out_mem.data() + out0, e.b.data(), wrote), "answer",
                            "%s: %s, %zu bytes instead of %zu or other bytes", who, res_name(r).c_str(), wrote, e.b.size());
                        probe("served");
                    }
                }
                // ---- the rest of the batch arrives
                if (have < bytes.size() && (have < f.end || c.chance(1, 3))) {
                    std::size_t more = c.pick(2) ? bytes.size() : have + 1 + c.pick(u32(bytes.size() - have));
                    std::size_t old = have;
                    have = more;
                    bool again = old < f.end;
                    sim_time(c.pick(50));
                    if (again) {
                        note_sum = notes;
                        out->position() = out0;
                        deliver(old, have, base + f.at);
                        --fi;
                        fault("torn request retried");
                    } else {
                        deliver(old, have, pos);
                    }
                }
            }
            in->position() = in_mem.size();
        }
    }
};

void world_run(Ch & c)
{
#if SVC == 0 || SVC == 3
    World<BVec, BVec>{}.run(c, {});
#elif SVC == 1
    World<std::span<const std::byte>, std::span<std::byte>, zb::endian::big, zb::size_varint>{}.run(c, {true, SZ_VARINT}, {}, {});
#else
    World<BVec, BVec, zb::size2b>{}.run(c, {false, 2}, {});
#endif
}
} // namespace sim
