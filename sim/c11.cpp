// C11: a server that gets bad requests among good ones.
#include "rpcsvc.h"

namespace sim
{
const WorldInfo world_info = {
    "C11",
    "A run sends up to 12 requests to one server with persistent archives: good ones, unknown ids, torn ones, corrupted arguments (bit "
    "flips, forged lengths, bad variant indexes), answers that do not fit, failing allocations; one message per buffer or several in "
    "one. Each outcome is compared with the model, and good requests in between must be served. Non-trivial: a bad request was sent; "
    "distinct by the recorded choices.",
    "(service, function, kind of damage, outcome, previous outcome)",
    "zpp::bits::rpc servers over vectors, spans and limited vectors", "the clients, the network's damage, heap failures"};

template <class InView, class OutView, template <class, class> class Svc, class... O>
struct World
{
    using In = zb::in<InView, O...>;
    using Out = zb::out<OutView, O...>;
    using S = Svc<In, Out>;
    using rpc = typename S::rpc;
    static constexpr bool fixed = !Out::resizable;

    void run(Ch & c, Wire w, std::size_t out_limit, O... o)
    {
        std::tuple<O...> opts(o...);
        Service<In, Out> svc;
        svc_log = &svc.log;
        BVec in_mem, out_mem;
        InView in_view{};
        OutView out_view{};
        std::optional<In> in;
        std::optional<Out> out;
        std::size_t capacity = fixed ? c.pick(200) : 0;
        auto open_out = [&] {
            out.reset();
            if constexpr (fixed) {
                out_mem = BVec(capacity, std::byte(0xcd));
                out_mem.shrink_to_fit();
                out_view = OutView(out_mem);
                out.emplace(std::make_from_tuple<Out>(std::tuple_cat(std::tuple<OutView &>(out_view), opts)));
            } else {
                out_mem.clear();
                out.emplace(std::make_from_tuple<Out>(std::tuple_cat(std::tuple<BVec &>(out_mem), opts)));
            }
        };
        open_out();
        u32 messages = c.range(1, 12);
        u64 last = 0;
        Bytes pending; // several messages in one buffer
        for (u32 m = 0; m < messages; ++m) {
            // ---- build the buffer: one or several messages
            struct Frame
            {
                int fn;
                std::size_t at, end;
                const char * damage;
            };
            mvec<Frame> frames;
            Bytes bytes;
            u32 n = c.chance(1, 3) ? c.range(2, 4) : 1;
            bool external = n == 1 && c.chance(1, 5); // the id travels outside the message
            int ext_fn = 0;
            bool ext_known = true;
            typename rpc::id ext_id{};
            for (u32 i = 0; i < n; ++i) {
                c.mark();
                int fn = int(c.pick(N_FN));
                Args a;
                a.make(c, fn);
                Enc e(w);
                if (!external) {
                    S::enc_id(e, fn);
                }
                std::size_t id_len = e.b.size();
                a.enc(e, fn);
                if (e.overflow) {
                    continue;
                }
                const char * damage = "none";
                switch (c.pick(8)) {
                case 3: { // unknown id
                    damage = "unknown id";
                    if (external) {
                        ext_known = false;
                        auto k = ext_id = S::id_of(fn);
                        u8 raw[sizeof(k)];
                        std::memcpy(raw, &k, sizeof(k));
                        raw[c.pick(sizeof(k))] ^= u8(1u << c.pick(8));
                        std::memcpy(static_cast<void *>(&ext_id), raw, sizeof(k));
                        for (int f = 0; f < N_FN; ++f) {
                            auto q = S::id_of(f);
                            ext_known = ext_known || !std::memcmp(&q, &ext_id, sizeof(q));
                        }
                        if (ext_known) {
                            damage = "none";
                        }
                        break;
                    }
                    if (c.pick(3)) {
                        e.b[c.pick(u32(id_len))] ^= u8(1u << c.pick(8));
                    } else {
                        for (std::size_t q = 0; q < id_len; ++q) {
                            e.b[q] = u8(c.integer(8));
                        }
                    }
                    break;
                }
                case 4:
                case 5: // torn: only the last message of a buffer can be
                    if (i + 1 == n && !e.b.empty()) {
                        e.b.resize(c.pick(u32(e.b.size())));
                        damage = "torn";
                    }
                    break;
                case 6: // bits of the arguments
                    if (e.b.size() > id_len) {
                        u32 k = c.range(1, 3);
                        while (k--) {
                            e.b[id_len + c.pick(u32(e.b.size() - id_len))] ^= u8(1u << c.pick(8));
                        }
                        damage = "flipped bits";
                    }
                    break;
                case 7: // a forged length
                    if (!e.prefixes.empty()) {
                        auto & p = e.prefixes[c.pick(u32(e.prefixes.size()))];
                        e.b[p.at + (w.big && p.kind != SZ_VARINT ? p.len - 1 : 0)] ^= u8(1 + c.pick(127));
                        damage = "forged length";
                    }
                    break;
                }
                if (external) {
                    ext_fn = fn;
                    if (ext_known) {
                        ext_id = S::id_of(fn);
                    }
                }
                frames.push_back({fn, bytes.size(), bytes.size() + e.b.size(), damage});
                bytes.insert(bytes.end(), e.b.begin(), e.b.end());
            }
            in.reset();
            in_mem = to_bvec(bytes);
            in_mem.shrink_to_fit();
            in_view = InView(in_mem);
            in.emplace(std::make_from_tuple<In>(std::tuple_cat(std::tuple<InView &>(in_view), opts)));
            for (auto & f : frames) {
                c.mark();
                if (in->position() != f.at) { // after a failure the frame's boundary is known from outside
                    in->position() = f.at;
                }
                // ---- what the model says
                int code = OK;
                int fn = -1;
                bool unsure = false;
                Dec d(bytes.data(), bytes.size(), w);
                d.pos = f.at;
                Args a;
                bool opaque_torn = false;
                if (external) {
                    fn = ext_known ? ext_fn : -1;
                    code = ext_known ? OK : NOTSUP;
                } else {
                    Enc ids[N_FN];
                    std::size_t len = 0;
                    for (int k = 0; k < N_FN; ++k) {
                        ids[k].w = w;
                        S::enc_id(ids[k], k);
                        len = ids[k].b.size();
                    }
                    u8 got[64];
                    if (!d.raw(got, len)) {
                        code = d.code;
                    } else {
                        for (int k = 0; k < N_FN; ++k) {
                            if (!std::memcmp(ids[k].b.data(), got, len)) {
                                fn = k;
                            }
                        }
                        code = fn < 0 ? NOTSUP : OK;
                    }
                }
                u64 notes = svc.log.notes;
                Enc answer(w);
                if (!code) {
                    a.dec(d, fn);
                    code = d.code;
                    unsure = d.mismatch || d.over_limit || d.huge || d.bad_bool;
                    if (!code && !unsure) {
                        enc_response(answer, fn, a, notes);
                        unsure = answer.overflow;
                    }
                }
                // ---- serve
                if (fixed && c.chance(1, 4)) {
                    capacity = c.pick(200);
                    open_out();
                }
                if (c.chance(1, 3)) {
                    out->reset(c.pick(u32(out->position() + 1)));
                }
                std::size_t out0 = out->position();
                Bytes before = to_bytes(out_mem);
                std::size_t calls = svc.log.calls.size();
                typename rpc::server srv{*in, *out, svc};
                Res r;
                {
                    Window win;
                    r = guarded([&]() -> zb::errc { return external ? srv.serve(ext_id) : srv.serve(); });
                }
                std::size_t ran = svc.log.calls.size() - calls;
                std::size_t wrote = out->position() - out0;
                ev("%s (%s) -> %s, ran %zu, wrote %zu; model %s", fn_name(f.fn), f.damage, res_name(r).c_str(), ran, wrote, code_name(code));
                state(hmix(hmix(u64(f.fn), hash_bytes(f.damage, 3)), hmix(u64(r.code), last)));
                last = hmix(u64(r.code), ran);
                if (f.damage[0] != 'n' || f.damage[2] != 'n') {
                    fault(f.damage);
                    nontrivial();
                }
                REQ(in->position() <= bytes.size() && out->position() <= out_mem.size(), "position", "%s (%s): a position is outside",
                    fn_name(f.fn), f.damage);
                REQ(!std::memcmp(out_mem.data(), before.data(), std::min(out0, before.size())), "earlier-answers",
                    "%s (%s): earlier answers changed", fn_name(f.fn), f.damage);
                REQ(ran <= 1, "ran-twice", "%s (%s): %zu functions ran", fn_name(f.fn), f.damage, ran);
                if (r.exc) {
                    REQ((r.exc == Res::bad_alloc || r.exc == Res::length_error) && (d.huge || unsure), "exception", "%s (%s): %s", fn_name(f.fn),
                        f.damage, exc_name(r.exc));
                    REQ(!ran && !wrote, "ran-bad", "%s (%s): ran %zu functions, wrote %zu bytes though the arguments did not decode",
                        fn_name(f.fn), f.damage, ran, wrote);
                    probe("allocation refused");
                    continue;
                }
                if (unsure) {
                    REQ(r.ok() || !wrote || ran, "wrote-bad", "%s (%s): wrote %zu bytes", fn_name(f.fn), f.damage, wrote);
                    out->position() = out0;
                    svc.log.notes = notes;
                    probe("model does not decide: safety only");
                    continue;
                }
                if (code) {
                    REQ(r.code == code, code == NOTSUP ? "unknown-id" : "code", "%s (%s): %s instead of %s", fn_name(f.fn), f.damage,
                        res_name(r).c_str(), code_name(code));
                    REQ(!ran, "ran-bad", "%s (%s): %s ran", fn_name(f.fn), f.damage, fn_name(svc.log.calls.back().fn));
                    REQ(!wrote, "wrote-bad", "%s (%s): %zu response bytes", fn_name(f.fn), f.damage, wrote);
                    REQ(to_bytes(out_mem) == before, "wrote-bad", "%s (%s): response bytes behind the position", fn_name(f.fn), f.damage);
                    probe(code == NOTSUP ? "not_supported" : "decoding error");
                    (void) opaque_torn;
                    continue;
                }
                REQ(ran == 1 && svc.log.calls.back().fn == fn, "wrong-function", "%s (%s): ran %zu functions", fn_name(fn), f.damage, ran);
                REQ(svc.log.calls.back().args == a.canon(fn), "arguments", "%s (%s): other arguments than the message's", fn_name(fn), f.damage);
                std::size_t room = fixed ? out_mem.size() - out0 : std::size_t(-1);
                bool fits = answer.b.size() <= room;
                if (!r.ok()) {
                    if (fixed) {
                        REQ(!fits && r.code == RANGE, "answer", "%s: %s though %zu bytes fit in %zu", fn_name(fn), res_name(r).c_str(),
                            answer.b.size(), room);
                        fault("answer does not fit");
                    } else {
                        REQ(r.code == NOSPACE && 2 * (out0 + answer.b.size() + 32) > out_limit, "answer", "%s: %s for %zu bytes at %zu",
                            fn_name(fn), res_name(r).c_str(), answer.b.size(), out0);
                        fault("answer exceeds the limit");
                    }
                    nontrivial();
                    out->position() = out0;
                    if (c.pick(2)) {
                        open_out();
                    }
                    continue;
                }
                REQ(fits, "answer", "%s: %zu bytes reported as written to %zu", fn_name(fn), answer.b.size(), room);
                REQ(wrote == answer.b.size() && !std::memcmp(out_mem.data() + out0, answer.b.data(), wrote), "answer-bytes",
                    "%s: the answer is not what the format says (%zu bytes instead of %zu)", fn_name(fn), wrote, answer.b.size());
                REQ(in->position() == d.pos, "consumed", "%s: consumed %zu bytes instead of %zu", fn_name(fn), in->position() - f.at,
                    d.pos - f.at);
                probe("served");
            }
        }
    }
};

void world_run(Ch & c)
{
#if SVC == 0
    World<BVec, BVec, SvcInt>{}.run(c, {}, unlimited);
#elif SVC == 1
    World<std::span<const std::byte>, std::span<std::byte>, SvcSha, zb::endian::big, zb::size_varint>{}.run(c, {true, SZ_VARINT}, unlimited,
                                                                                                          {}, {});
#elif SVC == 3
    World<BVec, BVec, SvcWide>{}.run(c, {}, unlimited);
#else
    World<BVec, BVec, SvcLong, zb::size2b, zb::alloc_limit<192>>{}.run(c, {false, 2, 192}, 192, {}, {});
#endif
}
} // namespace sim
