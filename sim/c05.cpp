// C05: hostile lengths against an input allocation limit.
#include "world.h"

namespace sim
{
const WorldInfo world_info = {
    "C05",
    "A run encodes a random object, lets an attacker replace 0..3 of its length prefixes (values around limit/sizeof(element), "
    "around the bytes present, boundary values up to 2^64-1), optionally supplies the bytes the forged length asks for or cuts the "
    "message, and decodes it with an archive that has an allocation limit while the simulated heap records every request. Result, "
    "value and position are compared with an independent decoder that applies the limit. Non-trivial: a length was forged; "
    "distinct by the recorded choices.",
    "(type, configuration, result, forged prefix kind, magnitude of the forged length)",
    "zpp::bits::in with alloc_limit over string, span, vector and user buffers", "the attacker, the heap"};

void world_run(Ch & c)
{
    const Cfg & cfg = pick_cfg(c);
    int it = pick_item(c, cfg);
    const std::size_t limit = cfg.wire.limit;
    Obj v(it);
    v.gen(c);
    Enc e = v.enc(cfg.wire);
    Bytes bytes = e.b;
    ev("%s %s, %zu bytes, %zu prefixes", cfg.name, item_ops[it].name, bytes.size(), e.prefixes.size());
    u32 forge = c.pick(4);
    std::size_t biggest_claim = 0;
    long shift = 0;
    std::size_t at = 0;
    for (u32 k = 0; k < forge && at < e.prefixes.size(); ++k) {
        c.mark();
        at += c.pick(u32(e.prefixes.size() - at));
        auto & p = e.prefixes[at++];
        u64 x;
        switch (c.pick(5)) {
        case 0: {
            static const u32 sizes[] = {1, 2, 4, 8, 12, 16, 24, 32, 40, 48, 64};
            x = limit / sizes[c.pick(11)] + c.pick(3);
            x = x ? x - 1 : 0;
            break;
        }
        case 1:
            x = bytes.size() + c.pick(64);
            break;
        case 2:
            x = c.integer(64);
            break;
        case 3:
            x = ~0ull - c.pick(4);
            break;
        default:
            x = limit + c.pick(u32(limit) * 4);
        }
        Enc f(cfg.wire);
        f.sizep(std::size_t(x), p.kind);
        std::size_t where = std::size_t(long(p.at) + shift);
        bytes.erase(bytes.begin() + long(where), bytes.begin() + long(where + p.len));
        bytes.insert(bytes.begin() + long(where), f.b.begin(), f.b.end());
        shift += long(f.b.size()) - long(p.len);
        Dec back(f.b.data(), f.b.size(), cfg.wire);
        std::size_t claim = back.sizep(p.kind);
        biggest_claim = std::max(biggest_claim, claim);
        ev("length %u at %zu says %zu", p.kind, where, claim);
        fault(claim > limit ? "forged length above the limit" : "forged length");
        u32 mag = 0;
        while (claim) {
            ++mag;
            claim >>= 1;
        }
        state(hmix(hmix(u64(it), u64(cfg.k)), hmix(mag, u64(p.kind))));
        nontrivial();
        if (c.pick(2)) { // the bytes it asks for are really there
            u32 more = c.pick(u32(limit * 3));
            u8 fill = u8(c.pick(3));
            bytes.insert(bytes.begin() + long(where + f.b.size()), more, fill);
            shift += long(more);
            fault("payload supplied");
        }
    }
    if (c.chance(1, 4)) {
        bytes.resize(c.pick(u32(bytes.size() + 1)));
        fault("truncation");
    }
    ev_bytes("input", bytes.data(), bytes.size());
    Obj want(it);
    Dec d(bytes.data(), bytes.size(), cfg.wire);
    want.dec(d);

    Own<Buf> b(cfg.make(bytes.data(), bytes.size()));
    Own<InA> a(b->in());
    Obj got(it);
    Res r;
    u64 biggest, total;
    {
        Window w;
        r = a->read(it, got.p);
        biggest = heap.biggest;
        total = heap.bytes;
    }
    ev("read -> %s position %zu; biggest request %llu; model %s %zu", res_name(r).c_str(), a->pos(), (unsigned long long) biggest,
       code_name(d.code), d.pos);
    state(hmix(hmix(u64(it), u64(cfg.k)), u64(r.code)));
    REQ(a->pos() <= bytes.size(), "position", "%s %s: position outside the buffer", cfg.name, item_ops[it].name);
    REQ(r.exc == Res::none, "exception", "%s %s: %s with an allocation limit of %zu (biggest request %llu)", cfg.name, item_ops[it].name,
        exc_name(r.exc), limit, (unsigned long long) biggest);
    // what a length may make the library ask for: at most the limit, rounded up by the container (strings, deque blocks), or what
    // repeated protobuf fields really carry; a hash table has up to two pointers per entry that is really there
    u64 bound = std::max<u64>(2 * limit + 256, 4096 + 64);
    if (item_ops[it].flags & F_PB) {
        bound += 200 * bytes.size();
    } else if (item_ops[it].flags & F_MAP) {
        bound += 2 * sizeof(void *) * bytes.size();
    }
    REQ(biggest <= bound, "allocated", "%s %s: one request of %llu bytes under a limit of %zu", cfg.name, item_ops[it].name,
        (unsigned long long) biggest, limit);
    if (d.mismatch || d.over_limit) {
        probe("model does not decide: safety only");
        REQ(!d.over_limit || d.mismatch || !d.code || !r.ok(), "accepted", "%s %s: accepted, the format says %s", cfg.name,
            item_ops[it].name, code_name(d.code));
        return;
    }
    REQ(r.code == d.code, d.code == MSGSIZE ? "limit-ignored" : r.code == MSGSIZE ? "limit-too-strict" : "code",
        "%s %s: %s instead of %s (limit %zu, biggest claim %zu)", cfg.name, item_ops[it].name, code_name(r.code), code_name(d.code), limit,
        biggest_claim);
    if (r.ok()) {
        REQ(a->pos() == d.pos, "consumed", "%s %s: consumed %zu, the format says %zu", cfg.name, item_ops[it].name, a->pos(), d.pos);
        REQ(got.canon() == want.canon(), "value", "%s %s: another value", cfg.name, item_ops[it].name);
        probe("within the limit");
    } else {
        probe(r.code == MSGSIZE ? "over the limit, rejected" : "rejected otherwise");
    }
    (void) total;
}
} // namespace sim
