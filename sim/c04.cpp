// C04: corrupted and hostile input.
#include "damage.h"

namespace sim
{
const WorldInfo world_info = {
    "C04",
    "A run takes the encoding of 1..2 random objects (or random bytes), lets a faulty medium corrupt it 1..8 times (bit flips, "
    "overwritten, lost, inserted, swapped and duplicated blocks, forged lengths, truncation, splices of another message) and "
    "decodes it at a random configuration from a buffer of exactly that size with the simulated heap capped; result code, value, "
    "bytes consumed and position are compared with an independent decoder; then the archive decodes a good message. Non-trivial: "
    "the bytes differ from a valid encoding; distinct by the recorded choices.",
    "(type, configuration, result, bytes consumed)", "zpp::bits::in with all its options", "the medium, the heap"};

void world_run(Ch & c)
{
    const Cfg & cfg = pick_cfg(c);
    int it = pick_item(c, cfg);
    Obj v(it);
    v.gen(c);
    Enc enc = v.enc(cfg.wire);
    Bytes good = enc.b;
    Bytes bytes = good;
    if (c.pick(3) == 2) {
        forge_prefix(c, bytes, enc);
    }
    int it2 = pick_item(c, cfg);
    Bytes other;
    if (c.pick(3) == 0) {
        Obj u(it2);
        u.gen(c);
        other = u.enc(cfg.wire).b;
        bytes.insert(bytes.end(), other.begin(), other.end());
    }
    if (c.chance(1, 10)) { // pure noise
        bytes.resize(c.pick(64));
        for (auto & x : bytes) {
            x = u8(c.integer(8));
        }
        fault("random bytes");
    }
    u32 n = c.range(0, 8);
    n = std::min(n, c.range(bytes == good, 8));
    if (bytes == good && !n) {
        n = 1;
    }
    for (u32 i = 0; i < n; ++i) {
        c.mark();
        corrupt(c, bytes, other);
    }
    if (bytes != good) {
        nontrivial();
    }
    Bytes in(c.pick(3), 0x77);
    std::size_t p0 = in.size();
    in.insert(in.end(), bytes.begin(), bytes.end());
    ev("%s %s, %zu bytes, %zu before", cfg.name, item_ops[it].name, bytes.size(), p0);
    ev_bytes("input", in.data(), in.size());

    Obj want(it);
    Dec d(bytes.data(), bytes.size(), cfg.wire);
    want.dec(d);

    Own<Buf> b(cfg.make(in.data(), in.size()));
    Own<InA> a(b->in());
    // a protobuf message keeps the scalars it does not find: those targets start fresh
    const bool may_dirty = !(item_ops[it].flags & F_PB);
    bool dirty = may_dirty && c.pick(3) == 0;
    Res last;
    for (int round = 0; round < 2; ++round) {
        c.mark();
        Obj got(it);
        if (dirty) {
            got.gen(c);
        }
        a->set_pos(p0);
        Res r;
        {
            Window w;
            r = a->read(it, got.p);
        }
        std::size_t pos = a->pos();
        ev("read -> %s position %zu; model %s %zu%s%s", res_name(r).c_str(), pos, code_name(d.code), d.pos, d.huge ? " huge" : "",
           d.mismatch ? " undecided" : "");
        state(hmix(hmix(u64(it), u64(cfg.k)), hmix(u64(r.code + int(r.exc) * 1000), std::min<std::size_t>(d.pos, 48))));
        REQ(pos >= p0 && pos <= in.size(), "position", "%s %s: position %zu outside [%zu, %zu]", cfg.name, item_ops[it].name, pos, p0,
            in.size());
        REQ(b->size() == in.size() && !std::memcmp(b->data(), in.data(), in.size()), "input-modified", "%s: the input buffer changed",
            item_ops[it].name);
        if (r.exc) {
            REQ(r.exc == Res::bad_alloc || r.exc == Res::length_error, "exception", "%s %s: %s", cfg.name, item_ops[it].name,
                exc_name(r.exc));
            REQ(d.huge || d.mismatch, "allocation", "%s %s: %s (biggest request %llu, total %llu) though no length in the input is large", cfg.name,
                item_ops[it].name, exc_name(r.exc), (unsigned long long) heap.biggest, (unsigned long long) heap.bytes);
            probe("huge length ended in an allocation exception");
        } else {
            switch (r.code) {
            case OK:
            case RANGE:
            case MSGSIZE:
            case BADMSG:
            case TOOLARGE:
            case PROTO:
                break;
            default:
                REQ(false, "undocumented", "%s %s: code %d", cfg.name, item_ops[it].name, r.code);
            }
            if (d.mismatch || d.huge || d.over_limit) {
                probe("model does not decide: safety only");
                REQ(!d.over_limit || d.mismatch || d.huge || !r.ok() || !d.code, "accepted", "%s %s: accepted, the format says %s: %s",
                    cfg.name, item_ops[it].name, code_name(d.code), hex(bytes).c_str());
            } else {
                REQ(r.code == d.code, r.ok() ? "accepted" : d.code ? "code" : "rejected", "%s %s: %s, the format says %s: %s", cfg.name,
                    item_ops[it].name, code_name(r.code), code_name(d.code), hex(bytes).c_str());
                if (r.ok()) {
                    REQ(pos == p0 + d.pos, "consumed", "%s %s: consumed %zu, the format says %zu", cfg.name, item_ops[it].name, pos - p0,
                        d.pos);
                    REQ(got.canon() == want.canon(), "value", "%s %s: another value: %s", cfg.name, item_ops[it].name, hex(bytes).c_str());
                    probe("accepted after corruption");
                } else {
                    probe("rejected");
                }
            }
        }
        if (round && !d.huge) { // whether a huge length meets the heap cap depends on what the target holds
            REQ(r == last, "nondeterministic", "the same bytes gave %s, then %s", res_name(last).c_str(), res_name(r).c_str());
        }
        last = r;
        // the target is a valid object: it can be written to again
        Msg m(c, cfg, it);
        if (m.ok) {
            Own<Buf> gb(cfg.make(m.bytes.data(), m.bytes.size()));
            Own<InA> ga(gb->in());
            Res gr = ga->read(it, got.p);
            REQ(gr.ok() && got.canon() == m.seen.canon(), "afterwards", "%s %s: a good message after the bad one: %s", cfg.name,
                item_ops[it].name, res_name(gr).c_str());
        }
        if (c.pick(2)) {
            break;
        }
        dirty = may_dirty && !dirty;
    }
}
} // namespace sim
