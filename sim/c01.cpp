// C01: a receiver that meets every torn prefix of a message.
#include "world.h"

namespace sim
{
const WorldInfo world_info = {
    "C01",
    "A run encodes one object of a random type, value and archive configuration (optionally preceded by another message in the "
    "same buffer), delivers growing prefixes of it, each in a buffer of exactly its size, and retries the decode after every "
    "delivery into a fresh or the same target; the last delivery is complete and may be followed by foreign bytes. Non-trivial: "
    "at least one strict, non-empty prefix was attempted; distinct by the recorded choices.",
    "(configuration, type, cut position relative to the message, result)",
    "zpp::bits::out and zpp::bits::in with all their options, over vector, string, span and user buffers",
    "arrival of bytes (torn prefixes), the receiver's buffer"};

void world_run(Ch & c)
{
    const Cfg & cfg = pick_cfg(c);
    int it = pick_item(c, cfg);
    Msg m(c, cfg, it);
    if (!m.ok) {
        probe("skipped: over the limits of the configuration");
        return;
    }
    ev("config %s type %s size %zu", cfg.name, item_ops[it].name, m.bytes.size());
    Bytes lead;
    if (c.chance(1, 3)) {
        lead.resize(c.range(1, 9), 0x5a);
    }
    const std::size_t p0 = lead.size(), n = m.bytes.size();

    // the sender is the real library
    Bytes whole;
    {
        Bytes start = lead;
        if (cfg.flags & C_FIXED) {
            start.resize(p0 + n);
        }
        Own<Buf> b(cfg.make(start.data(), start.size()));
        Own<OutA> o(b->out());
        o->set_pos(p0);
        Res r = o->write(it, m.sent.p);
        if ((cfg.flags & C_LIMIT_OUT) && r.code == NOSPACE) {
            probe("sender over its own limit: model bytes used");
            whole = lead;
            whole.insert(whole.end(), m.bytes.begin(), m.bytes.end());
        } else {
        REQ(r.ok(), "send", "encoding %s failed: %s", item_ops[it].name, res_name(r).c_str());
        std::size_t end = o->pos();
        REQ(end <= b->size() && end >= p0, "send", "position %zu outside the buffer of %zu", end, b->size());
        whole.assign(b->data(), b->data() + end);
        }
    }
    const std::size_t total = whole.size();
    REQ(total >= p0 && !std::memcmp(whole.data(), lead.data(), p0), "send", "bytes before the message changed");
    // what a complete delivery must give is decided by the model, over the bytes really sent
    Obj want(it);
    {
        Dec d(whole.data() + p0, total - p0, cfg.wire);
        want.dec(d);
        REQ(!d.code && d.pos == total - p0, "send", "the bytes sent are not an encoding: %s at %zu of %zu: %s", code_name(d.code), d.pos,
            total - p0, hex(whole).c_str());
    }
    // delivery schedule
    mvec<std::size_t> cuts;
    if (total - p0 <= 48 && c.chance(1, 2)) {
        for (std::size_t k = 0; k < total - p0; ++k) {
            cuts.push_back(k);
        }
    } else {
        u32 k = c.range(1, 12);
        for (u32 i = 0; i < k && total > p0; ++i) {
            std::size_t at;
            switch (c.pick(3)) {
            case 0:
                at = c.pick(u32(total - p0));
                break;
            case 1: // just before the end
                at = total - p0 - 1 - c.pick(u32(std::min<std::size_t>(total - p0, 9)));
                break;
            default: // around the first prefixes
                at = c.pick(u32(std::min<std::size_t>(total - p0, 12)));
            }
            cuts.push_back(at);
        }
        std::sort(cuts.begin(), cuts.end());
        cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    }
    bool same_target = c.pick(2);
    bool multi = c.chance(1, 4); // the message is read twice in one call
    Obj target(it);
    bool used = false;
    for (std::size_t cut : cuts) {
        c.mark();
        if (!same_target) {
            target = Obj(it);
        }
        // a multi-object call gets the complete message, then a torn copy of it
        Bytes in(whole.begin(), whole.begin() + long(multi ? total : p0 + cut));
        if (multi) {
            in.insert(in.end(), whole.begin() + long(p0), whole.begin() + long(p0 + cut));
        }
        Own<Buf> b(cfg.make(in.data(), in.size()));
        Own<InA> a(b->in());
        a->set_pos(p0);
        Res r;
        if (multi) {
            Obj first(it);
            r = a->read2(it, first.p, target.p);
        } else {
            r = a->read(it, target.p);
        }
        fault("torn message");
        if (cut) {
            nontrivial();
        }
        std::size_t pos = a->pos();
        ev("prefix %zu of %zu -> %s position %zu", cut, total - p0, res_name(r).c_str(), pos);
        state(hmix(hmix(u64(it) * 64 + u64(&cfg - cfgs), std::min<std::size_t>(cut, 64)), u64(r.code)));
        REQ(!r.ok(), "torn-accepted", "%s %s: %zu of %zu bytes were accepted as a whole message", cfg.name, item_ops[it].name, cut, total - p0);
        REQ(r.exc == Res::none, "torn-exception", "%s %s: %s from %zu of %zu bytes", cfg.name, item_ops[it].name, exc_name(r.exc), cut,
            total - p0);
        REQ(r.code == RANGE, "torn-code", "%s %s: %s instead of result_out_of_range from %zu of %zu bytes", cfg.name, item_ops[it].name,
            code_name(r.code), cut, total - p0);
        REQ(pos <= in.size() && pos >= p0, "torn-position", "position %zu outside [%zu, %zu] after a torn read", pos, p0, in.size());
        REQ(b->size() == in.size() && !std::memcmp(b->data(), in.data(), in.size()), "input-modified", "the input buffer changed");
        used = true;
    }
    // completion, perhaps with foreign bytes behind it
    c.mark();
    Bytes in = whole;
    u32 extra = c.chance(1, 2) ? c.range(1, 20) : 0;
    for (u32 i = 0; i < extra; ++i) {
        in.push_back(u8(c.integer(8)));
    }
    if (!same_target) {
        target = Obj(it);
    }
    Own<Buf> b(cfg.make(in.data(), in.size()));
    Own<InA> a(b->in());
    if (c.pick(2)) {
        a->set_pos(p0);
    } else {
        a->reset(p0);
    }
    Res r = a->read(it, target.p);
    ev("complete, %u foreign bytes -> %s position %zu", extra, res_name(r).c_str(), a->pos());
    REQ(r.ok(), "complete-rejected", "%s %s: the complete message (%zu bytes) was rejected: %s", cfg.name, item_ops[it].name, total - p0,
        res_name(r).c_str());
    REQ(a->pos() == total, "complete-position", "%s %s: position %zu after a message that ends at %zu", cfg.name, item_ops[it].name,
        a->pos(), total);
    REQ(target.canon() == want.canon(), "complete-value", "%s %s: %s value differs after the retry", cfg.name, item_ops[it].name,
        used && same_target ? "reused target," : "");
    probe(extra ? "completed with bytes behind" : "completed exactly");
}
} // namespace sim
