// C03: the same value written by nodes of every kind, whatever their archives and buffers went through.
#include "world.h"

namespace sim
{
const WorldInfo world_info = {
    "C03",
    "A run writes one random value at 1..4 nodes whose archives share the wire options but differ in buffer kind, growth policy, "
    "limits and history (dirty and reused buffers, earlier and failed writes, resets, offsets, multi-object calls), compares the "
    "bytes with an independent encoder, decodes them at other nodes and re-encodes. Non-trivial: the archive had a history or two "
    "nodes wrote; distinct by the recorded choices.",
    "(type, writer configuration, history kind, reader configuration)",
    "zpp::bits::out and zpp::bits::in of every node", "buffers and their earlier content, failing writes"};

void world_run(Ch & c)
{
    const Cfg & first = pick_cfg(c);
    mvec<const Cfg *> peers;
    for (int i = 0; i < n_cfgs; ++i) {
        if (cfgs[i].wire.same_wire(first.wire)) {
            peers.push_back(&cfgs[i]);
        }
    }
    int it = pick_item(c, first);
    Obj v(it);
    v.gen(c);
    Enc e = v.enc(first.wire);
    if (e.overflow) { // a message longer than its prefix can say has no encoding
        Bytes room((first.flags & C_FIXED) ? e.b.size() + 10 : 0);
        Own<Buf> b(first.make(room.data(), room.size()));
        Own<OutA> o(b->out());
        Res r = o->write(it, v.p);
        ev("%s %s: a message too long for its prefix -> %s", first.name, item_ops[it].name, res_name(r).c_str());
        nontrivial();
        fault("message longer than its prefix can say");
        REQ(!r.exc && (r.code == MSGSIZE || ((first.flags & C_LIMIT_OUT) && r.code == NOSPACE)), "overflow", "%s %s: %s for a message that "
            "no one can decode", first.name, item_ops[it].name, res_name(r).c_str());
        return;
    }
    const Bytes & want = e.b;
    Bytes v_canon = v.canon();
    ev("type %s, %zu bytes", item_ops[it].name, want.size());
    Bytes wire;
    u32 writers = c.range(1, 4);
    bool any = false;
    for (u32 k = 0; k < writers; ++k) {
        c.mark();
        const Cfg & cfg = k ? *peers[c.pick(u32(peers.size()))] : first;
        if (!cfg.has(it)) {
            continue;
        }
        // the buffer the node happens to have
        Bytes start;
        u32 kind = c.pick(4);
        std::size_t before = kind ? c.pick(40) : 0;
        bool fixed = cfg.flags & C_FIXED;
        std::size_t p0 = before ? c.pick(u32(before + 1)) : 0;
        if (fixed) {
            before = p0 + want.size() + (kind ? c.pick(20) : 0);
        }
        u8 fill = u8(c.pick(3) == 0 ? 0xff : c.integer(8));
        start.resize(before, fill);
        for (std::size_t i = 0; i < before && i < 8; ++i) {
            start[i] = u8(fill + i * 37);
        }
        Own<Buf> b(cfg.make(start.data(), start.size()));
        Own<OutA> o(b->out());
        std::size_t p = o->pos();
        REQ(p == ((cfg.flags & C_APPEND) ? before : 0), "initial-position", "%s starts at %zu", cfg.name, p);
        if (kind == 3) { // earlier traffic on the same archive
            u32 n = c.range(1, 3);
            for (u32 i = 0; i < n; ++i) {
                int it2 = pick_item(c, cfg);
                Obj u(it2);
                u.gen(c);
                Res r = o->write(it2, u.p);
                ev("history: %s -> %s", item_ops[it2].name, res_name(r).c_str());
                if (!r.ok()) {
                    fault("failed earlier write");
                }
            }
            if (fixed) { // make room again
                o->reset(p0);
            } else if (c.pick(2)) {
                o->reset(c.pick(u32(b->size() + 1)));
            } else if (o->pos() > b->size()) {
                o->set_pos(b->size());
            }
            any = true;
        } else if (kind) {
            o->set_pos(p0);
            any = true;
        }
        p = o->pos();
        std::size_t size0 = b->size();
        Bytes pre(b->data(), b->data() + std::min(p, size0));
        bool twice = c.chance(1, 5) && !fixed;
        Res r = twice ? o->write2(it, v.p, v.p) : o->write(it, v.p);
        ev("%s history %u at %zu of %zu%s -> %s %zu", cfg.name, kind, p, size0, twice ? " twice" : "", res_name(r).c_str(), o->pos());
        state(hmix(hmix(u64(it), u64(cfg.k)), hmix(kind * 2 + twice, want.size() > 64 ? 64 : want.size())));
        if (!r.ok()) {
            REQ((cfg.flags & C_LIMIT_OUT) && r.code == NOSPACE, "write-failed", "%s %s: %s", cfg.name, item_ops[it].name, res_name(r).c_str());
            probe("writer over its own limit");
            continue;
        }
        std::size_t n = want.size() * (twice ? 2 : 1);
        REQ(o->pos() == p + n && o->pos() <= b->size(), "length", "%s %s: wrote %zu bytes, the format has %zu", cfg.name, item_ops[it].name,
            o->pos() - p, n);
        for (int part = 0; part <= int(twice); ++part) {
            const u8 * got = b->data() + p + std::size_t(part) * want.size();
            REQ(!std::memcmp(got, want.data(), want.size()), "bytes", "%s %s: %s instead of %s", cfg.name, item_ops[it].name,
                hex(got, want.size()).c_str(), hex(want).c_str());
        }
        REQ(!std::memcmp(b->data(), pre.data(), pre.size()), "earlier-bytes", "%s: bytes before the position changed", cfg.name);
        wire.assign(b->data() + p, b->data() + p + want.size());
        if (k) {
            any = true;
        }
    }
    REQ(v.canon() == v_canon, "source-modified", "writing changed the object");
    if (any) {
        nontrivial();
    }
    if (wire.size() != want.size()) {
        wire = want; // no writer was allowed to: the readers still get the format's bytes
    }
    Obj ref(it);
    Wire free_wire = first.wire;
    free_wire.limit = unlimited;
    Dec d0(wire.data(), wire.size(), free_wire);
    ref.dec(d0);
    REQ(!d0.code && d0.pos == wire.size(), "model", "the model does not read its own bytes: %s", code_name(d0.code));
    Bytes ref_canon = ref.canon();
    // every kind of node reads them
    for (const Cfg * pc : peers) {
        c.mark();
        const Cfg & cfg = *pc;
        if (!cfg.has(it)) {
            continue;
        }
        Wire w = cfg.wire;
        Obj lim(it);
        Dec dl(wire.data(), wire.size(), w);
        lim.dec(dl);
        if (dl.code) {
            probe("reader over its own limit");
            continue;
        }
        u32 off = c.pick(4);
        Bytes in(off, 0xee);
        in.insert(in.end(), wire.begin(), wire.end());
        in.resize(in.size() + c.pick(5), 0xdd);
        Own<Buf> b(cfg.make(in.data(), in.size()));
        Own<InA> a(b->in());
        a->set_pos(off);
        Obj got(it);
        Res r = a->read(it, got.p);
        ev("read by %s -> %s %zu", cfg.name, res_name(r).c_str(), a->pos());
        state(hmix(hmix(u64(it), u64(cfg.k)), 0x777));
        REQ(r.ok(), "read", "%s %s: %s on bytes of another node: %s", cfg.name, item_ops[it].name, res_name(r).c_str(), hex(wire).c_str());
        REQ(a->pos() == off + wire.size(), "read-length", "%s %s: consumed %zu of %zu", cfg.name, item_ops[it].name, a->pos() - off,
            wire.size());
        REQ(got.canon() == ref_canon, "read-value", "%s %s: another value was read: %s", cfg.name, item_ops[it].name, hex(wire).c_str());
        // and relays them
        Enc e2 = got.enc(cfg.wire);
        if (!(item_ops[it].flags & F_MAP)) {
            REQ(e2.b == wire, "model", "re-encoding in the model differs");
        }
        const Cfg & out = *peers[c.pick(u32(peers.size()))];
        if (out.has(it) && !(out.flags & C_LIMIT_OUT)) {
            Bytes room((out.flags & C_FIXED) ? e2.b.size() : 0, 0xff);
            Own<Buf> rb(out.make(room.data(), room.size()));
            Own<OutA> ro(rb->out());
            Res rr = ro->write(it, got.p);
            REQ(rr.ok() && ro->pos() == e2.b.size() && !std::memcmp(rb->data(), e2.b.data(), e2.b.size()), "relay",
                "%s %s: re-encoding the decoded value gives %s: %s instead of %s", out.name, item_ops[it].name, res_name(rr).c_str(),
                hex(rb->data(), std::min(rb->size(), ro->pos())).c_str(), hex(e2.b).c_str());
            probe("relayed");
        }
    }
}
} // namespace sim
