// C18: cursors of several archives over one buffer against a byte tape.
#include "world.h"

#include "configs.h"

namespace sim
{
const WorldInfo world_info = {
    "C18",
    "A run opens 1..3 output and 1..3 input archives on one buffer and performs 3..40 operations on them in a random interleaving: "
    "writes and reads of one or two objects of random types at wherever the cursors stand, position changes, resets, new archives, "
    "bytes arriving, leaving and rotting, with allocations and resizes of the buffer failing. After every operation the position, "
    "processed_data and remaining_data of every archive and every byte of the buffer are compared with a byte tape and integer "
    "cursors. Non-trivial: at least two archives moved and the buffer was overwritten, read back or met a failure; distinct by the "
    "recorded choices.",
    "(operation, type, configuration, result, cursor at the start / inside / at the end, other cursor before / at / behind)",
    "zpp::bits::in and out over every configuration, position, reset, processed_data, remaining_data",
    "the buffer, the heap and its failures"};

struct Spot
{
    std::size_t at;
    int it;
};
struct Shared
{
    Ch & c;
    const Cfg & cfg;
    Own<Buf> b;
    Bytes tape;
    mvec<OutA *> outs;
    mvec<std::size_t> op;
    mvec<InA *> ins;
    mvec<std::size_t> ip;
    mvec<Spot> spots;
    u64 moved = 0;
    u64 hits = 0;

    Shared(Ch & c_, const Cfg & cfg_, const Bytes & first) : c(c_), cfg(cfg_), b(cfg_.make(first.data(), first.size())), tape(first)
    {
    }
    ~Shared()
    {
        for (auto p : outs) {
            delete p;
        }
        for (auto p : ins) {
            delete p;
        }
    }
    void open_out()
    {
        outs.push_back(b->out());
        op.push_back((cfg.flags & C_APPEND) ? tape.size() : 0);
    }
    void open_in()
    {
        ins.push_back(b->in());
        ip.push_back(0);
    }
    // archives over a snapshot of a growable buffer cannot outlive a change of it
    void changed()
    {
        if (b->growable() && !b->live()) {
            for (std::size_t i = 0; i < ins.size(); ++i) {
                delete ins[i];
                ins[i] = b->in();
                REQ(ins[i]->pos() == 0, "initial-position", "%s: an input archive starts at %zu", cfg.name, ins[i]->pos());
                ins[i]->set_pos(ip[i]);
            }
        }
    }
    void view(const char * what, std::size_t i, std::size_t pos, std::size_t want, std::span<const u8> done, std::span<const u8> rest)
    {
        REQ(pos == want, "cursor", "%s: %s archive %zu stands at %zu, the model at %zu", cfg.name, what, i, pos, want);
        if (tape.empty()) {
            REQ(done.empty() && rest.empty(), "empty", "%s: %zu and %zu bytes in an empty buffer", cfg.name, done.size(), rest.size());
            return;
        }
        REQ(done.data() == b->data() && done.size() == want, "processed-data", "%s: processed_data of %s archive %zu has %zu bytes at "
            "offset %td, its position is %zu", cfg.name, what, i, done.size(), done.data() - b->data(), want);
        REQ(rest.data() == b->data() + want && rest.size() == tape.size() - want, "remaining-data", "%s: remaining_data of %s archive %zu "
            "has %zu bytes at offset %td, position %zu of %zu", cfg.name, what, i, rest.size(), rest.data() - b->data(), want, tape.size());
    }
    void check()
    {
        REQ(b->size() == tape.size(), "size", "%s: the buffer has %zu bytes, the model %zu", cfg.name, b->size(), tape.size());
        if (!tape.empty() && std::memcmp(b->data(), tape.data(), tape.size())) {
            std::size_t i = 0;
            while (b->data()[i] == tape[i]) {
                ++i;
            }
            REQ(false, "bytes", "%s: byte %zu is %02x, the model has %02x", cfg.name, i, b->data()[i], tape[i]);
        }
        for (std::size_t i = 0; i < outs.size(); ++i) {
            view("output", i, outs[i]->pos(), op[i], outs[i]->processed(), outs[i]->remaining());
            REQ(outs[i]->size() == tape.size(), "data", "%s: data() of output archive %zu has %zu bytes of %zu", cfg.name, i,
                outs[i]->size(), tape.size());
        }
        for (std::size_t i = 0; i < ins.size(); ++i) {
            view("input", i, ins[i]->pos(), ip[i], ins[i]->processed(), ins[i]->remaining());
        }
    }
    void note(u32 kind, int it, const Res & r, std::size_t p, std::size_t other)
    {
        u64 where = p == 0 ? 0 : p == tape.size() ? 2 : 1;
        u64 rel = other < p ? 0 : other == p ? 1 : 2;
        state(hmix(hmix(kind, u64(it + 1)), hmix(u64(cfg.k), hmix(u64(r.code + int(r.exc) * 1000), where * 3 + rel))));
    }
    void write(bool two)
    {
        u32 i = c.pick(u32(outs.size()));
        int it = pick_item(c, cfg);
        Obj v(it), u(it);
        v.gen(c);
        Enc e = v.enc(cfg.wire);
        std::size_t first = e.b.size();
        if (two) {
            u.gen(c);
            Enc f = u.enc(cfg.wire);
            e.overflow |= f.overflow;
            e.b.insert(e.b.end(), f.b.begin(), f.b.end());
        }
        if (e.b.size() > 4000 || tape.size() > 20000) {
            return;
        }
        std::size_t p = op[i], s0 = tape.size(), add = e.b.size(), end = p + add;
        u64 fail = c.chance(1, 6) ? c.range(1, 4) : 0;
        SimBuffer::resizes = 0;
        SimBuffer::fail_resize_at = c.chance(1, 8) ? c.range(1, 3) : 0;
        Res r;
        u64 failed;
        {
            Window w(fail);
            r = two ? outs[i]->write2(it, v.p, u.p) : outs[i]->write(it, v.p);
            failed = heap.failed;
        }
        bool refused = SimBuffer::fail_resize_at && SimBuffer::resizes >= SimBuffer::fail_resize_at;
        SimBuffer::fail_resize_at = 0;
        std::size_t pos = outs[i]->pos(), s1 = b->size();
        ev("output %u writes %s%s: %zu bytes at %zu of %zu -> %s, %zu of %zu", i, two ? "two " : "", item_ops[it].name, add, p, s0,
           res_name(r).c_str(), pos, s1);
        note(1 + two, it, r, p, op[(i + 1) % op.size()]);
        REQ(pos <= s1 && pos >= p, "position", "%s %s: position %zu of %zu, started at %zu", cfg.name, item_ops[it].name, pos, s1, p);
        REQ(s1 >= s0 || refused, "shrunk", "%s %s: the buffer went from %zu to %zu bytes", cfg.name, item_ops[it].name, s0, s1);
        REQ(!p || !std::memcmp(b->data(), tape.data(), p), "earlier-bytes", "%s %s: bytes before the position changed", cfg.name,
            item_ops[it].name);
        if (!r.ok()) {
            ++hits;
            if (r.exc) {
                REQ(r.exc == Res::bad_alloc && (failed || refused), "exception", "%s %s: %s", cfg.name,
                    item_ops[it].name, exc_name(r.exc));
                fault(failed ? "allocation failed in a write" : "resize of the buffer failed in a write");
            } else {
                bool full = ((cfg.flags & C_FIXED) && r.code == RANGE) || ((cfg.flags & C_LIMIT_OUT) && r.code == NOSPACE);
                REQ(full || (e.overflow && r.code == MSGSIZE), "refused", "%s %s: %s for %zu bytes at %zu of %zu", cfg.name, item_ops[it].name, res_name(r).c_str(), add,
                    p, s0);
                // a variable-length integer asks for the most it can take
                REQ(!(cfg.flags & C_FIXED) || e.overflow || end + 10 > s0, "refused", "%s %s: no space for %zu bytes at %zu of %zu", cfg.name,
                    item_ops[it].name, add, p, s0);
                fault(e.overflow ? "length prefix overflow" : "no space");
            }
            if (!(item_ops[it].flags & F_PB) && s0 > pos && s1 > pos) {
                REQ(!std::memcmp(b->data() + pos, tape.data() + pos, std::min(s0, s1) - pos), "later-bytes",
                    "%s %s: a failed write changed bytes behind its position", cfg.name, item_ops[it].name);
            }
            op[i] = pos;
            tape.assign(b->data(), b->data() + s1);
            changed();
            return;
        }
        REQ(!e.overflow, "overflow", "%s %s: accepted though its length does not fit the prefix", cfg.name, item_ops[it].name);
        REQ(!failed && !refused, "swallowed", "%s %s: a failed %s went unreported", cfg.name, item_ops[it].name,
            failed ? "allocation" : "resize");
        REQ(pos == end, "advance", "%s %s: moved by %zu, the encoding has %zu bytes", cfg.name, item_ops[it].name, pos - p, add);
        if (cfg.flags & C_NOFIT) { // what lies behind the position in the grown part is open
            REQ(s1 >= end, "size", "%s: ends at %zu before %zu", cfg.name, s1, end);
            tape.insert(tape.end(), b->data() + s0, b->data() + s1);
        } else if (end > s0) {
            tape.resize(end);
        }
        std::copy(e.b.begin(), e.b.end(), tape.begin() + long(p));
        if (p < s0) {
            probe("wrote inside the buffer");
            ++hits;
        }
        spots.push_back({p, it});
        if (two) {
            spots.push_back({p + first, it});
        }
        op[i] = end;
        moved |= 1u << i;
        changed();
    }
    void read(bool two)
    {
        u32 i = c.pick(u32(ins.size()));
        int it;
        if (!spots.empty() && c.pick(4)) { // where something was written
            Spot s = spots[c.pick(u32(spots.size()))];
            it = s.it;
            if (s.at <= tape.size()) {
                ip[i] = s.at;
                c.pick(2) ? ins[i]->reset(s.at) : ins[i]->set_pos(s.at);
            }
        } else {
            it = pick_item(c, cfg);
        }
        std::size_t p = ip[i];
        Obj want(it), want2(it), got(it), got2(it);
        Dec d(tape.data() + p, tape.size() - p, cfg.wire);
        want.dec(d);
        if (two && !d.code) {
            want2.dec(d);
        }
        u64 fail = c.chance(1, 6) ? c.range(1, 4) : 0;
        Res r;
        u64 failed;
        {
            Window w(fail);
            r = two ? ins[i]->read2(it, got.p, got2.p) : ins[i]->read(it, got.p);
            failed = heap.failed;
        }
        std::size_t pos = ins[i]->pos();
        ev("input %u reads %s%s at %zu of %zu -> %s, %zu; model %s %zu", i, two ? "two " : "", item_ops[it].name, p, tape.size(),
           res_name(r).c_str(), pos, code_name(d.code), p + d.pos);
        note(3 + two, it, r, p, op[0]);
        REQ(pos >= p && pos <= tape.size(), "position", "%s %s: read from %zu stands at %zu of %zu", cfg.name, item_ops[it].name, p, pos,
            tape.size());
        bool unsure = d.mismatch || d.huge || d.over_limit || d.bad_bool;
        if (r.ok()) {
            REQ(!failed, "swallowed", "%s %s: a failed allocation went unreported", cfg.name, item_ops[it].name);
            if (!unsure) {
                REQ(!d.code, "accepted", "%s %s: accepted, the model says %s", cfg.name, item_ops[it].name, code_name(d.code));
                REQ(pos == p + d.pos, "advance", "%s %s: moved by %zu, the encoding has %zu bytes", cfg.name, item_ops[it].name, pos - p,
                    d.pos);
                REQ(got.canon() == want.canon() && (!two || got2.canon() == want2.canon()), "value", "%s %s: read another value than the one "
                    "at its position", cfg.name, item_ops[it].name);
                probe("read back");
                ++hits;
            }
            moved |= 0x100u << i;
        } else {
            ++hits;
            if (failed) {
                fault("allocation failed in a read");
                REQ(r.exc == Res::bad_alloc, "exception", "%s %s: %s", cfg.name, item_ops[it].name, res_name(r).c_str());
            } else {
                fault("read of something else");
                REQ(unsure || (!r.exc && r.code == d.code), "rejected", "%s %s: %s, the model says %s", cfg.name, item_ops[it].name,
                    res_name(r).c_str(), code_name(d.code));
            }
        }
        ip[i] = pos;
    }
    void seek()
    {
        bool o = c.pick(2);
        u32 i = c.pick(u32(o ? outs.size() : ins.size()));
        std::size_t & at = o ? op[i] : ip[i];
        switch (c.pick(5)) {
        case 0:
            at = 0;
            break;
        case 1:
            at = tape.size();
            break;
        case 2: // where another archive stands
            at = c.pick(2) ? op[c.pick(u32(op.size()))] : ip[c.pick(u32(ip.size()))];
            break;
        default:
            at = c.pick(u32(tape.size() + 1));
        }
        bool r = c.pick(2);
        ev("%s %u %s %zu", o ? "output" : "input", i, r ? "reset to" : "position set to", at);
        o ? (r ? outs[i]->reset(at) : outs[i]->set_pos(at)) : (r ? ins[i]->reset(at) : ins[i]->set_pos(at));
    }
    void outside()
    {
        if (c.pick(3) == 0 && !tape.empty()) {
            std::size_t k = c.pick(u32(tape.size()));
            u8 m = u8(1u << c.pick(8));
            tape[k] ^= m;
            b->wdata()[k] ^= m;
            fault("bit flipped in the buffer");
            ev("bit %02x of byte %zu flips", m, k);
            return;
        }
        if (!b->growable()) {
            return;
        }
        if (c.pick(2)) {
            Bytes more(c.range(1, 24));
            for (auto & x : more) {
                x = u8(c.integer(8));
            }
            b->append(more.data(), more.size());
            tape.insert(tape.end(), more.begin(), more.end());
            ev("%zu bytes arrive", more.size());
        } else {
            std::size_t k = c.pick(u32(tape.size() + 1));
            b->consume(k);
            tape.erase(tape.begin(), tape.begin() + long(k));
            spots.clear();
            auto clamp = [&](std::size_t & x) { x = std::min(x, tape.size()); };
            for (std::size_t i = 0; i < outs.size(); ++i) {
                clamp(op[i]);
                outs[i]->set_pos(op[i]);
            }
            for (std::size_t i = 0; i < ins.size(); ++i) {
                clamp(ip[i]);
                ins[i]->set_pos(ip[i]);
            }
            ev("%zu bytes leave", k);
        }
        changed();
    }
};

void world_run(Ch & c)
{
    const Cfg & cfg = pick_cfg(c);
    std::size_t n0 = c.pick(4) ? c.pick(200) : c.pick(8);
    if (!(cfg.flags & C_FIXED)) {
        n0 = c.pick(3) ? 0 : c.pick(48);
    }
    Bytes first;
    for (std::size_t i = 0; i < n0; ++i) {
        first.push_back(u8(i * 7 + 1));
    }
    Shared s(c, cfg, first);
    u32 no = c.range(1, 3), ni = c.range(1, 3);
    for (u32 i = 0; i < no; ++i) {
        s.open_out();
    }
    for (u32 i = 0; i < ni; ++i) {
        s.open_in();
    }
    ev("%s, %zu bytes, %u outputs, %u inputs", cfg.name, n0, no, ni);
    s.check();
    u32 n = c.range(3, 40);
    for (u32 k = 0; k < n; ++k) {
        c.mark();
        switch (c.pick(12)) {
        case 0:
        case 1:
        case 2:
        case 3:
            s.write(false);
            break;
        case 4:
            s.write(true);
            break;
        case 5:
        case 6:
        case 7:
            s.read(false);
            break;
        case 8:
            s.read(true);
            break;
        case 9:
            s.seek();
            break;
        case 10:
            s.outside();
            break;
        default: // an archive goes and another comes
            if (c.pick(2)) {
                u32 i = c.pick(u32(s.outs.size()));
                delete s.outs[i];
                s.outs[i] = s.b->out();
                s.op[i] = (cfg.flags & C_APPEND) ? s.tape.size() : 0;
                ev("output %u reopened", i);
            } else {
                u32 i = c.pick(u32(s.ins.size()));
                delete s.ins[i];
                s.ins[i] = s.b->in();
                s.ip[i] = 0;
                ev("input %u reopened", i);
            }
        }
        s.check();
    }
    if (s.hits && __builtin_popcountll(s.moved) >= 2) {
        nontrivial();
    }
}
} // namespace sim
