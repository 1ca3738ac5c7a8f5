// C08: allocation failures at any point of serializing and deserializing.
#include "world.h"

#include "configs.h"

namespace sim
{
const WorldInfo world_info = {
    "C08",
    "A run serializes or deserializes one random object while chosen allocations (and buffer resizes) fail, up to three attempts on "
    "the same archive, buffer and target, resetting to where the operation began in between, then once with memory available, and "
    "compares with the run without failures; every allocation is accounted for at the end. Non-trivial: a failure fired; distinct by "
    "the recorded choices.",
    "(type, configuration, direction, which allocation failed of how many, attempt)",
    "zpp::bits::in and zpp::bits::out of every configuration, libc++ containers", "the heap (fails on demand, counts blocks)"};

static void fail_next(u64 k, u64 run)
{
    heap.fail_at = heap.allocs + k;
    heap.fail_run = run;
    heap.failed = 0;
}
static void no_more_failures()
{
    heap.fail_at = 0;
}

static void reading(Ch & c, const Cfg & cfg, int it)
{
    Msg m(c, cfg, it);
    if (!m.ok) {
        return;
    }
    Bytes lead(c.pick(5), u8(0x5a));
    Bytes all = lead;
    all.insert(all.end(), m.bytes.begin(), m.bytes.end());
    all.insert(all.end(), c.pick(3), u8(0xff));
    std::size_t p0 = lead.size(), p1 = p0 + m.bytes.size();
    u64 n = 0;
    {
        Window w;
        {
            Own<Buf> b(cfg.make(all.data(), all.size()));
            Own<InA> a(b->in());
            a->set_pos(p0);
            Obj x(it);
            u64 n0 = heap.allocs;
            Res r = a->read(it, x.p);
            n = heap.allocs - n0;
            REQ(r.ok() && a->pos() == p1, "baseline", "%s %s: %s at %zu", cfg.name, item_ops[it].name, res_name(r).c_str(), a->pos());
        }
        REQ(heap.live == 0, "leak", "%s %s: %lld blocks leaked without failures", cfg.name, item_ops[it].name, (long long) heap.live);
    }
    if (!n) {
        return;
    }
    ev("read %s %s: %zu bytes, %llu allocations", cfg.name, item_ops[it].name, m.bytes.size(), (unsigned long long) n);
    Window w;
    {
        Own<Buf> b(cfg.make(all.data(), all.size()));
        Own<InA> a(b->in());
        Obj x(it);
        u32 attempts = c.range(1, 3);
        for (u32 t = 0; t < attempts; ++t) {
            c.mark();
            u64 k = 1 + c.pick(u32(n)), run = c.chance(1, 5) ? 1u << 20 : c.range(1, 2);
            if (c.pick(2)) {
                a->set_pos(p0);
            } else {
                a->reset(p0);
            }
            fail_next(k, run);
            Res r = a->read(it, x.p);
            no_more_failures();
            u64 fired = heap.failed;
            std::size_t pos = a->pos();
            ev("allocation %llu of %llu fails (%llu) -> %s at %zu", (unsigned long long) k, (unsigned long long) n, (unsigned long long) fired,
               res_name(r).c_str(), pos);
            state(hmix(hmix(u64(it), u64(cfg.k)), hmix(k * 1000 + n, t)));
            REQ(pos <= all.size(), "position", "%s %s: position %zu of %zu", cfg.name, item_ops[it].name, pos, all.size());
            if (fired) {
                fault("allocation failure", fired);
                nontrivial();
                REQ(r.exc == Res::bad_alloc, "swallowed", "%s %s: the failed allocation became %s", cfg.name, item_ops[it].name,
                    res_name(r).c_str());
            } else {
                REQ(r.ok() && pos == p1, "failed", "%s %s: %s at %zu", cfg.name, item_ops[it].name, res_name(r).c_str(), pos);
                REQ(x.canon() == m.seen.canon(), "value", "%s %s: another value after failed attempts", cfg.name, item_ops[it].name);
            }
            if (c.chance(1, 4)) { // what the failure left behind can be destroyed
                x = Obj(it);
            }
        }
        a->reset(p0);
        if (c.chance(1, 3)) {
            a.reset(b->in());
            a->set_pos(p0);
        }
        Res r = a->read(it, x.p);
        ev("retry -> %s at %zu", res_name(r).c_str(), a->pos());
        REQ(r.ok() && a->pos() == p1, "retry", "%s %s: the retry gives %s at %zu", cfg.name, item_ops[it].name, res_name(r).c_str(), a->pos());
        REQ(x.canon() == m.seen.canon(), "value", "%s %s: the retry gives another value", cfg.name, item_ops[it].name);
        REQ(!std::memcmp(b->data(), all.data(), all.size()), "input", "%s %s: the input changed", cfg.name, item_ops[it].name);
    }
    REQ(heap.live == 0, "leak", "%s %s: %lld blocks leaked", cfg.name, item_ops[it].name, (long long) heap.live);
}

static void writing(Ch & c, const Cfg & cfg, int it)
{
    Obj v(it);
    v.gen(c);
    Enc e = v.enc(cfg.wire);
    if (e.overflow) {
        return;
    }
    Bytes before = v.canon();
    Bytes content;
    u32 n0 = c.pick(3) ? c.pick(40) : 0;
    for (u32 i = 0; i < n0; ++i) {
        content.push_back(u8(i * 5 + 3));
    }
    std::size_t p0 = c.pick(2) ? n0 : c.pick(n0 + 1);
    const bool simbuf = cfg.k == 9;
    u64 n = 0;
    std::size_t s_want = 0;
    {
        Window w;
        {
            Own<Buf> b(cfg.make(content.data(), content.size()));
            Own<OutA> a(b->out());
            a->set_pos(p0);
            u64 k0 = heap.allocs, r0 = SimBuffer::resizes;
            Res r = a->write(it, v.p);
            n = simbuf ? SimBuffer::resizes - r0 : heap.allocs - k0;
            if (r.code == NOSPACE && (cfg.flags & C_LIMIT_OUT)) {
                return;
            }
            s_want = b->size();
            REQ(r.ok() && a->pos() == p0 + e.b.size(), "baseline", "%s %s: %s", cfg.name, item_ops[it].name, res_name(r).c_str());
        }
        REQ(heap.live == 0, "leak", "%s %s: %lld blocks leaked without failures", cfg.name, item_ops[it].name, (long long) heap.live);
    }
    if (!n) {
        return;
    }
    ev("write %s %s: %zu bytes at %zu of %u, %llu allocations", cfg.name, item_ops[it].name, e.b.size(), p0, n0, (unsigned long long) n);
    Window w;
    {
        Own<Buf> b(cfg.make(content.data(), content.size()));
        Own<OutA> a(b->out());
        u32 attempts = c.range(1, 3);
        for (u32 t = 0; t < attempts; ++t) {
            c.mark();
            u64 k = 1 + c.pick(u32(n));
            if (c.pick(2)) {
                a->set_pos(p0);
            } else {
                a->reset(p0);
            }
            u64 fired;
            if (simbuf) {
                SimBuffer::fail_resize_at = SimBuffer::resizes + k;
            } else {
                fail_next(k, c.chance(1, 5) ? 1u << 20 : 1);
            }
            Res r = a->write(it, v.p);
            if (simbuf) {
                fired = SimBuffer::resizes >= SimBuffer::fail_resize_at;
                SimBuffer::fail_resize_at = 0;
            } else {
                fired = heap.failed;
                no_more_failures();
            }
            std::size_t pos = a->pos(), s1 = b->size();
            ev("%s %llu of %llu fails (%llu) -> %s at %zu of %zu", simbuf ? "resize" : "allocation", (unsigned long long) k,
               (unsigned long long) n, (unsigned long long) fired, res_name(r).c_str(), pos, s1);
            state(hmix(hmix(u64(it), u64(cfg.k)), hmix(k * 1000 + n, t + 10)));
            REQ(pos <= s1 && pos >= p0, "position", "%s %s: position %zu of %zu", cfg.name, item_ops[it].name, pos, s1);
            if (fired) {
                fault(simbuf ? "buffer resize failure" : "allocation failure", fired);
                nontrivial();
                REQ(r.exc == Res::bad_alloc, "swallowed", "%s %s: the failure became %s", cfg.name, item_ops[it].name, res_name(r).c_str());
            } else if (r.code == NOSPACE && (cfg.flags & C_LIMIT_OUT)) {
                probe("growth from another size met the limit");
            } else {
                REQ(r.ok() && pos == p0 + e.b.size(), "failed", "%s %s: %s at %zu", cfg.name, item_ops[it].name, res_name(r).c_str(), pos);
            }
            REQ(v.canon() == before, "object", "%s: the serialized object changed", item_ops[it].name);
            REQ(s1 >= p0 && !std::memcmp(b->data(), content.data(), p0), "earlier-bytes", "%s %s: bytes before the position changed",
                cfg.name, item_ops[it].name);
        }
        a->reset(p0);
        if (c.chance(1, 3)) {
            a.reset(b->out());
            a->set_pos(p0);
        }
        Res r = a->write(it, v.p);
        std::size_t pos = a->pos(), s1 = b->size();
        ev("retry -> %s at %zu of %zu", res_name(r).c_str(), pos, s1);
        // what the policy asks for depends on the size it grows from
        if (r.code == NOSPACE && (cfg.flags & C_LIMIT_OUT)) {
            probe("growth from another size met the limit");
            return;
        }
        REQ(r.ok() && pos == p0 + e.b.size(), "retry", "%s %s: the retry gives %s at %zu", cfg.name, item_ops[it].name, res_name(r).c_str(), pos);
        REQ(!std::memcmp(b->data(), content.data(), p0) && !std::memcmp(b->data() + p0, e.b.data(), e.b.size()), "bytes",
            "%s %s: the retry wrote other bytes", cfg.name, item_ops[it].name);
        REQ((cfg.flags & C_NOFIT) ? s1 >= pos : s1 == s_want, "fit", "%s %s: after the retry the buffer ends at %zu, without failures at %zu",
            cfg.name, item_ops[it].name, s1, s_want);
        REQ(n0 <= pos || !std::memcmp(b->data() + pos, content.data() + pos, n0 - pos), "later-bytes", "%s %s: bytes behind changed", cfg.name,
            item_ops[it].name);
    }
    REQ(heap.live == 0, "leak", "%s %s: %lld blocks leaked", cfg.name, item_ops[it].name, (long long) heap.live);
}

void world_run(Ch & c)
{
    SimBuffer::fail_resize_at = 0;
    const Cfg & cfg = pick_cfg(c);
    int it = pick_item(c, cfg);
    if (!(cfg.flags & C_FIXED) && c.pick(3) == 2) {
        writing(c, cfg, it);
    } else {
        for (int k = 0; k < 20 && !(item_ops[it].flags & (F_DYN | F_MAP | F_PTR | F_VARIANT)); ++k) {
            it = pick_item(c, cfg);
        }
        reading(c, cfg, it);
    }
}
} // namespace sim
