// C19: decoding into objects that have a past.
#include "damage.h"

#include "configs.h"

namespace sim
{
const WorldInfo world_info = {
    "C19",
    "A run keeps 1..3 objects of one random type and decodes 2..12 messages into them, from nodes of random configurations: whole "
    "ones, torn ones, damaged ones, bytes of another type, with an allocation failing at a random point, or fills them by hand, and "
    "then whole messages again. Every successful decode must leave the value that a fresh object gets. Non-trivial: a decode succeeded "
    "into an object that held something else or had failed to decode; distinct by the recorded choices.",
    "(type, configuration, what the object went through last, result)",
    "zpp::bits::in over every configuration and type, libc++ containers", "damage to the messages, the heap and its failures"};

void world_run(Ch & c)
{
    const Cfg & first = pick_cfg(c);
    int it = pick_item(c, first);
    const bool pb = item_ops[it].flags & F_PB;
    u32 n_obj = c.range(1, 3);
    mvec<Obj *> objs;
    struct Clean
    {
        mvec<Obj *> & o;
        ~Clean()
        {
            for (auto p : o) {
                delete p;
            }
        }
    } clean{objs};
    int past[3] = {};
    for (u32 i = 0; i < n_obj; ++i) {
        objs.push_back(new Obj(it));
    }
    ev("%s, %u objects", item_ops[it].name, n_obj);
    u32 n = c.range(2, 12);
    for (u32 k = 0; k < n; ++k) {
        c.mark();
        u32 i = c.pick(n_obj);
        Obj & o = *objs[i];
        if (c.chance(1, 6)) {
            o.gen(c);
            past[i] = 1;
            ev("object %u filled by hand", i);
            continue;
        }
        const Cfg * cfg = &pick_cfg(c);
        if (!cfg->has(it)) {
            cfg = &first;
        }
        Obj v(it);
        v.gen(c);
        Enc e = v.enc(cfg->wire);
        if (e.overflow) {
            continue;
        }
        Bytes bytes = std::move(e.b);
        int kind = int(c.pick(6));
        bool whole = false;
        u64 fail = 0;
        switch (k + 1 == n ? 0 : kind) {
        case 0:
        case 1:
            whole = true;
            break;
        case 2:
            if (!bytes.empty()) {
                bytes.resize(c.pick(u32(bytes.size())));
                fault("torn message");
            }
            break;
        case 3: {
            Bytes other = bytes;
            for (u32 m = c.range(1, 3); m; --m) {
                corrupt(c, bytes, other);
            }
            break;
        }
        case 4: {
            int it2 = pick_item(c, *cfg);
            Obj u(it2);
            u.gen(c);
            bytes = u.enc(cfg->wire).b;
            fault("message of another type");
            break;
        }
        default:
            fail = c.range(1, 8);
            whole = true;
        }
        Obj want(it);
        Dec d(bytes.data(), bytes.size(), cfg->wire);
        want.dec(d);
        Own<Buf> b(cfg->make(bytes.data(), bytes.size()));
        Own<InA> a(b->in());
        Bytes before = o.canon();
        Res r;
        u64 failed;
        {
            Window w(fail);
            r = a->read(it, o.p);
            failed = heap.failed;
        }
        ev("object %u (%d): %s %zu bytes, kind %d -> %s; model %s", i, past[i], cfg->name, bytes.size(), kind, res_name(r).c_str(),
           code_name(d.code));
        ev_bytes("message", bytes.data(), bytes.size());
        state(hmix(hmix(u64(it), u64(cfg->k)), hmix(u64(past[i] * 8 + kind), u64(r.code + int(r.exc) * 1000))));
        if (failed) {
            fault("allocation failed in a decode");
            REQ(!r.ok(), "swallowed", "%s %s: a failed allocation went unreported", cfg->name, item_ops[it].name);
        }
        if (!r.ok()) {
            REQ(failed || !whole || d.code, "rejected", "%s %s: a whole message into a used object (%d): %s", cfg->name, item_ops[it].name,
                past[i], res_name(r).c_str());
            past[i] = failed ? 3 : 2;
            continue;
        }
        // a protobuf message keeps what it does not find: only complete ones determine it
        if (d.mismatch || d.huge || d.over_limit || d.bad_bool || (pb && !whole)) {
            past[i] = 4;
            continue;
        }
        REQ(!d.code, "accepted", "%s %s: accepted, the format says %s", cfg->name, item_ops[it].name, code_name(d.code));
        Bytes got = o.canon(), exp = want.canon();
        if (past[i] && before != exp) {
            nontrivial();
            probe(past[i] == 3 ? "after a failed allocation" : past[i] == 2 ? "after a rejected message" : past[i] == 4 ? "after an odd message" : "over another value");
        }
        REQ(got == exp, "mixture", "%s %s: decoded into a used object (%d) it has the value %s, into a fresh one %s", cfg->name,
            item_ops[it].name, past[i], hex(got).c_str(), hex(exp).c_str());
        Enc back = o.enc(cfg->wire);
        if (!(item_ops[it].flags & F_MAP) && whole) {
            REQ(back.b == bytes, "mixture", "%s %s: the used object encodes to other bytes", cfg->name, item_ops[it].name);
        }
        past[i] = 1;
    }
}
} // namespace sim
