// C02: a stream of messages over a faulty connection-oriented link.
#include "world.h"

#include <queue>

namespace sim
{
const WorldInfo world_info = {
    "C02",
    "A sender serializes 1..10 random objects through one or several output archives and streams the bytes over a simulated link "
    "that fragments, delays, stalls and disconnects; the receiver appends what arrives, decodes as long as that succeeds, treats "
    "result_out_of_range as 'wait', and after a disconnect resumes from its last delivered (or received) position. Non-trivial: "
    "at least one message arrived in several fragments; distinct by the recorded choices.",
    "(type, bytes of the message already there, result of the attempt, receiver style)",
    "zpp::bits::out and zpp::bits::in on both nodes", "clock, link, connection handling, receive buffer"};

struct Packet
{
    u64 at, seq;
    u32 epoch;
    u64 off;
    Bytes data;
    bool operator<(const Packet & o) const // earliest first
    {
        return at != o.at ? at > o.at : seq > o.seq;
    }
};

void world_run(Ch & c)
{
    const Cfg & tx = pick_cfg(c);
    mvec<const Cfg *> peers;
    for (int i = 0; i < n_cfgs; ++i) {
        if (cfgs[i].wire.same_wire(tx.wire)) {
            peers.push_back(&cfgs[i]);
        }
    }
    const Cfg & rx = *peers[c.pick(u32(peers.size()))];
    ev("sender %s, receiver %s", tx.name, rx.name);

    // what will be sent
    struct Sent
    {
        int it;
        Bytes canon;
        u64 begin, end;
    };
    std::vector<Sent, Mal<Sent>> msgs;
    Bytes stream;
    {
        u32 n = c.range(1, 10);
        bool reuse = c.pick(2); // one archive for the whole stream
        Bytes none;
        Own<Buf> b(tx.make(none.data(), 0));
        Own<OutA> o(b->out());
        for (u32 i = 0; i < n; ++i) {
            c.mark();
            int it = pick_item2(c, tx, rx);
            if (it < 0) {
                continue;
            }
            Msg m(c, tx, it);
            {
                Dec d(m.bytes.data(), m.bytes.size(), rx.wire);
                Obj o2(it);
                o2.dec(d);
                if (!m.ok || d.code) {
                    probe("skipped: over the limits of the configuration");
                    continue;
                }
            }
            Bytes enc;
            if (tx.flags & (C_FIXED | C_LIMIT_OUT)) {
                Bytes room(m.bytes.size() + c.pick(3), 0x11);
                Own<Buf> fb(tx.make(room.data(), room.size()));
                Own<OutA> fo(fb->out());
                Res r = fo->write(it, m.sent.p);
                if (!r.ok()) {
                    REQ(tx.flags & C_LIMIT_OUT, "send", "encoding failed: %s", res_name(r).c_str());
                    probe("sender over its own limit: message not sent");
                    continue;
                }
                enc.assign(fb->data(), fb->data() + fo->pos());
            } else {
                if (!reuse) {
                    o->reset(0);
                }
                std::size_t p0 = o->pos();
                Res r = o->write(it, m.sent.p);
                REQ(r.ok(), "send", "encoding failed: %s", res_name(r).c_str());
                REQ(o->pos() >= p0 && o->pos() <= b->size(), "send", "position %zu of %zu", o->pos(), b->size());
                enc.assign(b->data() + p0, b->data() + o->pos());
            }
            Obj want(it);
            Dec d(enc.data(), enc.size(), rx.wire);
            want.dec(d);
            REQ(!d.code && d.pos == enc.size(), "send", "%s: the bytes sent are not an encoding: %s", item_ops[it].name, hex(enc).c_str());
            msgs.push_back(Sent{it, want.canon(), stream.size(), stream.size() + enc.size()});
            stream.insert(stream.end(), enc.begin(), enc.end());
            ev("message %zu: %s, %zu bytes", msgs.size() - 1, item_ops[it].name, enc.size());
        }
        if (reuse && !(tx.flags & (C_FIXED | C_LIMIT_OUT))) {
            auto all = o->processed();
            REQ(all.size() == stream.size() && !std::memcmp(all.data(), stream.data(), all.size()), "send-buffer",
                "the send buffer does not hold the messages in order");
        }
    }
    if (msgs.empty()) {
        return;
    }

    // the link
    u64 now = 0, seq = 0, steps = 0;
    u32 epoch = 0;
    u32 disconnects = c.pick(2) ? c.range(0, 4) : 0; // fault budget
    std::priority_queue<Packet, std::vector<Packet, Mal<Packet>>> net;
    u64 next_off = 0;  // sender's position
    u64 last_at = 0;   // arrivals of a connection keep their order
    enum Style
    {
        again,      // a new archive over everything received, starting at the delivered position
        compact,    // delivered bytes are dropped from the buffer, new archive
        persistent, // one archive over a growing container
        one_pass    // a new archive per arrival, decoding several messages in a row
    };
    u32 style = c.pick(4);
    bool keep_partial = c.pick(2);
    Bytes base; // received since `base_off`
    u64 base_off = 0;
    Own<Buf> lb(rx.make(base.data(), 0));
    Own<InA> la(lb->in());
    u64 la_off = 0;
    if (style == persistent && !(lb->live())) {
        style = again;
    }
    ev("receiver style %u, keep partial %d", style, int(keep_partial));
    std::size_t delivered = 0;
    Obj target(msgs[0].it);
    bool torn = false;

    auto send_some = [&] {
        c.mark();
        u64 left = stream.size() - next_off;
        if (!left) {
            return;
        }
        u64 len;
        switch (c.pick(4)) {
        case 0:
            len = left;
            break;
        case 1:
            len = 1 + c.pick(3);
            break;
        case 2:
            len = 1 + c.pick(40);
            break;
        default: { // up to around the end of the current message
            u64 e = stream.size();
            for (auto & m : msgs) {
                if (m.end > next_off) {
                    e = m.end;
                    break;
                }
            }
            len = e - next_off + c.pick(3);
            len = len > 1 ? len - 1 : 1;
        }
        }
        len = std::min(len, left);
        u64 delay = 1 + c.pick(50);
        if (c.chance(1, 12)) {
            delay += 1000 + c.pick(9000);
            fault("stall");
        }
        Packet p{std::max(last_at, now + delay), seq++, epoch, next_off, {}};
        p.data.assign(stream.begin() + long(next_off), stream.begin() + long(next_off + len));
        last_at = p.at;
        next_off += len;
        fault("fragment");
        net.push(std::move(p));
    };
    auto check_value = [&](const Res & r, std::size_t pos, u64 origin) {
        auto & m = msgs[delivered];
        REQ(r.ok(), "rejected", "message %zu (%s) complete but rejected: %s", delivered, item_ops[m.it].name, res_name(r).c_str());
        REQ(origin + pos == m.end, "desync", "message %zu (%s) ends at %llu, the receiver stopped at %llu", delivered, item_ops[m.it].name,
            (unsigned long long) m.end, (unsigned long long) (origin + pos));
        REQ(target.canon() == m.canon, "wrong-value", "message %zu (%s) was delivered with another value", delivered, item_ops[m.it].name);
        ev("%llu ms: delivered %zu", (unsigned long long) now, delivered);
        ++delivered;
    };
    // tries to decode the next message from archive a whose byte 0 is stream offset `origin`
    auto attempt = [&](InA & a, u64 origin, u64 have) -> bool {
        if (delivered == msgs.size()) {
            return false;
        }
        auto & m = msgs[delivered];
        if (target.it != m.it || c.pick(2)) {
            target = Obj(m.it);
        }
        std::size_t before = a.pos();
        Res r = a.read(m.it, target.p);
        state(hmix(hmix(u64(m.it), std::min<u64>(have - m.begin, 40)), hmix(style, u64(r.code))));
        if (have < m.end) {
            if (have > m.begin) {
                torn = true;
            }
            REQ(!r.ok(), "early", "message %zu (%s) was delivered %llu bytes early", delivered, item_ops[m.it].name,
                (unsigned long long) (m.end - have));
            REQ(r.exc == Res::none && r.code == RANGE, "wait-code", "message %zu (%s): %s while waiting for bytes", delivered,
                item_ops[m.it].name, res_name(r).c_str());
            REQ(origin + a.pos() <= have, "position", "position past the received bytes");
            a.set_pos(before); // try again later
            return false;
        }
        check_value(r, a.pos(), origin);
        return true;
    };
    auto receive = [&] {
        u64 have = base_off + base.size();
        if (style == persistent) {
            while (attempt(*la, la_off, have)) {
            }
        } else if (style == one_pass) {
            Own<Buf> b(rx.make(base.data(), base.size()));
            Own<InA> a(b->in());
            a->set_pos((delivered ? msgs[delivered - 1].end : 0) - base_off);
            while (attempt(*a, base_off, have)) {
            }
        } else {
            for (;;) {
                u64 at = delivered ? msgs[delivered - 1].end : 0;
                if (style == compact) {
                    base.erase(base.begin(), base.begin() + long(at - base_off));
                    base_off = at;
                }
                Own<Buf> b(rx.make(base.data(), base.size()));
                Own<InA> a(b->in());
                a->reset(at - base_off);
                if (!attempt(*a, base_off, have)) {
                    break;
                }
            }
        }
        std::size_t due = 0;
        while (due < msgs.size() && msgs[due].end <= have) {
            ++due;
        }
        REQ(delivered == due, "late", "%zu messages have arrived whole, %zu were delivered", due, delivered);
    };

    while (delivered < msgs.size()) {
        REQ(++steps < 20000, "stuck", "the stream does not finish after the faults stopped");
        for (u32 burst = net.empty() ? 1 + c.pick(4) : c.pick(3); burst--;) {
            if (next_off < stream.size()) {
                send_some();
            }
        }
        if (disconnects && c.chance(1, 6)) {
            c.mark();
            --disconnects;
            fault("disconnect");
            ++epoch;
            fault("packets lost", net.size());
            net = {};
            now += 1 + c.pick(2000);
            last_at = now;
            u64 resume = delivered ? msgs[delivered - 1].end : 0;
            u64 have = base_off + base.size();
            if (keep_partial) {
                resume = have;
            } else {
                base.resize(resume - base_off);
            }
            if (style == persistent && !keep_partial) { // the buffer is rebuilt from the delivered position
                base.clear();
                base_off = resume;
                lb.reset(rx.make(base.data(), 0));
                la.reset(lb->in());
                la_off = resume;
            }
            next_off = resume;
            ev("%llu ms: disconnect, resume at %llu", (unsigned long long) now, (unsigned long long) resume);
            continue;
        }
        if (net.empty()) {
            continue;
        }
        Packet p = net.top();
        net.pop();
        now = std::max(now, p.at);
        if (p.epoch != epoch) {
            continue;
        }
        base.insert(base.end(), p.data.begin(), p.data.end());
        if (style == persistent) {
            lb->append(p.data.data(), p.data.size());
            if (c.chance(1, 4)) { // drop what was delivered from the front of the container
                std::size_t done = la->pos();
                lb->consume(done);
                la->set_pos(0);
                la_off += done;
                base.erase(base.begin(), base.begin() + long(done));
                base_off += done;
            }
        }
        ev("%llu ms: %zu bytes arrive", (unsigned long long) now, p.data.size());
        receive();
    }
    if (torn) {
        nontrivial();
    }
    sim_time(now);
    probe("streams completed");
    probe("messages delivered", delivered);
}
} // namespace sim
