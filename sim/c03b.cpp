// C03: structures of 1 to 50 members, whose members the library finds by itself.
#include "wide_ops.h"

namespace sim
{
const WorldInfo world_info = {
    "C03",
    "A run takes a structure of 1 to 50 members (mixed, of scalars only, a protobuf message, or a vector of them), writes it at a random "
    "place of a used buffer in one of two configurations, compares with an independent encoder, reads it torn, then whole into a fresh or "
    "used object of another node, and relays it. Non-trivial: a read was refused and one succeeded; distinct by the recorded choices.",
    "(structure, configuration, place, outcome)", "zpp::bits::out and zpp::bits::in, detection and visiting of members",
    "buffers and their earlier content, torn arrival"};

WideOps wide_ops[N_WIDE];
void wide_group_0();
void wide_group_1();
void wide_group_2();
void wide_group_3();
void wide_group_4();
static const bool filled = (wide_group_0(), wide_group_1(), wide_group_2(), wide_group_3(), wide_group_4(), true);

struct Wobj
{
    const WideOps & o;
    void * p;
    explicit Wobj(const WideOps & o_) : o(o_), p(o_.make())
    {
    }
    Wobj(const Wobj &) = delete;
    ~Wobj()
    {
        o.destroy(p);
    }
};

void world_run(Ch & c)
{
    (void)filled;
    for (u32 left = c.range(1, 4); left--;) {
        c.mark();
        int t = int(c.pick(N_WIDE));
        while (!wide_ops[t].make) {
            t = (t + 1) % N_WIDE;
        }
        const WideOps & o = wide_ops[t];
        const int k = int(c.pick(2));
        const Wire w = k ? Wire{true, SZ_VARINT} : Wire{};
        Wobj x(o);
        o.gen(c, x.p);
        Enc e(w);
        o.enc(e, x.p);
        const Bytes & want = e.b;
        const Bytes canon = o.canon(x.p);
        BVec b(c.pick(3) ? c.pick(40) : 0, std::byte(c.integer(8)));
        const std::size_t at = c.pick(u32(b.size() + 1));
        const Bytes before = to_bytes(b);
        std::size_t end = 0;
        Res r = o.write[k](b, at, x.p, end);
        ev("%s of %d members, configuration %d, %zu bytes at %zu of %zu -> %s %zu", o.name, o.members, k, want.size(), at, before.size(),
           res_name(r).c_str(), end);
        REQ(r.ok() && end == at + want.size() && end <= b.size(), "length", "%s of %d: %s, wrote %zu bytes, the format has %zu", o.name,
            o.members, res_name(r).c_str(), end - at, want.size());
        Bytes got = to_bytes(b, at);
        got.resize(want.size());
        REQ(got == want, "bytes", "%s of %d: %s instead of %s", o.name, o.members, hex(got).c_str(), hex(want).c_str());
        REQ(!std::memcmp(b.data(), before.data(), at), "earlier-bytes", "%s of %d", o.name, o.members);
        REQ(o.canon(x.p) == canon, "source-modified", "%s of %d", o.name, o.members);
        // the model's view of what was sent
        Wobj ref(o);
        Dec d0(want.data(), want.size(), w);
        o.dec(d0, ref.p);
        REQ(!d0.code && d0.pos == want.size(), "model", "the model does not read its own bytes: %s", code_name(d0.code));
        // arrival in pieces of exactly that size
        Wobj y(o);
        const u32 off = c.pick(3);
        u32 tries = c.pick(4);
        bool refused = false;
        while (tries--) {
            const std::size_t have = c.pick(u32(want.size()));
            if (t >= 100 && t < 150) {
                break; // a protobuf message says its size first
            }
            BVec part(off, std::byte{0xee});
            for (std::size_t i = 0; i < have; ++i) {
                part.push_back(std::byte(want[i]));
            }
            part.shrink_to_fit();
            Wobj fresh(o);
            Res q = o.read[k](part, off, fresh.p, end);
            ev("%zu of %zu bytes -> %s %zu", have, want.size(), res_name(q).c_str(), end);
            REQ(!q.ok() && !q.exc && q.code == RANGE && end >= off && end <= part.size(), "torn", "%s of %d: %s at %zu on %zu of %zu bytes",
                o.name, o.members, res_name(q).c_str(), end, have, want.size());
            fault("torn arrival");
            refused = true;
        }
        if (c.pick(2)) {
            o.gen(c, y.p);
        }
        BVec whole(off, std::byte{0xee});
        for (u8 q : want) {
            whole.push_back(std::byte(q));
        }
        whole.resize(whole.size() + c.pick(3), std::byte{0xdd});
        whole.shrink_to_fit();
        Res q = o.read[k](whole, off, y.p, end);
        ev("whole -> %s %zu", res_name(q).c_str(), end);
        state(hmix(hmix(u64(t), u64(k)), refused));
        REQ(q.ok() && end == off + want.size(), "read", "%s of %d: %s, consumed %zu of %zu", o.name, o.members, res_name(q).c_str(), end - off,
            want.size());
        REQ(o.canon(y.p) == o.canon(ref.p), "read-value", "%s of %d: another value was read", o.name, o.members);
        BVec again;
        Res s = o.write[k](again, 0, y.p, end);
        REQ(s.ok() && end == want.size() && to_bytes(again) == want, "relay", "%s of %d: re-encoding gives other bytes", o.name, o.members);
        if (refused) {
            nontrivial();
        }
    }
}
} // namespace sim
