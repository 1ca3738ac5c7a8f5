// C07: growable outputs, their growth policies and their limits.
#include "world.h"

#include "cfgimpl.h"

namespace sim
{
const WorldInfo world_info = {
    "C07",
    "A run performs 1..12 writes of random objects at random positions of one growable buffer that is shared by successive "
    "archives, and compares the whole content and size with a byte tape; growth is compared with the declared policy and limit; "
    "separate runs put a buffer of simulated size near 2^64 under the archive. Non-trivial: the buffer grew or a limit was met; "
    "distinct by the recorded choices.",
    "(type, configuration, position inside or at the end, result, size before)",
    "zpp::bits::out over vector, string and user buffers with every growth option", "buffers of impossible size"};

// A buffer that claims a size no machine has; the library must not touch its bytes.
struct VastBuffer
{
    using value_type = std::byte;
    std::size_t n = 0;
    std::size_t asked = 0;
    bool resized = false;
    std::byte * data() const
    {
        return nullptr;
    }
    std::size_t size() const
    {
        return n;
    }
    void resize(std::size_t k)
    {
        asked = k;
        resized = true;
        throw SimFault();
    }
    std::byte & operator[](std::size_t) const
    {
        throw SimFault();
    }
    std::byte * begin() const
    {
        return nullptr;
    }
    std::byte * end() const
    {
        return nullptr;
    }
};

template <class T, unsigned Mul, unsigned Div, class... O>
void vast(Ch & c, std::size_t limit, O... opts)
{
    VastBuffer vb;
    constexpr std::size_t add = sizeof(T);
    switch (c.pick(4)) {
    case 0:
        vb.n = ~std::size_t{} - c.pick(64);
        break;
    case 1: // around the overflow of the multiplication
        vb.n = ~std::size_t{} / Mul - 32 + c.pick(64);
        break;
    case 2:
        vb.n = std::size_t(c.integer(64));
        break;
    default:
        vb.n = (std::size_t(1) << (40 + c.pick(24))) + c.pick(16) - 8;
    }
    zb::out<VastBuffer, zb::no_fit_size, O...> out{vb, zb::no_fit_size{}, std::move(opts)...};
    std::size_t slack = c.pick(u32(std::min<std::size_t>(vb.n, add)));
    if (vb.n < slack) {
        return;
    }
    out.position() = vb.n - slack; // slack < add: it must grow
    T v{};
    Res r = guarded([&]() -> zb::errc { return out(v); });
    unsigned __int128 need = (unsigned __int128) vb.n + add;
    unsigned __int128 times = need * Mul;
    bool overflow = need >> 64 || times >> 64;
    std::size_t want = std::size_t(std::size_t(times) / Div);
    ev("size %zx slack %zu add %zu x%u/%u -> %s asked %zx", vb.n, slack, add, Mul, Div, res_name(r).c_str(), vb.asked);
    fault("buffer of impossible size");
    nontrivial();
    state(hmix(hmix(vb.n >> 40, slack), hmix(Mul, overflow)));
    if (overflow || want > limit) {
        REQ(r.exc == Res::none && r.code == NOSPACE, "overflow", "growing %zx by %zu gives %s (asked for %zx) instead of no_buffer_space",
            vb.n, add, res_name(r).c_str(), vb.asked);
    } else {
        REQ(vb.resized && vb.asked == want, "growth", "growing %zx by %zu asks for %zx instead of %zx", vb.n, add, vb.asked, want);
        REQ(r.exc == Res::sim_fault, "swallowed", "the failure of resize became %s", res_name(r).c_str());
    }
}

// A message longer than the byte reserved for its length: everything is moved ahead once the length is known, which takes
// room of its own, next to the limit.
struct Leaf
{
    std::string s;
    zb::vint64_t n = 0;
    using serialize = zb::protocol<zb::pb{}>;
};
struct Nest
{
    Leaf leaf;
    std::vector<zb::vuint32_t> v;
    using serialize = zb::protocol<zb::pb{}>;
};

void add_varint(Bytes & b, u64 v)
{
    for (; v >= 128; v >>= 7) {
        b.push_back(u8(v | 128));
    }
    b.push_back(u8(v));
}

Bytes encode(const Leaf & l)
{
    Bytes b;
    if (!l.s.empty()) {
        b.push_back(10);
        add_varint(b, l.s.size());
        b.insert(b.end(), l.s.begin(), l.s.end());
    }
    b.push_back(16);
    add_varint(b, u64(std::int64_t(l.n)));
    return b;
}

Bytes encode(const Nest & n)
{
    Bytes b, leaf = encode(n.leaf), items;
    b.push_back(10);
    add_varint(b, leaf.size());
    b.insert(b.end(), leaf.begin(), leaf.end());
    for (u32 x : n.v) {
        add_varint(items, x);
    }
    if (!items.empty()) {
        b.push_back(18);
        add_varint(b, items.size());
        b.insert(b.end(), items.begin(), items.end());
    }
    return b;
}

template <class Buffer, unsigned Mul, unsigned Div, bool NoFit, class... O>
void moved(Ch & c, std::size_t limit, O... opts)
{
    Nest n;
    n.leaf.s.assign(c.pick(2) ? 100 + c.pick(60) : c.pick(u32(limit)), 'q');
    n.leaf.n = c.pick(2) ? -int(c.pick(9)) : int(c.pick(300));
    for (u32 i = c.pick(3) ? 0 : c.pick(150); i; --i) {
        n.v.push_back(u32(c.integer(32)));
    }
    const bool leaf = c.pick(2);
    Bytes body = leaf ? encode(n.leaf) : encode(n), want;
    add_varint(want, body.size());
    want.insert(want.end(), body.begin(), body.end());
    // the buffer ends where the message does, give or take its prefix, and is as large as its growth may or may not exceed the limit
    std::size_t edge = limit * Div / Mul;
    std::size_t s0 = c.pick(3) ? std::min<std::size_t>(edge + c.pick(16) - std::min<std::size_t>(edge, 8), limit) : c.pick(u32(limit + 1));
    if (!c.pick(4)) {
        s0 = limit - c.pick(u32(limit - edge) + 1);
    }
    std::size_t p = c.pick(u32(s0 + 1));
    if (c.pick(4) && body.size() <= s0) {
        p = std::min(s0, s0 - body.size() + c.pick(8) - std::min<std::size_t>(4, s0 - body.size()));
    }
    Bytes before(s0);
    for (std::size_t i = 0; i < s0; ++i) {
        before[i] = u8(i * 7 + 1);
    }
    Buffer b;
    b.resize(s0);
    if (s0) {
        std::memcpy(b.data(), before.data(), s0);
    }
    std::size_t pos = 0;
    Res r;
    {
        zb::out<Buffer, O...> out{b, std::move(opts)...};
        out.position() = p;
        r = guarded([&]() -> zb::errc { return leaf ? out(n.leaf) : out(n); });
        pos = out.position();
    }
    const std::size_t s1 = b.size(), end = p + want.size();
    ev("message of %zu bytes at %zu of %zu, limit %zu -> %s %zu of %zu", body.size(), p, s0, limit, res_name(r).c_str(), pos, s1);
    state(hmix(hmix(end > s0, s0 > edge), hmix(u64(r.code), std::min<std::size_t>(end - s0 + 8, 16))));
    if (end > s0) {
        nontrivial();
    }
    REQ(r.exc == Res::none, "exception", "message of %zu bytes: %s", body.size(), exc_name(r.exc));
    REQ(pos <= s1, "position", "position %zu of %zu after a message", pos, s1);
    REQ(s1 <= std::max(s0, limit), "limit", "a message grew the buffer from %zu to %zu, the limit is %zu", s0, s1, limit);
    REQ(s1 >= p && (!p || !std::memcmp(b.data(), before.data(), p)), "earlier-bytes", "bytes before a message changed");
    if (!r.ok()) {
        fault("limit met");
        REQ(r.code == NOSPACE, "failed", "a message under a limit: %s", res_name(r).c_str());
        REQ(Mul * (end + 2 * want.size() + 30) / Div > limit, "too-strict", "a message of %zu bytes at %zu of %zu refused under a limit of %zu",
            body.size(), p, s0, limit);
        return;
    }
    // it fitted; what it needed at least is what it has in the end, and growing by a byte asks for the declared factor
    REQ(end <= s0 || end <= limit, "limit", "a message that ends at %zu of %zu was written under a limit of %zu", end, s0, limit);
    REQ(end <= s0 || Mul * (s0 + 1) / Div <= limit, "limit", "a message that ends at %zu grew the buffer from %zu past the limit of %zu", end, s0,
        limit);
    REQ(pos == end, "length", "a message of %zu bytes ends at %zu instead of %zu", body.size(), pos, end);
    REQ(!std::memcmp(b.data() + p, want.data(), want.size()), "bytes", "wrong bytes in a message at %zu of %zu", p, s0);
    REQ(s0 <= pos || !std::memcmp(b.data() + pos, before.data() + pos, s0 - pos), "later-bytes", "bytes behind a message changed");
    REQ(NoFit ? s1 >= std::max(s0, pos) : s1 == std::max(s0, pos), "fit", "the buffer ends at %zu after a message that ends at %zu of %zu", s1,
        pos, s0);
}

constexpr bool one_chunk(int it)
{
    return it == IT_t_u8 || it == IT_t_i16 || it == IT_t_u32 || it == IT_t_i64 || it == IT_t_f64 || it == IT_E8 || it == IT_t_bits67;
}

void world_run(Ch & c)
{
    if (c.chance(1, 10)) {
        switch (c.pick(6)) {
        case 0:
            return vast<u64, 3, 2>(c, unlimited);
        case 1:
            return vast<u8, 3, 2>(c, unlimited);
        case 2:
            return vast<u32, 2, 1>(c, unlimited, zb::enlarger<2>{});
        case 3:
            return vast<u16, 1, 1>(c, unlimited, zb::exact_enlarger{});
        case 4:
            return vast<u64, 7, 3>(c, std::size_t(1) << 50, zb::enlarger<7, 3>{}, zb::alloc_limit<std::size_t(1) << 50>{});
        default:
            return vast<std::bitset<64>, 3, 2>(c, unlimited);
        }
    }
    if (c.chance(1, 12)) {
        switch (c.pick(4)) {
        case 0:
            return moved<std::vector<std::byte>, 3, 2, false>(c, 400, zb::size_varint{}, zb::alloc_limit<400>{});
        case 1:
            return moved<SimBuffer, 3, 2, true>(c, 1000, zb::size_varint{}, zb::no_fit_size{}, zb::alloc_limit<1000>{});
        case 2:
            return moved<SimBuffer, 1, 1, true>(c, 300, zb::no_fit_size{}, zb::exact_enlarger{}, zb::size_varint{}, zb::alloc_limit<300>{});
        default:
            return moved<SimBuffer, 2, 1, false>(c, 20000, zb::enlarger<2>{}, zb::size_varint{}, zb::alloc_limit<20000>{});
        }
    }
    const Cfg & cfg = pick_cfg(c);
    Bytes tape;
    const bool limited = cfg.flags & C_LIMIT_OUT;
    std::size_t n0 = c.pick(3) ? c.pick(limited && c.pick(2) ? u32(cfg.out_limit) + 2 : 48) : 0;
    for (std::size_t i = 0; i < n0; ++i) {
        tape.push_back(u8(i * 7 + 1));
    }
    Own<Buf> b(cfg.make(tape.data(), tape.size()));
    Own<OutA> o(b->out());
    std::size_t p = o->pos();
    REQ(p == ((cfg.flags & C_APPEND) ? n0 : 0), "initial-position", "%s starts at %zu of %zu", cfg.name, p, n0);
    REQ(b->size() == n0 && (!n0 || !std::memcmp(b->data(), tape.data(), n0)), "initial-content", "%s: construction changed the buffer", cfg.name);
    const bool nofit = cfg.flags & C_NOFIT;
    u32 writes = c.range(1, 12);
    ev("%s, %zu bytes present", cfg.name, n0);
    for (u32 k = 0; k < writes; ++k) {
        c.mark();
        if (c.chance(1, 3)) {
            p = c.pick(u32(b->size() + 1));
            if (c.pick(2)) {
                o->reset(p);
            } else {
                o->set_pos(p);
            }
        }
        if (c.chance(1, 8)) { // another archive over the same container
            o.reset(b->out());
            std::size_t q = o->pos();
            REQ(q == ((cfg.flags & C_APPEND) ? b->size() : 0), "initial-position", "%s starts at %zu of %zu", cfg.name, q, b->size());
            if (c.pick(2)) {
                o->set_pos(p);
            } else {
                p = q;
            }
        }
        int it = pick_item(c, cfg);
        if (c.pick(4) == 0) { // single scalars: growth is predicted exactly
            for (int i = 0; i < N_ITEMS; ++i) {
                int j = (it + i) % N_ITEMS;
                if (one_chunk(j) && cfg.has(j)) {
                    it = j;
                    break;
                }
            }
        }
        Obj v(it);
        v.gen(c);
        Enc e = v.enc(cfg.wire);
        if (e.overflow) {
            continue;
        }
        if (c.chance(1, 4) && e.b.size() <= b->size()) { // it ends at the end of the buffer, or a little behind it
            p = b->size() - e.b.size() + std::min<std::size_t>(c.pick(4), e.b.size());
            o->set_pos(p);
        }
        std::size_t s0 = b->size(), add = e.b.size(), end = p + add;
        Bytes before(b->data(), b->data() + s0);
        Res r = o->write(it, v.p);
        std::size_t pos = o->pos(), s1 = b->size();
        ev("%s: %zu bytes at %zu of %zu -> %s %zu of %zu", item_ops[it].name, add, p, s0, res_name(r).c_str(), pos, s1);
        bool grow = end > s0;
        state(hmix(hmix(u64(it), u64(cfg.k)), hmix(grow * 4 + (p == s0) * 2 + (p == 0), std::min<std::size_t>(s0, 300) * 100 + u64(r.code) % 100)));
        if (grow) {
            nontrivial();
        }
        REQ(r.exc == Res::none, "exception", "%s %s: %s", cfg.name, item_ops[it].name, exc_name(r.exc));
        REQ(pos <= s1, "position", "%s %s: position %zu of %zu", cfg.name, item_ops[it].name, pos, s1);
        REQ(s1 >= p && !std::memcmp(b->data(), before.data(), p), "earlier-bytes", "%s %s: bytes before the position changed", cfg.name,
            item_ops[it].name);
        if (limited) {
            REQ(s1 <= std::max(s0, cfg.out_limit), "limit", "%s %s: the buffer has %zu bytes, the limit is %zu", cfg.name, item_ops[it].name, s1,
                cfg.out_limit);
        }
        if (!r.ok()) {
            fault("limit met");
            REQ(limited && r.code == NOSPACE, "failed", "%s %s: %s", cfg.name, item_ops[it].name, res_name(r).c_str());
            // the largest request the policy can make for this write: growing from just below the end by all of it
            // (a variable-length integer asks for its maximum, 10 bytes)
            bool varints = (item_ops[it].flags & (F_PB | F_VARINT | F_DYN | F_VARIANT)) || cfg.wire.size == SZ_VARINT;
            std::size_t most = cfg.mul * (end + (varints ? 10 + std::max<std::size_t>(add, 10) : add)) / cfg.div;
            REQ(most > cfg.out_limit, "too-strict", "%s %s: %zu bytes at %zu of %zu refused under a limit of %zu", cfg.name, item_ops[it].name,
                add, p, s0, cfg.out_limit);
            REQ(s1 >= s0 && !std::memcmp(b->data() + pos, before.data() + pos, s0 > pos ? s0 - pos : 0), "later-bytes",
                "%s %s: a refused write changed bytes it did not pass", cfg.name, item_ops[it].name);
            if (one_chunk(it)) {
                REQ(cfg.mul * (s0 + add) / cfg.div > cfg.out_limit, "too-strict", "%s %s: %zu bytes at %zu of %zu refused", cfg.name,
                    item_ops[it].name, add, p, s0);
            }
            o->set_pos(p);
            tape.assign(b->data(), b->data() + s1);
            continue;
        }
        if (grow && limited && one_chunk(it)) {
            REQ(cfg.mul * (s0 + add) / cfg.div <= cfg.out_limit, "limit", "%s %s: grew from %zu by %zu past the limit", cfg.name,
                item_ops[it].name, s0, add);
        }
        REQ(pos == end, "length", "%s %s: wrote %zu, the format has %zu", cfg.name, item_ops[it].name, pos - p, add);
        REQ(!std::memcmp(b->data() + p, e.b.data(), add), "bytes", "%s %s: wrong bytes at the position", cfg.name, item_ops[it].name);
        REQ(s0 <= pos || !std::memcmp(b->data() + pos, before.data() + pos, s0 - pos), "later-bytes",
            "%s %s: bytes behind an overwrite in place changed", cfg.name, item_ops[it].name);
        std::size_t want = std::max(s0, pos);
        if (!nofit) {
            REQ(s1 == want, "fit", "%s %s: the buffer ends at %zu instead of %zu", cfg.name, item_ops[it].name, s1, want);
        } else {
            REQ(s1 >= want, "fit", "%s %s: the buffer ends at %zu before the position %zu", cfg.name, item_ops[it].name, s1, want);
            if (one_chunk(it)) {
                std::size_t exact = grow ? cfg.mul * (s0 + add) / cfg.div : s0;
                REQ(s1 == exact, "growth", "%s %s: grew from %zu by %zu to %zu instead of %zu", cfg.name, item_ops[it].name, s0, add, s1,
                    exact);
            }
        }
        auto done = o->processed();
        auto rest = o->remaining();
        REQ(done.data() == b->data() && done.size() == pos && rest.data() == b->data() + pos && rest.size() == s1 - pos, "views",
            "%s: processed_data / remaining_data do not describe the buffer", cfg.name);
        p = pos;
    }
}
} // namespace sim
