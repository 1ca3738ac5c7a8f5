// C06: fixed buffers that fill up.
#include "world.h"

namespace sim
{
const WorldInfo world_info = {
    "C06",
    "A run serializes 1..6 random objects into a fixed buffer whose capacity is drawn around what they need (a full device at any "
    "byte), at random positions, with failing writes followed by resets and retries; also into statically sized arrays and spans. "
    "Each buffer is a heap block of exactly its size between sanitizer red zones. Non-trivial: at least one write met a full "
    "buffer; distinct by the recorded choices.",
    "(type, configuration, room left minus bytes needed, result)",
    "zpp::bits::out over dynamic and static spans, arrays", "the device (capacity)"};

template <class T, class Out>
void one_static(Ch & c, Out && out, u8 * mem, std::size_t cap, const Wire & w, const char * what)
{
    T v{};
    gen(c, v);
    Enc e(w);
    e.put(v);
    if (e.overflow) {
        return;
    }
    Bytes before(mem, mem + cap);
    std::size_t p0 = c.pick(u32(cap + 1));
    if (cap >= e.b.size() && c.pick(2)) { // around the exact fit
        p0 = cap - e.b.size() + c.pick(2);
        p0 = std::min(p0, cap);
    }
    out.reset(p0);
    Res r = guarded([&]() -> zb::errc { return out(v); });
    std::size_t pos = std::as_const(out).position();
    bool fits = e.b.size() <= cap - p0;
    ev("%s capacity %zu at %zu, %zu bytes -> %s %zu", what, cap, p0, e.b.size(), res_name(r).c_str(), pos);
    state(hmix(hmix(hash_bytes(what, std::strlen(what)), cap), hmix(p0, fits)));
    if (!fits) {
        fault("buffer full");
        nontrivial();
    }
    REQ(r.ok() == fits, fits ? "refused" : "accepted", "%s: %zu bytes at %zu of %zu: %s", what, e.b.size(), p0, cap, res_name(r).c_str());
    REQ(fits || r.code == RANGE, "code", "%s: %s", what, res_name(r).c_str());
    REQ(pos <= cap && pos >= p0, "position", "%s: position %zu of %zu", what, pos, cap);
    REQ(!std::memcmp(mem, before.data(), p0), "earlier-bytes", "%s: bytes before the position changed", what);
    if (fits) {
        REQ(pos == p0 + e.b.size(), "length", "%s: wrote %zu of %zu", what, pos - p0, e.b.size());
        REQ(!std::memcmp(mem + p0, e.b.data(), e.b.size()), "bytes", "%s: wrong bytes", what);
        REQ(!std::memcmp(mem + pos, before.data() + pos, cap - pos), "later-bytes", "%s: bytes behind the encoding changed", what);
    }
}
template <std::size_t N>
void statics(Ch & c)
{
    // a block of exactly N bytes between red zones
    struct Arr
    {
        std::array<std::byte, N> a;
    };
    struct Guard
    {
        u8 * p = static_cast<u8 *>(std::malloc(N));
        ~Guard()
        {
            std::free(p);
        }
    } g;
    for (std::size_t i = 0; i < N; ++i) {
        g.p[i] = u8(0xc0 + i);
    }
    auto & arr = reinterpret_cast<std::array<std::byte, N> &>(*g.p);
    auto & carr = reinterpret_cast<unsigned char(&)[N]>(*g.p);
    std::span<std::byte, N> sp(arr);
    for (u32 k = c.range(1, 3); k--;) {
        c.mark();
        switch (c.pick(6)) {
        case 0:
            one_static<u32>(c, zb::out{arr}, g.p, N, Wire{}, "array u32");
            break;
        case 1:
            one_static<Wide>(c, zb::out{arr, zb::endian::big{}}, g.p, N, Wire{true}, "array big Wide");
            break;
        case 2:
            one_static<PbInner>(c, zb::out{sp, zb::size_varint{}}, g.p, N, Wire{false, SZ_VARINT}, "static span varint PbInner");
            break;
        case 3:
            one_static<std::optional<std::string>>(c, zb::out{carr, zb::size1b{}}, g.p, N, Wire{false, 1}, "char[] size1b optional<string>");
            break;
        case 4:
            one_static<std::bitset<67>>(c, zb::out{carr}, g.p, N, Wire{}, "char[] bitset");
            break;
        default:
            one_static<Varints>(c, zb::out{sp}, g.p, N, Wire{}, "static span Varints");
        }
    }
}

// Protobuf items: their length prefix may have to make room for itself.
static int pick_pb(Ch & c, const Cfg & cfg)
{
    static int ids[N_ITEMS], n = -1;
    if (n < 0) {
        n = 0;
        for (int i = 0; i < N_ITEMS; ++i) {
            if (std::strstr(item_ops[i].name, "Pb")) {
                ids[n++] = i;
            }
        }
    }
    for (u32 k = 0, i = c.pick(u32(n)); int(k) < n; ++k, i = (i + 1) % u32(n)) {
        if (cfg.has(ids[i])) {
            return ids[i];
        }
    }
    return pick_item(c, cfg);
}
// One object into devices that lack exactly nothing and a few bytes, in front of bytes that are not its own.
static void tight(Ch & c)
{
    const Cfg & cfg = pick_cfg(c);
    int it = c.pick(2) ? pick_pb(c, cfg) : pick_item(c, cfg);
    bool big = c.pick(2);
    Obj v(it);
    Enc e(cfg.wire);
    for (u32 k = 0; k < 4; ++k) {
        c.mark();
        v = Obj(it);
        v.gen(c);
        e = v.enc(cfg.wire);
        if (!big || e.b.size() >= 128) {
            break;
        }
    }
    if (e.overflow) {
        return;
    }
    std::size_t need = e.b.size(), p = c.pick(3);
    for (std::size_t lack = 0; lack <= 4 && lack <= need; ++lack) {
        std::size_t cap = p + need - lack;
        Bytes mem(cap);
        for (std::size_t i = 0; i < cap; ++i) {
            mem[i] = u8(0xa0 + i % 29);
        }
        Own<Buf> b(cfg.make(mem.data(), mem.size()));
        Own<OutA> o(b->out());
        o->reset(p);
        Res r = o->write(v.it, v.p);
        std::size_t pos = o->pos();
        ev("%s %s: %zu bytes at %zu of %zu -> %s %zu", cfg.name, v.ops().name, need, p, cap, res_name(r).c_str(), pos);
        state(hmix(hmix(u64(it), u64(cfg.k)), hmix(u64(lack), hmix(u64(r.code), need >= 128))));
        REQ(r.exc == Res::none, "exception", "%s %s: %s", cfg.name, v.ops().name, exc_name(r.exc));
        REQ(r.ok() == !lack, lack ? "accepted" : "refused", "%s %s: %zu bytes at %zu of %zu: %s", cfg.name, v.ops().name, need, p, cap,
            res_name(r).c_str());
        REQ(pos >= p && pos <= cap, "position", "%s %s: position %zu after a write at %zu of %zu", cfg.name, v.ops().name, pos, p, cap);
        REQ(!std::memcmp(b->data(), mem.data(), p), "earlier-bytes", "%s %s: bytes before the position changed", cfg.name, v.ops().name);
        if (lack) {
            fault("buffer full");
            nontrivial();
            REQ(r.code == RANGE, "code", "%s %s: %s instead of result_out_of_range", cfg.name, v.ops().name, code_name(r.code));
        } else {
            std::memcpy(mem.data() + p, e.b.data(), need);
            REQ(pos == cap && !std::memcmp(b->data(), mem.data(), cap), "bytes", "%s %s: the buffer is not what the format says", cfg.name,
                v.ops().name);
        }
    }
}

void world_run(Ch & c)
{
    if (c.chance(1, 4)) {
        return tight(c);
    }
    if (c.chance(1, 8)) {
        switch (c.pick(7)) {
        case 0:
            return statics<1>(c);
        case 1:
            return statics<3>(c);
        case 2:
            return statics<4>(c);
        case 3:
            return statics<9>(c);
        case 4:
            return statics<17>(c);
        case 5:
            return statics<40>(c);
        default:
            return statics<90>(c);
        }
    }
    const Cfg & cfg = pick_cfg(c);
    struct Todo
    {
        Obj v;
        Bytes enc;
        Bytes canon;
    };
    std::vector<Todo, Mal<Todo>> todo;
    std::size_t total = 0;
    u32 n = c.range(1, 6);
    for (u32 i = 0; i < n; ++i) {
        c.mark();
        Obj v(pick_item(c, cfg));
        v.gen(c);
        Enc e = v.enc(cfg.wire);
        if (e.overflow) {
            continue;
        }
        total += e.b.size();
        Bytes canon = v.canon();
        todo.push_back(Todo{std::move(v), std::move(e.b), std::move(canon)});
    }
    if (todo.empty()) {
        return;
    }
    std::size_t cap;
    switch (c.pick(4)) {
    case 0: { // ends inside or at an edge of the last object
        std::size_t last = todo.back().enc.size();
        cap = total - std::min<std::size_t>(last, c.pick(u32(last + 1)));
        break;
    }
    case 1:
        cap = c.pick(u32(total + 1));
        break;
    case 2: // around the end of one of them
    {
        std::size_t k = c.pick(u32(todo.size())), s = 0;
        for (std::size_t i = 0; i <= k; ++i) {
            s += todo[i].enc.size();
        }
        cap = s + c.pick(3);
        cap = cap ? cap - 1 : 0;
        break;
    }
    default:
        cap = total + c.pick(8);
    }
    Bytes mem(cap);
    for (std::size_t i = 0; i < cap; ++i) {
        mem[i] = u8(0xa0 + i % 29);
    }
    Own<Buf> b(cfg.make(mem.data(), mem.size()));
    Own<OutA> o(b->out());
    ev("%s capacity %zu, %zu objects of %zu bytes", cfg.name, cap, todo.size(), total);
    std::size_t p = 0;
    u32 retries = 0;
    for (std::size_t i = 0; i < todo.size(); ++i) {
        c.mark();
        auto & t = todo[i];
        if (c.chance(1, 6)) { // overwrite elsewhere
            p = c.pick(u32(cap + 1));
            if (c.pick(2)) {
                o->reset(p);
            } else {
                o->set_pos(p);
            }
        }
        bool pair = i + 1 < todo.size() && todo[i + 1].v.it == t.v.it && c.pick(2);
        std::size_t need = t.enc.size() + (pair ? todo[i + 1].enc.size() : 0);
        bool fits = need <= cap - p;
        Res r = pair ? o->write2(t.v.it, t.v.p, todo[i + 1].v.p) : o->write(t.v.it, t.v.p);
        std::size_t pos = o->pos();
        ev("%s: %zu bytes at %zu -> %s %zu", t.v.ops().name, need, p, res_name(r).c_str(), pos);
        long slack = long(cap - p) - long(need);
        state(hmix(hmix(u64(t.v.it), u64(cfg.k)), hmix(u64(std::clamp<long>(slack, -40, 3)), u64(r.code))));
        REQ(r.exc == Res::none, "exception", "%s %s: %s", cfg.name, t.v.ops().name, exc_name(r.exc));
        REQ(r.ok() == fits, fits ? "refused" : "accepted", "%s %s: %zu bytes at %zu of %zu: %s", cfg.name, t.v.ops().name, need, p, cap,
            res_name(r).c_str());
        REQ(pos >= p && pos <= cap, "position", "%s %s: position %zu after a write at %zu of %zu", cfg.name, t.v.ops().name, pos, p, cap);
        REQ(!std::memcmp(b->data(), mem.data(), p), "earlier-bytes", "%s %s: bytes before the position changed", cfg.name, t.v.ops().name);
        REQ(t.v.canon() == t.canon, "source-modified", "%s: writing changed the object", t.v.ops().name);
        if (fits) {
            REQ(pos == p + need, "length", "%s %s: wrote %zu, the format has %zu", cfg.name, t.v.ops().name, pos - p, need);
            std::memcpy(mem.data() + p, t.enc.data(), t.enc.size());
            if (pair) {
                std::memcpy(mem.data() + p + t.enc.size(), todo[i + 1].enc.data(), todo[i + 1].enc.size());
                ++i;
            }
            REQ(!std::memcmp(b->data(), mem.data(), cap), "bytes", "%s %s: the buffer is not what the format says", cfg.name,
                t.v.ops().name);
            p = pos;
            continue;
        }
        fault("buffer full");
        nontrivial();
        REQ(r.code == RANGE, "code", "%s %s: %s instead of result_out_of_range", cfg.name, t.v.ops().name, code_name(r.code));
        // what was already put there before the failure is the beginning of the encoding or untouched
        mem.assign(b->data(), b->data() + cap);
        if (c.pick(3) == 0) {
            p = pos; // go on from where it stopped
        } else {
            p = c.pick(2) ? 0 : p;
            o->reset(p);
        }
        if (++retries < 3 && c.pick(2)) {
            --i;
        }
    }
}
} // namespace sim
