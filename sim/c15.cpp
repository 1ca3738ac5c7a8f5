// C15: protobuf messages damaged in transit, between intact neighbours.
#include "damage.h"
#include "pbtypes.h"

namespace sim
{
const WorldInfo world_info = {
    "C15",
    "A run streams 1..6 records (sequence number, protobuf message of one of seven schemas, tail) over a link that lies about declared "
    "lengths at any nesting depth (with or without the enclosing lengths following), changes wire types, field numbers and tags, stretches "
    "varints, cuts and pads messages and nested messages, adds noise and cuts the stream; a receiver of the same or another schema reads "
    "them in sequence, into fresh and used objects. Non-trivial: a damaged record was read; distinct by the recorded choices.",
    "(schema, receiver schema, kind of damage, outcome, nesting depth of the damage)",
    "the protobuf protocol of the library, nested messages, packed and repeated fields, maps, alloc_limit", "link, heap"};

#if SVC == 0
#define OPTS
#define ARGS
constexpr std::size_t limit = unlimited;
static const Wire wire{};
#elif SVC == 1
#define OPTS , zb::endian::big, zb::size_varint, zb::alloc_limit<64>
#define ARGS , zb::endian::big{}, zb::size_varint{}, zb::alloc_limit<64>{}
constexpr std::size_t limit = 64;
static const Wire wire{true, SZ_VARINT, 64};
#elif SVC == 2
#define OPTS , zb::no_size
#define ARGS , zb::no_size{}
constexpr std::size_t limit = unlimited;
static const Wire wire{false, SZ_NONE};
#else
#define OPTS , zb::size2b, zb::alloc_limit<400>
#define ARGS , zb::size2b{}, zb::alloc_limit<400>{}
constexpr std::size_t limit = 400;
static const Wire wire{false, 2, 400};
#endif
constexpr bool framed = SVC != 2;
using In = zb::in<BVec OPTS>;

template <class T>
struct Env
{
    u16 seq{};
    T m;
#if SVC != 2
    std::string tail;
    void fields(auto && f)
    {
        f(seq, m, tail);
    }
#else
    void fields(auto && f)
    {
        f(seq, m);
    }
#endif
};

struct Schema
{
    const char * name;
    void * (*make)();
    void * (*clone)(const void *);
    void (*destroy)(void *);
    void (*gen)(Ch &, void *);
    void (*enc)(Enc &, const void *); // the whole record
    void (*body)(Enc &, const void *); // the fields of the message
    void (*rest)(Enc &, const void *); // what follows the message
    void (*dec)(Dec &, void *);
    Bytes (*canon)(const void *);
    Res (*read)(In &, void *, u32 how);
};
template <class M>
Schema schema(const char * name)
{
    using T = Env<M>;
    return {name,
            []() -> void * { return new T{}; },
            [](const void * p) -> void * { return new T(*static_cast<const T *>(p)); },
            [](void * p) { delete static_cast<T *>(p); },
            [](Ch & c, void * p) {
                T x{};
                x.seq = u16(c.integer(16));
                gen(c, x.m, 0);
#if SVC != 2
                gen(c, x.tail, 0);
#endif
                *static_cast<T *>(p) = x;
            },
            [](Enc & e, const void * p) { e.put(*static_cast<const T *>(p)); },
            [](Enc & e, const void * p) { pb_body(e, static_cast<const T *>(p)->m); },
            []([[maybe_unused]] Enc & e, [[maybe_unused]] const void * p) {
#if SVC != 2
                e.put(static_cast<const T *>(p)->tail);
#endif
            },
            [](Dec & d, void * p) { d.get(*static_cast<T *>(p)); },
            [](const void * p) { return canon_of(*static_cast<const T *>(p)); },
            [](In & in, void * p, u32 how) {
                auto & x = *static_cast<T *>(p);
                return guarded([&]() -> zb::errc {
                    switch (how) {
                    case 0:
                        return in(x);
#if SVC != 2
                    case 1:
                        return in(x.seq, x.m, x.tail);
                    default:
                        if (auto r = in(x.seq); zb::failure(r)) {
                            return r;
                        }
                        if (auto r = in(x.m); zb::failure(r)) {
                            return r;
                        }
                        return in(x.tail);
#else
                    default:
                        return in(x.seq, x.m);
#endif
                    }
                });
            }};
}
static const Schema schemas[] = {schema<Full<In0>>("full"), schema<Explicit>("explicit"), schema<Gaps>("gaps"),      schema<Mapped>("mapped"),
                                 schema<Full<In1>>("full'"), schema<Far>("far"),          schema<Nothing>("nothing")};
constexpr u32 n_schemas = 7;

struct Hold
{
    const Schema * v;
    void * p;
    Hold(const Schema & v_, void * p_) : v(&v_), p(p_)
    {
    }
    Hold(const Hold &) = delete;
    Hold & operator=(Hold && o)
    {
        std::swap(v, o.v);
        std::swap(p, o.p);
        return *this;
    }
    ~Hold()
    {
        v->destroy(p);
    }
};

// the tags and lengths of a message, as a schema-less reader sees them
struct Spot
{
    std::size_t tag, tag_len, len_at, len_len, content, size; // len_len 0: not length delimited
    u32 depth;
    int parent; // index of the enclosing spot
};
using Spots = std::vector<Spot, Mal<Spot>>;
static bool scan(const Bytes & b, std::size_t from, std::size_t to, u32 depth, int parent, Spots & out)
{
    std::size_t keep = out.size();
    while (from < to) {
        Dec d(b.data() + from, to - from, Wire{});
        Spot s{from, 0, 0, 0, 0, 0, depth, parent};
        u64 tag = d.var(32);
        s.tag_len = d.pos;
        bool ok = !d.code && (tag >> 3);
        std::size_t end = 0;
        switch (tag & 7) {
        case 0:
            d.var(64);
            end = from + d.pos;
            break;
        case 1:
            end = from + d.pos + 8;
            break;
        case 5:
            end = from + d.pos + 4;
            break;
        case 2: {
            s.len_at = from + d.pos;
            u64 k = d.var(64);
            s.len_len = from + d.pos - s.len_at;
            s.content = from + d.pos;
            ok = ok && !d.code && k <= to - s.content;
            s.size = std::size_t(k);
            end = s.content + s.size;
            break;
        }
        default:
            ok = false;
        }
        if (!ok || d.code || end > to) {
            out.resize(keep);
            return false;
        }
        out.push_back(s);
        if (s.len_len && s.size && depth < 6) {
            scan(b, s.content, s.content + s.size, depth + 1, int(out.size() - 1), out);
        }
        from = end;
    }
    return true;
}
static void splice(Bytes & b, std::size_t at, std::size_t n, const Bytes & with)
{
    b.erase(b.begin() + long(at), b.begin() + long(at + n));
    b.insert(b.begin() + long(at), with.begin(), with.end());
}
static Bytes var_bytes(u64 v, u32 stretch = 0)
{
    Enc e(Wire{});
    e.var(v);
    while (stretch--) {
        e.b.back() |= 0x80;
        e.b.push_back(0);
    }
    return std::move(e.b);
}
// gives the enclosing lengths of spot i the change of size it saw; returns how far the change moved
static void follow(Bytes & b, Spots & s, int i, long by)
{
    for (int p = s[std::size_t(i)].parent; p >= 0; p = s[std::size_t(p)].parent) {
        auto & x = s[std::size_t(p)];
        Bytes l = var_bytes(u64(long(x.size) + by));
        splice(b, x.len_at, x.len_len, l);
        by += long(l.size()) - long(x.len_len);
    }
}

// damages a message in place; returns the kind of damage
static u32 damage(Ch & c, Bytes & b, u32 & depth)
{
    Spots s;
    scan(b, 0, b.size(), 0, -1, s);
    u32 kind = c.pick(9);
    if (s.empty()) {
        kind = 8;
    }
    int i = s.empty() ? 0 : int(c.pick(u32(s.size())));
    if (kind < 3) { // prefer lengths, deeper ones too
        for (std::size_t k = 0; k < s.size(); ++k) {
            int j = int((std::size_t(i) + k) % s.size());
            if (s[std::size_t(j)].len_len) {
                i = j;
                break;
            }
        }
        if (!s[std::size_t(i)].len_len) {
            kind = 4;
        }
    }
    Spot x = s.empty() ? Spot{} : s[std::size_t(i)];
    depth = x.depth;
    switch (kind) {
    case 0:
    case 1: { // a lie about a length
        u64 v = x.size;
        std::size_t left = b.size() - x.content;
        std::size_t in_parent = x.parent < 0 ? left : s[std::size_t(x.parent)].content + s[std::size_t(x.parent)].size - x.content;
        switch (c.pick(8)) {
        case 0:
            v += 1 + c.pick(4);
            break;
        case 1:
            v = v ? v - 1 - c.pick(u32(std::min<u64>(v, 4))) : 1;
            break;
        case 2:
            v = in_parent + 1 + c.pick(3); // past the enclosing message, inside the buffer
            break;
        case 3:
            v = left + 1 + c.pick(3);
            break;
        case 4:
            v = c.pick(u32(left + 20));
            break;
        case 5:
            v = c.integer(64);
            break;
        case 6:
            v = ~0ull - c.pick(8);
            break;
        default:
            v = (1ull << (16 + c.pick(47))) + c.pick(9);
        }
        Bytes l = var_bytes(v, c.pick(4) ? 0 : c.range(1, 9));
        splice(b, x.len_at, x.len_len, l);
        if (c.pick(2)) {
            follow(b, s, i, long(l.size()) - long(x.len_len));
        }
        fault(x.depth ? "nested length forged" : "length forged");
        break;
    }
    case 2: { // content cut or padded, the enclosing lengths follow
        bool cut = x.size && c.pick(2);
        std::size_t n = cut ? 1 + c.pick(u32(x.size)) : 1 + c.pick(9);
        Bytes with;
        std::size_t at = x.content + x.size - (cut ? n : 0);
        if (!cut) {
            for (std::size_t k = 0; k < n; ++k) {
                with.push_back(u8(c.integer(8)));
            }
        }
        splice(b, at, cut ? n : 0, with);
        long by = cut ? -long(n) : long(n);
        if (c.pick(3)) { // its own length as well
            Bytes l = var_bytes(u64(long(x.size) + by));
            splice(b, x.len_at, x.len_len, l);
            by += long(l.size()) - long(x.len_len);
        }
        follow(b, s, i, by);
        fault(cut ? "content cut" : "content padded");
        break;
    }
    case 3: // another wire type
        b[x.tag] = u8((b[x.tag] & ~7) | c.pick(8));
        fault("wire type changed");
        break;
    case 4: { // another field number, 0 included
        Dec d(b.data() + x.tag, x.tag_len, Wire{});
        u64 w = d.var(32) & 7;
        u64 num = c.pick(3) ? c.pick(24) : c.pick(2) ? 300 : c.integer(29);
        Bytes t = var_bytes(num * 8 + w, c.pick(4) ? 0 : c.range(1, 5));
        splice(b, x.tag, x.tag_len, t);
        if (c.pick(2)) {
            follow(b, s, i, long(t.size()) - long(x.tag_len));
        }
        fault("tag changed");
        break;
    }
    case 5: // the message ends early
        b.resize(c.pick(u32(b.size())));
        fault("message cut");
        break;
    case 6: { // the last byte of some varint or string says it continues
        std::size_t end = x.len_len ? x.content + x.size : x.tag + x.tag_len;
        std::size_t at = end < b.size() && c.pick(2) ? end : end - 1;
        u32 n = 1 + c.pick(11);
        for (u32 k = 0; k < n && at + k < b.size(); ++k) {
            b[at + k] |= 0x80;
        }
        fault("continuation bits set");
        break;
    }
    case 7: { // a field duplicated or dropped with what follows it moving
        std::size_t end = x.len_len ? x.content + x.size : std::min(b.size(), x.tag + x.tag_len + 1);
        Bytes f(b.begin() + long(x.tag), b.begin() + long(end));
        bool drop = c.pick(2);
        splice(b, x.tag, drop ? f.size() : 0, drop ? Bytes() : f);
        if (c.pick(3)) {
            follow(b, s, i, drop ? -long(f.size()) : long(f.size()));
        }
        fault(drop ? "field dropped" : "field duplicated");
        break;
    }
    default: {
        Bytes copy = b;
        corrupt(c, b, copy);
    }
    }
    return kind;
}

void world_run(Ch & c)
{
    struct Record
    {
        std::size_t at, end; // in the stream
        u32 schema, kind = 99, depth = 0;
        bool damaged = false;
    };
    std::vector<Record, Mal<Record>> recs;
    Bytes stream;
    u32 n = framed ? c.range(1, 6) : 1;
    u32 base = c.pick(n_schemas);
    for (u32 i = 0; i < n; ++i) {
        c.mark();
        Record r{stream.size(), 0, c.pick(4) ? base : c.pick(n_schemas)};
        auto & v = schemas[r.schema];
        Hold obj(v, v.make());
        v.gen(c, obj.p);
        Enc body(Wire{false, SZ_VARINT});
        v.body(body, obj.p);
        Bytes b = body.b;
        u32 hurt = c.pick(4) ? 1 + (c.pick(3) == 0) : 0;
        while (hurt--) {
            r.kind = damage(c, b, r.depth);
        }
        r.damaged = b != body.b;
        Enc whole(wire);
        v.enc(whole, obj.p);
        stream.push_back(whole.b[0]);
        stream.push_back(whole.b[1]);
        if (framed) {
            std::size_t said = b.size();
            if (c.pick(5) == 0) {
                static const int by[] = {1, -1, 2, -2, 3, 7, 40, 1000, 70000, 1 << 30};
                said = std::size_t(long(said) + by[c.pick(10)]);
                fault("message length forged");
                r.damaged = true;
                r.kind = 20;
            }
            Enc l(wire);
            l.sizep(said, wire.size);
            stream.insert(stream.end(), l.b.begin(), l.b.end());
        }
        stream.insert(stream.end(), b.begin(), b.end());
        Enc t(wire);
        v.rest(t, obj.p);
        stream.insert(stream.end(), t.b.begin(), t.b.end());
        r.end = stream.size();
        recs.push_back(r);
    }
    if (framed && c.pick(4) == 0) {
        std::size_t cut = c.pick(u32(stream.size()));
        fault("stream cut");
        stream.resize(cut);
        while (recs.size() && recs.back().at > cut) {
            recs.pop_back();
        }
        recs.back().end = cut;
        recs.back().damaged = true;
        recs.back().kind = 21;
    }
    BVec buf = to_bvec(stream);
    buf.shrink_to_fit();
    ev_bytes("stream", stream.data(), stream.size());
    In in(buf ARGS);
    auto * used = &schemas[base];
    Hold target(*used, used->make());
    std::size_t at = 0;
    for (u32 k = 0; k < recs.size(); ++k) {
        c.mark();
        auto & r = recs[k];
        auto & v = schemas[c.pick(3) ? r.schema : c.pick(n_schemas)];
        if (target.v != &v || c.pick(2)) {
            target = Hold(v, v.make());
            if (c.pick(3) == 0) {
                v.gen(c, target.p);
            }
        }
        // where a reader of the records stands when every one before was whole; else where the link says this one starts
        if (c.pick(2) || at > stream.size() || in.position() != at || at != r.at) {
            at = r.at;
            in.reset(at);
        }
        u32 how = c.pick(3);
        Res last;
        for (u32 round = 0; round < 2; ++round) {
            Hold want(v, v.clone(target.p));
            Dec d(stream.data() + at, stream.size() - at, wire);
            v.dec(d, want.p);
            Res res;
            u64 biggest, total;
            {
                Window w;
                res = v.read(in, target.p, how);
                biggest = heap.biggest;
                total = heap.bytes;
            }
            std::size_t pos = in.position();
            ev("record %u (%s) as %s -> %s, position %zu (%llu bytes, at most %llu, allocated); model %s %zu%s", k, schemas[r.schema].name, v.name,
               res_name(res).c_str(), pos, (unsigned long long) total, (unsigned long long) biggest, code_name(d.code), at + d.pos,
               d.mismatch ? " undecided" : "");
            state(hmix(hmix(r.schema * 8 + u64(&v - schemas), r.kind * 8 + r.depth), u64(res.code + int(res.exc) * 1000)));
            if (r.damaged) {
                nontrivial();
            }
            REQ(pos <= stream.size() && pos >= at, "position", "%s: position %zu outside [%zu, %zu]", v.name, pos, at, stream.size());
            REQ(to_bytes(buf) == stream, "input-modified", "%s: the input changed", v.name);
            std::size_t have = stream.size() - at;
            if (res.exc) {
                REQ(limit == unlimited && (d.huge || d.mismatch) && (res.exc == Res::bad_alloc || res.exc == Res::length_error), "exception",
                    "%s: %s (biggest request %llu)", v.name, exc_name(res.exc), (unsigned long long) biggest);
                probe("huge string length ended in an allocation exception");
            } else {
                u64 once = 8192 + 200 * have;
                u64 all = 32768 + 600 * have;
                if (limit == unlimited) {
                    // a string may be sized before its bytes turn out to be missing
                    once += d.code ? Dec::huge_bytes : 0;
                    all += d.code ? 2 * Dec::huge_bytes : 0;
                } else {
                    once += 2 * limit;
                }
                REQ(d.mismatch || d.huge || (biggest <= once && total <= all), "allocated",
                    "%s: %llu bytes allocated, %llu at once, for %zu bytes of input", v.name, (unsigned long long) total,
                    (unsigned long long) biggest, have);
                switch (res.code) {
                case OK:
                case RANGE:
                case MSGSIZE:
                case TOOLARGE:
                case PROTO:
                    break;
                default:
                    REQ(false, "undocumented", "%s: code %d", v.name, res.code);
                }
                if (d.mismatch || d.huge || d.over_limit || d.bad_bool) {
                    probe("model does not decide: safety only");
                    REQ(!d.over_limit || d.mismatch || d.huge || !res.ok() || !d.code, "accepted", "%s: accepted, the format says %s", v.name,
                        code_name(d.code));
                } else {
                    REQ(res.code == d.code, res.ok() ? "accepted" : d.code ? "code" : "rejected", "%s: %s, the format says %s", v.name,
                        res_name(res).c_str(), code_name(d.code));
                    if (res.ok()) {
                        REQ(pos == at + d.pos, "consumed", "%s: stopped at %zu instead of %zu", v.name, pos, at + d.pos);
                        REQ(v.canon(target.p) == v.canon(want.p), "value", "%s: another value", v.name);
                        probe(r.damaged ? "accepted after damage" : "intact");
                    } else {
                        probe("rejected");
                    }
                }
            }
            if (round && !d.bad_bool) {
                REQ(res == last, "nondeterministic", "the same bytes gave %s, then %s", res_name(last).c_str(), res_name(res).c_str());
            }
            last = res;
            if (c.pick(3)) {
                break;
            }
            in.position() = at;
        }
        at = in.position();
        sim_time(1);
    }
}
} // namespace sim
