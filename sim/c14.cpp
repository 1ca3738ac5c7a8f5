// C14: nodes at different versions of a protobuf schema, and senders of other implementations.
#include "pbtypes.h"

namespace sim
{
const WorldInfo world_info = {
    "C14",
    "A run starts 2..3 nodes at different versions of a message schema (fields added, removed, reordered, renumbered by every way of "
    "numbering, nested messages at versions of their own) that send and relay messages over a network that delays, duplicates, reorders "
    "and tears, while nodes change version; foreign senders permute fields, split packed fields, insert unknown fields and sign extend. "
    "Non-trivial: a message crossed versions or came from a foreign sender; distinct by the recorded choices.",
    "(sender version, receiver version, outcome, foreign ways used, fresh or used target, hops)",
    "the protobuf protocol of the library: members, fields, maps, reserved fields, nested messages", "network, upgrades, foreign senders"};

struct Sem // the fields of a message by number
{
    struct Val
    {
        bool msg = false;
        Bytes b;                       // the value, or the keys of a map of messages
        std::vector<Sem, Mal<Sem>> l; // messages
    };
    std::map<u32, Val, std::less<u32>, Mal<std::pair<const u32, Val>>> f;
};
template <class T>
Sem sem_of(const T & x);
template <class T>
Sem::Val val_of(const T & x)
{
    Sem::Val v;
    if constexpr (PbMsg<T>) {
        v.msg = true;
        v.l.push_back(sem_of(x));
    } else if constexpr (MapLike<T>) {
        // by key
        std::map<Bytes, const typename T::mapped_type *, std::less<Bytes>, Mal<std::pair<const Bytes, const typename T::mapped_type *>>> s;
        for (auto & [k, y] : x) {
            s.emplace(canon_of(k), &y);
        }
        for (auto & [k, y] : s) {
            v.b.insert(v.b.end(), k.begin(), k.end());
            if constexpr (PbMsg<typename T::mapped_type>) {
                v.msg = true;
                v.l.push_back(sem_of(*y));
            } else {
                auto q = canon_of(*y);
                v.b.insert(v.b.end(), q.begin(), q.end());
            }
        }
    } else if constexpr (Seq<T> && requires { requires PbMsg<typename T::value_type>; }) {
        v.msg = true;
        for (auto & y : x) {
            v.l.push_back(sem_of(y));
        }
    } else if constexpr (Seq<T>) {
        Canon k;
        k.len(x.size());
        for (auto & y : x) {
            k.put(y);
        }
        v.b = std::move(k.b);
    } else {
        v.b = canon_of(x);
    }
    return v;
}
template <class T>
Sem sem_of(const T & x)
{
    Sem s;
    const_cast<T &>(x).pbfields([&](u32 n, auto & m) { s.f.emplace(n, val_of(m)); });
    return s;
}
// the first shared field that differs, or 0
static u32 differs(const Sem & a, const Sem & b)
{
    for (auto & [n, x] : a.f) {
        auto i = b.f.find(n);
        if (i == b.f.end()) {
            continue;
        }
        auto & y = i->second;
        if (!x.msg && !y.msg) {
            if (x.b != y.b) {
                return n;
            }
            continue;
        }
        if (x.b != y.b || x.l.size() != y.l.size()) {
            return n;
        }
        for (std::size_t k = 0; k < x.l.size(); ++k) {
            if (u32 d = differs(x.l[k], y.l[k])) {
                return n * 10000 + d;
            }
        }
    }
    return 0;
}
// what of a some version with b's fields keeps
static void trim(Sem & a, const Sem & b)
{
    for (auto i = a.f.begin(); i != a.f.end();) {
        auto j = b.f.find(i->first);
        if (j == b.f.end()) {
            i = a.f.erase(i);
            continue;
        }
        for (std::size_t k = 0; k < i->second.l.size() && k < j->second.l.size(); ++k) {
            trim(i->second.l[k], j->second.l[k]);
        }
        ++i;
    }
}

#if SVC == 0
#define OPTS
#define ARGS
static const Wire wire{};
#elif SVC == 1
#define OPTS , zb::endian::big, zb::size_varint
#define ARGS , zb::endian::big{}, zb::size_varint{}
static const Wire wire{true, SZ_VARINT};
#else
#define OPTS , zb::no_size
#define ARGS , zb::no_size{}
static const Wire wire{false, SZ_NONE};
#endif
using In = zb::in<BVec OPTS>;
using Out = zb::out<BVec OPTS>;
constexpr bool framed = SVC != 2;

struct Chunk
{
    u32 num;
    Bytes b;
};
using Chunks = std::vector<Chunk, Mal<Chunk>>;

enum : u32 // ways of a foreign sender
{
    PERMUTED = 1,
    SPLIT = 2,
    UNKNOWN = 4,
    EXTENDED = 8,
    REPEATED = 16,
    ENTRIES = 64,
    NESTED = 128,
};
static void unknown_field(Ch & c, Enc & e, u32 num);
static Bytes joined(Ch & c, Chunks & ch, u32 ways) // the body of a nested message or a map entry
{
    if ((ways & NESTED) && (ways & UNKNOWN) && c.pick(2)) {
        Enc e(Wire{false, SZ_VARINT});
        u32 num = 100 + u32(c.integer(12));
        unknown_field(c, e, num);
        ch.insert(ch.begin() + c.pick(u32(ch.size() + 1)), Chunk{num, std::move(e.b)});
    }
    if ((ways & NESTED) && (ways & PERMUTED)) {
        for (u32 k = 0; k < 2 * ch.size(); ++k) {
            std::size_t i = c.pick(u32(ch.size()));
            if (i + 1 < ch.size() && ch[i].num != ch[i + 1].num) {
                std::swap(ch[i], ch[i + 1]);
            }
        }
    }
    Bytes b;
    for (auto & x : ch) {
        b.insert(b.end(), x.b.begin(), x.b.end());
    }
    return b;
}
template <class T>
void foreign_field(Ch & c, Chunks & out, u32 num, const T & m, u32 ways);
template <class T>
Bytes foreign_body(Ch & c, const T & m, u32 ways)
{
    Chunks ch;
    const_cast<T &>(m).pbfields([&](u32 n, auto & x) { foreign_field(c, ch, n, x, ways); });
    return joined(c, ch, ways);
}
template <class T>
void foreign_field(Ch & c, Chunks & out, u32 num, const T & m, u32 ways)
{
    auto add = [&](auto && f) {
        Enc e(Wire{false, SZ_VARINT});
        f(e);
        if (e.b.size()) {
            out.push_back({num, std::move(e.b)});
        }
    };
    auto scalar = [&](Enc & e, auto & x) {
        using X = std::remove_cvref_t<decltype(x)>;
        if (ways & EXTENDED) {
            if constexpr (std::is_same_v<X, zb::vint32_t>) {
                e.var(u64(i64(x.value)));
                return;
            } else if constexpr (std::is_same_v<X, E32>) {
                e.var(u64(i64(std::int32_t(x))));
                return;
            }
        }
        pb_scalar(e, x);
    };
    auto one_message = [&](Enc & e, auto & x) {
        Bytes b = foreign_body(c, x, ways);
        e.var(num * 8 + 2);
        e.var(b.size());
        e.raw(b.data(), b.size());
    };
    if constexpr (MapLike<T>) {
        auto entry = [&](auto & k, auto & y) {
            add([&](Enc & e) {
                Chunks ch;
                const bool omit = (ways & ENTRIES) && c.pick(2); // a default key or value need not be written
                if (!omit || canon_of(k) != canon_of(typename T::key_type{})) {
                    foreign_field(c, ch, 1, k, ways);
                }
                if (!omit || canon_of(y) != canon_of(typename T::mapped_type{})) {
                    foreign_field(c, ch, 2, y, ways);
                }
                Bytes b = joined(c, ch, ways);
                e.var(num * 8 + 2);
                e.var(b.size());
                e.raw(b.data(), b.size());
            });
        };
        for (auto & [k, y] : m) {
            if ((ways & ENTRIES) && c.pick(2)) { // an earlier entry of the key: the last one counts
                typename T::mapped_type old{};
                gen(c, old);
                entry(k, old);
            }
            entry(k, y);
        }
    } else if constexpr (PbMsg<T>) {
        add([&](Enc & e) { one_message(e, m); });
    } else if constexpr (PbBytes<T>) {
        add([&](Enc & e) { pb_field_enc(e, num, m); });
    } else if constexpr (!requires { typename T::value_type; } || is_varint<T>::value) {
        if ((ways & REPEATED) && c.pick(2)) { // an earlier value: the last one counts
            T old{};
            gen(c, old);
            add([&](Enc & e) {
                e.var(num * 8 + pb_wire<T>());
                scalar(e, old);
            });
        }
        add([&](Enc & e) {
            e.var(num * 8 + pb_wire<T>());
            scalar(e, m);
        });
    } else if constexpr (pb_wire<typename T::value_type>() == 2) {
        for (auto & x : m) {
            add([&](Enc & e) {
                if constexpr (PbMsg<typename T::value_type>) {
                    one_message(e, x);
                } else {
                    pb_one(e, num, x);
                }
            });
        }
    } else {
        using E = typename T::value_type;
        auto i = m.begin();
        std::size_t left = m.size();
        while (left) {
            std::size_t k = (ways & SPLIT) ? 1 + c.pick(u32(left)) : left;
            bool one = (ways & SPLIT) && k == 1 && c.pick(2); // not packed
            add([&](Enc & e) {
                if (one) {
                    e.var(num * 8 + pb_wire<E>());
                    scalar(e, *i++);
                    return;
                }
                Enc s(Wire{false, SZ_VARINT});
                for (std::size_t q = 0; q < k; ++q) {
                    scalar(s, *i++);
                }
                e.var(num * 8 + 2);
                e.var(s.b.size());
                e.raw(s.b.data(), s.b.size());
            });
            left -= k;
        }
    }
}

struct Version
{
    const char * name;
    void * (*make)();
    void * (*clone)(const void *);
    void (*destroy)(void *);
    void (*gen)(Ch &, void *);
    void (*enc)(Enc &, const void *);
    void (*dec)(Dec &, void *);
    Bytes (*canon)(const void *);
    Sem (*sem)(const void *);
    void (*chunks)(Ch &, Chunks &, const void *, u32);
    bool (*declares)(u32);
    Res (*write)(Out &, const void *);
    Res (*read)(In &, void *);
};
template <class T>
Version ops(const char * name)
{
    return {name,
            []() -> void * { return new T{}; },
            [](const void * p) -> void * { return new T(*static_cast<const T *>(p)); },
            [](void * p) { delete static_cast<T *>(p); },
            [](Ch & c, void * p) {
                T x{};
                gen(c, x, 0);
                *static_cast<T *>(p) = x;
            },
            [](Enc & e, const void * p) { e.put(*static_cast<const T *>(p)); },
            [](Dec & d, void * p) { d.get(*static_cast<T *>(p)); },
            [](const void * p) { return canon_of(*static_cast<const T *>(p)); },
            [](const void * p) { return sem_of(*static_cast<const T *>(p)); },
            [](Ch & c, Chunks & out, const void * p, u32 ways) {
                const_cast<T *>(static_cast<const T *>(p))->pbfields([&](u32 n, auto & m) { foreign_field(c, out, n, m, ways); });
            },
            [](u32 num) {
                T x{};
                bool r = false;
                x.pbfields([&](u32 n, auto &) { r |= n == num; });
                return r;
            },
            [](Out & out, const void * p) { return guarded([&]() -> zb::errc { return out(*static_cast<const T *>(p)); }); },
            [](In & in, void * p) { return guarded([&]() -> zb::errc { return in(*static_cast<T *>(p)); }); }};
}
static const Version versions[] = {ops<Full<In0>>("full"), ops<Explicit>("fields"), ops<Gaps>("gaps"),     ops<Mapped>("mapped"),
                                   ops<Full<In1>>("full'"), ops<Far>("far"),      ops<Nothing>("nothing"), ops<Sets>("sets"),
                                   ops<Sets2>("sets'")};
constexpr u32 n_versions = 9;

struct Hold
{
    const Version * v;
    void * p;
    explicit Hold(const Version & v_) : v(&v_), p(v_.make())
    {
    }
    Hold(const Version & v_, void * p_) : v(&v_), p(p_)
    {
    }
    Hold(const Hold &) = delete;
    Hold(Hold && o) : v(o.v), p(o.p)
    {
        o.p = nullptr;
    }
    Hold & operator=(Hold && o)
    {
        std::swap(v, o.v);
        std::swap(p, o.p);
        return *this;
    }
    ~Hold()
    {
        if (p) {
            v->destroy(p);
        }
    }
};

struct Packet
{
    u32 from_version, to;
    Bytes bytes;
    Sem alive; // the fields every version so far has declared
    u32 hops = 0, ways = 0;
};

void unknown_field(Ch & c, Enc & e, u32 num)
{
    switch (c.pick(4)) {
    case 0:
        e.var(num * 8ull);
        e.var(c.integer(64));
        break;
    case 1:
        e.var(num * 8ull + 1);
        e.num(c.integer(64));
        break;
    case 2:
        e.var(num * 8ull + 5);
        e.num(u32(c.integer(32)));
        break;
    default: { // a string, a message with any fields, or anything
        e.var(num * 8ull + 2);
        Enc s(Wire{false, SZ_VARINT});
        if (c.pick(2)) {
            unknown_field(c, s, 1 + c.pick(20));
            unknown_field(c, s, 1 + c.pick(2000));
        } else {
            for (u32 k = c.length(); k--;) {
                s.b.push_back(u8(c.integer(8)));
            }
        }
        e.var(s.b.size());
        e.raw(s.b.data(), s.b.size());
    }
    }
}

void world_run(Ch & c)
{
    u32 n = c.range(2, 3);
    struct Node
    {
        Hold target; // a used object of its version
        u32 version;
    };
    std::vector<Node, Mal<Node>> nodes;
    for (u32 i = 0; i < n; ++i) {
        u32 v = c.pick(n_versions);
        nodes.push_back({Hold(versions[v]), v});
    }
    std::vector<Packet, Mal<Packet>> net;
    // several messages share an output buffer
    auto send = [&](u32 from, const void * obj, u32 hops, const Sem * alive) {
        auto & v = versions[nodes[from].version];
        BVec b;
        Out out(b ARGS);
        std::size_t lead = framed && c.pick(2) ? 1 + c.pick(3) : 0; // behind something else
        b.resize(lead, std::byte(0x7e));
        out.position() = lead;
        Enc e(wire);
        v.enc(e, obj);
        Res r = v.write(out, obj);
        REQ(r.ok(), "write", "version %s writes: %s", v.name, res_name(r).c_str());
        Bytes got = to_bytes(b, lead);
        if (got != e.b) {
            ev("wrote   %s", hex(got).c_str());
            ev("instead %s", hex(e.b).c_str());
        }
        REQ(got == e.b, "write-bytes", "version %s: the bytes are not the encoding of the declared fields", v.name);
        Packet p;
        p.from_version = nodes[from].version;
        p.to = (from + 1 + c.pick(n - 1)) % n;
        p.bytes = std::move(e.b);
        p.alive = alive ? *alive : v.sem(obj);
        p.hops = hops;
        ev("node %u (%s) sends %zu bytes to %u", from, v.name, p.bytes.size(), p.to);
        net.push_back(std::move(p));
    };
    u32 steps = c.range(2, 16);
    bool dup = c.pick(2), tear = framed && c.pick(2), upgrades = c.pick(2), foreign = c.pick(3);
    while (steps--) {
        c.mark();
        u32 what = c.pick(8);
        if (what < 3 || net.empty()) {
            u32 from = c.pick(n);
            auto & v = versions[nodes[from].version];
            Hold obj(v);
            v.gen(c, obj.p);
            if (!foreign || c.pick(2)) {
                send(from, obj.p, 0, nullptr);
                continue;
            }
            // another implementation of the sender's version
            u32 ways = c.pick(32) | c.pick(4) * ENTRIES;
            Chunks ch;
            v.chunks(c, ch, obj.p, ways);
            if (ways & UNKNOWN) {
                for (u32 k = c.range(1, 4); k--;) {
                    u32 num = c.pick(2) ? 22 + c.pick(40) : c.pick(2) ? 301 + u32(c.integer(10)) : 536870000 + c.pick(900);
                    Enc e(Wire{false, SZ_VARINT});
                    unknown_field(c, e, num);
                    bool known = false;
                    for (auto & w : versions) {
                        known |= w.declares(num);
                    }
                    if (!known) {
                        ch.insert(ch.begin() + c.pick(u32(ch.size() + 1)), Chunk{num, std::move(e.b)});
                    }
                }
            }
            if ((ways & PERMUTED) && ch.size()) {
                // any order that keeps the chunks of one field in theirs
                for (u32 k = 0; k < 2 * ch.size(); ++k) {
                    std::size_t i = c.pick(u32(ch.size()));
                    if (i + 1 < ch.size() && ch[i].num != ch[i + 1].num) {
                        std::swap(ch[i], ch[i + 1]);
                    }
                }
            }
            Enc e(wire);
            std::size_t total = 0;
            for (auto & x : ch) {
                total += x.b.size();
            }
            e.sizep(total, wire.size);
            for (auto & x : ch) {
                e.raw(x.b.data(), x.b.size());
            }
            Packet p;
            p.from_version = nodes[from].version;
            p.to = (from + 1 + c.pick(n - 1)) % n;
            p.bytes = std::move(e.b);
            p.alive = v.sem(obj.p);
            p.ways = ways | 32;
            if (ways & PERMUTED) {
                fault("permuted fields");
            }
            if (ways & SPLIT) {
                fault("split packed fields");
            }
            if (ways & UNKNOWN) {
                fault("unknown fields");
            }
            if (ways & EXTENDED) {
                fault("sign extended integers");
            }
            if (ways & REPEATED) {
                fault("repeated scalar");
            }
            if (ways & ENTRIES) {
                fault("repeated or partial map entries");
            }
            if (ways & NESTED) {
                fault("nested messages of foreign senders");
            }
            ev("a foreign %s sends %zu bytes to %u", v.name, p.bytes.size(), p.to);
            net.push_back(std::move(p));
            continue;
        }
        if (what == 3 && upgrades) {
            u32 i = c.pick(n);
            u32 v = c.pick(n_versions);
            nodes[i] = {Hold(versions[v]), v};
            fault("version change");
            ev("node %u is now %s", i, versions[v].name);
            continue;
        }
        u32 k = c.pick(u32(net.size()));
        if (k) {
            fault("reordering");
        }
        Packet p = net[k];
        if (dup && c.chance(1, 4)) {
            fault("duplicate");
        } else {
            net.erase(net.begin() + k);
        }
        auto & node = nodes[p.to];
        auto & v = versions[node.version];
        bool fresh = c.pick(2);
        if (fresh) {
            node.target = Hold(v);
        } else if (c.pick(2)) {
            v.gen(c, node.target.p);
        }
        std::size_t have = p.bytes.size();
        if (tear && have && c.chance(1, 4)) {
            have = c.pick(u32(have));
            fault("torn");
        }
        BVec buf = to_bvec(p.bytes);
        buf.resize(have);
        buf.shrink_to_fit();
        In in(buf ARGS);
        for (;;) {
            Hold want(v, v.clone(node.target.p));
            Dec d(p.bytes.data(), have, wire);
            v.dec(d, want.p);
            Res r;
            {
                Window win;
                r = v.read(in, node.target.p);
            }
            ev("node %u (%s) reads %zu of %zu bytes from %s: %s", p.to, v.name, have, p.bytes.size(), versions[p.from_version].name,
               res_name(r).c_str());
            state(hmix(hmix(p.from_version * 8 + node.version, p.ways), hmix(u64(r.code), p.hops * 2 + fresh)));
            if (p.ways || p.from_version != node.version) {
                nontrivial();
            }
            REQ(!d.mismatch, "model", "the model does not decide a legal message");
            REQ(r.code == d.code && !r.exc, r.ok() ? "accepted" : "rejected", "version %s reading %s%s: %s instead of %s", v.name,
                p.ways ? "a foreign " : "", versions[p.from_version].name, res_name(r).c_str(), code_name(d.code));
            if (r.ok()) {
                REQ(have == p.bytes.size(), "torn-accepted", "accepted %zu of %zu bytes", have, p.bytes.size());
                REQ(in.position() == have, "consumed", "consumed %zu of %zu bytes", in.position(), have);
                Sem got = v.sem(node.target.p);
                u32 bad = differs(got, p.alive);
                REQ(!bad, "field", "version %s: field %u sent by %s%s (hop %u) has another value", v.name, bad, p.ways ? "a foreign " : "",
                    versions[p.from_version].name, p.hops);
                REQ(v.canon(node.target.p) == v.canon(want.p), "kept", "version %s: fields %s did not send are not as they were", v.name,
                    versions[p.from_version].name);
                probe("read");
                if (p.hops < 3 && c.pick(3)) {
                    // one more version in the chain
                    Sem alive = p.alive;
                    trim(alive, got);
                    send(p.to, node.target.p, p.hops + 1, &alive);
                    fault("relayed");
                }
                break;
            }
            if (have == p.bytes.size()) {
                break;
            }
            auto q = reinterpret_cast<const std::byte *>(p.bytes.data());
            buf.insert(buf.end(), q + have, q + p.bytes.size());
            have = p.bytes.size();
            in.reset();
            sim_time(1 + c.pick(20));
        }
    }
}
} // namespace sim
