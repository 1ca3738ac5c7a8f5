// C13: nodes at different versions of a variant exchange messages.
#include "world_own.h"

namespace sim
{
const WorldInfo world_info = {
    "C13",
    "A run starts 2..3 nodes at different versions of a message with variants (alternatives reordered, added, removed or retyped) that "
    "send and relay messages over a network that delays, duplicates, reorders, tears and flips id bits, while nodes are upgraded and "
    "downgraded with messages parked because their id was unknown; ids also travel outside the variant, and a failed assignment may have left a variant without a value. Non-trivial: a message crossed "
    "versions or had an unknown id; distinct by the recorded choices.",
    "(sender version, receiver version, alternative, outcome, way of reading, fresh or used target)",
    "variant ids, known_id, in and out archives of every version", "network, upgrades"};

#if SVC == 0 // four byte ids
struct Ids
{
    template <char T>
    using id = zb::id<u32(T) * 0x01000193u>;
    static void ref(auto & e, char t)
    {
        e.num(u32(u32(t) * 0x01000193u));
    }
    static constexpr std::size_t size = 4;
};
#elif SVC == 1 // raw strings
template <char T>
struct Lit
{
    static constexpr char s[6] = {'v', '/', T, '\xff', '.', 0};
};
struct Ids
{
    template <char T>
    using id = zb::id<zb::string_literal{Lit<T>::s}>;
    static void ref(auto & e, char t)
    {
        char s[5] = {'v', '/', t, '\xff', '.'};
        e.raw(s, 5);
    }
    static constexpr std::size_t size = 5;
};
#elif SVC == 2 // whole sha256 digests
template <char T>
struct Lit
{
    static constexpr char s[3] = {'v', T, 0};
};
struct Ids
{
    template <char T>
    using id = zb::id<zb::sha256<zb::string_literal{Lit<T>::s}>()>;
    static constexpr std::size_t size = 32;
    static void ref(auto & e, char t)
    {
        auto put = [&]<char T>() {
            if (t == T) {
                e.raw(id<T>::value.data(), 32);
            }
        };
        put.template operator()<'A'>();
        put.template operator()<'B'>();
        put.template operator()<'C'>();
        put.template operator()<'D'>();
        put.template operator()<'E'>();
        put.template operator()<'F'>();
    }
};
#elif SVC == 3 // two byte ids
struct Ids
{
    template <char T>
    using id = zb::id<u16(T * 0x0201)>;
    static void ref(auto & e, char t)
    {
        e.num(u16(t * 0x0201));
    }
    static constexpr std::size_t size = 2;
};
#elif SVC == 4 // eight byte ids
struct Ids
{
    template <char T>
    using id = zb::id<u64(T) * 0x0101010101010101u ^ 0x80>;
    static void ref(auto & e, char t)
    {
        e.num(u64(u64(t) * 0x0101010101010101u ^ 0x80));
    }
    static constexpr std::size_t size = 8;
};
#else // the index
struct Ids
{
    static constexpr std::size_t size = 1;
    static void ref(auto & e, char t)
    {
        e.num(u8(t - 'A'));
    }
};
#endif
#if SVC < 5
#define DECLARED(T) using serialize_id = Ids::id<T>;
#define DECLARED_OUTSIDE(S, T) auto serialize_id(const S &)->Ids::id<T>;
#define INDEXED 0
#else
#define DECLARED(T)
#define DECLARED_OUTSIDE(S, T)
#define INDEXED 1
#endif

struct A
{
    static constexpr char tag = 'A';
    DECLARED('A')
    u32 x{};
    std::string s;
    void fields(auto && f)
    {
        f(x, s);
    }
};
class A2 // the same id and layout, another type
{
public:
    static constexpr char tag = 'A';
    DECLARED('A')
    using serialize = zb::members<2>;
    friend zb::access;
    void fields(auto && f)
    {
        f(m_x, m_s);
    }

private:
    u32 m_x{};
    std::string m_s;
};
struct B // declares its id outside
{
    static constexpr char tag = 'B';
    std::vector<u16> v;
    void fields(auto && f)
    {
        f(v);
    }
};
DECLARED_OUTSIDE(B, 'B')
class C // only the library may default construct it
{
public:
    static constexpr char tag = 'C';
    DECLARED('C')
    using serialize = zb::members<2>;
    friend zb::access;
    C(C &&) = default;
    C & operator=(C &&) = default;
    static C make()
    {
        return {};
    }
    void fields(auto && f)
    {
        f(m_x, m_s);
    }

private:
    C() = default;
    u16 m_x{};
    std::string m_s;
};
struct D // move only
{
    static constexpr char tag = 'D';
    DECLARED('D')
    std::unique_ptr<std::string> p = std::make_unique<std::string>();
    u8 k{};
    void fields(auto && f)
    {
        f(p, k);
    }
};
struct E // no content
{
    static constexpr char tag = 'E';
    DECLARED('E')
    static zb::errc serialize(auto &, auto &)
    {
        return {};
    }
    void fields(auto &&)
    {
    }
};
struct F // holds variants itself
{
    static constexpr char tag = 'F';
    DECLARED('F')
    std::optional<std::variant<u8, std::string>> o;
    std::vector<std::variant<u16, std::string>> v;
    u64 n{};
    using serialize = zb::members<3>;
    void fields(auto && f)
    {
        f(o, v, n);
    }
};

template <class T>
T mk()
{
    if constexpr (requires { T::make(); }) {
        return T::make();
    } else {
        return T{};
    }
}
template <class V>
struct VarRef; // the model of a variant at some version
template <class... T>
struct VarRef<std::variant<T...>>
{
    using V = std::variant<T...>;
    static constexpr std::size_t n = sizeof...(T);
    static constexpr char tags[] = {T::tag...};
    static bool knows(char t)
    {
        return ((T::tag == t) || ...);
    }
    static V gen(Ch & c)
    {
        u32 k = c.pick(n);
        std::optional<V> v;
        auto one = [&, i = 0u]<class X>(X *) mutable {
            if (i++ == k) {
                X x = mk<X>();
                sim::gen(c, x, 1);
                v.emplace(std::move(x));
            }
        };
        (one(static_cast<T *>(nullptr)), ...);
        return std::move(*v);
    }
    static void id_enc(Enc & e, char t)
    {
        Ids::ref(e, t);
    }
    static void enc(Enc & e, const V & v, mvec<std::size_t> * ids = nullptr)
    {
        if (ids) {
            ids->push_back(e.b.size());
        }
        std::visit(
            [&](auto & x) {
                Ids::ref(e, x.tag);
                e.put(x);
            },
            v);
    }
    static void body_dec(Dec & d, char tag, std::optional<V> & v)
    {
        bool done = false;
        auto one = [&]<class X>(X *) {
            if (!done && X::tag == tag) {
                done = true;
                X x = mk<X>();
                d.get(x);
                if (!d.code) {
                    v.emplace(std::move(x));
                }
            }
        };
        (one(static_cast<T *>(nullptr)), ...);
        if (!done && !d.code) {
            d.code = BADMSG;
        }
    }
    static void dec(Dec & d, std::optional<V> & v)
    {
        u8 got[Ids::size];
        if (!d.raw(got, sizeof(got))) {
            return;
        }
        char tag = 0;
        for (char t = 'A'; t <= 'F'; ++t) {
            Enc e(d.w);
            Ids::ref(e, t);
            if (!std::memcmp(got, e.b.data(), sizeof(got))) {
                tag = t;
            }
        }
        body_dec(d, tag, v);
    }
    static Bytes sem(const V & v)
    {
        Canon k;
        if (v.valueless_by_exception()) {
            k.b.push_back('!');
        } else {
            std::visit(
                [&](auto & x) {
                    k.b.push_back(u8(x.tag));
                    k.put(x);
                },
                v);
        }
        return std::move(k.b);
    }
    static char tag(const V & v)
    {
        return tags[v.index()];
    }
};

template <class V>
struct Note
{
    u16 head{};
    V v;
    std::vector<V> vs;
    std::map<u8, V> m;
    std::optional<V> o;
    std::string tail;
    using serialize = zb::members<6>;
};
struct Sem // a message without its version
{
    u16 head{};
    Bytes v;
    std::vector<Bytes, Mal<Bytes>> vs;
    std::map<u8, Bytes, std::less<u8>, Mal<std::pair<const u8, Bytes>>> m;
    Bytes o;
    std::string tail;
    bool operator==(const Sem &) const = default;
};
template <class V>
struct NoteRef
{
    using R = VarRef<V>;
    using M = Note<V>;
    static M gen(Ch & c)
    {
        M x{};
        sim::gen(c, x.head);
        x.v = R::gen(c);
        for (u32 k = c.pick(4); k--;) {
            x.vs.push_back(R::gen(c));
        }
        for (u32 k = c.pick(3); k--;) {
            u8 key = u8(c.integer(8));
            x.m.emplace(key, R::gen(c));
        }
        if (c.pick(2)) {
            x.o.emplace(R::gen(c));
        }
        sim::gen(c, x.tail, 1);
        return x;
    }
    static void lose(Ch & c, M & x) // an assignment failed: one of the variants holds nothing
    {
        V * v = &x.v;
        u32 k = c.pick(u32(2 + x.vs.size() + x.m.size()));
        if (k >= 2 + x.vs.size()) {
            v = &std::next(x.m.begin(), long(k - 2 - x.vs.size()))->second;
        } else if (k >= 2) {
            v = &x.vs[k - 2];
        } else if (k && x.o) {
            v = &*x.o;
        }
        struct Thrower
        {
            operator std::variant_alternative_t<0, V>() const
            {
                throw 1;
            }
        };
        try {
            v->template emplace<0>(Thrower{});
        } catch (int) {
        }
        REQ(v->valueless_by_exception(), "harness", "the variant still holds something");
    }
    static Sem sem(const M & x)
    {
        Sem s;
        s.head = x.head;
        s.v = R::sem(x.v);
        for (auto & y : x.vs) {
            s.vs.push_back(R::sem(y));
        }
        for (auto & [k, y] : x.m) {
            s.m.emplace(k, R::sem(y));
        }
        if (x.o) {
            s.o = R::sem(*x.o);
        }
        s.tail = x.tail;
        return s;
    }
    static void enc(Enc & e, const M & x, mvec<std::size_t> & ids)
    {
        e.put(x.head);
        R::enc(e, x.v, &ids);
        e.sizep(x.vs.size(), e.w.size);
        for (auto & y : x.vs) {
            R::enc(e, y, &ids);
        }
        e.sizep(x.m.size(), e.w.size);
        for (auto & [k, y] : x.m) {
            e.put(k);
            R::enc(e, y, &ids);
        }
        e.b.push_back(x.o ? 1 : 0);
        if (x.o) {
            R::enc(e, *x.o, &ids);
        }
        e.put(x.tail);
    }
    // stage: the member at which it stopped
    static void dec(Dec & d, Sem & s, int & stage)
    {
        std::optional<V> v;
        stage = 0;
        d.get(s.head);
        if (d.code) {
            return;
        }
        stage = 1;
        R::dec(d, v);
        if (d.code) {
            return;
        }
        s.v = R::sem(*v);
        stage = 2;
        auto k = d.sizep(d.w.size);
        d.huge |= k > 2000;
        for (std::size_t i = 0; i < k && !d.code; ++i) {
            R::dec(d, v);
            if (!d.code) {
                s.vs.push_back(R::sem(*v));
            }
        }
        if (d.code) {
            return;
        }
        stage = 3;
        k = d.sizep(d.w.size);
        for (std::size_t i = 0; i < k && !d.code; ++i) {
            u8 key{};
            d.get(key);
            R::dec(d, v);
            if (!d.code) {
                s.m.emplace(key, R::sem(*v));
            }
        }
        if (d.code) {
            return;
        }
        stage = 4;
        u8 has{};
        d.num(has);
        if (has && !d.code) {
            R::dec(d, v);
            if (!d.code) {
                s.o = R::sem(*v);
            }
        }
        if (d.code) {
            return;
        }
        stage = 5;
        d.get(s.tail);
    }
};

#if SVC == 1 || SVC == 4
using In = zb::in<BVec, zb::endian::big>;
using Out = zb::out<BVec, zb::endian::big>;
static const Wire wire{true, 4};
static In open_in(BVec & b)
{
    return In(b, zb::endian::big{});
}
static Out open_out(BVec & b)
{
    return Out(b, zb::endian::big{});
}
#elif SVC == 2 || SVC == 3
using In = zb::in<BVec, zb::endian::big, zb::size_varint>;
using Out = zb::out<BVec, zb::endian::big, zb::size_varint>;
static const Wire wire{true, SZ_VARINT};
static In open_in(BVec & b)
{
    return In(b, zb::endian::big{}, zb::size_varint{});
}
static Out open_out(BVec & b)
{
    return Out(b, zb::endian::big{}, zb::size_varint{});
}
#else
using In = zb::in<BVec>;
using Out = zb::out<BVec>;
static const Wire wire{};
static In open_in(BVec & b)
{
    return In(b);
}
static Out open_out(BVec & b)
{
    return Out(b);
}
#endif

// one version, type-erased
struct Version
{
    const char * name;
    bool (*knows)(char);
    void * (*make)();
    void (*destroy)(void *);
    void (*gen)(Ch &, void *);
    void (*lose)(Ch &, void *);
    void (*enc)(Enc &, const void *, mvec<std::size_t> &);
    void (*dec)(Dec &, Sem &, int &);
    Sem (*sem)(const void *);
    Res (*write)(BVec &, const void *);
    Res (*read)(In &, void *);
    // only the variant, its id outside
    char (*v_tag)(const void *);
    void (*v_body)(Enc &, const void *);
    void (*v_dec)(Dec &, char, Bytes &);
    Bytes (*v_sem)(const void *);
    Res (*v_write)(BVec &, const void *);
    Res (*v_read)(In &, char, bool, void *); // static or dynamic id
};
template <class V>
struct VersionOf
{
    using M = Note<V>;
    using R = VarRef<V>;
    using MR = NoteRef<V>;
    static M & m(void * p)
    {
        return *static_cast<M *>(p);
    }
    static const M & m(const void * p)
    {
        return *static_cast<const M *>(p);
    }
    template <class T>
    static constexpr std::size_t index_of(char t)
    {
        for (std::size_t i = 0; i < R::n; ++i) {
            if (R::tags[i] == t) {
                return i;
            }
        }
        return R::n;
    }
#if INDEXED
#define STATIC_ID(T) std::byte(T - 'A')
#else
#define STATIC_ID(T) zb::id<Ids::id<T>::value>::value
#endif
    template <char T>
    static zb::errc known_out(Out & out, M & x)
    {
        if constexpr (index_of<V>(T) < R::n) {
#if INDEXED
            return out(zb::known_id<u8(T - 'A')>(x.v));
#else
            return out(zb::known_id<Ids::id<T>::value>(x.v));
#endif
        } else {
            return std::errc::invalid_argument;
        }
    }
    template <char T>
    static zb::errc known_in(In & in, M & x, bool dynamic)
    {
        if constexpr (index_of<V>(T) < R::n) {
            if (!dynamic) {
#if INDEXED
                return in(zb::known_id<u8(T - 'A')>(x.v));
#else
                return in(zb::known_id<Ids::id<T>::value>(x.v));
#endif
            }
        }
#if INDEXED
        return in(zb::known_id(std::byte(T - 'A'), x.v));
#else
        return in(zb::known_id(Ids::id<T>::value, x.v));
#endif
    }
    static Version ops(const char * name)
    {
        return {name,
                [](char t) { return R::knows(t); },
                []() -> void * { return new M{}; },
                [](void * p) { delete &m(p); },
                [](Ch & c, void * p) { m(p) = MR::gen(c); },
                [](Ch & c, void * p) { MR::lose(c, m(p)); },
                [](Enc & e, const void * p, mvec<std::size_t> & ids) { MR::enc(e, m(p), ids); },
                [](Dec & d, Sem & s, int & stage) { MR::dec(d, s, stage); },
                [](const void * p) { return MR::sem(m(p)); },
                [](BVec & b, const void * p) {
                    return guarded([&]() -> zb::errc {
                        auto out = open_out(b);
                        return out(m(p));
                    });
                },
                [](In & in, void * p) { return guarded([&]() -> zb::errc { return in(m(p)); }); },
                [](const void * p) { return R::tag(m(p).v); },
                [](Enc & e, const void * p) { std::visit([&](auto & x) { e.put(x); }, m(p).v); },
                [](Dec & d, char tag, Bytes & s) {
                    std::optional<V> v;
                    R::body_dec(d, tag, v);
                    if (!d.code) {
                        s = R::sem(*v);
                    }
                },
                [](const void * p) { return R::sem(m(p).v); },
                [](BVec & b, const void * p) {
                    return guarded([&]() -> zb::errc {
                        auto out = open_out(b);
                        auto & x = const_cast<M &>(m(p));
                        switch (R::tag(x.v)) {
                        case 'A':
                            return known_out<'A'>(out, x);
                        case 'B':
                            return known_out<'B'>(out, x);
                        case 'C':
                            return known_out<'C'>(out, x);
                        case 'D':
                            return known_out<'D'>(out, x);
                        case 'E':
                            return known_out<'E'>(out, x);
                        default:
                            return known_out<'F'>(out, x);
                        }
                    });
                },
                [](In & in, char tag, bool dynamic, void * p) {
                    return guarded([&]() -> zb::errc {
                        auto & x = m(p);
                        switch (tag) {
                        case 'A':
                            return known_in<'A'>(in, x, dynamic);
                        case 'B':
                            return known_in<'B'>(in, x, dynamic);
                        case 'C':
                            return known_in<'C'>(in, x, dynamic);
                        case 'D':
                            return known_in<'D'>(in, x, dynamic);
                        case 'E':
                            return known_in<'E'>(in, x, dynamic);
                        default:
                            return known_in<'F'>(in, x, dynamic);
                        }
                    });
                }};
    }
};
#if INDEXED
static const Version versions[] = {
    VersionOf<std::variant<A, B>>::ops("AB"),          VersionOf<std::variant<A2, B, C>>::ops("aBC"),
    VersionOf<std::variant<A, B, C, D, E>>::ops("ABCDE"), VersionOf<std::variant<A, B, C, D, E, F>>::ops("ABCDEF"),
    VersionOf<std::variant<A>>::ops("A"),
};
#else
static const Version versions[] = {
    VersionOf<std::variant<A, B, C>>::ops("ABC"),          VersionOf<std::variant<D, C, A2, E>>::ops("DCaE"),
    VersionOf<std::variant<F, E, B, D, A>>::ops("FEBDA"), VersionOf<std::variant<A, B, C, D, E, F>>::ops("ABCDEF"),
    VersionOf<std::variant<D>>::ops("D"),
};
#endif
constexpr u32 n_versions = 5;

struct Packet
{
    int from_version, to;
    Bytes bytes;
    Sem sem;
    bool external = false; // only the variant, with its id outside
    char tag = 0;
    mvec<std::size_t> ids;
    u32 hops = 0;
    bool damaged = false;
    bool parked = false;
};

void world_run(Ch & c)
{
    struct Node
    {
        u32 version;
        void * target = nullptr; // a used object
    };
    u32 n = c.range(2, 3);
    Node nodes[3];
    for (u32 i = 0; i < n; ++i) {
        nodes[i].version = c.pick(n_versions);
    }
    struct Free
    {
        Node * nodes;
        ~Free()
        {
            for (int i = 0; i < 3; ++i) {
                if (nodes[i].target) {
                    versions[nodes[i].version].destroy(nodes[i].target);
                }
            }
        }
    } free_nodes{nodes};
    std::vector<Packet, Mal<Packet>> net;
    auto send = [&](u32 from, const void * obj, u32 hops, bool external) {
        auto & v = versions[nodes[from].version];
        Packet p;
        p.from_version = int(nodes[from].version);
        p.to = int((from + 1 + c.pick(n - 1)) % n);
        p.external = external;
        p.hops = hops;
        p.tag = v.v_tag(obj);
        p.sem = v.sem(obj);
        Enc e(wire);
        BVec b;
        Res r;
        if (external) {
            v.v_body(e, obj);
            r = v.v_write(b, obj);
        } else {
            v.enc(e, obj, p.ids);
            r = v.write(b, obj);
        }
        REQ(r.ok(), "write", "version %s writes: %s", v.name, res_name(r).c_str());
        REQ(to_bytes(b) == e.b, "write-bytes", "version %s: the bytes of alternative %c are not what the format says", v.name, p.tag);
        p.bytes = e.b;
        ev("node %u (%s) sends %c%s, %zu bytes, to %d", from, v.name, p.tag, external ? " (id outside)" : "", e.b.size(), p.to);
        net.push_back(std::move(p));
    };
    u32 steps = c.range(2, 24);
    bool dup = c.pick(2), tear = c.pick(2), flip = c.pick(2), upgrades = c.pick(2);
    while (steps--) {
        c.mark();
        u32 what = c.pick(8);
        if (what < 3 || net.empty()) { // a new message
            u32 from = c.pick(n);
            auto & v = versions[nodes[from].version];
            void * obj = v.make();
            struct G
            {
                const Version & v;
                void * p;
                ~G()
                {
                    v.destroy(p);
                }
            } g{v, obj};
            v.gen(c, obj);
            if (c.chance(1, 12)) { // a failed assignment left a variant without a value: the message cannot be written
                v.lose(c, obj);
                Enc e(wire);
                mvec<std::size_t> ids;
                bool threw = false;
                try {
                    v.enc(e, obj, ids);
                } catch (const std::bad_variant_access &) {
                    threw = true;
                }
                BVec b;
                Res r = v.write(b, obj);
                ev("node %u (%s) tries to send a variant without a value: %s", from, v.name, res_name(r).c_str());
                REQ(threw, "harness", "the model encoded a variant without a value");
                REQ(r.exc == Res::none && r.code == INVALID, "valueless", "version %s writes a variant without a value: %s", v.name,
                    res_name(r).c_str());
                auto bytes = to_bytes(b);
                REQ(bytes.size() >= e.b.size() && std::equal(e.b.begin(), e.b.end(), bytes.begin()), "valueless-bytes",
                    "version %s: what precedes the variant without a value is not what the format says", v.name);
                fault("variant without a value");
                state(hmix(hmix(nodes[from].version, 77), e.b.size() & 31));
                continue;
            }
            send(from, obj, 0, c.chance(1, 3));
            continue;
        }
        if (what == 3 && upgrades) { // another version is installed
            u32 i = c.pick(n);
            if (nodes[i].target) {
                versions[nodes[i].version].destroy(nodes[i].target);
                nodes[i].target = nullptr;
            }
            nodes[i].version = c.pick(n_versions);
            for (auto & p : net) {
                if (p.to == int(i) && p.parked) {
                    probe("parked message retried after an upgrade");
                }
            }
            fault("version change");
            ev("node %u is now %s", i, versions[nodes[i].version].name);
            continue;
        }
        // ---- some packet arrives
        u32 k = c.pick(u32(net.size()));
        if (k) {
            fault("reordering");
        }
        Packet p = net[k];
        if (dup && c.chance(1, 4)) {
            fault("duplicate");
        } else {
            net.erase(net.begin() + k);
        }
        if (flip && !p.ids.empty() && c.chance(1, 4)) {
            std::size_t at = p.ids[c.pick(u32(p.ids.size()))] + c.pick(u32(Ids::size));
            if (at < p.bytes.size()) {
                p.bytes[at] ^= u8(1u << c.pick(8));
                p.damaged = true;
                fault("flipped id bit");
            }
        }
        auto & node = nodes[p.to];
        auto & v = versions[node.version];
        std::size_t have = p.bytes.size();
        if (tear && have && c.chance(1, 4)) {
            have = c.pick(u32(have));
            fault("torn");
        }
        bool fresh = !node.target || c.pick(2);
        if (fresh) {
            if (node.target) {
                v.destroy(node.target);
            }
            node.target = v.make();
        }
        BVec buf = to_bvec(p.bytes);
        buf.resize(have);
        buf.shrink_to_fit();
        In in = open_in(buf);
        for (;;) {
            Sem want, before = v.sem(node.target);
            int stage = 0;
            Dec d(p.bytes.data(), have, wire);
            Res r;
            u32 way = 0;
            if (p.external) {
                v.v_dec(d, p.tag, want.v);
                way = 1 + c.pick(2);
                Window win;
                r = v.v_read(in, p.tag, way == 2, node.target);
            } else {
                v.dec(d, want, stage);
                Window win;
                r = v.read(in, node.target);
            }
            Sem after = v.sem(node.target);
            bool safety = d.huge || d.mismatch;
            ev("node %d (%s) reads %zu of %zu bytes from %s: %s", p.to, v.name, have, p.bytes.size(), versions[p.from_version].name,
               res_name(r).c_str());
            state(hmix(hmix(u64(p.from_version) * 8 + node.version, u64(p.tag)), hmix(u64(r.code), way * 2 + fresh)));
            if (p.from_version != int(node.version) || d.code == BADMSG) {
                nontrivial();
            }
            REQ(in.position() <= have, "position", "the position is outside");
            if (safety) {
                break;
            }
            REQ(r.code == d.code && !r.exc, d.code == BADMSG ? "unknown-id" : r.ok() ? "accepted" : "rejected",
                "version %s reading alternative %c of %s%s: %s instead of %s", v.name, p.tag, versions[p.from_version].name,
                p.external ? " by its id" : "", res_name(r).c_str(), code_name(d.code));
            if (r.ok()) {
                REQ(p.external ? after.v == want.v : after == want, "value", "version %s decoded another value from %s", v.name,
                    versions[p.from_version].name);
                REQ(p.damaged || (p.external ? after.v == p.sem.v : after == p.sem), "sent-value",
                    "version %s decoded another value than %s sent", v.name, versions[p.from_version].name);
                REQ(in.position() == d.pos, "consumed", "consumed %zu instead of %zu", in.position(), d.pos);
                probe(p.external ? "read by an outside id" : "read");
                if (p.hops < 3 && c.pick(3)) {
                    std::size_t sent = net.size();
                    send(u32(p.to), node.target, p.hops + 1, p.external);
                    REQ(p.damaged || net[sent].bytes == p.bytes, "relay", "relayed by %s: other bytes than those received", v.name);
                    fault("relayed");
                }
                break;
            }
            if (r.code == BADMSG) {
                if (p.external) {
                    REQ(d.pos || after.v == before.v, "changed", "an unknown id changed the variant");
                } else {
                    REQ(stage != 1 || d.pos != 2 + Ids::size || after.v == before.v, "changed", "an unknown id changed the variant");
                    REQ((stage >= 2 || after.vs == before.vs) && (stage >= 3 || after.m == before.m) &&
                            (stage >= 4 || after.o == before.o) && after.tail == before.tail,
                        "changed", "members behind an unknown id changed");
                }
                probe("unknown id");
                if (!p.damaged && !p.parked) {
                    p.parked = true;
                    net.push_back(p); // kept until this node knows it
                }
                break;
            }
            // torn: the rest arrives and it is read again from the start
            if (have == p.bytes.size()) {
                break;
            }
            auto q = reinterpret_cast<const std::byte *>(p.bytes.data());
            buf.insert(buf.end(), q + have, q + p.bytes.size());
            have = p.bytes.size();
            in.reset();
            sim_time(1 + c.pick(20));
        }
    }
}
} // namespace sim
