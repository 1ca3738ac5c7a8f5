// A service used by the RPC worlds: functions of every kind the library can bind, with a log of invocations.
#pragma once
#include "alloc.h"
#include "core.h"
#include "world_own.h"

namespace sim
{
using namespace zpp::bits::literals;

enum Fn : int
{
    ADD,    // free function
    CONCAT, // member, const reference
    NOTE,   // void
    STATUS, // no parameters, depends on the server's state
    PICK,   // variant in, optional out
    TAKE,   // move only
    PBQ,    // protobuf messages
    INDEX,  // const member, by rvalue reference
    RAWIO,  // opaque, reads and writes itself
    RESET,  // void without parameters
    SAME,   // free function without parameters
    N_FN
};
inline const char * fn_name(int f)
{
    static const char * n[] = {"add", "concat", "note", "status", "pick", "take", "pbq", "index", "rawio", "reset", "same"};
    return n[f];
}
using PickVar = std::variant<u8, std::string, std::vector<u16>>;
struct Parcel
{
    u16 w{};
    std::string label;
    std::vector<u32> items;
    bool operator==(const Parcel &) const = default;
    void fields(auto && f)
    {
        f(w, label, items);
    }
};

struct Args
{
    std::int32_t a{};
    i64 b{};
    std::vector<std::string> vs;
    std::string s;
    u64 n{};
    PickVar v;
    std::unique_ptr<Parcel> o = std::make_unique<Parcel>();
    PbMix pb;
    std::map<u16, std::string> m;
    void make(Ch & c, int fn)
    {
        switch (fn) {
        case ADD:
            gen(c, a);
            gen(c, b);
            break;
        case CONCAT:
            gen(c, vs, 1);
            gen(c, s);
            break;
        case NOTE:
            gen(c, n);
            break;
        case PICK:
            gen(c, v);
            gen(c, a);
            break;
        case TAKE:
            gen(c, o);
            break;
        case PBQ:
            gen(c, pb);
            break;
        case INDEX:
            gen(c, m);
            gen(c, s);
            break;
        case RAWIO:
            gen(c, s);
            gen(c, n);
            break;
        }
    }
    // the arguments in order
    template <class F>
    void each(int fn, F && f)
    {
        switch (fn) {
        case ADD:
            return f(a, b);
        case CONCAT:
            return f(vs, s);
        case NOTE:
            return f(n);
        case PICK:
            return f(v, a);
        case TAKE:
            return f(o);
        case PBQ:
            return f(pb);
        case INDEX:
            return f(m, s);
        case RAWIO:
            return f(s, n);
        }
    }
    Bytes canon(int fn)
    {
        Canon k;
        each(fn, [&](auto &... x) { (k.put(x), ...); });
        return std::move(k.b);
    }
    void enc(Enc & e, int fn)
    {
        each(fn, [&](auto &... x) { (e.put(x), ...); });
    }
    void dec(Dec & d, int fn)
    {
        each(fn, [&](auto &... x) { (d.get(x), ...); });
    }
};

// ---- what the functions compute -----------------------------------------------------------
inline i64 do_add(std::int32_t a, i64 b)
{
    return i64(u64(a) + u64(b) * 3);
}
inline std::string do_concat(const std::vector<std::string> & vs, const std::string & s)
{
    std::string r;
    for (auto & x : vs) {
        r += x;
        r += s;
    }
    return r;
}
inline std::optional<PickVar> do_pick(const PickVar & v, std::int32_t a)
{
    if (a & 1) {
        return v;
    }
    if (v.index() == 1) {
        return PickVar(std::vector<u16>(std::get<1>(v).size() % 20, u16(a)));
    }
    return {};
}
inline std::vector<Parcel> do_take(const Parcel & p)
{
    std::vector<Parcel> r(p.w % 4, p);
    for (auto & x : r) {
        x.items.push_back(p.w);
    }
    return r;
}
inline PbMix do_pbq(const PbMix & x)
{
    return x;
}
inline std::multimap<std::string, u16> do_index(const std::map<u16, std::string> & m, const std::string & s)
{
    std::multimap<std::string, u16> r;
    for (auto & x : m) {
        r.emplace(x.second + s, x.first);
    }
    return r;
}
inline std::vector<u16> do_same()
{
    return {1, 2, 0xfff0};
}

struct Invocation
{
    int fn;
    Bytes args;
    Bytes result; // canonical
};
struct SvcLog
{
    mvec<Invocation> calls;
    u64 notes = 0;
    void (*on_call)(int fn) = nullptr;
    template <class... A>
    void called(int fn, const A &... x)
    {
        {
            Exempt e;
            Canon k;
            (k.put(x), ...);
            calls.push_back({fn, std::move(k.b), {}});
        }
        if (on_call) {
            on_call(fn);
        }
    }
    template <class R>
    R returns(R r)
    {
        Exempt e;
        Canon k;
        k.put(r);
        calls.back().result = std::move(k.b);
        return r;
    }
};
inline SvcLog * svc_log = nullptr;

inline i64 free_add(std::int32_t a, i64 b)
{
    svc_log->called(ADD, a, b);
    return svc_log->returns(do_add(a, b));
}
inline std::vector<u16> free_same()
{
    svc_log->called(SAME);
    return svc_log->returns(do_same());
}
template <class In, class Out>
struct Service
{
    SvcLog log;
    std::string concat(const std::vector<std::string> & vs, const std::string & s)
    {
        log.called(CONCAT, vs, s);
        return log.returns(do_concat(vs, s));
    }
    void note(u64 n)
    {
        log.called(NOTE, n);
        log.notes = log.notes * 31 + n;
    }
    std::pair<u64, std::string> status()
    {
        log.called(STATUS);
        return log.returns(std::pair<u64, std::string>(log.notes, std::string(log.notes % 40, 's')));
    }
    std::optional<PickVar> pick(PickVar v, std::int32_t a)
    {
        log.called(PICK, v, a);
        return log.returns(do_pick(v, a));
    }
    std::vector<Parcel> take(std::unique_ptr<Parcel> p)
    {
        log.called(TAKE, p);
        return log.returns(do_take(*p));
    }
    PbMix pbq(PbMix x)
    {
        log.called(PBQ, x);
        return log.returns(do_pbq(x));
    }
    std::multimap<std::string, u16> index(std::map<u16, std::string> && m, const std::string & s) const
    {
        auto & l = const_cast<SvcLog &>(log);
        l.called(INDEX, m, s);
        return l.returns(do_index(m, s));
    }
    zb::errc rawio(In & in, Out & out)
    {
        std::string s;
        u64 n{};
        if (auto r = in(s, n); zb::failure(r)) {
            return r;
        }
        log.called(RAWIO, s, n);
        std::string t(s.rbegin(), s.rend());
        log.returns(std::pair<u64, std::string>(n, t));
        return out(n, t);
    }
    void reset()
    {
        log.called(RESET);
        log.notes = 0;
    }
};

// The response value of fn decoded by the model; false if it has none.
inline bool dec_response(Dec & d, int fn, Bytes & canon)
{
    Canon k;
    auto one = [&](auto x) {
        d.get(x);
        k.put(x);
    };
    switch (fn) {
    case ADD:
        one(i64{});
        break;
    case CONCAT:
        one(std::string{});
        break;
    case STATUS:
        one(std::pair<u64, std::string>{});
        break;
    case PICK:
        one(std::optional<PickVar>{});
        break;
    case TAKE:
        one(std::vector<Parcel>{});
        break;
    case PBQ:
        one(PbMix{});
        break;
    case INDEX:
        one(std::multimap<std::string, u16>{});
        break;
    case RAWIO:
        one(std::pair<u64, std::string>{});
        break;
    case SAME:
        one(std::vector<u16>{});
        break;
    default:
        return false;
    }
    canon = std::move(k.b);
    return true;
}
// The answer of fn to x, by the model.
inline void enc_response(Enc & e, int fn, const Args & x, u64 notes)
{
    switch (fn) {
    case ADD:
        return e.put(do_add(x.a, x.b));
    case CONCAT:
        return e.put(do_concat(x.vs, x.s));
    case STATUS:
        return e.put(std::pair<u64, std::string>(notes, std::string(notes % 40, 's')));
    case PICK:
        return e.put(do_pick(x.v, x.a));
    case TAKE:
        return e.put(do_take(*x.o));
    case PBQ:
        return e.put(do_pbq(x.pb));
    case INDEX:
        return e.put(do_index(x.m, x.s));
    case RAWIO:
        return e.put(std::pair<u64, std::string>(x.n, std::string(x.s.rbegin(), x.s.rend())));
    case SAME:
        return e.put(do_same());
    }
}
inline bool has_response(int fn)
{
    return fn != NOTE && fn != RESET;
}

template <class V>
zb::errc keep(V && r, Bytes & canon)
{
    if (r.failure()) {
        return r.error();
    }
    Canon k;
    k.put(r.value());
    canon = std::move(k.b);
    return {};
}

#if SVC % 2 // the last binding, and with it the end of the search for an id, is of either kind
#define LAST_BINDINGS(ID) zb::bind<&S::reset, ID(9)>, zb::bind<free_same, ID(10)>, zb::bind_opaque<&S::rawio, ID(8)>
#else
#define LAST_BINDINGS(ID) zb::bind_opaque<&S::rawio, ID(8)>, zb::bind<&S::reset, ID(9)>, zb::bind<free_same, ID(10)>
#endif
#define SIM_SERVICE(NAME, ID)                                                                                                     \
    template <class In, class Out>                                                                                                \
    struct NAME                                                                                                                   \
    {                                                                                                                             \
        using S = Service<In, Out>;                                                                                               \
        using rpc = zb::rpc<zb::bind<free_add, ID(0)>, zb::bind<&S::concat, ID(1)>, zb::bind<&S::note, ID(2)>,                    \
                            zb::bind<&S::status, ID(3)>, zb::bind<&S::pick, ID(4)>, zb::bind<&S::take, ID(5)>,                    \
                            zb::bind<&S::pbq, ID(6)>, zb::bind<&S::index, ID(7)>, LAST_BINDINGS(ID)>;                                             \
        template <class C>                                                                                                        \
        static zb::errc send(C & client, int fn, const Args & x, bool body)                                                      \
        {                                                                                                                         \
            switch (fn) {                                                                                                         \
            case ADD:                                                                                                             \
                return body ? client.template request_body<ID(0)>(x.a, x.b) : client.template request<ID(0)>(x.a, x.b);           \
            case CONCAT:                                                                                                          \
                return body ? client.template request_body<ID(1)>(x.vs, x.s) : client.template request<ID(1)>(x.vs, x.s);         \
            case NOTE:                                                                                                            \
                return body ? client.template request_body<ID(2)>(x.n) : client.template request<ID(2)>(x.n);                     \
            case STATUS:                                                                                                          \
                if (body) {                                                                                                       \
                    client.template request_body<ID(3)>();                                                                        \
                    return {};                                                                                                    \
                }                                                                                                                 \
                return client.template request<ID(3)>();                                                                          \
            case PICK:                                                                                                            \
                return body ? client.template request_body<ID(4)>(x.v, x.a) : client.template request<ID(4)>(x.v, x.a);           \
            case TAKE:                                                                                                            \
                return body ? client.template request_body<ID(5)>(x.o) : client.template request<ID(5)>(x.o);                     \
            case PBQ:                                                                                                             \
                return body ? client.template request_body<ID(6)>(x.pb) : client.template request<ID(6)>(x.pb);                   \
            case INDEX:                                                                                                           \
                return body ? client.template request_body<ID(7)>(x.m, x.s) : client.template request<ID(7)>(x.m, x.s);           \
            case RAWIO:                                                                                                           \
                return body ? client.template request_body<ID(8)>(x.s, x.n) : client.template request<ID(8)>(x.s, x.n);           \
            case RESET:                                                                                                           \
                if (body) {                                                                                                       \
                    client.template request_body<ID(9)>();                                                                        \
                    return {};                                                                                                    \
                }                                                                                                                 \
                return client.template request<ID(9)>();                                                                          \
            default:                                                                                                              \
                if (body) {                                                                                                       \
                    client.template request_body<ID(10)>();                                                                       \
                    return {};                                                                                                    \
                }                                                                                                                 \
                return client.template request<ID(10)>();                                                                         \
            }                                                                                                                     \
        }                                                                                                                         \
        /* the same request with arguments of other types that convert to the parameters */                                       \
        template <class C>                                                                                                        \
        static zb::errc send_as(C & client, int fn, const Args & x, bool body, u32 how)                                   \
        {                                                                                                                 \
            auto go = [&]<class I>(I, auto &&... a) -> zb::errc {                                                         \
                return body ? client.template request_body<I>(a...) : client.template request<I>(a...);                   \
            };                                                                                                            \
            /* (class arguments go as non-const lvalues: the library does not take others next to a conversion) */        \
            auto & y = const_cast<Args &>(x);                                                                             \
            switch (fn) {                                                                                                 \
            case ADD:                                                                                                     \
                if (how == 1) {                                                                                           \
                    return go(zb::id<ID(0)>{}, i64(x.a), x.b);                                                            \
                }                                                                                                         \
                if (how == 2 && x.b == std::int32_t(x.b)) {                                                               \
                    return go(zb::id<ID(0)>{}, x.a, std::int32_t(x.b));                                                   \
                }                                                                                                         \
                if (how == 3 && x.a == std::int8_t(x.a) && x.b >= 0) {                                                    \
                    return go(zb::id<ID(0)>{}, std::int8_t(x.a), u64(x.b));                                               \
                }                                                                                                         \
                break;                                                                                                    \
            case NOTE:                                                                                                    \
                if (how == 1 && x.n <= 0xffff) {                                                                          \
                    return go(zb::id<ID(2)>{}, u16(x.n));                                                                 \
                }                                                                                                         \
                if (how == 2 && x.n <= 0x7fffffff) {                                                                      \
                    return go(zb::id<ID(2)>{}, int(x.n));                                                                 \
                }                                                                                                         \
                if (how == 3) {                                                                                           \
                    return go(zb::id<ID(2)>{}, i64(x.n));                                                                 \
                }                                                                                                         \
                break;                                                                                                    \
            case PICK:                                                                                                    \
                if (how == 1) {                                                                                           \
                    return go(zb::id<ID(4)>{}, y.v, i64(x.a));                                                            \
                }                                                                                                         \
                if (how == 2 && x.a == std::int16_t(x.a)) {                                                               \
                    return go(zb::id<ID(4)>{}, y.v, std::int16_t(x.a));                                                   \
                }                                                                                                         \
                break;                                                                                                    \
            }                                                                                                             \
            return send(client, fn, x, body);                                                                                     \
        }                                                                                                                         \
        template <class C>                                                                                                        \
        static zb::errc receive(C & client, int fn, Bytes & canon)                                                               \
        {                                                                                                                         \
            switch (fn) {                                                                                                         \
            case ADD:                                                                                                             \
                return keep(client.template response<ID(0)>(), canon);                                                            \
            case CONCAT:                                                                                                          \
                return keep(client.template response<ID(1)>(), canon);                                                            \
            case NOTE:                                                                                                            \
                client.template response<ID(2)>();                                                                                \
                return {};                                                                                                        \
            case STATUS:                                                                                                          \
                return keep(client.template response<ID(3)>(), canon);                                                            \
            case PICK:                                                                                                            \
                return keep(client.template response<ID(4)>(), canon);                                                            \
            case TAKE:                                                                                                            \
                return keep(client.template response<ID(5)>(), canon);                                                            \
            case PBQ:                                                                                                             \
                return keep(client.template response<ID(6)>(), canon);                                                            \
            case INDEX:                                                                                                           \
                return keep(client.template response<ID(7)>(), canon);                                                            \
            case RAWIO: {                                                                                                         \
                std::pair<u64, std::string> x;                                                                                    \
                if (auto r = client.in(x); zb::failure(r)) {                                                                      \
                    return r;                                                                                                     \
                }                                                                                                                 \
                Canon k;                                                                                                          \
                k.put(x);                                                                                                         \
                canon = std::move(k.b);                                                                                           \
                return {};                                                                                                        \
            }                                                                                                                     \
            case RESET:                                                                                                           \
                client.template response<ID(9)>();                                                                                \
                return {};                                                                                                        \
            default:                                                                                                              \
                return keep(client.template response<ID(10)>(), canon);                                                           \
            }                                                                                                                     \
        }                                                                                                                         \
        static void enc_id(Enc & e, int fn)                                                                                       \
        {                                                                                                                         \
            switch (fn) {                                                                                                         \
            case ADD:                                                                                                             \
                return e.put(zb::id_v<ID(0)>);                                                                                    \
            case CONCAT:                                                                                                          \
                return e.put(zb::id_v<ID(1)>);                                                                                    \
            case NOTE:                                                                                                            \
                return e.put(zb::id_v<ID(2)>);                                                                                    \
            case STATUS:                                                                                                          \
                return e.put(zb::id_v<ID(3)>);                                                                                    \
            case PICK:                                                                                                            \
                return e.put(zb::id_v<ID(4)>);                                                                                    \
            case TAKE:                                                                                                            \
                return e.put(zb::id_v<ID(5)>);                                                                                    \
            case PBQ:                                                                                                             \
                return e.put(zb::id_v<ID(6)>);                                                                                    \
            case INDEX:                                                                                                           \
                return e.put(zb::id_v<ID(7)>);                                                                                    \
            case RAWIO:                                                                                                           \
                return e.put(zb::id_v<ID(8)>);                                                                                    \
            case RESET:                                                                                                           \
                return e.put(zb::id_v<ID(9)>);                                                                                    \
            default:                                                                                                              \
                return e.put(zb::id_v<ID(10)>);                                                                                   \
            }                                                                                                                     \
        }                                                                                                                         \
        using id_type = typename rpc::id;                                                                                         \
        static id_type id_of(int fn)                                                                                              \
        {                                                                                                                         \
            static const id_type t[] = {zb::id_v<ID(0)>, zb::id_v<ID(1)>, zb::id_v<ID(2)>, zb::id_v<ID(3)>,                       \
                                        zb::id_v<ID(4)>, zb::id_v<ID(5)>, zb::id_v<ID(6)>, zb::id_v<ID(7)>,                       \
                                        zb::id_v<ID(8)>, zb::id_v<ID(9)>, zb::id_v<ID(10)>};                                      \
            return t[fn];                                                                                                         \
        }                                                                                                                         \
    };
#define SIM_ID_INT(n) (1000 + n * 257)
#define SIM_ID_SHA(n) "fn" #n ""_sha256_int
#define SIM_ID_LONG(n) "service::fn" #n ""_sha1, 8
SIM_SERVICE(SvcInt, SIM_ID_INT)
SIM_SERVICE(SvcSha, SIM_ID_SHA)
SIM_SERVICE(SvcLong, SIM_ID_LONG)
#define SIM_ID_WIDE(n) "service::fn" #n ""_sha256
SIM_SERVICE(SvcWide, SIM_ID_WIDE)
} // namespace sim
