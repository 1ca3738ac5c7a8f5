// C16: views into the receive buffer.
#include "world_own.h"
#include "damage.h"

namespace sim
{
const WorldInfo world_info = {
    "C16",
    "A run receives 1..10 messages with views (sized by every prefix, fixed extent, covering the rest, in vectors, maps, tuples, optionals "
    "and variants, mutable spans, arguments of RPC functions) into one region that the network fills fragment by fragment, torn and "
    "damaged, while earlier views are held and checked after every step, until the region is reused. Non-trivial: a view was decoded; "
    "distinct by the recorded choices.",
    "(message kind, outcome, damage, views held, bytes of the views)",
    "zpp::bits::in and rpc over vectors, strings and spans, views and spans of every kind", "the network writing into the region, damage"};

#if SVC == 0
using Byte = std::byte;
#define OPTS
#define ARGS
using Region = std::vector<Byte>; // with its capacity reserved
static const Wire wire{};
#elif SVC == 1
using Byte = char;
#define OPTS , zb::endian::big, zb::size_varint
#define ARGS , zb::endian::big{}, zb::size_varint{}
using Region = std::string;
static const Wire wire{true, SZ_VARINT};
#else
using Byte = unsigned char;
#define OPTS , zb::size2b, zb::alloc_limit<4000>
#define ARGS , zb::size2b{}, zb::alloc_limit<4000>{}
using Region = std::span<const Byte>;
static const Wire wire{false, 2, 4000};
#endif
using In = zb::in<Region OPTS>;

using V = std::span<const Byte>;
#if SVC == 1
using SV = std::string_view;
#else
using SV = V;
#endif
class MyView // a user's view
{
public:
    using value_type = Byte;
    using iterator = const Byte *;
    MyView() = default;
    MyView(const Byte * p_, std::size_t n_) : p(p_), n(n_)
    {
    }
    const Byte * data() const
    {
        return p;
    }
    std::size_t size() const
    {
        return n;
    }
    iterator begin() const
    {
        return p;
    }
    iterator end() const
    {
        return p + n;
    }
    const Byte & operator[](std::size_t i) const
    {
        return p[i];
    }

private:
    const Byte * p = nullptr;
    std::size_t n = 0;
};
template <std::size_t N>
class FixedView
{
public:
    using value_type = Byte;
    using iterator = const Byte *;
    static constexpr std::size_t extent = N;
    constexpr FixedView() = default;
    constexpr FixedView(const Byte * p_, std::size_t) : p(p_)
    {
    }
    constexpr const Byte * data() const
    {
        return p;
    }
    constexpr std::size_t size() const
    {
        return N;
    }
    constexpr iterator begin() const
    {
        return p;
    }
    constexpr iterator end() const
    {
        return p + N;
    }
    constexpr const Byte & operator[](std::size_t i) const
    {
        return p[i];
    }

private:
    const Byte * p = nullptr;
};
template <class T>
struct is_fixed : std::false_type
{
};
template <std::size_t N>
struct is_fixed<FixedView<N>> : std::true_type
{
};
template <class T>
concept View = std::is_same_v<T, V> || std::is_same_v<T, SV> || std::is_same_v<T, MyView>;
template <class T>
struct is_span : std::false_type
{
};
template <class E, std::size_t N>
struct is_span<std::span<E, N>> : std::bool_constant<!std::is_const_v<E>>
{
    static constexpr std::size_t extent = N;
};

struct Pool // memory behind the views of a sender and the mutable spans of a receiver
{
    struct Room
    {
        void * p;
        void (*drop)(void *);
        bool (*intact)(void *);
    };
    std::vector<Room, Mal<Room>> rooms;
    template <class E>
    struct Block
    {
        std::vector<E> v;
        std::vector<E> kept; // the guard elements at both ends
    };
    template <class E>
    std::span<E> room(std::size_t n)
    {
        auto b = new Block<E>;
        b->v.resize(n + 4);
        for (std::size_t i = 0; i < n + 4; ++i) {
            if constexpr (std::is_same_v<E, std::string>) {
                b->v[i] = std::string(20, 'g');
            } else {
                b->v[i] = E(0x5a);
            }
        }
        b->kept = {b->v[0], b->v[1], b->v[n + 2], b->v[n + 3]};
        rooms.push_back({b, [](void * q) { delete static_cast<Block<E> *>(q); },
                         [](void * q) {
                             auto & x = *static_cast<Block<E> *>(q);
                             std::size_t k = x.v.size();
                             return x.v[0] == x.kept[0] && x.v[1] == x.kept[1] && x.v[k - 2] == x.kept[2] && x.v[k - 1] == x.kept[3];
                         }});
        return std::span<E>(b->v.data() + 2, n);
    }
    bool intact() const
    {
        for (auto & r : rooms) {
            if (!r.intact(r.p)) {
                return false;
            }
        }
        return true;
    }
    Pool() = default;
    Pool(const Pool &) = delete;
    ~Pool()
    {
        for (auto & r : rooms) {
            r.drop(r.p);
        }
    }
};

// ---- the messages --------------------------------------------------------------------------
struct R0
{
    using serialize = zb::members<2>;
    u16 id{};
    V body;
    void fields(auto && f)
    {
        f(id, body);
    }
};
struct R1
{
    using serialize = zb::members<4>;
    V a;
    u32 x{};
    std::optional<SV> b;
    SV c;
    void fields(auto && f)
    {
        f(a, x, b, c);
    }
};
struct R2
{
    using serialize = zb::members<4>;
    std::vector<SV> list;
    std::map<u32, V> m;
    std::tuple<V, u8, SV> t;
    std::pair<u8, MyView> p;
    void fields(auto && f)
    {
        f(list, m, t, p);
    }
};
struct R3
{
    using serialize = zb::members<6>;
    zb::span1b<const Byte> a;
    zb::sized_t<SV, u16> b;
    zb::span4b<const Byte> c;
    zb::span8b<const Byte> d;
    zb::sized_t<SV, zb::vsize_t> e;
    u8 end{};
    void fields(auto && f)
    {
        f(a, b, c, d, e, end);
    }
};
struct R4
{
    using serialize = zb::members<3>;
    u16 id{};
    V head;
    zb::unsized_t<SV> rest;
    void fields(auto && f)
    {
        f(id, head, rest);
    }
};
struct R5
{
    using serialize = zb::members<3>;
    std::variant<u32, V, std::pair<SV, V>> v;
    std::unique_ptr<R0> p;
    zb::optional_ptr<R1> q;
    void fields(auto && f)
    {
        f(v, p, q);
    }
};
struct R6
{
    using serialize = zb::members<7>;
    std::span<Byte> a;
    std::span<u32> b;
    std::span<u16, 3> c{static_cast<u16 *>(nullptr), 3};
    std::span<std::string> d;
    zb::span1b<u64> e;
    zb::static_span<u16> f{};
    V g;
    void fields(auto && y)
    {
        y(a, b, c, d, e, f, g);
    }
};
struct R7
{
    using serialize = zb::members<4>;
    MyView a;
    u8 x{};
    zb::sized_t<MyView, u8> b;
    zb::unsized_t<MyView> c;
    void fields(auto && f)
    {
        f(a, x, b, c);
    }
};
struct R8 // read member by member
{
    using apart = void;
    V a;
    FixedView<4> key;
    u8 x{};
    FixedView<17> key2;
    SV c;
    void fields(auto && f)
    {
        f(a, key, x, key2, c);
    }
};

// ---- model -----------------------------------------------------------------------------------
// generates a sender's object
template <class T>
void vgen(Ch & c, Pool & pool, T & v, std::size_t min = 0, std::size_t max = ~0u)
{
    if constexpr (is_sized<T>::value) {
        vgen(c, pool, static_cast<typename is_sized<T>::base &>(v), 0, is_sized<T>::size == 1 ? 255 : ~0u);
    } else if constexpr (View<T> || is_fixed<T>::value) {
        std::size_t n = std::min<std::size_t>(std::max<std::size_t>(gen_len(c, 0), min), max);
        if constexpr (is_fixed<T>::value) {
            n = T::extent;
        }
        auto s = pool.room<Byte>(n);
        for (auto & x : s) {
            x = Byte(c.integer(8));
        }
        v = T(s.data(), n);
    } else if constexpr (is_span<T>::value) {
        using E = typename T::value_type;
        std::size_t n = T::extent != std::dynamic_extent ? T::extent : std::min<std::size_t>(gen_len(c, 0), max);
        auto s = pool.room<E>(n);
        for (auto & x : s) {
            gen(c, x, 1);
        }
        v = T(s.data(), n);
    } else if constexpr (Fields<T>) {
        v.fields([&](auto &... m) { (vgen(c, pool, m), ...); });
    } else if constexpr (is_tmpl<T, std::tuple>::value || is_tmpl<T, std::pair>::value) {
        std::apply([&](auto &... m) { (vgen(c, pool, m), ...); }, v);
    } else if constexpr (is_tmpl<T, std::optional>::value) {
        v.reset();
        if (c.pick(3)) {
            vgen(c, pool, v.emplace());
        }
    } else if constexpr (Ptr<T>) {
        v.reset(new std::remove_cvref_t<decltype(*v)>());
        vgen(c, pool, *v);
    } else if constexpr (is_tmpl<T, zb::optional_ptr>::value) {
        v.reset();
        if (c.pick(3)) {
            v.reset(new std::remove_cvref_t<decltype(*v)>());
            vgen(c, pool, *v);
        }
    } else if constexpr (is_tmpl<T, std::variant>::value) {
        switch (c.pick(3)) {
        case 0:
            v.template emplace<0>(u32(c.integer(32)));
            break;
        case 1:
            vgen(c, pool, v.template emplace<1>());
            break;
        default:
            vgen(c, pool, v.template emplace<2>());
        }
    } else if constexpr (MapLike<T>) {
        v.clear();
        for (u32 n = c.pick(6); n--;) {
            u32 k = u32(c.integer(32));
            vgen(c, pool, v[k]);
        }
    } else if constexpr (Seq<T>) {
        v.clear();
        v.resize(gen_len(c, 1));
        for (auto & x : v) {
            vgen(c, pool, x);
        }
    } else {
        gen(c, v, 0);
    }
}
template <class T>
void venc(Enc & e, const T & v, int sz)
{
    if constexpr (is_sized<T>::value) {
        venc(e, static_cast<const typename is_sized<T>::base &>(v), is_sized<T>::size);
    } else if constexpr (View<T>) {
        e.sizep(v.size(), sz);
        e.raw(v.data(), v.size());
    } else if constexpr (is_fixed<T>::value) {
        e.raw(v.data(), v.size());
    } else if constexpr (is_span<T>::value) {
        if (T::extent == std::dynamic_extent) {
            e.sizep(v.size(), sz);
        }
        for (auto & x : v) {
            e.put(x);
        }
    } else if constexpr (Fields<T>) {
        const_cast<T &>(v).fields([&](auto &... m) { (venc(e, m, wire.size), ...); });
    } else if constexpr (is_tmpl<T, std::tuple>::value || is_tmpl<T, std::pair>::value) {
        std::apply([&](auto &... m) { (venc(e, m, wire.size), ...); }, v);
    } else if constexpr (is_tmpl<T, std::optional>::value || is_tmpl<T, zb::optional_ptr>::value) {
        e.b.push_back(bool(v));
        if (v) {
            venc(e, *v, wire.size);
        }
    } else if constexpr (Ptr<T>) {
        venc(e, *v, wire.size);
    } else if constexpr (is_tmpl<T, std::variant>::value) {
        e.b.push_back(u8(v.index()));
        std::visit([&](auto & x) { venc(e, x, wire.size); }, v);
    } else if constexpr (MapLike<T> || Seq<T>) {
        e.sizep(v.size(), sz);
        for (auto & x : v) {
            venc(e, x, wire.size);
        }
    } else {
        e.put(v);
    }
}
// decodes into v as a receiver whose buffer is at d.p must; its mutable spans have been given room
template <class T>
void vdec(Dec & d, T & v, int sz)
{
    if (d.code) {
        return;
    }
    if constexpr (is_sized<T>::value) {
        vdec(d, static_cast<typename is_sized<T>::base &>(v), is_sized<T>::size);
    } else if constexpr (View<T> || is_fixed<T>::value) {
        std::size_t k = sz == SZ_NONE ? d.left() : 0;
        if constexpr (is_fixed<T>::value) {
            k = T::extent;
        } else if (sz != SZ_NONE) {
            k = d.sizep(sz);
        }
        if (d.code) {
            return;
        }
        if (k > d.left()) {
            d.code = RANGE;
            return;
        }
        v = T(reinterpret_cast<const Byte *>(d.p + d.pos), k);
        d.pos += k;
    } else if constexpr (is_span<T>::value) {
        std::size_t k = T::extent == std::dynamic_extent && sz != SZ_NONE ? d.sizep(sz) : v.size();
        if (d.code) {
            return;
        }
        if (k > v.size()) {
            d.code = RANGE;
            return;
        }
        v = T(v.data(), k);
        for (auto & x : v) {
            d.get(x);
        }
    } else if constexpr (Fields<T>) {
        v.fields([&](auto &... m) { (vdec(d, m, wire.size), ...); });
    } else if constexpr (is_tmpl<T, std::tuple>::value || is_tmpl<T, std::pair>::value) {
        std::apply([&](auto &... m) { (vdec(d, m, wire.size), ...); }, v);
    } else if constexpr (is_tmpl<T, std::optional>::value || is_tmpl<T, zb::optional_ptr>::value) {
        u8 has{};
        if (!d.raw(&has, 1)) {
            return;
        }
        v.reset();
        if (has) {
            if constexpr (is_tmpl<T, std::optional>::value) {
                v.emplace();
            } else {
                v.reset(new std::remove_cvref_t<decltype(*v)>());
            }
            vdec(d, *v, wire.size);
        }
    } else if constexpr (Ptr<T>) {
        v.reset(new std::remove_cvref_t<decltype(*v)>());
        vdec(d, *v, wire.size);
    } else if constexpr (is_tmpl<T, std::variant>::value) {
        u8 i{};
        if (!d.raw(&i, 1)) {
            return;
        }
        switch (i) {
        case 0:
            vdec(d, v.template emplace<0>(), wire.size);
            break;
        case 1:
            vdec(d, v.template emplace<1>(), wire.size);
            break;
        case 2:
            vdec(d, v.template emplace<2>(), wire.size);
            break;
        default:
            d.code = BADMSG;
        }
    } else if constexpr (MapLike<T>) {
        std::size_t k = d.sizep(sz);
        v.clear();
        for (std::size_t i = 0; i < k && !d.code; ++i) {
            std::pair<typename T::key_type, typename T::mapped_type> x{};
            vdec(d, x, wire.size);
            if (!d.code) {
                v.insert(std::move(x));
            }
        }
    } else if constexpr (Seq<T> && requires { requires View<typename T::value_type>; }) {
        std::size_t k = d.sizep(sz);
        if (d.code) {
            return;
        }
        if (wire.limit != unlimited && k > wire.limit / sizeof(typename T::value_type)) {
            d.code = MSGSIZE;
            return;
        }
        if (k > Dec::huge_bytes / sizeof(typename T::value_type)) {
            d.huge = true;
        }
        v.clear();
        for (std::size_t i = 0; i < k && !d.code; ++i) {
            v.emplace_back();
            vdec(d, v.back(), wire.size);
        }
    } else {
        d.get(v);
    }
}
// every view and value, in order: views by place and size
template <class T>
void image(Canon & k, const T & v)
{
    if constexpr (is_sized<T>::value) {
        image(k, static_cast<const typename is_sized<T>::base &>(v));
    } else if constexpr (View<T> || is_fixed<T>::value) {
        // an empty view refers to nothing
        const void * p = v.size() ? v.data() : nullptr;
        k.bytes(&p, sizeof(p));
        k.len(v.size());
    } else if constexpr (is_span<T>::value) {
        k.len(v.size());
        for (auto & x : v) {
            k.put(x);
        }
    } else if constexpr (Fields<T>) {
        const_cast<T &>(v).fields([&](auto &... m) { (image(k, m), ...); });
    } else if constexpr (is_tmpl<T, std::tuple>::value || is_tmpl<T, std::pair>::value) {
        std::apply([&](auto &... m) { (image(k, m), ...); }, v);
    } else if constexpr (is_tmpl<T, std::optional>::value || is_tmpl<T, zb::optional_ptr>::value || Ptr<T>) {
        k.len(v ? 1 : 0);
        if (v) {
            image(k, *v);
        }
    } else if constexpr (is_tmpl<T, std::variant>::value) {
        k.len(v.index());
        std::visit([&](auto & x) { image(k, x); }, v);
    } else if constexpr (MapLike<T> || (Seq<T> && requires { requires View<typename T::value_type>; })) {
        k.len(v.size());
        for (auto & x : v) {
            image(k, x);
        }
    } else {
        k.put(v);
    }
}
template <class T, class F>
void each_view(const T & v, F && f)
{
    if constexpr (is_sized<T>::value) {
        each_view(static_cast<const typename is_sized<T>::base &>(v), f);
    } else if constexpr (View<T> || is_fixed<T>::value) {
        f(v.data(), v.size());
    } else if constexpr (Fields<T>) {
        const_cast<T &>(v).fields([&](auto &... m) { (each_view(m, f), ...); });
    } else if constexpr (is_tmpl<T, std::tuple>::value || is_tmpl<T, std::pair>::value) {
        std::apply([&](auto &... m) { (each_view(m, f), ...); }, v);
    } else if constexpr (is_tmpl<T, std::optional>::value || is_tmpl<T, zb::optional_ptr>::value || Ptr<T>) {
        if (v) {
            each_view(*v, f);
        }
    } else if constexpr (is_tmpl<T, std::variant>::value) {
        std::visit([&](auto & x) { each_view(x, f); }, v);
    } else if constexpr (MapLike<T> || (Seq<T> && requires { requires View<typename T::value_type>; })) {
        for (auto & x : v) {
            each_view(x, f);
        }
    }
}

struct Held
{
    const Byte * p;
    Bytes content;
};
using Helds = std::vector<Held, Mal<Held>>;
static void hold(Helds & h, const Byte * p, std::size_t n)
{
    auto q = reinterpret_cast<const u8 *>(p);
    h.push_back({p, Bytes(q, q + n)});
}

struct Kind
{
    const char * name;
    void * (*make)();
    void (*destroy)(void *);
    void (*gen)(Ch &, Pool &, void *);
    void (*enc)(Enc &, const void *);
    void (*dec)(Dec &, void *);
    Bytes (*image)(const void *);
    void (*hold)(Helds &, const void *);
    Res (*read)(In &, void *, u32 how);
    Res (*write)(std::vector<Byte> &, const void *); // null: not a sender's type
    bool no_alloc, to_end;
    u32 kind;
};
template <class T>
Kind kind(const char * name, u32 k, bool no_alloc, bool to_end)
{
    Kind r{name,
           []() -> void * { return new T{}; },
           [](void * p) { delete static_cast<T *>(p); },
           [](Ch & c, Pool & pool, void * p) { vgen(c, pool, *static_cast<T *>(p)); },
           [](Enc & e, const void * p) { venc(e, *static_cast<const T *>(p), wire.size); },
           [](Dec & d, void * p) { vdec(d, *static_cast<T *>(p), wire.size); },
           [](const void * p) {
               Canon c;
               image(c, *static_cast<const T *>(p));
               return std::move(c.b);
           },
           [](Helds & h, const void * p) { each_view(*static_cast<const T *>(p), [&](const Byte * q, std::size_t n) { hold(h, q, n); }); },
           [](In & in, void * p, u32 how) {
               auto & x = *static_cast<T *>(p);
               return guarded([&]() -> zb::errc {
                   zb::errc r{};
                   if constexpr (!requires { typename T::apart; }) {
                       if (how == 0) {
                           return in(x);
                       }
                   }
                   if (how == 1) {
                       x.fields([&](auto &... m) { r = in(m...); });
                       return r;
                   }
                   x.fields([&](auto &... m) { (void) (zb::success(r = zb::errc(in(m))) && ...); });
                   return r;
               });
           },
           nullptr,
           no_alloc,
           to_end,
           k};
    if constexpr (!std::is_same_v<T, R6> && !std::is_same_v<T, R8>) {
        r.write = [](std::vector<Byte> & b, const void * p) {
            zb::out out(b ARGS);
            return guarded([&]() -> zb::errc { return out(*static_cast<const T *>(p)); });
        };
    }
    return r;
}
static const Kind kinds[] = {kind<R0>("one view", 0, true, false),           kind<R1>("optional and fixed views", 1, true, false),
                             kind<R2>("containers of views", 2, false, false), kind<R3>("sized views", 3, true, false),
                             kind<R4>("rest of the input", 4, true, true),     kind<R5>("variants and pointers", 5, false, false),
                             kind<R6>("mutable spans", 6, false, false),       kind<R7>("own view types", 7, true, true),
                             kind<R8>("fixed extents", 8, true, false)};
constexpr u32 n_kinds = 9;

// a function with views among its arguments
static struct
{
    u32 calls = 0;
    V a;
    u32 x = 0;
    SV b;
} seen;
static u64 with_views(V a, u32 x, std::optional<SV> b)
{
    ++seen.calls;
    seen.a = a;
    seen.x = x;
    seen.b = b ? *b : SV();
    return 77;
}
using rpc = zb::rpc<zb::bind<with_views, 3>>;

void world_run(Ch & c)
{
    constexpr std::size_t cap = 3000;
    Own<std::vector<Byte>> mem(new std::vector<Byte>(cap, Byte(0x11)));
#if SVC != 2
    Region region;
    region.reserve(cap);
#endif
    std::size_t base = 0; // where the next message starts in the region
    Helds held;
    std::vector<void *, Mal<void *>> objs;
    std::vector<const Kind *, Mal<const Kind *>> obj_kinds;
    struct Cleanup
    {
        decltype(objs) & o;
        decltype(obj_kinds) & k;
        ~Cleanup()
        {
            for (std::size_t i = 0; i < o.size(); ++i) {
                k[i]->destroy(o[i]);
            }
        }
    } cleanup{objs, obj_kinds};
    auto check_held = [&](const char * when) {
        for (auto & h : held) {
            REQ(!h.content.size() || !std::memcmp(h.p, h.content.data(), h.content.size()), "held", "a view decoded before changed %s", when);
        }
    };
    u32 n = c.range(1, 10);
    for (u32 i = 0; i < n; ++i) {
        c.mark();
        bool call = c.pick(8) == 7;
        auto & k = kinds[c.pick(n_kinds)];
        Pool sender;
        Bytes bytes;
        Enc sent(wire);
        std::size_t agreed = 0; // elements without a size
        std::size_t args = 0;
        if (call) {
            V a;
            u32 x = u32(c.integer(32));
            std::optional<SV> b;
            vgen(c, sender, a);
            vgen(c, sender, b);
            Enc e(wire);
            e.num(int(3));
            args = e.b.size();
            venc(e, a, wire.size);
            e.num(x);
            venc(e, b, wire.size);
            bytes = e.b;
            sent = std::move(e);
        } else {
            struct Tmp
            {
                const Kind & k;
                void * p;
                ~Tmp()
                {
                    k.destroy(p);
                }
            } obj{k, k.make()};
            k.gen(c, sender, obj.p);
            if (k.kind == 6) {
                agreed = static_cast<R6 *>(obj.p)->f.size();
            }
            Enc e(wire);
            k.enc(e, obj.p);
            REQ(!e.overflow, "harness", "prefix overflow");
            if (k.write && c.pick(2)) {
                std::vector<Byte> b;
                Res r = k.write(b, obj.p);
                REQ(r.ok(), "write", "%s: writing views: %s", k.name, res_name(r).c_str());
                REQ(b.size() == e.b.size() && (b.empty() || !std::memcmp(b.data(), e.b.data(), b.size())), "write-bytes",
                    "%s: views are written as other bytes", k.name);
            }
            bytes = e.b;
            sent = std::move(e);
        }
        bool hurt = c.chance(1, 4);
        if (hurt && c.pick(2)) {
            forge_prefix(c, bytes, sent);
        } else if (hurt && bytes.size()) {
            for (u32 q = c.range(1, 2); q--;) {
                std::size_t at = c.pick(u32(bytes.size()));
                bytes[at] = c.pick(2) ? u8(c.integer(8)) : u8(bytes[at] + (c.pick(2) ? 1 : -1));
            }
            fault("damaged bytes");
        }
        // room for it in the region
        if (base + bytes.size() > cap) {
            held.clear();
            for (std::size_t q = 0; q < objs.size(); ++q) {
                obj_kinds[q]->destroy(objs[q]);
            }
            objs.clear();
            obj_kinds.clear();
            base = 0;
            std::fill(mem->begin(), mem->end(), Byte(0xdd));
#if SVC != 2
            region.clear();
#endif
            probe("region reused");
        }
        if (bytes.size() > cap) {
            continue;
        }
        // arrives in fragments
        std::size_t have = 0;
        u32 tries = 0;
        for (;;) {
            std::size_t more = bytes.size() - have;
            if (more && c.pick(3) == 0 && tries < 6) {
                more = c.pick(u32(more + 1));
                fault("torn");
            }
            ++tries;
#if SVC != 2
            for (std::size_t q = have; q < have + more; ++q) {
                region.push_back(Byte(bytes[q]));
            }
            const Byte * at = region.data() + base;
            In in(region ARGS);
#else
            if (more) {
                std::memcpy(mem->data() + base + have, bytes.data() + have, more);
            }
            Region region(mem->data(), base + have + more);
            const Byte * at = region.data() + base;
            In in(region ARGS);
#endif
            have += more;
            sim_time(1 + c.pick(5));
            check_held("while more bytes arrived");
            in.position() = base;
            Dec d(reinterpret_cast<const u8 *>(at), have, wire);
            if (call) {
                Bytes resp;
                std::vector<Byte> ob;
                zb::out out(ob ARGS);
                typename rpc::server server{in, out};
                Res r;
                u32 before = seen.calls;
                {
                    Window w;
                    r = guarded([&]() -> zb::errc { return server.serve(); });
                }
                int id{};
                d.num(id);
                if (!d.code && id != 3) {
                    d.code = NOTSUP;
                }
                V a;
                u32 x{};
                std::optional<SV> b;
                vdec(d, a, wire.size);
                if (!d.code) {
                    d.get(x);
                }
                vdec(d, b, wire.size);
                ev("call with views: %s, position %zu; model %s", res_name(r).c_str(), in.position() - base, code_name(d.code));
                REQ(r.code == d.code && !r.exc, r.ok() ? "accepted" : "rejected", "call with views: %s instead of %s", res_name(r).c_str(),
                    code_name(d.code));
                REQ(seen.calls - before == (d.code ? 0 : 1), "calls", "the function ran %u times", seen.calls - before);
                state(hmix(99, hmix(u64(r.code), hurt)));
                if (r.ok()) {
                    nontrivial();
                    SV none;
                    SV & wb = b ? *b : none;
                    REQ(seen.a.data() == a.data() && seen.a.size() == a.size() && seen.x == x && seen.b.size() == wb.size() &&
                            (wb.empty() || seen.b.data() == wb.data()),
                        "argument", "a view handed to the function is not the argument's bytes");
                    REQ(in.position() == base + d.pos, "consumed", "consumed %zu instead of %zu", in.position() - base, d.pos);
                    hold(held, seen.a.data(), seen.a.size());
                    if (seen.b.size()) {
                        hold(held, reinterpret_cast<const Byte *>(seen.b.data()), seen.b.size());
                    }
                    base += hurt ? have : d.pos;
                    break;
                }
            } else {
                Pool mine, models;
                void * p = k.make();
                void * q = k.make();
                objs.push_back(p);
                obj_kinds.push_back(&k);
                objs.push_back(q);
                obj_kinds.push_back(&k);
                if (k.kind == 6) {
                    auto & x = *static_cast<R6 *>(p);
                    auto & y = *static_cast<R6 *>(q);
                    auto give = [&](auto & sx, auto & sy, std::size_t cnt) {
                        using E = typename std::remove_cvref_t<decltype(sx)>::value_type;
                        using S = std::conditional_t<is_sized<std::remove_cvref_t<decltype(sx)>>::value, std::span<E>,
                                                     std::remove_cvref_t<decltype(sx)>>;
                        static_cast<S &>(sx) = S(mine.room<E>(cnt).data(), cnt);
                        static_cast<S &>(sy) = S(models.room<E>(cnt).data(), cnt);
                    };
                    auto len = [&]() -> std::size_t { return c.pick(3) ? 24 + c.pick(300) : c.length(); };
                    give(x.a, y.a, len());
                    give(x.b, y.b, len());
                    give(x.c, y.c, 3);
                    give(x.d, y.d, len());
                    give(x.e, y.e, len());
                    std::size_t nf = c.pick(5) ? agreed : c.pick(9);
                    give(x.f, y.f, nf);
                } else if (c.pick(3) == 0) {
                    k.gen(c, sender, p); // a used target
                }
                u32 how = c.pick(3);
                Res r;
                u64 allocs;
                k.dec(d, q);
                {
                    Window w;
                    r = k.read(in, p, how);
                    allocs = heap.bytes + heap.capped;
                }
                ev("%s: %zu of %zu bytes -> %s, position %zu; model %s %zu", k.name, have, bytes.size(), res_name(r).c_str(),
                   in.position() - base, code_name(d.code), d.pos);
                REQ(in.position() >= base && in.position() <= base + have, "position", "%s: position outside the buffer", k.name);
                REQ(mine.intact(), "overrun", "%s: bytes next to a mutable span changed", k.name);
                std::size_t held_bytes = 0;
                for (auto & h : held) {
                    held_bytes += h.content.size();
                }
                state(hmix(hmix(k.kind * 4 + hurt, u64(r.code + 1000 * int(r.exc))), std::min<std::size_t>(held.size(), 20)));
                if (r.exc) {
                    REQ(d.huge, "exception", "%s: %s", k.name, res_name(r).c_str());
                } else if (!d.huge) {
                    REQ(r.code == d.code, r.ok() ? "accepted" : "rejected", "%s: %s instead of %s", k.name, res_name(r).c_str(),
                        code_name(d.code));
                }
                REQ(!k.no_alloc || !allocs, "copied", "%s: decoding views allocated %llu bytes", k.name, (unsigned long long) allocs);
                check_held("while decoding");
                if (r.ok()) {
                    nontrivial();
                    REQ(in.position() == base + d.pos, "consumed", "%s: consumed %zu instead of %zu", k.name, in.position() - base, d.pos);
                    REQ(k.image(p) == k.image(q), "view", "%s: a view does not refer to the bytes of its field", k.name);
                    std::size_t before = held.size();
                    k.hold(held, p);
                    probe("views decoded", held.size() - before);
                    if (k.kind == 6) { // its spans end with this step
                        k.destroy(p);
                        k.destroy(q);
                        objs.resize(objs.size() - 2);
                        obj_kinds.resize(obj_kinds.size() - 2);
                    }
                    base += hurt || have < bytes.size() || k.kind == 6 ? have : d.pos;
                    break;
                }
                if (k.kind == 6) {
                    k.destroy(p);
                    k.destroy(q);
                    objs.resize(objs.size() - 2);
                    obj_kinds.resize(obj_kinds.size() - 2);
                }
            }
            if (have == bytes.size()) {
                base += have;
                break;
            }
        }
        check_held("later");
    }
}
} // namespace sim
