// C19, second half: deep compositions, elements that throw while they are decoded, moved-from targets, protobuf messages.
#include "damage.h"
#include "pbtypes.h"
#include "tracked.h"

namespace sim
{
const WorldInfo world_info = {
    "C19",
    "A run keeps 1..3 objects of one deeply nested type (maps of vectors of optionals of variants, arrays and tuples of owning pointers, "
    "optional and shared containers, protobuf messages inside them, tracked elements) and decodes 2..10 messages into them, whole, torn, "
    "damaged, or while an element's serialize function, constructor, move or comparison or an allocation throws; between them objects "
    "are copied, swapped or moved from. Every successful decode of a whole message must leave the value that a fresh object gets. "
    "Non-trivial: such a decode followed a failure or replaced another value; distinct by the recorded choices.",
    "(type, what the object went through last, kind of message, result)", "zpp::bits::in, zpp::bits::out, libc++ containers",
    "damage to the messages, the heap, the elements' callbacks"};

#if SVC == 0
#define ARGS
using In = zb::in<BVec>;
static const Wire wire{};
#elif SVC == 1
#define ARGS , zb::endian::big{}, zb::size_varint{}
using In = zb::in<BVec, zb::endian::big, zb::size_varint>;
static const Wire wire{true, SZ_VARINT};
#else
#define ARGS , zb::size2b{}, zb::alloc_limit<2000>{}
using In = zb::in<BVec, zb::size2b, zb::alloc_limit<2000>>;
static const Wire wire{false, 2, 2000};
#endif

using Var3 = std::variant<u16, std::string, std::vector<u8>>;
struct Deep
{
    std::map<std::string, std::vector<std::optional<Var3>>> a;
    std::array<std::optional<std::string>, 3> b;
    std::tuple<std::vector<std::unique_ptr<u32>>, std::bitset<19>> c;
    std::optional<std::set<u16>> d;
    std::variant<std::map<u8, u8>, std::optional<std::string>, std::bitset<3>> e;
    std::list<std::unordered_map<u16, std::bitset<9>>> f;
    std::unique_ptr<std::variant<std::vector<std::string>, i64>> g = std::make_unique<std::variant<std::vector<std::string>, i64>>();
    zb::optional_ptr<std::vector<std::string>> h;
    using serialize = zb::members<8>;
    void fields(auto && x)
    {
        x(a, b, c, d, e, f, g, h);
    }
};
struct Twice // the same kinds the other way round
{
    std::optional<std::map<u8, std::unique_ptr<std::string>>> a;
    std::vector<std::array<std::variant<std::string, u8>, 2>> b;
    std::variant<std::unique_ptr<std::string>, std::vector<u16>> c = std::make_unique<std::string>();
    std::optional<std::optional<std::vector<std::string>>> d;
    std::vector<std::tuple<std::optional<u8>, std::vector<std::string>>> e;
    std::multimap<u8, std::optional<std::string>> f;
    std::deque<std::optional<std::string>> g;
    std::shared_ptr<std::map<u16, std::string>> h = std::make_shared<std::map<u16, std::string>>();
    std::vector<std::vector<std::bitset<5>>> i;
    using serialize = zb::members<9>;
    void fields(auto && x)
    {
        x(a, b, c, d, e, f, g, h, i);
    }
};
struct Cargo
{
    std::vector<Bomb> a;
    std::map<Bomb, Bomb> b;
    std::optional<Bomb> c;
    std::variant<u16, Bomb, std::vector<Bomb>> d;
    std::unique_ptr<Bomb> e = std::make_unique<Bomb>();
    std::array<Bomb, 2> f;
    std::tuple<Bomb, u8> g;
    std::set<Bomb> h;
    std::vector<std::optional<Bomb>> i;
    std::list<std::vector<TossedBomb>> j;
    zb::optional_ptr<Bomb> k;
    std::unordered_map<u16, std::unique_ptr<Bomb>> l;
    using serialize = zb::members<12>;
    void fields(auto && x)
    {
        x(a, b, c, d, e, f, g, h, i, j, k, l);
    }
};
struct Letters // protobuf messages in every kind of place
{
    Full<In0> a;
    std::vector<In0> b;
    std::optional<Far> c;
    std::variant<In0, Mapped> d;
    std::map<u8, Explicit> e;
    std::unique_ptr<In1> f = std::make_unique<In1>();
    std::array<Mapped, 2> g;
    using serialize = zb::members<7>;
    void fields(auto && x)
    {
        x(a, b, c, d, e, f, g);
    }
};

// containers of a protobuf message hold what the last message had, whatever else it left out
template <class T>
void same_containers(T & got, T & want)
{
    mvec<Bytes> w;
    auto is = [](auto & m) {
        using M = std::remove_cvref_t<decltype(m)>;
        return !is_varint<M>::value && requires {
            m.clear();
            typename M::value_type;
        };
    };
    want.pbfields([&](u32, auto & m) {
        if (is(m)) {
            w.push_back(canon_of(m));
        }
    });
    std::size_t i = 0;
    got.pbfields([&](u32 k, auto & m) {
        if (is(m)) {
            REQ(canon_of(m) == w[i], "mixture", "field %u of a used protobuf message holds %s instead of %s", k, hex(canon_of(m)).c_str(),
                hex(w[i]).c_str());
            ++i;
        }
    });
}

template <class T>
concept Copyable = std::is_copy_constructible_v<T> && !std::is_same_v<T, Deep> && !std::is_same_v<T, Twice> && !std::is_same_v<T, Cargo> &&
                   !std::is_same_v<T, Letters>;

template <class T, class Other = T>
void history(Ch & c, const char * name)
{
    auto & t = Ticks::get();
    u32 n_obj = c.range(1, 3);
    std::vector<std::unique_ptr<T>> o;
    int past[3] = {};
    for (u32 i = 0; i < n_obj; ++i) {
        o.push_back(std::make_unique<T>());
    }
    ev("%s, %u objects", name, n_obj);
    u32 n = c.range(2, 10);
    for (u32 k = 0; k < n; ++k) {
        c.mark();
        u32 i = c.pick(n_obj);
        u32 what = c.pick(8);
        if (what == 6) {
            gen(c, *o[i]);
            past[i] = 1;
            ev("object %u filled by hand", i);
            continue;
        }
        if (what == 7) {
            u32 j = c.pick(n_obj);
            if (i != j && c.pick(2)) {
                std::swap(*o[i], *o[j]);
                std::swap(past[i], past[j]);
                ev("objects %u and %u swapped", i, j);
                continue;
            }
            T taken = std::move(*o[i]);
            if constexpr (Copyable<T>) {
                if (c.pick(2)) {
                    *o[i] = taken;
                    ev("object %u copied", i);
                    continue;
                }
            }
            past[i] = 5;
            ev("object %u moved from", i);
            continue;
        }
        Bytes bytes;
        bool older = false;
        if constexpr (!std::is_same_v<T, Other>) {
            older = c.pick(3) == 0;
        }
        {
            Enc e(wire);
            if (older) {
                Other v{};
                gen(c, v);
                e.put(v);
            } else {
                T v{};
                gen(c, v);
                e.put(v);
            }
            if (e.overflow) {
                continue;
            }
            bytes = std::move(e.b);
        }
        bool whole = true, arm_tick = false;
        u64 arm_heap = 0;
        if (k + 1 == n) {
            what = 0;
        }
        switch (what) {
        case 0:
        case 1:
            break;
        case 2:
            if (!bytes.empty()) {
                bytes.resize(c.pick(u32(bytes.size())));
                fault("torn message");
                whole = false;
            }
            break;
        case 3: {
            Bytes other = bytes;
            for (u32 m = c.range(1, 3); m; --m) {
                corrupt(c, bytes, other);
            }
            whole = false;
            break;
        }
        case 4:
            arm_heap = c.range(1, 20);
            break;
        default:
            arm_tick = true;
        }
        T want{};
        Dec d(bytes.data(), bytes.size(), wire);
        d.get(want);
        BVec v = to_bvec(bytes);
        In in{v ARGS};
        u64 failed;
        Res r;
        {
            if (arm_tick) {
                t.fail_at = t.n + c.range(1, 30);
            }
            t.failed = 0;
            Window w(arm_heap);
            r = guarded([&]() -> zb::errc { return in(*o[i]); });
            failed = heap.failed + t.failed;
            t.fail_at = 0;
        }
        REQ(!t.broken, "lifetime", "%s: the library %s", name, t.how);
        ev("object %u (%d): %zu bytes, kind %u%s -> %s; model %s", i, past[i], bytes.size(), what, older ? " other version" : "",
           res_name(r).c_str(), code_name(d.code));
        ev_bytes("message", bytes.data(), bytes.size());
        state(hmix(hash_bytes(name, std::strlen(name)), hmix(u64(past[i] * 16 + int(what) * 2 + older), u64(r.code + int(r.exc) * 1000))));
        if (failed) {
            fault(arm_tick ? "an element's callback threw" : "allocation failed in a decode");
            REQ(r.exc, "swallowed", "%s: a failure in a callback or allocation became %s", name, res_name(r).c_str());
        }
        if (!r.ok()) {
            REQ(failed || d.code || !whole, "rejected", "%s: a whole message into a used object (%d): %s", name, past[i], res_name(r).c_str());
            past[i] = failed ? 3 : 2;
            continue;
        }
        if (d.mismatch || d.huge || d.over_limit || d.bad_bool || !whole) {
            past[i] = 4;
            continue;
        }
        REQ(!d.code, "accepted", "%s: accepted, the format says %s", name, code_name(d.code));
        if (past[i]) {
            nontrivial();
        }
        if constexpr (!std::is_same_v<T, Other>) {
            if (older) {
                same_containers(*o[i], want);
                past[i] = 4;
                probe("containers of another version");
                continue;
            }
        }
        Bytes got = canon_of(*o[i]), exp = canon_of(want);
        REQ(got == exp, "mixture", "%s: decoded into a used object (%d) it has the value %s, into a fresh one %s", name, past[i],
            hex(got).c_str(), hex(exp).c_str());
        past[i] = 1;
    }
}

void world_run(Ch & c)
{
    auto & t = Ticks::get();
    t.alive.clear();
    t.broken = false;
    t.fail_at = 0;
    t.n = 0;
    switch (c.pick(8)) {
    case 0:
        history<Deep>(c, "deep");
        break;
    case 1:
        history<Twice>(c, "twice");
        break;
    case 2:
    case 3:
        history<Cargo>(c, "tracked cargo");
        break;
    case 4:
        history<Letters>(c, "messages in containers");
        break;
    case 5:
        history<Full<In0>, Gaps>(c, "message");
        break;
    case 6:
        history<Explicit, Full<In1>>(c, "message with explicit numbers");
        break;
    default:
        history<Mapped, Explicit>(c, "message with mapped numbers");
    }
    REQ(!t.broken, "lifetime", "the library %s", t.how);
    REQ(t.alive.empty(), "leak", "%zu elements are still alive", t.alive.size());
}
} // namespace sim
