// Versions of a protobuf schema.
#pragma once
#include "world_own.h"

#include <deque>
#include <list>

namespace sim
{
#define PB_COMMON                                                                                                                 \
    using pb_message = void;                                                                                                      \
    void fields(auto && f)                                                                                                        \
    {                                                                                                                             \
        pbfields([&](u32, auto & m) { f(m); });                                                                                   \
    }
template <class T, u32 N>
using pbf = zb::pb_field<T, N>;

struct VintHash
{
    std::size_t operator()(const zb::vint32_t & x) const
    {
        return std::size_t(x.value);
    }
};
struct In0
{
    PB_COMMON
    zb::vint32_t a{};
    std::string b;
    using serialize = zb::pb_protocol;
    void pbfields(auto && x)
    {
        x(1, a);
        x(2, b);
    }
};
struct In1
{
    PB_COMMON
    pbf<std::vector<u32>, 3> c;
    pbf<std::string, 2> b;
    pbf<zb::vint32_t, 1> a;
    pbf<double, 4> d{};
    using serialize = zb::pb_protocol;
    void pbfields(auto && x)
    {
        x(3, zb::pb_value(c));
        x(2, zb::pb_value(b));
        x(1, zb::pb_value(a));
        x(4, zb::pb_value(d));
    }
};
struct In2
{
    PB_COMMON
    zb::pb_reserved r;
    std::string b;
    using serialize = zb::pb_protocol;
    void pbfields(auto && x)
    {
        x(2, b);
    }
};

template <class Inner> // everything, implicit numbers
struct Full
{
    PB_COMMON
    zb::vint32_t a{};
    std::string s;
    zb::vsint32_t z{};
    u32 f{};
    double g{};
    Inner in;
    std::vector<zb::vint32_t> packed;
    std::vector<std::string> names;
    std::vector<Inner> inners;
    std::map<u32, std::string> m;
    std::map<std::string, Inner> mi;
    std::vector<u32> fx;
    E32 e{};
    std::vector<E32> es;
    std::vector<std::byte> by;
    zb::vuint64_t big{};
    bool b{};
    std::vector<double> dd;
    std::vector<zb::vsint64_t> kk;
    float fl{};
    i64 ff{};
    using serialize = zb::pb_members<21>;
    void pbfields(auto && x)
    {
        x(1, a);
        x(2, s);
        x(3, z);
        x(4, f);
        x(5, g);
        x(6, in);
        x(7, packed);
        x(8, names);
        x(9, inners);
        x(10, m);
        x(11, mi);
        x(12, fx);
        x(13, e);
        x(14, es);
        x(15, by);
        x(16, big);
        x(17, b);
        x(18, dd);
        x(19, kk);
        x(20, fl);
        x(21, ff);
    }
};
struct Explicit // explicit numbers, another order, one new field
{
    PB_COMMON
    pbf<std::vector<double>, 18> dd;
    pbf<In1, 6> in;
    pbf<std::vector<In1>, 9> inners;
    pbf<std::string, 300> extra;
    pbf<std::string, 2> s;
    pbf<zb::vint32_t, 1> a;
    pbf<std::vector<zb::vint32_t>, 7> packed;
    pbf<std::map<u32, std::string>, 10> m;
    pbf<float, 20> fl{};
    pbf<E32, 13> e{};
    using serialize = zb::pb_protocol;
    void pbfields(auto && x)
    {
        x(18, zb::pb_value(dd));
        x(6, zb::pb_value(in));
        x(9, zb::pb_value(inners));
        x(300, zb::pb_value(extra));
        x(2, zb::pb_value(s));
        x(1, zb::pb_value(a));
        x(7, zb::pb_value(packed));
        x(10, zb::pb_value(m));
        x(20, fl.value);
        x(13, e.value);
    }
};
struct Gaps // removed fields are reserved
{
    PB_COMMON
    zb::vint32_t a{42};
    zb::pb_reserved r2;
    zb::vsint32_t z{-42};
    zb::pb_reserved r4;
    double g{4.2};
    In2 in;
    zb::pb_reserved r7;
    std::vector<std::string> names;
    std::list<In2> inners;
    zb::pb_reserved r10;
    std::map<std::string, In1> mi;
    using serialize = zb::pb_members<11>;
    void pbfields(auto && x)
    {
        x(1, a);
        x(3, z);
        x(5, g);
        x(6, in);
        x(8, names);
        x(9, inners);
        x(11, mi);
    }
};
struct Mapped // numbers mapped by the protocol
{
    PB_COMMON
    E32 e{};
    std::vector<E32> es;
    std::unordered_map<std::string, In0> mi;
    std::deque<u32> fx;
    std::vector<zb::vsint64_t> kk;
    zb::vuint64_t big{};
    bool b{};
    std::string s;
    i64 ff{};
    using serialize = zb::protocol<zb::pb{zb::pb_map<1, 13>{}, zb::pb_map<2, 14>{}, zb::pb_map<3, 11>{}, zb::pb_map<4, 12>{},
                                          zb::pb_map<5, 19>{}, zb::pb_map<6, 16>{}, zb::pb_map<7, 17>{}, zb::pb_map<8, 2>{},
                                          zb::pb_map<9, 21>{}},
                                   9>;
    void pbfields(auto && x)
    {
        x(13, e);
        x(14, es);
        x(11, mi);
        x(12, fx);
        x(19, kk);
        x(16, big);
        x(17, b);
        x(2, s);
        x(21, ff);
    }
};
struct Far // the largest field numbers and numbers at the tag's byte boundaries
{
    PB_COMMON
    pbf<zb::vint32_t, 1> a;
    pbf<std::string, 15> by;
    pbf<zb::vuint64_t, 16> big;
    pbf<std::string, 2047> edge;
    pbf<u32, 2048> edge2{};
    pbf<std::string, 536870911> last;
    using serialize = zb::pb_protocol;
    void pbfields(auto && x)
    {
        x(1, zb::pb_value(a));
        x(15, zb::pb_value(by));
        x(16, zb::pb_value(big));
        x(2047, zb::pb_value(edge));
        x(2048, edge2.value);
        x(536870911, zb::pb_value(last));
    }
};
struct Sets // other containers and keys
{
    PB_COMMON
    pbf<std::map<E32, E32>, 40> ee;
    pbf<std::map<zb::vsint32_t, zb::vint64_t>, 41> vv;
    pbf<std::set<u32>, 42> su;
    pbf<std::list<zb::vint32_t>, 43> lv;
    pbf<std::unordered_set<std::string>, 44> us;
    pbf<std::vector<std::vector<std::byte>>, 45> blobs;
    pbf<std::map<i64, double>, 46> id;
    pbf<std::set<E32>, 47> se;
    pbf<std::map<u32, In1>, 48> mm;
    pbf<std::deque<std::string>, 8> names;
    using serialize = zb::pb_protocol;
    void pbfields(auto && x)
    {
        x(40, zb::pb_value(ee));
        x(41, zb::pb_value(vv));
        x(42, zb::pb_value(su));
        x(43, zb::pb_value(lv));
        x(44, zb::pb_value(us));
        x(45, zb::pb_value(blobs));
        x(46, zb::pb_value(id));
        x(47, zb::pb_value(se));
        x(48, zb::pb_value(mm));
        x(8, zb::pb_value(names));
    }
};
struct Sets2
{
    PB_COMMON
    pbf<std::unordered_map<i64, double>, 46> id;
    pbf<std::vector<zb::vint32_t>, 43> lv;
    pbf<std::list<std::string>, 45> blobs;
    pbf<std::map<u32, In2>, 48> mm;
    pbf<std::unordered_map<zb::vint32_t, E32, VintHash>, 49> ve;
    using serialize = zb::pb_protocol;
    void pbfields(auto && x)
    {
        x(46, zb::pb_value(id));
        x(43, zb::pb_value(lv));
        x(45, zb::pb_value(blobs));
        x(48, zb::pb_value(mm));
        x(49, zb::pb_value(ve));
    }
};
struct Nothing // knows no field of the others
{
    PB_COMMON
    pbf<zb::vint32_t, 77> a;
    using serialize = zb::pb_protocol;
    void pbfields(auto && x)
    {
        x(77, zb::pb_value(a));
    }
};
} // namespace sim
