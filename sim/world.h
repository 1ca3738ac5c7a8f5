// Helpers shared by the worlds that exchange registered objects.
#pragma once
#include "alloc.h"
#include "core.h"
#include "items.h"

namespace sim
{
using Bytes = mvec<u8>;

struct Obj
{
    int it;
    void * p;
    explicit Obj(int it_) : it(it_), p(item_ops[it_].make())
    {
    }
    Obj(Obj && o) noexcept : it(o.it), p(o.p)
    {
        o.p = nullptr;
    }
    Obj & operator=(Obj && o) noexcept
    {
        std::swap(it, o.it);
        std::swap(p, o.p);
        return *this;
    }
    ~Obj()
    {
        if (p) {
            item_ops[it].destroy(p);
        }
    }
    const ItemOps & ops() const
    {
        return item_ops[it];
    }
    void gen(Ch & c)
    {
        ops().gen(c, p);
    }
    Bytes canon() const
    {
        Canon c;
        ops().canon(c, p);
        return std::move(c.b);
    }
    Enc enc(const Wire & w) const
    {
        Enc e(w);
        ops().enc(e, p);
        return e;
    }
    void dec(Dec & d)
    {
        ops().dec(d, p);
    }
};
inline const char * exc_name(Res::Exc e)
{
    static const char * n[] = {"", "bad_alloc", "length_error", "sim_fault", "system_error", "other exception"};
    return n[e];
}
inline std::string res_name(const Res & r)
{
    return r.exc ? std::string(exc_name(r.exc)) + " " + code_name(r.code) : std::string(code_name(r.code));
}
inline const Cfg & pick_cfg(Ch & c)
{
    return cfgs[c.pick(u32(n_cfgs))];
}
inline int pick_item(Ch & c, const Cfg & cfg)
{
    u32 i = c.pick(N_ITEMS);
    for (int k = 0; k < N_ITEMS; ++k, i = (i + 1) % N_ITEMS) {
        if (cfg.has(int(i))) {
            return int(i);
        }
    }
    return 0;
}
inline int pick_item2(Ch & c, const Cfg & a, const Cfg & b)
{
    u32 i = c.pick(N_ITEMS);
    for (int k = 0; k < N_ITEMS; ++k, i = (i + 1) % N_ITEMS) {
        if (a.has(int(i)) && b.has(int(i))) {
            return int(i);
        }
    }
    return -1;
}
// an object whose encoding under w decodes (limits, prefix overflow of messages) in the model;
// the model's decoded value is what a receiver must see
struct Msg
{
    Obj sent;
    Obj seen;    // what the reference decoder makes of the reference encoding
    Bytes bytes; // reference encoding
    bool ok = false;
    Msg(Ch & c, const Cfg & cfg, int it, bool must_decode = true) : sent(it), seen(it)
    {
        sent.gen(c);
        auto e = sent.enc(cfg.wire);
        bytes = std::move(e.b);
        Dec d(bytes.data(), bytes.size(), cfg.wire);
        seen.dec(d);
        ok = !e.overflow && (!must_decode || (!d.code && d.pos == bytes.size() && !d.mismatch));
    }
};
inline std::string hex(const u8 * p, std::size_t n, std::size_t max = 40)
{
    static const char * h = "0123456789abcdef";
    std::string s;
    for (std::size_t i = 0; i < n && i < max; ++i) {
        s += h[p[i] >> 4];
        s += h[p[i] & 15];
        s += ' ';
    }
    if (n > max) {
        s += "...";
    }
    return s;
}
inline std::string hex(const Bytes & b)
{
    return hex(b.data(), b.size());
}
template <class T>
struct Own // unique_ptr for the type-erased interfaces
{
    T * p;
    explicit Own(T * p_) : p(p_)
    {
    }
    Own(const Own &) = delete;
    ~Own()
    {
        delete p;
    }
    T * operator->() const
    {
        return p;
    }
    T & operator*() const
    {
        return *p;
    }
    void reset(T * q)
    {
        delete p;
        p = q;
    }
};
} // namespace sim
