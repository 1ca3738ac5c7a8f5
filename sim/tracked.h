// Objects that know whether they are alive, and callbacks that fail on demand.
#pragma once
#include "alloc.h"
#include "core.h"
#include "types.h"

#include <unordered_set>

namespace sim
{
struct Ticks // every callback of the user's types is a tick; one of them can fail
{
    u64 n = 0;
    u64 fail_at = 0; // absolute
    u64 failed = 0;
    u64 calls[6] = {};
    std::unordered_set<const void *, std::hash<const void *>, std::equal_to<const void *>, Mal<const void *>> alive;
    bool broken = false;
    const char * how = "";
    void bad(const char * what)
    {
        if (!broken) {
            broken = true;
            how = what;
        }
    }
    enum Kind
    {
        in_callback,
        out_callback,
        construct,
        move,
        compare,
        handler
    };
    void tick(Kind k)
    {
        ++calls[k];
        if (++n == fail_at) {
            ++failed;
            throw SimFault();
        }
    }
    void born(const void * p)
    {
        Exempt e;
        if (!alive.insert(p).second) {
            bad("constructed over a live object");
        }
    }
    void died(const void * p)
    {
        Exempt e;
        if (!alive.erase(p)) {
            bad("destroyed an object that is not alive");
        }
    }
    void used(const void * p)
    {
        if (!alive.count(p)) {
            bad("used an object that is not alive");
        }
    }
    static Ticks & get()
    {
        static Ticks * t = new (std::malloc(sizeof(Ticks))) Ticks();
        return *t;
    }
};

class Bomb
{
public:
    Bomb()
    {
        Ticks::get().tick(Ticks::construct);
        Ticks::get().born(this);
    }
    Bomb(const Bomb & o) : v(o.v), s(o.s)
    {
        Ticks::get().used(&o);
        Ticks::get().tick(Ticks::move);
        Ticks::get().born(this);
    }
    Bomb(Bomb && o) noexcept : v(o.v), s(std::move(o.s))
    {
        Ticks::get().used(&o);
        Ticks::get().born(this);
    }
    Bomb & operator=(const Bomb & o)
    {
        Ticks::get().used(this);
        Ticks::get().used(&o);
        Ticks::get().tick(Ticks::move);
        v = o.v;
        s = o.s;
        return *this;
    }
    Bomb & operator=(Bomb && o) noexcept
    {
        Ticks::get().used(this);
        Ticks::get().used(&o);
        v = o.v;
        s = std::move(o.s);
        return *this;
    }
    ~Bomb()
    {
        Ticks::get().died(this);
    }
    bool operator<(const Bomb & o) const
    {
        Ticks::get().used(this);
        Ticks::get().used(&o);
        Ticks::get().tick(Ticks::compare);
        return v != o.v ? v < o.v : s < o.s;
    }
    bool operator==(const Bomb & o) const
    {
        return v == o.v && s == o.s;
    }
    static constexpr zb::errc serialize(auto & ar, auto & self)
    {
        auto & t = Ticks::get();
        auto kind = std::remove_cvref_t<decltype(ar)>::kind() == zb::kind::in ? Ticks::in_callback : Ticks::out_callback;
        t.used(&self);
        t.tick(kind);
        if (auto r = ar(self.v); zb::failure(r)) {
            return r;
        }
        t.tick(kind);
        auto r = ar(self.s);
        t.tick(kind);
        return r;
    }
    void fields(auto && f)
    {
        f(v, s);
    }
    u16 v{};
    std::string s;
};

class TossedBomb : public Bomb // its move can fail as well
{
public:
    TossedBomb() = default;
    TossedBomb(const TossedBomb &) = default;
    TossedBomb(TossedBomb && o) : Bomb(static_cast<Bomb &&>(o))
    {
        Ticks::get().tick(Ticks::move);
    }
    TossedBomb & operator=(const TossedBomb &) = default;
    TossedBomb & operator=(TossedBomb && o)
    {
        Ticks::get().tick(Ticks::move);
        Bomb::operator=(static_cast<Bomb &&>(o));
        return *this;
    }
};
} // namespace sim
