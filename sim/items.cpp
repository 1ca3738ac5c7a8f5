// -DGRP=g: configuration independent operations of the items.
#include "items.h"
namespace sim
{
template <class T>
struct Ops
{
    static void * make()
    {
        return new T();
    }
    static void destroy(void * p)
    {
        delete static_cast<T *>(p);
    }
    static void gen(Ch & c, void * p)
    {
        sim::gen(c, *static_cast<T *>(p), 0);
    }
    static void enc(Enc & e, const void * p)
    {
        e.put(*static_cast<const T *>(p));
    }
    static void dec(Dec & d, void * p)
    {
        d.get(*static_cast<T *>(p));
    }
    static void canon(Canon & c, const void * p)
    {
        c.put(*static_cast<const T *>(p));
    }
};
template <class T>
constexpr ItemOps ops(const char * name, unsigned flags, int grp)
{
    return ItemOps{name, flags, grp, Ops<T>::make, Ops<T>::destroy, Ops<T>::gen, Ops<T>::enc, Ops<T>::dec, Ops<T>::canon};
}
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(items_group_, GRP)(ItemOps * t)
{
#define X(g, t_, f)                                                                                                              \
    if constexpr (g == GRP) {                                                                                                    \
        t[IT_##t_] = ops<t_>(#t_, f, g);                                                                                         \
    }
    SIM_ITEMS(X)
#undef X
}
} // namespace sim
