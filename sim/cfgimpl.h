// Instantiates the library for one configuration and one group of items.
#pragma once
#include "items.h"
#include "alloc.h"

namespace sim
{
template <class F>
Res guarded(F && f)
{
    Res r;
    try {
        zb::errc e = f();
        r.code = int(std::errc(e));
    } catch (const std::bad_alloc &) {
        r.exc = Res::bad_alloc;
    } catch (const std::length_error &) {
        r.exc = Res::length_error;
    } catch (const SimFault &) {
        r.exc = Res::sim_fault;
    } catch (const std::system_error & e) {
        r.exc = Res::system_error;
        r.code = e.code().value();
    } catch (const std::exception &) {
        r.exc = Res::other;
    }
    return r;
}

template <class T, class A>
Res w1(A & a, const void * v)
{
    return guarded([&] { return a(*static_cast<const T *>(v)); });
}
template <class T, class A>
Res w2(A & a, const void * v, const void * u)
{
    return guarded([&] { return a(*static_cast<const T *>(v), *static_cast<const T *>(u)); });
}
template <class T, class A>
Res r1(A & a, void * v)
{
    return guarded([&] { return a(*static_cast<T *>(v)); });
}
template <class T, class A>
Res r2(A & a, void * v, void * u)
{
    return guarded([&] { return a(*static_cast<T *>(v), *static_cast<T *>(u)); });
}

template <class A>
struct WTab
{
    Res (*w[N_ITEMS])(A &, const void *) = {};
    Res (*w2[N_ITEMS])(A &, const void *, const void *) = {};
};
template <class A>
struct RTab
{
    Res (*r[N_ITEMS])(A &, void *) = {};
    Res (*r2[N_ITEMS])(A &, void *, void *) = {};
};
} // namespace sim
