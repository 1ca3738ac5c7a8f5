// -DCFG=k: the library operations of one configuration, for the items it serves.
#include "configs.h"
namespace sim
{
template <int IT, class T, class WT, class RT>
void reg(WT & w, RT & r)
{
    if constexpr (cfg_serves(CFG, IT)) {
        using Out = typename CfgDef<CFG>::Out;
        using In = typename CfgDef<CFG>::In;
        w.w[IT] = w1<T, Out>;
        r.r[IT] = r1<T, In>;
        if constexpr (IT % 5 == CFG % 5) { // multi-object calls for some of the types
            w.w2[IT] = w2<T, Out>;
            r.r2[IT] = r2<T, In>;
        }
    }
}
template <>
void fill<CFG, GRP>(WTab<CfgDef<CFG>::Out> & w, RTab<CfgDef<CFG>::In> & r)
{
#define X(g, t, f)                                                                                                               \
    if constexpr (g / 2 == GRP) {                                                                                                \
        reg<IT_##t, t>(w, r);                                                                                                    \
    }
    SIM_ITEMS(X)
#undef X
}
} // namespace sim
