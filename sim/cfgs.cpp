// Type-erased buffers and archives of every configuration.
#include "configs.h"

namespace sim
{


void SimBuffer::resize(std::size_t n)
{
    if (on_resize) {
        on_resize();
    }
    ++resizes;
    if (fail_resize_at && resizes == fail_resize_at) {
        throw std::bad_alloc();
    }
    if (n > (1u << 22)) {
        throw std::length_error("simbuffer");
    }
    // exact capacity, so that stray accesses are seen
    mvec<u8> m;
    m.reserve(n);
    m.assign(mem.begin(), mem.begin() + std::min(n, mem.size()));
    m.resize(n, 0xa5);
    mem.swap(m);
}

template <int K>
struct Impl
{
    using D = CfgDef<K>;
    using Out = typename D::Out;
    using In = typename D::In;
    static inline WTab<Out> wt;
    static inline RTab<In> rt;
    static inline bool filled = false;
    static void init()
    {
        if (!filled) {
            filled = true;
            fill<K, 0>(wt, rt);
            fill<K, 1>(wt, rt);
        }
    }
    static bool has(int it)
    {
        init();
        return wt.w[it] != nullptr;
    }

    static std::span<const u8> sp(auto s)
    {
        return {reinterpret_cast<const u8 *>(s.data()), s.size()};
    }
    struct O final : OutA
    {
        Out a;
        explicit O(typename D::View & v) : a(D::make_out(v))
        {
        }
        Res write(int it, const void * v) override
        {
            return wt.w[it](a, v);
        }
        Res write2(int it, const void * v, const void * u) override
        {
            if (!wt.w2[it]) {
                auto r = wt.w[it](a, v);
                return r.ok() ? wt.w[it](a, u) : r;
            }
            return wt.w2[it](a, v, u);
        }
        std::size_t pos() override
        {
            return std::as_const(a).position();
        }
        void set_pos(std::size_t p) override
        {
            a.position() = p;
        }
        void reset(std::size_t p) override
        {
            a.reset(p);
        }
        std::size_t size() override
        {
            return a.data().size();
        }
        std::span<const u8> processed() override
        {
            return sp(a.processed_data());
        }
        std::span<const u8> remaining() override
        {
            return sp(a.remaining_data());
        }
    };
    struct I final : InA
    {
        In a;
        explicit I(typename D::InView & v) : a(D::make_in(v))
        {
        }
        Res read(int it, void * v) override
        {
            return rt.r[it](a, v);
        }
        Res read2(int it, void * v, void * u) override
        {
            if (!rt.r2[it]) {
                auto r = rt.r[it](a, v);
                return r.ok() ? rt.r[it](a, u) : r;
            }
            return rt.r2[it](a, v, u);
        }
        std::size_t pos() override
        {
            return std::as_const(a).position();
        }
        void set_pos(std::size_t p) override
        {
            a.position() = p;
        }
        void reset(std::size_t p) override
        {
            a.reset(p);
        }
        std::span<const u8> processed() override
        {
            return sp(a.processed_data());
        }
        std::span<const u8> remaining() override
        {
            return sp(a.remaining_data());
        }
    };
    struct B final : Buf
    {
        using View = typename D::View;
        using E = typename View::value_type;
        // fixed: a heap block of exactly the capacity between guard zones of the sanitizer
        u8 * mem = nullptr;
        std::size_t n = 0;
        std::conditional_t<Out::resizable, View, char> own{};
        std::optional<View> view;
        std::optional<std::remove_const_t<typename D::InView>> inview;

        B(const u8 * p, std::size_t k)
        {
            if constexpr (Out::resizable) {
                if constexpr (std::is_same_v<View, SimBuffer>) {
                    own.mem.reserve(k);
                    own.mem.assign(p, p + k);
                } else {
                    auto q = reinterpret_cast<const E *>(p);
                    own = View(q, q + k);
                }
            } else {
                n = k;
                mem = static_cast<u8 *>(std::malloc(k ? k : 1));
                if (k) {
                    std::memcpy(mem, p, k);
                }
                view.emplace(reinterpret_cast<E *>(mem) + (k ? 0 : 1), k);
            }
        }
        ~B()
        {
            std::free(mem);
        }
        const u8 * data() const override
        {
            if constexpr (Out::resizable) {
                return reinterpret_cast<const u8 *>(own.data());
            } else {
                return mem;
            }
        }
        u8 * wdata() override
        {
            return const_cast<u8 *>(data());
        }
        std::size_t size() const override
        {
            if constexpr (Out::resizable) {
                return own.size();
            } else {
                return n;
            }
        }
        bool growable() const override
        {
            return Out::resizable;
        }
        OutA * out() override
        {
            if constexpr (Out::resizable) {
                return new O(own);
            } else {
                return new O(*view);
            }
        }
        void append(const u8 * p, std::size_t k) override
        {
            if constexpr (std::is_same_v<View, SimBuffer>) {
                own.mem.insert(own.mem.end(), p, p + k);
            } else if constexpr (Out::resizable) {
                auto q = reinterpret_cast<const E *>(p);
                own.insert(own.end(), q, q + k);
                own.shrink_to_fit();
            }
        }
        void consume(std::size_t k) override
        {
            if constexpr (std::is_same_v<View, SimBuffer>) {
                own.mem.erase(own.mem.begin(), own.mem.begin() + long(k));
            } else if constexpr (Out::resizable) {
                own.erase(own.begin(), own.begin() + long(k));
            }
        }
        bool live() const override
        {
            return In::resizable;
        }
        InA * in() override
        {
            using IV = std::remove_const_t<typename D::InView>;
            if constexpr (std::is_same_v<IV, View> && Out::resizable) {
                return new I(own);
            } else if constexpr (Out::resizable) {
                inview.emplace(own.data(), own.size());
                return new I(*inview);
            } else {
                inview.emplace(reinterpret_cast<typename IV::pointer>(mem) + (n ? 0 : 1), n);
                return new I(*inview);
            }
        }
    };
    static Buf * make(const u8 * p, std::size_t n)
    {
        init();
        return new B(p, n);
    }
};

template <int K>
constexpr Cfg cfg_of()
{
    using D = CfgDef<K>;
    return Cfg{K, D::name, D::wire, D::flags, D::out_limit, D::mul, D::div, Impl<K>::make, Impl<K>::has};
}
#ifndef USE_CFGS
#define USE_CFGS C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12)
#endif
const Cfg cfgs[] = {
#define C(k) cfg_of<k>(),
    USE_CFGS
#undef C
};
const int n_cfgs = sizeof(cfgs) / sizeof(cfgs[0]);
} // namespace sim
