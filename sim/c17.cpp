// C17: archives used by several threads and from inside other archives' operations.
// The threads are real and run one at a time: every basic block and memory access of the library is a point where the
// recorded schedule may hand over to another thread.
#include "pbtypes.h"

#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

#include <set>

namespace sim
{
const WorldInfo world_info = {
    "C17",
    "A run starts 2..4 threads, each with 1..4 operations on archives of its own (writing shared const objects, reading shared bytes, whole, "
    "torn or damaged, serving RPC requests) while callbacks, allocators, buffers and handlers use further archives in the middle of an "
    "operation; the schedule hands over at any basic block or memory access of the library; allocations fail. Non-trivial: a thread was "
    "preempted inside an operation; distinct by the recorded choices.",
    "(operations in progress at each preemption, kind of switch, nesting depth)",
    "zpp::bits::out, in, rpc, the protobuf protocol, compiled with a hook at every basic block, load and store",
    "the scheduler (real threads passing a baton), heap failures"};

// ---- the scheduler ------------------------------------------------------------------------------
constexpr u32 max_threads = 4;
struct Sched
{
    pthread_t th[max_threads];
    sem_t go[max_threads], home;
    bool live[max_threads] = {};
    u32 n = 0, current = 0;
    i64 budget = 0; // points until the next switch
    bool running = false;
    u64 points = 0, switches = 0, inside = 0;
    void (*body)(u32) = nullptr;
    u32 at[max_threads] = {}; // what each thread is doing
    u32 depth[max_threads] = {};
    int pid = 0;
};
static Sched * sched;
static thread_local u32 self_id;
static thread_local int armed; // inside the library on a simulated thread

#define UNSEEN __attribute__((no_sanitize("coverage"), noinline))

UNSEEN static void hand_over()
{
    auto & s = *sched;
    auto & c = Ch::get();
    u32 alive = 0;
    for (u32 i = 0; i < s.n; ++i) {
        alive += s.live[i];
    }
    if (!alive) {
        sem_post(&s.home);
        return;
    }
    u32 k = c.pick(alive);
    // 0 is the current thread, if it can go on
    u32 i = s.current;
    while (!s.live[i]) {
        i = (i + 1) % s.n;
    }
    while (k--) {
        do {
            i = (i + 1) % s.n;
        } while (!s.live[i]);
    }
    switch (c.pick(5)) {
    case 0:
        s.budget = i64(1) << 60;
        break;
    case 1:
        s.budget = 1 + c.pick(8);
        break;
    case 2:
        s.budget = 1 + c.pick(100);
        break;
    case 3:
        s.budget = 1 + c.pick(1500);
        break;
    default:
        s.budget = 1 + c.pick(20000);
    }
    u32 from = s.current;
    if (i == from && s.live[from]) {
        return;
    }
    s.current = i;
    ++s.switches;
    bool was_live = s.live[from];
    sem_post(&s.go[i]);
    if (was_live) {
        while (sem_wait(&s.go[from])) {
        }
    }
}
UNSEEN static void point()
{
    if (!armed || !sched || !sched->running) {
        return;
    }
    auto & s = *sched;
    ++s.points;
    if (--s.budget > 0) {
        return;
    }
    int old = armed;
    armed = 0;
    bool ex = heap_exempt;
    heap_exempt = true;
    ++s.inside;
    u64 h = 0;
    for (u32 i = 0; i < s.n; ++i) {
        h = hmix(h, s.live[i] ? s.at[i] * 8 + s.depth[i] : 99);
    }
    state(hmix(h, self_id));
    hand_over();
    heap_exempt = ex;
    armed = old;
}
UNSEEN static void * thread_main(void * p)
{
    u32 id = u32(reinterpret_cast<std::uintptr_t>(p));
    self_id = id;
    heap_exempt = true;
    for (;;) {
        while (sem_wait(&sched->go[id])) {
        }
        sched->body(id);
        sched->live[id] = false;
        hand_over();
    }
    return nullptr;
}
static void start_threads(u32 n, void (*body)(u32))
{
    if (!sched || sched->pid != getpid()) {
        sched = new (std::calloc(1, sizeof(Sched))) Sched();
        sched->pid = getpid();
        sem_init(&sched->home, 0, 0);
        for (u32 i = 0; i < max_threads; ++i) {
            sem_init(&sched->go[i], 0, 0);
        }
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 4 << 20);
        for (u32 i = 0; i < max_threads; ++i) {
            pthread_create(&sched->th[i], &a, thread_main, reinterpret_cast<void *>(std::uintptr_t(i)));
        }
        pthread_attr_destroy(&a);
    }
    auto & s = *sched;
    s.n = n;
    s.body = body;
    s.points = s.switches = s.inside = 0;
    for (u32 i = 0; i < n; ++i) {
        s.live[i] = true;
        s.at[i] = s.depth[i] = 0;
    }
    s.current = 0;
    s.budget = i64(1) << 60;
    s.running = true;
    u32 first = Ch::get().pick(n);
    s.current = first;
    sem_post(&s.go[first]);
    while (sem_wait(&s.home)) {
    }
    s.running = false;
}
// between operations
static void operation_boundary()
{
    hand_over();
}
struct Armed // the library runs, on this thread
{
    int old;
    bool ex;
    Armed() : old(armed)
    {
        armed = 0;
        ex = heap_exempt;
        heap_exempt = false;
        armed = 1;
    }
    ~Armed()
    {
        armed = 0;
        heap_exempt = ex;
        armed = old;
    }
};
struct Disarmed // harness code called by the library
{
    int old;
    bool ex;
    Disarmed() : old(armed)
    {
        armed = 0;
        ex = heap_exempt;
        heap_exempt = true;
    }
    ~Disarmed()
    {
        heap_exempt = ex;
        armed = old;
    }
};
struct Depth
{
    Depth()
    {
        if (sched && sched->running) {
            ++sched->depth[self_id];
        }
    }
    ~Depth()
    {
        if (sched && sched->running) {
            --sched->depth[self_id];
        }
    }
};
} // namespace sim

extern "C"
{
UNSEEN void __sanitizer_cov_trace_pc_guard_init(u_int32_t * a, u_int32_t * b)
{
    for (; a < b; ++a) {
        *a = 1;
    }
}
UNSEEN void __sanitizer_cov_trace_pc_guard(u_int32_t *)
{
    sim::point();
}
#define ACCESS(N, T)                                                                                                              \
    UNSEEN void __sanitizer_cov_load##N(T *)                                                                                      \
    {                                                                                                                             \
        sim::point();                                                                                                             \
    }                                                                                                                             \
    UNSEEN void __sanitizer_cov_store##N(T *)                                                                                     \
    {                                                                                                                             \
        sim::point();                                                                                                             \
    }
ACCESS(1, unsigned char)
ACCESS(2, unsigned short)
ACCESS(4, unsigned int)
ACCESS(8, unsigned long)
ACCESS(16, __int128)
}

namespace sim
{
static void broke(const char * what)
{
    Disarmed d;
    if (!violated()) {
        vio("nested", "%s", what);
    }
}
// ---- a small archive operation that any hook can run in the middle of another -------------------
struct Small
{
    using serialize = zb::members<4>;
    u32 a{};
    std::string s;
    std::vector<zb::vint32_t> v;
    std::bitset<13> b;
};
template <class... O>
static void nested_round_trip(u32 salt, O...)
{
    Depth d;
    Small x;
    x.a = salt * 2654435761u;
    x.s.assign(salt % 23, char('a' + salt % 26));
    for (u32 i = 0; i < salt % 5; ++i) {
        x.v.push_back(std::int32_t(salt * i));
    }
    x.b = salt * 7;
    std::byte mem[200];
    zb::out out(mem, O{}...);
    if (zb::failure(out(x))) {
        return broke("an archive used inside another operation failed to write");
    }
    std::span<const std::byte> written(mem, out.position());
    zb::in in(written, O{}...);
    Small y;
    if (zb::failure(in(y)) || y.a != x.a || y.s != x.s || y.v != x.v || y.b != x.b || in.position() != out.position()) {
        broke("an archive used inside another operation read something else");
    }
}
struct Reenter // decided per run: which hooks use archives of their own
{
    bool callbacks = false, allocators = false, buffers = false, handlers = false;
    u32 salt = 0;
};
static Reenter reenter;
static thread_local int in_hook;
static void hook(bool on)
{
    if (!on || in_hook || !sched || !sched->running || !armed) {
        return;
    }
    struct In
    {
        In()
        {
            ++in_hook;
        }
        ~In()
        {
            --in_hook;
        }
    } guard;
    if (reenter.salt % 3 == 0) {
        nested_round_trip(reenter.salt % 97, zb::endian::big{});
    } else if (reenter.salt % 3 == 1) {
        nested_round_trip(reenter.salt % 89, zb::size_varint{});
    } else {
        nested_round_trip(reenter.salt % 83);
    }
}

template <class T>
struct ReAlloc // an allocator that uses an archive
{
    using value_type = T;
    ReAlloc() = default;
    template <class U>
    ReAlloc(const ReAlloc<U> &)
    {
    }
    T * allocate(std::size_t n)
    {
        hook(reenter.allocators);
        return static_cast<T *>(::operator new(n * sizeof(T)));
    }
    void deallocate(T * p, std::size_t)
    {
        // no exception may leave from here
        ::operator delete(p);
    }
    bool operator==(const ReAlloc &) const
    {
        return true;
    }
};
class ReBuf // a buffer whose growth uses an archive
{
public:
    using value_type = std::byte;
    std::byte * data()
    {
        return v.data();
    }
    const std::byte * data() const
    {
        return v.data();
    }
    std::size_t size() const
    {
        return v.size();
    }
    auto begin()
    {
        return v.data();
    }
    auto end()
    {
        return v.data() + v.size();
    }
    auto begin() const
    {
        return v.data();
    }
    auto end() const
    {
        return v.data() + v.size();
    }
    std::byte & operator[](std::size_t i)
    {
        return v[i];
    }
    const std::byte & operator[](std::size_t i) const
    {
        return v[i];
    }
    void resize(std::size_t n)
    {
        hook(reenter.buffers);
        v.resize(n);
    }
    void reserve(std::size_t n)
    {
        v.reserve(n);
    }

private:
    BVec v;
};

// ---- shared types --------------------------------------------------------------------------------
struct TA
{
    using serialize = zb::members<6>;
    u32 a{};
    std::string s;
    std::vector<u16> v;
    std::optional<std::string> o;
    std::map<u32, std::string> m;
    std::bitset<21> b;
    void fields(auto && f)
    {
        f(a, s, v, o, m, b);
    }
};
struct TB
{
    using serialize = zb::members<5>;
    std::variant<u32, std::string, std::vector<u8>> v;
    std::unique_ptr<u64> p = std::make_unique<u64>();
    std::set<i64> s;
    std::array<u16, 5> a{};
    std::vector<zb::vsint64_t> z;
    void fields(auto && f)
    {
        f(v, p, s, a, z);
    }
};
class TC // its callback uses archives in the middle of the operation, one of them to hold part of the object
{
public:
    using custom_ref = void;
    u16 tag{};
    TA inner;
    std::vector<u32, ReAlloc<u32>> tail;
    static zb::errc serialize(auto & ar, auto & self)
    {
        Depth d;
        hook(reenter.callbacks);
        if (auto r = ar(self.tag); zb::failure(r)) {
            return r;
        }
        if constexpr (std::remove_cvref_t<decltype(ar)>::kind() == zb::kind::out) {
            BVec blob;
            zb::out out(blob, zb::endian::big{}, zb::size1b{});
            if (auto r = out(self.inner); zb::failure(r)) {
                return r;
            }
            hook(reenter.callbacks);
            if (auto r = ar(zb::sized<u32>(blob)); zb::failure(r)) {
                return r;
            }
        } else {
            BVec blob;
            auto ref = zb::sized<u32>(blob);
            if (auto r = ar(ref); zb::failure(r)) {
                return r;
            }
            zb::in in(blob, zb::endian::big{}, zb::size1b{});
            if (auto r = in(self.inner); zb::failure(r)) {
                return r;
            }
            hook(reenter.callbacks);
        }
        return ar(self.tail);
    }
    static void enc(Enc & e, const TC & x)
    {
        e.num(x.tag);
        Enc i(Wire{true, 1});
        i.put(x.inner);
        e.sizep(i.b.size(), 4);
        e.raw(i.b.data(), i.b.size());
        e.overflow |= i.overflow;
        e.put(x.tail);
    }
    static void dec(Dec & d, TC & x)
    {
        d.num(x.tag);
        std::size_t k = d.sizep(4);
        if (d.code) {
            return;
        }
        d.huge |= k > Dec::huge_bytes;
        if (k > d.left()) {
            d.code = RANGE;
            return;
        }
        Dec i(d.p + d.pos, k, Wire{true, 1});
        i.get(x.inner);
        d.pos += k;
        d.code = i.code;
        d.huge |= i.huge;
        d.bad_bool |= i.bad_bool;
        d.get(x.tail);
    }
    static void canon(Canon & c, const TC & x)
    {
        c.put(x.tag);
        c.put(x.inner);
        c.put(x.tail);
    }
    static void gen(Ch & c, TC & x, int)
    {
        sim::gen(c, x.tag);
        sim::gen(c, x.inner, 1);
        sim::gen(c, x.tail, 1);
    }
};
using TD = Full<In1>;

struct WireOpt
{
    Wire w;
};
template <int O>
struct Opt;
template <>
struct Opt<0>
{
    static constexpr Wire wire{};
    template <class B>
    static auto out(B & b)
    {
        return zb::out(b);
    }
    template <class B>
    static auto in(B & b)
    {
        return zb::in(b);
    }
};
template <>
struct Opt<1>
{
    static constexpr Wire wire{true, SZ_VARINT};
    template <class B>
    static auto out(B & b)
    {
        return zb::out(b, zb::endian::big{}, zb::size_varint{});
    }
    template <class B>
    static auto in(B & b)
    {
        return zb::in(b, zb::endian::big{}, zb::size_varint{});
    }
};

struct Ops
{
    const char * name;
    Wire wire;
    void * (*make)();
    void (*destroy)(void *);
    void (*gen)(Ch &, void *);
    void (*enc)(Enc &, const void *);
    void (*dec)(Dec &, void *);
    Bytes (*canon)(const void *);
    Res (*write)(Bytes &, const void *, bool own_buffer);
    Res (*read)(std::span<const std::byte>, void *, std::size_t & pos);
};
template <class T, int O>
Ops ops(const char * name)
{
    return {name, Opt<O>::wire, []() -> void * { return new T{}; }, [](void * p) { delete static_cast<T *>(p); },
            [](Ch & c, void * p) { gen(c, *static_cast<T *>(p), 0); },
            [](Enc & e, const void * p) { e.put(*static_cast<const T *>(p)); }, [](Dec & d, void * p) { d.get(*static_cast<T *>(p)); },
            [](const void * p) { return canon_of(*static_cast<const T *>(p)); },
            [](Bytes & to, const void * p, bool own_buffer) {
                auto go = [&](auto & b) {
                    Res r = guarded([&]() -> zb::errc {
                        Armed a;
                        auto out = Opt<O>::out(b);
                        return out(*static_cast<const T *>(p));
                    });
                    auto q = reinterpret_cast<const u8 *>(b.data());
                    to = Bytes(q, q + b.size());
                    return r;
                };
                if (own_buffer) {
                    ReBuf b;
                    return go(b);
                }
                BVec b;
                return go(b);
            },
            [](std::span<const std::byte> s, void * p, std::size_t & pos) {
                auto in = Opt<O>::in(s);
                Res r = guarded([&]() -> zb::errc {
                    Armed a;
                    return in(*static_cast<T *>(p));
                });
                pos = in.position();
                return r;
            }};
}
static const Ops kinds[] = {ops<TA, 0>("TA"), ops<TA, 1>("TA BE"), ops<TB, 0>("TB"), ops<TB, 1>("TB BE"),
                            ops<TC, 0>("TC"), ops<TC, 1>("TC BE"), ops<TD, 0>("TD"), ops<TD, 1>("TD BE")};
constexpr u32 n_kinds = 8;

// ---- services ------------------------------------------------------------------------------------
struct Service
{
    u64 sum(u32 a, std::vector<u16> b)
    {
        hook(reenter.handlers);
        u64 r = a;
        for (auto x : b) {
            r = r * 31 + x;
        }
        return r;
    }
    std::string twice(std::string s)
    {
        hook(reenter.handlers);
        return s + s;
    }
    // asks a server of its own in the middle of being served
    u64 proxy(u32 a, std::vector<u16> b);
};
struct Backend
{
    u64 sum(u32 a, std::vector<u16> b)
    {
        return Service{}.sum(a, std::move(b)) + 1;
    }
};
using rpc = zb::rpc<zb::bind<&Service::sum, 1>, zb::bind<&Service::twice, 2>, zb::bind<&Service::proxy, 3>>;
using rpc2 = zb::rpc<zb::bind<&Backend::sum, 9>>;
static u64 call(u32 a, std::vector<u16> b)
{
    Depth d;
    auto [data, in, out] = zb::data_in_out();
    Backend backend;
    typename rpc2::server server{in, out, backend};
    typename rpc2::client client{in, out};
    if (zb::failure(client.request<9>(a, b)) || zb::failure(server.serve())) {
        broke("a call made inside a handler failed");
        return 0;
    }
    auto r = client.response<9>();
    if (zb::failure(r)) {
        broke("the answer to a call made inside a handler is an error");
        return 0;
    }
    return r.value();
}
u64 Service::proxy(u32 a, std::vector<u16> b)
{
    return call(a, std::move(b)) * 3;
}

// ---- the run ---------------------------------------------------------------------------------------
struct Shared
{
    const Ops * k;
    void * obj;
    Bytes enc;             // its encoding
    Bytes canon;           // and itself
    BVec bytes;            // the bytes readers share: the encoding, cut or damaged
    Dec d{nullptr, 0};     // what reading them must give
    Bytes want;            // and the value
};
struct Request
{
    BVec bytes;
    Bytes answer; // what must be written
    int code = 0;
};
struct Step
{
    u32 what, which;
    bool own_buffer;
};
struct Plan
{
    std::vector<Shared, Mal<Shared>> shared;
    std::vector<Request, Mal<Request>> requests;
    std::vector<Step, Mal<Step>> steps[max_threads];
    bool failing = false;
    u64 exceptions = 0;
};
static Plan * plan;

static void run_step(u32 id, const Step & st)
{
    auto check_res = [&](const Res & r, const char * name) {
        if (r.exc) {
            REQ(r.exc == Res::bad_alloc && plan->failing && ++plan->exceptions <= heap.failed, "exception", "%s: %s", name,
                exc_name(r.exc));
            probe("an allocation failed");
            return false;
        }
        return true;
    };
    sched->at[id] = st.what + 1;
    for (u32 attempt = 0; attempt < 2; ++attempt) {
        if (st.what == 0) {
            auto & s = plan->shared[st.which];
            Bytes b;
            Res r = s.k->write(b, s.obj, st.own_buffer);
            ev("thread %u writes %s: %s", id, s.k->name, res_name(r).c_str());
            if (!check_res(r, s.k->name)) {
                continue;
            }
            REQ(r.ok(), "write", "%s: %s", s.k->name, res_name(r).c_str());
            REQ(b == s.enc, "write-bytes", "%s: other bytes than alone", s.k->name);
            REQ(s.k->canon(s.obj) == s.canon, "object", "%s: writing a shared object changed it", s.k->name);
        } else if (st.what == 1) {
            auto & s = plan->shared[st.which];
            struct Tmp
            {
                const Ops & k;
                void * p;
                ~Tmp()
                {
                    k.destroy(p);
                }
            } t{*s.k, s.k->make()};
            std::size_t pos = 0;
            Res r = s.k->read(s.bytes, t.p, pos);
            ev("thread %u reads %s: %s", id, s.k->name, res_name(r).c_str());
            if (s.d.huge && r.exc) {
                break;
            }
            if (!check_res(r, s.k->name)) {
                continue;
            }
            if (s.d.mismatch || s.d.over_limit || s.d.huge || s.d.bad_bool) {
                break;
            }
            REQ(r.code == s.d.code, "read", "%s: %s instead of %s", s.k->name, res_name(r).c_str(), code_name(s.d.code));
            if (r.ok()) {
                REQ(s.k->canon(t.p) == s.want, "read-value", "%s: another value than alone", s.k->name);
                REQ(pos == s.d.pos, "consumed", "%s: consumed %zu instead of %zu", s.k->name, pos, s.d.pos);
            }
        } else {
            auto & q = plan->requests[st.which];
            BVec b;
            Service service;
            std::span<const std::byte> src = q.bytes;
            zb::in in(src);
            zb::out out(b);
            Res r = guarded([&]() -> zb::errc {
                Armed a;
                typename rpc::server server{in, out, service};
                return server.serve();
            });
            ev("thread %u serves: %s", id, res_name(r).c_str());
            if (!check_res(r, "rpc")) {
                continue;
            }
            REQ(r.code == q.code, "rpc", "serving: %s instead of %s", res_name(r).c_str(), code_name(q.code));
            if (r.ok()) {
                REQ(to_bytes(b) == q.answer, "rpc-answer", "another answer than alone");
            }
        }
        break;
    }
    sched->at[id] = 0;
}
static void body(u32 id)
{
    try {
        for (auto & st : plan->steps[id]) {
            if (violated()) {
                break;
            }
            run_step(id, st);
            operation_boundary();
        }
    } catch (const Stop &) {
    }
}

void world_run(Ch & c)
{
    Plan p;
    plan = &p;
    struct Cleanup
    {
        Plan & p;
        ~Cleanup()
        {
            for (auto & s : p.shared) {
                s.k->destroy(s.obj);
            }
            plan = nullptr;
        }
    } cleanup{p};
    u32 n = c.range(2, max_threads);
    for (u32 i = 0, k = c.range(1, 3); i < k; ++i) {
        c.mark();
        Shared s{&kinds[c.pick(n_kinds)], nullptr, {}, {}, {}};
        s.obj = s.k->make();
        p.shared.push_back(std::move(s));
        auto & t = p.shared.back();
        t.k->gen(c, t.obj);
        Enc e(t.k->wire);
        t.k->enc(e, t.obj);
        if (e.overflow) {
            t.k->destroy(t.obj);
            p.shared.pop_back();
            continue;
        }
        t.enc = std::move(e.b);
        t.canon = t.k->canon(t.obj);
        t.bytes = to_bvec(t.enc);
        if (t.bytes.size()) {
            switch (c.pick(6)) {
            case 5:
                t.bytes.resize(c.pick(u32(t.bytes.size())));
                fault("torn");
                break;
            case 4:
                t.bytes[c.pick(u32(t.bytes.size()))] = std::byte(c.integer(8));
                fault("damaged");
                break;
            default:
                break;
            }
        }
        t.bytes.shrink_to_fit();
        void * m = t.k->make();
        t.d = Dec(reinterpret_cast<const u8 *>(t.bytes.data()), t.bytes.size(), t.k->wire);
        t.k->dec(t.d, m);
        t.want = t.k->canon(m);
        t.k->destroy(m);
    }
    for (u32 i = 0, k = c.range(1, 2); i < k; ++i) {
        c.mark();
        Request q;
        Enc e(Wire{}), a(Wire{});
        u32 fn = c.range(1, 4);
        e.num(int(fn));
        Service s;
        if (fn == 2) {
            std::string x;
            gen(c, x, 0);
            e.put(x);
            a.put(x + x);
        } else {
            u32 x = u32(c.integer(32));
            std::vector<u16> y;
            gen(c, y, 0);
            e.put(x);
            e.put(y);
            bool old = reenter.handlers;
            reenter.handlers = false;
            u64 v = s.sum(x, y);
            reenter.handlers = old;
            a.put(fn == 3 ? (v + 1) * 3 : v);
        }
        if (fn == 4) {
            q.code = NOTSUP;
        }
        q.bytes = to_bvec(e.b);
        q.bytes.shrink_to_fit();
        q.answer = std::move(a.b);
        p.requests.push_back(std::move(q));
    }
    for (u32 i = 0; i < n; ++i) {
        c.mark();
        for (u32 k = c.range(1, 3); k--;) {
            Step s{c.pick(3), 0, bool(c.pick(2))};
            if (s.what < 2 && p.shared.empty()) {
                s.what = 2;
            }
            s.which = c.pick(u32(s.what < 2 ? p.shared.size() : p.requests.size()));
            p.steps[i].push_back(s);
        }
    }
    u32 r = c.pick(16);
    reenter = {bool(r & 1), bool(r & 2), bool(r & 4), bool(r & 8), c.pick(1000)};
    p.failing = c.pick(4) == 3;
    u64 fail_at = p.failing ? 1 + c.pick(60) : 0;
    u64 failed;
    {
        Window w(fail_at);
        heap_exempt = true;
        heap.cap_total = 1ull << 40;
        start_threads(n, body);
        heap_exempt = false;
        failed = heap.failed;
    }
    if (failed) {
        fault("allocation failure", failed);
    }
    fault("preemption inside an operation", sched->inside);
    probe("points", sched->points);
    if (sched->inside) {
        nontrivial();
    }
    if (r & 1) {
        fault("archive used in a callback");
    }
    if (r & 2) {
        fault("archive used in an allocator");
    }
    if (r & 4) {
        fault("archive used in a buffer");
    }
    if (r & 8) {
        fault("archive used in a handler");
    }
    sim_time(sched->switches);
    if (violated()) {
        throw Stop{};
    }
    REQ(p.exceptions <= failed, "exceptions", "%llu exceptions for %llu failed allocations", (unsigned long long) p.exceptions,
        (unsigned long long) failed);
}
} // namespace sim
