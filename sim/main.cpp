// The driver of a simulated world: seeded search over many runs in parallel worker processes,
// single runs, replay of a recorded choice list, and minimisation of a failing one.
//   world search --seed S --runs N --workers W --time T --sample K --out F
//   world one --seed S --run R [--trace]
//   world min --seed S --run R --cls C --out F [--time T]
//   world replay F [--quiet]
#include "alloc.h"
#include "core.h"

#include <cstdarg>
#include <cstdio>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void __asan_set_error_report_callback(void (*)(const char *));
extern "C" const char * __asan_default_options()
{
    return "detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:handle_abort=1:handle_sigill=1:handle_sigfpe=1:"
           "handle_segv=1:symbolize=0:exitcode=99:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=190:"
           "detect_container_overflow=1:print_legend=0:print_stats=0:quarantine_size_mb=8:malloc_context_size=4";
}

namespace sim
{
namespace
{
constexpr std::size_t max_rec = 1 << 20;
constexpr int max_names = 96;

struct Named
{
    char name[64];
    u64 n;
};
// written by a run as it proceeds; shared, so that it outlives a crash
struct Result
{
    volatile u64 run;
    u64 hash;
    u64 events;
    u64 n_rec;
    u64 n_marks;
    int violated;
    int finished;
    char cls[96];
    char msg[1024];
    char crash[6000];
    u64 ticks;
    int nontrivial;
};
struct Stats
{
    u64 runs, nontrivial, events, ticks, choices;
    u64 sample_hash; // combined hash of the first K runs of this worker
    Named faults[max_names], probes[max_names];
    u64 n_states; // entries in the state table
    u64 n_shapes;
    u64 state_overflow;
    int stopped; // a violation ended this worker
};
constexpr std::size_t n_table = 1 << 19;

struct Shared
{
    Result res;
    Stats st;
    u32 rec[max_rec];
    u32 marks[max_rec];
    u64 table[n_table];
    u64 shapes[n_table];
};

Result * res;
Stats * st;
Shared * sh;
bool trace_on;
FILE * trace_out;
Stats dummy_stats;

void count(Named * t, const char * name, u64 n)
{
    for (int i = 0; i < max_names; ++i) {
        if (!t[i].name[0]) {
            std::strncpy(t[i].name, name, sizeof(t[i].name) - 1);
        }
        if (!std::strncmp(t[i].name, name, sizeof(t[i].name) - 1)) {
            t[i].n += n;
            return;
        }
    }
}
bool insert(u64 * table, u64 h, u64 & n, u64 & overflow)
{
    if (!h) {
        h = 1;
    }
    for (std::size_t i = h & (n_table - 1), k = 0; k < 64; i = (i + 1) & (n_table - 1), ++k) {
        if (table[i] == h) {
            return false;
        }
        if (!table[i]) {
            table[i] = h;
            ++n;
            return true;
        }
    }
    ++overflow;
    return false;
}
void on_report(const char * text)
{
    if (!res) {
        return;
    }
    std::strncpy(res->crash, text, sizeof(res->crash) - 1);
    const char * p = std::strstr(text, "AddressSanitizer: ");
    char kind[64] = "report";
    if (p) {
        p += 18;
        int i = 0;
        while (i < 60 && p[i] && p[i] != ' ' && p[i] != '\n' && p[i] != ':') {
            kind[i] = p[i];
            ++i;
        }
        kind[i] = 0;
    }
    if (!res->violated) {
        res->violated = 1;
        std::snprintf(res->cls, sizeof(res->cls), "asan:%s", kind);
        std::snprintf(res->msg, sizeof(res->msg), "AddressSanitizer: %s", kind);
    }
}
Shared * map_shared()
{
    void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(2);
    }
    return static_cast<Shared *>(p);
}
double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
double cpu_of(pid_t pid)
{
    clockid_t c;
    timespec t;
    if (clock_getcpuclockid(pid, &c) || clock_gettime(c, &t)) {
        return 0;
    }
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
u64 run_seed(u64 seed, u64 run)
{
    return hmix(hmix(hash_bytes(world_info.id, std::strlen(world_info.id)), seed), run);
}
void exec_run(Ch & c)
{
    res->hash = 0x9e3779b9;
    res->events = 0;
    res->violated = 0;
    res->finished = 0;
    res->nontrivial = 0;
    res->ticks = 0;
    res->cls[0] = res->msg[0] = 0;
    heap = Heap{};
    try {
        world_run(c);
    } catch (const Stop &) {
    } catch (const std::exception & e) {
        heap.active = false;
        vio("exception", "an exception escaped: %s", e.what());
    }
    heap.active = false;
    heap_exempt = false;
    res->finished = 1;
    ++st->runs;
    st->events += res->events;
    st->ticks += res->ticks;
    st->choices += c.rec.size();
    if (res->nontrivial) {
        u64 h = hash_bytes(c.rec.data(), c.rec.size() * 4);
        if (insert(sh->shapes, h, st->n_shapes, st->state_overflow)) {
            ++st->nontrivial;
        }
    }
}
} // namespace

void ev(const char * fmt, ...)
{
    bool a = heap.active;
    heap.active = false;
    char t[512];
    va_list ap;
    va_start(ap, fmt);
    int n = std::vsnprintf(t, sizeof(t), fmt, ap);
    va_end(ap);
    if (n >= int(sizeof(t))) {
        n = sizeof(t) - 1;
    }
    res->hash = hmix(res->hash, hash_bytes(t, std::size_t(n)));
    ++res->events;
    if (trace_on) {
        std::fprintf(trace_out, "  %s\n", t);
        std::fflush(trace_out);
    }
    heap.active = a;
}
void ev_bytes(const char * what, const void * p, std::size_t n)
{
    bool a = heap.active;
    heap.active = false;
    res->hash = hmix(res->hash, hmix(hash_bytes(p, n), n));
    ++res->events;
    if (trace_on) {
        std::fprintf(trace_out, "  %s [%zu]", what, n);
        for (std::size_t i = 0; i < n && i < 64; ++i) {
            std::fprintf(trace_out, " %02x", static_cast<const u8 *>(p)[i]);
        }
        std::fprintf(trace_out, n > 64 ? " ...\n" : "\n");
        std::fflush(trace_out);
    }
    heap.active = a;
}
bool tracing()
{
    return trace_on;
}
void vio(const char * cls, const char * fmt, ...)
{
    bool a = heap.active;
    heap.active = false;
    if (!res->violated) {
        res->violated = 1;
        std::strncpy(res->cls, cls, sizeof(res->cls) - 1);
        va_list ap;
        va_start(ap, fmt);
        std::vsnprintf(res->msg, sizeof(res->msg), fmt, ap);
        va_end(ap);
        ev("VIOLATION %s: %s", res->cls, res->msg);
    }
    heap.active = a;
}
bool violated()
{
    return res->violated;
}
void fault(const char * kind, u64 n)
{
    count(st->faults, kind, n);
}
void probe(const char * name, u64 n)
{
    count(st->probes, name, n);
}
void state(u64 h)
{
    insert(sh->table, mix64(h), st->n_states, st->state_overflow);
}
void nontrivial()
{
    res->nontrivial = 1;
}
void sim_time(u64 ticks)
{
    res->ticks += ticks;
}

namespace
{
struct Args
{
    u64 seed = 1, runs = 1000, run = 0, sample = 64, workers = 8;
    double time = 60;
    const char * out = nullptr;
    const char * cls = "";
    const char * file = nullptr;
    bool trace = false, quiet = false;
};

constexpr double hang_cpu = 20, hang_wall = 240;

// ---- search -------------------------------------------------------------------------------
void worker(const Args & a, u64 w, double t0, volatile int * stop)
{
    Ch & c = Ch::get();
    for (u64 r = w; r < a.runs && !*stop; r += a.workers) {
        res->run = r;
        c.seed(run_seed(a.seed, r));
        exec_run(c);
        if (r < a.sample) { // order independent
            st->sample_hash += hmix(hmix(res->hash, r), c.rec.size());
        }
        if (res->violated) {
            st->stopped = 1;
            *stop = 1;
            return;
        }
        if (r + a.workers >= a.sample && now() - t0 > a.time) { // the sample is always run as a whole
            return;
        }
    }
    res->run = ~0ull;
}
void json_named(FILE * f, const char * key, const Named * t)
{
    std::fprintf(f, "\"%s\":{", key);
    for (int i = 0; i < max_names && t[i].name[0]; ++i) {
        std::fprintf(f, "%s\"%s\":%llu", i ? "," : "", t[i].name, (unsigned long long) t[i].n);
    }
    std::fprintf(f, "},");
}
void json_text(FILE * f, const char * s)
{
    std::fputc('"', f);
    for (; *s; ++s) {
        if (*s == '"' || *s == '\\') {
            std::fputc('\\', f);
        }
        if (*s == '\n') {
            std::fprintf(f, "\\n");
        } else if (u8(*s) >= 32) {
            std::fputc(*s, f);
        }
    }
    std::fputc('"', f);
}
void json_pair(FILE * f, const char * k, const char * v)
{
    std::fprintf(f, "\"%s\":", k);
    json_text(f, v);
    std::fputc(',', f);
}
int search(const Args & a)
{
    std::vector<Shared *> all;
    std::vector<pid_t> pids;
    auto stop = static_cast<volatile int *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    double t0 = now();
    for (u64 w = 0; w < a.workers; ++w) {
        all.push_back(map_shared());
        pid_t pid = fork();
        if (!pid) {
            sh = all.back();
            res = &sh->res;
            st = &sh->st;
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
            worker(a, w, t0, stop);
            _exit(0);
        }
        pids.push_back(pid);
    }
    std::vector<int> alive(a.workers, 1);
    std::vector<u64> last(a.workers, ~1ull);
    std::vector<double> cpu0(a.workers, 0), wall0(a.workers, t0);
    std::size_t n_alive = a.workers;
    bool broken = false;
    while (n_alive) {
        for (u64 w = 0; w < a.workers; ++w) {
            if (!alive[w]) {
                continue;
            }
            Result & r = all[w]->res;
            int s;
            if (waitpid(pids[w], &s, WNOHANG) == pids[w]) {
                alive[w] = 0;
                --n_alive;
                if (!WIFEXITED(s) || WEXITSTATUS(s)) {
                    *stop = 1;
                    all[w]->st.stopped = 1;
                    if (WIFSIGNALED(s) && WTERMSIG(s) == SIGKILL && !r.violated) {
                        broken = true; // ended from outside: no verdict
                    }
                    if (!r.violated) {
                        r.violated = 1;
                        std::snprintf(r.cls, sizeof(r.cls), WIFSIGNALED(s) ? "signal:%d" : "exit:%d",
                                      WIFSIGNALED(s) ? WTERMSIG(s) : WEXITSTATUS(s));
                        std::snprintf(r.msg, sizeof(r.msg), "the process died: %s", r.cls);
                    }
                }
                continue;
            }
            double t = now(), c = cpu_of(pids[w]);
            if (r.run != last[w]) {
                last[w] = r.run;
                cpu0[w] = c;
                wall0[w] = t;
            } else if (c - cpu0[w] > hang_cpu || t - wall0[w] > hang_wall) {
                kill(pids[w], SIGKILL);
                waitpid(pids[w], &s, 0);
                alive[w] = 0;
                --n_alive;
                *stop = 1;
                all[w]->st.stopped = 1;
                if (!r.violated) {
                    r.violated = 1;
                    std::snprintf(r.cls, sizeof(r.cls), "hang");
                    std::snprintf(r.msg, sizeof(r.msg), "no progress");
                }
            }
        }
        usleep(5000);
    }
    double wall = now() - t0;
    // merge
    Shared * m = all[0];
    Stats total{};
    int found = -1;
    for (u64 w = 0; w < a.workers; ++w) {
        Stats & s = all[w]->st;
        total.runs += s.runs;
        total.events += s.events;
        total.ticks += s.ticks;
        total.choices += s.choices;
        total.sample_hash += s.sample_hash;
        total.state_overflow += s.state_overflow;
        for (int i = 0; i < max_names && s.faults[i].name[0]; ++i) {
            count(total.faults, s.faults[i].name, s.faults[i].n);
        }
        for (int i = 0; i < max_names && s.probes[i].name[0]; ++i) {
            count(total.probes, s.probes[i].name, s.probes[i].n);
        }
        if (w) {
            for (std::size_t i = 0; i < n_table; ++i) {
                if (all[w]->table[i]) {
                    insert(m->table, all[w]->table[i], m->st.n_states, m->st.state_overflow);
                }
                if (all[w]->shapes[i]) {
                    insert(m->shapes, all[w]->shapes[i], m->st.n_shapes, m->st.state_overflow);
                }
            }
        }
        if (s.stopped && (found < 0 || all[w]->res.run < all[std::size_t(found)]->res.run)) {
            found = int(w);
        }
    }
    FILE * f = a.out ? std::fopen(a.out, "w") : stdout;
    std::fprintf(f, "{");
    json_pair(f, "property", world_info.id);
    json_pair(f, "rule", world_info.rule);
    json_pair(f, "measure", world_info.measure);
    json_pair(f, "real", world_info.real);
    json_pair(f, "stub", world_info.stub);
    std::fprintf(f, "\"runs\":%llu,\"events\":%llu,\"sim_ms\":%llu,\"choices\":%llu,\"states\":%llu,\"nontrivial\":%llu,",
                 (unsigned long long) total.runs, (unsigned long long) total.events, (unsigned long long) total.ticks,
                 (unsigned long long) total.choices, (unsigned long long) m->st.n_states, (unsigned long long) m->st.n_shapes);
    json_named(f, "faults", total.faults);
    json_named(f, "probes", total.probes);
    std::fprintf(f, "\"sample_hash\":\"%llx\",\"table_overflow\":%llu,\"search_wall_s\":%.3f,\"broken\":%s,",
                 (unsigned long long) total.sample_hash, (unsigned long long) total.state_overflow, wall, broken ? "true" : "false");
    if (found >= 0) {
        Result & r = all[std::size_t(found)]->res;
        std::fprintf(f, "\"violation\":{\"run\":%llu,", (unsigned long long) r.run);
        json_pair(f, "cls", r.cls);
        json_pair(f, "msg", r.msg);
        std::fprintf(f, "\"hash\":\"%llx\"}", (unsigned long long) r.hash);
    } else {
        std::fprintf(f, "\"violation\":null");
    }
    std::fprintf(f, "}\n");
    std::fclose(f);
    return 0;
}

// ---- single executions in a child ---------------------------------------------------------
struct Outcome
{
    bool violated = false;
    std::string cls, msg, crash;
    u64 hash = 0;
    mvec<u32> rec, marks;
};
template <class F>
Outcome in_child(Shared * s, F && f, bool show, double cpu_limit = hang_cpu)
{
    std::memset(static_cast<void *>(&s->res), 0, sizeof(s->res));
    std::fflush(nullptr);
    pid_t pid = fork();
    if (!pid) {
        sh = s;
        res = &s->res;
        st = &dummy_stats;
        if (!show) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
        }
        Ch & c = Ch::get();
        c.sink = s->rec;
        c.sink_cap = max_rec;
        c.n_sink = &s->res.n_rec;
        f(c);
        exec_run(c);
        s->res.n_marks = c.marks.size();
        for (std::size_t i = 0; i < c.marks.size() && i < max_rec; ++i) {
            s->marks[i] = c.marks[i];
        }
        _exit(0);
    }
    int status = 0;
    double t0 = now();
    bool hang = false;
    for (useconds_t nap = 50;;) {
        pid_t p = waitpid(pid, &status, WNOHANG);
        if (p == pid) {
            break;
        }
        double c = cpu_of(pid);
        if (c > cpu_limit || now() - t0 > hang_wall) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            hang = true;
            break;
        }
        usleep(nap);
        if (nap < 5000) {
            nap *= 2;
        }
    }
    Outcome o;
    Result & r = s->res;
    o.violated = r.violated;
    o.cls = r.cls;
    o.msg = r.msg;
    o.crash = r.crash;
    o.hash = r.hash;
    if (hang && !o.violated) {
        o.violated = true;
        o.cls = "hang";
        o.msg = "no progress";
    } else if (!o.violated && (!WIFEXITED(status) || WEXITSTATUS(status))) {
        o.violated = true;
        o.cls = WIFSIGNALED(status) ? "signal:" + std::to_string(WTERMSIG(status)) : "exit:" + std::to_string(WEXITSTATUS(status));
        o.msg = "the process died";
    }
    u64 n = r.n_rec < max_rec ? r.n_rec : max_rec;
    o.rec.assign(s->rec, s->rec + n);
    u64 k = r.n_marks < max_rec ? r.n_marks : max_rec;
    o.marks.assign(s->marks, s->marks + k);
    return o;
}
Outcome run_seeded(Shared * s, u64 seed, u64 run, bool trace)
{
    return in_child(
        s,
        [&](Ch & c) {
            trace_on = trace;
            trace_out = stdout;
            c.seed(run_seed(seed, run));
        },
        false);
}
Outcome run_choices(Shared * s, const mvec<u32> & in, bool trace, FILE * to = stdout)
{
    return in_child(
        s,
        [&](Ch & c) {
            trace_on = trace;
            trace_out = to;
            c.replay(in);
        },
        trace);
}
int one(const Args & a)
{
    auto o = run_seeded(map_shared(), a.seed, a.run, a.trace);
    std::printf("run %llu hash %llx choices %zu violated %d class %s: %s\n", (unsigned long long) a.run, (unsigned long long) o.hash,
                o.rec.size(), int(o.violated), o.cls.c_str(), o.msg.c_str());
    return 0;
}

// ---- minimisation -------------------------------------------------------------------------
int minimise(const Args & a)
{
    Shared * s = map_shared();
    auto o = run_seeded(s, a.seed, a.run, false);
    auto o2 = run_seeded(s, a.seed, a.run, false);
    if (!o.violated || o.cls != a.cls || o2.cls != o.cls || o2.hash != o.hash || o2.rec != o.rec) {
        std::printf("NOT-REPRODUCED class %s / %s (wanted %s) hash %llx / %llx\n", o.cls.c_str(), o2.cls.c_str(), a.cls,
                    (unsigned long long) o.hash, (unsigned long long) o2.hash);
        return 2;
    }
    double t0 = now();
    mvec<u32> best = o.rec;
    mvec<u32> marks = o.marks;
    u64 tries = 0;
    const double limit = o.cls == "hang" ? 0 : a.time;
    auto attempt = [&](mvec<u32> cand) {
        if (now() - t0 > limit) {
            return false;
        }
        ++tries;
        auto r = run_choices(s, cand, false);
        if (r.violated && r.cls == a.cls && (r.rec.size() < best.size() || (r.rec.size() == best.size() && r.rec < best))) {
            best = r.rec;
            marks = r.marks;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < limit) {
        progress = false;
        // whole steps
        for (std::size_t i = marks.size(); i-- > 0;) {
            if (i >= marks.size()) {
                continue;
            }
            std::size_t b = marks[i], e = i + 1 < marks.size() ? marks[i + 1] : best.size();
            if (b >= e || e > best.size()) {
                continue;
            }
            auto c = best;
            c.erase(c.begin() + long(b), c.begin() + long(e));
            progress |= attempt(c);
        }
        // truncation and chunks
        for (std::size_t k = best.size() / 2; k >= 1; k /= 2) {
            for (std::size_t i = 0; i + k <= best.size() && now() - t0 < limit;) {
                auto c = best;
                c.erase(c.begin() + long(i), c.begin() + long(i + k));
                if (attempt(c)) {
                    progress = true;
                } else {
                    i += k;
                }
            }
        }
        // smaller choices
        for (std::size_t i = 0; i < best.size() && now() - t0 < limit; ++i) {
            if (!best[i]) {
                continue;
            }
            auto c = best;
            c[i] = 0;
            if (attempt(c)) {
                progress = true;
                continue;
            }
            for (u32 v : {best[i] / 2, best[i] - 1}) {
                if (i < best.size() && v < best[i]) {
                    c = best;
                    c[i] = v;
                    if (attempt(c)) {
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    FILE * f = std::fopen(a.out, "w");
    if (!f) {
        std::perror(a.out);
        return 2;
    }
    auto fin = run_choices(s, best, false);
    std::fprintf(f, "property %s\nclass %s\nhash %llx\nseed %llu\nrun %llu\nfound_with_choices %zu\nminimised_in %llu\nchoices %zu\n",
                 world_info.id, fin.cls.c_str(), (unsigned long long) fin.hash, (unsigned long long) a.seed, (unsigned long long) a.run,
                 o.rec.size(), (unsigned long long) tries, best.size());
    for (u32 v : best) {
        std::fprintf(f, "%u ", v);
    }
    std::fprintf(f, "\nmessage %s\ntrace\n", fin.msg.c_str());
    std::fflush(f);
    run_choices(s, best, true, f);
    if (!fin.crash.empty()) {
        std::fprintf(f, "crash report\n%s\n", fin.crash.c_str());
    }
    std::fclose(f);
    std::printf("MINIMISED %zu -> %zu choices in %llu tries: %s: %s\n", o.rec.size(), best.size(), (unsigned long long) tries,
                fin.cls.c_str(), fin.msg.c_str());
    return 0;
}
int replay(const Args & a)
{
    FILE * f = std::fopen(a.file, "r");
    if (!f) {
        std::perror(a.file);
        return 2;
    }
    char cls[128] = "", prop[32] = "";
    unsigned long long hash = 0, seed, run, x, t;
    std::size_t n = 0;
    if (std::fscanf(f, "property %31s class %127s hash %llx seed %llu run %llu found_with_choices %llu minimised_in %llu choices %zu",
                    prop, cls, &hash, &seed, &run, &x, &t, &n) != 8) {
        std::printf("bad replay file\n");
        return 2;
    }
    mvec<u32> in(n);
    for (auto & v : in) {
        if (std::fscanf(f, "%u", &v) != 1) {
            return 2;
        }
    }
    std::fclose(f);
    auto o = run_choices(map_shared(), in, !a.quiet);
    bool same = o.violated && o.cls == cls && o.hash == hash;
    std::printf("%s class %s hash %llx (recorded %s %llx): %s\n", same ? "REPRODUCED" : "DIFFERENT", o.cls.c_str(),
                (unsigned long long) o.hash, cls, hash, o.msg.c_str());
    if (same) {
        std::printf("VIOLATION property=%s replay=%s\n", prop, a.file);
    }
    return same ? 1 : o.violated ? 3 : 0;
}
} // namespace
} // namespace sim

int main(int argc, char ** argv)
{
    using namespace sim;
    Args a;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i < argc; ++i) {
        std::string k = argv[i];
        auto val = [&] { return i + 1 < argc ? argv[++i] : ""; };
        if (k == "--seed") {
            a.seed = std::strtoull(val(), nullptr, 10);
        } else if (k == "--runs") {
            a.runs = std::strtoull(val(), nullptr, 10);
        } else if (k == "--run") {
            a.run = std::strtoull(val(), nullptr, 10);
        } else if (k == "--sample") {
            a.sample = std::strtoull(val(), nullptr, 10);
        } else if (k == "--workers") {
            a.workers = std::strtoull(val(), nullptr, 10);
        } else if (k == "--time") {
            a.time = std::atof(val());
        } else if (k == "--out") {
            a.out = val();
        } else if (k == "--cls") {
            a.cls = val();
        } else if (k == "--trace") {
            a.trace = true;
        } else if (k == "--quiet") {
            a.quiet = true;
        } else {
            a.file = argv[i];
        }
    }
    __asan_set_error_report_callback(on_report);
    if (mode == "search") {
        return search(a);
    }
    if (mode == "one") {
        return one(a);
    }
    if (mode == "min") {
        return minimise(a);
    }
    if (mode == "replay") {
        return replay(a);
    }
    std::fprintf(stderr, "usage: search | one | min | replay\n");
    return 2;
}
