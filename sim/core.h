// What a simulated world uses: the choice stream, the event log, verdicts and measurements.
#pragma once
#include "choices.h"

namespace sim
{
struct Stop // ends the run after a violation
{
};
struct WorldInfo
{
    const char * id;
    const char * rule;    // how cases are made and what makes one non-trivial
    const char * measure; // what state() hashes
    const char * real;    // components running real code
    const char * stub;    // components simulated
};
extern const WorldInfo world_info;
void world_run(Ch & c); // one run, decided by the choices alone

// event log: hashed always, kept as text when tracing
void ev(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_bytes(const char * what, const void * p, std::size_t n);
bool tracing();

void vio(const char * cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
bool violated();
#define REQ(cond, cls, ...)                                                                                                      \
    do {                                                                                                                         \
        if (!(cond)) {                                                                                                           \
            ::sim::vio(cls, __VA_ARGS__);                                                                                        \
            throw ::sim::Stop{};                                                                                                 \
        }                                                                                                                        \
    } while (0)

void fault(const char * kind, u64 n = 1); // an injected fault that took effect
void probe(const char * name, u64 n = 1); // a situation that was reached
void state(u64 h);                        // an abstract state, for the distinct count
void nontrivial();                        // this run exercised what the property is about
void sim_time(u64 ticks);                 // simulated milliseconds that passed
inline u64 hash_bytes(const void * p, std::size_t n, u64 h = 0xcbf29ce484222325ull)
{
    auto c = static_cast<const u8 *>(p);
    for (std::size_t i = 0; i < n; ++i) {
        h = (h ^ c[i]) * 0x100000001b3ull;
    }
    return h;
}
inline u64 hmix(u64 a, u64 b)
{
    return mix64(a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2)));
}
} // namespace sim
