// Shared definitions of the simulators: PRNG, plans, statistics, violations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s[2];
    static uint64_t mix(uint64_t z) {
        z += 0x9E3779B97F4A7C15ULL;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed = 1) {
        s[0] = mix(seed);
        s[1] = mix(s[0] ^ 0xD1B54A32D192ED03ULL);
        if (!s[0] && !s[1]) s[0] = 1;
    }
    uint64_t next() {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) {
        return lo + (int64_t)below((uint64_t)(hi - lo) + 1);
    }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T>
    const T &pick(const std::vector<T> &v) {
        return v[below(v.size())];
    }
};

inline uint64_t hmix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}
inline uint64_t hbytes(uint64_t h, const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p;
    while (n >= 8) {
        uint64_t w;
        memcpy(&w, c, 8);
        h = hmix(h, w);
        c += 8;
        n -= 8;
    }
    uint64_t w = 0;
    if (n) memcpy(&w, c, n);
    return hmix(h, w ^ ((uint64_t)n << 56));
}

// ---------------------------------------------------------------- plans
struct Step {
    std::string op;
    int64_t a[6] = {0, 0, 0, 0, 0, 0};
    int32_t fault = 0;  // n>0: refuse n-th allocation; n<0: n-th and later
};
struct Preempt {
    int task;
    uint64_t at;  // task-local event number
    int to;
};
struct Plan {
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, int64_t> knob;
    std::vector<Step> steps;
    std::vector<Preempt> sched;
    int64_t k(const char *n, int64_t d = 0) const {
        auto it = knob.find(n);
        return it == knob.end() ? d : it->second;
    }
    std::string text() const;
    bool parse(const std::string &t);
};

struct Viol {
    std::string cls, detail;
};
[[noreturn]] void viol(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));

struct Outcome {
    bool bad = false;
    std::string cls, detail;
    uint64_t hash = 0;
    bool nontrivial = false;
};

// The engine linked into the binary provides these.
void engine_gen(Plan &p, Rng &r);
// Executes; throws Viol on a violation. May append to p.sched (recorded).
void engine_exec(Plan &p);
void engine_reset();  // make the process usable for another run
// Candidate simplifications of one step's arguments
void engine_simplify(const Plan &p, size_t i, std::vector<Step> &out);
const char *engine_name();
const char *engine_distinct_rule();
// Plans enumerated up front instead of sampled: return false if none at idx.
bool engine_enum(const std::string &prop, uint64_t idx, Plan &p);

// ---------------------------------------------------------------- shared state
struct StatEntry {
    char name[56];
    uint64_t n;
};
struct Shared {
    volatile uint64_t run_idx;    // run under way
    volatile uint64_t runs_done;
    volatile uint64_t steps_done;
    volatile uint64_t simtime;    // simulated events
    volatile uint64_t hash;       // log hash so far
    volatile int step;            // step under way
    volatile int nontrivial;
    volatile int bad;             // violation recorded
    char cls[160];
    char detail[4096];
    char plan_note[256];
    StatEntry stat[400];
};
extern Shared *g_sh;
extern uint64_t g_seen_new;  // distinct signatures (sketch) found
void sig_seen(uint64_t sig);  // records a distinct state signature
void stat_add(const char *name, uint64_t n = 1);
#define STAT(name)                                   \
    do {                                             \
        static StatEntry *_se = stat_entry(name);    \
        _se->n++;                                    \
    } while (0)
StatEntry *stat_entry(const char *name);

// log hash
inline void lg(uint64_t v) { g_sh->hash = hmix(g_sh->hash, v); }
inline void lgb(const void *p, size_t n) { g_sh->hash = hbytes(g_sh->hash, p, n); }
extern bool g_verbose;
void sched_record(int task, uint64_t at, int to);
extern "C" void sim_record_bad(const char *cls, const char *detail);
