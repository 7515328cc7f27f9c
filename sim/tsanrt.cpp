// Runtime of the thread simulator.
//
// The library is compiled with -fsanitize=thread, so every access it makes to memory calls one of
// the __tsan_* functions below. They are this simulator's, not ThreadSanitizer's: each access is a
// simulated event, at which the seeded scheduler may run another task instead (tasks are fibers of
// one OS thread), and which is checked against vector clocks (happens-before) and against what is
// allocated. Memory comes from an arena whose addresses are never used twice in a run.
#include "thrrt.h"

#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <unordered_map>
#include <vector>

#include "heap.h"
extern "C" {
#include <roaring/memory.h>
int croaring_hardware_support_real(void);
extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
extern char __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
void sim_swap(void **save, void *to);
}
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_swap,.-sim_swap
)");

namespace rt {
typedef uintptr_t ptr;
static const ptr ARENA = 0x200000000000ULL;
static const size_t ARENA_N = 48u << 20;
struct Rec {
    uint32_t clk;
    uint16_t step;
    uint8_t mask;
    uint8_t pad;
};
struct Cell {  // 8 bytes of library memory
    Rec w[MAXT], r[MAXT];
    uint8_t valid;   // bytes that may be accessed
    uint8_t freed;
    uint8_t atomic;  // accessed by an atomic operation: see atoms
    uint8_t pad[5];
};
static Cell *cells;
static ptr bump;         // first unused address of the arena
static ptr sealed;       // below: may only be read
static std::vector<Cell> gcells[2];
static ptr glo[2], ghi[2];
static std::string gsnap[2];
struct Clk { uint32_t v[MAXT]; };
struct Task {
    void *sp = nullptr;
    char *stack = nullptr;
    bool done = true;
    uint64_t cnt = 0, next = ~0ULL;
    Clk vc, facq, frel;
    const char *op = "";
    int step = 0;
    int prio = 0;
    std::unordered_map<uint64_t, int> plan;  // replay: event -> next task
};
static Task T[MAXT];
static int cur, nt = 1;
static const std::function<void(int)> *fns;
static bool replay_, failed, concurrent, full_;
static std::string fcls, fdet;
static int mode;
static uint64_t mean, switches, pctnext;
static std::vector<uint64_t> pctpoints;
static uint64_t gcount;
static int lowprio;
static Rng rng(1);
static void *main_sp;
static const size_t STACK = 1 << 20;
struct Atom {
    size_t size;
    Clk rel;
    Rec w[MAXT], r[MAXT];
};
static std::unordered_map<ptr, Atom> atoms;

// ------------------------------------------------------------- violations
[[noreturn]] static void leave();
static void fail(const char *cls, const std::string &det) {
    if (!failed) {
        failed = true;
        fcls = cls;
        fdet = det;
    }
    if (concurrent) leave();
    throw Viol{fcls, fdet};  // reaches the harness through C frames (unwind tables are present)
}
struct Blk { ptr p; size_t n; int kind; int task; const char *op; bool live; uint64_t seq; };
static std::map<ptr, Blk> blocks;
static std::string where(ptr a) {
    char b[256];
    for (int g = 0; g < 2; g++)
        if (a >= glo[g] && a < ghi[g]) {
            snprintf(b, sizeof b, "byte %zu of the library's global data", (size_t)(a - glo[g]));
            return b;
        }
    auto it = blocks.upper_bound(a);
    if (it == blocks.begin()) return "an address before every block";
    --it;
    const Blk &k = it->second;
    snprintf(b, sizeof b, "offset %zu of a %s block of %zu bytes obtained by task %d in %s", (size_t)(a - k.p), k.live ? "live" : "freed", k.n, k.task, k.op);
    return b;
}
static void race(ptr a, size_t n, bool wr, int other, bool owr, uint16_t ostep, void *pc) {
    char b[700];
    snprintf(b, sizeof b, "task %d (step %d, %s) %s %zu bytes at %s; task %d %s it at its step %u with no order between the two (pc %p)", cur, T[cur].step, T[cur].op, wr ? "writes" : "reads", n, where(a).c_str(), other, owr ? "wrote" : "read", ostep, pc);
    fail("race", b);
}

// --------------------------------------------------------------- schedule
static void go(int to) {
    int from = cur;
    cur = to;
    sim_swap(&T[from].sp, T[to].sp);
}
static void new_quantum(int t) {
    if (replay_) return;
    if (mode == 0) {
        T[t].next = T[t].cnt + 1 + rng.below(2 * mean);
    } else T[t].next = ~0ULL;
}
static int pick_other(bool self_ok) {
    int c[MAXT], n = 0;
    for (int i = 1; i < nt; i++) if (!T[i].done && (self_ok || i != cur)) c[n++] = i;
    if (!n) return -1;
    if (mode == 1) {
        int b = c[0];
        for (int i = 1; i < n; i++) if (T[c[i]].prio > T[b].prio) b = c[i];
        return b;
    }
    return c[rng.below(n)];
}
static void preempt(int to, int kind) {
    if (to < 0 || to == cur || T[to].done || switches > 60000) return;
    switches++;
    Task &t = T[cur];
    sched_record(cur, t.cnt, to);
    lg(hmix((uint64_t)cur << 8 | to, t.cnt));
    uint64_t h = 0x7ead + kind;
    for (const char *q = t.op; *q; q++) h = hmix(h, (unsigned char)*q);
    for (const char *q = T[to].op; *q; q++) h = hmix(h, (unsigned char)*q);
    sig_seen(h);
    STAT("switch_total");
    if (kind == 1) STAT("switch_at_atomic");
    else if (kind == 2) STAT("switch_at_allocation");
    else if (kind == 3) STAT("switch_between_steps");
    else STAT("switch_at_memory_access");
    new_quantum(to);
    go(to);
}
// kind: 0 access, 1 atomic, 2 allocation, 3 step boundary
static inline void event(int kind) {
    if (!concurrent) return;
    Task &t = T[cur];
    t.cnt++;
    gcount++;
    if (replay_) {
        if (t.plan.empty()) return;
        auto it = t.plan.find(t.cnt);
        if (it != t.plan.end()) preempt(it->second, kind);
        return;
    }
    if (mode == 0) {
        if (t.cnt < t.next) return;
        int o = pick_other(false);
        if (o < 0) t.next = ~0ULL;
        else preempt(o, kind);
    } else if (mode == 1) {
        if (gcount < pctnext) return;
        pctpoints.pop_back();
        pctnext = pctpoints.empty() ? ~0ULL : pctpoints.back();
        t.prio = --lowprio;
        preempt(pick_other(true), kind);
    } else if (mode == 2) {  // around synchronisation and allocation
        if (!kind || rng.below(3)) return;
        preempt(pick_other(false), kind);
    } else {  // mostly whole operations, now and then inside one
        if (kind == 3 ? rng.below(2) : rng.below(mean * 40) != 0) return;
        preempt(pick_other(false), kind);
    }
}
static void fiber_main() {
    int me = cur;
    try {
        fns[me](me);
    } catch (Viol &v) {
        if (!failed) {
            failed = true;
            fcls = v.cls;
            fdet = "task " + std::to_string(me) + ": " + v.detail;
        }
        leave();
    }
    Task &t = T[me];
    t.done = true;
    int to = -1;
    if (replay_) {
        auto it = t.plan.find(~0ULL);
        if (it != t.plan.end() && !T[it->second].done) to = it->second;
        if (to < 0)
            for (int i = 1; i < nt; i++) if (!T[i].done) { to = i; break; }
    } else to = pick_other(false);
    if (to < 0) leave();
    sched_record(me, ~0ULL, to);
    lg(hmix(0xe4d, (uint64_t)me << 8 | to));
    new_quantum(to);
    go(to);
    abort();
}
static void leave() {
    int from = cur;
    cur = 0;
    concurrent = false;
    sim_swap(&T[from].sp, main_sp);
    abort();
}
int current() { return cur; }
void note(int t, const char *op, int step) {
    T[t].op = op;
    T[t].step = step;
}
void step_boundary() { event(3); }
bool exhausted() { return full_; }

static void join(Clk &a, const Clk &b) {
    for (int i = 0; i < MAXT; i++) if (b.v[i] > a.v[i]) a.v[i] = b.v[i];
}
void release_to(Clock &c) {
    for (int i = 0; i < MAXT; i++) if (T[cur].vc.v[i] > c.v[i]) c.v[i] = T[cur].vc.v[i];
    T[cur].vc.v[cur]++;
}
void acquire_from(const Clock &c) {
    for (int i = 0; i < MAXT; i++) if (c.v[i] > T[cur].vc.v[i]) T[cur].vc.v[i] = c.v[i];
}

void run(int n, const std::function<void(int)> *fn, const Plan &p) {
    nt = n;
    fns = fn;
    replay_ = p.k("sched_replay");
    mode = (int)p.k("sched_mode", 0) % 4;
    rng = Rng(p.seed ^ 0x5c4ed);
    static const uint64_t means[] = {3, 20, 100, 500, 3000, 20000};
    mean = means[rng.below(6)];
    switches = 0;
    gcount = 0;
    lowprio = 0;
    pctpoints.clear();
    if (mode == 1) {
        uint64_t d = 1 + rng.below(6), span = 1000ULL << rng.below(10);
        for (uint64_t i = 0; i < d; i++) pctpoints.push_back(1 + rng.below(span));
        std::sort(pctpoints.rbegin(), pctpoints.rend());
    }
    pctnext = pctpoints.empty() ? ~0ULL : pctpoints.back();
    T[0].vc.v[0]++;
    for (int i = 1; i < n; i++) {
        Task &t = T[i];
        if (!t.stack) {
            t.stack = (char *)mmap(0, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            mprotect(t.stack, 4096, PROT_NONE);
        }
        t.done = false;
        t.cnt = 0;
        t.next = ~0ULL;
        t.vc = T[0].vc;
        t.vc.v[i] = 1;
        memset(&t.facq, 0, sizeof t.facq);
        memset(&t.frel, 0, sizeof t.frel);
        t.prio = 100 + (int)rng.below(1000);
        t.plan.clear();
        void **s = (void **)(t.stack + STACK + 4096);
        *--s = nullptr;  // return address slot of fiber_main: alignment as after a call
        *--s = (void *)fiber_main;
        for (int k = 0; k < 6; k++) *--s = nullptr;
        t.sp = s;
    }
    if (replay_)
        for (auto &e : p.sched)
            if (e.task >= 1 && e.task < n && e.to >= 1 && e.to < n) T[e.task].plan[e.at] = e.to;
    int first = 1 + (int)rng.below(n - 1);
    if (replay_) first = 1;
    else if (mode == 1) first = pick_other(true);
    for (auto &e : p.sched) if (replay_ && e.task == 0 && e.to >= 1 && e.to < n) first = e.to;
    sched_record(0, 0, first);
    cur = first;
    concurrent = true;
    new_quantum(first);
    sim_swap(&main_sp, T[first].sp);
    concurrent = false;
    cur = 0;
    g_sh->simtime += gcount;
    if (failed) throw Viol{fcls, fdet};
    if (full_) throw Viol{"exhausted", ""};
    for (int i = 1; i < n; i++) {
        join(T[0].vc, T[i].vc);
        stat_add("tasks_run", 1);
    }
}

// -------------------------------------------------------------------- oracle
static inline Cell *cell_of(ptr a) {
    if (a - ARENA < ARENA_N) return &cells[(a - ARENA) >> 3];
    if (a - glo[0] < ghi[0] - glo[0]) return &gcells[0][(a - glo[0]) >> 3];
    if (a - glo[1] < ghi[1] - glo[1]) return &gcells[1][(a - glo[1]) >> 3];
    return nullptr;
}
static void badaccess(ptr a, size_t n, bool wr, Cell *c) {
    char b[400];
    snprintf(b, sizeof b, "task %d (step %d, %s) %s %zu bytes at %s", cur, T[cur].step, T[cur].op, wr ? "writes" : "reads", n, where(a).c_str());
    fail(c->freed ? "use-after-free" : "out-of-bounds", b);
}
static inline void touch1(Cell *c, ptr a, uint8_t m, size_t n, bool wr, void *pc) {
    if ((c->valid & m) != m) badaccess(a, n, wr, c);
    Task &t = T[cur];
    uint32_t me = t.vc.v[cur];
    if (wr) {
        Rec &w = c->w[cur];
        if (w.clk == me && (w.mask & m) == m && !c->atomic) return;
        for (int u = 0; u < nt; u++) {
            if (u == cur) continue;
            if ((c->w[u].mask & m) && c->w[u].clk > t.vc.v[u]) race(a, n, true, u, true, c->w[u].step, pc);
            if ((c->r[u].mask & m) && c->r[u].clk > t.vc.v[u]) race(a, n, true, u, false, c->r[u].step, pc);
        }
        if (w.clk == me) w.mask |= m;
        else w.mask = m;
        w.clk = me;
        w.step = (uint16_t)t.step;
    } else {
        Rec &r = c->r[cur];
        if (r.clk == me && (r.mask & m) == m && !c->atomic) return;
        for (int u = 0; u < nt; u++) {
            if (u == cur) continue;
            if ((c->w[u].mask & m) && c->w[u].clk > t.vc.v[u]) race(a, n, false, u, true, c->w[u].step, pc);
        }
        if (r.clk == me) r.mask |= m;
        else r.mask = m;
        r.clk = me;
        r.step = (uint16_t)t.step;
    }
    if (c->atomic)
        for (ptr q = a & ~(ptr)7; q < (a & ~(ptr)7) + 8; q++) {
            auto e = atoms.find(q);
            if (e == atoms.end()) continue;
            uint8_t am = (uint8_t)(((1u << e->second.size) - 1) << (q & 7));
            if (!(am & m)) continue;
            for (int u = 0; u < nt; u++) {
                if (u == cur) continue;
                if (e->second.w[u].clk > t.vc.v[u]) race(a, n, wr, u, true, e->second.w[u].step, pc);
                if (wr && e->second.r[u].clk > t.vc.v[u]) race(a, n, wr, u, false, e->second.r[u].step, pc);
            }
        }
}
static inline void access(const void *p, size_t n, bool wr, void *pc) {
    ptr a = (ptr)p;
    if (!(a - ARENA < ARENA_N) && !(a - glo[0] < ghi[0] - glo[0]) && !(a - glo[1] < ghi[1] - glo[1])) return;
    if (a - ARENA < ARENA_N && a >= bump) {
        char b[200];
        snprintf(b, sizeof b, "task %d (%s) %s memory that was never allocated (%s)", cur, T[cur].op, wr ? "writes" : "reads", where(a).c_str());
        fail("out-of-bounds", b);
    }
    event(0);
    size_t o = a & 7;
    Cell *c = cell_of(a);
    if (o + n <= 8) {
        touch1(c, a, (uint8_t)(((1u << n) - 1) << o), n, wr, pc);
        return;
    }
    ptr e = a + n;
    while (a < e) {
        size_t k = std::min<size_t>(8 - (a & 7), e - a);
        touch1(cell_of(a), a, (uint8_t)(((1u << k) - 1) << (a & 7)), k, wr, pc);
        a += k;
    }
}
// ranges: in pieces, so that a copy can be caught half way
static void range(const void *p, size_t n, bool wr, void *pc) {
    const char *c = (const char *)p;
    while (n) {
        size_t k = std::min<size_t>(n, 512);
        access(c, k, wr, pc);
        c += k;
        n -= k;
    }
}

// ------------------------------------------------------------------ atomics
enum { RLX = 0, CONSUME = 1, ACQ = 2, REL = 3, AR = 4, SC = 5 };
static Atom *atom(const volatile void *p, size_t n) {
    ptr a = (ptr)p;
    Cell *c = cell_of(a);
    if (!c) return nullptr;
    auto it = atoms.find(a);
    if (it == atoms.end()) {
        Atom x;
        memset(&x, 0, sizeof x);
        x.size = n;
        it = atoms.emplace(a, x).first;
        c->atomic = 1;
    }
    return &it->second;
}
static Atom *atomic_access(const volatile void *p, size_t n, bool wr, void *pc) {
    ptr a = (ptr)p;
    event(1);
    Cell *c = cell_of(a);
    if (!c) return nullptr;
    uint8_t m = (uint8_t)(((1u << n) - 1) << (a & 7));
    if ((c->valid & m) != m) badaccess(a, n, wr, c);
    Task &t = T[cur];
    for (int u = 0; u < nt; u++) {
        if (u == cur) continue;
        if ((c->w[u].mask & m) && c->w[u].clk > t.vc.v[u]) race(a, n, wr, u, true, c->w[u].step, pc);
        if (wr && (c->r[u].mask & m) && c->r[u].clk > t.vc.v[u]) race(a, n, wr, u, false, c->r[u].step, pc);
    }
    Atom *x = atom(p, n);
    Rec &r = wr ? x->w[cur] : x->r[cur];
    r.clk = t.vc.v[cur];
    r.step = (uint16_t)t.step;
    STAT("atomic_operations");
    return x;
}
static void do_acquire(Atom *x, int mo) {
    if (!x) return;
    Task &t = T[cur];
    if (mo == ACQ || mo == CONSUME || mo == AR || mo == SC) join(t.vc, x->rel);
    else join(t.facq, x->rel);
}
static void do_release(Atom *x, int mo, bool rmw) {
    if (!x) return;
    Task &t = T[cur];
    if (mo == REL || mo == AR || mo == SC) {
        if (rmw) join(x->rel, t.vc);
        else x->rel = t.vc;
        t.vc.v[cur]++;
    } else {
        if (rmw) join(x->rel, t.frel);
        else x->rel = t.frel;
    }
}
static void fence(int mo) {
    event(1);
    Task &t = T[cur];
    if (mo == ACQ || mo == AR || mo == SC || mo == CONSUME) join(t.vc, t.facq);
    if (mo == REL || mo == AR || mo == SC) {
        t.frel = t.vc;
        t.vc.v[cur]++;
    }
}

// -------------------------------------------------------------------- memory
static uint64_t live_, bytes_, seq_, total_;
static uint64_t fill_;
static char custody_[256];
static void bad(const char *m) {
    if (!custody_[0]) snprintf(custody_, sizeof custody_, "%s", m);
    fail("custody", std::string(m) + " in " + T[cur].op);
}
static void *obtain(size_t n, size_t al, int kind, bool zero) {
    event(2);
    total_++;
    if (n > ARENA_N / 2) return nullptr;
    if (al < 16) al = 16;
    ptr p = (bump + 16 + al - 1) & ~(al - 1);
    if (p + n + 64 > ARENA + ARENA_N) {
        // out of simulated memory: abandon the run
        full_ = true;
        if (concurrent) leave();
        throw Viol{"exhausted", ""};
    }
    ptr from = bump & ~7ULL, to = (p + n + 7) & ~7ULL;
    memset(&cells[(from - ARENA) >> 3], 0, ((to - from) >> 3) * sizeof(Cell));
    bump = to;
    for (size_t i = 0; i < n / 8; i++) cells[((p - ARENA) >> 3) + i].valid = 0xff;
    if (n & 7) cells[((p - ARENA) >> 3) + n / 8].valid = (uint8_t)((1u << (n & 7)) - 1);
    unsigned char *q = (unsigned char *)p;
    if (zero) memset(q, 0, n);
    else memset(q, fill_ & 1 ? 0xff : (int)(fill_ >> 1 & 0xff), n);
    blocks[p] = Blk{p, n, kind, cur, T[cur].op, true, ++seq_};
    live_++;
    bytes_ += n;
    return q;
}
static void release(void *v, int kind, void *pc) {
    if (!v) return;
    event(2);
    ptr p = (ptr)v;
    auto it = blocks.find(p);
    if (it == blocks.end()) { bad("a pointer that is no block was freed"); return; }
    Blk &k = it->second;
    if (!k.live) {
        char b[300];
        snprintf(b, sizeof b, "task %d (%s) frees %s again", cur, T[cur].op, where(p).c_str());
        fail("double-free", b);
        return;
    }
    if (k.kind != kind) bad(kind == heap::PLAIN ? "aligned block passed to free()" : "plain block passed to aligned_free()");
    // freeing is a write to every byte, as far as order is concerned
    for (size_t i = 0; i < (k.n + 7) / 8; i++) {
        Cell *c = &cells[((p - ARENA) >> 3) + i];
        size_t m = std::min<size_t>(8, k.n - i * 8);
        touch1(c, p + i * 8, (uint8_t)((1u << m) - 1), m, true, pc);
        c->valid = 0;
        c->freed = 1;
    }
    k.live = false;
    live_--;
    bytes_ -= k.n;
}
static void *h_malloc(size_t n) { return obtain(n, 0, heap::PLAIN, false); }
static void *h_calloc(size_t a, size_t b) { return obtain(a * b, 0, heap::PLAIN, true); }
static void *h_aligned(size_t al, size_t n) { return obtain(n, al, heap::ALIGNED, false); }
static void h_free(void *p) { release(p, heap::PLAIN, __builtin_return_address(0)); }
static void h_afree(void *p) { release(p, heap::ALIGNED, __builtin_return_address(0)); }
static void *h_realloc(void *p, size_t n) {
    if (!p) return obtain(n, 0, heap::PLAIN, false);
    auto it = blocks.find((ptr)p);
    if (it == blocks.end() || !it->second.live) { bad("realloc() of a block that is not live"); return nullptr; }
    if (!n) {
        release(p, heap::PLAIN, __builtin_return_address(0));
        return nullptr;
    }
    size_t old = it->second.n;
    void *q = obtain(n, 0, heap::PLAIN, false);
    if (!q) return nullptr;
    range(p, std::min(old, n), false, __builtin_return_address(0));
    memcpy(q, p, std::min(old, n));
    release(p, heap::PLAIN, __builtin_return_address(0));
    return q;
}
static void on_segv(int sig, siginfo_t *si, void *) {
    ptr a = (ptr)si->si_addr;
    char b[400];
    if (a - ARENA < ARENA_N && a < sealed) {
        snprintf(b, sizeof b, "task %d (step %d, %s) writes to a shared input", cur, T[cur].step, T[cur].op);
        sim_record_bad("input-written", b);
    } else {
        snprintf(b, sizeof b, "signal %d in task %d (step %d, %s)", sig, cur, T[cur].step, T[cur].op);
        sim_record_bad("crash", b);
    }
    _exit(77);
}
void seal_inputs(bool on) {
    const size_t PG = 4096;
    if (on) {
        ptr n = (bump + PG - 1) & ~(ptr)(PG - 1);
        memset(&cells[(((bump + 7) & ~7ULL) - ARENA) >> 3], 0, ((n - bump) >> 3) * sizeof(Cell));
        bump = sealed = n;
        mprotect((void *)ARENA, sealed - ARENA, PROT_READ);
    } else if (sealed) {
        mprotect((void *)ARENA, sealed - ARENA, PROT_READ | PROT_WRITE);
        sealed = 0;
    }
}
uint64_t blocks_live() { return live_; }
static void setup_once() {
    static bool done;
    if (done) return;
    done = true;
    void *m = mmap((void *)ARENA, ARENA_N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != (void *)ARENA) { perror("arena"); _exit(2); }
    cells = (Cell *)mmap(0, ARENA_N / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    roaring_memory_t h;
    h.malloc = h_malloc;
    h.realloc = h_realloc;
    h.calloc = h_calloc;
    h.free = h_free;
    h.aligned_malloc = h_aligned;
    h.aligned_free = h_afree;
    roaring_init_memory_hook(h);
    char *s[2] = {__start_libdata, __start_libbss}, *e[2] = {__stop_libdata, __stop_libbss};
    for (int g = 0; g < 2; g++) {
        glo[g] = (ptr)s[g] & ~7ULL;
        ghi[g] = ((ptr)e[g] + 7) & ~7ULL;
        if (!s[g]) glo[g] = ghi[g] = 1;
        else {
            gsnap[g].assign(s[g], e[g]);
            gcells[g].resize((ghi[g] - glo[g]) / 8);
        }
    }
    static char alt[65536];
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_segv;
    sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
}
void library_as_loaded() {
    char *s[2] = {__start_libdata, __start_libbss};
    for (int g = 0; g < 2; g++)
        if (s[g]) memcpy(s[g], gsnap[g].data(), gsnap[g].size());
}
void begin() {
    setup_once();
    seal_inputs(false);
    if (bump > ARENA + (8u << 20)) {
        madvise((void *)ARENA, bump - ARENA, MADV_DONTNEED);
        madvise(cells, (bump - ARENA) / 8 * sizeof(Cell), MADV_DONTNEED);
    }
    bump = ARENA + 4096;
    blocks.clear();
    atoms.clear();
    live_ = bytes_ = seq_ = total_ = 0;
    custody_[0] = 0;
    library_as_loaded();
    for (int g = 0; g < 2; g++)
        for (auto &c : gcells[g]) {
            memset(&c, 0, sizeof c);
            c.valid = 0xff;
        }
    for (auto &t : T) {
        t.done = true;
        memset(&t.vc, 0, sizeof t.vc);
        memset(&t.facq, 0, sizeof t.facq);
        memset(&t.frel, 0, sizeof t.frel);
        t.op = "setup";
        t.step = 0;
    }
    T[0].vc.v[0] = 1;
    cur = 0;
    nt = 1;
    failed = concurrent = full_ = false;
}
}  // namespace rt

// ------------------------------------------------------------------ heap API
namespace heap {
static int isa_;
void install() {}
void begin_run(uint64_t f) { rt::fill_ = f; }
void set_fill(uint64_t f) { rt::fill_ = f; }
void set_isa(int m) { isa_ = m; }
int isa() { return isa_; }
void on_refuse(void (*)(uint64_t, size_t)) {}
void arm(int32_t) {}
uint64_t disarm() { return 0; }
uint64_t refused() { return 0; }
uint64_t requests() { return 0; }
uint64_t live() { return rt::live_; }
uint64_t live_bytes() { return rt::bytes_; }
uint64_t mark() { return rt::seq_; }
uint64_t live_since(uint64_t m) {
    uint64_t n = 0;
    for (auto &e : rt::blocks) n += e.second.live && e.second.seq > m;
    return n;
}
void free_all() {}
bool owns(const void *p) {
    auto it = rt::blocks.find((uintptr_t)p);
    return it != rt::blocks.end() && it->second.live;
}
const char *custody() { return rt::custody_[0] ? rt::custody_ : nullptr; }
uint64_t total_requests() { return rt::total_; }
}  // namespace heap

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(N)                                                                   \
    void __tsan_read##N(void *p) { rt::access(p, N, false, PC); }               \
    void __tsan_write##N(void *p) { rt::access(p, N, true, PC); }               \
    void __tsan_unaligned_read##N(void *p) { rt::access(p, N, false, PC); }     \
    void __tsan_unaligned_write##N(void *p) { rt::access(p, N, true, PC); }     \
    void __tsan_read_write##N(void *p) { rt::access(p, N, false, PC); rt::access(p, N, true, PC); } \
    void __tsan_unaligned_read_write##N(void *p) { rt::access(p, N, false, PC); rt::access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void *p) { rt::access(p, N, false, PC); }      \
    void __tsan_volatile_write##N(void *p) { rt::access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_read_range(void *p, unsigned long n) { rt::range(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { rt::range(p, n, true, PC); }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    for (size_t i = 0; i < n; i += 512) {
        size_t k = std::min<size_t>(512, n - i);
        rt::range((const char *)s + i, k, false, PC);
        rt::range((char *)d + i, k, true, PC);
        memcpy((char *)d + i, (const char *)s + i, k);
    }
    return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    rt::range(s, n, false, PC);
    rt::range(d, n, true, PC);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    rt::range(d, n, true, PC);
    return memset(d, c, n);
}
// link-time replacements of what the library takes from libc
int simlib_memcmp(const void *a, const void *b, size_t n) {
    rt::range(a, n, false, PC);
    rt::range(b, n, false, PC);
    return memcmp(a, b, n);
}
int simlib_bcmp(const void *a, const void *b, size_t n) { return simlib_memcmp(a, b, n); }
void *simlib_memcpy(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
void *simlib_memmove(void *d, const void *s, size_t n) { return __tsan_memmove(d, s, n); }
void *simlib_memset(void *d, int c, size_t n) { return __tsan_memset(d, c, n); }
static void bypass(const char *w) { rt::bad((std::string("the library called libc ") + w + " directly, bypassing the installed hooks").c_str()); }
void *simlib_malloc(size_t n) { bypass("malloc"); return rt::h_malloc(n); }
void *simlib_calloc(size_t a, size_t b) { bypass("calloc"); return rt::h_calloc(a, b); }
void *simlib_realloc(void *p, size_t n) { bypass("realloc"); return rt::h_realloc(p, n); }
void simlib_free(void *p) { if (p) { bypass("free"); rt::h_free(p); } }
int simlib_posix_memalign(void **p, size_t a, size_t n) { bypass("posix_memalign"); *p = rt::h_aligned(a, n); return *p ? 0 : ENOMEM; }
void *simlib_aligned_alloc(size_t a, size_t n) { bypass("aligned_alloc"); return rt::h_aligned(a, n); }
void *simlib_memalign(size_t a, size_t n) { bypass("memalign"); return rt::h_aligned(a, n); }
char *simlib_strdup(const char *s) { bypass("strdup"); return strdup(s); }

int croaring_hardware_support(void) { return croaring_hardware_support_real() & heap::isa(); }

#define ATOMICS(B, TY)                                                                             \
    TY __tsan_atomic##B##_load(const volatile TY *p, int mo) {                                     \
        rt::Atom *x = rt::atomic_access(p, sizeof(TY), false, PC);                                 \
        rt::do_acquire(x, mo);                                                                     \
        return *p;                                                                                 \
    }                                                                                              \
    void __tsan_atomic##B##_store(volatile TY *p, TY v, int mo) {                                  \
        rt::Atom *x = rt::atomic_access(p, sizeof(TY), true, PC);                                  \
        rt::do_release(x, mo, false);                                                              \
        *p = v;                                                                                    \
    }                                                                                              \
    static TY rmw##B(volatile TY *p, TY v, int mo, int op, void *pc) {                             \
        rt::Atom *x = rt::atomic_access(p, sizeof(TY), true, pc);                                  \
        rt::do_acquire(x, mo);                                                                     \
        rt::do_release(x, mo, true);                                                               \
        TY o = *p;                                                                                 \
        *p = op == 0 ? v : op == 1 ? (TY)(o + v) : op == 2 ? (TY)(o - v) : op == 3 ? (TY)(o & v) : op == 4 ? (TY)(o | v) : op == 5 ? (TY)(o ^ v) : (TY)~(o & v); \
        return o;                                                                                  \
    }                                                                                              \
    TY __tsan_atomic##B##_exchange(volatile TY *p, TY v, int mo) { return rmw##B(p, v, mo, 0, PC); }   \
    TY __tsan_atomic##B##_fetch_add(volatile TY *p, TY v, int mo) { return rmw##B(p, v, mo, 1, PC); }  \
    TY __tsan_atomic##B##_fetch_sub(volatile TY *p, TY v, int mo) { return rmw##B(p, v, mo, 2, PC); }  \
    TY __tsan_atomic##B##_fetch_and(volatile TY *p, TY v, int mo) { return rmw##B(p, v, mo, 3, PC); }  \
    TY __tsan_atomic##B##_fetch_or(volatile TY *p, TY v, int mo) { return rmw##B(p, v, mo, 4, PC); }   \
    TY __tsan_atomic##B##_fetch_xor(volatile TY *p, TY v, int mo) { return rmw##B(p, v, mo, 5, PC); }  \
    TY __tsan_atomic##B##_fetch_nand(volatile TY *p, TY v, int mo) { return rmw##B(p, v, mo, 6, PC); } \
    static int cas##B(volatile TY *p, TY *e, TY v, int mo, int fmo, void *pc) {                    \
        bool ok = *p == *e;                                                                        \
        rt::Atom *x = rt::atomic_access(p, sizeof(TY), ok, pc);                                    \
        ok = *p == *e;                                                                             \
        rt::do_acquire(x, ok ? mo : fmo);                                                          \
        if (ok) { rt::do_release(x, mo, true); *p = v; }                                           \
        else *e = *p;                                                                              \
        return ok;                                                                                 \
    }                                                                                              \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int mo, int f) { return cas##B(p, e, v, mo, f, PC); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int mo, int f) { return cas##B(p, e, v, mo, f, PC); }   \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p, TY e, TY v, int mo, int f) { cas##B(p, &e, v, mo, f, PC); return e; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { rt::fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}
