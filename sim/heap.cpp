#include "heap.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "common.h"
#include <roaring/memory.h>
extern "C" {
int croaring_hardware_support_real(void);
}

namespace heap {
struct Ent {
    uintptr_t p;
    size_t n;
    uint64_t seq;
    int kind;
};
// open addressing table keyed by address
static Ent *tab;
static size_t cap, used, tomb;
static uint64_t seq_, live_, bytes_, total_;
static uint64_t fill_;
static int32_t fault_;
static uint64_t req_, refused_;
static char bad_[256];
static int isa_ = 3;
static uint64_t in_lib_alloc;

static size_t hs(uintptr_t p) { return (size_t)(((uint64_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 20); }
static void grow();
static void put(void *p, size_t n, int kind) {
    if ((used + tomb + 1) * 2 > cap) grow();
    size_t i = hs((uintptr_t)p) & (cap - 1);
    while (tab[i].p > 1) i = (i + 1) & (cap - 1);
    if (tab[i].p == 1) tomb--;
    tab[i] = Ent{(uintptr_t)p, n, ++seq_, kind};
    used++;
    live_++;
    bytes_ += n;
}
static void grow() {
    Ent *old = tab;
    size_t oc = cap;
    cap = cap ? (used * 4 > cap ? cap * 2 : cap) : 4096;
    tab = (Ent *)calloc(cap, sizeof(Ent));
    tomb = 0;
    for (size_t i = 0; i < oc; i++)
        if (old[i].p > 1) {
            size_t j = hs(old[i].p) & (cap - 1);
            while (tab[j].p) j = (j + 1) & (cap - 1);
            tab[j] = old[i];
        }
    free(old);
}
static Ent *get(const void *p) {
    if (!cap) return nullptr;
    size_t i = hs((uintptr_t)p) & (cap - 1);
    while (tab[i].p) {
        if (tab[i].p == (uintptr_t)p) return &tab[i];
        i = (i + 1) & (cap - 1);
    }
    return nullptr;
}
static void del(Ent *e) {
    e->p = 1;
    used--;
    tomb++;
    live_--;
    bytes_ -= e->n;
}
static void bad(const char *m) {
    if (!bad_[0]) snprintf(bad_, sizeof bad_, "%s", m);
}
static void (*on_refuse_)(uint64_t, size_t) = nullptr;
void on_refuse(void (*f)(uint64_t, size_t)) { on_refuse_ = f; }
static bool refuse(size_t size) {
    req_++;
    total_++;
    g_sh->simtime++;
    if (!fault_) return false;
    bool r = fault_ > 0 ? req_ == (uint64_t)fault_ : req_ >= (uint64_t)-fault_;
    if (r && !refused_++ && on_refuse_) on_refuse_(req_, size);
    return r;
}
static void fill(void *p, size_t n, uint64_t salt) {
    // contents of recycled memory: decided by the simulator
    uint64_t mode = fill_ & 7;
    unsigned char *c = (unsigned char *)p;
    if (mode == 0) memset(c, 0, n);
    else if (mode == 1) memset(c, 0xff, n);
    else {
        uint64_t x = Rng::mix(fill_ ^ salt * 31);
        size_t i = 0;
        if (n > 512) {  // repeat a 64-byte pattern: cheap
            uint64_t w[8];
            for (auto &y : w) y = Rng::mix(x++);
            for (; i + 64 <= n; i += 64) memcpy(c + i, w, 64);
        }
        for (; i + 8 <= n; i += 8) {
            uint64_t y = x;
            x = Rng::mix(x);
            memcpy(c + i, &y, 8);
        }
        for (; i < n; i++) c[i] = (unsigned char)(x >> (i & 7));
    }
}
static void *obtain(size_t n, size_t al, int kind, bool zero) {
    if (refuse(n)) return nullptr;
    // absurd sizes: as a real allocator, refuse
    if (n > (size_t)3 << 30) { refused_++; return nullptr; }
    void *p = nullptr;
    if (kind == ALIGNED) {
        if (posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n)) return nullptr;
    } else {
        p = malloc(n);
    }
    if (!p) return nullptr;
    if (zero) memset(p, 0, n);
    else fill(p, n, total_);
    put(p, n, kind);
    return p;
}
static void h_free_kind(void *p, int kind) {
    if (!p) return;
    Ent *e = get(p);
    if (!e) {
        bad(kind == PLAIN ? "free() of a block that is not live (double free or foreign block)"
                          : "aligned_free() of a block that is not live (double free or foreign block)");
        return;
    }
    if (e->kind != kind) bad(kind == PLAIN ? "aligned block passed to free()" : "plain block passed to aligned_free()");
    del(e);
    free(p);
}
static void *h_malloc(size_t n) { return obtain(n, 0, PLAIN, false); }
static void *h_calloc(size_t a, size_t b) { return obtain(a * b, 0, PLAIN, true); }
static void *h_aligned(size_t al, size_t n) { return obtain(n, al, ALIGNED, false); }
static void h_free(void *p) { h_free_kind(p, PLAIN); }
static void h_aligned_free(void *p) { h_free_kind(p, ALIGNED); }
static void *h_realloc(void *p, size_t n) {
    if (!p) return obtain(n, 0, PLAIN, false);
    Ent *e = get(p);
    if (!e) {
        bad("realloc() of a block that is not live");
        return nullptr;
    }
    if (e->kind != PLAIN) bad("aligned block passed to realloc()");
    if (n == 0) {  // what glibc does
        del(e);
        free(p);
        return nullptr;
    }
    size_t old = e->n;
    void *q = obtain(n, 0, PLAIN, false);  // always moves
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    e = get(p);
    del(e);
    free(p);
    return q;
}
extern "C" {
extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
extern char __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
}
static char *vars_[2];
static size_t vlen_[2];
void install() {
    static bool done;
    if (done) return;
    done = true;
    roaring_memory_t m;
    m.malloc = h_malloc;
    m.realloc = h_realloc;
    m.calloc = h_calloc;
    m.free = h_free;
    m.aligned_malloc = h_aligned;
    m.aligned_free = h_aligned_free;
    roaring_init_memory_hook(m);
    // what the library keeps in variables of its own, as a new process would find it
    char *a[2] = {__start_libdata, __start_libbss}, *e[2] = {__stop_libdata, __stop_libbss};
    for (int g = 0; g < 2; g++) {
        vlen_[g] = a[g] ? e[g] - a[g] : 0;
        vars_[g] = vlen_[g] ? (char *)malloc(vlen_[g]) : nullptr;
        for (size_t i = 0; i < vlen_[g]; i++) ((volatile char *)vars_[g])[i] = ((volatile char *)a[g])[i];
    }
}
static void library_as_loaded() {
    char *a[2] = {__start_libdata, __start_libbss};
    for (int g = 0; g < 2; g++)
        for (size_t i = 0; i < vlen_[g]; i++) ((volatile char *)a[g])[i] = ((volatile char *)vars_[g])[i];
}
void begin_run(uint64_t fs) {
    library_as_loaded();
    fill_ = fs;
    fault_ = 0;
    req_ = refused_ = 0;
    total_ = 0;
    bad_[0] = 0;
}
void set_fill(uint64_t fs) { fill_ = fs; }
void set_isa(int m) { isa_ = m; }
int isa() { return isa_; }
void arm(int32_t f) {
    fault_ = f;
    req_ = refused_ = 0;
}
uint64_t disarm() {
    fault_ = 0;
    uint64_t r = refused_;
    return r;
}
uint64_t refused() { return refused_; }
uint64_t requests() { return req_; }
uint64_t live() { return live_; }
uint64_t live_bytes() { return bytes_; }
uint64_t mark() { return seq_; }
uint64_t live_since(uint64_t m) {
    uint64_t n = 0;
    for (size_t i = 0; i < cap; i++)
        if (tab[i].p > 1 && tab[i].seq > m) n++;
    return n;
}
void free_all() {
    for (size_t i = 0; i < cap; i++)
        if (tab[i].p > 1) {
            free((void *)tab[i].p);
            tab[i].p = 0;
        } else {
            tab[i].p = 0;
        }
    used = tomb = 0;
    live_ = bytes_ = 0;
    if (cap > 65536) {  // a run with many blocks must not make every later run sweep a long table
        free(tab);
        cap = 4096;
        tab = (Ent *)calloc(cap, sizeof(Ent));
    }
}
bool owns(const void *p) { return get(p) != nullptr; }
const char *custody() { return bad_[0] ? bad_ : nullptr; }
uint64_t total_requests() { return total_; }
// allocator calls of the library that did not go through the hooks
static void bypass(const char *what) {
    char b[128];
    snprintf(b, sizeof b, "the library called libc %s() directly, bypassing the installed hooks", what);
    bad(b);
}
}  // namespace heap

// Link-time replacements inside the library's objects (objcopy --redefine-sym).
// Before the hooks are installed nothing of the library runs, so any call is a bypass,
// except the library's own default hook table, which install() has replaced.
extern "C" {
void *simlib_malloc(size_t n) { heap::bypass("malloc"); return malloc(n); }
void *simlib_calloc(size_t a, size_t b) { heap::bypass("calloc"); return calloc(a, b); }
void *simlib_realloc(void *p, size_t n) {
    heap::bypass("realloc");
    return heap::owns(p) ? heap::h_realloc(p, n) : realloc(p, n);
}
void simlib_free(void *p) {
    if (!p) return;  // free(NULL) releases nothing
    heap::bypass("free");
    if (heap::owns(p)) heap::h_free(p);
    else free(p);
}
int simlib_posix_memalign(void **p, size_t a, size_t n) { heap::bypass("posix_memalign"); return posix_memalign(p, a, n); }
void *simlib_aligned_alloc(size_t a, size_t n) { heap::bypass("aligned_alloc"); return aligned_alloc(a, n); }
void *simlib_memalign(size_t a, size_t n) { heap::bypass("memalign"); void *p = 0; return posix_memalign(&p, a, n) ? 0 : p; }
char *simlib_strdup(const char *s) { heap::bypass("strdup"); return strdup(s); }

// The CPU the library believes it runs on
int croaring_hardware_support(void) { return croaring_hardware_support_real() & heap::isa(); }
}
