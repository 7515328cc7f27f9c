// Helpers shared by the 32-bit, 64-bit and C++ worlds.
#pragma once
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "common.h"
#include "heap.h"
#include "model.h"

// oracle mask (chosen per property profile)
enum {
    O_RES = 1,       // results of queries
    O_CONTENT = 2,   // contents against the model
    O_VALID = 4,     // internal validation + independent reading of the stored form
    O_MEM = 8,       // custody of memory, leaks at the end
    O_IMG = 16,      // images: exact size, independent decoding
    O_LOG = 32,      // C07: log every result and image for comparison
    O_SPACE = 64,    // C17: sizes of containers and images around compression and shrinking
};
struct World {
    uint32_t oracle = 0;
    uint8_t junk = 0xA5;  // what an output buffer holds before the library fills it
    bool cheap = false;  // prefer observations that touch little memory
    const Plan *plan = nullptr;
    const Step *st = nullptr;
    std::vector<uint64_t> trace;  // per-step log for C07
    void res(uint64_t v) {
        lg(v);
        if (oracle & O_LOG) trace.push_back(v);
    }
    void resb(const void *p, size_t n) {
        uint64_t h = hbytes(n, p, n);
        res(h);
    }
    bool want(uint32_t o) const { return oracle & o; }
};

#define CHECK_RES(w, got, exp)                                                                   \
    do {                                                                                         \
        auto _g = (got);                                                                         \
        (w).res((uint64_t)_g);                                                                   \
        if ((w).want(O_RES) && !(_g == (exp)))                                                   \
            viol(("result:" + (w).st->op).c_str(), "%s gave %lld, the set says %lld", #got,      \
                 (long long)_g, (long long)(exp));                                               \
    } while (0)

// -------------------------------------------------------------- value shapes
inline void pattern(Rng &r, unsigned kind, Chunk &k) {
    auto setv = [&](unsigned v) { k.w[(v & 0xffff) >> 6] |= 1ULL << (v & 63); };
    auto some = [&](unsigned n) {
        for (unsigned i = 0; i < n; i++) setv(r.below(65536));
    };
    auto exactly = [&](unsigned n) {
        unsigned c = 0;
        while (c < n) {
            unsigned v = r.below(65536);
            if (!k.get(v)) setv(v), c++;
        }
    };
    auto range = [&](unsigned lo, unsigned hi) {
        if (hi > 65535) hi = 65535;
        for (unsigned i = lo >> 6; i <= hi >> 6; i++) {
            uint64_t m = ~0ULL;
            if (i == lo >> 6) m &= ~0ULL << (lo & 63);
            if (i == hi >> 6) m &= ~0ULL >> (63 - (hi & 63));
            k.w[i] |= m;
        }
    };
    static const unsigned edge[] = {0, 1, 63, 64, 65, 127, 128, 4095, 4096, 32767, 32768, 65471, 65472, 65534, 65535};
    switch (kind % 24) {
        case 0: some(1 + r.below(8)); break;
        case 1: some(20 + r.below(1000)); break;
        case 2: exactly(4092 + r.below(9)); break;
        case 3: some(5000 + r.below(30000)); break;
        case 4: {
            range(0, 65535);
            unsigned n = 1 + r.below(40);
            for (unsigned i = 0; i < n; i++) {
                unsigned v = r.chance(1, 4) ? edge[r.below(15)] : r.below(65536);
                k.w[v >> 6] &= ~(1ULL << (v & 63));
            }
            break;
        }
        case 5: {
            unsigned n = 1 + r.below(60), len = 1 + r.below(900);
            for (unsigned i = 0; i < n; i++) {
                unsigned s = r.below(65536);
                range(s, s + r.below(len));
            }
            break;
        }
        case 6: {
            unsigned st = 2 + r.below(3), lo = r.below(64), hi = r.chance(1, 2) ? 65535 : r.below(65536);
            for (unsigned v = lo; v <= hi; v += st) setv(v);
            break;
        }
        case 7: range(0, 65535); break;
        case 8: {
            unsigned a = r.below(65536), b = r.below(65536);
            if (a > b) std::swap(a, b);
            range(a, b);
            break;
        }
        case 9: {  // about the number of runs where run and bitset containers weigh the same
            unsigned n = 2040 + r.below(16), gap = 65536 / n;
            for (unsigned i = 0; i < n; i++) range(i * gap, i * gap + 1 + r.below(gap - 3));
            break;
        }
        case 10: {
            unsigned n = 1 + r.below(8);
            for (unsigned i = 0; i < n; i++) setv(edge[r.below(15)]);
            break;
        }
        case 11: {  // complement near the array limit
            unsigned c = 0, n = 4092 + r.below(9);
            range(0, 65535);
            while (c < n) {
                unsigned v = r.below(65536);
                if (k.get(v)) k.w[v >> 6] &= ~(1ULL << (v & 63)), c++;
            }
            break;
        }
        case 12: {
            unsigned st = 5 + r.below(500);
            for (unsigned v = r.below(st); v < 65536; v += st) setv(v);
            break;
        }
        case 13: {
            unsigned n = 4093 + r.below(7), s = r.below(65536 - n);
            range(s, s + n - 1);
            break;
        }
        case 14: {  // clustered around word boundaries
            unsigned n = 1 + r.below(30);
            for (unsigned i = 0; i < n; i++) {
                unsigned w = r.below(1024) * 64;
                range(w + (r.chance(1, 2) ? 0 : 60), w + 63 + (r.chance(1, 2) ? r.below(5) : 0));
            }
            break;
        }
        case 15: {  // array near the run/array cost limit
            unsigned n = 3 + r.below(40);
            for (unsigned i = 0; i < n; i++) {
                unsigned s = r.below(65000);
                range(s, s + r.below(4));
            }
            break;
        }
        case 16: {  // tail or head of the chunk
            unsigned n = 1 + r.below(5000);
            if (r.chance(1, 2)) range(65536 - n, 65535);
            else range(0, n - 1);
            break;
        }
        case 17: some(40 + r.below(40)); break;
        // the rest draw on a few fixed sets, so that two fills overlap, interleave or touch
        case 18: {  // a crowded window
            static const unsigned at[] = {0, 1000, 32760, 61440};
            unsigned lo = at[r.below(4)], n = 256u << r.below(5), d = 1 + r.below(3);
            for (unsigned v = lo; v < lo + n && v < 65536; v++)
                if (r.below(4) < d) setv(v);
            break;
        }
        case 19: {
            unsigned d = 1 + r.below(15);
            for (unsigned v = 0; v < 65536; v++)
                if (r.below(16) < d) setv(v);
            break;
        }
        case 20: case 21: {  // part of a fixed set, plus a few others
            unsigned which = r.below(3), keep = kind % 24 == 20 ? 30 : 10 + r.below(20);
            Rng b(1000 + which);
            unsigned n = which == 0 ? 300 : which == 1 ? 4000 : 9000;
            for (unsigned i = 0; i < n; i++) {
                unsigned v = b.below(65536);
                if (r.below(32) < keep) setv(v);
            }
            some(r.below(4));
            break;
        }
        default: {  // fixed runs or the gaps between them, edges moved by one
            unsigned which = r.below(3), n = which == 0 ? 8 : which == 1 ? 60 : 900, gap = 65536 / n, inv = r.below(2);
            Rng b(2000 + which);
            unsigned at = b.below(gap);
            while (at < 65536) {
                unsigned len = 1 + b.below(gap), next = at + len;
                unsigned l = at, h = next - 1;
                if (r.chance(1, 6) && l) l--;
                if (r.chance(1, 6)) l++;
                if (r.chance(1, 6) && h) h--;
                if (r.chance(1, 6)) h++;
                if (inv == 0 && l <= h && l < 65536 && !r.chance(1, 12)) range(l, h);
                inv ^= 1;
                at = next;
            }
        }
    }
    k.recount();
}
inline unsigned edge_low(uint64_t r) {
    static const unsigned e[] = {0, 1, 2, 31, 32, 62, 63, 64, 65, 127, 128, 255, 256, 4094, 4095, 4096, 4097, 32767, 32768, 65470, 65471, 65472, 65533, 65534, 65535};
    return e[r % (sizeof e / sizeof *e)];
}

inline std::vector<uint64_t> keys32(int mode, Rng &r) {
    std::vector<uint64_t> k;
    switch (mode) {
        case 0: k = {0}; break;
        case 1: k = {0, 1, 2}; break;
        case 2: k = {0, 1, 2, 3, 5, 8}; break;
        case 3: k = {65533, 65534, 65535}; break;
        case 4: k = {0, 32767, 32768, 65535}; break;
        case 5: {
            uint64_t s = r.below(65000), n = 10 + r.below(40);
            for (uint64_t i = 0; i < n; i++) k.push_back(s + i);
            break;
        }
        case 6: {
            uint64_t n = 3 + r.below(60);
            for (uint64_t i = 0; i < n; i++) k.push_back(r.below(65536));
            break;
        }
        default: {
            uint64_t n = 2 + r.below(4);
            for (uint64_t i = 0; i < n; i++) k.push_back(r.below(65536));
        }
    }
    std::sort(k.begin(), k.end());
    k.erase(std::unique(k.begin(), k.end()), k.end());
    return k;
}
inline std::vector<uint64_t> keys64(int mode, Rng &r) {
    std::vector<uint64_t> k;
    const uint64_t M = (1ULL << 48) - 1;
    switch (mode) {
        case 0: k = {0, 1, 2}; break;
        case 1: {  // siblings under one node: 4, 16, 48 and 256 wide
            uint64_t base = (r.next() & M) & ~0xffULL, sh = 8 * r.below(6);
            static const int sz[] = {3, 5, 15, 17, 18, 40, 47, 49, 50, 120, 256};
            int n = sz[r.below(11)];
            base &= ~(0xffULL << sh);
            for (int i = 0; i < n; i++) k.push_back((base | (n == 256 ? (uint64_t)i : r.below(256)) << sh) & M);
            break;
        }
        case 2: {  // diverging at every byte
            uint64_t base = r.next() & M;
            k.push_back(base);
            for (int i = 0; i < 6; i++)
                for (int j = 0; j < 2; j++) k.push_back((base ^ (1 + r.below(255)) << (8 * i)) & M);
            break;
        }
        case 3: k = {0, 1, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 0xffffffff, 0x100000000ULL, M - 1, M}; break;
        case 4: {
            uint64_t n = 5 + r.below(80);
            for (uint64_t i = 0; i < n; i++) k.push_back(r.next() & M);
            break;
        }
        case 5: {  // two levels, wide
            uint64_t base = r.next() & M & ~0xffffULL;
            uint64_t n = 20 + r.below(120);
            for (uint64_t i = 0; i < n; i++) k.push_back(base | r.below(6) << 8 | r.below(60));
            break;
        }
        case 6: k = {M - 2, M - 1, M}; break;
        case 7: {  // around 2^32 (32-bit map boundaries)
            k = {0xfffe, 0xffff, 0x10000, 0x10001, 0x1fffe, 0x1ffff, 0x20000};
            break;
        }
        default: {
            uint64_t n = 2 + r.below(4);
            for (uint64_t i = 0; i < n; i++) k.push_back(r.next() & M);
        }
    }
    std::sort(k.begin(), k.end());
    k.erase(std::unique(k.begin(), k.end()), k.end());
    return k;
}

// Compares an ordered array with the model
template <class T>
void check_array(const char *cls, const char *what, const Set &m, const T *v, uint64_t n, uint64_t high = 0) {
    uint64_t i = 0;
    if (m.card() != n) viol(cls, "%s: %llu values, the set has %llu", what, (unsigned long long)n, (unsigned long long)m.card());
    m.each([&](uint64_t x) {
        if ((uint64_t)v[i] != (x | high))
            viol(cls, "%s: value #%llu is %llu, the set says %llu", what, (unsigned long long)i, (unsigned long long)v[i], (unsigned long long)(x | high));
        i++;
        return true;
    });
}

// ------------------------------------------------------ independent codecs
// Published portable format (32-bit). Returns false if the bytes are not a valid image of
// exactly n bytes. Also checks the structural rules of C15.
bool decode_portable32(const uint8_t *p, size_t n, Set &out, std::string &why, size_t *used = nullptr, uint64_t high = 0, bool strict_types = true);
// Writes one; the container choice is drawn from r where several are legal
std::vector<uint8_t> encode_portable32(const Set &s, Rng &r);
// Stored size and type (1 bitset, 2 array, 3 run) of each container of a valid image
struct Stored { uint64_t key; int type; uint32_t bytes; };
std::vector<Stored> stored_sizes32(const uint8_t *p, size_t n, size_t *used = nullptr, uint64_t high = 0);
std::vector<Stored> stored_sizes64(const uint8_t *p, size_t n);
// C17: what compression may and must do to the stored form
void space_optimized(const std::vector<Stored> &before, const std::vector<Stored> &after, const Set &m);
void space_unrun(const std::vector<Stored> &after, const Set &m);
bool decode_portable64(const uint8_t *p, size_t n, Set &out, std::string &why);
std::vector<uint8_t> encode_portable64(const Set &s, Rng &r);
bool decode_frozen32(const uint8_t *p, size_t n, Set &out, std::string &why);

// What f prints to standard output; with full, the output goes to a full disk instead
std::string captured(const std::function<void()> &f, bool full);
std::vector<uint64_t> numbers_in(const std::string &t);

// Places that earlier modifications were about: later steps come back to them
struct Trail {
    std::vector<std::pair<uint64_t, uint64_t>> now, old;
    bool modified = false;
    void use(uint64_t lo, uint64_t hi) {
        if (now.size() < 6) now.push_back({lo, hi});
    }
    void next_step() {
        if (modified)
            for (auto &p : now) old.push_back(p);
        if (old.size() > 24) old.erase(old.begin(), old.end() - 24);
        now.clear();
        modified = false;
    }
    bool pick(uint64_t r, uint64_t &lo, uint64_t &hi) const {
        if (old.empty()) return false;
        const auto &p = old[old.size() - 1 - (r % 7 < 4 ? 0 : r / 7 % old.size())];
        lo = p.first;
        hi = p.second;
        return true;
    }
};

// a run of m, a part of it, the gap behind it, or either of these moved by one
inline bool run_part(const Set &m, uint64_t r, uint64_t max, uint64_t &lo, uint64_t &hi) {
    uint64_t c = m.card(), v, l, h, x = Rng::mix(r);
    if (!c || c > 1ULL << 33 || !m.select(x % c, &v)) return false;
    if (v > max) return false;
    m.runAround(v, l, h);
    if (h > max) h = max;
    x = Rng::mix(x + 1);
    if (x % 6 == 0) {
        if (h >= max) return false;
        l = h + 1;
        h = m.nextGE(l, &v) && v <= max ? v - 1 : max;
        if (h < l) h = l;
    }
    switch (x >> 8 & 7) {
        case 0: l += (x >> 16) % (h - l + 1); break;
        case 1: h -= (x >> 16) % (h - l + 1); break;
        case 2: case 3: l += (x >> 16) % (h - l + 1); h -= (x >> 40) % (h - l + 1); break;
        case 4: if (h < max) h++; break;
        case 5: if (l) l--; break;
    }
    lo = l;
    hi = h;
    return true;
}

// Results that land exactly on the sizes where a container changes its form are
// rare by chance. These two look for a change, or a range, that gets one there.
inline int steer_target(Rng &r) {
    static const int t[] = {4096, 4096, 4096, 4096, 4097, 4097, 4095, 4095, 4094, 4098, 65536, 65535, 0, 1, 2};
    return t[r.below(r.chance(2, 3) ? 8 : 15)];
}
// values of chunk `key` that y has to gain and lose for op(x, y) to have exactly
// the target's number of values in that chunk
inline bool steer(const Set &x, const Set &y, int op, Rng &r, std::vector<uint64_t> &gain, std::vector<uint64_t> &lose) {
    const Set &from = !y.c.empty() && (x.c.empty() || r.chance(1, 3)) ? y : x;
    if (from.c.empty()) return false;
    auto it = from.c.begin();
    std::advance(it, (long)r.below(from.c.size()));
    uint64_t key = it->first;
    static const Chunk none;
    auto xi = x.c.find(key), yi = y.c.find(key);
    const Chunk &X = xi == x.c.end() ? none : *xi->second, &Y = yi == y.c.end() ? none : *yi->second;
    for (int attempt = 0; attempt < 3; attempt++) {
        int target = steer_target(r), n = 0;
        uint64_t R[1024], C[1024];
        for (int i = 0; i < 1024; i++) {
            uint64_t p = X.w[i], q = Y.w[i];
            R[i] = op == 0 ? p & q : op == 1 ? p | q : op == 2 ? p ^ q : p & ~q;
            C[i] = op == 0 || op == 3 ? p : op == 1 ? ~p : ~0ULL;
            n += __builtin_popcountll(R[i]);
        }
        int need = n > target ? n - target : target - n, have = 0;
        if (!need) continue;
        for (int i = 0; i < 1024; i++) {
            C[i] &= n > target ? R[i] : ~R[i];
            have += __builtin_popcountll(C[i]);
        }
        if (have < need || need > 30000) continue;
        // one piece from some place on, or spread over all there are
        int skip = have - need ? (int)r.below((uint64_t)(have - need) + 1) : 0;
        switch (r.below(4)) { case 0: skip = 0; break; case 1: skip = have - need; break; }
        bool spread = r.chance(1, 4);
        int seen = 0, taken = 0;
        for (int i = 0; i < 1024 && taken < need; i++)
            for (uint64_t m = C[i]; m && taken < need; m &= m - 1, seen++) {
                int b = __builtin_ctzll(m);
                if (spread ? (long)(seen + 1) * need / have == (long)seen * need / have : seen < skip) continue;
                taken++;
                (Y.w[i] >> b & 1 ? lose : gain).push_back(key << 16 | (unsigned)(i * 64 + b));
            }
        return true;
    }
    return false;
}
// a range whose addition (0), removal (1) or flip (2) leaves a chunk with exactly
// the target's number of values
inline bool steer_range(const Set &m, int op, Rng &r, uint64_t max, uint64_t &lo, uint64_t &hi) {
    if (m.c.empty()) return false;
    auto it = m.c.begin();
    std::advance(it, (long)r.below(m.c.size()));
    const Chunk &c = *it->second;
    uint64_t key = it->first;
    for (int attempt = 0; attempt < 6; attempt++) {
        int target = steer_target(r);
        if (target == c.n) continue;
        bool down = r.chance(1, 3);
        int at = r.chance(1, 3) ? (down ? 65535 : 0) : (int)r.below(65536), n = c.n, i = at;
        for (; i >= 0 && i < 65536; i += down ? -1 : 1) {
            bool on = c.get((unsigned)i);
            if (op == 0) n += !on;
            else if (op == 1) n -= on;
            else n += on ? -1 : 1;
            if (n == target) break;
        }
        if (n != target) continue;
        lo = key << 16 | (unsigned)std::min(i, at);
        hi = key << 16 | (unsigned)std::max(i, at);
        if (!(lo & 0xffff) && lo && r.chance(1, 2)) lo -= 1 + r.below(70000) % lo;
        if ((hi & 0xffff) == 0xffff && hi < max && r.chance(1, 2)) hi += 1 + r.below(70000) % (max - hi);
        return true;
    }
    return false;
}

// C20: runs the same cycle of changes over and over; the heap in use has to settle
template <class F>
void churn_settles(F cycle) {
    uint64_t at[6];
    unsigned n = 0;
    int k = 0;
    for (unsigned goal = 12; k < 5; goal *= 2, k++) {
        while (n < goal) cycle(), n++;
        at[k] = heap::live_bytes();
        if (k && at[k] <= at[k - 1]) {
            STAT("churn_cycles_x12");
            return;
        }
    }
    viol("growth", "the same cycle of changes repeated 12, 24, 48, 96, 192 times leaves %llu, %llu, %llu, %llu, %llu bytes in use",
         (unsigned long long)at[0], (unsigned long long)at[1], (unsigned long long)at[2], (unsigned long long)at[3], (unsigned long long)at[4]);
}

// byte buffer with exact bounds (ASan sees any overrun)
struct Buf {
    uint8_t *p = nullptr;
    size_t n = 0;
    uint64_t h = 0;
    void *base = nullptr;
    Buf(size_t size, size_t align, size_t shift = 0) : n(size) {
        if (align <= 1) {
            base = malloc(size + shift ? size + shift : 1);
        } else if (posix_memalign(&base, align, size + shift ? size + shift : 1)) {
            abort();
        }
        p = (uint8_t *)base + shift;
        if (!size) {  // a zero-length range: point at its end
            p = (uint8_t *)base + (size + shift ? size + shift : 1);
        }
    }
    Buf(const Buf &) = delete;
    ~Buf() { free(base); }
    void seal() { h = hbytes(0, p, n); }
    bool intact() const { return h == hbytes(0, p, n); }
};
typedef std::shared_ptr<Buf> BufP;
