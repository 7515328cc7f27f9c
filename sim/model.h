// Reference model: a set of integers kept as a map of 64Ki-bit chunks.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <vector>

struct Chunk {
    uint64_t w[1024];
    int n = 0;
    Chunk() { memset(w, 0, sizeof w); }
    void recount() {
        n = 0;
        for (int i = 0; i < 1024; i++) n += __builtin_popcountll(w[i]);
    }
    bool get(unsigned i) const { return w[i >> 6] >> (i & 63) & 1; }
    void setRange(unsigned lo, unsigned hi, bool on) {  // inclusive
        for (unsigned i = lo >> 6; i <= hi >> 6; i++) {
            uint64_t m = ~0ULL;
            if (i == lo >> 6) m &= ~0ULL << (lo & 63);
            if (i == hi >> 6) m &= ~0ULL >> (63 - (hi & 63));
            if (on) w[i] |= m; else w[i] &= ~m;
        }
        recount();
    }
    void flipRange(unsigned lo, unsigned hi) {
        for (unsigned i = lo >> 6; i <= hi >> 6; i++) {
            uint64_t m = ~0ULL;
            if (i == lo >> 6) m &= ~0ULL << (lo & 63);
            if (i == hi >> 6) m &= ~0ULL >> (63 - (hi & 63));
            w[i] ^= m;
        }
        recount();
    }
    int countRange(unsigned lo, unsigned hi) const {
        int c = 0;
        for (unsigned i = lo >> 6; i <= hi >> 6; i++) {
            uint64_t m = ~0ULL;
            if (i == lo >> 6) m &= ~0ULL << (lo & 63);
            if (i == hi >> 6) m &= ~0ULL >> (63 - (hi & 63));
            c += __builtin_popcountll(w[i] & m);
        }
        return c;
    }
    int nextGE(unsigned lo) const {  // -1 if none
        for (unsigned i = lo >> 6; i < 1024; i++) {
            uint64_t x = w[i];
            if (i == lo >> 6) x &= ~0ULL << (lo & 63);
            if (x) return (int)(i * 64 + __builtin_ctzll(x));
        }
        return -1;
    }
    unsigned nextGap(unsigned lo) const {  // 65536 if none
        for (unsigned i = lo >> 6; i < 1024; i++) {
            uint64_t x = ~w[i];
            if (i == lo >> 6) x &= ~0ULL << (lo & 63);
            if (x) return i * 64 + (unsigned)__builtin_ctzll(x);
        }
        return 65536;
    }
    int prevGap(unsigned hi) const {
        for (int i = (int)(hi >> 6); i >= 0; i--) {
            uint64_t x = ~w[i];
            if (i == (int)(hi >> 6)) x &= ~0ULL >> (63 - (hi & 63));
            if (x) return i * 64 + 63 - __builtin_clzll(x);
        }
        return -1;
    }
    int prevLE(unsigned hi) const {
        for (int i = (int)(hi >> 6); i >= 0; i--) {
            uint64_t x = w[i];
            if (i == (int)(hi >> 6)) x &= ~0ULL >> (63 - (hi & 63));
            if (x) return i * 64 + 63 - __builtin_clzll(x);
        }
        return -1;
    }
};
typedef std::shared_ptr<const Chunk> ChunkP;
ChunkP full_chunk();

struct Set {
    std::map<uint64_t, ChunkP> c;

    template <class F>
    void edit(uint64_t key, F f) {
        auto it = c.find(key);
        auto n = it == c.end() ? std::make_shared<Chunk>()
                               : std::make_shared<Chunk>(*it->second);
        f(*n);
        if (n->n == 0) {
            if (it != c.end()) c.erase(it);
        } else if (it != c.end()) {
            it->second = n;
        } else {
            c.emplace(key, n);
        }
    }
    // moves one member, near an edge of its chunk more often than not, to a
    // free place of the same chunk; false when there is nothing to move
    bool nudge(uint64_t seed, uint64_t &from, uint64_t &to) {
        if (c.empty()) return false;
        auto it = c.begin();
        std::advance(it, (long)(seed % c.size()));
        seed /= 7919;
        uint64_t key = it->first;
        const Chunk &k = *it->second;
        if (k.n == 65536) return false;
        int v;
        switch (seed % 4) {
            case 0: case 1: v = k.prevLE(0xffff); break;
            case 2: v = k.nextGE(0); break;
            default: v = k.nextGE((unsigned)(seed / 4 % 65536)); if (v < 0) v = k.prevLE(0xffff);
        }
        int w = v;
        bool up = seed / 16 % 2;
        if (seed / 32 % 8 == 0) w = (int)(seed / 256 % 65536);
        while (k.get((unsigned)w)) w = up ? (w + 1) & 0xffff : (w - 1) & 0xffff;
        from = key << 16 | (unsigned)v;
        to = key << 16 | (unsigned)w;
        remove(from);
        add(to);
        return true;
    }
    bool contains(uint64_t v) const {
        auto it = c.find(v >> 16);
        return it != c.end() && it->second->get(v & 0xffff);
    }
    bool add(uint64_t v) {
        if (contains(v)) return false;
        edit(v >> 16, [&](Chunk &k) { k.w[(v & 0xffff) >> 6] |= 1ULL << (v & 63); k.n++; });
        return true;
    }
    bool remove(uint64_t v) {
        if (!contains(v)) return false;
        edit(v >> 16, [&](Chunk &k) { k.w[(v & 0xffff) >> 6] &= ~(1ULL << (v & 63)); k.n--; });
        return true;
    }
    void setMany(const uint64_t *v, size_t n, bool on) {
        size_t i = 0;
        while (i < n) {
            uint64_t key = v[i] >> 16;
            edit(key, [&](Chunk &k) {
                for (; i < n && v[i] >> 16 == key; i++) {
                    uint64_t m = 1ULL << (v[i] & 63);
                    if (on) k.w[(v[i] & 0xffff) >> 6] |= m;
                    else k.w[(v[i] & 0xffff) >> 6] &= ~m;
                }
                k.recount();
            });
        }
    }
    // inclusive ranges
    template <class F>
    static void eachKey(uint64_t lo, uint64_t hi, F f) {
        for (uint64_t k = lo >> 16;; k++) {
            unsigned l = k == lo >> 16 ? lo & 0xffff : 0;
            unsigned h = k == hi >> 16 ? hi & 0xffff : 0xffff;
            f(k, l, h);
            if (k == hi >> 16) break;
        }
    }
    void addRange(uint64_t lo, uint64_t hi) {
        eachKey(lo, hi, [&](uint64_t k, unsigned l, unsigned h) {
            if (l == 0 && h == 0xffff) c[k] = full_chunk();
            else edit(k, [&](Chunk &x) { x.setRange(l, h, true); });
        });
    }
    void removeRange(uint64_t lo, uint64_t hi) {
        auto it = c.lower_bound(lo >> 16);
        while (it != c.end() && it->first <= hi >> 16) {
            uint64_t k = it->first;
            unsigned l = k == lo >> 16 ? lo & 0xffff : 0;
            unsigned h = k == hi >> 16 ? hi & 0xffff : 0xffff;
            ++it;
            if (l == 0 && h == 0xffff) c.erase(k);
            else edit(k, [&](Chunk &x) { x.setRange(l, h, false); });
        }
    }
    void flipRange(uint64_t lo, uint64_t hi) {
        ChunkP src, dst;  // equal chunks stay shared
        eachKey(lo, hi, [&](uint64_t k, unsigned l, unsigned h) {
            bool whole = l == 0 && h == 0xffff;
            auto it = c.find(k);
            if (whole && it == c.end()) { c[k] = full_chunk(); return; }
            if (whole && src && it->second == src) {
                if (dst) it->second = dst; else c.erase(it);
                return;
            }
            if (whole) src = it->second;
            edit(k, [&](Chunk &x) { x.flipRange(l, h); });
            if (whole) { it = c.find(k); dst = it == c.end() ? nullptr : it->second; }
        });
    }
    // may overflow to 0 for the full 64-bit universe: not generated
    uint64_t card() const {
        uint64_t n = 0;
        for (auto &e : c) n += e.second->n;
        return n;
    }
    bool empty() const { return c.empty(); }
    uint64_t rangeCard(uint64_t lo, uint64_t hi) const {  // inclusive
        uint64_t n = 0;
        for (auto it = c.lower_bound(lo >> 16); it != c.end() && it->first <= hi >> 16; ++it) {
            unsigned l = it->first == lo >> 16 ? lo & 0xffff : 0;
            unsigned h = it->first == hi >> 16 ? hi & 0xffff : 0xffff;
            n += l == 0 && h == 0xffff ? it->second->n : it->second->countRange(l, h);
        }
        return n;
    }
    uint64_t rank(uint64_t v) const { return rangeCard(0, v); }
    bool select(uint64_t r, uint64_t *out) const {
        for (auto &e : c) {
            if (r < (uint64_t)e.second->n) {
                for (int i = 0; i < 1024; i++) {
                    unsigned p = __builtin_popcountll(e.second->w[i]);
                    if (r < p) {
                        uint64_t x = e.second->w[i];
                        while (r--) x &= x - 1;
                        *out = e.first << 16 | (uint64_t)(i * 64 + __builtin_ctzll(x));
                        return true;
                    }
                    r -= p;
                }
            }
            r -= e.second->n;
        }
        return false;
    }
    bool nextGE(uint64_t v, uint64_t *out) const {
        auto it = c.lower_bound(v >> 16);
        if (it == c.end()) return false;
        if (it->first == v >> 16) {
            int r = it->second->nextGE(v & 0xffff);
            if (r >= 0) { *out = it->first << 16 | (unsigned)r; return true; }
            if (++it == c.end()) return false;
        }
        *out = it->first << 16 | (unsigned)it->second->nextGE(0);
        return true;
    }
    bool prevLE(uint64_t v, uint64_t *out) const {
        auto it = c.upper_bound(v >> 16);
        if (it == c.begin()) return false;
        --it;
        if (it->first == v >> 16) {
            int r = it->second->prevLE(v & 0xffff);
            if (r >= 0) { *out = it->first << 16 | (unsigned)r; return true; }
            if (it == c.begin()) return false;
            --it;
        }
        *out = it->first << 16 | (unsigned)it->second->prevLE(0xffff);
        return true;
    }
    // the values next to each other around v, over at most a few chunks
    void runAround(uint64_t v, uint64_t &lo, uint64_t &hi) const {
        lo = hi = v;
        for (int k = 0; k < 4; k++) {
            auto it = c.find(hi >> 16);
            if (it == c.end()) { hi--; break; }
            unsigned g = it->second->nextGap(hi & 0xffff);
            if (g < 65536 || hi >> 16 == ~0ULL >> 16) { hi = (hi & ~0xffffULL) + g - 1; break; }
            hi = (hi | 0xffff) + (k < 3);
        }
        for (int k = 0; k < 4; k++) {
            auto it = c.find(lo >> 16);
            if (it == c.end()) { lo++; break; }
            int g = it->second->prevGap(lo & 0xffff);
            if (g >= 0 || lo >> 16 == 0) { lo = (lo & ~0xffffULL) + (uint64_t)(g + 1); break; }
            lo = (lo & ~0xffffULL) - (k < 3);
        }
    }
    bool min(uint64_t *o) const { return nextGE(0, o); }
    bool max(uint64_t *o) const { return prevLE(~0ULL, o); }
    // calls f(v) in increasing order until it returns false
    template <class F>
    bool each(F f) const {
        for (auto &e : c)
            for (int i = 0; i < 1024; i++)
                for (uint64_t x = e.second->w[i]; x; x &= x - 1)
                    if (!f(e.first << 16 | (uint64_t)(i * 64 + __builtin_ctzll(x)))) return false;
        return true;
    }
    std::vector<uint64_t> vec(uint64_t off = 0, uint64_t lim = ~0ULL) const {
        std::vector<uint64_t> r;
        uint64_t v;
        if (!lim || !select(off, &v)) return r;
        auto it = c.lower_bound(v >> 16);
        bool first = true;
        for (; it != c.end(); ++it) {
            for (int i = first ? (int)((v & 0xffff) >> 6) : 0; i < 1024; i++) {
                uint64_t x = it->second->w[i];
                if (first) { x &= ~0ULL << (v & 63); first = false; }
                for (; x; x &= x - 1) {
                    r.push_back(it->first << 16 | (uint64_t)(i * 64 + __builtin_ctzll(x)));
                    if (r.size() >= lim) return r;
                }
            }
        }
        return r;
    }
    bool operator==(const Set &o) const {
        if (c.size() != o.c.size()) return false;
        auto i = c.begin();
        auto j = o.c.begin();
        for (; i != c.end(); ++i, ++j) {
            if (i->first != j->first) return false;
            if (i->second == j->second) continue;
            if (i->second->n != j->second->n || memcmp(i->second->w, j->second->w, 8192)) return false;
        }
        return true;
    }
    // op: 0 and 1 or 2 xor 3 andnot
    static Set comb(const Set &x, const Set &y, int op) {
        Set r;
        ChunkP li, lj, ln;  // equal chunks stay shared
        auto i = x.c.begin();
        auto j = y.c.begin();
        while (i != x.c.end() || j != y.c.end()) {
            if (j == y.c.end() || (i != x.c.end() && i->first < j->first)) {
                if (op) r.c.emplace_hint(r.c.end(), *i);
                ++i;
            } else if (i == x.c.end() || j->first < i->first) {
                if (op == 1 || op == 2) r.c.emplace_hint(r.c.end(), *j);
                ++j;
            } else {
                if (i->second == j->second) {
                    if (op < 2) r.c.emplace_hint(r.c.end(), *i);
                } else {
                    if (li == i->second && lj == j->second) {
                        if (ln->n) r.c.emplace_hint(r.c.end(), i->first, ln);
                        ++i;
                        ++j;
                        continue;
                    }
                    auto n = std::make_shared<Chunk>();
                    for (int k = 0; k < 1024; k++) {
                        uint64_t p = i->second->w[k], q = j->second->w[k];
                        n->w[k] = op == 0 ? p & q : op == 1 ? p | q : op == 2 ? p ^ q : p & ~q;
                    }
                    n->recount();
                    li = i->second, lj = j->second, ln = n;
                    if (n->n) r.c.emplace_hint(r.c.end(), i->first, n);
                }
                ++i;
                ++j;
            }
        }
        return r;
    }
    bool subsetOf(const Set &o) const { return comb(*this, o, 3).empty(); }
    // shift by offset, dropping values outside [0, lim]
    Set shifted(int64_t off, uint64_t lim) const {
        Set r;
        std::vector<uint64_t> v;
        each([&](uint64_t x) {
            __int128 y = (__int128)x + off;
            if (y >= 0 && y <= (__int128)lim) v.push_back((uint64_t)y);
            return true;
        });
        r.setMany(v.data(), v.size(), true);
        return r;
    }
    uint64_t hash() const {
        uint64_t h = 1;
        for (auto &e : c) {
            h = (h ^ e.first) * 0x9E3779B97F4A7C15ULL;
            for (int i = 0; i < 1024; i++) h = (h ^ e.second->w[i]) * 0xff51afd7ed558ccdULL, h ^= h >> 29;
        }
        return h;
    }
};
