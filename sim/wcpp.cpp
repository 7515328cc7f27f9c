// The C++ world: Roaring and Roaring64Map as values, with refused memory and damaged bytes
// where an exception is documented.
#include "wcpp.h"
#include <new>
#include <sstream>

void damage_bytes(std::vector<uint8_t> &b, const std::vector<uint8_t> &other, Rng &r);
bool damage_fields(std::vector<uint8_t> &b, int layout, Rng &r);
using roaring::Roaring;
using roaring::Roaring64Map;
using roaring::BulkContext;

// ------------------------------------------------ memory of the C++ runtime
static bool g_new_count;
static int64_t g_new_live;
static int32_t g_new_fault;
static uint64_t g_new_req, g_new_refused;
static void *new_(size_t n, bool nothrow) {
    if (g_new_count) {
        g_new_req++;
        if (g_new_fault && (g_new_fault > 0 ? g_new_req == (uint64_t)g_new_fault : g_new_req >= (uint64_t)-g_new_fault)) {
            g_new_refused++;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
        g_new_live++;
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void del_(void *p) {
    if (!p) return;
    if (g_new_count) g_new_live--;
    free(p);
}
void *operator new(size_t n) { return new_(n, false); }
void *operator new[](size_t n) { return new_(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return new_(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return new_(n, true); }
void operator delete(void *p) noexcept { del_(p); }
void operator delete[](void *p) noexcept { del_(p); }
void operator delete(void *p, size_t) noexcept { del_(p); }
void operator delete[](void *p, size_t) noexcept { del_(p); }

// Code run under refusal: h>0/<0 refuses requests of the library, n those of the C++ runtime
struct Faulted {
    uint64_t refused = 0;
    bool threw = false, bad = false;
    char what_[80] = "";
    int64_t leak_new = 0, leak_heap = 0;
    template <class F>
    Faulted(const char *note, int32_t lib, int32_t rt, F f) {
        snprintf(g_sh->plan_note, sizeof g_sh->plan_note, "%s", note);
        uint64_t live0 = heap::live();
        g_new_live = 0;
        g_new_req = g_new_refused = 0;
        g_new_fault = rt;
        if (lib) heap::arm(lib);
        g_new_count = true;
        try {
            f();
        } catch (const std::bad_alloc &) {
            threw = bad = true;
            g_new_fault = 0;
        } catch (const std::exception &e) {
            g_new_fault = 0;
            threw = true;
            snprintf(what_, sizeof what_, "%s", e.what());
        }
        g_new_count = false;
        g_new_fault = 0;
        refused = (lib ? heap::disarm() : 0) + g_new_refused;
        leak_new = g_new_live;
        leak_heap = (int64_t)heap::live() - (int64_t)live0;
        g_sh->plan_note[0] = 0;
        if (refused) STAT("fault_alloc_refused");
        if (threw) STAT("exceptions_seen");
    }
};

// ---------------------------------------------------------------- uniform access
template <class B> struct Tr;
template <> struct Tr<Roaring> {
    typedef uint32_t V;
    static const uint64_t MAX = 0xffffffffu;
    static const char *name() { return "Roaring"; }
    static void arr(const Roaring &b, uint32_t *o) { b.toUint32Array(o); }
    static bool decode(const uint8_t *p, size_t n, Set &o, std::string &why) { return decode_portable32(p, n, o, why); }
    static std::vector<uint8_t> encode(const Set &m, Rng &r) { return encode_portable32(m, r); }
    static bool runs(const uint8_t *p, size_t n) {  // a run container in the image?
        uint32_t c;
        memcpy(&c, p, 4);
        return (c & 0xffff) == 12347;
    }
};
template <> struct Tr<Roaring64Map> {
    typedef uint64_t V;
    static const uint64_t MAX = ~0ULL;
    static const char *name() { return "Roaring64Map"; }
    static void arr(const Roaring64Map &b, uint64_t *o) { b.toUint64Array(o); }
    // as decode_portable64, but buckets may be empty
    static bool parse(const uint8_t *p, size_t n, Set &o, std::string &why, bool *run) {
        if (n < 8) { why = "no bucket count"; return false; }
        uint64_t nb;
        memcpy(&nb, p, 8);
        size_t pos = 8;
        int64_t prev = -1;
        if (run) *run = false;
        for (uint64_t i = 0; i < nb; i++) {
            if (n - pos < 4) { why = "short bucket key"; return false; }
            uint32_t hi;
            memcpy(&hi, p + pos, 4);
            pos += 4;
            if ((int64_t)hi <= prev) { why = "bucket keys not increasing"; return false; }
            prev = hi;
            size_t used = 0;
            Set sub;
            if (!decode_portable32(p + pos, n - pos, sub, why, &used, (uint64_t)hi << 16)) return false;
            if (run && Tr<Roaring>::runs(p + pos, n - pos)) *run = true;
            for (auto &e : sub.c) o.c.emplace(e);
            pos += used;
        }
        if (pos != n) { why = "bytes left over"; return false; }
        return true;
    }
    static bool decode(const uint8_t *p, size_t n, Set &o, std::string &why) { return parse(p, n, o, why, nullptr); }
    static std::vector<uint8_t> encode(const Set &m, Rng &r) { return encode_portable64(m, r); }
    static bool runs(const uint8_t *p, size_t n) {
        Set o;
        std::string w;
        bool r = false;
        parse(p, n, o, w, &r);
        return r;
    }
};
template <class B>
static std::vector<uint8_t> image(const B &b, bool portable = true) {
    size_t n = b.getSizeInBytes(portable);
    Buf x(n, 1);
    size_t w = b.write((char *)x.p, portable);
    if (w != n) viol("cpp-image", "%s::write wrote %zu bytes, getSizeInBytes said %zu", Tr<B>::name(), w, n);
    return std::vector<uint8_t>(x.p, x.p + n);
}
static std::string text(const Set &m) {
    std::string t = "{";
    bool first = true;
    m.each([&](uint64_t v) {
        if (!first) t += ",";
        first = false;
        t += std::to_string(v);
        return true;
    });
    return t + "}";
}
template <class B> struct CbC {
    std::vector<uint64_t> v;
    uint64_t stop = ~0ULL;
    bool over = false;
    static bool f(typename Tr<B>::V x, void *p) {
        CbC *c = (CbC *)p;
        if (c->v.size() >= c->stop) c->over = true;
        c->v.push_back(x);
        return c->v.size() < c->stop;
    }
};

template <class B>
static void check_obj(WCpp &w, const B &b, const Set &m, unsigned chan, const char *who) {
    uint64_t card = m.card();
    std::string cls = std::string("cpp-content:") + w.st->op;
    const char *c = cls.c_str();
    uint64_t got = b.cardinality();
    lg(got);
    if (got != card) viol(c, "%s: cardinality %llu, the set has %llu", who, (unsigned long long)got, (unsigned long long)card);
    if (b.isEmpty() != (card == 0)) viol(c, "%s: isEmpty wrong", who);
    if (card > 400000) chan = 4;
    // long listings are dear: most of the time an array or the stored form instead
    if (w.plan->k("v2", 0) && card > 3000 && chan % 7 != 4 && chan / 7 % 4) chan = (sizeof(typename Tr<B>::V) == 8 ? chan / 28 % 4 : chan & 64) ? 4 : 0;
    typedef typename Tr<B>::V V;
    switch (chan % 7) {
        case 0: {
            std::unique_ptr<V[]> a(new V[card]);
            Tr<B>::arr(b, a.get());
            check_array(c, "array", m, a.get(), card);
            break;
        }
        case 1: {
            CbC<B> k;
            k.v.reserve(card + 1);
            b.iterate(CbC<B>::f, &k);
            check_array(c, "iterate", m, k.v.data(), k.v.size());
            break;
        }
        case 2: {
            std::vector<uint64_t> a;
            a.reserve(card + 1);
            for (auto v : b) {
                a.push_back(v);
                if (a.size() > card) break;
            }
            check_array(c, "iteration", m, a.data(), a.size());
            break;
        }
        case 3: {  // forwards with postfix steps, then backwards from the end
            std::vector<uint64_t> a, z;
            a.reserve(card + 1);
            z.reserve(card + 1);
            auto it = b.begin();
            while (it != b.end() && a.size() <= card) {
                auto o = it++;
                a.push_back(*o);
            }
            check_array(c, "postfix iteration", m, a.data(), a.size());
            for (uint64_t i = 0; i < card; i++) {
                if (i & 1) { --it; z.push_back(*it); }
                else { it--; z.push_back(*it); }
            }
            std::reverse(z.begin(), z.end());
            check_array(c, "backward iteration", m, z.data(), z.size());
            break;
        }
        case 4: {
            auto v = image(b);
            Set o;
            std::string why;
            if (!Tr<B>::decode(v.data(), v.size(), o, why)) viol(c, "%s: stored form is not a valid image: %s", who, why.c_str());
            if (!(o == m)) viol(c, "%s: stored form holds another set", who);
            break;
        }
        case 5: {
            if (card > 20000) break;
            std::string t = b.toString();
            if (t != text(m)) viol(c, "%s: toString gives %.60s...", who, t.c_str());
            if (!w.st || w.stepno % 3 == 0) {
                auto p = captured([&]() { b.printf(); }, false);
                while (!p.empty() && p.back() == '\n') p.pop_back();
                if (p != text(m)) viol(c, "%s: printf prints %.60s...", who, p.c_str());
            }
            break;
        }
        case 6: {
            B x(b);
            if (!(x == b)) viol(c, "%s differs from its copy", who);
            std::unique_ptr<V[]> a(new V[card]);
            Tr<B>::arr(x, a.get());
            check_array(c, "copy", m, a.get(), card);
            break;
        }
    }
}

// values close to what the object holds
static uint64_t pick(const std::vector<uint64_t> &keys, const Set &m, uint64_t r, uint64_t max) {
    uint64_t x = Rng::mix(r * 7 + 5), v;
    uint64_t key = keys[x % keys.size()];
    switch ((r ^ x >> 40) % 9) {
        case 0: v = key << 16 | edge_low(x >> 20); return v;
        case 1: return key << 16 | (x >> 20 & 0xffff);
        case 2: if (m.nextGE(key << 16 | (x >> 20 & 0xffff), &v) && v <= max) return v; break;
        case 3: if (m.nextGE(key << 16 | (x >> 20 & 0xffff), &v) && v <= max) return v < max ? v + 1 : v; break;
        case 4: if (m.prevLE(key << 16 | (x >> 20 & 0xffff), &v) && v <= max) return v ? v - 1 : v; break;
        case 5: if (m.max(&v) && v <= max) return v && (x >> 30 & 1) ? v - 1 : v; break;
        case 6: if (x >> 50 & 1) return (key << 16 | (x & 7)) & max; else return ((key << 16) - 1 - (x & 3)) & max;
        case 7: if (!(x & 3)) return Rng::mix(r) & max; break;
    }
    return key << 16 | (x >> 24 & 0xffff);
}
static void pick_range(const std::vector<uint64_t> &keys, const Set &m, uint64_t r1, uint64_t r2, uint64_t max, bool wide, uint64_t &lo, uint64_t &hi) {
    uint64_t x = Rng::mix(r2 * 3 + 1);
    if ((x >> 53) % 4 == 0 && run_part(m, x ^ r1, max, lo, hi)) {
        if (!wide && hi - lo > 5 * 65536) hi = lo + 5 * 65536;
        return;
    }
    lo = pick(keys, m, r1, max);
    auto up = [&](uint64_t d) { hi = lo > max - d ? max : lo + d; };
    switch (x % 9) {
        case 0: hi = lo; break;
        case 1: up(x >> 20 & 0xff); break;
        case 2: up(x >> 20 & 0xffff); break;
        case 3: hi = lo | 0xffff; break;
        case 4: lo &= ~0xffffULL; up((1 + (x >> 20) % 3) * 65536 - 1); break;
        case 5: up(65536 + (x >> 20 & 0x1ffff)); break;
        case 6: hi = pick(keys, m, x >> 20 & 0xfffff, max); break;
        case 7:  // across a bucket of the map
            if (max > 0xffffffffu) {
                lo |= 0xffffffffu;
                lo -= x >> 20 & 0x1ffff;
                up(x >> 38 & 0x3ffff);
                break;
            }  // fall through
        default: hi = max;
    }
    if (lo > hi) std::swap(lo, hi);
    if (!wide && hi - lo > 5 * 65536) {
        if (x >> 60 & 1) lo = hi - 5 * 65536;
        else hi = lo + 5 * 65536;
    }
}

void WCpp::start(const Plan &p) {
    plan = &p;
    cow = p.k("cow", 0);
    Rng g(p.seed ^ 0xC0FFEECC);
    keys = keys32((int)(p.k("keys", 0) % 9), g);
    std::vector<uint64_t> k = keys64((int)(g.below(10)), g);
    // few buckets, many chunks: every bucket of the map is an object of its own
    std::vector<uint64_t> hi = {0, 1, 2, 0x7fffffff, 0xfffffffe, 0xffffffffu};
    if (g.chance(1, 2)) hi = {0, g.below(100), g.next() & 0xffffffffu};
    for (int i = 0; i < 6; i++) keys64v.push_back(hi[g.below(hi.size())] << 16 | keys[g.below(keys.size())]);
    keys64v.push_back(keys[0]);
    if (g.chance(1, 3)) for (size_t i = 0; i < k.size() && i < 12; i++) keys64v.push_back(k[i]);
    size_t n = std::max<int64_t>(2, p.k("slots", 3) - 1);
    r.resize(n);
    s.resize(n);
    for (auto &x : r) x.b.reset(new Roaring()), x.b->setCopyOnWrite(cow);
    for (auto &x : s) x.b.reset(new Roaring64Map()), x.b->setCopyOnWrite(cow);
}

// everything that exists for both classes
template <class B>
struct Ops {
    typedef typename Tr<B>::V V;
    WCpp &w;
    std::vector<SlotC<B>> &s;
    const std::vector<uint64_t> &keys;
    std::vector<int> &touched;
    const Step &st;
    const int64_t *a;
    const bool is64 = sizeof(V) == 8;
    const uint64_t MAX = Tr<B>::MAX;
    Ops(WCpp &w, std::vector<SlotC<B>> &s, const std::vector<uint64_t> &k, std::vector<int> &t, const Step &st) : w(w), s(s), keys(k), touched(t), st(st), a(st.a) {}

    void writable(SlotC<B> &x) {
        x.ctx.reset();
        if (!x.back) return;
        std::unique_ptr<B> c(new B(*x.b));
        x.b = std::move(c);
        x.b->setCopyOnWrite(w.cow);
        if (!x.back->intact()) viol("cpp-view-written", "the bytes under a view changed");
        x.back.reset();
    }
    void put(SlotC<B> &x, B *b, const Set &m, BufP back = BufP()) {
        Set c = m;
        x.ctx.reset();
        x.b.reset(b);
        if (!back) b->setCopyOnWrite(w.cow);
        if (x.back && !x.back->intact()) viol("cpp-view-written", "the bytes under a view changed");
        x.back = back;
        x.m = c;
    }
    static void fill1(B &b, const std::vector<uint64_t> &v, unsigned how, Rng &r, WCpp &w);
    std::vector<uint64_t> vlist(const SlotC<B> &x, unsigned maxn) {
        Rng r((uint64_t)a[3] * 1000003 + (uint64_t)a[4]);
        unsigned n = (unsigned)(a[2] % 7 == 0 ? r.below(maxn) : r.below(20));
        std::vector<uint64_t> v;
        for (unsigned i = 0; i < n; i++) {
            if (i && r.chance(1, 6)) v.push_back(v[r.below(v.size())]);
            else if (i && r.chance(1, 2)) { uint64_t d = r.below(5); v.push_back(v.back() > MAX - d ? MAX : v.back() + d); }
            else v.push_back(pick(keys, x.m, r.below(1 << 20), MAX));
        }
        if (a[5] % 2) std::sort(v.begin(), v.end());
        return v;
    }
    void fill(SlotC<B> &D) {
        writable(D);
        uint64_t key = keys[(uint64_t)a[1] % keys.size()];
        Rng r((uint64_t)a[3]);
        Chunk k;
        pattern(r, (unsigned)a[2], k);
        std::vector<uint64_t> v;
        for (int i = 0; i < 1024; i++)
            for (uint64_t x = k.w[i]; x; x &= x - 1) v.push_back(key << 16 | (uint64_t)(i * 64 + __builtin_ctzll(x)));
        unsigned how = (unsigned)(a[4] % 7);
        if (how >= 4 && how <= 5 && v.size() > 6000) how = 0;
        std::vector<V> nv(v.begin(), v.end());
        switch (how) {
            case 0: D.b->addMany(nv.size(), nv.data()); break;
            case 1: {
                B t(nv.size(), nv.data());
                t.setCopyOnWrite(w.cow);
                if (a[5] & 1) t.runOptimize();
                *D.b |= t;
                break;
            }
            case 2: {
                size_t i = 0;
                while (i < v.size()) {
                    size_t j = i;
                    while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++;
                    if (v[j] != MAX && (i & 1)) D.b->addRange(v[i], v[j] + 1);
                    else D.b->addRangeClosed((V)v[i], (V)v[j]);
                    i = j + 1;
                }
                break;
            }
            case 3: {
                auto im = Tr<B>::encode(asset(v), r);
                B t = B::readSafe((const char *)im.data(), im.size());
                t.setCopyOnWrite(w.cow);
                *D.b |= t;
                break;
            }
            case 4: for (auto x : nv) D.b->add(x); break;
            case 5: {
                for (size_t i = nv.size(); i > 1; i--) std::swap(nv[i - 1], nv[r.below(i)]);
                for (auto x : nv) D.b->addChecked(x);
                break;
            }
            default: {
                if (nv.size() > 3) {
                    D.b->addMany(nv.size() - 3, nv.data());
                    B t = {nv[nv.size() - 3], nv[nv.size() - 2], nv[nv.size() - 1]};
                    t.setCopyOnWrite(w.cow);
                    *D.b ^= t;
                    *D.b |= t;
                } else D.b->addMany(nv.size(), nv.data());
            }
        }
        if (k.n) D.m.edit(key, [&](Chunk &c) { for (int i = 0; i < 1024; i++) c.w[i] |= k.w[i]; c.recount(); });
    }
    static Set asset(std::vector<uint64_t> v) {
        std::sort(v.begin(), v.end());
        Set m;
        m.setMany(v.data(), v.size(), true);
        return m;
    }
    bool big(const Set &m, uint64_t lim = 1 << 20) { return m.card() > lim; }

    void query(SlotC<B> &D, SlotC<B> &E) {
        const B &d = *D.b, &e = *E.b;
        uint64_t v = pick(keys, D.m, (uint64_t)a[2], MAX), t, lo, hi;
        CHECK_RES(w, d.contains((V)v), D.m.contains(v));
        CHECK_RES(w, d.rank((V)v), D.m.rank(v));
        CHECK_RES(w, d.getIndex((V)v), D.m.contains(v) ? (int64_t)D.m.rank(v) - 1 : -1);
        CHECK_RES(w, (uint64_t)d.minimum(), D.m.min(&t) ? t : MAX);
        CHECK_RES(w, (uint64_t)d.maximum(), D.m.max(&t) ? t : 0);
        uint64_t card = D.m.card(), k = a[3] % 4 == 0 ? card : card ? Rng::mix((uint64_t)a[3]) % card : 0;
        V got = 0;
        bool has = D.m.select(k, &t);
        CHECK_RES(w, d.select((V)k, &got), has);
        if (has) CHECK_RES(w, (uint64_t)got, t);
        CHECK_RES(w, d == e, D.m == E.m);
        CHECK_RES(w, d.isSubset(e), D.m.subsetOf(E.m));
        CHECK_RES(w, d.isStrictSubset(e), D.m.subsetOf(E.m) && !(D.m == E.m));
        CHECK_RES(w, d.isFull(), !is64 && card == 1ULL << 32);
        CHECK_RES(w, d.getCopyOnWrite(), D.back ? d.getCopyOnWrite() : w.cow);
        CbC<B> c;
        c.stop = 1 + (uint64_t)a[4] % 50;
        d.iterate(CbC<B>::f, &c);
        if (c.over || c.v != D.m.vec(0, c.stop)) viol("cpp-result:iterate", "iterate with an early stop after %llu gave other values or went on", (unsigned long long)c.stop);
        pick_range(keys, D.m, (uint64_t)a[4], (uint64_t)a[5], MAX, true, lo, hi);
        more(D, E, lo, hi, d, e);
    }
    void more(SlotC<B> &D, SlotC<B> &E, uint64_t lo, uint64_t hi, const Roaring &d, const Roaring &e) {
        CHECK_RES(w, d.containsRange(lo, hi + 1), D.m.rangeCard(lo, hi) == hi - lo + 1);
        CHECK_RES(w, d.containsRangeClosed(lo, hi), D.m.rangeCard(lo, hi) == hi - lo + 1);
        uint64_t i = Set::comb(D.m, E.m, 0).card(), x = D.m.card(), y = E.m.card();
        CHECK_RES(w, d.and_cardinality(e), i);
        CHECK_RES(w, d.or_cardinality(e), x + y - i);
        CHECK_RES(w, d.xor_cardinality(e), x + y - 2 * i);
        CHECK_RES(w, d.andnot_cardinality(e), x - i);
        CHECK_RES(w, d.intersect(e), i != 0);
        if (x + y) {
            double j = d.jaccard_index(e);
            if (j != (double)i / (double)(x + y - i)) viol("cpp-result:jaccard_index", "%f", j);
        }
        auto q = D.m.vec(0, 40);
        std::vector<uint32_t> b;
        for (auto v : q) { b.push_back((uint32_t)v); if (v != 0xffffffffu && v % 3 == 0) b.push_back((uint32_t)v + 1); }
        b.push_back((uint32_t)hi);
        std::sort(b.begin(), b.end());
        std::vector<uint64_t> rk(b.size(), 0xABABABAB);
        d.rank_many(b.data(), b.data() + b.size(), rk.data());
        for (size_t k = 0; k < b.size(); k++) CHECK_RES(w, rk[k], D.m.rank(b[k]));
        if (x < 200000) {
            uint64_t off = x ? (uint64_t)a[2] % (x + 1) : 0, lim = (uint64_t)a[3] % 3000;
            auto ex = D.m.vec(off, lim);
            std::unique_ptr<uint32_t[]> ar(new uint32_t[lim + 1]);
            d.rangeUint32Array(ar.get(), off, lim);
            for (size_t k = 0; k < ex.size(); k++) if (ar[k] != ex[k]) viol("cpp-result:rangeUint32Array", "value #%zu", k);
        }
    }
    void more(SlotC<B> &D, SlotC<B> &, uint64_t, uint64_t, const Roaring64Map &d, const Roaring64Map &) {
        uint32_t v = (uint32_t)pick(w.keys, D.m, (uint64_t)a[5], 0xffffffffu);
        CHECK_RES(w, d.contains(v), D.m.contains(v));
    }

    void assign(SlotC<B> &D, SlotC<B> &E) {
        if (&D == &E) {  // an object assigned to itself
            writable(D);
            B &alias = *E.b;
            switch (a[2] % 3) {
                case 0: *D.b = alias; break;
                case 1: D.b->swap(alias); break;
                default: { B t(std::move(*D.b)); *D.b = std::move(t); }
            }
            return;
        }
        if (big(E.m, 4 << 20)) return;
        switch (a[2] % 9) {
            case 0: put(D, new B(*E.b), E.m); break;
            case 1: writable(D); *D.b = *E.b; D.b->setCopyOnWrite(w.cow); D.m = E.m; break;
            case 2: {  // move construction
                B *n = new B(std::move(*E.b));
                Set m = E.m;
                BufP bk = E.back;
                E.back.reset();
                check_obj(w, *E.b, Set(), 0, "moved-from object");
                put(D, n, m, bk);
                put(E, new B(), Set());
                if (&D != &E) touched.push_back((int)(&E - &s[0]));
                break;
            }
            case 3: {
                if (E.back) return;
                writable(D);
                *D.b = std::move(*E.b);
                Set m = E.m;
                put(E, new B(), Set());
                D.m = m;
                D.b->setCopyOnWrite(w.cow);
                touched.push_back((int)(&E - &s[0]));
                break;
            }
            case 4: case 5: {
                if (D.back || E.back) return;
                D.ctx.reset();
                E.ctx.reset();
                if (a[2] % 2) D.b->swap(*E.b);
                else std::swap(*D.b, *E.b);
                std::swap(D.m, E.m);
                touched.push_back((int)(&E - &s[0]));
                break;
            }
            case 6: {
                writable(D);
                auto v = E.m.vec(0, 3);
                v.resize(3, v.empty() ? 5 : v[0]);
                *D.b = {(V)v[0], (V)v[1], (V)v[2]};
                D.b->setCopyOnWrite(w.cow);
                D.m = asset(v);
                break;
            }
            case 7: {
                auto v = E.m.vec(0, 4);
                v.resize(4, v.empty() ? 7 : v[0]);
                put(D, new B(B::bitmapOf(4, (V)v[0], (V)v[1], (V)v[2], (V)v[3])), asset(v));
                break;
            }
            default: {
                auto v = E.m.vec(0, 3);
                v.resize(3, v.empty() ? 5 : v[0]);
                put(D, new B(B::bitmapOfList({(V)v[0], (V)v[1], (V)v[2]})), asset(v));
            }
        }
    }
    void binop(SlotC<B> &D, SlotC<B> &E, SlotC<B> &F) {
        if (big(E.m, 3 << 20) || big(F.m, 3 << 20)) return;
        int op = (int)(a[3] % 4);
        if (a[4] % 2) {  // in place
            if (&D == &E && !is64 && op) return;
            writable(D);
            if (a[4] % 4 == 1 && &D != &E && E.back) {}
            switch (op) {
                case 0: *D.b &= *E.b; break;
                case 1: *D.b |= *E.b; break;
                case 2: *D.b ^= *E.b; break;
                default: *D.b -= *E.b; break;
            }
            D.m = Set::comb(D.m, E.m, op);
        } else {
            Set m = Set::comb(E.m, F.m, op);
            std::unique_ptr<B> n;
            switch (op) {
                case 0: n.reset(new B(*E.b & *F.b)); break;
                case 1: n.reset(new B(*E.b | *F.b)); break;
                case 2: n.reset(new B(*E.b ^ *F.b)); break;
                default: n.reset(new B(*E.b - *F.b)); break;
            }
            put(D, n.release(), m);
        }
    }
    void point(SlotC<B> &D) {
        writable(D);
        uint64_t v = pick(keys, D.m, (uint64_t)a[2], MAX), lo, hi;
        bool ex;
        switch (a[3] % 13) {
            case 0: D.b->add((V)v); D.m.add(v); break;
            case 1: ex = D.m.add(v); CHECK_RES(w, D.b->addChecked((V)v), ex); break;
            case 2: D.b->remove((V)v); D.m.remove(v); break;
            case 3: ex = D.m.remove(v); CHECK_RES(w, D.b->removeChecked((V)v), ex); break;
            case 4: case 5: case 6: {
                pick_range(keys, D.m, (uint64_t)a[2], (uint64_t)a[4], MAX, false, lo, hi);
                if (a[5] % 23 == 1) { if (hi > lo) D.b->addRange(hi, lo); break; }
                if (a[5] % 2 && hi != ~0ULL) D.b->addRange(lo, hi + 1);
                else D.b->addRangeClosed((V)lo, (V)hi);
                D.m.addRange(lo, hi);
                break;
            }
            case 7: case 8: case 9: {
                pick_range(keys, D.m, (uint64_t)a[2], (uint64_t)a[4], MAX, true, lo, hi);
                if (a[5] % 23 == 1) { if (hi > lo) D.b->removeRange(hi, lo); break; }
                if (a[5] % 2 && hi != ~0ULL) D.b->removeRange(lo, hi + 1);
                else D.b->removeRangeClosed((V)lo, (V)hi);
                D.m.removeRange(lo, hi);
                break;
            }
            case 10: case 11: {
                pick_range(keys, D.m, (uint64_t)a[2], (uint64_t)a[4], MAX, false, lo, hi);
                if (a[5] % 23 == 1) { if (hi > lo) D.b->flip(hi, lo); break; }
                if (a[5] % 2 && hi != ~0ULL) D.b->flip(lo, hi + 1);
                else D.b->flipClosed((V)lo, (V)hi);
                D.m.flipRange(lo, hi);
                break;
            }
            default: {
                if (a[4] % 6 == 0) { D.b->clear(); D.m = Set(); break; }
                auto l = vlist(D, 2000);
                std::vector<V> nv(l.begin(), l.end());
                D.b->addMany(nv.size(), nv.data());
                std::sort(l.begin(), l.end());
                D.m.setMany(l.data(), l.size(), true);
            }
        }
    }
    void maint(SlotC<B> &D) {
        if (big(D.m, 2 << 20)) return;
        writable(D);
        D.b->setCopyOnWrite(w.cow);
        std::vector<Stored> sb;
        auto stored_of = [&]() {
            auto v = image(*D.b);
            if (!is64) return stored_sizes32(v.data(), v.size());
            return stored_sizes64(v.data(), v.size());
        };
        bool before = Tr<B>::runs(image(*D.b).data(), image(*D.b).size()), g;
        switch (a[2] % 3) {
            case 0:
                if (w.want(O_SPACE)) sb = stored_of();
                g = D.b->runOptimize();
                if (w.want(O_SPACE) && D.m.card()) {
                    space_optimized(sb, stored_of(), D.m);
                    STAT("space_optimized");
                }
                if (!is64 || D.m.card()) {
                    auto v = image(*D.b);
                    CHECK_RES(w, g, Tr<B>::runs(v.data(), v.size()));
                }
                break;
            case 1:
                g = D.b->removeRunCompression();
                if (w.want(O_SPACE)) {
                    space_unrun(stored_of(), D.m);
                    STAT("space_unrun");
                }
                CHECK_RES(w, g, before);
                break;
            default: {
                uint64_t live = heap::live_bytes();
                uint64_t got = D.b->shrinkToFit(), now = heap::live_bytes();
                if (w.want(O_SPACE)) {
                    if (now > live) viol("space:shrink-grew", "shrinkToFit made the bitmap %llu bytes larger", (unsigned long long)(now - live));
                    if (!is64 && !w.cow && got != live - now) viol("space:shrink-result", "shrinkToFit returned %llu, %llu bytes were saved", (unsigned long long)got, (unsigned long long)(live - now));
                    if (D.b->shrinkToFit() != 0 || heap::live_bytes() != now) viol("space:shrink-twice", "shrinking twice saved something again");
                    STAT("space_shrink");
                }
            }
        }
    }
    void fast(SlotC<B> &D) {
        const B *in[6];
        size_t n = (size_t)(a[2] % 7);
        if (n > 6) n = 6;
        Set m;
        for (size_t i = 0; i < n; i++) {
            auto &x = s[(uint64_t)(a[3] + a[4] * (int64_t)i * (int64_t)i) % s.size()];
            if (big(x.m)) return;
            in[i] = x.b.get();
            m = Set::comb(m, x.m, 1);
        }
        put(D, new B(B::fastunion(n, in)), m);
    }
    // ------------------------------------------------ iterators
    void iter(SlotC<B> &D) {
        const B &b = *D.b;
        struct C { typename B::const_iterator it; bool end; uint64_t v; };
        uint64_t v;
        bool has = D.m.min(&v);
        std::vector<C> cs(3, C{b.begin(), !has, has ? v : 0});
        Rng r((uint64_t)a[2] * 77 + (uint64_t)a[3]);
        unsigned n = 4 + (unsigned)r.below(60);
        auto chk = [&](C &c, const char *what) {
            bool e = c.it == b.end(), ne = c.it != b.end();
            if (e != c.end || ne == c.end) viol("cpp-iterator", "%s: at the end: == says %d, != says %d, the set says %d", what, e, ne, c.end);
            e = b.end() == c.it;
            ne = b.end() != c.it;
            if (e != c.end || ne == c.end) viol("cpp-iterator", "%s: the end compared with the position: == says %d, != says %d, the set says %d", what, e, ne, c.end);
            if (!c.end && *c.it != c.v) viol("cpp-iterator", "%s: at %llu, the set says %llu", what, (unsigned long long)*c.it, (unsigned long long)c.v);
            if (!c.end) lg(*c.it);
        };
        for (auto &c : cs) chk(c, "begin");
        STAT("cpp_iterator_walks");
        for (unsigned i = 0; i < n; i++) {
            C &c = cs[r.below(3)];
            switch (r.below(8)) {
                case 0: case 1: {
                    unsigned k = r.chance(1, 6) ? 1 + (unsigned)r.below(300) : 1;
                    for (; k && !c.end; k--) {
                        uint64_t old = c.v;
                        if (r.chance(1, 2)) {
                            auto &x = ++c.it;
                            if (&x != &c.it) viol("cpp-iterator", "++ returned something else");
                        } else {
                            auto o = c.it++;
                            if (*o != old) viol("cpp-iterator", "postfix ++ returned %llu, was at %llu", (unsigned long long)*o, (unsigned long long)old);
                        }
                        if (old != MAX && D.m.nextGE(old + 1, &v)) c.v = v;
                        else c.end = true;
                        chk(c, "++");
                    }
                    break;
                }
                case 2: case 3: {
                    unsigned k = r.chance(1, 6) ? 1 + (unsigned)r.below(300) : 1;
                    for (; k; k--) {
                        if (c.end ? !D.m.max(&v) : !(c.v && D.m.prevLE(c.v - 1, &v))) break;
                        if (r.chance(1, 2)) --c.it;
                        else {
                            auto o = c.it--;
                            if (!c.end && *o != c.v) viol("cpp-iterator", "postfix -- returned %llu, was at %llu", (unsigned long long)*o, (unsigned long long)c.v);
                        }
                        c.end = false;
                        c.v = v;
                        chk(c, "--");
                    }
                    break;
                }
                case 4: case 5: {
                    uint64_t t = pick(keys, D.m, r.below(1 << 20), MAX);
                    bool g = c.it.move_equalorlarger((V)t), e = D.m.nextGE(t, &v);
                    if (g != e) viol("cpp-iterator", "move_equalorlarger(%llu) returned %d, the set says %d", (unsigned long long)t, g, e);
                    c.end = !e;
                    if (e) c.v = v;
                    chk(c, "move_equalorlarger");
                    break;
                }
                case 6: {
                    C &d = cs[r.below(3)];
                    // the end is larger than every value
                    auto less = [](const C &x, const C &y) { return !x.end && (y.end || x.v < y.v); };
                    auto eq = [](const C &x, const C &y) { return x.end == y.end && (x.end || x.v == y.v); };
                    if ((c.it == d.it) != eq(c, d) || (c.it != d.it) == eq(c, d)) viol("cpp-iterator", "== or != of two positions is wrong");
                    if ((c.it < d.it) != less(c, d) || (c.it > d.it) != less(d, c)) viol("cpp-iterator", "< or > of two positions is wrong");
                    if ((c.it <= d.it) != !less(d, c) || (c.it >= d.it) != !less(c, d)) {
                        if (!(c.end && d.end)) viol("cpp-iterator", "<= or >= of two positions is wrong");
                    }
                    break;
                }
                default: {
                    C &d = cs[r.below(3)];
                    d = c;
                    chk(d, "copy");
                }
            }
        }
    }
    // ------------------------------------------------ images
    void io(SlotC<B> &D, SlotC<B> &E) {
        if (big(E.m, 1 << 20)) return;
        int how = (int)(a[2] % 7);
        if (how == 4 && !is64) how = 0;
        STAT("cpp_images");
        if (how < 4) {
            bool portable = how != 1;
            std::vector<uint8_t> v;
            if (how == 3) {  // written elsewhere
                Rng r((uint64_t)a[3]);
                v = Tr<B>::encode(E.m, r);
            } else v = image(*E.b, portable);
            Buf buf(v.size(), 1);
            memcpy(buf.p, v.data(), v.size());
            buf.seal();
            if (portable && w.want(O_IMG)) {
                Set o;
                std::string why;
                if (!Tr<B>::decode(v.data(), v.size(), o, why)) viol("cpp-image", "portable image: %s", why.c_str());
                if (!(o == E.m)) viol("cpp-image", "portable image holds another set");
            }
            std::unique_ptr<B> n;
            try {
                if (how == 0 || how == 3) n.reset(new B(B::readSafe((const char *)buf.p, buf.n)));
                else n.reset(new B(B::read((const char *)buf.p, portable)));
            } catch (const std::exception &e) {
                viol("cpp-image", "a complete image of %zu bytes was refused: %s", v.size(), e.what());
            }
            if (!buf.intact()) viol("cpp-view-written", "reading an image changed it");
            check_obj(w, *n, E.m, (unsigned)a[4], "object read back");
            put(D, n.release(), E.m);
            return;
        }
        if (w.cow) return;  // views and copy-on-write objects are kept apart
        if (how == 4 || how == 5) {  // frozen
            size_t n = frozen_size(*E.b);
            BufP buf(new Buf(n, 32));
            frozen_write(*E.b, (char *)buf->p);
            buf->seal();
            B *v = frozen_view(E.b.get(), (const char *)buf->p, n);
            check_obj(w, *v, E.m, (unsigned)a[4], "frozen view");
            put(D, v, E.m, buf);
            return;
        }
        auto v = image(*E.b);
        BufP buf(new Buf(v.size(), 16, (size_t)(a[3] % 4)));
        memcpy(buf->p, v.data(), v.size());
        buf->seal();
        B *x = portable_view(E.b.get(), (const char *)buf->p);
        check_obj(w, *x, E.m, (unsigned)a[4], "portable view");
        put(D, x, E.m, buf);
    }
    static size_t frozen_size(const Roaring &b) { return b.getFrozenSizeInBytes(); }
    static size_t frozen_size(const Roaring64Map &b) { return b.getFrozenSizeInBytes(); }
    static void frozen_write(const B &b, char *p) { b.writeFrozen(p); }
    static Roaring *frozen_view(Roaring *, const char *p, size_t n) { return new Roaring(Roaring::frozenView(p, n)); }
    static Roaring64Map *frozen_view(Roaring64Map *, const char *p, size_t) { return new Roaring64Map(Roaring64Map::frozenView(p)); }
    static B *portable_view(B *, const char *p) { return new B(B::portableDeserializeFrozen(p)); }

    void torn(SlotC<B> &E) {
        if (big(E.m, 200000)) return;
        Rng r((uint64_t)a[3]);
        auto b = a[2] % 2 ? image(*E.b) : Tr<B>::encode(E.m, r);
        size_t n = b.size();
        std::vector<size_t> ks;
        if (n <= 500) for (size_t k = 0; k < n; k++) ks.push_back(k);
        else {
            for (size_t k = 0; k < 120; k++) ks.push_back(k);
            for (int i = 0; i < 80; i++) ks.push_back(r.below(n));
            for (size_t k = 1; k <= 30; k++) ks.push_back(n - k);
        }
        STAT("torn_images");
        stat_add("torn_prefixes", ks.size());
        for (size_t k : ks) {
            Buf buf(k, 1);
            if (k) memcpy(buf.p, b.data(), k);
            bool took = false;
            Faulted f("cpp-torn", 0, 0, [&] {
                B x = B::readSafe((const char *)buf.p, k);
                took = true;
            });
            if (took) viol("cpp-torn", "%s::readSafe accepted the first %zu of %zu bytes", Tr<B>::name(), k, n);
            if (f.leak_heap || f.leak_new) viol("cpp-torn-leak", "%s::readSafe of the first %zu of %zu bytes left %lld+%lld blocks behind", Tr<B>::name(), k, n, (long long)f.leak_heap, (long long)f.leak_new);
        }
        for (int k = 0; k < 2; k++) {
            size_t x = k ? 1 + r.below(40) : 0;
            Buf buf(n + x, 1);
            memcpy(buf.p, b.data(), n);
            for (size_t i = 0; i < x; i++) buf.p[n + i] = (uint8_t)r.next();
            try {
                B o = B::readSafe((const char *)buf.p, n + x);
                check_obj(w, o, E.m, (unsigned)a[4], "object read back");
            } catch (const std::exception &e) {
                viol("cpp-torn-full", "%s::readSafe refused a complete image: %s", Tr<B>::name(), e.what());
            }
        }
    }
    static bool sane(const Roaring &x) {
        const char *why = nullptr;
        return roaring::api::roaring_bitmap_internal_validate(&x.roaring, &why);
    }
    static bool sane(const Roaring64Map &) { return false; }
    void damage(SlotC<B> &E, SlotC<B> &F) {
        if (big(E.m, 200000) || big(F.m, 200000)) return;
        Rng r(Rng::mix((uint64_t)a[3]) ^ (uint64_t)a[4]);
        auto b = a[2] % 2 ? image(*E.b) : Tr<B>::encode(E.m, r), o = image(*F.b);
        if (!(w.plan->k("v2", 0) && r.chance(1, 2) && damage_fields(b, is64 ? 3 : 0, r))) damage_bytes(b, o, r);
        if (b.size() > (1 << 20)) return;
        Set m;
        std::string why;
        bool ok = Tr<B>::decode(b.data(), b.size(), m, why);
        Buf buf(b.size(), 1);
        if (b.size()) memcpy(buf.p, b.data(), b.size());
        buf.seal();
        bool took = false;
        Faulted f("cpp-damage", 0, 0, [&] {
            B x = B::readSafe((const char *)buf.p, buf.n);
            took = true;
            g_new_count = false;
            if (ok) check_obj(w, x, m, (unsigned)a[4], "object read from bytes that are still a valid image");
            else if (sane(x)) {
                uint64_t c = x.cardinality(), k = 0, prev = 0;
                if (c < (1 << 20))
                    for (auto v : x) {
                        if (k++ && v <= prev) viol("cpp-damage", "a validated object lists %llu after %llu", (unsigned long long)v, (unsigned long long)prev);
                        prev = v;
                    }
            }
            g_new_count = true;
        });
        if (ok && !took) viol("cpp-damage", "%s::readSafe refused a valid image: %s", Tr<B>::name(), f.what_);
        STAT(took ? "damage_read" : "damage_refused");
        if (f.leak_heap || f.leak_new) viol("cpp-damage-leak", "%s::readSafe of %zu damaged bytes left %lld+%lld blocks behind", Tr<B>::name(), b.size(), (long long)f.leak_heap, (long long)f.leak_new);
        if (!buf.intact()) viol("cpp-view-written", "reading damaged bytes changed them");
    }
    // ------------------------------------------------ refused memory
    void oom(SlotC<B> &D, SlotC<B> &E, SlotC<B> &F) {
        if (big(D.m, 300000) || big(E.m, 300000) || big(F.m, 300000)) return;
        int what = (int)(a[2] % (is64 ? 7 : 6));
        static const char *names[] = {"copy construction", "copy assignment", "readSafe", "read", "operator", "fastunion", "insertion"};
        bool later = a[3] % 2, rt = is64 && a[3] % 4 >= 2;
        auto im = image(*E.b);
        Buf buf(im.size(), 1);
        memcpy(buf.p, im.data(), im.size());
        std::string note = std::string("cpp-oom:") + names[what];
        int op = (int)(a[4] % 4);
        std::unique_ptr<B> held;
        for (int n = 1; n < 200; n += n < 20 ? 1 : n / 4) {
            if (what == 4 && !is64 && n > 1) break;       // only the request for the result itself
            if (what == 4 && is64 && !(rt)) break;
            if (what == 5 && n > (is64 ? 1 : 2) && !rt) break;
            if (what == 6 && !rt) break;
            int32_t f = later && what != 4 && what != 5 ? -n : n;
            std::unique_ptr<B> out;
            B *res = nullptr;
            Set expect = E.m;
            bool done = false;
            alignas(B) char room[sizeof(B)];
            std::unique_ptr<B> dst;
            if (what == 1 || what == 6) {
                dst.reset(new B(*D.b));
                dst->setCopyOnWrite(w.cow);
            }
            uint64_t newkey = pick(keys, D.m, (uint64_t)a[5], MAX);
            bool isread = what == 2 || what == 3;
            g_sh->step = n;
            Faulted z(note.c_str(), rt ? 0 : f, rt ? f : 0, [&] {
                switch (what) {
                    case 0: res = new (room) B(*E.b); break;
                    case 1: *dst = *E.b; break;
                    case 2: res = new (room) B(B::readSafe((const char *)buf.p, buf.n)); break;
                    case 3: res = new (room) B(B::read((const char *)buf.p)); break;
                    case 4:
                        switch (op) {
                            case 0: res = new (room) B(*E.b & *F.b); break;
                            case 1: res = new (room) B(*E.b | *F.b); break;
                            case 2: res = new (room) B(*E.b ^ *F.b); break;
                            default: res = new (room) B(*E.b - *F.b); break;
                        }
                        break;
                    case 5: {
                        const B *in[3] = {E.b.get(), F.b.get(), D.b.get()};
                        res = new (room) B(B::fastunion(3, in));
                        break;
                    }
                    default: {
                        insert(*dst, newkey, (unsigned)a[4], *E.b);
                    }
                }
                done = true;
            });
            if (what == 4) expect = Set::comb(E.m, F.m, op);
            if (what == 5) expect = Set::comb(Set::comb(E.m, F.m, 1), D.m, 1);
            if (z.threw == done) viol("cpp-oom", "unreachable");
            if (!z.refused && z.threw) viol(note.c_str(), "%s threw (%s) although no request was refused", names[what], z.what_);
            if (z.refused && done && what != 4 && what != 5 && what != 6 && !rt) viol(note.c_str(), "%s %s: request %d was refused, no exception", Tr<B>::name(), names[what], n);
            if (z.threw && !dst && (z.leak_new || (z.leak_heap && !w.cow))) viol("cpp-oom-leak", "%s %s: request %d refused, %lld+%lld blocks left behind", Tr<B>::name(), names[what], n, (long long)z.leak_heap, (long long)z.leak_new);
            if (res) {
                check_obj(w, *res, expect, (unsigned)a[4], "result although a request was refused");
                res->~B();
            }
            if (dst) {
                // still an object: consistent, assignable, destructible
                if (done && what == 1) check_obj(w, *dst, E.m, (unsigned)n, "target of an assignment");
                else if (what == 6 && !done && a[4] % 3 < 2) check_obj(w, *dst, D.m, (unsigned)n, "object whose insertion failed");
                else {
                    std::vector<uint64_t> l;
                    for (auto v : *dst) l.push_back(v);
                    for (size_t i = 1; i < l.size(); i++) if (l[i] <= l[i - 1]) viol(note.c_str(), "the target lists %llu after %llu", (unsigned long long)l[i], (unsigned long long)l[i - 1]);
                    if (dst->cardinality() != l.size()) viol(note.c_str(), "the target has cardinality %llu and %zu values", (unsigned long long)dst->cardinality(), l.size());
                }
                *dst = *F.b;
                dst->setCopyOnWrite(w.cow);
                dst->add((V)newkey);
                Set m = F.m;
                m.add(newkey);
                check_obj(w, *dst, m, (unsigned)n, "target of an assignment after the failed one");
                dst.reset();
            }
            check_obj(w, *E.b, E.m, (unsigned)n + 3, "source");
            check_obj(w, *F.b, F.m, (unsigned)n + 4, "operand");
            (void)isread;
            if (!z.refused) break;
        }
        g_sh->step = -1;
        STAT("fault_sweeps");
    }
    static void insert(Roaring &, uint64_t, unsigned, const Roaring &) {}
    static void insert(Roaring64Map &d, uint64_t v, unsigned how, const Roaring64Map &e) {
        switch (how % 3) {
            case 0: d.add(v); break;
            case 1: d.addChecked(v); break;
            default: d |= e;
        }
    }
};

// the map's own corners
static void map_extra(WCpp &w, SlotM &D, SlotR &R, const Step &st) {
    const int64_t *a = st.a;
    Ops<Roaring64Map> o(w, w.s, w.keys64v, w.ts, st);
    switch (a[2] % 8) {
        case 0: {
            Set m = R.m;
            if (R.back) return;
            D.ctx.reset();
            if (a[3] % 4 == 0 && m.card() < 5000) {
                auto v = m.vec();
                std::vector<uint32_t> l(v.begin(), v.end());
                o.put(D, new Roaring64Map(l.size(), l.data()), m);
                break;
            }
            if (a[3] % 4 == 1) {
                auto v = m.vec(0, 5000);
                if (v.size() < 5000) {
                    roaring::api::roaring_bitmap_t *h = roaring::api::roaring_bitmap_create();
                    for (auto x : v) roaring::api::roaring_bitmap_add(h, (uint32_t)x);
                    Roaring64Map *n = new Roaring64Map(h);
                    n->setCopyOnWrite(w.cow);
                    o.put(D, n, m);
                    break;
                }
            }
            o.put(D, new Roaring64Map(*R.b), m);
            break;
        }
        case 1: {
            if (R.back) return;
            Set m = R.m;
            Roaring64Map *n = new Roaring64Map(std::move(*R.b));
            R.b.reset(new Roaring());
            R.b->setCopyOnWrite(w.cow);
            R.m = Set();
            R.ctx.reset();
            w.tr.push_back((int)(&R - &w.r[0]));
            o.put(D, n, m);
            break;
        }
        case 2: {  // a bucket that is empty
            o.writable(D);
            switch (a[3] % 3) {
                case 0: D.b->addMany(0, (const uint32_t *)nullptr); break;
                case 1: {
                    Set one;
                    Roaring64Map e{Roaring()};
                    e.setCopyOnWrite(w.cow);
                    *D.b |= e;
                    break;
                }
                default: {  // an image with empty buckets, one after the other or between others
                    Rng r((uint64_t)a[4]);
                    unsigned n = 1 + (unsigned)r.below(5);
                    uint64_t k1 = (w.keys64v[(uint64_t)a[4] % w.keys64v.size()] >> 16) & 0xffffffffu;
                    std::vector<uint8_t> b(8, 0);
                    b[0] = (uint8_t)n;
                    if (k1 + 3 * n > 0xffffffffu) k1 = 0xffffffffu - 3 * n;
                    Set m;
                    for (unsigned z = 0; z < n; z++) {
                        Set in;
                        if (n > 1 && r.chance(1, 3)) {
                            uint64_t key = r.below(3);
                            Chunk k;
                            pattern(r, r.chance(1, 2) ? 0 : 10, k);
                            if (k.n) {
                                in.c[key] = std::make_shared<Chunk>(k);
                                m.c[k1 << 16 | key] = in.c[key];
                            }
                        }
                        for (int i = 0; i < 4; i++) b.push_back((uint8_t)(k1 >> 8 * i));
                        auto e = encode_portable32(in, r);
                        b.insert(b.end(), e.begin(), e.end());
                        k1 += 1 + r.below(2);
                    }
                    Buf x(b.size(), 8);
                    memcpy(x.p, b.data(), b.size());
                    Roaring64Map t = a[5] % 2 ? Roaring64Map::readSafe((const char *)x.p, x.n) : Roaring64Map::read((const char *)x.p);
                    t.setCopyOnWrite(w.cow);
                    check_obj(w, t, m, (unsigned)a[5], "map with empty buckets");
                    if (t.isEmpty() != m.empty()) viol("cpp-result:isEmpty", "a map with empty buckets: isEmpty() is %d", (int)t.isEmpty());
                    if (m.empty() && t.begin() != t.end()) viol("cpp-iterator", "a map with only empty buckets has a first value");
                    *D.b |= t;
                    D.m = Set::comb(D.m, m, 1);
                }
            }
            break;
        }
        case 3: case 4: case 5: {  // the 32-bit overloads
            o.writable(D);
            uint32_t v = (uint32_t)pick(w.keys, D.m, (uint64_t)a[3], 0xffffffffu);
            bool ex;
            uint64_t lo, hi;
            pick_range(w.keys, D.m, (uint64_t)a[3], (uint64_t)a[4], 0xffffffffu, false, lo, hi);
            switch (a[5] % 8) {
                case 0: D.b->add(v); D.m.add(v); break;
                case 1: ex = D.m.add(v); CHECK_RES(w, D.b->addChecked(v), ex); break;
                case 2: D.b->remove(v); D.m.remove(v); break;
                case 3: ex = D.m.remove(v); CHECK_RES(w, D.b->removeChecked(v), ex); break;
                case 4: D.b->addRangeClosed((uint32_t)lo, (uint32_t)hi); D.m.addRange(lo, hi); break;
                case 5: D.b->removeRangeClosed((uint32_t)lo, (uint32_t)hi); D.m.removeRange(lo, hi); break;
                case 6: D.b->flipClosed((uint32_t)lo, (uint32_t)hi); D.m.flipRange(lo, hi); break;
                default: {
                    uint32_t l[3] = {v, (uint32_t)lo, (uint32_t)hi};
                    D.b->addMany(3, l);
                    for (auto x : l) D.m.add(x);
                }
            }
            break;
        }
        default: {  // ranges over whole buckets: checked against interval arithmetic
            const uint64_t heavy_every = w.plan->k("v2", 0) ? 96 : 24;
            if ((uint64_t)a[3] % heavy_every || heap::live_bytes() > (64u << 20)) return;
            uint64_t h = a[4] % 3 == 0 ? 0xfffffffcu : (uint64_t)a[4] % 5, span = 1 + (uint64_t)a[5] % 3;
            uint64_t lo = (h << 32) + Rng::mix((uint64_t)a[3]) % 0x100000000ULL, hi = ((h + span + 1) << 32) - 1 - Rng::mix((uint64_t)a[4]) % 0x100000000ULL;
            if (a[5] % 3 == 0) hi = ((h + span + 1) << 32) - 1;
            if (a[5] % 5 == 0) lo = h << 32;
            Roaring64Map x;
            x.setCopyOnWrite(w.cow);
            uint64_t mid = ((h + 1) << 32) + Rng::mix((uint64_t)a[5]) % 0xffff0000u;
            x.add(mid);
            x.addRangeClosed(lo, hi);
            if (!(lo <= mid && mid <= hi)) x.remove(mid);
            std::vector<std::pair<uint64_t, uint64_t>> iv = {{lo, hi}};  // sorted, disjoint
            auto verify = [&](const Roaring64Map &y, const char *what) {
                uint64_t card = 0;
                for (auto &q : iv) card += q.second - q.first + 1;
                if (y.cardinality() != card) viol("cpp-wide", "%s: cardinality %llu, the intervals have %llu", what, (unsigned long long)y.cardinality(), (unsigned long long)card);
                if (iv.empty()) return;
                if (y.minimum() != iv[0].first || y.maximum() != iv.back().second) viol("cpp-wide", "%s: minimum or maximum wrong", what);
                Rng r((uint64_t)a[3] + 9);
                uint64_t before = 0;
                for (auto &q : iv) {
                    for (int k = 0; k < 3; k++) {
                        uint64_t d = k == 0 ? 0 : k == 1 ? q.second - q.first : r.below(q.second - q.first + 1), g = 0;
                        if (!y.contains(q.first + d)) viol("cpp-wide", "%s: %llu is missing", what, (unsigned long long)(q.first + d));
                        if (y.rank(q.first + d) != before + d + 1) viol("cpp-wide", "%s: rank of %llu wrong", what, (unsigned long long)(q.first + d));
                        if (!y.select(before + d, &g) || g != q.first + d) viol("cpp-wide", "%s: element #%llu wrong", what, (unsigned long long)(before + d));
                        if (y.getIndex(q.first + d) != (int64_t)(before + d)) viol("cpp-wide", "%s: index wrong", what);
                    }
                    if (q.first && y.contains(q.first - 1)) viol("cpp-wide", "%s: a value below the range", what);
                    if (q.second != ~0ULL && y.contains(q.second + 1)) viol("cpp-wide", "%s: a value above the range", what);
                    auto it = y.begin();
                    if (!it.move_equalorlarger(q.second) || *it != q.second) viol("cpp-wide", "%s: seek wrong", what);
                    before += q.second - q.first + 1;
                }
            };
            verify(x, "addRangeClosed");
            uint64_t p = lo + Rng::mix((uint64_t)a[3] + 1) % (hi - lo + 1), q = p + Rng::mix((uint64_t)a[3] + 2) % (hi - p + 1);
            Roaring64Map copy(x);
            // flipping full containers away one by one is quadratic in the library: seldom
            bool slow = w.plan->k("v2", 0) ? (uint64_t)a[3] / heavy_every % 8 == 0 || q - p < (1u << 28) : true;
            bool flipped = a[5] & 1 && slow;
            if (flipped) {
                x.flipClosed(p, q);
            } else x.removeRangeClosed(p, q);
            iv.clear();
            if (p > lo) iv.push_back({lo, p - 1});
            if (q < hi) iv.push_back({q + 1, hi});
            verify(x, flipped ? "flipClosed" : "removeRangeClosed");
            Roaring64Map diff = copy - x;
            iv = {{p, q}};
            verify(diff, "difference");
            x |= diff;
            iv = {{lo, hi}};
            verify(x, "union");
            if (!(x == copy) || !diff.isSubset(x)) viol("cpp-wide", "x | (c - x) differs from c");
            if (a[5] & 2 && (slow || hi - lo < (1u << 28))) {
                x.flipClosed(lo, hi);
                if (!x.isEmpty()) viol("cpp-wide", "flipping the whole range leaves values");
                x.flipClosed(lo, hi);
                verify(x, "flipped twice");
            }
            STAT("cpp_wide_ranges");
        }
    }
}
static void bulk(WCpp &w, SlotR &D, const Step &st) {
    const int64_t *a = st.a;
    Ops<Roaring> o(w, w.r, w.keys, w.tr, st);
    auto keep = D.ctx;
    o.writable(D);
    D.ctx = keep;
    if (!D.ctx) D.ctx = std::make_shared<BulkContext>();
    BulkContext *c = (BulkContext *)D.ctx.get();
    Rng r((uint64_t)a[3]);
    unsigned n = 1 + (unsigned)r.below(40);
    uint64_t last = pick(w.keys, D.m, r.below(1 << 20), 0xffffffffu);
    for (unsigned i = 0; i < n; i++) {
        uint64_t v = r.chance(2, 3) ? (last & ~0xffffULL) | r.below(65536) : pick(w.keys, D.m, r.below(1 << 20), 0xffffffffu);
        if (r.chance(1, 2)) {
            D.b->addBulk(*c, (uint32_t)v);
            D.m.add(v);
        } else CHECK_RES(w, D.b->containsBulk(*c, (uint32_t)v), D.m.contains(v));
        if (r.chance(1, 20)) {
            BulkContext moved(std::move(*c));
            *c = std::move(moved);
        }
        last = v;
    }
}

template <class B>
static void common(WCpp &w, std::vector<SlotC<B>> &s, const std::vector<uint64_t> &keys, std::vector<int> &touched, const Step &st, const std::string &op) {
    Ops<B> o(w, s, keys, touched, st);
    const int64_t *a = st.a;
    size_t n = s.size();
    auto &D = s[(uint64_t)a[0] % n];
    auto &E = s[(uint64_t)a[1] % n];
    auto &F = s[(uint64_t)a[5] % n];
    touched.push_back((int)((uint64_t)a[0] % n));
    if (op == "fill") o.fill(D);
    else if (op == "query") o.query(D, E);
    else if (op == "assign") o.assign(D, E);
    else if (op == "binop") o.binop(D, E, F);
    else if (op == "point") o.point(D);
    else if (op == "maint") o.maint(D);
    else if (op == "fast") o.fast(D);
    else if (op == "iter") o.iter(D);
    else if (op == "io") o.io(D, E);
    else if (op == "torn") o.torn(E);
    else if (op == "damage") o.damage(E, F);
    else if (op == "oom") o.oom(D, E, F);
    else {
        fprintf(stderr, "unknown op %s\n", op.c_str());
        abort();
    }
}

void WCpp::step(const Step &stp) {
    st = &stp;
    stepno++;
    std::string op = stp.op;
    try {
        if (op == "m_extra") {
            size_t d = (uint64_t)stp.a[0] % s.size();
            ts.push_back((int)d);
            map_extra(*this, s[d], r[(uint64_t)stp.a[1] % r.size()], stp);
        } else if (op == "r_bulk") {
            size_t d = (uint64_t)stp.a[0] % r.size();
            tr.push_back((int)d);
            bulk(*this, r[d], stp);
        } else if (op[0] == 'r') common(*this, r, keys, tr, stp, op.substr(2));
        else common(*this, s, keys64v, ts, stp, op.substr(2));
    } catch (const std::exception &e) {
        viol(("cpp-throw:" + op).c_str(), "%s threw although nothing was refused: %s", op.c_str(), e.what());
    }
    auto seen = [&](auto &x, unsigned kind) {
        uint64_t h = kind;
        for (char c : op) h = hmix(h, (unsigned char)c);
        auto l2 = [](uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; };
        h = hmix(h, l2(x.m.card()));
        h = hmix(h, l2(x.m.c.size()));
        h = hmix(h, l2(x.b->getSizeInBytes()));
        h = hmix(h, x.back ? 1 : 0);
        sig_seen(h);
    };
    // what was just changed is asked about at once
    auto ask = [&](auto &v, const std::vector<uint64_t> &k, std::vector<int> &t, int i) {
        auto &x = v[i], &y = v[Rng::mix(stepno + i) % v.size()];
        if (!plan->k("v2", 0) || stepno % 2 || x.m.card() > 100000 || y.m.card() > 100000) return;
        Step q = stp;
        for (int j = 0; j < 6; j++) q.a[j] = (int64_t)(Rng::mix(stepno * 97 + i * 7 + j) % 1000000);
        Ops<typename std::decay<decltype(*x.b)>::type>(*this, v, k, t, q).query(x, y);
    };
    std::vector<int> tr_ = tr, ts_ = ts;
    for (int i : tr_) ask(r, keys, tr, i);
    for (int i : ts_) ask(s, keys64v, ts, i);
    for (int i : tr) {
        seen(r[i], 0xC32);
        check_obj(*this, *r[i].b, r[i].m, (unsigned)Rng::mix(stepno * 31 + i), "Roaring");
    }
    for (int i : ts) {
        seen(s[i], 0xC64);
        check_obj(*this, *s[i].b, s[i].m, (unsigned)Rng::mix(stepno * 31 + i), "Roaring64Map");
    }
    tr.clear();
    ts.clear();
    bool full = stepno % 4 == 0;
    for (size_t i = 0; i < r.size(); i++) {
        if (full) check_obj(*this, *r[i].b, r[i].m, (unsigned)Rng::mix(stepno * 17 + i), "Roaring, not an operand");
        else if (r[i].b->cardinality() != r[i].m.card()) viol(("cpp-content:" + op).c_str(), "Roaring %zu, not an operand, changed", i);
    }
    for (size_t i = 0; i < s.size(); i++) {
        if (full) check_obj(*this, *s[i].b, s[i].m, (unsigned)Rng::mix(stepno * 17 + i), "Roaring64Map, not an operand");
        else if (s[i].b->cardinality() != s[i].m.card()) viol(("cpp-content:" + op).c_str(), "Roaring64Map %zu, not an operand, changed", i);
    }
    if (heap::custody()) viol("custody", "%s (during %s)", heap::custody(), op.c_str());
}
void WCpp::finish() {
    static const Step end{"end", {0, 0, 0, 0, 0, 0}, 0};
    st = &end;
    for (size_t i = 0; i < r.size(); i++) {
        check_obj(*this, *r[i].b, r[i].m, (unsigned)i, "Roaring");
        r[i].b.reset();
        if (r[i].back && !r[i].back->intact()) viol("cpp-view-written", "the bytes under a view changed");
    }
    for (size_t i = 0; i < s.size(); i++) {
        check_obj(*this, *s[i].b, s[i].m, (unsigned)i, "Roaring64Map");
        s[i].b.reset();
        if (s[i].back && !s[i].back->intact()) viol("cpp-view-written", "the bytes under a view changed");
    }
    if (heap::custody()) viol("custody", "%s", heap::custody());
    if (heap::live()) viol("leak", "%llu blocks (%llu bytes) outstanding after every object was destroyed", (unsigned long long)heap::live(), (unsigned long long)heap::live_bytes());
}
