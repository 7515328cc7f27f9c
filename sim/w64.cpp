// The 64-bit world: a family of roaring64 bitmaps, cursors, images.
#include "w64.h"
#include <math.h>

void damage_bytes(std::vector<uint8_t> &b, const std::vector<uint8_t> &other, Rng &r);
bool damage_fields(std::vector<uint8_t> &b, int layout, Rng &r);
static const uint64_t U64 = ~0ULL;

template <class T>
static void shuffle(std::vector<T> &v, Rng &r) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
}
struct Under64 {
    explicit Under64(const char *what) { snprintf(g_sh->plan_note, sizeof g_sh->plan_note, "%s", what); }
    ~Under64() { g_sh->plan_note[0] = 0; }
};

void W64::start(const Plan &p) {
    plan = &p;
    s.resize(std::max<int64_t>(1, p.k("slots", 4)));
    cur.resize(3);
    disk.resize(3);
    Rng r(p.seed ^ 0xC0FFEE64);
    keys = keys64((int)p.k("keys", 0), r);
    for (auto &x : s) {
        x.b = roaring64_bitmap_create();
        if (!x.b) viol("null:create", "create returned NULL");
        memset(&x.ctx, 0, sizeof x.ctx);
    }
}
W64::~W64() {}

uint64_t W64::val(uint64_t r, const Slot64 &q) {
    uint64_t lo, hi, v, x = Rng::mix(r + 77);
    if (x % 6 == 0 && trail.pick(x >> 8, lo, hi)) {
        v = x >> 16 & 1 ? lo : x >> 17 & 1 ? hi : lo + (x >> 20) % (hi - lo < 65536 ? hi - lo + 1 : 65536);
        if (x >> 18 & 1 && v > 0 && x >> 19 & 1) v--;
    } else {
        v = val0(r, q);
    }
    trail.use(v, v);
    return v;
}
uint64_t W64::val0(uint64_t r, const Slot64 &q) {
    uint64_t x = Rng::mix(r * 7 + 5), v;
    uint64_t key = keys[x % keys.size()];
    switch ((r ^ x >> 40) % 9) {
        case 0: return key << 16 | edge_low(x >> 20);
        case 1: return key << 16 | (x >> 20 & 0xffff);
        case 2: if (q.m.nextGE(key << 16 | (x >> 20 & 0xffff), &v)) return v; break;
        case 3: if (q.m.nextGE(key << 16 | (x >> 20 & 0xffff), &v)) return v < U64 ? v + 1 : v; break;
        case 4: if (q.m.prevLE(key << 16 | (x >> 20 & 0xffff), &v)) return v ? v - 1 : v; break;
        case 5: if (q.m.max(&v)) return v - (x >> 30 & 1); break;
        case 6: {  // a key close to one in use: siblings, other prefixes
            uint64_t k = (key ^ (1ULL << (x >> 20) % 48)) & ((1ULL << 48) - 1);
            return k << 16 | edge_low(x >> 30);
        }
        case 7: if ((x & 3) == 0) return Rng::mix(r); break;
    }
    return key << 16 | (x >> 24 & 0xffff);
}
void W64::range(uint64_t r1, uint64_t r2, const Slot64 &q, uint64_t &lo, uint64_t &hi, bool wide) {
    uint64_t tx = Rng::mix(r1 * 31 + r2);
    if (tx % 4 == 0 && trail.pick(tx >> 8, lo, hi)) {  // part of an earlier range, or just beyond it
        uint64_t len = hi - lo;
        switch (tx >> 4 & 7) {
            case 0: if (hi < U64) hi++; break;
            case 1: if (lo) lo--; break;
            case 2: lo += len / 2; break;
            case 3: hi -= len / 2; break;
            case 4: lo = std::min(hi, lo + (tx >> 40) % 4); hi = std::max(lo, hi - std::min(hi, (tx >> 50) % 4)); break;
            case 5: lo &= ~0xffffULL; break;
            case 6: hi |= 0xffff; break;
            case 7:  // from what is left in front of it into the range
                if (uint64_t v, l, h; plan->k("v2", 0) && lo && q.m.prevLE(lo - 1, &v)) {
                    q.m.runAround(v, l, h);
                    hi = lo + (tx >> 24) % (std::min<uint64_t>(len, 4000) + 1);
                    lo = tx >> 20 & 1 ? v : l + (tx >> 30) % (v - l + 1);
                }
                break;
        }
        if (!wide && hi - lo > 5 * 65536) hi = lo + 5 * 65536;
        trail.use(lo, hi);
        return;
    }
    if (plan->k("v2", 0) && tx % 4 == 1 && run_part(q.m, tx >> 4, U64, lo, hi)) {
        if (!wide && hi - lo > 5 * 65536) hi = lo + 5 * 65536;
        trail.use(lo, hi);
        return;
    }
    lo = val0(r1, q);
    uint64_t x = Rng::mix(r2 * 3 + 1), v;
    auto up = [&](uint64_t d) { hi = lo > U64 - d ? U64 : lo + d; };
    switch (x % 12) {
        case 0: hi = lo; break;
        case 1: up(x >> 20 & 0xff); break;
        case 2: up(x >> 20 & 0xffff); break;
        case 3: hi = lo | 0xffff; break;
        case 4: lo &= ~0xffffULL; hi = lo | 0xffff; break;
        case 5: lo &= ~0xffffULL; up((1 + (x >> 20) % 4) * 65536 - 1); break;
        case 6: up(65536 + (x >> 20 & 0x1ffff)); break;
        case 7: hi = val0(x >> 20, q); break;
        case 8: up((x >> 20) % 70); break;
        case 9: lo |= 0xffff; up(1 + (x >> 20) % 3); break;
        case 10:
            if (q.m.nextGE(lo, &v)) { lo = v; hi = v; while (hi < U64 && hi - lo < 5000 && q.m.contains(hi + 1)) hi++; if (x & 4096 && hi < U64) hi++; }
            else hi = lo;
            break;
        default: hi = U64; if (!wide) { hi = lo; up(x >> 20 & 0x3ffff); }
    }
    if (lo > hi) std::swap(lo, hi);
    if (!wide && hi - lo > 5 * 65536) {
        if (x >> 50 & 1) lo = hi - 5 * 65536;
        else hi = lo + 5 * 65536;
    }
    trail.use(lo, hi);
}
// one index node gains and loses children, up to and down to the numbers where its form changes
void W64::crowd(int i, uint64_t seed) {
    static const int sizes[] = {48, 48, 47, 49, 16, 17, 4, 5, 15, 3, 2, 36, 37, 12, 1, 50, 255, 256};
    Slot64 &x = s[i];
    Rng r(seed);
    uint64_t sh = r.chance(1, 2) ? 0 : 8 * r.below(6), base = keys[r.below(keys.size())], v;
    if (!x.m.empty() && r.chance(1, 2)) {
        auto it = x.m.c.begin();
        std::advance(it, (long)r.below(x.m.c.size()));
        base = it->first;
    }
    uint64_t top = base >> sh >> 8 << 8 << sh, low = base & ((1ULL << sh) - 1);
    std::vector<unsigned> in, out;  // bytes with a child, in the order they came, and without
    for (unsigned c = 0; c < 256; c++) {
        uint64_t lo = (top | (uint64_t)c << sh) << 16;
        bool there = x.m.nextGE(lo, &v) && v <= lo + (((1ULL << sh) << 16) - 1);
        (there ? in : out).push_back(c);
    }
    size_t target = (size_t)sizes[r.below(r.chance(1, 6) ? 18 : 14)];
    for (int phase = 2 + (int)r.below(4); phase > 0; phase--) {
        unsigned order = (unsigned)r.below(4);
        while (in.size() < target) {
            size_t j = order == 0 ? 0 : order == 1 ? out.size() - 1 : r.below(out.size());
            unsigned c = out[j];
            out.erase(out.begin() + (long)j);
            in.push_back(c);
            v = (top | (uint64_t)c << sh | low) << 16 | edge_low(r.next());
            roaring64_bitmap_add(x.b, v);
            x.m.add(v);
        }
        while (in.size() > target) {
            size_t j = order == 0 ? 0 : order == 1 ? in.size() - 1 : r.below(in.size());
            unsigned c = in[j];
            in.erase(in.begin() + (long)j);
            out.push_back(c);
            uint64_t lo = (top | (uint64_t)c << sh) << 16, hi = lo + (((1ULL << sh) << 16) - 1);
            if (x.m.rangeCard(lo, hi) <= 4) {
                while (x.m.nextGE(lo, &v) && v <= hi) roaring64_bitmap_remove(x.b, v), x.m.remove(v);
            } else {
                roaring64_bitmap_remove_range_closed(x.b, lo, hi);
                x.m.removeRange(lo, hi);
            }
        }
        target = r.chance(2, 3) ? (size_t)std::max<int64_t>(1, std::min<int64_t>(256, (int64_t)target + r.range(-3, 3))) : (size_t)sizes[r.below(14)];
    }
    STAT("crowded");
}
// sometimes: a change of y first, so that op(x, y) ends on a size where forms change
void W64::aim(int ix, int iy, int o, const int64_t *a) {
    Rng r(Rng::mix((uint64_t)a[4] * 131 + (uint64_t)a[5]) ^ (uint64_t)a[3]);
    if (!plan->k("v2", 0) || ix == iy || s[iy].view || s[iy].borrowed || !r.chance(1, 4)) return;
    std::vector<uint64_t> gain, lose;
    if (!steer(s[ix].m, s[iy].m, o, r, gain, lose)) return;
    mut(iy);
    touched.push_back(iy);
    for (auto *v : {&gain, &lose}) {
        if (v->empty()) continue;
        std::vector<uint64_t> w(v->begin(), v->end());
        if (v == &gain) roaring64_bitmap_add_many(s[iy].b, w.size(), w.data());
        else roaring64_bitmap_remove_many(s[iy].b, w.size(), w.data());
        s[iy].m.setMany(v->data(), v->size(), v == &gain);
    }
    STAT("steered");
}
void W64::aim_range(const Set &m, int o, const int64_t *a, uint64_t &lo, uint64_t &hi) {
    Rng r(Rng::mix((uint64_t)a[2] * 131 + (uint64_t)a[3]) ^ (uint64_t)a[4]);
    if (plan->k("v2", 0) && r.chance(1, 5) && steer_range(m, o, r, U64, lo, hi)) trail.use(lo, hi);
}
void W64::mut(int i) {
    trail.modified = true;
    s[i].ver++;
    memset(&s[i].ctx, 0, sizeof s[i].ctx);
    s[i].last_bulk = -1;
    s[i].bulk_used = false;
    touched.push_back(i);
}
void W64::drop(int i) {
    if (s[i].b && !s[i].borrowed) roaring64_bitmap_free(s[i].b);
    s[i].b = nullptr;
    s[i].borrowed = false;
}
void W64::writable(int i) {
    if (!s[i].view && !s[i].borrowed) return;
    roaring64_bitmap_t *c = roaring64_bitmap_copy(s[i].b);
    if (!c) viol("null:copy", "copy of a view returned NULL");
    bool view = s[i].view;
    drop(i);
    if (view && !s[i].back->intact()) viol("view-written", "the bytes under a read-only view changed");
    s[i].b = c;
    s[i].view = false;
    s[i].back.reset();
    mut(i);
}
void W64::put(int i, roaring64_bitmap_t *b, const Set &m) {
    if (!b) viol(("null:" + st->op).c_str(), "%s returned NULL although no request was refused", st->op.c_str());
    Set copy = m;
    drop(i);
    s[i].b = b;
    s[i].m = copy;
    s[i].view = false;
    s[i].back.reset();
    mut(i);
}

// ---------------------------------------------------------------- observation
struct CbCtx64 {
    std::vector<uint64_t> v;
    uint64_t stop_after;
    bool after_stop = false, stopped = false;
};
static bool cb(uint64_t v, void *p) {
    CbCtx64 *c = (CbCtx64 *)p;
    if (c->stopped) c->after_stop = true;
    c->v.push_back(v);
    if (c->v.size() >= c->stop_after) { c->stopped = true; return false; }
    return true;
}
void W64::check_slot(int i, unsigned chan) {
    Slot64 &x = s[i];
    uint64_t card = x.m.card();
    std::string cls = "content:" + st->op;
    uint64_t got = roaring64_bitmap_get_cardinality(x.b);
    lg(got);
    if (oracle & O_LOG) {
        trace.push_back(got);
        if (card <= (1 << 20)) {
            std::vector<char> b(roaring64_bitmap_portable_size_in_bytes(x.b) + 1);
            size_t n = roaring64_bitmap_portable_serialize(x.b, b.data());
            resb(b.data(), n);
        }
        return;
    }
    if (!want(O_CONTENT)) return;
    if (got != card) viol(cls.c_str(), "slot %d: cardinality %llu, the set has %llu", i, (unsigned long long)got, (unsigned long long)card);
    if (roaring64_bitmap_is_empty(x.b) != (card == 0)) viol(cls.c_str(), "slot %d: is_empty wrong", i);
    if (card > (1 << 21) || (cheap && Rng::mix(stepno * 7 + i) % 8)) chan = 4;
    switch (chan % 7) {
        case 0: {
            std::unique_ptr<uint64_t[]> a(new uint64_t[card]);
            roaring64_bitmap_to_uint64_array(x.b, a.get());
            check_array(cls.c_str(), "to_uint64_array", x.m, a.get(), card);
            break;
        }
        case 1: {
            CbCtx64 c;
            c.stop_after = U64;
            c.v.reserve(card + 1);
            if (!roaring64_bitmap_iterate(x.b, cb, &c)) viol(cls.c_str(), "iterate returned false though the callback never did");
            check_array(cls.c_str(), "iterate", x.m, c.v.data(), c.v.size());
            break;
        }
        case 2: {
            std::vector<uint64_t> a;
            a.reserve(card + 1);
            roaring64_iterator_t *it = roaring64_iterator_create(x.b);
            while (roaring64_iterator_has_value(it) && a.size() <= card) {
                a.push_back(roaring64_iterator_value(it));
                roaring64_iterator_advance(it);
            }
            roaring64_iterator_free(it);
            check_array(cls.c_str(), "iterator", x.m, a.data(), a.size());
            break;
        }
        case 3: {
            std::vector<uint64_t> a;
            a.reserve(card + 1);
            roaring64_iterator_t *it = roaring64_iterator_create(x.b);
            static const uint32_t sz[] = {1, 7, 64, 1000, 70000};
            uint32_t n = sz[Rng::mix(stepno) % 5];
            if (n < 64 && card > 20000) n = 999;
            std::unique_ptr<uint64_t[]> buf(new uint64_t[n]);
            while (a.size() <= card) {
                uint64_t k = roaring64_iterator_read(it, buf.get(), n);
                a.insert(a.end(), buf.get(), buf.get() + k);
                if (k < n) break;
            }
            roaring64_iterator_free(it);
            check_array(cls.c_str(), "iterator_read", x.m, a.data(), a.size());
            break;
        }
        case 4: {
            size_t n = roaring64_bitmap_portable_size_in_bytes(x.b);
            if (n > (64u << 20)) break;
            Buf b(n, 1);
            size_t w = roaring64_bitmap_portable_serialize(x.b, (char *)b.p);
            if (w != n) viol(cls.c_str(), "portable_serialize wrote %zu bytes, announced %zu", w, n);
            Set o;
            std::string why;
            if (!decode_portable64(b.p, n, o, why)) viol(cls.c_str(), "stored form is not a valid image: %s", why.c_str());
            if (!(o == x.m)) viol(cls.c_str(), "stored form holds another set");
            break;
        }
        case 5: {
            std::vector<uint64_t> a;
            a.reserve(card + 1);
            roaring64_iterator_t *it = roaring64_iterator_create_last(x.b);
            while (roaring64_iterator_has_value(it) && a.size() <= card) {
                a.push_back(roaring64_iterator_value(it));
                roaring64_iterator_previous(it);
            }
            roaring64_iterator_free(it);
            std::reverse(a.begin(), a.end());
            check_array(cls.c_str(), "backward iterator", x.m, a.data(), a.size());
            break;
        }
        case 6: {
            roaring64_bitmap_t *c = roaring64_bitmap_copy(x.b);
            if (!c) viol("null:copy", "copy returned NULL");
            std::unique_ptr<uint64_t[]> a(new uint64_t[card]);
            roaring64_bitmap_to_uint64_array(c, a.get());
            bool eq = roaring64_bitmap_equals(c, x.b);
            roaring64_bitmap_free(c);
            check_array(cls.c_str(), "copy", x.m, a.get(), card);
            if (!eq) viol(cls.c_str(), "slot %d differs from its copy", i);
            break;
        }
    }
    if (x.view && !x.back->intact()) viol("view-written", "the bytes under a read-only view changed");
}
void W64::valid(int i) {
    Slot64 &x = s[i];
    const char *why = nullptr;
    if (!roaring64_bitmap_internal_validate(x.b, &why))
        viol(("invalid:" + st->op).c_str(), "slot %d fails internal validation after %s: %s", i, st->op.c_str(), why ? why : "(no reason)");
    size_t n = roaring64_bitmap_portable_size_in_bytes(x.b);
    if (n > (64u << 20)) return;
    Buf b(n, 1);
    roaring64_bitmap_portable_serialize(x.b, (char *)b.p);
    Set o;
    std::string w;
    if (!decode_portable64(b.p, n, o, w)) viol(("structure:" + st->op).c_str(), "slot %d, stored form: %s", i, w.c_str());
    if (!(o == x.m)) viol(("content:" + st->op).c_str(), "slot %d, stored form holds another set", i);
}
static void sig_slot(const Slot64 &x, const std::string &op) {
    roaring64_statistics_t t;
    roaring64_bitmap_statistics(x.b, &t);
    auto lg2 = [](uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; };
    uint64_t h = 64;
    for (char c : op) h = hmix(h, (unsigned char)c);
    h = hmix(h, std::min<uint64_t>(t.n_array_containers, 4u));
    h = hmix(h, std::min<uint64_t>(t.n_run_containers, 4u));
    h = hmix(h, std::min<uint64_t>(t.n_bitset_containers, 4u));
    h = hmix(h, lg2(t.n_containers));
    h = hmix(h, lg2(t.n_values_array_containers));
    h = hmix(h, lg2(t.n_values_run_containers));
    h = hmix(h, lg2(t.n_values_bitset_containers));
    sig_seen(h);
}
// What was just changed is asked about at once: ranges that meet or straddle the place.
void W64::probe(int i) {
    Slot64 &x = s[i];
    if (!plan->k("v2", 0) || !want(O_RES)) return;
    Rng r(Rng::mix(stepno * 1237 + i) ^ (uint64_t)st->a[1]);
    for (int k = 0; k < 3; k++) {
        uint64_t lo = 0, hi = 0, v, l, h;
        const auto &t = trail.now;
        if (!t.empty() && r.chance(2, 3)) {
            const auto &q = t[r.below(t.size())];
            uint64_t len = std::min<uint64_t>(q.second - q.first, 70000);
            lo = hi = q.first;
            switch (r.below(6)) {
                case 0: case 1: case 2:  // from what is left in front of it into it
                    if (lo && x.m.prevLE(lo - 1, &v)) {
                        x.m.runAround(v, l, h);
                        lo = r.chance(1, 2) ? v : l + r.below(v - l + 1);
                        if (hi - lo > 200000) lo = v;
                    }
                    hi += r.chance(1, 3) ? 0 : r.below(std::min<uint64_t>(len, r.chance(1, 2) ? 20 : 70000) + 1);
                    break;
                case 3:  // out of it into what follows
                    lo = q.second - r.below(std::min<uint64_t>(len, 20) + 1);
                    hi = x.m.nextGE(q.second, &v) ? v : q.second;
                    break;
                case 4: lo = q.first + r.below(len + 1); hi = lo + r.below(len + 1); break;
                default: lo = q.first ? q.first - r.below(std::min<uint64_t>(q.first, 3) + 1) : 0; hi = q.second + (q.second < U64 ? r.below(2) : 0);
            }
        } else if (!run_part(x.m, r.next(), U64, lo, hi)) continue;
        if (hi >= U64) hi = U64 - 1;
        if (lo > hi) lo = hi;
        if (hi - lo > 400000) hi = lo + 400000;
        uint64_t c = x.m.rangeCard(lo, hi);
        CHECK_RES(*this, roaring64_bitmap_contains_range(x.b, lo, hi + 1), c == hi - lo + 1);
        CHECK_RES(*this, roaring64_bitmap_range_cardinality(x.b, lo, hi + 1), c);
        CHECK_RES(*this, roaring64_bitmap_intersect_with_range(x.b, lo, hi + 1), c > 0);
        CHECK_RES(*this, roaring64_bitmap_contains(x.b, lo), x.m.contains(lo));
        CHECK_RES(*this, roaring64_bitmap_contains(x.b, hi), x.m.contains(hi));
        if (k) continue;
        uint64_t rk = x.m.rank(hi), got = 0;
        CHECK_RES(*this, roaring64_bitmap_rank(x.b, hi), rk);
        bool ok = roaring64_bitmap_get_index(x.b, hi, &got);
        CHECK_RES(*this, ok, x.m.contains(hi));
        if (ok) CHECK_RES(*this, got, rk - 1);
        ok = roaring64_bitmap_select(x.b, rk, &got);  // the first value after hi
        CHECK_RES(*this, ok, rk < x.m.card());
        if (ok) CHECK_RES(*this, got, x.m.nextGE(hi + 1, &v) ? v : 0);
        roaring64_iterator_t *it = roaring64_iterator_create(x.b);
        ok = roaring64_iterator_move_equalorlarger(it, lo);
        CHECK_RES(*this, ok, x.m.nextGE(lo, &v));
        if (ok) CHECK_RES(*this, roaring64_iterator_value(it), v);
        roaring64_iterator_free(it);
        CHECK_RES(*this, roaring64_bitmap_minimum(x.b), x.m.min(&v) ? v : U64);
        CHECK_RES(*this, roaring64_bitmap_maximum(x.b), x.m.max(&v) ? v : 0);
        if (!r.chance(1, 3) || s.size() < 2) continue;
        const Slot64 &y = s[(i + 1 + r.below(s.size() - 1)) % s.size()];
        if ( y.m.card() > 200000 || x.m.card() > 200000) continue;
        uint64_t both = Set::comb(x.m, y.m, 0).card();
        CHECK_RES(*this, roaring64_bitmap_and_cardinality(x.b, y.b), both);
        CHECK_RES(*this, roaring64_bitmap_intersect(x.b, y.b), both > 0);
        CHECK_RES(*this, roaring64_bitmap_is_subset(x.b, y.b), both == x.m.card());
        CHECK_RES(*this, roaring64_bitmap_is_subset(y.b, x.b), both == y.m.card());
        CHECK_RES(*this, roaring64_bitmap_equals(x.b, y.b), both == x.m.card() && both == y.m.card());
    }
}
void W64::check_all(bool full) {
    std::sort(touched.begin(), touched.end());
    touched.erase(std::unique(touched.begin(), touched.end()), touched.end());
    const std::vector<int> list = touched;  // a check may touch more
    for (int i : list) {
        sig_slot(s[i], st->op);
        check_slot(i, (unsigned)(Rng::mix(stepno * 31 + i) % 7));
        if (want(O_VALID)) valid(i);
        if (want(O_IMG)) image_check(i);
        probe(i);
    }
    for (int i = 0; i < (int)s.size(); i++) {
        if (std::binary_search(touched.begin(), touched.end(), i)) continue;
        if (full) {
            check_slot(i, (unsigned)(Rng::mix(stepno * 17 + i) % 7));
            if (want(O_VALID)) valid(i);
        } else if (want(O_CONTENT)) {
            uint64_t c = roaring64_bitmap_get_cardinality(s[i].b), e = s[i].m.card();
            if (c != e) viol(("content:" + st->op).c_str(), "slot %d, not an operand of %s: cardinality %llu, the set has %llu", i, st->op.c_str(), (unsigned long long)c, (unsigned long long)e);
        }
    }
    touched.clear();
    if (want(O_MEM) && heap::custody()) viol("custody", "%s (during %s)", heap::custody(), st->op.c_str());
}

// ---------------------------------------------------------------- storage
std::vector<uint8_t> W64::store(int i, bool frozen) {
    Slot64 &x = s[i];
    std::vector<uint8_t> out;
    size_t n, w;
    if (!frozen) {
        n = roaring64_bitmap_portable_size_in_bytes(x.b);
        Buf b(n, 1);
        memset(b.p, junk, n);
        w = roaring64_bitmap_portable_serialize(x.b, (char *)b.p);
        out.assign(b.p, b.p + n);
    } else {
        roaring64_bitmap_t *c = x.b;
        bool own = !x.view && !x.borrowed && Rng::mix(stepno + i) % 2;
        if (own) {
            roaring64_bitmap_shrink_to_fit(c);
            mut(i);
        } else {
            c = roaring64_bitmap_copy(x.b);
            if (!c) viol("null:copy", "copy returned NULL");
            roaring64_bitmap_shrink_to_fit(c);
        }
        n = roaring64_bitmap_frozen_size_in_bytes(c);
        Buf b(n, 64);
        memset(b.p, junk, n);
        w = roaring64_bitmap_frozen_serialize(c, (char *)b.p);
        out.assign(b.p, b.p + n);
        if (!own) roaring64_bitmap_free(c);
        if (!n) viol("image", "frozen size of a shrunk bitmap is 0");
    }
    if (w != n && want(O_IMG)) viol("image", "%s serialisation wrote %zu bytes, announced %zu", frozen ? "frozen" : "portable", w, n);
    return out;
}
std::vector<Stored> W64::stored(int i) {
    auto v = store(i, false);
    return stored_sizes64(v.data(), v.size());
}
void W64::image_check(int i) {
    if (s[i].m.card() > (1 << 21)) return;
    {
        auto v = store(i, false);
        resb(v.data(), v.size());
        Set o;
        std::string why;
        if (!decode_portable64(v.data(), v.size(), o, why)) viol("image-decode", "portable image of slot %d is not readable by an independent decoder: %s", i, why.c_str());
        if (!(o == s[i].m)) viol("image-content", "portable image of slot %d holds another set", i);
    }
    if (Rng::mix(stepno) % 2) {
        auto v = store(i, true);
        Img64 im;
        im.frozen = true;
        im.b = v;
        im.m = s[i].m;
        BufP keep;
        bool view;
        roaring64_bitmap_t *r = load(im, keep, view);
        uint64_t c = roaring64_bitmap_get_cardinality(r);
        if (c != s[i].m.card()) viol("image-content", "frozen image of slot %d shows %llu values, the set has %llu", i, (unsigned long long)c, (unsigned long long)s[i].m.card());
        std::unique_ptr<uint64_t[]> a(new uint64_t[c]);
        roaring64_bitmap_to_uint64_array(r, a.get());
        check_array("image-content", "frozen image", s[i].m, a.get(), c);
        roaring64_bitmap_free(r);
        if (!keep->intact()) viol("view-written", "the bytes under a read-only view changed");
    }
    STAT("image_checked");
}
roaring64_bitmap_t *W64::load(const Img64 &im, BufP &keep, bool &view) {
    size_t n = im.b.size();
    size_t shift = im.frozen ? 0 : Rng::mix(stepno) % 4;
    BufP b(new Buf(n, im.frozen ? 64 : 16, shift));
    memcpy(b->p, im.b.data(), n);
    b->seal();
    const char *p = (const char *)b->p;
    roaring64_bitmap_t *r;
    if (im.frozen) {
        r = roaring64_bitmap_frozen_view(p, n);
        view = true;
        STAT("load_frozen_view");
    } else {
        size_t probe = roaring64_bitmap_portable_deserialize_size(p, n);
        if (probe != n) viol("size-probe", "size probe of a %zu-byte portable image says %zu", n, probe);
        r = roaring64_bitmap_portable_deserialize_safe(p, n);
        view = false;
    }
    if (!r) viol("load-null", "a complete %s image of %zu bytes was refused", im.frozen ? "frozen" : "portable", n);
    if (!b->intact()) viol("view-written", "reading an image changed it");
    if (view) keep = b;
    return r;
}
void W64::set_loaded(int i, const Img64 &im) {
    BufP keep;
    bool view;
    roaring64_bitmap_t *r = load(im, keep, view);
    put(i, r, im.m);
    s[i].view = view;
    s[i].back = keep;
}

// ---------------------------------------------------------------- cursors
void W64::cursor_check(Cur64 &c, const char *what) {
    bool h = roaring64_iterator_has_value(c.it);
    res(h);
    if (h) res(roaring64_iterator_value(c.it));
    if (!want(O_RES)) return;
    if (h != (c.state == 0)) viol("cursor", "%s: has_value=%d, an ordered-set cursor says %d", what, h, c.state == 0);
    if (h && roaring64_iterator_value(c.it) != c.v)
        viol("cursor", "%s: at %llu, an ordered-set cursor is at %llu", what, (unsigned long long)roaring64_iterator_value(c.it), (unsigned long long)c.v);
}
void W64::cursor_op(const Step &st) {
    Cur64 &c = cur[(uint64_t)st.a[1] % cur.size()];
    const std::string &op = st.op;
    bool live = c.it && c.slot >= 0 && c.ver == s[c.slot].ver && c.state != 3;
    if (op == "cur_open" || op == "cur_open_last" || !live) {
        int i = idx(st.a[0]);
        bool last = op == "cur_open_last";
        uint64_t v = 0;
        bool has = last ? s[i].m.max(&v) : s[i].m.min(&v);
        if (c.it && st.a[2] % 2) {
            if (last) roaring64_iterator_reinit_last(s[i].b, c.it);
            else roaring64_iterator_reinit(s[i].b, c.it);
        } else {
            if (c.it) roaring64_iterator_free(c.it);
            c.it = last ? roaring64_iterator_create_last(s[i].b) : roaring64_iterator_create(s[i].b);
            if (!c.it) viol("null:iterator", "iterator_create returned NULL");
        }
        c.slot = i;
        c.ver = s[i].ver;
        c.state = has ? 0 : last ? 2 : 1;
        c.v = v;
        cursor_check(c, "new cursor");
        if (op == "cur_open" || op == "cur_open_last") return;
    }
    Slot64 &x = s[c.slot];
    STAT("cursor_moves");
    uint64_t v;
    if (op == "cur_next") {
        unsigned n = 1 + (st.a[2] % 8 == 0 ? st.a[3] % 300 : st.a[3] % 4);
        for (unsigned k = 0; k < n; k++) {
            if (c.state == 1) break;
            bool g = roaring64_iterator_advance(c.it);
            bool e;
            if (c.state == 2) e = x.m.min(&v);
            else e = c.v < U64 && x.m.nextGE(c.v + 1, &v);
            c.state = e ? 0 : 1;
            if (e) c.v = v;
            if (want(O_RES) && g != e) viol("cursor", "advance returned %d, expected %d", g, e);
            cursor_check(c, "advance");
        }
    } else if (op == "cur_prev") {
        unsigned n = 1 + (st.a[2] % 8 == 0 ? st.a[3] % 300 : st.a[3] % 4);
        for (unsigned k = 0; k < n; k++) {
            if (c.state == 2) break;
            bool g = roaring64_iterator_previous(c.it);
            bool e;
            if (c.state == 1) e = x.m.max(&v);
            else e = c.v > 0 && x.m.prevLE(c.v - 1, &v);
            c.state = e ? 0 : 2;
            if (e) c.v = v;
            if (want(O_RES) && g != e) viol("cursor", "previous returned %d, expected %d", g, e);
            cursor_check(c, "previous");
        }
    } else if (op == "cur_seek") {
        uint64_t t = val(st.a[2], x);
        // seeking is specified for values at or after the position
        if (c.state == 1) {
            if (st.a[3] % 2) return;
            Cur64 was = c;
            (void)was;
            bool e = x.m.nextGE(t, &v);
            if (e) return;  // behind the cursor: unspecified
        } else if (c.state == 0 && t < c.v) {
            return;
        }
        bool g = roaring64_iterator_move_equalorlarger(c.it, t);
        bool e = x.m.nextGE(t, &v);
        c.state = e ? 0 : 1;
        if (e) c.v = v;
        if (want(O_RES) && g != e) viol("cursor", "move_equalorlarger(%llu) returned %d, expected %d", (unsigned long long)t, g, e);
        cursor_check(c, "move_equalorlarger");
    } else if (op == "cur_read") {
        static const uint32_t sz[] = {0, 1, 2, 3, 5, 8, 63, 64, 65, 100, 1000, 4096, 5000, 65536, 70000, 200000};
        uint64_t n = sz[(uint64_t)st.a[2] % 16];
        if (st.a[3] % 3 == 0) n = (uint64_t)(st.a[3] % 300);
        if (c.state == 2) return;
        std::unique_ptr<uint64_t[]> buf(new uint64_t[n]);
        std::vector<uint64_t> e;
        if (c.state == 0 && n) {
            uint64_t rk = x.m.rank(c.v) - 1;
            e = x.m.vec(rk, n);
            if (e.size() == n && x.m.select(rk + n, &v)) c.v = v;
            else c.state = 1;
        }
        uint64_t k = roaring64_iterator_read(c.it, buf.get(), n);
        res(k);
        if (want(O_RES)) {
            if (k != e.size()) viol("cursor", "read(%llu) delivered %llu, %zu were left", (unsigned long long)n, (unsigned long long)k, e.size());
            for (uint64_t j = 0; j < k; j++)
                if (buf[j] != e[j]) viol("cursor", "read(%llu): value #%llu is %llu, expected %llu", (unsigned long long)n, (unsigned long long)j, (unsigned long long)buf[j], (unsigned long long)e[j]);
        }
        if (k) resb(buf.get(), 8 * (size_t)k);
        cursor_check(c, "read");
    } else if (op == "cur_copy") {
        Cur64 &d = cur[(uint64_t)st.a[2] % cur.size()];
        if (&d == &c) return;
        roaring64_iterator_t *q = roaring64_iterator_copy(c.it);
        if (!q) viol("null:iterator", "iterator_copy returned NULL");
        if (d.it) roaring64_iterator_free(d.it);
        d = c;
        d.it = q;
        cursor_check(d, "copy");
    }
}

// ---------------------------------------------------------------- steps
static std::vector<uint64_t> fill_values(const Chunk &k, uint64_t key) {
    std::vector<uint64_t> v;
    for (int i = 0; i < 1024; i++)
        for (uint64_t x = k.w[i]; x; x &= x - 1) v.push_back(key << 16 | (uint64_t)(i * 64 + __builtin_ctzll(x)));
    return v;
}
static std::vector<uint64_t> val_list(W64 &w, const Step &st, const Slot64 &x, unsigned maxn) {
    Rng r((uint64_t)st.a[3] * 1000003 + (uint64_t)st.a[4]);
    unsigned n = (unsigned)(st.a[2] % 7 == 0 ? r.below(maxn) : r.below(20));
    std::vector<uint64_t> v;
    for (unsigned i = 0; i < n; i++) {
        if (i && r.chance(1, 6)) v.push_back(v[r.below(v.size())]);
        else if (i && r.chance(1, 2)) { uint64_t d = r.below(5); v.push_back(v.back() > U64 - d ? U64 : v.back() + d); }
        else v.push_back(w.val(r.below(1 << 20), x));
    }
    if (st.a[5] % 2) std::sort(v.begin(), v.end());
    return v;
}
static Set as_set(std::vector<uint64_t> v) {
    std::sort(v.begin(), v.end());
    Set m;
    m.setMany(v.data(), v.size(), true);
    return m;
}
// a 32-bit bitmap to move from
static roaring_bitmap_t *make32(const Set &m, unsigned how, roaring_bitmap_t **twin) {
    std::vector<uint32_t> v;
    m.each([&](uint64_t x) { v.push_back((uint32_t)x); return true; });
    roaring_bitmap_t *r = roaring_bitmap_of_ptr(v.size(), v.data());
    if (!r) viol("null:of_ptr", "of_ptr returned NULL");
    if (how & 1) roaring_bitmap_run_optimize(r);
    *twin = nullptr;
    if (how & 2) {
        roaring_bitmap_set_copy_on_write(r, true);
        if (how & 4) *twin = roaring_bitmap_copy(r);
    }
    return r;
}

// C20: a cycle of changes that ends where it began, repeated
void W64::churn_op(const Step &stp) {
    const int64_t *a = stp.a;
    int d = idx(a[0]), e = idx(a[1]);
    writable(d);
    Slot64 &D = s[d], &E = s[e];
    if (D.m.card() > 40000 || D.m.c.size() > 200 || E.m.c.size() > 200) return;
    mut(d);
    struct Mini { unsigned what; uint64_t lo, hi; std::vector<uint64_t> l; };
    std::vector<Mini> prog;
    Rng r((uint64_t)a[2] * 77 + 5);
    unsigned n = (unsigned)r.range(1, 7), back = (unsigned)r.below(3);
    for (unsigned i = 0; i < n; i++) {
        Mini m;
        m.what = (unsigned)r.below(13);
        range(r.below(1 << 20), r.below(1 << 20), D, m.lo, m.hi, false);
        if (m.hi - m.lo > (1 << 18)) m.hi = m.lo + (1 << 18);
        for (unsigned j = (unsigned)r.below(60); j--;) m.l.push_back(r.chance(1, 3) ? keys[r.below(keys.size())] << 16 | r.below(3) : val(r.below(1 << 20), D));
        prog.push_back(m);
    }
    roaring64_bitmap_t *base = roaring64_bitmap_copy(D.b), *other = d == e ? base : E.b;
    if (!base) viol("null:copy", "copy returned NULL");
    churn_settles([&]() {
        for (auto &m : prog) {
            switch (m.what) {
                case 0: roaring64_bitmap_add_range_closed(D.b, m.lo, m.hi); break;
                case 1: roaring64_bitmap_remove_range_closed(D.b, m.lo, m.hi); break;
                case 2: roaring64_bitmap_flip_closed_inplace(D.b, m.lo, m.hi); break;
                case 3: roaring64_bitmap_add_many(D.b, m.l.size(), m.l.data()); break;
                case 4: roaring64_bitmap_remove_many(D.b, m.l.size(), m.l.data()); break;
                case 5: roaring64_bitmap_or_inplace(D.b, other); break;
                case 6: roaring64_bitmap_xor_inplace(D.b, other); break;
                case 7: roaring64_bitmap_andnot_inplace(D.b, other); break;
                case 8: roaring64_bitmap_run_optimize(D.b); break;
                case 9: {
                    roaring64_bitmap_t *c = roaring64_bitmap_copy(D.b);
                    if (!c) viol("null:copy", "copy returned NULL");
                    roaring64_bitmap_free(D.b);
                    D.b = c;
                    break;
                }
                case 10: roaring64_bitmap_and_inplace(D.b, other); break;
                case 11:
                    for (auto v : m.l) roaring64_bitmap_add(D.b, v);
                    for (auto v : m.l) roaring64_bitmap_remove(D.b, v);
                    break;
                default: {
                    roaring64_bulk_context_t c;
                    memset(&c, 0, sizeof c);
                    for (auto v : m.l) roaring64_bitmap_add_bulk(D.b, &c, v);
                    for (auto v : m.l) roaring64_bitmap_remove_bulk(D.b, &c, v);
                }
            }
        }
        switch (back) {
            case 0: {
                roaring64_bitmap_t *t = roaring64_bitmap_xor(D.b, base);
                if (!t) viol("null:xor", "xor returned NULL");
                roaring64_bitmap_xor_inplace(D.b, t);
                roaring64_bitmap_free(t);
                break;
            }
            case 1:
                roaring64_bitmap_remove_range_closed(D.b, 0, UINT64_MAX);
                roaring64_bitmap_or_inplace(D.b, base);
                break;
            default:
                roaring64_bitmap_and_inplace(D.b, base);
                roaring64_bitmap_or_inplace(D.b, base);
        }
    });
    roaring64_bitmap_free(base);
    STAT("churned");
    if (a[3] % 3 == 0) {  // emptied and shrunk: as small as a new one
        if (a[4] % 2) roaring64_bitmap_clear(D.b);
        else roaring64_bitmap_remove_range_closed(D.b, 0, UINT64_MAX);
        roaring64_bitmap_shrink_to_fit(D.b);
        uint64_t l = heap::live_bytes();
        roaring64_bitmap_free(D.b);
        l -= heap::live_bytes();
        uint64_t l0 = heap::live_bytes();
        D.b = roaring64_bitmap_create();
        if (!D.b) viol("null:create", "create returned NULL");
        l0 = heap::live_bytes() - l0;
        if (l > l0) viol("growth:empty", "an emptied and shrunk bitmap holds %llu bytes, a new one %llu", (unsigned long long)l, (unsigned long long)l0);
        D.m = Set();
        STAT("churn_emptied");
    }
}
void W64::step(const Step &stp) {
    st = &stp;
    const std::string &op = stp.op;
    const int64_t *a = stp.a;
    stepno++;
    trail.next_step();
    int d = idx(a[0]), e = idx(a[1]);
    Slot64 &D = s[d], &E = s[e];
    if (op.compare(0, 4, "cur_") == 0) {
        cursor_op(stp);
    } else if (op == "fill") {
        writable(d);
        uint64_t key = keys[(uint64_t)a[1] % keys.size()];
        unsigned nk = a[4] / 8 % 3 == 0 ? (unsigned)std::min<size_t>(keys.size(), 1 + (uint64_t)a[5] % 300) : 1;
        Rng r((uint64_t)a[3]);
        mut(d);
        for (unsigned z = 0; z < nk; z++) {
            if (z) key = keys[((uint64_t)a[1] + z) % keys.size()];
            Chunk k;
            unsigned pat = (unsigned)a[2];
            if (nk > 4) pat = z % 5 == 1 ? 10 : 0;  // many keys: small containers
            pattern(r, pat, k);
            if (a[5] % 4 == 0 && D.m.c.count(key)) {
                roaring64_bitmap_remove_range_closed(D.b, key << 16, (key << 16) + 65535);
                D.m.c.erase(key);
            }
            unsigned how = (unsigned)(a[4] % 6);
            auto v = fill_values(k, key);
            if (how == 1 && v.size() > 6000) how = 0;
            switch (how) {
                case 0: roaring64_bitmap_add_many(D.b, v.size(), v.data()); break;
                case 1: for (auto x : v) roaring64_bitmap_add(D.b, x); break;
                case 2: {
                    size_t i = 0;
                    while (i < v.size()) {
                        size_t j = i;
                        while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++;
                        roaring64_bitmap_add_range_closed(D.b, v[i], v[j]);
                        i = j + 1;
                    }
                    break;
                }
                case 3: {
                    roaring64_bitmap_t *t = roaring64_bitmap_of_ptr(v.size(), v.data());
                    if (!t) viol("null:of_ptr", "of_ptr returned NULL");
                    if (a[5] & 1) roaring64_bitmap_run_optimize(t);
                    roaring64_bitmap_or_inplace(D.b, t);
                    roaring64_bitmap_free(t);
                    break;
                }
                case 4: {
                    roaring64_bulk_context_t c;
                    memset(&c, 0, sizeof c);
                    shuffle(v, r);
                    for (auto x : v) roaring64_bitmap_add_bulk(D.b, &c, x);
                    break;
                }
                default: {
                    Set m;
                    if (k.n) m.c[key] = std::make_shared<Chunk>(k);
                    auto im = encode_portable64(m, r);
                    roaring64_bitmap_t *t = roaring64_bitmap_portable_deserialize_safe((char *)im.data(), im.size());
                    if (!t) viol("load-null", "a valid image of another writer was refused");
                    if (D.m.empty()) {
                        roaring64_bitmap_free(D.b);
                        D.b = t;
                    } else {
                        roaring64_bitmap_or_inplace(D.b, t);
                        roaring64_bitmap_free(t);
                    }
                    break;
                }
            }
            if (k.n) D.m.edit(key, [&](Chunk &c) { for (int i = 0; i < 1024; i++) c.w[i] |= k.w[i]; c.recount(); });
        }
    } else if (op == "drop_keys") {  // many keys leave: index nodes shrink
        writable(d);
        mut(d);
        if (plan->k("v2", 0) && a[5] % 2) {
            crowd(d, (uint64_t)a[2] * 977 + (uint64_t)a[3]);
            return;
        }
        Rng r((uint64_t)a[3]);
        std::vector<uint64_t> ks;
        for (auto &x : D.m.c) ks.push_back(x.first);
        unsigned keep = (unsigned)(a[2] % 4);
        for (auto k : ks) {
            if (r.below(4) < keep) continue;
            switch (a[4] % 3) {
                case 0: roaring64_bitmap_remove_range_closed(D.b, k << 16, (k << 16) + 65535); break;
                case 1: {
                    auto v = fill_values(*D.m.c[k], k);
                    if (v.size() > 3000) roaring64_bitmap_remove_range_closed(D.b, k << 16, (k << 16) + 65535);
                    else for (auto x : v) roaring64_bitmap_remove(D.b, x);
                    break;
                }
                default: {
                    auto v = fill_values(*D.m.c[k], k);
                    roaring64_bitmap_remove_many(D.b, v.size(), v.data());
                }
            }
            D.m.c.erase(k);
        }
    } else if (op == "add" || op == "add_checked") {
        writable(d);
        uint64_t v = val(a[2], D);
        mut(d);
        if (op == "add") roaring64_bitmap_add(D.b, v), D.m.add(v);
        else { bool ex = D.m.add(v); CHECK_RES(*this, roaring64_bitmap_add_checked(D.b, v), ex); }
    } else if (op == "remove" || op == "remove_checked") {
        writable(d);
        uint64_t v = val(a[2], D);
        mut(d);
        if (op == "remove") roaring64_bitmap_remove(D.b, v), D.m.remove(v);
        else { bool ex = D.m.remove(v); CHECK_RES(*this, roaring64_bitmap_remove_checked(D.b, v), ex); }
    } else if (op == "add_many" || op == "remove_many") {
        writable(d);
        auto v = val_list(*this, stp, D, op == "add_many" ? 3000 : 1000);
        if (op == "remove_many" && a[2] % 5 == 1 && !D.m.empty()) {
            auto it = D.m.c.begin();
            std::advance(it, (uint64_t)a[3] % D.m.c.size());
            v = fill_values(*it->second, it->first);
            Rng r((uint64_t)a[4]);
            shuffle(v, r);
            if (v.size() > 20000) v.resize(20000);
            if (a[5] % 3 == 0) std::sort(v.begin(), v.end());
            else v.resize(v.size() - r.below(v.size()) / 2);
        }
        mut(d);
        if (op == "add_many") roaring64_bitmap_add_many(D.b, v.size(), v.data());
        else roaring64_bitmap_remove_many(D.b, v.size(), v.data());
        std::sort(v.begin(), v.end());
        D.m.setMany(v.data(), v.size(), op == "add_many");
    } else if (op == "add_range" || op == "remove_range" || op == "flip_inplace") {
        writable(d);
        uint64_t lo, hi;
        range(a[2], a[3], D, lo, hi, op == "remove_range");
        aim_range(D.m, op == "add_range" ? 0 : op == "remove_range" ? 1 : 2, a, lo, hi);
        mut(d);
        bool closed = a[5] % 2 || hi == U64;
        bool empty = a[5] % 23 == 5;
        if (empty) {
            if (op == "add_range") roaring64_bitmap_add_range(D.b, hi, lo);
            else if (op == "remove_range") roaring64_bitmap_remove_range(D.b, hi, lo);
            else roaring64_bitmap_flip_inplace(D.b, hi, lo);
            if (hi > lo) {
                if (op == "add_range") roaring64_bitmap_add_range_closed(D.b, hi, lo);
                else if (op == "remove_range") roaring64_bitmap_remove_range_closed(D.b, hi, lo);
                else roaring64_bitmap_flip_closed_inplace(D.b, hi, lo);
            }
        } else if (op == "add_range") {
            if (closed) roaring64_bitmap_add_range_closed(D.b, lo, hi);
            else roaring64_bitmap_add_range(D.b, lo, hi + 1);
            D.m.addRange(lo, hi);
        } else if (op == "remove_range") {
            if (closed) roaring64_bitmap_remove_range_closed(D.b, lo, hi);
            else roaring64_bitmap_remove_range(D.b, lo, hi + 1);
            D.m.removeRange(lo, hi);
        } else {
            if (closed) roaring64_bitmap_flip_closed_inplace(D.b, lo, hi);
            else roaring64_bitmap_flip_inplace(D.b, lo, hi + 1);
            D.m.flipRange(lo, hi);
        }
    } else if (op == "flip") {
        uint64_t lo, hi;
        range(a[2], a[3], E, lo, hi, false);
        aim_range(E.m, 2, a, lo, hi);
        Set m = E.m;
        roaring64_bitmap_t *r;
        if (a[5] % 23 == 5) r = hi > lo && a[4] % 2 ? roaring64_bitmap_flip_closed(E.b, hi, lo) : roaring64_bitmap_flip(E.b, hi, lo);
        else {
            m.flipRange(lo, hi);
            r = a[5] % 2 || hi == U64 ? roaring64_bitmap_flip_closed(E.b, lo, hi) : roaring64_bitmap_flip(E.b, lo, hi + 1);
        }
        touched.push_back(e);
        put(d, r, m);
    } else if (op == "and" || op == "or" || op == "xor" || op == "andnot") {
        int f = idx(a[2]);
        int o = op == "and" ? 0 : op == "or" ? 1 : op == "xor" ? 2 : 3;
        aim(e, f, o, a);
        Set m = Set::comb(E.m, s[f].m, o);
        roaring64_bitmap_t *r = o == 0 ? roaring64_bitmap_and(E.b, s[f].b) : o == 1 ? roaring64_bitmap_or(E.b, s[f].b) : o == 2 ? roaring64_bitmap_xor(E.b, s[f].b) : roaring64_bitmap_andnot(E.b, s[f].b);
        touched.push_back(e);
        touched.push_back(f);
        put(d, r, m);
    } else if (op == "and_inplace" || op == "or_inplace" || op == "xor_inplace" || op == "andnot_inplace") {
        writable(d);
        int o = op[0] == 'o' ? 1 : op[0] == 'x' ? 2 : op == "and_inplace" ? 0 : 3;
        if (d == e && o >= 1) return;
        aim(d, e, o, a);
        mut(d);
        Set m = Set::comb(D.m, E.m, o);
        if (o == 0) roaring64_bitmap_and_inplace(D.b, E.b);
        else if (o == 1) roaring64_bitmap_or_inplace(D.b, E.b);
        else if (o == 2) roaring64_bitmap_xor_inplace(D.b, E.b);
        else roaring64_bitmap_andnot_inplace(D.b, E.b);
        D.m = m;
        touched.push_back(e);
    } else if (op == "cards") {
        aim(d, e, (int)((uint64_t)a[3] % 4), a);
        Set i = Set::comb(D.m, E.m, 0);
        uint64_t ci = i.card(), cd = D.m.card(), ce = E.m.card();
        CHECK_RES(*this, roaring64_bitmap_and_cardinality(D.b, E.b), ci);
        CHECK_RES(*this, roaring64_bitmap_or_cardinality(D.b, E.b), cd + ce - ci);
        CHECK_RES(*this, roaring64_bitmap_xor_cardinality(D.b, E.b), cd + ce - 2 * ci);
        CHECK_RES(*this, roaring64_bitmap_andnot_cardinality(D.b, E.b), cd - ci);
        CHECK_RES(*this, roaring64_bitmap_intersect(D.b, E.b), ci > 0);
        if (cd + ce) {
            double j = roaring64_bitmap_jaccard_index(D.b, E.b), x = (double)ci / (double)(cd + ce - ci);
            if (want(O_RES) && fabs(j - x) > 1e-12) viol("result:cards", "jaccard_index gave %g, the sets say %g", j, x);
            resb(&j, sizeof j);
        }
    } else if (op == "compare") {
        bool sub = D.m.subsetOf(E.m), eq = D.m == E.m;
        CHECK_RES(*this, roaring64_bitmap_equals(D.b, E.b), eq);
        CHECK_RES(*this, roaring64_bitmap_is_subset(D.b, E.b), sub);
        CHECK_RES(*this, roaring64_bitmap_is_strict_subset(D.b, E.b), (sub && !eq));
    } else if (op == "near") {
        Set m = E.m;
        roaring64_bitmap_t *r = roaring64_bitmap_copy(E.b);
        if (!r) viol("null:copy", "copy returned NULL");
        uint64_t v = val(a[2], E);
        if (a[5] % 4 == 0) roaring64_bitmap_run_optimize(r);
        if (a[3] % 5 == 0) roaring64_bitmap_add(r, v), m.add(v);
        else if (a[3] % 5 == 1) roaring64_bitmap_remove(r, v), m.remove(v);
        else if (a[3] % 5 <= 3) {  // one element moved
            uint64_t from, to;
            if (m.nudge((uint64_t)a[2] * 40503 + (uint64_t)a[3] / 5, from, to)) {
                roaring64_bitmap_remove(r, from);
                roaring64_bitmap_add(r, to);
            }
        }
        touched.push_back(e);
        put(d, r, m);
        bool sub = D.m.subsetOf(E.m), eq = D.m == E.m, sup = E.m.subsetOf(D.m);
        if (d != e) {
            CHECK_RES(*this, roaring64_bitmap_equals(D.b, E.b), eq);
            CHECK_RES(*this, roaring64_bitmap_is_subset(D.b, E.b), sub);
            CHECK_RES(*this, roaring64_bitmap_is_subset(E.b, D.b), sup);
            CHECK_RES(*this, roaring64_bitmap_is_strict_subset(E.b, D.b), (sup && !eq));
            CHECK_RES(*this, roaring64_bitmap_andnot_cardinality(E.b, D.b), Set::comb(E.m, D.m, 3).card());
        }
    } else if (op == "copy") {
        if (d == e) return;
        roaring64_bitmap_t *r = roaring64_bitmap_copy(E.b);
        touched.push_back(e);
        put(d, r, E.m);
    } else if (op == "clear") {
        writable(d);
        mut(d);
        roaring64_bitmap_clear(D.b);
        D.m = Set();
    } else if (op == "from_range") {
        uint64_t lo, hi;
        range(a[2], a[3], D, lo, hi, a[4] % 3 == 0);
        static const uint64_t stp[] = {1, 1, 1, 2, 3, 7, 15, 16, 17, 64, 100, 1000, 65535, 65536, 65537, 200000, 1ULL << 32, (1ULL << 48) + 5, 1ULL << 63};
        uint64_t k = stp[(uint64_t)a[4] / 3 % 19];
        uint64_t lim = k == 1 ? 5 * 65536 : k < 65536 ? 100000 : 500;
        if ((hi - lo) / k > lim) {
            if (a[5] % 2) lo = hi - k * lim;
            else hi = lo + k * lim;
        }
        if (hi == U64) hi--;
        if (lo > hi) lo = hi;
        roaring64_bitmap_t *r = roaring64_bitmap_from_range(lo, hi + 1, k);
        Set m;
        if (k == 1) m.addRange(lo, hi);
        else {
            std::vector<uint64_t> v;
            for (uint64_t y = lo; y <= hi; y += k) {
                v.push_back(y);
                if (y > U64 - k) break;
            }
            m.setMany(v.data(), v.size(), true);
        }
        put(d, r, m);
    } else if (op == "of_ptr") {
        auto v = val_list(*this, stp, D, 3000);
        roaring64_bitmap_t *r;
        if (a[4] % 5 == 0 && v.size() >= 6) {
            v.resize(6);
            r = roaring64_bitmap_from(v[0], v[1], v[2], v[3], v[4], v[5]);
        } else r = roaring64_bitmap_of_ptr(v.size(), v.data());
        put(d, r, as_set(v));
    } else if (op == "move32") {
        Rng r((uint64_t)a[3]);
        Set m;
        unsigned n = (unsigned)(a[4] % 6);
        for (unsigned i = 0; i < n; i++) {
            Chunk k;
            pattern(r, (unsigned)r.below(plan->k("v2", 0) ? 24 : 18), k);
            uint64_t key = r.chance(1, 3) ? 65535 - r.below(3) : r.chance(1, 2) ? r.below(4) : r.below(65536);
            if (k.n) m.c[key] = std::make_shared<Chunk>(k);
        }
        roaring_bitmap_t *twin, *x = make32(m, (unsigned)a[2], &twin);
        roaring64_bitmap_t *y = roaring64_bitmap_move_from_roaring32(x);
        // "the original bitmap will be empty"
        CHECK_RES(*this, roaring_bitmap_is_empty(x), true);
        CHECK_RES(*this, roaring_bitmap_get_cardinality(x), 0u);
        roaring_bitmap_add(x, 77);
        roaring_bitmap_add_range(x, 100000, 140000);
        CHECK_RES(*this, roaring_bitmap_get_cardinality(x), 40001u);
        roaring_bitmap_free(x);
        put(d, y, m);
        if (a[5] % 2 && !m.empty()) {  // change it at once, while the copy lives
            uint64_t v = val(a[2], D);
            roaring64_bitmap_remove(D.b, v);
            D.m.remove(v);
            uint64_t mn;
            if (D.m.min(&mn)) roaring64_bitmap_add_range_closed(D.b, mn, mn + 100), D.m.addRange(mn, mn + 100);
        }
        if (twin) {
            uint64_t c = roaring_bitmap_get_cardinality(twin);
            std::unique_ptr<uint32_t[]> arr(new uint32_t[c]);
            roaring_bitmap_to_uint32_array(twin, arr.get());
            check_array("content:move32", "the other copy of a moved bitmap", m, arr.get(), c);
            roaring_bitmap_free(twin);
        }
        STAT("moved_from_32");
    } else if (op == "run_optimize") {
        writable(d);
        mut(d);
        std::vector<Stored> sb;
        if (want(O_SPACE)) sb = stored(d);
        bool r = roaring64_bitmap_run_optimize(D.b);
        res(r);
        if (want(O_SPACE)) {
            space_optimized(sb, stored(d), D.m);
            STAT("space_optimized");
        }
        if (want(O_RES)) {
            roaring64_statistics_t t;
            roaring64_bitmap_statistics(D.b, &t);
            if (r != (t.n_run_containers > 0)) viol("result:run_optimize", "run_optimize returned %d with %llu run containers", r, (unsigned long long)t.n_run_containers);
        }
    } else if (op == "shrink") {
        writable(d);
        mut(d);
        uint64_t before = heap::live_bytes();
        auto sb = want(O_SPACE) ? store(d, false) : std::vector<uint8_t>();
        uint64_t got = roaring64_bitmap_shrink_to_fit(D.b);
        res(got);
        if (want(O_SPACE)) {
            uint64_t after = heap::live_bytes();
            if (after > before) viol("space:shrink-grew", "shrink_to_fit made the bitmap %llu bytes larger", (unsigned long long)(after - before));
            if (got != before - after) viol("space:shrink-result", "shrink_to_fit returned %llu, %llu bytes were saved", (unsigned long long)got, (unsigned long long)(before - after));
            if (roaring64_bitmap_shrink_to_fit(D.b) != 0 || heap::live_bytes() != after) viol("space:shrink-twice", "shrinking twice saved something again");
            if (sb != store(d, false)) viol("space:shrink-image", "shrink_to_fit changed the stored form");
            {  // nothing is left over from the history: a shrunk copy takes as much
                uint64_t l0 = heap::live_bytes();
                roaring64_bitmap_t *c = roaring64_bitmap_copy(D.b);
                if (!c) viol("null:copy", "copy returned NULL");
                roaring64_bitmap_shrink_to_fit(c);
                uint64_t l1 = heap::live_bytes();
                roaring64_bitmap_free(D.b);
                uint64_t old = l1 - heap::live_bytes();
                D.b = c;
                if (old != l1 - l0) viol("space:shrink-slack", "a shrunk bitmap of %llu bytes has a shrunk copy of %llu bytes", (unsigned long long)old, (unsigned long long)(l1 - l0));
            }
            STAT("space_shrink");
        }
    } else if (op == "churn") {
        churn_op(stp);
    } else if (op == "contains") {
        for (int i = 0; i < 10; i++) {
            uint64_t v = val(Rng::mix((uint64_t)a[2] + i) >> 44, D);
            bool ex = D.m.contains(v);
            CHECK_RES(*this, roaring64_bitmap_contains(D.b, v), ex);
        }
    } else if (op == "ranges") {
        for (int i = 0; i < 5; i++) {
            uint64_t lo, hi;
            range(Rng::mix((uint64_t)a[2] + i) >> 44, Rng::mix((uint64_t)a[3] + i) >> 44, D, lo, hi, true);
            uint64_t c = D.m.rangeCard(lo, hi);
            CHECK_RES(*this, roaring64_bitmap_range_closed_cardinality(D.b, lo, hi), c);
            if (hi == U64) { hi--; c = lo > hi ? 0 : D.m.rangeCard(lo, hi); }
            if (lo > hi) continue;
            CHECK_RES(*this, roaring64_bitmap_range_cardinality(D.b, lo, hi + 1), c);
            CHECK_RES(*this, roaring64_bitmap_contains_range(D.b, lo, hi + 1), c == hi - lo + 1);
            CHECK_RES(*this, roaring64_bitmap_intersect_with_range(D.b, lo, hi + 1), c > 0);
            if (hi > lo) {
                CHECK_RES(*this, roaring64_bitmap_contains_range(D.b, hi, lo), true);
                CHECK_RES(*this, roaring64_bitmap_range_closed_cardinality(D.b, hi, lo), 0u);
                CHECK_RES(*this, roaring64_bitmap_range_cardinality(D.b, hi, lo), 0u);
                CHECK_RES(*this, roaring64_bitmap_intersect_with_range(D.b, hi, lo), false);
            }
        }
    } else if (op == "ranks") {
        for (int i = 0; i < 10; i++) {
            uint64_t v = val(Rng::mix((uint64_t)a[2] + i) >> 44, D);
            CHECK_RES(*this, roaring64_bitmap_rank(D.b, v), D.m.rank(v));
            uint64_t ix = 0;
            bool ex = D.m.contains(v);
            CHECK_RES(*this, roaring64_bitmap_get_index(D.b, v, &ix), ex);
            if (ex) CHECK_RES(*this, ix, D.m.rank(v) - 1);
        }
    } else if (op == "select") {
        uint64_t c = D.m.card();
        for (int i = 0; i < 6; i++) {
            uint64_t rk = c ? (i == 0 ? c - 1 : i == 1 ? c : Rng::mix((uint64_t)a[2] + i) % c) : (uint64_t)i;
            uint64_t got = 0, v = 0;
            bool ok = D.m.select(rk, &v);
            CHECK_RES(*this, roaring64_bitmap_select(D.b, rk, &got), ok);
            if (ok) CHECK_RES(*this, got, v);
        }
    } else if (op == "minmax") {
        uint64_t mn = U64, mx = 0;
        D.m.min(&mn);
        D.m.max(&mx);
        CHECK_RES(*this, roaring64_bitmap_minimum(D.b), mn);
        CHECK_RES(*this, roaring64_bitmap_maximum(D.b), mx);
        CHECK_RES(*this, roaring64_bitmap_is_empty(D.b), D.m.empty());
        CHECK_RES(*this, roaring64_bitmap_get_cardinality(D.b), D.m.card());
    } else if (op == "stats") {
        roaring64_statistics_t t;
        roaring64_bitmap_statistics(D.b, &t);
        CHECK_RES(*this, t.cardinality, D.m.card());
        CHECK_RES(*this, t.n_containers, (uint64_t)D.m.c.size());
        CHECK_RES(*this, t.n_array_containers + t.n_run_containers + t.n_bitset_containers, (uint64_t)D.m.c.size());
        CHECK_RES(*this, t.n_values_array_containers + t.n_values_run_containers + t.n_values_bitset_containers, D.m.card());
        if (!D.m.empty()) {
            uint64_t mn, mx;
            D.m.min(&mn);
            D.m.max(&mx);
            CHECK_RES(*this, t.min_value, mn);
            CHECK_RES(*this, t.max_value, mx);
        }
    } else if (op == "cancel") {
        uint64_t c = D.m.card();
        CbCtx64 x;
        x.stop_after = c ? 1 + Rng::mix((uint64_t)a[2]) % (c + 1) : 1;
        if (a[4] % 3 == 0 || c > (1 << 21)) x.stop_after = 1 + (uint64_t)a[2] % 70;
        bool g = roaring64_bitmap_iterate(D.b, cb, &x);
        CHECK_RES(*this, g, x.stop_after > c);
        if (want(O_RES)) {
            if (x.after_stop) viol("cancel", "the callback was called again after it declined");
            uint64_t n = std::min(x.stop_after, c);
            if (x.v.size() != n) viol("cancel", "callback called %zu times, expected %llu", x.v.size(), (unsigned long long)n);
            auto ev = D.m.vec(0, n);
            for (uint64_t i = 0; i < n; i++)
                if (x.v[i] != ev[i]) viol("cancel", "visit #%llu is %llu, expected %llu", (unsigned long long)i, (unsigned long long)x.v[i], (unsigned long long)ev[i]);
        }
        STAT("callback_cancelled");
    } else if (op == "bulk") {
        if (a[5] % 3 != 0) writable(d);
        Rng r((uint64_t)a[3]);
        unsigned n = (unsigned)(1 + a[4] % 60);
        unsigned mode = (unsigned)(a[5] % 5);  // 0 contains, 1 add, 2 remove, else mixed
        bool dense = a[2] % 3 == 0;
        for (unsigned i = 0; i < n; i++) {
            uint64_t v = D.bulk_used && r.chance(2, 3) ? (((uint64_t)D.last_bulk & ~0xffffULL) | (dense ? r.below(12) : r.below(65536))) : val(r.below(1 << 20), D);
            if (D.bulk_used && r.chance(1, 3)) {  // an element of the same container, if any
                uint64_t y;
                if (D.m.nextGE((uint64_t)D.last_bulk & ~0xffffULL, &y) && y >> 16 == (uint64_t)D.last_bulk >> 16) v = y;
            }
            int what = D.view || D.borrowed ? 0 : mode <= 2 ? (int)mode : (int)r.below(3);
            if (what == 1) {
                roaring64_bitmap_add_bulk(D.b, &D.ctx, v);
                D.m.add(v);
                D.ver++;
            } else if (what == 2) {
                roaring64_bitmap_remove_bulk(D.b, &D.ctx, v);
                D.m.remove(v);
                D.ver++;
            } else {
                bool ex = D.m.contains(v);
                CHECK_RES(*this, roaring64_bitmap_contains_bulk(D.b, &D.ctx, v), ex);
            }
            D.last_bulk = (int64_t)v;
            D.bulk_used = true;
        }
        touched.push_back(d);
    } else if (op == "store") {
        Img64 &im = disk[(uint64_t)a[2] % disk.size()];
        if (E.m.card() > (1 << 21)) return;
        bool fr = a[3] % 2;
        im.b = store(e, fr);
        im.frozen = fr;
        im.m = E.m;
        im.used = true;
        resb(im.b.data(), im.b.size());
        touched.push_back(e);
        STAT("store");
    } else if (op == "load") {
        Img64 &im = disk[(uint64_t)a[2] % disk.size()];
        if (!im.used) return;
        set_loaded(d, im);
        STAT("load");
    } else if (op == "import") {
        Rng r((uint64_t)a[3]);
        Img64 x;
        x.b = encode_portable64(E.m, r);
        x.m = E.m;
        if (x.b.size() > (16u << 20)) return;
        set_loaded(d, x);
        STAT("import");
    } else if (op == "crash") {
        for (auto &c : cur) c = Cur64();
        std::vector<BufP> old;
        for (auto &x : s) {
            old.push_back(x.back);
            uint64_t ver = x.ver + 1;
            x = Slot64();
            x.ver = ver;
            memset(&x.ctx, 0, sizeof x.ctx);
        }
        heap::free_all();
        old.clear();
        if (!(oracle & O_LOG)) {
            static const int isas[] = {0, 1, 3};
            heap::set_isa(isas[(uint64_t)a[2] % 3]);
            heap::set_fill(Rng::mix((uint64_t)a[3]));
        }
        for (int i = 0; i < (int)s.size(); i++) {
            if (i < (int)disk.size() && disk[i].used) set_loaded(i, disk[i]);
            else {
                s[i].b = roaring64_bitmap_create();
                touched.push_back(i);
            }
        }
        STAT("crash_restart");
    } else if (op == "fault") {
        fault_op(stp);
    } else if (op == "damage") {
        damage_op(stp);
    } else if (op == "torn") {
        torn_op(stp);
    } else {
        fprintf(stderr, "unknown op %s\n", op.c_str());
        abort();
    }
    check_all(stepno % 4 == 0);
}
void W64::finish() {
    static const Step end{"end", {0, 0, 0, 0, 0, 0}, 0};
    st = &end;
    touched.clear();
    for (int i = 0; i < (int)s.size(); i++) touched.push_back(i);
    check_all(true);
    for (auto &c : cur) {
        if (c.it) roaring64_iterator_free(c.it);
        c.it = nullptr;
    }
    std::vector<int> ord;
    for (int i = 0; i < (int)s.size(); i++) ord.push_back(i);
    Rng r(plan->seed ^ 77);
    shuffle(ord, r);
    for (int i : ord) {
        if (s[i].view && !s[i].back->intact()) viol("view-written", "the bytes under a read-only view changed");
        drop(i);
        if (s[i].back && !s[i].back->intact()) viol("view-written", "freeing a view changed the bytes under it");
        s[i].back.reset();
    }
    if (want(O_MEM)) {
        if (heap::custody()) viol("custody", "%s", heap::custody());
        if (heap::live()) viol("leak", "%llu blocks (%llu bytes) outstanding after everything was freed", (unsigned long long)heap::live(), (unsigned long long)heap::live_bytes());
    }
}

// ---------------------------------------------------------------- faults
static const char *fault64[] = {"64create", "64copy", "64of_ptr", "64from_range", "64move32", "64and", "64or", "64xor", "64andnot", "64flip", "64flip_closed", "64deserialize", "64frozen_view"};
void W64::fault_op(const Step &stp) {
    const int64_t *a = stp.a;
    int e = idx(a[1]), f = idx(a[2]);
    std::string what = fault64[(uint64_t)a[0] % 13];
    Slot64 &E = s[e], &F = s[f];
    if (E.m.card() > (1 << 20) || F.m.card() > (1 << 20)) return;
    bool later = a[3] % 2;
    std::string cls = "oom:" + what;
    uint64_t lo, hi;
    range((uint64_t)a[4], (uint64_t)a[5], E, lo, hi, false);
    if (hi == U64) hi--;
    if (lo > hi) lo = hi;
    auto vals = E.m.vec(0, 3000);
    BufP buf;
    if (what == "64deserialize" || what == "64frozen_view") {
        bool fr = what == "64frozen_view";
        auto v = store(e, fr);
        buf.reset(new Buf(v.size(), fr ? 64 : 8));
        memcpy(buf->p, v.data(), v.size());
        buf->seal();
    }
    Set low;
    for (auto &c : E.m.c) if (c.first < 65536) low.c.insert(c);
    for (int n = 1 + (int)(a[3] / 8 % 6); n < 400; n += n < 24 ? 1 : n / 6) {
        // the first request is the result bitmap itself
        cls = "oom:" + what + (n == 1 ? ":create" : "");
        roaring_bitmap_t *twin = nullptr, *r32 = nullptr;
        if (what == "64move32") r32 = make32(low, (unsigned)a[4] & 1, &twin);
        uint64_t live0 = heap::live();
        Set expect = E.m;
        roaring64_bitmap_t *out = nullptr;
        uint64_t refused;
        g_sh->step = n;
        Under64 u(cls.c_str());
        heap::arm(later ? -n : n);
        if (what == "64create") out = roaring64_bitmap_create(), expect = Set();
        else if (what == "64copy") out = roaring64_bitmap_copy(E.b);
        else if (what == "64of_ptr") out = roaring64_bitmap_of_ptr(vals.size(), vals.data()), expect = as_set(vals);
        else if (what == "64from_range") {
            out = roaring64_bitmap_from_range(lo, hi + 1, 1);
            expect = Set();
            expect.addRange(lo, hi);
        } else if (what == "64move32") out = roaring64_bitmap_move_from_roaring32(r32), expect = low;
        else if (what == "64and") out = roaring64_bitmap_and(E.b, F.b), expect = Set::comb(E.m, F.m, 0);
        else if (what == "64or") out = roaring64_bitmap_or(E.b, F.b), expect = Set::comb(E.m, F.m, 1);
        else if (what == "64xor") out = roaring64_bitmap_xor(E.b, F.b), expect = Set::comb(E.m, F.m, 2);
        else if (what == "64andnot") out = roaring64_bitmap_andnot(E.b, F.b), expect = Set::comb(E.m, F.m, 3);
        else if (what == "64flip") out = roaring64_bitmap_flip(E.b, lo, hi + 1), expect.flipRange(lo, hi);
        else if (what == "64flip_closed") out = roaring64_bitmap_flip_closed(E.b, lo, hi), expect.flipRange(lo, hi);
        else if (what == "64deserialize") out = roaring64_bitmap_portable_deserialize_safe((char *)buf->p, buf->n);
        else out = roaring64_bitmap_frozen_view((char *)buf->p, buf->n);
        refused = heap::disarm();
        lg(out != nullptr);
        lg(refused);
        if (refused) {
            stat_add(("refused_in_" + what).c_str());
            STAT("fault_alloc_refused");
        } else if (!out) viol(cls.c_str(), "%s failed although no request was refused", what.c_str());
        if (out) {
            const char *why = nullptr;
            if (!roaring64_bitmap_internal_validate(out, &why)) viol(cls.c_str(), "request %d refused: the result is invalid: %s", n, why ? why : "?");
            uint64_t card = roaring64_bitmap_get_cardinality(out);
            if (card != expect.card()) viol(cls.c_str(), "request %d refused=%d: result has %llu values, expected %llu", n, (int)refused, (unsigned long long)card, (unsigned long long)expect.card());
            std::unique_ptr<uint64_t[]> got(new uint64_t[card]);
            roaring64_bitmap_to_uint64_array(out, got.get());
            check_array(cls.c_str(), "result", expect, got.get(), card);
            roaring64_bitmap_free(out);
        }
        if (r32) roaring_bitmap_free(r32);
        else if (heap::live() != live0) viol(("oom-leak:" + what + (n == 1 ? ":create" : "")).c_str(), "request %d refused: %lld blocks more than before the call", n, (long long)heap::live() - (long long)live0);
        g_sh->plan_note[0] = 0;
        check_slot(e, (unsigned)n);
        check_slot(f, (unsigned)n + 1);
        if (!refused) break;
    }
    g_sh->step = -1;
    STAT("fault_sweeps");
}
void W64::damage_op(const Step &stp) {
    const int64_t *a = stp.a;
    int e = idx(a[0]), f = idx(a[1]), d = idx(a[5]);
    if (s[e].m.card() > 300000 || s[f].m.card() > 300000) return;
    Rng r(Rng::mix((uint64_t)a[3]) ^ (uint64_t)a[4]);
    std::vector<uint8_t> b, o;
    if (a[2] % 2) {
        Rng q((uint64_t)a[4]);
        b = encode_portable64(s[e].m, q);
        o = encode_portable64(s[f].m, q);
    } else {
        b = store(e, false);
        o = store(f, false);
    }
    if (a[5] % 40 == 7) {
        size_t n = r.below(200);
        std::vector<uint8_t> x(n);
        for (auto &c : x) c = (uint8_t)r.next();
        for (size_t i = 0; i < std::min<size_t>(n, 16) && i < b.size(); i++)
            if (r.chance(3, 4)) x[i] = b[i];
        b = x;
        STAT("fault_noise");
    } else if (!(plan->k("v2", 0) && r.chance(1, 2) && damage_fields(b, 3, r))) {
        damage_bytes(b, o, r);
    }
    if (b.size() > (4u << 20)) return;
    g_sh->nontrivial = 1;
    Set real;
    std::string rwhy;
    bool sound = decode_portable64(b.data(), b.size(), real, rwhy);
    Buf buf(b.size(), 1);
    if (b.size()) memcpy(buf.p, b.data(), b.size());
    buf.seal();
    uint64_t live0 = heap::live();
    char *p = (char *)buf.p;
    size_t probe = roaring64_bitmap_portable_deserialize_size(p, b.size());
    res(probe);
    if (probe > b.size()) viol("probe-beyond", "the size probe announces %zu bytes in a range of %zu", probe, b.size());
    roaring64_bitmap_t *x = roaring64_bitmap_portable_deserialize_safe(p, b.size());
    res(x != nullptr);
    if (sound && !x) viol("damage-misread", "%zu bytes that are a valid image after the damage are refused", b.size());
    if (!x) {
        if (heap::live() != live0) viol("damage-leak", "a refused image left %lld blocks behind", (long long)heap::live() - (long long)live0);
        STAT("damage_refused");
        return;
    }
    const char *why = nullptr;
    bool ok = roaring64_bitmap_internal_validate(x, &why);
    res(ok);
    if (sound && !ok) viol("damage-misread", "%zu bytes that are a valid image after the damage decode into an invalid bitmap: %s", b.size(), why);
    if (!ok) {
        roaring64_bitmap_free(x);
        if (heap::live() != live0) viol("damage-leak", "freeing a decoded damaged image left %lld blocks behind", (long long)heap::live() - (long long)live0);
        STAT("damage_found_by_validate");
        return;
    }
    STAT("damage_accepted_as_valid");
    uint64_t card = roaring64_bitmap_get_cardinality(x);
    if (card > (4u << 20)) { roaring64_bitmap_free(x); return; }
    std::vector<uint64_t> v(card);
    {
        std::unique_ptr<uint64_t[]> arr(new uint64_t[card]);
        roaring64_bitmap_to_uint64_array(x, arr.get());
        v.assign(arr.get(), arr.get() + card);
    }
    for (size_t i = 1; i < v.size(); i++)
        if (v[i] <= v[i - 1]) viol("damage-inconsistent", "a validated bitmap lists %llu after %llu", (unsigned long long)v[i], (unsigned long long)v[i - 1]);
    Set m;
    m.setMany(v.data(), v.size(), true);
    if (sound && !(m == real)) viol("damage-misread", "%zu bytes that are a valid image after the damage decode into %llu values, an independent reader finds %llu", b.size(), (unsigned long long)m.card(), (unsigned long long)real.card());
    for (int k = 0; k < 2; k++) {
        const Slot64 &q = s[k ? f : e];
        Set i = Set::comb(m, q.m, 0), u = Set::comb(m, q.m, 1);
        if (roaring64_bitmap_and_cardinality(x, q.b) != i.card() || roaring64_bitmap_or_cardinality(x, q.b) != u.card()) viol("damage-inconsistent", "a validated bitmap gives wrong cardinalities");
        roaring64_bitmap_t *y = roaring64_bitmap_or(x, q.b);
        if (roaring64_bitmap_get_cardinality(y) != u.card()) viol("damage-inconsistent", "union with a validated bitmap is wrong");
        roaring64_bitmap_free(y);
    }
    if (!buf.intact()) viol("view-written", "reading an image changed it");
    put(d, x, m);
}
void W64::torn_op(const Step &stp) {
    const int64_t *a = stp.a;
    int e = idx(a[0]);
    if (s[e].m.card() > 300000) return;
    int fmt = (int)(a[2] % 3);  // 0 portable 1 frozen 2 portable of another writer
    std::vector<uint8_t> b;
    Rng r((uint64_t)a[3]);
    if (fmt == 2) b = encode_portable64(s[e].m, r);
    else b = store(e, fmt == 1);
    bool fr = fmt == 1;
    size_t n = b.size(), data = n;
    if (fr) {
        // the last bytes of a frozen image may be padding: "shorter than the data"
        while (data > 0 && n - data < 63 && b[data - 1] == 0) data--;
    }
    std::vector<size_t> ks;
    if (n <= 700) {
        for (size_t k = 0; k < data; k++) ks.push_back(k);
    } else {
        for (size_t k = 0; k < std::min<size_t>(data, 200); k++) ks.push_back(k);
        for (int i = 0; i < 140; i++) ks.push_back(r.below(data));
        for (size_t k = 1; k <= 40 && k <= data; k++) ks.push_back(data - k);
    }
    STAT("torn_images");
    g_sh->nontrivial = 1;
    for (size_t k : ks) {
        Buf buf(k, fr ? 64 : 1);
        if (k) memcpy(buf.p, b.data(), k);
        uint64_t live0 = heap::live();
        roaring64_bitmap_t *x;
        g_sh->simtime++;
        if (!fr) {
            size_t probe = roaring64_bitmap_portable_deserialize_size((char *)buf.p, k);
            if (probe != 0) viol("torn-probe", "the size probe answers %zu for the first %zu of %zu bytes", probe, k, n);
            x = roaring64_bitmap_portable_deserialize_safe((char *)buf.p, k);
        } else {
            x = roaring64_bitmap_frozen_view((char *)buf.p, k);
        }
        if (x) viol("torn-accepted", "64-bit format %d: the first %zu of %zu bytes (%zu of data) were accepted", fmt, k, n, data);
        if (heap::live() != live0) viol("torn-leak", "64-bit format %d: refusing the first %zu of %zu bytes left %lld blocks behind", fmt, k, n, (long long)heap::live() - (long long)live0);
    }
    stat_add("torn_prefixes", ks.size());
    for (int extra = 0; extra < 3; extra++) {
        size_t x = extra == 0 ? 0 : extra == 1 ? 1 + r.below(7) : 1 + r.below(300);
        Buf buf(n + x, fr ? 64 : 1);
        memcpy(buf.p, b.data(), n);
        for (size_t i = 0; i < x; i++) buf.p[n + i] = (uint8_t)r.next();
        roaring64_bitmap_t *y;
        if (!fr) {
            size_t probe = roaring64_bitmap_portable_deserialize_size((char *)buf.p, n + x);
            if (probe != n) viol("torn-probe", "the size probe answers %zu for a %zu-byte image followed by %zu bytes", probe, n, x);
            y = roaring64_bitmap_portable_deserialize_safe((char *)buf.p, n + x);
        } else y = roaring64_bitmap_frozen_view((char *)buf.p, n + x);
        if (!y) viol("torn-full-refused", "64-bit format %d: the complete image (%zu bytes, %zu more follow) was refused", fmt, n, x);
        if (roaring64_bitmap_get_cardinality(y) != s[e].m.card() || !roaring64_bitmap_equals(y, s[e].b)) viol("torn-full-content", "64-bit format %d: the complete image was read as another set", fmt);
        roaring64_bitmap_free(y);
    }
    touched.push_back(e);
}
