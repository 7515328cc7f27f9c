// The 32-bit world: bitmaps, clients, cursors and a disk, against the set model.
#include "w32.h"

#include <math.h>

static const uint64_t U32 = 0xffffffffULL;

void W32::start(const Plan &p) {
    plan = &p;
    N = (int)p.k("slots", 4);
    cow = p.k("cow", 0);
    huge = p.k("huge", 0);
    Rng r(p.seed ^ 0x32);
    keys = keys32((int)p.k("keys", 0), r);
    s.resize(N);
    cur.resize(3);
    disk.resize(3);
    for (auto &x : s) {
        x.b = roaring_bitmap_create();
        if (!x.b) viol("result:create", "create returned NULL");
        roaring_bitmap_set_copy_on_write(x.b, cow);
        memset(&x.ctx, 0, sizeof x.ctx);
    }
}
void W32::clear_all(bool orderly) {
    for (auto &c : cur) {
        if (c.it && orderly) roaring_uint32_iterator_free(c.it);
        c = Cur32();
    }
    for (auto &x : s) {
        if (x.b && orderly && !x.borrowed) roaring_bitmap_free(x.b);
        x.b = nullptr;
        x.borrowed = false;
        x.back.reset();
        x.lazy = x.view = false;
        x.m = Set();
        x.ver++;
        memset(&x.ctx, 0, sizeof x.ctx);
    }
}
W32::~W32() {}

uint64_t W32::val(uint64_t r, const Slot32 &q) {
    uint64_t lo, hi, v, x = Rng::mix(r + 77);
    if (x % 6 == 0 && trail.pick(x >> 8, lo, hi)) {
        v = x >> 16 & 1 ? lo : x >> 17 & 1 ? hi : lo + (x >> 20) % (hi - lo < 65536 ? hi - lo + 1 : 65536);
        if (x >> 18 & 1 && v > 0 && x >> 19 & 1) v--;
    } else {
        v = val0(r, q);
    }
    trail.use(v, v);
    return v;
}
uint64_t W32::val0(uint64_t r, const Slot32 &q) {
    unsigned kind = r % 16;
    uint64_t x = r / 16;
    uint64_t v;
    switch (kind) {
        case 0: case 1: case 2: case 3: case 4: case 5: {
            uint64_t c = q.m.card();
            if (c && q.m.select((Rng::mix(x)) % c, &v)) {
                int64_t d = kind == 4 ? 1 : kind == 5 ? -1 : 0;
                int64_t y = (int64_t)v + d;
                if (y < 0 || y > (int64_t)U32) y = (int64_t)v;
                return (uint64_t)y;
            }
        }
        // fallthrough
        case 6: case 7: case 8:
            return keys[x % keys.size()] << 16 | edge_low(x / keys.size());
        case 9: case 10: case 11: case 12:
            return keys[x % keys.size()] << 16 | (Rng::mix(r) & 0xffff);
        case 13: {
            const Slot32 &o = s[x % s.size()];
            uint64_t c = o.m.card();
            if (c && o.m.select(Rng::mix(x) % c, &v)) return v;
            return x & 0xffff;
        }
        case 14: {  // next to the edges of the set
            if (x & 1 ? q.m.min(&v) : q.m.max(&v)) {
                int64_t y = (int64_t)v + (int64_t)(x >> 1) % 3 - 1;
                if (y >= 0 && y <= (int64_t)U32) return (uint64_t)y;
                return v;
            }
            return x & 1 ? 0 : U32;
        }
        default:
            if (huge || (x & 3) == 0) return Rng::mix(r) & U32;
            return keys[x % keys.size()] << 16 | ((x >> 3) & 0xffff);
    }
}
void W32::range(uint64_t r1, uint64_t r2, const Slot32 &q, uint64_t &lo, uint64_t &hi) {
    uint64_t tx = Rng::mix(r1 * 31 + r2);
    if (tx % 4 == 0 && trail.pick(tx >> 8, lo, hi)) {  // part of an earlier range, or just beyond it
        uint64_t len = hi - lo;
        switch (tx >> 4 & 7) {
            case 0: if (hi < U32) hi++; break;
            case 1: if (lo) lo--; break;
            case 2: lo += len / 2; break;
            case 3: hi -= len / 2; break;
            case 4: lo = std::min(hi, lo + (tx >> 40) % 4); hi = std::max(lo, hi - std::min(hi, (tx >> 50) % 4)); break;
            case 5: lo &= ~0xffffULL; break;
            case 6: hi |= 0xffff; break;
            case 7:  // from what is left in front of it into the range
                if (uint64_t v, l, h; plan->k("v2", 0) && lo && q.m.prevLE(lo - 1, &v)) {
                    q.m.runAround(v, l, h);
                    hi = lo + (tx >> 24) % (std::min<uint64_t>(len, 4000) + 1);
                    lo = tx >> 20 & 1 ? v : l + (tx >> 30) % (v - l + 1);
                }
                break;
        }
        uint64_t cap = huge ? U32 : 5 * 65536;
        if (hi - lo > cap) hi = lo + cap;
        trail.use(lo, hi);
        return;
    }
    if (plan->k("v2", 0) && tx % 4 == 1 && run_part(q.m, tx >> 4, U32, lo, hi)) {
        if (hi - lo > (huge ? U32 : 5 * 65536)) hi = lo + 5 * 65536;
        trail.use(lo, hi);
        return;
    }
    lo = val0(r1, q);
    unsigned kind = r2 % 14;
    uint64_t x = r2 / 14;
    static const uint64_t len[] = {1, 2, 3, 63, 64, 65, 127, 128, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 200000};
    switch (kind) {
        case 0: case 1: case 2: case 3: hi = lo + len[x % 16] - 1; break;
        case 4: lo &= ~0xffffULL; hi = lo + 65536 * (1 + x % 3) - 1; break;
        case 5: hi = lo | 0xffff; break;
        case 6: lo &= ~0xffffULL; hi = lo + x % 65536; break;
        case 7: hi = lo + x % 3000; break;
        case 8: { uint64_t o = lo; hi = val0(x, q); if (hi < o) { lo = hi; hi = o; } break; }
        case 9: lo &= ~63ULL; hi = lo + 64 * (1 + x % 200) - 1; break;
        case 10: hi = lo; break;
        case 11: hi = lo + x % 66000; break;
        case 12: lo = (lo & ~0xffffULL) + x % 65536; hi = (lo | 0xffff) + 1 + x % 70000; break;
        default: {
            uint64_t v;
            hi = q.m.nextGE(lo, &v) ? v : lo;
            if (x & 1 && hi < U32) hi++;
        }
    }
    if (hi > U32) hi = U32;
    if (lo > hi) lo = hi;
    // keep sets small outside "huge" runs
    uint64_t cap = huge ? U32 : 5 * 65536;
    if (hi - lo > cap) hi = lo + cap;
    trail.use(lo, hi);
}
// sometimes: a change of y first, so that op(x, y) ends on a size where forms change
void W32::aim(int ix, int iy, int o, const int64_t *a) {
    Rng r(Rng::mix((uint64_t)a[4] * 131 + (uint64_t)a[5]) ^ (uint64_t)a[3]);
    if (!plan->k("v2", 0) || ix == iy || s[iy].view || s[iy].borrowed || s[iy].lazy || !r.chance(1, 4)) return;
    std::vector<uint64_t> gain, lose;
    if (!steer(s[ix].m, s[iy].m, o, r, gain, lose)) return;
    mut(iy);
    touched.push_back(iy);
    for (auto *v : {&gain, &lose}) {
        if (v->empty()) continue;
        std::vector<uint32_t> w(v->begin(), v->end());
        if (v == &gain) roaring_bitmap_add_many(s[iy].b, w.size(), w.data());
        else roaring_bitmap_remove_many(s[iy].b, w.size(), w.data());
        s[iy].m.setMany(v->data(), v->size(), v == &gain);
    }
    STAT("steered");
}
void W32::aim_range(const Set &m, int o, const int64_t *a, uint64_t &lo, uint64_t &hi) {
    Rng r(Rng::mix((uint64_t)a[2] * 131 + (uint64_t)a[3]) ^ (uint64_t)a[4]);
    if (plan->k("v2", 0) && r.chance(1, 5) && steer_range(m, o, r, U32, lo, hi)) trail.use(lo, hi);
}
void W32::mut(int i) {
    trail.modified = true;
    s[i].ver++;
    memset(&s[i].ctx, 0, sizeof s[i].ctx);
    s[i].last_bulk = -1;
    touched.push_back(i);
}
void W32::ready(int i) {
    if (s[i].lazy) {
        roaring_bitmap_repair_after_lazy(s[i].b);
        s[i].lazy = false;
        mut(i);
        check_slot(i, (unsigned)stepno);
    }
}
void W32::drop(int i) {
    if (s[i].b && !s[i].borrowed) roaring_bitmap_free(s[i].b);
    s[i].b = nullptr;
    s[i].borrowed = false;
}
void W32::put(int i, roaring_bitmap_t *b, const Set &m, bool keep) {
    if (!b) viol(("null:" + st->op).c_str(), "%s returned NULL although no request was refused", st->op.c_str());
    Set copy = m;
    drop(i);
    s[i].b = b;
    s[i].m = copy;
    s[i].lazy = s[i].view = false;
    s[i].back.reset();
    (void)keep;
    roaring_bitmap_set_copy_on_write(b, cow);
    mut(i);
}
void W32::writable(int i) {
    ready(i);
    if (s[i].view || s[i].borrowed) {
        // a read-only view: continue on a deep copy
        roaring_bitmap_t *c = roaring_bitmap_copy(s[i].b);
        if (!c) viol("null:copy", "copy of a view returned NULL");
        Set m = s[i].m;
        bool view = s[i].view;
        drop(i);
        if (view && !s[i].back->intact()) viol("view-written", "the bytes under a read-only view changed");
        s[i].b = c;
        s[i].view = false;
        s[i].back.reset();
        roaring_bitmap_set_copy_on_write(c, cow);
        mut(i);  // cursors and bulk contexts belonged to the view
    }
}

// ---------------------------------------------------------------- observation
struct CbCtx {
    std::vector<uint64_t> v;
    uint64_t stop_after;
    bool after_stop = false, stopped = false;
};
static bool cb32(uint32_t v, void *p) {
    CbCtx *c = (CbCtx *)p;
    if (c->stopped) c->after_stop = true;
    c->v.push_back(v);
    if (c->v.size() >= c->stop_after) { c->stopped = true; return false; }
    return true;
}
static bool cb64(uint64_t v, void *p) {
    CbCtx *c = (CbCtx *)p;
    if (c->stopped) c->after_stop = true;
    c->v.push_back(v);
    if (c->v.size() >= c->stop_after) { c->stopped = true; return false; }
    return true;
}

void W32::check_slot(int i, unsigned chan) {
    Slot32 &x = s[i];
    if (x.lazy) return;
    std::string cls = "content:" + (st ? st->op : std::string("start"));
    uint64_t card = x.m.card();
    if (want(O_LOG)) {
        res(roaring_bitmap_get_cardinality(x.b));
        size_t n = roaring_bitmap_portable_size_in_bytes(x.b);
        if (n < (64u << 20)) {
            std::vector<char> b(n + 1);
            n = roaring_bitmap_portable_serialize(x.b, b.data());
            resb(b.data(), n);
        }
        return;
    }
    uint64_t got = roaring_bitmap_get_cardinality(x.b);
    lg(got);
    if (!want(O_CONTENT)) return;
    if (got != card) viol(cls.c_str(), "slot %d: cardinality %llu, the set has %llu", i, (unsigned long long)got, (unsigned long long)card);
    if (roaring_bitmap_is_empty(x.b) != (card == 0)) viol(cls.c_str(), "slot %d: is_empty wrong", i);
    if (roaring_bitmap_get_copy_on_write(x.b) != cow) viol(cls.c_str(), "slot %d: copy-on-write flag changed", i);
    bool big = card > (1 << 21);
    if (big || (cheap && Rng::mix(stepno * 7 + i) % 8)) chan = 6;
    switch (chan % 9) {
        case 0: {
            std::unique_ptr<uint32_t[]> a(new uint32_t[card]);
            roaring_bitmap_to_uint32_array(x.b, a.get());
            check_array(cls.c_str(), "to_uint32_array", x.m, a.get(), card);
            break;
        }
        case 1: {
            CbCtx c;
            c.stop_after = ~0ULL;
            c.v.reserve(card + 1);
            if (!roaring_iterate(x.b, cb32, &c)) viol(cls.c_str(), "iterate returned false though the callback never did");
            check_array(cls.c_str(), "iterate", x.m, c.v.data(), c.v.size());
            break;
        }
        case 2: {
            CbCtx c;
            c.stop_after = ~0ULL;
            c.v.reserve(card + 1);
            uint64_t hi = 0xabcd00000000ULL;
            if (!roaring_iterate64(x.b, cb64, hi, &c)) viol(cls.c_str(), "iterate64 returned false though the callback never did");
            check_array(cls.c_str(), "iterate64", x.m, c.v.data(), c.v.size(), hi);
            break;
        }
        case 3: {
            std::vector<uint32_t> a;
            a.reserve(card + 1);
            roaring_uint32_iterator_t it;
            roaring_iterator_init(x.b, &it);
            while (it.has_value && a.size() <= card) {
                a.push_back(it.current_value);
                roaring_uint32_iterator_advance(&it);
            }
            check_array(cls.c_str(), "iterator", x.m, a.data(), a.size());
            break;
        }
        case 4: {
            std::vector<uint32_t> a;
            a.reserve(card + 1);
            roaring_uint32_iterator_t it;
            roaring_iterator_init(x.b, &it);
            static const uint32_t sz[] = {1, 7, 64, 1000, 70000};
            uint32_t n = sz[Rng::mix(stepno) % 5];
            if (n < 64 && card > 20000) n = 999;
            std::unique_ptr<uint32_t[]> buf(new uint32_t[n]);
            while (a.size() <= card) {
                uint32_t k = roaring_uint32_iterator_read(&it, buf.get(), n);
                a.insert(a.end(), buf.get(), buf.get() + k);
                if (k < n) break;
            }
            check_array(cls.c_str(), "iterator_read", x.m, a.data(), a.size());
            break;
        }
        case 5: {
            std::vector<uint32_t> a;
            a.reserve(card + 1);
            uint64_t page = card / 3 + 1;
            std::unique_ptr<uint32_t[]> buf(new uint32_t[page]);
            for (uint64_t o = 0; o < card; o += page) {
                uint64_t k = std::min(page, card - o);
                if (!roaring_bitmap_range_uint32_array(x.b, o, k, buf.get())) viol(cls.c_str(), "range_uint32_array returned false");
                a.insert(a.end(), buf.get(), buf.get() + k);
            }
            check_array(cls.c_str(), "range_uint32_array", x.m, a.data(), a.size());
            break;
        }
        case 6: {
            size_t n = roaring_bitmap_portable_size_in_bytes(x.b);
            if (n > (64u << 20)) break;
            Buf b(n, 1);
            size_t w = roaring_bitmap_portable_serialize(x.b, (char *)b.p);
            if (w != n) viol(cls.c_str(), "portable_serialize wrote %zu bytes, announced %zu", w, n);
            Set o;
            std::string why;
            if (!decode_portable32(b.p, n, o, why)) viol(cls.c_str(), "stored form is not a valid image: %s", why.c_str());
            if (!(o == x.m)) viol(cls.c_str(), "stored form holds another set");
            break;
        }
        case 7: {
            uint64_t mx;
            if (x.m.max(&mx) && mx > (1 << 23)) { check_slot(i, 0); return; }
            bitset_t *t = bitset_create();
            if (!t || !roaring_bitmap_to_bitset(x.b, t)) viol(cls.c_str(), "to_bitset failed");
            std::vector<uint64_t> a;
            for (size_t w = 0; w < t->arraysize; w++)
                for (uint64_t y = t->array[w]; y; y &= y - 1) a.push_back(w * 64 + __builtin_ctzll(y));
            bitset_free(t);
            check_array(cls.c_str(), "to_bitset", x.m, a.data(), a.size());
            break;
        }
        case 8: {
            std::vector<uint32_t> a;
            a.reserve(card + 1);
            roaring_uint32_iterator_t it;
            roaring_iterator_init_last(x.b, &it);
            while (it.has_value && a.size() <= card) {
                a.push_back(it.current_value);
                roaring_uint32_iterator_previous(&it);
            }
            std::reverse(a.begin(), a.end());
            check_array(cls.c_str(), "backward iterator", x.m, a.data(), a.size());
            break;
        }
    }
    if (x.view && !x.back->intact()) viol("view-written", "the bytes under a read-only view changed");
}
void W32::valid(int i) {
    Slot32 &x = s[i];
    if (x.lazy) return;
    const char *why = nullptr;
    if (!roaring_bitmap_internal_validate(x.b, &why))
        viol(("invalid:" + st->op).c_str(), "slot %d fails internal validation after %s: %s", i, st->op.c_str(), why ? why : "(no reason)");
    size_t n = roaring_bitmap_portable_size_in_bytes(x.b);
    if (n > (64u << 20)) return;
    Buf b(n, 1);
    roaring_bitmap_portable_serialize(x.b, (char *)b.p);
    Set o;
    std::string w;
    if (!decode_portable32(b.p, n, o, w)) viol(("structure:" + st->op).c_str(), "slot %d, stored form: %s", i, w.c_str());
    if (!(o == x.m)) viol(("content:" + st->op).c_str(), "slot %d, stored form holds another set", i);
}
static void sig_slot(const Slot32 &x, const std::string &op) {
    // distinct states: operation x representation statistics of its slot, coarsened
    roaring_statistics_t t;
    if (x.lazy) return;
    roaring_bitmap_statistics(x.b, &t);
    auto lg2 = [](uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; };
    uint64_t h = 7;
    for (char c : op) h = hmix(h, (unsigned char)c);
    h = hmix(h, std::min(t.n_array_containers, 4u));
    h = hmix(h, std::min(t.n_run_containers, 4u));
    h = hmix(h, std::min(t.n_bitset_containers, 4u));
    h = hmix(h, lg2(t.n_values_array_containers));
    h = hmix(h, lg2(t.n_values_run_containers));
    h = hmix(h, lg2(t.n_values_bitset_containers));
    sig_seen(h);
}
// What was just changed is asked about at once: ranges that meet or straddle the place.
void W32::probe(int i) {
    Slot32 &x = s[i];
    if (x.lazy) return;
    if (!plan->k("v2", 0) || !want(O_RES)) return;
    Rng r(Rng::mix(stepno * 1237 + i) ^ (uint64_t)st->a[1]);
    for (int k = 0; k < 3; k++) {
        uint64_t lo = 0, hi = 0, v, l, h;
        const auto &t = trail.now;
        if (!t.empty() && r.chance(2, 3)) {
            const auto &q = t[r.below(t.size())];
            uint64_t len = std::min<uint64_t>(q.second - q.first, 70000);
            lo = hi = q.first;
            switch (r.below(6)) {
                case 0: case 1: case 2:  // from what is left in front of it into it
                    if (lo && x.m.prevLE(lo - 1, &v)) {
                        x.m.runAround(v, l, h);
                        lo = r.chance(1, 2) ? v : l + r.below(v - l + 1);
                        if (hi - lo > 200000) lo = v;
                    }
                    hi += r.chance(1, 3) ? 0 : r.below(std::min<uint64_t>(len, r.chance(1, 2) ? 20 : 70000) + 1);
                    break;
                case 3:  // out of it into what follows
                    lo = q.second - r.below(std::min<uint64_t>(len, 20) + 1);
                    hi = x.m.nextGE(q.second, &v) ? v : q.second;
                    break;
                case 4: lo = q.first + r.below(len + 1); hi = lo + r.below(len + 1); break;
                default: lo = q.first ? q.first - r.below(std::min<uint64_t>(q.first, 3) + 1) : 0; hi = q.second + (q.second < U32 ? r.below(2) : 0);
            }
        } else if (!run_part(x.m, r.next(), U32, lo, hi)) continue;
        if (hi >= U32) hi = U32 - 1;
        if (lo > hi) lo = hi;
        if (hi - lo > 400000) hi = lo + 400000;
        uint64_t c = x.m.rangeCard(lo, hi);
        CHECK_RES(*this, roaring_bitmap_contains_range(x.b, lo, hi + 1), c == hi - lo + 1);
        CHECK_RES(*this, roaring_bitmap_range_cardinality(x.b, lo, hi + 1), c);
        CHECK_RES(*this, roaring_bitmap_intersect_with_range(x.b, lo, hi + 1), c > 0);
        CHECK_RES(*this, roaring_bitmap_contains(x.b, (uint32_t)lo), x.m.contains(lo));
        CHECK_RES(*this, roaring_bitmap_contains(x.b, (uint32_t)hi), x.m.contains(hi));
        if (k) continue;
        uint64_t rk = x.m.rank(hi);
        CHECK_RES(*this, roaring_bitmap_rank(x.b, (uint32_t)hi), rk);
        CHECK_RES(*this, roaring_bitmap_get_index(x.b, (uint32_t)hi), x.m.contains(hi) ? (int64_t)rk - 1 : (int64_t)-1);
        uint32_t got = 0;
        bool ok = roaring_bitmap_select(x.b, (uint32_t)rk, &got);  // the first value after hi
        CHECK_RES(*this, ok, rk < x.m.card());
        if (ok) CHECK_RES(*this, got, x.m.nextGE(hi + 1, &v) ? v : 0);
        roaring_uint32_iterator_t it;
        roaring_iterator_init(x.b, &it);
        ok = roaring_uint32_iterator_move_equalorlarger(&it, (uint32_t)lo);
        CHECK_RES(*this, ok, x.m.nextGE(lo, &v));
        if (ok) CHECK_RES(*this, it.current_value, v);
        CHECK_RES(*this, roaring_bitmap_minimum(x.b), x.m.min(&v) ? v : U32);
        CHECK_RES(*this, roaring_bitmap_maximum(x.b), x.m.max(&v) ? v : 0);
        if (!r.chance(1, 3) || s.size() < 2) continue;
        const Slot32 &y = s[(i + 1 + r.below(s.size() - 1)) % s.size()];
        if (y.lazy || y.m.card() > 200000 || x.m.card() > 200000) continue;
        uint64_t both = Set::comb(x.m, y.m, 0).card();
        CHECK_RES(*this, roaring_bitmap_and_cardinality(x.b, y.b), both);
        CHECK_RES(*this, roaring_bitmap_intersect(x.b, y.b), both > 0);
        CHECK_RES(*this, roaring_bitmap_is_subset(x.b, y.b), both == x.m.card());
        CHECK_RES(*this, roaring_bitmap_is_subset(y.b, x.b), both == y.m.card());
        CHECK_RES(*this, roaring_bitmap_equals(x.b, y.b), both == x.m.card() && both == y.m.card());
    }
}
void W32::observe(int i) {
    Slot32 &x = s[i];
    sig_slot(x, st->op);
    check_slot(i, (unsigned)(Rng::mix(stepno * 31 + i) % 9));
    if (want(O_VALID)) valid(i);
    if (want(O_IMG)) image_check(i);
    probe(i);
}
void W32::check_all(bool full) {
    std::sort(touched.begin(), touched.end());
    touched.erase(std::unique(touched.begin(), touched.end()), touched.end());
    for (int i : touched) observe(i);
    for (int i = 0; i < (int)s.size(); i++) {
        if (std::binary_search(touched.begin(), touched.end(), i)) continue;
        if (full) {
            check_slot(i, (unsigned)(Rng::mix(stepno * 17 + i) % 9));
            if (want(O_VALID)) valid(i);
        } else if (!s[i].lazy && want(O_CONTENT)) {
            uint64_t c = roaring_bitmap_get_cardinality(s[i].b), e = s[i].m.card();
            if (c != e) viol(("content:" + st->op).c_str(), "slot %d, not an operand of %s: cardinality %llu, the set has %llu", i, st->op.c_str(), (unsigned long long)c, (unsigned long long)e);
        }
    }
    touched.clear();
    if (want(O_MEM) && heap::custody()) viol("custody", "%s (during %s)", heap::custody(), st->op.c_str());
}

// ---------------------------------------------------------------- storage
// fmt: 0 portable, 1 native, 2 frozen
std::vector<uint8_t> W32::store(int i, int fmt) {
    Slot32 &x = s[i];
    size_t n, w;
    const char *cls = "image";
    std::vector<uint8_t> out;
    if (fmt == 0) {
        n = roaring_bitmap_portable_size_in_bytes(x.b);
        Buf b(n, 1);
        memset(b.p, junk, n);
        w = roaring_bitmap_portable_serialize(x.b, (char *)b.p);
        out.assign(b.p, b.p + n);
    } else if (fmt == 1) {
        n = roaring_bitmap_size_in_bytes(x.b);
        Buf b(n, 1);
        memset(b.p, junk, n);
        w = roaring_bitmap_serialize(x.b, (char *)b.p);
        out.assign(b.p, b.p + n);
    } else {
        n = roaring_bitmap_frozen_size_in_bytes(x.b);
        Buf b(n, 32, Rng::mix(stepno) % 3 == 0 ? 3 : 0);
        memset(b.p, junk, n);
        roaring_bitmap_frozen_serialize(x.b, (char *)b.p);
        w = n;
        out.assign(b.p, b.p + n);
    }
    if (w != n && want(O_IMG)) viol(cls, "format %d wrote %zu bytes, announced %zu", fmt, w, n);
    return out;
}
std::vector<Stored> W32::stored(int i) {
    auto v = store(i, 0);
    return stored_sizes32(v.data(), v.size());
}
void W32::image_check(int i) {
    if (s[i].lazy) return;
    if (s[i].m.card() > (1 << 22) && !(huge && roaring_bitmap_portable_size_in_bytes(s[i].b) < (4u << 20))) return;
    for (int fmt = 0; fmt < 3; fmt++) {
        if (fmt == 1 && roaring_bitmap_size_in_bytes(s[i].b) > (32u << 20)) continue;
        auto v = store(i, fmt);
        resb(v.data(), v.size());
        Set o;
        std::string why;
        bool ok;
        if (fmt == 0) ok = decode_portable32(v.data(), v.size(), o, why);
        else if (fmt == 2) ok = decode_frozen32(v.data(), v.size(), o, why);
        else {
            if (v.size() >= 1 && v[0] == 1) {
                uint32_t n;
                ok = v.size() >= 5;
                if (ok) {
                    memcpy(&n, &v[1], 4);
                    ok = v.size() == 5 + 4 * (size_t)n;
                    std::vector<uint64_t> a;
                    for (uint32_t k = 0; ok && k < n; k++) {
                        uint32_t y;
                        memcpy(&y, &v[5 + 4 * k], 4);
                        a.push_back(y);
                    }
                    if (ok) o.setMany(a.data(), a.size(), true);
                }
            } else if (v.size() >= 1 && v[0] == 2) {
                ok = decode_portable32(v.data() + 1, v.size() - 1, o, why);
            } else {
                ok = false;
                why = "unknown native tag";
            }
        }
        if (!ok) viol("image-decode", "format %d of slot %d is not readable by an independent decoder: %s", fmt, i, why.c_str());
        if (!(o == s[i].m)) viol("image-content", "format %d of slot %d holds another set", fmt, i);
        STAT("image_checked");
    }
}
// how: which reader of the format
roaring_bitmap_t *W32::load(const Img &im, unsigned how, BufP &keep, bool &view) {
    view = false;
    size_t n = im.b.size();
    // another address, and alignment where the format leaves it free
    size_t shift = im.fmt == "frozen" ? 0 : Rng::mix(stepno + how) % 4;
    BufP b(new Buf(n, im.fmt == "frozen" ? 32 : 16, shift));
    memcpy(b->p, im.b.data(), n);
    b->seal();
    roaring_bitmap_t *r = nullptr;
    const char *p = (const char *)b->p;
    if (im.fmt == "portable") {
        size_t probe = roaring_bitmap_portable_deserialize_size(p, n);
        if (probe != n) viol("size-probe", "size probe of a %zu-byte portable image says %zu", n, probe);
        switch (how % 3) {
            case 0: r = roaring_bitmap_portable_deserialize(p); break;
            case 1: r = roaring_bitmap_portable_deserialize_safe(p, n); break;
            default:
                if (cow) { r = roaring_bitmap_portable_deserialize_safe(p, n); break; }
                r = roaring_bitmap_portable_deserialize_frozen(p);
                view = true;
                STAT("load_portable_view");
        }
    } else if (im.fmt == "native") {
        if (how % 2) r = roaring_bitmap_deserialize(p);
        else r = roaring_bitmap_deserialize_safe(p, n);
    } else {
        r = const_cast<roaring_bitmap_t *>(roaring_bitmap_frozen_view(p, n));
        view = true;
        STAT("load_frozen_view");
    }
    if (!r) viol("load-null", "a complete %s image of %zu bytes was refused (reader %u)", im.fmt.c_str(), n, how % 3);
    if (!b->intact()) viol("view-written", "reading an image changed it");
    if (view) keep = b;
    return r;
}

// ---------------------------------------------------------------- cursors
void W32::cursor_check(Cur32 &c, const char *what) {
    Slot32 &x = s[c.slot];
    (void)x;
    res(c.it->has_value);
    if (c.it->has_value) res(c.it->current_value);
    if (!want(O_RES)) return;
    if (c.it->has_value != (c.state == 0))
        viol("cursor", "%s: has_value=%d, an ordered-set cursor says %d", what, c.it->has_value, c.state == 0);
    if (c.state == 0 && c.it->current_value != c.v)
        viol("cursor", "%s: at %u, an ordered-set cursor is at %llu", what, c.it->current_value, (unsigned long long)c.v);
    if (c.it->has_value != (c.state == 0)) c.state = 3;
}
void W32::cursor_op(const Step &st) {
    Cur32 &c = cur[(uint64_t)st.a[1] % cur.size()];
    const std::string &op = st.op;
    bool live = c.it && c.slot >= 0 && c.ver == s[c.slot].ver && c.state != 3 && !s[c.slot].lazy;
    if (op == "cur_open" || op == "cur_open_last" || !live) {
        int i = idx(st.a[0]);
        ready(i);
        if (s[i].lazy) return;
        bool last = op == "cur_open_last";
        uint64_t v;
        bool has = last ? s[i].m.max(&v) : s[i].m.min(&v);
        if (c.it && st.a[2] % 2) {
            if (last) roaring_iterator_init_last(s[i].b, c.it);
            else roaring_iterator_init(s[i].b, c.it);
        } else {
            if (c.it) roaring_uint32_iterator_free(c.it);
            c.it = roaring_iterator_create(s[i].b);
            if (!c.it) viol("null:iterator", "iterator_create returned NULL");
            if (last) roaring_iterator_init_last(s[i].b, c.it);
        }
        c.slot = i;
        c.ver = s[i].ver;
        c.state = has ? 0 : last ? 2 : 1;
        if (!has) c.state = 3;
        c.v = v;
        res(c.it->has_value);
        if (want(O_RES) && c.it->has_value != has) viol("cursor", "new cursor: has_value=%d on a set of %llu", c.it->has_value, (unsigned long long)s[i].m.card());
        if (has) cursor_check(c, "new cursor");
        if (op == "cur_open" || op == "cur_open_last") return;
        if (!has) return;
    }
    Slot32 &x = s[c.slot];
    STAT("cursor_moves");
    uint64_t v;
    if (op == "cur_next") {
        unsigned n = 1 + (st.a[2] % 8 == 0 ? st.a[3] % 300 : st.a[3] % 4);
        for (unsigned k = 0; k < n; k++) {
            if (c.state == 1) break;
            bool g = roaring_uint32_iterator_advance(c.it);
            bool e;
            if (c.state == 2) e = x.m.min(&v);
            else e = c.v < U32 && x.m.nextGE(c.v + 1, &v);
            c.state = e ? 0 : 1;
            if (e) c.v = v;
            if (want(O_RES) && g != e) viol("cursor", "advance returned %d, expected %d", g, e);
            cursor_check(c, "advance");
        }
    } else if (op == "cur_prev") {
        unsigned n = 1 + (st.a[2] % 8 == 0 ? st.a[3] % 300 : st.a[3] % 4);
        for (unsigned k = 0; k < n; k++) {
            if (c.state == 2) break;
            bool g = roaring_uint32_iterator_previous(c.it);
            bool e;
            if (c.state == 1) e = x.m.max(&v);
            else e = c.v > 0 && x.m.prevLE(c.v - 1, &v);
            c.state = e ? 0 : 2;
            if (e) c.v = v;
            if (want(O_RES) && g != e) viol("cursor", "previous returned %d, expected %d", g, e);
            cursor_check(c, "previous");
        }
    } else if (op == "cur_seek") {
        uint64_t t = val(st.a[2], x);
        bool g = roaring_uint32_iterator_move_equalorlarger(c.it, (uint32_t)t);
        bool e = x.m.nextGE(t, &v);
        c.state = e ? 0 : 1;
        if (e) c.v = v;
        if (want(O_RES) && g != e) viol("cursor", "move_equalorlarger(%llu) returned %d, expected %d", (unsigned long long)t, g, e);
        cursor_check(c, "move_equalorlarger");
    } else if (op == "cur_read") {
        static const uint32_t sz[] = {0, 1, 2, 3, 5, 8, 63, 64, 65, 100, 1000, 4096, 5000, 65536, 70000, 200000};
        uint32_t n = sz[(uint64_t)st.a[2] % 16];
        if (st.a[3] % 3 == 0) n = (uint32_t)(st.a[3] % 300);
        if (c.state == 2) return;  // before the first element: reading there is unspecified
        std::unique_ptr<uint32_t[]> buf(new uint32_t[n]);
        std::vector<uint64_t> e;
        uint64_t p = c.v;
        bool has = c.state == 0;
        uint64_t left = n;
        if (has && n) {
            uint64_t rk = x.m.rank(p) - 1;
            e = x.m.vec(rk, left);
            if (e.size() == n && x.m.select(rk + n, &v)) c.v = v, c.state = 0;
            else c.state = 1;
        }
        uint32_t k = roaring_uint32_iterator_read(c.it, buf.get(), n);
        res(k);
        if (want(O_RES)) {
            if (k != e.size()) viol("cursor", "read(%u) delivered %u, %zu were left", n, k, e.size());
            for (uint32_t j = 0; j < k; j++)
                if (buf[j] != e[j]) viol("cursor", "read(%u): value #%u is %u, expected %llu", n, j, buf[j], (unsigned long long)e[j]);
        }
        if (k) resb(buf.get(), 4 * (size_t)k);
        cursor_check(c, "read");
    } else if (op == "cur_copy") {
        Cur32 &d = cur[(uint64_t)st.a[2] % cur.size()];
        if (&d == &c) return;
        roaring_uint32_iterator_t *q = roaring_uint32_iterator_copy(c.it);
        if (!q) viol("null:iterator", "iterator_copy returned NULL");
        if (d.it) roaring_uint32_iterator_free(d.it);
        d = c;
        d.it = q;
        cursor_check(d, "copy");
    }
}

// ---------------------------------------------------------------- steps
static double jac(const Set &x, const Set &y) {
    uint64_t i = Set::comb(x, y, 0).card(), u = Set::comb(x, y, 1).card();
    return (double)i / (double)u;
}
static std::vector<uint64_t> fill_values(const Chunk &k, uint64_t key) {
    std::vector<uint64_t> v;
    for (int i = 0; i < 1024; i++)
        for (uint64_t x = k.w[i]; x; x &= x - 1) v.push_back(key << 16 | (uint64_t)(i * 64 + __builtin_ctzll(x)));
    return v;
}
static std::vector<uint32_t> to32(const std::vector<uint64_t> &v) { return std::vector<uint32_t>(v.begin(), v.end()); }
template <class T>
static void shuffle(std::vector<T> &v, Rng &r) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
}
static std::vector<uint64_t> val_list(W32 &w, const Step &st, const Slot32 &x, unsigned maxn) {
    Rng r((uint64_t)st.a[3] * 1000003 + (uint64_t)st.a[4]);
    unsigned n = (unsigned)(st.a[2] % 7 == 0 ? r.below(maxn) : r.below(20));
    std::vector<uint64_t> v;
    for (unsigned i = 0; i < n; i++) {
        if (i && r.chance(1, 6)) v.push_back(v[r.below(v.size())]);
        else if (i && r.chance(1, 2)) v.push_back(std::min<uint64_t>(U32, v.back() + r.below(5)));
        else v.push_back(w.val(r.below(1 << 20), x));
    }
    if (st.a[5] % 2) std::sort(v.begin(), v.end());
    return v;
}

// a set that uses nearly every one of the 65536 chunks, each with the same members
void W32::wide(int d, const int64_t *a) {
    writable(d);
    Rng r((uint64_t)a[3]);
    Slot32 &D = s[d];
    static const uint32_t counts[] = {65536, 65536, 65535, 65534, 65536, 32768, 32769, 65533};
    uint32_t n = counts[r.below(8)];
    auto c = std::make_shared<Chunk>();
    std::vector<unsigned> low;
    unsigned kind = (unsigned)r.below(4), l0 = r.chance(1, 3) ? 0 : r.chance(1, 2) ? 65535 : (unsigned)r.below(65536);
    if (kind < 2) low.push_back(l0);
    else for (unsigned i = 0, k = 1 + (unsigned)r.below(kind == 2 ? 3 : 9); i < k; i++) low.push_back((unsigned)r.below(65536));
    if (kind == 3 && r.chance(1, 2)) {  // one run
        unsigned lo = (unsigned)r.below(65536), hi = r.chance(1, 2) ? 65535 : lo + (unsigned)r.below(65536 - lo);
        if (r.chance(1, 3)) lo = 0;
        low.clear();
        for (unsigned v = lo; v <= hi; v++) low.push_back(v);
    }
    for (auto v : low) c->w[v >> 6] |= 1ULL << (v & 63);
    c->recount();
    // the keys left out: at the end, at the start, or somewhere
    std::vector<uint32_t> key;
    uint32_t gone = 65536 - n, from = r.chance(1, 2) ? n : r.chance(1, 2) ? 0 : (uint32_t)r.below(65536 - gone + 1);
    Set m;
    ChunkP cp = c;
    for (uint32_t k = 0; k < 65536; k++) {
        if (k >= from && k - from < gone) continue;
        key.push_back(k);
        m.c.emplace_hint(m.c.end(), (uint64_t)k, cp);
    }
    roaring_bitmap_t *t = nullptr;
    unsigned how = (unsigned)r.below(6);
    if (how == 0 && (low.size() > 1 || l0 != low[0] || from != n)) how = 1;
    if (how <= 2 && low.size() > 9) how = 3 + (unsigned)r.below(3);
    auto half = [&](unsigned par, unsigned of) {
        roaring_bitmap_t *h = roaring_bitmap_create();
        if (!h) viol("null:create", "create returned NULL");
        roaring_bitmap_set_copy_on_write(h, cow);
        std::vector<uint32_t> v;
        for (size_t i = 0; i < key.size(); i++) {
            if (i * of / key.size() != par && of == 2) continue;
            if (of == 3 && i % 2 != par) continue;
            if (c->n == (int)low.size() && low.size() > 9) {
                roaring_bitmap_add_range_closed(h, key[i] << 16 | low[0], key[i] << 16 | low.back());
            } else {
                for (auto x : low) v.push_back(key[i] << 16 | x);
            }
        }
        roaring_bitmap_add_many(h, v.size(), v.data());
        return h;
    };
    switch (how) {
        case 0:  // one progression
            t = roaring_bitmap_from_range(l0, ((uint64_t)(n - 1) << 16) + l0 + 1, 65536);
            break;
        case 1: {
            t = half(0, 1);
            break;
        }
        case 2:
            t = roaring_bitmap_create_with_capacity((uint32_t)n);
            if (!t) viol("null:create", "create_with_capacity returned NULL");
            for (auto k : key) for (auto x : low) roaring_bitmap_add(t, k << 16 | x);
            break;
        case 3: case 4: {  // two parts, back to back or interleaved
            roaring_bitmap_t *p = half(0, how == 3 ? 2 : 3), *q = half(1, how == 3 ? 2 : 3);
            switch (r.below(5)) {
                case 0: t = roaring_bitmap_or(p, q); break;
                case 1: t = roaring_bitmap_xor(q, p); break;
                case 2: roaring_bitmap_or_inplace(p, q); t = p; p = nullptr; break;
                case 3: roaring_bitmap_xor_inplace(q, p); t = q; q = nullptr; break;
                default: {
                    const roaring_bitmap_t *both[2] = {p, q};
                    t = roaring_bitmap_or_many(2, both);
                }
            }
            if (p) roaring_bitmap_free(p);
            if (q) roaring_bitmap_free(q);
            break;
        }
        default: {
            Rng q(r.next());
            auto im = encode_portable32(m, q);
            Buf b(im.size(), 1);
            memcpy(b.p, im.data(), im.size());
            if (roaring_bitmap_portable_deserialize_size((char *)b.p, b.n) != b.n) viol("load-probe", "a valid image of %u chunks is measured at %zu bytes", n, roaring_bitmap_portable_deserialize_size((char *)b.p, b.n));
            t = roaring_bitmap_portable_deserialize_safe((char *)b.p, b.n);
            if (!t) viol("load-null", "a valid image of another writer was refused");
        }
    }
    if (!t) viol("null:wide", "a call returned NULL although no request was refused");
    roaring_bitmap_set_copy_on_write(t, cow);
    if (D.m.empty() || r.chance(1, 2)) {
        put(d, t, m);
    } else {
        mut(d);
        roaring_bitmap_or_inplace(D.b, t);
        D.m = Set::comb(D.m, m, 1);
        roaring_bitmap_free(t);
    }
    STAT("wide");
}

// C20: a cycle of changes that ends where it began, repeated
void W32::churn_op(const Step &stp) {
    const int64_t *a = stp.a;
    int d = idx(a[0]), e = idx(a[1]);
    if (huge) return;
    writable(d);
    ready(e);
    Slot32 &D = s[d], &E = s[e];
    if (D.m.card() > 40000 || D.m.c.size() > 40 || E.m.c.size() > 40) return;
    mut(d);
    struct Mini { unsigned what; uint64_t lo, hi; std::vector<uint32_t> l; };
    std::vector<Mini> prog;
    Rng r((uint64_t)a[2] * 77 + 5);
    unsigned n = (unsigned)r.range(1, 7), back = (unsigned)r.below(3);
    for (unsigned i = 0; i < n; i++) {
        Mini m;
        m.what = (unsigned)r.below(14);
        range(r.below(1 << 20), r.below(1 << 20), D, m.lo, m.hi);
        if (m.hi - m.lo > (1 << 18)) m.hi = m.lo + (1 << 18);
        for (unsigned j = (unsigned)r.below(40); j--;) m.l.push_back((uint32_t)val(r.below(1 << 20), D));
        prog.push_back(m);
    }
    roaring_bitmap_t *base = roaring_bitmap_copy(D.b), *other = d == e ? base : E.b;
    if (!base) viol("null:copy", "copy returned NULL");
    churn_settles([&]() {
        for (auto &m : prog) {
            switch (m.what) {
                case 0: roaring_bitmap_add_range_closed(D.b, (uint32_t)m.lo, (uint32_t)m.hi); break;
                case 1: roaring_bitmap_remove_range_closed(D.b, (uint32_t)m.lo, (uint32_t)m.hi); break;
                case 2: roaring_bitmap_flip_inplace(D.b, m.lo, m.hi + 1); break;
                case 3: roaring_bitmap_add_many(D.b, m.l.size(), m.l.data()); break;
                case 4: roaring_bitmap_remove_many(D.b, m.l.size(), m.l.data()); break;
                case 5: roaring_bitmap_or_inplace(D.b, other); break;
                case 6: roaring_bitmap_xor_inplace(D.b, other); break;
                case 7: roaring_bitmap_andnot_inplace(D.b, other); break;
                case 8: roaring_bitmap_run_optimize(D.b); break;
                case 9: {
                    roaring_bitmap_t *c = roaring_bitmap_copy(D.b);
                    if (!c) viol("null:copy", "copy returned NULL");
                    roaring_bitmap_free(D.b);
                    D.b = c;
                    break;
                }
                case 10: roaring_bitmap_and_inplace(D.b, other); break;
                case 11:
                    roaring_bitmap_lazy_or_inplace(D.b, other, m.lo & 1);
                    roaring_bitmap_repair_after_lazy(D.b);
                    break;
                case 12:
                    for (auto v : m.l) roaring_bitmap_add(D.b, v);
                    for (auto v : m.l) roaring_bitmap_remove(D.b, v);
                    break;
                default: roaring_bitmap_remove_run_compression(D.b);
            }
        }
        switch (back) {
            case 0: {
                roaring_bitmap_t *t = roaring_bitmap_xor(D.b, base);
                if (!t) viol("null:xor", "xor returned NULL");
                roaring_bitmap_xor_inplace(D.b, t);
                roaring_bitmap_free(t);
                break;
            }
            case 1:
                roaring_bitmap_remove_range_closed(D.b, 0, UINT32_MAX);
                roaring_bitmap_or_inplace(D.b, base);
                break;
            default:
                roaring_bitmap_andnot_inplace(D.b, base);
                if (!roaring_bitmap_overwrite(D.b, base)) viol("null:overwrite", "overwrite failed");
        }
    });
    roaring_bitmap_free(base);
    STAT("churned");
    if (a[3] % 3 == 0) {  // emptied and shrunk: as small as a new one
        if (a[4] % 2) roaring_bitmap_clear(D.b);
        else roaring_bitmap_remove_range_closed(D.b, 0, UINT32_MAX);
        roaring_bitmap_shrink_to_fit(D.b);
        uint64_t l = heap::live_bytes();
        roaring_bitmap_free(D.b);
        l -= heap::live_bytes();
        D.b = nullptr;
        uint64_t l0 = heap::live_bytes();
        D.b = roaring_bitmap_create();
        if (!D.b) viol("null:create", "create returned NULL");
        roaring_bitmap_set_copy_on_write(D.b, cow);
        l0 = heap::live_bytes() - l0;
        if (l > l0) viol("growth:empty", "an emptied and shrunk bitmap holds %llu bytes, a new one %llu", (unsigned long long)l, (unsigned long long)l0);
        D.m = Set();
        STAT("churn_emptied");
    }
}
void W32::step(const Step &stp) {
    st = &stp;
    const std::string &op = stp.op;
    const int64_t *a = stp.a;
    stepno++;
    trail.next_step();
    int d = idx(a[0]), e = idx(a[1]);
    Slot32 &D = s[d], &E = s[e];
    if (huge) {
        // sets of tens of thousands of chunks stay out of the calls that would
        // turn each chunk into a bitset (gigabytes of simulated memory)
        size_t most = 0;
        for (auto &x : s) most = std::max(most, x.m.c.size());
        static const char *const light[] = {"fill", "add", "remove", "add_range", "remove_range", "flip", "flip_inplace", "and", "or", "xor", "andnot", "and_inplace", "or_inplace", "xor_inplace", "andnot_inplace", "copy", "overwrite", "clear", "contains", "ranges", "ranks", "select", "minmax", "stats", "cards", "run_optimize", "add_checked", "remove_checked", "crash", "cur_open", "cur_open_last", "cur_next", "cur_prev", "cur_seek", "cur_copy", "store", "load"};
        bool ok = most <= 3000;
        for (auto *l : light) ok = ok || op == l;
        if (!ok || heap::live_bytes() > (120u << 20)) return;
        if (most > 3000 && ++heavy > 6) return;
    }
    if (op.compare(0, 4, "cur_") == 0) {
        cursor_op(stp);
    } else if (op == "fill" && huge && plan->k("v2", 0) && a[2] % 3 == 0) {
        wide(d, a);
    } else if (op == "fill") {
        writable(d);
        uint64_t key = keys[(uint64_t)a[1] % keys.size()];
        Rng r((uint64_t)a[3]);
        Chunk k;
        pattern(r, (unsigned)a[2], k);
        mut(d);
        if (a[5] % 4 == 0 && D.m.c.count(key)) {  // replace the chunk
            roaring_bitmap_remove_range(D.b, key << 16, (key << 16) + 65536);
            D.m.c.erase(key);
        }
        unsigned how = (unsigned)(a[4] % 7);
        auto v = fill_values(k, key);
        if (how == 1 && v.size() > 6000) how = 0;
        auto v32 = to32(v);
        switch (how) {
            case 0: roaring_bitmap_add_many(D.b, v32.size(), v32.data()); break;
            case 1: for (auto x : v32) roaring_bitmap_add(D.b, x); break;
            case 2: {
                size_t i = 0;
                while (i < v32.size()) {
                    size_t j = i;
                    while (j + 1 < v32.size() && v32[j + 1] == v32[j] + 1) j++;
                    roaring_bitmap_add_range_closed(D.b, v32[i], v32[j]);
                    i = j + 1;
                }
                break;
            }
            case 3: {
                roaring_bitmap_t *t = roaring_bitmap_of_ptr(v32.size(), v32.data());
                if (!t) viol("null:of_ptr", "of_ptr returned NULL");
                roaring_bitmap_set_copy_on_write(t, cow);
                if (a[5] & 1) roaring_bitmap_run_optimize(t);
                roaring_bitmap_or_inplace(D.b, t);
                roaring_bitmap_free(t);
                break;
            }
            case 4: {
                roaring_bulk_context_t c;
                memset(&c, 0, sizeof c);
                shuffle(v32, r);
                for (auto x : v32) roaring_bitmap_add_bulk(D.b, &c, x);
                break;
            }
            case 5: {  // arrives as an image written by another implementation
                Set m;
                auto cp = std::make_shared<Chunk>(k);
                if (k.n) m.c[key] = cp;
                auto im = encode_portable32(m, r);
                roaring_bitmap_t *t = roaring_bitmap_portable_deserialize_safe((char *)im.data(), im.size());
                if (!t) viol("load-null", "a valid image of another writer was refused");
                roaring_bitmap_set_copy_on_write(t, cow);
                if (D.m.empty()) {
                    roaring_bitmap_free(D.b);
                    D.b = t;
                } else {
                    roaring_bitmap_or_inplace(D.b, t);
                    roaring_bitmap_free(t);
                }
                break;
            }
            default: {
                shuffle(v32, r);
                if (v32.size() > 8000) v32.resize(8000);
                v.assign(v32.begin(), v32.end());
                roaring_bitmap_add_many(D.b, v32.size(), v32.data());
                std::sort(v.begin(), v.end());
            }
        }
        if (how == 6) D.m.setMany(v.data(), v.size(), true);
        else if (k.n) D.m.edit(key, [&](Chunk &c) { for (int i = 0; i < 1024; i++) c.w[i] |= k.w[i]; c.recount(); });
    } else if (op == "add" || op == "add_checked") {
        writable(d);
        uint64_t v = val(a[2], D);
        mut(d);
        if (op == "add") roaring_bitmap_add(D.b, (uint32_t)v), D.m.add(v);
        else { bool ex = D.m.add(v); CHECK_RES(*this, roaring_bitmap_add_checked(D.b, (uint32_t)v), ex); }
    } else if (op == "remove" || op == "remove_checked") {
        writable(d);
        uint64_t v = val(a[2], D);
        mut(d);
        if (op == "remove") roaring_bitmap_remove(D.b, (uint32_t)v), D.m.remove(v);
        else { bool ex = D.m.remove(v); CHECK_RES(*this, roaring_bitmap_remove_checked(D.b, (uint32_t)v), ex); }
    } else if (op == "add_many" || op == "remove_many") {
        writable(d);
        auto v = val_list(*this, stp, D, op == "add_many" ? 3000 : 1000);
        if (op == "remove_many" && a[2] % 5 == 1 && !D.m.empty()) {  // most of one chunk goes
            auto it = D.m.c.begin();
            std::advance(it, (uint64_t)a[3] % D.m.c.size());
            v = fill_values(*it->second, it->first);
            Rng r((uint64_t)a[4]);
            shuffle(v, r);
            if (v.size() > 20000) v.resize(20000);
            if (a[5] % 3 == 0) std::sort(v.begin(), v.end());
            else v.resize(v.size() - r.below(v.size()) / 2);
        }
        mut(d);
        auto v32 = to32(v);
        if (op == "add_many") roaring_bitmap_add_many(D.b, v32.size(), v32.data());
        else roaring_bitmap_remove_many(D.b, v32.size(), v32.data());
        std::sort(v.begin(), v.end());
        D.m.setMany(v.data(), v.size(), op == "add_many");
    } else if (op == "add_range" || op == "remove_range" || op == "flip_inplace") {
        writable(d);
        uint64_t lo, hi;
        range(a[2], a[3], D, lo, hi);
        aim_range(D.m, op == "add_range" ? 0 : op == "remove_range" ? 1 : 2, a, lo, hi);
        mut(d);
        bool closed = a[5] % 2;
        bool empty = a[5] % 23 == 5;
        if (empty) {  // empty or reversed range: nothing happens
            if (op == "add_range") roaring_bitmap_add_range(D.b, hi, lo);
            else if (op == "remove_range") roaring_bitmap_remove_range(D.b, hi, lo);
            else roaring_bitmap_flip_inplace(D.b, hi, lo);
            if (hi > lo) {
                uint32_t h = (uint32_t)hi, l = (uint32_t)lo;
                if (op == "add_range") roaring_bitmap_add_range_closed(D.b, h, l);
                else if (op == "remove_range") roaring_bitmap_remove_range_closed(D.b, h, l);
                else roaring_bitmap_flip_inplace_closed(D.b, h, l);
            }
        } else if (op == "add_range") {
            if (closed) roaring_bitmap_add_range_closed(D.b, (uint32_t)lo, (uint32_t)hi);
            else roaring_bitmap_add_range(D.b, lo, hi + 1);
            D.m.addRange(lo, hi);
        } else if (op == "remove_range") {
            if (closed) roaring_bitmap_remove_range_closed(D.b, (uint32_t)lo, (uint32_t)hi);
            else roaring_bitmap_remove_range(D.b, lo, hi + 1);
            D.m.removeRange(lo, hi);
        } else {
            if (closed) roaring_bitmap_flip_inplace_closed(D.b, (uint32_t)lo, (uint32_t)hi);
            else roaring_bitmap_flip_inplace(D.b, lo, hi + 1);
            D.m.flipRange(lo, hi);
        }
    } else if (op == "flip") {
        ready(e);
        uint64_t lo, hi;
        range(a[2], a[3], E, lo, hi);
        aim_range(E.m, 2, a, lo, hi);
        Set m = E.m;
        roaring_bitmap_t *r;
        if (a[5] % 23 == 5) r = hi > lo && a[4] % 2 ? roaring_bitmap_flip_closed(E.b, (uint32_t)hi, (uint32_t)lo) : roaring_bitmap_flip(E.b, hi, lo);
        else {
            m.flipRange(lo, hi);
            r = a[5] % 2 ? roaring_bitmap_flip_closed(E.b, (uint32_t)lo, (uint32_t)hi) : roaring_bitmap_flip(E.b, lo, hi + 1);
        }
        touched.push_back(e);
        put(d, r, m);
    } else if (op == "and" || op == "or" || op == "xor" || op == "andnot") {
        int f = idx(a[2]);
        ready(e);
        ready(f);
        int o = op == "and" ? 0 : op == "or" ? 1 : op == "xor" ? 2 : 3;
        aim(e, f, o, a);
        Set m = Set::comb(E.m, s[f].m, o);
        roaring_bitmap_t *r = o == 0 ? roaring_bitmap_and(E.b, s[f].b) : o == 1 ? roaring_bitmap_or(E.b, s[f].b) : o == 2 ? roaring_bitmap_xor(E.b, s[f].b) : roaring_bitmap_andnot(E.b, s[f].b);
        touched.push_back(e);
        touched.push_back(f);
        put(d, r, m);
    } else if (op == "and_inplace" || op == "or_inplace" || op == "xor_inplace" || op == "andnot_inplace") {
        writable(d);
        ready(e);
        int o = op[0] == 'o' ? 1 : op[0] == 'x' ? 2 : op == "and_inplace" ? 0 : 3;
        if (d == e && o >= 1) return;  // only documented for intersection
        aim(d, e, o, a);
        mut(d);
        Set m = Set::comb(D.m, E.m, o);
        if (o == 0) roaring_bitmap_and_inplace(D.b, E.b);
        else if (o == 1) roaring_bitmap_or_inplace(D.b, E.b);
        else if (o == 2) roaring_bitmap_xor_inplace(D.b, E.b);
        else roaring_bitmap_andnot_inplace(D.b, E.b);
        D.m = m;
        touched.push_back(e);
    } else if (op == "cards") {
        ready(d);
        ready(e);
        aim(d, e, (int)((uint64_t)a[3] % 4), a);
        Set i = Set::comb(D.m, E.m, 0);
        uint64_t ci = i.card(), cd = D.m.card(), ce = E.m.card();
        CHECK_RES(*this, roaring_bitmap_and_cardinality(D.b, E.b), ci);
        CHECK_RES(*this, roaring_bitmap_or_cardinality(D.b, E.b), cd + ce - ci);
        CHECK_RES(*this, roaring_bitmap_xor_cardinality(D.b, E.b), cd + ce - 2 * ci);
        CHECK_RES(*this, roaring_bitmap_andnot_cardinality(D.b, E.b), cd - ci);
        CHECK_RES(*this, roaring_bitmap_intersect(D.b, E.b), ci > 0);
        if (cd + ce) {
            double j = roaring_bitmap_jaccard_index(D.b, E.b);
            if (want(O_RES) && fabs(j - jac(D.m, E.m)) > 1e-12) viol("result:cards", "jaccard_index gave %g, the sets say %g", j, jac(D.m, E.m));
            resb(&j, sizeof j);
        }
    } else if (op == "compare") {
        ready(d);
        ready(e);
        bool sub = D.m.subsetOf(E.m), eq = D.m == E.m;
        CHECK_RES(*this, roaring_bitmap_equals(D.b, E.b), eq);
        CHECK_RES(*this, roaring_bitmap_is_subset(D.b, E.b), sub);
        CHECK_RES(*this, roaring_bitmap_is_strict_subset(D.b, E.b), (sub && !eq));
    } else if (op == "near") {
        // a copy that differs by at most one element from its source
        ready(e);
        Set m = E.m;
        roaring_bitmap_t *r = roaring_bitmap_copy(E.b);
        if (!r) viol("null:copy", "copy returned NULL");
        roaring_bitmap_set_copy_on_write(r, cow);
        uint64_t v = val(a[2], E);
        if (a[5] % 4 == 0) roaring_bitmap_run_optimize(r);
        if (a[5] % 4 == 1) roaring_bitmap_remove_run_compression(r);
        if (a[3] % 5 == 0) roaring_bitmap_add(r, (uint32_t)v), m.add(v);
        else if (a[3] % 5 == 1) roaring_bitmap_remove(r, (uint32_t)v), m.remove(v);
        else if (a[3] % 5 <= 3) {  // one element moved
            uint64_t from, to;
            if (m.nudge((uint64_t)a[2] * 40503 + (uint64_t)a[3] / 5, from, to)) {
                roaring_bitmap_remove(r, (uint32_t)from);
                roaring_bitmap_add(r, (uint32_t)to);
            }
        }
        touched.push_back(e);
        put(d, r, m);
        bool sub = D.m.subsetOf(E.m), eq = D.m == E.m, sup = E.m.subsetOf(D.m);
        if (d != e) {
            CHECK_RES(*this, roaring_bitmap_equals(D.b, E.b), eq);
            CHECK_RES(*this, roaring_bitmap_is_subset(D.b, E.b), sub);
            CHECK_RES(*this, roaring_bitmap_is_subset(E.b, D.b), sup);
            CHECK_RES(*this, roaring_bitmap_is_strict_subset(E.b, D.b), (sup && !eq));
            CHECK_RES(*this, roaring_bitmap_andnot_cardinality(E.b, D.b), Set::comb(E.m, D.m, 3).card());
        }
    } else if (op == "or_many" || op == "or_many_heap" || op == "xor_many") {
        unsigned n = (unsigned)(a[2] % 9);
        Rng r((uint64_t)a[3]);
        std::vector<const roaring_bitmap_t *> in;
        Set m;
        for (unsigned i = 0; i < n; i++) {
            int q = (int)r.below(s.size());
            ready(q);
            in.push_back(s[q].b);
            touched.push_back(q);
            m = Set::comb(m, s[q].m, op == "xor_many" ? 2 : 1);
        }
        const roaring_bitmap_t *none = nullptr;
        const roaring_bitmap_t **p = n ? in.data() : &none;
        roaring_bitmap_t *o = op == "or_many" ? roaring_bitmap_or_many(n, p) : op == "xor_many" ? roaring_bitmap_xor_many(n, p) : roaring_bitmap_or_many_heap(n, p);
        put(d, o, m);
    } else if (op == "lazy_or" || op == "lazy_xor") {
        int f = idx(a[2]);
        ready(e);
        ready(f);
        aim(e, f, op == "lazy_or" ? 1 : 2, a);
        Set m = Set::comb(E.m, s[f].m, op == "lazy_or" ? 1 : 2);
        roaring_bitmap_t *r = op == "lazy_or" ? roaring_bitmap_lazy_or(E.b, s[f].b, a[5] % 2) : roaring_bitmap_lazy_xor(E.b, s[f].b);
        touched.push_back(e);
        touched.push_back(f);
        put(d, r, m);
        D.lazy = true;
        STAT("lazy_pending");
        if (a[4] % 3 == 0) ready(d);
    } else if (op == "lazy_or_inplace" || op == "lazy_xor_inplace") {
        if (d == e) return;
        if (!D.lazy) writable(d);
        ready(e);
        bool was = D.lazy;
        mut(d);
        bool o = op == "lazy_or_inplace";
        aim(d, e, o ? 1 : 2, a);
        Set m = Set::comb(D.m, E.m, o ? 1 : 2);
        if (o) roaring_bitmap_lazy_or_inplace(D.b, E.b, a[5] % 2);
        else roaring_bitmap_lazy_xor_inplace(D.b, E.b);
        D.m = m;
        D.lazy = true;
        touched.push_back(e);
        if (was) STAT("lazy_on_lazy");
        if (a[4] % 3 == 0) ready(d);
    } else if (op == "repair") {
        if (D.lazy) ready(d);
        else if (!D.view && !D.borrowed) { roaring_bitmap_repair_after_lazy(D.b); mut(d); }
    } else if (op == "copy") {
        ready(e);
        if (d == e) return;
        // a copy keeps the source's contexts and cursors alive
        roaring_bitmap_t *r = roaring_bitmap_copy(E.b);
        touched.push_back(e);
        put(d, r, E.m);
    } else if (op == "overwrite") {
        if (d == e) return;
        ready(e);
        writable(d);
        mut(d);
        touched.push_back(e);
        bool ok = roaring_bitmap_overwrite(D.b, E.b);
        if (!ok) viol("null:overwrite", "overwrite returned false although no request was refused");
        D.m = E.m;
    } else if (op == "clear") {
        writable(d);
        mut(d);
        roaring_bitmap_clear(D.b);
        D.m = Set();
    } else if (op == "from_range") {
        uint64_t lo, hi;
        range(a[2], a[3], D, lo, hi);
        static const uint32_t stp[] = {1, 1, 1, 2, 3, 7, 15, 16, 17, 64, 100, 1000, 65535, 65536, 65537, 200000};
        uint32_t k = stp[(uint64_t)a[4] % 16];
        if (k > 1 && (hi - lo) / k > 200000) {
            if (hi == U32) lo = hi - (uint64_t)k * 200000;
            else hi = lo + (uint64_t)k * 200000;
        }
        if (a[5] % 31 == 3) {
            roaring_bitmap_t *r = roaring_bitmap_from_range(hi, lo, k);
            if (lo == hi || hi > lo) {
                if (r) roaring_bitmap_free(r);  // result for empty ranges: NULL or empty
            }
            return;
        }
        roaring_bitmap_t *r = roaring_bitmap_from_range(lo, hi + 1, k);
        Set m;
        if (k == 1) m.addRange(lo, hi);
        else {
            std::vector<uint64_t> v;
            for (uint64_t y = lo; y <= hi; y += k) v.push_back(y);
            m.setMany(v.data(), v.size(), true);
        }
        put(d, r, m);
    } else if (op == "of_ptr") {
        auto v = val_list(*this, stp, D, 3000);
        auto v32 = to32(v);
        roaring_bitmap_t *r;
        if (a[4] % 5 == 0 && v32.size() >= 6) {  // the variadic and the literal form
            v.resize(6);
            if (a[4] % 2) r = roaring_bitmap_of(6, v32[0], v32[1], v32[2], v32[3], v32[4], v32[5]);
            else r = roaring_bitmap_from(v32[0], v32[1], v32[2], v32[3], v32[4], v32[5]);
        } else r = roaring_bitmap_of_ptr(v32.size(), v32.data());
        std::sort(v.begin(), v.end());
        Set m;
        m.setMany(v.data(), v.size(), true);
        put(d, r, m);
    } else if (op == "create_cap") {
        roaring_bitmap_t *r = roaring_bitmap_create_with_capacity((uint32_t)(a[2] % 200));
        put(d, r, Set());
    } else if (op == "stack_bitmap") {
        // a bitmap in client memory, released by clear()
        roaring_bitmap_t b;
        if (a[2] % 2) roaring_bitmap_init_cleared(&b);
        else if (!roaring_bitmap_init_with_capacity(&b, (uint32_t)(a[2] % 50))) viol("null:init", "init_with_capacity failed");
        ready(e);
        if (!E.view) roaring_bitmap_set_copy_on_write(&b, cow);
        if (!roaring_bitmap_overwrite(&b, E.b)) viol("null:overwrite", "overwrite failed");
        CHECK_RES(*this, roaring_bitmap_equals(&b, E.b), true);
        roaring_bitmap_clear(&b);
        CHECK_RES(*this, roaring_bitmap_is_empty(&b), true);
        touched.push_back(e);
    } else if (op == "add_offset") {
        ready(e);
        static const int64_t offs[] = {0, 1, -1, 65536, -65536, 65535, -65535, 3 * 65536, 100, -100, 32768, 4294967295LL, -4294967295LL, 63, 64, 5000000000LL};
        int64_t o = a[3] % 2 ? offs[(uint64_t)a[2] % 16] : (int64_t)(a[4] % 400000) - 200000;
        Set m = E.m.shifted(o, U32);
        roaring_bitmap_t *r = roaring_bitmap_add_offset(E.b, o);
        touched.push_back(e);
        put(d, r, m);
    } else if (op == "run_optimize") {
        writable(d);
        mut(d);
        bool sp = want(O_SPACE) && small(d);
        std::vector<Stored> sb;
        if (sp) sb = stored(d);
        bool r = roaring_bitmap_run_optimize(D.b);
        res(r);
        if (sp) {
            space_optimized(sb, stored(d), D.m);
            STAT("space_optimized");
        }
        if (want(O_RES)) {  // "Returns whether the result has at least one run container"
            roaring_statistics_t t;
            roaring_bitmap_statistics(D.b, &t);
            if (r != (t.n_run_containers > 0)) viol("result:run_optimize", "run_optimize returned %d with %u run containers", r, t.n_run_containers);
        }
    } else if (op == "remove_runs") {
        writable(d);
        mut(d);
        bool sp = want(O_SPACE) && small(d);
        size_t nruns = 0;
        if (sp) for (auto &x : stored(d)) nruns += x.type == 3;
        bool r = roaring_bitmap_remove_run_compression(D.b);
        res(r);
        if (sp) {
            if (r != (nruns > 0)) viol("space:unrun-result", "remove_run_compression returned %d for a bitmap with %zu run containers", r, nruns);
            space_unrun(stored(d), D.m);
            STAT("space_unrun");
        }
        if (want(O_RES)) {
            roaring_statistics_t t;
            roaring_bitmap_statistics(D.b, &t);
            if (t.n_run_containers) viol("result:remove_runs", "run containers remain");
        }
    } else if (op == "shrink") {
        writable(d);
        mut(d);
        uint64_t before = heap::live_bytes();
        auto sb = want(O_SPACE) && small(d) ? store(d, 0) : std::vector<uint8_t>();
        uint64_t got = roaring_bitmap_shrink_to_fit(D.b);
        res(got);
        if (want(O_SPACE)) {
            uint64_t after = heap::live_bytes();
            if (after > before) viol("space:shrink-grew", "shrink_to_fit made the bitmap %llu bytes larger", (unsigned long long)(after - before));
            if (!cow && got != before - after) viol("space:shrink-result", "shrink_to_fit returned %llu, %llu bytes were saved", (unsigned long long)got, (unsigned long long)(before - after));
            if (roaring_bitmap_shrink_to_fit(D.b) != 0 || heap::live_bytes() != after) viol("space:shrink-twice", "shrinking twice saved something again");
            if (small(d) && sb != store(d, 0)) viol("space:shrink-image", "shrink_to_fit changed the stored form");
            if (!cow && D.m.c.size() < 3000) {  // nothing is left over from the history: a shrunk copy takes as much
                uint64_t l0 = heap::live_bytes();
                roaring_bitmap_t *c = roaring_bitmap_copy(D.b);
                if (!c) viol("null:copy", "copy returned NULL");
                roaring_bitmap_shrink_to_fit(c);
                uint64_t l1 = heap::live_bytes();
                roaring_bitmap_free(D.b);
                uint64_t old = l1 - heap::live_bytes();
                D.b = c;
                roaring_bitmap_set_copy_on_write(c, cow);
                if (old != l1 - l0) viol("space:shrink-slack", "a shrunk bitmap of %llu bytes has a shrunk copy of %llu bytes", (unsigned long long)old, (unsigned long long)(l1 - l0));
            }
            STAT("space_shrink");
        }
    } else if (op == "churn") {
        churn_op(stp);
    } else if (op == "print") {
        ready(d);
        if (D.m.card() > 4000) return;
        bool full = a[2] % 5 == 0;
        std::string t = captured([&]() { roaring_bitmap_printf(D.b); }, full);
        if (!full) {
            std::string ex = "{";
            D.m.each([&](uint64_t v) {
                if (ex.size() > 1) ex += ",";
                ex += std::to_string(v);
                return true;
            });
            ex += "}";
            resb(t.data(), t.size());
            if (want(O_RES) && t != ex) viol("result:print", "roaring_bitmap_printf wrote %.60s..., the set is %.60s...", t.c_str(), ex.c_str());
        }
        t = captured([&]() { roaring_bitmap_printf_describe(D.b); }, full);
        if (!full && want(O_RES) && (t.size() < 2 || t[0] != '{' || t.back() != '}')) viol("result:print", "roaring_bitmap_printf_describe wrote %.60s", t.c_str());
        touched.push_back(d);
        STAT("printed");
    } else if (op == "contains") {
        ready(d);
        for (int i = 0; i < 8; i++) {
            uint64_t v = val(Rng::mix((uint64_t)a[2] + i) >> 44, D);
            bool ex = D.m.contains(v);
            CHECK_RES(*this, roaring_bitmap_contains(D.b, (uint32_t)v), ex);
        }
    } else if (op == "ranges") {
        ready(d);
        for (int i = 0; i < 4; i++) {
            uint64_t lo, hi;
            range(Rng::mix((uint64_t)a[2] + i) >> 44, Rng::mix((uint64_t)a[3] + i) >> 44, D, lo, hi);
            uint64_t c = D.m.rangeCard(lo, hi);
            CHECK_RES(*this, roaring_bitmap_range_cardinality(D.b, lo, hi + 1), c);
            CHECK_RES(*this, roaring_bitmap_range_cardinality_closed(D.b, (uint32_t)lo, (uint32_t)hi), c);
            CHECK_RES(*this, roaring_bitmap_contains_range(D.b, lo, hi + 1), c == hi - lo + 1);
            CHECK_RES(*this, roaring_bitmap_contains_range_closed(D.b, (uint32_t)lo, (uint32_t)hi), c == hi - lo + 1);
            CHECK_RES(*this, roaring_bitmap_intersect_with_range(D.b, lo, hi + 1), c > 0);
            if (hi > lo) {
                CHECK_RES(*this, roaring_bitmap_contains_range(D.b, hi, lo), true);
                CHECK_RES(*this, roaring_bitmap_contains_range_closed(D.b, (uint32_t)hi, (uint32_t)lo), true);
                CHECK_RES(*this, roaring_bitmap_range_cardinality_closed(D.b, (uint32_t)hi, (uint32_t)lo), 0u);
                CHECK_RES(*this, roaring_bitmap_range_cardinality(D.b, hi, lo), 0u);
                CHECK_RES(*this, roaring_bitmap_intersect_with_range(D.b, hi, lo), false);
            }
        }
    } else if (op == "ranks") {
        ready(d);
        std::vector<uint32_t> q;
        for (int i = 0; i < 10; i++) q.push_back((uint32_t)val(Rng::mix((uint64_t)a[2] + i) >> 44, D));
        for (auto v : q) {
            CHECK_RES(*this, roaring_bitmap_rank(D.b, v), D.m.rank(v));
            int64_t ex = D.m.contains(v) ? (int64_t)D.m.rank(v) - 1 : -1;
            CHECK_RES(*this, roaring_bitmap_get_index(D.b, v), ex);
        }
        std::sort(q.begin(), q.end());
        if (a[3] % 3 == 0) q.resize(q.size() / 2);
        std::vector<uint64_t> out(q.size(), 0x5555555555555555ULL);
        roaring_bitmap_rank_many(D.b, q.data(), q.data() + q.size(), out.data());
        for (size_t i = 0; i < q.size(); i++) CHECK_RES(*this, out[i], D.m.rank(q[i]));
    } else if (op == "select") {
        ready(d);
        uint64_t c = D.m.card();
        for (int i = 0; i < 6; i++) {
            uint64_t rk = c ? (i == 0 ? c - 1 : i == 1 ? c : Rng::mix((uint64_t)a[2] + i) % c) : (uint64_t)i;
            if (rk > U32) continue;
            uint32_t got = 0;
            uint64_t v = 0;
            bool ok = D.m.select(rk, &v);
            bool g = roaring_bitmap_select(D.b, (uint32_t)rk, &got);
            CHECK_RES(*this, g, ok);
            if (ok) CHECK_RES(*this, (uint64_t)got, v);
        }
    } else if (op == "minmax") {
        ready(d);
        uint64_t mn = U32, mx = 0;
        D.m.min(&mn);
        D.m.max(&mx);
        CHECK_RES(*this, (uint64_t)roaring_bitmap_minimum(D.b), mn);
        CHECK_RES(*this, (uint64_t)roaring_bitmap_maximum(D.b), mx);
        CHECK_RES(*this, roaring_bitmap_is_empty(D.b), D.m.empty());
        CHECK_RES(*this, roaring_bitmap_get_cardinality(D.b), D.m.card());
    } else if (op == "stats") {
        ready(d);
        roaring_statistics_t t;
        roaring_bitmap_statistics(D.b, &t);
        CHECK_RES(*this, (uint64_t)t.cardinality, D.m.card());
        CHECK_RES(*this, (uint64_t)t.n_containers, (uint64_t)D.m.c.size());
        CHECK_RES(*this, (uint64_t)(t.n_array_containers + t.n_run_containers + t.n_bitset_containers), (uint64_t)D.m.c.size());
        CHECK_RES(*this, (uint64_t)t.n_values_array_containers + t.n_values_run_containers + t.n_values_bitset_containers, D.m.card() & U32);
        if (!D.m.empty()) {
            uint64_t mn, mx;
            D.m.min(&mn);
            D.m.max(&mx);
            CHECK_RES(*this, (uint64_t)t.min_value, mn);
            CHECK_RES(*this, (uint64_t)t.max_value, mx);
        }
    } else if (op == "page") {
        ready(d);
        uint64_t c = D.m.card();
        uint64_t off = c ? Rng::mix((uint64_t)a[2]) % (c + 2) : (uint64_t)(a[2] % 3);
        static const uint64_t ls[] = {0, 1, 2, 10, 63, 64, 65, 1000, 4096, 65536, 100000};
        uint64_t lim = ls[(uint64_t)a[3] % 11];
        uint64_t n = off < c ? std::min(lim, c - off) : 0;
        // the caller provides room for `limit` values; only those that exist are written
        std::unique_ptr<uint32_t[]> buf(new uint32_t[lim ? lim : 1]);
        for (uint64_t i = 0; i < lim; i++) buf[i] = 0xDEADBEEF;
        bool ok = roaring_bitmap_range_uint32_array(D.b, off, lim, buf.get());
        CHECK_RES(*this, ok, true);
        auto ev = D.m.vec(off, lim);
        if (want(O_RES))
            for (uint64_t i = 0; i < n; i++)
                if (buf[i] != ev[i]) viol("page", "range_uint32_array(offset %llu, limit %llu): value #%llu is %u, expected %llu", (unsigned long long)off, (unsigned long long)lim, (unsigned long long)i, buf[i], (unsigned long long)ev[i]);
        resb(buf.get(), 4 * n);
        touched.push_back(d);
    } else if (op == "cancel") {
        ready(d);
        uint64_t c = D.m.card();
        CbCtx x;
        x.stop_after = c ? 1 + Rng::mix((uint64_t)a[2]) % (c + 1) : 1;
        if (a[4] % 3 == 0 || c > (1 << 21)) x.stop_after = 1 + (uint64_t)a[2] % 70;
        bool six4 = a[3] % 2;
        uint64_t hi = six4 ? 0x100000000ULL * (uint64_t)(a[4] % 7) : 0;
        bool g = six4 ? roaring_iterate64(D.b, cb64, hi, &x) : roaring_iterate(D.b, cb32, &x);
        CHECK_RES(*this, g, x.stop_after > c);
        if (want(O_RES)) {
            if (x.after_stop) viol("cancel", "the callback was called again after it declined");
            uint64_t n = std::min(x.stop_after, c);
            if (x.v.size() != n) viol("cancel", "callback called %zu times, expected %llu", x.v.size(), (unsigned long long)n);
            auto ev = D.m.vec(0, n);
            for (uint64_t i = 0; i < n; i++)
                if (x.v[i] != (ev[i] | hi)) viol("cancel", "visit #%llu is %llu, expected %llu", (unsigned long long)i, (unsigned long long)x.v[i], (unsigned long long)(ev[i] | hi));
        }
        STAT("callback_cancelled");
    } else if (op == "bulk") {
        // several bulk calls with the slot's context, which lives until the slot changes otherwise
        if (a[5] % 3 != 0 || D.lazy) writable(d);
        Rng r((uint64_t)a[3]);
        unsigned n = (unsigned)(1 + a[4] % 40);
        bool only_read = D.view || D.borrowed;
        unsigned mode = (unsigned)(a[5] % 4);  // 0 contains, 1 add, 2 mixed
        for (unsigned i = 0; i < n; i++) {
            uint64_t v = D.last_bulk >= 0 && r.chance(2, 3) ? (((uint64_t)D.last_bulk & ~0xffffULL) | r.below(65536)) : val(r.below(1 << 20), D);
            bool add = !only_read && (mode == 1 || (mode >= 2 && r.chance(1, 2)));
            if (add) {
                roaring_bitmap_add_bulk(D.b, &D.ctx, (uint32_t)v);
                D.m.add(v);
                D.ver++;
            } else {
                bool ex = D.m.contains(v);
                CHECK_RES(*this, roaring_bitmap_contains_bulk(D.b, &D.ctx, (uint32_t)v), ex);
            }
            D.last_bulk = (int64_t)v;
        }
        touched.push_back(d);
    } else if (op == "store") {
        ready(e);
        Img &im = disk[(uint64_t)a[2] % disk.size()];
        int fmt = (int)(a[3] % 3);
        if (E.m.card() > (1 << 22) && !(huge && plan->k("v2", 0) && roaring_bitmap_portable_size_in_bytes(E.b) < (4u << 20) && (fmt != 1 || roaring_bitmap_size_in_bytes(E.b) < (4u << 20)))) return;
        if (fmt == 2 && cow && !plan->k("frozen_cow", 1)) fmt = 0;
        im.b = store(e, fmt);
        im.fmt = fmt == 0 ? "portable" : fmt == 1 ? "native" : "frozen";
        im.m = E.m;
        im.used = true;
        resb(im.b.data(), im.b.size());
        touched.push_back(e);
        STAT("store");
    } else if (op == "load") {
        Img &im = disk[(uint64_t)a[2] % disk.size()];
        if (!im.used) return;
        if (im.fmt == "frozen" && cow) {  // views do not mix with copy-on-write
            BufP b(new Buf(im.b.size(), 32));
            memcpy(b->p, im.b.data(), im.b.size());
            const roaring_bitmap_t *v = roaring_bitmap_frozen_view((char *)b->p, im.b.size());
            if (!v) viol("load-null", "a complete frozen image was refused");
            roaring_bitmap_t *c = roaring_bitmap_copy(v);
            roaring_bitmap_free(v);
            put(d, c, im.m);
        } else {
            BufP keep;
            bool view;
            roaring_bitmap_t *r = load(im, (unsigned)a[3], keep, view);
            Set m = im.m;
            drop(d);
            s[d].b = r;
            s[d].m = m;
            s[d].lazy = false;
            s[d].view = view;
            s[d].back = keep;
            if (!view) roaring_bitmap_set_copy_on_write(r, cow);
            mut(d);
        }
        STAT("load");
    } else if (op == "crash") {
        // the process dies: only the disk survives; another machine restarts it
        for (auto &c : cur) c = Cur32();
        for (auto &x : s) {
            x.b = nullptr;
            x.view = x.lazy = false;
            x.ver++;
            x.m = Set();
            x.last_bulk = -1;
            memset(&x.ctx, 0, sizeof x.ctx);
        }
        std::vector<BufP> old;
        for (auto &x : s) { old.push_back(x.back); x.back.reset(); }
        heap::free_all();
        old.clear();
        if (!(oracle & O_LOG)) {
            static const int isas[] = {0, 1, 3};
            heap::set_isa(isas[(uint64_t)a[2] % 3]);
            heap::set_fill(Rng::mix((uint64_t)a[3]));
        }
        for (int i = 0; i < (int)s.size(); i++) {
            Img &im = disk[i % disk.size()];
            if (im.used && i < (int)disk.size() && !(im.fmt == "frozen" && cow)) {
                BufP keep;
                bool view;
                s[i].b = load(im, (unsigned)(a[4] + i), keep, view);
                s[i].view = view;
                s[i].back = keep;
                s[i].m = im.m;
            } else {
                s[i].b = roaring_bitmap_create();
                if (!s[i].b) viol("null:create", "create returned NULL");
            }
            if (!s[i].view) roaring_bitmap_set_copy_on_write(s[i].b, cow);
            touched.push_back(i);
        }
        STAT("crash_restart");
    } else if (op == "import") {
        // an image written by another implementation arrives
        ready(e);
        Rng r((uint64_t)a[3]);
        auto im = encode_portable32(E.m, r);
        Img x;
        x.fmt = "portable";
        x.b = im;
        x.m = E.m;
        BufP keep;
        bool view;
        if (im.size() > (16u << 20)) return;
        roaring_bitmap_t *b = load(x, (unsigned)a[4], keep, view);
        Set m = E.m;
        drop(d);
        s[d].b = b;
        s[d].m = m;
        s[d].lazy = false;
        s[d].view = view;
        s[d].back = keep;
        if (!view) roaring_bitmap_set_copy_on_write(b, cow);
        mut(d);
        STAT("import");
    } else if (op == "to_bitset") {
        ready(d);
        uint64_t mx = 0;
        D.m.max(&mx);
        if (mx > (1 << 23)) return;
        bitset_t *t = a[2] % 2 ? bitset_create() : bitset_create_with_capacity((size_t)(a[3] % 5000));
        if (!t) viol("null:bitset", "bitset_create failed");
        CHECK_RES(*this, roaring_bitmap_to_bitset(D.b, t), true);
        CHECK_RES(*this, (uint64_t)bitset_count(t), D.m.card());
        bool same = true;
        Set g;
        std::vector<uint64_t> vv;
        for (size_t w = 0; w < t->arraysize; w++)
            for (uint64_t y = t->array[w]; y; y &= y - 1) vv.push_back(w * 64 + __builtin_ctzll(y));
        g.setMany(vv.data(), vv.size(), true);
        same = g == D.m;
        CHECK_RES(*this, same, true);
        bitset_free(t);
    } else if (op == "validate") {
        ready(d);
        const char *why = nullptr;
        CHECK_RES(*this, roaring_bitmap_internal_validate(D.b, &why), true);
    } else if (op == "fault") {
        fault_op(stp);
    } else if (op == "damage") {
        damage_op(stp);
    } else if (op == "torn") {
        torn_op(stp);
    } else {
        fprintf(stderr, "unknown op %s\n", op.c_str());
        abort();
    }
    // repair-by-policy for properties that do not study laziness is up to the generator
    check_all(stepno % 4 == 0);
}
void W32::finish() {
    static const Step end{"end", {0, 0, 0, 0, 0, 0}, 0};
    st = &end;
    for (int i = 0; i < (int)s.size(); i++) ready(i);
    touched.clear();
    for (int i = 0; i < (int)s.size(); i++) touched.push_back(i);
    check_all(true);
    for (auto &x : s)
        if (x.view && !x.back->intact()) viol("view-written", "the bytes under a read-only view changed");
    // release in an order decided by the plan, so that shared storage is let go in any order
    for (auto &c : cur) {
        if (c.it) roaring_uint32_iterator_free(c.it);
        c.it = nullptr;
    }
    std::vector<int> ord;
    for (int i = 0; i < (int)s.size(); i++) ord.push_back(i);
    Rng r(plan->seed ^ 77);
    shuffle(ord, r);
    for (int i : ord) {
        drop(i);
        s[i].back.reset();
    }
    if (want(O_MEM)) {
        if (heap::custody()) viol("custody", "%s", heap::custody());
        if (heap::live()) viol("leak", "%llu blocks (%llu bytes) still allocated after everything was freed", (unsigned long long)heap::live(), (unsigned long long)heap::live_bytes());
    }
}
