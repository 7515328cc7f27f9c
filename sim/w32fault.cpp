// Faults of the 32-bit world: refused memory, damaged and torn images.
#include "w32.h"

static const uint64_t U32 = 0xffffffffULL;

struct Under {  // names the call under fault in crash reports
    explicit Under(const char *what) { snprintf(g_sh->plan_note, sizeof g_sh->plan_note, "%s", what); }
    ~Under() { g_sh->plan_note[0] = 0; }
};

// Which call is swept; the first FAULT_CLEAN are C03's, the others C16's
static const char *fault_names[] = {
    "create", "create_with_capacity", "copy", "overwrite", "portable_deserialize", "portable_deserialize_safe",
    "deserialize", "deserialize_safe", "frozen_view", "portable_deserialize_frozen", "to_bitset",
    "range_uint32_array", "iterator_create", "iterator_copy", "init_with_capacity", "overwrite_empty",
    "portable_deserialize_other", "deserialize_native_array",
    // C16
    "from_range", "of_ptr", "add_offset", "and", "or", "xor", "andnot", "or_many", "or_many_heap", "xor_many",
    "flip", "flip_closed", "lazy_or", "lazy_xor"};
static const int FAULT_CLEAN = 18, FAULT_ALL = sizeof fault_names / sizeof *fault_names;

// The second request of these calls is the table of the result bitmap (11 bytes for each container):
// refusing it is still refusing the bitmap itself.
static std::string g_create_cls;
static bool g_table_refused;
static void refused_table(uint64_t k, size_t size) {
    if (k != 2 || !size || size % 11) return;
    g_table_refused = true;
    snprintf(g_sh->plan_note, sizeof g_sh->plan_note, "%s", g_create_cls.c_str());
}
void W32::fault_op(const Step &stp) {
    const int64_t *a = stp.a;
    int e = idx(a[1]), f = idx(a[2]);
    int t;
    if (plan->k("fault_set", 0) == 1) t = FAULT_CLEAN + (int)((uint64_t)a[0] % (FAULT_ALL - FAULT_CLEAN));
    else t = (int)((uint64_t)a[0] % FAULT_CLEAN);
    std::string what = fault_names[t];
    const bool fault_all = t >= FAULT_CLEAN;  // a result left broken by the fault belongs to the call
    ready(e);
    ready(f);
    Slot32 &E = s[e], &F = s[f];
    if (E.m.card() > (1 << 20) || F.m.card() > (1 << 20)) return;
    bool later = a[3] % 2;
    std::string cls;
    // inputs prepared without faults
    std::vector<uint8_t> img;
    BufP buf;
    roaring_uint32_iterator_t *it0 = nullptr;
    uint64_t lo = 0, hi = 0;
    range((uint64_t)a[4], (uint64_t)a[5], E, lo, hi);
    std::vector<uint32_t> vals;
    {
        auto v = E.m.vec(0, 3000);
        vals.assign(v.begin(), v.end());
    }
    auto mkbuf = [&](const std::vector<uint8_t> &v, size_t al) {
        buf.reset(new Buf(v.size(), al));
        memcpy(buf->p, v.data(), v.size());
        buf->seal();
    };
    if (what == "portable_deserialize" || what == "portable_deserialize_safe") mkbuf(store(e, 0), 16);
    else if (what == "portable_deserialize_frozen") mkbuf(store(e, 0), 16);
    else if (what == "portable_deserialize_other") {
        Rng r((uint64_t)a[5]);
        mkbuf(encode_portable32(E.m, r), 16);
    } else if (what == "deserialize" || what == "deserialize_safe") {
        auto v = store(e, 1);
        mkbuf(v, 16);
        if (v[0] == 1) what = "deserialize_native_array";  // the form of small sparse sets
    }
    else if (what == "deserialize_native_array") {
        std::vector<uint8_t> v(5 + 4 * vals.size());
        v[0] = 1;
        uint32_t n = (uint32_t)vals.size();
        memcpy(&v[1], &n, 4);
        if (n) memcpy(&v[5], vals.data(), 4 * (size_t)n);
        mkbuf(v, 16);
    } else if (what == "frozen_view") {
        if (cow) return;  // views are only used without copy-on-write
        mkbuf(store(e, 2), 32);
    } else if (what == "to_bitset") {
        uint64_t mx = 0;
        E.m.max(&mx);
        if (mx > (1 << 22)) return;
    } else if (what == "iterator_copy") {
        it0 = roaring_iterator_create(E.b);
        roaring_uint32_iterator_move_equalorlarger(it0, (uint32_t)lo);
    }
    if (what == "portable_deserialize_frozen" && cow) return;
    uint64_t offset = 0, limit = E.m.card();
    if (what == "range_uint32_array" && limit) {
        offset = (uint64_t)a[4] % limit;
        limit = 1 + (uint64_t)a[5] % (limit - offset);
    }
    std::vector<const roaring_bitmap_t *> many;
    Set manym;
    bool xr = what == "xor_many";
    if (what == "or_many" || what == "or_many_heap" || xr) {
        unsigned n = 1 + (unsigned)(a[4] % 5);
        for (unsigned i = 0; i < n; i++) {
            int q = idx(a[5] + i * 7);
            ready(q);
            many.push_back(s[q].b);
            manym = Set::comb(manym, s[q].m, xr ? 2 : 1);
        }
    }
    static const int64_t offs[] = {0, 1, -1, 65536, -65536, 100, 32768, 65535};
    int64_t off = offs[(uint64_t)a[4] % 8];
    uint32_t cap = (uint32_t)(a[4] % 100);
    cls = "oom:" + what;
    bool tabled = what == "and" || what == "or" || what == "xor" || what == "andnot" || what == "lazy_or" || what == "lazy_xor";
    // a call known to crash ends the run: visited in a few runs only
    if (what == "deserialize_native_array" && !plan->k("findings", 0)) {
        if (it0) roaring_uint32_iterator_free(it0);
        return;
    }

    for (int n = fault_all ? 1 + (int)(a[3] / 8 % 6) : 1; n < 400; n += n < 24 ? 1 : n / 6) {
        // the first request is the result bitmap itself
        if (fault_all) cls = "oom:" + what + (n == 1 ? ":create" : "");
        uint64_t live0 = heap::live(), mark0 = heap::mark();
        // an overwritten destination
        roaring_bitmap_t *dst = nullptr;
        if (what == "overwrite" || what == "overwrite_empty") {
            dst = what == "overwrite" ? roaring_bitmap_copy(F.b) : roaring_bitmap_create();
            if (!dst) viol("null:copy", "copy returned NULL");
            roaring_bitmap_set_copy_on_write(dst, cow);
            live0 = heap::live();
        }
        roaring_bitmap_t *out = nullptr;
        roaring_bitmap_t init;
        bool ok = false, isbitmap = true;
        Set expect = E.m;
        std::vector<uint32_t> arr;
        bitset_t *bs = nullptr;
        roaring_uint32_iterator_t *itr = nullptr;
        if (what == "to_bitset") {
            bs = a[4] % 2 ? bitset_create() : bitset_create_with_capacity((size_t)(a[5] % 3000));
            live0 = heap::live();
        }
        if (what == "range_uint32_array") arr.assign(limit + 1, 0xDEADBEEF);
        g_sh->step = n;
        uint64_t refused;
        {
            Under u(cls.c_str());
            g_table_refused = false;
            g_create_cls = "oom:" + what + ":create";
            if (fault_all && tabled) heap::on_refuse(refused_table);
            heap::arm(later ? -n : n);
            if (what == "create") out = roaring_bitmap_create(), expect = Set();
            else if (what == "create_with_capacity") out = roaring_bitmap_create_with_capacity(cap), expect = Set();
            else if (what == "copy") out = roaring_bitmap_copy(E.b);
            else if (what == "overwrite" || what == "overwrite_empty") {
                ok = roaring_bitmap_overwrite(dst, E.b);
                isbitmap = false;
            } else if (what == "portable_deserialize") out = roaring_bitmap_portable_deserialize((char *)buf->p);
            else if (what == "portable_deserialize_safe" || what == "portable_deserialize_other")
                out = roaring_bitmap_portable_deserialize_safe((char *)buf->p, buf->n);
            else if (what == "deserialize") out = roaring_bitmap_deserialize(buf->p);
            else if (what == "deserialize_safe") out = roaring_bitmap_deserialize_safe(buf->p, buf->n);
            else if (what == "deserialize_native_array") {
                if (buf->n >= 5) {
                    uint32_t cnt;
                    memcpy(&cnt, buf->p + 1, 4);
                    vals.resize(cnt);
                    if (cnt) memcpy(vals.data(), buf->p + 5, 4 * (size_t)cnt);
                }
                out = (a[4] & 1) ? roaring_bitmap_deserialize(buf->p) : roaring_bitmap_deserialize_safe(buf->p, buf->n);
                expect = Set();
                std::vector<uint64_t> v(vals.begin(), vals.end());
                expect.setMany(v.data(), v.size(), true);
            } else if (what == "frozen_view") out = const_cast<roaring_bitmap_t *>(roaring_bitmap_frozen_view((char *)buf->p, buf->n));
            else if (what == "portable_deserialize_frozen") out = roaring_bitmap_portable_deserialize_frozen((char *)buf->p);
            else if (what == "to_bitset") ok = roaring_bitmap_to_bitset(E.b, bs), isbitmap = false;
            else if (what == "range_uint32_array") ok = roaring_bitmap_range_uint32_array(E.b, offset, limit, arr.data()), isbitmap = false;
            else if (what == "iterator_create") itr = roaring_iterator_create(E.b), ok = itr, isbitmap = false;
            else if (what == "iterator_copy") itr = roaring_uint32_iterator_copy(it0), ok = itr, isbitmap = false;
            else if (what == "init_with_capacity") {
                ok = roaring_bitmap_init_with_capacity(&init, cap);
                isbitmap = false;
            } else if (what == "from_range") {
                out = roaring_bitmap_from_range(lo, hi + 1, 1 + (uint32_t)(a[3] / 2 % 3) * 7);
                expect = Set();
                uint32_t k = 1 + (uint32_t)(a[3] / 2 % 3) * 7;
                std::vector<uint64_t> v;
                if (k == 1) expect.addRange(lo, hi);
                else {
                    for (uint64_t y = lo; y <= hi; y += k) v.push_back(y);
                    expect.setMany(v.data(), v.size(), true);
                }
            } else if (what == "of_ptr") {
                out = roaring_bitmap_of_ptr(vals.size(), vals.data());
                expect = Set();
                std::vector<uint64_t> v(vals.begin(), vals.end());
                expect.setMany(v.data(), v.size(), true);
            } else if (what == "add_offset") out = roaring_bitmap_add_offset(E.b, off), expect = E.m.shifted(off, U32);
            else if (what == "and") out = roaring_bitmap_and(E.b, F.b), expect = Set::comb(E.m, F.m, 0);
            else if (what == "or") out = roaring_bitmap_or(E.b, F.b), expect = Set::comb(E.m, F.m, 1);
            else if (what == "xor") out = roaring_bitmap_xor(E.b, F.b), expect = Set::comb(E.m, F.m, 2);
            else if (what == "andnot") out = roaring_bitmap_andnot(E.b, F.b), expect = Set::comb(E.m, F.m, 3);
            else if (what == "or_many") out = roaring_bitmap_or_many(many.size(), many.data()), expect = manym;
            else if (what == "or_many_heap") out = roaring_bitmap_or_many_heap((uint32_t)many.size(), many.data()), expect = manym;
            else if (what == "xor_many") out = roaring_bitmap_xor_many(many.size(), many.data()), expect = manym;
            else if (what == "flip") out = roaring_bitmap_flip(E.b, lo, hi + 1), expect.flipRange(lo, hi);
            else if (what == "flip_closed") out = roaring_bitmap_flip_closed(E.b, (uint32_t)lo, (uint32_t)hi), expect.flipRange(lo, hi);
            else if (what == "lazy_or" || what == "lazy_xor") {
                bool o = what == "lazy_or";
                out = o ? roaring_bitmap_lazy_or(E.b, F.b, a[3] / 2 % 2) : roaring_bitmap_lazy_xor(E.b, F.b);
                expect = Set::comb(E.m, F.m, o ? 1 : 2);
            }
            refused = heap::disarm();
            heap::on_refuse(nullptr);
            if (g_table_refused) cls = g_create_cls;
        }
        if (isbitmap) ok = out != nullptr;
        lg(ok);
        lg(refused);
        if (!refused && !ok) viol(cls.c_str(), "%s failed although no request was refused", what.c_str());
        if (refused) {
            stat_add(("refused_in_" + what).c_str());
            STAT("fault_alloc_refused");
            g_sh->nontrivial = 1;
        }
        if (ok && isbitmap) {
            // (a successful result in spite of a refused request is fine if it is right)
            Under u(fault_all ? cls.c_str() : "");
            if (what.compare(0, 5, "lazy_") == 0) roaring_bitmap_repair_after_lazy(out);
            const char *why = nullptr;
            if (!roaring_bitmap_internal_validate(out, &why)) viol(cls.c_str(), "request %d refused: the result is invalid: %s", n, why ? why : "?");
            uint64_t card = roaring_bitmap_get_cardinality(out);
            if (card != expect.card()) viol(cls.c_str(), "request %d refused=%d: result has %llu values, expected %llu", n, (int)refused, (unsigned long long)card, (unsigned long long)expect.card());
            std::unique_ptr<uint32_t[]> got(new uint32_t[card]);
            roaring_bitmap_to_uint32_array(out, got.get());
            check_array(cls.c_str(), "result", expect, got.get(), card);
            roaring_bitmap_free(out);
        }
        if (dst) {
            // a failed overwrite leaves a valid, empty, usable bitmap
            Set now = ok ? E.m : Set();
            const char *why = nullptr;
            {
                Under u((cls + ":after").c_str());
                if (!roaring_bitmap_internal_validate(dst, &why)) viol(cls.c_str(), "request %d refused: the overwritten bitmap is invalid: %s", n, why ? why : "?");
                if (roaring_bitmap_get_cardinality(dst) != now.card()) viol(cls.c_str(), "request %d refused: the overwritten bitmap has %llu values, expected %llu", n, (unsigned long long)roaring_bitmap_get_cardinality(dst), (unsigned long long)now.card());
                roaring_bitmap_add(dst, 7);
                roaring_bitmap_add_range(dst, 70000, 80000);
                now.add(7);
                now.addRange(70000, 79999);
                uint64_t card = roaring_bitmap_get_cardinality(dst);
                if (card != now.card()) viol(cls.c_str(), "the overwritten bitmap is not usable after the failure");
                std::unique_ptr<uint32_t[]> got(new uint32_t[card]);
                roaring_bitmap_to_uint32_array(dst, got.get());
                check_array(cls.c_str(), "overwritten bitmap", now, got.get(), card);
                roaring_bitmap_free(dst);
            }
        }
        if (bs) {
            if (ok && bitset_count(bs) != E.m.card()) viol(cls.c_str(), "bitset has %zu bits", bitset_count(bs));
            bitset_free(bs);
        }
        if (what == "range_uint32_array" && ok) {
            auto ev = E.m.vec(offset, limit);
            for (size_t i = 0; i < ev.size(); i++)
                if (arr[i] != ev[i]) viol(cls.c_str(), "request %d refused: value #%zu is %u, expected %llu", n, i, arr[i], (unsigned long long)ev[i]);
        }
        if (itr) {
            uint64_t v = 0;
            bool has = E.m.nextGE(what == "iterator_copy" ? lo : 0, &v);
            if (itr->has_value != has || (has && itr->current_value != v)) viol(cls.c_str(), "iterator at the wrong place");
            roaring_uint32_iterator_free(itr);
        }
        if (what == "init_with_capacity" && ok) roaring_bitmap_clear(&init);
        if (!cow && !dst && !bs) {
            if (heap::live() != live0)
                viol(("oom-leak:" + what + (fault_all && (n == 1 || g_table_refused) ? ":create" : "")).c_str(), "request %d refused%s: %lld blocks more than before the call", n, later ? " (and all later)" : "", (long long)heap::live() - (long long)live0);
        }
        (void)mark0;
        if (buf && !buf->intact()) viol("view-written", "the image was changed");
        // the other arguments keep their value
        check_slot(e, (unsigned)n);
        check_slot(f, (unsigned)n + 1);
        for (auto m : many) (void)m;
        if (heap::custody()) viol("custody", "%s (%s with request %d refused)", heap::custody(), what.c_str(), n);
        if (!refused) break;
    }
    g_sh->step = -1;
    if (it0) roaring_uint32_iterator_free(it0);
    touched.push_back(e);
    touched.push_back(f);
    STAT("fault_sweeps");
}

// ---------------------------------------------------------------- damage
void damage_bytes(std::vector<uint8_t> &b, const std::vector<uint8_t> &other, Rng &r) {
    unsigned rounds = 1 + (r.chance(1, 3) ? (unsigned)r.below(6) : 0);
    for (unsigned k = 0; k < rounds; k++) {
        size_t n = b.size();
        auto pos = [&]() -> size_t {
            if (!n) return 0;
            if (r.chance(1, 2)) return r.below(std::min<size_t>(n, 48));  // headers and tables
            return r.below(n);
        };
        switch (r.below(12)) {
            case 0: case 1: if (n) { size_t p = pos(); b[p] ^= 1 << r.below(8); } STAT("fault_bit_flip"); break;
            case 2: if (n) b[pos()] = (uint8_t)r.below(256); STAT("fault_byte_overwrite"); break;
            case 3: if (n >= 2) { size_t p = pos(); if (p + 2 > n) p = n - 2; static const uint16_t v[] = {0, 1, 0xffff, 0x7fff, 0x8000, 0xfffe, 4095, 4096}; uint16_t x = v[r.below(8)]; memcpy(&b[p], &x, 2); } STAT("fault_field_extreme"); break;
            case 4: if (n >= 4) { size_t p = pos() & ~3ULL; if (p + 4 > n) p = n - 4; static const uint32_t v[] = {0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 65536, 65537, 0xffff}; uint32_t x = v[r.below(8)]; memcpy(&b[p], &x, 4); } STAT("fault_field_extreme"); break;
            case 5: {  // a stale or foreign sector
                size_t sec = r.chance(1, 2) ? 16 : r.chance(1, 2) ? 64 : 512;
                if (n && !other.empty()) {
                    size_t p = r.below(n) / sec * sec;
                    for (size_t i = p; i < std::min(n, p + sec); i++) b[i] = i < other.size() ? other[i] : 0;
                }
                STAT("fault_stale_sector");
                break;
            }
            case 6: {  // a sector never written: zeros
                size_t sec = r.chance(1, 2) ? 16 : 64;
                if (n) { size_t p = r.below(n) / sec * sec; for (size_t i = p; i < std::min(n, p + sec); i++) b[i] = 0; }
                STAT("fault_lost_sector");
                break;
            }
            case 7: if (n) b.resize(r.below(n)); STAT("fault_truncated"); break;
            case 8: { size_t m = 1 + r.below(20); for (size_t i = 0; i < m; i++) b.push_back((uint8_t)r.next()); STAT("fault_extended"); break; }
            case 9: if (n > 2) { size_t p = pos(), q = pos(); std::swap(b[p], b[q]); } STAT("fault_swapped"); break;
            case 10: if (n >= 8) { size_t p = pos(); size_t m = 1 + r.below(8); if (p + m <= n) b.erase(b.begin() + p, b.begin() + p + m); } STAT("fault_lost_bytes"); break;
            default: {  // duplicated piece
                if (n >= 8) { size_t p = pos(), m = 1 + r.below(8); if (p + m <= n) { std::vector<uint8_t> t(b.begin() + p, b.begin() + p + m); b.insert(b.begin() + p, t.begin(), t.end()); } }
                STAT("fault_duplicated_bytes");
            }
        }
    }
}
// Damage that respects the layout of the image: fields of one record exchanged, repeated or off by a
// little. This is what a writer that died half way, or a tool that patches records, leaves behind;
// random bytes would hardly ever meet the checks it has to pass.
static bool damage_portable32(std::vector<uint8_t> &b, size_t off, Rng &r) {
    size_t n = b.size();
    auto g16 = [&](size_t p) { return (uint32_t)b[p] | b[p + 1] << 8; };
    auto p16 = [&](size_t p, uint32_t x) { b[p] = (uint8_t)x; b[p + 1] = (uint8_t)(x >> 8); };
    auto g32 = [&](size_t p) { return g16(p) | g16(p + 2) << 16; };
    auto p32 = [&](size_t p, uint32_t x) { p16(p, x & 0xffff); p16(p + 2, x >> 16); };
    if (n < off + 8) return false;
    uint32_t ck = g32(off), size;
    size_t pos = off + 4, flags = 0;
    bool run = (ck & 0xffff) == 12347;
    if (run) { size = (ck >> 16) + 1; flags = pos; pos += (size + 7) / 8; }
    else if (ck == 12346) { size = g32(pos); pos += 4; }
    else return false;
    if (!size || size > 65536 || pos + 4 * (size_t)size > n) return false;
    size_t desc = pos;
    pos += 4 * (size_t)size;
    size_t offs = 0;
    if (!run || size >= 4) { offs = pos; pos += 4 * (size_t)size; }
    if (pos > n) return false;
    uint32_t i = (uint32_t)r.below(size), j = i + 1 < size ? i + 1 : i ? i - 1 : i;
    size_t di = desc + 4 * (size_t)i, dj = desc + 4 * (size_t)j;
    switch (r.below(10)) {
        case 0: { uint32_t x = g16(di); p16(di, g16(dj)); p16(dj, x); STAT("fault_keys_exchanged"); return true; }
        case 1: p16(di, g16(dj)); STAT("fault_key_repeated"); return true;
        case 2: { uint32_t x = g16(di + 2); p16(di + 2, r.chance(1, 2) ? x + 1 : x - 1); STAT("fault_count_off_by_one"); return true; }
        case 3: { static const uint32_t v[] = {0, 4094, 4095, 4096, 65535}; p16(di + 2, v[r.below(5)]); STAT("fault_count_replaced"); return true; }
        case 4: if (offs) { size_t oi = offs + 4 * (size_t)i, oj = offs + 4 * (size_t)j; if (r.chance(1, 2)) { uint32_t x = g32(oi); p32(oi, g32(oj)); p32(oj, x); } else p32(oi, g32(oi) + (r.chance(1, 2) ? 1 : -1)); STAT("fault_offset_wrong"); return true; } return false;
        case 5: if (flags) { b[flags + i / 8] ^= 1 << (i % 8); STAT("fault_kind_flag_wrong"); return true; } return false;
        case 6: if (run) p32(off, ck + (r.chance(1, 2) ? 0x10000u : 0u - 0x10000u)); else p32(off + 4, size + (r.chance(1, 2) ? 1 : -1)); STAT("fault_container_count_off_by_one"); return true;
        default: break;
    }
    // the contents of one container
    for (uint32_t k = 0; k <= i; k++) {
        uint32_t card = g16(desc + 4 * (size_t)k + 2) + 1;
        bool isrun = flags && (b[flags + k / 8] >> (k % 8) & 1);
        size_t len;
        if (isrun) { if (pos + 2 > n) return false; len = 2 + 4 * (size_t)g16(pos); }
        else len = card > 4096 ? 8192 : 2 * (size_t)card;
        if (pos + len > n) return false;
        if (k < i) { pos += len; continue; }
        if (isrun) {
            uint32_t nr = g16(pos);
            if (!nr) return false;
            uint32_t q = (uint32_t)r.below(nr);
            size_t pr = pos + 2 + 4 * (size_t)q;
            switch (r.below(6)) {
                case 0: p16(pos, r.chance(1, 3) ? 0 : r.chance(1, 2) ? nr + 1 : nr - 1); STAT("fault_run_count_wrong"); return true;
                case 1: if (q + 1 < nr) { int dl = (int)r.below(3) - 1; p16(pr + 2, g16(pr + 4) - g16(pr) + dl - (dl > 0 ? 0 : 0)); STAT("fault_runs_meet"); return true; } return false;
                case 2: p16(pr + 2, 0xffff - g16(pr) + 1 + (uint32_t)r.below(3)); STAT("fault_run_past_the_end"); return true;
                case 3: if (q + 1 < nr) { uint32_t x = g32(pr); p32(pr, g32(pr + 4)); p32(pr + 4, x); STAT("fault_runs_exchanged"); return true; } return false;
                case 4: if (q + 1 < nr) { p32(pr, g32(pr + 4)); STAT("fault_run_repeated"); return true; } return false;
                default: p16(pr + 2, g16(pr + 2) + (r.chance(1, 2) ? 1 : -1)); STAT("fault_run_length_off_by_one"); return true;
            }
        }
        if (card > 4096) {
            size_t p = pos + r.below(8192);
            b[p] ^= 1 << r.below(8);
            if (r.chance(1, 2)) b[pos + r.below(8192)] ^= 1 << r.below(8);
            STAT("fault_bitset_bit");
            return true;
        }
        uint32_t q = (uint32_t)r.below(card);
        if (q + 1 >= card) { if (!q) return false; q--; }
        size_t pv = pos + 2 * (size_t)q;
        switch (r.below(3)) {
            case 0: { uint32_t x = g16(pv); p16(pv, g16(pv + 2)); p16(pv + 2, x); STAT("fault_values_exchanged"); return true; }
            case 1: p16(pv, g16(pv + 2)); STAT("fault_value_repeated"); return true;
            default: p16(pv, g16(pv) + (r.chance(1, 2) ? 1 : -1)); STAT("fault_value_off_by_one"); return true;
        }
    }
    return false;
}
static bool damage_frozen32(std::vector<uint8_t> &b, Rng &r) {
    size_t n = b.size();
    if (n < 4) return false;
    auto g16 = [&](size_t p) { return (uint32_t)b[p] | b[p + 1] << 8; };
    auto p16 = [&](size_t p, uint32_t x) { b[p] = (uint8_t)x; b[p + 1] = (uint8_t)(x >> 8); };
    uint32_t h = g16(n - 4) | g16(n - 2) << 16, size = h >> 15;
    if (!size || 5 * (size_t)size + 4 > n) return false;
    size_t types = n - 4 - size, counts = types - 2 * (size_t)size, keys = counts - 2 * (size_t)size;
    uint32_t i = (uint32_t)r.below(size), j = i + 1 < size ? i + 1 : i ? i - 1 : i;
    switch (r.below(6)) {
        case 0: { uint32_t x = g16(keys + 2 * i); p16(keys + 2 * i, g16(keys + 2 * j)); p16(keys + 2 * j, x); STAT("fault_keys_exchanged"); return true; }
        case 1: p16(keys + 2 * i, g16(keys + 2 * j)); STAT("fault_key_repeated"); return true;
        case 2: p16(counts + 2 * i, g16(counts + 2 * i) + (r.chance(1, 2) ? 1 : -1)); STAT("fault_count_off_by_one"); return true;
        case 3: b[types + i] = (uint8_t)r.below(5); STAT("fault_kind_flag_wrong"); return true;
        case 4: { uint8_t x = b[types + i]; b[types + i] = b[types + j]; b[types + j] = x; STAT("fault_kind_flag_wrong"); return true; }
        default: { uint32_t x = h + (r.chance(1, 2) ? 1u << 15 : 0u - (1u << 15)); p16(n - 4, x & 0xffff); p16(n - 2, x >> 16); STAT("fault_container_count_off_by_one"); return true; }
    }
}
bool damage_fields(std::vector<uint8_t> &b, int layout, Rng &r) {
    if (layout == 1) return b.size() > 1 && b[0] == 2 && damage_portable32(b, 1, r);
    if (layout == 2) return damage_frozen32(b, r);
    if (layout == 0) return damage_portable32(b, 0, r);
    // 64-bit portable: a count and (key, 32-bit image) pairs
    size_t n = b.size();
    if (n < 8) return false;
    uint64_t nb;
    memcpy(&nb, b.data(), 8);
    std::vector<std::pair<size_t, size_t>> part;  // position of the key, length with the key
    size_t pos = 8;
    for (uint64_t i = 0; i < nb; i++) {
        if (n - pos < 4) return false;
        Set sub;
        std::string why;
        size_t used = 0;
        if (!decode_portable32(b.data() + pos + 4, n - pos - 4, sub, why, &used, 0)) return false;
        part.push_back({pos, used + 4});
        pos += used + 4;
    }
    if (part.empty()) return false;
    size_t i = r.below(part.size()), j = i + 1 < part.size() ? i + 1 : i ? i - 1 : i;
    auto piece = [&](size_t k) { return std::vector<uint8_t>(b.begin() + part[k].first, b.begin() + part[k].first + part[k].second); };
    auto count = [&](uint64_t c) { memcpy(b.data(), &c, 8); };
    switch (r.below(9)) {
        case 0: { uint32_t x, y; memcpy(&x, &b[part[i].first], 4); memcpy(&y, &b[part[j].first], 4); memcpy(&b[part[i].first], &y, 4); memcpy(&b[part[j].first], &x, 4); STAT("fault_buckets_exchanged"); return true; }
        case 1: memcpy(&b[part[i].first], &b[part[j].first], 4); STAT("fault_bucket_key_repeated"); return true;
        case 2: { auto v = piece(i); b.insert(b.begin() + part[r.below(part.size())].first, v.begin(), v.end()); count(nb + 1); STAT("fault_bucket_repeated"); return true; }
        case 3: { auto v = piece(i); b.insert(b.end(), v.begin(), v.end()); if (r.chance(1, 2)) count(nb + 1); STAT("fault_bucket_repeated"); return true; }
        case 4: b.erase(b.begin() + part[i].first, b.begin() + part[i].first + part[i].second); if (r.chance(1, 2)) count(nb - 1); STAT("fault_bucket_lost"); return true;
        case 5: { uint32_t e[3] = {0, 12346, 0}; memcpy(&e[0], &b[part[i].first], 4); if (r.chance(1, 2)) e[0]++; const uint8_t *q = (const uint8_t *)e; b.insert(b.begin() + part[i].first + (r.chance(1, 2) ? part[i].second : 0), q, q + 12); count(nb + 1); STAT("fault_bucket_empty"); return true; }
        case 6: count(r.chance(1, 2) ? nb + 1 : nb - 1); STAT("fault_bucket_count_off_by_one"); return true;
        default: {
            auto v = piece(i);
            std::vector<uint8_t> w(v.begin() + 4, v.end());
            if (!damage_portable32(w, 0, r)) return false;
            std::copy(w.begin(), w.end(), b.begin() + part[i].first + 4);
            return true;
        }
    }
}
void W32::damage_op(const Step &stp) {
    const int64_t *a = stp.a;
    int e = idx(a[0]), f = idx(a[1]);
    ready(e);
    ready(f);
    if (s[e].m.card() > 400000) return;
    int fmt = (int)(a[2] % 4);  // 0 portable 1 native 2 frozen 3 portable of another writer
    Rng r(Rng::mix((uint64_t)a[3]) ^ (uint64_t)a[4]);
    std::vector<uint8_t> b, o;
    bool frozen = fmt == 2 && !cow;
    if (fmt == 3) {
        Rng q((uint64_t)a[4]);
        b = encode_portable32(s[e].m, q);
        o = encode_portable32(s[f].m, q);
    } else {
        if (fmt == 2 && !frozen) fmt = 0;
        b = store(e, fmt);
        if (s[f].m.card() <= 400000) o = store(f, fmt);
    }
    bool native = fmt == 1;
    if (a[5] % 40 == 7) {  // pure noise, perhaps behind a valid cookie
        size_t n = r.below(200);
        std::vector<uint8_t> x(n);
        for (auto &c : x) c = (uint8_t)r.next();
        for (size_t i = 0; i < std::min<size_t>(n, native ? 6 : 4) && i < b.size(); i++)
            if (r.chance(3, 4)) x[i] = b[i];
        b = x;
        STAT("fault_noise");
    } else if (!(plan->k("v2", 0) && r.chance(1, 2) && damage_fields(b, frozen ? 2 : native ? 1 : 0, r))) {
        damage_bytes(b, o, r);
    }
    if (b.size() > (4u << 20)) return;
    g_sh->nontrivial = 1;
    // what an independent reader makes of it
    Set real;
    std::string rwhy;
    bool sound = !frozen && !native && decode_portable32(b.data(), b.size(), real, rwhy);
    Buf buf(b.size(), frozen ? 32 : 1);
    if (b.size()) memcpy(buf.p, b.data(), b.size());
    buf.seal();
    uint64_t live0 = heap::live();
    char *p = (char *)buf.p;
    if (!native && !frozen) {
        size_t probe = roaring_bitmap_portable_deserialize_size(p, b.size());
        res(probe);
        if (probe > b.size()) viol("probe-beyond", "the size probe announces %zu bytes in a range of %zu", probe, b.size());
    }
    roaring_bitmap_t *x;
    if (frozen) x = const_cast<roaring_bitmap_t *>(roaring_bitmap_frozen_view(p, b.size()));
    else if (native) x = roaring_bitmap_deserialize_safe(p, b.size());
    else x = roaring_bitmap_portable_deserialize_safe(p, b.size());
    res(x != nullptr);
    if (sound && !x) viol("damage-misread", "%zu bytes that are a valid image after the damage are refused", b.size());
    if (!x) {
        if (heap::live() != live0) viol("damage-leak", "a refused image left %lld blocks behind", (long long)heap::live() - (long long)live0);
        STAT("damage_refused");
        return;
    }
    const char *why = nullptr;
    bool ok = roaring_bitmap_internal_validate(x, &why);
    res(ok);
    if (sound && !ok) viol("damage-misread", "%zu bytes that are a valid image after the damage decode into an invalid bitmap: %s", b.size(), why);
    if (!ok) {
        roaring_bitmap_free(x);
        if (heap::live() != live0) viol("damage-leak", "freeing a decoded damaged image left %lld blocks behind", (long long)heap::live() - (long long)live0);
        STAT("damage_found_by_validate");
        return;
    }
    STAT("damage_accepted_as_valid");
    // it must behave as a consistent set
    uint64_t card = roaring_bitmap_get_cardinality(x);
    if (card > (4u << 20)) { roaring_bitmap_free(x); return; }
    std::vector<uint64_t> v;
    {
        std::vector<uint32_t> got(card + 8, 0);
        std::unique_ptr<uint32_t[]> arr(new uint32_t[card]);
        roaring_bitmap_to_uint32_array(x, arr.get());
        v.assign(arr.get(), arr.get() + card);
    }
    for (size_t i = 1; i < v.size(); i++)
        if (v[i] <= v[i - 1]) viol("damage-inconsistent", "a validated bitmap lists %llu after %llu", (unsigned long long)v[i], (unsigned long long)v[i - 1]);
    Set m;
    m.setMany(v.data(), v.size(), true);
    if (sound && !(m == real)) viol("damage-misread", "%zu bytes that are a valid image after the damage decode into %llu values, an independent reader finds %llu", b.size(), (unsigned long long)m.card(), (unsigned long long)real.card());
    int d = idx(a[5]);
    if (s[d].b) {
        for (int k = 0; k < 2; k++) {
            const Slot32 &q = s[k ? f : e];
            if (q.lazy) continue;
            Set i = Set::comb(m, q.m, 0), u = Set::comb(m, q.m, 1);
            uint64_t ci = roaring_bitmap_and_cardinality(x, q.b), cu = roaring_bitmap_or_cardinality(x, q.b);
            if (ci != i.card() || cu != u.card()) viol("damage-inconsistent", "a validated bitmap gives wrong cardinalities");
            if (!cow || !frozen) {
                roaring_bitmap_t *y = roaring_bitmap_or(x, q.b);
                if (roaring_bitmap_get_cardinality(y) != u.card()) viol("damage-inconsistent", "union with a validated bitmap is wrong");
                roaring_bitmap_free(y);
            }
        }
    }
    if (frozen) {
        roaring_bitmap_t *c = roaring_bitmap_copy(x);
        roaring_bitmap_free(x);
        x = c;
        if (!x) viol("null:copy", "copy of a view failed");
    }
    if (!buf.intact()) viol("view-written", "reading an image changed it");
    put(d, x, m);
}

void W32::torn_op(const Step &stp) {
    const int64_t *a = stp.a;
    int e = idx(a[0]);
    ready(e);
    if (s[e].m.card() > 400000) return;
    int fmt = (int)(a[2] % 4);
    std::vector<uint8_t> b;
    Rng r((uint64_t)a[3]);
    if (fmt == 3) b = encode_portable32(s[e].m, r);
    else {
        if (fmt == 2 && cow) fmt = 0;
        b = store(e, fmt);
    }
    size_t n = b.size();
    std::vector<size_t> ks;
    if (n <= 700) {
        for (size_t k = 0; k < n; k++) ks.push_back(k);
    } else {
        size_t c = s[e].m.c.size();
        size_t hdr = std::min(n, 8 + 13 * c + 40);
        if (hdr > 300) hdr = 300;
        for (size_t k = 0; k < hdr; k++) ks.push_back(k);
        for (int i = 0; i < 120; i++) ks.push_back(r.below(n));
        for (size_t k = 1; k <= 40 && k <= n; k++) ks.push_back(n - k);
    }
    STAT("torn_images");
    g_sh->nontrivial = 1;
    for (size_t k : ks) {
        Buf buf(k, fmt == 2 ? 32 : 1);
        if (k) memcpy(buf.p, b.data(), k);
        uint64_t live0 = heap::live();
        roaring_bitmap_t *x;
        g_sh->simtime++;
        if (fmt == 0 || fmt == 3) {
            size_t probe = roaring_bitmap_portable_deserialize_size((char *)buf.p, k);
            if (probe != 0) viol("torn-probe", "the size probe answers %zu for the first %zu of %zu bytes", probe, k, n);
            x = roaring_bitmap_portable_deserialize_safe((char *)buf.p, k);
        } else if (fmt == 1) x = roaring_bitmap_deserialize_safe((char *)buf.p, k);
        else x = const_cast<roaring_bitmap_t *>(roaring_bitmap_frozen_view((char *)buf.p, k));
        if (x) {
            roaring_bitmap_free(x);
            viol("torn-accepted", "format %d: the first %zu of %zu bytes were accepted", fmt, k, n);
        }
        if (heap::live() != live0) viol("torn-leak", "format %d: refusing the first %zu of %zu bytes left %lld blocks behind", fmt, k, n, (long long)heap::live() - (long long)live0);
    }
    stat_add("torn_prefixes", ks.size());
    // the full image, alone and followed by other bytes
    for (int extra = 0; extra < 3; extra++) {
        size_t x = extra == 0 ? 0 : extra == 1 ? 1 + r.below(7) : 1 + r.below(300);
        if (fmt == 2 && x) continue;
        Buf buf(n + x, fmt == 2 ? 32 : 1);
        memcpy(buf.p, b.data(), n);
        for (size_t i = 0; i < x; i++) buf.p[n + i] = (uint8_t)r.next();
        roaring_bitmap_t *y;
        if (fmt == 0 || fmt == 3) {
            size_t probe = roaring_bitmap_portable_deserialize_size((char *)buf.p, n + x);
            if (probe != n) viol("torn-probe", "the size probe answers %zu for a %zu-byte image followed by %zu bytes", probe, n, x);
            y = roaring_bitmap_portable_deserialize_safe((char *)buf.p, n + x);
        } else if (fmt == 1) y = roaring_bitmap_deserialize_safe((char *)buf.p, n + x);
        else y = const_cast<roaring_bitmap_t *>(roaring_bitmap_frozen_view((char *)buf.p, n));
        if (!y) viol("torn-full-refused", "format %d: the complete image (%zu bytes, %zu more follow) was refused", fmt, n, x);
        if (roaring_bitmap_get_cardinality(y) != s[e].m.card()) viol("torn-full-content", "format %d: the complete image was read as another set", fmt);
        if (!roaring_bitmap_equals(y, s[e].b)) viol("torn-full-content", "format %d: the complete image was read as another set", fmt);
        roaring_bitmap_free(y);
    }
    touched.push_back(e);
}
