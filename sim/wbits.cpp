// Plain bitsets against a set of positions, with refused growth.
#include "wbits.h"

namespace {
struct UnderB {
    explicit UnderB(const char *c) { snprintf((char *)g_sh->plan_note, sizeof g_sh->plan_note, "%s", c); }
    ~UnderB() { g_sh->plan_note[0] = 0; }
};
const uint64_t LIMIT = 1 << 21;  // bits kept per bitset
}  // namespace

void WBits::start(const Plan &p) {
    plan = &p;
    s.resize((size_t)p.k("slots", 3));
    for (auto &q : s) {
        q.b = bitset_create();
        if (!q.b) viol("null:bitset_create", "bitset_create returned NULL");
    }
}
WBits::~WBits() {}
void WBits::put(int i, bitset_t *b, const Set &m) {
    bitset_free(s[i].b);
    s[i].b = b;
    s[i].m = m;
}
uint64_t WBits::pos(uint64_t r, const SlotB &q) {
    uint64_t bits = bitset_size_in_bits(q.b), v;
    switch (r % 9) {
        case 0: return r / 9 % 130;
        case 1: return bits ? r / 9 % bits : r / 9 % 64;
        case 2: return bits + r / 9 % 5;                        // the first one past the end
        case 3: return bits ? bits - 1 - r / 9 % std::min<uint64_t>(bits, 3) : 63;
        case 4: return (r / 9 % 600) * 64 + (r / 9 / 600 % 2 ? 63 : 0);
        case 5: return r / 9 % 5000;
        case 6: return r / 9 % 120000;
        case 7: if (q.m.nextGE(r / 9 % (bits + 1), &v)) return v; return r / 9 % 70;
        default: if (q.m.prevLE(r / 9 % (bits + 1), &v)) return v + r / 9 % 2; return 64;
    }
}
void WBits::check_slot(int i) {
    SlotB &x = s[i];
    std::string cls = "content:" + st->op;
    bitset_t *b = x.b;
    uint64_t card = x.m.card(), mx = 0, mn = SIZE_MAX, bits = bitset_size_in_bits(b);
    x.m.max(&mx);
    x.m.min(&mn);
    lg(card);
    lg(bits);
    {
        auto lg2 = [](uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; };
        uint64_t h = hbytes(77, st->op.data(), st->op.size());
        sig_seen(hmix(hmix(hmix(h, lg2(card)), lg2(bits)), lg2(b->capacity - b->arraysize) * 64 + (bits ? lg2(bits - (card ? mx : 0)) : 0)));
    }
    if (want(O_RES | O_CONTENT)) {
        if (bitset_size_in_words(b) * 64 != bits || bitset_size_in_bytes(b) * 8 != bits) viol(cls.c_str(), "slot %d: the sizes disagree", i);
        if (card && mx >= bits) viol(cls.c_str(), "slot %d: %llu bits long, the highest bit of the set is %llu", i, (unsigned long long)bits, (unsigned long long)mx);
        if (bitset_count(b) != card) viol(cls.c_str(), "slot %d: count %zu, the set has %llu", i, bitset_count(b), (unsigned long long)card);
        if (bitset_empty(b) != (card == 0)) viol(cls.c_str(), "slot %d: empty is wrong", i);
        if (bitset_minimum(b) != (card ? mn : SIZE_MAX)) viol(cls.c_str(), "slot %d: minimum %zu, expected %llu", i, bitset_minimum(b), (unsigned long long)mn);
        if (bitset_maximum(b) != mx) viol(cls.c_str(), "slot %d: maximum %zu, expected %llu", i, bitset_maximum(b), (unsigned long long)mx);
        switch (stepno % 3) {
            case 0: {
                std::vector<uint64_t> v;
                for (size_t k = 0; bitset_next_set_bit(b, &k); k++) {
                    v.push_back(k);
                    if (v.size() > card) break;
                }
                check_array(cls.c_str(), "next_set_bit", x.m, v.data(), v.size());
                break;
            }
            case 1: {
                std::vector<uint64_t> v;
                auto cb = [](size_t k, void *p) {
                    ((std::vector<uint64_t> *)p)->push_back(k);
                    return true;
                };
                if (!bitset_for_each(b, cb, &v)) viol(cls.c_str(), "for_each returned false though the callback never did");
                check_array(cls.c_str(), "for_each", x.m, v.data(), v.size());
                break;
            }
            default: {
                std::vector<uint64_t> v;
                size_t cap = 1 + stepno * 7 % 300, n, from = 0;
                std::unique_ptr<size_t[]> buf(new size_t[cap]);
                for (; (n = bitset_next_set_bits(b, buf.get(), cap, &from)) > 0; from++) {
                    if (n > cap) viol(cls.c_str(), "next_set_bits returned %zu positions for a buffer of %zu", n, cap);
                    for (size_t k = 0; k < n; k++) v.push_back(buf[k]);
                    if (v.size() > card) break;
                }
                check_array(cls.c_str(), "next_set_bits", x.m, v.data(), v.size());
            }
        }
    }
}
void WBits::step(const Step &step) {
    st = &step;
    stepno++;
    const std::string &op = step.op;
    const int64_t *a = step.a;
    int d = idx(a[0]), e = idx(a[1]);
    SlotB &D = s[d], &E = s[e];
    // the request of this call that is refused, if any
    bool inject = plan->k("inject", 0) && a[5] % 3 == 0;
    int fault = inject ? (a[5] / 3 % 2 ? 1 : a[5] / 6 % 2 ? 2 : -1) : 0;
    std::string cls = "oom:bitset_" + op;
    uint64_t live0 = heap::live(), ref = 0;
    auto arm = [&] {
        if (!fault) return;
        snprintf((char *)g_sh->plan_note, sizeof g_sh->plan_note, "%s", cls.c_str());
        heap::arm(fault);
    };
    auto dis = [&] {
        if (!fault) return;
        ref = heap::disarm();
        g_sh->plan_note[0] = 0;
        if (ref) {
            STAT("fault_alloc_refused");
            stat_add(("refused_in_bitset_" + op).c_str());
        }
    };
    auto outcome = [&](bool ok, bool may_fail) {  // of a call with a result
        lg(ok);
        if (!ok && !ref && !may_fail) viol(("result:" + op).c_str(), "%s failed although no request was refused", op.c_str());
        if (!ok && heap::live() != live0) viol("oom-leak", "%s failed and left %lld more blocks", op.c_str(), (long long)heap::live() - (long long)live0);
        return ok;
    };
    auto same = [&](int i) {  // (whatever the call did, the bits are what they were)
        check_slot(i);
    };
    bool absurd = a[4] % 40 == 7;  // sizes no machine can provide
    if (op == "create" || op == "create_cap") {
        static const uint64_t caps[] = {0, 1, 63, 64, 65, 128, 1000, 4096, 65536, 100001, 1 << 20};
        uint64_t cap = absurd ? (uint64_t)1 << (38 + a[3] % 25) : caps[(uint64_t)a[3] % 11];
        arm();
        bitset_t *b = op == "create" ? bitset_create() : bitset_create_with_capacity(cap);
        dis();
        if (outcome(b, op == "create_cap" && absurd)) {
            if (op == "create_cap" && bitset_size_in_bits(b) < cap) viol("result:create_cap", "created with %zu bits, %llu asked for", bitset_size_in_bits(b), (unsigned long long)cap);
            put(d, b, Set());
        }
    } else if (op == "copy") {
        arm();
        bitset_t *b = bitset_copy(E.b);
        dis();
        if (outcome(b, false)) put(d, b, Set(E.m));
    } else if (op == "set" || op == "set_to_value") {
        unsigned n = 1 + a[2] % 12;
        Rng r((uint64_t)a[3]);
        for (unsigned k = 0; k < n; k++) {
            uint64_t p = absurd ? ((uint64_t)1 << (38 + r.below(26))) + r.below(100) : pos(r.below(1 << 20), D);
            bool on = op == "set" || r.chance(2, 3);
            uint64_t bits = bitset_size_in_bits(D.b);
            bool full = !absurd && p >= LIMIT;
            if (full) continue;
            arm();
            if (op == "set") bitset_set(D.b, p);
            else bitset_set_to_value(D.b, p, on);
            dis();
            // a refused growth leaves the bit unset
            if (p < bits || (!ref && !absurd)) {
                if (on) D.m.add(p);
                else D.m.remove(p);
            }
            if (bitset_get(D.b, p) != D.m.contains(p)) viol(("result:" + op).c_str(), "bit %llu is %d after it", (unsigned long long)p, (int)bitset_get(D.b, p));
            ref = 0;
        }
    } else if (op == "range") {  // many single setters
        uint64_t lo = pos((uint64_t)a[2], D), len = a[3] % (a[4] % 4 ? 200 : 30000);
        if (lo + len >= LIMIT) return;
        for (uint64_t p = lo; p <= lo + len; p++) bitset_set(D.b, p);
        D.m.addRange(lo, lo + len);
    } else if (op == "get") {
        Rng r((uint64_t)a[3]);
        for (unsigned k = 0; k < 20; k++) {
            uint64_t p = r.chance(1, 10) ? r.next() : pos(r.below(1 << 20), D);
            CHECK_RES(*this, bitset_get(D.b, p), D.m.contains(p));
        }
    } else if (op == "resize" || op == "grow") {
        uint64_t w = bitset_size_in_words(D.b), to;
        switch (a[2] % 6) {
            case 0: to = a[3] % 40; break;
            case 1: to = w + a[3] % 20; break;
            case 2: to = w > (uint64_t)a[3] % 20 ? w - a[3] % 20 : 0; break;
            case 3: to = a[3] % 3000; break;
            case 4: to = w; break;
            default: to = (uint64_t)1 << (a[3] % 12); to += a[4] % 3 - 1; break;
        }
        if (absurd) to = a[3] % 3 == 0 ? SIZE_MAX / 64 + 1 + a[3] % 5 : (uint64_t)1 << (32 + a[3] % 26);
        if (to > LIMIT / 64 && !absurd) return;
        bool pad = true;
        arm();
        bool ok = op == "grow" ? bitset_grow(D.b, to) : bitset_resize(D.b, to, pad);
        dis();
        bool must = absurd || (op == "grow" && to < w);
        if (outcome(ok, must)) {
            if (must) viol(("result:" + op).c_str(), "succeeded from %llu to %llu words", (unsigned long long)w, (unsigned long long)to);
            if (bitset_size_in_words(D.b) != to) viol(("result:" + op).c_str(), "%zu words after asking for %llu", bitset_size_in_words(D.b), (unsigned long long)to);
            if (to < w) D.m.removeRange(to * 64, ~0ULL);
        } else if (bitset_size_in_words(D.b) != w) viol(("result:" + op).c_str(), "a failed call changed the size");
    } else if (op == "trim") {
        arm();
        bool ok = bitset_trim(D.b);
        dis();
        if (outcome(ok, false)) {
            uint64_t mx;
            uint64_t w = D.m.max(&mx) ? mx / 64 + 1 : 0;
            if (D.b->capacity < w || (D.b->capacity != D.b->arraysize && D.b->capacity > 0)) viol("result:trim", "capacity %zu for %zu words after trimming", D.b->capacity, D.b->arraysize);
        }
    } else if (op == "shift_left" || op == "shift_right") {
        static const uint64_t sh[] = {0, 1, 63, 64, 65, 128, 127, 3, 640, 1000};
        uint64_t k = a[2] % 3 ? sh[(uint64_t)a[3] % 10] : op == "shift_right" ? a[3] % (bitset_size_in_bits(D.b) + 200) : a[3] % 3000;
        uint64_t w = bitset_size_in_words(D.b);
        if (op == "shift_left" && w * 64 + k > LIMIT) return;
        arm();
        if (op == "shift_left") bitset_shift_left(D.b, k);
        else bitset_shift_right(D.b, k);
        dis();
        if (op == "shift_right" || !ref) {
            std::vector<uint64_t> v;
            D.m.each([&](uint64_t x) {
                if (op == "shift_left") v.push_back(x + k);
                else if (x >= k) v.push_back(x - k);
                return true;
            });
            D.m = Set();
            D.m.setMany(v.data(), v.size(), true);
        }
    } else if (op == "union" || op == "inter" || op == "diff" || op == "symdiff") {
        if (d == e) return;  // (restrict parameters)
        bool ok = true;
        uint64_t w = bitset_size_in_words(D.b);
        arm();
        if (op == "union") ok = bitset_inplace_union(D.b, E.b);
        else if (op == "inter") bitset_inplace_intersection(D.b, E.b);
        else if (op == "diff") bitset_inplace_difference(D.b, E.b);
        else ok = bitset_inplace_symmetric_difference(D.b, E.b);
        dis();
        if (outcome(ok, false)) D.m = Set::comb(D.m, E.m, op == "union" ? 1 : op == "inter" ? 0 : op == "diff" ? 3 : 2);
        (void)w;
        same(e);
    } else if (op == "counts") {
        if (d == e) return;
        CHECK_RES(*this, bitset_union_count(D.b, E.b), Set::comb(D.m, E.m, 1).card());
        uint64_t in = Set::comb(D.m, E.m, 0).card();
        CHECK_RES(*this, bitset_intersection_count(D.b, E.b), in);
        CHECK_RES(*this, bitset_difference_count(D.b, E.b), Set::comb(D.m, E.m, 3).card());
        CHECK_RES(*this, bitset_symmetric_difference_count(D.b, E.b), Set::comb(D.m, E.m, 2).card());
        CHECK_RES(*this, bitsets_disjoint(D.b, E.b), in == 0);
        CHECK_RES(*this, bitsets_intersect(D.b, E.b), in != 0);
        CHECK_RES(*this, bitset_contains_all(D.b, E.b), E.m.subsetOf(D.m));
        CHECK_RES(*this, bitset_contains_all(E.b, D.b), D.m.subsetOf(E.m));
    } else if (op == "print") {
        if (D.m.card() > 4000) return;
        auto t = captured([&]() { bitset_print(D.b); }, false);
        auto v = numbers_in(t);
        if (want(O_RES)) check_array("result:print", "bitset_print", D.m, v.data(), v.size());
    } else if (op == "next") {
        Rng r((uint64_t)a[3]);
        for (unsigned k = 0; k < 8; k++) {
            size_t p = pos(r.below(1 << 20), D), q = p;
            uint64_t exp = 0;
            bool has = D.m.nextGE(p, &exp);
            CHECK_RES(*this, bitset_next_set_bit(D.b, &q), has);
            if (has) CHECK_RES(*this, q, exp);
            size_t cap = 1 + r.below(r.chance(1, 2) ? 4 : 200), from = p;
            std::unique_ptr<size_t[]> buf(new size_t[cap]);
            size_t n = bitset_next_set_bits(D.b, buf.get(), cap, &from);
            std::vector<uint64_t> ex;
            uint64_t c = p, v;
            while (ex.size() < cap && D.m.nextGE(c, &v)) ex.push_back(v), c = v + 1;
            CHECK_RES(*this, n, ex.size());
            for (size_t z = 0; z < n; z++)
                if (buf[z] != ex[z]) viol("result:next", "next_set_bits from %zu: position #%zu is %zu, expected %llu", p, z, buf[z], (unsigned long long)ex[z]);
            if (n && from != ex.back()) viol("result:next", "next_set_bits left startfrom at %zu", from);
        }
        // a declined enumeration stops at once
        struct C { uint64_t left; std::vector<uint64_t> v; } c{1 + (uint64_t)a[4] % 50, {}};
        auto cb = [](size_t k, void *p) {
            C *c = (C *)p;
            c->v.push_back(k);
            return --c->left > 0;
        };
        uint64_t n = c.left, card = D.m.card();
        CHECK_RES(*this, bitset_for_each(D.b, cb, &c), card < n);
        auto ev = D.m.vec(0, n);
        if (c.v.size() != ev.size() || !std::equal(ev.begin(), ev.end(), c.v.begin())) viol("result:next", "for_each delivered %zu positions, expected %zu", c.v.size(), ev.size());
    } else if (op == "fill") {
        if (bitset_size_in_bits(D.b) > (1 << 18)) return;
        bitset_fill(D.b);
        D.m = Set();
        if (bitset_size_in_bits(D.b)) D.m.addRange(0, bitset_size_in_bits(D.b) - 1);
    } else if (op == "clear") {
        bitset_clear(D.b);
        D.m = Set();
    } else {
        return;
    }
    g_sh->nontrivial = 1;
    check_slot(d);
    if (heap::custody()) viol("custody", "%s (after %s)", heap::custody(), op.c_str());
}
void WBits::finish() {
    Step fin;
    fin.op = "end";
    st = &fin;
    for (size_t i = 0; i < s.size(); i++) {
        check_slot((int)i);
        bitset_free(s[i].b);
        s[i].b = nullptr;
    }
    if (heap::custody()) viol("custody", "%s (at the end)", heap::custody());
    if (heap::live()) viol("leak", "%llu blocks left after everything was freed", (unsigned long long)heap::live());
}
