// Generation and execution of plans for the thread simulator (C01, C02).
//
// Each simulated thread drives its own world (the same clients, model and checks as in the history
// simulator) on bitmaps that were set up before the threads start: copy-on-write copies of common
// bases (C01), or the very same bitmaps, which nobody may modify (C02).
#include <algorithm>
#include <memory>

#include "thrrt.h"
#include "w32.h"
#include "w64.h"

const char *engine_name() { return "threads"; }
const char *engine_distinct_rule() {
    return "a run is one generated plan (client steps per thread plus a schedule) executed on real library code; every run has at least two threads working on "
           "shared storage; runs are distinct by the hash of every context switch taken (task, event number, next task) and everything observed; "
           "states by (operation switched from, operation switched to, kind of event) and by (operation, container mix and sizes of the object it left)";
}

struct OpW { const char *op; int w; };
typedef std::vector<OpW> L;
static L operator+(const L &a, const L &b) {
    L r = a;
    r.insert(r.end(), b.begin(), b.end());
    return r;
}
struct Profile {
    const char *prop, *world;
    int share, cow;
    bool borrow;       // threads query the bases themselves; otherwise each has copies
    L setup, ops;
};
static const L SETUP = {{"fill", 40}, {"add_range", 6}, {"run_optimize", 10}, {"remove_runs", 2}, {"remove_range", 5}, {"flip_inplace", 4}, {"or_inplace", 3}, {"add_many", 4}, {"copy", 2}, {"add", 2}};
static const L MUT = {{"add", 6}, {"add_checked", 3}, {"remove", 5}, {"remove_checked", 3}, {"remove_many", 3}, {"add_many", 3}, {"add_range", 5}, {"remove_range", 6}, {"flip_inplace", 6}, {"fill", 3},
                      {"and_inplace", 6}, {"or_inplace", 6}, {"xor_inplace", 6}, {"andnot_inplace", 6}, {"run_optimize", 6}, {"remove_runs", 6}, {"shrink", 6}, {"overwrite", 4}, {"clear", 2}, {"bulk", 4}};
static const L LAZY = {{"lazy_or", 3}, {"lazy_or_inplace", 4}, {"lazy_xor", 3}, {"lazy_xor_inplace", 4}, {"repair", 2}};
static const L MAKE = {{"and", 4}, {"or", 4}, {"xor", 4}, {"andnot", 4}, {"flip", 4}, {"copy", 8}, {"near", 3}, {"or_many", 2}, {"or_many_heap", 2}, {"xor_many", 2}, {"add_offset", 3}, {"stack_bitmap", 2}};
static const L ASK = {{"contains", 4}, {"ranges", 4}, {"ranks", 4}, {"select", 3}, {"minmax", 2}, {"stats", 2}, {"cards", 6}, {"compare", 5}, {"page", 3}, {"cancel", 2}, {"validate", 2}, {"to_bitset", 2}, {"store", 6}};
static const L CUR = {{"cur_open", 3}, {"cur_open_last", 2}, {"cur_next", 5}, {"cur_prev", 5}, {"cur_seek", 5}, {"cur_read", 5}, {"cur_copy", 2}};
static const L MAIL = {{"send", 6}, {"recv", 6}, {"give", 4}, {"move64", 3}};
static const L SETUP64 = {{"fill", 40}, {"add_range", 6}, {"run_optimize", 8}, {"remove_range", 5}, {"flip_inplace", 4}, {"or_inplace", 3}, {"add_many", 4}, {"copy", 2}, {"drop_keys", 3}, {"shrink", 3}, {"store", 4}, {"load", 6}};
static const L MAKE64 = {{"and", 5}, {"or", 5}, {"xor", 5}, {"andnot", 5}, {"flip", 4}, {"copy", 6}, {"near", 3}};
static const L ASK64 = {{"contains", 4}, {"ranges", 5}, {"ranks", 4}, {"select", 4}, {"minmax", 3}, {"stats", 3}, {"cards", 6}, {"compare", 5}, {"cancel", 3}, {"store", 6}};
static const L OWN64 = {{"add", 2}, {"remove_range", 2}, {"or_inplace", 4}, {"and_inplace", 4}, {"xor_inplace", 3}, {"andnot_inplace", 4}, {"bulk", 3}};

static const std::vector<Profile> &profiles() {
    // append only: replay files name profiles by position
    static const std::vector<Profile> v = {
        {"C01", "32", 10, 1, false, SETUP, MUT + MAKE + ASK + CUR + MAIL},
        {"C01", "32", 4, 1, false, SETUP, MUT + MAKE + LAZY + MAIL + L{{"store", 4}, {"load", 2}, {"cards", 2}}},
        {"C02", "32", 8, 0, true, SETUP + L{{"store", 6}, {"load", 8}}, MAKE + ASK + CUR + LAZY + L{{"or_inplace", 3}, {"and_inplace", 3}, {"xor_inplace", 2}, {"andnot_inplace", 3}, {"bulk", 3}, {"overwrite", 2}}},
        {"C02", "32", 4, 1, true, SETUP, ASK + CUR},
        {"C02", "64", 8, 0, true, SETUP64, MAKE64 + ASK64 + CUR + OWN64},
    };
    return v;
}

void engine_gen(Plan &p, Rng &r) {
    auto &v = profiles();
    int tot = 0, idx = -1;
    for (auto &f : v) if (p.prop == f.prop) tot += f.share;
    if (!tot) { fprintf(stderr, "no profile for %s\n", p.prop.c_str()); exit(2); }
    int x = (int)r.below(tot);
    for (size_t i = 0; i < v.size() && idx < 0; i++)
        if (p.prop == v[i].prop) {
            if (x < v[i].share) idx = (int)i;
            else x -= v[i].share;
        }
    const Profile &f = v[idx];
    int n = r.chance(1, 2) ? 2 : (int)r.range(2, 4);
    p.knob["profile"] = idx;
    p.knob["threads"] = n;
    p.knob["slots"] = r.range(2, 3);
    p.knob["bases"] = r.range(1, 3);
    p.knob["cow"] = f.cow;
    p.knob["keys"] = r.chance(1, 2) ? (int64_t)r.below(2) : (int64_t)r.below(!strcmp(f.world, "64") ? 9 : 8);
    p.knob["sched_mode"] = r.below(4);
    p.knob["fill"] = (int64_t)r.below(512);
    static const int isas[] = {0, 0, 0, 0, 1, 3};
    p.knob["isa"] = isas[r.below(6)];
    p.knob["keep"] = r.below(3);    // bases: kept by the main program, freed before the start, or given to a thread
    p.knob["cold"] = r.chance(1, 2);
    p.knob["v2"] = r.chance(1, 2);  // see aim and range in the worlds
    auto add = [&](const L &l, int task) {
        int t = 0;
        for (auto &o : l) t += o.w;
        int y = (int)r.below(t);
        for (auto &o : l) {
            if (y < o.w) {
                Step s;
                s.op = std::to_string(task) + "/" + o.op;
                for (auto &q : s.a) q = (int64_t)r.below(1 << 20);
                p.steps.push_back(s);
                return;
            }
            y -= o.w;
        }
    };
    int ns = (int)r.range(2, 8);
    for (int i = 0; i < ns; i++) {
        if (i < 2) add(L{{"fill", 1}}, 0);
        else add(f.setup, 0);
    }
    // swarm: threads of a run concentrate on some operations
    L ops;
    bool swarm = r.chance(2, 3);
    for (auto &o : f.ops) if (!swarm || r.chance(1, 3)) ops.push_back(o);
    if (ops.empty()) ops = f.ops;
    int hi = (int)r.range(1, 10);
    for (int t = 1; t <= n; t++) {
        int k = (int)r.range(1, hi);
        for (int i = 0; i < k; i++) add(ops, t);
    }
}
bool engine_enum(const std::string &, uint64_t, Plan &) { return false; }

struct Mail {
    bool full = false;
    roaring_bitmap_t *b = nullptr;
    Set m;
    rt::Clock c = {};
};
static Mail mail[2];

static void mail_op(W32 &w, const Step &s, int me) {
    (void)me;
    Mail &q = mail[(uint64_t)s.a[1] % 2];
    int d = w.idx(s.a[0]);
    w.st = &s;
    if (s.op == "send" || s.op == "give") {
        w.ready(d);
        if (q.full) return;
        roaring_bitmap_t *b;
        if (s.op == "send" || w.s[d].view) {
            b = roaring_bitmap_copy(w.s[d].b);
            if (!b) viol("null:copy", "copy returned NULL");
            if (q.full) {  // another thread was faster while we copied
                roaring_bitmap_free(b);
                return;
            }
            q.m = w.s[d].m;
        } else {
            roaring_bitmap_t *fresh = roaring_bitmap_create();
            if (!fresh) viol("null:create", "create returned NULL");
            if (q.full) {
                roaring_bitmap_free(fresh);
                return;
            }
            roaring_bitmap_set_copy_on_write(fresh, w.cow);
            b = w.s[d].b;
            q.m = w.s[d].m;
            w.s[d].b = fresh;
            w.s[d].m = Set();
            w.mut(d);
            w.touched.clear();
        }
        q.b = b;
        q.full = true;
        rt::release_to(q.c);
        STAT("messages_sent");
    } else if (s.op == "recv") {
        if (!q.full) return;
        rt::acquire_from(q.c);
        q.c = rt::Clock{};
        roaring_bitmap_t *b = q.b;
        Set m = q.m;
        q.full = false;
        q.b = nullptr;
        w.put(d, b, m);
        w.touched.clear();
        w.check_slot(d, (unsigned)s.a[2]);
        STAT("messages_received");
    } else if (s.op == "move64") {
        w.ready(d);
        roaring_bitmap_t *c = roaring_bitmap_copy(w.s[d].b);
        if (!c) viol("null:copy", "copy returned NULL");
        Set m = w.s[d].m;
        roaring64_bitmap_t *y = roaring64_bitmap_move_from_roaring32(c);
        if (!y) viol("null:move64", "move_from_roaring32 returned NULL");
        roaring_bitmap_free(c);
        uint64_t v = w.val((uint64_t)s.a[2], w.s[d]);
        if (s.a[3] % 2) roaring64_bitmap_add(y, v), m.add(v);
        else roaring64_bitmap_remove(y, v), m.remove(v);
        uint64_t n = roaring64_bitmap_get_cardinality(y);
        if (n != m.card()) viol("content:move64", "moved bitmap holds %llu values, the set has %llu", (unsigned long long)n, (unsigned long long)m.card());
        std::vector<uint64_t> a(n);
        roaring64_bitmap_to_uint64_array(y, a.data());
        check_array("content:move64", "moved bitmap", m, a.data(), n);
        roaring64_bitmap_free(y);
        w.check_slot(d, (unsigned)s.a[4]);
    }
}
static void extra(W32 &w, const Step &s, int me) {
    if (s.op == "send" || s.op == "give" || s.op == "recv" || s.op == "move64") mail_op(w, s, me);
    else w.step(s);
}
static void extra(W64 &w, const Step &s, int) { w.step(s); }
static roaring_bitmap_t *dup(W32 &w, int i) { return roaring_bitmap_copy(w.s[i].b); }
static roaring64_bitmap_t *dup(W64 &w, int i) { return roaring64_bitmap_copy(w.s[i].b); }

template <class W>
static void play(Plan &p, const Profile &f) {
    static const Step start{"start", {0, 0, 0, 0, 0, 0}, 0};
    int n = std::max(1, std::min<int>(rt::MAXT - 1, (int)p.k("threads", 2)));
    rt::begin();
    heap::begin_run((uint64_t)p.k("fill", 7));
    heap::set_isa((int)p.k("isa", 0));
    for (auto &q : mail) q = Mail();
    std::vector<std::vector<Step>> todo(n + 1);
    for (auto &s : p.steps) {
        size_t k = s.op.find('/');
        int t = k == std::string::npos ? 0 : atoi(s.op.c_str());
        Step q = s;
        if (k != std::string::npos) q.op = s.op.substr(k + 1);
        if (t >= 0 && t <= n) todo[t].push_back(q);
    }
    std::vector<std::unique_ptr<W>> w(n + 1);
    Plan setup = p;
    setup.knob["slots"] = p.k("bases", 2);
    uint32_t oracle = O_RES | O_CONTENT | O_VALID;
    w[0].reset(new W);
    w[0]->oracle = oracle;
    w[0]->start(setup);
    w[0]->st = &start;
    for (auto &s : todo[0]) {
        rt::note(0, s.op.c_str(), 0);
        w[0]->step(s);
        g_sh->steps_done++;
    }
    for (int i = 0; i < (int)w[0]->s.size(); i++) {
        // copies and queries start from a settled bitmap
        w[0]->st = &start;
        w[0]->touched.clear();
    }
    if (f.borrow) rt::seal_inputs(true);
    Rng r(p.seed ^ 0xba5e);
    int nb = (int)w[0]->s.size();
    for (int t = 1; t <= n; t++) {
        w[t].reset(new W);
        w[t]->oracle = oracle;
        w[t]->cheap = true;
        w[t]->start(p);
        w[t]->st = &start;
        w[t]->keys = w[0]->keys;
        w[t]->stepno = (uint64_t)t * 1000 + r.below(500);
        for (int j = 0; j < (int)w[t]->s.size(); j++) {
            int b = (int)r.below(nb);
            auto &S = w[t]->s[j];
            if (f.borrow) {
                if (j && r.chance(1, 4)) continue;  // keeps an empty bitmap of its own
                w[t]->drop(j);
                S.b = w[0]->s[b].b;
                S.m = w[0]->s[b].m;
                S.borrowed = true;
            } else {
                w[t]->put(j, dup(*w[0], b), w[0]->s[b].m);
            }
        }
        w[t]->touched.clear();
    }
    int keep = f.borrow ? 0 : (int)p.k("keep", 0);
    if (keep == 1) w[0]->finish();
    else if (keep == 2) {
        for (int i = 0; i < nb; i++) {
            W &d = *w[1 + i % n];
            int j = (int)r.below(d.s.size());
            Set m = w[0]->s[i].m;
            d.put(j, w[0]->s[i].b, m);
            d.touched.clear();
            w[0]->s[i].b = nullptr;
        }
    }
    std::vector<std::function<void(int)>> fn(n + 1);
    for (int t = 1; t <= n; t++)
        fn[t] = [&, t](int) {
            int k = 0;
            for (auto &s : todo[t]) {
                rt::note(t, s.op.c_str(), ++k);
                if (g_verbose) { printf("task %d step %d: %s\n", t, k, s.op.c_str()); fflush(stdout); }
                extra(*w[t], s, t);
                g_sh->steps_done++;
                rt::step_boundary();
            }
            rt::note(t, "end", ++k);
            w[t]->finish();
        };
    if (p.k("cold")) rt::library_as_loaded();
    rt::run(n + 1, fn.data(), p);
    rt::note(0, "end", 0);
    rt::seal_inputs(false);
    for (auto &q : mail)
        if (q.full) {
            rt::acquire_from(q.c);
            uint64_t c = roaring_bitmap_get_cardinality(q.b);
            if (c != q.m.card()) viol("content:message", "a bitmap in the mailbox holds %llu values, the set has %llu", (unsigned long long)c, (unsigned long long)q.m.card());
            roaring_bitmap_free(q.b);
            q.full = false;
        }
    if (keep == 0) w[0]->finish();
    g_sh->nontrivial = 1;
    if (rt::blocks_live()) viol("leak", "%llu blocks (%llu bytes) outstanding after everything was freed", (unsigned long long)rt::blocks_live(), (unsigned long long)heap::live_bytes());
}

void engine_exec(Plan &p) {
    auto &v = profiles();
    size_t i = (size_t)p.k("profile", 0);
    if (i >= v.size()) i = 0;
    g_sh->plan_note[0] = 0;
    try {
        if (!strcmp(v[i].world, "64")) play<W64>(p, v[i]);
        else play<W32>(p, v[i]);
        if (rt::exhausted()) STAT("runs_cut_short");
    } catch (Viol &e) {
        if (e.cls != "exhausted") throw;
        STAT("runs_cut_short");
    }
}
void engine_reset() {}
void engine_simplify(const Plan &p, size_t i, std::vector<Step> &out) {
    const Step &s = p.steps[i];
    for (int k = 0; k < 6; k++) {
        if (s.a[k] == 0) continue;
        Step t = s;
        t.a[k] = 0;
        out.push_back(t);
        if (s.a[k] > 20) {
            t.a[k] = s.a[k] % 20;
            out.push_back(t);
        }
    }
}
