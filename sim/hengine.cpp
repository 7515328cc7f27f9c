// Generation and execution of plans for the history simulator.
#include "heap.h"
#include "w32.h"
#include "w64.h"
#include "wbits.h"
#include "wcpp.h"

const char *engine_name() { return "history"; }
const char *engine_distinct_rule() {
    return "a run is one generated plan executed on real library code; it is non-trivial when it changed at least one object; "
           "runs are distinct by the hash of everything observed during the run, states by (operation, container mix and sizes of the object it left)";
}

struct OpW { const char *op; int w; };
struct Profile {
    const char *prop;
    const char *world;    // "32" "64" "bits" "cpp"
    int share;            // weight among the profiles of a property
    uint32_t oracle;
    int lo, hi;           // steps
    int cow;              // 0 off, 1 on, 2 either
    std::vector<OpW> ops;
    std::map<std::string, int> knobs;
};
typedef std::vector<OpW> L;
static L operator+(const L &a, const L &b) {
    L r = a;
    r.insert(r.end(), b.begin(), b.end());
    return r;
}
static L scaled(const L &a, int n, int d = 1) {
    L r = a;
    for (auto &x : r) x.w = std::max(1, x.w * n / d);
    return r;
}

// building blocks for the 32-bit and 64-bit worlds
static const L BUILD = {{"fill", 30}, {"add_many", 4}, {"add_range", 8}, {"from_range", 3}, {"of_ptr", 2}, {"run_optimize", 6}, {"remove_runs", 2}, {"import", 3}};
static const L POINT = {{"add", 5}, {"add_checked", 5}, {"remove", 5}, {"remove_checked", 5}, {"remove_many", 5}, {"remove_range", 8}, {"flip_inplace", 8}};
static const L BINOP = {{"and", 6}, {"or", 6}, {"xor", 6}, {"andnot", 6}, {"and_inplace", 6}, {"or_inplace", 6}, {"xor_inplace", 6}, {"andnot_inplace", 6}, {"flip", 5}};
static const L COPY = {{"copy", 6}, {"overwrite", 3}, {"clear", 1}, {"near", 4}};
static const L PRINT = {{"print", 1}};
static const L QUERY = {{"contains", 5}, {"ranges", 6}, {"ranks", 6}, {"select", 4}, {"minmax", 3}, {"stats", 3}, {"cards", 6}, {"compare", 5}, {"page", 4}};
static const L MAINT = {{"run_optimize", 4}, {"remove_runs", 4}, {"shrink", 4}};
static const L LAZY = {{"lazy_or", 5}, {"lazy_or_inplace", 6}, {"lazy_xor", 4}, {"lazy_xor_inplace", 5}, {"repair", 3}};
static const L MANY = {{"or_many", 3}, {"or_many_heap", 3}, {"xor_many", 3}};
static const L STORE = {{"store", 4}, {"load", 4}, {"crash", 2}};
static const L CURSOR = {{"cur_open", 4}, {"cur_open_last", 2}, {"cur_next", 12}, {"cur_prev", 12}, {"cur_seek", 10}, {"cur_read", 10}, {"cur_copy", 3}};

static const L BUILD64 = {{"fill", 30}, {"add_many", 4}, {"add_range", 8}, {"from_range", 3}, {"of_ptr", 2}, {"run_optimize", 6}, {"import", 3}};
static const L COPY64 = {{"copy", 6}, {"clear", 1}, {"near", 4}};
static const L QUERY64 = {{"contains", 5}, {"ranges", 8}, {"ranks", 6}, {"select", 4}, {"minmax", 3}, {"stats", 3}, {"cards", 6}, {"compare", 5}};
static const L MAINT64 = {{"run_optimize", 4}, {"shrink", 6}};

static const L BITS = {{"create", 1}, {"create_cap", 3}, {"copy", 5}, {"set", 14}, {"set_to_value", 8}, {"range", 8}, {"get", 4}, {"resize", 7}, {"grow", 6}, {"trim", 6}, {"shift_left", 6}, {"shift_right", 6}, {"union", 6}, {"inter", 4}, {"diff", 4}, {"symdiff", 6}, {"counts", 8}, {"next", 6}, {"fill", 1}, {"clear", 2}};

static const L CPP = {{"r_fill", 14}, {"m_fill", 20}, {"r_query", 8}, {"m_query", 10}, {"r_assign", 10}, {"m_assign", 10}, {"r_binop", 10}, {"m_binop", 14}, {"r_point", 14}, {"m_point", 18}, {"r_maint", 4}, {"m_maint", 5}, {"r_fast", 3}, {"m_fast", 4}, {"r_bulk", 4}, {"m_extra", 12}};
static const L CPPIO = {{"r_iter", 6}, {"m_iter", 12}, {"r_io", 8}, {"m_io", 12}};

static const uint32_t ALLC = O_RES | O_CONTENT;
static const std::vector<Profile> &profiles() {
    static const std::vector<Profile> v = {
        // ---- 32-bit
        {"C09", "32", 10, ALLC, 8, 40, 2, BUILD + PRINT + POINT + BINOP + COPY + QUERY + MAINT + L{{"add_offset", 4}, {"create_cap", 1}, {"stack_bitmap", 1}, {"to_bitset", 2}, {"bulk", 3}} + STORE + scaled(MANY, 1, 2) + scaled(LAZY, 1, 3), {}},
        {"C11", "32", 10, ALLC, 12, 50, 2, scaled(BUILD, 1, 2) + CURSOR + L{{"cancel", 8}, {"page", 8}, {"copy", 2}, {"andnot", 2}, {"xor", 2}, {"or", 2}}, {}},
        {"C12", "32", 10, ALLC, 8, 36, 2, BUILD + LAZY + scaled(LAZY, 1) + scaled(MANY, 2) + L{{"bulk", 14}, {"copy", 4}, {"remove_range", 3}, {"flip_inplace", 3}, {"andnot_inplace", 2}}, {}},
        {"C15", "32", 10, O_VALID | O_CONTENT, 8, 36, 2, BUILD + POINT + BINOP + COPY + scaled(MAINT, 2) + L{{"add_offset", 4}, {"bulk", 3}} + STORE + scaled(MANY, 1, 2) + scaled(LAZY, 1, 2), {}},
        {"C06", "32", 10, O_CONTENT | O_IMG, 8, 30, 2, BUILD + scaled(POINT, 1, 2) + scaled(BINOP, 1, 2) + COPY + MAINT + scaled(STORE, 5) + L{{"import", 6}, {"cards", 2}, {"compare", 2}} + scaled(LAZY, 1, 3), {}},
        {"C07", "32", 10, O_LOG, 6, 26, 2, BUILD + PRINT + POINT + BINOP + COPY + QUERY + MAINT + L{{"add_offset", 4}, {"bulk", 3}, {"cancel", 2}} + CURSOR + MANY + LAZY + STORE, {}},
        {"C08", "32", 10, O_MEM, 8, 36, 2, BUILD + POINT + BINOP + COPY + MAINT + L{{"add_offset", 4}, {"bulk", 4}, {"stack_bitmap", 2}, {"to_bitset", 3}, {"page", 4}, {"cur_open", 2}, {"cur_copy", 2}} + STORE + MANY + LAZY, {}},
        {"C03", "32", 10, O_CONTENT | O_MEM, 4, 16, 2, BUILD + scaled(BINOP, 1, 3) + COPY + MAINT + L{{"fault", 60}}, {{"fault_set", 0}}},
        {"C04", "32", 10, O_CONTENT | O_MEM, 4, 24, 2, BUILD + COPY + MAINT + L{{"damage", 90}, {"or", 3}, {"and", 3}, {"xor", 3}, {"run_optimize", 3}, {"flip", 2}}, {}},
        {"C05", "32", 10, O_MEM, 3, 14, 2, BUILD + COPY + MAINT + POINT + L{{"torn", 40}}, {}},
        {"C16", "32", 10, O_CONTENT, 3, 10, 2, BUILD + scaled(BINOP, 1, 3) + COPY + MAINT + L{{"fault", 60}}, {{"fault_set", 1}}},
        // ---- 64-bit (append only: replay files name profiles by position)
        {"C10", "64", 10, ALLC, 8, 40, 0, BUILD64 + POINT + BINOP + COPY64 + QUERY64 + MAINT64 + L{{"move32", 4}, {"bulk", 4}, {"drop_keys", 8}} + STORE, {}},
        {"C11", "64", 8, ALLC, 12, 50, 0, scaled(BUILD64, 1, 2) + CURSOR + L{{"cancel", 8}, {"copy", 2}, {"andnot", 2}, {"xor", 2}, {"or", 2}, {"drop_keys", 2}}, {}},
        {"C12", "64", 5, ALLC, 8, 36, 0, BUILD64 + L{{"bulk", 30}, {"copy", 4}, {"remove_range", 3}, {"flip_inplace", 3}, {"andnot_inplace", 2}, {"drop_keys", 2}, {"remove_many", 4}}, {}},
        {"C15", "64", 6, O_VALID | O_CONTENT, 8, 36, 0, BUILD64 + POINT + BINOP + COPY64 + scaled(MAINT64, 2) + L{{"move32", 4}, {"bulk", 3}, {"drop_keys", 7}} + STORE, {}},
        {"C06", "64", 6, O_CONTENT | O_IMG, 8, 30, 0, BUILD64 + scaled(POINT, 1, 2) + scaled(BINOP, 1, 2) + COPY64 + MAINT64 + scaled(STORE, 5) + L{{"import", 6}, {"cards", 2}, {"compare", 2}, {"move32", 2}, {"drop_keys", 3}}, {}},
        {"C07", "64", 5, O_LOG, 6, 26, 0, BUILD64 + POINT + BINOP + COPY64 + QUERY64 + MAINT64 + L{{"move32", 3}, {"bulk", 3}, {"cancel", 2}, {"drop_keys", 3}} + CURSOR + STORE, {}},
        {"C08", "64", 6, O_MEM, 8, 36, 0, BUILD64 + POINT + BINOP + COPY64 + MAINT64 + L{{"move32", 5}, {"bulk", 5}, {"drop_keys", 5}, {"cur_open", 2}, {"cur_copy", 2}} + STORE, {}},
        {"C04", "64", 6, O_CONTENT | O_MEM, 4, 24, 0, BUILD64 + COPY64 + MAINT64 + L{{"damage", 90}, {"or", 3}, {"and", 3}, {"xor", 3}, {"flip", 2}}, {}},
        {"C05", "64", 8, O_MEM, 3, 14, 0, BUILD64 + COPY64 + MAINT64 + POINT + L{{"torn", 40}, {"drop_keys", 4}}, {}},
        {"C16", "64", 8, O_CONTENT, 3, 10, 0, BUILD64 + scaled(BINOP, 1, 3) + COPY64 + MAINT64 + L{{"fault", 60}}, {}},
        // ---- plain bitsets
        {"C13", "bits", 10, ALLC, 10, 60, 0, BITS + PRINT, {{"inject", 1}}},
        {"C13", "bits", 5, ALLC, 10, 60, 0, BITS, {{"inject", 0}}},
        {"C03", "bits", 2, O_CONTENT | O_MEM, 6, 30, 0, BITS, {{"inject", 1}}},
        {"C08", "bits", 2, O_MEM, 8, 40, 0, BITS, {{"inject", 0}}},
        {"C07", "bits", 1, O_LOG | O_CONTENT, 8, 40, 0, BITS, {{"inject", 0}}},
        // ---- the C++ classes
        {"C14", "cpp", 10, ALLC | O_MEM | O_IMG, 8, 40, 2, CPP + CPPIO, {}},
        {"C14", "cpp", 8, ALLC | O_MEM | O_IMG, 6, 24, 2, scaled(CPP, 1, 2) + CPPIO + L{{"r_oom", 14}, {"m_oom", 24}, {"r_torn", 4}, {"m_torn", 8}, {"r_damage", 8}, {"m_damage", 14}}, {}},
        {"C04", "cpp", 4, O_MEM, 4, 16, 2, scaled(CPP, 1, 3) + L{{"r_damage", 30}, {"m_damage", 50}}, {}},
        {"C05", "cpp", 4, O_MEM, 4, 16, 2, scaled(CPP, 1, 3) + L{{"r_torn", 20}, {"m_torn", 40}}, {}},
        {"C06", "cpp", 4, O_CONTENT | O_IMG, 6, 24, 2, scaled(CPP, 1, 2) + L{{"r_io", 40}, {"m_io", 60}}, {}},
        // ---- space
        {"C17", "32", 10, O_SPACE | O_CONTENT | O_RES, 8, 30, 2, BUILD + POINT + scaled(BINOP, 1, 2) + COPY + scaled(MAINT, 6) + scaled(STORE, 1, 2) + scaled(LAZY, 1, 2), {}},
        {"C17", "64", 6, O_SPACE | O_CONTENT | O_RES, 8, 30, 0, BUILD64 + POINT + scaled(BINOP, 1, 2) + COPY64 + scaled(MAINT64, 6) + L{{"move32", 2}, {"drop_keys", 5}} + scaled(STORE, 1, 2), {}},
        {"C17", "cpp", 4, O_SPACE | O_CONTENT | O_RES, 6, 24, 2, CPP + L{{"r_maint", 30}, {"m_maint", 50}}, {}},
        // ---- everything, for the single-file distribution
        {"C19", "32", 10, ALLC | O_VALID | O_MEM | O_IMG, 8, 40, 2, BUILD + POINT + BINOP + COPY + QUERY + MAINT + L{{"add_offset", 4}, {"create_cap", 1}, {"stack_bitmap", 1}, {"to_bitset", 2}, {"bulk", 4}, {"cancel", 3}, {"torn", 1}, {"damage", 1}} + scaled(CURSOR, 1, 3) + STORE + scaled(MANY, 1, 2) + scaled(LAZY, 1, 2), {}},
        {"C19", "64", 8, ALLC | O_VALID | O_MEM | O_IMG, 8, 40, 0, BUILD64 + POINT + BINOP + COPY64 + QUERY64 + MAINT64 + L{{"move32", 4}, {"bulk", 4}, {"drop_keys", 4}, {"cancel", 3}, {"torn", 1}, {"damage", 1}} + scaled(CURSOR, 1, 3) + STORE, {}},
        {"C19", "bits", 3, ALLC | O_MEM, 10, 60, 0, BITS, {{"inject", 0}}},
        {"C19", "cpp", 6, ALLC | O_MEM | O_IMG, 6, 24, 2, CPP + CPPIO, {}},
        // ---- memory over long histories
        {"C20", "32", 10, O_CONTENT, 4, 14, 2, BUILD + scaled(POINT, 1, 2) + scaled(BINOP, 1, 3) + COPY + MAINT + L{{"churn", 60}}, {}},
        {"C20", "64", 10, O_CONTENT, 4, 14, 0, BUILD64 + scaled(POINT, 1, 2) + scaled(BINOP, 1, 3) + COPY64 + MAINT64 + L{{"churn", 60}, {"drop_keys", 4}}, {}},
    };
    return v;
}

static const Profile *choose(const std::string &prop, Rng &r, int *index) {
    auto &v = profiles();
    int tot = 0;
    for (auto &p : v) if (prop == p.prop) tot += p.share;
    if (!tot) { fprintf(stderr, "no profile for %s\n", prop.c_str()); exit(2); }
    int x = (int)r.below(tot);
    for (size_t i = 0; i < v.size(); i++)
        if (prop == v[i].prop) {
            if (x < v[i].share) { *index = (int)i; return &v[i]; }
            x -= v[i].share;
        }
    return nullptr;
}

void engine_gen(Plan &p, Rng &r) {
    int idx = 0;
    const Profile *f = choose(p.prop, r, &idx);
    p.knob["profile"] = idx;
    p.knob["slots"] = r.range(2, 6);
    p.knob["cow"] = f->cow == 2 ? (int64_t)r.below(2) : f->cow;
    p.knob["keys"] = r.below(std::string(f->world) == "64" ? 10 : 9);
    p.knob["huge"] = r.chance(1, 60) && !strcmp(f->world, "32") ? 1 : 0;
    p.knob["fill"] = (int64_t)(r.next() >> 16);
    p.knob["findings"] = r.chance(1, 30);
    p.knob["v2"] = 1;  // replay files from before a change of the generators keep their meaning
    static const int isas[] = {0, 1, 3, 3};
    p.knob["isa"] = isas[r.below(4)];
    for (auto &k : f->knobs) p.knob[k.first] = k.second;
    // swarm: a random subset of the operations, building ops kept
    L ops;
    bool swarm = r.chance(1, 2), n_fill = strcmp(f->world, "bits");
    for (auto &o : f->ops) {
        bool keep = (!strcmp(o.op, "fill") && n_fill) || !strcmp(o.op, "fault") || !strcmp(o.op, "damage") || !strcmp(o.op, "torn") || !strcmp(o.op, "r_fill") || !strcmp(o.op, "m_fill") || !swarm || r.chance(1, 2);
        if (keep) ops.push_back(o);
    }
    int tot = 0;
    for (auto &o : ops) tot += o.w;
    // half of the runs fill mostly with one pattern, so that operands of the same shape meet
    unsigned focus = (unsigned)r.below(24), pull = (unsigned)r.below(2) * (1 + (unsigned)r.below(3));
    auto step = [&](const char *op) {
        Step s;
        s.op = op;
        for (auto &x : s.a) x = (int64_t)r.below(1 << 20);
        if (strstr(op, "fill") && r.below(4) < pull) s.a[2] = (int64_t)(focus + 24 * r.below(1000));
        p.steps.push_back(s);
    };
    unsigned n0 = !strcmp(f->world, "32") || !strcmp(f->world, "64") ? (unsigned)r.range(1, 4) : 0;
    for (unsigned i = 0; i < n0; i++) step("fill");
    if (!strcmp(f->world, "cpp")) for (unsigned i = 0; i < 3; i++) step(i ? "m_fill" : "r_fill");
    unsigned n = (unsigned)r.range(f->lo, f->hi);
    for (unsigned i = 0; i < n; i++) {
        int x = (int)r.below(tot);
        for (auto &o : ops) {
            if (x < o.w) { step(o.op); break; }
            x -= o.w;
        }
    }
}
bool engine_enum(const std::string &, uint64_t, Plan &) { return false; }

template <class W>
static std::vector<uint64_t> play(Plan &p, const Profile &f, uint64_t fill, int isa) {
    heap::begin_run(fill);
    heap::set_isa(isa);
    W w;
    w.oracle = f.oracle;
    w.junk = (uint8_t)(fill >> 9 | 1);
    w.start(p);
    for (size_t i = 0; i < p.steps.size(); i++) {
        const Step &s = p.steps[i];
        if (g_verbose) {
            printf("step %zu: %s %lld %lld %lld %lld %lld %lld\n", i, s.op.c_str(), (long long)s.a[0], (long long)s.a[1], (long long)s.a[2], (long long)s.a[3], (long long)s.a[4], (long long)s.a[5]);
            fflush(stdout);
        }
        w.step(s);
        g_sh->steps_done++;
        g_sh->simtime++;
        if (w.oracle & O_LOG) w.trace.push_back(0xA5A5000000000000ULL + i);  // step marker
    }
    g_sh->nontrivial = 1;
    w.finish();
    return w.trace;
}
template <class W>
static void play_prop(Plan &p, const Profile &f) {
    if (!(f.oracle & O_LOG)) {
        play<W>(p, f, (uint64_t)p.k("fill", 7), (int)p.k("isa", 3));
        return;
    }
    // C07: the same history on different machines
    static const int masks[] = {0, 1, 3};
    std::vector<uint64_t> ref;
    for (int m = 0; m < 3; m++) {
        auto t = play<W>(p, f, Rng::mix((uint64_t)p.k("fill", 7) + m), masks[m]);
        heap::free_all();
        if (!m) { ref = t; continue; }
        size_t i = 0, step = 0;
        while (i < t.size() && i < ref.size() && t[i] == ref[i]) {
            if (t[i] >> 48 == 0xA5A5) step = (t[i] & 0xffffffff) + 1;
            i++;
        }
        if (i < t.size() || i < ref.size())
            viol(("isa-diverge:" + (step < p.steps.size() ? p.steps[step].op : std::string("end"))).c_str(), "step %zu (%s): machine %d and the scalar machine observe different results, sets or images", step, step < p.steps.size() ? p.steps[step].op.c_str() : "end", m);
    }
    STAT("isa_triples");
}

void engine_exec(Plan &p) {
    heap::install();
    auto &v = profiles();
    size_t i = (size_t)p.k("profile", 0);
    if (i >= v.size()) i = 0;
    const Profile &f = v[i];
    g_sh->plan_note[0] = 0;
    std::string w = f.world;
    if (w == "32") play_prop<W32>(p, f);
    else if (w == "64") play_prop<W64>(p, f);
    else if (w == "bits") play_prop<WBits>(p, f);
    else if (w == "cpp") play_prop<WCpp>(p, f);
}
void engine_reset() {
    heap::disarm();
    heap::free_all();
}
void engine_simplify(const Plan &p, size_t i, std::vector<Step> &out) {
    const Step &s = p.steps[i];
    for (int k = 0; k < 6; k++) {
        if (s.a[k] == 0) continue;
        Step t = s;
        t.a[k] = 0;
        out.push_back(t);
        if (s.a[k] > 20) {
            t.a[k] = s.a[k] % 20;
            out.push_back(t);
        }
    }
}
