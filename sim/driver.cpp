// Explore / minimise / replay driver shared by the simulators.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <set>

#include "common.h"
#include "model.h"

Shared *g_sh;
bool g_verbose;
static uint8_t *g_sketch;           // distinct log hashes (whole runs)
static uint8_t *g_sig;              // distinct state signatures
static const size_t SKETCH_BITS = 1u << 24;
static Preempt *g_schedbuf;         // schedule recorded by the run
static volatile uint64_t *g_schedn;
static const size_t SCHED_MAX = 1 << 16;

ChunkP full_chunk() {
    static ChunkP p = [] {
        auto n = std::make_shared<Chunk>();
        memset(n->w, 0xff, sizeof n->w);
        n->n = 65536;
        return ChunkP(n);
    }();
    return p;
}

void viol(const char *cls, const char *fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Viol{cls, buf};
}

StatEntry *stat_entry(const char *name) {
    for (auto &e : g_sh->stat) {
        if (!e.name[0]) {
            strncpy(e.name, name, sizeof e.name - 1);
            return &e;
        }
        if (!strncmp(e.name, name, sizeof e.name - 1)) return &e;
    }
    static StatEntry sink;
    return &sink;
}
void stat_add(const char *name, uint64_t n) { stat_entry(name)->n += n; }

static bool sketch_add(uint8_t *s, uint64_t h) {
    size_t b = (h * 0x9E3779B97F4A7C15ULL) >> 40;  // 24 bits
    uint8_t m = 1 << (b & 7);
    if (s[b >> 3] & m) return false;
    __atomic_fetch_or(&s[b >> 3], m, __ATOMIC_RELAXED);
    return true;
}
void sig_seen(uint64_t sig) { sketch_add(g_sig, sig); }
static uint64_t sketch_count(uint8_t *s) {
    uint64_t n = 0;
    for (size_t i = 0; i < SKETCH_BITS / 64; i++) n += __builtin_popcountll(((uint64_t *)s)[i]);
    return n;
}
void sched_record(int task, uint64_t at, int to) {
    if (*g_schedn < SCHED_MAX) g_schedbuf[(*g_schedn)++] = Preempt{task, at, to};
}

// ---------------------------------------------------------------- plan text
std::string Plan::text() const {
    std::string o = "engine " + std::string(engine_name()) + "\nprop " + prop + "\nseed " + std::to_string(seed) + "\n";
    for (auto &e : knob) o += "knob " + e.first + " " + std::to_string(e.second) + "\n";
    for (auto &s : steps) {
        o += "step " + s.op;
        for (int i = 0; i < 6; i++) o += " " + std::to_string(s.a[i]);
        if (s.fault) o += " fault " + std::to_string(s.fault);
        o += "\n";
    }
    for (auto &e : sched) o += "switch " + std::to_string(e.task) + " " + std::to_string(e.at) + " " + std::to_string(e.to) + "\n";
    return o;
}
bool Plan::parse(const std::string &t) {
    size_t p = 0;
    while (p < t.size()) {
        size_t e = t.find('\n', p);
        if (e == std::string::npos) e = t.size();
        std::string l = t.substr(p, e - p);
        p = e + 1;
        std::vector<std::string> f;
        size_t i = 0;
        while (i < l.size()) {
            size_t j = l.find(' ', i);
            if (j == std::string::npos) j = l.size();
            if (j > i) f.push_back(l.substr(i, j - i));
            i = j + 1;
        }
        if (f.empty() || f[0][0] == '#') continue;
        if (f[0] == "prop") prop = f[1];
        else if (f[0] == "seed") seed = strtoull(f[1].c_str(), 0, 10);
        else if (f[0] == "knob") knob[f[1]] = strtoll(f[2].c_str(), 0, 10);
        else if (f[0] == "step") {
            Step s;
            s.op = f[1];
            for (int k = 0; k < 6; k++) s.a[k] = strtoll(f[2 + k].c_str(), 0, 10);
            if (f.size() > 9 && f[8] == "fault") s.fault = atoi(f[9].c_str());
            steps.push_back(s);
        } else if (f[0] == "switch") {
            sched.push_back(Preempt{atoi(f[1].c_str()), strtoull(f[2].c_str(), 0, 10), atoi(f[3].c_str())});
        }
    }
    return !prop.empty();
}

// ---------------------------------------------------------------- one run
static Shared *new_shared() {
    return (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
extern "C" void sim_record_bad(const char *cls, const char *detail) {
    if (g_sh->bad) return;
    // a call under injected faults: one class per call, however it dies
    if (g_sh->plan_note[0] && strcmp(cls, "hang")) snprintf(g_sh->cls, sizeof g_sh->cls, "crash@%s", g_sh->plan_note);
    else strncpy(g_sh->cls, cls, sizeof g_sh->cls - 1);
    strncpy(g_sh->detail, detail, sizeof g_sh->detail - 1);
    g_sh->bad = 1;
}
static int g_hang_s = 15;  // while exploring; a hang only counts if a confirmation run exceeds CONFIRM_S too
static const int CONFIRM_S = 60;
static void on_sig(int s) {
    if (s == SIGPROF) sim_record_bad("hang", "run exceeded its CPU budget");
    else {
        char b[64];
        snprintf(b, sizeof b, "signal %d", s);
        sim_record_bad("crash", b);
    }
    _exit(77);
}
extern "C" __attribute__((weak)) void __asan_set_error_report_callback(void (*)(const char *));
static void on_asan(const char *rep) {
    // "==pid==ERROR: AddressSanitizer: <kind> on address ..."
    std::string r(rep), kind = "asan";
    size_t p = r.find("AddressSanitizer: ");
    if (p != std::string::npos) {
        size_t q = r.find_first_of(" \n", p + 18);
        kind += ":" + r.substr(p + 18, q - p - 18);
    }
    std::string det = kind;
    size_t f = 0;
    int n = 0;
    while (n < 6 && (f = r.find("\n    #", f)) != std::string::npos) {
        size_t e = r.find('\n', f + 1);
        std::string l = r.substr(f + 5, e - f - 5);
        size_t in = l.find(" in ");
        if (in != std::string::npos) {
            size_t sp = l.find(' ', in + 4);
            det += " < " + l.substr(in + 4, sp - in - 4);
        }
        f = e;
        n++;
    }
    sim_record_bad(kind.c_str(), det.c_str());
}
static void install_handlers() {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_sig;
    sa.sa_flags = SA_ONSTACK;
    static char alt[65536];
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, 0);
    sigaction(SIGPROF, &sa, 0);
    if (&__asan_set_error_report_callback) __asan_set_error_report_callback(on_asan);
    else {
        sigaction(SIGSEGV, &sa, 0);
        sigaction(SIGBUS, &sa, 0);
    }
    sigaction(SIGILL, &sa, 0);
    sigaction(SIGTRAP, &sa, 0);
    sigaction(SIGFPE, &sa, 0);
    sigaction(SIGABRT, &sa, 0);
}
static void arm(int s) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &t, 0);
}
// Runs a plan in this process; records the outcome in g_sh. Returns bad.
static bool run_here(Plan &p) {
    g_sh->hash = 0x1234;
    g_sh->bad = 0;
    g_sh->plan_note[0] = 0;
    g_sh->step = -1;
    g_sh->nontrivial = 0;
    *g_schedn = 0;
    arm(g_hang_s);
    try {
        engine_exec(p);
    } catch (Viol &v) {
        sim_record_bad(v.cls.c_str(), v.detail.c_str());
    }
    arm(0);
    if (g_sh->bad) return true;
    engine_reset();
    g_sh->runs_done++;
    return false;
}
static uint64_t plan_seed(uint64_t seed, const std::string &prop, uint64_t idx) {
    uint64_t h = 77;
    for (char c : prop) h = hmix(h, (unsigned char)c);
    return Rng::mix(hmix(hmix(h, seed), idx));
}
static bool make_plan(Plan &p, uint64_t seed, const std::string &prop, uint64_t idx) {
    p = Plan();
    p.prop = prop;
    if (engine_enum(prop, idx, p)) {
        p.seed = idx;
        return true;
    }
    p.seed = plan_seed(seed, prop, idx);
    Rng r(p.seed);
    engine_gen(p, r);
    return true;
}
struct Child {
    pid_t pid;
    Shared *sh;
    Preempt *sb;
    volatile uint64_t *sn;
};
static void quiet() {
    if (g_verbose) return;
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
}
static Child spawn(const Plan &p) {
    Child c;
    c.sh = new_shared();
    c.sb = (Preempt *)mmap(0, sizeof(Preempt) * SCHED_MAX + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    c.sn = (volatile uint64_t *)(c.sb + SCHED_MAX);
    fflush(0);
    c.pid = fork();
    if (c.pid == 0) {
        g_sh = c.sh;
        g_schedbuf = c.sb;
        g_schedn = c.sn;
        quiet();
        install_handlers();
        Plan q = p;
        bool bad = run_here(q);
        _exit(bad ? 76 : 0);
    }
    return c;
}
static Outcome collect(Child c, std::vector<Preempt> *sched = nullptr) {
    int st;
    while (waitpid(c.pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.hash = c.sh->hash;
    o.bad = c.sh->bad;
    o.cls = c.sh->cls;
    o.detail = c.sh->detail;
    o.nontrivial = c.sh->nontrivial;
    if (!o.bad && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        o.bad = true;
        char b[64];
        snprintf(b, sizeof b, "process ended with status 0x%x", st);
        o.cls = "crash";
        o.detail = b;
    }
    if (sched) sched->assign(c.sb, c.sb + *c.sn);
    munmap(c.sh, sizeof(Shared));
    munmap(c.sb, sizeof(Preempt) * SCHED_MAX + 4096);
    return o;
}
static Outcome run_child(const Plan &p, std::vector<Preempt> *sched = nullptr) { return collect(spawn(p), sched); }

// ---------------------------------------------------------------- minimiser
static int g_workers = 8;
static double g_min_deadline;
static uint64_t g_min_tried;
// Evaluates candidates (in parallel, deterministic choice of the first that fails alike)
static int first_failing(const std::vector<Plan> &cand, const std::string &cls) {
    for (size_t i = 0; i < cand.size(); i += g_workers) {
        if (now() > g_min_deadline) return -1;
        size_t n = std::min<size_t>(g_workers, cand.size() - i);
        std::vector<Child> ch;
        for (size_t j = 0; j < n; j++) ch.push_back(spawn(cand[i + j]));
        int hit = -1;
        for (size_t j = 0; j < n; j++) {
            Outcome o = collect(ch[j]);
            g_min_tried++;
            if (hit < 0 && o.bad && o.cls == cls) hit = (int)(i + j);
        }
        if (hit >= 0) return hit;
    }
    return -1;
}
template <class V>
static V without(const V &v, size_t at, size_t n) {
    V r(v.begin(), v.begin() + at);
    r.insert(r.end(), v.begin() + std::min(v.size(), at + n), v.end());
    return r;
}
static void minimise(Plan &p, const std::string &cls) {
    bool progress = true;
    while (progress && now() < g_min_deadline) {
        progress = false;
        // steps
        for (size_t n = std::max<size_t>(1, p.steps.size() / 2);; n /= 2) {
            size_t i = 0;
            while (i < p.steps.size()) {
                std::vector<Plan> cand;
                std::vector<size_t> pos;
                for (size_t j = i; j < p.steps.size() && cand.size() < (size_t)g_workers; j += n) {
                    Plan q = p;
                    q.steps = without(p.steps, j, n);
                    cand.push_back(q);
                    pos.push_back(j);
                }
                int h = first_failing(cand, cls);
                if (h >= 0) {
                    p = cand[h];
                    progress = true;
                    i = pos[h];
                } else {
                    i = pos.back() + n;
                }
                if (now() > g_min_deadline) return;
            }
            if (n <= 1) break;
        }
        // schedule
        if (!p.sched.empty())
            for (size_t n = std::max<size_t>(1, p.sched.size() / 2);; n /= 2) {
                size_t i = 0;
                while (i < p.sched.size()) {
                    std::vector<Plan> cand;
                    std::vector<size_t> pos;
                    for (size_t j = i; j < p.sched.size() && cand.size() < (size_t)g_workers; j += n) {
                        Plan q = p;
                        q.sched = without(p.sched, j, n);
                        cand.push_back(q);
                        pos.push_back(j);
                    }
                    int h = first_failing(cand, cls);
                    if (h >= 0) {
                        p = cand[h];
                        progress = true;
                        i = pos[h];
                    } else {
                        i = pos.back() + n;
                    }
                    if (now() > g_min_deadline) return;
                }
                if (n <= 1) break;
            }
        // faults and arguments
        for (size_t i = 0; i < p.steps.size(); i++) {
            for (int rounds = 0; rounds < 6; rounds++) {
                std::vector<Plan> cand;
                if (p.steps[i].fault) {
                    Plan q = p;
                    q.steps[i].fault = 0;
                    cand.push_back(q);
                }
                std::vector<Step> alt;
                engine_simplify(p, i, alt);
                for (auto &s : alt) {
                    Plan q = p;
                    q.steps[i] = s;
                    cand.push_back(q);
                }
                if (cand.empty()) break;
                int h = first_failing(cand, cls);
                if (h < 0) break;
                p = cand[h];
                progress = true;
                if (now() > g_min_deadline) return;
            }
        }
    }
}

// ---------------------------------------------------------------- json
static std::string js(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

struct Slot {
    Shared *sh;
    pid_t pid = 0;
    uint64_t next;
    bool done = false;
};

int main(int argc, char **argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> opt;
    std::vector<std::string> pos;
    for (int i = 2; i < argc; i++) {
        if (!strncmp(argv[i], "--", 2)) {
            if (strcmp(argv[i], "--verbose") && i + 1 < argc && strncmp(argv[i + 1], "--", 2)) { opt[argv[i] + 2] = argv[i + 1]; i++; }
            else opt[argv[i] + 2] = "1";
        } else pos.push_back(argv[i]);
    }
    setvbuf(stdout, 0, _IOLBF, 0);
    g_sketch = (uint8_t *)mmap(0, SKETCH_BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sig = (uint8_t *)mmap(0, SKETCH_BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sh = new_shared();
    g_schedbuf = (Preempt *)mmap(0, sizeof(Preempt) * SCHED_MAX + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_schedn = (volatile uint64_t *)(g_schedbuf + SCHED_MAX);
    g_verbose = opt.count("verbose");
    g_workers = opt.count("workers") ? atoi(opt["workers"].c_str()) : 8;

    if (mode == "replay") {
        FILE *f = fopen(pos[0].c_str(), "r");
        if (!f) return 2;
        std::string t;
        char b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n);
        fclose(f);
        Plan p;
        if (!p.parse(t)) return 2;
        g_hang_s = CONFIRM_S;
        Outcome o = run_child(p);
        printf("RESULT bad=%d cls=%s hash=%016llx detail=%s\n", o.bad, o.bad ? o.cls.c_str() : "-", (unsigned long long)o.hash, o.bad ? o.detail.c_str() : "");
        return o.bad ? 1 : 0;
    }
    if (mode == "plan") {
        Plan p;
        make_plan(p, strtoull(opt["seed"].c_str(), 0, 10), opt["prop"], strtoull(opt["idx"].c_str(), 0, 10));
        fputs(p.text().c_str(), stdout);
        return 0;
    }
    if (mode == "digest") {  // the hash of everything observed in each of the first n runs
        uint64_t n = strtoull(opt["n"].c_str(), 0, 10), seed = strtoull(opt["seed"].c_str(), 0, 10);
        double deadline = now() + (opt.count("secs") ? atof(opt["secs"].c_str()) : 1e9);
        uint64_t *out = (uint64_t *)mmap(0, n * 16 + 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        for (int w = 0; w < g_workers; w++) {
            if (fork()) continue;
            g_sh = new_shared();
            quiet();
            install_handlers();
            for (uint64_t i = w; i < n && now() < deadline; i += g_workers) {
                Plan p;
                make_plan(p, seed, opt["prop"], i);
                if (run_here(p)) _exit(1);
                out[2 * i] = g_sh->hash;
                out[2 * i + 1] = 1;
            }
            _exit(0);
        }
        while (wait(0) > 0) {}
        for (uint64_t i = 0; i < n; i++)
            if (out[2 * i + 1]) printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)out[2 * i]);
        return 0;
    }
    if (mode != "explore") return 2;
    std::string prop = opt["prop"];
    uint64_t seed = strtoull(opt["seed"].c_str(), 0, 10);
    double secs = atof(opt["secs"].c_str());
    uint64_t maxruns = opt.count("runs") ? strtoull(opt["runs"].c_str(), 0, 10) : ~0ULL;
    uint64_t first = opt.count("first") ? strtoull(opt["first"].c_str(), 0, 10) : 0;
    double minsecs = opt.count("minsecs") ? atof(opt["minsecs"].c_str()) : 60;
    int maxviol = opt.count("maxviol") ? atoi(opt["maxviol"].c_str()) : 1;
    double t0 = now(), deadline = t0 + secs;
    uint64_t BATCH = 400;

    std::vector<Slot> slot(g_workers);
    for (int w = 0; w < g_workers; w++) {
        slot[w].sh = new_shared();
        slot[w].next = first + w;
    }
    struct Hit { uint64_t idx; std::string cls, detail; std::vector<Preempt> sched; };
    std::vector<Hit> hits;
    std::set<std::string> hitcls, known;
    {
        std::string k = opt["known"];
        size_t a = 0;
        while (a < k.size()) {
            size_t b = k.find(',', a);
            if (b == std::string::npos) b = k.size();
            if (b > a) known.insert(k.substr(a, b - a));
            a = b + 1;
        }
    }
    std::map<std::string, uint64_t> knownhits;
    bool stop = false;
    auto launch = [&](int w) {
        fflush(0);
        pid_t pid = fork();
        if (pid == 0) {
            g_sh = slot[w].sh;
            quiet();
            install_handlers();
            g_sh->bad = 0;
            uint64_t idx = slot[w].next;
            for (uint64_t b = 0; b < BATCH; b++) {
                if (idx - first >= maxruns) _exit(3);
                if (now() > deadline) _exit(3);
                g_sh->run_idx = idx;
                Plan p;
                make_plan(p, seed, prop, idx);
                if (run_here(p)) _exit(76);
                if (g_sh->nontrivial) sketch_add(g_sketch, g_sh->hash);
                idx += g_workers;
                g_sh->run_idx = idx;
            }
            _exit(0);
        }
        slot[w].pid = pid;
    };
    for (int w = 0; w < g_workers; w++) launch(w);
    int live = g_workers;
    while (live > 0) {
        int st;
        pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) { if (errno == EINTR) continue; break; }
        int w = -1;
        for (int i = 0; i < g_workers; i++) if (slot[i].pid == pid) w = i;
        if (w < 0) continue;
        slot[w].pid = 0;
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
        if (code == 0 && !stop) {
            slot[w].next = slot[w].sh->run_idx;
            if (now() < deadline) { launch(w); continue; }
        } else if (code != 3 && code != 0 && !stop) {
            Hit h;
            h.idx = slot[w].sh->run_idx;
            h.cls = slot[w].sh->bad ? slot[w].sh->cls : "crash";
            h.detail = slot[w].sh->bad ? slot[w].sh->detail : "process died";
            if (known.count(h.cls)) {
                knownhits[h.cls]++;
            } else if (!hitcls.count(h.cls)) {
                hitcls.insert(h.cls);
                hits.push_back(h);
            }
            if ((int)hits.size() - (int)hitcls.count("hang") >= maxviol) {
                stop = true;
                for (auto &s : slot) if (s.pid) kill(s.pid, SIGKILL);
            } else {
                slot[w].next = h.idx + g_workers;
                if (now() < deadline) { launch(w); continue; }
            }
        }
        live--;
    }
    double t1 = now();
    uint64_t runs = 0, steps = 0, simtime = 0;
    std::map<std::string, uint64_t> stats;
    for (auto &s : slot) {
        runs += s.sh->runs_done;
        steps += s.sh->steps_done;
        simtime += s.sh->simtime;
        for (auto &e : s.sh->stat) if (e.name[0]) stats[e.name] += e.n;
    }
    // determinism self-check: some plans executed twice in fresh processes
    uint64_t det_n = 0, det_bad = 0;
    int det_want = opt.count("det") ? atoi(opt["det"].c_str()) : 32;
    for (int i = 0; i < det_want && hits.empty(); i += g_workers) {
        std::vector<Child> a, b;
        for (int j = i; j < i + g_workers && j < det_want; j++) {
            Plan p;
            make_plan(p, seed, prop, first + j * 7);
            a.push_back(spawn(p));
            b.push_back(spawn(p));
        }
        for (size_t j = 0; j < a.size(); j++) {
            Outcome x = collect(a[j]), y = collect(b[j]);
            det_n++;
            if (x.hash != y.hash || x.bad != y.bad) det_bad++;
        }
    }
    // violations: confirm, minimise, write replay
    std::string outdir = opt["out"];
    std::string jv;
    int nonrepro = 0;
    g_min_deadline = now() + minsecs;
    uint64_t slow = 0;
    g_hang_s = CONFIRM_S;
    for (auto &h : hits) {
        Plan p;
        make_plan(p, seed, prop, h.idx);
        std::vector<Preempt> sched;
        Outcome o = run_child(p, &sched);
        if (!o.bad && h.cls == "hang") {  // slow on this machine, not stuck
            slow++;
            continue;
        }
        if (!o.bad || o.cls != h.cls) {
            fprintf(stderr, "run %llu did not reproduce in isolation: %s (%s) vs %s\n", (unsigned long long)h.idx, h.cls.c_str(), h.detail.c_str(), o.bad ? o.cls.c_str() : "ok");
            nonrepro++;
            continue;
        }
        Plan orig = p;
        if (!sched.empty()) {
            p.sched = sched;
            p.knob["sched_replay"] = 1;
            Outcome o2 = run_child(p);
            if (!o2.bad || o2.cls != h.cls) {
                fprintf(stderr, "recorded schedule of run %llu does not replay\n", (unsigned long long)h.idx);
                nonrepro++;
                p = orig;
            }
        } else if (p.k("sched_mode")) {
            p.knob["sched_replay"] = 1;
            Outcome o2 = run_child(p);
            if (!o2.bad || o2.cls != h.cls) p = orig;
        }
        size_t n0 = p.steps.size(), s0 = p.sched.size();
        Plan full = p;
        if (h.cls == "hang") g_hang_s = 20;
        minimise(p, h.cls);
        g_hang_s = CONFIRM_S;
        auto twice = [&](Plan &q, Outcome &a) {
            Child x = spawn(q), y = spawn(q);
            a = collect(x);
            Outcome b = collect(y);
            return a.bad && a.cls == h.cls && b.bad && a.hash == b.hash && a.cls == b.cls;
        };
        Outcome a;
        if (!twice(p, a) && (p = full, !twice(p, a))) {
            if (h.cls == "hang") {
                slow++;
                continue;
            }
            fprintf(stderr, "run %llu does not fail alike every time\n", (unsigned long long)h.idx);
            nonrepro++;
            continue;
        }
        char name[512];
        std::string c2 = h.cls;
        for (auto &ch : c2) if (!isalnum((unsigned char)ch)) ch = '-';
        snprintf(name, sizeof name, "%s/%s-%s-%llu.replay", outdir.c_str(), prop.c_str(), c2.c_str(), (unsigned long long)h.idx);
        FILE *f = fopen(name, "w");
        if (!f) { perror(name); return 2; }
        fprintf(f, "# property %s violated: %s\n# %s\n# found at VERIF_SEED=%llu run=%llu; %zu steps and %zu switches minimised to %zu and %zu\n# expect cls=%s hash=%016llx\n", prop.c_str(), a.cls.c_str(), a.detail.c_str(), (unsigned long long)seed, (unsigned long long)h.idx, n0, s0, p.steps.size(), p.sched.size(), a.cls.c_str(), (unsigned long long)a.hash);
        fputs(p.text().c_str(), f);
        fclose(f);
        if (!jv.empty()) jv += ",";
        char hx[20];
        snprintf(hx, sizeof hx, "%016llx", (unsigned long long)a.hash);
        std::string lastop = p.steps.empty() ? "" : p.steps.back().op;
        jv += "{\"cls\":" + js(a.cls) + ",\"detail\":" + js(a.detail) + ",\"replay\":" + js(name) + ",\"hash\":" + js(hx) + ",\"steps\":" + std::to_string(p.steps.size()) + ",\"last_op\":" + js(lastop) + ",\"run\":" + std::to_string(h.idx) + "}";
    }
    // samples
    std::string jsam;
    for (uint64_t i = 0; i < 2; i++) {
        Plan p;
        make_plan(p, seed, prop, first + i * 13 + 1);
        std::string t = p.text();
        if (t.size() > 1500) t = t.substr(0, 1500) + "...";
        if (i) jsam += ",";
        jsam += js(t);
    }
    if (slow) stats["slow_runs"] += slow;
    std::string jstat;
    for (auto &e : stats) {
        if (!jstat.empty()) jstat += ",";
        jstat += js(e.first) + ":" + std::to_string(e.second);
    }
    std::string jk;
    for (auto &e : knownhits) {
        if (!jk.empty()) jk += ",";
        jk += js(e.first) + ":" + std::to_string(e.second);
    }
    FILE *f = fopen(opt["json"].c_str(), "w");
    if (!f) { perror("json"); return 2; }
    fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"simtime\":%llu,\"explore_s\":%.3f,\"distinct_runs\":%llu,\"distinct_states\":%llu,\"det_checked\":%llu,\"det_bad\":%llu,\"nonrepro\":%d,\"min_tried\":%llu,\"violations\":[%s],\"samples\":[%s],\"stats\":{%s},\"known\":{%s},\"rule\":%s}\n",
            (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)simtime, t1 - t0, (unsigned long long)sketch_count(g_sketch), (unsigned long long)sketch_count(g_sig), (unsigned long long)det_n, (unsigned long long)det_bad, nonrepro, (unsigned long long)g_min_tried, jv.c_str(), jsam.c_str(), jstat.c_str(), jk.c_str(), js(engine_distinct_rule()).c_str());
    fclose(f);
    return jv.empty() && !nonrepro && !det_bad ? 0 : 1;
}
