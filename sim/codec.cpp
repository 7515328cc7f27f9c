// Independent readers and writers of the published storage formats.
#include "world.h"

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

static uint32_t rd32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static uint16_t rd16(const uint8_t *p) { return (uint16_t)(p[0] | p[1] << 8); }
static void w16(std::vector<uint8_t> &o, unsigned v) {
    o.push_back(v & 255);
    o.push_back(v >> 8 & 255);
}
static void w32(std::vector<uint8_t> &o, uint32_t v) {
    w16(o, v & 0xffff);
    w16(o, v >> 16);
}
static void w64(std::vector<uint8_t> &o, uint64_t v) {
    w32(o, (uint32_t)v);
    w32(o, (uint32_t)(v >> 32));
}

bool decode_portable32(const uint8_t *p, size_t n, Set &out, std::string &why, size_t *used, uint64_t high, bool) {
    size_t pos = 0;
    auto need = [&](size_t k) { return n - pos >= k; };
    if (!need(4)) { why = "no cookie"; return false; }
    uint32_t cookie = rd32(p);
    pos = 4;
    uint32_t size;
    bool hasrun = false;
    const uint8_t *runflags = nullptr;
    if ((cookie & 0xffff) == 12347) {
        hasrun = true;
        size = (cookie >> 16) + 1;
        size_t s = (size + 7) / 8;
        if (!need(s)) { why = "short run bitmap"; return false; }
        runflags = p + pos;
        pos += s;
    } else if (cookie == 12346) {
        if (!need(4)) { why = "no size"; return false; }
        size = rd32(p + 4);
        pos = 8;
        if (size > 65536) { why = "more than 65536 containers"; return false; }
    } else {
        why = "bad cookie";
        return false;
    }
    if (!need(4 * (size_t)size)) { why = "short key table"; return false; }
    const uint8_t *kt = p + pos;
    pos += 4 * (size_t)size;
    const uint8_t *offs = nullptr;
    if (!hasrun || size >= 4) {
        if (!need(4 * (size_t)size)) { why = "short offset table"; return false; }
        offs = p + pos;
        pos += 4 * (size_t)size;
    }
    int prev = -1;
    std::shared_ptr<Chunk> before;
    for (uint32_t i = 0; i < size; i++) {
        int key = rd16(kt + 4 * i);
        uint32_t card = rd16(kt + 4 * i + 2) + 1u;
        if (key <= prev) { why = "keys not strictly increasing"; return false; }
        prev = key;
        if (offs && rd32(offs + 4 * i) != pos) { why = "offset table entry wrong"; return false; }
        auto c = std::make_shared<Chunk>();
        if (hasrun && (runflags[i / 8] >> (i & 7) & 1)) {
            if (!need(2)) { why = "short run count"; return false; }
            unsigned nr = rd16(p + pos);
            pos += 2;
            if (!need(4 * (size_t)nr)) { why = "short runs"; return false; }
            if (nr == 0) { why = "empty run container"; return false; }
            int last = -2;
            for (unsigned j = 0; j < nr; j++) {
                unsigned s = rd16(p + pos), l = rd16(p + pos + 2);
                pos += 4;
                if ((int)s <= last + (j ? 1 : 0)) { why = "runs overlap, touch or are unordered"; return false; }
                if (s + l > 65535) { why = "run past the chunk"; return false; }
                last = (int)(s + l);
                for (unsigned w = s >> 6; w <= (unsigned)last >> 6; w++) {
                    uint64_t m = ~0ULL;
                    if (w == s >> 6) m &= ~0ULL << (s & 63);
                    if (w == (unsigned)last >> 6) m &= ~0ULL >> (63 - (last & 63));
                    c->w[w] |= m;
                }
            }
        } else if (card <= 4096) {
            if (!need(2 * (size_t)card)) { why = "short array"; return false; }
            int last = -1;
            for (uint32_t j = 0; j < card; j++) {
                unsigned v = rd16(p + pos);
                pos += 2;
                if ((int)v <= last) { why = "array not strictly increasing"; return false; }
                last = (int)v;
                c->w[v >> 6] |= 1ULL << (v & 63);
            }
        } else {
            if (!need(8192)) { why = "short bitset"; return false; }
            memcpy(c->w, p + pos, 8192);
            pos += 8192;
        }
        c->recount();
        if ((uint32_t)c->n != card) { why = "stored cardinality wrong"; return false; }
        if (before && before->n == c->n && !memcmp(before->w, c->w, 8192)) c = before;  // equal chunks are shared
        before = c;
        out.c[high | (uint64_t)key] = c;
    }
    if (used) *used = pos;
    else if (pos != n) { why = "bytes left over"; return false; }
    return true;
}

static void runs_of(const Chunk &c, std::vector<std::pair<unsigned, unsigned>> &r) {
    int p = 0;
    while (p < 65536) {
        int s = c.nextGE(p);
        if (s < 0) break;
        int e = s;
        while (e + 1 < 65536 && c.get(e + 1)) {
            if (((e + 1) & 63) == 0 && c.w[(e + 1) >> 6] == ~0ULL) e += 64;
            else e++;
        }
        r.push_back({(unsigned)s, (unsigned)e});
        p = e + 1;
    }
}
std::vector<uint8_t> encode_portable32(const Set &s, Rng &r) {
    std::vector<uint8_t> o;
    size_t n = s.c.size();
    std::vector<bool> run(n);
    std::vector<std::vector<std::pair<unsigned, unsigned>>> rs(n);
    bool any = false;
    size_t i = 0;
    unsigned bias = r.below(4);
    for (auto &e : s.c) {
        bool pick = bias == 0 ? false : bias == 1 ? true : r.chance(1, 2);
        if (pick) {
            runs_of(*e.second, rs[i]);
            if (rs[i].size() > 4000 && !r.chance(1, 4)) pick = false;  // legal but pointless
        }
        run[i] = pick;
        any |= pick;
        i++;
    }
    size_t hdr;
    if (any) {
        w32(o, 12347u | (uint32_t)(n - 1) << 16);
        std::vector<uint8_t> f((n + 7) / 8);
        for (i = 0; i < n; i++)
            if (run[i]) f[i / 8] |= 1 << (i & 7);
        o.insert(o.end(), f.begin(), f.end());
    } else {
        w32(o, 12346);
        w32(o, (uint32_t)n);
    }
    for (auto &e : s.c) {
        w16(o, e.first & 0xffff);
        w16(o, e.second->n - 1);
    }
    hdr = o.size();
    bool offs = !any || n >= 4;
    if (offs) {
        uint32_t pos = (uint32_t)(hdr + 4 * n);
        i = 0;
        for (auto &e : s.c) {
            w32(o, pos);
            pos += run[i] ? 2 + 4 * rs[i].size() : e.second->n <= 4096 ? 2 * e.second->n : 8192;
            i++;
        }
    }
    i = 0;
    for (auto &e : s.c) {
        if (run[i]) {
            w16(o, rs[i].size());
            for (auto &x : rs[i]) {
                w16(o, x.first);
                w16(o, x.second - x.first);
            }
        } else if (e.second->n <= 4096) {
            for (int w = 0; w < 1024; w++)
                for (uint64_t x = e.second->w[w]; x; x &= x - 1) w16(o, w * 64 + __builtin_ctzll(x));
        } else {
            for (int w = 0; w < 1024; w++) w64(o, e.second->w[w]);
        }
        i++;
    }
    return o;
}
bool decode_portable64(const uint8_t *p, size_t n, Set &out, std::string &why) {
    if (n < 8) { why = "no bucket count"; return false; }
    uint64_t nb = rd32(p) | (uint64_t)rd32(p + 4) << 32;
    size_t pos = 8;
    int64_t prev = -1;
    for (uint64_t i = 0; i < nb; i++) {
        if (n - pos < 4) { why = "short bucket key"; return false; }
        uint32_t hi = rd32(p + pos);
        pos += 4;
        if ((int64_t)hi <= prev) { why = "bucket keys not increasing"; return false; }
        prev = hi;
        size_t used = 0;
        Set sub;
        if (!decode_portable32(p + pos, n - pos, sub, why, &used, (uint64_t)hi << 16)) return false;
        if (sub.c.empty()) { why = "empty bucket"; return false; }
        for (auto &e : sub.c) out.c.emplace(e);
        pos += used;
    }
    if (pos != n) { why = "bytes left over"; return false; }
    return true;
}
std::vector<uint8_t> encode_portable64(const Set &s, Rng &r) {
    std::vector<uint8_t> o;
    std::map<uint32_t, Set> b;
    for (auto &e : s.c) b[(uint32_t)(e.first >> 16)].c.emplace(e.first & 0xffff, e.second);
    w64(o, b.size());
    for (auto &e : b) {
        w32(o, e.first);
        auto v = encode_portable32(e.second, r);
        o.insert(o.end(), v.begin(), v.end());
    }
    return o;
}
// Layout documented in roaring.h: bitset data, run data, array data, keys, counts, typecodes, header
bool decode_frozen32(const uint8_t *p, size_t n, Set &out, std::string &why) {
    if (n < 4) { why = "no header"; return false; }
    uint32_t h = rd32(p + n - 4);
    if ((h & 0x7fff) != 13766) { why = "bad frozen cookie"; return false; }
    uint32_t nc = h >> 15;
    if (n < 4 + 5 * (size_t)nc) { why = "short tables"; return false; }
    const uint8_t *types = p + n - 4 - nc, *counts = types - 2 * nc, *keys = counts - 2 * nc;
    size_t nbs = 0, nrun = 0, narr = 0;
    for (uint32_t i = 0; i < nc; i++) {
        unsigned c = rd16(counts + 2 * i);
        if (types[i] == 1) nbs += 8192;
        else if (types[i] == 3) nrun += 4 * (size_t)c;
        else if (types[i] == 2) narr += 2 * ((size_t)c + 1);
        else { why = "bad typecode"; return false; }
    }
    if (nbs + nrun + narr + 5 * (size_t)nc + 4 != n) { why = "zones do not add up to the length"; return false; }
    const uint8_t *bp = p, *rp = p + nbs, *ap = rp + nrun;
    int prev = -1;
    std::shared_ptr<Chunk> before;
    for (uint32_t i = 0; i < nc; i++) {
        int key = rd16(keys + 2 * i);
        if (key <= prev) { why = "keys not increasing"; return false; }
        prev = key;
        unsigned cnt = rd16(counts + 2 * i);
        auto c = std::make_shared<Chunk>();
        if (types[i] == 1) {
            memcpy(c->w, bp, 8192);
            bp += 8192;
            c->recount();
            if (c->n != (int)cnt + 1) { why = "bitset cardinality"; return false; }
        } else if (types[i] == 3) {
            int last = -2;
            for (unsigned j = 0; j < cnt; j++, rp += 4) {
                unsigned s = rd16(rp), l = rd16(rp + 2);
                if ((int)s <= last + (j ? 1 : 0) || s + l > 65535) { why = "runs unordered"; return false; }
                last = (int)(s + l);
                for (int v = (int)s; v <= last; v++) c->w[v >> 6] |= 1ULL << (v & 63);
            }
            c->recount();
        } else {
            int last = -1;
            for (unsigned j = 0; j <= cnt; j++, ap += 2) {
                int v = rd16(ap);
                if (v <= last) { why = "array unordered"; return false; }
                last = v;
                c->w[v >> 6] |= 1ULL << (v & 63);
            }
            c->recount();
        }
        if (!c->n) { why = "empty container"; return false; }
        if (before && before->n == c->n && !memcmp(before->w, c->w, 8192)) c = before;
        before = c;
        out.c[(uint64_t)key] = c;
    }
    return true;
}

std::vector<Stored> stored_sizes32(const uint8_t *p, size_t n, size_t *used, uint64_t high) {
    std::vector<Stored> o;
    Set s;
    std::string why;
    size_t len = 0;
    if (!decode_portable32(p, n, s, why, &len)) viol("image-decode", "the stored form is not readable by an independent decoder: %s", why.c_str());
    uint32_t cookie = rd32(p), size;
    const uint8_t *flags = nullptr;
    size_t pos = 8;
    if ((cookie & 0xffff) == 12347) {
        size = (cookie >> 16) + 1;
        flags = p + 4;
        pos = 4 + (size + 7) / 8;
    } else {
        size = rd32(p + 4);
    }
    const uint8_t *kt = p + pos;
    pos += 4 * (size_t)size;
    if (!flags || size >= 4) pos += 4 * (size_t)size;
    for (uint32_t i = 0; i < size; i++) {
        Stored x;
        x.key = high | rd16(kt + 4 * i);
        uint32_t card = rd16(kt + 4 * i + 2) + 1u;
        if (flags && flags[i / 8] >> (i & 7) & 1) x.type = 3, x.bytes = 2 + 4 * rd16(p + pos);
        else if (card <= 4096) x.type = 2, x.bytes = 2 * card;
        else x.type = 1, x.bytes = 8192;
        pos += x.bytes;
        o.push_back(x);
    }
    if (used) *used = len;
    return o;
}
std::vector<Stored> stored_sizes64(const uint8_t *p, size_t n) {
    std::vector<Stored> o;
    uint64_t nb = rd32(p) | (uint64_t)rd32(p + 4) << 32;
    size_t pos = 8;
    for (uint64_t i = 0; i < nb && pos + 4 <= n; i++) {
        uint64_t hi = rd32(p + pos);
        size_t used = 0;
        auto v = stored_sizes32(p + pos + 4, n - pos - 4, &used, hi << 16);
        o.insert(o.end(), v.begin(), v.end());
        pos += 4 + used;
    }
    return o;
}
void space_optimized(const std::vector<Stored> &before, const std::vector<Stored> &after, const Set &m) {
    if (before.size() != after.size() || after.size() != m.c.size()) viol("space:containers", "run optimisation changed the number of containers from %zu to %zu, the set has %zu", before.size(), after.size(), m.c.size());
    size_t i = 0;
    for (auto &e : m.c) {
        const Stored &b = before[i], &a = after[i];
        std::vector<std::pair<unsigned, unsigned>> r;
        runs_of(*e.second, r);
        uint32_t run = 2 + 4 * (uint32_t)r.size(), plain = e.second->n <= 4096 ? 2 * (uint32_t)e.second->n : 8192, best = std::min(run, plain);
        if (a.bytes > b.bytes) viol("space:grew", "run optimisation turned a container of %u bytes (type %d) into one of %u (type %d)", b.bytes, b.type, a.bytes, a.type);
        if (a.bytes > best + 2) viol("space:optimum", "after run optimisation a container of %d values in %zu runs takes %u bytes (type %d), %u would do", e.second->n, r.size(), a.bytes, a.type, best);
        i++;
    }
}
void space_unrun(const std::vector<Stored> &after, const Set &m) {
    size_t i = 0;
    for (auto &e : m.c) {
        if (i >= after.size()) break;
        if (after[i].type == 3) viol("space:run-left", "a run container is left after removing run compression");
        uint32_t plain = e.second->n <= 4096 ? 2 * (uint32_t)e.second->n : 8192;
        if (after[i].bytes != plain) viol("space:plain", "after removing run compression a container of %d values takes %u bytes", e.second->n, after[i].bytes);
        i++;
    }
}

std::string captured(const std::function<void()> &f, bool full) {
    fflush(stdout);
    int save = dup(1), fd = full ? open("/dev/full", O_WRONLY) : memfd_create("out", 0);
    if (fd < 0) {
        char name[] = "/tmp/captureXXXXXX";
        fd = mkstemp(name);
        unlink(name);
        if (fd < 0) abort();
    }
    dup2(fd, 1);
    f();
    fflush(stdout);
    clearerr(stdout);
    dup2(save, 1);
    close(save);
    std::string out;
    if (!full) {
        char b[4096];
        ssize_t n;
        lseek(fd, 0, SEEK_SET);
        while ((n = read(fd, b, sizeof b)) > 0) out.append(b, (size_t)n);
    }
    close(fd);
    return out;
}
std::vector<uint64_t> numbers_in(const std::string &t) {
    std::vector<uint64_t> v;
    for (size_t i = 0; i < t.size();) {
        if (t[i] < '0' || t[i] > '9') { i++; continue; }
        uint64_t x = 0;
        while (i < t.size() && t[i] >= '0' && t[i] <= '9') x = x * 10 + (uint64_t)(t[i++] - '0');
        v.push_back(x);
    }
    return v;
}
