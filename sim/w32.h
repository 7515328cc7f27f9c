#pragma once
#include "world.h"
#include <roaring/roaring.h>
using namespace roaring;
using namespace roaring::api;
struct Img {
    std::string fmt;
    std::vector<uint8_t> b;
    Set m;
    bool used = false;
};
struct Slot32 {
    roaring_bitmap_t *b = nullptr;
    Set m;
    bool lazy = false;      // lazy operation pending repair
    bool view = false;      // read-only view over `back`
    bool borrowed = false;  // belongs to somebody else: may only be queried
    BufP back;
    uint64_t ver = 0;       // bumped by each modification
    roaring_bulk_context_t ctx;
    int64_t last_bulk = -1;
};
struct Cur32 {
    roaring_uint32_iterator_t *it = nullptr;
    int slot = -1;
    uint64_t ver = 0;
    // model position: index among {before first = -1, element, past last}
    int state = 0;          // 0 at element v, 1 past the end, 2 before the start, 3 unusable
    uint64_t v = 0;
};
struct W32 : World {
    int N = 4;
    bool cow = false, huge = false;
    int heavy = 0;
    std::vector<Slot32> s;
    std::vector<Cur32> cur;
    std::vector<Img> disk;
    std::vector<uint64_t> keys;
    uint64_t stepno = 0;
    std::vector<int> touched;
    Trail trail;

    void start(const Plan &p);
    void step(const Step &st);
    void finish();
    void clear_all(bool orderly);
    ~W32();
    // helpers
    Slot32 &S(int64_t a) { return s[(uint64_t)a % s.size()]; }
    int idx(int64_t a) { return (int)((uint64_t)a % s.size()); }
    uint64_t val(uint64_t r, const Slot32 &q);
    uint64_t val0(uint64_t r, const Slot32 &q);
    void range(uint64_t r1, uint64_t r2, const Slot32 &q, uint64_t &lo, uint64_t &hi);  // inclusive
    void drop(int i);       // let go of the slot's bitmap
    void aim(int x, int y, int op, const int64_t *a);
    void aim_range(const Set &m, int op, const int64_t *a, uint64_t &lo, uint64_t &hi);
    void mut(int i);        // slot i is about to change
    void ready(int i);      // repair if lazy
    void writable(int i);   // repair, and replace views by a copy
    void put(int i, roaring_bitmap_t *b, const Set &m, bool keep_cow = true);
    void check_slot(int i, unsigned chan);
    void check_all(bool full);
    void valid(int i);
    void probe(int i);
    void image_check(int i);
    std::vector<Stored> stored(int i);
    bool small(int i, uint64_t lim = 1 << 22) { return s[i].m.card() <= lim; }
    std::vector<uint8_t> store(int i, int fmt);
    roaring_bitmap_t *load(const Img &im, unsigned how, BufP &keep, bool &view);
    void observe(int i);
    void cursor_op(const Step &st);
    void cursor_check(Cur32 &c, const char *what);
    void fault_op(const Step &st);
    void damage_op(const Step &st);
    void torn_op(const Step &st);
    void wide(int d, const int64_t *a);
    void churn_op(const Step &st);
};
extern const char *ops32_names[];
