#pragma once
#include "world.h"
#include <roaring/roaring.h>
#include <roaring/roaring64.h>
using namespace roaring;
using namespace roaring::api;
struct Img64 {
    bool frozen = false;
    std::vector<uint8_t> b;
    Set m;
    bool used = false;
};
struct Slot64 {
    roaring64_bitmap_t *b = nullptr;
    Set m;
    bool view = false;
    bool borrowed = false;  // belongs to somebody else: may only be queried
    BufP back;
    uint64_t ver = 0;
    roaring64_bulk_context_t ctx;
    int64_t last_bulk = -1;
    bool bulk_used = false;
};
struct Cur64 {
    roaring64_iterator_t *it = nullptr;
    int slot = -1;
    uint64_t ver = 0;
    int state = 0;  // 0 at v, 1 past the end, 2 before the start, 3 unusable
    uint64_t v = 0;
};
struct W64 : World {
    std::vector<Slot64> s;
    std::vector<Cur64> cur;
    std::vector<Img64> disk;
    std::vector<uint64_t> keys;
    uint64_t stepno = 0;
    std::vector<int> touched;
    Trail trail;
    void start(const Plan &p);
    void step(const Step &st);
    void finish();
    ~W64();
    int idx(int64_t a) { return (int)((uint64_t)a % s.size()); }
    uint64_t val(uint64_t r, const Slot64 &q);
    uint64_t val0(uint64_t r, const Slot64 &q);
    void range(uint64_t r1, uint64_t r2, const Slot64 &q, uint64_t &lo, uint64_t &hi, bool wide);
    void drop(int i);
    void crowd(int i, uint64_t seed);
    void aim(int x, int y, int op, const int64_t *a);
    void aim_range(const Set &m, int op, const int64_t *a, uint64_t &lo, uint64_t &hi);
    void mut(int i);
    void writable(int i);
    void put(int i, roaring64_bitmap_t *b, const Set &m);
    void check_slot(int i, unsigned chan);
    void check_all(bool full);
    void valid(int i);
    void probe(int i);
    void image_check(int i);
    std::vector<Stored> stored(int i);
    std::vector<uint8_t> store(int i, bool frozen);
    roaring64_bitmap_t *load(const Img64 &im, BufP &keep, bool &view);
    void set_loaded(int i, const Img64 &im);
    void cursor_op(const Step &st);
    void cursor_check(Cur64 &c, const char *what);
    void fault_op(const Step &st);
    void damage_op(const Step &st);
    void torn_op(const Step &st);
    void churn_op(const Step &st);
};
