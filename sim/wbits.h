#pragma once
#include "world.h"
#include <roaring/roaring.h>
using namespace roaring;
using namespace roaring::api;
// Plain bitsets
struct SlotB {
    bitset_t *b = nullptr;
    Set m;
};
struct WBits : World {
    std::vector<SlotB> s;
    uint64_t stepno = 0;
    void start(const Plan &p);
    void step(const Step &st);
    void finish();
    ~WBits();
    int idx(int64_t a) { return (int)((uint64_t)a % s.size()); }
    uint64_t pos(uint64_t r, const SlotB &q);
    void put(int i, bitset_t *b, const Set &m);
    void check_slot(int i);
};
