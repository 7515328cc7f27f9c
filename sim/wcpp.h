#pragma once
#include "world.h"
#include <roaring.hh>
#include <roaring64map.hh>
// The C++ classes: objects of both kinds, their iterators and images
template <class B>
struct SlotC {
    std::unique_ptr<B> b;
    Set m;
    BufP back;  // bytes under a view: only const members may be used
    std::shared_ptr<void> ctx;
};
typedef SlotC<roaring::Roaring> SlotR;
typedef SlotC<roaring::Roaring64Map> SlotM;
struct WCpp : World {
    std::vector<SlotR> r;
    std::vector<SlotM> s;
    std::vector<uint64_t> keys, keys64v;
    bool cow = false;
    uint64_t stepno = 0;
    std::vector<int> tr, ts;
    void start(const Plan &p);
    void step(const Step &st);
    void finish();
    ~WCpp() {}
};
