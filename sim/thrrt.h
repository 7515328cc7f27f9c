// The thread simulator's runtime: fibers, schedule, memory, and the happens-before oracle.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

#include "common.h"

namespace rt {
enum { MAXT = 5 };  // task 0 is the main program
// Simulates fn[1..n-1] as threads of task 0 until all have ended. Throws Viol.
void run(int n, const std::function<void(int)> *fn, const Plan &p);
void begin();                    // a new run: fresh memory, library globals as at process start
void library_as_loaded();        // library globals as at process start (first call comes again)
void note(int task, const char *op, int step);  // what a task does now
void step_boundary();            // a point between two client operations
int current();
// messages: release by the sender, acquire by the receiver
struct Clock { uint32_t v[MAXT]; };
void release_to(Clock &c);
void acquire_from(const Clock &c);
void seal_inputs(bool on);       // everything allocated so far may only be read (by any kind of access)
uint64_t blocks_live();
bool exhausted();                // the run used more memory than the simulator gives it
}  // namespace rt
