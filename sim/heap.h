// The simulated allocator and CPU: everything the library asks of its environment.
#pragma once
#include <cstddef>
#include <cstdint>

namespace heap {
enum Kind { PLAIN = 0, ALIGNED = 1 };
void install();                 // install the hooks in the library (once per process)
void begin_run(uint64_t fill_seed);
void set_fill(uint64_t fill_seed);
void set_isa(int mask);         // 0 scalar, 1 AVX2, 3 AVX2+AVX512
int isa();
// Fault plan for the operation under way: n>0 the n-th request, n<0 all from the n-th on
void arm(int32_t fault);
void on_refuse(void (*f)(uint64_t, size_t));  // called at the first refusal: number and size of the request
uint64_t disarm();              // number of requests refused since arm()
uint64_t refused();             // so far under the current arm()
uint64_t requests();            // requests since arm()
uint64_t live();                // blocks outstanding
uint64_t live_bytes();
uint64_t mark();                // sequence number; live_since counts blocks obtained after it
uint64_t live_since(uint64_t m);
void free_all();                // drop everything outstanding (between runs)
bool owns(const void *p);       // p is the start of a live block
// First custody violation of the run, or nullptr
const char *custody();
uint64_t total_requests();
// true while the harness itself uses libc
}  // namespace heap
