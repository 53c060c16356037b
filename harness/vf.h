// The environment of the library under test: memory, random numbers and time.  The library's objects have
// their references to malloc/free/..., rand/srand/... and time redirected here when they are linked.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace vf {
enum Fill { FILL_A5, FILL_ZERO, FILL_FF, FILL_COUNTER };
extern int fill_mode;        // what fresh memory holds
extern bool recycle;         // hand the most recently released block of the same size out again at once
extern long fail_at;         // -1 none; the fail_at-th request (0-based, since begin()) is refused
extern bool fail_persistent; // ... and every later one
extern long requests;        // requests since begin()
extern long releases;
extern size_t max_block;     // requests above this are refused (default 1 GiB)
extern size_t budget;        // bytes that may be held at once
extern size_t peak;          // most bytes held at once
extern bool direct_alloc_is_error, direct_free_is_error;   // C20: a request that reaches malloc or free while another function is installed

extern void* (*raw_get)(size_t);     // where the blocks come from
extern void (*raw_put)(void*);
void begin();                // forget counters, no faults
void reset();                // release whatever is still held (leftovers of a failing or rejected call)
size_t live();               // blocks held
size_t bytes();              // bytes held
std::string dump();          // the blocks held
bool owns(const void* p, size_t* size = nullptr);
void* take(size_t n);        // the tracked allocation function itself
void give(void* p);

// environment
extern std::function<int()> rand_hook;   // answers of rand(); default: a fixed generator seeded by srand
extern long rand_calls, srand_calls;
extern unsigned last_seed;
extern long now;             // answer of time()
void reset_env();
}

extern "C" {
void* vf_malloc(size_t n);
void* vf_calloc(size_t n, size_t m);
void* vf_realloc(void* p, size_t n);
void vf_free(void* p);
}
