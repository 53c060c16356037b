// A small stateless explicit-choice model checker.
//
// A suite body runs one execution from the start.  Every point at which the environment or the driver may
// behave in more than one way calls choose(n); the explorer runs the body once for every sequence of answers
// (depth-first, exhaustively).  start() marks the point below which a subtree is explored by one worker only.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>

namespace mc {

int choose(int n);                       // an answer 0..n-1; all of them are explored
template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
inline int range(int lo, int hi) { return lo + choose(hi - lo + 1); }   // inclusive
void start();                            // must be called exactly once per execution
bool started();
inline void start_once() { if (!started()) start(); }
[[noreturn]] void skip();                // this combination is outside the property's domain: not an execution
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void deviation(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // fail(), but returns when the failure is a recorded finding
void describe(const std::function<std::string()>& f);  // evaluated only for samples and replays
void outcome(uint64_t h);                // an observed outcome / abstract state; counted when new
void evals(uint64_t n);                  // further input-output comparisons made inside this execution
void paths(uint64_t n);                 // schedules explored inside this execution
bool thorough();
bool tier_thorough();                    // before run(): from VERIF_TIER
unsigned seed();
bool replaying();

struct Suite { const char* name; void (*body)(); const char* rule; double hang = 0; bool may_be_empty = false; };   // hang: seconds one execution may take (default 25)
struct Check {
  const char* property;
  const char* level;
  std::vector<Suite> suites;
  std::vector<std::string> assumptions;
};
int run(int argc, char** argv, const Check& c);
extern std::vector<Suite>* collect;       // when set, run() only appends its suites here

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
}
