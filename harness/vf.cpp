#include "vf.h"
#include "mc.h"
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

namespace vf {
int fill_mode = FILL_A5;
bool recycle = false;
long fail_at = -1, requests = 0, releases = 0;
bool fail_persistent = false, direct_alloc_is_error = false, direct_free_is_error = false;
size_t max_block = (size_t)1 << 30, budget = SIZE_MAX, peak = 0;
static size_t g_bytes = 0;
void* (*raw_get)(size_t) = malloc;
void (*raw_put)(void*) = free;
std::function<int()> rand_hook;
long rand_calls = 0, srand_calls = 0;
unsigned last_seed = 1;
long now = 1000000;

namespace {
struct Blk { void* p; size_t n; long seq; bool recycled; };
std::vector<Blk> g_live;
std::map<size_t, std::vector<void*>> g_free;   // recycle mode
long g_seq = 0;
uint64_t g_rng = 1;

int find(const void* p) {
  for (int i = (int)g_live.size() - 1; i >= 0; i--) if (g_live[i].p == p) return i;
  return -1;
}
void fill(void* p, size_t n) {
  switch (fill_mode) {
    case FILL_ZERO: memset(p, 0, n); break;
    case FILL_FF: memset(p, 0xFF, n); break;
    case FILL_COUNTER: { unsigned char* c = (unsigned char*)p; for (size_t i = 0; i < n; i++) c[i] = (unsigned char)(i * 7 + g_seq * 13 + 1); break; }
    default: memset(p, 0xA5, n);
  }
}
}

void* take(size_t n) {
  long k = requests++;
  g_seq++;
  if (fail_at >= 0 && (k == fail_at || (fail_persistent && k > fail_at))) return nullptr;
  if (n > max_block || g_bytes + n > budget) return nullptr;
  void* p = nullptr; bool rec = false;
  if (recycle) {
    rec = true;
    auto& v = g_free[n];
    if (!v.empty()) { p = v.back(); v.pop_back(); }
  }
  if (!p) p = raw_get(n);
  if (!p) return nullptr;
  fill(p, n);
  g_live.push_back({p, n, k, rec});
  g_bytes += n; if (g_bytes > peak) peak = g_bytes;
  return p;
}

void give(void* p) {
  if (!p) return;
  int i = find(p);
  if (i < 0) mc::fail("memory was released that is not held (released twice, or never obtained from the allocator)");
  releases++;
  Blk b = g_live[i]; g_bytes -= b.n;
  g_live[i] = g_live.back(); g_live.pop_back();
  if (b.recycled) { memset(p, 0xDD, b.n); g_free[b.n].push_back(p); }
  else raw_put(p);
}

void begin() { fail_at = -1; fail_persistent = false; requests = 0; releases = 0; direct_alloc_is_error = direct_free_is_error = false; budget = SIZE_MAX; }
void reset() {
  for (auto& b : g_live) if (b.recycled) g_free[b.n].push_back(b.p); else raw_put(b.p);
  g_live.clear(); g_bytes = 0;
  begin();
}
size_t bytes() { return g_bytes; }
size_t live() { return g_live.size(); }
bool owns(const void* p, size_t* size) { int i = find(p); if (i >= 0 && size) *size = g_live[i].n; return i >= 0; }
std::string dump() {
  std::string s;
  for (auto& b : g_live) { s += mc::fmt(" [request %ld: %zu bytes]", b.seq, b.n); if (s.size() > 400) break; }
  return s;
}
void reset_env() { rand_hook = nullptr; rand_calls = srand_calls = 0; last_seed = 1; now = 1000000; g_rng = 1; }
}  // namespace vf

using namespace vf;
static void direct(const char* what) {
  if (*what == 'f' ? direct_free_is_error : direct_alloc_is_error) mc::fail("the library called %s itself while another allocator pair is installed", what);
}
extern "C" {
void* vf_malloc(size_t n) { direct("malloc"); return take(n); }
void* vf_calloc(size_t n, size_t m) {
  direct("calloc");
  if (m && n > SIZE_MAX / m) return nullptr;
  void* p = take(n * m); if (p) memset(p, 0, n * m); return p;
}
void* vf_realloc(void* p, size_t n) {
  direct("realloc");
  if (!p) return take(n);
  size_t old = 0;
  if (!owns(p, &old)) mc::fail("realloc of memory that is not held");
  void* q = take(n); if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n); give(p); return q;
}
void vf_free(void* p) { if (p) direct("free"); give(p); }
void* vf_aligned_alloc(size_t, size_t n) { direct("aligned_alloc"); return take(n); }
int vf_posix_memalign(void** p, size_t, size_t n) { direct("posix_memalign"); *p = take(n); return *p ? 0 : 12; }
void* vf_memalign(size_t, size_t n) { direct("memalign"); return take(n); }
void* vf_valloc(size_t n) { direct("valloc"); return take(n); }
void* vf_reallocarray(void* p, size_t n, size_t m) { if (m && n > SIZE_MAX / m) return nullptr; return vf_realloc(p, n * m); }
void* vf_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) { direct("mmap"); return mmap(a, n, pr, fl, fd, o); }
void* vf_sbrk(intptr_t n) { if (n) direct("sbrk"); return sbrk(n); }
char* vf_strndup(const char* s, size_t m) { direct("strndup"); size_t n = strnlen(s, m); char* p = (char*)take(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char* vf_strdup(const char* s) { direct("strdup"); size_t n = strlen(s) + 1; char* p = (char*)take(n); if (p) memcpy(p, s, n); return p; }

int vf_rand(void) {
  rand_calls++;
  if (rand_hook) return rand_hook();
  g_rng = g_rng * 6364136223846793005ull + 1442695040888963407ull;
  return (int)((g_rng >> 33) & 0x7fffffff);
}
long vf_random(void) { return vf_rand(); }
int vf_rand_r(unsigned* s) { (void)s; return vf_rand(); }
void vf_srand(unsigned s) { srand_calls++; last_seed = s; g_rng = s * 0x9E3779B97F4A7C15ull + 12345; for (int i = 0; i < 3; i++) g_rng = g_rng * 6364136223846793005ull + 1442695040888963407ull; }
void vf_srandom(unsigned s) { vf_srand(s); }
time_t vf_time(time_t* t) { if (t) *t = now; return now; }
}
