// Concurrent calls on independent or shared read-only tensors do not interfere.
//
// The library is compiled with clang's ThreadSanitizer instrumentation, and this file is the runtime it calls: every
// load, store, atomic operation and lock of the library arrives here.  Threads are real, but only the one holding
// the baton runs.  A scheduling point is any access to memory that another thread also accesses, at least one of
// them writing (accesses of every explored schedule count; the set is grown until it is stable), any atomic
// operation and any lock operation.  At every point all choices of the thread to go on are explored, up to a number
// of preemptions.  Where no thread touches what another writes, all interleavings are equivalent to the one executed.
// Judged: status and result of every call against the same call made alone, shared inputs unchanged, no deadlock.
#include "spaces.h"
#include <map>
#include <memory>
#include <pthread.h>
#include <unistd.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unordered_map>
#include <unordered_set>

extern "C" char __start_libdata[], __stop_libdata[];
static std::vector<char> g_pristine;

// ---- memory: one deterministic arena per thread -------------------------------------------------------------
struct Arena { char* base; size_t used; std::map<size_t, std::vector<void*>> freed; };
static Arena g_arena[4];
static const size_t kArena = (size_t)1 << 30;

// ---- threads ---------------------------------------------------------------------------------------------------
struct Acc { unsigned char r, w; };
struct Thr {
  int id; pthread_t th; sem_t go; bool done, on; const void* blocked; uintptr_t lo, hi;
  std::unordered_map<uintptr_t, Acc> acc;      // by 8-byte granule
  std::function<void()> body; long spins;
};
static Thr g_thr[3]; static int g_n;
static thread_local Thr* me;
static sem_t g_main;
static std::unordered_map<uintptr_t, unsigned char> g_conf;    // granule -> bytes in conflict
struct Step { int v, n; };
static std::vector<Step> g_path; static size_t g_at; static int g_left; static long g_points, g_limit, g_all;
static std::string g_sched; static uint64_t g_schedules, g_switches;
static std::string g_what;

static int pick_sched(int n) {
  if (g_at < g_path.size()) {
    if (g_path[g_at].n != n) { fprintf(stderr, "c21: schedule diverged\n"); _exit(79); }
    return g_path[g_at++].v;
  }
  g_path.push_back({0, n}); g_at++;
  return 0;
}
static bool runnable(Thr& t) { return !t.done && !t.blocked; }
static void hand(Thr* to) { if (to != me) { Thr* self = me; sem_post(&to->go); while (sem_wait(&self->go)) {} } }
// another thread has to go on: the current one is blocked, spinning or done
static Thr* next_other(bool forced) {
  Thr* c[3]; int n = 0;
  for (int i = 0; i < g_n; i++) if (&g_thr[i] != me && runnable(g_thr[i])) c[n++] = &g_thr[i];
  if (!n) return nullptr;
  return c[n > 1 ? pick_sched(n) : 0];
}
static void point(const char* what) {
  if (!me || !me->on) return;
  g_all++;
  if (g_left <= 0 || g_points >= g_limit) return;
  Thr* c[3]; int n = 0;
  for (int i = 0; i < g_n; i++) if (&g_thr[i] != me && runnable(g_thr[i])) c[n++] = &g_thr[i];
  if (!n) return;
  g_points++;
  int k = pick_sched(n + 1);
  if (!k) return;
  g_left--; g_switches++;
  if (g_sched.size() < 600) g_sched += mc::fmt(" [thread %d stopped before point %ld (%s), thread %d goes on]", me->id + 1, g_all, what, c[k - 1]->id + 1);
  hand(c[k - 1]);
}
static void forced(const void* on) {
  Thr* self = me; self->blocked = on;
  Thr* t = next_other(true);
  if (!t) mc::fail("%s: the threads wait for each other for ever:%s", g_what.c_str(), g_sched.c_str());
  hand(t);
}
static void spin() { if (me && me->on && ++me->spins % 200 == 0) { Thr* t = next_other(true); if (t) hand(t); } }

static inline void touch(uintptr_t a, size_t n, bool w) {
  Thr* t = me;
  if (!t || !t->on || !n) return;
  if (a >= t->lo && a < t->hi) return;
  bool hit = false;
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
    uintptr_t lo = g << 3; unsigned char m = 0xff;
    if (a > lo) m &= (unsigned char)(0xff << (a - lo));
    if (a + n < lo + 8) m &= (unsigned char)(0xff >> (lo + 8 - a - n));
    Acc& x = t->acc[g];
    if (w) x.w |= m; else x.r |= m;
    if (!hit && !g_conf.empty()) { auto it = g_conf.find(g); if (it != g_conf.end() && (it->second & m)) hit = true; }
  }
  if (hit) point(w ? "a write" : "a read");
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { touch((uintptr_t)p, n, false); } void __tsan_write##n(void* p) { touch((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { touch((uintptr_t)p, n, false); } void __tsan_unaligned_write##n(void* p) { touch((uintptr_t)p, n, true); } \
  void __tsan_read_write##n(void* p) { touch((uintptr_t)p, n, true); } void __tsan_unaligned_read_write##n(void* p) { touch((uintptr_t)p, n, true); } \
  void __tsan_volatile_read##n(void* p) { touch((uintptr_t)p, n, false); } void __tsan_volatile_write##n(void* p) { touch((uintptr_t)p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { touch((uintptr_t)p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { touch((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { touch((uintptr_t)p, n, false); }
void __tsan_write_range(void* p, size_t n) { touch((uintptr_t)p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { touch((uintptr_t)s, n, false); touch((uintptr_t)d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { touch((uintptr_t)s, n, false); touch((uintptr_t)d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { touch((uintptr_t)d, n, true); return memset(d, c, n); }
void __tsan_vptr_update(void** p, void*) { touch((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void** p) { touch((uintptr_t)p, 8, false); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* p, int) { touch((uintptr_t)p, sizeof(T), false); spin(); return *p; } \
  void __tsan_atomic##b##_store(volatile T* p, T v, int) { touch((uintptr_t)p, sizeof(T), true); *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { touch((uintptr_t)p, sizeof(T), true); spin(); T o = *p; *p = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { touch((uintptr_t)p, sizeof(T), true); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { touch((uintptr_t)p, sizeof(T), true); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { touch((uintptr_t)p, sizeof(T), true); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { touch((uintptr_t)p, sizeof(T), true); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { touch((uintptr_t)p, sizeof(T), true); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { touch((uintptr_t)p, sizeof(T), true); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { touch((uintptr_t)p, sizeof(T), true); spin(); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int a, int d) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, a, d); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T c, T v, int, int) { touch((uintptr_t)p, sizeof(T), true); spin(); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// locks
struct Lock { int owner; int readers; };
static std::unordered_map<const void*, Lock> g_locks;
static void wake(const void* m) { for (int i = 0; i < g_n; i++) if (g_thr[i].blocked == m) g_thr[i].blocked = nullptr; }
static int lock(const void* m, bool wait, bool shared) {
  if (!me || !me->on) return 0;
  point("taking a lock");
  for (;;) {
    auto it = g_locks.find(m);
    if (it == g_locks.end() || (shared && it->second.owner < 0)) { Lock& l = g_locks[m]; if (it == g_locks.end()) l = {-1, 0}; if (shared) l.readers++; else l.owner = me->id; return 0; }
    if (!wait) return 16;
    forced(m);
  }
}
static int unlock(const void* m) {
  if (!me || !me->on) return 0;
  auto it = g_locks.find(m);
  if (it != g_locks.end()) { if (it->second.owner >= 0 || --it->second.readers <= 0) g_locks.erase(it); }
  wake(m); point("after releasing a lock");
  return 0;
}
int mt_pthread_mutex_lock(pthread_mutex_t* m) { return lock(m, true, false); }
int mt_pthread_mutex_trylock(pthread_mutex_t* m) { return lock(m, false, false); }
int mt_pthread_mutex_unlock(pthread_mutex_t* m) { return unlock(m); }
int mt_pthread_spin_lock(void* m) { return lock(m, true, false); }
int mt_pthread_spin_trylock(void* m) { return lock(m, false, false); }
int mt_pthread_spin_unlock(void* m) { return unlock(m); }
int mt_pthread_rwlock_rdlock(void* m) { return lock(m, true, true); }
int mt_pthread_rwlock_wrlock(void* m) { return lock(m, true, false); }
int mt_pthread_rwlock_unlock(void* m) { return unlock(m); }
int mt_mtx_lock(void* m) { return lock(m, true, false); }
int mt_mtx_trylock(void* m) { return lock(m, false, false) ? 1 : 0; }
int mt_mtx_unlock(void* m) { return unlock(m); }
static std::unordered_map<const void*, int> g_once;
static int once(const void* o, void (*f)(void)) {
  if (g_once[o] == 2) return 0;
  lock(o, true, false);
  if (g_once[o] != 2) { f(); g_once[o] = 2; }
  unlock(o);
  return 0;
}
int mt_pthread_once(void* o, void (*f)(void)) { return once(o, f); }
void mt_call_once(void* o, void (*f)(void)) { once(o, f); }
static int yield_() { if (me && me->on) { Thr* t = next_other(true); if (t) hand(t); } return 0; }
int mt_sched_yield() { return yield_(); }
int mt_pthread_yield() { return yield_(); }
void mt_thrd_yield() { yield_(); }
int mt_usleep(unsigned) { return yield_(); }
int mt_nanosleep(const void*, void*) { return yield_(); }
static char g_strtok_state[8];
char* mt_strtok(char* s, const char* d) { touch((uintptr_t)g_strtok_state, 8, true); return strtok(s, d); }
}

static void* arena_get(size_t n) {
  Arena& a = g_arena[me ? me->id + 1 : 0];
  n = (n + 15) / 16 * 16 + 16;
  auto& f = a.freed[n];
  if (!f.empty()) { void* p = f.back(); f.pop_back(); return p; }
  if (a.used + n > kArena) return nullptr;
  void* p = a.base + a.used; a.used += n;
  *(size_t*)p = n;
  return (char*)p + 16;
}
static void arena_put(void* q) {
  char* p = (char*)q; size_t n = *(size_t*)(p - 16);
  memset(p, 0xDD, n - 16 < 4096 ? n - 16 : 4096);
  for (auto& a : g_arena) if (p >= a.base && p < a.base + kArena) { a.freed[n].push_back(q); return; }
}

static void* main_of(void* x) {
  Thr* t = (Thr*)x; me = t;
  pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* b; size_t n; pthread_attr_getstack(&at, &b, &n); pthread_attr_destroy(&at);
  t->lo = (uintptr_t)b; t->hi = t->lo + n;
  while (sem_wait(&t->go)) {}
  t->on = true;
  t->body();
  t->on = false; t->done = true;
  Thr* nx = next_other(true);
  if (nx) sem_post(&nx->go);
  else {
    for (int i = 0; i < g_n; i++) if (!g_thr[i].done) mc::fail("%s: a thread waits for ever for a lock that is not released:%s", g_what.c_str(), g_sched.c_str());
    sem_post(&g_main);
  }
  return nullptr;
}

static void prepare() {
  if (!g_pristine.empty()) return;
  g_pristine.assign(__start_libdata, __stop_libdata);
  for (auto& a : g_arena) { a.base = (char*)mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (a.base == MAP_FAILED) { perror("mmap"); _exit(79); } a.used = 0; }
  vf::raw_get = arena_get; vf::raw_put = arena_put;
  sem_init(&g_main, 0, 0);
  for (auto& t : g_thr) sem_init(&t.go, 0, 0);
}
static void pristine() {
  vf::reset(); vf::reset_env(); vf::rand_hook = [] { return 0; };
  for (auto& a : g_arena) { a.used = 0; a.freed.clear(); }
  memcpy(__start_libdata, g_pristine.data(), g_pristine.size());
  g_locks.clear(); g_once.clear();
}

// One schedule: setup in this thread, then the bodies, one thread each.  True when the set of conflicts grew.
static bool run_schedule(const std::vector<std::function<void()>>& bodies, int bound) {
  g_n = (int)bodies.size(); g_at = 0; g_left = bound; g_points = 0; g_all = 0; g_sched.clear(); g_schedules++;
  for (int i = 0; i < g_n; i++) {
    Thr& t = g_thr[i]; t.id = i; t.done = t.on = false; t.blocked = nullptr; t.spins = 0; t.acc.clear(); t.body = bodies[i];
    while (sem_trywait(&t.go) == 0) {}
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  for (int i = 0; i < g_n; i++) if (pthread_create(&g_thr[i].th, &at, main_of, &g_thr[i])) { perror("pthread_create"); _exit(79); }
  pthread_attr_destroy(&at);
  int first = pick_sched(g_n);
  if (first) g_sched += mc::fmt(" [thread %d starts]", first + 1);
  sem_post(&g_thr[first].go);
  while (sem_wait(&g_main)) {}
  for (int i = 0; i < g_n; i++) pthread_join(g_thr[i].th, nullptr);
  bool grew = false;
  for (int i = 0; i < g_n; i++) for (int j = 0; j < g_n; j++) if (i != j)
    for (auto& x : g_thr[i].acc) if (x.second.w) {
      auto it = g_thr[j].acc.find(x.first);
      if (it == g_thr[j].acc.end()) continue;
      unsigned char m = x.second.w & (it->second.r | it->second.w);
      unsigned char& c = g_conf[x.first];
      if (m & ~c) { c |= m; grew = true; }
      if (!c) g_conf.erase(x.first);
    }
  return grew;
}

// A thread's work: calls one after another; inputs private (made and destroyed by the thread) or shared.
struct Work {
  const Case* c; std::vector<Tensor>* shared; Args* args;     // shared: the inputs, owned by the main thread
  Status st; RT out; bool bad; std::string why;
};
static void perform(Work& w) {
  Tensor in[5] = {}, out = nullptr;
  const Case& c = *w.c;
  w.why.clear();
  for (size_t i = 0; i < c.in.size(); i++) {
    if (w.shared) { in[i] = (*w.shared)[i]; continue; }
    RT& r = *(RT*)&c.in[i];
    int64_t none = 0;
    if (aitisa_create(mkdt(r.dt), mkdev(r.dev), r.dims.empty() ? &none : r.dims.data(), (int64_t)r.dims.size(), nullptr, 0, &in[i]) != STATUS_SUCCESS) { w.why = "creating an input fails"; return; }
    if (!r.data.empty()) memcpy(aitisa_tensor_data(in[i]), r.data.data(), r.data.size());
  }
  if (c.op == CREATE && c.n64 >= 0) { w.args->buf = aitisa_default_cpu_allocator()->raw_alloc((size_t)c.n64); if (!w.args->buf) { w.why = "no memory"; return; } memset(w.args->buf, 0x21, (size_t)c.n64); }
  w.st = call(c, *w.args, in, &out);
  if (w.st == STATUS_SUCCESS) {
    w.out = snap(out);
    aitisa_destroy(&out);
  } else { w.out = RT(); if (c.op == CREATE && c.n64 >= 0) aitisa_default_cpu_allocator()->raw_dealloc(w.args->buf); }
  if (!w.shared) for (size_t i = 0; i < c.in.size(); i++) {
    std::string d = differs(c.in[i], snap(in[i]));
    if (!d.empty()) w.why = mc::fmt("its input %zu changed: ", i) + d;
    aitisa_destroy(&in[i]);
  }
}
static bool contents(const Case& c) { return !(c.op == CREATE && c.n64 < 0); }

// progs[t] lists the calls of thread t.  share: calls with the same group number use the same input tensors.
struct Item { Case c; int group; };
static bool same_params(const Case& a, const Case& b) { if (a.op != b.op || a.op == CREATE || a.a64 != b.a64 || a.mode != b.mode) return false; for (int k = 0; k < 4; k++) if (a.p[k] != b.p[k]) return false; return true; }
static long g_cheaper = 1;   // schedules of large calls cost more
static void explore(const std::vector<std::vector<Item>>& progs, bool warm, int bound, long limit) {
  prepare();
  std::vector<std::vector<Work>> w(progs.size());
  std::vector<std::unique_ptr<Args>> keep;
  std::map<int, const Case*> gcase; std::map<int, std::vector<Tensor>> gin;
  g_what.clear();
  pristine();
  for (size_t t = 0; t < progs.size(); t++) {
    g_what += t ? " || " : "";
    for (auto& it : progs[t]) {
      g_what += (&it == &progs[t][0] ? "" : "; ") + show(it.c) + (it.group >= 0 ? mc::fmt(" (shared inputs %d)", it.group) : "");
      Work x; x.c = &it.c; x.shared = nullptr; x.bad = false;
      if (it.group >= 0) { x.shared = &gin[it.group]; if (!gcase[it.group] || it.c.in.size() > gcase[it.group]->in.size()) gcase[it.group] = &it.c; }
      keep.emplace_back(new Args(it.c)); x.args = keep.back().get();
      w[t].push_back(x);
    }
  }
  // calls of one group and one operation share the parameter arrays too
  for (size_t t = 1; t < progs.size(); t++) for (size_t i = 0; i < progs[t].size(); i++)
    if (progs[t][i].group >= 0 && i < progs[0].size() && progs[0][i].group == progs[t][i].group && same_params(progs[0][i].c, progs[t][i].c)) w[t][i].args = w[0][i].args;
  auto setup = [&] {
    pristine();
    for (auto& g : gin) { g.second.clear(); for (auto& r : gcase[g.first]->in) g.second.push_back(make(r)); }
  };
  auto sequential = [&](Work& x) {       // in this thread, unobserved
    Thr self; self.on = false; self.id = -1; self.lo = self.hi = 0; me = &self; perform(x); me = nullptr;
  };
  auto warmup = [&] { if (warm) for (auto& v : w) for (auto& x : v) { Work y = x; sequential(y); } };
  // alone
  std::vector<std::vector<Work>> alone = w;
  for (size_t t = 0; t < w.size(); t++) {
    setup(); warmup();
    for (auto& x : alone[t]) { sequential(x); if (!x.why.empty()) mc::fail("%s alone: %s", show(*x.c).c_str(), x.why.c_str()); }
  }
  g_conf.clear(); g_path.clear();
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < w.size(); t++) bodies.push_back([&w, t] { for (auto& x : w[t]) { perform(x); } });
  uint64_t n0 = g_schedules; g_limit = limit;
  uint64_t seen = 7;
  // first without preemptions, then with one, two, ...; where calls do conflict, the budget shrinks as it is used up
  const uint64_t scale = mc::tier_thorough() ? 20 : 1, used = g_schedules * g_cheaper, cap = used < 20000 * scale ? 4000 * scale / g_cheaper : used < 50000 * scale ? 200 * scale / g_cheaper : used < 80000 * scale ? 30 * scale / g_cheaper : 6;
  bool contended = true;
  for (int b = 0; b <= bound && contended; b++) for (g_path.clear(), contended = false;;) {
    setup(); warmup();
    std::vector<std::vector<RT>> before;
    for (auto& g : gin) { before.emplace_back(); for (auto t : g.second) before.back().push_back(snap(t)); }
    bool grew = run_schedule(bodies, b);
    contended |= g_all > 0;
    for (size_t t = 0; t < w.size(); t++) for (size_t i = 0; i < w[t].size(); i++) {
      Work &x = w[t][i], &y = alone[t][i];
      std::string d = x.why;
      if (d.empty() && x.st != y.st) d = mc::fmt("status %d instead of %d", (int)x.st, (int)y.st);
      if (d.empty() && x.c->op == DROPOUT) { RT q = y.out; if (q.dt != x.out.dt || q.dims != x.out.dims) d = "shape or type differs"; }
      else if (d.empty() && contents(*x.c) && x.st == STATUS_SUCCESS) d = differs(y.out, x.out);
      else if (d.empty() && x.st == STATUS_SUCCESS && (x.out.dims != y.out.dims || x.out.dt != y.out.dt)) d = "shape or type differs";
      if (!d.empty()) mc::fail("%s: thread %zu, call %zu: %s, when the threads run as follows:%s", g_what.c_str(), t + 1, i + 1, d.c_str(), g_sched.empty() ? " one after the other" : g_sched.c_str());
    }
    size_t gi = 0;
    for (auto& g : gin) { for (size_t i = 0; i < g.second.size(); i++) { std::string d = differs(before[gi][i], snap(g.second[i])); if (d.empty()) d = well_formed(g.second[i]); if (!d.empty()) mc::fail("%s: shared input %zu: %s, when the threads run as follows:%s", g_what.c_str(), i, d.c_str(), g_sched.c_str()); } gi++; }
    for (auto& v : w) for (auto& x : v) { std::string why; if (!x.args->intact(*x.c, &why)) mc::fail("%s: %s", g_what.c_str(), why.c_str()); }
    mc::evals(1); seen = mc::mix(seen, g_all);
    if (grew) { g_path.clear(); continue; }
    while (!g_path.empty() && g_path.back().v + 1 >= g_path.back().n) g_path.pop_back();
    if (g_path.empty()) break;
    g_path.back().v++;
    if (g_schedules - n0 > cap) break;
  }
  mc::paths(g_schedules - n0);
  uint64_t h = g_conf.size(); for (auto& v : alone) for (auto& x : v) h = mc::mix(h, contents(*x.c) ? hash_rt(x.out) + x.st : x.st);
  mc::outcome(h);
  pristine();
}
static int bound() { return mc::tier_thorough() ? 3 : 2; }
static long limit() { return mc::tier_thorough() ? 200 : 120; }
static void tell(const std::vector<std::vector<Item>>& p, bool warm) {
  mc::describe([&] { std::string s; for (auto& v : p) { if (!s.empty()) s += " || "; for (auto& i : v) s += show(i.c) + (i.group >= 0 ? " (shared inputs); " : "; "); } return s + (warm ? "after the same calls were made once" : "as the first calls ever made"); });
}
static void go(const std::vector<std::vector<Item>>& p, bool warm) { tell(p, warm); explore(p, warm, bound(), limit()); }

static const std::vector<Case>& every() {
  static std::vector<Case> v;
  if (v.empty()) for (Op o : all_ops) for (auto& c : catalogue(o)) v.push_back(c);
  return v;
}
static void same_call() {
  Op o = mc::pick(all_ops); mc::start_once();
  Case c; gen(o, TINY, c);
  bool shared = mc::choose(2), warm = mc::choose(2); int n = mc::tier_thorough() ? mc::range(2, 3) : 2;
  go(std::vector<std::vector<Item>>(n, {{c, shared ? 0 : -1}}), warm);
}
static const std::vector<Case>& spread() {      // a few of every entry point
  static std::vector<Case> v;
  if (v.empty()) for (Op o : all_ops) { auto& k = catalogue(o); size_t n = mc::tier_thorough() ? k.size() : 4; if (n > k.size()) n = k.size(); for (size_t i = 0; i < n; i++) v.push_back(k[i * k.size() / n]); }
  return v;
}
static void pairs() {
  int i = mc::choose((int)spread().size()); mc::start();
  int j = mc::choose((int)spread().size());
  go({{{spread()[i], -1}}, {{spread()[j], -1}}}, false);
}
// within one entry point, every pair of catalogue entries
static void same_op() {
  Op o = mc::pick(all_ops); const auto& k = catalogue(o);
  int i = mc::choose((int)k.size()); mc::start();
  int j = mc::choose((int)k.size());
  go({{{k[i], -1}}, {{k[j], -1}}}, mc::choose(2));
}
// another call on a tensor that a call is using
static std::vector<Case> probes(const RT& t) {
  std::vector<Case> v;
  auto add = [&](Op o) -> Case& { v.push_back(mk(o, {t})); return v.back(); };
  add(DUP); add(RELU); add(CAST).tdt = TYPE_DOUBLE; add(CAST).tdt = TYPE_INT8; add(SQUEEZE); add(RESHAPE).a64 = {t.size()};
  Case& s = add(SLICE); for (auto d : t.dims) { s.p[0].push_back(0); s.p[1].push_back((int)d); s.p[2].push_back(1); }
  add(SQRT); add(SIGMOID); add(TANH); add(SOFTMAX).axis = -1; add(SOFTMAX).axis = 0; add(DROPOUT).d = 0;
  for (Op o : {ADD, DIV, MATMUL, DOT}) v.push_back(mk(o, {t, t}));
  if (t.dims.size() >= 3) { Case& p = add(POOL); p.mode = "max"; for (size_t i = 2; i < t.dims.size(); i++) { p.p[0].push_back(1); p.p[1].push_back(1); p.p[2].push_back(0); p.p[3].push_back(1); } }
  return v;
}
static void shared_tensor() {
  int i = mc::choose((int)spread().size()); mc::start();
  const Case& c = spread()[i];
  if (c.in.empty()) mc::skip();
  int k = mc::choose((int)c.in.size() < 2 ? 1 : 2);
  if (k) { if (c.in.size() < 2) mc::skip(); }
  std::vector<Case> p = probes(c.in[k]);
  Case q = mc::pick(p);
  bool warm = mc::choose(2);
  // the probe takes its tensor from the call's inputs: rotate them so that it is the first
  if (k) {   // the roles of the two threads: the probe owns the group, the call is given its inputs by value
    Case d = c; std::swap(d.in[0], d.in[1]);
    Expect e = ref_eval(d); if (!e.ok) mc::skip();
    go({{{d, 0}}, {{q, 0}}}, warm);
    return;
  }
  if (q.in.size() == 2) q.in[1] = c.in.size() > 1 ? c.in[1] : q.in[1];
  if (q.in.size() > c.in.size()) mc::skip();
  go({{{c, 0}}, {{q, 0}}}, warm);
}
// two calls, one after the other, against one or two of another thread
static void programs() {
  static std::vector<Case> v;
  if (v.empty()) for (Op o : all_ops) { auto& k = catalogue(o); v.push_back(k[k.size() / 2]); }
  int a = mc::choose((int)v.size()), b = mc::choose((int)v.size()); mc::start();
  int c = mc::choose((int)v.size());
  std::vector<Item> second = {{v[c], -1}};
  if (mc::tier_thorough() && mc::choose(2)) second.push_back({v[a], -1});
  go({{{v[a], -1}, {v[b], -1}}, second}, false);
}
static void large() {
  static std::vector<Case> v;
  if (v.empty()) {
    for (Op o : {ADD, MUL}) v.push_back(mk(o, {mkrt(TYPE_FLOAT, {5003}, P_SMALL, 1), mkrt(TYPE_FLOAT, {5003}, P_SMALL, 2)}));
    v.push_back(mk(MATMUL, {mkrt(TYPE_FLOAT, {17, 19}, P_SMALL, 1), mkrt(TYPE_FLOAT, {19, 13}, P_SMALL, 2)}));
    v.push_back(mk(DOT, {mkrt(TYPE_INT64, {9, 11}, P_SMALL, 1), mkrt(TYPE_INT64, {11, 7}, P_SMALL, 2)}));
    v.push_back(mk(DOT, {mkrt(TYPE_INT64, {600}, P_SMALL, 1), mkrt(TYPE_INT64, {600}, P_SMALL, 2)}));
    v.push_back(mk(RELU, {mkrt(TYPE_INT32, {4099}, P_SMALL, 1)}));
    v.push_back(mk(TANH, {mkrt(TYPE_FLOAT, {2053}, P_SMALL, 1)}));
    v.push_back(mk(SQRT, {mkrt(TYPE_INT32, {2053}, P_POS, 1)}));
    v.push_back(mk(SOFTMAX, {mkrt(TYPE_FLOAT, {40, 30}, P_SMALL, 1)})); v.back().axis = 1;
    v.push_back(mk(CAST, {mkrt(TYPE_FLOAT, {3000}, P_POS, 1)})); v.back().tdt = TYPE_INT16;
    v.push_back(mk(RESHAPE, {mkrt(TYPE_FLOAT, {30, 70}, P_POS, 1)})); v.back().a64 = {2100};
    v.push_back(mk(DUP, {mkrt(TYPE_FLOAT, {30, 70}, P_POS, 1)}));
    v.push_back(mk(SLICE, {mkrt(TYPE_FLOAT, {30, 40}, P_POS, 1)})); v.back().p[0] = {0, 1}; v.back().p[1] = {30, 39}; v.back().p[2] = {1, 2};
    Case c = mk(CONV, {mkrt(TYPE_FLOAT, {2, 4, 8, 8}, P_SMALL, 1), mkrt(TYPE_FLOAT, {4, 4, 3, 3}, P_SMALL, 2)}); c.p[0] = {1, 1}; c.p[1] = {1, 1}; c.p[2] = {1, 1}; v.push_back(c);
    c = mk(POOL, {mkrt(TYPE_FLOAT, {2, 3, 12, 12}, P_SMALL, 1)}); c.mode = "avg"; c.p[0] = {3, 3}; c.p[1] = {1, 1}; c.p[2] = {1, 1}; c.p[3] = {1, 1}; v.push_back(c);
    c = mk(BN, {mkrt(TYPE_FLOAT, {4, 6, 5, 5}, P_SMALL, 1)}); for (int i = 0; i < 4; i++) c.in.push_back(mkrt(TYPE_FLOAT, {6}, i == 3 ? P_POS : P_SMALL, 2 + i)); c.axis = 1; c.d = 1; v.push_back(c);
  }
  int i = mc::choose((int)v.size()); mc::start();
  int j = mc::choose((int)v.size()); int shared = i == j ? mc::choose(2) : 0;
  g_cheaper = 20; go({{{v[i], shared ? 0 : -1}}, {{v[j], shared ? 0 : -1}}}, false);
}
template <int OP> static void op() { Case c; gen((Op)OP, SMALL, c); go({{{c, 0}}, {{c, 0}}}, false); }
static void space(const Case& c, const Expect&) { go({{{c, 0}}, {{c, mc::choose(2) - 1}}}, false); }

int main(int argc, char** argv) {
  mc::Check c{"C21", "model_checking", {
    {"same_call", same_call, "every call of the catalogue made by two threads (thorough: three) at once x shared or own inputs x as the first calls ever or not", 120},
    {"same_op", same_op, "every pair of catalogue entries of one entry point, each in its own thread, cold and warm", 120},
    {"pairs", pairs, "every ordered pair of 4 (thorough all) catalogue entries of each of the 24 entry points", 120},
    {"shared_tensor", shared_tensor, "a call and each of 18 other calls on its first or second input tensor", 120},
    {"programs", programs, "two calls in one thread against one (thorough: two) in another, one representative of each entry point", 120},
    {"large", large, "every pair of 17 calls with thousands of elements", 120},
  }, {"interleavings at the granularity of memory accesses of the code as compiled by clang -O1, sequentially consistent",
      "at most 2 (thorough 3) preemptions, at the first 120 (thorough 200) conflicting accesses of a schedule; forced switches are free",
      "the C library's own functions are atomic",
      "calls that conflict (none do on the unchanged tree) are explored with few preemptions first and up to 4000 schedules per pair (thorough 80000), fewer after 20000 schedules of a worker"}};
#define S(o) c.suites.push_back({#o, op<o>, "every request of the small space of this operation, valid or not, made by two threads sharing inputs and parameters", 120});
  S(SQUEEZE) S(SOFTMAX) S(CREATE) S(SIGMOID) S(RELU) S(FULL)
  if (mc::tier_thorough()) { S(ADD) S(DIV) S(CAST) S(RESHAPE) S(DUP) S(SLICE) S(MATMUL) S(DOT) S(SQRT) S(TANH) S(POOL) S(CONV) S(CONV2D) S(CONV3D) S(BN) S(DROPOUT) }
  add_spaces(c, space, {"C12/ranks", "C13/ranks", "C14/axes_ranks"},
    {"C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C16"}, {"C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C16"});
  return mc::run(argc, argv, c);
}
