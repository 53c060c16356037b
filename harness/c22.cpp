// Auto-test input and result holders share and release their buffers exactly once.
// Every sequence of operations on three variables up to a depth, on the real holder classes, against a model of
// which buffers each variable refers to.  operator new and delete are watched: a released block is poisoned and kept,
// so a second release, a release by somebody else and a use after release are all seen at the operation that does it.
#include "run.h"
#include "auto_test/sample.h"
#include "auto_test/test_code/conv_test.h"
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <map>
#include <new>
#include <type_traits>
#include <unistd.h>
extern "C" {   // of the AddressSanitizer runtime
void __asan_poison_memory_region(void const volatile*, size_t);
void __asan_unpoison_memory_region(void const volatile*, size_t);
}
using namespace aitisa_api;

// ---- the heap of the holders ----
struct Blk { void* p; size_t n; bool live; };
static const int kBlk = 4096;
static Blk blk[kBlk]; static int nblk; static bool g_track; static const char* g_bad;
static int find(const void* p) { for (int i = nblk - 1; i >= 0; i--) if (blk[i].p == p) return i; return -1; }
static void* obtain(size_t n) {
  void* p = malloc(n ? n : 1); if (!p) abort();
  if (g_track && nblk < kBlk) { memset(p, 0xCD, n); blk[nblk++] = {p, n, true}; }
  return p;
}
static void put_back(void* p, const char* twice, const char* foreign) {
  if (!p) return;
  int i = nblk ? find(p) : -1;
  if (i < 0) { if (g_track) { g_bad = foreign; return; } free(p); return; }
  if (!blk[i].live) { g_bad = twice; return; }
  blk[i].live = false; __asan_poison_memory_region(p, blk[i].n);
}
void* operator new(size_t n) { return obtain(n); }
void* operator new[](size_t n) { return obtain(n); }
static void del(void* p) { put_back(p, "a buffer was released twice", "memory was released that the holders never obtained"); }
void operator delete(void* p) noexcept { del(p); }
void operator delete[](void* p) noexcept { del(p); }
void operator delete(void* p, size_t) noexcept { del(p); }
void operator delete[](void* p, size_t) noexcept { del(p); }
static bool alive(const void* p) { int i = find(p); return i >= 0 && blk[i].live; }
static size_t room(const void* p) { int i = find(p); return i < 0 ? 0 : blk[i].n; }
static void heap_reset() {
  bool t = g_track; g_track = false;
  for (int i = 0; i < nblk; i++) { __asan_unpoison_memory_region(blk[i].p, blk[i].n); free(blk[i].p); }
  nblk = 0; g_bad = nullptr; g_track = t;
}
struct Track { Track() { g_track = true; } ~Track() { g_track = false; } };

static sigjmp_buf g_jmp;
static bool g_armed;
static void on_segv(int) { if (!g_armed) _exit(99); siglongjmp(g_jmp, 1); }
// false: the operation crashed
template <class F> static bool survives(F f) {
  static bool set = false;
  if (!set) { struct sigaction a = {}; a.sa_handler = on_segv; a.sa_flags = SA_NODEFER; sigaction(SIGSEGV, &a, nullptr); sigaction(SIGILL, &a, nullptr); set = true; }
  if (sigsetjmp(g_jmp, 0)) { g_track = false; g_armed = false; return false; }
  g_armed = true; { Track t; f(); } g_armed = false;
  return true;
}

// ---- what a holder shows, uniformly ----
struct Part { int64_t ndim; int64_t* dims; int dtype, device; void* data; unsigned len; };
static std::vector<Part> parts(Unary_Input& x) { return {{x.ndim(), x.dims(), x.dtype(), x.device(), x.data(), x.len()}}; }
static std::vector<Part> parts(Binary_Input& x) {
  return {{x.ndim1(), x.dims1(), x.dtype1(), x.device1(), x.data1(), x.len1()}, {x.ndim2(), x.dims2(), x.dtype2(), x.device2(), x.data2(), x.len2()}};
}
static std::vector<Part> parts(Result& x) { return {{x.ndim(), x.dims(), x.dtype(), x.device(), x.data(), x.len()}}; }
template <class I> static std::vector<Part> parts(Sample<I>& x) { std::vector<Part> a = parts(x.input()), b = parts(x.result()); a.insert(a.end(), b.begin(), b.end()); return a; }

// ---- the model: a value per part ----
struct Val { std::vector<int64_t> dims; int dtype = 0, device = 0; std::vector<uint8_t> data; bool has_dims = false, has_data = false; };
static Val value(int k) {     // distinct contents
  static const std::vector<int64_t> sh[5] = {{2}, {1, 3}, {}, {2, 1, 2}, {4}};
  static const int dt[5] = {8, 0, 9, 2, 7};
  Val v; v.dims = sh[k % 5]; v.dtype = dt[k % 5]; v.device = k & 1;
  size_t n = dsize(v.dtype); for (auto d : v.dims) n *= d;
  v.data.resize(n); for (size_t i = 0; i < n; i++) v.data[i] = (uint8_t)(k * 37 + i * 5 + 1);
  v.has_dims = v.has_data = true;
  return v;
}
static int64_t* new_dims(const Val& v) { int64_t* p = new int64_t[v.dims.size()]; for (size_t i = 0; i < v.dims.size(); i++) p[i] = v.dims[i]; return p; }
static void* new_data(const Val& v) { char* p = new char[v.data.size()]; memcpy(p, v.data.data(), v.data.size()); return p; }

static Unary_Input* make_ptr(Unary_Input*, const Val* v) { return new Unary_Input(v[0].dims.size(), new_dims(v[0]), v[0].dtype, v[0].device, new_data(v[0]), v[0].data.size()); }
static Unary_Input* make_vec(Unary_Input*, const Val* v) { return new Unary_Input(v[0].dims.size(), v[0].dims, v[0].dtype, v[0].device, new_data(v[0]), v[0].data.size()); }
static Unary_Input* make_late(Unary_Input*, const Val* v) { Unary_Input* u = new Unary_Input(v[0].dims.size(), v[0].dims, v[0].dtype, v[0].device, nullptr, 0); u->set_data(new_data(v[0]), v[0].data.size()); return u; }
static Binary_Input* make_ptr(Binary_Input*, const Val* v) {
  return new Binary_Input(v[0].dims.size(), new_dims(v[0]), v[0].dtype, v[0].device, new_data(v[0]), v[0].data.size(), v[1].dims.size(), new_dims(v[1]), v[1].dtype, v[1].device, new_data(v[1]), v[1].data.size());
}
static Binary_Input* make_vec(Binary_Input*, const Val* v) {
  return new Binary_Input(v[0].dims.size(), v[0].dims, v[0].dtype, v[0].device, new_data(v[0]), v[0].data.size(), v[1].dims.size(), v[1].dims, v[1].dtype, v[1].device, new_data(v[1]), v[1].data.size());
}
static Binary_Input* make_late(Binary_Input*, const Val* v) {
  Binary_Input* u = new Binary_Input(v[0].dims.size(), v[0].dims, v[0].dtype, v[0].device, nullptr, 0, v[1].dims.size(), v[1].dims, v[1].dtype, v[1].device, nullptr, 0);
  u->set_data1(new_data(v[0]), v[0].data.size()); u->set_data2(new_data(v[1]), v[1].data.size()); return u;
}

// ---- histories of input holders ----
enum St { NONE, FULL_, MOVED };
static const char* const kCrash = "crashed";
template <class H> struct World {
  static const int N = 3;
  H* h[N] = {}; St st[N] = {}; std::vector<Val> val[N]; int group[N] = {};
  int groups = 0, np; std::string log; std::vector<const void*> owned, may_leak; bool dead = false;
  explicit World(int np_) : np(np_) {}
  const char* names(int i) { static const char* n[] = {"a", "b", "c"}; return n[i]; }
  void learn(int i) { for (auto& p : parts(*h[i])) { if (p.dims) owned.push_back(p.dims); if (p.data) owned.push_back(p.data); } }
  bool sole(int i) { for (int j = 0; j < N; j++) if (j != i && st[j] == FULL_ && group[j] == group[i]) return false; return true; }
  void check(const char* what) {
    if (g_bad) mc::fail("%s: %s: %s", log.c_str(), what, g_bad);
    std::vector<const void*> seen;
    for (int i = 0; i < N; i++) if (st[i] == FULL_) {
      std::vector<Part> p = parts(*h[i]);
      for (int k = 0; k < (int)val[i].size(); k++) {
        const Val& v = val[i][k];
        if (p[k].device != v.device || p[k].dtype != v.dtype || p[k].len != v.data.size() || p[k].ndim != (int64_t)v.dims.size())
          mc::fail("%s: %s shows data type %d, device %d, %lld dimensions, %u bytes instead of %d, %d, %zu, %zu", log.c_str(), names(i), p[k].dtype, p[k].device, (long long)p[k].ndim, p[k].len, v.dtype, v.device, v.dims.size(), v.data.size());
        if (v.has_dims) { if (!p[k].dims || !alive(p[k].dims) || room(p[k].dims) < v.dims.size() * 8) mc::fail("%s: the shape of %s is no longer valid", log.c_str(), names(i));
          for (size_t d = 0; d < v.dims.size(); d++) if (p[k].dims[d] != v.dims[d]) mc::fail("%s: %s shows another shape than it was given", log.c_str(), names(i)); seen.push_back(p[k].dims); }
        if (v.has_data) { if (!p[k].data || !alive(p[k].data) || room(p[k].data) < v.data.size()) mc::fail("%s: the data of %s are no longer valid", log.c_str(), names(i));
          if (memcmp(p[k].data, v.data.data(), v.data.size())) mc::fail("%s: %s shows other data than it was given", log.c_str(), names(i)); seen.push_back(p[k].data); }
      }
    }
    for (auto o : owned) if (alive(o) && std::find(seen.begin(), seen.end(), o) == seen.end() && std::find(may_leak.begin(), may_leak.end(), o) == may_leak.end())
      mc::fail("%s: a buffer that no holder refers to any more is still held", log.c_str());
  }
  void finish() {
    for (int i = 0; i < N; i++) if (st[i] != NONE) { bool ok = survives([&] { delete h[i]; }); st[i] = NONE; log += mc::fmt(" destroy %s;", names(i)); if (!ok) mc::fail("%s: %s", log.c_str(), kCrash); check("destroying"); }
    int rest = 0, known = 0;
    for (int i = 0; i < nblk; i++) if (blk[i].live) { if (std::find(may_leak.begin(), may_leak.end(), blk[i].p) != may_leak.end()) known++; else rest++; }
    if (rest) mc::fail("%s: after every holder is gone %d blocks of memory are still held", log.c_str(), rest);
    if (known) mc::deviation("%s: %s", log.c_str(), leak_text());
  }
  static const char* leak_text() { return "assigning to an input holder that is the last one of its buffers never releases its reference counter"; }
};
template <class H> static void assign(H& a, H& b) { a = b; }

static int g_serial;
template <class H> static void histories(int np, int depth) {
  H* const tag = nullptr;
  World<H> w(np);
  heap_reset();
  mc::describe([&] { return w.log; });
  uint64_t state = 0;
  int serial = 0;
  for (int step = 0; step < depth && !w.dead; step++) {
    // the operations possible now; an unused variable is only taken after those before it
    struct Op_ { int kind, i, j; }; std::vector<Op_> ops;
    bool fresh_seen = false;
    for (int i = 0; i < w.N; i++) {
      if (w.st[i] == NONE) {
        if (fresh_seen) continue; fresh_seen = true;
        for (int k = 0; k < 4; k++) ops.push_back({k, i, 0});
        for (int j = 0; j < w.N; j++) if (w.st[j] == FULL_) { ops.push_back({4, i, j}); ops.push_back({5, i, j}); }
      } else {
        ops.push_back({7, i, 0});
        for (int j = 0; j < w.N; j++) if (w.st[j] == FULL_) ops.push_back({6, i, j});
        if (w.st[i] == FULL_) ops.push_back({w.val[i][0].device ? 9 : 8, i, 0});
      }
    }
    Op_ o = mc::pick(ops); int i = o.i, j = o.j; bool ok = true;
    if (step == 3) mc::start_once();
    std::vector<Val> v; for (int k = 0; k < np; k++) v.push_back(value(serial + 2 * k));
    const char* ni = w.names(i); const char* nj = w.names(j);
    switch (o.kind) {
      case 0: w.log += mc::fmt(" %s();", ni); ok = survives([&] { w.h[i] = new H(); }); for (auto& x : v) x = Val(); break;
      case 1: w.log += mc::fmt(" %s(dims, data);", ni); ok = survives([&] { w.h[i] = make_ptr(tag, v.data()); }); serial++; break;
      case 2: w.log += mc::fmt(" %s(vector, data);", ni); ok = survives([&] { w.h[i] = make_vec(tag, v.data()); }); serial++; break;
      case 3: w.log += mc::fmt(" %s(vector), set_data;", ni); ok = survives([&] { w.h[i] = make_late(tag, v.data()); }); serial++; break;
      case 4: w.log += mc::fmt(" %s(%s);", ni, nj); ok = survives([&] { w.h[i] = new H(*w.h[j]); }); break;
      case 5: w.log += mc::fmt(" %s(move(%s));", ni, nj); ok = survives([&] { w.h[i] = new H(std::move(*w.h[j])); }); break;
      case 6: {
        w.log += mc::fmt(" %s = %s;", ni, nj);
        bool alone = w.st[i] == FULL_ && w.sole(i), moved = w.st[i] == MOVED;
        const void* counter = w.st[i] == FULL_ ? w.h[i]->count() : nullptr;
        std::vector<Part> before = w.st[i] == FULL_ ? parts(*w.h[i]) : std::vector<Part>();
        bool full = false; for (auto& p : before) full |= p.dims || p.data;
        if (alone && i == j) {
          ok = survives([&] { assign(*w.h[i], *w.h[j]); });
          bool gone = false; for (auto& p : before) if ((p.dims && !alive(p.dims)) || (p.data && !alive(p.data))) gone = true;
          if (ok && gone && !g_bad) { mc::deviation("%s: assigning the only holder of its buffers to itself releases the buffers it keeps", w.log.c_str()); w.dead = true; break; }
        } else {
          ok = survives([&] { assign(*w.h[i], *w.h[j]); });
          if (!ok && moved) { mc::deviation("%s: assigning to a moved-from input holder crashes", w.log.c_str()); w.dead = true; ok = true; break; }
          if (alone) w.may_leak.push_back(counter);
        }
        break;
      }
      case 7: w.log += mc::fmt(" destroy %s;", ni); ok = survives([&] { delete w.h[i]; }); break;
      case 8: w.log += mc::fmt(" %s.to_CUDA();", ni); w.h[i]->to_CUDA(); break;
      case 9: w.log += mc::fmt(" %s.to_CPU();", ni); w.h[i]->to_CPU(); break;
    }
    if (!ok) mc::fail("%s: %s", w.log.c_str(), kCrash);
    if (w.dead) break;
    if (o.kind < 4) { w.st[i] = FULL_; w.val[i] = v; w.group[i] = w.groups++; w.learn(i); }
    if (o.kind == 4 || o.kind == 5 || (o.kind == 6 && i != j)) { w.st[i] = FULL_; w.val[i] = w.val[j]; w.group[i] = w.group[j]; w.learn(i); if (o.kind == 5) w.st[j] = MOVED; }
    if (o.kind == 7) w.st[i] = NONE;
    if (o.kind == 8 || o.kind == 9) for (auto& x : w.val[i]) x.device = o.kind == 8;
    w.check("this operation");
    state = 0; for (int k = 0; k < w.N; k++) state = state * 97 + w.st[k] * 13 + (w.st[k] == FULL_ ? w.group[k] * 3 + w.val[k][0].device : 0);
    mc::outcome(mc::mix(state, np));
    mc::evals(1);
  }
  mc::start_once();
  if (!w.dead) w.finish();
  heap_reset();
}
static int depth() { return mc::thorough() ? 7 : 6; }
static void s_unary() { histories<Unary_Input>(1, depth()); }
static void s_binary() { histories<Binary_Input>(2, depth()); }

// ---- results ----
template <class H, bool can> struct Assign { static void go(H& a, H& b) { a = b; } };
template <class H> struct Assign<H, false> { static void go(H&, H&) {} };
static const bool result_assignable = std::is_assignable<Result&, Result&>::value;
static const char* kNoAssign = "result holders, and so samples, cannot be assigned to";
static const char* kResultCounter = "the last result holder never releases its reference counter";
static const char* kResultOld = "setting a result on a holder that has one never releases the buffers it replaces";

static void set(Result& r, const Val& v) {
  std::vector<int64_t> d = v.dims; std::vector<uint8_t> x = v.data; d.push_back(0); x.push_back(0);   // the caller's own copies
  { Track t; r.set_result(v.dims.size(), d.data(), v.dtype, v.device, x.data(), v.data.size()); }
  std::fill(d.begin(), d.end(), -1); std::fill(x.begin(), x.end(), 0xEE);
}
// Which leaks the two recorded findings explain: a shadow of the counting as it is, without its effects.
struct Shadow {
  struct H { const void *dims = nullptr, *data = nullptr, *count = nullptr; bool used = false; };
  std::map<const void*, int> n;        // counter -> holders
  std::vector<const void*> counters, old;
  void lose(const H& h) { if (h.dims) old.push_back(h.dims); if (h.data) old.push_back(h.data); }
};
struct ResultWorld {
  static const int N = 3;
  Result* h[N] = {}; St st[N] = {}; Val val[N]; const void* cnt[N] = {}; std::string log; std::vector<const void*> owned;
  std::map<const void*, int> holders; std::vector<const void*> counters, old;
  const char* nm(int i) { static const char* n[] = {"r", "s", "t"}; return n[i]; }
  bool referred(const void* p, int except) { for (int i = 0; i < N; i++) if (i != except && st[i] == FULL_ && (h[i]->dims() == p || h[i]->data() == p)) return true; return false; }
  // holder i stops showing its buffers, which the counting as it is does not release
  void replaced(int i) {
    if (h[i]->dims() && !referred(h[i]->dims(), i)) { old.push_back(h[i]->dims()); if (h[i]->data()) old.push_back(h[i]->data()); }
  }
  void going(int i) { if (st[i] != FULL_) return; if (--holders[cnt[i]] == 0) counters.push_back(cnt[i]); else replaced(i); }
  static bool in(const std::vector<const void*>& v, const void* p) { return std::find(v.begin(), v.end(), p) != v.end(); }
  void check() {
    if (g_bad) mc::fail("%s: %s", log.c_str(), g_bad);
    std::vector<const void*> seen;
    for (int i = 0; i < N; i++) if (st[i] == FULL_) {
      Part p = parts(*h[i])[0]; const Val& v = val[i];
      if (p.device != v.device || p.dtype != v.dtype || p.len != v.data.size() || p.ndim != (int64_t)v.dims.size())
        mc::fail("%s: %s shows data type %d, device %d, %lld dimensions, %u bytes instead of %d, %d, %zu, %zu", log.c_str(), nm(i), p.dtype, p.device, (long long)p.ndim, p.len, v.dtype, v.device, v.dims.size(), v.data.size());
      if (v.has_data) {
        if (!alive(p.dims) || !alive(p.data) || room(p.dims) < v.dims.size() * 8 || room(p.data) < v.data.size()) mc::fail("%s: the buffers of %s are no longer valid", log.c_str(), nm(i));
        for (size_t d = 0; d < v.dims.size(); d++) if (p.dims[d] != v.dims[d]) mc::fail("%s: %s shows another shape than it was given", log.c_str(), nm(i));
        if (memcmp(p.data, v.data.data(), v.data.size())) mc::fail("%s: %s shows other data than it was given", log.c_str(), nm(i));
        seen.push_back(p.dims); seen.push_back(p.data);
        for (auto q : {(const void*)p.dims, (const void*)p.data}) if (!in(owned, q)) owned.push_back(q);
      }
    }
    for (auto o : owned) if (alive(o) && !in(seen, o) && !in(old, o)) mc::fail("%s: a buffer that no holder refers to any more is still held", log.c_str());
  }
  void finish() {
    for (int i = 0; i < N; i++) if (st[i] != NONE) { going(i); log += mc::fmt(" destroy %s;", nm(i)); if (!survives([&] { delete h[i]; })) mc::fail("%s: %s", log.c_str(), kCrash); st[i] = NONE; check(); }
    int rest = 0, c = 0, o = 0;
    for (int i = 0; i < nblk; i++) if (blk[i].live) { if (in(counters, blk[i].p)) c++; else if (in(old, blk[i].p)) o++; else rest++; }
    if (rest) mc::fail("%s: after every holder is gone %d blocks of memory are still held", log.c_str(), rest);
    if (o) mc::deviation("%s: %s", log.c_str(), kResultOld);
    if (c) mc::deviation("%s: %s", log.c_str(), kResultCounter);
  }
};
static void s_result() {
  ResultWorld w; heap_reset();
  mc::describe([&] { return w.log; });
  int serial = 0; const int depth = mc::thorough() ? 9 : 8;
  for (int step = 0; step < depth; step++) {
    struct Op_ { int kind, i, j; }; std::vector<Op_> ops; bool fresh = false;
    for (int i = 0; i < w.N; i++) {
      if (w.st[i] == NONE) {
        if (fresh) continue; fresh = true;
        ops.push_back({0, i, 0});
        for (int j = 0; j < w.N; j++) if (w.st[j] == FULL_) { ops.push_back({1, i, j}); ops.push_back({2, i, j}); }
      } else {
        ops.push_back({3, i, 0});
        if (w.st[i] == FULL_) ops.push_back({4, i, 0});
        for (int j = 0; j < w.N; j++) if (w.st[j] == FULL_) ops.push_back({5, i, j});
      }
    }
    Op_ o = mc::pick(ops); int i = o.i, j = o.j; bool ok = true;
    if (step == 3) mc::start_once();
    switch (o.kind) {
      case 0: w.log += mc::fmt(" %s();", w.nm(i)); ok = survives([&] { w.h[i] = new Result(); }); w.val[i] = Val(); break;
      case 1: w.log += mc::fmt(" %s(%s);", w.nm(i), w.nm(j)); ok = survives([&] { w.h[i] = new Result(*w.h[j]); }); w.val[i] = w.val[j]; break;
      case 2: w.log += mc::fmt(" %s(move(%s));", w.nm(i), w.nm(j)); ok = survives([&] { w.h[i] = new Result(std::move(*w.h[j])); }); w.val[i] = w.val[j]; break;
      case 3: w.log += mc::fmt(" destroy %s;", w.nm(i)); w.going(i); ok = survives([&] { delete w.h[i]; }); break;
      case 4: { w.log += mc::fmt(" %s.set_result;", w.nm(i)); Val v = value(serial++); w.replaced(i); set(*w.h[i], v); w.val[i] = v; break; }
      case 5:
        w.log += mc::fmt(" %s = %s;", w.nm(i), w.nm(j));
        if (!result_assignable) { mc::start_once(); mc::deviation("%s: %s", w.log.c_str(), kNoAssign); heap_reset(); return; }
        ok = survives([&] { Assign<Result, std::is_assignable<Result&, Result&>::value>::go(*w.h[i], *w.h[j]); }); w.val[i] = w.val[j]; break;
    }
    if (!ok) mc::fail("%s: %s", w.log.c_str(), kCrash);
    if (o.kind == 0) { w.st[i] = FULL_; w.cnt[i] = w.h[i]->count(); w.holders[w.cnt[i]] = 1; }
    if (o.kind == 1) { w.st[i] = FULL_; w.cnt[i] = w.cnt[j]; w.holders[w.cnt[i]]++; }
    if (o.kind == 2) { w.st[i] = FULL_; w.cnt[i] = w.cnt[j]; w.st[j] = MOVED; }
    if (o.kind == 3) w.st[i] = NONE;
    if (o.kind == 5) { w.st[i] = FULL_; w.cnt[i] = w.h[i]->count(); }
    w.check();
    uint64_t s = 0; for (int k = 0; k < w.N; k++) s = s * 31 + w.st[k] * 7 + w.val[k].data.size();
    mc::outcome(s); mc::evals(1);
  }
  mc::start_once();
  w.finish();
  heap_reset();
}

// ---- samples: an input and a result ----
template <class I> static void samples(int np) {
  typedef Sample<I> Sm;
  heap_reset();
  std::string log; mc::describe([&] { return log; });
  I* in[2] = {}; std::vector<Val> inv[2]; Sm* s[2] = {}; std::vector<Val> sv[2]; bool moved[2] = {};
  int serial = 0; const int depth = mc::thorough() ? 7 : 6;
  for (int k = 0; k < 2; k++) { for (int q = 0; q < np; q++) inv[k].push_back(value(k + 2 * q + 1)); Track t; in[k] = k ? make_vec((I*)nullptr, inv[k].data()) : make_ptr((I*)nullptr, inv[k].data()); }
  auto check = [&] {
    if (g_bad) mc::fail("%s: %s", log.c_str(), g_bad);
    for (int i = 0; i < 4; i++) {
      if (i < 2 ? !s[i] || moved[i] : !in[i - 2]) continue;
      std::vector<Part> p = i < 2 ? parts(*s[i]) : parts(*in[i - 2]); const std::vector<Val>& v = i < 2 ? sv[i] : inv[i - 2];
      std::string who = i < 2 ? mc::fmt("sample %d", i + 1) : mc::fmt("input %d", i - 1);
      for (size_t k = 0; k < p.size(); k++) {
        if (p[k].device != v[k].device || p[k].dtype != v[k].dtype || p[k].len != v[k].data.size() || p[k].ndim != (int64_t)v[k].dims.size()) mc::fail("%s: %s shows other attributes than it was given", log.c_str(), who.c_str());
        if (!v[k].has_data) continue;
        if (!alive(p[k].dims) || !alive(p[k].data) || room(p[k].dims) < v[k].dims.size() * 8 || room(p[k].data) < v[k].data.size()) mc::fail("%s: the buffers of %s are no longer valid", log.c_str(), who.c_str());
        for (size_t d = 0; d < v[k].dims.size(); d++) if (p[k].dims[d] != v[k].dims[d]) mc::fail("%s: %s shows another shape than it was given", log.c_str(), who.c_str());
        if (memcmp(p[k].data, v[k].data.data(), v[k].data.size())) mc::fail("%s: %s shows other data than it was given", log.c_str(), who.c_str());
      }
    }
  };
  // the counting as it is: counters of default inputs that are assigned over, counters and replaced buffers of results
  std::vector<const void*> c_in, c_res, old;
  auto others = [&](const void* p, int i) { for (int k = 0; k < 2; k++) if (k != i && s[k] && s[k]->result().dims() == p) return true; return false; };
  auto note_result = [&](int i) { c_res.push_back(s[i]->result().count()); };
  auto lose = [&](int i) { Result& r = s[i]->result(); if (r.dims() && !others(r.dims(), i)) { old.push_back(r.dims()); old.push_back(r.data()); } };
  auto going = [&](int i) { if (*s[i]->result().count() > 1) lose(i); };
  for (int step = 0; step < depth; step++) {
    struct Op_ { int kind, i, j; }; std::vector<Op_> ops;
    for (int i = 0; i < 2; i++) {
      if (!s[i]) { ops.push_back({0, i, 0}); for (int j = 0; j < 2; j++) if (in[j]) ops.push_back({1, i, j}); if (s[1 - i] && !moved[1 - i]) { ops.push_back({2, i, 1 - i}); ops.push_back({3, i, 1 - i}); } if (!s[0]) break; }
      else { ops.push_back({4, i, 0}); if (!moved[i]) { ops.push_back({5, i, 0}); for (int j = 0; j < 2; j++) if (in[j]) ops.push_back({6, i, j}); ops.push_back({8, i, 0}); } }
    }
    for (int j = 0; j < 2; j++) if (in[j]) ops.push_back({7, 0, j});
    Op_ o = mc::pick(ops); int i = o.i, j = o.j; bool ok = true;
    if (step == 3) mc::start_once();
    std::vector<Val> empty(np + 1);
    switch (o.kind) {
      case 0: log += mc::fmt(" sample%d();", i + 1); ok = survives([&] { s[i] = new Sm(); }); sv[i] = empty; note_result(i); break;
      case 1: log += mc::fmt(" sample%d(input%d);", i + 1, j + 1); ok = survives([&] { s[i] = new Sm(*in[j]); }); sv[i] = inv[j]; sv[i].push_back(Val()); note_result(i); break;
      case 2: log += mc::fmt(" sample%d(sample%d);", i + 1, j + 1); ok = survives([&] { s[i] = new Sm(*s[j]); }); sv[i] = sv[j]; break;
      case 3: log += mc::fmt(" sample%d(move(sample%d));", i + 1, j + 1); ok = survives([&] { s[i] = new Sm(std::move(*s[j])); }); sv[i] = sv[j]; moved[j] = true; break;
      case 4: log += mc::fmt(" destroy sample%d;", i + 1); if (s[i]->result().count()) going(i); ok = survives([&] { delete s[i]; }); s[i] = nullptr; moved[i] = false; break;
      case 5: {
        log += mc::fmt(" sample%d.set_result;", i + 1); Val v = value(serial++); lose(i);
        std::vector<int64_t> d = v.dims; std::vector<uint8_t> x = v.data; d.push_back(0);
        { Track t; s[i]->set_result(v.dims.size(), d.data(), v.dtype, v.device, x.data(), v.data.size()); }
        sv[i][np] = v; break;
      }
      case 6: {
        log += mc::fmt(" sample%d.set_input(input%d);", i + 1, j + 1);
        const void* c = s[i]->input().count();
        ok = survives([&] { s[i]->set_input(*in[j]); });
        for (int k = 0; k < np; k++) sv[i][k] = inv[j][k];
        if (c != s[i]->input().count()) c_in.push_back(c);
        break;
      }
      case 7: log += mc::fmt(" destroy input%d;", j + 1); ok = survives([&] { delete in[j]; }); in[j] = nullptr; break;
      case 8: log += mc::fmt(" sample%d.input().%s();", i + 1, sv[i][0].device ? "to_CPU" : "to_CUDA"); { int d = !sv[i][0].device; if (d) s[i]->input().to_CUDA(); else s[i]->input().to_CPU(); for (int k = 0; k < np; k++) sv[i][k].device = d; } break;
    }
    if (!ok) mc::fail("%s: %s", log.c_str(), kCrash);
    check(); mc::evals(1);
    mc::outcome(mc::mix(o.kind * 16 + i * 4 + j, (s[0] != nullptr) + 2 * (s[1] != nullptr) + 4 * moved[0] + 8 * moved[1] + 16 * (in[0] != nullptr) + 32 * (in[1] != nullptr) + 64 * np));
  }
  mc::start_once();
  for (int i = 0; i < 2; i++) if (s[i]) { if (s[i]->result().count()) going(i); log += mc::fmt(" destroy sample%d;", i + 1); if (!survives([&] { delete s[i]; })) mc::fail("%s: %s", log.c_str(), kCrash); s[i] = nullptr; check(); }
  for (int j = 0; j < 2; j++) if (in[j]) { log += mc::fmt(" destroy input%d;", j + 1); if (!survives([&] { delete in[j]; })) mc::fail("%s: %s", log.c_str(), kCrash); in[j] = nullptr; check(); }
  int rest = 0, ci = 0, cr = 0, ol = 0;
  for (int i = 0; i < nblk; i++) if (blk[i].live) { auto p = blk[i].p; if (ResultWorld::in(c_res, p)) cr++; else if (ResultWorld::in(c_in, p)) ci++; else if (ResultWorld::in(old, p)) ol++; else rest++; }
  if (rest) mc::fail("%s: after every holder is gone %d blocks of memory are still held", log.c_str(), rest);
  if (ol) mc::deviation("%s: %s", log.c_str(), kResultOld);
  if (cr) mc::deviation("%s: %s", log.c_str(), kResultCounter);
  if (ci) mc::deviation("%s: %s", log.c_str(), World<I>::leak_text());
  heap_reset();
}
static void s_sample() { if (mc::choose(2)) samples<Unary_Input>(1); else samples<Binary_Input>(2); }

// ---- inputs of a convolution: a two-tensor input with stride, padding and dilation ----
static void s_conv_input() {
  heap_reset();
  std::string log; mc::describe([&] { return log; });
  struct P { std::vector<int> v[3]; int groups; };
  static const int N = 3; Conv_Input* h[N] = {}; P val[N]; std::vector<Val> part[N]; int serial = 0;
  const int depth = mc::thorough() ? 7 : 6;
  auto arrays = [&](int i) { return std::vector<int*>{h[i]->stride(), h[i]->padding(), h[i]->dilation()}; };
  auto check = [&](bool inputs) {
    if (g_bad) mc::fail("%s: %s", log.c_str(), g_bad);
    for (int i = 0; i < N; i++) if (h[i]) {
      auto a = arrays(i); if (h[i]->groups() != val[i].groups) mc::fail("%s: input %d shows another group count", log.c_str(), i + 1);
      for (int k = 0; k < 3; k++) { if (!alive(a[k]) || room(a[k]) < val[i].v[k].size() * 4) mc::fail("%s: the parameters of input %d are no longer valid", log.c_str(), i + 1); if (memcmp(a[k], val[i].v[k].data(), val[i].v[k].size() * 4)) mc::fail("%s: input %d shows other parameters than it was given", log.c_str(), i + 1); }
      auto p = parts(*h[i]);
      for (int k = 0; k < 2; k++) { const Val& v = part[i][k]; if (!alive(p[k].dims) || !alive(p[k].data) || p[k].len != v.data.size() || p[k].ndim != (int64_t)v.dims.size() || memcmp(p[k].dims, v.dims.data(), v.dims.size() * 8) || memcmp(p[k].data, v.data.data(), v.data.size()))
        mc::fail("%s: input %d does not show the tensors it was given", log.c_str(), i + 1); }
    }
  };
  auto destroy = [&](int i) -> bool {
    log += mc::fmt(" destroy input%d;", i + 1);
    auto a = arrays(i); bool shared = false;
    for (int j = 0; j < N; j++) if (j != i && h[j]) for (auto q : arrays(j)) for (auto x : a) shared |= q == x;
    bool ok = survives([&] { delete h[i]; }); h[i] = nullptr;
    if (!ok) mc::fail("%s: %s", log.c_str(), kCrash);
    if (shared && !g_bad && !alive(a[0])) { mc::deviation("%s: a copied convolution input shares its stride, padding and dilation without counting them", log.c_str()); return false; }
    check(true); return true;
  };
  bool dead = false;
  for (int step = 0; step < depth && !dead; step++) {
    struct Op_ { int kind, i, j; }; std::vector<Op_> ops; bool fresh = false;
    for (int i = 0; i < N; i++) {
      if (!h[i]) { if (fresh) continue; fresh = true; ops.push_back({0, i, 0}); ops.push_back({1, i, 0}); for (int j = 0; j < N; j++) if (h[j]) ops.push_back({2, i, j}); }
      else { ops.push_back({3, i, 0}); for (int j = 0; j < N; j++) if (h[j]) ops.push_back({4, i, j}); }
    }
    Op_ o = mc::pick(ops); int i = o.i, j = o.j; bool ok = true;
    if (step == 2) mc::start_once();
    if (o.kind < 2) {
      P p; for (int k = 0; k < 3; k++) p.v[k] = {serial * 7 + k + 1, serial * 3 + k + 2}; p.groups = serial + 1;
      std::vector<Val> v = {value(0), value(3)}; for (int k = 0; k < 2; k++) { v[k].dims = {1, 1, 1, k + 1}; v[k].dtype = 8; v[k].data.assign(4 * (k + 1), (uint8_t)(serial * 9 + k + 1)); } serial++;
      log += mc::fmt(" input%d(%s);", i + 1, o.kind ? "vectors" : "pointers");
      ok = survives([&] {
        if (o.kind) h[i] = new Conv_Input(4, v[0].dims, 8, 0, new_data(v[0]), v[0].data.size(), 4, v[1].dims, 8, 0, new_data(v[1]), v[1].data.size(), p.v[0], p.v[1], p.v[2], p.groups);
        else { int* q[3]; for (int k = 0; k < 3; k++) { q[k] = new int[2]; memcpy(q[k], p.v[k].data(), 8); } h[i] = new Conv_Input(4, new_dims(v[0]), 8, 0, new_data(v[0]), v[0].data.size(), 4, new_dims(v[1]), 8, 0, new_data(v[1]), v[1].data.size(), q[0], q[1], q[2], p.groups); }
      });
      val[i] = p; part[i] = v;
    } else if (o.kind == 2) { log += mc::fmt(" input%d(input%d);", i + 1, j + 1); ok = survives([&] { h[i] = new Conv_Input(*h[j]); }); val[i] = val[j]; part[i] = part[j]; }
    else if (o.kind == 3) { if (!destroy(i)) dead = true; if (dead) break; }
    else {
      log += mc::fmt(" input%d = input%d;", i + 1, j + 1);
      auto old = arrays(i);
      ok = survives([&] { *h[i] = *h[j]; });
      if (!ok) { mc::deviation("%s: assigning to a convolution input runs off the end of the assignment operator", log.c_str()); dead = true; break; }
      val[i] = val[j]; part[i] = part[j];
    }
    if (!ok) mc::fail("%s: %s", log.c_str(), kCrash);
    check(true); mc::evals(1);
    uint64_t st = 0; for (int k = 0; k < N; k++) st = st * 17 + (h[k] ? val[k].groups : 0); mc::outcome(mc::mix(st, o.kind));
  }
  mc::start_once();
  for (int i = 0; i < N && !dead; i++) if (h[i] && !destroy(i)) dead = true;
  if (!dead) { int rest = 0; for (int i = 0; i < nblk; i++) rest += blk[i].live; if (rest) mc::fail("%s: after every input is gone %d blocks of memory are still held", log.c_str(), rest); }
  heap_reset();
}

// ---- a library-computed sample leaves its input usable ----
static Op g_op; static Val g_v[2];
struct Registered {
  Binary_Input in0; Binary_Input* input[2] = {&in0, &in0};
  Registered() : in0(g_v[0].dims.size(), g_v[0].dims, g_v[0].dtype, 0, new_data(g_v[0]), g_v[0].data.size(), g_v[1].dims.size(), g_v[1].dims, g_v[1].dtype, 0, new_data(g_v[1]), g_v[1].data.size()) {}
  virtual ~Registered() {}
  virtual void TestBody() = 0;
  static void aitisa_kernel(Tensor a, Tensor b, Tensor* out) {
    bool t = g_track; g_track = false;
    switch (g_op) { case ADD: aitisa_add(a, b, out); break; case SUB: aitisa_sub(a, b, out); break; case MUL: aitisa_mul(a, b, out); break; case DIV: aitisa_div(a, b, out); break; case MATMUL: aitisa_matmul(a, b, out); break; default: aitisa_dot(a, b, out); }
    g_track = t;
  }
};
static bool g_lib_freed;
static void* lib_alloc(size_t n) { return vf::take(n); }
static void lib_free(void* p) {
  if (!p) return;
  if (vf::owns(p)) { vf::give(p); return; }
  int i = find(p);
  if (i >= 0 && blk[i].live) { g_lib_freed = true; blk[i].live = false; __asan_poison_memory_region(p, blk[i].n); return; }
  g_bad = "a buffer was released twice";
}
static void s_library_sample() {
  static const Op ops[] = {ADD, SUB, MUL, DIV, MATMUL, DOT};
  heap_reset(); vf::reset();
  g_op = ops[mc::choose(6)];
  Case c; c.op = g_op; int dt = mc::choose(10);
  static const std::vector<Dims> sh = {{1}, {2}, {3}, {1, 2}, {2, 2}, {2, 3}, {3, 3}, {2, 1, 2}};
  const Dims& d = mc::pick(sh);
  Dims e = d; if (g_op >= MATMUL && d.size() >= 2) std::swap(e[d.size() - 1], e[d.size() - 2]);
  c.in.push_back(RT(dt, d)); c.in.push_back(RT(dt, e));
  fill(c.in[0], P_POS, 1); fill(c.in[1], P_POS, 2);
  Expect x = ref_eval(c);
  if (!x.ok) mc::skip();
  mc::start();
  mc::describe([&] { return "get_binary_sample over " + show(c); });
  aitisa_set_default_cpu_raw_alloc(lib_alloc); aitisa_set_default_cpu_raw_dealloc(lib_free);
  for (int k = 0; k < 2; k++) { g_v[k].dims.assign(c.in[k].dims.begin(), c.in[k].dims.end()); g_v[k].dtype = dt; g_v[k].data = c.in[k].data; g_v[k].has_dims = g_v[k].has_data = true; }
  g_lib_freed = false;
  typedef Sample<Binary_Input> Sm; Sm* s = nullptr;
  if (!survives([&] { s = new Sm(get_binary_sample<Registered>(mc::choose(2))); })) { if (!g_lib_freed) mc::fail("%s: %s", "producing a sample", kCrash); }
  if (g_lib_freed) { mc::deviation("%s: producing a library-computed sample releases the data of the input it returns", show(c).c_str()); g_bad = nullptr; }
  if (g_bad) mc::fail("producing a sample: %s", g_bad);
  if (s) {
    Result& r = s->result();
    RT out(dt, Dims(r.dims(), r.dims() + r.ndim()));
    if (r.ndim() != (int64_t)x.out.dims.size() || out.dims != x.out.dims || r.dtype() != x.out.dt || r.device() != 0 || r.len() != x.out.data.size()) mc::fail("%s: the sample's result has other attributes than the library's", show(c).c_str());
    memcpy(out.data.data(), r.data(), r.len());
    std::string why = compare_rt(x, out); if (!why.empty()) mc::fail("%s: the sample's result: %s", show(c).c_str(), why.c_str());
    std::vector<Part> p = parts(s->input());
    for (int k = 0; k < 2; k++) {
      if (!alive(p[k].dims) || p[k].ndim != (int64_t)c.in[k].dims.size() || memcmp(p[k].dims, c.in[k].dims.data(), 8 * p[k].ndim) || p[k].len != c.in[k].data.size() || p[k].dtype != dt) mc::fail("%s: the sample's input has other attributes than the registered one", show(c).c_str());
      if (!g_lib_freed && (!alive(p[k].data) || memcmp(p[k].data, c.in[k].data.data(), p[k].len))) mc::fail("%s: the sample's input does not hold the registered data", show(c).c_str());
    }
    if (!g_lib_freed) {
      const void* rc = r.count(), *ic = s->input().count();
      if (!survives([&] { delete s; })) mc::fail("%s: destroying the sample %s", show(c).c_str(), kCrash);
      if (g_bad) mc::fail("%s: destroying the sample: %s", show(c).c_str(), g_bad);
    }
    mc::outcome(mc::hash_bytes(out.data.data(), out.data.size(), c.op));
  }
  if (vf::live()) mc::fail("%s: producing a sample leaves %zu library blocks held:%s", show(c).c_str(), vf::live(), vf::dump().c_str());
  heap_reset(); vf::reset();
}

int main(int argc, char** argv) {
  mc::Check c{"C22", "model_checking", {
    {"unary", s_unary, "every sequence of 6 (thorough 7) operations on three variables: 4 constructors, copy, move, assignment (also to itself and to a moved-from holder), destruction, change of device"},
    {"binary", s_binary, "the same for two-tensor inputs"},
    {"result", s_result, "every sequence of 8 (thorough 9) operations on three variables: construction, copy, move, assignment, setting a result, destruction"},
    {"sample", s_sample, "every sequence of 6 (thorough 7) operations on two samples and two inputs, of one and of two tensors"},
    {"conv_input", s_conv_input, "every sequence of 6 (thorough 7) constructions, copies, assignments and destructions of three convolution inputs"},
    {"library_sample", s_library_sample, "6 operations x 10 types x 8 shapes x which registered input"}
  }, {"copying or assigning from a moved-from holder is outside the property", "data are set on a holder that has none yet", "buffers handed to a holder come from operator new[]"}};
  return mc::run(argc, argv, c);
}
