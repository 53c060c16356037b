// All memory goes through the installed allocator pair.
// Four pairs, each noticing when it is called without being installed; the C library's own functions refuse to be
// called by the library while another pair is installed, and every malloc of the process is watched during a call.
#include "spaces.h"
extern "C" {   // of the AddressSanitizer runtime
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
void __asan_poison_memory_region(void const volatile*, size_t);
void __asan_unpoison_memory_region(void const volatile*, size_t);
}

static int g_alloc, g_dealloc;                 // what is installed; 0 is the pair the library starts with
static bool g_in_call; static int g_depth; static long g_hidden;
static long g_taken[4], g_given[4];
static RawAlloc first_alloc; static RawDealloc first_dealloc;

struct Inside { Inside() { g_depth++; } ~Inside() { g_depth--; } };
template <int K> static void* pool_alloc(size_t n) {
  Inside i;
  if (g_alloc != K) mc::fail("memory was requested from allocation function %d while %d is installed", K, g_alloc);
  g_taken[K]++;
  return vf::take(n);
}
template <int K> static void pool_dealloc(void* p) {
  Inside i;
  if (g_dealloc != K) mc::fail("memory was released to release function %d while %d is installed", K, g_dealloc);
  if (!p) return;
  g_given[K]++;
  vf::give(p);
}
static RawAlloc allocs[4]; static RawDealloc deallocs[4];
static void watch(const volatile void*, size_t) { if (g_in_call && !g_depth) g_hidden++; }
static void watch_free(const volatile void* p) { if (p && g_in_call && !g_depth) g_hidden++; }
static void prepare() {
  if (allocs[0]) return;
  first_alloc = aitisa_default_cpu_allocator()->raw_alloc; first_dealloc = aitisa_default_cpu_allocator()->raw_dealloc;
  allocs[0] = first_alloc; allocs[1] = pool_alloc<1>; allocs[2] = pool_alloc<2>; allocs[3] = pool_alloc<3>;
  deallocs[0] = first_dealloc; deallocs[1] = pool_dealloc<1>; deallocs[2] = pool_dealloc<2>; deallocs[3] = pool_dealloc<3>;
  __sanitizer_install_malloc_and_free_hooks(watch, watch_free);
}
static void direct_rule() { vf::direct_alloc_is_error = g_alloc != 0; vf::direct_free_is_error = g_dealloc != 0; }
static void install(int a, int d) {
  g_alloc = a; g_dealloc = d;
  aitisa_set_default_cpu_raw_alloc(allocs[a]); aitisa_set_default_cpu_raw_dealloc(deallocs[d]);
  direct_rule();
}
static void install_pair(int k) { g_alloc = g_dealloc = k; Allocator x; x.raw_alloc = allocs[k]; x.raw_dealloc = deallocs[k]; *aitisa_default_cpu_allocator() = x; direct_rule(); }
static void fresh() { prepare(); g_in_call = false; g_depth = 0; vf::reset(); vf::reset_env(); vf::rand_hook = [] { return 0; }; install(0, 0); for (int i = 0; i < 4; i++) g_taken[i] = g_given[i] = 0; }
template <class F> static Status during(F f, const std::string& what) {
  g_hidden = 0; g_in_call = g_alloc != 0 && g_dealloc != 0;
  Status s = f();
  g_in_call = false;
  if (g_hidden) mc::fail("%s: memory was obtained or released behind the installed pair's back %ld times", what.c_str(), g_hidden);
  return s;
}
static Status go(Live& l) { Tensor o = l.out; Status s; const Case& c = l.c; s = during([&] { return call(c, l.a, l.in, &o); }, show(c)); l.out = o; return s; }
static void destroy(Tensor* t, const char* what) { during([&] { return aitisa_destroy(t); }, std::string("destroying ") + what); }

// Inputs from one pair, the call under another allocation and release function, everything destroyed under a third.
static void phases(const Case& c, const Expect*, int pi, int ca, int cd, int pd, long fault) {
  fresh();
  mc::describe([&] { return show(c) + mc::fmt(": inputs by pair %d, the call under functions %d and %d%s, destroyed under pair %d", pi, ca, cd, fault >= 0 ? mc::fmt(" with request %ld refused", fault + 1).c_str() : "", pd); });
  install_pair(pi);
  size_t zero = vf::live();
  Live l(c);
  size_t held = vf::live();
  install(ca, cd);
  vf::begin(); direct_rule(); vf::fail_at = fault;
  Status s = go(l);
  long got = g_taken[ca];
  vf::begin(); direct_rule();
  bool own = c.op == CREATE && c.n64 >= 0, taken = own && s == STATUS_SUCCESS;
  uint64_t h = mc::mix(mc::mix(c.op, s), mc::mix(pi * 64 + ca * 16 + cd * 4 + pd, got));
  install_pair(pd);
  if (s == STATUS_SUCCESS) { h ^= hash_rt(snap(l.out)); destroy(&l.out, "the result"); }
  if (vf::live() != held - taken) mc::fail("%s: the installed pair handed out memory that was not released to it: %zu blocks instead of %zu:%s", show(c).c_str(), vf::live(), held - taken, vf::dump().c_str());
  unalias(l.in, c.in.size());
  for (size_t i = 0; i < c.in.size(); i++) destroy(&l.in[i], "an input");
  if (own && !taken) aitisa_default_cpu_allocator()->raw_dealloc(l.a.buf);
  if (vf::live() != zero) mc::fail("%s: %zu blocks were not released:%s", show(c).c_str(), vf::live(), vf::dump().c_str());
  mc::outcome(h); mc::evals(3);
  install(0, 0); vf::reset();
}

static void catalog() {
  Op o = mc::pick(all_ops); mc::start_once();
  Case c; gen(o, TINY, c);
  int pi = mc::choose(3), ca = mc::choose(3), cd = mc::choose(3), pd = mc::tier_thorough() ? mc::choose(3) : (ca + 1) % 3;
  phases(c, nullptr, pi, ca, cd, pd, -1);
}
static void faults() {
  Op o = mc::pick(all_ops); mc::start_once();
  Case c; gen(o, TINY, c);
  fresh(); long n; { Live l(c); vf::begin(); l.go(); n = vf::requests; } vf::reset();
  if (!n) mc::skip();
  long k = mc::choose((int)n);
  int ca = mc::range(1, 2);
  phases(c, nullptr, 3, ca, ca, 3 - ca, k);
}
template <int OP> static void op() { Case c; gen((Op)OP, SMALL, c); phases(c, nullptr, 1, 2, 2, 1, -1); }
static void space(const Case& c, const Expect&) { phases(c, nullptr, 3, 1, 2, 2, -1); }

// Sequences: swap either function or both, make, compute, overwrite, destroy, in any order.
static void sequence() {
  const int depth = mc::tier_thorough() ? 6 : 5;
  fresh();
  Tensor slot[2] = {}; std::string trail;
  Tensor base[2] = {nullptr, nullptr};
  for (int n = 0; n < depth; n++) {
    int k = mc::choose(13);
    if (n == 2) mc::start();
    int x = k >= 6 ? mc::choose(2) : 0;
    if (k < 3) { if (g_alloc == k) mc::skip(); install(k, g_dealloc); trail += mc::fmt(" alloc:=%d", k); }
    else if (k < 6) { if (g_dealloc == k - 3) mc::skip(); install(g_alloc, k - 3); trail += mc::fmt(" release:=%d", k - 3); }
    else {
      Tensor& t = slot[x]; Tensor r = nullptr; Status s = STATUS_SUCCESS;
      int64_t d[] = {1, 2, 2}, d2[] = {4}; int z[] = {0, 0, 0}, one[] = {1, 1, 1};
      trail += mc::fmt(" f%d(%d)", k, x);
      if (k == 6) { if (!t) mc::skip(); destroy(&t, "a tensor"); continue; }
      if (k > 8 && !t) mc::skip();
      if (k <= 8 && t) mc::skip();
      switch (k) {
        case 7: s = during([&] { return aitisa_full(mkdt(TYPE_FLOAT), mkdev(0), d, 3, 2, &r); }, trail); break;
        case 8: { void* b = aitisa_default_cpu_allocator()->raw_alloc(16); memset(b, 0, 16); s = during([&] { return aitisa_create(mkdt(TYPE_FLOAT), mkdev(0), d, 3, b, 16, &r); }, trail); break; }
        case 9: s = during([&] { return aitisa_matmul(t, t, &r); }, trail); break;
        case 10: s = during([&] { return aitisa_reshape(t, d2, 1, &r); }, trail); if (s == STATUS_SUCCESS) { destroy(&r, "a reshaped tensor"); continue; } break;
        case 11: s = during([&] { return aitisa_slice(t, z, z, one, &r); }, trail); if (s == STATUS_SUCCESS) { Tensor q = nullptr; s = during([&] { return aitisa_dot(r, t, &q); }, trail); destroy(&r, "a slice"); r = q; } break;
        case 12: s = during([&] { return aitisa_softmax(t, 1, &r); }, trail); break;
      }
      if (s == STATUS_SUCCESS && r) { if (t) destroy(&t, "an overwritten tensor"); t = r; }
    }
    mc::evals(1);
  }
  mc::describe([&] { return "sequence" + trail; });
  mc::outcome(mc::mix(mc::mix(g_taken[1], g_taken[2]), mc::mix(g_given[1], g_given[2])) + g_alloc * 3 + g_dealloc);
  for (auto& t : slot) if (t) destroy(&t, "a tensor");
  if (vf::live()) mc::fail("after%s and destroying everything: %zu blocks were not released:%s", trail.c_str(), vf::live(), vf::dump().c_str());
  install(0, 0); vf::reset();
  (void)base;
}

// A program's own pool of a fixed size, from which blocks are handed out first fit; the memory outside it is poisoned.
static unsigned char g_arena[1 << 20] __attribute__((aligned(16)));
struct ABlk { size_t at, n; bool used; };
static std::vector<ABlk> g_ab; static size_t g_cap;
static void* arena_alloc(size_t n) {
  Inside i;
  size_t m = (n + 15) / 16 * 16 + 16;
  for (size_t k = 0; k < g_ab.size(); k++) if (!g_ab[k].used && g_ab[k].n >= m) {
    if (g_ab[k].n > m) g_ab.insert(g_ab.begin() + k + 1, ABlk{g_ab[k].at + m, g_ab[k].n - m, false});
    g_ab[k].n = m; g_ab[k].used = true;
    __asan_unpoison_memory_region(g_arena + g_ab[k].at, n);
    memset(g_arena + g_ab[k].at, 0xA5, n);
    return g_arena + g_ab[k].at;
  }
  return nullptr;
}
static void arena_dealloc(void* p) {
  Inside i;
  if (!p) return;
  size_t at = (unsigned char*)p - g_arena;
  for (size_t k = 0; k < g_ab.size(); k++) if (g_ab[k].used && g_ab[k].at == at) {
    __asan_poison_memory_region(g_arena + at, g_ab[k].n);
    g_ab[k].used = false;
    if (k + 1 < g_ab.size() && !g_ab[k + 1].used) { g_ab[k].n += g_ab[k + 1].n; g_ab.erase(g_ab.begin() + k + 1); }
    if (k && !g_ab[k - 1].used) { g_ab[k - 1].n += g_ab[k].n; g_ab.erase(g_ab.begin() + k); }
    return;
  }
  mc::fail("a block that the pool did not hand out, or that was released before, was released to it");
}
static void pool() {
  Op o = mc::pick(all_ops); mc::start_once();
  Case c; gen(o, TINY, c);
  Expect e = ref_eval(c);
  fresh();
  size_t cap = mc::pick(std::vector<size_t>{1 << 20, 16384, 4096, 2048, 1024, 512, 256, 128});
  mc::describe([&] { return show(c) + mc::fmt(" in a pool of %zu bytes", cap); });
  g_ab = {{0, cap, false}}; g_ab.reserve(4096);
  __asan_poison_memory_region(g_arena, sizeof g_arena);
  g_alloc = g_dealloc = 3;
  aitisa_set_default_cpu_raw_alloc(arena_alloc); aitisa_set_default_cpu_raw_dealloc(arena_dealloc); direct_rule();
  bool room = true; Tensor in[5] = {};
  for (size_t i = 0; i < c.in.size() && room; i++) {
    Dims d = c.in[i].dims; if (d.empty()) d.reserve(1);
    Status s = during([&] { return aitisa_create(mkdt(c.in[i].dt), mkdev(c.in[i].dev), d.data(), (int64_t)d.size(), nullptr, 0, &in[i]); }, "creating an input");
    room = s == STATUS_SUCCESS;
    if (room && !c.in[i].data.empty()) memcpy(aitisa_tensor_data(in[i]), c.in[i].data.data(), c.in[i].data.size());
  }
  Status s = STATUS_ALLOC_FAILED; Tensor out = nullptr; bool taken = false; void* buf = nullptr;
  if (room && !(c.op == CREATE && c.n64 >= 0)) {
    Args a(c);
    s = during([&] { return call(c, a, in, &out); }, show(c));
    if (s == STATUS_SUCCESS) {
      std::string d = compare(e, out);
      if (c.op != DROPOUT && !d.empty()) mc::fail("%s in a pool of %zu bytes: %s", show(c).c_str(), cap, d.c_str());
      if ((unsigned char*)out < g_arena || (unsigned char*)out >= g_arena + cap || (aitisa_tensor_size(out) && ((unsigned char*)aitisa_tensor_data(out) < g_arena || (unsigned char*)aitisa_tensor_data(out) >= g_arena + cap))) mc::fail("%s: the result lies outside the pool", show(c).c_str());
      destroy(&out, "the result");
    }
  }
  for (size_t i = 0; i < c.in.size(); i++) if (in[i]) destroy(&in[i], "an input");
  if (g_ab.size() != 1 || g_ab[0].used) mc::fail("%s in a pool of %zu bytes: the pool is not empty afterwards", show(c).c_str(), cap);
  if (cap == 1 << 20 && s != STATUS_SUCCESS && !(c.op == CREATE && c.n64 >= 0)) mc::fail("%s fails in a pool of a megabyte", show(c).c_str());
  mc::outcome(mc::mix(mc::mix(o, s), cap)); mc::evals(1);
  __asan_unpoison_memory_region(g_arena, sizeof g_arena);
  (void)taken; (void)buf;
  install(0, 0); vf::reset();
}

int main(int argc, char** argv) {
  mc::Check c{"C20", "model_checking", {
    {"catalogue", catalog, "the catalogue of calls of all 24 entry points x the pair that made the inputs (3) x allocation and release function during the call (9) x the pair at destruction (1, thorough 3)"},
    {"faults", faults, "the catalogue x every request refused x 2 pairs"},
    {"sequences", sequence, "every sequence of 5 (thorough 6) steps out of 13 kinds: installing one of 3 allocation or release functions, making, computing, overwriting, destroying over two slots"},
    {"pool", pool, "the catalogue in a poisoned first-fit pool of 8 sizes"},
#define S(o) {#o, op<o>, "every request of the small space of this operation, valid or not, in a pair of its own"},
    S(ADD) S(DIV) S(CAST) S(RESHAPE) S(SQUEEZE) S(DUP) S(SLICE) S(FULL) S(CREATE) S(MATMUL) S(DOT) S(SQRT) S(RELU) S(SIGMOID) S(TANH) S(SOFTMAX) S(POOL) S(CONV) S(CONV2D) S(CONV3D) S(BN) S(DROPOUT)
  }, {"allocator functions are exchanged between calls only", "memory obtained without malloc, mmap or sbrk (static objects, the stack) is outside the property"}};
  add_spaces(c, space, {"C06/many_dimensions", "C08/many_dimensions", "C10/many_dimensions", "C11/many_dimensions", "C15/many_dimensions", "C05/no_elements", "C06/no_elements", "C07/no_elements", "C08/no_elements", "C10/no_elements", "C11/no_elements", "C12/no_elements", "C13/no_elements", "C15/no_elements", "C16/no_elements", "C14/no_batches", "C05/lengths", "C05/high_rank", "C06/lengths", "C08/high_rank", "C10/ranks_0_3", "C10/sizes", "C11/ranks_0_3", "C12/groups", "C12/ranks", "C12/long", "C13/ranks", "C13/long", "C14/axes_ranks", "C15/high_rank", "C16/lengths"},
    {"*/very_long", "*/patterns", "*/words"}, {"C16/all_16_bit", "C16/float_patterns", "C16/double_patterns", "C06/float_patterns"});
  return mc::run(argc, argv, c);
}
