// A created tensor is exactly what was asked for, and reports it back.
#include "run.h"
#include <unordered_map>
#define aitisa_dims_of(x) Dims(aitisa_tensor_dims(x), aitisa_tensor_dims(x) + aitisa_tensor_ndim(x))
#include <sys/mman.h>
#include <cmath>
#include <map>

static bool dead_end(const Dims& d) { return prod(d) > 4096; }

static void inspect(const Tensor t, const RT& want, const void* data) {   // every way of asking
  for (int round = 0; round < 2; round++) {
    DataType dt; Device dv; int64_t* dims = nullptr; int64_t nd = -1; void* p = nullptr; unsigned len = 77;
    memset(&dt, 0xEE, sizeof dt); memset(&dv, 0xEE, sizeof dv);
    Ident before = ident(t);
    Status s = aitisa_resolve(t, &dt, &dv, &dims, &nd, &p, &len);
    if (s != STATUS_SUCCESS) mc::fail("resolve returned status %d", (int)s);
    if (!same(before, ident(t))) mc::fail("resolve changed the tensor");
    if ((int)dt.code != want.dt || dt.size != dsize(want.dt)) mc::fail("resolve reports type code %d of %d bytes for %s", (int)dt.code, dt.size, show(want, 0).c_str());
    Device wd = mkdev(want.dev);
    if (dv.type != wd.type || dv.id != wd.id) mc::fail("resolve reports device %d/%d instead of %d/%d", (int)dv.type, dv.id, (int)wd.type, wd.id);
    if (nd != (int64_t)want.dims.size()) mc::fail("resolve reports %lld dimensions for %s", (long long)nd, show(want, 0).c_str());
    for (int64_t i = 0; i < nd; i++) if (dims[i] != want.dims[i]) mc::fail("resolve reports dimension %lld as %lld for %s", (long long)i, (long long)dims[i], show(want, 0).c_str());
    if (p != aitisa_tensor_data(t)) mc::fail("resolve reports another data buffer than the tensor's");
    if (data && p != data) mc::fail("the tensor does not use the buffer the caller supplied");
    if (len != (unsigned)(want.size() * dsize(want.dt))) mc::fail("resolve reports %u bytes for %s", len, show(want, 0).c_str());
    Device ad = aitisa_tensor_device(t); DataType at = aitisa_tensor_data_type(t);
    if (ad.type != wd.type || ad.id != wd.id || (int)at.code != want.dt || at.size != dsize(want.dt)) mc::fail("the accessors report another type or device than asked for");
    if (aitisa_tensor_ndim(t) != nd || aitisa_tensor_size(t) != want.size()) mc::fail("the accessors report %lld dimensions, %lld elements for %s", (long long)aitisa_tensor_ndim(t), (long long)aitisa_tensor_size(t), show(want, 0).c_str());
    for (int64_t i = 0; i < nd; i++) if (aitisa_tensor_dim(t, i) != want.dims[i] || aitisa_tensor_dims(t)[i] != want.dims[i]) mc::fail("the accessors report dimension %lld as %lld", (long long)i, (long long)aitisa_tensor_dim(t, i));
    std::string w = well_formed(t);
    if (!w.empty()) mc::fail("%s", w.c_str());
  }
}

static std::vector<Dims> with_zero(int ndim, int dmax) {   // lengths 0..dmax
  std::vector<Dims> v = {{}}; size_t from = 0;
  for (int n = 1; n <= ndim; n++) { size_t to = v.size(); for (size_t i = from; i < to; i++) for (int d = 0; d <= dmax; d++) { Dims x = v[i]; x.push_back(d); v.push_back(x); } from = to; }
  return v;
}

// No buffer supplied.  Afterwards the caller reuses and frees its array.
static void create_plain(const Dims& s, int dt, int dev) {
  mc::describe([&] { return mc::fmt("create %s%s device %d without a buffer", dt_name[dt], show(s).c_str(), dev); });
  vf::reset();
  RT want(dt, s, dev);
  int64_t* d = (int64_t*)malloc(s.size() * 8); memcpy(d, s.data(), s.size() * 8);
  Tensor t = nullptr;
  Status st = aitisa_create(mkdt(dt), mkdev(dev), d, (int64_t)s.size(), nullptr, 0, &t);
  if (st != STATUS_SUCCESS || !t) mc::fail("create %s returned status %d", show(want, 0).c_str(), (int)st);
  for (size_t i = 0; i < s.size(); i++) { if (d[i] != s[i]) mc::fail("create changed the caller's shape array"); d[i] = 12345 + i; }
  inspect(t, want, nullptr);
  free(d);
  inspect(t, want, nullptr);
  size_t n = 0;
  if (want.size() && vf::owns(aitisa_tensor_data(t), &n) && n < want.data.size()) mc::fail("the tensor's buffer holds %zu bytes instead of %zu", n, want.data.size());
  fill(want, P_INJ, 3);
  if (want.data.size()) memcpy(aitisa_tensor_data(t), want.data.data(), want.data.size());
  inspect(t, want, nullptr);
  std::string diff = differs(want, snap(t));
  if (!diff.empty()) mc::fail("after writing the data of %s: %s", show(want, 0).c_str(), diff.c_str());
  mc::outcome(hash_rt(want)); mc::evals(2 + want.size());
  aitisa_destroy(&t);
  vf::reset();
}
static void create_small() {
  static const std::vector<Dims> sh = with_zero(mc::tier_thorough() ? 5 : 4, 3);
  Dims s = mc::pick(sh); mc::start();
  int dt = mc::choose(10), dev = mc::choose(3);
  create_plain(s, dt, dev);
}
static void create_high() {
  static const std::vector<Dims> sh = with_zero(mc::tier_thorough() ? 8 : 7, 2);
  Dims s = mc::pick(sh); mc::start();
  if (s.size() < 5 || dead_end(s)) mc::skip();
  create_plain(s, (int)(mc::mix(s.size(), prod(s)) % 10), (int)(prod(s) % 3));
}
static void create_len() {
  int64_t n = mc::pick(lengths()); mc::start();
  create_plain(mc::choose(2) ? Dims{n} : Dims{1, n, 1}, mc::choose(10), 0);
}

// A buffer supplied, of every length around the exact one.
static void create_buf() {
  static const std::vector<Dims> sh = [] { auto v = with_zero(3, 3); v.push_back({2, 1, 3, 2}); v.push_back({1, 1, 1, 1, 1, 2}); v.push_back({40}); return v; }();
  Dims s = mc::pick(sh); int dt = mc::choose(10); mc::start();
  int es = dsize(dt); int64_t n = prod(s), exact = n * es;
  int k = mc::choose(2 * es + 3 + 6);
  int64_t len;
  if (k < 2 * es + 3) len = exact - es - 1 + k;
  else { const int64_t more[] = {0, exact * 2, exact * 8, n, exact + 4 * es, exact / 2}; len = more[k - (2 * es + 3)]; }
  if (len < 0) mc::skip();
  int dev = mc::choose(2);
  mc::describe([&] { return mc::fmt("create %s%s device %d with a buffer of %lld bytes", dt_name[dt], show(s).c_str(), dev, (long long)len); });
  vf::reset();
  bool ok = len / es == n;
  int64_t cap = len > exact ? len : exact;                  // the buffer the caller really has
  uint8_t* buf = (uint8_t*)aitisa_default_cpu_allocator()->raw_alloc(cap ? cap : 1);
  std::vector<uint8_t> held(cap); for (int64_t i = 0; i < cap; i++) held[i] = (uint8_t)(i * 29 + 3);
  if (cap) memcpy(buf, held.data(), cap);
  int64_t* d = (int64_t*)malloc(s.size() * 8); memcpy(d, s.data(), s.size() * 8);
  Tensor keep = (Tensor)0x1230, t = keep;
  Status st = aitisa_create(mkdt(dt), mkdev(dev), d, (int64_t)s.size(), buf, (unsigned)len, &t);
  free(d);
  if (!ok) {
    if (st != STATUS_INVALID_ARGUMENT) mc::fail("create %s%s with a buffer of %lld bytes returned status %d, expected INVALID_ARGUMENT", dt_name[dt], show(s).c_str(), (long long)len, (int)st);
    if (t != keep) mc::fail("a rejected creation changed the caller's handle");
    if (!vf::owns(buf)) mc::fail("a rejected creation released the caller's buffer");
    if (cap && memcmp(buf, held.data(), cap)) mc::fail("a rejected creation changed the caller's buffer");
    mc::outcome(mc::mix(dt, len - exact));
    vf::reset(); return;
  }
  if (st != STATUS_SUCCESS || t == keep || !t) mc::fail("create %s%s with a buffer of %lld bytes returned status %d", dt_name[dt], show(s).c_str(), (long long)len, (int)st);
  RT want(dt, s, dev);
  inspect(t, want, buf);
  if (cap && memcmp(buf, held.data(), cap)) mc::fail("creation changed the contents of the supplied buffer");
  // shared both ways
  for (int64_t i = 0; i < exact; i++) { buf[i] ^= 0x5A; if (((uint8_t*)aitisa_tensor_data(t))[i] != buf[i]) mc::fail("the tensor does not see writes to the supplied buffer"); }
  size_t n0 = vf::live();
  aitisa_destroy(&t);
  if (vf::owns(buf)) mc::fail("destroying the tensor did not release the buffer it took over (%zu blocks before, %zu after)", n0, vf::live());
  mc::outcome(hash_rt(want) + 1);
  vf::reset();
}

// Element counts that agree with the buffer only modulo 2^32 or 2^64, and shapes nobody can count.
static void create_extreme() {
  mc::start();
  int dt = mc::choose(10), es = dsize(dt);
  static const std::vector<Dims> sh = {{1ll << 32}, {(1ll << 32) + 1}, {1ll << 16, 1ll << 16}, {1ll << 16, (1ll << 16), 1}, {3, 1ll << 32}, {(1ll << 32) + 6},
    {1ll << 31}, {1ll << 31, 2}, {1ll << 62, 4}, {1ll << 32, 1ll << 32}, {1ll << 61, 8, 1}, {1ll << 62, 1ll << 62}, {INT64_MAX}, {INT64_MAX, INT64_MAX}, {3037000500ll, 3037000500ll}, {(1ll << 60) + 1}, {(1ll << 61) + 1}, {(1ll << 62) + 1},
    {-1}, {-1, -1}, {2, -3}, {-2, 3}, {0, -1}, {-1, 0}, {INT64_MIN}, {INT64_MIN, 2}, {1, -1, -1}, {-2147483648ll}, {-1, -6}, {6, -1, -1}};
  Dims s = mc::pick(sh);
  bool neg = false; unsigned __int128 bytes = es; for (auto x : s) { if (x < 0) neg = true; }
  bool huge = false; if (!neg) for (auto x : s) { if (x && bytes > (((unsigned __int128)1 << 100) / x)) bytes = (unsigned __int128)1 << 100; else bytes *= x; }
  huge = bytes > INT64_MAX;
  int k = mc::choose(5); int64_t low = (int64_t)(uint32_t)(uint64_t)[&] { uint64_t r = 1; for (auto x : s) r *= (uint64_t)x; return r; }();
  int64_t len = k == 0 ? -1 : k == 1 ? 0 : k == 2 ? low * es : k == 3 ? 6 * es : es;
  if (len > (1ll << 20)) mc::skip();
  if (k == 0 && !neg && !huge && bytes <= vf::max_block) mc::skip();
  mc::describe([&] { return mc::fmt("create %s%s buffer length %lld", dt_name[dt], show(s).c_str(), (long long)len); });
  vf::reset();
  uint8_t* buf = len >= 0 ? (uint8_t*)aitisa_default_cpu_allocator()->raw_alloc(len + 1) : nullptr;
  Tensor keep = (Tensor)0x1230, t = keep;
  Dims d = s;
  Status st = aitisa_create(mkdt(dt), mkdev(0), d.data(), (int64_t)d.size(), buf, len >= 0 ? (unsigned)len : 0, &t);
  // creating without a buffer what is countable but beyond memory: out of memory
  unsigned allowed = neg ? B(STATUS_INVALID_ARGUMENT) | (s.size() > 1 ? B(STATUS_ALLOC_FAILED) : 0) : len >= 0 ? B(STATUS_INVALID_ARGUMENT) | (huge ? B(STATUS_ALLOC_FAILED) : 0) : B(STATUS_ALLOC_FAILED) | B(STATUS_INVALID_ARGUMENT);
  if (!((unsigned)st < 9 && (allowed & B(st)))) mc::fail("create %s%s with buffer length %lld returned status %d, expected %s", dt_name[dt], show(s).c_str(), (long long)len, (int)st, allowed_names(allowed).c_str());
  if (t != keep) mc::fail("a rejected creation changed the caller's handle");
  if (d != s) mc::fail("a rejected creation changed the caller's shape array");
  if (buf && !vf::owns(buf)) mc::fail("a rejected creation released the caller's buffer");
  mc::outcome(mc::mix(st, len));
  vf::reset();
}

// Shapes with more than 2^31 and 2^32 elements, on lazily committed memory.
static std::map<void*, size_t> g_maps;
static void* big_alloc(size_t n) {
  void* p = mmap(nullptr, n ? n : 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return nullptr;
  g_maps[p] = n ? n : 1; return p;
}
static void big_free(void* p) { if (!p) return; auto i = g_maps.find(p); if (i == g_maps.end()) mc::fail("released memory that is not held"); munmap(p, i->second); g_maps.erase(i); }
struct BigMem {
  RawAlloc a; RawDealloc f;
  BigMem() { a = aitisa_default_cpu_allocator()->raw_alloc; f = aitisa_default_cpu_allocator()->raw_dealloc; aitisa_set_default_cpu_raw_alloc(big_alloc); aitisa_set_default_cpu_raw_dealloc(big_free); }
  ~BigMem() { aitisa_set_default_cpu_raw_alloc(a); aitisa_set_default_cpu_raw_dealloc(f); for (auto& m : g_maps) munmap(m.first, m.second); g_maps.clear(); }
};
static void create_huge() {
  mc::start();
  int dt = mc::choose(10), es = dsize(dt);
  static const std::vector<Dims> sh = {{(1ll << 31) - 1}, {1ll << 31}, {(1ll << 31) + 5}, {1ll << 16, 1ll << 15, 2}, {(1ll << 32) + 3}, {3, 1ll << 31}, {1ll << 17, 1ll << 17}, {1, (1ll << 33) + 7, 1}};
  Dims s = mc::pick(sh);
  mc::describe([&] { return mc::fmt("create %s%s on lazily committed memory", dt_name[dt], show(s).c_str()); });
  vf::reset();
  BigMem bm;
  Dims d = s; Tensor t = nullptr;
  Status st = aitisa_create(mkdt(dt), mkdev(0), d.data(), (int64_t)d.size(), nullptr, 0, &t);
  if (st != STATUS_SUCCESS) mc::fail("create %s%s with memory available returned status %d", dt_name[dt], show(s).c_str(), (int)st);
  int64_t n = prod(s);
  if (aitisa_tensor_size(t) != n) mc::fail("a tensor of shape %s reports %lld elements", show(s).c_str(), (long long)aitisa_tensor_size(t));
  std::string w = well_formed(t); if (!w.empty()) mc::fail("%s", w.c_str());
  auto m = g_maps.find(aitisa_tensor_data(t));
  if (m == g_maps.end() || m->second < (size_t)n * es) mc::fail("a tensor of shape %s took a buffer of %zu bytes", show(s).c_str(), m == g_maps.end() ? (size_t)0 : m->second);
  // one write at a boundary position: it lands there, and its image modulo 2^31 and 2^32 stays clear
  for (int64_t at : std::vector<int64_t>{0, 1, (1ll << 31) - 1, 1ll << 31, (1ll << 31) + 1, 1ll << 32, n / 2, n - 1}) {
    if (at < 0 || at >= n) continue;
    uint8_t v[8]; for (int i = 0; i < 8; i++) v[i] = (uint8_t)(0x81 + i);
    aitisa_tensor_set_item(t, at, v);
    uint8_t* base = (uint8_t*)aitisa_tensor_data(t);
    if (memcmp(base + at * es, v, es)) mc::fail("setting element %lld of a tensor of shape %s did not change it", (long long)at, show(s).c_str());
    for (int64_t o : std::vector<int64_t>{at - (1ll << 32), at - (1ll << 31), at + (1ll << 31), at & 0x7fffffff, at & 0xffffffff, at - 1, at + 1}) if (o >= 0 && o < n && o != at) { for (int i = 0; i < es; i++) if (base[o * es + i]) mc::fail("setting element %lld changed element %lld", (long long)at, (long long)o); }
    memset(base + at * es, 0, es);
    mc::evals(8);
  }
  mc::outcome(mc::mix(n, dt));
  aitisa_destroy(&t);
}
static void full_huge() {       // thorough: more than 2^31 elements really written
  mc::start();
  int dt = mc::pick(std::vector<int>{TYPE_INT8, TYPE_INT16});
  int64_t n = (1ll << 31) + 3;
  if (dt == TYPE_INT16) n = (1ll << 31) + 1;
  vf::reset();
  BigMem bm;
  Tensor t = nullptr; int64_t d[2] = {1, n};
  Status st = aitisa_full(mkdt(dt), mkdev(0), d, 2, 7, &t);
  if (st != STATUS_SUCCESS) mc::fail("full returned status %d", (int)st);
  int es = dsize(dt); uint8_t* p = (uint8_t*)aitisa_tensor_data(t);
  for (int64_t i = 0; i < n; i++) if (p[i * es] != 7) mc::fail("element %lld of a filled tensor of %lld elements is not set", (long long)i, (long long)n);
  mc::outcome(mc::mix(n, dt)); mc::evals(n);
  aitisa_destroy(&t);
}

static void full() {
  static const std::vector<Dims> sh = with_zero(mc::tier_thorough() ? 4 : 3, 3);
  Dims s = mc::pick(sh); int dt = mc::choose(10); mc::start();
  Case c; c.op = FULL; c.a64 = s; c.tdt = dt; c.dev = mc::choose(3);
  c.d = mc::pick(std::vector<double>{0, 1, 42, 100.75, -1, -128, -100.75, 127, 255, 32767, 65535, -32768, 2147483647.0, -2147483648.0, 4294967295.0, 4503599627370496.0, -4503599627370497.0, 9223372036854774784.0, -9223372036854775808.0, 18446744073709549568.0, 1e30, -1e300, 0.1, -0.9, 0.999, 1e-310, HUGE_VAL, -0.0});
  run_value(c);
}
static void full_len() {
  int64_t n = mc::pick(lengths()); mc::start();
  Case c; c.op = FULL; c.a64 = mc::choose(2) ? Dims{n} : Dims{1, 1, n}; c.tdt = mc::choose(10); c.d = 3;
  run_value(c);
}

// Two writes in either order: each changes its element only.
static void set_item() {
  Dims s = mc::pick(std::vector<Dims>{{1}, {}, {2}, {5}, {2, 3}, {2, 2, 2}, {1, 7}}); int dt = mc::choose(10); mc::start();
  int64_t n = prod(s); int es = dsize(dt);
  RT model(dt, s); fill(model, P_INJ, 5);
  int64_t a = mc::choose((int)n), b = mc::choose((int)n);
  mc::describe([&] { return mc::fmt("set elements %lld and %lld of %s%s", (long long)a, (long long)b, dt_name[dt], show(s).c_str()); });
  vf::reset();
  Tensor t = make(model);
  Ident id = ident(t);
  for (int k = 0; k < 2; k++) {
    int64_t at = k ? b : a;
    uint8_t* v = (uint8_t*)malloc(es);                       // exactly one element
    for (int i = 0; i < es; i++) v[i] = (uint8_t)(0xC1 + 7 * i + k * 31);
    aitisa_tensor_set_item(t, at, v);
    memcpy(&model.data[at * es], v, es);
    free(v);
    std::string d = differs(model, snap(t));
    if (!d.empty()) mc::fail("after setting element %lld of %s%s: %s", (long long)at, dt_name[dt], show(s).c_str(), d.c_str());
    if (!same(id, ident(t))) mc::fail("setting an element changed the tensor's shape or buffer");
  }
  mc::outcome(hash_rt(model)); mc::evals(2 * n);
  aitisa_destroy(&t);
  vf::reset();
}

// Typed access: the functions the library hands out for a type read, write and convert exactly one element.
static void typed() {
  mc::start();
  int dt = mc::choose(10), es = dsize(dt);
  int64_t n = 5, at = mc::choose(5); int kind = mc::choose(5);
  static const char* const kn[] = {"get", "get[]", "set", "set[]", "castto"};
  RT arr(dt, {n}); fill(arr, P_INJ, 9);
  RT val(dt, {1}); double d = 0;
  int v = mc::choose(6);
  if (kind == 4) {
    static const double al[] = {0, 1, 99.75, -100.25, 127, 3e9};
    d = al[v];
    RT src(TYPE_DOUBLE, {1}); src.put<double>(0, d);
    Case c = mk(CAST, {src}); c.tdt = dt; Expect e = ref_eval(c); val = e.out;
  } else { for (int i = 0; i < es; i++) val.data[i] = (uint8_t)(v == 0 ? 0 : v == 1 ? 0xFF : v == 2 ? 0x80 : v * 37 + i * 11); if (is_float(dt) && std::isnan(val.num(0))) mc::skip(); }
  mc::describe([&] { return mc::fmt("typed %s of element %lld of %s", kn[kind], (long long)at, dt_name[dt]); });
  uint8_t* a = (uint8_t*)malloc(n * es); memcpy(a, arr.data.data(), n * es);
  uint8_t* x = (uint8_t*)malloc(es); memcpy(x, val.data.data(), es);
  DataType T = mkdt(dt);
  RT want = arr;
  switch (kind) {
    case 0: aitisa_get_typed_value_func(T)(a + at * es, x); break;
    case 1: aitisa_get_typed_array_value_func(T)(a, at, x); break;
    case 2: aitisa_set_typed_value_func(T)(a + at * es, x); break;
    case 3: aitisa_set_typed_array_value_func(T)(a, at, x); break;
    case 4: { double* dd = (double*)malloc(8); *dd = d; aitisa_castto_typed_value_func(T)(a + at * es, dd); if (*dd != d) mc::fail("the conversion changed its source"); free(dd); break; }
  }
  if (kind >= 2) memcpy(&want.data[at * es], val.data.data(), es);
  if (memcmp(a, want.data.data(), n * es)) mc::fail("typed %s of element %lld of %s leaves a wrong array", kn[kind], (long long)at, dt_name[dt]);
  if (kind < 2 && memcmp(x, &arr.data[at * es], es)) mc::fail("typed %s of element %lld of %s reads a wrong value", kn[kind], (long long)at, dt_name[dt]);
  free(a); free(x);
  mc::outcome(hash_rt(want)); mc::evals(n);
}
static void constants() {
  mc::start();
  static const DataType* const k[] = {&kInt8, &kUint8, &kInt16, &kUint16, &kInt32, &kUint32, &kInt64, &kUint64, &kFloat, &kDouble};
  int i = mc::choose(10);
  mc::describe([&] { return std::string("constant of type ") + dt_name[i]; });
  if ((int)k[i]->code != i || k[i]->size != dsize(i)) mc::fail("the constant of type %s has code %d and %d bytes", dt_name[i], (int)k[i]->code, k[i]->size);
  mc::outcome(i + 1);
}

// Several tensors made from one shape array, in every order of making, checking and destroying.
static void many() {
  Dims s = mc::pick(shapes_upto(3, 2)); mc::start();
  int dt[3]; for (int i = 0; i < 3; i++) dt[i] = mc::pick(std::vector<int>{TYPE_INT8, TYPE_INT32, TYPE_DOUBLE, TYPE_UINT16});
  int order = mc::choose(6);
  static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  mc::describe([&] { return mc::fmt("three tensors of %s types %s %s %s from one array, destroyed in order %d", show(s).c_str(), dt_name[dt[0]], dt_name[dt[1]], dt_name[dt[2]], order); });
  vf::reset();
  Dims d = s; Tensor t[3] = {}; std::vector<RT> m;
  for (int i = 0; i < 3; i++) {
    RT r(dt[i], s, i % 2); fill(r, P_INJ, 20 + i);
    if (aitisa_create(mkdt(dt[i]), mkdev(i % 2), d.data(), (int64_t)d.size(), nullptr, 0, &t[i]) != STATUS_SUCCESS) mc::fail("create failed");
    memcpy(aitisa_tensor_data(t[i]), r.data.data(), r.data.size());
    if (!d.empty()) { std::swap(d.front(), d.back()); std::swap(d.front(), d.back()); }
    m.push_back(r);
  }
  for (size_t i = 0; i < d.size(); i++) d[i] = 99;
  for (int k = 0; k < 3; k++) {
    for (int i = 0; i < 3; i++) if (t[i]) { inspect(t[i], m[i], nullptr); std::string df = differs(m[i], snap(t[i])); if (!df.empty()) mc::fail("tensor %d: %s", i, df.c_str()); }
    aitisa_destroy(&t[perm[order][k]]);
  }
  mc::outcome(mc::mix(hash_rt(m[0]), hash_rt(m[1])));
  vf::reset();
}

// 70000 tensors alive at once, then gone in one of three orders.
static std::unordered_map<void*, size_t> g_held;
static void* held_alloc(size_t n) { void* p = malloc(n ? n : 1); if (p) g_held[p] = n; return p; }
static void held_free(void* p) { if (p && !g_held.erase(p)) mc::fail("released memory that is not held"); free(p); }
static void many_alive() {
  int order = mc::choose(3), kind = mc::choose(4); mc::start();
  int dt = mc::choose(10);
  const int N = 70000;
  mc::describe([&] { return mc::fmt("%d tensors of type %s alive at once, made in way %d, destroyed in order %d", N, dt_name[dt], kind, order); });
  vf::reset(); g_held.clear();
  RawAlloc oa = aitisa_default_cpu_allocator()->raw_alloc; RawDealloc of = aitisa_default_cpu_allocator()->raw_dealloc;
  aitisa_set_default_cpu_raw_alloc(held_alloc); aitisa_set_default_cpu_raw_dealloc(held_free);
  std::vector<Tensor> t(N); int es = dsize(dt);
  auto at = [&](int i) { Dims d; for (int k = 0; k < i % 4; k++) d.push_back(1 + (i + k) % 3); return d; };
  for (int i = 0; i < N; i++) {
    Dims d = at(i); int64_t n = prod(d); Status s;
    surroundings();
    if (kind == 0) s = aitisa_create(mkdt(dt), mkdev(i % 3), d.data(), (int64_t)d.size(), nullptr, 0, &t[i]);
    else if (kind == 1) s = aitisa_full(mkdt(dt), mkdev(i % 3), d.data(), (int64_t)d.size(), i % 100, &t[i]);
    else if (kind == 2) { void* b = held_alloc(n * es); s = aitisa_create(mkdt(dt), mkdev(i % 3), d.data(), (int64_t)d.size(), b, (unsigned)(n * es), &t[i]); }
    else s = i == 0 || d != aitisa_dims_of(t[i - 1]) ? aitisa_create(mkdt(dt), mkdev(i % 3), d.data(), (int64_t)d.size(), nullptr, 0, &t[i]) : aitisa_duplicate(t[i - 1], &t[i]);
    if (s != STATUS_SUCCESS) mc::fail("tensor %d of %d: status %d", i + 1, N, (int)s);
    uint8_t* p = (uint8_t*)aitisa_tensor_data(t[i]);
    if (kind != 1) for (int64_t k = 0; k < n * es; k++) p[k] = (uint8_t)(i * 31 + (i >> 8) * 7 + k);
  }
  for (int r = 0; r < N; r++) {
    int i = order == 0 ? r : order == 1 ? N - 1 - r : (int)((int64_t)r * 30011 % N);
    Dims d = at(i); int64_t n = prod(d);
    if (aitisa_dims_of(t[i]) != d || aitisa_tensor_size(t[i]) != n || (int)aitisa_tensor_data_type(t[i]).code != dt || aitisa_tensor_data_type(t[i]).size != es || (kind != 3 && aitisa_tensor_device(t[i]).type != mkdev(i % 3).type))
      mc::fail("tensor %d of %d alive at once is no longer what it was created as", i + 1, N);
    uint8_t* p = (uint8_t*)aitisa_tensor_data(t[i]);
    RT one(dt, {1}); if (kind == 1) one.set_i64(0, i % 100);
    for (int64_t k = 0; k < n * es; k++) if (p[k] != (kind == 1 ? one.data[k % es] : (uint8_t)(i * 31 + (i >> 8) * 7 + k))) mc::fail("tensor %d of %d alive at once lost its contents", i + 1, N);
    aitisa_destroy(&t[i]);
    if (t[i]) mc::fail("destroying tensor %d of %d did not clear the handle", i + 1, N);
  }
  if (!g_held.empty()) mc::fail("%zu blocks are held after destroying %d tensors", g_held.size(), N);
  aitisa_set_default_cpu_raw_alloc(oa); aitisa_set_default_cpu_raw_dealloc(of);
  mc::outcome(mc::mix(dt, kind)); mc::evals(N);
}
static void many_dims() {
  Dims s = mc::pick(tall()); mc::start();
  int dt = mc::choose(10);
  if (mc::choose(2)) { create_plain(s, dt, (int)(s.size() + dt) % 3); return; }
  Case c; c.op = FULL; c.a64 = s; c.tdt = dt; c.d = 7;
  run_value(c);
}
int main(int argc, char** argv) {
  mc::Check c{"C02", "model_checking", {
    {"create", create_small, "all shapes of up to 4 (thorough 5) dimensions with lengths 0..3 x 10 types x 3 devices"},
    {"create_high_rank", create_high, "all shapes of 5..7 (thorough 8) dimensions with lengths 0..2"},
    {"create_lengths", create_len, "lengths 1..300 and around 2^9..2^16 x 10 types"},
    {"create_buffer", create_buf, "all shapes of up to 3 dimensions with lengths 0..3 x 10 types x every buffer length within one element of the exact one, and others"},
    {"create_extreme", create_extreme, "negative, uncountable and 32-bit-wrapping shapes x 10 types x buffer lengths"},
    {"create_huge", create_huge, "8 shapes of 2^31..2^34 elements x 10 types on lazily committed memory, writes at the boundary positions"},
    {"full", full, "all shapes of up to 3 (thorough 4) dimensions with lengths 0..3 x 10 types x 3 devices x 28 values"},
    {"full_lengths", full_len, "lengths 1..300 and around 2^9..2^16 x 10 types"},
    {"set_item", set_item, "7 shapes x 10 types x every ordered pair of positions"},
    {"typed_access", typed, "5 kinds of typed access x 10 types x 5 positions x 6 values"},
    {"constants", constants, "the 10 type constants"},
    {"several", many, "three tensors made from one shape array, all shapes of up to 3 dimensions, types and orders of destruction"},
    {"many_alive", many_alive, "70000 tensors alive at once, made in 4 ways, destroyed in 3 orders, 10 types", 200},
    {"many_dimensions", many_dims, "~470 shapes of 9..300 and up to 66000 dimensions with up to ten lengths of 2 or 3, created plain and filled, 10 types x devices"},
  }, {"tensors of more than 2^32 bytes are not asked for their byte length (the interface reports it in 32 bits)", "fill values outside the range of the element type are excluded"}};
  if (mc::tier_thorough()) c.suites.push_back({"full_huge", full_huge, "more than 2^31 elements filled and read back, int8 and int16", 400});
  return mc::run(argc, argv, c);
}
