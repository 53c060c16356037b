// Auto-test conformance: the real typed tests, run against a user implementation that deviates in one chosen way.
// The user implementation is the library itself behind an opaque tensor of its own; one deviation (or none) is injected
// into the result for one of the inputs: rank, device, type, each dimension, byte length, each element by each amount.
#include "run.h"
#include "auto_test/auto_test.h"
#include "gtest/gtest-spi.h"
#include <cmath>
#include <iostream>
using namespace aitisa_api;

// ---- the user's tensor ----
struct UT { int dtype, device; std::vector<int64_t> dims; std::vector<uint8_t> data; int64_t ndim; unsigned len; };
typedef UT* UTP;
enum Dev { D_NONE, D_RANK_UP, D_RANK_DOWN, D_DEVICE, D_DTYPE, D_DIM, D_LEN, D_ELEM, D_INPUT };
static const char* const dev_name[] = {"no deviation", "one dimension more", "one dimension less", "another device", "another element type", "another dimension", "another byte length", "another element", ""};
static struct { Dev kind; int input; int64_t pos; int value; } g_dev;
static int g_ops, g_created; static std::string g_seen;        // calls so far in this run; what was wrong with the inputs it got
struct Given { int dtype, device; std::vector<int64_t> dims; std::vector<uint8_t> data; };
static std::vector<Given> g_expect;                            // what user_create must be given, in order

static void mine_create(int dtype, int device, int64_t* dims, int64_t ndim, void* data, unsigned len, UTP* t) {
  size_t k = g_created++;
  if (k >= g_expect.size()) { g_seen = "the user implementation was given more inputs than the test has"; *t = new UT(); return; }
  const Given& g = g_expect[k];
  if (g_seen.empty()) {
    if (dtype != g.dtype || device != g.device || ndim != (int64_t)g.dims.size() || len != g.data.size()) g_seen = mc::fmt("user tensor %zu was created with type %d, device %d, %lld dimensions, %u bytes; the input has %d, %d, %zu, %zu", k, dtype, device, (long long)ndim, len, g.dtype, g.device, g.dims.size(), g.data.size());
    else if (memcmp(dims, g.dims.data(), 8 * ndim)) g_seen = mc::fmt("user tensor %zu was created with another shape than the input", k);
    else if (memcmp(data, g.data.data(), len)) g_seen = mc::fmt("user tensor %zu was created with other data than the input", k);
  }
  UT* u = new UT(); u->dtype = dtype; u->device = device; u->dims.assign(dims, dims + ndim); u->data.assign((uint8_t*)data, (uint8_t*)data + len); u->ndim = ndim; u->len = len;
  *t = u;
}
static void mine_resolve(UTP t, int* dtype, int* device, int64_t** dims, int64_t* ndim, void** data, unsigned* len) {
  *dtype = t->dtype; *device = t->device; *dims = t->dims.data(); *ndim = t->ndim; *data = t->data.data(); *len = t->len;
}
static int same_int(int n) { return n; }
static std::vector<UTP> g_uts;

template <class T> static T step_up(T v, int k, std::false_type) { return k == 0 ? v + 1 : k == 1 ? v - 1 : k == 2 ? v + ((T)1 << (sizeof(T) * 8 - 1)) : k == 3 ? v ^ ((T)1 << (sizeof(T) * 4)) : v + 256; }
template <class T> static T step_up(T v, int k, std::true_type) {
  switch (k) {
    case 0: return v + (T)0.5;
    case 1: return v - (T)(fabs(v) * 1e-3 + 2e-3);
    case 2: return v + (T)(fabs(v) * 1e-3 + 2e-3);
    case 3: return NAN;
    case 4: return INFINITY;
    case 5: return -v - (T)1;
    default: return v + (T)1e6;
  }
}
template <class T> static bool bend(uint8_t* p, int k) { T v; memcpy(&v, p, sizeof v); T w = step_up<T>(v, k, std::is_floating_point<T>()); memcpy(p, &w, sizeof w); return memcmp(&v, &w, sizeof v) != 0; }
static int kinds(int dtype) { return dtype >= 8 ? 7 : 5; }
// The same value in another representation: the library's result with one thing changed.
static bool g_applied;
static void deviate(UT* r) {
  if (g_dev.kind == D_NONE || g_dev.input != g_ops) return;
  g_applied = true;
  switch (g_dev.kind) {
    case D_RANK_UP: r->dims.push_back(1); r->ndim++; break;
    case D_RANK_DOWN: r->ndim--; break;
    case D_DEVICE: r->device = !r->device; break;
    case D_DTYPE: r->dtype = (r->dtype + 1 + g_dev.value) % 10; break;
    case D_DIM: r->dims[g_dev.pos] += g_dev.value ? 1 : -1; break;
    case D_LEN: { unsigned es = dsize(r->dtype); unsigned l[] = {r->len + es, r->len - es, r->len + 1, r->len * 2, 0}; r->len = l[g_dev.value]; break; }
    case D_ELEM: {
      uint8_t* p = r->data.data() + g_dev.pos * dsize(r->dtype); bool ch = true;
      switch (r->dtype) { case 4: ch = bend<int32_t>(p, g_dev.value); break; case 7: ch = bend<uint64_t>(p, g_dev.value); break; case 8: ch = bend<float>(p, g_dev.value); break; case 9: ch = bend<double>(p, g_dev.value); break; }
      if (!ch) g_applied = false; break;
    }
    default: break;
  }
}
static Tensor as_lib(UT* u) { Tensor t = nullptr; Device d; d.type = DEVICE_CPU; d.id = 0; aitisa_create(mkdt(u->dtype), d, u->dims.data(), u->ndim, u->data.data(), u->len, &t); return t; }
static UTP result(Tensor t, int device) {
  UT* r = new UT(); r->dtype = aitisa_tensor_data_type(t).code; r->device = device; r->ndim = aitisa_tensor_ndim(t);
  r->dims.assign(aitisa_tensor_dims(t), aitisa_tensor_dims(t) + r->ndim); r->len = aitisa_tensor_size(t) * dsize(r->dtype);
  r->data.assign((uint8_t*)aitisa_tensor_data(t), (uint8_t*)aitisa_tensor_data(t) + r->len);
  deviate(r); g_ops++; g_uts.push_back(r); return r;
}
#define BIN(name, call) static void name(UTP a, UTP b, UTP* r) { Tensor x = as_lib(a), y = as_lib(b), o = nullptr; g_uts.push_back(a); g_uts.push_back(b); call(x, y, &o); *r = result(o, a->device); }
#define UN(name, call) static void name(UTP a, UTP* r) { Tensor x = as_lib(a), o = nullptr; g_uts.push_back(a); call(x, &o); *r = result(o, a->device); }
BIN(u_add, aitisa_add) BIN(u_sub, aitisa_sub) BIN(u_mul, aitisa_mul) BIN(u_div, aitisa_div) BIN(u_matmul, aitisa_matmul)
UN(u_relu, aitisa_relu) UN(u_sigmoid, aitisa_sigmoid) UN(u_tanh, aitisa_tanh)

#ifdef HAVE_BASIC
REGISTER_BASIC(UTP, int, same_int, same_int, int, same_int, same_int, mine_create, mine_resolve);
#endif
#ifdef HAVE_BINARY_OP
REGISTER_BINARY_OP(u_add, u_sub, u_mul, u_div);
#endif
#ifdef HAVE_MATMUL
REGISTER_MATMUL(u_matmul);
#endif
#ifdef HAVE_ACTIVATION
REGISTER_ACTIVATION(u_relu, u_sigmoid, u_tanh);
#endif
// What REGISTER_CONV2D should have made: its user_conv2d has a signature the test never calls.
static int g_conv_params_bad;
struct Conv2dUser : public Basic {
  static const std::vector<int>*want;
  static void user_conv2d(UTP a, UTP b, const int* stride, const int* padding, const int* dilation, int groups, UTP* r) {
    Tensor x = as_lib(a), y = as_lib(b), o = nullptr; g_uts.push_back(a); g_uts.push_back(b);
    if (aitisa_conv2d(x, y, (int*)stride, 2, padding, 2, dilation, 2, groups, &o) != STATUS_SUCCESS) { g_seen = "the user implementation was given other parameters than the library"; *r = a; return; }
    *r = result(o, a->device);
  }
};

// ---- running one typed test on chosen inputs ----
struct NullBuf : std::streambuf { int overflow(int c) { return c; } std::streamsize xsputn(const char*, std::streamsize n) { return n; } };
static NullBuf g_null;
static void prepare() {
  static bool done; if (done) return; done = true;
  int n = 1; char a0[] = "C24"; char* av[] = {a0, nullptr}; ::testing::InitGoogleTest(&n, av);
  std::cout.rdbuf(&g_null);
}
static std::string g_msg;
static bool passes(::testing::Test* t) {
  ::testing::TestPartResultArray res;
  { ::testing::ScopedFakeTestPartResultReporter rep(::testing::ScopedFakeTestPartResultReporter::INTERCEPT_ONLY_CURRENT_THREAD, &res); t->TestBody(); }
  bool ok = true; g_msg.clear();
  for (int i = 0; i < res.size(); i++) if (res.GetTestPartResult(i).failed()) { ok = false; g_msg = res.GetTestPartResult(i).message(); }
  return ok;
}
static Given given(int64_t nd, int64_t* d, int dt, int dev, void* p, unsigned len) { Given g; g.dtype = dt; g.device = dev; g.dims.assign(d, d + nd); g.data.assign((uint8_t*)p, (uint8_t*)p + len); return g; }
static void expect(Binary_Input& b) { g_expect.push_back(given(b.ndim1(), b.dims1(), b.dtype1(), b.device1(), b.data1(), b.len1())); g_expect.push_back(given(b.ndim2(), b.dims2(), b.dtype2(), b.device2(), b.data2(), b.len2())); }
static void expect(Unary_Input& b) { g_expect.push_back(given(b.ndim(), b.dims(), b.dtype(), b.device(), b.data(), b.len())); }
template <class F> static void expect_all(F& f) { g_expect.clear(); for (int i = 0; i < f.ninput; i++) expect(*f.input[i]); }
static void* data_of(const Dims& d, int dt, int salt) { RT t(dt, d); fill(t, P_POS, salt); char* p = new char[t.data.size() + 1]; memcpy(p, t.data.data(), t.data.size()); return p; }
static Binary_Input* bin(const Dims& a, const Dims& b, int dt, int dev) {
  return new Binary_Input(a.size(), a, dt, dev, data_of(a, dt, 1), prod(a) * dsize(dt), b.size(), b, dt, dev, data_of(b, dt, 2), prod(b) * dsize(dt));
}
static Unary_Input* una(const Dims& a, int dt, int dev) { return new Unary_Input(a.size(), a, dt, dev, data_of(a, dt, 1), prod(a) * dsize(dt)); }

static std::string tell(const char* test) {
  std::string s = mc::fmt("%s: %s", test, dev_name[g_dev.kind]);
  if (g_dev.kind != D_NONE) s += mc::fmt(" in the result for input %d (position %lld, variant %d)", g_dev.input, (long long)g_dev.pos, g_dev.value);
  return s;
}
// Chooses the deviation for results of the given shapes and types, runs and judges.
struct ResShape { Dims dims; int dtype; };
static void choose_deviation(const std::vector<ResShape>& res, bool every_element) {
  g_dev = {D_NONE, 0, 0, 0};
  int which = mc::choose((int)res.size() + 1);
  if (!which) return;
  g_dev.input = which - 1;
  const ResShape& r = res[which - 1];
  int nd = (int)r.dims.size(); int64_t n = prod(r.dims);
  switch (mc::choose(7)) {
    case 0: g_dev.kind = D_RANK_UP; break;
    case 1: g_dev.kind = D_RANK_DOWN; break;
    case 2: g_dev.kind = D_DEVICE; break;
    case 3: g_dev.kind = D_DTYPE; g_dev.value = mc::choose(9); break;
    case 4: if (!nd) mc::skip(); g_dev.kind = D_DIM; g_dev.pos = mc::choose(nd); g_dev.value = mc::choose(2); break;
    case 5: g_dev.kind = D_LEN; g_dev.value = mc::choose(5); break;
    default:
      if (!n) mc::skip();
      g_dev.kind = D_ELEM;
      if (every_element) g_dev.pos = mc::choose((int)n);
      else { int64_t at[] = {0, 1, n / 2, n - 2, n - 1}; g_dev.pos = at[mc::choose(5)]; if (g_dev.pos < 0) g_dev.pos = 0; if (g_dev.pos >= n) g_dev.pos = n - 1; }
      g_dev.value = mc::choose(kinds(r.dtype));
  }
}
template <class F> static void verdict(F& f, const char* name) {
  mc::describe([&] { return tell(name); });
  vf::reset(); expect_all(f);
  g_ops = g_created = 0; g_seen.clear(); g_applied = false;
  bool ok = passes(&f);
  if (!g_seen.empty()) mc::fail("%s: %s", tell(name).c_str(), g_seen.c_str());
  if (g_dev.kind == D_NONE || (g_dev.kind == D_ELEM && !g_applied)) {
    if (!ok) mc::fail("%s: the test rejects results equal to the library's: %s", tell(name).c_str(), g_msg.c_str());
    if (g_ops != f.ninput || g_created != (int)g_expect.size()) mc::fail("%s: only %d of %d inputs were tried", tell(name).c_str(), g_ops, f.ninput);
  } else {
    if (!g_applied) mc::fail("%s: the input was never tried", tell(name).c_str());
    if (ok) mc::fail("%s: the test accepts it", tell(name).c_str());
  }
  for (auto u : g_uts) delete u; g_uts.clear();
  vf::reset();
  mc::outcome(mc::hash_bytes(name, strlen(name), g_dev.kind * 100000 + g_dev.input * 10000 + g_dev.pos * 10 + g_dev.value)); mc::evals(1);
}

static const std::vector<Dims> small = {{1}, {3}, {2, 2}, {1, 3}, {2, 1, 2}, {}, {3, 3}, {17}, {2, 3, 2, 2}, {1, 1, 1, 1, 4}};
template <class T> static T& keep() { static T* t = new T(); return *t; }

#ifdef HAVE_BINARY_OP
typedef gtest_suite_BinaryOPTest_::FourTests<BinaryOP> BinTest;
static const int bin_dt[4] = {4, 9, 7, 8}, bin_dev[4] = {0, 1, 0, 0};
static void s_binary() {
  prepare();
  const Dims& d = mc::pick(small);
  std::vector<ResShape> rs; for (int i = 0; i < 4; i++) rs.push_back({d, bin_dt[i]});
  choose_deviation(rs, true);
  mc::start();
  BinTest& f = keep<BinTest>(); Binary_Input* in[4];
  for (int i = 0; i < 4; i++) f.input[i] = in[i] = bin(d, d, bin_dt[i], bin_dev[i]);
  verdict(f, ("binary operations on " + show(d)).c_str());
  for (auto p : in) delete p;
}
static void s_binary_own() {
  prepare();
  choose_deviation({{{10, 6}, 4}, {{2013, 2018}, 9}, {{10, 3, 2}, 7}, {{5}, 8}}, false);
  mc::start();
  BinTest& f = keep<BinTest>();
  Binary_Input* own[] = {&f.input0, &f.input1, &f.input2, &f.input3}; for (int i = 0; i < 4; i++) f.input[i] = own[i];
  verdict(f, "binary operations on the test's own inputs");
}
#endif
#ifdef HAVE_MATMUL
typedef gtest_suite_MatmulTest_::SevenTests<Matmul> MatTest;
struct MatHolder { MatTest* t; };
static MatTest& mat() { static MatTest* t = new MatTest(); return *t; }
static void s_matmul() {
  prepare();
  static const std::vector<std::vector<std::pair<Dims, Dims>>> sets = {
    {{{2}, {2}}, {{2, 3}, {3, 2}}, {{2}, {2, 2}}, {{2, 2}, {2}}, {{2}, {1, 2, 2}}, {{1, 2, 2}, {2}}, {{1, 2, 2}, {2, 1, 2, 2}}},
    {{{1}, {1}}, {{1, 1}, {1, 1}}, {{1}, {1, 1}}, {{1, 1}, {1}}, {{1}, {1, 1, 1}}, {{1, 1, 1}, {1}}, {{1, 1, 1}, {1, 1, 1, 1}}},
    {{{3}, {3}}, {{3, 2}, {2, 1}}, {{3}, {3, 2}}, {{2, 3}, {3}}, {{3}, {2, 2, 3, 2}}, {{2, 2, 2, 3}, {3}}, {{2, 1, 3}, {2, 3, 2}}},
  };
  const auto& s = mc::pick(sets);
  std::vector<ResShape> rs;
  for (int i = 0; i < 7; i++) { Case c; c.op = MATMUL; int dt = i == 1 ? 9 : 8; c.in = {RT(dt, s[i].first), RT(dt, s[i].second)}; rs.push_back({ref_eval(c).out.dims, dt}); }
  choose_deviation(rs, true);
  mc::start();
  MatTest& f = mat(); Binary_Input* in[7];
  for (int i = 0; i < 7; i++) f.input[i] = in[i] = bin(s[i].first, s[i].second, i == 1 ? 9 : 8, i == 1);
  verdict(f, ("matrix products, first " + show(s[1].first)).c_str());
  for (auto p : in) delete p;
}
static void s_matmul_own() {   // its own inputs but the largest
  prepare();
  choose_deviation({{{1}, 8}, {{2, 3}, 9}, {{5}, 8}, {{10}, 8}, {{2, 2, 4, 2}, 8}, {{2, 2, 4, 2}, 8}, {{3, 2, 4, 2}, 8}}, false);
  mc::start();
  MatTest& f = mat(); Binary_Input* big = bin({2, 4}, {4, 3}, 9, 1);
  Binary_Input* own[] = {&f.input0, big, &f.input2, &f.input3, &f.input4, &f.input5, &f.input6}; for (int i = 0; i < 7; i++) f.input[i] = own[i];
  verdict(f, "matrix products on the test's own inputs");
  delete big;
}
static void s_matmul_big() {
  prepare();
  g_dev = {D_NONE, 1, 0, 0};
  int k = mc::choose(3); if (k) { g_dev.kind = D_ELEM; g_dev.pos = k == 1 ? 0 : 1995ll * 2018 - 1; }
  mc::start();
  MatTest& f = mat();
  Binary_Input* own[] = {&f.input0, &f.input1, &f.input2, &f.input3, &f.input4, &f.input5, &f.input6}; for (int i = 0; i < 7; i++) f.input[i] = own[i];
  verdict(f, "matrix products on the test's own inputs, all of them");
}
#endif
#ifdef HAVE_ACTIVATION
typedef gtest_suite_ActivationTest_::ThreeTests<Activation> ActTest;
static const int act_dt[3] = {9, 8, 8};
static void s_activation() {
  prepare();
  const Dims& d = mc::pick(small);
  choose_deviation({{d, 9}, {d, 8}, {d, 8}}, true);
  mc::start();
  ActTest& f = keep<ActTest>(); Unary_Input* in[3];
  for (int i = 0; i < 3; i++) f.input[i] = in[i] = una(d, act_dt[i], 1);
  verdict(f, ("activations on " + show(d)).c_str());
  for (auto p : in) delete p;
}
static void s_activation_own() {
  prepare();
  choose_deviation({{{3, 6, 10, 120, 600}, 9}, {{3, 40, 100, 600}, 8}, {{3, 4, 120, 60}, 8}}, false);
  if (g_dev.kind == D_ELEM && g_dev.value) mc::skip();
  mc::start();
  ActTest& f = keep<ActTest>();
  Unary_Input* own[] = {&f.input0, &f.input1, &f.input2}; for (int i = 0; i < 3; i++) f.input[i] = own[i];
  verdict(f, "activations on the test's own inputs");
}
#endif
typedef gtest_suite_Conv2dTest_::TwoTests<Conv2dUser> ConvTest;
static void s_conv() {
  prepare();
  struct G { Dims in, fil; std::vector<int> s, p, d; };
  static const std::vector<std::pair<G, G>> sets = {
    {{{1, 1, 2, 2}, {1, 1, 1, 1}, {1, 1}, {0, 0}, {1, 1}}, {{1, 2, 3, 3}, {2, 2, 2, 2}, {1, 1}, {0, 0}, {1, 1}}},
    {{{2, 1, 3, 4}, {1, 1, 2, 2}, {2, 2}, {0, 1}, {1, 1}}, {{1, 1, 5, 4}, {2, 1, 2, 3}, {2, 1}, {1, 0}, {2, 1}}},
  };
  const auto& s = mc::pick(sets); const G* g[2] = {&s.first, &s.second};
  std::vector<ResShape> rs;
  for (auto q : g) { Case c; c.op = CONV2D; c.in = {RT(8, q->in), RT(8, q->fil)}; c.p[0] = q->s; c.p[1] = q->p; c.p[2] = q->d; rs.push_back({ref_eval(c).out.dims, 8}); }
  choose_deviation(rs, true);
  mc::start();
  ConvTest& f = keep<ConvTest>(); Conv_Input* in[2];
  for (int i = 0; i < 2; i++) f.input[i] = in[i] = new Conv_Input(4, g[i]->in, 8, 1, data_of(g[i]->in, 8, 1), prod(g[i]->in) * 4, 4, g[i]->fil, 8, 1, data_of(g[i]->fil, 8, 2), prod(g[i]->fil) * 4, g[i]->s, g[i]->p, g[i]->d, 1);
  verdict(f, ("convolutions, first " + show(g[0]->in)).c_str());
  for (auto p : in) delete p;
}
static void s_conv_own() {
  prepare();
  choose_deviation({{{6, 64, 62, 64}, 8}, {{7, 32, 33, 59}, 8}}, false);
  if (g_dev.kind == D_ELEM && g_dev.value) mc::skip();
  mc::start();
  ConvTest& f = keep<ConvTest>(); f.input[0] = &f.input0; f.input[1] = &f.input1;
  verdict(f, "convolutions on the test's own inputs");
}
// Each way of registering, as found when this check was built.
static void s_register() {
  static const struct { const char* name; bool works; } r[] = {
#define HAVE(n, w) {n, w}
#include "have.h"
  };
  int k = mc::choose(sizeof r / sizeof *r); mc::start();
  mc::describe([&] { return std::string(r[k].name); });
  if (!r[k].works) mc::deviation("%s does not compile with a conforming user implementation", r[k].name);
  mc::outcome(k); mc::evals(1);
}

int main(int argc, char** argv) {
  std::vector<mc::Suite> s = {{"register", s_register, "every registration macro"}};
#ifdef HAVE_BINARY_OP
  s.push_back({"binary", s_binary, "10 shapes x which of the 4 inputs x every deviation at every position"});
#endif
#ifdef HAVE_MATMUL
  s.push_back({"matmul", s_matmul, "3 sets of shapes x which of the 7 inputs x every deviation at every position"});
  s.push_back({"matmul_own", s_matmul_own, "the test's own inputs but the largest x every deviation, 5 positions"});
#endif
#ifdef HAVE_ACTIVATION
  s.push_back({"activation", s_activation, "10 shapes x which of the 3 inputs x every deviation at every position"});
#endif
#ifdef HAVE_BINARY_OP
  s.push_back({"binary_own", s_binary_own, "the test's own inputs x every deviation, 5 positions", 120});
#endif
  s.push_back({"conv", s_conv, "2 sets of geometries x which of the 2 inputs x every deviation at every position"});
  if (mc::tier_thorough()) {
#ifdef HAVE_ACTIVATION
    s.push_back({"activation_own", s_activation_own, "the test's own inputs x every deviation, 5 positions", 240});
#endif
    s.push_back({"conv_own", s_conv_own, "the test's own inputs x every deviation, 5 positions", 240});
#ifdef HAVE_MATMUL
    s.push_back({"matmul_big", s_matmul_big, "all of the test's own inputs x first and last element of the largest", 600});
#endif
  }
  mc::Check c{"C24", "model_checking", s, {"the user implementation is the library itself behind another tensor type", "the tests accept absolute differences below 1e-3 (activations: 4 units in the last place of a float)"}};
  return mc::run(argc, argv, c);
}
