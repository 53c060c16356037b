// A rejected call has no effect.
// Judged: a status other than success, the output handle, inputs and parameters bit for bit, the blocks held, and
// the result of calls made afterwards.  Which status is returned is judged by the properties of the operations.
#include "spaces.h"
#include <map>

static void caller_frees(const Case& c, Live& l) { if (c.op == CREATE && c.n64 >= 0) aitisa_default_cpu_allocator()->raw_dealloc(l.a.buf); }

// The rejected call itself.
static void reject(const Case& c, Live& l, Tensor sentinel, const char* when) {
  Live::Snap before = l.snapshot();
  size_t held = vf::live();
  std::vector<uint8_t> buf;
  bool own = c.op == CREATE && c.n64 >= 0;
  size_t n = 0;
  if (own) { if (!vf::owns(l.a.buf, &n)) mc::fail("harness: buffer"); buf.assign((uint8_t*)l.a.buf, (uint8_t*)l.a.buf + n); }
  l.out = sentinel;
  Status s = l.go();
  if (s == STATUS_SUCCESS) mc::fail("%s%s: succeeded, expected a rejection", show(c).c_str(), when);
  if (l.out != sentinel) mc::fail("%s%s: rejected with status %d, but the output handle was changed", show(c).c_str(), when, (int)s);
  if (own) {
    size_t m = 0;
    if (!vf::owns(l.a.buf, &m)) mc::fail("%s%s: rejected, but the caller's buffer was released", show(c).c_str(), when);
    if (memcmp(buf.data(), l.a.buf, n)) mc::fail("%s%s: rejected, but the caller's buffer was written to", show(c).c_str(), when);
  }
  std::string d = l.changed(before);
  if (!d.empty()) mc::fail("%s%s: rejected with status %d, but %s", show(c).c_str(), when, (int)s, d.c_str());
  if (vf::live() != held) mc::fail("%s%s: rejected with status %d, %zu blocks held before and %zu after:%s", show(c).c_str(), when, (int)s, held, vf::live(), vf::dump().c_str());
  mc::evals(4);
}

// A well-formed call gives what it gives on its own and leaves exactly one tensor.
static bool dead_data(const Case& c) { return c.op == DROPOUT || (c.op == CREATE && c.n64 < 0); }
static std::map<std::pair<int, int>, RT>& memo() { static std::map<std::pair<int, int>, RT> m; return m; }
static const RT* alone(Op o, int i) {
  auto& m = memo(); auto k = std::make_pair((int)o, i);
  auto it = m.find(k);
  if (it == m.end()) {
    const Case& c = catalogue(o)[i];
    vf::reset_env(); vf::rand_hook = [] { return 0; };
    Live l(c); RT r; r.dims = {-1};
    if (l.go() == STATUS_SUCCESS) { r = snap(l.out); aitisa_destroy(&l.out); }
    l.drop_inputs(); vf::reset();
    it = m.emplace(k, r).first;
  }
  return it->second.dims == Dims{-1} ? nullptr : &it->second;
}
static void valid(Op o, int i, const std::string& after) {
  const Case& c = catalogue(o)[i];
  const RT& want = memo()[{(int)o, i}];
  vf::reset_env(); vf::rand_hook = [] { return 0; };
  size_t base = vf::live();
  Live l(c);
  if (l.go() != STATUS_SUCCESS) mc::fail("%s after the rejected call %s: fails", show(c).c_str(), after.c_str());
  RT got = snap(l.out);
  std::string d = c.op == CREATE && c.n64 < 0 ? "" : differs(want, got);
  if (!d.empty()) mc::fail("%s after the rejected call %s: %s", show(c).c_str(), after.c_str(), d.c_str());
  aitisa_destroy(&l.out); l.drop_inputs();
  if (vf::live() != base) mc::fail("%s after the rejected call %s: %zu blocks held before and %zu after:%s", show(c).c_str(), after.c_str(), base, vf::live(), vf::dump().c_str());
}
static int follow_up(Op o, int k) { int n = (int)catalogue(o).size(); return k % n; }

static void one(const Case& c, const Expect& e) {
  if (e.ok) mc::skip();
  Tensor sentinel = mc::choose(2) ? (Tensor)0x1230 : nullptr;
  int f = follow_up(c.op, (int)((uint64_t)(c.in.empty() ? prod(c.a64) : c.in[0].size() + c.in[0].dt) % 5) * 3);
  if (!alone(c.op, f)) mc::skip();
  mc::describe([&] { return show(c) + (sentinel ? ", output handle set" : ", output handle null") + ", then the same again and a well-formed call"; });
  vf::reset();
  size_t zero = vf::live();
  Live l(c);
  reject(c, l, sentinel, "");
  reject(c, l, sentinel, ", the second time");
  valid(c.op, f, show(c));
  caller_frees(c, l);
  l.drop_inputs();
  if (vf::live() != zero) mc::fail("%s: rejected, and %zu blocks are left over:%s", show(c).c_str(), vf::live(), vf::dump().c_str());
  mc::outcome(mc::mix(mc::mix(c.op, l.st), c.in.size() ? mc::mix(c.in[0].dt, c.in[0].dims.size()) : c.a64.size()));
  vf::reset();
}

template <int OP> static void op() { Case c; gen((Op)OP, SMALL, c); one(c, ref_eval(c)); }

// Shapes nobody can allocate.
static void bad_dims() {
  static const std::vector<int64_t> vals = {-1, 2, 0, INT64_MIN, INT64_MAX, (int64_t)1 << 31, (int64_t)1 << 32, (int64_t)1 << 62, -7};
  Op o = mc::pick(std::vector<Op>{CREATE, FULL, RESHAPE});
  int nd = mc::range(1, 4);
  mc::start();
  Case c; c.op = o; c.n64 = o == CREATE ? -1 : 0;
  c.tdt = mc::pick(std::vector<int>{TYPE_INT8, TYPE_DOUBLE});
  bool neg = false, zero = false; double p = dsize(c.tdt);
  for (int i = 0; i < nd; i++) { int64_t v = mc::pick(vals); c.a64.push_back(v); neg |= v < 0; zero |= v == 0; p *= (double)v; }
  if (!neg && (zero || p < 9.3e18)) mc::skip();     // well-formed, if perhaps not affordable
  if (o == CREATE && mc::choose(2)) c.n64 = 16;
  if (o == RESHAPE) c.in.push_back(mkrt(c.tdt, {2}, P_SMALL, 1));
  Expect e; e.ok = false;
  one(c, e);
}

// A rejected call, another one, then a well-formed one, over representatives of every way of being rejected.
static std::vector<Case> reps(Op o) {
  std::vector<Case> v;
  auto push = [&](Case c) { if (!ref_eval(c).ok) v.push_back(c); };
  for (auto& c0 : catalogue(o)) {
    if (c0.in.empty()) continue;
    Case c = c0;
    { Case x = c; RT& t = x.in.back(); t = RT((t.dt + 4) % 10, t.dims); fill(t, P_POS, 3); push(x); }
    { Case x = c; RT& t = x.in.back(); Dims d = t.dims; d.push_back(2); for (int k = 0; k < (o == SLICE ? 3 : o == POOL ? 4 : 0); k++) x.p[k].push_back(1); int dt = t.dt; t = RT(dt, d); fill(t, P_POS, 3); push(x); }
    { Case x = c; RT& t = x.in.back(); Dims d = t.dims; if (!d.empty()) { d[0]++; int dt = t.dt; t = RT(dt, d); fill(t, P_POS, 3); push(x); } }
    { Case x = c; x.in[0].dev = 1; push(x); }
    { Case x = c; x.axis += 9; push(x); }
    { Case x = c; x.axis -= 9; push(x); }
    { Case x = c; x.groups = 3; push(x); }
    { Case x = c; x.d = -2; push(x); }
    if (o == POOL) { Case x = c; x.mode = "mean"; push(x); }
    if (o == CAST) { Case x = c; x.tdt = 10; push(x); }
    if (o == RESHAPE) { Case x = c; x.a64.push_back(2); push(x); }
    if (o == SQUEEZE) { Case x = c; x.n64 = 1; x.a64 = {9}; push(x); }
    if (o == SQRT) { Case x = c; x.in[0].set_num(x.in[0].size() - 1, -5); push(x); }
    if (o == DIV) { Case x = c; x.in[1].set_num(x.in[1].size() - 1, 0); push(x); }
    if (o == BN) { Case x = c; x.in[4].set_num(0, -9); push(x); }
    for (int k = 0; k < 4; k++) if (!c.p[k].empty()) for (int val : {-1, 0, 1000}) { Case x = c; x.p[k].back() = val; push(x); }
  }
  if (o == CREATE) for (auto& c0 : catalogue(o)) { Case c = c0; c.n64 = prod(c.a64) * dsize(c.tdt) + 1; push(c); }
  // a spread of at most 14
  std::vector<Case> r;
  for (size_t i = 0; i < v.size() && i < 14; i++) r.push_back(v[i * v.size() / (v.size() < 14 ? v.size() : 14)]);
  return r;
}
static const std::vector<Case>& rep(Op o) { static std::map<int, std::vector<Case>> m; auto it = m.find(o); if (it == m.end()) it = m.emplace(o, reps(o)).first; return it->second; }
static void histories() {
  Op o1 = mc::pick(all_ops); mc::start();
  const bool deep = mc::tier_thorough();
  if (rep(o1).empty()) mc::skip();
  int i1 = mc::choose((int)rep(o1).size());
  Op o3 = mc::pick(all_ops);
  int i3 = mc::choose(deep ? (int)catalogue(o3).size() : 3) * (deep ? 1 : 5);
  i3 = follow_up(o3, i3);
  Op o2 = mc::choose(2) ? o3 : o1;
  if (deep) o2 = mc::pick(all_ops);
  if (rep(o2).empty()) mc::skip();
  int i2 = mc::choose(deep ? (int)rep(o2).size() : 2); i2 = deep ? i2 : (i2 * 5) % (int)rep(o2).size();
  const Case &a = rep(o1)[i1], &b = rep(o2)[i2];
  if (!alone(o3, i3)) mc::skip();
  mc::describe([&] { return show(a) + ", then " + show(b) + ", then " + show(catalogue(o3)[i3]); });
  vf::reset(); vf::recycle = true;
  size_t zero = vf::live();
  {
    Live l(a); reject(a, l, nullptr, ""); 
    Live m(b); reject(b, m, nullptr, " after another rejected call");
    caller_frees(a, l); l.drop_inputs();
    valid(o3, i3, show(a) + " and " + show(b));
    caller_frees(b, m); m.drop_inputs();
  }
  if (vf::live() != zero) mc::fail("%s then %s: %zu blocks are left over:%s", show(a).c_str(), show(b).c_str(), vf::live(), vf::dump().c_str());
  vf::recycle = false;
  mc::outcome(mc::mix(mc::mix(o1 * 32 + i1, o2 * 32 + i2), o3 * 64 + i3));
  vf::reset();
}

// Element types that do not exist, for all inputs, one of them, or the requested result.
static void unknown_types() {
  Op o = mc::pick(all_ops); mc::start();
  if (o == CREATE || o == DUP || o == RESHAPE || o == SQUEEZE) mc::skip();   // these need no type, only its size
  Case c = catalogue(o)[mc::choose((int)catalogue(o).size())];
  int to = 10 + mc::choose(2);
  if (o == FULL) c.tdt = to;
  else {
    int which = mc::choose((int)c.in.size() + 1);                            // all, or only one
    for (size_t i = 0; i < c.in.size(); i++) if (!which || which == (int)i + 1) { RT t(to, c.in[i].dims, c.in[i].dev); fill(t, P_POS, 3); c.in[i] = t; }
    if (o == CAST && mc::choose(2)) c.tdt = 11;
  }
  Expect e; e.ok = false;
  one(c, e);
}

// The 70000th rejection is like the first, and a well-formed call still works.
static void long_history() {
  Op o = mc::pick(all_ops); mc::start();
  if (rep(o).empty()) mc::skip();
  const Case& c = rep(o)[mc::choose((int)rep(o).size())];
  int f = follow_up(o, 3);
  if (!alone(o, f)) mc::skip();
  mc::describe([&] { return show(c) + ", 70000 times, then a well-formed call"; });
  vf::reset();
  size_t zero = vf::live();
  Live l(c);
  reject(c, l, nullptr, "");
  Status st = l.st; size_t held = vf::live();
  for (int k = 1; k < 70000; k++) {
    l.out = nullptr;
    if (l.go() != st) mc::fail("%s: status %d the time %d, %d before", show(c).c_str(), (int)l.st, k + 1, (int)st);
    if (l.out || vf::live() != held) mc::fail("%s: call %d left something behind", show(c).c_str(), k + 1);
  }
  reject(c, l, (Tensor)0x1230, " (70001st)");
  valid(o, f, show(c) + " (70000 times)");
  caller_frees(c, l); l.drop_inputs();
  if (vf::live() != zero) mc::fail("%s: %zu blocks are left over:%s", show(c).c_str(), vf::live(), vf::dump().c_str());
  mc::outcome(mc::mix(o, st)); mc::evals(70000);
  vf::reset();
}
int main(int argc, char** argv) {
  mc::Check c{"C18", "model_checking", {
    {"bad_dims", bad_dims, "create, full and reshape to every list of 1-4 lengths from 9 values including negative and unallocatable ones"},
    {"histories", histories, "a rejected call of every entry point and kind of defect, a second rejected call, then a well-formed call of every entry point, in recycled memory"},
    {"long_history", long_history, "up to 14 kinds of rejected calls of every entry point, each made 70000 times, then a well-formed call", 200},
    {"unknown_types", unknown_types, "every call of the catalogue (but create, duplicate, reshape, squeeze) with an element type that does not exist: of all tensors, of one of them, or of the result"},
#define S(o) {#o, op<o>, "every ill-formed request of the small space of this operation x output handle null or not, twice, then a well-formed call"},
    S(ADD) S(DIV) S(CAST) S(RESHAPE) S(SQUEEZE) S(SLICE) S(CREATE) S(MATMUL) S(DOT) S(SQRT) S(SIGMOID) S(TANH) S(SOFTMAX) S(POOL) S(CONV) S(CONV2D) S(CONV3D) S(BN) S(DROPOUT)
  }, {"what counts as ill-formed is decided by the reference model of each operation", "hanging is judged by a limit of 25 s for one execution"}};
  add_spaces(c, one, {"C05/many_dimensions", "C07/many_dimensions", "C08/many_dimensions", "C15/many_dimensions", "C05/no_elements", "C07/no_elements", "C08/no_elements", "C10/no_elements", "C11/no_elements", "C12/no_elements", "C13/no_elements", "C14/no_batches", "C05/types_devices", "C05/shape_pairs", "C05/zero_div", "C07/reshape_mismatch", "C07/squeeze_extreme", "C07/reshape_extreme", "C08/one_dim", "C08/extreme", "C10/ranks_0_3", "C10/rejections", "C11/ranks_0_3", "C11/rejections", "C12/ranks", "C12/types", "C12/bad_parameter", "C12/extreme_parameters", "C12/bad_groups", "C13/ranks", "C13/bad_modes", "C13/bad_parameter", "C13/extreme_parameters", "C14/axes_ranks", "C14/argument_types", "C14/argument_shapes", "C14/negative_variance", "C15/rejections", "C16/negative_position"},
    {"*/very_long", "*/mid_sizes", "*/patterns", "*/words"}, {"C16/all_16_bit", "C16/float_patterns", "C16/double_patterns", "C06", "C16/grid", "C05/bytes", "C05/lengths", "C16/lengths", "C15/shapes", "C16/shapes"});
  return mc::run(argc, argv, c);
}
