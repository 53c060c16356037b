#include "run.h"

static bool rule(const Dims& a, const Dims& b, Dims& o) {
  size_t n = a.size() > b.size() ? a.size() : b.size();
  o.assign(n, 0);
  for (size_t i = 1; i <= n; i++) {
    if (i > a.size()) o[n - i] = b[b.size() - i];
    else if (i > b.size()) o[n - i] = a[a.size() - i];
    else {
      int64_t x = a[a.size() - i], y = b[b.size() - i];
      if (x != y && x != 1 && y != 1) return false;
      o[n - i] = x == 1 ? y : x;
    }
  }
  return true;
}
struct Arr {   // an exactly sized heap array
  int64_t* p; size_t n;
  Arr(const Dims& d) : p((int64_t*)malloc(d.size() * 8)), n(d.size()) { memcpy(p, d.data(), n * 8); }
  ~Arr() { free(p); }
  bool same(const Dims& d) { return !memcmp(p, d.data(), n * 8); }
};
static void check_pair(const Dims& a, const Dims& b) {
  mc::describe([&] { return "broadcast " + show(a) + " with " + show(b); });
  Dims want; bool ok = rule(a, b, want);
  size_t n = want.size();
  Status st[2];
  for (int swap = 0; swap < 2; swap++) {
    const Dims &x = swap ? b : a, &y = swap ? a : b;
    Arr ax(x), ay(y);
    std::vector<int64_t> out(n + 4, -77);
    surroundings();
    Status s = st[swap] = aitisa_broadcast_array(ax.p, (int64_t)x.size(), ay.p, (int64_t)y.size(), out.data() + 2, (int64_t)n);
    std::string w = show(x) + " with " + show(y);
    if (out[0] != -77 || out[1] != -77 || out[n + 2] != -77 || out[n + 3] != -77) mc::fail("broadcast %s: wrote outside the result array", w.c_str());
    if (!ax.same(x) || !ay.same(y)) mc::fail("broadcast %s: changed an input shape", w.c_str());
    if (ok) {
      if (s != STATUS_SUCCESS) mc::fail("broadcast %s: status %d, expected success", w.c_str(), (int)s);
      Dims got(out.begin() + 2, out.begin() + 2 + n);
      if (got != want) mc::fail("broadcast %s: result %s, expected %s", w.c_str(), show(got).c_str(), show(want).c_str());
      // an exactly sized result array under the memory checker
      Arr exact(want);
      memset(exact.p, 0x55, n * 8);
      aitisa_broadcast_array(ax.p, (int64_t)x.size(), ay.p, (int64_t)y.size(), exact.p, (int64_t)n);
      if (!exact.same(want)) mc::fail("broadcast %s: a second call gave another result", w.c_str());
    } else if (s != STATUS_DIMENSIONS_MISMATCH) mc::fail("broadcast %s: status %d, expected DIMENSIONS_MISMATCH", w.c_str(), (int)s);
  }
  uint64_t h = ok; for (auto x : want) if (ok) h = mc::mix(h, x);
  mc::outcome(h);
}
static void pairs44() { Dims a = mc::pick(mc::thorough() ? shapes_upto(5, 4) : shapes_upto(4, 4)); mc::start(); check_pair(a, mc::pick(mc::thorough() ? shapes_upto(5, 4) : shapes_upto(4, 4))); }
static void pairs53() { Dims a = mc::pick(shapes_upto(5, 3)); mc::start(); check_pair(a, mc::pick(shapes_upto(5, 3))); }
static void pairs72() { const auto& s = shapes_upto(mc::thorough() ? 9 : 8, 2); Dims a = mc::pick(s); mc::start(); check_pair(a, mc::pick(s)); }
static void wide() {
  static const std::vector<int64_t> v = {1, 2, 3, 255, 256, 257, 65536, 1ll << 31, (1ll << 31) + 1, 1ll << 32, (1ll << 32) + 1, (1ll << 32) + 2, 1ll << 40, INT64_MAX};
  int na = mc::range(1, 2), nb = mc::range(1, 2); Dims a, b;
  for (int i = 0; i < na; i++) a.push_back(mc::pick(v));
  mc::start();
  for (int i = 0; i < nb; i++) b.push_back(mc::pick(v));
  check_pair(a, b);
}
// batched matrix multiplication accepts and shapes batches by the same rule
static void matmul_pair(const Dims& a, const Dims& b, int k);
static void matmul_batch(int nd, int dm, int k) {
  const auto& sh = shapes_upto(nd, dm);
  Dims a = mc::pick(sh), b = mc::pick(sh);
  matmul_pair(a, b, k);
}
static void matmul_pair(const Dims& a, const Dims& b, int k) {
  mc::start_once();
  Dims o; bool ok = rule(a, b, o);
  Dims da = a, db = b; da.push_back(k); da.push_back(2); db.push_back(2); db.push_back(1);
  Case c = mk(MATMUL, {mkrt(TYPE_INT8, da, P_SMALL, 1), mkrt(TYPE_INT8, db, P_SMALL, 2)});
  mc::describe([&] { return show(c); });
  vf::reset();
  Tensor in[2] = {make(c.in[0]), make(c.in[1])}, out = nullptr;
  Args ar(c);
  Status st = call(c, ar, in, &out);
  if (!ok) { if (st != STATUS_DIMENSIONS_MISMATCH) mc::fail("%s: status %d, expected DIMENSIONS_MISMATCH", show(c).c_str(), (int)st); }
  else {
    if (st != STATUS_SUCCESS) mc::fail("%s: status %d although the batches %s and %s broadcast", show(c).c_str(), (int)st, show(a).c_str(), show(b).c_str());
    o.push_back(k); o.push_back(1);
    RT r = snap(out);
    if (r.dims != o) mc::fail("%s: result shape %s, expected %s", show(c).c_str(), show(r.dims).c_str(), show(o).c_str());
    std::string d = compare(ref_eval(c), out);
    if (!d.empty()) mc::fail("%s: %s", show(c).c_str(), d.c_str());
  }
  mc::outcome(hash_rt(ok ? snap(out) : RT()));
  for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < c.in[i].dims.size(); j++)
    if (aitisa_tensor_ndim(in[i]) != (int64_t)c.in[i].dims.size() || aitisa_tensor_dim(in[i], j) != c.in[i].dims[j]) mc::fail("%s: an input's shape changed", show(c).c_str());
  vf::reset();
}
static void batch33() { matmul_batch(3, 3, 1 + mc::choose(2)); }
static void batch52() { matmul_batch(mc::thorough() ? 6 : 5, 2, 2); }
static void batch43() { matmul_batch(4, 3, 1); }

static const std::vector<Dims>& zero_shapes(int nd) { static std::vector<Dims> v; if (v.empty()) for (auto s : shapes_upto(nd, 4)) { for (auto& x : s) x--; v.push_back(s); } return v; }   // lengths 0..3
static void zeros() { const auto& s = zero_shapes(mc::thorough() ? 5 : 4); Dims a = mc::pick(s); mc::start(); check_pair(a, mc::pick(s)); }
static void batch0() {
  static const std::vector<Dims> v = [] { std::vector<Dims> w; for (auto s : shapes_upto(3, 3)) { for (auto& x : s) x--; w.push_back(s); } return w; }();
  Dims a = mc::pick(v), b = mc::pick(v);
  matmul_pair(a, b, 2);
}
static void many_dims() {
  Dims a = mc::pick(tall()); mc::start();
  static const std::vector<Dims> all = [] { auto v = tall(); for (auto& d : shapes_upto(2, 4)) v.push_back(d); return v; }();
  check_pair(a, mc::pick(all));
}
int main(int argc, char** argv) {
  mc::Check c{"C09", "model_checking", {
    {"pairs_len4", pairs44, "all pairs of shapes of 0..4 dimensions (thorough 5) with lengths 1..4, both orders"},
    {"pairs_len3", pairs53, "all pairs of shapes of 0..5 dimensions with lengths 1..3, both orders"},
    {"pairs_len2", pairs72, "all pairs of shapes of 0..8 dimensions (thorough 9) with lengths 1..2, both orders"},
    {"zero_lengths", zeros, "all pairs of shapes of 0..4 dimensions (thorough 5) with lengths 0..3, both orders"},
    {"matmul_batch0", batch0, "matmul with all pairs of batch shapes of 0..3 dimensions with lengths 0..2"},
    {"wide_lengths", wide, "1- and 2-dimensional shapes with lengths up to 2^63-1, agreeing in their low 32 bits"},
    {"matmul_batch3", batch33, "matmul with all pairs of batch shapes of 0..3 dimensions with lengths 1..3"},
    {"matmul_batch4", batch43, "matmul with all pairs of batch shapes of 0..4 dimensions with lengths 1..3"},
    {"matmul_batch5", batch52, "matmul with all pairs of batch shapes of 0..5 dimensions (thorough 6) with lengths 1..2"},
    {"many_dimensions", many_dims, "all pairs of ~470 shapes of 9..300 and up to 66000 dimensions with up to ten lengths of 2 or 3, and of them with 21 small shapes"},
  }, {"the result array has the length of the longer shape"}};
  return mc::run(argc, argv, c);
}
