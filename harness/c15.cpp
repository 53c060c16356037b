#include "run.h"
#include "huge.h"
#include <climits>
#include <cfloat>
#include <cmath>

static Case sm(int dt, const Dims& s, int axis, Pat p = P_FRAC, int salt = 1) { Case c; c.op = SOFTMAX; c.axis = axis; c.in = {mkrt(dt, s, p, salt)}; return c; }
static int fdt() { return mc::choose(2) ? TYPE_DOUBLE : TYPE_FLOAT; }
static void shapes() {
  Dims s = mc::pick(mc::thorough() ? shapes_upto(5, 4) : shapes_upto(4, 4)); mc::start();
  int axis = mc::range(-1, (int)s.size() - 1);
  run_value(sm(fdt(), s, axis, mc::pick(std::vector<Pat>{P_FRAC, P_INJ, P_NEG}), mc::choose(2)));
}
static void high_rank() {
  static const auto v = [] { std::vector<Dims> w; for (auto& d : shapes_upto(8, 2)) if (d.size() > 4) w.push_back(d); return w; }();
  Dims s = mc::pick(v); mc::start();
  run_value(sm(fdt(), s, mc::range(-1, (int)s.size() - 1)));
}
static void lens() {
  int64_t n = mc::pick(lengths()); mc::start();
  int dt = fdt();
  switch (mc::choose(7)) {
    case 0: run_value(sm(dt, {n}, 0)); break;
    case 1: run_value(sm(dt, {n}, -1)); break;
    case 2: run_value(sm(dt, {2, n, 3}, 1)); break;
    case 3: run_value(sm(dt, {n, 3}, 1)); break;
    case 4: run_value(sm(dt, {3, n}, 0)); break;
    case 5: run_value(sm(dt, {n, 2}, -1)); break;
    case 6: run_value(sm(dt, {2, 2, n}, mc::range(0, 2))); break;
  }
}
static std::vector<double> vals(int dt) {
  std::vector<double> v = {0, 1, -1, 0.5, 88, -88, 89, 104, -104, 709, 710, -710, -745, 746, 1e4, -1e4, 1e30, -1e30, 1e-30};
  if (dt == TYPE_FLOAT) { v.push_back(FLT_MAX); v.push_back(-FLT_MAX); v.push_back(1.4e-45); } else { v.push_back(DBL_MAX); v.push_back(-DBL_MAX); v.push_back(1e300); v.push_back(5e-324); }
  return v;
}
static void triples() {     // every triple of extreme values in one line, the other lines ordinary
  int dt = fdt(); auto v = vals(dt); double a = mc::pick(v); mc::start();
  double b = mc::pick(v), d = mc::pick(v);
  int f = mc::choose(4);
  Case c = f == 0 ? sm(dt, {3}, -1) : f == 1 ? sm(dt, {3}, 0) : f == 2 ? sm(dt, {2, 3, 2}, 1) : sm(dt, {2, 3}, 1);
  int64_t at = f < 2 ? 0 : f == 2 ? 1 : 3, st = f == 2 ? 2 : 1;
  c.in[0].set_num(at, a); c.in[0].set_num(at + st, b); c.in[0].set_num(at + 2 * st, d);
  run_value(c);
}
static void position() {    // a dominating element at each position, others very far below or just below
  Dims s = mc::pick(std::vector<Dims>{{1}, {2}, {5}, {17}, {33}, {2, 3}, {3, 2, 2}, {2, 3, 1, 2}}); mc::start();
  int dt = fdt(), axis = mc::range(-1, (int)s.size() - 1);
  Case c = sm(dt, s, axis);
  double bg = mc::pick(std::vector<double>{-1e30, 0, -5000, 5000, 1e30, 100}), hi = mc::pick(std::vector<double>{0, 1, -1, 800, 1e30, -1e30});
  int at = mc::choose((int)c.in[0].size());
  for (int64_t i = 0; i < c.in[0].size(); i++) c.in[0].set_num(i, i == at ? hi : bg);
  run_value(c);
}
static void long_extreme() {  // many equal large values: the sum must not overflow either
  int64_t n = mc::pick(lengths()); mc::start();
  int dt = fdt(); double v = mc::pick(std::vector<double>{88, -88, 700, -700, 1000, -1000, 1e30, -1e30});
  Case c = sm(dt, {n, 2}, mc::range(-1, 1));
  for (int64_t i = 0; i < c.in[0].size(); i++) c.in[0].set_num(i, v);
  run_value(c);
}
static void rejects() {
  int nd = mc::range(0, 6), dt = mc::choose(10); mc::start();
  int axis = mc::pick(std::vector<int>{-2, -3, -4, -8, 0, 1, 2, 3, 4, 5, 6, 7, 8, INT_MAX, INT_MIN, 1 << 30, -(1 << 30), 65536, -65537, 256});
  Dims s; for (int i = 0; i < nd; i++) s.push_back(2);
  if (axis >= -1 && axis < nd && !is_float(dt)) mc::skip();
  Case c = sm(dt, s, axis, P_SMALL); c.in[0].dev = mc::choose(3);
  run_value(c);
}
static void huge_lines() {      // more elements than 31 bits can count
  mc::start(); int f = mc::choose(3);
  static const int64_t n = (1ll << 31) + 6;
  Case c = mk(SOFTMAX, {huge::block(TYPE_FLOAT, P_SMALL, 1)});
  RT& x = c.in[0];
  Dims s = f == 0 ? Dims{n, 1} : f == 1 ? Dims{n / 2, 2} : Dims{2, n / 2};
  c.axis = f == 2 ? 0 : 1;
  huge::Mem mem;
  Tensor in = huge::periodic(x, s), out = nullptr; Args a(c);
  Status st = call(c, a, &in, &out);
  if (st != STATUS_SUCCESS) mc::fail("softmax of %s: returned status %d", show(s).c_str(), (int)st);
  if (aitisa_tensor_size(out) != n || aitisa_tensor_dim(out, 0) != s[0] || aitisa_tensor_dim(out, 1) != s[1]) mc::fail("softmax of %s: output shape", show(s).c_str());
  const float* o = (const float*)aitisa_tensor_data(out);
  for (int64_t i = 0; i < n; i++) {
    double me = x.num(i % huge::Q), other = f == 0 ? -INFINITY : x.num((f == 1 ? i ^ 1 : (i < n / 2 ? i + n / 2 : i - n / 2)) % huge::Q), want = 1 / (1 + std::exp(other - me));
    if (!(std::fabs(o[i] - want) <= 1e-5 * want + 1e-30)) mc::fail("softmax of %s: element %lld is %g, expected %g", show(s).c_str(), (long long)i, o[i], want);
  }
  mc::evals(n); mc::outcome(f);
  aitisa_destroy(&in); aitisa_destroy(&out);
}
static void no_elements() {
  Dims s = mc::pick(empties(4)); mc::start();
  run_value(sm(fdt(), s, mc::range(-1, (int)s.size() - 1)));
}
static void many_dims() {
  Dims s = mc::pick(tall()); mc::start(); int nd = (int)s.size();
  run_value(sm(fdt(), s, mc::pick(std::vector<int>{-1, 0, 1, nd / 2, nd - 9, nd - 2, nd - 1, nd, -2})));
}
static void mid_sizes() {
  Dims s = mc::pick(blocks()); mc::start();
  int axis = mc::range(-1, (int)s.size() - 1);
  run_value(sm((s[0] + s[1] + axis) % 2 ? TYPE_FLOAT : TYPE_DOUBLE, s, axis));
}
static void plain_contents() { plain({SOFTMAX}); }
int main(int argc, char** argv) {
  mc::Check c{"C15", "model_checking", {
    {"plain_contents", plain_contents, "constant, ascending, descending and nearly constant contents of every operand, every well-formed call of the small space, and lengths up to 300"},
    {"shapes", shapes, "all shapes of 0..4 dimensions (thorough 5) with lengths 1..4 x all axes x 2 types x 3 contents"},
    {"high_rank", high_rank, "all shapes of 5..8 dimensions with lengths 1..2 x all axes x 2 types"},
    {"lengths", lens, "line lengths and counts 1..300 and around 2^9..2^16"},
    {"extreme_triples", triples, "all triples of 22 values incl. the largest finite ones in a line, 4 shapes"},
    {"dominating", position, "one element above or below the rest at every position, 8 shapes, all axes"},
    {"equal_large", long_extreme, "lines of equal large or very negative values, lengths 1..300 and around 2^9..2^16"},
    {"no_elements", no_elements, "all shapes of up to 4 dimensions with lengths 0..2 and no elements x all axes x 2 types"},
    {"rejections", rejects, "ranks 0..6 x 20 axes x 10 types x 3 devices"},
    {"many_dimensions", many_dims, "~470 shapes of 9..300 and up to 66000 dimensions with up to ten lengths of 2 or 3 x axes at and between the ends x 2 types"},
    {"mid_sizes", mid_sizes, "all shapes of two and three dimensions with 12 lengths in 1..300 and up to 150000 elements x all axes, a type each"},
  }, {"float and double inputs with finite values", "compared up to rounding"}};
  if (mc::tier_thorough()) c.suites.push_back({"huge", huge_lines, "more than 2^31 elements in lines of one and two", 1800});
  return mc::run(argc, argv, c);
}
