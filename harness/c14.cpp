#include "run.h"
#include <cmath>
#include <climits>

static Case bn(int dt, const Dims& s, int axis, double eps, int salt = 0) {
  Case c; c.op = BN; c.axis = axis; c.d = eps;
  int64_t ch = axis >= 0 && axis < (int)s.size() ? s[axis] : 2;
  c.in = {mkrt(dt, s, P_FRAC, 1 + salt), mkrt(dt, {ch}, P_FRAC, 2 + salt), mkrt(dt, {ch}, P_SMALL, 3 + salt), mkrt(dt, {ch}, P_FRAC, 4 + salt), mkrt(dt, {ch}, P_POS, 5 + salt)};
  return c;
}
static int fdt() { return mc::choose(2) ? TYPE_DOUBLE : TYPE_FLOAT; }
static void shapes() {
  static const auto v = [] { std::vector<Dims> w; for (auto& d : mc::thorough() ? shapes_upto(5, 4) : shapes_upto(5, 3)) if (d.size() >= 2) w.push_back(d); if (mc::thorough()) for (auto& d : shapes_upto(4, 6)) if (d.size() >= 2) w.push_back(d); return w; }();
  Dims s = mc::pick(v); mc::start();
  int axis = mc::choose(2) ? (int)s.size() - 1 : 1;
  int dt = fdt();
  double eps = mc::pick(std::vector<double>{0, 1e-5, 1, 1000});
  run_value(bn(dt, s, axis, eps, mc::choose(2) * 10));
}
static void lens() {
  int64_t n = mc::pick(lengths()); if (n > (mc::thorough() ? 70000 : 1100)) mc::skip(); mc::start();
  int dt = fdt();
  switch (mc::choose(8)) {
    case 0: run_value(bn(dt, {2, n}, 1, 0.5)); break;
    case 1: run_value(bn(dt, {n, 2}, 1, 0.5)); break;
    case 2: if (n > 1100) mc::skip(); run_value(bn(dt, {2, n, 2}, 1, 0.5)); break;
    case 3: run_value(bn(dt, {1, 2, n}, 1, 0.5)); break;
    case 4: if (n > 1100) mc::skip(); run_value(bn(dt, {1, 2, n}, 2, 0.5)); break;
    case 5: run_value(bn(dt, {1, n, 2}, 2, 0.5)); break;
    case 6: if (n > 1100) mc::skip(); run_value(bn(dt, {n, 2, 2}, 1, 0.5)); break;
    case 7: if (n > 1100) mc::skip(); run_value(bn(dt, {1, 2, 2, n}, mc::choose(2) ? 3 : 1, 0.5)); break;
  }
}
static const std::vector<Dims> some = {{2, 3}, {3, 1}, {2, 3, 2}, {2, 3, 4}, {1, 2, 3, 4}, {2, 3, 2, 2}, {2, 3, 1, 2, 4}, {1, 2, 2, 2, 3}, {2, 2, 2}, {3, 3, 3, 3}};
// each channel's parameters stand out in turn
static void unit() {
  Dims s = mc::pick(some); int axis = mc::choose(2) ? (int)s.size() - 1 : 1; mc::start();
  int dt = fdt();
  Case c = bn(dt, s, axis, 0);
  int64_t C = s[axis];
  int which = mc::range(1, 4), at = mc::choose((int)C), xi = mc::choose((int)c.in[0].size());
  for (int64_t i = 0; i < c.in[0].size(); i++) c.in[0].set_num(i, 1);
  c.in[0].set_num(xi, 8);
  for (int64_t i = 0; i < C; i++) { c.in[1].set_num(i, 1); c.in[2].set_num(i, 0); c.in[3].set_num(i, 0); c.in[4].set_num(i, 1); }
  c.in[which].set_num(at, 16);
  run_value(c);
}
static void magnitudes() {  // wide ranges of parameter values
  static const std::vector<double> V = {0, 1, -1, 1e-10, -1e6, 3.14159, 1e8}, VV = {1, 1e-12, 1e12, 3, 0};
  int dt = fdt(); double sc = mc::pick(V), bi = mc::pick(V), me = mc::pick(V); mc::start();
  double va = mc::pick(VV), eps = mc::pick(std::vector<double>{1e-5, 1, 1e-12, 1e10}), x = mc::pick(V);
  int k = mc::choose(2);
  Case c = k ? bn(dt, {1, 2, 2}, 1, eps) : bn(dt, {2, 2}, 1, eps);
  c.in[0].set_num(1, x); c.in[1].set_num(1, sc); c.in[2].set_num(1, bi); c.in[3].set_num(1, me); c.in[4].set_num(1, va);
  run_value(c);
}
static void neg_variance() {
  Dims s = mc::pick(some); int axis = mc::choose(2) ? (int)s.size() - 1 : 1; mc::start();
  int dt = fdt(); double eps = mc::pick(std::vector<double>{0, 0.5, 4});
  Case c = bn(dt, s, axis, eps);
  int64_t C = s[axis]; int at = mc::choose((int)C);
  c.in[4].set_num(at, -eps + mc::pick(std::vector<double>{-0.25, -100, 0.25, -1e30, -1e-3, -1.0 / 1024}));
  run_value(c);
}
static void axes() {
  int nd = mc::range(0, 7), dt = fdt(); mc::start();
  int axis = mc::pick(std::vector<int>{-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, INT_MIN, INT_MAX, 1 << 30});
  Dims s; for (int i = 0; i < nd; i++) s.push_back(2);
  Case c = bn(dt, s, axis, 1); c.axis = axis;
  run_value(c);
}
static void arg_types() {
  int dt = fdt(), k = mc::range(1, 4); mc::start();
  Dims s = mc::pick(some); int axis = mc::choose(2) ? (int)s.size() - 1 : 1;
  Case c = bn(dt, s, axis, 1);
  c.in[k] = mkrt(mc::choose(10), c.in[k].dims, P_POS, 9);
  run_value(c);
}
static void all_types() {   // parameters of another type than the input in any combination
  int dt = fdt(), m = mc::choose(16); mc::start();
  Dims s = mc::pick(some); int axis = mc::choose(2) ? (int)s.size() - 1 : 1;
  int other = mc::pick(std::vector<int>{dt == TYPE_FLOAT ? TYPE_DOUBLE : TYPE_FLOAT, TYPE_INT32, TYPE_UINT8});
  Case c = bn(dt, s, axis, 1);
  for (int k = 0; k < 4; k++) if (m & (1 << k)) c.in[k + 1] = mkrt(other, c.in[k + 1].dims, P_POS, 9);
  run_value(c);
}
static void arg_shapes() {
  int dt = fdt(), k = mc::range(1, 4), k2 = mc::range(1, 4); mc::start();
  Dims s = mc::pick(some); int axis = mc::choose(2) ? (int)s.size() - 1 : 1;
  Case c = bn(dt, s, axis, 1);
  int64_t C = s[axis];
  static const std::vector<int> n = {0, 1, 2, 3, 4, 5, 6, 7, 8};
  auto bad = [&](int w) -> Dims { switch (w) { case 0: return {C + 1}; case 1: return {}; case 2: return {C, 1}; case 3: return {1, C}; case 4: return {1}; case 5: return {2 * C}; case 6: return {C > 1 ? C - 1 : 2}; case 7: return {1, 1, C}; default: return {C}; } };
  c.in[k] = mkrt(dt, bad(mc::pick(n)), P_POS, 9);
  if (k2 != k) c.in[k2] = mkrt(dt, bad(mc::pick(n)), P_POS, 10);
  run_value(c);
}
static void epsilons() {
  double e = mc::pick(std::vector<double>{-1, -1e-30, -0.0, 0, 1e-300, -1e300, -1e-10, 1e-5, -5e-324}); mc::start();
  Dims s = mc::pick(some); int axis = mc::choose(2) ? (int)s.size() - 1 : 1;
  run_value(bn(fdt(), s, axis, e));
}
static void no_batches() {
  static const auto v = [] { std::vector<Dims> w; for (auto& d : shapes_upto(4, 3)) if (d.size()) { Dims s = {0}; s.insert(s.end(), d.begin(), d.end()); w.push_back(s); } return w; }();
  Dims s = mc::pick(v); mc::start();
  int axis = mc::choose(2) ? (int)s.size() - 1 : 1;
  Case c = bn(fdt(), s, axis, mc::pick(std::vector<double>{0, 1e-5, -1}));
  if (mc::choose(2)) c.in[4].set_num(0, -5);
  run_value(c);
}
static void mid_sizes() {
  Dims s = mc::pick(blocks()); mc::start();
  if (prod(s) > (mc::thorough() ? 150000 : 20000)) mc::skip();
  int axis = mc::choose(2) ? (int)s.size() - 1 : 1;
  run_value(bn((s[0] + s[1] + axis) % 2 ? TYPE_FLOAT : TYPE_DOUBLE, s, axis, 0.5));
}
static void shared() {          // one tensor as several of the four parameters
  static const auto v = [] { std::vector<Dims> w; for (auto& d : shapes_upto(5, 3)) if (d.size() >= 2) w.push_back(d); return w; }();
  Dims s = mc::pick(v); mc::start();
  int axis = mc::choose(2) ? (int)s.size() - 1 : 1, dt = fdt(), set = mc::range(1, 15);
  Case c = bn(dt, s, axis, mc::choose(2) ? 1e-5 : 1, 0); c.shared = true;
  for (int k = 0; k < 4; k++) if (set >> k & 1) c.in[1 + k] = c.in[4];
  run_value(c);
}
static void plain_contents() { plain({BN}); }
int main(int argc, char** argv) {
  mc::Check c{"C14", "model_checking", {
    {"plain_contents", plain_contents, "constant, ascending, descending and nearly constant contents of every operand, every well-formed call of the small space, next to parameters which change nothing"},
    {"shapes", shapes, "all shapes of 2..5 dimensions with lengths 1..3 (thorough 1..4, and 1..6 up to 4 dimensions) x both axes x 2 types x 4 epsilons x 2 contents"},
    {"lengths", lens, "batch, channel and spatial lengths 1..300 and around 2^9..2^10 (thorough 2^16) x types"},
    {"unit_contents", unit, "one parameter of one channel and one element stand out: every channel x element, 10 shapes, both axes"},
    {"magnitudes", magnitudes, "7 values each of scale, bias, mean and input x 5 variances x 4 epsilons"},
    {"negative_variance", neg_variance, "a variance below, at or above -epsilon in every channel"},
    {"axes_ranks", axes, "ranks 0..7 x 14 axes"},
    {"argument_types", arg_types, "each parameter of each of 10 types"},
    {"type_combinations", all_types, "all 16 subsets of parameters with another type"},
    {"argument_shapes", arg_shapes, "pairs of parameters with 9 shapes each"},
    {"shared", shared, "all shapes of 2..5 dimensions with lengths 1..3 x every set of scale, bias, mean and variance being one tensor"},
    {"no_batches", no_batches, "batches of length zero: all shapes of 2..5 dimensions with other lengths 1..3 x both axes x 2 types x 3 epsilons x variances"},
    {"epsilons", epsilons, "negative, zero and tiny epsilons"},
    {"mid_sizes", mid_sizes, "all shapes of two and three dimensions with 12 lengths in 1..300 and up to 20000 (thorough 150000) elements x both axes, a type each"},
  }, {"float and double tensors on the CPU", "compared up to rounding relative to the magnitude of the terms", "variance+epsilon equal to zero is excluded", "channel and spatial lengths of zero are excluded", "calls with more than 2^31 elements are not made (they take five temporaries of 8 GB)"}};
  return mc::run(argc, argv, c);
}
