#include "run.h"
#include "huge.h"
#include <cmath>

static void go(const Dims& a, const Dims& b, int dt, Pat p = P_FRAC, Pat q = P_FRAC) { run_value(mk(DOT, {mkrt(dt, a, p, 1), mkrt(dt, b, q, 2)})); }
static void ranks3() { Dims a = mc::pick(shapes_upto(3, 3)); mc::start(); Dims b = mc::pick(shapes_upto(3, 3)); go(a, b, mc::choose(10)); }
static void ranks4() {
  const auto& s = mc::thorough() ? shapes_upto(4, 4) : shapes_upto(4, 3);
  Dims a = mc::pick(s); mc::start(); Dims b = mc::pick(s);
  go(a, b, (int)(a.size() * 5 + b.size() * 3 + (b.empty() ? 0 : b.back())) % 10);
}
static void ranks5() {
  const auto& s = shapes_upto(5, 2);
  Dims a = mc::pick(s); mc::start(); Dims b = mc::pick(s);
  if (a.size() < 5 && b.size() < 5 && a.size() + b.size() < 8) mc::skip();
  go(a, b, (int)(a.size() * 3 + b.size() + (a.empty() ? 0 : a.back())) % 10);
}
static void sizes() {
  static const std::vector<int64_t> v = {1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33, 65};
  int64_t m = mc::pick(v), k = mc::pick(v); mc::start(); int64_t n = mc::pick(v);
  int dt = mc::thorough() ? mc::choose(10) : (int)(m * 7 + k * 3 + n) % 10;
  if (mc::choose(2)) go({m, k}, {k, n}, dt);
  else if (m * k * n < 20000) go({m, 2, k}, {2, k, n}, dt); else mc::skip();
}
static void vectors() {
  int64_t k = mc::pick(lengths()); mc::start();
  int f = mc::choose(6), dt = k > 2000 ? (mc::choose(2) ? TYPE_DOUBLE : TYPE_INT32) : mc::choose(10);
  switch (f) {
    case 0: go({k}, {k}, dt); break;
    case 1: go({3, k}, {k}, dt); break;
    case 2: go({2, 2, k}, {k}, dt); break;
    case 3: go({}, {k}, dt); break;
    case 4: go({k}, {}, dt); break;
    case 5: go({1, 2, k}, {1, k, 2}, dt); break;
  }
}
static void scalars() {     // scaling by every kind of value, 64-bit exact
  int dt = mc::choose(10), side = mc::choose(2); mc::start();
  Dims s = mc::pick(std::vector<Dims>{{}, {1}, {5}, {2, 3}, {2, 1, 3}, {2, 2, 2, 2}});
  RT sc(dt, {}), t = mkrt(dt, s, mc::choose(2) ? P_BIG : P_SMALL, 1);
  sc.set_i64(0, mc::pick(std::vector<int64_t>{0, 1, -1, 2, 3, 127}));
  if (is_signed(dt) && dt >= 4) for (int64_t i = 0; i < t.size(); i++) if (std::abs((double)t.i64(i)) * std::abs((double)sc.i64(0)) > (dt == 4 ? 2e9 : 9e18)) t.set_i64(i, dt == 4 ? 12345677 + i : (1ll << 53) + 2 * i + 1);
  run_value(mk(DOT, side ? std::vector<RT>{t, sc} : std::vector<RT>{sc, t}));
}
static void big64() {       // inner products whose terms and sums exceed 2^53
  int dt = 6 + mc::choose(2); mc::start();
  Dims a = mc::pick(std::vector<Dims>{{2}, {2, 3}, {2, 2, 3}, {3}}), b = mc::pick(std::vector<Dims>{{2}, {3}, {3, 2}, {2, 3, 2}});
  int side = mc::choose(2);
  RT x = mkrt(dt, a, side ? P_BIG : P_SMALL, 1), y = mkrt(dt, b, side ? P_SMALL : P_BIG, 2);
  run_value(mk(DOT, {x, y}));
}
static void modular() {
  int dt = mc::pick(std::vector<int>{0, 1, 2, 3, 5, 7}); Dims a = mc::pick(shapes_upto(3, 3)); mc::start();
  go(a, mc::pick(shapes_upto(3, 3)), dt, P_BIG);
}
static void contents() {
  Dims a = mc::pick(std::vector<Dims>{{3}, {2, 3}, {2, 2, 3}, {1, 2, 3}, {2, 1, 2, 3}, {}}), b = mc::pick(std::vector<Dims>{{3}, {3, 2}, {2, 3, 2}, {1, 3, 2}, {2, 3, 1}, {3, 2, 3, 2}, {}}); mc::start();
  int dt = mc::pick(std::vector<int>{TYPE_UINT8, TYPE_FLOAT, TYPE_INT64});
  RT x(dt, a), y(dt, b);
  for (int64_t i = 0; i < x.size(); i++) x.set_i64(i, 0);
  for (int64_t i = 0; i < y.size(); i++) y.set_i64(i, 0);
  x.set_i64(mc::choose((int)x.size()), 3); y.set_i64(mc::choose((int)y.size()), 5);
  run_value(mk(DOT, {x, y}));
}
static void rejects() {
  int da = mc::choose(10), db = mc::choose(10); mc::start();
  Dims a = mc::pick(std::vector<Dims>{{}, {2}, {2, 2}, {2, 2, 2}}), b = mc::pick(std::vector<Dims>{{}, {2}, {3}, {2, 2}, {3, 2}, {2, 2, 2}, {2, 3, 2}});
  int dev = mc::choose(9);
  run_value(mk(DOT, {mkrt(da, a, P_SMALL, 1, dev % 3), mkrt(db, b, P_SMALL, 2, dev / 3)}));
}
static void huge_inner() {      // inner lengths and rows beyond 32 bits
  static const int64_t K = (1ll << 31) + 3, L = (1ll << 32) + 3;
  int f = mc::choose(mc::thorough() ? 10 : 6); mc::start();
  int dt = mc::thorough() && f < 6 ? mc::pick(std::vector<int>{TYPE_INT8, TYPE_UINT16, TYPE_INT64}) : f % 2 ? TYPE_INT16 : TYPE_UINT8;
  switch (f) {
    case 0: huge::products(DOT, dt, {L}, {L}, {1}); break;
    case 1: huge::products(DOT, dt, {1, 1, L}, {L}, {1, 1}); break;
    case 2: huge::products(DOT, dt, {2, K}, {K}, {2}); break;
    case 3: huge::products(DOT, dt, {1, 1, L}, {1, L, 1}, {1, 1, 1, 1}); break;
    case 4: huge::products(DOT, dt, {1, 1, K}, {1, K, 2}, {1, 1, 1, 2}); break;
    case 5: huge::products(DOT, dt, {2, 1, K}, {1, K, 1}, {2, 1, 1, 1}); break;
    case 6: huge::scaled(DOT, TYPE_INT8, {1, L, 1}, {1}, {1, L}, false); break;
    case 7: huge::scaled(DOT, TYPE_INT8, {1, L, 1}, {1, 1, 1}, {1, L, 1, 1}, false); break;
    case 8: huge::scaled(DOT, TYPE_INT8, {}, {K}, {K}, true); break;
    case 9: huge::scaled(DOT, TYPE_INT8, {2, K}, {}, {2, K}, false); break;
  }
}
static void no_elements() {
  static const std::vector<Dims> v = [] { std::vector<Dims> w = shapes_upto(3, 2); for (auto& s : empties(4)) w.push_back(s); return w; }();
  Dims a = mc::pick(v); mc::start();
  go(a, mc::pick(v), mc::choose(3) ? TYPE_FLOAT : mc::choose(10));
}
static void many_dims() {
  Dims s = mc::pick(tall()); mc::start();
  int nd = (int)s.size(), f = mc::choose(6), dt = (nd + f) % 10; int64_t last = s.back(), pre = s[nd - 2];
  switch (f) {
    case 0: go(s, {}, dt); break;
    case 1: go({}, s, dt); break;
    case 2: go(s, {last}, dt); break;
    case 3: go(s, {last, 2}, dt); break;
    case 4: go({2, pre}, s, dt); break;
    case 5: { Dims b = s; b[nd - 2] = last; if (prod(s) * prod(b) > 100000) mc::skip(); go(s, b, dt); break; }
  }
}
static void mid_sizes() {
  static const std::vector<int64_t> v = {1, 2, 3, 17, 33, 64, 65, 127, 128, 130, 257, 300};
  int64_t m = mc::pick(v), k = mc::pick(v); mc::start(); int64_t n = mc::pick(v);
  bool big = (m == 130 && k == 130 && n == 130) || (m == 257 && k == 65 && n == 130) || (m == 65 && k == 257 && n == 257);
  if (m * k * n > (mc::thorough() ? 5000000 : 600000) && !big) mc::skip();
  int dt = (int)((m * 7 + k * 3 + n) % 10);
  if (m * k * n > 100000 || mc::choose(2)) go({m, k}, {k, n}, dt); else go({1, m, k}, {2, k, n}, dt);
}
static void shared() {          // a tensor times itself
  static const std::vector<Dims> v = [] { auto w = shapes_upto(5, 3); for (int64_t n : {4, 7, 16, 17, 33}) { w.push_back({n}); w.push_back({n, n}); w.push_back({2, n, n}); } return w; }();
  Dims s = mc::pick(v); mc::start();
  int dt = mc::choose(10); RT a = mkrt(dt, s, mc::pick(std::vector<Pat>{P_FRAC, P_SMALL}), 1);
  Case c = mk(DOT, {a, a}); c.shared = true; run_value(c);
}
static void not_finite() {   // an infinity or NaN at each position, next to every kind of partner
  Dims a = mc::pick(std::vector<Dims>{{}, {3}, {2, 3}, {2, 2, 3}, {1, 2, 3}}), b = mc::pick(std::vector<Dims>{{}, {3}, {3, 2}, {2, 3, 2}, {1, 3, 2}, {2, 3, 1}}); mc::start();
  int dt = mc::choose(2) ? TYPE_DOUBLE : TYPE_FLOAT;
  static const std::vector<double> V = {INFINITY, -INFINITY, NAN, -0.0}, W = {0, -1, INFINITY, -INFINITY, NAN};
  RT x(dt, a), y(dt, b); bool swap = mc::choose(2);
  for (int64_t i = 0; i < x.size(); i++) x.set_i64(i, i % 3 - 1);
  for (int64_t i = 0; i < y.size(); i++) y.set_i64(i, i % 4 - 1);
  int p = mc::choose((int)x.size()), q = mc::choose((int)y.size());
  double v = mc::pick(V), w = mc::pick(W);
  x.set_num(p, swap ? w : v); y.set_num(q, swap ? v : w);
  run_value(mk(DOT, {x, y}));
}
static void plain_contents() { plain({DOT}); }
int main(int argc, char** argv) {
  mc::Check c{"C11", "model_checking", {
    {"plain_contents", plain_contents, "constant, ascending, descending and nearly constant contents of every operand, every well-formed call of the small space, and longer operands"},
    {"ranks_0_3", ranks3, "all pairs of shapes of 0..3 dimensions with lengths 1..3 x 10 types (fitting or not)"},
    {"ranks_0_4", ranks4, "all pairs of shapes of 0..4 dimensions with lengths 1..3 (thorough 1..4)"},
    {"ranks_5", ranks5, "pairs with an operand of 5 (or both of 4) dimensions with lengths 1..2"},
    {"sizes", sizes, "all triples of matrix sizes from 13 values in 1..65, two and three dimensions"},
    {"lengths", vectors, "lengths 1..300 and around 2^9..2^16 in six forms x types"},
    {"scalars", scalars, "scaling on either side, 6 shapes, 6 factors, 10 types, large contents"},
    {"beyond_2_53", big64, "64-bit integers beyond the range of double"},
    {"wrapping", modular, "wrapping integer contents, all pairs of shapes of 0..3 dimensions with lengths 1..3"},
    {"unit_contents", contents, "one non-zero element in each operand, at every pair of positions"},
    {"rejections", rejects, "100 type pairs x 28 shape pairs x 9 device pairs"},
    {"shared", shared, "all shapes up to 5 dimensions with lengths 1..3, and longer squares, x 10 types: one tensor as both operands"},
    {"no_elements", no_elements, "all pairs of shapes of up to 3 (4 when empty) dimensions with lengths 0..2 x types: an empty sum is zero"},
    {"huge", huge_inner, "six (thorough: ten, and 3 types) forms with an inner or outer length of more than 2^31 or 2^32: every output element compared", 900},
    {"many_dimensions", many_dims, "~470 shapes of 9..300 and up to 66000 dimensions with up to ten lengths of 2 or 3 times scalars, vectors, matrices and one another, on either side"},
    {"not_finite", not_finite, "an infinity, NaN or negative zero at every position of one operand and a zero, infinity, NaN or -1 at every position of the other, 5 x 6 shapes, float and double"},
    {"mid_sizes", mid_sizes, "all triples of matrix sizes from 12 values in 1..300 with up to 600000 products, in two and three dimensions"},
  }, {"contents are small integers, so floating-point sums are exact in any order", "signed 32/64-bit overflow is excluded (undefined in C)"}};
  return mc::run(argc, argv, c);
}
