#include "run.h"
#include "huge.h"
#include <cmath>

static void go(Op op, const Dims& a, const Dims& b, int dt, Pat p = P_FRAC) { run_value(mk(op, {mkrt(dt, a, p, 1), mkrt(dt, b, P_FRAC, 2)})); }

static void ranks3() { Dims a = mc::pick(shapes_upto(3, 3)); mc::start(); Dims b = mc::pick(shapes_upto(3, 3)); go(MATMUL, a, b, mc::choose(10)); }
static void ranks5() {
  const auto& s = shapes_upto(mc::thorough() ? 6 : 5, 2);
  Dims a = mc::pick(s); mc::start(); Dims b = mc::pick(s);
  int dt = (int)(a.size() * 3 + b.size() + (a.empty() ? 0 : a.back())) % 10;
  go(MATMUL, a, b, dt);
}
static void ranks4() {
  const auto& s = mc::thorough() ? shapes_upto(4, 4) : shapes_upto(4, 3);
  Dims a = mc::pick(s); mc::start(); Dims b = mc::pick(s);
  int dt = (int)(a.size() * 5 + b.size() * 3 + (b.empty() ? 0 : b.back())) % 10;
  go(MATMUL, a, b, dt);
}
static void sizes() {
  static const std::vector<int64_t> v = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65};
  int64_t m = mc::pick(v), k = mc::pick(v); mc::start(); int64_t n = mc::pick(v);
  int dt = (int)(m * 7 + k * 3 + n) % 10;
  if (mc::thorough()) dt = mc::choose(10);
  go(MATMUL, {m, k}, {k, n}, dt);
}
static void vectors() {    // every inner length, in each of the four forms with a vector
  int64_t k = mc::pick(lengths()); mc::start();
  int f = mc::choose(5), dt = k > 2000 ? (mc::choose(2) ? TYPE_DOUBLE : TYPE_INT32) : mc::choose(10);
  switch (f) {
    case 0: go(MATMUL, {k}, {k}, dt); break;
    case 1: go(MATMUL, {3, k}, {k}, dt); break;
    case 2: go(MATMUL, {k}, {k, 2}, dt); break;
    case 3: go(MATMUL, {2, 2, k}, {k}, dt); break;
    case 4: go(MATMUL, {k}, {2, k, 2}, dt); break;
  }
}
static void outer() {      // long rows and columns
  int64_t n = mc::pick(lengths()); mc::start();
  int f = mc::choose(4), dt = n > 3000 ? TYPE_INT32 : mc::choose(10);
  switch (f) {
    case 0: go(MATMUL, {n, 2}, {2, 3}, dt); break;
    case 1: go(MATMUL, {2, 3}, {3, n}, dt); break;
    case 2: go(MATMUL, {n, 1, 2}, {2, 2}, dt); break;
    case 3: go(MATMUL, {n, 2}, {2}, dt); break;
  }
}
static void modular() {    // integers that wrap
  int dt = mc::pick(std::vector<int>{0, 1, 2, 3, 5, 7}); Dims a = mc::pick(shapes_upto(3, 3)); mc::start(); Dims b = mc::pick(shapes_upto(3, 3));
  go(MATMUL, a, b, dt, P_BIG);
}
static void rejects() {
  int da = mc::choose(10), db = mc::choose(10); mc::start();
  Dims a = mc::pick(std::vector<Dims>{{}, {2}, {2, 2}, {2, 2, 2}}), b = mc::pick(std::vector<Dims>{{}, {2}, {3}, {2, 2}, {3, 2}, {2, 2, 2}, {3, 2, 2}});
  int dev = mc::choose(9);
  run_value(mk(MATMUL, {mkrt(da, a, P_SMALL, 1, dev % 3), mkrt(db, b, P_SMALL, 2, dev / 3)}));
}
static void contents() {   // a single one in each operand: every position pairing shows up where it should
  Dims a = mc::pick(std::vector<Dims>{{3}, {2, 3}, {2, 2, 3}, {1, 2, 3}, {2, 1, 2, 3}}), b = mc::pick(std::vector<Dims>{{3}, {3, 2}, {2, 3, 2}, {1, 3, 2}, {2, 3, 1}, {3, 2, 3, 2}}); mc::start();
  int dt = mc::pick(std::vector<int>{TYPE_UINT8, TYPE_FLOAT, TYPE_INT64});
  RT x(dt, a), y(dt, b);
  for (int64_t i = 0; i < x.size(); i++) x.set_i64(i, 0);
  for (int64_t i = 0; i < y.size(); i++) y.set_i64(i, 0);
  x.set_i64(mc::choose((int)x.size()), 3); y.set_i64(mc::choose((int)y.size()), 5);
  run_value(mk(MATMUL, {x, y}));
}
static void huge_inner() {      // inner lengths and rows beyond 32 bits
  static const int64_t K = (1ll << 31) + 3, L = (1ll << 32) + 3;
  int f = mc::choose(mc::thorough() ? 12 : 7); mc::start();
  int dt = mc::thorough() && f < 6 ? mc::pick(std::vector<int>{TYPE_INT8, TYPE_UINT16, TYPE_INT64}) : f % 2 ? TYPE_INT16 : TYPE_UINT8;
  switch (f) {
    case 0: huge::products(MATMUL, dt, {L}, {L}, {1}); break;
    case 1: huge::products(MATMUL, dt, {2, K}, {K}, {2}); break;
    case 2: huge::products(MATMUL, dt, {1, L}, {L, 1}, {1, 1}); break;
    case 3: huge::products(MATMUL, dt, {K}, {K, 2}, {2}); break;
    case 4: huge::products(MATMUL, dt, {1, 1, L}, {L}, {1, 1}); break;
    case 5: huge::products(MATMUL, dt, {1, K}, {2, K, 1}, {2, 1, 1}); break;
    case 6: { int64_t n = mc::thorough() ? L : K; huge::scaled(MATMUL, TYPE_INT8, {n, 1}, {1}, {n}, false); break; }
    case 7: huge::scaled(MATMUL, TYPE_INT8, {L, 1}, {1, 1}, {L, 1}, false); break;
    case 8: huge::scaled(MATMUL, TYPE_INT8, {1, 1}, {1, L}, {1, L}, true); break;
    case 9: huge::scaled(MATMUL, TYPE_INT8, {1}, {1, L}, {L}, true); break;
    case 10: huge::scaled(MATMUL, TYPE_INT8, {1, L, 1}, {1}, {1, L}, false); break;
    case 11: huge::scaled(MATMUL, TYPE_INT8, {1, 1}, {1, 1, L}, {1, 1, L}, true); break;
  }
}
static void no_elements() {     // rows, columns, batches or inner dimensions of length zero
  static const std::vector<Dims> v = [] { std::vector<Dims> w = {{}, {1}, {2}}; for (auto& s : shapes_upto(3, 2)) w.push_back(s); for (auto& s : empties(4)) w.push_back(s); return w; }();
  Dims a = mc::pick(v); mc::start();
  go(MATMUL, a, mc::pick(v), mc::choose(3) ? TYPE_FLOAT : mc::choose(10));
}
static void many_dims() {
  Dims s = mc::pick(tall()); mc::start();
  int nd = (int)s.size(), f = mc::choose(8), side = mc::choose(2), dt = (nd + f) % 10;
  Dims a = s; a.resize(nd - 2); Dims batch = a, one(a.size(), 1);
  a.push_back(side ? 3 : 2); a.push_back(side ? 2 : 3);
  Dims b;
  auto mat = [&](Dims x) { x.push_back(side ? 2 : 3); x.push_back(side ? 3 : 2); return x; };
  switch (f) {
    case 0: b = {3}; break;
    case 1: b = mat({}); break;
    case 2: b = mat({2}); break;
    case 3: b = mat(batch); break;
    case 4: b = mat(one); break;
    case 5: one[0] = 3; b = mat(one); break;
    case 6: one.back() = 2; b = mat(one); break;
    case 7: one.insert(one.begin(), 2); b = mat(one); break;
  }
  if (prod(a) * prod(b) > 200000) mc::skip();
  if (side) go(MATMUL, b, a, dt); else go(MATMUL, a, b, dt);
}
static void mid_sizes() {
  static const std::vector<int64_t> v = {1, 2, 3, 17, 33, 64, 65, 127, 128, 130, 257, 300};
  int64_t m = mc::pick(v), k = mc::pick(v); mc::start(); int64_t n = mc::pick(v);
  bool big = (m == 130 && k == 130 && n == 130) || (m == 257 && k == 65 && n == 130) || (m == 65 && k == 257 && n == 257);
  if (m * k * n > (mc::thorough() ? 5000000 : 600000) && !big) mc::skip();
  int dt = (int)((m * 7 + k * 3 + n) % 10);
  int f = m * k * n > 100000 ? 0 : mc::choose(3);
  if (f == 0) go(MATMUL, {m, k}, {k, n}, dt); else if (f == 1) go(MATMUL, {2, m, k}, {k, n}, dt); else go(MATMUL, {3, 1, m, k}, {2, k, n}, dt);
}
static void shared() {          // a tensor times itself
  static const std::vector<Dims> v = [] { auto w = shapes_upto(5, 3); for (int64_t n : {4, 7, 16, 17, 33}) { w.push_back({n}); w.push_back({n, n}); w.push_back({2, n, n}); } return w; }();
  Dims s = mc::pick(v); mc::start();
  int dt = mc::choose(10); RT a = mkrt(dt, s, mc::pick(std::vector<Pat>{P_FRAC, P_SMALL}), 1);
  Case c = mk(MATMUL, {a, a}); c.shared = true; run_value(c);
}
static void not_finite() {   // an infinity or NaN at each position, next to every kind of partner
  Dims a = mc::pick(std::vector<Dims>{{3}, {2, 3}, {2, 2, 3}, {1, 2, 3}}), b = mc::pick(std::vector<Dims>{{3}, {3, 2}, {2, 3, 2}, {1, 3, 2}, {2, 3, 1}}); mc::start();
  int dt = mc::choose(2) ? TYPE_DOUBLE : TYPE_FLOAT;
  static const std::vector<double> V = {INFINITY, -INFINITY, NAN, -0.0}, W = {0, -1, INFINITY, -INFINITY, NAN};
  RT x(dt, a), y(dt, b); bool swap = mc::choose(2);
  for (int64_t i = 0; i < x.size(); i++) x.set_i64(i, i % 3 - 1);
  for (int64_t i = 0; i < y.size(); i++) y.set_i64(i, i % 4 - 1);
  int p = mc::choose((int)x.size()), q = mc::choose((int)y.size());
  double v = mc::pick(V), w = mc::pick(W);
  x.set_num(p, swap ? w : v); y.set_num(q, swap ? v : w);
  run_value(mk(MATMUL, {x, y}));
}
static void plain_contents() { plain({MATMUL}); }
int main(int argc, char** argv) {
  mc::Check c{"C10", "model_checking", {
    {"plain_contents", plain_contents, "constant, ascending, descending and nearly constant contents of every operand, every well-formed call of the small space, and longer matrices"},
    {"ranks_0_3", ranks3, "all pairs of shapes of 0..3 dimensions with lengths 1..3 x 10 types (matching or not)"},
    {"ranks_0_4", ranks4, "all pairs of shapes of 0..4 dimensions with lengths 1..3 (thorough 1..4)"},
    {"ranks_0_5", ranks5, "all pairs of shapes of 0..5 dimensions (thorough 6) with lengths 1..2"},
    {"sizes", sizes, "all triples of matrix sizes from 16 values in 1..65"},
    {"inner_lengths", vectors, "inner lengths 1..300 and around 2^9..2^16 in the five forms with a vector x types"},
    {"outer_lengths", outer, "row, column and batch counts 1..300 and around 2^9..2^16 x types"},
    {"wrapping", modular, "wrapping integer contents, all pairs of shapes of 0..3 dimensions with lengths 1..3"},
    {"unit_contents", contents, "one non-zero element in each operand, at every pair of positions"},
    {"rejections", rejects, "100 type pairs x 28 shape pairs x 9 device pairs"},
    {"shared", shared, "all shapes up to 5 dimensions with lengths 1..3, and longer squares, x 10 types: one tensor as both operands"},
    {"no_elements", no_elements, "all pairs of shapes of up to 3 (4 when empty) dimensions with lengths 0..2 x types: an empty sum is zero"},
    {"huge", huge_inner, "seven (thorough: twelve, and 3 types) forms with an inner or outer length of more than 2^31 or 2^32: every output element compared", 900},
    {"many_dimensions", many_dims, "batches of 7..298 and up to 65998 dimensions with up to ten lengths of 2 or 3 against every kind of second operand, on either side"},
    {"not_finite", not_finite, "an infinity, NaN or negative zero at every position of one operand and a zero, infinity, NaN or -1 at every position of the other, 4 x 5 shapes, float and double"},
    {"mid_sizes", mid_sizes, "all triples of matrix sizes from 12 values in 1..300 with up to 600000 products, and batches of them"},
  }, {"contents are small integers, so floating-point sums are exact in any order", "wrapping is tested for unsigned and 8/16-bit types (signed 32/64-bit overflow is undefined in C)"}};
  return mc::run(argc, argv, c);
}
