#include "run.h"
#include "huge.h"
#include <climits>
#include <cmath>
#include <cfloat>

static const std::vector<Op> ops = {SQRT, RELU, SIGMOID, TANH};
static bool applies(Op op, int dt) { return op == SQRT || op == RELU || is_float(dt); }

static void bits16() {       // every value of the 8- and 16-bit types
  Op op = mc::choose(2) ? RELU : SQRT; int dt = mc::choose(4), hi = mc::choose(dsize(dt) == 1 ? 1 : 256); mc::start();
  RT t(dt, {256}); for (int i = 0; i < 256; i++) t.set_i64(i, hi * 256 + i);
  bool neg = false; for (int i = 0; i < 256; i++) neg |= t.i64(i) < 0;
  if (op == SQRT && neg && dt == 0) { RT p(dt, {128}); for (int i = 0; i < 128; i++) p.set_i64(i, i); run_value(mk(op, {p})); }
  else run_value(mk(op, {t}));   // with negatives: must be rejected
}
static void negatives16() {  // every negative value on its own
  int dt = mc::choose(2) ? TYPE_INT16 : TYPE_INT8, hi = mc::choose(dt == TYPE_INT8 ? 1 : 128); mc::start();
  int lo = mc::choose(dt == TYPE_INT8 ? 128 : 256);
  RT t(dt, {2}); t.set_i64(0, 4); t.set_i64(1, -1 - (hi * 256 + lo));
  run_value(mk(SQRT, {t}));
}
static void wide_ints() {
  int dt = mc::range(4, 7); Op op = mc::choose(2) ? RELU : SQRT; mc::start();
  int b = dsize(dt) * 8;
  std::vector<int64_t> v = {0};
  for (int k = 0; k < b - (is_signed(dt) ? 1 : 0); k++) for (int64_t d = -2; d <= 2; d++) { int64_t x = (int64_t)((1ull << k) + (uint64_t)d); v.push_back(x); }
  for (int64_t r : {3ll, 10ll, 46340ll, 65535ll, 65536ll, 94906265ll, 3037000499ll, 4294967295ll}) for (int d = -1; d <= 1; d++) v.push_back((int64_t)((uint64_t)r * (uint64_t)r + (uint64_t)(int64_t)d));
  if (op == RELU) { size_t n = v.size(); for (size_t i = 0; i < n; i++) v.push_back(-(int64_t)v[i]); v.push_back(INT64_MIN); v.push_back(INT32_MIN); }
  RT t(dt, {(int64_t)v.size()});
  for (size_t i = 0; i < v.size(); i++) { t.set_i64(i, v[i]); if (op == SQRT && is_signed(dt) && t.i64(i) < 0) t.set_i64(i, 1); }
  run_value(mk(op, {t}));
}
static float fbits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static double dbits(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
static void floats() {       // every upper half of a float's bit pattern with several lower halves
  Op op = mc::pick(ops); int hi = mc::choose(256); mc::start();
  static const std::vector<uint32_t> lows = {0, 1, 0x8000, 0xffff, 0x5555, 0x1234, 0xfedc, 0x7fff};
  RT t(TYPE_FLOAT, {256 * 8}); int64_t n = 0;
  for (int m = 0; m < 256; m++) for (auto l : lows) {
    float f = fbits(((uint32_t)hi << 24) | (m << 16) | l);
    if (std::isnan(f) || (op == SQRT && f < 0)) f = 2;
    t.put<float>(n++, f);
  }
  run_value(mk(op, {t}));
}
static void all_floats() {   // thorough: every float
  Op op = mc::pick(ops); int hi = mc::choose(256), h2 = mc::choose(16); mc::start(); int h3 = mc::choose(16);
  uint32_t base = ((uint32_t)hi << 24) | (h2 << 20) | (h3 << 16);
  if (op == SQRT && hi >= 128) mc::skip();
  RT t(TYPE_FLOAT, {65536});
  for (uint32_t l = 0; l < 65536; l++) { float f = fbits(base | l); if (std::isnan(f) || (op == SQRT && f < 0)) f = 2; t.put<float>(l, f); }
  run_value(mk(op, {t}));
}
static void doubles() {
  Op op = mc::pick(ops); int hi = mc::choose(256); mc::start();
  static const std::vector<uint64_t> lows = {0, 1, 0x800000000000ull, 0xffffffffffffull, 0x555555555555ull, 0x123456789abcull};
  RT t(TYPE_DOUBLE, {256 * 6}); int64_t n = 0;
  for (int m = 0; m < 256; m++) for (auto l : lows) {
    double f = dbits(((uint64_t)hi << 56) | ((uint64_t)m << 48) | l);
    if (std::isnan(f) || (op == SQRT && f < 0)) f = 2;
    t.put<double>(n++, f);
  }
  run_value(mk(op, {t}));
}
static void moderate() {     // a fine grid over the range where the functions vary
  Op op = mc::pick(ops); int dt = mc::choose(2) ? TYPE_DOUBLE : TYPE_FLOAT, part = mc::choose(100); mc::start();
  RT t(dt, {1000}); for (int i = 0; i < 1000; i++) { double x = -50 + part + i * 0.001 + 1e-4; t.set_num(i, op == SQRT ? std::fabs(x) : x); }
  run_value(mk(op, {t}));
}
static void shapes() {
  Op op = mc::pick(ops); Dims s = mc::pick(shapes_upto(4, 4)); mc::start();
  int dt = mc::choose(10);
  run_value(mk(op, {mkrt(dt, s, op == SQRT ? P_POS : P_FRAC, 1, s.size() < 3 ? mc::choose(3) : 0)}));
}
static void high_rank() {
  static const auto v = [] { std::vector<Dims> w; for (auto& d : shapes_upto(8, 2)) if (d.size() > 4) w.push_back(d); return w; }();
  Op op = mc::pick(ops); Dims s = mc::pick(v); mc::start();
  run_value(mk(op, {mkrt(mc::choose(10), s, op == SQRT ? P_POS : P_SMALL, 1)}));
}
static void lens() {
  Op op = mc::pick(ops); int64_t n = mc::pick(lengths()); mc::start();
  int dt = n > 5000 ? mc::pick(std::vector<int>{1, 8, 9}) : mc::choose(10);
  if (!applies(op, dt)) mc::skip();
  run_value(mk(op, {mkrt(dt, mc::choose(2) ? Dims{n} : Dims{1, n, 1}, op == SQRT ? P_POS : P_FRAC, 1)}));
}
static void negative_at() {  // a single negative element, at every position
  int dt = mc::pick(std::vector<int>{0, 2, 4, 6, 8, 9}); Dims s = mc::pick(std::vector<Dims>{{}, {1}, {2}, {7}, {8}, {16}, {17}, {33}, {64}, {100}, {2, 3}, {3, 2, 2}}); mc::start();
  RT t = mkrt(dt, s, P_POS, 1);
  int at = mc::choose((int)t.size());
  if (is_float(dt)) t.set_num(at, mc::pick(std::vector<double>{-1, -1e-30, -INFINITY, -1e30, -0.5, -1.4e-45})); else t.set_i64(at, mc::pick(std::vector<int64_t>{-1, -100, -128}));
  run_value(mk(SQRT, {t}));
}
static void special() {      // infinities, zeros and saturating magnitudes next to ordinary elements
  Op op = mc::pick(ops); int dt = mc::choose(2) ? TYPE_DOUBLE : TYPE_FLOAT; mc::start();
  static const std::vector<double> v = {0, -0.0, INFINITY, -INFINITY, 1e30, -1e30, 100, -100, 20, -20, 710, -710, 1e-40, -1e-40, 0.5, -0.5, 88.8, -88.8};
  RT t(dt, {3}); t.set_num(0, mc::pick(v)); t.set_num(1, mc::pick(v)); t.set_num(2, 1);
  run_value(mk(op, {t}));
}
static void long_(){         // thorough
  Op op = mc::pick(ops); int64_t n = mc::pick(std::vector<int64_t>{(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20}); int dt = mc::choose(10); mc::start();
  if (!applies(op, dt)) mc::skip();
  run_value(mk(op, {mkrt(dt, {n}, op == SQRT ? P_POS : P_SMALL, 1)}));
}
static void huge_unary() {      // more elements than 32 bits can count
  mc::start();
  Op op = mc::pick(mc::thorough() ? std::vector<Op>{RELU, SQRT, SIGMOID, TANH} : std::vector<Op>{RELU});
  int dt = mc::pick(!mc::thorough() ? std::vector<int>{TYPE_INT8} : op == RELU || op == SQRT ? std::vector<int>{TYPE_INT8, TYPE_INT16, TYPE_FLOAT, TYPE_DOUBLE} : std::vector<int>{TYPE_FLOAT, TYPE_DOUBLE});
  int64_t n = dsize(dt) > 2 ? (1ll << 31) + 6 : (1ll << 32) + 6;
  Case c = mk(op, {huge::block(dt, op == RELU ? P_SMALL : P_POS, 1)});
  huge::elementwise(c, {2, n / 2}, {2, n / 2});
}
static void no_elements() {
  Op op = mc::pick(ops); Dims s = mc::pick(empties(4)); mc::start();
  run_value(mk(op, {mkrt(mc::choose(10), s, P_POS, 1, mc::choose(3))}));
}
static void many_dims() {
  Op op = mc::pick(ops); Dims s = mc::pick(tall()); mc::start(); int dt = mc::choose(10);
  if (!applies(op, dt) && s.size() > 33) mc::skip();
  run_value(mk(op, {mkrt(dt, s, op == SQRT ? P_POS : P_SMALL, 1)}));
}
static void mid_sizes() {
  Op op = mc::pick(ops); Dims s = mc::pick(blocks()); mc::start();
  int dt = (int)((s[0] * 7 + s[1] * 3 + s.back()) % 10);
  if (!applies(op, dt)) dt = 8 + dt % 2;
  run_value(mk(op, {mkrt(dt, s, op == SQRT ? P_POS : P_SMALL, 1)}));
}
static void plain_contents() { plain({RELU, SQRT, SIGMOID, TANH}); }
int main(int argc, char** argv) {
  mc::Check c{"C16", "model_checking", {
    {"plain_contents", plain_contents, "constant, ascending, descending and nearly constant contents of every operand, every well-formed call of the small space, and lengths up to 300"},
    {"all_16_bit", bits16, "relu and sqrt on every value of int8, uint8, int16, uint16"},
    {"negatives", negatives16, "sqrt rejected for every negative int8 and int16 value"},
    {"wide_integers", wide_ints, "relu and sqrt around every power of two and around large squares of the 32- and 64-bit types"},
    {"float_patterns", floats, "4 functions x all 65536 upper halves of a float pattern x 8 lower halves (NaN excluded)"},
    {"double_patterns", doubles, "4 functions x all 65536 upper 16 bits of a double pattern x 6 mantissa tails"},
    {"grid", moderate, "4 functions x 100000 points in -50..50 x 2 types"},
    {"special", special, "all pairs of 18 special values, 4 functions x 2 types"},
    {"shapes", shapes, "4 functions x all shapes of up to 4 dimensions with lengths 1..4 x 10 types (types without the function must be rejected) x devices"},
    {"high_rank", high_rank, "4 functions x all shapes of 5..8 dimensions with lengths 1..2 x 10 types"},
    {"lengths", lens, "4 functions x lengths 1..300 and around 2^9..2^16 x types"},
    {"negative_position", negative_at, "sqrt: one negative element at every position, 12 shapes x 6 types x several magnitudes"},
    {"no_elements", no_elements, "4 functions x all shapes of up to 4 dimensions with lengths 0..2 and no elements x 10 types x 3 devices"},
    {"huge", huge_unary, "relu on more than 2^32 int8 elements (thorough: 4 functions x 2-4 types, more than 2^31 or 2^32 elements): every element compared", 900},
    {"many_dimensions", many_dims, "~470 shapes of 9..300 and up to 66000 dimensions with up to ten lengths of 2 or 3 x 4 functions x 10 types"},
    {"mid_sizes", mid_sizes, "all shapes of two and three dimensions with 12 lengths in 1..300 and up to 150000 elements x 4 functions, a type each"},
  }, {"NaN inputs are excluded", "floating results are compared up to rounding; integer square roots may be rounded from the double square root or exact"}};
  if (mc::tier_thorough()) { c.suites.push_back({"every_float", all_floats, "4 functions x all 2^32 float patterns (NaN, and for sqrt negatives, excluded)"}); c.suites.push_back({"long", long_, "lengths around 2^20 and 3*2^20"}); }
  return mc::run(argc, argv, c);
}
