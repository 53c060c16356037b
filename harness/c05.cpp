#include "run.h"
#include "huge.h"
#include <algorithm>
#include <cmath>
#include <limits>

static const Op ops[4] = {ADD, SUB, MUL, DIV};

static void fix_div(Case& c) { if (c.op == DIV && !is_float(c.in[1].dt)) for (int64_t i = 0; i < c.in[1].size(); i++) if (!c.in[1].i64(i)) c.in[1].set_i64(i, 5); }

// every pair of 8-bit values
static void bytes() {
  Op op = ops[mc::choose(4)]; int dt = mc::choose(2);
  int rowsel = mc::choose(8);       // 32 values of the first operand at a time
  mc::start();
  RT a(dt, {32, 256}), b(dt, {32, 256});
  for (int i = 0; i < 32; i++) for (int j = 0; j < 256; j++) { a.set_i64(i * 256 + j, rowsel * 32 + i); b.set_i64(i * 256 + j, j); }
  Case c = mk(op, {a, b}); fix_div(c);
  run_value(c);
}

static std::vector<int64_t> ints(int dt) {
  std::vector<int64_t> v = {0, 1, -1, 2, -2, 3, 7, -7, 100, -100, 127, 128, -128, -129, 255, 256, 257};
  for (int k = 8; k < 64; k++) for (int d = -1; d <= 1; d++) { uint64_t x = (1ull << k) + d; v.push_back((int64_t)x); v.push_back(-(int64_t)x); }
  int bits = dsize(dt) * 8;
  std::vector<int64_t> r;
  for (auto x : v) {
    if (bits == 64) { if (is_signed(dt) || true) r.push_back(x); continue; }
    int64_t lo = is_signed(dt) ? -(1ll << (bits - 1)) : 0, hi = is_signed(dt) ? (1ll << (bits - 1)) - 1 : (1ll << bits) - 1;
    if (x >= lo && x <= hi) r.push_back(x);
  }
  std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
static std::vector<double> reals(int dt) {
  std::vector<double> v = {0, 1, 2, 3, 0.5, 0.1, 1.0 / 3, 1e-3, 7.25, 1e10, 16777215, 16777216, 16777217, 9007199254740993.0};
  if (dt == TYPE_FLOAT) for (double x : {1.17549435e-38, 1.4e-45, 3.40282347e38, 1e38, 1e-20, 1e20}) v.push_back((float)x);
  else for (double x : {2.2250738585072014e-308, 5e-324, 1.7976931348623157e308, 1e300, 1e-200, 1e200}) v.push_back(x);
  v.push_back(std::numeric_limits<double>::infinity());
  size_t n = v.size(); for (size_t i = 0; i < n; i++) v.push_back(-v[i]);
  return v;
}

static bool fits(Op op, int dt, int64_t x, int64_t y) {
  if (op == DIV) return y != 0 && !(y == -1 && ((dt == 4 && x == INT32_MIN) || (dt == 6 && x == INT64_MIN)));
  if (dt == 4) { int32_t r; return !(op == ADD ? __builtin_add_overflow((int32_t)x, (int32_t)y, &r) : op == SUB ? __builtin_sub_overflow((int32_t)x, (int32_t)y, &r) : __builtin_mul_overflow((int32_t)x, (int32_t)y, &r)); }
  if (dt == 6) { int64_t r; return !(op == ADD ? __builtin_add_overflow(x, y, &r) : op == SUB ? __builtin_sub_overflow(x, y, &r) : __builtin_mul_overflow(x, y, &r)); }
  return true;
}

// boundary values of the wider types against each other
static void boundary() {
  Op op = ops[mc::choose(4)]; int dt = 2 + mc::choose(8); mc::start();
  std::vector<uint8_t> A, B; int64_t n = 0; int es = dsize(dt);
  auto put = [&](auto set) {
    RT one(dt, {2}); set(one);
    A.insert(A.end(), one.data.begin(), one.data.begin() + es); B.insert(B.end(), one.data.begin() + es, one.data.end()); n++;
  };
  if (is_float(dt)) {
    for (double x : reals(dt)) for (double y : reals(dt)) {
      put([&](RT& o) { o.set_num(0, x); o.set_num(1, y); });
    }
  } else for (auto x : ints(dt)) for (auto y : ints(dt)) if (fits(op, dt, x, y)) put([&](RT& o) { o.set_i64(0, x); o.set_i64(1, y); });
  RT a(dt, {n}), b(dt, {n}); a.data = A; b.data = B;
  run_value(mk(op, {a, b}));
}

// all shapes, all types, position-sensitive contents
static void shapes() {
  Op op = ops[mc::choose(4)];
  const auto& sh = mc::thorough() ? shapes_upto(5, 4) : shapes_upto(4, 4);
  Dims s = mc::pick(sh); mc::start();
  int dt = mc::choose(10);
  Case c = mk(op, {mkrt(dt, s, op == MUL || !is_float(dt) ? P_SMALL : P_INJ, 1), mkrt(dt, s, P_SMALL, 2)}); fix_div(c);
  run_value(c);
}
static void high_rank() {
  Op op = ops[mc::choose(4)];
  static const std::vector<Dims> sh = [] { std::vector<Dims> v; for (auto& d : shapes_upto(8, 2)) if (d.size() >= 5) v.push_back(d); return v; }();
  Dims s = mc::pick(sh); mc::start();
  int dt = mc::choose(10);
  Case c = mk(op, {mkrt(dt, s, P_SMALL, 3), mkrt(dt, s, P_SMALL, 4)}); fix_div(c);
  run_value(c);
}
static void lens() {
  Op op = ops[mc::choose(4)]; int64_t n = mc::pick(lengths()); mc::start();
  int dt = n > 5000 ? mc::pick(std::vector<int>{0, 4, 8, 9}) : mc::choose(10);
  int form = n % 3 ? mc::choose(2) : mc::choose(3);
  Dims s = form == 0 ? Dims{n} : form == 1 ? Dims{1, n, 1} : Dims{n / 3, 3};
  Case c = mk(op, {mkrt(dt, s, P_SMALL, 1), mkrt(dt, s, P_SMALL, 2)}); fix_div(c);
  run_value(c);
}
static void huge_len() {   // thorough
  Op op = ops[mc::choose(4)]; int64_t n = mc::pick(std::vector<int64_t>{(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20}); int dt = mc::choose(10); mc::start();
  Case c = mk(op, {mkrt(dt, {n}, P_SMALL, 1), mkrt(dt, {n}, P_SMALL, 2)}); fix_div(c);
  run_value(c);
}

// rejections: every pair of types, shapes, devices
static void types() {
  Op op = ops[mc::choose(4)]; int a = mc::choose(10), b = mc::choose(10); mc::start();
  Dims s = mc::pick(std::vector<Dims>{{}, {2}, {2, 3}, {1, 2, 1}});
  int dev = mc::choose(9);
  run_value(mk(op, {mkrt(a, s, P_POS, 1, dev % 3), mkrt(b, s, P_POS, 2, dev / 3)}));
}
static void shape_pairs() {
  Op op = ops[mc::choose(4)];
  static const std::vector<Dims> sh = [] { auto v = shapes_upto(3, 3); for (auto& d : shapes_upto(4, 2)) if (d.size() == 4) v.push_back(d); v.push_back({6}); v.push_back({4}); v.push_back({12}); return v; }();
  Dims a = mc::pick(sh); mc::start(); Dims b = mc::pick(sh);
  int dt = mc::choose(2) ? TYPE_INT32 : TYPE_FLOAT;
  run_value(mk(op, {mkrt(dt, a, P_POS, 1), mkrt(dt, b, P_POS, 2)}));
}
// an impossible division at every position, in every integer type
static void zero_div() {
  int dt = mc::choose(8); Dims s = mc::pick(std::vector<Dims>{{}, {1}, {2}, {5}, {9}, {16}, {17}, {2, 3}, {3, 1, 3}, {33}, {64}, {65}}); mc::start();
  int kind = mc::choose(3);   // zero; -1 with an ordinary dividend; the unrepresentable quotient
  RT a = mkrt(dt, s, P_SMALL, 1), b = mkrt(dt, s, P_POS, 2);
  int64_t pos = mc::choose((int)a.size());
  if (kind == 0) b.set_i64(pos, 0);
  else if (!is_signed(dt)) mc::skip();
  else b.set_i64(pos, -1);
  if (kind == 2) a.set_i64(pos, dt == 0 ? INT8_MIN : dt == 2 ? INT16_MIN : dt == 4 ? INT32_MIN : INT64_MIN);
  run_value(mk(DIV, {a, b}));
}
// both operands the same tensor value, aliased handles
static void aliased() {
  Op op = ops[mc::choose(4)]; int dt = mc::choose(10); mc::start();
  static const std::vector<Dims> sh = [] { auto v = shapes_upto(3, 3); v.insert(v.begin(), Dims{-1}); return v; }();
  Dims s = mc::pick(sh);
  RT a;
  if (s == Dims{-1}) {          // every boundary value
    if (is_float(dt)) {
      auto v = reals(dt); v.push_back(NAN); v.push_back(-0.0);
      a = RT(dt, {(int64_t)v.size()}); for (size_t i = 0; i < v.size(); i++) a.set_num(i, v[i]);
    } else {
      std::vector<int64_t> v; for (auto x : ints(dt)) if (fits(op, dt, x, x)) v.push_back(x);
      a = RT(dt, {(int64_t)v.size()}); for (size_t i = 0; i < v.size(); i++) a.set_i64(i, v[i]);
    }
  } else {
    a = mkrt(dt, s, P_POS, 1);
    if (op == MUL) for (int64_t i = 0; i < a.size(); i++) a.set_i64(i, 1 + i % 11);
  }
  Case c = mk(op, {a, a}); c.shared = true;
  run_value(c);
}

static void huge_pair() {       // more elements than 32 bits can count
  mc::start();
  Op op = mc::pick(mc::thorough() ? std::vector<Op>{ADD, SUB, MUL, DIV} : std::vector<Op>{ADD});
  int dt = mc::pick(mc::thorough() ? std::vector<int>{TYPE_INT8, TYPE_UINT8, TYPE_INT16, TYPE_FLOAT, TYPE_INT64} : std::vector<int>{TYPE_INT8});
  int64_t n = dsize(dt) > 2 || !mc::thorough() ? (1ll << 31) + 6 : (1ll << 32) + 6;
  if (dt == TYPE_INT64) n = (1ll << 31) + 3;
  Case c = mk(op, {huge::block(dt, P_SMALL, 1), huge::block(dt, P_POS, 2)});
  huge::elementwise(c, {n / 2, 2}, {n / 2, 2});
}
static void no_elements() {
  Op op = ops[mc::choose(4)]; Dims a = mc::pick(empties(4)); mc::start();
  int dt = mc::choose(10), f = mc::choose(3);
  Dims b = f == 0 ? a : f == 1 ? Dims(a.rbegin(), a.rend()) : mc::pick(std::vector<Dims>{{}, {0}, {1}, {0, 0}});
  run_value(mk(op, {mkrt(dt, a, P_POS, 1), mkrt(f == 2 ? mc::choose(10) : dt, b, P_POS, 2)}));
}
static void many_dims() {
  Op op = ops[mc::choose(4)]; Dims s = mc::pick(tall()); mc::start();
  int dt = mc::choose(10), f = mc::choose(3); Dims b = s;
  if (f == 1) b.back() = b.back() == 1 ? 2 : 1; else if (f == 2) b[0]++;
  Case c = mk(op, {mkrt(dt, s, P_SMALL, 3), mkrt(dt, b, P_SMALL, 4)}); fix_div(c);
  run_value(c);
}
static void mid_sizes() {
  Op op = ops[mc::choose(4)]; Dims s = mc::pick(blocks()); mc::start();
  int dt = (int)((s[0] * 7 + s[1] * 3 + s.back()) % 10);
  Case c = mk(op, {mkrt(dt, s, P_SMALL, 3), mkrt(dt, s, P_SMALL, 4)}); fix_div(c);
  run_value(c);
}
// 16-bit values: one operand runs through all of them
static void words() {
  Op op = ops[mc::choose(4)]; int dt = 2 + mc::choose(2), side = mc::choose(2);
  static const std::vector<int64_t> few = {0, 1, 2, 3, 5, 7, 10, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 32766, 32767, 32768, 32769, 65279, 65280, 65281, 65407, 65408, 65409, 65525, 65526, 65533, 65534, 65535};
  int64_t y;
  if (mc::thorough()) { if (side) mc::skip(); y = mc::choose(256); mc::start(); y = y * 256 + mc::choose(256); } else { mc::start(); y = mc::pick(few); }
  RT a(dt, {256, 256}), b(dt, {256, 256});
  for (int i = 0; i < 65536; i++) { a.set_i64(i, i); b.set_i64(i, y); }
  if (side) std::swap(a, b);
  Case c = mk(op, {a, b}); fix_div(c);
  run_value(c);
}
// float and double: one operand runs through all signs, exponents and leading mantissa bits
static void patterns() {
  Op op = ops[mc::choose(4)]; int dt = 8 + mc::choose(2), side = mc::choose(2), low = mc::choose(3);
  std::vector<double> r = reals(dt); double y = mc::pick(r); mc::start();
  RT a(dt, {65536}), b(dt, {65536});
  for (uint64_t i = 0; i < 65536; i++) {
    if (dt == TYPE_FLOAT) { uint32_t u = (uint32_t)i << 16 | (low == 0 ? 0 : low == 1 ? 0xffff : 0x5555); float f; memcpy(&f, &u, 4); a.put<float>(i, f); }
    else { uint64_t u = i << 48 | (low == 0 ? 0 : low == 1 ? 0xffffffffffffull : 0x555555555555ull); double f; memcpy(&f, &u, 8); a.put<double>(i, f); }
    b.set_num(i, y);
  }
  if (side) std::swap(a, b);
  run_value(mk(op, {a, b}));
}
static void plain_contents() { plain({ADD, SUB, MUL, DIV}); }
int main(int argc, char** argv) {
  mc::Check c{"C05", "model_checking", {
    {"plain_contents", plain_contents, "constant, ascending, descending and nearly constant contents of every operand, every well-formed call of the small space, and lengths up to 300"},
    {"bytes", bytes, "4 operations x int8/uint8 x all 65536 operand pairs (divisor 0 replaced)"},
    {"boundary", boundary, "4 operations x 8 wider types x all pairs of boundary values without excluded overflow"},
    {"shapes", shapes, "4 operations x all shapes of up to 4 dimensions (thorough 5) with lengths 1..4 x 10 types"},
    {"high_rank", high_rank, "4 operations x all shapes of 5..8 dimensions with lengths 1..2 x 10 types"},
    {"lengths", lens, "4 operations x lengths 1..300 and around 2^9..2^16 x types x 1-3 dimensional forms"},
    {"types_devices", types, "4 operations x 100 type pairs x 4 shapes x 9 device pairs"},
    {"shape_pairs", shape_pairs, "4 operations x all pairs of 59 shapes x 2 types"},
    {"zero_div", zero_div, "division with a zero, a minus one and the unrepresentable quotient at every position, 8 integer types, 12 shapes"},
    {"same_operand", aliased, "4 operations x 10 types x all shapes up to 3 dimensions, and all boundary values: both operands one tensor"},
    {"words", words, "4 operations x int16/uint16 x all 65536 values against 31 values, as either operand (thorough: all 2^32 pairs)"},
    {"patterns", patterns, "4 operations x float/double x all 65536 leading bit patterns x 3 trailing patterns against ~40 values, as either operand"},
    {"no_elements", no_elements, "4 operations x all shapes of up to 4 dimensions with lengths 0..2 and no elements x 10 types, against equal and other shapes"},
    {"huge", huge_pair, "more than 2^31 int8 elements added (thorough: 4 operations x 5 types, more than 2^31 or 2^32 elements): every element compared", 600},
    {"many_dimensions", many_dims, "~470 shapes of 9..300 and up to 66000 dimensions with up to ten lengths of 2 or 3 x 4 operations, types, and shapes that differ in one dimension"},
    {"mid_sizes", mid_sizes, "all shapes of two and three dimensions with 12 lengths in 1..300 and up to 150000 elements x 4 operations, a type each"},
  }, {"signed 32/64-bit overflow of add, sub and mul is excluded (undefined in C)", "a NaN result is compared as NaN, without sign or payload"}};
  if (mc::tier_thorough()) c.suites.push_back({"long", huge_len, "lengths around 2^20 and 3*2^20 x 10 types"});
  return mc::run(argc, argv, c);
}
