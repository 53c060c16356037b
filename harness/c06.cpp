#include "run.h"
#include "huge.h"
#include <cmath>
#include <limits>

static Case cast_case(const RT& t, int to, int dev = 0) { Case c = mk(CAST, {t}); c.tdt = to; c.in[0].dev = dev; return c; }

// does the value convert without undefined behaviour?
static bool conv_ok(int sdt, double v, int to) {
  if (std::isnan(v)) return false;
  if (is_float(to)) return !(sdt == TYPE_DOUBLE && to == TYPE_FLOAT && std::fabs(v) > 3.4028234e38 && !std::isinf(v));
  int bits = dsize(to) * 8;
  long double t = truncl((long double)v), lo = is_signed(to) ? -ldexpl(1, bits - 1) : 0, hi = is_signed(to) ? ldexpl(1, bits - 1) - 1 : ldexpl(1, bits) - 1;
  return t >= lo && t <= hi;
}

static void small_ints() {        // every 8- and 16-bit value to every type
  int dt = mc::choose(4), to = mc::choose(10); mc::start();
  int64_t n = dsize(dt) == 1 ? 256 : 65536;
  RT t(dt, {n}); for (int64_t i = 0; i < n; i++) t.set_i64(i, i);
  run_value(cast_case(t, to));
}
static void wide_ints() {
  int dt = 4 + mc::choose(4), to = mc::choose(10); mc::start();
  std::vector<int64_t> v = {0, 1, -1, 2, 3, 7, 100, 127, 128, 129, -127, -128, -129, 255, 256, 257};
  for (int k = 7; k < 64; k++) for (int d : {-3, -2, -1, 0, 1, 2, 3}) { v.push_back((int64_t)((1ull << k) + d)); v.push_back(-(int64_t)((1ull << k) + d)); }
  for (int k = 20; k < 63; k++) { v.push_back((int64_t)((1ull << k) + (1ull << (k - 20)))); v.push_back((int64_t)((1ull << k) | (0x5555555555555555ull & ((1ull << k) - 1)))); }
  RT t(dt, {(int64_t)v.size()}); for (size_t i = 0; i < v.size(); i++) t.set_i64(i, v[i]);
  run_value(cast_case(t, to));
}
static void reals() {
  int dt = 8 + mc::choose(2), to = mc::choose(10); mc::start();
  std::vector<double> v;
  for (double b : {0.0, 0.5, 0.25, 0.75, 0.999, 1.0, 1.5, 1.999999, 2.0, 2.5, 3.5, 99.9, 126.99, 127.0, 127.5, 127.999, 128.0, 254.9, 255.0, 255.5, 255.999, 256.0, 1e-3, 1e-40, 1e-300, 1.0 / 3, 3.14159265358979})
    { v.push_back(b); v.push_back(-b); }
  for (int k = 8; k <= 64; k++) for (double d : {-1.0, -0.5, 0.0, 0.5, 1.0, 1.5}) { v.push_back(std::ldexp(1, k) + d); v.push_back(-std::ldexp(1, k) + d); v.push_back(std::nextafter(std::ldexp(1, k), 0)); v.push_back((double)std::nextafterf((float)std::ldexp(1, k), 0)); }
  for (double b : {1e10, 1e20, 1e38, 3.4e38, 1e39, 1e300, 1.17549435e-38, 1.4e-45, 5e-324}) { v.push_back(b); v.push_back(-b); }
  v.push_back(INFINITY); v.push_back(-INFINITY);
  RT t(dt, {(int64_t)v.size()});
  for (size_t i = 0; i < v.size(); i++) { t.set_num(i, v[i]); if (!conv_ok(dt, t.num(i), to)) t.set_num(i, 1.75); }
  run_value(cast_case(t, to));
}
static void float_patterns() {
  int to = mc::choose(10);
  int hi = mc::choose(mc::thorough() ? 65536 : 64); mc::start();
  RT t(TYPE_FLOAT, {mc::thorough() ? 65536 : 1024});
  for (int64_t i = 0; i < t.size(); i++) {
    uint32_t b = mc::thorough() ? (uint32_t)hi << 16 | (uint32_t)i : ((uint32_t)(hi * 1024 + i) << 16) | (uint32_t)((i * 40503 + hi * 7) & 0xffff);
    float f; memcpy(&f, &b, 4);
    if (!conv_ok(TYPE_FLOAT, f, to)) f = 2.5f;
    t.put<float>(i, f);
  }
  run_value(cast_case(t, to));
}
static void shapes() {
  Dims s = mc::pick(mc::thorough() ? shapes_upto(5, 4) : shapes_upto(4, 3)); mc::start();
  int dt = mc::choose(10), to = mc::choose(10);
  run_value(cast_case(mkrt(dt, s, P_POS, 1), to, s.size() < 3 ? mc::choose(3) : 0));
}
static void high_rank() {
  static const std::vector<Dims> sh = [] { std::vector<Dims> v; for (auto& d : shapes_upto(7, 2)) if (d.size() >= 5) v.push_back(d); return v; }();
  Dims s = mc::pick(sh); int dt = mc::choose(10); mc::start();
  run_value(cast_case(mkrt(dt, s, P_POS, 1), mc::choose(10)));
}
static void lens() {
  int64_t n = mc::pick(lengths()); mc::start();
  int dt = mc::choose(10), to = n > 3000 ? (dt + 3 * mc::choose(3) + 1) % 10 : mc::choose(10);
  RT t = mkrt(dt, {n}, P_SMALL, 3);
  for (int64_t i = 0; i < n; i++) if (!conv_ok(dt, t.num(i), to)) t.set_i64(i, 5);
  run_value(cast_case(t, to));
}
// an unknown target type, whatever its code and claimed size
static void unknown() {
  int code = mc::pick(std::vector<int>{10, 11, 12, 42, 99, 127, 128, 255, 256, 1000, 65536, 0x7fffffff}); int size = mc::pick(std::vector<int>{1, 2, 4, 8, 16}); mc::start();
  int dt = mc::choose(10); Dims s = mc::pick(std::vector<Dims>{{}, {3}, {2, 2}});
  RT v = mkrt(dt, s, P_POS, 1);
  mc::describe([&] { return mc::fmt("cast %s to type code %d of %d bytes", show(v).c_str(), code, size); });
  vf::reset();
  Tensor t = make(v), out = nullptr;
  DataType d; d.code = (TypeCode)code; d.size = (uint8_t)size;
  Status st = aitisa_cast(t, d, &out);
  if (st != STATUS_NOT_SUPPORTED) mc::fail("cast of %s to type code %d (%d bytes): status %d, expected NOT_SUPPORTED", show(v).c_str(), code, size, (int)st);
  mc::outcome(code * 100 + size); vf::reset();
}

static void huge_cast() {       // more elements than 32 bits can count
  mc::start();
  int from = mc::pick(mc::thorough() ? std::vector<int>{TYPE_INT8, TYPE_UINT8, TYPE_INT16, TYPE_FLOAT, TYPE_INT64} : std::vector<int>{TYPE_INT8});
  int to = mc::pick(mc::thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} : std::vector<int>{TYPE_UINT8, TYPE_INT8});
  int64_t n = dsize(to) > 2 ? (1ll << 31) + 6 : (1ll << 32) + 6;
  Case c = mk(CAST, {huge::block(from, P_POS, 1)}); c.tdt = to;
  huge::elementwise(c, {2, n / 2}, {2, n / 2});
}
static void no_elements() {
  Dims s = mc::pick(empties(4)); int dt = mc::choose(10); mc::start();
  run_value(cast_case(mkrt(dt, s, P_POS, 1), mc::choose(10), mc::choose(3)));
}
static void many_dims() {
  Dims s = mc::pick(tall()); mc::start(); int dt = mc::choose(10);
  run_value(cast_case(mkrt(dt, s, P_POS, 1), (dt + mc::pick(std::vector<int>{0, 3, 7})) % 10));
}
static void mid_sizes() {
  Dims s = mc::pick(blocks()); mc::start();
  int k = (int)(s[0] * 7 + s[1] * 3 + s.back());
  run_value(cast_case(mkrt(k % 10, s, P_POS, 1), k / 3 % 10));
}
static void nan_() {             // a NaN stays one between floating types
  int dt = 8 + mc::choose(2), to = 8 + mc::choose(2); mc::start();
  int n = mc::range(1, 9), at = mc::choose(n), neg = mc::choose(2);
  RT t = mkrt(dt, {n}, P_INJ, 1); t.set_num(at, neg ? -NAN : NAN);
  Case c = cast_case(t, to); Expect e; e.out = RT(to, {n}); e.cmp = Expect::TOL;
  for (int i = 0; i < n; i++) { e.val.push_back(to == TYPE_FLOAT ? (double)(float)t.num(i) : t.num(i)); e.tol.push_back(0); }
  run_value(c, e);
}
static void plain_contents() { plain({CAST}); }
int main(int argc, char** argv) {
  mc::Check c{"C06", "model_checking", {
    {"plain_contents", plain_contents, "constant, ascending, descending and nearly constant contents of every operand, every well-formed call of the small space, and lengths up to 300"},
    {"small_ints", small_ints, "all values of int8, uint8, int16, uint16 x 10 target types"},
    {"wide_ints", wide_ints, "boundary values around every power of two of the 32/64-bit integers x 10 target types"},
    {"reals", reals, "boundary float and double values x 10 target types (values outside an integer target replaced)"},
    {"float_patterns", float_patterns, "65536 float bit patterns covering every sign/exponent/leading mantissa (thorough: all 2^32) x 10 target types"},
    {"shapes", shapes, "all shapes of up to 4 dimensions with lengths 1..3 (thorough 5 and 1..4) x 100 type pairs x devices"},
    {"high_rank", high_rank, "all shapes of 5..7 dimensions with lengths 1..2 x 100 type pairs"},
    {"lengths", lens, "lengths 1..300 and around 2^9..2^16 x type pairs"},
    {"unknown_type", unknown, "12 unknown codes x 5 sizes x 10 source types x 3 shapes"},
    {"nan", nan_, "a NaN at each position of up to 9 elements, between float and double"},
    {"no_elements", no_elements, "all shapes of up to 4 dimensions with lengths 0..2 and no elements x 100 type pairs x 3 devices"},
    {"huge", huge_cast, "more than 2^32 int8 elements to int8 and uint8 (thorough: 5 source types x 10 targets, more than 2^31 or 2^32 elements): every element compared", 600},
    {"many_dimensions", many_dims, "~470 shapes of 9..300 and up to 66000 dimensions with up to ten lengths of 2 or 3 x 10 source types x 3 targets"},
    {"mid_sizes", mid_sizes, "all shapes of two and three dimensions with 12 lengths in 1..300 and up to 150000 elements, a type pair each"},
  }, {"a floating-point value outside the range of an integer target is excluded (undefined in C)", "NaN to an integer type is excluded"}};
  return mc::run(argc, argv, c);
}
