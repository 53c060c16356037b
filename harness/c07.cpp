#include "run.h"
#include "huge.h"
#include <map>

static const std::vector<Dims>& with_product(int64_t n, int maxd) {   // every shape of 0..maxd dimensions with this element count
  static std::map<std::pair<int64_t, int>, std::vector<Dims>> memo;
  auto& v = memo[{n, maxd}];
  if (v.empty()) {
    std::vector<std::pair<Dims, int64_t>> cur = {{{}, n}};
    if (n == 1) v.push_back({});
    for (int k = 1; k <= maxd; k++) {
      std::vector<std::pair<Dims, int64_t>> nx;
      for (auto& c : cur) for (int64_t d = 1; d <= c.second; d++) if (c.second % d == 0) { auto x = c; x.first.push_back(d); x.second /= d; nx.push_back(x); if (x.second == 1) v.push_back(x.first); }
      cur = nx;
    }
  }
  return v;
}
static void reshape() {
  Dims s = mc::pick(mc::thorough() ? shapes_upto(5, 4) : shapes_upto(4, 4)); int dt = mc::choose(mc::thorough() ? 10 : 4) * (mc::thorough() ? 1 : 3); mc::start();
  Case c = mk(RESHAPE, {mkrt(dt, s, P_INJ, 1)});
  auto& t = with_product(prod(s), 4);
  c.a64 = mc::pick(t);
  run_value(c);
}
static void reshape_types() {
  int dt = mc::choose(10), dev = mc::choose(3); mc::start();
  Dims s = mc::pick(std::vector<Dims>{{}, {1}, {6}, {2, 3}, {2, 3, 4}, {1, 12, 1}, {2, 2, 2, 3}, {2, 2, 2, 2, 2, 2}});
  Case c = mk(RESHAPE, {mkrt(dt, s, P_INJ, 2, dev)});
  c.a64 = mc::pick(with_product(prod(s), prod(s) > 30 ? 6 : 5));
  run_value(c);
}
static void reshape_bad() {
  Dims s = mc::pick(shapes_upto(4, 3)), t = mc::pick(shapes_upto(4, 4)); mc::start();
  if (prod(s) == prod(t)) mc::skip();
  Case c = mk(RESHAPE, {mkrt((int)(t.size() + s.size() * 3) % 10, s, P_INJ, 1)}); c.a64 = t;
  run_value(c);
}
static void reshape_extreme() {   // sizes whose difference or low 32 bits vanish
  mc::start();
  int64_t n = mc::pick(std::vector<int64_t>{1, 2, 6, 8});
  Dims t = mc::pick(std::vector<Dims>{{(1ll << 32) + n}, {1ll << 32, 1}, {1ll << 16, 1ll << 16, n}, {(1ll << 31) + n, 2}, {1ll << 62}, {(1ll << 32) + 1, n}, {0}, {n, 0}, {0, n}});
  Case c = mk(RESHAPE, {mkrt(TYPE_INT8, {n}, P_INJ, 1)}); c.a64 = t;
  run_value(c);
}
static void squeeze() {
  Dims s = mc::pick(shapes_upto(4, 3)); mc::start();
  int nd = (int)s.size();
  Case c = mk(SQUEEZE, {mkrt((int)(nd * 3 + prod(s)) % 10, s, P_INJ, 1)});
  int k = mc::range(0, 4);
  c.n64 = k;
  for (int i = 0; i < k; i++) c.a64.push_back(mc::range(-1, nd));
  run_value(c);
}
static void squeeze_high() {     // every subset of axes, in both orders
  static const std::vector<Dims> sh = [] { std::vector<Dims> v; for (auto& d : shapes_upto(7, 2)) if (d.size() >= 5) v.push_back(d); return v; }();
  Dims s = mc::pick(sh); mc::start();
  int nd = (int)s.size(), m = mc::choose(1 << nd), rev = mc::choose(2);
  Case c = mk(SQUEEZE, {mkrt(TYPE_INT16, s, P_INJ, 1)});
  for (int i = 0; i < nd; i++) { int a = rev ? nd - 1 - i : i; if (m >> a & 1) c.a64.push_back(a); }
  c.n64 = c.a64.size();
  run_value(c);
}
static void squeeze_types() {
  int dt = mc::choose(10), dev = mc::choose(3); mc::start();
  Dims s = mc::pick(shapes_upto(4, 2)); int nd = (int)s.size();
  Case c = mk(SQUEEZE, {mkrt(dt, s, P_INJ, 3, dev)});
  int m = mc::choose(1 << nd);
  for (int i = 0; i < nd; i++) if (m >> i & 1) c.a64.push_back(i);
  c.n64 = c.a64.size();
  run_value(c);
}
static void squeeze_extreme() {
  mc::start();
  Dims s = mc::pick(std::vector<Dims>{{}, {1}, {1, 2}, {2, 1, 1}, {1, 1, 1}});
  Case c = mk(SQUEEZE, {mkrt(TYPE_FLOAT, s, P_INJ, 1)});
  int k = mc::choose(3);
  const std::vector<int64_t> ext = {INT64_MIN, INT64_MAX, -(1ll << 32), 1ll << 32, (1ll << 32) + 1, 1ll << 31, -1, -2, 100, 0, 1};
  if (k == 0) { c.n64 = mc::pick(std::vector<int64_t>{-1, -2, -100, INT64_MIN, -(1ll << 32), -(1ll << 32) + 1}); c.a64 = {0}; }
  else { c.n64 = k; for (int i = 0; i < k; i++) c.a64.push_back(mc::pick(ext)); }
  run_value(c);
}
static void duplicate() {
  Dims s = mc::pick(mc::thorough() ? shapes_upto(6, 3) : shapes_upto(5, 3)); mc::start();
  int dt = mc::choose(10);
  run_value(mk(DUP, {mkrt(dt, s, P_INJ, 1, s.size() < 4 ? mc::choose(3) : 0)}));
}
static void lens() {
  int64_t n = mc::pick(lengths()); mc::start();
  Op op = mc::pick(std::vector<Op>{DUP, RESHAPE, SQUEEZE}); int dt = mc::choose(10);
  Case c = mk(op, {mkrt(dt, op == SQUEEZE ? Dims{1, n, 1} : Dims{n}, P_INJ, 1)});
  if (op == RESHAPE) c.a64 = n % 2 ? Dims{1, n} : Dims{2, n / 2};
  run_value(c);
}
static void huge_copy() {        // more elements than 32 bits can count
  int op = mc::choose(3); mc::start();
  int64_t n = mc::pick(mc::thorough() ? std::vector<int64_t>{(1ll << 31) + 5, (1ll << 32) + 6} : std::vector<int64_t>{(1ll << 32) + 6});
  int dt = mc::thorough() ? mc::pick(std::vector<int>{TYPE_INT8, TYPE_UINT8, TYPE_INT16}) : TYPE_INT8;
  Case c = mk(op == 0 ? DUP : op == 1 ? RESHAPE : SQUEEZE, {huge::block(dt, P_INJ, 1)});
  Dims s = op == 2 ? Dims{1, n, 1} : Dims{n}, o = op == 0 ? s : op == 1 ? (n % 2 ? Dims{1, n} : Dims{2, n / 2}) : Dims{n};
  if (op == 1) c.a64 = o;
  if (op == 2) { c.a64 = {0, 2}; c.n64 = 2; }
  huge::elementwise(c, s, o, &c);
}
static void zero_len() {         // tensors without elements
  mc::start();
  Dims s = mc::pick(std::vector<Dims>{{0}, {0, 3}, {2, 0}, {1, 0, 1}}); int dt = mc::choose(10);
  Op op = mc::pick(std::vector<Op>{SQUEEZE, RESHAPE, DUP});
  Case c = mk(op, {mkrt(dt, s, P_INJ, 1)});
  if (op == RESHAPE) c.a64 = mc::pick(std::vector<Dims>{{0}, {0, 3}, {5, 0}, {1}, {2, 3}, {}});
  run_value(c);
}
static void many_dims() {
  Dims s = mc::pick(tall()); mc::start();
  int nd = (int)s.size(), dt = (nd + (int)prod(s)) % 10;
  switch (mc::choose(5)) {
    case 0: run_value(mk(DUP, {mkrt(dt, s, P_INJ, 1)})); break;
    case 1: { Case c = mk(RESHAPE, {mkrt(dt, s, P_INJ, 1)}); c.a64 = mc::pick(std::vector<Dims>{{prod(s)}, {1, prod(s), 1}, Dims(s.rbegin(), s.rend()), {prod(s), 2}}); run_value(c); break; }
    case 2: { Case c = mk(RESHAPE, {mkrt(dt, {prod(s)}, P_INJ, 1)}); c.a64 = s; if (mc::choose(2)) c.a64[nd - 1]++; run_value(c); break; }
    case 3: {   // all, or one or two axes of every pair of distant ones
      Case c = mk(SQUEEZE, {mkrt(dt, s, P_INJ, 1)});
      std::vector<int> near = {0, 1, 7, 8, 15, 16, nd / 2, nd - 9, nd - 2, nd - 1};
      for (int x : {30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256}) if (x < nd) near.push_back(x);
      if (nd > 300) near = {0, nd / 2, nd - 1};
      int n = mc::choose(3);
      for (int i = 0; i < n; i++) c.a64.push_back(mc::pick(near));
      c.n64 = n; run_value(c); break;
    }
    case 4: {   // all axes of length one, ascending or descending, without some
      Case c = mk(SQUEEZE, {mkrt(dt, s, P_INJ, 1)});
      int m = mc::choose(5), rev = mc::choose(2);
      for (int j = 0; j < nd; j++) { int i = rev ? nd - 1 - j : j; if (s[i] == 1 && (m == 0 || (m == 1 && i % 2) || (m == 2 && i >= 8) || (m == 3 && i < nd - 8) || (m == 4 && i % 3 == 0))) c.a64.push_back(i); }
      c.n64 = c.a64.size(); run_value(c); break;
    }
  }
}
static void mid_sizes() {
  Dims s = mc::pick(blocks()); mc::start();
  Op op = mc::pick(std::vector<Op>{DUP, RESHAPE, SQUEEZE});
  Case c = mk(op, {mkrt((int)((s[0] * 7 + s[1] * 3 + s.back()) % 10), s, P_INJ, 1)});
  if (op == RESHAPE) c.a64 = {s[1], prod(s) / s[1]};
  run_value(c);
}
static void bit_patterns() {     // zeros of both signs, infinities, NaNs with payload, denormals: moved unchanged
  int dt = mc::choose(10); mc::start();
  Dims s = mc::pick(std::vector<Dims>{{256, 1, 256}, {1, 65536}, {13, 17, 1, 3}, {7}});
  Op op = mc::pick(std::vector<Op>{DUP, RESHAPE, SQUEEZE});
  Case c = mk(op, {mkrt(dt, s, P_BITS, mc::choose(3))});
  if (op == RESHAPE) { c.a64 = Dims(s.rbegin(), s.rend()); c.a64.push_back(1); }
  run_value(c);
}
static void shared() {          // reshape to the dimension array of the input itself
  Dims s = mc::pick(shapes_upto(5, 3)); mc::start();
  Case c = mk(RESHAPE, {mkrt(mc::choose(10), s, P_INJ, 1)}); c.a64 = s; c.shared = true; run_value(c);
}
static void plain_contents() { plain({DUP, RESHAPE, SQUEEZE}); }
int main(int argc, char** argv) {
  mc::Check c{"C07", "model_checking", {
    {"plain_contents", plain_contents, "constant, ascending, descending and nearly constant contents of every operand, every well-formed call of the small space"},
    {"reshape", reshape, "all shapes of up to 4 dimensions with lengths 1..4 x every target shape of up to 4 dimensions with the same element count x types"},
    {"reshape_types", reshape_types, "8 shapes x every equal-count target up to 5-6 dimensions x 10 types x 3 devices"},
    {"reshape_mismatch", reshape_bad, "all pairs of shapes of up to 4 dimensions with different element counts"},
    {"reshape_extreme", reshape_extreme, "targets whose element count agrees only in its low 32 bits, overflows, or is zero"},
    {"squeeze", squeeze, "all shapes of up to 4 dimensions with lengths 1..3 x every axis list of up to 4 entries from -1..ndim"},
    {"squeeze_high_rank", squeeze_high, "all shapes of 5..7 dimensions with lengths 1..2 x every subset of axes, ascending and descending"},
    {"squeeze_types", squeeze_types, "all shapes of up to 4 dimensions with lengths 1..2 x subsets of axes x 10 types x 3 devices"},
    {"squeeze_extreme", squeeze_extreme, "axes and axis counts at the limits of 32 and 64 bits"},
    {"duplicate", duplicate, "all shapes of up to 5 dimensions with lengths 1..3 (thorough 6) x 10 types x devices"},
    {"lengths", lens, "lengths 1..300 and around 2^9..2^16 x 3 operations x 10 types"},
    {"shared", shared, "all shapes up to 5 dimensions with lengths 1..3 x 10 types reshaped to the dimension array of the input itself"},
    {"bit_patterns", bit_patterns, "all 65536 leading bit patterns and scattered ones (quiet NaNs with payload, infinities, denormals, both zeros) x 10 types x 3 operations"},
    {"no_elements", zero_len, "reshape, squeeze and duplicate of tensors without elements"},
    {"huge", huge_copy, "the three operations on more than 2^32 elements (thorough: and 2^31; 3 types): every element compared", 300},
    {"many_dimensions", many_dims, "~470 shapes of 9..300 and up to 66000 dimensions with up to ten lengths of 2 or 3: duplicated, reshaped to and from them, squeezed by no, one, two or many axes"},
    {"mid_sizes", mid_sizes, "all shapes of two and three dimensions with 12 lengths in 1..300 and up to 150000 elements x 3 operations, a type each"},
  }, {"shapes with negative lengths are excluded"}};
  return mc::run(argc, argv, c);
}
