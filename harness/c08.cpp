#include "run.h"
#include "huge.h"
#include <array>
#include <climits>

static void one_d() {
  int d = mc::range(1, mc::thorough() ? 12 : 8), dt = mc::choose(10); mc::start();
  Case c = mk(SLICE, {mkrt(dt, {d}, P_INJ, 1, mc::choose(3))});
  c.p[0] = {mc::range(-2, d + 1)}; c.p[1] = {mc::range(-2, d + 2)}; c.p[2] = {mc::range(-1, d + 2)};
  run_value(c);
}
static void add_dim(Case& c, int b, int s, int t) { c.p[0].push_back(b); c.p[1].push_back(s); c.p[2].push_back(t); }
static void two_d() {
  int m = mc::thorough() ? 4 : 3;
  Dims s = {mc::range(1, m), mc::range(1, m)};
  int b = mc::range(-1, (int)s[0]); mc::start();
  Case c = mk(SLICE, {mkrt(TYPE_INT32, s, P_INJ, 1)});
  int z = mc::range(-1, (int)s[0] + 1), t = mc::range(0, 4);
  add_dim(c, b, z, t);
  b = mc::range(-1, (int)s[1]); z = mc::range(-1, (int)s[1] + 1); t = mc::range(0, 4);
  add_dim(c, b, z, t);
  run_value(c);
}
static void valid_dim(Case& c, int d, int maxstep) { int b = mc::range(0, d - 1), z = mc::range(0, d - b); add_dim(c, b, z, mc::range(1, maxstep)); }
static void three_d() {
  Dims s; for (int i = 0; i < 3; i++) s.push_back(mc::range(1, mc::thorough() ? 4 : 3));
  Case c; c.op = SLICE;
  valid_dim(c, (int)s[0], 3); mc::start(); valid_dim(c, (int)s[1], 3); valid_dim(c, (int)s[2], 3);
  c.in = {mkrt(TYPE_UINT8, s, P_INJ, 1)};
  run_value(c);
}
static void four_d() {
  Dims s; for (int i = 0; i < 4; i++) s.push_back(mc::range(1, i < 2 && !mc::thorough() ? 2 : 3));
  Case c; c.op = SLICE;
  valid_dim(c, (int)s[0], 2); mc::start();
  for (int i = 1; i < 4; i++) valid_dim(c, (int)s[i], 2);
  c.in = {mkrt(TYPE_FLOAT, s, P_INJ, 1)};
  run_value(c);
}
static void high_rank() {   // each dimension whole, one index, dropped, or every second
  int nd = mc::range(5, 6);
  Dims s; Case c; c.op = SLICE;
  for (int i = 0; i < nd; i++) {
    int d = i % 3 == 1 ? 3 : 2;
    s.push_back(d);
    switch (mc::choose(nd == 5 || mc::thorough() ? 5 : 4)) { case 0: add_dim(c, 0, d, 1); break; case 1: add_dim(c, d - 1, 0, 1); break; case 2: add_dim(c, 1, d - 1, 1); break; case 3: add_dim(c, 0, d, 2); break; case 4: add_dim(c, 0, 0, 7); break; }
    if (i == 1) mc::start();
  }
  c.in = {mkrt(TYPE_INT64, s, P_INJ, 1)};
  run_value(c);
}
static void types() {
  int dt = mc::choose(10), dev = mc::choose(3); mc::start();
  Dims s = mc::pick(std::vector<Dims>{{}, {5}, {3, 4}, {2, 3, 3}, {1, 3, 1, 2}});
  Case c; c.op = SLICE;
  for (auto d : s) { const int g[][3] = {{0, (int)d, 1}, {(int)d - 1, 0, 1}, {0, (int)d, 2}, {(int)d > 1, (int)d > 1 ? (int)d - 1 : 1, 1}}; const int* q = g[mc::choose(4)]; add_dim(c, q[0], q[1], q[2]); }
  c.in = {mkrt(dt, s, P_INJ, 1, dev)};
  run_value(c);
}
static void extreme() {
  static const std::vector<int> v = {INT_MIN, INT_MIN + 1, -1, 0, 1, 2, 3, 4, INT_MAX - 2, INT_MAX - 1, INT_MAX, 65536, -65536};
  int nd = mc::range(1, 2), b = mc::pick(v), z = mc::pick(v); mc::start();
  int t = mc::pick(v), at = mc::choose(nd);
  Dims s = nd == 1 ? Dims{3} : Dims{3, 2};
  Case c = mk(SLICE, {mkrt(TYPE_INT16, s, P_INJ, 1)});
  for (int i = 0; i < nd; i++) if (i == at) add_dim(c, b, z, t); else add_dim(c, 0, (int)s[i], 1);
  run_value(c);
}
static void big_step() {    // steps far beyond the dimension
  mc::start();
  int d = mc::range(1, 5), b = mc::range(0, d - 1), z = mc::range(0, d - b), t = mc::pick(std::vector<int>{d, d + 1, 100, 32767, 65536, INT_MAX / 2, INT_MAX - 1, INT_MAX});
  Case c = mk(SLICE, {mkrt(TYPE_INT16, {d, 2}, P_INJ, 1)});
  add_dim(c, b, z, t); add_dim(c, 0, 2, mc::choose(2) ? INT_MAX : 1);
  run_value(c);
}
static void longer() {
  Dims s = mc::pick(std::vector<Dims>{{257}, {1000}, {3, 257}, {257, 3}, {2, 65, 3}, {65, 2, 3}, {4097}, {70000}}); mc::start();
  Case c; c.op = SLICE;
  for (auto d : s) {
    int D = (int)d;
    if (D < 10) { add_dim(c, mc::choose(2), D - 1, 1 + mc::choose(2)); continue; }
    int b = mc::pick(std::vector<int>{0, 1, 2, D / 2, D - 1}), z = mc::pick(std::vector<int>{0, 1, D - b, (D - b) / 2}), t = mc::pick(std::vector<int>{1, 2, 3, 7, 64, 255, 256});
    add_dim(c, b, z, t);
  }
  c.in = {mkrt(mc::choose(2) ? TYPE_INT8 : TYPE_DOUBLE, s, P_INJ, 1)};
  run_value(c);
}
static void very_long() {   // lengths that single precision cannot hold
  int k = mc::choose(3), L = mc::pick(std::vector<int>{(1 << 24) + 1, (1 << 24) + 5, 16778001}); mc::start();
  int b = k == 0 ? 0 : mc::pick(std::vector<int>{0, 1, (1 << 24) - 1}), z = L - b, t;
  if (k == 0) t = mc::pick(std::vector<int>{1, 2}); else t = mc::pick(std::vector<int>{1000, 65537, (1 << 24) - 1, 1 << 24, (1 << 24) + 1});
  if (k == 0 && L > 16777221 && !mc::thorough()) mc::skip();
  if (k == 2) z = mc::pick(std::vector<int>{0, L - b - 1, L - b - 2});
  if (z < 0 || b >= L) mc::skip();
  Case c; c.op = SLICE;
  add_dim(c, b, z, t);
  c.in = {mkrt(TYPE_UINT8, {L}, P_INJ, 1)};
  run_value(c);
}
static void huge_slice() {      // dimensions and offsets beyond 32 bits, small results
  static const std::vector<Dims> sh = {{(1ll << 31) + 10}, {(1ll << 32) + 10}, {3, (1ll << 31) + 7}, {3, (1ll << 32) + 7, 1}, {2, (1ll << 30) + 1, 3}, {65537, 65539, 5}, {(1ll << 31) - 1, 3}, {(1ll << 32) + 5, 3}};
  int w = mc::choose((int)sh.size()); Dims s = sh[w]; int dt = std::vector<int>{TYPE_UINT8, TYPE_UINT16, TYPE_DOUBLE}[mc::thorough() ? mc::choose(3) : w % 3]; mc::start();
  Case c = mk(SLICE, {huge::block(dt, P_INJ, 1)});
  Dims out; std::vector<std::array<int64_t, 3>> sel;
  for (auto D : s) {
    int64_t b, z, t;
    if (D < 100) { b = mc::choose(2) && D > 1; z = mc::choose(2) ? D - b : 1; t = 1 + (D > 2 && mc::choose(2)); }
    else {
      int64_t top = std::min<int64_t>(D - 1, INT_MAX);
      b = mc::pick(std::vector<int64_t>{0, 1, top - 3, top}); int64_t m = std::min<int64_t>(D - b, INT_MAX);
      z = mc::pick(mc::thorough() ? std::vector<int64_t>{m, m - 1, 5, (int64_t)(1 << 16) + 1} : std::vector<int64_t>{m, 5}); z = std::max<int64_t>(1, std::min(z, m));
      t = z < 10 ? mc::pick(std::vector<int64_t>{1, 3}) : mc::pick(std::vector<int64_t>{z / 2, z / 3 + 1, INT_MAX, z - 1, z}); t = std::max<int64_t>(1, t);
    }
    add_dim(c, (int)b, (int)z, (int)t); sel.push_back({b, z, t}); out.push_back((z + t - 1) / t);
  }
  std::vector<int64_t> want;
  for (int64_t i = 0; i < prod(out); i++) {
    __int128 at = 0, stride = 1; int64_t r = i;
    for (int d = (int)s.size() - 1; d >= 0; d--) { at += stride * (sel[d][0] + r % out[d] * sel[d][2]); r /= out[d]; stride *= s[d]; }
    RT& x = c.in[0]; int64_t k = (int64_t)(at % huge::Q);
    want.push_back(is_float(x.dt) ? (int64_t)x.num(k) : x.i64(k));
  }
  huge::reduce(c, {s}, out, want);
}
static void huge_copy() {       // results beyond 32 bits
  int f = mc::choose(2); mc::start();
  Dims s = f ? Dims{2, (1ll << 31) - 1} : Dims{3, (1ll << 30) + 1};
  Case c = mk(SLICE, {huge::block(TYPE_UINT8, P_INJ, 1)}), a = c;
  for (auto d : s) add_dim(a, 0, (int)d, 1);
  huge::elementwise(c, s, s, &a);
}
static void no_elements() {     // an empty dimension has no index to begin at: always rejected
  Dims s = mc::pick(empties(4)); mc::start();
  Case c = mk(SLICE, {mkrt(mc::choose(10), s, P_INJ, 1)});
  int f = mc::choose(4);
  for (auto d : s) add_dim(c, 0, f == 0 ? (int)d : f == 1 ? 0 : f == 2 ? 1 : d ? (int)d : 1, f == 3 ? 2 : 1);
  run_value(c);
}
static void many_dims() {
  Dims s = mc::pick(tall()); mc::start();
  int nd = (int)s.size(), f = mc::choose(7);
  Case c = mk(SLICE, {mkrt((nd + f) % 10, s, P_INJ, 1)});
  for (int i = 0; i < nd; i++) {
    int d = (int)s[i];
    switch (f) {
      case 0: add_dim(c, 0, d, 1); break;
      case 1: add_dim(c, d - 1, 0, 1); break;                                   // every dimension dropped
      case 2: if (d > 1) add_dim(c, 1, d - 1, 1); else add_dim(c, 0, 0, 1); break;   // the ones dropped
      case 3: if (d > 1) add_dim(c, d - 1, 0, 1); else add_dim(c, 0, 1, 1); break;   // only the ones kept
      case 4: add_dim(c, 0, d, 2); break;
      case 5: if (i % 2) add_dim(c, d - 1, 0, 1); else add_dim(c, 0, d, 1); break;
      case 6: add_dim(c, 0, i == nd - 1 ? d + 1 : d, 1); break;                 // out of range in the last
    }
  }
  run_value(c);
}
static void mid_sizes() {
  Dims s = mc::pick(blocks()); mc::start(); int f = mc::choose(6);
  Case c = mk(SLICE, {mkrt((int)((s[0] * 7 + s[1] * 3 + s.back() + f) % 10), s, P_INJ, 1)});
  for (size_t i = 0; i < s.size(); i++) {
    int d = (int)s[i];
    switch (f) {
      case 0: add_dim(c, 0, d, 1); break;
      case 1: add_dim(c, d / 3, d - d / 3, 1); break;
      case 2: add_dim(c, 0, d, i + 1 == s.size() ? 2 : 1); break;
      case 3: if (i == 0) add_dim(c, d - 1, 0, 1); else add_dim(c, d > 1, d - (d > 1), 1); break;
      case 4: if (i + 1 == s.size()) add_dim(c, d / 2, 0, 1); else add_dim(c, 0, d, 1); break;
      case 5: add_dim(c, 0, d - d / 4, 3); break;
    }
  }
  run_value(c);
}
static void bit_patterns() {     // zeros of both signs, infinities, NaNs with payload, denormals: moved unchanged
  int dt = mc::choose(10); mc::start();
  Dims s = mc::pick(std::vector<Dims>{{256, 1, 256}, {65536}, {13, 17, 4, 3}, {7}});
  Case c = mk(SLICE, {mkrt(dt, s, P_BITS, mc::choose(3))});
  int f = mc::choose(3);
  for (size_t i = 0; i < s.size(); i++) { int d = (int)s[i]; if (f == 0) add_dim(c, 0, d, 1); else if (f == 1) add_dim(c, d > 2, d - (d > 2), 1 + (d > 3)); else add_dim(c, d / 2, i + 1 == s.size() ? d - d / 2 : 0, 1); }
  run_value(c);
}
static void shared() {          // one array as several of begin, size and step
  int dims = mc::range(1, 3), w = mc::choose(4); mc::start();
  Case c = mk(SLICE, {}); Dims s;
  for (int i = 0; i < dims; i++) { int v = mc::range(1, 3), o = mc::range(0, 2); int z = w == 1 ? o : v; int b = w == 2 ? o : v, t = w == 3 ? 1 + o : v; add_dim(c, b, z, t); s.push_back(6); }
  c.in = {mkrt(mc::choose(10), s, P_INJ, 1)}; c.shared = true; run_value(c);
}
static void plain_contents() { plain({SLICE}); }
int main(int argc, char** argv) {
  mc::Check c{"C08", "model_checking", {
    {"plain_contents", plain_contents, "constant, ascending, descending and nearly constant contents of every operand, every well-formed call of the small space"},
    {"one_dim", one_d, "lengths 1..8 (thorough 12) x every begin -2..d+1, size -2..d+2, step -1..d+2 x 10 types x 3 devices"},
    {"two_dim", two_d, "all shapes with lengths 1..3 (thorough 4) x every begin -1..d, size -1..d+1, step 0..4 in both dimensions"},
    {"three_dim", three_d, "all shapes with lengths 1..3 x every valid begin and size, steps 1..3"},
    {"four_dim", four_d, "all shapes with lengths 1..2/1..3 x every valid begin and size, steps 1..2"},
    {"high_rank", high_rank, "5 and 6 dimensions, five forms of selection per dimension"},
    {"types", types, "5 shapes x 4 selections per dimension x 10 types x 3 devices"},
    {"extreme", extreme, "begin, size and step from 13 values at the limits of int, in each position of 1- and 2-dimensional tensors"},
    {"big_step", big_step, "steps up to INT_MAX with every valid begin and size"},
    {"longer", longer, "dimensions of 65..70000 x offsets and steps"},
    {"very_long", very_long, "lengths around 2^24 and 2^25 (beyond single precision) x offsets, sizes and steps"},
    {"shared", shared, "1..3 dimensions x one array passed as begin, size and step, or as two of them"},
    {"bit_patterns", bit_patterns, "all 65536 leading bit patterns and scattered ones (quiet NaNs with payload, infinities, denormals, both zeros) x 10 types x 3 selections"},
    {"no_elements", no_elements, "all shapes of up to 4 dimensions with lengths 0..2 and no elements x 4 selections x 10 types: rejected"},
    {"huge", huge_slice, "8 shapes with dimensions, offsets or sizes beyond 2^31 and 2^32 x selections of few elements x 3 types", 300},
    {"many_dimensions", many_dims, "~470 shapes of 9..300 and up to 66000 dimensions with up to ten lengths of 2 or 3: each dimension whole, dropped, or stepped over in five patterns"},
    {"mid_sizes", mid_sizes, "all shapes of two and three dimensions with 12 lengths in 1..300 and up to 150000 elements x 6 forms of selection"},
  }, {}};
  if (mc::tier_thorough()) c.suites.push_back({"huge_results", huge_copy, "copies of more than 2^31 elements", 900});
  return mc::run(argc, argv, c);
}
