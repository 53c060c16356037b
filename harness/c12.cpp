#include "run.h"
#include "huge.h"
#include <cmath>
#include <climits>

struct Geo { int in, k, s, p, d; };
static bool fits(const Geo& g) { return g.d * (g.k - 1) + 1 <= g.in + 2 * g.p; }
static std::vector<Geo> geos(int in, int k, int s, int p, int d, bool invalid) {
  std::vector<Geo> v;
  for (int a = 1; a <= in; a++) for (int b = 1; b <= k; b++) for (int c = 1; c <= s; c++) for (int e = 0; e <= p; e++) for (int f = 1; f <= d; f++) {
    Geo g{a, b, c, e, f};
    if (f > 1 && b == 1) continue;
    if (fits(g) || invalid) v.push_back(g);
  }
  return v;
}
struct Ch { int n, c, fc, m, g; };
static const std::vector<Ch> chs = {{1, 1, 1, 1, 1}, {2, 2, 2, 3, 1}, {1, 4, 2, 4, 2}, {2, 3, 1, 3, 3}, {1, 4, 1, 8, 4}, {2, 6, 3, 2, 2}};

static Case conv(Op op, const Ch& h, const std::vector<Geo>& gs, Pat p = P_FRAC) {
  Case c; c.op = op; c.groups = h.g;
  Dims s = {h.n, h.c}, f = {h.m, h.fc};
  for (auto& g : gs) { s.push_back(g.in); f.push_back(g.k); c.p[0].push_back(g.s); c.p[1].push_back(g.p); c.p[2].push_back(g.d); }
  c.in = {mkrt(TYPE_FLOAT, s, p, 1), mkrt(TYPE_FLOAT, f, p, 2)};
  return c;
}
static void d1() {
  Ch h = mc::pick(chs); int in = mc::range(1, mc::thorough() ? 16 : 9), k = mc::range(1, 4); mc::start();
  Geo g{in, k, mc::range(1, 4), mc::range(0, 3), mc::range(1, 3)};
  run_value(conv(CONV, h, {g}));
}
static void d2() {
  static const auto v = mc::thorough() ? geos(5, 3, 3, 2, 2, true) : geos(4, 3, 2, 1, 2, true);
  Geo a = mc::pick(v); mc::start(); Geo b = mc::pick(v);
  if (!fits(a) && !fits(b) && (a.in + b.in) % 3) mc::skip();
  const Ch& h = chs[(a.in + a.k + b.s + b.in * 2 + b.p) % (int)chs.size()];
  run_value(conv((a.k + b.in) % 2 ? CONV2D : CONV, h, {a, b}));
}
static void d3() {
  static const auto v = [] {
    std::vector<Geo> w = {{1, 1, 1, 0, 1}, {2, 1, 1, 0, 1}, {3, 2, 1, 0, 1}, {3, 2, 2, 0, 1}, {3, 2, 1, 1, 1}, {3, 2, 2, 1, 2}, {4, 2, 1, 0, 2}, {2, 3, 1, 1, 1}, {4, 3, 3, 1, 1}, {1, 2, 1, 1, 2}, {2, 3, 1, 0, 1}, {5, 3, 2, 0, 1}};
    if (mc::thorough()) w = geos(3, 2, 2, 1, 2, true);
    return w; }();
  Geo a = mc::pick(v), b = mc::pick(v); mc::start(); Geo e = mc::pick(v);
  const Ch& h = chs[(a.in + a.k + b.s + b.in * 2 + b.p + e.in + e.d) % 4];
  run_value(conv((a.k + b.in + e.s) % 2 ? CONV3D : CONV, h, {a, b, e}));
}
static void groups() {
  int C = mc::range(1, 6), M = mc::range(1, 6); mc::start();
  int g = mc::range(-2, 7), fc = mc::range(1, 6), nd = mc::range(1, 3), n = mc::range(1, 2);
  std::vector<Geo> gs(nd, Geo{3, 2, 1, 0, 1});
  run_value(conv(CONV, {n, C, fc, M, g}, gs));
}
static void many_channels() {
  Ch h{mc::pick(std::vector<int>{1, 3}), 0, 0, 0, 0};
  int Cg = mc::pick(std::vector<int>{1, 2, 3, 7, 8, 16, 17, 64}), Mg = mc::pick(std::vector<int>{1, 2, 5, 16, 33}); mc::start();
  h.g = mc::pick(std::vector<int>{1, 2, 3, 8}); h.c = Cg * h.g; h.fc = Cg; h.m = Mg * h.g;
  Geo g = mc::pick(std::vector<Geo>{{1, 1, 1, 0, 1}, {5, 3, 1, 1, 1}, {6, 2, 2, 1, 2}});
  run_value(conv(mc::choose(2) ? CONV2D : CONV, h, {g, Geo{3, 2, 1, 0, 1}}));
}
static void long_rows() {   // lengths past any unrolled or blocked loop
  int64_t n = mc::pick(lengths()); if (n > 70000) mc::skip(); mc::start();
  int f = mc::choose(4);
  switch (f) {
    case 0: run_value(conv(CONV, {1, 1, 1, 1, 1}, {{(int)n, 3, 1, 1, 1}})); break;
    case 1: if (n > 2000) mc::skip(); run_value(conv(CONV, {1, 2, 2, 2, 1}, {{(int)n + 3, (int)n, 1, 1, 1}})); break;   // long kernels
    case 2: if (n > 400) mc::skip(); run_value(conv(CONV2D, {1, 1, 1, 2, 1}, {{2, 2, 1, 1, 1}, {(int)n, 2, 3, 0, 1}})); break;
    case 3: if (n > 400) mc::skip(); run_value(conv(CONV2D, {(int)n, 1, 1, 2, 1}, {{2, 2, 1, 0, 1}, {2, 2, 1, 0, 1}})); break;
  }
}
static void very_long() {   // lengths that single precision cannot hold
  int L = mc::pick(std::vector<int>{(1 << 24) + 1, (1 << 24) + 3, 16778000, 16778001}); mc::start();
  int st = mc::pick(std::vector<int>{1000, 65536, (1 << 24) - 1, 1 << 24, (1 << 24) + 1}), k = 1 + mc::choose(2);
  run_value(conv(CONV, {1, 1, 1, 1, 1}, {{L, k, st, mc::choose(2), 1}}));
}
static void unit() {       // one non-zero element in the input and one in the filter, every pair of positions
  int k = mc::choose(5);
  Case c = k == 0 ? conv(CONV, {2, 2, 2, 2, 1}, {{4, 2, 1, 1, 2}}) : k == 1 ? conv(CONV, {1, 4, 2, 2, 2}, {{3, 2, 2, 1, 1}}) :
           k == 2 ? conv(CONV, {1, 2, 2, 2, 1}, {{3, 2, 1, 1, 1}, {4, 3, 2, 0, 1}}) : k == 3 ? conv(CONV2D, {2, 2, 1, 2, 2}, {{2, 2, 1, 1, 1}, {3, 2, 1, 0, 2}}) :
           conv(CONV3D, {1, 2, 1, 2, 2}, {{2, 2, 1, 1, 1}, {3, 2, 2, 1, 2}, {2, 1, 1, 0, 1}});
  mc::start();
  for (auto& t : c.in) for (int64_t i = 0; i < t.size(); i++) t.set_num(i, 0);
  c.in[0].set_num(mc::choose((int)c.in[0].size()), 3); c.in[1].set_num(mc::choose((int)c.in[1].size()), 5);
  run_value(c);
}
static void ranks() {
  Op op = mc::pick(std::vector<Op>{CONV, CONV2D, CONV3D}); int na = mc::range(0, 5), nf = mc::range(0, 6); mc::start();
  int dt = mc::pick(std::vector<int>{TYPE_FLOAT, TYPE_DOUBLE, TYPE_INT32});
  Case c; c.op = op;
  Dims s, f; for (int i = 0; i < na; i++) s.push_back(i == 1 ? 2 : 3); for (int i = 0; i < nf; i++) f.push_back(i == 1 ? 2 : i < 2 ? 3 : 2);
  for (int i = 0; i < 3; i++) c.p[i].assign(na > 2 ? na - 2 : 1, i == 1 ? 0 : 1);
  c.in = {mkrt(dt, s, P_SMALL, 1), mkrt(TYPE_FLOAT, f, P_SMALL, 2)};
  run_value(c);
}
static void types() {
  int a = mc::choose(10), b = mc::choose(10); mc::start();
  int nd = mc::range(1, 3);
  Case c = conv(nd == 2 ? CONV2D : nd == 3 ? CONV3D : CONV, {1, 2, 2, 2, 1}, std::vector<Geo>(nd, Geo{3, 2, 1, 0, 1}));
  c.in[0] = mkrt(a, c.in[0].dims, P_POS, 1); c.in[1] = mkrt(b, c.in[1].dims, P_POS, 2);
  run_value(c);
}
static const std::vector<int> odd = {0, -1, -2, INT_MIN, INT_MIN + 1, -65536, 1 << 30, INT_MAX, (1 << 30) + 1, 65536};
static void bad_params() {  // a wrong value of one parameter in one dimension
  int nd = mc::range(1, 3), which = mc::choose(3); mc::start();
  int at = mc::choose(nd), v = mc::pick(odd);
  Case c = conv(mc::choose(2) && nd > 1 ? (nd == 2 ? CONV2D : CONV3D) : CONV, {1, 2, 1, 2, 2}, std::vector<Geo>(nd, Geo{4, 2, 1, 0, 1}));
  c.p[which][at] = v;
  if (which == 1 && v > 10000) c.p[0][at] = v == 65536 ? 65536 : 1 << 30;     // few positions
  run_value(c);
}
static void huge_params() { // several extreme parameters at once, with a small result
  int nd = mc::range(1, 2); mc::start();
  static const std::vector<int> P = {0, 3, 65536, 1 << 29, 1 << 30, (1 << 30) + 7, INT_MAX}, S = {1 << 28, 1 << 30, INT_MAX}, D = {1, 7, 65536, 1 << 30, INT_MAX}, K = {1, 2, 3};
  Case c = conv(CONV, {1, 2, 2, 1, 1}, std::vector<Geo>(nd, Geo{3, 2, 1, 0, 1}));
  int at = mc::choose(nd);
  Dims f = c.in[1].dims; f[2 + at] = mc::pick(K); c.in[1] = mkrt(TYPE_FLOAT, f, P_SMALL, 3);
  c.p[0][at] = mc::pick(S); c.p[1][at] = mc::pick(P); c.p[2][at] = mc::pick(D);
  run_value(c);
}
static void bad_groups() {
  int C = mc::range(1, 4), M = mc::range(1, 4); mc::start();
  int g = mc::pick(std::vector<int>{0, -1, -2, INT_MIN, INT_MAX, 65536, 5, 3, 2}), fc = mc::range(1, 4);
  run_value(conv(CONV, {1, C, fc, M, g}, {{3, 2, 1, 0, 1}}));
}
static void huge_rows() {       // rows and offsets beyond 32 bits, small results
  static const std::vector<Dims> sh = {{1, 1, (1ll << 31) + 9}, {1, 1, (1ll << 32) + 9}, {2, 2, (1ll << 31) + 1}, {1, 3, (1ll << 30) + 3}, {3, 1, (1ll << 32) - 1}};
  Dims s = mc::pick(sh); mc::start();
  int64_t L = s[2], C = s[1], M = mc::range(1, 2), k = mc::range(1, 3), p = mc::pick(std::vector<int64_t>{0, 1, 3}), d = mc::pick(std::vector<int64_t>{1, 2, 1 << 30, INT_MAX}), st = mc::pick(std::vector<int64_t>{1 << 30, INT_MAX, (1 << 30) - 7, 1 << 29});
  if ((k - 1) * d + 1 > L + 2 * p) mc::skip();
  Case c = mk(CONV, {huge::block(TYPE_FLOAT, P_SMALL, 1), mkrt(TYPE_FLOAT, {M, C, k}, P_SMALL, 2)});
  c.p[0] = {(int)st}; c.p[1] = {(int)p}; c.p[2] = {(int)d};
  int64_t o = (L + 2 * p - (k - 1) * d - 1) / st + 1;
  std::vector<int64_t> want;
  for (int64_t b = 0; b < s[0]; b++) for (int64_t m = 0; m < M; m++) for (int64_t i = 0; i < o; i++) {
    double sum = 0;
    for (int64_t q = 0; q < C; q++) for (int64_t j = 0; j < k; j++) { int64_t at = i * st - p + j * d; if (at >= 0 && at < L) sum += c.in[0].num((int64_t)(((__int128)(b * C + q) * L + at) % huge::Q)) * c.in[1].num((m * C + q) * k + j); }
    want.push_back((int64_t)sum);
  }
  huge::reduce(c, {s, {M, C, k}}, {s[0], M, o}, want);
}
static void huge_kernel() {     // a filter as long as the row, beyond 31 bits
  mc::start();
  int64_t L = (1ll << 31) + 3;
  Case c = mk(CONV, {huge::block(TYPE_FLOAT, P_SMALL, 1), huge::block(TYPE_FLOAT, P_SMALL, 2)});
  for (int i = 0; i < 2; i++) for (int64_t j = 0; j < huge::Q; j++) if (j % 256) c.in[i].set_num(j, 0);     // few products, so that the float sum is exact
  c.p[0] = {1}; c.p[1] = {0}; c.p[2] = {1};
  double full = 0, part = 0;
  // keep the running sum within 2^24: the last term balances one period
  int64_t last = 256 * 15; c.in[1].set_num(last, 1); c.in[0].set_num(last, 0); 
  for (int64_t j = 0; j < huge::Q; j++) full += c.in[0].num(j) * c.in[1].num(j);
  c.in[0].set_num(last, -full);
  for (int64_t j = 0; j < L % huge::Q; j++) part += c.in[0].num(j) * c.in[1].num(j);
  huge::reduce(c, {{1, 1, L}, {1, 1, L}}, {1, 1, 1}, {(int64_t)part});
}
static void no_elements() {     // no batches, channels, filters or input elements (the last only with padding)
  Ch h = mc::pick(std::vector<Ch>{{0, 2, 2, 3, 1}, {2, 0, 0, 3, 1}, {2, 2, 2, 0, 1}, {0, 0, 0, 0, 1}, {1, 0, 0, 4, 2}, {1, 2, 1, 0, 2}, {0, 4, 2, 2, 2}, {1, 0, 1, 2, 1}, {2, 1, 0, 2, 1}, {1, 2, 2, 2, 1}}); int nd = mc::range(1, 3); mc::start();
  static const std::vector<Geo> gs = {{3, 2, 1, 0, 1}, {3, 1, 2, 1, 1}, {0, 1, 1, 0, 1}, {0, 1, 1, 1, 1}, {0, 2, 1, 1, 1}, {0, 3, 2, 2, 1}, {0, 2, 1, 2, 3}};
  std::vector<Geo> g; for (int i = 0; i < nd; i++) g.push_back(mc::pick(gs));
  run_value(conv(mc::choose(2) && nd > 1 ? (nd == 2 ? CONV2D : CONV3D) : CONV, h, g));
}
static void mid_sizes() {
  static const std::vector<int> K = {1, 2, 5, 15, 16, 17, 31, 33, 64, 65, 128, 129, 255, 257}, K3 = {1, 7, 16, 17, 33}, L = {1, 15, 16, 33, 65, 129, 130, 257};
  int f = mc::choose(3);
  if (f == 0) {
    int a = mc::pick(K), b = mc::pick(K); mc::start();
    run_value(conv(CONV2D, {1, 1, 1, 1, 1}, {{a, a, 1, a > 2 && b % 2, 1}, {b + 1, b, 1, 0, 1}}));
  } else if (f == 1) {
    int a = mc::pick(K3), b = mc::pick(K3); mc::start(); int e = mc::pick(K3);
    run_value(conv(CONV3D, {1, 1, 1, 1, 1}, {{a, a, 1, 0, 1}, {b, b, 1, 0, 1}, {e + 1, e, 1, 0, 1}}));
  } else {
    int a = mc::pick(L), b = mc::pick(L); mc::start();
    if (mc::choose(2)) run_value(conv(CONV, {1, 1, 1, 1, 1}, {{a, 1, 1, 0, 1}, {b, 2, 1, 1, 1}}));
    else run_value(conv(CONV, {1, 1, 1, 1, 1}, {{a, 2, 1, 1, 1}, {b, 1, 1, 0, 1}, {3, 2, 1, 0, 1}}));
  }
}
static void shared() {          // the input as its own filter, one array as several parameters
  int n = mc::range(1, 3), dims = mc::range(1, 3); mc::start();
  int which = mc::choose(4); std::vector<int> same(dims); for (auto& x : same) x = mc::range(1, 2);
  std::vector<Geo> gs;
  for (int i = 0; i < dims; i++) {
    Geo g{4, 4, 1, 1, 1}; int v = same[i];
    if (which == 0) g.s = g.p = v; else if (which == 1) g.s = g.d = v; else if (which == 2) g.p = g.d = v; else g.s = g.p = g.d = v;
    if (g.d > 1) g.in = g.k = 2 + n;
    gs.push_back(g);
  }
  Case c = conv(dims == 2 && mc::choose(2) ? CONV2D : dims == 3 && mc::choose(2) ? CONV3D : CONV, {n, n, n, n, 1}, gs);
  c.in[1] = c.in[0]; c.shared = true; run_value(c);
}
static void not_finite() {   // an infinity or NaN in the input (padding is zero, whatever the filter) or, without padding, in either
  int k = mc::choose(5);
  std::vector<Geo> gs = k == 0 ? std::vector<Geo>{{5, 3, 2, 0, 1}} : k == 1 ? std::vector<Geo>{{5, 3, 1, 2, 1}} : k == 2 ? std::vector<Geo>{{3, 2, 1, 0, 1}, {4, 2, 1, 0, 2}} :
                        k == 3 ? std::vector<Geo>{{3, 2, 2, 1, 1}, {3, 3, 1, 1, 1}} : std::vector<Geo>{{2, 2, 1, 0, 1}, {2, 1, 1, 0, 1}, {2, 2, 1, 0, 1}};
  mc::start();
  Case c = conv(CONV, mc::choose(2) ? Ch{2, 2, 2, 2, 1} : Ch{1, 2, 1, 2, 2}, gs);
  RT &x = c.in[0], &f = c.in[1];
  for (int64_t i = 0; i < x.size(); i++) x.set_i64(i, i % 3 - 1);
  for (int64_t i = 0; i < f.size(); i++) f.set_i64(i, i % 4 - 1);
  int p = mc::choose((int)x.size()), q = mc::choose((int)f.size());
  bool padded = k == 1 || k == 3;
  static const std::vector<double> V = {INFINITY, -INFINITY, NAN}, W = {0, -1, 2}, U = {0, -1, INFINITY, -INFINITY, NAN};
  x.set_num(p, mc::pick(V)); f.set_num(q, mc::pick(padded ? W : U));
  run_value(c);
}
static void plain_contents() { plain({CONV, CONV2D, CONV3D}); }
int main(int argc, char** argv) {
  mc::Check c{"C12", "model_checking", {
    {"plain_contents", plain_contents, "constant, ascending, descending and nearly constant contents of every operand, every well-formed call of the small space"},
    {"one_dimension", d1, "input 1..9 (thorough 16), kernel 1..4, stride 1..4, padding 0..3, dilation 1..3, 6 batch/channel/group layouts"},
    {"two_dimensions", d2, "all pairs of per-dimension geometries in 1..4, kernel 1..3, stride 1..2, padding 0..1, dilation 1..2 (thorough 1..5, 3, 3, 0..2, 2), fitting or not, both entry points"},
    {"three_dimensions", d3, "all triples of 12 per-dimension geometries (thorough: all of in 1..3, kernel, stride, dilation 1..2, padding 0..1), both entry points"},
    {"groups", groups, "channels 1..6 x filters 1..6 x groups -2..7 x filter channels 1..6 x 1..3 dimensions x batch 1..2"},
    {"channels", many_channels, "up to 512 channels and 264 filters in up to 8 groups"},
    {"long", long_rows, "row, kernel and batch lengths 1..300 and around powers of two"},
    {"very_long", very_long, "lengths around 2^24 (beyond single precision) with long strides"},
    {"unit_contents", unit, "one non-zero element in input and filter, every pair of positions, 5 geometries"},
    {"ranks", ranks, "3 entry points x input rank 0..5 x filter rank 0..6 x 3 types"},
    {"types", types, "100 type pairs x 1..3 dimensions"},
    {"bad_parameter", bad_params, "10 wrong or extreme values of each parameter at each dimension"},
    {"extreme_parameters", huge_params, "combinations of extreme stride, padding, dilation with small results"},
    {"bad_groups", bad_groups, "extreme group counts"},
    {"shared", shared, "the input tensor as its own filter, one array passed as stride and padding, stride and dilation, padding and dilation, or all three"},
    {"no_elements", no_elements, "no batches, channels, filters or input elements, with and without padding: 10 layouts x 7 geometries per dimension"},
    {"huge", huge_rows, "rows and tensors beyond 2^31 and 2^32 elements with long strides and dilations: 5 shapes, 1-2 filters", 300},
    {"not_finite", not_finite, "an infinity or NaN at every position of the input and a zero, infinity, NaN or ordinary value at every position of the filter (finite with padding), 5 geometries, 2 layouts"},
    {"mid_sizes", mid_sizes, "large windows (14 x 14 kernels of up to 257 x 257, 5 x 5 x 5 of up to 33 cubed) with few positions, and small windows with many positions (8 x 8 images of up to 257 x 257)"},
  }, {"contents are small multiples of 1/8, so sums of products are exact in any order", "kernels of length zero and more than three spatial dimensions are excluded"}};
  if (mc::tier_thorough()) c.suites.push_back({"huge_filter", huge_kernel, "a filter of more than 2^31 elements", 1800});
  return mc::run(argc, argv, c);
}
