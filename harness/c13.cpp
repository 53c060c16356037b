#include "run.h"
#include "huge.h"
#include <climits>
#include <cmath>

struct Geo { int in, k, s, p, d; };
static bool fits(const Geo& g) { return g.d * (g.k - 1) + 1 <= g.in + 2 * g.p; }
static std::vector<Geo> geos(int in, int k, int s, int p, int d) {
  std::vector<Geo> v;
  for (int a = 1; a <= in; a++) for (int b = 1; b <= k; b++) for (int c = 1; c <= s; c++) for (int e = 0; e <= p; e++) for (int f = 1; f <= d; f++)
    if (!(f > 1 && b == 1)) v.push_back({a, b, c, e, f});
  return v;
}
static Case pool(const char* mode, int dt, int n, int ch, const std::vector<Geo>& gs, Pat p) {
  Case c; c.op = POOL; c.mode = mode;
  Dims s = {n, ch};
  for (auto& g : gs) { s.push_back(g.in); c.p[0].push_back(g.k); c.p[1].push_back(g.s); c.p[2].push_back(g.p); c.p[3].push_back(g.d); }
  c.in = {mkrt(dt, s, p, 1)};
  return c;
}
static const char* const modes[2] = {"max", "avg"};
static const std::vector<Pat> pats = {P_SMALL, P_NEG, P_POS};

static void d1() {
  int m = mc::choose(2), in = mc::range(1, mc::thorough() ? 16 : 8), k = mc::range(1, 5); mc::start();
  Geo g{in, k, mc::range(1, 4), mc::range(0, 3), mc::range(1, 3)};
  int x = g.in + g.k + g.s + g.p + g.d;
  Pat p = mc::pick(pats);
  int dt = mc::choose(10);
  run_value(pool(modes[m], dt, 1 + x % 2, 1 + (x / 2) % 3, {g}, p));
}
static void d2() {
  static const auto v = mc::thorough() ? geos(5, 3, 3, 2, 2) : geos(4, 3, 2, 1, 2);
  int m = mc::choose(2); Geo a = mc::pick(v); mc::start(); Geo b = mc::pick(v);
  if (!fits(a) && !fits(b) && (a.in + b.in) % 3) mc::skip();
  int x = a.in * 5 + b.in * 3 + a.k + b.k * 2 + a.s + b.p + a.d;
  run_value(pool(modes[m], x % 10, 1 + x % 2, 1 + (x / 2) % 2, {a, b}, pats[(x / 10) % 3]));
}
static void d3() {
  static const auto v = [] {
    std::vector<Geo> w = {{1, 1, 1, 0, 1}, {2, 1, 1, 0, 1}, {3, 2, 1, 0, 1}, {3, 2, 2, 0, 1}, {3, 2, 1, 1, 1}, {3, 2, 2, 1, 2}, {4, 2, 1, 0, 2}, {2, 3, 1, 1, 1}, {4, 3, 3, 1, 1}, {1, 2, 1, 1, 2}, {2, 3, 1, 0, 1}, {2, 1, 3, 2, 1}};
    if (mc::thorough()) w = geos(3, 2, 2, 1, 2);
    return w; }();
  int m = mc::choose(2); Geo a = mc::pick(v), b = mc::pick(v); mc::start(); Geo e = mc::pick(v);
  int x = a.in + b.in * 3 + e.in * 5 + a.k + b.k * 2 + e.s + b.p + e.d;
  run_value(pool(modes[m], x % 10, 1 + x % 2, 1 + (x / 2) % 2, {a, b, e}, pats[(x / 10) % 3]));
}
static void long_rows() {
  int64_t n = mc::pick(lengths()); int m = mc::choose(2); mc::start();
  int dt = mc::pick(std::vector<int>{TYPE_UINT8, TYPE_INT32, TYPE_FLOAT, TYPE_DOUBLE});
  int form = mc::choose(5);
  if (n > 5000 && !mc::thorough() && (form > 1 || dt == TYPE_INT32 || dt == TYPE_FLOAT)) mc::skip();
  switch (form) {
    case 0: run_value(pool(modes[m], dt, 1, 1, {{(int)n, 3, 1, 1, 1}}, P_SMALL)); break;
    case 1: run_value(pool(modes[m], dt, 1, 2, {{(int)n + 2, (int)n, 1, 0, 1}}, P_SMALL)); break;
    case 2: if (n > 700) mc::skip(); run_value(pool(modes[m], dt, (int)n, 2, {{3, 2, 1, 0, 1}}, P_NEG)); break;
    case 3: if (n > 700) mc::skip(); run_value(pool(modes[m], dt, 2, (int)n, {{2, 2, 1, 0, 1}, {3, 2, 1, 1, 1}}, P_SMALL)); break;
    case 4: if (n > 700) mc::skip(); run_value(pool(modes[m], dt, 1, 1, {{2, 2, 1, 1, 1}, {(int)n, 2, 3, 0, 1}}, P_SMALL)); break;
  }
}
static void very_long() {   // lengths that single precision cannot hold
  int L = mc::pick(std::vector<int>{1 << 24, (1 << 24) + 1, (1 << 24) + 2, (1 << 24) + 3, 16778000, 16778001, 16777999, 33555001}), m = mc::choose(2); mc::start();
  int st = mc::pick(std::vector<int>{1000, 4096, 65536, 1 << 23, (1 << 24) - 1, 1 << 24, (1 << 24) + 1}), k = 1 + mc::choose(2);
  run_value(pool(modes[m], TYPE_UINT8, 1, 1, {{L, k, st, mc::choose(2), 1}}, P_SMALL));
}
static void unit() {        // one element stands out (above or below the rest), at every position
  int k = mc::choose(5), m = mc::choose(2);
  std::vector<Geo> gs = k == 0 ? std::vector<Geo>{{5, 3, 2, 1, 1}} : k == 1 ? std::vector<Geo>{{5, 2, 1, 0, 2}} : k == 2 ? std::vector<Geo>{{3, 2, 1, 0, 1}, {4, 3, 1, 1, 1}} :
                        k == 3 ? std::vector<Geo>{{3, 2, 2, 1, 2}, {3, 2, 1, 0, 1}} : std::vector<Geo>{{2, 2, 1, 0, 1}, {3, 2, 1, 1, 1}, {2, 1, 1, 0, 1}};
  mc::start();
  int dt = mc::choose(10);
  Case c = pool(modes[m], dt, 2, 2, gs, P_POS);
  bool s = is_signed(dt) || is_float(dt);
  int bg = s ? mc::pick(std::vector<int>{-50, 0, 20}) : mc::pick(std::vector<int>{0, 20}), hi = mc::pick(std::vector<int>{120, -120, 1});
  if (!s && hi < 0) hi = 200;
  RT& t = c.in[0]; int at = mc::choose((int)t.size());
  for (int64_t i = 0; i < t.size(); i++) t.set_i64(i, i == at ? hi : bg);
  run_value(c);
}
static void extremes() {    // the largest and smallest values of each type
  int m = mc::choose(2), dt = mc::choose(10); mc::start();
  Case c = pool(modes[m], dt, 1, 1, mc::choose(2) ? std::vector<Geo>{{4, 2, 1, 0, 1}} : std::vector<Geo>{{2, 2, 1, 1, 1}, {3, 2, 1, 0, 1}}, P_SMALL);
  RT& t = c.in[0];
  for (int64_t i = 0; i < t.size() && i < 4; i++) {
    int w = mc::choose(is_float(dt) ? 5 : 4), b = dsize(dt) * 8;
    if (is_float(dt)) t.set_num(i, w == 0 ? (dt == TYPE_FLOAT ? 3e38 : 1e308) : w == 1 ? (dt == TYPE_FLOAT ? -3e38 : -1e308) : w == 2 ? -INFINITY : w == 4 ? INFINITY : 1e-30);
    else { if (m == 1 && b == 64) b = 50; t.set_i64(i, w == 0 ? (is_signed(dt) ? (int64_t)((1ull << (b - 1)) - 1) : (int64_t)(b == 64 ? ~0ull : (1ull << b) - 1)) : w == 1 ? (is_signed(dt) ? -(int64_t)(1ull << (b - 2)) * 2 : 0) : w == 2 ? 1 : is_signed(dt) ? -1 : 2); }
  }
  if (is_float(dt) && m == 1) for (int64_t i = 0; i < t.size(); i++) if (std::fabs(t.num(i)) > 1e37) t.set_num(i, dt == TYPE_FLOAT ? t.num(i) / 4 : t.num(i) / 16);
  run_value(c);
}
static void ranks() {
  int nd = mc::range(0, 8), dt = mc::choose(10); mc::start();
  Case c; c.op = POOL; c.mode = mc::pick(std::vector<std::string>{"max", "avg", "none"});
  Dims s; for (int i = 0; i < nd; i++) s.push_back(2);
  for (int i = 0; i < 4; i++) c.p[i].assign(8, i == 2 ? 0 : 1);
  c.p[0][0] = mc::range(0, 3);
  c.in = {mkrt(dt, s, P_SMALL, 1, mc::choose(3))};
  run_value(c);
}
static void bad_modes() {
  std::string md = mc::pick(std::vector<std::string>{"", "m", "a", "ma", "av", "maxx", "avgg", "Max", "MAX", "Avg", "AVG", "min", "mean", "sum", "average", "maximum", " max", "max ", "avg ", "xam", "maxavg", "mav", "avx", "\n", "0"}); mc::start();
  int nd = mc::range(1, 3);
  Case c = pool("max", mc::choose(10), 1, 1, std::vector<Geo>(nd, Geo{3, 2, 1, 0, 1}), P_SMALL); c.mode = md;
  run_value(c);
}
static const std::vector<int> odd = {0, -1, -2, INT_MIN, INT_MIN + 1, -65536, 1 << 30, INT_MAX, (1 << 30) + 1, 65536};
static void bad_params() {
  int nd = mc::range(1, 3), which = mc::choose(4); mc::start();
  int at = mc::choose(nd), v = mc::pick(odd), m = mc::choose(2);
  Case c = pool(modes[m], mc::choose(2) ? TYPE_FLOAT : TYPE_UINT16, 1, 2, std::vector<Geo>(nd, Geo{4, 2, 1, 0, 1}), P_SMALL);
  c.p[which][at] = v;
  if (which == 2 && v > 10000) c.p[1][at] = v == 65536 ? 65536 : 1 << 30;
  run_value(c);
}
static void huge_params() {
  int nd = mc::range(1, 2), m = mc::choose(2); mc::start();
  static const std::vector<int> K = {1, 2, 3, 257, 65537}, P = {0, 3, 65536, 1 << 30, (1 << 30) + 7, INT_MAX}, S = {1 << 30, INT_MAX}, D = {1, 7, 32768, 65536, 1 << 30, INT_MAX};
  Case c = pool(modes[m], mc::choose(2) ? TYPE_FLOAT : TYPE_INT16, 1, 2, std::vector<Geo>(nd, Geo{3, 2, 1, 0, 1}), P_POS);
  int at = mc::choose(nd);
  c.p[0][at] = mc::pick(K); c.p[1][at] = mc::pick(S); c.p[2][at] = mc::pick(P); c.p[3][at] = mc::pick(D);
  run_value(c);
}
static void huge_rows() {       // rows, offsets and windows beyond 32 bits, small results
  static const std::vector<Dims> sh = {{1, 1, (1ll << 31) + 9}, {1, 1, (1ll << 32) + 9}, {2, 2, (1ll << 31) + 1}, {1, 3, (1ll << 30) + 3}, {3, 1, (1ll << 32) - 1}};
  Dims s = mc::pick(sh); int m = mc::choose(2), dt = mc::pick(std::vector<int>{TYPE_UINT8, TYPE_INT16, TYPE_DOUBLE}); mc::start();
  int64_t L = s[2], k = mc::range(1, 3), p = mc::pick(std::vector<int64_t>{0, 1, 3}), d = mc::pick(std::vector<int64_t>{1, 2, 1 << 30, INT_MAX}), st = mc::pick(std::vector<int64_t>{1 << 30, INT_MAX, (1 << 30) - 7, 1 << 29});
  if ((k - 1) * d + 1 > L + 2 * p) mc::skip();
  Case c = mk(POOL, {huge::block(dt, P_INJ, 1)}); c.mode = modes[m];
  c.p[0] = {(int)k}; c.p[1] = {(int)st}; c.p[2] = {(int)p}; c.p[3] = {(int)d};
  int64_t o = (L + 2 * p - (k - 1) * d - 1) / st + 1;
  RT& x = c.in[0]; for (int64_t i = 0; i < huge::Q; i++) x.set_i64(i, dt == TYPE_UINT8 ? (i * 37 + 11) % 251 : (i * 7919 + 5) % 16381 - 8000);
  std::vector<int64_t> want;
  for (int64_t bc = 0; bc < s[0] * s[1]; bc++) for (int64_t i = 0; i < o; i++) {
    double sum = 0, mx = -1e300;
    for (int64_t j = 0; j < k; j++) { int64_t at = i * st - p + j * d; double v = at < 0 || at >= L ? 0 : x.num((int64_t)(((__int128)bc * L + at) % huge::Q)); sum += v; if (v > mx) mx = v; }
    want.push_back((int64_t)(m ? sum / k : mx));
  }
  huge::reduce(c, {s}, {s[0], s[1], o}, want);
}
static void huge_window() {     // more window elements than 31 bits can count
  int m = mc::choose(2); mc::start();
  Dims s = {1, 1, 2, (1ll << 30) + 5};
  Case c = mk(POOL, {huge::block(TYPE_UINT8, P_INJ, 1)}); c.mode = modes[m];
  c.p[0] = {2, (1 << 30) + 5}; c.p[1] = {1, 1}; c.p[2] = {0, 0}; c.p[3] = {1, 1};
  RT& x = c.in[0]; double sum = 0, part = 0, mx = 0; int64_t n = prod(s);
  for (int64_t i = 0; i < huge::Q; i++) { x.set_i64(i, (i * 37 + 11) % 251); sum += x.num(i); if (i < n % huge::Q) part += x.num(i); mx = std::max(mx, x.num(i)); }
  huge::reduce(c, {s}, {1, 1, 1, 1}, {(int64_t)(m ? (sum * (double)(n / huge::Q) + part) / (double)n : mx)});
}
static void huge_output() {     // more output elements than 31 bits can count
  int m = mc::choose(2); mc::start();
  Dims s = m ? Dims{1, 2, (1ll << 30) + 5} : Dims{1, 1, (1ll << 31) + 5};
  Case c = mk(POOL, {huge::block(TYPE_UINT8, P_INJ, 1)}), a = c; a.mode = modes[m];
  a.p[0] = {1}; a.p[1] = {1}; a.p[2] = {0}; a.p[3] = {1};
  huge::elementwise(c, s, s, &a);
}
static void no_elements() {     // no batches, channels or input elements (the last only with padding)
  int n = mc::range(0, 2), ch = mc::range(0, 2), nd = mc::range(1, 3); mc::start();
  static const std::vector<Geo> gs = {{3, 2, 1, 0, 1}, {3, 1, 2, 1, 1}, {0, 1, 1, 0, 1}, {0, 1, 1, 1, 1}, {0, 2, 1, 1, 1}, {0, 3, 2, 2, 1}, {0, 2, 1, 2, 3}};
  std::vector<Geo> g; for (int i = 0; i < nd; i++) g.push_back(mc::pick(gs));
  run_value(pool(modes[mc::choose(2)], mc::pick(std::vector<int>{TYPE_INT8, TYPE_UINT32, TYPE_FLOAT, TYPE_DOUBLE}), n, ch, g, P_NEG));
}
static void mid_sizes() {
  static const std::vector<int> K = {1, 2, 5, 15, 16, 17, 31, 33, 64, 65, 128, 129, 255, 257}, K3 = {1, 7, 16, 17, 33}, L = {1, 15, 16, 33, 65, 129, 130, 257};
  int f = mc::choose(3), m = mc::choose(2);
  if (f == 0) {
    int a = mc::pick(K), b = mc::pick(K); mc::start();
    run_value(pool(modes[m], (a + b) % 10, 1, 1, {{a, a, 1, a > 2 && b % 2, 1}, {b + 1, b, 1, 0, 1}}, pats[(a + b) % 3]));
  } else if (f == 1) {
    int a = mc::pick(K3), b = mc::pick(K3); mc::start(); int e = mc::pick(K3);
    run_value(pool(modes[m], (a + b + e) % 10, 1, 1, {{a, a, 1, 0, 1}, {b, b, 1, 0, 1}, {e + 1, e, 1, 0, 1}}, pats[(a + b + e) % 3]));
  } else {
    int a = mc::pick(L), b = mc::pick(L); mc::start();
    int g = mc::choose(2);
    if (g) run_value(pool(modes[m], (a + b) % 10, 1, 1, {{a, 1, 1, 0, 1}, {b, 2, 1, 1, 1}}, P_SMALL));
    else run_value(pool(modes[m], (a * 3 + b) % 10, 1, 1, {{a, 2, 1, 1, 1}, {b, 1, 1, 0, 1}, {3, 2, 1, 0, 1}}, P_SMALL));
  }
}
static void shared() {          // one array as several parameters
  int m = mc::choose(2), dims = mc::range(1, 3); mc::start();
  static const int sets[][4] = {{1, 1, 0, 0}, {1, 0, 0, 1}, {1, 1, 0, 1}, {0, 1, 1, 0}, {0, 1, 0, 1}, {0, 0, 1, 1}, {1, 0, 1, 0}, {1, 1, 1, 1}};
  const int* w = sets[mc::choose(8)]; std::vector<Geo> gs;
  for (int i = 0; i < dims; i++) { int v = mc::range(1, 3), o[4] = {2, 1, 0, 1}; for (int k = 0; k < 4; k++) if (w[k]) o[k] = v; gs.push_back({6 - i, o[0], o[1], o[2], o[3]}); }
  Case c = pool(modes[m], mc::choose(10), 2, 2, gs, P_SMALL); c.shared = true; run_value(c);
}
static void plain_contents() { plain({POOL}); }
int main(int argc, char** argv) {
  mc::Check c{"C13", "model_checking", {
    {"plain_contents", plain_contents, "constant, ascending, descending and nearly constant contents of every operand, every well-formed call of the small space"},
    {"one_dimension", d1, "2 modes x input 1..8 (thorough 16), kernel 1..5, stride 1..4, padding 0..3, dilation 1..3 x 3 contents (mixed, all negative, all positive) x 10 types"},
    {"two_dimensions", d2, "2 modes x all pairs of per-dimension geometries in 1..4, kernel 1..3, stride 1..2, padding 0..1, dilation 1..2 (thorough 5, 3, 3, 0..2, 2), fitting or not"},
    {"three_dimensions", d3, "2 modes x all triples of 12 per-dimension geometries (thorough: all of in 1..3, kernel, stride, dilation 1..2, padding 0..1)"},
    {"long", long_rows, "row, window, batch and channel lengths 1..300 and around powers of two"},
    {"very_long", very_long, "lengths around 2^24 and 2^25 (beyond single precision) with long strides"},
    {"unit_contents", unit, "one element above or below the rest at every position, 5 geometries x 2 modes x 10 types"},
    {"extreme_values", extremes, "combinations of the extreme values of each type in a window"},
    {"ranks", ranks, "ranks 0..8 x 10 types x modes x devices"},
    {"bad_modes", bad_modes, "25 wrong mode strings x ranks x types"},
    {"bad_parameter", bad_params, "10 wrong or extreme values of each parameter at each dimension"},
    {"extreme_parameters", huge_params, "combinations of extreme kernel, stride, padding and dilation with small results"},
    {"shared", shared, "1..3 spatial dimensions x 8 ways to pass one array as several of window size, stride, padding and dilation"},
    {"no_elements", no_elements, "0..2 batches and channels x 7 geometries per dimension, also without input elements (then all padding) x 2 modes x 4 types"},
    {"huge", huge_rows, "rows and tensors beyond 2^31 and 2^32 elements with long strides and dilations: 5 shapes x 2 modes x 3 types", 300},
    {"mid_sizes", mid_sizes, "2 modes x large windows (14 x 14 of up to 257 x 257, 5 x 5 x 5 of up to 33 cubed) with few positions, and small windows with many positions (8 x 8 images of up to 257 x 257)"},
  }, {"integer averages whose window sum exceeds 2^53 are excluded (the library averages in double precision)", "floating averages are compared up to rounding", "NaN contents are excluded"}};
  if (mc::tier_thorough()) { c.suites.push_back({"huge_window", huge_window, "a window of more than 2^31 elements", 1800}); c.suites.push_back({"huge_output", huge_output, "more than 2^31 output elements", 1800}); }
  return mc::run(argc, argv, c);
}
