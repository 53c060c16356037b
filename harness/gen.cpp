// Enumeration of calls.  gen(op, SMALL, c) ranges over valid and ill-formed requests alike; the reference model
// decides which are which.
#include "cases.h"
#include <map>

const std::vector<int>& all_dt() { static const std::vector<int> v = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}; return v; }

const std::vector<Dims>& shapes_upto(int ndim, int dmax) {
  static std::map<std::pair<int, int>, std::vector<Dims>> memo;
  auto& v = memo[{ndim, dmax}];
  if (v.empty()) {
    v.push_back({});
    size_t from = 0;
    for (int n = 1; n <= ndim; n++) {
      size_t to = v.size();
      for (size_t i = from; i < to; i++) for (int d = 1; d <= dmax; d++) { Dims x = v[i]; x.push_back(d); v.push_back(x); }
      from = to;
    }
  }
  return v;
}

const std::vector<Dims>& empties(int ndim) {
  static std::map<int, std::vector<Dims>> memo;
  auto& v = memo[ndim];
  if (v.empty()) for (auto s : shapes_upto(ndim, 3)) { for (auto& x : s) x = x == 3 ? 0 : x; if (prod(s) == 0) v.push_back(s); }
  return v;
}

const std::vector<Dims>& tall() {
  static std::vector<Dims> v;
  if (v.empty()) {
    for (int nd : {9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 25, 31, 32, 33, 34, 48, 49, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300}) {
      int at[] = {0, 1, nd / 2, nd - 2, nd - 1};
      Dims one(nd, 1); v.push_back(one);
      for (int k : at) { Dims s = one; s[k] = 3; v.push_back(s); }
      for (auto p : {std::pair<int, int>{0, 4}, {0, 2}, {2, 4}, {1, 3}}) { Dims s = one; s[at[p.first]] = 2; s[at[p.second]] = 3; v.push_back(s); }
      Dims s = one; s[0] = 2; s[nd / 2] = 3; s[nd - 1] = 2; v.push_back(s);
      s = one; for (int i = 0; i < 8; i++) s[i] = 2; v.push_back(s);          // leading dimensions
      s = one; for (int i = nd - 8; i < nd; i++) s[i] = 2; v.push_back(s);    // trailing dimensions
      s = one; for (int i = 0; i < 7; i++) s[i * (nd - 1) / 6] = 2; v.push_back(s);   // spread
    }
    for (int nd : {9, 10}) v.push_back(Dims(nd, 2));
    for (int nd : {1000, 33000, 66000}) {                                       // past what 8 or 16 bits can count
      Dims s(nd, 1); s[0] = 2; s[nd - 1] = 3; v.push_back(s);
      s[nd / 2] = 2; s[nd - 2] = 2; v.push_back(s);
    }
  }
  return v;
}

const std::vector<Dims>& blocks() {
  static std::vector<Dims> v;
  if (v.empty()) {
    const int64_t l[] = {1, 2, 3, 17, 33, 64, 65, 127, 128, 130, 257, 300};
    for (auto a : l) for (auto b : l) {
      v.push_back({a, b});
      for (auto c : l) if (a * b * c <= 150000) v.push_back({a, b, c});
    }
  }
  return v;
}

const std::vector<int64_t>& lengths() {
  static std::vector<int64_t> v;
  if (v.empty()) {
    for (int i = 1; i <= 300; i++) v.push_back(i);
    for (int k = 9; k <= 16; k++) for (int d : {-1, 0, 1, 3}) v.push_back((1 << k) + d);
    v.push_back(1000); v.push_back(10000); v.push_back(5003);
  }
  return v;
}

static const std::vector<Dims>& small_shapes() {
  static std::vector<Dims> v;
  if (v.empty()) {
    v = shapes_upto(3, 2);
    for (auto& d : {Dims{3}, Dims{7}, Dims{3, 2}, Dims{2, 3}, Dims{3, 1, 2}, Dims{1, 2, 1, 2}, Dims{2, 1, 1, 2, 1}, Dims{2, 2, 1, 2, 1, 2}}) v.push_back(d);
  }
  return v;
}

static RT tens(int dt, const Dims& d, Pat p, int salt, int dev = 0) { RT t(dt, d, dev); fill(t, p, salt); return t; }

static void nonzero(RT& t) {   // no zero divisors, and nothing that overflows
  for (int64_t i = 0; i < t.size(); i++) if (t.i64(i) == 0) t.set_i64(i, 3);
}

static void gen_binary(Case& c) {
  Dims s = mc::pick(small_shapes());
  int dt = mc::pick(all_dt());
  mc::start_once();
  Dims s2 = s;
  switch (mc::choose(4)) {
    case 1: if (s2.empty()) s2.push_back(1); else s2.back()++; break;
    case 2: s2.push_back(1); break;
    case 3: if (s2.empty()) mc::skip(); else s2[0] += 2; break;
  }
  int dt2 = mc::choose(2) ? (dt + 3) % 10 : dt;
  int devs = mc::choose(4);
  c.in.push_back(tens(dt, s, P_SMALL, 1, devs & 1));
  c.in.push_back(tens(dt2, s2, P_SMALL, 2, devs & 2 ? 1 : 0));
  if (c.op == DIV) {
    nonzero(c.in[1]);
    if (mc::choose(2)) c.in[1].set_i64(c.in[1].size() - 1, 0);
  }
}

static void gen_pool(Case& c) {
  int nd = mc::pick(std::vector<int>{3, 4, 5, 2, 6, 1, 0});
  int dt = mc::pick(std::vector<int>{TYPE_FLOAT, TYPE_INT8, TYPE_UINT64});
  c.mode = mc::pick(std::vector<std::string>{"max", "avg", "", "MAX", "average"});
  mc::start_once();
  Dims s;
  int sp = nd - 2;
  for (int i = 0; i < nd && i < 2; i++) s.push_back(1 + (int64_t)mc::choose(2));
  for (int i = 0; i < 4; i++) c.p[i].assign(sp > 0 ? sp : 1, i == 2 ? 0 : 1);
  for (int i = 0; i < sp; i++) {
    if (i < 1 && nd == 3) {
      s.push_back(mc::range(1, 3));
      c.p[0][i] = mc::range(0, 2); c.p[1][i] = mc::range(0, 2); c.p[2][i] = mc::range(-1, 1); c.p[3][i] = mc::range(0, 2);
    } else {
      static const int geo[][5] = {{3, 2, 1, 0, 1}, {4, 2, 2, 1, 2}, {3, 1, 1, 0, 1}, {2, 3, 1, 1, 1}, {2, 3, 1, 0, 1}, {3, 0, 1, 0, 1}, {3, 2, 0, 0, 1}, {3, 2, 1, -1, 1}, {3, 2, 1, 0, 0}};
      int lim = nd == 4 ? 9 : nd == 5 ? (i == 1 ? 9 : 3) : 1;
      const int* g = geo[mc::choose(lim)];
      s.push_back(g[0]);
      for (int k = 0; k < 4; k++) c.p[k][i] = g[k + 1];
    }
  }
  c.in.push_back(tens(dt, s, P_SMALL, 4));
}

static void gen_conv(Case& c) {
  int nd = c.op == CONV2D ? mc::pick(std::vector<int>{4, 3, 5}) : c.op == CONV3D ? mc::pick(std::vector<int>{5, 4}) : mc::pick(std::vector<int>{3, 4, 5, 2, 1, 0});
  int dt = mc::pick(std::vector<int>{TYPE_FLOAT, TYPE_DOUBLE, TYPE_INT32});
  int fdt = mc::choose(2) ? (dt == TYPE_FLOAT ? TYPE_DOUBLE : TYPE_FLOAT) : dt;
  mc::start_once();
  int C = 1, M = 1, fc = 1;
  switch (mc::choose(7)) {
    case 0: break;
    case 1: C = 2; fc = 2; M = 2; break;
    case 2: C = 2; fc = 1; M = 2; c.groups = 2; break;
    case 3: C = 2; fc = 1; M = 2; break;              // does not fit
    case 4: C = 2; fc = 2; M = 2; c.groups = 2; break;
    case 5: C = 2; fc = 2; M = 1; c.groups = 0; break;
    case 6: C = 3; fc = 1; M = 2; c.groups = 2; break;
  }
  int sp = nd - 2;
  Dims s, f;
  if (nd > 0) { s.push_back(2); f.push_back(M); }
  if (nd > 1) { s.push_back(C); f.push_back(fc); }
  for (int i = 0; i < 3; i++) c.p[i].assign(sp > 0 ? sp : 1, i == 1 ? 0 : 1);
  for (int i = 0; i < sp; i++) {
    static const int geo[][5] = {{3, 2, 1, 0, 1}, {4, 2, 2, 1, 2}, {3, 1, 1, 0, 1}, {2, 3, 1, 1, 1}, {2, 3, 1, 0, 1}, {3, 2, 0, 0, 1}, {3, 2, 1, -1, 1}, {3, 2, 1, 0, 0}};
    int lim = nd == 3 || i == sp - 1 ? 8 : nd == 4 ? 5 : 2;
    const int* g = geo[mc::choose(lim)];
    s.push_back(g[0]); f.push_back(g[1]);
    for (int k = 0; k < 3; k++) c.p[k][i] = g[k + 2];
  }
  if (nd >= 3 && mc::choose(2)) f.push_back(1);       // filter of another rank
  c.in.push_back(tens(dt, s, P_SMALL, 5));
  c.in.push_back(tens(fdt, f, P_SMALL, 6));
}

static void gen_bn(Case& c) {
  int nd = mc::pick(std::vector<int>{2, 3, 4, 5, 1, 6});
  int dt = mc::pick(std::vector<int>{TYPE_FLOAT, TYPE_DOUBLE});
  mc::start_once();
  Dims s; for (int i = 0; i < nd; i++) s.push_back(nd < 4 ? 1 + mc::choose(3) : 2 + (i == 1) * 1);
  c.axis = mc::range(-1, nd);
  int ch = c.axis >= 0 && c.axis < nd ? (int)s[c.axis] : 2;
  c.d = 1;
  c.in.push_back(tens(dt, s, P_SMALL, 7));
  for (int i = 0; i < 4; i++) c.in.push_back(tens(dt, {ch}, i == 3 ? P_POS : P_SMALL, 8 + i));
  if (mc::choose(2)) c.in[4].set_num(ch - 1, -3);
  int k = mc::choose(14);
  if (k >= 1 && k <= 4) c.in[k] = tens(dt == TYPE_FLOAT ? TYPE_DOUBLE : TYPE_FLOAT, {ch}, P_POS, 20);
  if (k >= 5 && k <= 8) c.in[k - 4] = tens(dt, {ch + 1}, P_POS, 21);
  if (k >= 9 && k <= 12) c.in[k - 8] = tens(dt, {ch, 1}, P_POS, 22);
  if (k == 13) c.d = -0.5;
}

void gen(Op op, Level l, Case& c) {
  c.op = op;
  if (l == TINY) { auto& v = catalogue(op); c = v[mc::choose((int)v.size())]; mc::start_once(); return; }
  switch (op) {
    case ADD: case SUB: case MUL: case DIV: gen_binary(c); break;
    case CAST: {
      Dims s = mc::pick(small_shapes()); int dt = mc::pick(all_dt()); mc::start_once();
      c.tdt = mc::choose(12);
      c.in.push_back(tens(dt, s, P_POS, 1, mc::choose(3)));
      break;
    }
    case RESHAPE: {
      static const std::vector<Dims> src = [] { auto v = shapes_upto(3, 3); v.push_back({2, 3, 2, 1}); v.push_back({0, 3}); return v; }();
      Dims s = mc::pick(src); mc::start_once();
      static const std::vector<Dims> dst = [] { std::vector<Dims> v; for (auto& d : shapes_upto(4, 6)) if (prod(d) <= 27) v.push_back(d); v.push_back({0, 3}); v.push_back({3, 0, 2}); return v; }();
      std::vector<int> ok, bad;
      for (size_t i = 0; i < dst.size(); i++) if (prod(dst[i]) == prod(s)) ok.push_back((int)i); else if ((i * 7 + s.size()) % 97 == 0 || (prod(dst[i]) == prod(s) + 1 && bad.size() < 3)) bad.push_back((int)i);
      ok.insert(ok.end(), bad.begin(), bad.end());
      c.a64 = dst[mc::pick(ok)];
      int dt = mc::pick(std::vector<int>{TYPE_INT8, TYPE_DOUBLE, TYPE_UINT16});
      c.in.push_back(tens(dt, s, P_INJ, 1, mc::choose(2)));
      break;
    }
    case SQUEEZE: {
      Dims s = mc::pick(shapes_upto(4, 2)); mc::start_once();
      int nd = (int)s.size();
      int k = mc::range(0, 3);
      if (k == 3) { c.n64 = mc::choose(2) ? -1 : -3; c.a64 = {0}; }
      else { c.n64 = k; for (int i = 0; i < k; i++) c.a64.push_back(mc::range(-1, nd)); }
      c.in.push_back(tens(mc::choose(2) ? TYPE_INT64 : TYPE_UINT8, s, P_INJ, 1, nd < 3 ? mc::choose(2) : 0));
      break;
    }
    case DUP: {
      Dims s = mc::pick(small_shapes()); mc::start_once();
      c.in.push_back(tens(mc::pick(all_dt()), s, P_INJ, 1, mc::choose(3)));
      break;
    }
    case SLICE: {
      static const std::vector<Dims> sh = [] { auto v = shapes_upto(2, 3); for (auto& d : {Dims{2, 3, 2}, Dims{1, 1, 1}, Dims{2, 2, 2}, Dims{4}}) v.push_back(d); return v; }();
      Dims s = mc::pick(sh);
      int dt = mc::pick(std::vector<int>{TYPE_INT8, TYPE_DOUBLE}); mc::start_once();
      int nd = (int)s.size();
      for (int i = 0; i < 3; i++) c.p[i].clear();
      for (int i = 0; i < nd; i++) {
        int d = (int)s[i];
        if (nd == 1) { c.p[0].push_back(mc::range(-1, d)); c.p[1].push_back(mc::range(-1, d + 1)); c.p[2].push_back(mc::range(0, 3)); }
        else {
          const int g[][3] = {{0, d, 1}, {0, 0, 1}, {d - 1, 1, 1}, {0, d, 2}, {d, 0, 1}, {-1, 1, 1}, {0, d + 1, 1}, {0, 1, 0}, {0, -1, 1}, {0x7fffffff, 0x7fffffff, 0x7fffffff}};
          const int* q = g[mc::choose(nd == 2 ? 10 : 9)];
          for (int k = 0; k < 3; k++) c.p[k].push_back(q[k]);
        }
      }
      c.in.push_back(tens(dt, s, P_INJ, 1, nd < 2 ? mc::choose(2) : 0));
      break;
    }
    case FULL: {
      c.a64 = mc::pick(small_shapes()); mc::start_once();
      c.tdt = mc::pick(all_dt()); c.dev = mc::choose(3); c.d = mc::pick(std::vector<double>{0, 1, 100.75});
      break;
    }
    case CREATE: {
      c.a64 = mc::pick(small_shapes()); mc::start_once();
      c.tdt = mc::pick(all_dt()); c.dev = mc::choose(3);
      int64_t n = prod(c.a64), es = dsize(c.tdt);
      switch (mc::choose(6)) {
        case 0: c.n64 = -1; break;
        case 1: c.n64 = n * es; break;
        case 2: c.n64 = n * es - 1; break;
        case 3: c.n64 = n * es + es; break;
        case 4: c.n64 = 0; break;
        case 5: c.n64 = n * es - es; break;
      }
      break;
    }
    case MATMUL: case DOT: {
      static const std::vector<Dims> sh = [] { auto v = shapes_upto(3, 2); for (auto& d : {Dims{3}, Dims{2, 3}, Dims{3, 2}, Dims{1, 2, 2, 2}, Dims{2, 1, 2, 2}, Dims{3, 2, 2}}) v.push_back(d); return v; }();
      Dims a = mc::pick(sh), b = mc::pick(sh); mc::start_once();
      int dt = mc::pick(std::vector<int>{TYPE_FLOAT, TYPE_INT8, TYPE_UINT64});
      int k = mc::choose(4);
      c.in.push_back(tens(dt, a, P_SMALL, 1, k == 1));
      c.in.push_back(tens(k == 3 ? (dt + 5) % 10 : dt, b, P_SMALL, 2, k == 2 ? 2 : 0));
      break;
    }
    case SQRT: case RELU: case SIGMOID: case TANH: {
      Dims s = mc::pick(small_shapes()); mc::start_once();
      int dt = mc::pick(all_dt());
      RT t = tens(dt, s, op == SQRT ? P_POS : P_SMALL, 1, mc::choose(3));
      if (op == SQRT && (is_signed(dt) || is_float(dt))) { int k = mc::choose(3); if (k) t.set_i64(k == 1 ? 0 : t.size() - 1, -4); }
      c.in.push_back(t);
      break;
    }
    case SOFTMAX: {
      Dims s = mc::pick(small_shapes()); mc::start_once();
      c.axis = mc::range(-3, (int)s.size() + 1);
      c.in.push_back(tens(mc::pick(std::vector<int>{TYPE_FLOAT, TYPE_DOUBLE, TYPE_INT32, TYPE_UINT8}), s, P_SMALL, 1, mc::choose(2)));
      break;
    }
    case POOL: gen_pool(c); break;
    case CONV: case CONV2D: case CONV3D: gen_conv(c); break;
    case BN: gen_bn(c); break;
    case DROPOUT: {
      Dims s = mc::pick(small_shapes()); mc::start_once();
      c.d = mc::pick(std::vector<double>{0.4, 0, 1, -0.01, 1.01, 1e300, -1e300});
      c.in.push_back(tens(mc::pick(all_dt()), s, P_POS, 1, mc::choose(2)));
      break;
    }
    default: break;
  }
}

// ------------------------------------------------------------------------------------------------------------
static std::vector<Case> build(Op op) {
  std::vector<Case> v;
  auto add = [&](std::vector<RT> in) -> Case& { Case c; c.op = op; c.in = in; v.push_back(c); return v.back(); };
  const std::vector<Dims> sh = {{}, {1}, {3}, {2, 3}, {3, 2}, {1, 2, 1}, {2, 2, 3}, {2, 1, 2, 2}, {1, 2, 1, 2, 2}, {17}};
  switch (op) {
    case ADD: case SUB: case MUL: case DIV:
      for (size_t i = 0; i < sh.size(); i++) for (int k = 0; k < 2; k++) {
        int dt = (int)(i * 3 + k * 5) % 10;
        RT b = tens(dt, sh[i], P_POS, 2); add({tens(dt, sh[i], P_SMALL, 1), b});
      }
      break;
    case CAST:
      for (size_t i = 0; i < sh.size(); i++) for (int k = 0; k < 2; k++) add({tens((int)(i + k * 4) % 10, sh[i], P_POS, 1)}).tdt = (int)(i * 3 + k + 2) % 10;
      break;
    case RESHAPE: {
      const std::vector<Dims> to = {{1}, {}, {3, 1}, {6}, {2, 3}, {2}, {3, 4}, {8}, {2, 2, 2}, {1, 17, 1}};
      for (size_t i = 0; i < sh.size(); i++) for (int k = 0; k < 2; k++) add({tens((int)(i + k * 5) % 10, sh[i], P_INJ, 1)}).a64 = to[i];
      break;
    }
    case SQUEEZE:
      for (size_t i = 0; i < sh.size(); i++) for (int k = 0; k < 2; k++) {
        Case& c = add({tens((int)(i + k * 5) % 10, sh[i], P_INJ, 1)});
        if (k && sh[i].size()) { for (size_t j = 0; j < sh[i].size(); j += 2) c.a64.push_back(j); c.n64 = c.a64.size(); }
      }
      break;
    case DUP: for (size_t i = 0; i < sh.size(); i++) for (int k = 0; k < 2; k++) add({tens((int)(i + k * 5) % 10, sh[i], P_INJ, 1)}); break;
    case SLICE:
      for (size_t i = 0; i < sh.size(); i++) for (int k = 0; k < 3; k++) {
        Case& c = add({tens((int)(i + k * 5) % 10, sh[i], P_INJ, 1)});
        for (size_t j = 0; j < sh[i].size(); j++) {
          int d = (int)sh[i][j];
          c.p[0].push_back(k == 1 ? d - 1 : 0); c.p[1].push_back(k == 1 ? 1 : k == 2 && j == 0 ? 0 : d); c.p[2].push_back(k == 0 ? 1 : 2);
        }
      }
      break;
    case FULL: case CREATE:
      for (size_t i = 0; i < sh.size(); i++) for (int k = 0; k < 2; k++) {
        Case& c = add({}); c.tdt = (int)(i + k * 5) % 10; c.a64 = sh[i]; c.d = 7 + (int)i * 3 + k; c.n64 = k ? prod(sh[i]) * dsize(c.tdt) : -1; c.dev = k;
      }
      break;
    case MATMUL: {
      const Dims p[][2] = {{{3}, {3}}, {{2, 3}, {3}}, {{2}, {2, 3}}, {{2, 3}, {3, 2}}, {{1, 1}, {1, 1}}, {{2, 2, 3}, {3}}, {{2}, {2, 2, 3}}, {{2, 2, 2}, {2, 2}}, {{2, 2}, {3, 2, 2}}, {{2, 1, 2, 2}, {3, 2, 2}}, {{1, 2, 2}, {2, 2, 1}}, {{5, 7}, {7, 4}}};
      for (auto& q : p) for (int k = 0; k < 2; k++) { int dt = k ? TYPE_FLOAT : (int)(v.size() % 10); add({tens(dt, q[0], P_SMALL, 1), tens(dt, q[1], P_SMALL, 2)}); }
      break;
    }
    case DOT: {
      const Dims p[][2] = {{{3}, {3}}, {{2, 3}, {3, 2}}, {{}, {2, 3}}, {{3}, {}}, {{}, {}}, {{2, 3}, {3}}, {{2, 2, 3}, {3}}, {{2, 2, 3}, {2, 3, 2}}, {{2, 1, 2, 2}, {1, 2, 2}}, {{2, 2, 2}, {1, 2, 2, 2}}, {{5, 7}, {7, 4}}};
      for (auto& q : p) for (int k = 0; k < 2; k++) { int dt = k ? TYPE_DOUBLE : (int)((v.size() + 3) % 10); add({tens(dt, q[0], P_SMALL, 1), tens(dt, q[1], P_SMALL, 2)}); }
      break;
    }
    case SQRT: case RELU: for (size_t i = 0; i < sh.size(); i++) for (int k = 0; k < 2; k++) add({tens((int)(i + k * 5) % 10, sh[i], op == SQRT ? P_POS : P_SMALL, 1)}); break;
    case SIGMOID: case TANH: for (size_t i = 0; i < sh.size(); i++) for (int k = 0; k < 2; k++) add({tens(k ? TYPE_FLOAT : TYPE_DOUBLE, sh[i], P_SMALL, 1)}); break;
    case SOFTMAX:
      for (size_t i = 0; i < sh.size(); i++) for (int k = -1; k < (int)sh[i].size(); k++) add({tens(i % 2 ? TYPE_FLOAT : TYPE_DOUBLE, sh[i], P_SMALL, 1)}).axis = k;
      break;
    case POOL: {
      const Dims p[] = {{1, 1, 4}, {2, 2, 3}, {1, 2, 3, 4}, {2, 1, 3, 3}, {1, 1, 2, 3, 2}, {1, 2, 3, 3, 3}};
      for (auto& s : p) for (int k = 0; k < 4; k++) {
        Case& c = add({tens((int)(v.size() * 3 % 10), s, P_SMALL, 1)});
        c.mode = k & 1 ? "avg" : "max";
        size_t sp = s.size() - 2;
        for (size_t j = 0; j < sp; j++) { c.p[0].push_back(2); c.p[1].push_back(k < 2 ? 1 : 2); c.p[2].push_back(k == 3 ? 1 : 0); c.p[3].push_back(k == 1 || s[j + 2] < 3 ? 1 : 2); }
      }
      break;
    }
    case CONV: case CONV2D: case CONV3D: {
      const Dims p[] = {{1, 1, 4}, {2, 2, 3}, {1, 2, 3, 4}, {2, 4, 3, 3}, {1, 1, 2, 3, 2}, {1, 2, 3, 3, 3}};
      for (auto& s : p) for (int k = 0; k < 4; k++) {
        if (op == CONV2D && s.size() != 4) continue;
        if (op == CONV3D && s.size() != 5) continue;
        int g = k == 3 && s[1] % 2 == 0 ? 2 : 1;
        Dims f = {2, s[1] / g};
        int dt = TYPE_FLOAT;
        Case c; c.op = op; c.groups = g;
        for (size_t j = 2; j < s.size(); j++) { f.push_back(2); c.p[0].push_back(k < 2 ? 1 : 2); c.p[1].push_back(k == 2 ? 1 : 0); c.p[2].push_back(k == 1 || s[j] < 3 ? 1 : 2); }
        c.in = {tens(dt, s, P_SMALL, 1), tens(dt, f, P_SMALL, 2)};
        v.push_back(c);
      }
      break;
    }
    case BN: {
      const Dims p[] = {{2, 3}, {1, 1}, {2, 3, 2}, {2, 2, 3, 2}, {1, 2, 2, 2, 3}};
      for (auto& s : p) for (int k = 0; k < 2; k++) {
        int ax = k ? (int)s.size() - 1 : 1, dt = k ? TYPE_FLOAT : TYPE_DOUBLE;
        Case& c = add({tens(dt, s, P_SMALL, 1)}); c.axis = ax; c.d = 0.5;
        for (int j = 0; j < 4; j++) c.in.push_back(tens(dt, {s[ax]}, j == 3 ? P_POS : P_SMALL, 3 + j));
      }
      break;
    }
    case DROPOUT: for (size_t i = 0; i < sh.size(); i++) for (int k = 0; k < 2; k++) add({tens((int)(i + k * 5) % 10, sh[i], P_POS, 1)}).d = k ? 0.5 : 0; break;
    default: break;
  }
  return v;
}
const std::vector<Case>& catalogue(Op op) {
  static std::vector<Case> v[NOPS];
  if (v[op].empty()) v[op] = build(op);
  return v[op];
}
