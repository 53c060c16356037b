#include "cases.h"
#include <cerrno>
#include <cfenv>
#include <cmath>
#include <limits>

const char* const op_name[NOPS] = {"add", "sub", "mul", "div", "cast", "reshape", "squeeze", "duplicate", "slice", "full", "create", "matmul",
  "dot", "sqrt", "relu", "sigmoid", "tanh", "softmax", "pooling", "conv", "conv2d", "conv3d", "batch_norm", "dropout"};
const char* const dt_name[12] = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double", "type10", "type99"};
const char* const st_name[9] = {"SUCCESS", "TYPE_MISMATCH", "DIMENSIONS_MISMATCH", "INVALID_ARGUMENT", "NOT_SUPPORTED", "ALLOC_FAILED", "OUT_OF_RANGE", "INTERNAL_ERROR", "MATH_ERROR"};

DataType mkdt(int dt) {
  DataType d; d.code = (TypeCode)(dt == 11 ? 99 : dt); d.size = (uint8_t)dsize(dt); return d;
}
int64_t prod(const Dims& d) { int64_t r = 1; for (auto x : d) r *= x; return r; }

#define DISP(dt, ...)                                                                                               \
  switch (dt) {                                                                                                     \
    case 0: { typedef int8_t T; __VA_ARGS__ } break; case 1: { typedef uint8_t T; __VA_ARGS__ } break;                            \
    case 2: { typedef int16_t T; __VA_ARGS__ } break; case 3: { typedef uint16_t T; __VA_ARGS__ } break;                          \
    case 4: { typedef int32_t T; __VA_ARGS__ } break; case 5: { typedef uint32_t T; __VA_ARGS__ } break;                          \
    case 6: { typedef int64_t T; __VA_ARGS__ } break; case 7: { typedef uint64_t T; __VA_ARGS__ } break;                          \
    case 8: case 10: { typedef float T; __VA_ARGS__ } break; default: { typedef double T; __VA_ARGS__ } break;                             \
  }

double RT::num(int64_t i) const { DISP(dt, return (double)at<T>(i);) return 0; }
int64_t RT::i64(int64_t i) const { DISP(dt, return (int64_t)at<T>(i);) return 0; }
void RT::set_num(int64_t i, double v) { DISP(dt, put<T>(i, (T)v);) }
void RT::set_i64(int64_t i, int64_t v) { DISP(dt, put<T>(i, (T)v);) }

void fill(RT& t, Pat p, int salt) {
  int64_t n = t.size();
  t.data.resize(n * dsize(t.dt));
  bool f = is_float(t.dt), s = is_signed(t.dt) || f;
  for (int64_t i = 0; i < n; i++) {
    uint64_t h = mc::mix(mc::mix(0x1234 + salt * 77, i), salt);
    switch (p) {
      case P_INJ:
        if (f) t.set_num(i, ((double)((i * 7919 + salt * 131) % 200003)) * 0.25 - 20000 + (double)(i % 61) / 1024 + (t.dt == TYPE_DOUBLE ? (double)(1 + i % 1021) / (1ll << 36) : 0));
        else if (dsize(t.dt) == 1) t.set_i64(i, (int64_t)(i * 37 + salt * 11 + 5));
        else t.set_i64(i, (int64_t)(i * 2654435761ull * 40503 + (uint64_t)salt * 97 + 3));
        break;
      case P_SMALL: if (s) t.set_i64(i, (int64_t)(h % 19) - 9); else t.set_i64(i, (int64_t)(h % 10)); break;
      case P_BIG:
        if (f) t.set_num(i, (double)((int64_t)(h % 4001) - 2000) * 1024.0);
        else if (t.dt == 6) t.set_i64(i, ((int64_t)(h >> 9) - (1ll << 54)) | 1);
        else if (t.dt == 7) t.set_i64(i, (int64_t)(h | 1));
        else if (t.dt == 4) t.set_i64(i, (int64_t)(h % 200000000) - 100000000);
        else t.set_i64(i, (int64_t)h);
        break;
      case P_BITS: {   // every kind of bit pattern; no signalling NaN
        uint64_t u = i % 5 == 4 ? (uint64_t)mc::mix(h, 7) : (uint64_t)(i * 40503 + salt) << (dsize(t.dt) * 8 - 16 < 0 ? 0 : dsize(t.dt) * 8 - 16) | (mc::mix(h, 3) & 0xffff);
        if (t.dt == TYPE_FLOAT && (u & 0x7f800000) == 0x7f800000) u |= 0x400000;
        if (t.dt == TYPE_DOUBLE && (u >> 52 & 0x7ff) == 0x7ff) u |= 1ull << 51;
        memcpy(&t.data[i * dsize(t.dt)], &u, dsize(t.dt)); break;
      }
      case P_POS: t.set_i64(i, 1 + (int64_t)(h % 100)); break;
      case P_FRAC: if (f) t.set_num(i, ((int64_t)(h % 23) - 11) * 0.125); else if (s) t.set_i64(i, (int64_t)(h % 19) - 9); else t.set_i64(i, (int64_t)(h % 10)); break;
      case P_NEG: if (s) t.set_i64(i, -1 - (int64_t)(h % 100)); else t.set_i64(i, 3 + (int64_t)(h % 100)); break;
    }
  }
}

std::string show(const Dims& d) { std::string s = "{"; for (size_t i = 0; i < d.size(); i++) s += mc::fmt(i ? ",%lld" : "%lld", (long long)d[i]); return s + "}"; }
static std::string showi(const std::vector<int>& d) { std::string s = "{"; for (size_t i = 0; i < d.size(); i++) s += mc::fmt(i ? ",%d" : "%d", d[i]); return s + "}"; }
std::string show(const RT& t, int maxel) {
  std::string s = mc::fmt("%s%s", dt_name[t.dt], show(t.dims).c_str());
  if (t.dev) s += mc::fmt("@dev%d", t.dev);
  s += "[";
  int64_t n = t.size();
  if ((int64_t)t.data.size() < n * dsize(t.dt)) n = 0;
  for (int64_t i = 0; i < n && i < maxel; i++) {
    if (t.dt == 7) s += mc::fmt(i ? " %llu" : "%llu", (unsigned long long)t.at<uint64_t>(i));
    else if (is_float(t.dt)) s += mc::fmt(i ? " %.9g" : "%.9g", t.num(i));
    else s += mc::fmt(i ? " %lld" : "%lld", (long long)t.i64(i));
  }
  if (n > maxel) s += " ...";
  return s + "]";
}
std::string show(const Case& c) {
  std::string s = std::string(op_name[c.op]) + (c.shared ? " with equal arguments shared (" : "(");
  for (size_t i = 0; i < c.in.size(); i++) s += (i ? ", " : "") + show(c.in[i], c.in.size() > 2 ? 6 : 12);
  switch (c.op) {
    case CAST: s += mc::fmt(", to %s", dt_name[c.tdt]); break;
    case RESHAPE: s += ", dims " + show(c.a64); break;
    case SQUEEZE: s += mc::fmt(", axes %s num_axis %lld", show(c.a64).c_str(), (long long)c.n64); break;
    case SLICE: s += ", begin " + showi(c.p[0]) + " size " + showi(c.p[1]) + " step " + showi(c.p[2]); break;
    case FULL: s += mc::fmt("%s, dev %d, dims %s, value %.17g", dt_name[c.tdt], c.dev, show(c.a64).c_str(), c.d); break;
    case CREATE: s += mc::fmt("%s, dev %d, dims %s, buffer length %lld", dt_name[c.tdt], c.dev, show(c.a64).c_str(), (long long)c.n64); break;
    case SOFTMAX: s += mc::fmt(", axis %d", c.axis); break;
    case POOL: s += mc::fmt(", mode %s, ksize %s stride %s padding %s dilation %s", c.mode.c_str(), showi(c.p[0]).c_str(), showi(c.p[1]).c_str(), showi(c.p[2]).c_str(), showi(c.p[3]).c_str()); break;
    case CONV: case CONV2D: case CONV3D: s += mc::fmt(", stride %s padding %s dilation %s groups %d", showi(c.p[0]).c_str(), showi(c.p[1]).c_str(), showi(c.p[2]).c_str(), c.groups); break;
    case BN: s += mc::fmt(", axis %d, epsilon %.17g", c.axis, c.d); break;
    case DROPOUT: s += mc::fmt(", rate %.17g", c.d); break;
    default: break;
  }
  return s + ")";
}

// ------------------------------------------------------------------------------------------------------------
static void reject(Expect& e, int st) { e.ok = false; e.allowed |= B(st); }

static bool next_index(std::vector<int64_t>& ix, const Dims& d) {
  for (int i = (int)d.size() - 1; i >= 0; i--) { if (++ix[i] < d[i]) return true; ix[i] = 0; }
  return false;
}

template <class T> static T elementwise(Op op, T a, T b) {
  switch (op) { case ADD: return (T)(a + b); case SUB: return (T)(a - b); case MUL: return (T)(a * b); default: return (T)(a / b); }
}
template <class T> static bool overflows(Op op, T a, T b) {
  T r;
  switch (op) {
    case ADD: return __builtin_add_overflow(a, b, &r);
    case SUB: return __builtin_sub_overflow(a, b, &r);
    case MUL: return __builtin_mul_overflow(a, b, &r);
    default: return false;
  }
}

static void ref_binary(const Case& c, Expect& e) {
  const RT &a = c.in[0], &b = c.in[1];
  if (a.dev || b.dev) reject(e, STATUS_NOT_SUPPORTED);
  if (a.dt != b.dt) reject(e, STATUS_TYPE_MISMATCH);
  if (a.dims != b.dims) reject(e, STATUS_INVALID_ARGUMENT);
  if (c.op == DIV && !is_float(b.dt)) {
    int64_t n = b.size();
    bool same = a.dt == b.dt && a.dims == b.dims;
    for (int64_t i = 0; i < n; i++) {
      if (b.i64(i) == 0) { reject(e, STATUS_MATH_ERROR); break; }
      if (same && b.i64(i) == -1 && ((b.dt == 4 && a.i64(i) == INT32_MIN) || (b.dt == 6 && a.i64(i) == INT64_MIN))) { reject(e, STATUS_MATH_ERROR); break; }
    }
  }
  if (!e.ok) return;
  e.out = RT(a.dt, a.dims, 0);
  int64_t n = a.size();
  if (a.dt == 4) { for (int64_t i = 0; i < n; i++) if (overflows<int32_t>(c.op, a.at<int32_t>(i), b.at<int32_t>(i))) mc::skip(); }
  if (a.dt == 6) { for (int64_t i = 0; i < n; i++) if (overflows<int64_t>(c.op, a.at<int64_t>(i), b.at<int64_t>(i))) mc::skip(); }
  switch (a.dt) {
    case 3: for (int64_t i = 0; i < n; i++) { uint32_t x = a.at<uint16_t>(i), y = b.at<uint16_t>(i); e.out.put<uint16_t>(i, (uint16_t)elementwise<uint32_t>(c.op, x, y)); } break;
    default: DISP(a.dt, for (int64_t i = 0; i < n; i++) e.out.put<T>(i, elementwise<T>(c.op, a.at<T>(i), b.at<T>(i)));)
  }
}

template <class S, class D> static bool in_range(S v) {
  if (std::is_floating_point<S>::value && !std::is_floating_point<D>::value) {
    long double t = (long double)v;
    if (!(t == t)) return false;
    t = truncl(t);
    return t >= (long double)std::numeric_limits<D>::min() && t <= (long double)std::numeric_limits<D>::max();
  }
  if (std::is_same<S, double>::value && std::is_same<D, float>::value) return !(std::fabs((double)v) > 3.4028234e38 && !std::isinf((double)v));
  return true;
}
template <class S, class D> static void cast_all(const RT& a, RT& o) {
  int64_t n = a.size();
  for (int64_t i = 0; i < n; i++) { S v = a.at<S>(i); if (!in_range<S, D>(v)) mc::skip(); o.put<D>(i, (D)v); }
}
template <class S> static void cast_from(const RT& a, RT& o) { DISP(o.dt, { typedef T D; cast_all<S, D>(a, o); }) }

static void ref_cast(const Case& c, Expect& e) {
  if (c.tdt > 9) return reject(e, STATUS_NOT_SUPPORTED);
  e.out = RT(c.tdt, c.in[0].dims, c.in[0].dev);
  DISP(c.in[0].dt, cast_from<T>(c.in[0], e.out);)
}

static void ref_squeeze(const Case& c, Expect& e) {
  const RT& a = c.in[0];
  if (c.n64 < 0) return reject(e, STATUS_INVALID_ARGUMENT);
  std::vector<char> drop(a.dims.size(), 0);
  if (c.n64 == 0) for (size_t i = 0; i < a.dims.size(); i++) drop[i] = a.dims[i] == 1;
  for (int64_t i = 0; i < c.n64; i++) {
    if (c.a64[i] < 0 || c.a64[i] >= (int64_t)a.dims.size()) return reject(e, STATUS_INVALID_ARGUMENT);
    if (a.dims[c.a64[i]] == 1) drop[c.a64[i]] = 1;
  }
  e.out = a; e.out.dims.clear();
  for (size_t i = 0; i < a.dims.size(); i++) if (!drop[i]) e.out.dims.push_back(a.dims[i]);
}

static void ref_slice(const Case& c, Expect& e) {
  const RT& a = c.in[0];
  size_t n = a.dims.size();
  Dims od, cnt;
  for (size_t i = 0; i < n; i++) {
    int64_t b = c.p[0][i], s = c.p[1][i], st = c.p[2][i];
    if (b < 0 || b >= a.dims[i] || s < 0 || b + s > a.dims[i] || st < 1) reject(e, STATUS_INVALID_ARGUMENT);
    else if (s == 0) cnt.push_back(1);
    else { cnt.push_back((s + st - 1) / st); od.push_back(cnt.back()); }
  }
  if (!e.ok) return;
  e.out = RT(a.dt, od, a.dev);
  int es = dsize(a.dt);
  std::vector<int64_t> ix(n, 0); int64_t o = 0;
  do {
    int64_t lin = 0;
    for (size_t i = 0; i < n; i++) lin = lin * a.dims[i] + c.p[0][i] + ix[i] * (int64_t)c.p[2][i];
    memcpy(&e.out.data[o * es], &a.data[lin * es], es); o++;
  } while (next_index(ix, cnt));
}

static void ref_full(const Case& c, Expect& e) {
  e.out = RT(c.tdt, c.a64, c.dev);
  int64_t n = e.out.size();
  RT one(TYPE_DOUBLE, {1}); one.put<double>(0, c.d);
  RT conv(c.tdt, {1});
  cast_from<double>(one, conv);
  int es = dsize(c.tdt);
  for (int64_t i = 0; i < n; i++) memcpy(&e.out.data[i * es], conv.data.data(), es);
}

static void ref_create(const Case& c, Expect& e) {
  e.out = RT(c.tdt, c.a64, c.dev);
  if (c.n64 < 0) { e.cmp = Expect::NODATA; return; }
  if (c.n64 / dsize(c.tdt) != e.out.size()) { reject(e, STATUS_INVALID_ARGUMENT); return; }
  for (size_t i = 0; i < e.out.data.size(); i++) e.out.data[i] = (uint8_t)(i * 31 + 7);
}

// out[i..., j...] = sum_k a[i..., k] * b[(outer) k, (inner) ...] with explicit strides
static void accumulate(const RT& a, const RT& b, RT& o, int64_t oi, int64_t ai, int64_t as, int64_t bi, int64_t bs, int64_t K) {
  if (is_float(o.dt)) {
    long double s = 0;
    for (int64_t k = 0; k < K; k++) s += (long double)a.num(ai + k * as) * (long double)b.num(bi + k * bs);
    o.set_num(oi, (double)s);
  } else {
    uint64_t s = 0;
    for (int64_t k = 0; k < K; k++) s += (uint64_t)a.i64(ai + k * as) * (uint64_t)b.i64(bi + k * bs);
    o.set_i64(oi, (int64_t)s);
  }
}

static bool bcast(const Dims& a, const Dims& b, Dims& o) {
  size_t n = a.size() > b.size() ? a.size() : b.size();
  o.assign(n, 1);
  for (size_t i = 0; i < n; i++) {
    int64_t x = i < a.size() ? a[a.size() - 1 - i] : 1, y = i < b.size() ? b[b.size() - 1 - i] : 1;
    if (x != y && x != 1 && y != 1) return false;
    o[n - 1 - i] = x == 1 ? y : x;
  }
  return true;
}

static void ref_matmul(const Case& c, Expect& e) {
  const RT &a = c.in[0], &b = c.in[1];
  if (a.dev || b.dev || a.dt != b.dt) reject(e, STATUS_NOT_SUPPORTED);
  if (a.dims.empty() || b.dims.empty()) reject(e, STATUS_INVALID_ARGUMENT);
  if (a.dims.empty() || b.dims.empty()) return;
  Dims da = a.dims, db = b.dims;
  bool va = da.size() == 1, vb = db.size() == 1;
  if (va) da.insert(da.begin(), 1);
  if (vb) db.push_back(1);
  int64_t M = da[da.size() - 2], K = da.back(), K2 = db[db.size() - 2], N = db.back();
  Dims ba(da.begin(), da.end() - 2), bb(db.begin(), db.end() - 2), bo;
  if (K != K2) reject(e, STATUS_DIMENSIONS_MISMATCH);
  if (!bcast(ba, bb, bo)) reject(e, STATUS_DIMENSIONS_MISMATCH);
  if (!e.ok) return;
  Dims od = bo;
  if (!va) od.push_back(M);
  if (!vb) od.push_back(N);
  if (va && vb) od.push_back(1);
  e.out = RT(a.dt, od, 0);
  std::vector<int64_t> ix(bo.size(), 0); int64_t o = 0;
  if (prod(bo)) do {
    int64_t pa = 0, pb = 0;
    for (size_t i = 0; i < bo.size(); i++) {
      size_t fa = bo.size() - ba.size(), fb = bo.size() - bb.size();
      if (i >= fa) pa = pa * ba[i - fa] + (ba[i - fa] == 1 ? 0 : ix[i]);
      if (i >= fb) pb = pb * bb[i - fb] + (bb[i - fb] == 1 ? 0 : ix[i]);
    }
    for (int64_t m = 0; m < M; m++) for (int64_t n = 0; n < N; n++)
      accumulate(a, b, e.out, o++, pa * M * K + m * K, 1, pb * K * N + n, N, K);
  } while (next_index(ix, bo));
}

static void ref_dot(const Case& c, Expect& e) {
  const RT &a = c.in[0], &b = c.in[1];
  if (a.dev || b.dev || a.dt != b.dt) reject(e, STATUS_NOT_SUPPORTED);
  size_t na = a.dims.size(), nb = b.dims.size();
  if (na == 0 || nb == 0) {
    if (!e.ok) return;
    const RT &s = na == 0 ? a : b, &t = na == 0 ? b : a;
    e.out = RT(a.dt, t.dims, 0);
    for (int64_t i = 0; i < t.size(); i++) accumulate(s, t, e.out, i, 0, 0, i, 0, 1);
    return;
  }
  if (na == 1 && nb == 1) {
    if (a.dims[0] != b.dims[0]) reject(e, STATUS_DIMENSIONS_MISMATCH);
    if (!e.ok) return;
    e.out = RT(a.dt, {1}, 0);
    accumulate(a, b, e.out, 0, 0, 1, 0, 1, a.dims[0]);
    return;
  }
  if (na == 2 && nb == 2) return ref_matmul(c, e);
  if (nb == 1) {
    int64_t K = a.dims.back();
    if (K != b.dims[0]) reject(e, STATUS_INVALID_ARGUMENT);
    if (!e.ok) return;
    e.out = RT(a.dt, Dims(a.dims.begin(), a.dims.end() - 1), 0);
    for (int64_t i = 0; i < e.out.size(); i++) accumulate(a, b, e.out, i, i * K, 1, 0, 1, K);
    return;
  }
  if (na > 2 && nb > 2) {
    int64_t K = a.dims.back();
    if (K != b.dims[nb - 2]) reject(e, STATUS_INVALID_ARGUMENT);
    if (!e.ok) return;
    Dims od(a.dims.begin(), a.dims.end() - 1);
    od.insert(od.end(), b.dims.begin(), b.dims.end() - 2);
    od.push_back(b.dims.back());
    e.out = RT(a.dt, od, 0);
    int64_t R = 1, N = b.dims.back(), Q = 1, o = 0;
    for (size_t i = 0; i + 1 < na; i++) R *= a.dims[i];
    for (size_t i = 0; i + 2 < nb; i++) Q *= b.dims[i];
    for (int64_t r = 0; r < R; r++) for (int64_t q = 0; q < Q; q++) for (int64_t n = 0; n < N; n++)
      accumulate(a, b, e.out, o++, r * K, 1, q * K * N + n, N, K);
    return;
  }
  reject(e, STATUS_INVALID_ARGUMENT);
}

static int64_t isqrt(uint64_t x) { typedef unsigned __int128 U; U r = (U)sqrtl((long double)x); while (r * r > x) r--; while ((r + 1) * (r + 1) <= x) r++; return (int64_t)r; }

static void ref_unary(const Case& c, Expect& e) {
  const RT& a = c.in[0];
  int64_t n = a.size();
  if ((c.op == SIGMOID || c.op == TANH) && !is_float(a.dt)) return reject(e, STATUS_NOT_SUPPORTED);
  for (int64_t i = 0; i < n && is_float(a.dt); i++) if (std::isnan(a.num(i))) mc::skip();
  if (c.op == SQRT) for (int64_t i = 0; i < n; i++) if (a.dt != 7 && (is_float(a.dt) ? a.num(i) < 0 : a.i64(i) < 0)) return reject(e, STATUS_MATH_ERROR);
  e.out = RT(a.dt, a.dims, a.dev);
  if (c.op == RELU) {
    DISP(a.dt, for (int64_t i = 0; i < n; i++) { T v = a.at<T>(i); e.out.put<T>(i, v > 0 ? v : (T)0); })
    if (is_float(a.dt)) { e.cmp = Expect::TOL; e.val.resize(n); e.tol.assign(n, 0); for (int64_t i = 0; i < n; i++) e.val[i] = e.out.num(i); }  // -0 == 0
    return;
  }
  if (c.op == SQRT && !is_float(a.dt)) {
    e.cmp = Expect::ALT; e.alt = e.out;
    DISP(a.dt, for (int64_t i = 0; i < n; i++) { T v = a.at<T>(i); e.out.put<T>(i, (T)sqrt((double)v)); e.alt.put<T>(i, (T)isqrt((uint64_t)v)); })
    return;
  }
  e.cmp = Expect::TOL; e.val.resize(n); e.tol.resize(n);
  bool f = a.dt == TYPE_FLOAT;
  for (int64_t i = 0; i < n; i++) {
    long double x = a.num(i), y;
    if (c.op == SQRT) y = sqrtl(x); else if (c.op == TANH) y = tanhl(x); else y = 1.0L / (1.0L + expl(-x));
    e.val[i] = (double)y;
    double m = std::fabs((double)y);
    if (std::isinf(m)) e.tol[i] = 0;
    else if (c.op == SQRT) e.tol[i] = (f ? 2e-7 : 5e-16) * m;
    else e.tol[i] = f ? 1e-6 * m + 1.2e-38 : 1e-13 * m + 2.3e-308;      // relative, down to the least normal number
  }
}

static void ref_softmax(const Case& c, Expect& e) {
  const RT& a = c.in[0];
  int nd = (int)a.dims.size();
  if (c.axis < -1 || c.axis > nd - 1) return reject(e, STATUS_NOT_SUPPORTED);
  int64_t n = a.size();
  e.out = RT(a.dt, a.dims, a.dev);
  if (!is_float(a.dt)) { e.cmp = Expect::NODATA; return; }
  int64_t len = c.axis < 0 ? n : a.dims[c.axis], inner = 1;
  if (c.axis >= 0) for (int i = c.axis + 1; i < nd; i++) inner *= a.dims[i];
  e.cmp = Expect::TOL; e.val.resize(n); e.tol.resize(n);
  bool f = a.dt == TYPE_FLOAT;
  for (int64_t s = 0; s < n; s++) {
    if ((s / inner) % len) continue;       // first element of its line
    long double mx = a.num(s), tot = 0;
    for (int64_t k = 1; k < len; k++) { long double v = a.num(s + k * inner); if (v > mx) mx = v; }
    for (int64_t k = 0; k < len; k++) tot += expl((long double)a.num(s + k * inner) - mx);
    for (int64_t k = 0; k < len; k++) {
      double v = (double)(expl((long double)a.num(s + k * inner) - mx) / tot);
      e.val[s + k * inner] = v;
      e.tol[s + k * inner] = f ? 2e-5 * v + 1.2e-38 : 1e-11 * v + 2.3e-308;
    }
  }
}

static void ref_pool(const Case& c, Expect& e) {
  const RT& a = c.in[0];
  int nd = (int)a.dims.size(), sp = nd - 2;
  if (nd < 3 || nd > 5) { reject(e, STATUS_DIMENSIONS_MISMATCH); return; }
  bool avg = c.mode == "avg";
  if (!avg && c.mode != "max") reject(e, STATUS_INVALID_ARGUMENT);
  Dims od = {a.dims[0], a.dims[1]}, kd, outsp;
  int64_t win = 1;
  for (int i = 0; i < sp; i++) {
    int64_t k = c.p[0][i], s = c.p[1][i], p = c.p[2][i], d = c.p[3][i];
    if (k < 1 || s < 1 || p < 0 || d < 1) { reject(e, STATUS_INVALID_ARGUMENT); continue; }
    int64_t span = d * (k - 1) + 1, in = a.dims[i + 2] + 2 * p;
    if (span > in) { reject(e, STATUS_INVALID_ARGUMENT); continue; }
    od.push_back((in - span) / s + 1); outsp.push_back(od.back()); kd.push_back(k); win *= k;
  }
  if (!e.ok) return;
  e.out = RT(a.dt, od, a.dev);
  int64_t plane = 1; for (int i = 2; i < nd; i++) plane *= a.dims[i];
  if (avg && is_float(a.dt)) { e.cmp = Expect::TOL; e.val.resize(e.out.size()); e.tol.resize(e.out.size()); }
  int64_t o = 0;
  for (int64_t nc = 0; nc < a.dims[0] * a.dims[1]; nc++) {
    std::vector<int64_t> w(sp, 0);
    do {
      std::vector<int64_t> k(sp, 0);
      bool first = true; double sum = 0, mag = 0, best = 0; __int128 isum = 0; int64_t ibest = 0; double bestd = 0;
      do {
        int64_t lin = 0; bool pad = false;
        for (int i = 0; i < sp; i++) {
          int64_t x = w[i] * c.p[1][i] - c.p[2][i] + k[i] * c.p[3][i];
          if (x < 0 || x >= a.dims[i + 2]) pad = true;
          lin = lin * a.dims[i + 2] + x;
        }
        lin += nc * plane;
        if (is_float(a.dt)) {
          double v = pad ? 0 : a.num(lin);
          sum += v; mag += std::fabs(v);
          if (first || v > best) best = v;
        } else {
          int64_t v = pad ? 0 : a.i64(lin);
          isum += a.dt == 7 ? (__int128)(uint64_t)v : (__int128)v;
          bool gt = a.dt == 7 ? (uint64_t)v > (uint64_t)ibest : v > ibest;
          if (first || gt) ibest = v;
        }
        first = false;
      } while (next_index(k, kd));
      (void)bestd;
      if (is_float(a.dt)) {
        if (avg) { e.val[o] = sum / win; e.tol[o] = (a.dt == TYPE_FLOAT ? 1e-6 : 1e-14) * (mag / win + std::fabs(sum / win)); }
        else e.out.set_num(o, best + 0.0);
      } else if (avg) {
        if (isum > ((__int128)1 << 53) || isum < -((__int128)1 << 53)) mc::skip();
        e.out.set_i64(o, (int64_t)(isum / win));
      } else e.out.set_i64(o, ibest);
      o++;
    } while (next_index(w, outsp));
  }
}

static void ref_conv(const Case& c, Expect& e) {
  const RT &a = c.in[0], &f = c.in[1];
  int nd = (int)a.dims.size(), sp = nd - 2;
  if (c.op == CONV2D && nd != 4) reject(e, STATUS_DIMENSIONS_MISMATCH);
  if (c.op == CONV3D && nd != 5) reject(e, STATUS_DIMENSIONS_MISMATCH);
  if (a.dt != TYPE_FLOAT) reject(e, STATUS_NOT_SUPPORTED);
  if (f.dt != a.dt) reject(e, STATUS_TYPE_MISMATCH);
  if (nd < 3 || f.dims.size() != a.dims.size()) { reject(e, STATUS_DIMENSIONS_MISMATCH); return; }
  int64_t C = a.dims[1], M = f.dims[0], g = c.groups;
  if (g < 1 || C % g || M % g) reject(e, STATUS_INVALID_ARGUMENT);
  if (g >= 1 && f.dims[1] != C / g) reject(e, STATUS_DIMENSIONS_MISMATCH);
  if (g < 1 && f.dims[1] != C) reject(e, STATUS_DIMENSIONS_MISMATCH);
  Dims od = {a.dims[0], M}, kd, outsp;
  for (int i = 0; i < sp; i++) {
    int64_t k = f.dims[i + 2], s = c.p[0][i], p = c.p[1][i], d = c.p[2][i];
    if (s < 1 || p < 0 || d < 1) { reject(e, STATUS_INVALID_ARGUMENT); continue; }
    int64_t span = d * (k - 1) + 1, in = a.dims[i + 2] + 2 * p;
    if (span > in) { reject(e, STATUS_INVALID_ARGUMENT); continue; }
    od.push_back((in - span) / s + 1); outsp.push_back(od.back()); kd.push_back(k);
  }
  if (!e.ok) return;
  e.out = RT(a.dt, od, a.dev);
  int64_t plane = 1, kn = 1; for (int i = 2; i < nd; i++) { plane *= a.dims[i]; kn *= f.dims[i]; }
  int64_t Cg = C / g, Mg = M / g, o = 0;
  for (int64_t n = 0; n < a.dims[0]; n++) for (int64_t m = 0; m < M; m++) {
    std::vector<int64_t> w(sp, 0);
    do {
      long double s = 0;
      std::vector<int64_t> k(sp, 0); int64_t ki = 0;
      do {
        int64_t lin = 0; bool pad = false;
        for (int i = 0; i < sp; i++) {
          int64_t x = w[i] * c.p[0][i] - c.p[1][i] + k[i] * c.p[2][i];
          if (x < 0 || x >= a.dims[i + 2]) pad = true;
          lin = lin * a.dims[i + 2] + x;
        }
        if (!pad) for (int64_t cc = 0; cc < Cg; cc++)
          s += (long double)a.num((n * C + (m / Mg) * Cg + cc) * plane + lin) * f.num((m * Cg + cc) * kn + ki);
        ki++;
      } while (next_index(k, kd));
      e.out.set_num(o++, (double)s + 0.0);
    } while (next_index(w, outsp));
  }
  e.cmp = Expect::TOL; e.val.resize(o); e.tol.assign(o, 0);
  for (int64_t i = 0; i < o; i++) e.val[i] = e.out.num(i);
}

static void ref_bn(const Case& c, Expect& e) {
  const RT& x = c.in[0];
  int nd = (int)x.dims.size();
  if (nd < 2 || nd > 5) { reject(e, STATUS_DIMENSIONS_MISMATCH); }
  bool axis_ok = c.axis == 1 || c.axis == nd - 1;
  if (!axis_ok) reject(e, STATUS_INVALID_ARGUMENT);
  if (c.d < 0) reject(e, STATUS_INVALID_ARGUMENT);
  for (int i = 1; i < 5; i++) {
    if (c.in[i].dt != x.dt) reject(e, STATUS_TYPE_MISMATCH);
    if (c.in[i].dims.size() != 1) reject(e, STATUS_DIMENSIONS_MISMATCH);
    else if (axis_ok && nd >= 2 && c.axis >= 0 && c.axis < nd && c.in[i].dims[0] != x.dims[c.axis]) reject(e, STATUS_DIMENSIONS_MISMATCH);
  }
  const RT &sc = c.in[1], &bi = c.in[2], &me = c.in[3], &va = c.in[4];
  for (int64_t i = 0; i < va.size(); i++) if (va.num(i) + c.d < 0) { reject(e, STATUS_MATH_ERROR); break; }
  if (!is_float(x.dt)) { if (e.ok) mc::skip(); return; }
  if (!e.ok) return;
  e.out = RT(x.dt, x.dims, x.dev);
  int64_t n = x.size(), inner = 1, C = x.dims[c.axis];
  for (int i = c.axis + 1; i < nd; i++) inner *= x.dims[i];
  e.cmp = Expect::TOL; e.val.resize(n); e.tol.resize(n);
  bool f = x.dt == TYPE_FLOAT;
  for (int64_t i = 0; i < n; i++) {
    int64_t ch = (i / inner) % C;
    long double sd = sqrtl((long double)va.num(ch) + c.d);
    if (sd == 0) mc::skip();
    long double v = (long double)sc.num(ch) * ((long double)x.num(i) - me.num(ch)) / sd + bi.num(ch);
    long double mag = fabsl((long double)sc.num(ch)) * (fabsl((long double)x.num(i)) + fabsl((long double)me.num(ch))) / sd + fabsl((long double)bi.num(ch));
    e.val[i] = (double)v; e.tol[i] = (double)(mag * (f ? 2e-6 : 1e-13));
  }
}

static void by_value(Expect& e, bool signs = false) {   // sums: floating-point zeros of either sign are the same value
  e.signs = signs;
  if (!e.ok || !is_float(e.out.dt)) return;
  int64_t n = e.out.size();
  e.cmp = Expect::TOL; e.val.resize(n); e.tol.assign(n, 0);
  for (int64_t i = 0; i < n; i++) e.val[i] = e.out.num(i);
}

Expect ref_eval(const Case& c) {
  Expect e;
  switch (c.op) {
    case ADD: case SUB: case MUL: case DIV: ref_binary(c, e); by_value(e, true); break;
    case CAST: ref_cast(c, e); break;
    case RESHAPE: if (prod(c.a64) != c.in[0].size()) reject(e, STATUS_DIMENSIONS_MISMATCH); else { e.out = c.in[0]; e.out.dims = c.a64; } break;
    case SQUEEZE: ref_squeeze(c, e); break;
    case DUP: e.out = c.in[0]; break;
    case SLICE: ref_slice(c, e); break;
    case FULL: ref_full(c, e); break;
    case CREATE: ref_create(c, e); break;
    case MATMUL: ref_matmul(c, e); by_value(e); break;
    case DOT: ref_dot(c, e); by_value(e); break;
    case SQRT: case RELU: case SIGMOID: case TANH: ref_unary(c, e); break;
    case SOFTMAX: ref_softmax(c, e); break;
    case POOL: ref_pool(c, e); break;
    case CONV: case CONV2D: case CONV3D: ref_conv(c, e); break;
    case BN: ref_bn(c, e); break;
    case DROPOUT:
      if (!(c.d >= 0 && c.d <= 1)) reject(e, STATUS_INVALID_ARGUMENT);
      else { e.out = c.in[0]; e.cmp = Expect::MASKED; }
      break;
    default: break;
  }
  return e;
}

// ------------------------------------------------------------------------------------------------------------
bool fixed_args = false;
// parameter arrays at the same addresses in every call, or each in a block of its own
static void* arg_block(int which, size_t n) {
  static char arena[6][4096] __attribute__((aligned(16)));
  if (!fixed_args) return malloc(n);
  if (n > 4096) mc::fail("harness: parameter arena too small");
  return arena[which];
}
Args::Args(const Case& c) : c_(&c), fixed(fixed_args) {
  a64 = (int64_t*)arg_block(4, c.a64.size() * 8); memcpy(a64, c.a64.data(), c.a64.size() * 8);
  for (int i = 0; i < 4; i++) if (!c.p[i].empty()) {
    if (c.shared) for (int j = 0; j < i; j++) if (c.p[j] == c.p[i]) p[i] = p[j];
    if (!p[i]) p[i] = (int*)arg_block(i, c.p[i].size() * 4); memcpy(p[i], c.p[i].data(), c.p[i].size() * 4); }
  if (c.op == POOL) { mode = (char*)arg_block(5, c.mode.size() + 1); strcpy(mode, c.mode.c_str()); }
  if (c.op == CREATE && c.n64 >= 0) {
    buf = aitisa_default_cpu_allocator()->raw_alloc((size_t)c.n64);
    if (!buf) mc::fail("no memory for the caller's buffer");
    std::vector<uint8_t> b(c.n64); for (int64_t i = 0; i < c.n64; i++) b[i] = (uint8_t)(i * 31 + 7);
    memcpy(buf, b.data(), c.n64);
  }
}
Args::~Args() {
  if (fixed) return;
  for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) if (p[j] == p[i]) p[j] = nullptr;
  ::free(a64); for (int i = 0; i < 4; i++) ::free(p[i]); ::free(mode);
}
bool Args::intact(const Case& c, std::string* why) const {
  if (memcmp(a64, c.a64.data(), c.a64.size() * 8)) { *why = "the caller's dimension or axis array was modified"; return false; }
  for (int i = 0; i < 4; i++) if (p[i] && memcmp(p[i], c.p[i].data(), c.p[i].size() * 4)) { *why = mc::fmt("the caller's parameter array %d was modified", i); return false; }
  if (mode && c.mode != mode) { *why = "the caller's mode string was modified"; return false; }
  return true;
}

// What the call finds lying around and must not care about: old stack frames, errno, floating-point exception flags.
__attribute__((noinline)) void surroundings() {
  static const int bytes[] = {0xA5, 0x00, 0xFF, 0x01}, errs[] = {EDOM, 0, ERANGE, EINVAL};
  int m = vf::fill_mode & 3;
  char frame[8192];
  memset(frame, bytes[m], sizeof frame);
  __asm__ volatile("" : : "r"(frame) : "memory");
  if (m == 1) feclearexcept(FE_ALL_EXCEPT); else feraiseexcept(FE_ALL_EXCEPT);
  errno = errs[m];
}

Status call(const Case& c, Args& a, Tensor* in, Tensor* out) {
  surroundings();
  int n0 = (int)c.p[0].size(), n1 = (int)c.p[1].size(), n2 = (int)c.p[2].size();
  switch (c.op) {
    case ADD: return aitisa_add(in[0], in[1], out);
    case SUB: return aitisa_sub(in[0], in[1], out);
    case MUL: return aitisa_mul(in[0], in[1], out);
    case DIV: return aitisa_div(in[0], in[1], out);
    case CAST: return aitisa_cast(in[0], mkdt(c.tdt), out);
    case RESHAPE: return aitisa_reshape(in[0], c.shared && c.a64 == c.in[0].dims ? aitisa_tensor_dims(in[0]) : a.a64, (int64_t)c.a64.size(), out);
    case SQUEEZE: return aitisa_squeeze(in[0], a.a64, c.n64, out);
    case DUP: return aitisa_duplicate(in[0], out);
    case SLICE: return aitisa_slice(in[0], a.p[0], a.p[1], a.p[2], out);
    case FULL: return aitisa_full(mkdt(c.tdt), mkdev(c.dev), a.a64, (int64_t)c.a64.size(), c.d, out);
    case CREATE: return aitisa_create(mkdt(c.tdt), mkdev(c.dev), a.a64, (int64_t)c.a64.size(), a.buf, c.n64 < 0 ? 0u : (unsigned)c.n64, out);
    case MATMUL: return aitisa_matmul(in[0], in[1], out);
    case DOT: return aitisa_dot(in[0], in[1], out);
    case SQRT: return aitisa_sqrt(in[0], out);
    case RELU: return aitisa_relu(in[0], out);
    case SIGMOID: return aitisa_sigmoid(in[0], out);
    case TANH: return aitisa_tanh(in[0], out);
    case SOFTMAX: return aitisa_softmax(in[0], c.axis, out);
    case POOL: return aitisa_pooling(in[0], a.mode, a.p[0], a.p[1], a.p[2], a.p[3], out);
    case CONV: return aitisa_conv(in[0], in[1], a.p[0], a.p[1], a.p[2], c.groups, out);
    case CONV2D: return aitisa_conv2d(in[0], in[1], a.p[0], n0, a.p[1], n1, a.p[2], n2, c.groups, out);
    case CONV3D: return aitisa_conv3d(in[0], in[1], a.p[0], n0, a.p[1], n1, a.p[2], n2, c.groups, out);
    case BN: return aitisa_batch_norm(in[0], c.axis, in[1], in[2], in[3], in[4], c.d, out);
    case DROPOUT: return aitisa_dropout(in[0], c.d, out);
    default: return STATUS_INTERNAL_ERROR;
  }
}

Tensor make(const RT& t) {
  Tensor o = nullptr;
  int64_t* d = (int64_t*)malloc(t.dims.size() * 8);
  memcpy(d, t.dims.data(), t.dims.size() * 8);
  Status s = aitisa_create(mkdt(t.dt), mkdev(t.dev), d, (int64_t)t.dims.size(), nullptr, 0, &o);
  ::free(d);
  if (s != STATUS_SUCCESS || !o) mc::fail("creating an input tensor %s failed with status %d", show(t, 0).c_str(), (int)s);
  if (t.data.size()) memcpy(aitisa_tensor_data(o), t.data.data(), t.data.size());
  return o;
}

void make_inputs(const Case& c, Tensor* in) {
  for (size_t i = 0; i < c.in.size(); i++) {
    in[i] = nullptr;
    if (c.shared) for (size_t j = 0; j < i; j++) if (c.in[j].dt == c.in[i].dt && c.in[j].dims == c.in[i].dims && c.in[j].dev == c.in[i].dev && c.in[j].data == c.in[i].data) in[i] = in[j];
    if (!in[i]) in[i] = make(c.in[i]);
  }
}
void unalias(Tensor* in, size_t n) { for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) if (in[j] == in[i]) in[j] = nullptr; }

RT snap(const Tensor t) {
  RT r;
  r.dt = (int)aitisa_tensor_data_type(t).code;
  Device d = aitisa_tensor_device(t);
  r.dev = d.type == DEVICE_CUDA ? (d.id == 3 ? 2 : 1) : 0;
  int64_t nd = aitisa_tensor_ndim(t);
  if (nd < 0 || nd > 1000000) mc::fail("a tensor reports %lld dimensions", (long long)nd);
  for (int64_t i = 0; i < nd; i++) r.dims.push_back(aitisa_tensor_dim(t, i));
  if (r.dt < 0 || r.dt > 9) { if (r.dt == 99) r.dt = 11; if (r.dt != 10 && r.dt != 11) mc::fail("a tensor reports type code %d", r.dt); }
  int64_t n = prod(r.dims);
  if (n < 0 || n > (1ll << 28)) mc::fail("a tensor reports dimensions %s", show(r.dims).c_str());
  r.data.resize(n * dsize(r.dt));
  if (!r.data.empty()) memcpy(r.data.data(), aitisa_tensor_data(t), r.data.size());
  return r;
}

std::string differs(const RT& a, const RT& b) {
  if (a.dt != b.dt) return mc::fmt("type %s instead of %s", dt_name[b.dt], dt_name[a.dt]);
  if (a.dev != b.dev) return mc::fmt("device %d instead of %d", b.dev, a.dev);
  if (a.dims != b.dims) return "shape " + show(b.dims) + " instead of " + show(a.dims);
  if (a.data != b.data) {
    int es = dsize(a.dt);
    for (int64_t i = 0; i < a.size(); i++) if (memcmp(&a.data[i * es], &b.data[i * es], es)) {
      RT x(a.dt, {1}), y(a.dt, {1}); memcpy(x.data.data(), &a.data[i * es], es); memcpy(y.data.data(), &b.data[i * es], es);
      return mc::fmt("element %lld is %s instead of %s", (long long)i, show(y).c_str(), show(x).c_str());
    }
    return "data length";
  }
  return "";
}

std::string compare_rt(const Expect& e, const RT& o) {
  if (o.dt != e.out.dt) return mc::fmt("result type %s instead of %s", dt_name[o.dt], dt_name[e.out.dt]);
  if (o.dims != e.out.dims) return "result shape " + show(o.dims) + " instead of " + show(e.out.dims);
  if (o.dev != e.out.dev) return mc::fmt("result device %d instead of %d", o.dev, e.out.dev);
  int64_t n = o.size(); int es = dsize(o.dt);
  switch (e.cmp) {
    case Expect::NODATA: return "";
    case Expect::EXACT: { std::string s = differs(e.out, o); return s.empty() ? s : "result " + s; }
    case Expect::MASKED: case Expect::ALT: {
      std::vector<uint8_t> z(8, 0);
      for (int64_t i = 0; i < n; i++) {
        if (!memcmp(&o.data[i * es], &e.out.data[i * es], es)) continue;
        if (!memcmp(&o.data[i * es], e.cmp == Expect::ALT ? &e.alt.data[i * es] : z.data(), es)) continue;
        RT x(o.dt, {1}), y(o.dt, {1}); memcpy(x.data.data(), &o.data[i * es], es); memcpy(y.data.data(), &e.out.data[i * es], es);
        return mc::fmt("result element %lld is %s, expected %s%s", (long long)i, show(x).c_str(), show(y).c_str(), e.cmp == Expect::MASKED ? " or zero" : "");
      }
      return "";
    }
    case Expect::TOL:
      for (int64_t i = 0; i < n; i++) {
        double g = o.num(i), w = e.val[i];
        if (g == 0 && w == 0 && e.signs && std::signbit(g) != std::signbit(w)) return mc::fmt("result element %lld is %sin place of %s", (long long)i, std::signbit(g) ? "-0 " : "+0 ", std::signbit(w) ? "-0" : "+0");
        if (g == w || (std::isfinite(w) && std::isfinite(e.tol[i]) && std::fabs(g - w) <= e.tol[i]) || (std::isnan(w) && std::isnan(g))) continue;
        return mc::fmt("result element %lld is %.17g instead of %.17g (tolerance %.3g)", (long long)i, g, w, e.tol[i]);
      }
      return "";
  }
  return "";
}
std::string compare(const Expect& e, const Tensor out) {
  if (!out) return "the call reported success without setting the output handle";
  RT o = snap(out);
  std::string s = compare_rt(e, o);
  if (!s.empty()) return s;
  return well_formed(out);
}

std::string well_formed(const Tensor t) {
  int64_t nd = aitisa_tensor_ndim(t), n = 1;
  for (int64_t i = 0; i < nd; i++) n *= aitisa_tensor_dim(t, i);
  if (aitisa_tensor_size(t) != n) return mc::fmt("the tensor reports %lld elements, its shape has %lld", (long long)aitisa_tensor_size(t), (long long)n);
  if (aitisa_tensor_storage(t)->size != n) return mc::fmt("the tensor's storage reports %lld elements, its shape has %lld", (long long)aitisa_tensor_storage(t)->size, (long long)n);
  int dt = (int)aitisa_tensor_data_type(t).code;
  if (dt >= 0 && dt < 10 && aitisa_tensor_data_type(t).size != dsize(dt)) return mc::fmt("the tensor's type %s reports %d bytes", dt_name[dt], aitisa_tensor_data_type(t).size);
  if (aitisa_tensor_layout_type(t) != LAYOUT_DENSE) return "the tensor's layout is not dense";
  Shape s = aitisa_tensor_shape(t);
  for (int64_t i = 0; i < nd; i++) if (s.layout.min2maj[i] != nd - 1 - i) return "the tensor's layout is not row-major";
  return "";
}

uint64_t hash_rt(const RT& t) {
  uint64_t h = mc::mix(t.dt * 31 + t.dev, t.dims.size());
  for (auto d : t.dims) h = mc::mix(h, d);
  return mc::hash_bytes(t.data.data(), t.data.size(), h);
}

Ident ident(const Tensor t) {
  Ident i; i.t = t; i.dims = t->shape.dims; i.lay = t->shape.layout.min2maj; i.st = t->storage; i.data = t->storage->data;
  i.size = t->size; i.offset = t->offset; i.ndim = t->shape.ndim; return i;
}
bool same(const Ident& a, const Ident& b) {
  return a.t == b.t && a.dims == b.dims && a.lay == b.lay && a.st == b.st && a.data == b.data && a.size == b.size && a.offset == b.offset && a.ndim == b.ndim;
}
