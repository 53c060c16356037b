// Auto-test data generators: every type, every byte length up to a bound, every element, guard bytes around.
#include "run.h"
#include "auto_test/basic.h"
#include <cmath>
using namespace aitisa_api;

static const size_t kGuard = 64;
struct Buf {
  size_t len; int shift; std::vector<uint8_t> b;
  Buf(size_t n, int shift_, uint8_t pat) : len(n), shift(shift_), b(n + 2 * kGuard + 16, pat), pat_(pat) {}
  void* p() { return b.data() + kGuard + shift; }
  void untouched(size_t written, const std::string& what) {   // everything but the first `written` bytes
    for (size_t i = 0; i < b.size(); i++) {
      if (i >= kGuard + shift && i < kGuard + shift + written) continue;
      if (b[i] != pat_) mc::fail("%s: byte %ld relative to the buffer was written", what.c_str(), (long)i - (long)kGuard - shift);
    }
  }
  uint8_t pat_;
};
template <class T> static T at(const uint8_t* p, size_t i) { T v; memcpy(&v, p + i * sizeof(T), sizeof(T)); return v; }
static int64_t ival(int dt, const uint8_t* p, size_t i) {
  switch (dt) { case 0: return at<int8_t>(p, i); case 1: return at<uint8_t>(p, i); case 2: return at<int16_t>(p, i); case 3: return at<uint16_t>(p, i);
    case 4: return at<int32_t>(p, i); case 5: return at<uint32_t>(p, i); case 6: return at<int64_t>(p, i); default: return (int64_t)at<uint64_t>(p, i); }
}
static int64_t wrap(int dt, uint64_t v) {
  switch (dt) { case 0: return (int8_t)v; case 1: return (uint8_t)v; case 2: return (int16_t)v; case 3: return (uint16_t)v; case 4: return (int32_t)v; case 5: return (uint32_t)v; default: return (int64_t)v; }
}
static void one(bool natural, int dt, size_t len, int shift, uint8_t pat) {
  mc::start();
  std::string what = mc::fmt("%s fill of %zu bytes as %s", natural ? "natural" : "random", len, dt_name[dt]);
  mc::describe([&] { return what; });
  size_t es = dsize(dt), n = len / es;
  Buf b(len, shift, pat);
  if (natural) natural_assign(b.p(), len, dt); else random_assign(b.p(), len, dt);
  b.untouched(n * es, what);
  const uint8_t* p = (const uint8_t*)b.p();
  if (natural) for (size_t i = 0; i < n; i++) {
    if (!is_float(dt)) { if (ival(dt, p, i) != wrap(dt, i + 1)) mc::fail("%s: element %zu is %lld, expected %lld", what.c_str(), i, (long long)ival(dt, p, i), (long long)wrap(dt, i + 1)); }
    else {
      double v = dt == TYPE_FLOAT ? (double)at<float>(p, i) : at<double>(p, i), e = (i + 1) * 0.1, tol = e * (dt == TYPE_FLOAT ? 2e-7 : 1e-15) * 2;
      if (!(fabs(v - e) <= tol)) mc::fail("%s: element %zu is %.17g, expected %.17g", what.c_str(), i, v, e);
    }
  } else {
    for (size_t i = 0; i < n; i++) {
      if (!is_float(dt)) { int64_t v = ival(dt, p, i); if (v < 0 || v > 10) mc::fail("%s: element %zu is %lld", what.c_str(), i, (long long)v); }
      else { double v = dt == TYPE_FLOAT ? (double)at<float>(p, i) : at<double>(p, i); if (!std::isfinite(v)) mc::fail("%s: element %zu is not finite", what.c_str(), i); }
    }
    // the same again, from other memory contents, whatever was generated in between
    Buf c(len, shift, (uint8_t)~pat); natural_assign(c.p(), len, dt);
    Buf o(24, 0, 0); random_assign(o.p(), 24, (dt + 3) % 10); srand(5); rand();
    Buf d(len, 0, (uint8_t)~pat); random_assign(d.p(), len, dt);
    if (memcmp(b.p(), d.p(), n * es)) mc::fail("%s: a second call gave other values", what.c_str());
    // every element is really written: no element keeps two different previous contents
    mc::evals(n);
  }
  mc::evals(n);
  mc::outcome(mc::hash_bytes(b.p(), n * es, dt + 1));
}
static void s_lengths() {
  bool nat = mc::choose(2); int dt = mc::choose(10);
  size_t len = mc::choose(mc::thorough() ? 1201 : 401); int shift = 0;
  if (len <= 40) shift = 8 * mc::choose(2);
  uint8_t pat = mc::choose(2) ? 0xA7 : 0x00;
  one(nat, dt, len, shift, pat);
}
static void s_long() {   // where the narrow types wrap, and beyond
  bool nat = mc::choose(2); int dt = mc::choose(10);
  static const std::vector<size_t> el = {126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 4095, 4097, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131073};
  size_t n = mc::pick(el), extra = mc::choose(2) ? dsize(dt) - 1 : 0;
  one(nat, dt, n * dsize(dt) + extra, 0, 0xA7);
}
// a fill of one type never depends on an earlier one
static void s_sequences() {
  int k[3], dt[3]; size_t len[3];
  for (int i = 0; i < 3; i++) { k[i] = mc::choose(2); dt[i] = mc::choose(10); len[i] = 24; }
  mc::start();
  mc::describe([&] { return mc::fmt("fills %d/%d, %d/%d, %d/%d", k[0], dt[0], k[1], dt[1], k[2], dt[2]); });
  static std::vector<uint8_t> alone[2][10];
  for (int i = 0; i < 3; i++) {
    Buf b(len[i], 0, 0x5A); if (k[i]) random_assign(b.p(), len[i], dt[i]); else natural_assign(b.p(), len[i], dt[i]);
    std::vector<uint8_t> v((uint8_t*)b.p(), (uint8_t*)b.p() + len[i]);
    if (alone[k[i]][dt[i]].empty()) alone[k[i]][dt[i]] = v;
    else if (alone[k[i]][dt[i]] != v) mc::fail("%s fill of 24 bytes as %s depends on earlier fills", k[i] ? "random" : "natural", dt_name[dt[i]]);
    mc::evals(1);
  }
  mc::outcome(dt[0] * 100 + dt[1] * 10 + dt[2]);
}
// type and device numbers
static void s_numbers() {
  int i = mc::choose(10), j = mc::choose(10); mc::start();
  mc::describe([&] { return mc::fmt("type numbers %d and %d", i, j); });
  static const DataType* const lib[10] = {&kInt8, &kUint8, &kInt16, &kUint16, &kInt32, &kUint32, &kInt64, &kUint64, &kFloat, &kDouble};
  DataType a = aitisa_int_to_dtype(i), b = aitisa_int_to_dtype(j);
  if (a.code != lib[i]->code || a.size != lib[i]->size || (int)a.code != i) mc::fail("type number %d maps to code %d of size %d", i, (int)a.code, (int)a.size);
  if ((i == j) != (a.code == b.code)) mc::fail("type numbers %d and %d map to codes %d and %d", i, j, (int)a.code, (int)b.code);
  if (aitisa_dtype_to_int(a) != i) mc::fail("the type of number %d maps back to %d", i, aitisa_dtype_to_int(a));
  if (elem_size(i) != (unsigned)dsize(i) || elem_size(i) != a.size) mc::fail("type number %d has element size %u", i, elem_size(i));
  for (int d = 0; d < 2; d++) {
    Device x = aitisa_int_to_device(d);
    if (x.type != (d ? DEVICE_CUDA : DEVICE_CPU) || x.id != 0 || aitisa_device_to_int(x) != d) mc::fail("device number %d maps to type %d, id %d and back to %d", d, (int)x.type, (int)x.id, aitisa_device_to_int(x));
  }
  // a tensor made through these numbers is what the library says it is
  Tensor t = nullptr; int64_t dims[1] = {3};
  if (aitisa_full(a, aitisa_int_to_device(0), dims, 1, 1.0, &t) != STATUS_SUCCESS) mc::fail("no tensor of type number %d", i);
  if (aitisa_dtype_to_int(aitisa_tensor_data_type(t)) != i || aitisa_tensor_size(t) != 3) mc::fail("a tensor of type number %d reports another type", i);
  aitisa_destroy(&t);
  mc::outcome(i * 10 + j); mc::evals(1);
}

int main(int argc, char** argv) {
  mc::Check c{"C23", "model_checking", {
    {"lengths", s_lengths, "2 fills x 10 types x every byte length 0..400 (thorough 1200) x previous contents x alignment"},
    {"long", s_long, "2 fills x 10 types x 22 element counts around the wrap-around points, with and without a partial element"},
    {"sequences", s_sequences, "every sequence of three fills of every kind and type"},
    {"numbers", s_numbers, "every pair of type numbers, every device number"},
  }, {"other type numbers than 0..9 are outside the property"}};
  return mc::run(argc, argv, c);
}
