// Calls on tensors of more than 2^31 and 2^32 elements.  Input data is one small block mapped over and over, so it costs no
// memory; outputs are committed as they are written.
#pragma once
#include "run.h"
#include <map>
#include <sys/mman.h>
#include <unistd.h>

namespace huge {
static std::map<void*, size_t> maps;
static inline void* alloc(size_t n) {
  void* p = mmap(nullptr, n ? n : 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return nullptr;
  if (n > (1u << 24)) madvise(p, n, MADV_HUGEPAGE);
  maps[p] = n ? n : 1; return p;
}
static inline void dealloc(void* p) { if (!p) return; auto i = maps.find(p); if (i == maps.end()) mc::fail("released memory that is not held"); munmap(p, i->second); maps.erase(i); }
struct Mem {             // while it lives, the library's memory is mapped page by page
  RawAlloc a; RawDealloc f;
  Mem() { vf::reset(); a = aitisa_default_cpu_allocator()->raw_alloc; f = aitisa_default_cpu_allocator()->raw_dealloc; aitisa_set_default_cpu_raw_alloc(alloc); aitisa_set_default_cpu_raw_dealloc(dealloc); }
  ~Mem() { aitisa_set_default_cpu_raw_alloc(a); aitisa_set_default_cpu_raw_dealloc(f); for (auto& m : maps) munmap(m.first, m.second); maps.clear(); vf::reset(); }
};

const int64_t Q = 4111;  // data repeats after Q elements, a prime: elements 2^31 or 2^32 apart differ
inline RT block(int dt, Pat p, int salt) { return mkrt(dt, {Q}, p, salt); }
// a tensor of this shape whose element i is block[i % Q]; writing to it faults
static Tensor periodic(const RT& b, const Dims& s) {
  Dims d = s; Tensor t = nullptr;
  Status st = aitisa_create(mkdt(b.dt), mkdev(b.dev), d.data(), (int64_t)d.size(), nullptr, 0, &t);
  if (st != STATUS_SUCCESS) mc::fail("create %s%s with memory available returned status %d", dt_name[b.dt], show(s).c_str(), (int)st);
  auto m = maps.find(aitisa_tensor_data(t));
  if (m == maps.end()) mc::fail("the data of a tensor of shape %s does not come from the installed allocator", show(s).c_str());
  size_t period = b.data.size() * 4096 * 2, total = (size_t)prod(s) * dsize(b.dt);
  if (m->second < total) mc::fail("a tensor of shape %s took a buffer of %zu bytes", show(s).c_str(), m->second);
  static std::vector<std::pair<std::vector<uint8_t>, int>> files;      // recently used blocks
  int fd = -1;
  for (auto& f : files) if (f.first == b.data) fd = f.second;
  if (fd < 0) {
    if (files.size() > 3) { close(files[0].second); files.erase(files.begin()); }
    fd = memfd_create("period", 0);
    std::vector<uint8_t> w; for (int i = 0; i < 4096; i++) w.insert(w.end(), b.data.begin(), b.data.end());
    for (int k = 0; k < 2; k++) for (size_t o = 0; o < w.size();) { ssize_t r = write(fd, w.data() + o, w.size() - o); if (r <= 0) mc::fail("harness: write"); o += r; }
    files.push_back({b.data, fd});
  }
  size_t cap = (m->second + 4095) & ~4095ull;
  for (size_t o = 0; o < total; o += period) {
    size_t n = std::min(period, cap - o);
    if (mmap((char*)m->first + o, n, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) mc::fail("harness: mmap");
  }
  return t;
}
// every element i of t is e[i % Q]
static void must_be_periodic(Tensor t, const RT& e, const Dims& s, const char* what) {
  if (!t) mc::fail("%s: no output", what);
  if (aitisa_tensor_data_type(t).code != e.dt) mc::fail("%s: output type", what);
  Dims d(aitisa_tensor_dims(t), aitisa_tensor_dims(t) + aitisa_tensor_ndim(t));
  if (d != s) mc::fail("%s: output shape %s, expected %s", what, show(d).c_str(), show(s).c_str());
  int64_t n = prod(s); int es = dsize(e.dt);
  if (aitisa_tensor_size(t) != n) mc::fail("%s: the output reports %lld elements, expected %lld", what, (long long)aitisa_tensor_size(t), (long long)n);
  auto m = maps.find(aitisa_tensor_data(t));
  if (m == maps.end() || m->second < (size_t)n * es) mc::fail("%s: output buffer too small", what);
  std::vector<uint8_t> w; for (int i = 0; i < 256; i++) w.insert(w.end(), e.data.begin(), e.data.end());
  const uint8_t* p = (const uint8_t*)m->first; size_t total = (size_t)n * es;
  for (size_t o = 0; o < total; o += w.size()) {
    size_t k = std::min(w.size(), total - o);
    if (memcmp(p + o, w.data(), k)) for (size_t i = 0;; i++) if (p[o + i] != w[i]) mc::fail("%s: element %lld is not what it is for a small tensor", what, (long long)((o + i) / es));
  }
  mc::evals(n);
}
// The result of a case whose inputs are blocks, judged against the reference model.
static RT small(const Case& c) {
  run_value(c);
  vf::reset();
  Tensor in[5] = {}, out = nullptr;
  for (size_t i = 0; i < c.in.size(); i++) in[i] = make(c.in[i]);
  Args a(c);
  if (call(c, a, in, &out) != STATUS_SUCCESS) mc::fail("%s fails when repeated", show(c).c_str());
  RT r = snap(out);
  aitisa_destroy(&out); for (size_t i = 0; i < c.in.size(); i++) aitisa_destroy(&in[i]);
  vf::reset();
  return r;
}
// An element-wise call on tensors of shape s; b: its arguments, blocks in place of the inputs.
static void elementwise(const Case& b, const Dims& s, const Dims& out_shape, const Case* args = nullptr) {
  RT want;
  if (args) { want = b.in[0]; mc::start_once(); } else want = small(b);
  std::string what = show(b).substr(0, 40) + "... on " + show(s);
  mc::describe([=] { return what; });
  Mem mem;
  Tensor in[5] = {}, out = nullptr;
  for (size_t i = 0; i < b.in.size(); i++) in[i] = periodic(b.in[i], s);
  Case c = args ? *args : b; Args a(c);
  Status st = call(c, a, in, &out);
  if (st != STATUS_SUCCESS) mc::fail("%s: returned status %d", what.c_str(), (int)st);
  must_be_periodic(out, want, out_shape, what.c_str());
  mc::outcome(mc::mix(prod(s), b.op * 100 + b.in[0].dt));
  aitisa_destroy(&out);
  for (size_t i = 0; i < b.in.size(); i++) aitisa_destroy(&in[i]);
  if (!maps.empty()) mc::fail("%s: memory is still held after everything was destroyed", what.c_str());
}
// A call with a small output on huge inputs: want(i) is output element i as an integer.
static void reduce(Case c, const std::vector<Dims>& s, const Dims& out_shape, const std::vector<int64_t>& want) {
  std::string what = op_name[c.op]; for (auto& d : s) what += show(d);
  mc::start_once();
  mc::describe([=] { return what; });
  Mem mem;
  Tensor in[5] = {}, out = nullptr;
  for (size_t i = 0; i < c.in.size(); i++) in[i] = periodic(c.in[i], s[i]);
  Args a(c);
  Status st = call(c, a, in, &out);
  if (st != STATUS_SUCCESS) mc::fail("%s: returned status %d", what.c_str(), (int)st);
  RT r = snap(out);
  if (r.dims != out_shape) mc::fail("%s: output shape %s, expected %s", what.c_str(), show(r.dims).c_str(), show(out_shape).c_str());
  for (size_t i = 0; i < want.size(); i++) if ((is_float(r.dt) ? (int64_t)r.num(i) : r.i64(i)) != want[i]) mc::fail("%s: element %zu is %lld, expected %lld", what.c_str(), i, (long long)(is_float(r.dt) ? (int64_t)r.num(i) : r.i64(i)), (long long)want[i]);
  mc::outcome(mc::mix(hash_rt(r), c.op)); mc::evals(want.size());
  aitisa_destroy(&out);
  for (size_t i = 0; i < c.in.size(); i++) aitisa_destroy(&in[i]);
  if (!maps.empty()) mc::fail("%s: memory is still held after everything was destroyed", what.c_str());
}
}

namespace huge {
// sum of a[(oa + sa*j) % Q] * b[(ob + sb*j) % Q] over j < K, modulo 2^64
static inline uint64_t inner(const RT& a, int64_t oa, int64_t sa, const RT& b, int64_t ob, int64_t sb, int64_t K) {
  uint64_t full = 0, part = 0;
  for (int64_t j = 0; j < Q; j++) {
    uint64_t t = (uint64_t)a.i64((int64_t)((oa + (__int128)sa * j) % Q)) * (uint64_t)b.i64((int64_t)((ob + (__int128)sb * j) % Q));
    full += t; if (j < K % Q) part += t;
  }
  return full * (uint64_t)(K / Q) + part;
}
static inline int64_t wrap(int dt, uint64_t v) { RT t(dt, {1}); t.set_i64(0, (int64_t)v); return t.i64(0); }
// out[i] = inner product of row r of a and column c of b: a {rows.., K}, b {batch, K, N} (either may be a plain vector)
static void products(Op op, int dt, const Dims& sa, const Dims& sb, const Dims& out) {
  Case c = mk(op, {block(dt, P_SMALL, 1), block(dt, P_POS, 2)});
  int64_t K = sa.back(), R = prod(sa) / K, N = sb.size() > 1 ? sb.back() : 1, B = prod(sb) / K / N;
  std::vector<int64_t> want;
  bool batched = op == MATMUL;      // matmul of {K} or {R, K} with {B, K, N}: output {B, (R,) N}
  for (int64_t i = 0; i < R * B * N; i++) {
    int64_t r = batched ? i / N % R : i / (B * N), q = batched ? i / N / R : i / N % B, n = i % N;
    want.push_back(wrap(dt, inner(c.in[0], r * K, 1, c.in[1], q * K * N + n, N, K)));
  }
  reduce(c, {sa, sb}, out, want);
}
// out[i] = a[i] * b[0] (swap: a[0] * b[i])
static void scaled(Op op, int dt, const Dims& sa, const Dims& sb, const Dims& out, bool swap) {
  Case c = mk(op, {block(dt, P_SMALL, 1), block(dt, P_POS, 2)});
  RT want = c.in[swap];
  for (int64_t i = 0; i < Q; i++) want.set_i64(i, want.i64(i) * c.in[!swap].i64(0));
  mc::start_once();
  std::string what = std::string(op_name[op]) + show(sa) + show(sb);
  mc::describe([=] { return what; });
  Mem mem;
  Tensor in[2] = {periodic(c.in[0], sa), periodic(c.in[1], sb)}, o = nullptr; Args a(c);
  Status st = call(c, a, in, &o);
  if (st != STATUS_SUCCESS) mc::fail("%s: returned status %d", what.c_str(), (int)st);
  must_be_periodic(o, want, out, what.c_str());
  mc::outcome(mc::mix(prod(out), op * 2 + swap));
  aitisa_destroy(&o); aitisa_destroy(&in[0]); aitisa_destroy(&in[1]);
  if (!maps.empty()) mc::fail("%s: memory is still held after everything was destroyed", what.c_str());
}
}
