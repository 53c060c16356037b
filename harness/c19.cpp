// Running out of memory at any point is reported and contained.
// Every request a call makes is refused in turn, alone and together with all later ones.
#include "spaces.h"

static void still_the_callers(const Case& c, Live& l, const std::vector<uint8_t>& buf, const std::string& when) {
  if (c.op != CREATE || c.n64 < 0) return;
  size_t m = 0;
  if (!vf::owns(l.a.buf, &m)) mc::fail("%s: the caller's buffer was released", when.c_str());
  if (memcmp(buf.data(), l.a.buf, buf.size())) mc::fail("%s: the caller's buffer was written to", when.c_str());
}
static void settle() { vf::reset_env(); vf::rand_hook = [] { return 0; }; }

static void one(const Case& c, const Expect& e) {
  for (auto& t : c.in) if (t.dims.size() > 1000 && !mc::thorough()) mc::skip();
  // without faults: how many requests, and what comes out
  vf::reset(); settle();
  long n; Status st0; RT normal; bool own = c.op == CREATE && c.n64 >= 0;
  {
    Live l(c); vf::begin();
    st0 = l.go(); n = vf::requests;
    if (st0 == STATUS_SUCCESS) normal = snap(l.out);
  }
  vf::reset();
  if (n == 0) { mc::outcome(c.op); return; }
  bool plain = !(c.op == CREATE && c.n64 < 0);
  long k = mc::choose((int)n);
  bool persistent = mc::choose(2);
  Tensor sentinel = (mc::tier_thorough() ? mc::choose(2) : (k + persistent) & 1) ? (Tensor)0x1230 : nullptr;
  std::string when = mc::fmt("%s with request %ld of %ld refused%s", show(c).c_str(), k + 1, n, persistent ? " and every later one" : "");
  mc::describe([&] { return when + (sentinel ? ", output handle set" : ", output handle null"); });
  settle();
  size_t zero = vf::live();
  Live l(c);
  Live::Snap before = l.snapshot();
  std::vector<uint8_t> buf;
  if (own) { size_t m = 0; vf::owns(l.a.buf, &m); buf.assign((uint8_t*)l.a.buf, (uint8_t*)l.a.buf + m); }
  size_t held = vf::live();
  vf::begin(); vf::fail_at = k; vf::fail_persistent = persistent;
  l.out = sentinel;
  Status s = l.go();
  vf::begin();
  std::string d = l.changed(before);
  if (!d.empty()) mc::fail("%s: %s", when.c_str(), d.c_str());
  bool taken = false;
  if (s == STATUS_SUCCESS) {
    if (st0 != STATUS_SUCCESS) mc::fail("%s: succeeded, though the request is rejected when there is memory", when.c_str());
    if (!l.out || l.out == sentinel) mc::fail("%s: success without an output", when.c_str());
    if (plain) { d = differs(normal, snap(l.out)); if (!d.empty()) mc::fail("%s: success, but %s", when.c_str(), d.c_str()); }
    d = well_formed(l.out);
    if (!d.empty()) mc::fail("%s: success, but %s", when.c_str(), d.c_str());
    taken = own;
    aitisa_destroy(&l.out);
    if (vf::live() != held - taken) mc::fail("%s: success; %zu blocks held before, %zu after destroying the result:%s", when.c_str(), held - taken, vf::live(), vf::dump().c_str());
  } else {
    if (s != STATUS_ALLOC_FAILED && s != st0) mc::fail("%s: returned status %d (%s), expected %s", when.c_str(), (int)s, (unsigned)s < 9 ? st_name[s] : "?", st_name[STATUS_ALLOC_FAILED]);
    if (l.out != sentinel) mc::fail("%s: failed, but the output handle was changed", when.c_str());
    still_the_callers(c, l, buf, when);
    if (vf::live() != held) mc::fail("%s: failed; %zu blocks held before and %zu after:%s", when.c_str(), held, vf::live(), vf::dump().c_str());
    // again, with memory
    settle(); l.out = nullptr;
    Status s2 = l.go();
    if (s2 != st0) mc::fail("%s: the same call made again with memory available returned status %d instead of %d", when.c_str(), (int)s2, (int)st0);
    if (s2 == STATUS_SUCCESS) {
      if (plain) { d = differs(normal, snap(l.out)); if (!d.empty()) mc::fail("%s: the same call made again with memory available: %s", when.c_str(), d.c_str()); }
      aitisa_destroy(&l.out); taken = own;
    } else if (l.out) mc::fail("%s: rejected the second time, but the output handle was set", when.c_str());
    d = l.changed(before);
    if (!d.empty()) mc::fail("%s: after the second call %s", when.c_str(), d.c_str());
    if (vf::live() != held - taken) mc::fail("%s: after the second call %zu blocks are held instead of %zu:%s", when.c_str(), vf::live(), held - taken, vf::dump().c_str());
  }
  if (own && !taken) aitisa_default_cpu_allocator()->raw_dealloc(l.a.buf);
  l.drop_inputs();
  if (vf::live() != zero) mc::fail("%s: %zu blocks left over:%s", when.c_str(), vf::live(), vf::dump().c_str());
  mc::outcome(mc::mix(mc::mix(c.op, k * 64 + n), persistent * 2 + (s == STATUS_SUCCESS)));
  mc::evals(4);
  vf::reset();
}

template <int OP> static void op() { Case c; gen((Op)OP, SMALL, c); Expect e; one(c, e); }
static void catalog() { Op o = mc::pick(all_ops); mc::start_once(); Case c; gen(o, TINY, c); Expect e; one(c, e); }

// A sequence of calls in which one request, or all from some point on, is refused: every call that fails is made
// again later, and the end result is that of the undisturbed sequence.
static const char* const prog_name[] = {"cast, matmul, softmax", "dot, reshape, slice, squeeze", "conv, pool, relu", "full, add, sqrt, div", "batch_norm, tanh, duplicate", "batched matmul, max pool, batch_norm over the last axis"};
static Case prog(int p, int i, const std::vector<RT>& r) {
  Case c;
  auto P = [](size_t n, int v) { return std::vector<int>(n, v); };
  switch (p * 10 + i) {
    case 0: c = mk(CAST, {mkrt(TYPE_INT16, {2, 2, 3}, P_SMALL, 1)}); c.tdt = TYPE_FLOAT; break;
    case 1: c = mk(MATMUL, {r[0], mkrt(TYPE_FLOAT, {3, 2}, P_SMALL, 2)}); break;
    case 2: c = mk(SOFTMAX, {r[1]}); c.axis = 2; break;
    case 10: c = mk(DOT, {mkrt(TYPE_INT64, {2, 1, 3}, P_SMALL, 1), mkrt(TYPE_INT64, {1, 3, 2}, P_SMALL, 2)}); break;
    case 11: c = mk(RESHAPE, {r[0]}); c.a64 = {2, 1, 2}; break;
    case 12: c = mk(SLICE, {r[1]}); c.p[0] = {0, 0, 1}; c.p[1] = {2, 1, 1}; c.p[2] = {1, 1, 1}; break;
    case 13: c = mk(SQUEEZE, {r[2]}); break;
    case 20: c = mk(CONV, {mkrt(TYPE_FLOAT, {1, 2, 4, 3}, P_SMALL, 1), mkrt(TYPE_FLOAT, {2, 1, 2, 2}, P_SMALL, 2)}); c.p[0] = P(2, 1); c.p[1] = P(2, 0); c.p[2] = P(2, 1); c.groups = 2; break;
    case 21: c = mk(POOL, {r[0]}); c.mode = "avg"; c.p[0] = P(2, 2); c.p[1] = P(2, 1); c.p[2] = P(2, 1); c.p[3] = P(2, 1); break;
    case 22: c = mk(RELU, {r[1]}); break;
    case 30: c.op = FULL; c.a64 = {2, 2}; c.d = 3; c.tdt = TYPE_INT8; break;
    case 31: c = mk(ADD, {r[0], mkrt(TYPE_INT8, {2, 2}, P_POS, 2)}); break;
    case 32: c = mk(SQRT, {r[1]}); break;
    case 33: c = mk(DIV, {r[1], r[0]}); break;
    case 40: case 52: { RT x = p == 4 ? mkrt(TYPE_DOUBLE, {2, 3}, P_SMALL, 1) : r[1]; int ax = p == 4 ? 1 : 3; int64_t ch = x.dims[ax]; c = mk(BN, {x, mkrt(x.dt, {ch}, P_SMALL, 2), mkrt(x.dt, {ch}, P_SMALL, 3), mkrt(x.dt, {ch}, P_SMALL, 4), mkrt(x.dt, {ch}, P_POS, 5)}); c.axis = ax; c.d = 1; break; }
    case 41: c = mk(TANH, {r[0]}); break;
    case 42: c = mk(DUP, {r[1]}); break;
    case 50: c = mk(MATMUL, {mkrt(TYPE_FLOAT, {2, 1, 2, 3}, P_SMALL, 1), mkrt(TYPE_FLOAT, {3, 3, 2}, P_SMALL, 2)}); break;
    case 51: c = mk(POOL, {r[0]}); c.mode = "max"; c.p[0] = P(2, 2); c.p[1] = P(2, 1); c.p[2] = P(2, 1); c.p[3] = P(2, 1); break;
  }
  return c;
}
static const int prog_len[] = {3, 4, 3, 4, 3, 3};
static void programs() {
  int p = mc::choose(6); mc::start();
  // undisturbed
  vf::reset(); settle();
  std::vector<RT> want; long total = 0;
  for (int i = 0; i < prog_len[p]; i++) {
    Live l(prog(p, i, want)); vf::begin();
    if (l.go() != STATUS_SUCCESS) mc::fail("%s fails", show(l.c).c_str());
    total += vf::requests;
    want.push_back(snap(l.out));
    vf::reset();
  }
  long k = mc::choose((int)total); bool persistent = mc::choose(2);
  // up to two refusals: a second one, a few requests later
  int second = persistent ? 0 : mc::choose(mc::tier_thorough() ? 40 : 12);
  mc::describe([&] { return mc::fmt("%s with request %ld of %ld refused%s", prog_name[p], k + 1, total, persistent ? " and every later one of that call" : second ? mc::fmt(", and the one %d after it", second).c_str() : ""); });
  vf::reset(); settle();
  std::vector<RT> got; long used = 0; long next = k; int failed = 0;
  std::vector<Tensor> keep;
  for (int i = 0; i < prog_len[p]; i++) {
    Live l(prog(p, i, got));
    size_t held = vf::live();
    for (int attempt = 0;; attempt++) {
      vf::begin();
      if (next >= used) { vf::fail_at = next - used; vf::fail_persistent = persistent; }
      Status s = l.go();
      long r = vf::requests; bool hit = vf::fail_at >= 0 && r > vf::fail_at;
      vf::begin();
      used += r;
      if (hit) { failed++; next = second && failed == 1 ? next + second : -1; if (next >= 0 && next < used) next = -1; }
      if (s == STATUS_SUCCESS) break;
      if (!hit || s != STATUS_ALLOC_FAILED) mc::fail("%s, step %d, attempt %d: status %d", prog_name[p], i, attempt + 1, (int)s);
      if (vf::live() != held) mc::fail("%s, step %d: a refused request left %zu blocks instead of %zu:%s", prog_name[p], i, vf::live(), held, vf::dump().c_str());
      if (l.out) mc::fail("%s, step %d: failed, but the output handle was set", prog_name[p], i);
    }
    got.push_back(snap(l.out));
    std::string d = differs(want[i], got[i]);
    if (!d.empty()) mc::fail("%s, step %d, with request %ld refused: %s", prog_name[p], i, k + 1, d.c_str());
    l.drop_inputs();
    keep.push_back(l.out);
  }
  for (size_t i = 0; i < keep.size(); i++) { std::string d = differs(want[i], snap(keep[i])); if (!d.empty()) mc::fail("%s: a refused request changed an earlier result: %s", prog_name[p], d.c_str()); aitisa_destroy(&keep[i]); }
  if (vf::live()) mc::fail("%s: %zu blocks left over:%s", prog_name[p], vf::live(), vf::dump().c_str());
  mc::outcome(mc::mix(p, k * 128 + second * 2 + persistent)); mc::evals(prog_len[p]);
  vf::reset();
}

// 70000 calls in a row run out of memory, at each request in turn; then there is memory again.
static void long_history() {
  Op op = mc::pick(all_ops); auto& v = catalogue(op); mc::start();
  const Case& c = v[mc::choose((int)v.size())];
  if (c.op == CREATE && c.n64 >= 0) mc::skip();
  mc::describe([&] { return show(c) + ", 70000 times with one request or all from it refused"; });
  vf::reset(); settle();
  size_t zero = vf::live();
  Live l(c);
  vf::begin();
  Status st0 = l.go(); long n = vf::requests; RT normal;
  if (st0 != STATUS_SUCCESS || !n) { vf::reset(); mc::skip(); }
  normal = snap(l.out); aitisa_destroy(&l.out);
  size_t held = vf::live();
  for (int k = 0; k < 70000; k++) {
    vf::begin(); vf::fail_at = k % n; vf::fail_persistent = (k / n) & 1; l.out = nullptr;
    Status s = l.go();
    if (s == STATUS_SUCCESS) aitisa_destroy(&l.out);
    else if (s != STATUS_ALLOC_FAILED || l.out) mc::fail("%s: out of memory for the time %d: status %d%s", show(c).c_str(), k + 1, (int)s, l.out ? ", output handle set" : "");
    if (vf::live() != held) mc::fail("%s: out of memory for the time %d: %zu blocks held before and %zu after", show(c).c_str(), k + 1, held, vf::live());
  }
  vf::begin(); settle(); l.out = nullptr;
  if (l.go() != STATUS_SUCCESS) mc::fail("%s fails with memory after 70000 calls without", show(c).c_str());
  std::string d = c.op == CREATE ? "" : differs(normal, snap(l.out));
  if (!d.empty()) mc::fail("%s after 70000 calls without memory: %s", show(c).c_str(), d.c_str());
  aitisa_destroy(&l.out); l.drop_inputs();
  if (vf::live() != zero) mc::fail("%s: %zu blocks left over", show(c).c_str(), vf::live());
  mc::outcome(hash_rt(normal) + c.op); mc::evals(70000);
  vf::reset();
}
// An allocator that can only ever hold so many bytes: every budget from nothing to plenty.
static void budgets() {
  Op o = mc::pick(all_ops); mc::start();
  const auto& cat = catalogue(o);
  const Case& c = cat[mc::choose((int)cat.size())];
  vf::reset(); settle();
  RT normal; size_t peak; bool ok;
  size_t base;
  {
    Live l(c); base = vf::bytes(); vf::begin(); vf::peak = base;
    ok = l.go() == STATUS_SUCCESS; peak = vf::peak - base;
    if (ok) normal = snap(l.out);
  }
  vf::reset();
  if (!ok) mc::skip();
  int steps = mc::tier_thorough() ? 48 : 14;
  size_t budget = peak * mc::choose(steps + 1) / steps;
  mc::describe([&] { return show(c) + mc::fmt(" with %zu of %zu bytes", budget, peak); });
  settle();
  Live l(c); size_t held = vf::live(); Live::Snap before = l.snapshot();
  vf::begin(); vf::budget = vf::bytes() + budget;
  Status s = l.go();
  vf::begin();
  bool own = c.op == CREATE && c.n64 >= 0;
  if (s == STATUS_SUCCESS) {
    if (!(c.op == CREATE && c.n64 < 0)) { std::string d = differs(normal, snap(l.out)); if (!d.empty()) mc::fail("%s with %zu of %zu bytes: %s", show(c).c_str(), budget, peak, d.c_str()); }
    aitisa_destroy(&l.out); held -= own;
  } else {
    if (s != STATUS_ALLOC_FAILED) mc::fail("%s with %zu of %zu bytes: status %d", show(c).c_str(), budget, peak, (int)s);
    if (l.out) mc::fail("%s with %zu of %zu bytes: failed, but the output handle was set", show(c).c_str(), budget, peak);
  }
  if (budget == peak && s != STATUS_SUCCESS) mc::fail("%s fails with exactly the bytes it used before", show(c).c_str());
  if (vf::live() != held) mc::fail("%s with %zu of %zu bytes: %zu blocks held instead of %zu:%s", show(c).c_str(), budget, peak, vf::live(), held, vf::dump().c_str());
  std::string d = l.changed(before);
  if (!d.empty()) mc::fail("%s with %zu of %zu bytes: %s", show(c).c_str(), budget, peak, d.c_str());
  mc::outcome(mc::mix(mc::mix(o, budget), s)); mc::evals(2);
  vf::reset();
}

int main(int argc, char** argv) {
  mc::Check c{"C19", "fault_enumeration", {
    {"catalogue", catalog, "the catalogue of valid calls of all 24 entry points x every request refused, alone or with all later ones x output handle null or not (in turn; thorough: both)"},
    {"programs", programs, "6 programs of 3-4 dependent calls x every request refused, alone, with all later ones, or with a second one up to 11 (thorough 39) requests later; failed calls are made again"},
    {"long_history", long_history, "the catalogue, each call made 70000 times running out of memory at each request in turn, then with memory", 200},
    {"budgets", budgets, "the catalogue x 15 (thorough 49) byte budgets from nothing to what the call needs"},
#define S(o) {#o, op<o>, "every request of the small space of this operation, valid or not x every refused request, alone or with all later ones x output handle null or not (in turn; thorough: both)"},
    S(ADD) S(DIV) S(CAST) S(RESHAPE) S(SQUEEZE) S(DUP) S(SLICE) S(FULL) S(CREATE) S(MATMUL) S(DOT) S(SQRT) S(RELU) S(SIGMOID) S(TANH) S(SOFTMAX) S(POOL) S(CONV) S(CONV2D) S(CONV3D) S(BN) S(DROPOUT)
  }, {"an allocation function refuses a request by returning NULL", "accesses to memory that was never obtained are judged by AddressSanitizer and the MMU"}};
  add_spaces(c, one, {"C06/many_dimensions", "C08/many_dimensions", "C10/many_dimensions", "C11/many_dimensions", "C15/many_dimensions", "C06/no_elements", "C07/no_elements", "C10/no_elements", "C11/no_elements", "C12/no_elements", "C13/no_elements", "C15/no_elements", "C16/no_elements", "C14/no_batches", "C08/high_rank", "C12/groups", "C12/ranks", "C13/ranks", "C14/axes_ranks", "C10/ranks_0_3"},
    {"*/very_long", "*/mid_sizes", "*/patterns", "*/words", "*/lengths", "*/long", "C13/extreme_parameters", "C14/magnitudes", "C14/argument_shapes", "C14/negative_variance", "C14/type_combinations", "C15/equal_large", "C08/longer", "C14/shapes", "C14/shared", "C13/shared", "C12/channels", "C08/four_dim"}, {"C16/all_16_bit", "C16/float_patterns", "C16/double_patterns", "C06/float_patterns", "C16/grid", "C05/bytes", "C05/boundary", "C16/negatives", "C16/wide_integers", "C16/special", "C06/small_ints", "C06/wide_ints", "C06/reals",
      "C15/extreme_triples", "C15/dominating", "C10/not_finite", "*/plain_contents", "C10/unit_contents", "C11/not_finite", "C11/unit_contents", "C12/not_finite", "C12/unit_contents", "C13/unit_contents", "C14/unit_contents"});
  return mc::run(argc, argv, c);
}
