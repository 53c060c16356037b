// Operations are pure: inputs untouched, outputs fresh, no history, no garbage.
// Judged against the operation's own result under other circumstances (and against the reference model for sequences).
#include "spaces.h"
#include <algorithm>

static int zero_answer() { return 0; }
static bool ok_case(const Expect& e) { return e.ok; }
static void fix_random() { vf::reset_env(); vf::rand_hook = zero_answer; }

static std::string bytes_differ(const RT& a, const RT& b) { return differs(a, b); }

// What the call gives on its own, in fresh memory.
static bool value_of(const Case& c, RT* out, int fill_mode = vf::FILL_A5) {
  fix_random();
  int old = vf::fill_mode; vf::fill_mode = fill_mode;
  Live l(c);
  Status s = l.go();
  bool ok = s == STATUS_SUCCESS && l.out;
  if (ok) { *out = snap(l.out); aitisa_destroy(&l.out); }
  l.drop_inputs();
  vf::fill_mode = old;
  return ok;
}
static bool has_data(const Case& c) { return !(c.op == CREATE && c.n64 < 0); }   // contents of an unfilled tensor are nobody's promise

// Inputs and parameters keep their contents and identity; the result shares nothing with them.
static void untouched(const Case& c) {
  vf::reset(); fix_random();
  mc::describe([&] { return show(c) + ": inputs before and after, writes to one side looked for on the other"; });
  Live l(c);
  Live::Snap before = l.snapshot();
  Tensor garbage = mc::choose(2) ? (Tensor)0x1230 : nullptr;   // what the output handle held before is irrelevant
  l.out = garbage;
  if (l.go() != STATUS_SUCCESS) { vf::reset(); mc::skip(); }
  if (!l.out || l.out == garbage) mc::fail("%s: success without an output", show(c).c_str());
  std::string d = l.changed(before);
  if (!d.empty()) mc::fail("%s: %s", show(c).c_str(), d.c_str());
  for (size_t i = 0; i < c.in.size(); i++) if (l.out == l.in[i]) mc::fail("%s: the result is input %zu itself", show(c).c_str(), i);
  RT r = snap(l.out);
  // write over the result: no input changes
  if (!r.data.empty()) memset(aitisa_tensor_data(l.out), 0x5C, r.data.size());
  for (int64_t i = 0; i < aitisa_tensor_ndim(l.out); i++) aitisa_tensor_dims(l.out)[i] ^= 0x40;
  d = l.changed(before);
  if (!d.empty()) mc::fail("%s: after writing to the result, %s", show(c).c_str(), d.c_str());
  for (int64_t i = 0; i < aitisa_tensor_ndim(l.out); i++) aitisa_tensor_dims(l.out)[i] ^= 0x40;
  if (!r.data.empty()) memcpy(aitisa_tensor_data(l.out), r.data.data(), r.data.size());
  // write over and destroy the inputs and parameters: the result does not change
  for (size_t i = 0; i < c.in.size(); i++) {
    if (!c.in[i].data.empty()) memset(aitisa_tensor_data(l.in[i]), 0xC5, c.in[i].data.size());
    for (int64_t k = 0; k < aitisa_tensor_ndim(l.in[i]); k++) aitisa_tensor_dims(l.in[i])[k] = 1;
  }
  if (l.a.a64) for (size_t i = 0; i < c.a64.size(); i++) l.a.a64[i] = -9;
  for (int k = 0; k < 4; k++) for (size_t i = 0; i < c.p[k].size(); i++) l.a.p[k][i] = -9;
  d = bytes_differ(r, snap(l.out));
  if (!d.empty()) mc::fail("%s: after overwriting the inputs and parameters the result changed: %s", show(c).c_str(), d.c_str());
  l.drop_inputs();
  d = bytes_differ(r, snap(l.out));
  if (d.empty()) d = well_formed(l.out);
  if (!d.empty()) mc::fail("%s: after destroying the inputs the result changed: %s", show(c).c_str(), d.c_str());
  mc::outcome(hash_rt(r) + c.op); mc::evals(3);
  vf::reset();
}

// The same call with fresh memory holding other bytes, and with recycled memory.
static void memory(const Case& c) {
  vf::reset();
  mc::describe([&] { return show(c) + ": fresh memory holding A5, 00, FF and a counter, and recycled memory"; });
  RT first;
  if (!value_of(c, &first)) { vf::reset(); mc::skip(); }
  if (has_data(c)) {
    for (int m = 1; m < 4; m++) {
      RT r;
      if (!value_of(c, &r, m)) mc::fail("%s: fails when fresh memory holds other bytes", show(c).c_str());
      std::string d = bytes_differ(first, r);
      if (!d.empty()) mc::fail("%s: the result depends on what fresh memory held: %s", show(c).c_str(), d.c_str());
    }
    vf::recycle = true;
    for (int m = 0; m < 3; m++) {
      RT r;
      if (!value_of(c, &r, m)) mc::fail("%s: fails in recycled memory", show(c).c_str());
      std::string d = bytes_differ(first, r);
      if (!d.empty()) mc::fail("%s: the result depends on recycled memory (round %d): %s", show(c).c_str(), m, d.c_str());
    }
    vf::recycle = false;
  }
  mc::outcome(hash_rt(first) + c.op); mc::evals(6);
  vf::reset();
}

// Other contents of the same shape: what a result cached by address or shape would get wrong.
static Case perturb(const Case& c, int salt) {
  Case v = c; v.shared = false;
  for (size_t i = 0; i < v.in.size(); i++) {
    bool positive = v.op == SQRT || v.op == DIV || (v.op == BN && i == 4);
    RT& t = v.in[i];
    fill(t, positive ? P_POS : P_SMALL, 50 + salt * 7 + (int)i);
  }
  if (v.op == FULL) v.d = 11 + salt;
  return v;
}

// The same handle again after its contents changed; and another tensor at the same address.
static void reuse(const Case& c) {
  Case v = perturb(c, 1);
  Expect e2 = ref_eval(v);
  if (!e2.ok || c.in.empty() || !has_data(c)) mc::skip();
  int how = mc::choose(3);
  mc::describe([&] { return show(c) + (how == 0 ? ": again on the same handles with other contents" : how == 1 ? ": again on new tensors at recycled addresses" : ": again with the first result still alive"); });
  vf::reset(); fix_random();
  RT alone;
  if (!value_of(v, &alone)) { vf::reset(); mc::skip(); }
  fix_random();
  vf::recycle = how == 1;
  RT got;
  {
    Live l(c);
    if (l.go() != STATUS_SUCCESS) { vf::recycle = false; vf::reset(); mc::skip(); }
    RT r1 = snap(l.out); Tensor keep = nullptr;
    if (how == 2) { keep = l.out; l.out = nullptr; } else aitisa_destroy(&l.out);
    if (how == 1) { l.drop_inputs(); for (size_t i = c.in.size(); i-- > 0;) l.in[i] = make(v.in[i]); }
    else for (size_t i = 0; i < c.in.size(); i++) memcpy(aitisa_tensor_data(l.in[i]), v.in[i].data.data(), v.in[i].data.size());
    fix_random();
    if (l.go() != STATUS_SUCCESS) mc::fail("%s: fails the second time", show(v).c_str());
    got = snap(l.out);
    if (keep) { std::string d = bytes_differ(r1, snap(keep)); if (!d.empty()) mc::fail("%s: a second call changed the first result: %s", show(v).c_str(), d.c_str()); }
  }
  vf::recycle = false;
  std::string d = bytes_differ(alone, got);
  if (!d.empty()) mc::fail("%s: after the same call with other contents: %s", show(v).c_str(), d.c_str());
  mc::outcome(hash_rt(got) + how); mc::evals(1);
  vf::reset();
}

// One tensor in several argument positions.
static void aliased(const Case& c0) {
  Case c = c0;
  std::vector<std::pair<int, int>> pairs;
  for (size_t i = 0; i < c.in.size(); i++) for (size_t j = i + 1; j < c.in.size(); j++) if (c.in[i].dt == c.in[j].dt && c.in[i].dims == c.in[j].dims) pairs.push_back({(int)i, (int)j});
  if (pairs.empty()) mc::skip();
  auto p = pairs[mc::choose((int)pairs.size())];
  if (c.op == DIV || (c.op == BN && p.second == 4)) c.in[p.first] = c.in[p.second]; else c.in[p.second] = c.in[p.first];
  if (!ref_eval(c).ok) mc::skip();
  mc::describe([&] { return show(c) + mc::fmt(": arguments %d and %d are one tensor", p.first, p.second); });
  vf::reset(); fix_random();
  RT alone;
  if (!value_of(c, &alone)) { vf::reset(); mc::skip(); }
  fix_random();
  Live l(c);
  Live::Snap s = l.snapshot();
  Tensor other = l.in[p.second]; l.in[p.second] = l.in[p.first];
  if (l.go() != STATUS_SUCCESS) mc::fail("%s: fails when arguments %d and %d are one tensor", show(c).c_str(), p.first, p.second);
  std::string d = bytes_differ(alone, snap(l.out));
  if (!d.empty()) mc::fail("%s: differs when arguments %d and %d are one tensor: %s", show(c).c_str(), p.first, p.second, d.c_str());
  l.in[p.second] = other;
  d = l.changed(s);
  if (!d.empty()) mc::fail("%s: %s", show(c).c_str(), d.c_str());
  mc::outcome(hash_rt(alone)); mc::evals(1);
  vf::reset();
}

// The output handle is the variable that held an input.
static void overwriting(const Case& c) {
  if (c.in.empty() || !has_data(c)) mc::skip();
  int i = mc::choose((int)c.in.size());
  mc::describe([&] { return show(c) + mc::fmt(": the output handle is the variable of input %d", i); });
  vf::reset(); fix_random();
  RT alone;
  if (!value_of(c, &alone)) { vf::reset(); mc::skip(); }
  fix_random();
  Live l(c);
  Live::Snap s = l.snapshot();
  Tensor held = l.in[i];
  Tensor ins[5]; for (int k = 0; k < 5; k++) ins[k] = l.in[k];
  Status st = call(c, l.a, ins, &ins[i]);
  if (st != STATUS_SUCCESS) mc::fail("%s: fails when the output handle is the variable of input %d", show(c).c_str(), i);
  if (ins[i] == held) mc::fail("%s: the result is input %d itself", show(c).c_str(), i);
  std::string d = bytes_differ(alone, snap(ins[i]));
  if (!d.empty()) mc::fail("%s: differs when the output handle is the variable of input %d: %s", show(c).c_str(), i, d.c_str());
  d = l.changed(s);
  if (!d.empty()) mc::fail("%s: output handle in the variable of input %d: %s", show(c).c_str(), i, d.c_str());
  mc::outcome(hash_rt(alone) + i); mc::evals(1);
  vf::reset();
}

template <int OP> static void g_untouched() { Case c; gen((Op)OP, SMALL, c); if (!ok_case(ref_eval(c))) mc::skip(); untouched(c); }
template <int OP> static void g_memory() { Case c; gen((Op)OP, SMALL, c); if (!ok_case(ref_eval(c))) mc::skip(); memory(c); }
static void pick_case(Case& c) { Op o = mc::pick(all_ops); mc::start_once(); gen(o, TINY, c); if (!ok_case(ref_eval(c))) mc::skip(); }
static void k_untouched() { Case c; pick_case(c); untouched(c); }
static void k_memory() { Case c; pick_case(c); memory(c); }
static void k_reuse() { Case c; pick_case(c); reuse(c); }
static void k_aliased() { Case c; pick_case(c); aliased(c); }
static void k_overwriting() { Case c; pick_case(c); overwriting(c); }
static void s_reuse_all(const Case& c) { reuse(c); }
template <int OP> static void g_reuse() { Case c; gen((Op)OP, SMALL, c); if (!ok_case(ref_eval(c))) mc::skip(); reuse(c); }
template <int OP> static void g_aliased() { Case c; gen((Op)OP, SMALL, c); aliased(c); }

// Call X, then call Y: Y gives what it gives alone, and X's result is not disturbed.
static std::vector<Case> g_y; static std::vector<RT> g_yv;
static void prepare() {
  if (!g_y.empty()) return;
  for (Op o : all_ops) { int n = 0; for (auto& c : catalogue(o)) if (has_data(c) && ++n) g_y.push_back(c); }
  for (auto& c : g_y) { RT r; if (!value_of(c, &r)) r.dims = {-1}; g_yv.push_back(r); }
  vf::reset();
}
static void pairs() {
  prepare();
  Op ox = mc::pick(all_ops), oy = mc::pick(all_ops); mc::start();
  std::vector<int> X, Y;
  for (size_t i = 0; i < g_y.size(); i++) { if (g_y[i].op == ox) X.push_back(i); if (g_y[i].op == oy) Y.push_back(i); }
  int x = mc::pick(X), y = mc::pick(Y);
  if (g_yv[x].dims == Dims{-1} || g_yv[y].dims == Dims{-1}) mc::skip();
  mc::describe([&] { return show(g_y[x]) + " then " + show(g_y[y]); });
  vf::reset(); vf::fill_mode = vf::FILL_COUNTER;
  fix_random();
  Live a(g_y[x]);
  if (a.go() != STATUS_SUCCESS) mc::fail("%s fails", show(g_y[x]).c_str());
  Live b(g_y[y]);
  Live::Snap sa = a.snapshot();
  if (b.go() != STATUS_SUCCESS) mc::fail("%s fails after %s", show(g_y[y]).c_str(), show(g_y[x]).c_str());
  std::string d = bytes_differ(g_yv[y], snap(b.out));
  if (!d.empty()) mc::fail("%s after %s: %s", show(g_y[y]).c_str(), show(g_y[x]).c_str(), d.c_str());
  d = bytes_differ(g_yv[x], snap(a.out));
  if (!d.empty()) mc::fail("%s changed the result of an earlier %s: %s", show(g_y[y]).c_str(), show(g_y[x]).c_str(), d.c_str());
  d = a.changed(sa);
  if (!d.empty()) mc::fail("%s changed the inputs of an earlier %s: %s", show(g_y[y]).c_str(), show(g_y[x]).c_str(), d.c_str());
  mc::outcome(mc::mix(hash_rt(g_yv[x]), hash_rt(g_yv[y]))); mc::evals(3);
  vf::fill_mode = vf::FILL_A5;
  vf::reset();
}

// X, then Y of the same operation with its tensors and parameter arrays at X's addresses: nothing remembered by address.
static void addresses() {
  prepare();
  Op o = mc::pick(all_ops);
  std::vector<int> X;
  for (size_t i = 0; i < g_y.size(); i++) if (g_y[i].op == o && g_yv[i].dims != Dims{-1}) X.push_back(i);
  int x = mc::pick(X); mc::start();
  int y = mc::pick(X), how = mc::choose(2);
  const Case &cx = g_y[x], &cy = g_y[y];
  if (how) { if (cx.in.size() != cy.in.size() || cx.in.empty()) mc::skip(); for (size_t i = 0; i < cx.in.size(); i++) if (cx.in[i].dt != cy.in[i].dt || cx.in[i].dims != cy.in[i].dims || cx.in[i].dev != cy.in[i].dev) mc::skip(); }
  mc::describe([&] { return show(cx) + " then " + show(cy) + (how ? " on the same handles" : " on tensors at recycled addresses") + ", parameter arrays at the same addresses"; });
  vf::reset(); fix_random(); vf::recycle = true; fixed_args = true;
  auto off = [] { vf::recycle = false; fixed_args = false; };
  Tensor kept[5] = {};
  {
    Live a(cx);
    if (a.go() != STATUS_SUCCESS) { off(); mc::fail("%s fails", show(cx).c_str()); }
    aitisa_destroy(&a.out);
    if (how) for (size_t i = 0; i < cx.in.size(); i++) { kept[i] = a.in[i]; if (!cy.in[i].data.empty()) memcpy(aitisa_tensor_data(kept[i]), cy.in[i].data.data(), cy.in[i].data.size()); }
    else a.drop_inputs();
  }
  fix_random();
  Args pa(cy);
  if (!how) for (size_t i = cy.in.size(); i-- > 0;) kept[i] = make(cy.in[i]);
  Tensor out = nullptr;
  Status s = call(cy, pa, kept, &out);
  off();
  if (s != STATUS_SUCCESS) mc::fail("%s fails after %s at the same addresses", show(cy).c_str(), show(cx).c_str());
  std::string d = bytes_differ(g_yv[y], snap(out));
  if (!d.empty()) mc::fail("%s after %s at the same addresses: %s", show(cy).c_str(), show(cx).c_str(), d.c_str());
  mc::outcome(mc::mix(hash_rt(g_yv[x]), hash_rt(g_yv[y]))); mc::evals(2);
  vf::reset();
}

// X, X' (the same call with other contents), then Y, over one representative of every entry point and rank.
static void triples() {
  prepare();
  static std::vector<int> rep;
  if (rep.empty()) { int last = -1, n = 0; for (size_t i = 0; i < g_y.size(); i++) { if (g_y[i].op != last) { last = g_y[i].op; n = 0; } if (n++ % 7 == 3) rep.push_back(i); } }
  int x = mc::pick(rep), y = mc::pick(rep); mc::start();
  int z = mc::pick(rep);
  int ids[3] = {x, y, z};
  for (int i : ids) if (g_yv[i].dims == Dims{-1}) mc::skip();
  mc::describe([&] { return show(g_y[x]) + " then " + show(g_y[y]) + " then " + show(g_y[z]); });
  vf::reset(); fix_random(); vf::recycle = true;
  RT got[3];
  for (int k = 0; k < 3; k++) {
    fix_random();
    Live l(g_y[ids[k]]);
    if (l.go() != STATUS_SUCCESS) mc::fail("%s fails after other calls", show(g_y[ids[k]]).c_str());
    std::string d = bytes_differ(g_yv[ids[k]], snap(l.out));
    if (!d.empty()) mc::fail("%s as call %d: %s", show(g_y[ids[k]]).c_str(), k + 1, d.c_str());
    aitisa_destroy(&l.out); l.drop_inputs();
  }
  vf::recycle = false;
  mc::outcome(mc::mix(mc::mix(x, y), z)); mc::evals(3);
  vf::reset();
}

// Sequences over a pool of tensors, step by step against the functional model.
static std::string trail;
static void sequence() {
  const int depth = mc::tier_thorough() ? 4 : 3;
  vf::reset(); fix_random(); trail.clear();
  struct T { Tensor t; RT m; Ident id; };
  std::vector<T> pool;
  auto add = [&](const RT& r) { Tensor t = make(r); pool.push_back({t, r, ident(t)}); };
  add(mkrt(TYPE_FLOAT, {2, 2}, P_POS, 1)); add(mkrt(TYPE_FLOAT, {2, 2}, P_SMALL, 2)); add(mkrt(TYPE_INT32, {1, 2, 2}, P_SMALL, 3));
  auto verify = [&] {
    for (size_t i = 0; i < pool.size(); i++) {
      if (!pool[i].t) continue;
      std::string d = differs(pool[i].m, snap(pool[i].t));
      if (d.empty()) d = well_formed(pool[i].t);
      if (d.empty() && !same(pool[i].id, ident(pool[i].t))) d = "its identity changed";
      if (!d.empty()) mc::fail("after%s: tensor %zu: %s", trail.c_str(), i, d.c_str());
    }
    mc::evals(pool.size());
  };
  static const std::vector<Op> ops = {ADD, MUL, CAST, RESHAPE, SQUEEZE, DUP, SLICE, MATMUL, DOT, SQRT, RELU, TANH, SOFTMAX};
  for (int n = 0; n < depth; n++) {
    int k = mc::choose((int)ops.size() + 2);
    if (n == 1) mc::start();
    int x = mc::choose((int)pool.size());
    if (!pool[x].t) mc::skip();
    if (k == (int)ops.size()) { trail += mc::fmt(" destroy(%d)", x); aitisa_destroy(&pool[x].t); verify(); continue; }
    if (k == (int)ops.size() + 1) {   // write an element of one tensor
      int64_t at = mc::choose(2) ? pool[x].m.size() - 1 : 0;
      trail += mc::fmt(" set(%d,[%lld])", x, (long long)at);
      RT one(pool[x].m.dt, {1}); one.set_i64(0, 1 + n);
      aitisa_tensor_set_item(pool[x].t, at, one.data.data());
      memcpy(&pool[x].m.data[at * dsize(one.dt)], one.data.data(), dsize(one.dt));
      verify(); continue;
    }
    Case c; c.op = ops[k];
    int arity = c.op == ADD || c.op == MUL || c.op == MATMUL || c.op == DOT ? 2 : 1;
    int y = arity == 2 ? mc::choose((int)pool.size()) : x;
    if (!pool[y].t) mc::skip();
    c.in.push_back(pool[x].m); if (arity == 2) c.in.push_back(pool[y].m);
    const RT& m = pool[x].m;
    switch (c.op) {
      case CAST: c.tdt = m.dt == TYPE_INT32 ? TYPE_FLOAT : TYPE_INT32; break;
      case RESHAPE: c.a64 = {m.size()}; break;
      case SLICE: for (auto d : m.dims) { c.p[0].push_back(0); c.p[1].push_back((int)d); c.p[2].push_back(2); } break;
      case SOFTMAX: c.axis = -1; if (!is_float(m.dt)) mc::skip(); break;
      default: break;
    }
    Expect e = ref_eval(c);
    if (e.ok && is_float(m.dt) && (c.op == MATMUL || c.op == DOT)) {   // contents are no longer exact in every order of summation
      double a = 0, b = 0;
      for (int64_t i = 0; i < m.size(); i++) a = std::max(a, std::abs(m.num(i)));
      for (int64_t i = 0; i < pool[y].m.size(); i++) b = std::max(b, std::abs(pool[y].m.num(i)));
      for (auto& t : e.tol) t = 1e-5 * (1 + a * b);
    }
    trail += mc::fmt(" %s(%d", op_name[c.op], x) + (arity == 2 ? mc::fmt(",%d)", y) : ")");
    Tensor in[2] = {pool[x].t, pool[y].t}, out = nullptr;
    Args a(c);
    Status s = call(c, a, in, &out);
    if (e.ok != (s == STATUS_SUCCESS)) mc::fail("after%s: status %d, expected %s", trail.c_str(), (int)s, e.ok ? "success" : "a rejection");
    if (s == STATUS_SUCCESS) {
      std::string d = compare(e, out);
      if (!d.empty()) mc::fail("after%s: %s", trail.c_str(), d.c_str());
      RT r = snap(out);
      for (int64_t i = 0; is_float(r.dt) && i < r.size(); i++) if (!(std::abs(r.num(i)) < 1e8)) mc::skip();
      pool.push_back({out, r, ident(out)});
    }
    verify();
  }
  mc::describe([&] { return "sequence" + trail; });
  uint64_t h = 3; for (auto& t : pool) h = mc::mix(h, t.t ? hash_rt(t.m) : 1);
  mc::outcome(h);
  vf::reset();
}

// The 70000th call gives what the first gave (counters of 16 bits have wrapped by then).
static void long_history() {
  Op op = mc::pick(all_ops); auto& v = catalogue(op); mc::start();
  int n = (int)v.size(), m = n < 5 || mc::thorough() ? n : 5;
  Case c = v[mc::choose(m) * n / m]; bool rec = mc::choose(2);
  if (!has_data(c) || !ref_eval(c).ok || (c.op == CREATE && c.n64 >= 0)) mc::skip();
  mc::describe([&] { return show(c) + (rec ? ", 70000 times in recycled memory" : ", 70000 times"); });
  vf::reset(); fix_random(); vf::recycle = rec;
  Live l(c);
  Live::Snap before = l.snapshot();
  RT first;
  for (int k = 0; k < 70000; k++) {
    l.out = nullptr;
    if (l.go() != STATUS_SUCCESS) mc::fail("%s: fails the time %d", show(c).c_str(), k + 1);
    if (k == 0) first = snap(l.out);
    else if (aitisa_tensor_ndim(l.out) != (int64_t)first.dims.size() || aitisa_tensor_size(l.out) != first.size() || (first.dims.size() && memcmp(aitisa_tensor_dims(l.out), first.dims.data(), first.dims.size() * 8)) ||
             (first.data.size() && memcmp(aitisa_tensor_data(l.out), first.data.data(), first.data.size())) || aitisa_tensor_data_type(l.out).code != (TypeCode)first.dt)
      mc::fail("%s: the result of call %d differs from that of the first: %s", show(c).c_str(), k + 1, differs(first, snap(l.out)).c_str());
    aitisa_destroy(&l.out);
  }
  std::string d = l.changed(before);
  if (!d.empty()) mc::fail("%s: after 70000 calls %s", show(c).c_str(), d.c_str());
  l.drop_inputs();
  if (vf::live()) mc::fail("%s: %zu blocks left after 70000 calls", show(c).c_str(), vf::live());
  vf::recycle = false;
  mc::outcome(hash_rt(first) + c.op); mc::evals(70000);
  vf::reset();
}
int main(int argc, char** argv) {
  mc::Check c{"C04", "model_checking", {
    {"catalogue_untouched", k_untouched, "the catalogue of valid calls of all 24 entry points x output handle null or not: inputs, parameters, independence of the result"},
    {"catalogue_memory", k_memory, "the catalogue under 4 contents of fresh memory and with recycled memory"},
    {"catalogue_reuse", k_reuse, "the catalogue, each call repeated on the same handles with other contents, at recycled addresses, and with the first result alive"},
    {"catalogue_aliased", k_aliased, "the catalogue x every pair of argument positions given one tensor"},
    {"catalogue_overwriting", k_overwriting, "the catalogue x the output handle being the variable of each input"},
    {"pairs", pairs, "every ordered pair of calls of the catalogue"},
    {"addresses", addresses, "every ordered pair of calls of one operation in the catalogue, the second with its tensors (the same handles, or new ones at recycled addresses) and parameter arrays where the first had its own"},
    {"long_history", long_history, "5 calls of each entry point (thorough: the catalogue), each made 70000 times in fresh and recycled memory: the same result every time and nothing held", 200},
    {"sequences", sequence, "every sequence of 3 (thorough 4) steps of 13 operations, destruction and element writes over a growing pool, against the functional model"},
#define U0(o) {"untouched_" #o, g_untouched<o>, "every valid call of the small space of this operation: inputs, parameters, independence of the result"}, {"memory_" #o, g_memory<o>, "the same under 4 contents of fresh memory and recycled memory"},
#define U(o) U0(o) {"reuse_" #o, g_reuse<o>, "the same repeated with other contents"},
    U(ADD) U(DIV) U(CAST) U(RESHAPE) U(SQUEEZE) U(DUP) U(SLICE) U0(FULL) U0(CREATE) U(MATMUL) U(DOT) U(SQRT) U(RELU) U(SIGMOID) U(TANH) U(SOFTMAX) U(POOL) U(CONV) U(CONV2D) U(CONV3D) U(BN) U(DROPOUT)
    {"aliased_ADD", g_aliased<ADD>, "the small space of add with one tensor in both positions"}, {"aliased_MATMUL", g_aliased<MATMUL>, "the same for matmul"}, {"aliased_DOT", g_aliased<DOT>, "the same for dot"}, {"aliased_BN", g_aliased<BN>, "the same for every pair of arguments of batch normalisation"},
  }, {"dropout is given constant answers of the random source", "the contents of a tensor created without data are excluded"}};
  if (mc::tier_thorough()) c.suites.push_back({"triples", triples, "every ordered triple of representatives of the catalogue in recycled memory"});
  static auto judge_all = [](const Case& k, const Expect& e) { if (!e.ok) mc::skip(); if (mc::choose(2)) memory(k); else untouched(k); };
  add_spaces(c, [](const Case& k, const Expect& e) { judge_all(k, e); }, {"C06/many_dimensions", "C08/many_dimensions", "C10/many_dimensions", "C11/many_dimensions", "C15/many_dimensions", "C05/no_elements", "C06/no_elements", "C07/no_elements", "C10/no_elements", "C11/no_elements", "C12/no_elements", "C13/no_elements", "C15/no_elements", "C16/no_elements", "C14/no_batches", "C05/shapes", "C06/shapes", "C07/squeeze_high_rank", "C08/two_dim", "C10/ranks_0_3", "C11/ranks_0_3", "C12/one_dimension", "C12/groups", "C13/one_dimension", "C14/shapes", "C15/shapes", "C16/shapes", "C05/lengths", "C16/lengths"},
    {"C12/very_long", "C13/very_long", "C08/very_long", "C13/extreme_parameters", "C14/mid_sizes", "C14/lengths", "C05/patterns", "C14/magnitudes"}, {"C16/all_16_bit", "C16/float_patterns", "C16/double_patterns", "C06/float_patterns", "C16/grid", "C05/boundary", "C05/bytes"});
  return mc::run(argc, argv, c);
}
