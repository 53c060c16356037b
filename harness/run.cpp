#include "run.h"
#include "live.h"

std::string allowed_names(unsigned a) {
  std::string s;
  for (int i = 0; i < 9; i++) if (a & B(i)) s += (s.empty() ? "" : " or ") + std::string(st_name[i]);
  return s;
}

void (*judge)(const Case&, const Expect&) = nullptr;

void run_value(const Case& c) { run_value(c, ref_eval(c)); }

void run_value(const Case& c, const Expect& e) {
  if (judge) { mc::start_once(); judge(c, e); return; }
  mc::start_once();
  mc::describe([&] { return show(c) + (e.ok ? " => " + show(e.out) : " => rejected with " + allowed_names(e.allowed)); });
  vf::reset();
  Tensor in[5] = {}, out = nullptr;
  make_inputs(c, in);
  Args a(c);
  Status s = call(c, a, in, &out);
  if (e.ok) {
    if (s != STATUS_SUCCESS) mc::fail("%s: returned status %d (%s), expected success", show(c).c_str(), (int)s, (unsigned)s < 9 ? st_name[s] : "?");
    std::string d = compare(e, out);
    if (!d.empty()) mc::fail("%s: %s", show(c).c_str(), d.c_str());
    mc::outcome(mc::hash_bytes(e.val.data(), e.val.size() * 8, hash_rt(e.out)) + c.op);
    mc::evals(e.out.size());
    aitisa_destroy(&out);
  } else {
    if (s == STATUS_SUCCESS) mc::fail("%s: succeeded, expected %s", show(c).c_str(), allowed_names(e.allowed).c_str());
    if (!((unsigned)s < 9 && (e.allowed & B(s)))) mc::fail("%s: returned status %d (%s), expected %s", show(c).c_str(), (int)s, (unsigned)s < 9 ? st_name[s] : "?", allowed_names(e.allowed).c_str());
    mc::outcome(mc::mix(c.op, e.allowed) + s);
  }
  unalias(in, c.in.size());
  for (size_t i = 0; i < c.in.size(); i++) aitisa_destroy(&in[i]);
  vf::reset();
}

static void put(RT& t, int w) {
  int64_t n = t.size();
  for (int64_t i = 0; i < n; i++) t.set_i64(i, w == 0 ? 0 : w == 1 ? 1 : w == 2 ? -1 : w == 3 ? 5 : w == 4 ? i : w == 5 ? n - i : i == n - 1 ? 1 : 2);
}
void plain(const std::vector<Op>& ops) {
  Op op = mc::pick(ops); Case c; gen(op, SMALL, c);
  if (!ref_eval(c).ok) mc::skip();
  if (op == BN) {
    for (int i = 1; i < 5; i++) put(c.in[i], i == 1 || i == 4);
    c.d = mc::choose(2); put(c.in[mc::choose(5)], mc::choose(7));
    run_value(c); return;
  }
  static const std::vector<Dims> wide = {{67}, {300}, {9, 8}, {4, 9, 5}};
  int k = op == SLICE || op == RESHAPE || op == SQUEEZE || op == POOL || op == CONV || op == CONV2D || op == CONV3D ? 0 : mc::choose(5);
  if (k) {       // one long instance in place of each element type's first small one
    if (c.in[0].dims != Dims{1} || c.in.back().dims != Dims{1}) mc::skip();
    for (auto& t : c.in) t = RT(t.dt, wide[k - 1], t.dev);
    if (op == MATMUL || op == DOT) { if (k < 3) mc::skip(); c.in[0] = RT(c.in[0].dt, wide[k - 1]); c.in[1] = RT(c.in[1].dt, k == 3 ? Dims{8, 9} : op == DOT ? Dims{2, 5, 7} : Dims{5, 7}); }
    if (op == SOFTMAX) c.axis = (int)c.in[0].dims.size() - 1;
  }
  for (auto& t : c.in) put(t, mc::choose(7));
  run_value(c);
}

const std::vector<Op> all_ops = {ADD, SUB, MUL, DIV, CAST, RESHAPE, SQUEEZE, DUP, SLICE, FULL, CREATE, MATMUL, DOT, SQRT, RELU, SIGMOID, TANH, SOFTMAX, POOL, CONV, CONV2D, CONV3D, BN, DROPOUT};
