// Every block of memory the library takes is given back exactly once.
// Judged: the blocks held (the tracker stops on a release of anything not held) and AddressSanitizer's verdict.
#include "spaces.h"

static void destroy(Tensor* t, const char* what) {
  Tensor old = *t;
  Status s = aitisa_destroy(t);
  if (s != STATUS_SUCCESS) mc::fail("destroying %s returned status %d", what, (int)s);
  if (*t) mc::fail("destroying %s left the handle set", what);
  (void)old;
}

static void one_call(const Case& c) {
  vf::reset();
  size_t zero = vf::live();
  Live l(c);
  int order = c.in.empty() ? 0 : mc::choose(2);
  mc::describe([&] { return show(c) + (order ? ", result destroyed last" : ", result destroyed first"); });
  size_t before = vf::live();
  Status s = l.go();
  if (s == STATUS_SUCCESS) {
    if (!l.out) mc::fail("%s: success without an output", show(c).c_str());
    size_t with = vf::live();
    mc::outcome(mc::mix(c.op, with - before) + before);
    if (!order) {
      destroy(&l.out, "the result");
      size_t base = before - (c.op == CREATE && c.n64 >= 0 ? 1 : 0);     // the buffer that was taken over
      if (vf::live() != base) mc::fail("%s: %zu blocks were held before the call, %zu after it and after destroying its result:%s", show(c).c_str(), base, vf::live(), vf::dump().c_str());
    }
  } else {
    size_t after = vf::live();
    if (after != before) mc::fail("%s: rejected with status %d, %zu blocks held before and %zu after:%s", show(c).c_str(), (int)s, before, after, vf::dump().c_str());
    l.out = nullptr;
    if (c.op == CREATE && c.n64 >= 0) aitisa_default_cpu_allocator()->raw_dealloc(l.a.buf);
    mc::outcome(mc::mix(c.op, 1000 + s));
  }
  unalias(l.in, c.in.size());
  for (size_t i = 0; i < c.in.size(); i++) {
    destroy(&l.in[i], "an input");
    long rel = vf::releases;
    destroy(&l.in[i], "a destroyed tensor again");
    if (vf::releases != rel) mc::fail("destroying a cleared handle released something");
  }
  if (l.out) {
    RT r = snap(l.out); mc::hash_bytes(r.data.data(), r.data.size());   // still readable
    destroy(&l.out, "the result");
  }
  long rel = vf::releases;
  destroy(&l.out, "a destroyed result again");
  if (vf::releases != rel) mc::fail("destroying a cleared handle released something");
  if (vf::live() != zero) mc::fail("%s: %zu blocks still held after everything was destroyed:%s", show(c).c_str(), vf::live(), vf::dump().c_str());
  mc::evals(1 + c.in.size());
  vf::reset();
}

template <int OP> static void op() { Case c; gen((Op)OP, SMALL, c); one_call(c); }

static void catalog() {
  Op o = mc::pick(all_ops); mc::start_once();
  Case c; gen(o, TINY, c);
  one_call(c);
}

// A tensor destroyed in every state it can be in.
static void destroys() {
  static const std::vector<Dims> sh = [] { auto v = shapes_upto(4, 2); for (auto& d : {Dims{0}, Dims{0, 3}, Dims{2, 0}, Dims{2, 2, 2, 2, 2, 2, 2}}) v.push_back(d); return v; }();
  Dims s = mc::pick(sh); mc::start();
  int dt = mc::choose(10), n = mc::range(1, 3);
  mc::describe([&] { return mc::fmt("create and destroy %s%s, then destroy %d more times", dt_name[dt], show(s).c_str(), n); });
  vf::reset();
  Tensor t = nullptr; Dims d = s;
  destroy(&t, "a null handle");
  if (aitisa_create(mkdt(dt), mkdev(0), d.data(), (int64_t)d.size(), nullptr, 0, &t) != STATUS_SUCCESS) mc::fail("create failed");
  size_t held = vf::live();
  mc::outcome(mc::mix(held, s.size()));
  if (aitisa_tensor_size(t)) memset(aitisa_tensor_data(t), 1, aitisa_tensor_size(t) * dsize(dt));
  destroy(&t, "the tensor");
  if (vf::live()) mc::fail("destroying %s%s left %zu of %zu blocks held:%s", dt_name[dt], show(s).c_str(), vf::live(), held, vf::dump().c_str());
  long rel = vf::releases;
  for (int i = 0; i < n; i++) destroy(&t, "the cleared handle");
  if (rel != vf::releases) mc::fail("destroying a cleared handle released something");
}

// Sequences over three slots.  Each step overwrites one slot (destroyed first) with the result of a call on others,
// or destroys a slot; after every step exactly the blocks of the live tensors are held.
static Tensor slot[3]; static size_t cost[3];
static std::string trail;
static bool step_call(int k, int x, int y, Tensor* out) {
  Tensor a = slot[x], b = slot[y];
  int64_t d23[] = {2, 3}, d6[] = {6}, d213[] = {2, 1, 3}, ax[] = {1}, bad[] = {7};
  int64_t nd = a ? aitisa_tensor_ndim(a) : 0;
  int z[8] = {0, 0, 0, 0, 0, 0, 0, 0}, one[8] = {1, 1, 1, 1, 1, 1, 1, 1};
  Status s = STATUS_INTERNAL_ERROR;
  bool needs_a = k > 1, needs_b = k == 4 || k == 5 || k == 9 || k == 11;
  if ((needs_a && !a) || (needs_b && !b)) mc::skip();
  switch (k) {
    case 0: s = aitisa_full(mkdt(TYPE_FLOAT), mkdev(0), d23, 2, 1.5, out); break;
    case 1: { void* buf = aitisa_default_cpu_allocator()->raw_alloc(24); memset(buf, 0, 24); s = aitisa_create(mkdt(TYPE_INT32), mkdev(0), d213, 3, buf, 24, out); break; }
    case 2: s = aitisa_cast(a, mkdt(TYPE_FLOAT), out); break;
    case 3: s = aitisa_duplicate(a, out); break;
    case 4: s = aitisa_add(a, b, out); break;
    case 5: s = aitisa_matmul(a, b, out); break;
    case 6: s = aitisa_reshape(a, d6, 1, out); break;
    case 7: s = aitisa_squeeze(a, nd == 3 ? ax : bad, 1, out); break;
    case 8: s = aitisa_slice(a, z, one, one, out); break;
    case 9: s = aitisa_dot(a, b, out); break;
    case 10: s = aitisa_softmax(a, 1, out); break;
    case 11: s = aitisa_div(a, b, out); break;
    case 12: s = aitisa_tanh(a, out); break;
    case 13: s = aitisa_dropout(a, 0.5, out); break;
  }
  return s == STATUS_SUCCESS;
}
static void sequence() {
  const int depth = mc::tier_thorough() ? 5 : 4;
  vf::reset();
  for (int i = 0; i < 3; i++) { slot[i] = nullptr; cost[i] = 0; }
  trail.clear();
  vf::rand_hook = [] { return 7; };
  auto total = [] { return cost[0] + cost[1] + cost[2]; };
  for (int n = 0; n < depth; n++) {
    int k = mc::choose(15);
    if (n == 1) mc::start();
    if (n == 0 && k > 1) mc::skip();
    if (k == 14) {
      int x = mc::choose(3);
      trail += mc::fmt(" destroy(%d)", x);
      destroy(&slot[x], "a slot"); cost[x] = 0;
    } else {
      int x = k > 1 ? mc::choose(3) : 0, y = k == 4 || k == 5 || k == 9 || k == 11 ? mc::choose(3) : 0, o = n == 0 ? 0 : mc::choose(3);
      trail += mc::fmt(" %d=f%d(%d,%d)", o, k, x, y);
      // the slot that receives the result may be one of the operands
      size_t before = vf::live();
      Tensor r = nullptr;
      if (step_call(k, x, y, &r)) {
        if (!r) mc::fail("after%s: success without an output", trail.c_str());
        size_t grown = vf::live() - before;
        if (vf::live() < before) mc::fail("after%s: the call released blocks of live tensors", trail.c_str());
        destroy(&slot[o], "a slot"); slot[o] = r; cost[o] = grown;
      } else if (vf::live() != before) mc::fail("after%s: a rejected call changed the number of blocks held from %zu to %zu", trail.c_str(), before, vf::live());
    }
    if (vf::live() != total()) mc::fail("after%s: %zu blocks held, the live tensors came with %zu:%s", trail.c_str(), vf::live(), total(), vf::dump().c_str());
  }
  mc::describe([&] { return "sequence" + trail; });
  uint64_t h = 3; for (int i = 0; i < 3; i++) h = slot[i] ? mc::mix(h, hash_rt(snap(slot[i]))) : mc::mix(h, 5);
  mc::outcome(h);
  int first = mc::choose(3);
  for (int i = 0; i < 3; i++) destroy(&slot[(i + first) % 3], "a slot");
  if (vf::live()) mc::fail("after%s and destroying everything: %zu blocks held:%s", trail.c_str(), vf::live(), vf::dump().c_str());
}

int main(int argc, char** argv) {
  mc::Check c{"C01", "model_checking", {
    {"catalogue", catalog, "the catalogue of valid calls of all 24 entry points x order of destruction"},
    {"destroy", destroys, "tensors of all shapes of up to 4 dimensions (zero lengths included) x 10 types, destroyed up to 4 times"},
    {"sequences", sequence, "every sequence of 4 (thorough 5) steps out of 15 kinds over three slots, results overwriting any slot, then all orders of destruction"},
#define S(o) {#o, op<o>, "every request of the small space of this operation, valid or not x order of destruction"},
    S(ADD) S(DIV) S(CAST) S(RESHAPE) S(SQUEEZE) S(DUP) S(SLICE) S(FULL) S(CREATE) S(MATMUL) S(DOT) S(SQRT) S(RELU) S(SIGMOID) S(TANH) S(SOFTMAX) S(POOL) S(CONV) S(CONV2D) S(CONV3D) S(BN) S(DROPOUT)
  }, {"accesses beyond a block are judged by AddressSanitizer (code compiled at -O1)"}};
  add_spaces(c, [](const Case& k, const Expect&) { one_call(k); }, {"C05/many_dimensions", "C06/many_dimensions", "C07/many_dimensions", "C08/many_dimensions", "C10/many_dimensions", "C11/many_dimensions", "C15/many_dimensions", "C16/many_dimensions", "C05/no_elements", "C06/no_elements", "C07/no_elements", "C08/no_elements", "C10/no_elements", "C11/no_elements", "C12/no_elements", "C13/no_elements", "C15/no_elements", "C16/no_elements", "C14/no_batches", "C05/shapes", "C05/lengths", "C06/lengths", "C07/reshape", "C07/squeeze", "C07/duplicate", "C08/one_dim", "C08/three_dim", "C08/high_rank", "C10/ranks_0_3", "C10/sizes", "C10/inner_lengths", "C10/outer_lengths",
    "C11/ranks_0_3", "C11/lengths", "C12/one_dimension", "C12/groups", "C12/ranks", "C12/bad_parameter", "C12/extreme_parameters", "C12/long", "C13/one_dimension", "C13/ranks", "C13/bad_parameter", "C13/long",
    "C14/shapes", "C14/axes_ranks", "C15/shapes", "C16/shapes", "C16/lengths"}, {"*/very_long", "*/patterns", "*/words"}, {"C16/all_16_bit", "C16/float_patterns", "C16/double_patterns", "C06/float_patterns"});
  return mc::run(argc, argv, c);
}
