// Coordinates, linear indices and memory offsets convert one-to-one.
#include "run.h"
#include <algorithm>

struct Hand {              // a tensor of any layout order, in exactly sized blocks
  _TensorImpl* t;
  Hand(const Dims& d, const std::vector<int>& order) {
    t = (_TensorImpl*)malloc(sizeof *t); memset(t, 0xA5, sizeof *t);
    t->size = prod(d); t->offset = 0; t->storage = nullptr;
    t->shape.ndim = (int64_t)d.size(); t->shape.layout.type = LAYOUT_DENSE;
    t->shape.dims = d.empty() ? nullptr : (int64_t*)malloc(d.size() * 8);
    t->shape.layout.min2maj = d.empty() ? nullptr : (int64_t*)malloc(d.size() * 8);
    for (size_t i = 0; i < d.size(); i++) { t->shape.dims[i] = d[i]; t->shape.layout.min2maj[i] = order[i]; }
  }
  void unchanged(const Dims& d, const std::vector<int>& order) {
    if (t->shape.ndim != (int64_t)d.size() || t->size != prod(d)) mc::fail("a conversion changed the tensor");
    for (size_t i = 0; i < d.size(); i++) if (t->shape.dims[i] != d[i] || t->shape.layout.min2maj[i] != order[i]) mc::fail("a conversion changed the tensor");
  }
  ~Hand() { ::free(t->shape.dims); ::free(t->shape.layout.min2maj); ::free(t); }
};
struct Coords {            // exactly sized
  int64_t* c; size_t n;
  explicit Coords(size_t n_) : n(n_) { c = (int64_t*)malloc(n * 8); for (size_t i = 0; i < n; i++) c[i] = -77; }
  Coords(const Dims& d) : Coords(d.size()) { for (size_t i = 0; i < n; i++) c[i] = d[i]; }
  ~Coords() { ::free(c); }
  bool is(const Dims& d) const { for (size_t i = 0; i < n; i++) if (c[i] != d[i]) return false; return true; }
  Dims v() const { return Dims(c, c + n); }
};

static std::string show(const std::vector<int>& o) { std::string s; for (int x : o) s += mc::fmt("%d", x); return s; }

static Dims strides_of(const Dims& d, const std::vector<int>& order) {
  Dims s(d.size()); int64_t p = 1;
  for (int x : order) { s[x] = p; p *= d[x]; }
  return s;
}

static void strides(const Tensor t, const Dims& d, const Dims& want, const std::string& what) {
  Coords all(d.size());
  surroundings();
  aitisa_get_all_strides(t, all.c);
  for (size_t i = 0; i < d.size(); i++) {
    if (all.c[i] != want[i]) mc::fail("%s: all strides give %lld for dimension %zu instead of %lld", what.c_str(), (long long)all.c[i], i, (long long)want[i]);
    int64_t s = aitisa_get_stride(t, (int64_t)i);
    if (s != want[i]) mc::fail("%s: the stride of dimension %zu is %lld instead of %lld", what.c_str(), i, (long long)s, (long long)want[i]);
  }
}

static void at(const Tensor t, const Dims& x, int64_t lin, int64_t off, const std::string& what) {
  surroundings();
  Coords c(x);
  int64_t n = (int64_t)x.size(), r = aitisa_coords_to_linidx(t, c.c, n);
  if (r != lin) mc::fail("%s: coordinates %s have linear index %lld instead of %lld", what.c_str(), show(x).c_str(), (long long)r, (long long)lin);
  r = aitisa_coords_to_offset(t, c.c, n);
  if (r != off) mc::fail("%s: coordinates %s have offset %lld instead of %lld", what.c_str(), show(x).c_str(), (long long)r, (long long)off);
  if (!c.is(x)) mc::fail("%s: a conversion changed the caller's coordinates", what.c_str());
  surroundings();
  Coords b(x.size());
  aitisa_linidx_to_coords(t, lin, b.c);
  if (!b.is(x)) mc::fail("%s: linear index %lld gives coordinates %s instead of %s", what.c_str(), (long long)lin, show(b.v()).c_str(), show(x).c_str());
  surroundings();
  Coords o(x.size());
  aitisa_offset_to_coords(t, off, o.c);
  if (!o.is(x)) mc::fail("%s: offset %lld gives coordinates %s instead of %s", what.c_str(), (long long)off, show(o.v()).c_str(), show(x).c_str());
}

static std::vector<int> permutation(int n) {     // one choice per position
  std::vector<int> left, o; for (int i = n - 1; i >= 0; i--) left.push_back(i);   // alternative 0: row-major
  while (!left.empty()) { int k = mc::choose((int)left.size()); o.push_back(left[k]); left.erase(left.begin() + k); }
  return o;
}

static void every_in(const Dims& d, const std::vector<int>& order) {
  std::string what = mc::fmt("shape %s layout %s", show(d).c_str(), show(order).c_str());
  mc::describe([&] { return what + ", every coordinate"; });
  Hand h(d, order);
  Dims st = strides_of(d, order);
  strides(h.t, d, st, what);
  int64_t n = prod(d);
  std::vector<char> seen(n, 0);
  Dims x(d.size(), 0);
  for (int64_t lin = 0; lin < n; lin++) {
    int64_t off = 0; for (size_t i = 0; i < d.size(); i++) off += x[i] * st[i];
    if (seen[off]++) mc::fail("internal: the reference is not a bijection");
    at(h.t, x, lin, off, what);
    for (int i = (int)d.size() - 1; i >= 0; i--) { if (++x[i] < d[i]) break; x[i] = 0; }
  }
  h.unchanged(d, order);
  mc::evals(4 * n);
  uint64_t o = 7; for (auto s : st) o = mc::mix(o, s); for (auto s : d) o = mc::mix(o, s);
  mc::outcome(o);
}
static void every(const Dims& d) { every_in(d, permutation((int)d.size())); }
static void small() { Dims d = mc::pick(shapes_upto(5, 4)); mc::start(); every(d); }
static void six() {
  static const std::vector<Dims> sh = [] { std::vector<Dims> v; for (auto& d : shapes_upto(6, mc::tier_thorough() ? 3 : 2)) if (d.size() == 6) v.push_back(d); return v; }();
  Dims d = mc::pick(sh); mc::start(); every(d);
}
static void longer() {
  int64_t a = mc::range(1, 40); mc::start();
  int64_t b = mc::pick(std::vector<int64_t>{1, 2, 7, 16, 31}), c = mc::pick(std::vector<int64_t>{1, 3, 8});
  every(mc::choose(2) ? Dims{a, b, c} : Dims{b, a, c});
}

// Shapes whose element counts exceed 32 bits: every combination of boundary coordinates.
static void huge() {
  static const std::vector<Dims> sh = {{1ll << 32}, {(1ll << 31) + 1, 3}, {1ll << 16, 1ll << 17}, {3, (1ll << 32) + 5}, {1ll << 20, 1ll << 20, 1ll << 20}, {65536, 65537, 4}, {1ll << 60}, {1ll << 30, 1, 1ll << 30},
    {46341, 46341, 3}, {2, 1ll << 31, 2}, {1ll << 15, 1ll << 15, 1ll << 15, 1ll << 15}, {(1ll << 31) - 1, (1ll << 29)}, {1000003, 1000033, 1009}, {1ll << 10, 1ll << 10, 1ll << 10, 1ll << 10, 1ll << 10}, {255, 256, 257, 65535, 3}};
  Dims d = mc::pick(sh); mc::start();
  std::vector<int> order = permutation((int)d.size());
  std::string what = mc::fmt("shape %s layout %s", show(d).c_str(), show(order).c_str());
  mc::describe([&] { return what + ", boundary coordinates"; });
  Hand h(d, order);
  Dims st = strides_of(d, order);
  strides(h.t, d, st, what);
  std::vector<Dims> al;
  for (auto n : d) {
    Dims a = {0, 1, 2, n / 3, n / 2, n - 2, n - 1, 1ll << 31, (1ll << 31) - 1, 1ll << 32, (1ll << 32) - 1, 65535, 65536};
    std::sort(a.begin(), a.end()); a.erase(std::unique(a.begin(), a.end()), a.end());
    a.erase(std::remove_if(a.begin(), a.end(), [&](int64_t v) { return v < 0 || v >= n; }), a.end());
    if (d.size() > 3) { Dims b; for (auto v : a) if (v == 0 || v == 1 || v == n - 1 || v == n / 2) b.push_back(v); a = b; }
    al.push_back(a);
  }
  std::vector<size_t> ix(d.size(), 0);
  for (;;) {
    Dims x; for (size_t i = 0; i < d.size(); i++) x.push_back(al[i][ix[i]]);
    int64_t lin = 0, off = 0;
    for (size_t i = 0; i < d.size(); i++) { lin = lin * d[i] + x[i]; off += x[i] * st[i]; }
    at(h.t, x, lin, off, what); mc::evals(4);
    int i = (int)d.size() - 1;
    for (; i >= 0; i--) { if (++ix[i] < al[i].size()) break; ix[i] = 0; }
    if (i < 0) break;
  }
  h.unchanged(d, order);
  uint64_t o = 9; for (auto s : st) o = mc::mix(o, s); mc::outcome(o);
}

// The tensors the library itself makes.
static void real() {
  Dims d = mc::pick(shapes_upto(5, 3)); mc::start();
  int how = mc::choose(4);
  mc::describe([&] { return mc::fmt("a library tensor of shape %s made in way %d, every coordinate", show(d).c_str(), how); });
  vf::reset();
  Tensor a = make(mkrt(TYPE_INT8, d, P_INJ, 1)), t = nullptr;
  Status s = STATUS_SUCCESS;
  switch (how) {
    case 0: t = a; a = nullptr; break;
    case 1: s = aitisa_full(mkdt(TYPE_DOUBLE), mkdev(1), aitisa_tensor_dims(a), (int64_t)d.size(), 1, &t); break;
    case 2: { Dims f = {prod(d)}; Tensor b = nullptr; s = aitisa_reshape(a, f.data(), 1, &b); if (s == STATUS_SUCCESS) s = aitisa_reshape(b, d.data(), (int64_t)d.size(), &t); break; }
    case 3: s = aitisa_duplicate(a, &t); break;
  }
  if (s != STATUS_SUCCESS) mc::fail("making the tensor returned status %d", (int)s);
  std::string what = mc::fmt("library tensor of shape %s", show(d).c_str());
  std::vector<int> order; for (int i = (int)d.size() - 1; i >= 0; i--) order.push_back(i);
  Dims st = strides_of(d, order);
  strides(t, d, st, what);
  Dims x(d.size(), 0); int64_t n = prod(d);
  for (int64_t lin = 0; lin < n; lin++) {
    at(t, x, lin, lin, what);
    for (int i = (int)d.size() - 1; i >= 0; i--) { if (++x[i] < d[i]) break; x[i] = 0; }
  }
  mc::evals(4 * n); mc::outcome(mc::mix(n, d.size()) + how);
  vf::reset();
}

// Shapes without elements still have strides.
static void empty() {
  mc::start();
  Dims d = mc::pick(std::vector<Dims>{{}, {0}, {0, 3}, {3, 0}, {2, 0, 3}, {0, 0}, {2, 3, 0, 4}});
  std::vector<int> order = permutation((int)d.size());
  std::string what = mc::fmt("shape %s layout %s", show(d).c_str(), show(order).c_str());
  mc::describe([&] { return what + ", strides"; });
  Hand h(d, order);
  strides(h.t, d, strides_of(d, order), what);
  h.unchanged(d, order);
  mc::outcome(mc::mix(d.size(), prod(d)));
}

static void many_dims() {
  Dims d = mc::pick(tall()); mc::start();
  int nd = (int)d.size(), f = mc::choose(6);
  std::vector<int> order(nd);
  for (int i = 0; i < nd; i++) order[i] = nd - 1 - i;
  switch (f) {
    case 1: std::reverse(order.begin(), order.end()); break;
    case 2: std::rotate(order.begin(), order.begin() + 1, order.end()); break;
    case 3: std::rotate(order.begin(), order.begin() + nd / 2, order.end()); break;
    case 4: std::swap(order.front(), order.back()); break;
    case 5: for (int i = 0; i + 1 < nd; i += 2) std::swap(order[i], order[i + 1]); break;
  }
  every_in(d, order);
}
int main(int argc, char** argv) {
  mc::Check c{"C03", "model_checking", {
    {"every_coordinate", small, "all shapes of up to 5 dimensions with lengths 1..4 x all layout orders x every coordinate"},
    {"six_dimensions", six, "all shapes of 6 dimensions with lengths 1..2 (thorough 3) x all 720 layout orders x every coordinate"},
    {"longer", longer, "three dimensions with lengths up to 40 x all layout orders x every coordinate"},
    {"beyond_32_bits", huge, "15 shapes of 2^31..2^60 elements x all layout orders x every combination of boundary coordinates"},
    {"library_tensors", real, "tensors made by create, full, reshape and duplicate of all shapes of up to 5 dimensions with lengths 1..3"},
    {"no_elements", empty, "strides of shapes without elements or dimensions x all layout orders"},
    {"many_dimensions", many_dims, "~470 shapes of 9..300 and up to 66000 dimensions with up to ten lengths of 2 or 3, six layout orders, every coordinate"},
  }, {"coordinates and indices outside the shape are excluded (the library asserts on them)"}};
  return mc::run(argc, argv, c);
}
