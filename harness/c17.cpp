#include "run.h"
#include "huge.h"
#include <climits>
#include <cmath>
#include <set>
#include <sys/wait.h>
#include <unistd.h>

// 100 answers of the random source that are equally spread both by remainder and by magnitude
static int answer(int i) {
  int64_t lo = (int64_t)i * ((1ll << 31)) / 100 + 1000, want = (i * 37 + 11) % 100;
  lo += (want - lo % 100 + 100) % 100;
  return (int)lo;
}
// the output of one dropout call; fails the execution unless each element is the input's or zero
static RT drop(const RT& in, double rate) {
  Case c; c.op = DROPOUT; c.d = rate; c.in = {in};
  vf::reset();
  Tensor t = make(in), out = nullptr; Args a(c);
  Expect e = ref_eval(c);
  Status s = call(c, a, &t, &out);
  if (s != STATUS_SUCCESS) mc::fail("%s: status %d", show(c).c_str(), (int)s);
  std::string d = compare(e, out);
  if (!d.empty()) mc::fail("%s: %s", show(c).c_str(), d.c_str());
  RT r = snap(out);
  aitisa_destroy(&out); aitisa_destroy(&t); vf::reset();
  return r;
}
static RT nonzero(int dt, const Dims& s) { RT t(dt, s); for (int64_t i = 0; i < t.size(); i++) t.set_i64(i, 1 + i % 100); return t; }
static std::vector<bool> zeroed(const RT& in, const RT& o) {
  std::vector<bool> v(o.size());
  for (int64_t i = 0; i < o.size(); i++) v[i] = memcmp(&o.data[i * dsize(o.dt)], &in.data[i * dsize(o.dt)], dsize(o.dt)) != 0;
  return v;
}
static std::string bits(const std::vector<bool>& v) { std::string s; for (bool b : v) s += b ? '0' : 'x'; return s; }

static void percent() {      // exactly k of the 100 answers zero an element
  int k = mc::range(0, 100), dt = mc::choose(10); mc::start();
  int form = mc::choose(3);
  double rate = form == 0 ? k / 100.0 : form == 1 ? k * 0.01 : (double)(float)(k / 100.0f);
  if (rate > 1) rate = 1;
  mc::describe([&] { return mc::fmt("rate %d%% (%.17g), %s: 100 answers for 1 element each", k, rate, dt_name[dt]); });
  RT in = nonzero(dt, {1});
  int cnt = 0;
  for (int i = 0; i < 100; i++) {
    vf::reset_env(); int a = answer(i); vf::rand_hook = [a] { return a; };
    if (zeroed(in, drop(in, rate))[0]) cnt++;
  }
  vf::reset_env();
  mc::evals(100); mc::outcome(mc::mix(k, dt));
  if (cnt != k) mc::fail("rate %.17g: %d of 100 equally likely answers of the random source zero an element, expected %d", rate, cnt, k);
}
static void percent_vector() {  // the same with all 100 answers consumed by one call, in several orders, at every element
  int k = mc::range(0, 100); mc::start();
  int dt = mc::pick(std::vector<int>{TYPE_FLOAT, TYPE_UINT8, TYPE_INT64}), mult = mc::pick(std::vector<int>{1, 3, 7, 99}), reps = mc::pick(std::vector<int>{1, 2, 5});
  mc::describe([&] { return mc::fmt("rate %d%%, %s{%d}: each answer %d times", k, dt_name[dt], 100 * reps, reps); });
  RT in = nonzero(dt, {100 * reps}); int calls = 0;
  vf::reset_env(); vf::rand_hook = [&] { return answer((calls++ * mult + 5) % 100); };
  auto z = zeroed(in, drop(in, k / 100.0)); vf::reset_env();
  int cnt = 0; for (bool b : z) cnt += b;
  mc::evals(100 * reps); mc::outcome(mc::mix(mc::mix(k, dt), mult * 10 + reps));
  if (cnt != k * reps) mc::fail("rate %d%%: %d of %d elements zeroed when the random source gives each of 100 answers %d times", k, cnt, 100 * reps, reps);
}
static void independent() {  // every mask can occur: elements have draws of their own
  int n = mc::range(1, mc::thorough() ? 12 : 8); Dims s = n == 4 && mc::choose(2) ? Dims{2, 2} : n == 6 && mc::choose(2) ? Dims{1, 3, 2} : Dims{n};
  int dt = mc::choose(10); mc::start();
  int k = mc::pick(std::vector<int>{1, 29, 50, 99});
  mc::describe([&] { return mc::fmt("rate %d%%, %s%s: all %d answer sequences", k, dt_name[dt], show(s).c_str(), 1 << n); });
  RT in = nonzero(dt, s);
  // an answer that zeroes an element and one that does not
  int za = -1, ka = -1;
  for (int i = 0; i < 100; i++) { vf::reset_env(); int a = answer(i); vf::rand_hook = [a] { return a; }; (zeroed(in, drop(in, k / 100.0))[0] ? za : ka) = a; }
  if (za < 0 || ka < 0) mc::fail("rate %d%%: no answer of the random source %s an element", k, za < 0 ? "zeroes" : "keeps");
  std::set<std::string> seen;
  for (int m = 0; m < (1 << n); m++) {
    int calls = 0;
    vf::reset_env(); vf::rand_hook = [&] { int c = calls++; return (m >> (c % n)) & 1 ? za : ka; };
    auto z = zeroed(in, drop(in, k / 100.0));
    if (calls < n) mc::fail("%d elements, but the random source was asked only %d times", n, calls);
    seen.insert(bits(z));
  }
  vf::reset_env();
  mc::evals(1 << n); mc::outcome(mc::mix(mc::hash_bytes(s.data(), s.size() * 8), dt * 100 + k));
  if ((int)seen.size() != (1 << n)) mc::fail("rate %d%%, %d elements: only %d of %d subsets can be zeroed", k, n, (int)seen.size(), 1 << n);
}
static void all_or_nothing() {
  Dims s = mc::pick(shapes_upto(4, 3)); int dt = mc::choose(10); mc::start();
  int one = mc::choose(2), a = mc::pick(std::vector<int>{0, 1, 49, 50, 99, 100, 12345, 0x7fffffff, 0x7ffffffe, 0x7fffffff - 47, 0x7fffffff - 48});
  RT in = nonzero(dt, s); in.dev = mc::choose(3);
  mc::describe([&] { return mc::fmt("rate %d, answer %d, %s", one, a, show(in).c_str()); });
  vf::reset_env(); vf::rand_hook = [a] { return a; };
  auto z = zeroed(in, drop(in, one)); vf::reset_env();
  mc::outcome(mc::mix(hash_rt(in), one * 16 + (a & 15))); mc::evals(in.size());
  for (bool b : z) if (b != (one == 1)) mc::fail("rate %d: answer %d %s an element", one, a, b ? "zeroes" : "keeps");
}
static void contents() {     // survivors are unchanged bit for bit: all types, shapes, extreme contents
  Dims s = mc::pick(shapes_upto(3, 3)); int dt = mc::choose(10); mc::start();
  Pat p = mc::pick(std::vector<Pat>{P_INJ, P_BIG, P_NEG, P_SMALL}); int k = mc::pick(std::vector<int>{0, 10, 50, 90, 100});
  RT in = mkrt(dt, s, p, 1, mc::choose(3));
  mc::describe([&] { return mc::fmt("rate %d%% on ", k) + show(in); });
  int calls = 0; vf::reset_env(); vf::rand_hook = [&] { return answer((calls++ * 41) % 100); };
  RT o = drop(in, k / 100.0); vf::reset_env();
  if (k == 0 && o.data != in.data) mc::fail("rate 0 changed an element of %s", show(in).c_str());
  mc::outcome(hash_rt(o)); mc::evals(in.size());
}
static void lens() {
  int64_t n = mc::pick(lengths()); mc::start();
  int dt = mc::pick(std::vector<int>{0, 3, 8, 9}), k = mc::pick(std::vector<int>{0, 1, 50, 100});
  RT in = nonzero(dt, {n}); int64_t calls = 0, expect = 0;
  mc::describe([&] { return mc::fmt("rate %d%%, %s{%lld}", k, dt_name[dt], (long long)n); });
  vf::reset_env(); vf::rand_hook = [&] { return answer((int)(calls++ % 100)); };
  auto z = zeroed(in, drop(in, k / 100.0)); vf::reset_env();
  // the answers come in blocks of 100: every full block zeroes k; the last elements are covered by rate 0 and 1
  int64_t cnt = 0; for (bool b : z) cnt += b;
  expect = n / 100 * k;
  mc::evals(n); mc::outcome(mc::mix(n, dt * 1000 + k));
  if (cnt < expect || cnt > expect + std::min<int64_t>(k, n % 100)) mc::fail("rate %d%%, %lld elements: %lld zeroed, expected %lld..%lld", k, (long long)n, (long long)cnt, (long long)expect, (long long)(expect + std::min<int64_t>(k, n % 100)));
}
static void rejects() {
  double r = mc::pick(std::vector<double>{-1, -1e-9, -0.5, -1e300, 1.0000001, 1.5, 2, 100, 1e300, -5e-324, 1.0000000000000002, INFINITY, -INFINITY, 0, 1, -0.0, 0.5}); mc::start();
  Case c; c.op = DROPOUT; c.d = r;
  c.in = {nonzero(mc::choose(10), mc::pick(std::vector<Dims>{{}, {1}, {2, 3}, {2, 1, 2}}))}; c.in[0].dev = mc::choose(3);
  run_value(c);
}
// a process of its own that calls dropout once at the given time
static std::string in_process(const RT& in, double rate, long t) {
  int fd[2]; if (pipe(fd)) mc::fail("pipe");
  pid_t pid = fork();
  if (!pid) {
    vf::reset_env(); vf::now = t;
    Tensor x = make(in), o = nullptr;
    std::string s = aitisa_dropout(x, rate, &o) == STATUS_SUCCESS ? bits(zeroed(in, snap(o))) : "failed";
    ssize_t n = write(fd[1], s.data(), s.size()); _exit(n == (ssize_t)s.size() ? 0 : 1);
  }
  close(fd[1]); std::string s; char b[256]; ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, n);
  close(fd[0]); int st; waitpid(pid, &st, 0);
  if (s.size() != (size_t)in.size()) mc::fail("dropout failed in a process of its own");
  return s;
}
static const std::vector<long> times = {0, 1, 2, 3, 59, 60, 3600, 86399, 86400, 1000000, 1000001, 1000002, 1700000000, 1700000001, 1700000060, 1700003600, 1700086400, 1731536000};
static void restarts() {     // the first call of processes started at different times
  long t1 = mc::pick(times); mc::start(); long t2 = mc::pick(times);
  if (t2 <= t1) mc::skip();
  RT in = nonzero(TYPE_FLOAT, {64});
  std::string a = in_process(in, 0.5, t1), b = in_process(in, 0.5, t2);
  mc::describe([&] { return mc::fmt("first calls at %ld and %ld: ", t1, t2) + a + " " + b; });
  mc::outcome(mc::hash_bytes(a.data(), a.size(), mc::hash_bytes(b.data(), b.size())));
  if (a == b) mc::fail("dropout of 64 elements as the first call of processes started at times %ld and %ld zeroed the same elements: %s", t1, t2, a.c_str());
}
static void later() {        // calls at different times in one process
  long t1 = mc::pick(times); mc::start(); long t2 = mc::pick(times);
  if (t2 <= t1) mc::skip();
  int dt = mc::choose(10);
  RT in = nonzero(dt, {64});
  vf::reset_env(); vf::now = t1; auto a = bits(zeroed(in, drop(in, 0.5))); vf::now = t2; auto b = bits(zeroed(in, drop(in, 0.5))); vf::reset_env();
  mc::describe([&] { return mc::fmt("calls at %ld and %ld: ", t1, t2) + a + " " + b; });
  mc::outcome(mc::hash_bytes(a.data(), a.size(), mc::hash_bytes(b.data(), b.size())));
  if (a == b) mc::fail("dropout of 64 elements at times %ld and %ld in one process zeroed the same elements: %s", t1, t2, a.c_str());
}
static void huge_rates() {      // more elements than 31 bits can count: all zeroed, none zeroed, or every second
  int f = mc::choose(3); mc::start();
  int64_t n = (1ll << 31) + 6;
  RT b = huge::block(TYPE_UINT8, P_POS, 1), want = b;
  Case c = mk(DROPOUT, {b}); c.d = f == 0 ? 0 : f == 1 ? 1 : 0.5;
  if (f == 1) for (int64_t i = 0; i < huge::Q; i++) want.set_i64(i, 0);
  int64_t calls = 0;
  if (f == 2) {         // the random source zeroes the elements at multiples of 3 of each period
    int za = -1, ka = -1;
    for (int i = 0; i < 100; i++) { vf::reset_env(); int a = answer(i); vf::rand_hook = [a] { return a; }; (zeroed(nonzero(TYPE_UINT8, {1}), drop(nonzero(TYPE_UINT8, {1}), 0.5))[0] ? za : ka) = a; }
    for (int64_t i = 0; i < huge::Q; i += 3) want.set_i64(i, 0);
    vf::reset_env(); vf::rand_hook = [&calls, za, ka] { return calls++ % huge::Q % 3 == 0 ? za : ka; };
  }
  {
    huge::Mem mem;
    if (f == 2) { calls = 0; }
    Tensor in = huge::periodic(b, {n}), out = nullptr; Args a(c);
    Status st = call(c, a, &in, &out);
    if (st != STATUS_SUCCESS) mc::fail("dropout of %lld elements: returned status %d", (long long)n, (int)st);
    if (f < 2) huge::must_be_periodic(out, want, {n}, "dropout");
    else { int64_t zeros = 0; const uint8_t* o = (const uint8_t*)aitisa_tensor_data(out); for (int64_t i = 0; i < n; i++) { if (!o[i]) zeros++; else if (o[i] != b.data[i % huge::Q]) mc::fail("dropout: element %lld is neither zero nor the input's", (long long)i); } int64_t w = 0; for (int64_t i = 0; i < huge::Q; i++) if (i % 3 == 0) w += n / huge::Q + (i < n % huge::Q); if (calls == n && zeros != w) mc::fail("dropout of %lld elements: %lld zeroed, expected %lld", (long long)n, (long long)zeros, (long long)w); }
    aitisa_destroy(&out); aitisa_destroy(&in);
  }
  vf::reset_env(); mc::evals(n); mc::outcome(f);
}
static void no_elements() {
  Dims s = mc::pick(empties(4)); mc::start();
  Case c; c.op = DROPOUT; c.d = mc::pick(std::vector<double>{0, 0.5, 1, 2, -1});
  c.in = {mkrt(mc::choose(10), s, P_POS, 1, mc::choose(3))};
  run_value(c);
}
static void many_dims() {
  Dims s = mc::pick(tall()); mc::start();
  Case c; c.op = DROPOUT; c.d = mc::pick(std::vector<double>{0, 0.5, 1});
  c.in = {mkrt(mc::choose(10), s, P_POS, 1)};
  run_value(c);
}
static void mid_sizes() {
  Dims s = mc::pick(blocks()); mc::start();
  int one = mc::choose(2);
  RT in = nonzero((int)((s[0] * 7 + s[1] * 3 + s.back()) % 10), s);
  mc::describe([&] { return mc::fmt("rate %d, ", one) + show(s); });
  int64_t calls = 0; vf::reset_env(); vf::rand_hook = [&] { return answer((int)(calls++ % 100)); };
  auto z = zeroed(in, drop(in, one)); vf::reset_env();
  mc::outcome(mc::mix(hash_rt(in), one)); mc::evals(in.size());
  for (bool b : z) if (b != (one == 1)) mc::fail("rate %d %s an element of %s", one, one ? "keeps" : "zeroes", show(s).c_str());
}
int main(int argc, char** argv) {
  mc::Check c{"C17", "model_checking", {
    {"percent", percent, "rates of 0..100 percent (3 ways of writing each) x 10 types x 100 answers of the random source: exactly k zero"},
    {"percent_in_one_call", percent_vector, "rates of 0..100 percent x 3 types x 4 orders x 100..500 elements"},
    {"independence", independent, "tensors of 1..8 elements (thorough 12) x 10 types x 4 rates: all 2^n answer sequences give all 2^n masks"},
    {"all_or_nothing", all_or_nothing, "rates 0 and 1 x all shapes of up to 4 dimensions with lengths 1..3 x 10 types x 11 answers x devices"},
    {"contents", contents, "survivors unchanged: shapes x types x 4 contents x 5 rates x devices"},
    {"lengths", lens, "lengths 1..300 and around 2^9..2^16"},
    {"no_elements", no_elements, "all shapes of up to 4 dimensions with lengths 0..2 and no elements x 10 types x 5 rates x 3 devices"},
    {"rejections", rejects, "17 rates in and out of range x types x shapes x devices"},
    {"restarts", restarts, "first calls of processes started at each pair of 18 times"},
    {"later_calls", later, "two calls in one process at each pair of 18 times x 10 types"},
    {"many_dimensions", many_dims, "~470 shapes of 9..300 and up to 66000 dimensions with up to ten lengths of 2 or 3 x 10 types x 3 rates"},
    {"mid_sizes", mid_sizes, "all shapes of two and three dimensions with 12 lengths in 1..300 and up to 150000 elements x rates 0 and 1, a type each"},
  }, {"the random source is rand() seeded by srand(), replaced by the explorer's; time() likewise", "rates are whole percents", "a NaN rate is excluded"}};
  if (mc::tier_thorough()) c.suites.push_back({"huge", huge_rates, "more than 2^31 elements, rates 0, 1/2 and 1", 1800});
  return mc::run(argc, argv, c);
}
