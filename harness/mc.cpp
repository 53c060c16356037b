#include "mc.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
namespace {

const int kMaxDepth = 2048, kHist = 64, kHistDepth = 96, kMaxWorkers = 16, kNote = 6000;
const size_t kClaims = 1u << 24, kOut = 1u << 22;
const int EXIT_FAIL = 77, EXIT_DIVERGED = 78, EXIT_NOTREPRO = 0, EXIT_INTERNAL = 79;

struct Step { uint16_t v, n; };
struct HistEnt { int n; Step s[kHistDepth]; };

struct Worker {
  std::atomic<uint64_t> t_start;  // ns, 0 when idle
  uint64_t execs, skipped, states, transitions, evals, claims, knowns;
  int n;
  Step path[kMaxDepth];
  uint64_t nhist;
  HistEnt hist[kHist];
  char note[kNote];
  char failmsg[kNote];
  char sample[3][kNote];
  int nsample;
  int finished;
};

struct Shared {
  Worker w[kMaxWorkers];
  std::atomic<uint64_t> distinct;
  std::atomic<uint64_t> out[kOut];
  std::atomic<uint8_t> claim[kClaims];
  char known_hit[64];
};

Shared* S;
bool g_known_hit[64];   // over all suites
Worker* W;            // of this process
int g_w = 0, g_nw = 8;
bool g_thorough = false;
unsigned g_seed = 1;

enum Mode { EXPLORE, REPLAY, SHARD } g_mode = EXPLORE;
bool g_verbose = false;
const Suite* g_suite;
const char* g_prop;

// exploration state
int g_pos = 0;
int g_changed = 0;      // index of the first step that differs from the previous execution
int g_startpos = -1;
uint64_t g_ord = 0;
bool g_claimed = false;

struct Prune {};
struct Skip {};

struct Known { std::string prop, sig, text; };
std::vector<Known> g_known;

uint64_t now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }

void* shmem(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  return p;
}

void begin_exec() {
  g_pos = 0; g_startpos = -1;
  W->t_start.store(now_ns(), std::memory_order_relaxed);
}

void remember() {
  HistEnt& h = W->hist[W->nhist % kHist];
  h.n = W->n < kHistDepth ? W->n : kHistDepth;
  memcpy(h.s, W->path, sizeof(Step) * h.n);
  W->nhist++;
}

// One complete depth-first exploration.
void explore() {
  W->n = 0; g_changed = 0; g_ord = 0; g_claimed = false;
  for (;;) {
    begin_exec();
    W->failmsg[0] = 0;
    bool pruned = false, skipped = false;
    try { g_suite->body(); } catch (Prune&) { pruned = true; } catch (Skip&) { skipped = true; }
    if (!pruned) {
      if (g_startpos < 0 && !skipped) { fprintf(stderr, "mc: body without start()\n"); _exit(EXIT_INTERNAL); }
      if (g_pos < W->n) { fprintf(stderr, "mc: diverged (path shorter)\n"); _exit(EXIT_DIVERGED); }
      if (g_startpos >= 0) {
        int from = g_changed > g_startpos ? g_changed : g_startpos;
        if (W->n > from) W->states += W->n - from;
        W->transitions += W->n;
        if (skipped) W->skipped++; else { W->execs++; W->evals++; }
        remember();
      }
    }
    // backtrack
    int i = W->n - 1;
    while (i >= 0 && W->path[i].v + 1 >= W->path[i].n) i--;
    if (i < 0) break;
    W->path[i].v++;
    W->n = i + 1;
    g_changed = i;
  }
  W->t_start.store(0);
}

std::string read_file(const std::string& f, size_t max = 20000) {
  std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str();
  if (s.size() > max) s = s.substr(0, max);
  return s;
}

std::string logname(const char* what) {
  return fmt("%s/mc-%d-%s.log", getenv("MC_TMP") ? getenv("MC_TMP") : "/tmp", (int)getpid(), what);
}

void child_setup(const std::string& log) {
  setpgid(0, 0);
  int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
  int nul = open("/dev/null", O_RDONLY); if (nul >= 0) { dup2(nul, 0); close(nul); }
  rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}

struct Outcome { bool bad = false, timeout = false, diverged = false; int status = 0; std::string why, note, log; };

// Run a list of paths one after another in a fresh process.  Only the last may be expected to fail.
Outcome run_paths(const std::vector<std::vector<Step>>& paths, double limit_s, bool shard, int w) {
  std::string log = logname("replay");
  Worker* rec = (Worker*)shmem(sizeof(Worker));
  pid_t p = fork();
  if (p == 0) {
    child_setup(log);
    W = rec; g_w = w; g_verbose = true;
    if (shard) {
      g_mode = SHARD; g_verbose = false;
      explore();
      _exit(EXIT_NOTREPRO);
    }
    g_mode = REPLAY;
    for (auto& path : paths) {
      memcpy(W->path, path.data(), path.size() * sizeof(Step));
      W->n = (int)path.size(); W->failmsg[0] = 0; W->note[0] = 0;
      begin_exec();
      try { g_suite->body(); } catch (Prune&) {} catch (Skip&) {}
    }
    _exit(EXIT_NOTREPRO);
  }
  Outcome o;
  uint64_t t0 = now_ns();
  int st = 0;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    double el = (now_ns() - t0) / 1e9;
    bool hung = el > limit_s;
    if (shard) {   // the shard may run long; a single execution may not
      uint64_t ts = rec->t_start.load();
      hung = (ts && (now_ns() - ts) / 1e9 > 40) || el > limit_s;
    }
    if (hung) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); o.timeout = true; break; }
    usleep(2000);
  }
  o.status = st;
  o.note = rec->note;
  o.log = read_file(log);
  unlink(log.c_str());
  if (o.timeout) { o.bad = true; o.why = fmt("the call did not return within %.0f s", limit_s); }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_NOTREPRO) {}
  else if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_DIVERGED) o.diverged = true;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL) { o.bad = true; o.why = rec->failmsg; }
  else if (WIFEXITED(st)) {
    o.bad = true;
    size_t a = o.log.find("ERROR: AddressSanitizer");
    std::string l = a == std::string::npos ? fmt("the process exited with code %d", WEXITSTATUS(st)) : o.log.substr(a, 200);
    l = l.substr(0, l.find('\n'));
    o.why = "the process was ended: " + l;
  } else { o.bad = true; o.why = fmt("the process was ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); }
  munmap(rec, sizeof(Worker));
  return o;
}

std::string path_str(const std::vector<Step>& p) {
  std::string s;
  for (auto& x : p) s += fmt("%d/%d ", x.v, x.n);
  return s;
}

std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}

struct SuiteStats { std::string name, rule; uint64_t execs = 0, skipped = 0, states = 0, transitions = 0, evals = 0, distinct = 0, knowns = 0; double wall = 0; bool complete = true; std::vector<std::string> samples; };

bool report_violation(const Suite& s, const std::vector<std::vector<Step>>& paths, const Outcome& o, const char* how) {
  const char* dir = getenv("MC_EVIDENCE") ? getenv("MC_EVIDENCE") : "/verif/evidence";
  mkdir(dir, 0755);
  std::string f = fmt("%s/%s.replay", dir, g_prop);
  std::ofstream out(f);
  out << "property " << g_prop << "\nsuite " << s.name << "\ntier " << (g_thorough ? "thorough" : "quick") << "\nseed " << g_seed << "\n";
  for (auto& p : paths) out << "path " << path_str(p) << "\n";
  out << "# confirmed by: " << how << "\n# what failed: " << o.why << "\n# execution:\n";
  std::stringstream n(o.note); std::string l;
  while (getline(n, l)) out << "#   " << l << "\n";
  out << "# log of the replay:\n";
  std::stringstream g(o.log.substr(0, 6000));
  while (getline(g, l)) out << "#   " << l << "\n";
  out << "# replay: ./check " << g_prop << " --replay " << f << "\n";
  out.close();
  printf("%s/%s: %s\n", g_prop, s.name, o.why.c_str());
  if (!o.note.empty()) printf("  execution: %s\n", o.note.c_str());
  printf("VIOLATION property=%s replay=%s\n", g_prop, f.c_str());
  fflush(stdout);
  return true;
}

// Reproduce the failure of worker rec in fresh processes, shortest prefix of calls first.
// 1: confirmed and reported, 0: could not be reproduced
int confirm(const Suite& s, Worker& rec, int w, bool timeout, const std::string& wlog) {
  std::vector<Step> last(rec.path, rec.path + rec.n);
  std::vector<std::vector<Step>> hist;   // older executions of this worker, oldest first
  uint64_t n = rec.nhist < kHist ? rec.nhist : kHist;
  for (uint64_t i = rec.nhist - n; i < rec.nhist; i++) {
    HistEnt& h = rec.hist[i % kHist];
    if (h.n < kHistDepth) hist.push_back(std::vector<Step>(h.s, h.s + h.n));
  }
  double limit = timeout ? 45 : 60;
  if (s.hang * 1.8 > limit) limit = s.hang * 1.8;
  int lens[] = {0, 1, 2, 4, 8, 16, 32, 64};
  size_t done = (size_t)-1;
  for (int len : lens) {
    size_t k = (size_t)len < hist.size() ? len : hist.size();
    if (k == done) break;
    done = k;
    std::vector<std::vector<Step>> paths(hist.end() - k, hist.end());
    paths.push_back(last);
    Outcome o = run_paths(paths, limit, false, w);
    if (o.bad) {
      // twice, with the same verdict
      Outcome o2 = timeout ? o : run_paths(paths, limit, false, w);
      if (o2.bad) { report_violation(s, paths, o2, k ? fmt("replay after the %zu executions before it", k).c_str() : "replay of this execution alone"); return 1; }
    }
    if (o.diverged) break;
    if (timeout) break;
  }
  if (timeout) return 0;
  Outcome o = run_paths({}, 900, true, w);
  if (o.bad) {
    if (o.note.empty()) o.note = "(found only after the whole sequence of executions of this worker)";
    report_violation(s, {last}, o, "re-running the worker's whole sequence of executions in a fresh process");
    return 1;
  }
  printf("%s/%s: a failure could not be reproduced: %s\n%s\n", g_prop, s.name, rec.failmsg, wlog.substr(0, 3000).c_str());
  return 0;
}

// 0 ok, 1 violation, 2 error
int run_suite(const Suite& s, SuiteStats& st, uint64_t deadline) {
  g_suite = &s;
  for (int i = 0; i < 64; i++) g_known_hit[i] |= S->known_hit[i] != 0;
  memset((void*)S, 0, sizeof(Worker) * kMaxWorkers);
  madvise((void*)S, sizeof(Shared), MADV_REMOVE);
  uint64_t d0 = 0;
  S->distinct = 0;
  st.name = s.name; st.rule = s.rule;
  uint64_t t0 = now_ns();
  pid_t pid[kMaxWorkers]; std::string logs[kMaxWorkers]; bool alive[kMaxWorkers];
  fflush(stdout); fflush(stderr);
  for (int w = 0; w < g_nw; w++) {
    logs[w] = logname(fmt("w%d", w).c_str());
    pid[w] = fork();
    if (pid[w] == 0) {
      child_setup(logs[w]);
      W = &S->w[w]; g_w = w; g_mode = EXPLORE;
      explore();
      W->finished = 1;
      _exit(0);
    }
    if (pid[w] < 0) { perror("fork"); return 2; }
    alive[w] = true;
  }
  int live = g_nw, bad = -1; bool timeout = false; int badst = 0;
  auto killall = [&]() {
    for (int w = 0; w < g_nw; w++) if (alive[w]) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); int x; waitpid(pid[w], &x, 0); alive[w] = false; }
    live = 0;
  };
  const double hang_s = getenv("MC_HANG") ? atof(getenv("MC_HANG")) : s.hang > 0 ? s.hang : 25;
  while (live > 0 && bad < 0) {
    bool any = false;
    for (int w = 0; w < g_nw && bad < 0; w++) {
      if (!alive[w]) continue;
      int x; pid_t r = waitpid(pid[w], &x, WNOHANG);
      if (r == pid[w]) {
        any = true; alive[w] = false; live--;
        if (!(WIFEXITED(x) && WEXITSTATUS(x) == 0 && S->w[w].finished)) { bad = w; badst = x; }
        continue;
      }
      uint64_t ts = S->w[w].t_start.load();
      if (ts && now_ns() > ts && (now_ns() - ts) / 1e9 > hang_s) { bad = w; timeout = true; }
    }
    if (bad >= 0) break;
    if (now_ns() > deadline) { st.complete = false; killall(); break; }
    if (!any) usleep(3000);
  }
  int rc = 0;
  if (bad >= 0) {
    killall();
    Worker* rec = (Worker*)malloc(sizeof(Worker));
    memcpy((void*)rec, (void*)&S->w[bad], sizeof(Worker));
    std::string wl = read_file(logs[bad]);
    if (WIFEXITED(badst) && !timeout && (WEXITSTATUS(badst) == EXIT_DIVERGED || WEXITSTATUS(badst) == EXIT_INTERNAL)) {
      printf("%s/%s: internal error of the harness (%d)\n%s\n", g_prop, s.name, WEXITSTATUS(badst), wl.substr(0, 2000).c_str());
      rc = 2;
    } else {
      int c = confirm(s, *rec, bad, timeout, wl);
      rc = c ? 1 : 2;
    }
    free(rec);
  }
  for (int w = 0; w < g_nw; w++) {
    unlink(logs[w].c_str());
    Worker& k = S->w[w];
    st.execs += k.execs; st.skipped += k.skipped; st.states += k.states + k.claims; st.transitions += k.transitions;
    st.evals += k.evals; st.knowns += k.knowns;
    for (int i = 0; i < k.nsample && st.samples.size() < 3; i++) if (w == (int)st.samples.size() * 3 % g_nw || w > 4) st.samples.push_back(k.sample[i]);
  }
  if (st.samples.empty()) for (int w = 0; w < g_nw; w++) for (int i = 0; i < S->w[w].nsample && st.samples.size() < 2; i++) st.samples.push_back(S->w[w].sample[i]);
  st.states += 1;
  st.distinct = S->distinct - d0;
  st.wall = (now_ns() - t0) / 1e9;
  return rc;
}

void load_known() {
  const char* f = getenv("MC_KNOWN"); if (!f) return;
  std::ifstream in(f); std::string l;
  while (getline(in, l)) {
    // known: property=C01 sig=<text up to end of line>
    if (l.rfind("known:", 0) != 0) continue;
    size_t a = l.find("property="), b = l.find(" sig=");
    if (a == std::string::npos || b == std::string::npos) continue;
    Known k; k.prop = l.substr(a + 9, l.find(' ', a) - a - 9); k.sig = l.substr(b + 5);
    if (k.prop == g_prop) g_known.push_back(k);
  }
}

}  // namespace

std::string fmt(const char* f, ...) {
  va_list ap; va_start(ap, f); char buf[8192]; int n = vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  return std::string(buf, n < (int)sizeof buf ? n : sizeof buf - 1);
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = (h ^ v) * 0x9fb21c651e98df25ull; h ^= h >> 29; c += 8; n -= 8; }
  while (n--) { h ^= *c++; h *= 1099511628211ull; }
  return h;
}

bool thorough() { return g_thorough; }
bool tier_thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
unsigned seed() { return g_seed; }
bool replaying() { return g_mode == REPLAY; }

int choose(int n) {
  if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); _exit(EXIT_INTERNAL); }
  if (g_pos >= kMaxDepth) { fprintf(stderr, "mc: too deep\n"); _exit(EXIT_INTERNAL); }
  if (g_pos < W->n) {
    if (W->path[g_pos].n != n) {
      fprintf(stderr, "mc: replay diverged at step %d: %d alternatives, recorded %d\n", g_pos, n, W->path[g_pos].n);
      _exit(EXIT_DIVERGED);
    }
    return W->path[g_pos++].v;
  }
  if (n > 65535) { fprintf(stderr, "mc: too many alternatives\n"); _exit(EXIT_INTERNAL); }
  W->path[g_pos].v = 0; W->path[g_pos].n = n; W->n = ++g_pos;
  return 0;
}

bool started() { return g_startpos >= 0; }

void start() {
  if (g_startpos >= 0) { fprintf(stderr, "mc: start() twice\n"); _exit(EXIT_INTERNAL); }
  g_startpos = g_pos;
  if (g_mode == REPLAY) return;
  bool fresh = g_changed < g_pos || (g_ord == 0);
  if (fresh) {
    uint64_t o = g_ord++;
    if (g_mode == SHARD) g_claimed = o < kClaims ? S->claim[o].load() == g_w + 1 : (int)(o % g_nw) == g_w;
    else if (o < kClaims) {
      uint8_t z = 0;
      g_claimed = S->claim[o].compare_exchange_strong(z, (uint8_t)(g_w + 1));
    } else g_claimed = (int)(o % g_nw) == g_w;
    if (g_claimed) W->claims++;
  }
  if (!g_claimed) throw Prune();
}

void skip() { throw Skip(); }

static bool known_failure() {
  for (auto& k : g_known)
    if (strstr(W->failmsg, k.sig.c_str())) {
      W->knowns++;
      int i = (int)(&k - &g_known[0]);
      if (i < 64) S->known_hit[i] = 1;
      return true;
    }
  return false;
}
void fail(const char* f, ...) {
  va_list ap; va_start(ap, f); vsnprintf(W->failmsg, kNote, f, ap); va_end(ap);
  if (known_failure()) throw Skip();
  fprintf(stderr, "mc: %s\n", W->failmsg);
  _exit(EXIT_FAIL);
}
void deviation(const char* f, ...) {
  va_list ap; va_start(ap, f); vsnprintf(W->failmsg, kNote, f, ap); va_end(ap);
  if (known_failure()) return;
  fprintf(stderr, "mc: %s\n", W->failmsg);
  _exit(EXIT_FAIL);
}

void describe(const std::function<std::string()>& f) {
  if (g_mode == REPLAY || g_verbose) {
    std::string s = f(); snprintf(W->note, kNote, "%s", s.c_str());
    return;
  }
  if (W->nsample < 3 && (W->execs == 0 || W->execs == 37 || W->execs == 1009)) {
    std::string s = f(); snprintf(W->sample[W->nsample++], kNote, "%.900s", s.c_str());
  }
}

void outcome(uint64_t h) {
  if (!h) h = 1;
  if (S->distinct.load(std::memory_order_relaxed) > kOut * 3 / 4) return;
  size_t i = (h * 0x9e3779b97f4a7c15ull) >> 42;
  for (;;) {
    uint64_t c = S->out[i].load(std::memory_order_relaxed);
    if (c == h) return;
    if (!c) {
      if (S->out[i].compare_exchange_strong(c, h)) { S->distinct++; return; }
      if (c == h) return;
    }
    i = (i + 1) & (kOut - 1);
  }
}

void evals(uint64_t n) { W->evals += n; }
void paths(uint64_t n) { W->states += n; W->transitions += n; }

std::vector<Suite>* collect = nullptr;
int run(int argc, char** argv, const Check& c) {
  if (collect) { collect->insert(collect->end(), c.suites.begin(), c.suites.end()); return 0; }
  g_prop = c.property;
  if (!getenv("MC_NOASLR_DONE")) {   // a fixed address space makes replays exact; not essential
    setenv("MC_NOASLR_DONE", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  const char* t = getenv("VERIF_TIER"); g_thorough = t && !strcmp(t, "thorough");
  const char* sd = getenv("VERIF_SEED"); g_seed = sd ? atoi(sd) : 1;
  const char* only = nullptr; const char* replay = nullptr;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--suite") && i + 1 < argc) only = argv[++i];
    if (!strcmp(argv[i], "--replay") && i + 1 < argc) replay = argv[++i];
  }
  if (getenv("MC_WORKERS")) g_nw = atoi(getenv("MC_WORKERS"));
  else { long n = sysconf(_SC_NPROCESSORS_ONLN); g_nw = n < 1 ? 1 : n > 8 ? 8 : (int)n; }
  S = (Shared*)shmem(sizeof(Shared));
  load_known();
  uint64_t t0 = now_ns();
  double cap = getenv("MC_CAP") ? atof(getenv("MC_CAP")) : (g_thorough ? 6 * 3600 : 700);
  uint64_t deadline = t0 + (uint64_t)(cap * 1e9);

  if (replay) {
    std::ifstream in(replay); std::string l; std::vector<std::vector<Step>> paths; std::string suite;
    while (getline(in, l)) {
      std::stringstream ss(l); std::string k; ss >> k;
      if (k == "suite") ss >> suite;
      if (k == "tier") { std::string x; ss >> x; g_thorough = x == "thorough"; }
      if (k == "path") {
        std::vector<Step> p; std::string x;
        while (ss >> x) { Step s; s.v = atoi(x.c_str()); s.n = atoi(x.c_str() + x.find('/') + 1); p.push_back(s); }
        paths.push_back(p);
      }
    }
    for (auto& s : c.suites) if (suite == s.name) {
      g_suite = &s;
      Outcome o = run_paths(paths, 120, false, 0);
      printf("%s\n%s\n%s\n", o.note.c_str(), o.bad ? o.why.c_str() : o.diverged ? "diverged" : "no violation on this replay", o.log.c_str());
      if (o.bad) printf("VIOLATION property=%s replay=%s\n", g_prop, replay);
      return o.bad ? 1 : 0;
    }
    printf("no such suite\n"); return 2;
  }

  std::vector<SuiteStats> all; int rc = 0;
  for (auto& s : c.suites) {
    if (only && strcmp(only, s.name)) continue;
    SuiteStats st;
    int r = run_suite(s, st, deadline);
    all.push_back(st);
    printf("%s/%-22s executions=%-10llu states=%-10llu evaluations=%-12llu outcomes=%-8llu skipped=%-7llu %.1fs%s\n", g_prop, s.name, (unsigned long long)st.execs,
           (unsigned long long)st.states, (unsigned long long)st.evals, (unsigned long long)st.distinct, (unsigned long long)st.skipped, st.wall, st.complete ? "" : " (time cap reached)");
    fflush(stdout);
    if (r) { rc = r; break; }
    if (st.complete && st.execs == 0 && st.knowns == 0 && !s.may_be_empty) { printf("%s/%s: vacuous\n", g_prop, s.name); rc = 2; break; }
  }
  for (int i = 0; i < 64; i++) g_known_hit[i] |= S->known_hit[i] != 0;
  for (size_t i = 0; i < g_known.size() && i < 64; i++)
    if (g_known_hit[i]) printf("KNOWN-FINDING: property=%s %s\n", g_prop, g_known[i].sig.c_str());

  // evidence
  SuiteStats T; bool complete = true;
  for (auto& s : all) { T.execs += s.execs; T.states += s.states; T.transitions += s.transitions; T.evals += s.evals; T.distinct += s.distinct; T.skipped += s.skipped; complete &= s.complete; }
  const char* dir = getenv("MC_EVIDENCE") ? getenv("MC_EVIDENCE") : "/verif/evidence";
  mkdir(dir, 0755);
  if (!only) {
    std::ofstream o(fmt("%s/%s.json", dir, g_prop));
    o << "{\n \"property\": " << jstr(g_prop) << ",\n \"tier\": " << (g_thorough ? "\"thorough\"" : "\"quick\"") << ",\n \"seed\": " << g_seed
      << ",\n \"level\": " << jstr(c.level) << ",\n \"coverage\": {\n  \"states\": " << T.states << ",\n  \"transitions\": " << T.transitions
      << ",\n  \"traces_validated_against_impl\": " << T.execs << ",\n  \"evaluations\": " << T.evals << ",\n  \"distinct_nontrivial\": " << T.distinct
      << ",\n  \"rule\": " << jstr("Every answer sequence of every suite below is executed on the real code (states = distinct choice prefixes, transitions = choices taken, traces = complete executions compared with the reference model, evaluations = comparisons including those inside one execution). distinct_nontrivial counts distinct observed outcomes.")
      << ",\n  \"exhaustive\": " << (complete && rc == 0 ? "true" : "false") << ",\n  \"outside_domain\": " << T.skipped << ",\n  \"suites\": [";
    for (size_t i = 0; i < all.size(); i++) {
      auto& s = all[i];
      o << (i ? "," : "") << "\n   {\"name\": " << jstr(s.name) << ", \"space\": " << jstr(s.rule) << ", \"executions\": " << s.execs << ", \"states\": " << s.states
        << ", \"transitions\": " << s.transitions << ", \"evaluations\": " << s.evals << ", \"distinct_outcomes\": " << s.distinct << ", \"complete\": " << (s.complete ? "true" : "false") << ", \"wall_s\": " << fmt("%.2f", s.wall) << "}";
    }
    o << "\n  ],\n  \"samples\": [";
    bool first = true;
    for (auto& s : all) for (auto& x : s.samples) { o << (first ? "" : ",") << "\n   " << jstr(s.name + ": " + x); first = false; }
    o << "\n  ]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < c.assumptions.size(); i++) o << (i ? "," : "") << "\n  " << jstr(c.assumptions[i]);
    o << "\n ],\n \"wall_s\": " << fmt("%.2f", (now_ns() - t0) / 1e9) << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
  }
  return rc;
}

}  // namespace mc
