// The call spaces of the value checks (C05..C16), judged by another check's judge.
#pragma once
#include "live.h"
#define ENTRY(x) int entry_##x(int, char**);
ENTRY(c05) ENTRY(c06) ENTRY(c07) ENTRY(c08) ENTRY(c10) ENTRY(c11) ENTRY(c12) ENTRY(c13) ENTRY(c14) ENTRY(c15) ENTRY(c16)

// want: names "C12/groups" that must hold calls the judge accepts; besides these every space outside `never` and, in the quick
// tier, outside `slow` (a name "C12/groups", a suite "*/mid_sizes" of every check, or all of a check "C06").
inline void add_spaces(mc::Check& c, void (*j)(const Case&, const Expect&), const std::vector<std::string>& want, const std::vector<std::string>& slow, const std::vector<std::string>& never = {}) {
  typedef int (*E)(int, char**);
  static const struct { const char* id; E f; } es[] = {{"C05", entry_c05}, {"C06", entry_c06}, {"C07", entry_c07}, {"C08", entry_c08}, {"C10", entry_c10}, {"C11", entry_c11},
    {"C12", entry_c12}, {"C13", entry_c13}, {"C14", entry_c14}, {"C15", entry_c15}, {"C16", entry_c16}};
  static const std::vector<std::string> direct = {"C06/unknown_type", "C16/every_float", "C16/long", "C05/long"};   // do not go through run_value, or too long
  auto has = [](const std::vector<std::string>& v, const std::string& n, const char* id) { for (auto& x : v) if (x == n || x == id || (x[0] == '*' && n.size() >= x.size() && n.substr(n.find('/')) == x.substr(1))) return true; return false; };
  judge = j;
  for (auto& e : es) {
    std::vector<mc::Suite> v; mc::collect = &v; char* none[] = {nullptr}; e.f(0, none); mc::collect = nullptr;
    for (auto& s : v) {
      std::string n = std::string(e.id) + "/" + s.name;
      if (n.find("huge") != n.npos || has(direct, n, "") || (!has(want, n, "") && has(never, n, e.id))) continue;
      if (!has(want, n, "") && !mc::tier_thorough() && has(slow, n, e.id)) continue;
      s.name = strdup(n.c_str());
      s.may_be_empty = !has(want, n, "");
      c.suites.push_back(s);
    }
  }
  for (auto& w : want) { bool f = false; for (auto& s : c.suites) f |= w == s.name; if (!f) { fprintf(stderr, "no space %s\n", w.c_str()); exit(2); } }
}
