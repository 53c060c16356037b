// One call on live library tensors, for the checks that look at memory and side effects.
#pragma once
#include "run.h"

struct Live {
  const Case c;
  Args a;
  Tensor in[5] = {};
  Tensor out = nullptr;
  Status st = STATUS_INTERNAL_ERROR;
  explicit Live(const Case& c_) : c(c_), a(c) { make_inputs(c, in); }
  Live(const Live&) = delete;
  Status go() { return st = call(c, a, in, &out); }
  Status go(Tensor* o) { return call(c, a, in, o); }
  void drop_inputs() { unalias(in, c.in.size()); for (size_t i = 0; i < c.in.size(); i++) aitisa_destroy(&in[i]); }
  // inputs and parameters exactly as they were
  struct Snap { std::vector<RT> v; std::vector<Ident> id; };
  Snap snapshot() { Snap s; for (size_t i = 0; i < c.in.size(); i++) { s.v.push_back(snap(in[i])); s.id.push_back(ident(in[i])); } return s; }
  std::string changed(const Snap& s) {
    for (size_t i = 0; i < c.in.size(); i++) {
      if (!same(s.id[i], ident(in[i]))) return mc::fmt("input %zu changed its identity", i);
      std::string d = differs(s.v[i], snap(in[i]));
      if (!d.empty()) return mc::fmt("input %zu changed: %s", i, d.c_str());
      d = well_formed(in[i]);
      if (!d.empty()) return mc::fmt("input %zu: %s", i, d.c_str());
    }
    std::string why;
    if (!a.intact(c, &why)) return why;
    return "";
  }
};
extern const std::vector<Op> all_ops;
