// The observations made on one call.
#pragma once
#include "cases.h"

void run_value(const Case& c);       // status and result agree with the reference model
void run_value(const Case& c, const Expect& e);
inline Case mk(Op op, std::vector<RT> in) { Case c; c.op = op; c.in = std::move(in); return c; }
inline RT mkrt(int dt, const Dims& d, Pat p, int salt, int dev = 0) { RT t(dt, d, dev); fill(t, p, salt); return t; }
std::string allowed_names(unsigned a);

void plain(const std::vector<Op>& ops);   // contents without variety: constant, ascending, descending, one element apart
// When set, run_value() hands the call to this judge instead of comparing its result (see spaces.h).
extern void (*judge)(const Case&, const Expect&);
