// Shared by the differentiation checks.
#ifndef VM_HARNESS_DIFFGEN_HPP
#define VM_HARNESS_DIFFGEN_HPP
#include "core.hpp"

// compares the directional derivative of ref with the value of got; returns the number of decidable points
inline int agree_derivative(N const & ref, N const & got, Env base, Src & s, size_t nvars, int tries, std::string const & what)
{
  int decided = 0;
  for (int t = 0; t < tries; ++t)
  {
    Env env = base; env.x = point(s, std::min(nvars, size_t(17))); env.margin = 1e6L;
    if (nvars > 17) { env.x.resize(nvars, 0.5); env.x.back() = coord(s); }
    for (unsigned long id = 0; id < 3; ++id) { env.fs[{id, tag_unknown()}] = 0.4 + coord(s) * 0.13 + 0.21 * id; env.fs[{id, tag_test()}] = 0.9 + coord(s) * 0.07 - 0.11 * id; }
    Num a = evaln(ref, env); if (a.st) continue;
    Env plain = env; plain.dvar = -1; plain.dfs = false; plain.margin = 1e3L;
    Num b = evaln(got, plain);
    if (b.st == 1) continue;
    CHECK(b.st == 0, what << ": the derivative " << show(got) << " is undefined at " << show(env.x) << " where it should be " << num(double(a.d)) << " (of " << show(ref) << ")");
    if (a.de > 1e-4L * std::max((R)1, std::fabs(a.d)) || b.e > 1e-4L * std::max((R)1, std::fabs(b.v))) continue;
    CHECK(close_to(a.d, a.de, b.v, b.e), what << ": the derivative of " << show(ref) << " has the value " << num(double(b.v)) << " instead of " << num(double(a.d)) << " at " << show(env.x) << "; it reads " << show(got));
    ++decided;
  }
  return decided;
}
template <typename T> inline E diff_ct(T const & e, unsigned long id)
{
  E r;
  if (!with_ct_var(id, [&](auto const & v) { r = vm::diff(e, v); })) r = vm::diff(e, V(id));
  return r;
}
#endif
