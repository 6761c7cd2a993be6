// Shared by the substitution checks.
#ifndef VM_HARNESS_SUBSTGEN_HPP
#define VM_HARNESS_SUBSTGEN_HPP
#include "core.hpp"

// calls f with the concrete object (rt_constant, rt_variable, ...) of a model tree
template <typename FN> auto with_concrete(N const & n, FN f) -> decltype(f(std::declval<C const &>()))
{
  switch (n->k)
  {
    case CONST: { C x(n->v); return f(x); }
    case LCONST: return with_lconst(n, f);
    case VAR: { V x(n->id); return f(x); }
    case FS: { F x(n->id, n->tag); return f(x); }
    case BIN: { B x = build_b(n); return f(x); }
    case VEC: { X x = build_x(n); return f(x); }
    default: { U x = build_u(n); return f(x); }
  }
}
// the same without vector expressions (f is not instantiated for them)
template <typename FN> auto with_scalar(N const & n, FN f) -> decltype(f(std::declval<C const &>()))
{
  switch (n->k)
  {
    case CONST: { C x(n->v); return f(x); }
    case LCONST: return with_lconst(n, f);
    case VAR: { V x(n->id); return f(x); }
    case FS: { F x(n->id, n->tag); return f(x); }
    case BIN: { B x = build_b(n); return f(x); }
    default: { U x = build_u(n); return f(x); }
  }
}
inline void subst_flags(Gen & g, unsigned m)
{
  g.far_vars = true;
  if (m >= 2) { g.fs = true; g.other_tag = true; }
  if (m >= 4) g.grad = g.diverg = g.pd = true;
  if (m >= 6) { g.intg = g.sint = true; g.intg_const_bounds = m == 6; }
}
inline bool occurs(N const & n, N const & pat, bool bounds_only = false)
{
  if (!bounds_only && same(n, pat)) return true;
  size_t lim = n->k == INTG ? 1 : n->c.size();
  for (size_t i = 0; i < lim; ++i) if (occurs(n->c[i], pat, bounds_only)) return true;
  if (bounds_only) for (size_t i = lim; i < n->c.size(); ++i) if (occurs(n->c[i], pat)) return true;
  return false;
}
inline size_t occurrences(N const & n, N const & pat)
{
  if (same(n, pat)) return 1;
  size_t r = 0, lim = n->k == INTG ? 1 : n->c.size();
  for (size_t i = 0; i < lim; ++i) r += occurrences(n->c[i], pat);
  return r;
}
// mixing 6 (double) and 6 (long) is left open: is one an occurrence of the other?
inline bool constants_mixed(N const & e, N const & pat)
{
  auto types = [](N const & t) { unsigned m = 0; any_node(t, [&](Node const & x) { if (x.k == CONST) m |= 1; if (x.k == LCONST) m |= 2u << x.id; return false; }); return m; };
  unsigned a = types(e), b = types(pat), both = a | b;
  return a && b && (both & (both - 1));
}
// places copies of a tree at random positions of another one
inline N implant(Src & s, N e, N const & what, unsigned times)
{
  for (unsigned i = 0; i < times; ++i)
  {
    std::vector<N> subs; collect_main(e, subs);
    N t = subs[s.below(unsigned(subs.size()))];
    static const int ops[] = { ADD, SUB, MUL, DIV };
    N r; unsigned k = s.below(4);
    int op = ops[s.below(4)];
    if (k == 0) r = what; else if (k == 1) r = m_bin(op, t, what); else if (k == 2) r = m_bin(op, what, t); else r = m_un(s.chance(1, 2) ? U_SIN : U_EXP, m_bin(op, what, t));
    bool done = false;
    std::function<N(N const &)> put = [&](N const & n) -> N {
      if (done) return n;
      if (n == t) { done = true; return r; }
      size_t lim = n->k == INTG ? 1 : n->c.size(); if (!lim) return n;
      Node m = *n; for (size_t j = 0; j < lim; ++j) m.c[j] = put(n->c[j]); return mk(m);
    };
    e = put(e);
  }
  return e;
}
inline N simplified(N const & n) { E x = build(n); E y = vm::simplify(x); return reify(y); }
inline N simplified(E const & e) { E y = vm::simplify(e); return reify(y); }

// Normal form of a model tree, independent of the library: folds constants and removes neutral and absorbing operands.
struct NotFinite {};
inline N m_num(double v) { if (!std::isfinite(v)) throw NotFinite(); return m_const(v); }
inline bool is_zero(N const & n) { return is_num(n) && n->v == 0; }
inline bool is_one(N const & n) { return is_num(n) && n->v == 1; }
inline N norm(N const & n)
{
  if (is_num(n)) return m_num(n->v);
  if (n->c.empty()) return n;
  Node m = *n;
  size_t lim = n->k == INTG ? 1 : n->c.size();
  for (size_t i = 0; i < lim; ++i) m.c[i] = norm(n->c[i]);
  if (n->k == UN && n->op <= U_LOG10 && is_num(m.c[0]))
  {
    double a = m.c[0]->v;
    switch (n->op)
    {
      case U_ID: return m_num(a); case U_EXP: return m_num(std::exp(a)); case U_SIN: return m_num(std::sin(a)); case U_COS: return m_num(std::cos(a));
      case U_TAN: return m_num(std::tan(a)); case U_FABS: return m_num(std::fabs(a)); case U_SQRT: return m_num(std::sqrt(a)); case U_LOG: return m_num(std::log(a)); default: return m_num(std::log10(a));
    }
  }
  if (n->k != BIN) return mk(m);
  N a = m.c[0], b = m.c[1];
  if (is_num(a) && is_num(b))
    switch (n->op) { case ADD: return m_num(a->v + b->v); case SUB: return m_num(a->v - b->v); case MUL: return m_num(a->v * b->v); default: return m_num(a->v / b->v); }
  switch (n->op)
  {
    case ADD: if (is_zero(a)) return b; if (is_zero(b)) return a; break;
    case SUB: if (is_zero(b)) return a; if (is_zero(a)) return norm(m_bin(MUL, m_const(-1), b)); break;
    case MUL:
      if (is_zero(a) || is_zero(b)) return m_const(0);
      if (is_one(a)) return b; if (is_one(b)) return a;
      if (a->k == VEC && b->k == VEC && a->c.size() == b->c.size() && !a->c.empty())
      { N r = m_bin(MUL, a->c[0], b->c[0]); for (size_t i = 1; i < a->c.size(); ++i) r = m_bin(ADD, r, m_bin(MUL, a->c[i], b->c[i])); return norm(r); }
      break;
    default: if (is_zero(a)) { if (is_zero(b)) throw NotFinite(); return m_const(0); } if (is_one(b)) return a; break;
  }
  return mk(m);
}
inline bool same_tol(N const & a, N const & b)
{
  if (is_num(a) && is_num(b)) return a->v == b->v || std::fabs(a->v - b->v) <= 1e-11 * std::max(std::fabs(a->v), std::fabs(b->v));
  if (a->k != b->k || a->op != b->op || a->id != b->id || a->tag != b->tag || a->c.size() != b->c.size()) return false;
  for (size_t i = 0; i < a->c.size(); ++i) if (!same_tol(a->c[i], b->c[i])) return false;
  return true;
}
// same tree up to simplification? 1 yes, 0 no, -1 not decidable (a constant part is infinite or undefined)
inline int same_norm(N const & a, N const & b)
{
  try { return same_tol(norm(a), norm(b)); } catch (NotFinite const &) { return -1; }
}
#endif
