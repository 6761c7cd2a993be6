// C04: deep_equal is exactly structural equality.
#include <algorithm>
#include "mutate.hpp"
#include "driver.hpp"
const char * const property_rule =
  "C04: random trees of all node kinds (vectors, integrals, symbolic integrals, formal operators) are compared with an independent rebuild, with single-point mutations (operation, operand order, constant by one ulp, index, kind, "
  "vector length, bounds, integration variable, ..) and with unrelated trees, in both directions and through all object types; non-trivial = the mutation really changed the tree";

static bool only_type_differs(N const & a, N const & b)     // equal up to the type of constants
{
  if (is_num(a) && is_num(b)) return a->v == b->v;
  if (a->k != b->k || a->op != b->op || a->c.size() != b->c.size()) return false;
  if (a->k != BIN && a->k != VEC && a->id != b->id) return false;
  if (a->k == FS && a->tag != b->tag) return false;
  for (size_t i = 0; i < a->c.size(); ++i) if (!only_type_differs(a->c[i], b->c[i])) return false;
  return true;
}

static void compare(N const & m, N const & n, unsigned form, const char * how)
{
  bool expect = same(m, n);
  if (!expect && only_type_differs(m, n)) return;
  E a = build(m), b = build(n);
  bool r1, r2;
  auto obj = [](N const & t, std::unique_ptr<I> & hold) -> I const * { hold.reset(raw(t)); return hold.get(); };
  std::unique_ptr<I> h1, h2;
  switch (form)
  {
    case 0: r1 = a.get()->deep_equal(b.get()); r2 = b.get()->deep_equal(a.get()); break;
    case 1: { I const * p = obj(m, h1); r1 = p->deep_equal(b.get()); r2 = b.get()->deep_equal(p); break; }
    default: { I const * p = obj(m, h1); I const * q = obj(n, h2); std::unique_ptr<I> c(q->clone()); r1 = p->deep_equal(c.get()); r2 = c->deep_equal(p); break; }
  }
  CHECK(r1 == expect, show(m) << " and " << show(n) << " (" << how << ") compare " << (r1 ? "equal" : "different"));
  CHECK(r2 == expect, show(n) << " and " << show(m) << " (" << how << ", reversed) compare " << (r2 ? "equal" : "different"));
  CHECK(same(reify(a), m) && same(reify(b), n), "comparison changed an expression");
}

void property(Src & s, Case & c)
{
  Gen g(s);
  unsigned rich = s.below(4);
  g.far_vars = true; g.lconst = s.chance(1, 4); g.other_tag = s.chance(1, 4);
  if (rich >= 1) g.fs = g.grad = g.diverg = g.pd = true;
  if (rich >= 2) g.intg = g.sint = true;
  N n = g.sized();
  if (s.chance(1, 4)) { std::vector<N> e; unsigned d = 1 + s.below(4); for (unsigned i = 0; i < d; ++i) e.push_back(g.expr(4)); N v = m_vec(e); n = s.chance(1, 3) ? v : m_bin(MUL, n, v); }
  if (rich >= 2 && s.chance(1, 3)) n = s.chance(2, 3) ? m_intg(n, g.expr(3), g.expr(3), g.var_id()) : m_sint(n, g.far_id(4));
  if (rich >= 2 && s.chance(1, 4)) n = m_bin(int(s.below(4)), n, m_intg(g.expr(4), g.leaf(), g.leaf(), g.var_id()));
  if (s.chance(1, 8)) n = m_un(int(s.below(12)), n);
  const char * how = "identical"; N m = n;
  unsigned mode = s.below(8);
  if (mode == 0) { m = n; }
  else if (mode == 1) { m = g.sized(); how = "unrelated"; }
  else { m = mutate(n, s, g, how); if (mode == 7) { const char * h2; m = mutate(m, s, g, h2); how = "two mutations"; } }
  unsigned form = s.below(3);
  c.desc = show(n) + " vs " + show(m) + " form " + std::to_string(form);
  compare(n, m, form, how);
  compare(n, n, form, "identical");
  if (mode >= 2) { compare(m, m, form, "identical"); }
  c.label(how);
  if (!same(n, m) && mode >= 2) c.nt();
}
