// C06: simplification terminates, is idempotent, and leaves no trivial operation behind.
#include "twin.hpp"
#include "driver.hpp"
const char * const property_rule =
  "C06: random expression trees rich in constants and neutral elements are simplified; the result must not be simplifiable, must equal its own simplification, must contain none of the trivial "
  "operations (x+0, x-0, x*0, x*1, 0/x, x/1, operation on two literal constants) and must not be larger; non-trivial = simplification changed the tree";

static bool lit(N const & n, double v) { return is_num(n) && n->v == v; }
static N trivial_in(N const & n)
{
  if (n->k == BIN)
  {
    N a = n->c[0], b = n->c[1];
    if (is_num(a) && is_num(b)) return n;
    switch (n->op)
    {
      case ADD: if (lit(a, 0) || lit(b, 0)) return n; break;
      case SUB: if (lit(b, 0) || lit(a, 0)) return n; break;
      case MUL: if (lit(a, 0) || lit(b, 0) || lit(a, 1) || lit(b, 1)) return n; break;
      case DIV: if (lit(a, 0) || lit(b, 1)) return n; break;
    }
  }
  if (n->k == VEC) return N();
  size_t lim = n->k == INTG ? 1 : n->c.size();
  for (size_t i = 0; i < lim; ++i) { N r = trivial_in(n->c[i]); if (r) return r; }
  return N();
}
static bool finite_consts(N const & n) { return !any_node(n, [](Node const & x) { return x.k == CONST && !std::isfinite(x.v); }); }

void property(Src & s, Case & c)
{
  Gen g(s);
  g.fs = g.grad = g.diverg = g.pd = g.intg = g.sint = s.chance(1, 2);
  g.far_vars = true;
  g.lconst = s.chance(1, 6);
  N e = g.sized();
  unsigned deco = s.below(6);
  for (unsigned i = 0; i < deco; ++i)
  {
    std::vector<N> subs; collect_main(e, subs);
    N t = subs[s.below(unsigned(subs.size()))];
    static const double k[] = { 0, 1, -1, 2 };
    N n = m_const(k[s.below(4)]);
    if (s.chance(1, 3)) n = m_bin(int(s.below(4)), n, m_const(g.constant()));
    N r = s.chance(1, 2) ? m_bin(int(s.below(4)), t, n) : m_bin(int(s.below(4)), n, t);
    e = model_subst(e, { { t, r } });
    if (count_nodes(e) > 400) throw Discard();
  }
  c.desc = show(e);
  if (s.chance(1, 8)) quietly([&] { N t = twin(e, s, g, c); vm::simplify(build(t)); if (t->k == BIN) vm::simplify(build_b(t)); else if (t->k == UN) vm::simplify(build_u(t)); });
  E x = build(e);
  bool announced = x.get()->can_simplify();
  unsigned route = s.below(3);
  E y;
  if (route == 0) { y = x; vm::inplace_simplify(y); }
  else if (route == 1) y = vm::simplify(x);
  else { std::unique_ptr<I> p(raw(e)); if (U * u = dynamic_cast<U *>(p.get())) y = vm::simplify(*u); else if (B * b = dynamic_cast<B *>(p.get())) y = vm::simplify(*b); else { y = x; vm::inplace_simplify(y); } }
  N got = reify(y);
  if (!finite_consts(got)) { c.label("non-finite constant"); return; }
  CHECK(!y.get()->can_simplify(), "the simplified form of " << show(e) << ", " << show(got) << ", still claims to be simplifiable");
  N t = trivial_in(got);
  CHECK(!t, "the simplified form of " << show(e) << ", " << show(got) << ", still contains the trivial operation " << show(t));
  CHECK(count_nodes(got) <= count_nodes(e), "simplification of " << show(e) << " made it larger: " << show(got));
  N again = reify(vm::simplify(y));
  CHECK(same(again, got), "simplifying twice differs: " << show(got) << " became " << show(again));
  if (!same(got, e)) { c.nt(); }
  else c.label("unchanged");
  // an expression that claims not to be simplifiable is left alone by the free functions
  if (!announced) CHECK(same(got, e), "an expression which is not simplifiable was changed: " << show(e) << " became " << show(got));
  E w(x.get()->simplify());   // a single step never loses termination either
  vm::inplace_simplify(w);
  CHECK(!trivial_in(reify(w)), "after a single step and full simplification a trivial operation remains in " << show(reify(w)));
}
