// C18: the text form can be read back to the same tree.
#include "driver.hpp"
#include "substgen.hpp"
#include "textparse.hpp"
#include "mutate.hpp"
const char * const property_rule =
  "C18: random trees of all node types with constants of at most six digits are printed by deep_str and by the stream operators of all types (rt_expr, unary, binary, constant, variable, symbol, vector, equation, interval) and read back by an independent reader; "
  "non-trivial = at least two operations";

template <typename T> static std::string text(T const & x) { std::ostringstream o; o << x; return o.str(); }
static void back(N const & want, std::string const & t, const char * route)
{
  N got = read_text(t);
  CHECK(same(got, floating(want)), route << ": " << show(want) << " is printed as " << t << " which reads as " << show(got));
}

void property(Src & s, Case & c)
{
  Gen g(s);
  subst_flags(g, s.below(8)); g.other_tag = false; g.intg_const_bounds = false;
  g.text_consts = true; g.lconst = s.chance(1, 6);
  N e = g.sized();
  if (s.chance(1, 4)) { std::vector<N> v; size_t d = 1 + s.below(4); for (size_t i = 0; i < d; ++i) v.push_back(g.expr(int(1 + s.below(5)))); N x = m_vec(v); e = s.chance(1, 2) ? x : m_bin(int(s.below(4)), s.chance(1, 2) ? x : e, s.chance(1, 2) ? x : e); if (s.chance(1, 4)) e = m_un(U_GRAD, e); c.label("vector"); }
  unsigned route = s.below(6);
  c.desc = "print " + show(e) + " route " + std::to_string(route);
  if (depth(e) > 2 && count_nodes(e) > 3) c.nt();
  E ex = build(e);
  switch (route)
  {
    default: back(e, ex.get()->deep_str(), "deep_str"); c.label("deep_str"); break;
    case 2: back(e, text(ex), "stream of rt_expr"); c.label("stream"); break;
    case 3:
      c.label("stream of the concrete type");
      with_concrete(e, [&](auto const & x) -> E { back(e, text(x), "stream of the concrete type"); back(e, x.deep_str(), "deep_str of the concrete type"); return E(); });
      break;
    case 4: case 5:
    {
      N r = g.sized(11);
      bool eq = route == 4;
      std::string t = eq ? text(vm::rt_equation<I>(ex, build(r))) : text(IV(ex, build(r)));
      c.desc += " and " + show(r);
      std::pair<N, N> p = read_text_pair(t, eq ? "equation(" : "interval(", eq ? "=" : ",");
      CHECK(same(p.first, floating(e)) && same(p.second, floating(r)), (eq ? "equation" : "interval") << " of " << show(e) << " and " << show(r) << " is printed as " << t << " which reads as " << show(p.first) << " and " << show(p.second));
      c.label(eq ? "equation" : "interval");
      break;
    }
  }
  CHECK(same(reify(ex), e), "printing changed the expression " << show(e));
}
