// C14: the LaTeX text denotes the expression.
#include "twin.hpp"
#include "driver.hpp"
#include "latexparse.hpp"
const char * const property_rule =
  "C14: random trees (all functions, formal operators, integrals; no vectors) are translated to LaTeX by every overload (with and without requested parentheses), the text is read back by an independent reader "
  "for the usual notation and compared with the canonical form of the tree; equations and intervals likewise; non-trivial = at least two operations, nested";

static void compare(N const & n, std::string const & text, const char * route)
{
  check_balanced(text);
  L want = canon(n, Names());
  L got;
  try { got = read_latex(text); } catch (Fail const & f) { throw Fail(std::string(route) + ": " + f.msg + " for " + show(n)); }
  std::string a = lshow(want), b = lshow(got);
  CHECK(a == b, route << ": LaTeX for " << show(n) << " is '" << text << "' which reads as " << b << " instead of " << a);
}

void property(Src & s, Case & c)
{
  Gen g(s);
  unsigned m = s.below(8);
  g.fs = m & 1; g.grad = g.diverg = g.pd = (m & 2); g.intg = g.sint = (m & 4);
  g.far_vars = true; g.lconst = s.chance(1, 8); g.nvars = 4;
  N e = g.sized();
  unsigned route = s.below(6);
  vm::latex_translator tr;
  if (s.chance(1, 6)) { vm::latex_translator other(tr); tr = other; }
  c.desc = "latex " + show(e) + " route " + std::to_string(route);
  if (depth(e) > 2 && count_nodes(e) > 3) c.nt();
  E ex = build(e);
  if (s.chance(1, 8)) quietly([&] { tr(build(twin(e, s, g, c))); });
  bool paren = s.chance(1, 3);
  switch (route)
  {
    default: compare(e, paren ? tr(ex, true) : tr(ex), "rt_expr"); c.label("rt_expr"); break;
    case 3:
      c.label("concrete type");
      switch (e->k)
      {
        case CONST: compare(e, tr(C(e->v), paren), "constant"); break;
        case LCONST: with_lconst(e, [&](auto const & x) { compare(e, tr(x, paren), "constant of another type"); }); break;
        case VAR: compare(e, tr(V(e->id), paren), "variable"); break;
        case FS: compare(e, tr(F(e->id, e->tag), paren), "function symbol"); break;
        case BIN: compare(e, tr(build_b(e), paren), "binary"); break;
        default: compare(e, tr(build_u(e), paren), "unary"); break;
      }
      break;
    case 4:
    {
      N r = g.sized(15);
      c.label("equation");
      vm::rt_equation<I> q(ex, build(r));
      std::string t = paren ? tr(q, true) : tr(q);
      c.desc += " = " + show(r);
      check_balanced(t);
      std::pair<L, L> p = read_latex_equation(t);
      CHECK(lshow(p.first) == lshow(canon(e, Names())) && lshow(p.second) == lshow(canon(r, Names())),
            "LaTeX of the equation " << show(e) << " = " << show(r) << " is '" << t << "', read as " << lshow(p.first) << " = " << lshow(p.second));
      break;
    }
    case 5:
    {
      N r = g.sized(15);
      c.label("interval");
      IV iv(ex, build(r));
      std::string t = paren ? tr(iv, true) : tr(iv);
      c.desc += " to " + show(r);
      check_balanced(t);
      std::pair<L, L> p = read_latex_interval(t);
      CHECK(lshow(p.first) == lshow(canon(e, Names())) && lshow(p.second) == lshow(canon(r, Names())),
            "LaTeX of the interval from " << show(e) << " to " << show(r) << " is '" << t << "', read as " << lshow(p.first) << " to " << lshow(p.second));
      break;
    }
  }
  CHECK(same(reify(ex), e), "LaTeX translation changed the expression " << show(e) << " to " << show(reify(ex)));
  if (any_node(e, [](Node const & n) { return n.k == INTG; })) c.label("with integral");
  if (has_kind(e, SINT)) c.label("with symbolic integral");
  if (any_node(e, [](Node const & n) { return n.k == BIN && n.op == SUB && n.c[1]->k == BIN && (n.c[1]->op == ADD || n.c[1]->op == SUB); })) c.label("difference with a sum on the right");
  if (any_node(e, [](Node const & n) { return n.k == BIN && n.op == MUL && n.c[0]->k == BIN && (n.c[0]->op == ADD || n.c[0]->op == SUB); })) c.label("product with a sum on the left");
}
