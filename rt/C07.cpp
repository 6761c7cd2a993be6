// C07: substitution of one item.
#include "twin.hpp"
#include "driver.hpp"
#include "substgen.hpp"
const char * const property_rule =
  "C07: random trees (vectors, formal operators, integrals included) with copies of the searched item implanted; searched item = variable, function symbol, subtree or absent tree; replacement may contain the item; "
  "every overload is compared with substitution on the model tree (both simplified) and by value; non-trivial = the item occurs below at least one operation and the replacement differs from it";

void property(Src & s, Case & c)
{
  Gen g(s);
  subst_flags(g, s.below(8));
  g.lconst = s.chance(1, 10);
  N e = g.sized();
  // the searched item
  N what;
  static const unsigned w[] = { 6, 3, 4, 2, 2 };
  switch (s.weighted(w))
  {
    case 0: what = m_var(g.var_id()); c.label("search variable"); break;
    case 1: what = m_fs(g.fs_id(), g.tag()); c.label("search symbol"); break;
    case 2: { std::vector<N> subs; collect_main(e, subs); what = subs[s.below(unsigned(subs.size()))]; c.label("search subtree"); break; }
    case 3: what = g.expr(3); c.label("search small tree"); break;
    default: what = m_const(g.constant()); c.label("search constant"); break;
  }
  unsigned times = s.below(4);
  e = implant(s, e, what, times);
  if (s.chance(1, 12)) { std::vector<N> v; size_t d = 1 + s.below(3); for (size_t i = 0; i < d; ++i) v.push_back(implant(s, g.expr(4), what, s.below(2))); N vec = m_vec(v); e = s.chance(1, 2) ? vec : m_bin(int(s.below(4)), vec, e); c.label("vector");
    if (s.chance(1, 2))
    { // a whole vector is the searched item, sometimes one that differs in a single entry
      if (s.chance(1, 4)) { Node m = *vec; m.c[s.below(unsigned(d))] = g.expr(3); vec = mk(m); }
      what = vec; c.label("search vector");
    }
  }
  // the replacement
  N repl;
  static const unsigned w2[] = { 4, 3, 2, 4, 2 };
  switch (s.weighted(w2))
  {
    case 0: repl = m_const(g.constant()); break;
    case 1: repl = m_var(g.var_id()); break;
    case 2: repl = m_fs(g.fs_id(), g.tag()); break;
    case 3: repl = g.expr(7); break;
    default: repl = m_bin(int(s.below(4)), what, g.expr(3)); if (s.chance(1, 2)) repl = m_un(U_SIN, repl); break;
  }
  if (constants_mixed(e, what) || count_nodes(e) > 400 || count_nodes(what) > 60) throw Discard();
  if (occurs(e, what, true) || (what->k == VAR && has_kind(e, INTG) && any_node(e, [&](Node const & n) { return n.k == INTG && n.id == what->id; }))) throw Discard();
  N expect = model_subst(e, { { what, repl } });
  if (count_nodes(expect) > 3000) throw Discard();
  unsigned route = s.below(6);
  c.desc = "substitute " + show(what) + " by " + show(repl) + " in " + show(e) + " route " + std::to_string(route);

  E ex = build(e), sx = build(what), rx = build(repl);
  if (s.chance(1, 8)) quietly([&] { N t = twin(e, s, g, c); E tx = build(t); vm::substitute(sx, rx, tx); if (what->k == VAR) with_concrete(repl, [&](auto const & r) -> E { return vm::substitute(V(what->id), r, tx); }); });
  E got;
  const char * used = "rt_expr";
  bool plain_num = repl->k == CONST;
  switch (route)
  {
    case 0:
      if (what->k == VAR)
      {
        V v(what->id);
        if (plain_num && s.chance(1, 2)) { got = vm::substitute(v, double(repl->v), ex); used = "(variable, number, rt_expr)"; }
        else { got = with_concrete(repl, [&](auto const & r) -> E { return vm::substitute(v, r, ex); }); used = "(variable, T, rt_expr)"; }
        break;
      }
      if (what->k == FS)
      {
        F f(what->id, what->tag);
        if (plain_num && s.chance(1, 2)) { got = vm::substitute(f, double(repl->v), ex); used = "(symbol, number, rt_expr)"; }
        else { got = vm::substitute(f, rx, ex); used = "(symbol, rt_expr, rt_expr)"; }
        break;
      }
      if (what->k == UN || what->k == INTG || what->k == SINT)
      {
        U u = build_u(what);
        if (s.chance(1, 2)) { got = vm::substitute(u, rx, ex); used = "(unary, rt_expr, rt_expr)"; }
        else { got = with_concrete(repl, [&](auto const & r) -> E { return vm::substitute(u, r, ex); }); used = "(unary, T, rt_expr)"; }
        break;
      }
      if (what->k == BIN)
      {
        B b = build_b(what);
        got = with_concrete(repl, [&](auto const & r) -> E { return vm::substitute(b, r, ex); }); used = "(binary, T, rt_expr)";
        break;
      }
      got = vm::substitute(sx, rx, ex);
      break;
    case 1:
      if (what->k == VAR)
      {
        V v(what->id);
        got = with_concrete(repl, [&](auto const & r) -> E { return with_concrete(e, [&](auto const & x) -> E { return vm::substitute(v, r, x); }); }); used = "(variable, T, T)";
        break;
      }
      got = vm::substitute(sx, rx, ex);
      break;
    case 2: got = E(ex.get()->substitute(sx.get(), rx.get())); used = "interface"; break;
    case 3:
    {
      std::vector<const I *> a(1, sx.get()), b(1, rx.get());
      got = E(ex.get()->substitute(a, b)); used = "interface, list of one"; break;
    }
    default: got = vm::substitute(sx, rx, ex); break;
  }
  c.label(used);
  CHECK(same(reify(ex), e), used << ": substitution changed the expression it worked on, " << show(e) << " is now " << show(reify(ex)));
  CHECK(same(reify(sx), what), used << ": substitution changed the searched item, " << show(what) << " is now " << show(reify(sx)));
  CHECK(same(reify(rx), repl), used << ": substitution changed the replacement, " << show(repl) << " is now " << show(reify(rx)));
  int eq = same_norm(reify(got), expect);
  if (eq < 0) c.label("constant part undefined");
  CHECK(eq, used << ": substitution of " << show(what) << " by " << show(repl) << " in " << show(e) << " gave " << show(reify(got)) << " instead of " << show(expect) << " (up to simplification)");
  agree(expect, reify(got), s, 17, 1, std::string("substitution via ") + used);
  if (!occurs(e, what)) c.label("absent");
  else if (!same(e, what) && !same(what, repl)) { c.nt(); c.label(occurrences(e, what) > 1 ? "several occurrences" : "one occurrence"); }
}
