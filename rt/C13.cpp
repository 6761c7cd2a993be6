// C13: coordinate systems.
#include "twin.hpp"
#include "driver.hpp"
#include "substgen.hpp"
const char * const property_rule =
  "C13: random simplified expressions over gradients and divergences of the unknown, the test function and other symbols, vectors of the right dimension, inner products and coefficients are transformed to 1, 2 or 3 Cartesian coordinates through all overloads (expressions, equations); "
  "compared with the replacement on the model tree (both simplified) and by value; non-trivial = a gradient or divergence of the unknown or test function occurs below another operation";

static N pd(N f, unsigned long i) { return m_un(U_PD, f, i); }

void property(Src & s, Case & c)
{
  unsigned dim = 1 + s.below(3);
  Gen g(s); g.fs = true; g.other_tag = true; g.nvars = 3; g.grad = g.diverg = g.pd = true; g.sint = s.chance(1, 3); g.intg = s.chance(1, 4); g.intg_const_bounds = true;
  N u = m_fs(0, tag_unknown()), v = m_fs(0, tag_test());
  auto differential = [&]() -> N {
    N f = s.chance(1, 2) ? u : v;
    if (s.chance(1, 5)) f = m_fs(g.fs_id(), g.tag());
    switch (s.below(6))
    {
      case 0: return m_un(U_DIV, f);
      case 1: { N k = g.sized(3); return m_un(U_DIV, m_bin(MUL, k, m_un(U_GRAD, f))); }
      case 2: return m_un(U_DIV, m_un(U_GRAD, f));
      default: return m_un(U_GRAD, f);
    }
  };
  auto vec = [&]() -> N { std::vector<N> r; for (unsigned i = 0; i < dim; ++i) r.push_back(s.chance(1, 6) ? differential() : g.sized(3)); return m_vec(r); };
  std::function<N(unsigned)> form = [&](unsigned n) -> N {
    if (n <= 1)
    {
      switch (s.below(8))
      {
        case 0: case 1: return m_bin(MUL, m_un(U_GRAD, s.chance(1, 2) ? u : v), m_un(U_GRAD, s.chance(1, 2) ? u : v));
        case 2: return m_bin(MUL, vec(), m_un(U_GRAD, s.chance(1, 2) ? u : v));
        case 3: return m_bin(MUL, m_bin(MUL, g.sized(3), m_un(U_GRAD, u)), m_un(U_GRAD, v));
        case 4: case 5: return differential();
        case 6: return m_bin(MUL, g.sized(3), s.chance(1, 2) ? u : v);
        default: return g.sized(9);
      }
    }
    unsigned l = 1 + s.below(n - 1); N a = form(l);
    if (s.chance(1, 6)) return s.chance(1, 2) ? m_sint(form(n - l), s.below(2)) : m_un(int(s.below(9)), form(n - l));
    return m_bin(int(s.below(4)), a, form(n - l));
  };
  static const unsigned sz[] = { 1, 2, 3, 4, 6 };
  auto input = [&]() -> N { N e = form(sz[s.below(5)]); N r; try { r = norm(e); } catch (NotFinite const &) { throw Discard(); } if (count_nodes(r) > 300) throw Discard(); return r; };
  std::vector<std::pair<N, N>> rules;
  for (N f : { u, v })
  {
    std::vector<N> gr; N dv = pd(f, 0);
    for (unsigned i = 0; i < dim; ++i) { gr.push_back(pd(f, i)); if (i) dv = m_bin(ADD, dv, pd(f, i)); }
    rules.push_back({ m_un(U_GRAD, f), dim == 1 ? gr[0] : m_vec(gr) });
    rules.push_back({ m_un(U_DIV, f), dv });
  }
  auto transform = [&](auto const & x) -> E {
    switch (dim) { case 1: return vm::apply_coordinate_system(vm::cartesian<1>(), x); case 2: return vm::apply_coordinate_system(vm::cartesian<2>(), x); default: return vm::apply_coordinate_system(vm::cartesian<3>(), x); }
  };
  auto verify = [&](N const & e, N const & got, const char * what) {
    N want = model_subst(e, rules);
    CHECK(same_norm(got, want), what << " in " << dim << " dimension(s): " << show(e) << " became " << show(got) << " instead of " << show(want) << " (up to simplification)");
    // expected meaning: products of vectors are inner products
    agree(want, got, s, 3, 1, what);
    bool hit = false; for (auto & r : rules) hit |= occurs(e, r.first) && !same(e, r.first);
    if (hit) c.nt();
  };
  unsigned route = s.below(4);
  N e = input();
  c.desc = std::to_string(dim) + "d: " + show(e);
  if (s.chance(1, 8)) quietly([&] { transform(build(twin(e, s, g, c))); });
  E x = build(e);
  if (route == 1 && e->k == BIN) { B b = build_b(e); verify(e, reify(transform(b)), "binary expression"); CHECK(same(reify(&b), e), "the argument was changed"); c.label("rt_binary_expr"); }
  else if (route == 1 && (e->k == UN || e->k == SINT || e->k == INTG)) { U b = build_u(e); verify(e, reify(transform(b)), "unary expression"); CHECK(same(reify(&b), e), "the argument was changed"); c.label("rt_unary_expr"); }
  else if (route == 2)
  {
    N e2 = input(); c.desc += " = " + show(e2);
    E y = build(e2); vm::rt_equation<I> eq(x, y);
    vm::rt_equation<I> r = dim == 1 ? vm::apply_coordinate_system<I, 1>(vm::cartesian<1>(), eq) : dim == 2 ? vm::apply_coordinate_system<I, 2>(vm::cartesian<2>(), eq) : vm::apply_coordinate_system<I, 3>(vm::cartesian<3>(), eq);
    verify(e, reify(r.lhs()), "left hand side of an equation"); verify(e2, reify(r.rhs()), "right hand side of an equation");
    CHECK(same(reify(eq.lhs()), e) && same(reify(eq.rhs()), e2), "the equation handed over was changed");
    c.label("equation");
  }
  else { verify(e, reify(transform(x)), "expression"); CHECK(same(reify(x), e), "the argument was changed"); c.label("rt_expr"); }
}
