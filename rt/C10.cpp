// C10: Gateaux derivatives.
#include "twin.hpp"
#include "driver.hpp"
#include "diffgen.hpp"
const char * const property_rule =
  "C10: random trees over function symbols of several indices and kinds, variables and gradients (non-differentiable parts in a share of the cases) are differentiated by a function symbol through all overloads, up to twice; compared at random values of the symbols "
  "with forward-mode automatic differentiation, gradients being modelled as a fixed linear functional; non-trivial = the symbol occurs below an operation and a point was decidable (or the required exception came)";

void property(Src & s, Case & c)
{
  Gen g(s); g.big = false;
  unsigned m = s.below(10);
  g.uops = 0x1ff & ~(1u << U_FABS);
  g.fs = true; g.other_tag = true;
  if (m >= 3) g.grad = true;
  if (m == 8) g.uops |= 1u << U_FABS;
  if (m == 9) { g.uops |= 1u << U_FABS; g.diverg = g.pd = g.intg = g.sint = true; }
  unsigned order = s.chance(1, 4) ? 2 : 1;
  N e = g.sized(order == 1 ? 40 : 11);
  // symbols are what matters here: turn some leaves into symbols
  unsigned turns = s.below(4);
  for (unsigned i = 0; i < turns; ++i)
  {
    std::vector<N> subs; collect_main(e, subs); std::vector<N> leaves; for (auto & n : subs) if (n->k == VAR) leaves.push_back(n);
    if (leaves.empty()) break;
    N t = leaves[s.below(unsigned(leaves.size()))], f = m_fs(s.below(3), g.tag());
    bool done = false;
    std::function<N(N const &)> put = [&](N const & n) -> N { if (done) return n; if (n == t) { done = true; return s.chance(1, 4) ? m_un(U_GRAD, f) : f; } size_t lim = n->k == INTG ? 1 : n->c.size(); if (!lim) return n; Node q = *n; for (size_t j = 0; j < lim; ++j) q.c[j] = put(n->c[j]); return mk(q); };
    e = put(e);
  }
  E cur = build(e); N ref = e;
  for (unsigned k = 0; k < order; ++k)
  {
    unsigned long id, tag;
    std::vector<N> subs, syms; collect_main(ref, subs); for (auto & n : subs) if (n->k == FS) syms.push_back(n);
    if (!syms.empty() && s.chance(3, 4)) { N f = syms[s.below(unsigned(syms.size()))]; id = f->id; tag = f->tag; if (s.chance(1, 6)) id = (id + 1) % 3; if (s.chance(1, 6)) tag = tag == tag_unknown() ? tag_test() : tag_unknown(); }
    else { id = s.below(3); tag = g.tag(); }
    auto is_sym = [&](Node const & n) { return n.k == FS && n.id == id && n.tag == tag; };
    c.desc = "derivative by " + show(m_fs(id, tag)) + " of " + show(ref);
    bool dep = any_node(ref, is_sym);
    auto nodiff = [&](Node const & n) { return n.k == INTG || n.k == SINT || (n.k == UN && (n.op == U_FABS || n.op == U_DIV || n.op == U_PD)); };
    bool has_bad = any_node(ref, nodiff);
    bool must = any_node(ref, [&](Node const & n) { return nodiff(n) && any_node(n.c[0], is_sym); });
    unsigned route = s.below(4);
    if (s.chance(1, 8)) quietly([&] { N t = twin(ref, s, g, c); F w(id, tag); vm::diff(build(t), w); if (t->k == BIN) vm::diff(build_b(t), w); else if (t->k == UN) vm::diff(build_u(t), w); });
    E d; bool threw = false;
    N before = reify(cur);
    const char * used = "rt_expr";
    try
    {
      F f(id, tag);
      switch (route)
      {
        case 0: case 1: d = vm::diff(cur, f); break;
        case 2: d = E(cur.get()->diff(&f)); used = "interface"; break;
        default:
          if (before->k == BIN) { B b = build_b(before); d = vm::diff(b, f); used = "rt_binary_expr"; CHECK(same(reify(&b), before), "diff() modified a binary expression"); }
          else if (before->k == UN || before->k == INTG || before->k == SINT) { U u = build_u(before); d = vm::diff(u, f); used = "rt_unary_expr"; CHECK(same(reify(&u), before), "diff() modified a unary expression"); }
          else if (before->k == FS) { F e2(before->id, before->tag); d = vm::diff(e2, f); used = "rt_function_symbol"; }
          else d = vm::diff(cur, f);
      }
    }
    catch (vm::expression_not_differentiable_exception const & ex)
    {
      CHECK(has_bad, "differentiating " << show(ref) << " by " << show(m_fs(id, tag)) << " threw (" << static_cast<std::exception const &>(ex).what() << ") although everything is differentiable");
      threw = true;
    }
    c.label(used);
    CHECK(same(reify(cur), before), "diff() modified its argument " << show(before));
    if (threw) { c.label("not differentiable"); if (must && !ref->c.empty()) c.nt(); return; }
    CHECK(!must, "differentiating " << show(ref) << " by " << show(m_fs(id, tag)) << " gave " << show(reify(d)) << " although it contains parts that cannot be differentiated");
    N got = reify(d);
    Env env; env.dfs = true; env.dfs_id = id; env.dfs_tag = tag;
    int dec = agree_derivative(ref, got, env, s, 4, 3, std::string("Gateaux derivative by ") + show(m_fs(id, tag)) + " (" + used + ")");
    if (!dec) c.label("no decidable point");
    else if (dep && !ref->c.empty()) { c.nt(); if (has_uop(ref, U_GRAD)) c.label("with gradient"); }
    if (!dep && dec)
      c.label("independent of the symbol");
    if (k == 1) c.label("second derivative");
    if (count_nodes(got) > 1500) return;
    cur = d; ref = got;
  }
}
