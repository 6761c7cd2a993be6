// C09: differentiation by a variable.
#include "twin.hpp"
#include "driver.hpp"
#include "diffgen.hpp"
const char * const property_rule =
  "C09: random trees over all operations and functions (function symbols and non-differentiable parts in a share of the cases) are differentiated up to three times through all overloads; each derivative is compared at random points "
  "with forward-mode automatic differentiation (with error bounds) of its predecessor; non-trivial = the expression depends on the variable below at least one operation and a point was decidable (or the required exception came)";

void property(Src & s, Case & c)
{
  Gen g(s); g.big = false;
  g.far_vars = true;
  unsigned m = s.below(10);
  g.uops = 0x1ff & ~(1u << U_FABS);
  if (m >= 6) g.fs = g.other_tag = true;
  if (m == 8) g.uops |= 1u << U_FABS;
  if (m == 9) { g.uops |= 1u << U_FABS; g.grad = g.diverg = g.pd = g.intg = g.sint = true; }
  g.lconst = s.chance(1, 8);
  static const unsigned wo[] = { 6, 2, 1 };
  unsigned order = 1 + s.weighted(wo);
  N e = g.sized(order == 1 ? 40 : order == 2 ? 11 : 7);
  std::string path;
  unsigned long first = s.below(6) == 5 ? g.var_id() : s.below(3);
  size_t nvars = 17;
  if (s.chance(1, 48)) { unsigned long to = s.chance(1, 8) ? 65537 : 300; e = rename_var(e, first, to); first = to; nvars = to + 1; c.label("large index"); }
  E cur = build(e); N ref = e;
  for (unsigned k = 0; k < order; ++k)
  {
    unsigned long id = k == 0 ? first : s.chance(1, 2) ? first : s.below(3);
    path += (k ? ", x" : "x") + std::to_string(id);
    c.desc = "d/d(" + path + ") of " + show(e);
    bool dep = any_node(ref, [&](Node const & n) { return (n.k == VAR && n.id == id) || n.k == FS; });
    bool direct = false;   // the overload for function symbols gives the partial derivative node
    auto nodiff = [&](Node const & n) { return (n.k == FS && !direct) || n.k == INTG || n.k == SINT || (n.k == UN && (n.op == U_FABS || n.op >= U_GRAD)); };
    unsigned route = s.below(6);
    direct = route >= 4 && ref->k == FS;
    bool has_bad = any_node(ref, nodiff);
    bool must = any_node(ref, [&](Node const & n) { return nodiff(n) && (n.k == FS || any_node(n.c[0], [&](Node const & x) { return (x.k == VAR && x.id == id) || x.k == FS; })); });
    if (s.chance(1, 8)) quietly([&] { N t = twin(ref, s, g, c); V w(id); vm::diff(build(t), w); if (t->k == BIN) vm::diff(build_b(t), w); else if (t->k == UN) vm::diff(build_u(t), w); });
    E d; bool threw = false;
    N before = reify(cur);
    const char * used = "rt_expr";
    try
    {
      V v(id);
      switch (route)
      {
        case 0: case 1: d = vm::diff(cur, v); break;
        case 2: d = diff_ct(cur, id); used = "rt_expr, compile-time variable"; break;
        case 3: d = E(cur.get()->diff(&v)); used = "interface"; break;
        default:
          if (before->k == BIN) { B b = build_b(before); d = route == 4 ? vm::diff(b, v) : diff_ct(b, id); used = "rt_binary_expr"; CHECK(same(reify(&b), before), "diff() modified a binary expression"); }
          else if (before->k == UN || before->k == INTG || before->k == SINT) { U u = build_u(before); d = route == 4 ? vm::diff(u, v) : diff_ct(u, id); used = "rt_unary_expr"; CHECK(same(reify(&u), before), "diff() modified a unary expression"); }
          else if (before->k == FS) { F f(before->id, before->tag); d = route == 4 ? vm::diff(f, v) : diff_ct(f, id); used = "rt_function_symbol"; }
          else if (before->k == CONST) { C x(before->v); d = route == 4 ? E(vm::diff(x, v)) : E(vm::diff(double(before->v), v)); used = "rt_constant"; }
          else d = vm::diff(cur, v);
      }
    }
    catch (vm::expression_not_differentiable_exception const & ex)
    {
      CHECK(has_bad, "differentiating " << show(ref) << " by x" << id << " threw (" << static_cast<std::exception const &>(ex).what() << ") although everything is differentiable");
      threw = true;
    }
    c.label(used);
    CHECK(same(reify(cur), before), "diff() modified its argument " << show(before));
    if (threw) { c.label("not differentiable"); if (must && !ref->c.empty()) c.nt(); return; }
    CHECK(!must, "differentiating " << show(ref) << " by x" << id << " gave " << show(reify(d)) << " although it contains parts that cannot be differentiated");
    N got = reify(d);
    Env env; env.dvar = long(id); env.fs_partial = true;
    int dec = agree_derivative(ref, got, env, s, nvars, k == 0 ? 3 : 2, "d/dx" + std::to_string(id) + " (" + used + ")");
    if (!dec) c.label("no decidable point");
    else if (dep && !ref->c.empty()) c.nt();
    if (!dep && dec) c.label("independent of the variable");
    if (k == 1) c.label("second derivative");
    if (k == 2) c.label("third derivative");
    if (count_nodes(got) > 1500) return;
    cur = d; ref = got;
  }
}
