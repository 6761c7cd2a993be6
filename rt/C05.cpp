// C05: simplification of runtime expressions preserves their value.
#include "twin.hpp"
#include "driver.hpp"
const char * const property_rule =
  "C05: random expression trees (all operations, constants incl. 0/1/-1 and the literals of the sources, formal operators, vectors' dot products) are simplified through every entry point "
  "and compared with the original at random points by a reference evaluator with error bounds; non-trivial = simplification changed the tree and at least one point was decidable";

// the overloads for items which are always simplified give the item itself
static void primitive(Src & s, Case & c, Gen & g)
{
  double d = g.constant(); long l = long(s.below(2001)) - 1000; unsigned long id = g.var_id();
  c.label("primitive");
  auto both = [&](auto const & x, N const & want, const char * what) {
    c.desc = std::string("simplify a ") + what + " " + show(want);
    auto y = x; vm::inplace_simplify(y);
    auto z = vm::simplify(x);
    typedef std::decay_t<decltype(x)> T; 
    if constexpr (std::is_arithmetic<T>::value) CHECK(double(y) == want->v && double(z) == want->v && double(x) == want->v, what << " " << show(want) << " simplifies to " << double(z) << " (in place: " << double(y) << ")");
    else { E a(y), b(z), o(x); CHECK(same(reify(a), want) && same(reify(b), want) && same(reify(o), want), what << " " << show(want) << " simplifies to " << show(reify(b)) << " (in place: " << show(reify(a)) << ")"); }
  };
  switch (s.below(8))
  {
    case 6: both(IC(int(l)), m_int(int(l)), "int constant"); break;
    case 7: both(FC(float(l) / 8), m_flt(float(l) / 8), "float constant"); break;
    case 0: both(d, m_const(d), "number"); break;
    case 1: both(l, m_const(double(l)), "integer"); break;
    case 2: both(V(id), m_var(id), "variable"); break;
    case 3: both(C(d), m_const(d), "constant"); break;
    case 4: both(LC(l), m_long(l), "long constant"); break;
    default: { unsigned long i = g.fs_id(), t = g.tag(); both(F(i, t), m_fs(i, t), "function symbol"); break; }
  }
}

void property(Src & s, Case & c)
{
  Gen g(s);
  if (s.chance(1, 200)) { g.far_vars = true; return primitive(s, c, g); }
  g.far_vars = true;
  unsigned m = s.below(8);
  if (m >= 3) { g.fs = g.grad = g.diverg = g.pd = true; }
  if (m >= 5) { g.intg = g.sint = true; }
  if (m == 7) g.lconst = true;
  N e = g.sized();
  // bias towards reducible operations: attach neutral / absorbing / constant operands at random places
  unsigned deco = s.below(5);
  for (unsigned i = 0; i < deco; ++i)
  {
    std::vector<N> subs; collect_main(e, subs);
    N t = subs[s.below(unsigned(subs.size()))];
    static const double k[] = { 0, 1, -1, 2 };
    N n = m_const(k[s.below(4)]);
    if (s.chance(1, 4)) n = m_bin(int(s.below(3)), n, m_const(g.constant()));
    N r = s.chance(1, 2) ? m_bin(int(s.below(4)), t, n) : m_bin(int(s.below(4)), n, t);
    if (s.chance(1, 8)) r = m_un(int(s.below(9)), n);
    e = model_subst(e, { { t, r } });
    if (count_nodes(e) > 400) throw Discard();
  }
  if (s.chance(1, 10))
  { // dot product of two vector expressions as a factor of the tree
    size_t dim = 1 + s.below(3); std::vector<N> a, b; g.vec = false;
    for (size_t i = 0; i < dim; ++i) { a.push_back(g.expr(4)); b.push_back(g.expr(4)); }
    e = m_bin(int(s.below(3)), e, m_bin(MUL, m_vec(a), m_vec(b)));
    c.label("dot product");
  }
  unsigned route = s.below(6);
  c.desc = show(e) + " via " + std::to_string(route);
  if (s.chance(1, 8)) quietly([&] { N t = twin(e, s, g, c); vm::simplify(build(t)); if (t->k == BIN) vm::simplify(build_b(t)); else if (t->k == UN) vm::simplify(build_u(t)); });
  N got;
  switch (route)
  {
    case 0: { E x = build(e); vm::inplace_simplify(x); got = reify(x); break; }
    case 1: { E x = build(e); E y = vm::simplify(x); CHECK(same(reify(x), e), "simplify() modified its argument " << show(e)); got = reify(y); break; }
    case 2: { E x = build(e); E y(x.get()->simplify()); CHECK(same(reify(x), e), "simplify() modified its argument " << show(e)); got = reify(y); break; }
    case 3: { std::unique_ptr<I> p(raw(e)); if (U * u = dynamic_cast<U *>(p.get())) got = reify(vm::simplify(*u)); else if (B * b = dynamic_cast<B *>(p.get())) got = reify(vm::simplify(*b)); else { E x = build(e); vm::inplace_simplify(x); got = reify(x); } break; }
    case 4: { E x = build(e); int steps = 0; while (x.get()->can_simplify() && ++steps < 1000) x = x.get()->simplify(); got = reify(x); break; }
    default: { E x = build(e); E y(x.get()->simplify()); E z(y.get()->simplify()); got = reify(z); break; }
  }
  int dec = agree(e, got, s, 17, 3, "simplification of " + show(e));
  if (dec && !same(e, got)) c.nt();
  if (!dec) c.label("no decidable point");
  if (same(e, got)) c.label("unchanged");
}
