// C17: symbolic integrals and their resolution.
#include "twin.hpp"
#include "driver.hpp"
#include "substgen.hpp"
const char * const property_rule =
  "C17: random expressions with several symbolic integrals over up to 4 intervals (built by all overloads of integral), resolved one by one in random order by interval and variable; each result is compared node by node with the model; "
  "resolving different intervals in different orders gives the same; quadrature with a recording rule receives the given bounds and variable; non-trivial = at least two symbolic integrals with different IDs, or one below another operation";

static N resolve(N const & n, unsigned long id, N lo, N hi, unsigned long var)
{
  if (n->k == SINT && n->id == id) return m_intg(n->c[0], lo, hi, var);
  if (n->c.empty() || n->k == VEC) return n;
  Node m = *n;
  size_t lim = n->k == INTG ? 1 : n->c.size();
  for (size_t i = 0; i < lim; ++i) m.c[i] = resolve(n->c[i], id, lo, hi, var);
  return mk(m);
}
static bool nested_same(N const & n, std::set<unsigned long> above)
{
  if (n->k == SINT) { if (above.count(n->id)) return true; above.insert(n->id); }
  for (auto & x : n->c) if (nested_same(x, above)) return true;
  return false;
}
static bool in_bounds_or_vector(N const & n, bool inside)
{
  if (inside && n->k == SINT) return true;
  for (size_t i = 0; i < n->c.size(); ++i) if (in_bounds_or_vector(n->c[i], inside || n->k == VEC || (n->k == INTG && i > 0))) return true;
  return false;
}
// builds the tree with the public integral() functions
static E assemble(N const & n, Src & s)
{
  if (n->k == SINT)
  {
    SIV iv(n->id); N b = n->c[0];
    unsigned r = s.below(3);
    bool plain = !any_node(b, [](Node const & x) { return x.k == SINT; });
    if (r == 0 || !plain) return vm::integral(iv, assemble(b, s));
    switch (b->k)
    {
      case CONST: return vm::integral(iv, C(b->v));
      case LCONST: return with_lconst(b, [&](auto const & x) -> E { return vm::integral(iv, x); });
      case VAR: return vm::integral(iv, V(b->id));
      case FS: return vm::integral(iv, F(b->id, b->tag));
      case BIN: return vm::integral(iv, build_b(b));
      case VEC: return vm::integral(iv, build(b));
      default: return vm::integral(iv, build_u(b));
    }
  }
  if (n->k == INTG && n->c[0]->k != SINT)
  {
    IV iv(build(n->c[1]), build(n->c[2]));
    if (s.chance(1, 2)) return vm::integral(iv, assemble(n->c[0], s), V(n->id));
    E r; bool binary = n->c[0]->k == BIN && s.chance(1, 2);
    if (with_ct_var(n->id, [&](auto const & v) { r = binary ? vm::integral(iv, build_b(n->c[0]), v) : vm::integral(iv, assemble(n->c[0], s), v); })) return r;
    return build(n);
  }
  if (n->k == BIN && any_node(n, [](Node const & x) { return x.k == SINT || x.k == INTG; }))
  {
    E a = assemble(n->c[0], s), b = assemble(n->c[1], s);
    switch (n->op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; }
  }
  return build(n);
}
struct Rec : vm::numerical_quadrature_interface<I>
{
  std::shared_ptr<std::vector<std::string>> log;
  vm::numerical_quadrature_interface<I> * clone() const { Rec * r = new Rec; r->log = log; return r; }
  double eval(IV const & iv, E const & e, V const & v) const { log->push_back(show(m_intg(reify(e), reify(iv.lower()), reify(iv.upper()), v.id()))); return 1; }
};

void property(Src & s, Case & c)
{
  Gen g(s);
  g.fs = s.chance(1, 2); g.sint = true; g.intg = s.chance(1, 4); g.grad = g.pd = s.chance(1, 4); g.far_vars = true; g.lconst = s.chance(1, 8);
  N e = g.sized(27);
  unsigned extra = 1 + s.below(4);
  for (unsigned i = 0; i < extra; ++i)
  {
    N x = m_sint(g.expr(1 + int(s.below(7))), s.below(4));
    if (s.chance(1, 4)) { static const unsigned long far[] = { 7, 10, 11, 100, 101, 4294967296ul, 4294967297ul }; Node m = *x; m.id = far[s.below(7)]; x = mk(m); }
    e = implant(s, e, x, 1);
  }
  if (s.chance(1, 16)) { e = rename_var(e, s.below(3), s.chance(1, 2) ? 65537 : 300); c.label("large index"); }
  if (nested_same(e, {}) || in_bounds_or_vector(e, false) || count_nodes(e) > 300) throw Discard();
  std::vector<unsigned long> ids; any_node(e, [&](Node const & n) { if (n.k == SINT && std::find(ids.begin(), ids.end(), n.id) == ids.end()) ids.push_back(n.id); return false; });
  if (s.chance(1, 4)) { unsigned long id = s.below(5); if (std::find(ids.begin(), ids.end(), id) == ids.end()) ids.push_back(id); }
  E x = assemble(e, s);
  c.desc = "resolve in " + show(e);
  CHECK(same(reify(x), e), "the integral functions built " << show(reify(x)) << " instead of " << show(e));
  size_t n_int = 0; any_node(e, [&](Node const & n) { n_int += n.k == SINT; return false; });
  if (ids.size() > 1 || (n_int && e->k != SINT)) c.nt();
  // a resolution for each ID
  struct Res { unsigned long id; N lo, hi; unsigned long var; };
  std::vector<Res> rs;
  for (auto id : ids) { Res r; r.id = id; Gen h(s); h.far_vars = true; r.lo = s.chance(1, 2) ? h.expr(3) : m_const(h.constant()); r.hi = s.chance(1, 2) ? h.expr(3) : m_const(h.constant()); r.var = s.chance(1, 24) ? 65537 : h.var_id(); rs.push_back(r); }
  // random order
  for (size_t i = rs.size(); i > 1; --i) std::swap(rs[i - 1], rs[s.below(unsigned(i))]);
  size_t use = s.chance(1, 3) && rs.size() > 1 ? 1 + s.below(unsigned(rs.size())) : rs.size();
  N cur = e; E y(x);
  for (size_t i = 0; i < use; ++i)
  {
    Res const & r = rs[i];
    c.desc += "; " + std::to_string(r.id) + " -> [" + show(r.lo) + "," + show(r.hi) + "] x" + std::to_string(r.var);
    IV iv(build(r.lo), build(r.hi)); V v(r.var);
    if (s.chance(1, 8)) quietly([&] { Gen h(s); vm::substitute(SIV(r.id), std::make_pair(iv, v), build(twin(cur, s, h, c))); });
    E before(y);
    N expect = resolve(cur, r.id, r.lo, r.hi, r.var);
    E z = s.chance(1, 4) ? vm::substitute(SIV(r.id), std::pair<IV const &, V const &>(iv, v), y) : vm::substitute(SIV(r.id), std::make_pair(iv, v), y);
    CHECK(same(reify(y), cur), "resolving a symbolic integral changed its argument " << show(cur) << " to " << show(reify(y)));
    CHECK(same(reify(iv.lower()), r.lo) && same(reify(iv.upper()), r.hi), "resolving a symbolic integral changed the interval");
    CHECK(same(reify(z), expect), "resolving interval " << r.id << " by [" << show(r.lo) << "," << show(r.hi) << "] and x" << r.var << " in " << show(cur) << " gave " << show(reify(z)) << " instead of " << show(expect));
    y = z; cur = expect;
  }
  if (use == rs.size() && rs.size() > 1)
  {
    // the opposite order gives the same (the bounds contain no symbolic integrals)
    E w(x);
    for (size_t i = rs.size(); i > 0; --i) w = vm::substitute(SIV(rs[i - 1].id), std::make_pair(IV(build(rs[i - 1].lo), build(rs[i - 1].hi)), V(rs[i - 1].var)), w);
    CHECK(same(reify(w), reify(y)), "the order of resolving symbolic integrals matters for " << show(e) << ": " << show(reify(y)) << " or " << show(reify(w)));
    c.label("two orders");
  }
  // sums of resolved integrals can be integrated, and the rule gets the given bounds; unresolved ones are rejected
  std::vector<N> parts; std::function<bool(N const &)> only = [&](N const & n) { if (n->k == INTG || n->k == SINT) { parts.push_back(n); return true; } return n->k == BIN && (n->op == ADD || n->op == SUB) && only(n->c[0]) && only(n->c[1]); };
  if (only(cur))
  {
    auto log = std::make_shared<std::vector<std::string>>(); Rec * rec = new Rec; rec->log = log;
    vm::numerical_quadrature q(rec);
    bool threw = false;
    try { q(y); } catch (vm::symbolic_integral_evaluation_not_possible_exception const &) { threw = true; }
    bool symbolic = false; std::vector<std::string> want; for (auto & p : parts) { if (p->k == SINT) symbolic = true; else want.push_back(show(p)); }
    CHECK(threw == symbolic, "quadrature of " << show(cur) << (threw ? " was rejected although every integral is resolved" : " was accepted although it contains a symbolic integral"));
    if (!symbolic) { std::vector<std::string> got(*log); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); CHECK(got == want, "quadrature of the resolved expression " << show(cur) << " did not use the given bounds and variable"); c.label("integrated"); }
  }
  if (n_int > 1) c.label("several symbolic integrals");
}
