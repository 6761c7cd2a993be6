// C29: the queries of nodes and operations agree with what the nodes hold.
#include "driver.hpp"
#include "substgen.hpp"
#include "mutate.hpp"
const char * const property_rule =
  "C29: every node of random trees of all node types is asked is_unary, is_constant, unwrap, shallow_equal, deep_equal, shallow_str, clone, lhs, rhs, op, and its operation is_unary, str, apply, equal, clone, diff and simplify, "
  "and the answers are compared with the tree; pairs of nodes come from the tree itself, from a tree with one change and from a third tree; non-trivial = at least two operations";

static bool plain_const(N const & n) { return is_num(n) || (n->k == BIN && plain_const(n->c[0]) && plain_const(n->c[1])); }
static bool closed(N const & n) { return !any_node(n, [](Node const & x) { return x.k == VAR || x.k == FS || x.k == VEC || x.k == INTG || x.k == SINT || (x.k == UN && x.op >= U_GRAD); }); }
static double exact(N const & n)
{
  if (is_num(n)) return n->v;
  if (n->k == BIN) { double a = exact(n->c[0]), b = exact(n->c[1]); switch (n->op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; } }
  double a = exact(n->c[0]);
  switch (n->op)
  {
    case U_ID: return a; case U_EXP: return std::exp(a); case U_SIN: return std::sin(a); case U_COS: return std::cos(a); case U_TAN: return std::tan(a);
    case U_FABS: return std::fabs(a); case U_SQRT: return std::sqrt(a); case U_LOG: return std::log(a); default: return std::log10(a);
  }
}
static bool near_eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-13 * std::max(std::fabs(a), std::fabs(b)); }
static int shape(N const & n) { return n->k == INTG || n->k == SINT ? int(UN) : int(n->k); }
static std::string prefix(N const & n)      // how the operation appears in the text of the node
{
  return n->k == BIN ? bop_name[n->op] : n->k == UN && n->op <= U_DIV ? uop_name[n->op] : "";
}
template <typename FN> static bool throws(FN f) { try { f(); } catch (std::exception const &) { return true; } catch (const char *) { return true; } return false; }

// all nodes of a real tree with their models (also the entries of vectors)
static void walk(I const * e, std::vector<std::pair<I const *, N>> & out)
{
  out.push_back(std::make_pair(e, reify(e)));
  if (U const * u = dynamic_cast<U const *>(e)) walk(u->lhs(), out);
  else if (B const * b = dynamic_cast<B const *>(e)) { walk(b->lhs(), out); walk(b->rhs(), out); }
  else if (X const * x = dynamic_cast<X const *>(e)) for (size_t i = 0; i < x->size(); ++i) walk((*x)[i].get(), out);
}

static void ask(I const * e, N const & n, Src & s)
{
  std::string t = show(n);
  CHECK(e->is_unary() == (n->k != BIN), "is_unary() of " << t << " is " << e->is_unary());
  bool k = e->is_constant();
  if (plain_const(n)) CHECK(k, "is_constant() of " << t << " is false");
  if (!closed(n)) CHECK(!k, "is_constant() of " << t << " is true");
  if (closed(n))
  {
    double want = exact(n), got = e->unwrap(), v0 = e->eval(0.5), v1 = e->eval(std::vector<double>());
    CHECK(near_eq(want, got), "unwrap() of " << t << " is " << num(got) << " instead of " << num(want));
    CHECK(near_eq(v0, got) && near_eq(v1, got), "unwrap() of " << t << " is " << num(got) << " but it evaluates to " << num(v0) << " and " << num(v1));
  }
  else CHECK(throws([&] { e->unwrap(); }), "unwrap() of " << t << " returns a number although this is not a constant");
  std::unique_ptr<I> copy(e->clone());
  CHECK(copy.get() != e && same(reify(copy.get()), n), "clone() of " << t << " is " << show(reify(copy.get())));
  std::string sh = e->shallow_str();
  if (n->c.empty() && n->k != VEC) CHECK(sh == e->deep_str(), "the short text of " << t << " is " << sh << " although the node has no operands and the full text is " << e->deep_str());

  if (U const * u = dynamic_cast<U const *>(e))
  {
    OpI const * o = u->op();
    CHECK(o->is_unary(), "the operation of " << t << " claims to be binary");
    if (!prefix(n).empty()) CHECK(o->str() == prefix(n), "the operation of " << t << " is called " << o->str());
    CHECK(e->deep_str().compare(0, o->str().size(), o->str()) == 0, "the text of " << t << ", " << e->deep_str() << ", does not begin with its operation " << o->str());
    std::unique_ptr<OpI> oc(o->clone());
    CHECK(o->equal(oc.get()) && oc->equal(o) && oc->str() == o->str() && oc->is_unary(), "the copy of the operation of " << t << " differs from it");
    double v = coord(s);
    if (n->k == UN && n->op <= U_LOG10)
    {
      double want = exact(m_un(n->op, m_const(v))), got = o->apply(v), gc = oc->apply(v);
      CHECK(near_eq(want, got) && near_eq(want, gc), "the operation of " << t << " maps " << num(v) << " to " << num(got) << " and its copy to " << num(gc) << " instead of " << num(want));
      CHECK(o->can_simplify(), "the operation of " << t << " claims that it cannot be reduced on constants");
    }
    else
    {
      CHECK(throws([&] { o->apply(v); }), "the formal operation of " << t << " returns a number");
      CHECK(!o->can_simplify(), "the formal operation of " << t << " claims that it can be reduced on constants");
    }
    CHECK(throws([&] { o->apply(v, v + 1); }), "the operation of " << t << " accepts two numbers");
    CHECK(throws([&] { std::unique_ptr<I> d(o->diff(u->lhs(), u->lhs(), u->lhs())); }), "the operation of " << t << " accepts two operands for its derivative");
  }
  else if (B const * b = dynamic_cast<B const *>(e))
  {
    OpI const * o = b->op();
    CHECK(!o->is_unary(), "the operation of " << t << " claims to be unary");
    CHECK(o->str() == prefix(n), "the operation of " << t << " is called " << o->str());
    CHECK(e->deep_str() == "(" + b->lhs()->deep_str() + o->str() + b->rhs()->deep_str() + ")" , "the text of " << t << " is " << e->deep_str());
    std::unique_ptr<OpI> oc(o->clone());
    CHECK(o->equal(oc.get()) && oc->equal(o) && oc->str() == o->str() && !oc->is_unary(), "the copy of the operation of " << t << " differs from it");
    double v = coord(s), w = coord(s);
    double want = exact(m_bin(n->op, m_const(v), m_const(w))), got = o->apply(v, w), gc = oc->apply(v, w);
    CHECK(near_eq(want, got) && near_eq(want, gc), "the operation of " << t << " maps " << num(v) << ", " << num(w) << " to " << num(got) << " and its copy to " << num(gc) << " instead of " << num(want));
    CHECK(throws([&] { o->apply(v); }), "the operation of " << t << " accepts a single number");
    CHECK(throws([&] { std::unique_ptr<I> d(o->diff(b->lhs(), b->rhs())); }), "the operation of " << t << " accepts a single operand for its derivative");
    if (!has_kind(n, VEC))
    {
      if (!plain_const(n)) CHECK(e->can_simplify() == o->can_simplify(b->lhs(), b->rhs()), "node and operation of " << t << " disagree about can_simplify");
      std::unique_ptr<I> r(o->simplify(b->lhs(), b->rhs())), p(oc->simplify(b->lhs(), b->rhs()));
      N m = reify(r.get()), q = reify(p.get());
      CHECK(same(m, q), "the operation of " << t << " simplifies to " << show(m) << " and its copy to " << show(q));
      CHECK(same_norm(m, n) != 0, "the operation of " << t << " simplifies its operands to " << show(m));
    }
  }
  else if (C const * x = dynamic_cast<C const *>(e)) CHECK(static_cast<double>(*x) == n->v && x->unwrap() == n->v, "value of " << t);
}

static void pair(I const * a, N const & m, I const * b, N const & n)
{
  bool sh = a->shallow_equal(b), de = a->deep_equal(b);
  CHECK(sh == b->shallow_equal(a), "shallow_equal of " << show(m) << " and " << show(n) << " depends on the order");
  if (!(is_num(m) && is_num(n))) CHECK(sh == (shape(m) == shape(n)), "shallow_equal of " << show(m) << " and " << show(n) << " is " << sh);
  else if (m->k == n->k && m->id == n->id) CHECK(sh, "shallow_equal of the constants " << show(m) << " and " << show(n) << " is false");
  if (de) CHECK(sh, show(m) << " and " << show(n) << " are deeply equal but not shallowly");
  bool inner_m = !m->c.empty() || m->k == VEC, inner_n = !n->c.empty() || n->k == VEC;
  if (inner_m || inner_n)
    CHECK((a->shallow_str() == b->shallow_str()) == (shape(m) == shape(n)), "the short texts of " << show(m) << " and " << show(n) << " are " << a->shallow_str() << " and " << b->shallow_str());
  U const * u = dynamic_cast<U const *>(a), * v = dynamic_cast<U const *>(b); B const * p = dynamic_cast<B const *>(a), * q = dynamic_cast<B const *>(b);
  OpI const * x = u ? u->op() : p ? p->op() : 0, * y = v ? v->op() : q ? q->op() : 0;
  if (x && y)
  {
    bool want = m->k == n->k && m->op == n->op;
    if (want && m->k == UN && m->op == U_PD) want = m->id == n->id;
    if (want && m->k == SINT) want = m->id == n->id;
    bool open = false;
    if (want && m->k == INTG)
    {
      for (int i = 1; i < 3; ++i) if (constants_mixed(m->c[i], n->c[i])) open = true;
      want = m->id == n->id && same(m->c[1], n->c[1]) && same(m->c[2], n->c[2]);
    }
    if (!open) CHECK(x->equal(y) == want && y->equal(x) == want, "the operations of " << show(m) << " and " << show(n) << " are called " << (x->equal(y) ? "equal" : "different"));
  }
}

void property(Src & s, Case & c)
{
  Gen g(s);
  subst_flags(g, s.below(8)); g.lconst = s.chance(1, 4);
  N e = g.sized(21);
  if (s.chance(1, 6)) { std::vector<N> v; size_t d = 1 + s.below(4); for (size_t i = 0; i < d; ++i) v.push_back(g.expr(int(1 + s.below(5)))); N x = m_vec(v); e = s.chance(1, 2) ? x : m_bin(int(s.below(4)), x, e); c.label("vector"); }
  const char * how = ""; N f = mutate(e, s, g, how), h = g.sized(9);
  c.desc = show(e) + " and " + show(f) + " and " + show(h);
  if (depth(e) > 2 && count_nodes(e) > 3) c.nt();
  E a = build(e), b = build(f), d = build(h);
  std::vector<std::pair<I const *, N>> A, all;
  walk(a.get(), A); all = A; walk(b.get(), all); walk(d.get(), all);
  for (auto const & x : A) ask(x.first, x.second, s);
  size_t k = all.size();
  if (k * k <= 400) { for (auto const & x : all) for (auto const & y : all) pair(x.first, x.second, y.first, y.second); }
  else for (int i = 0; i < 300; ++i) { auto const & x = all[s.below(unsigned(k))]; auto const & y = all[s.below(unsigned(k))]; pair(x.first, x.second, y.first, y.second); }
  for (auto const & x : A) if (x.second->k == UN || x.second->k == INTG || x.second->k == SINT) c.label("unary operation");
  CHECK(same(reify(a), e) && same(reify(b), f) && same(reify(d), h), "the queries changed an expression");
}
