// C16: recursive traversal and recursive manipulation with user-defined functors.
#include "driver.hpp"
#include "substgen.hpp"
const char * const property_rule =
  "C16: random trees (all node types) traversed by recording visitors which decline a random set of nodes, compared with the prescribed visiting order node by node; and manipulated by functors which accept a random set of nodes "
  "(by identity, by type or by structure) and return random replacements, compared with the model; non-trivial = at least two operations and (a declined binary node below the root, or an accepted node below the root)";

typedef vm::rt_traversal_interface<I> TI;
typedef vm::rt_manipulation_interface<I> MI;

struct Visitor : TI
{
  std::vector<I const *> & seen; std::set<I const *> const & declined; bool deflt;
  Visitor(std::vector<I const *> & s, std::set<I const *> const & d) : seen(s), declined(d) {}
  void operator()(I const * e) const { seen.push_back(e); }
  bool step_into(I const * e) const { return declined.count(e) == 0; }
};
struct PlainVisitor : TI    // uses the default of step_into
{
  std::vector<I const *> & seen;
  explicit PlainVisitor(std::vector<I const *> & s) : seen(s) {}
  void operator()(I const * e) const { seen.push_back(e); }
};
struct CountF { int & n; template <typename T> void operator()(T const &) const { ++n; } };
struct TypeCounter : TI
{
  int * n;    // unary, binary, constant, long constant, variable, symbol, vector, int constant, float constant
  explicit TypeCounter(int * p) : n(p) {}
  void operator()(I const * e) const
  {
    bool r[9] = { vm::callback_if_castable<U>::apply(e, CountF{ n[0] }), vm::callback_if_castable<B>::apply(e, CountF{ n[1] }), vm::callback_if_castable<C>::apply(e, CountF{ n[2] }), vm::callback_if_castable<LC>::apply(e, CountF{ n[3] }),
                  vm::callback_if_castable<V>::apply(e, CountF{ n[4] }), vm::callback_if_castable<F>::apply(e, CountF{ n[5] }), vm::callback_if_castable<X>::apply(e, CountF{ n[6] }), vm::callback_if_castable<IC>::apply(e, CountF{ n[7] }), vm::callback_if_castable<FC>::apply(e, CountF{ n[8] }) };
    int k = 0; for (bool b : r) k += b;
    CHECK(k == 1, "callback_if_castable accepted " << k << " types for the node " << show(reify(e)));
  }
};

static void order(I const * e, std::set<I const *> const & declined, std::vector<I const *> & out)
{
  if (U const * u = dynamic_cast<U const *>(e)) { out.push_back(e); order(u->lhs(), declined, out); }
  else if (B const * b = dynamic_cast<B const *>(e))
  {
    if (declined.count(e)) { out.push_back(e); return; }
    order(b->lhs(), declined, out); out.push_back(e); order(b->rhs(), declined, out);
  }
  else out.push_back(e);
}
static void nodes(I const * e, std::vector<I const *> & out)
{
  out.push_back(e);
  if (U const * u = dynamic_cast<U const *>(e)) nodes(u->lhs(), out);
  else if (B const * b = dynamic_cast<B const *>(e)) { nodes(b->lhs(), out); nodes(b->rhs(), out); }
}
static std::string list(std::vector<I const *> const & v) { std::string r; for (auto p : v) r += " " + show(reify(p)); return r; }

struct Rewriter : MI
{
  std::map<I const *, N> const & repl;
  explicit Rewriter(std::map<I const *, N> const & r) : repl(r) {}
  I * operator()(I const * e) const { auto i = repl.find(e); if (i == repl.end()) return e->clone(); return raw(i->second); }
  bool modifies(I const * e) const { return repl.count(e) != 0; }
};
// says nothing about what it modifies, which means: the leaves only
struct Undecided : MI
{
  int & calls; N by;
  Undecided(int & n, N const & b) : calls(n), by(b) {}
  I * operator()(I const *) const { ++calls; return raw(by); }
};
static N rewritten(I const * e, std::map<I const *, N> const & repl)
{
  auto i = repl.find(e); if (i != repl.end()) return i->second;
  if (U const * u = dynamic_cast<U const *>(e)) { Node m = *reify(e); m.c[0] = rewritten(u->lhs(), repl); return mk(m); }
  if (B const * b = dynamic_cast<B const *>(e)) { Node m = *reify(e); m.c[0] = rewritten(b->lhs(), repl); m.c[1] = rewritten(b->rhs(), repl); return mk(m); }
  return reify(e);
}

void property(Src & s, Case & c)
{
  Gen g(s);
  subst_flags(g, s.below(8));
  g.lconst = s.chance(1, 4);
  N e = g.sized();
  if (s.chance(1, 8)) { std::vector<N> v; size_t d = 1 + s.below(3); for (size_t i = 0; i < d; ++i) v.push_back(g.expr(3)); e = m_bin(int(s.below(4)), e, m_vec(v)); if (s.chance(1, 2)) e = m_un(U_SIN, e); }
  E ex = build(e);
  I const * root = ex.get();
  std::vector<I const *> all; nodes(root, all);
  unsigned mode = s.below(4);
  std::ostringstream d;
  if (mode < 2)
  {
    c.label("traversal");
    std::set<I const *> declined;
    unsigned k = s.below(4); for (unsigned i = 0; i < k; ++i) declined.insert(all[s.below(unsigned(all.size()))]);
    bool useplain = s.chance(1, 5); if (useplain) declined.clear();
    d << "traverse " << show(e) << " declining"; for (auto p : declined) d << " " << show(reify(p));
    c.desc = d.str();
    std::vector<I const *> want, got;
    order(root, declined, want);
    if (useplain) { vm::rt_traversal_wrapper<I> w(new PlainVisitor(got)); root->recursive_traversal(w); }
    else { vm::rt_traversal_wrapper<I> w(new Visitor(got, declined)); root->recursive_traversal(w); }
    CHECK(want == got, d.str() << ": visited" << list(got) << " instead of" << list(want));
    for (auto p : declined) if (p != root && dynamic_cast<B const *>(p)) { c.nt(); c.label("declined below the root"); break; }
    if (useplain && count_nodes(e) > 4) c.nt();
    int n[9] = {}, m[9] = {};
    vm::rt_traversal_wrapper<I> w(new TypeCounter(n)); root->recursive_traversal(w);
    for (auto p : all) { N x = reify(p); m[x->k == BIN ? 1 : x->k == CONST ? 2 : x->k == LCONST ? (x->id == 0 ? 3 : 6 + int(x->id)) : x->k == VAR ? 4 : x->k == FS ? 5 : x->k == VEC ? 6 : 0]++; }
    for (int i = 0; i < 9; ++i) CHECK(n[i] == m[i], "traversal of " << show(e) << " with callback_if_castable saw " << n[i] << " nodes of type " << i << " instead of " << m[i]);
  }
  else
  {
    c.label("manipulation");
    std::map<I const *, N> repl;
    unsigned k = s.below(4);
    Gen h(s); h.fs = true; h.pool = g.pool;
    if (s.chance(1, 3))
    { // all nodes of one kind
      N pick = reify(all[s.below(unsigned(all.size()))]); N r = h.expr(3);
      for (auto p : all) { N x = reify(p); if (x->k == pick->k && (x->k != BIN && x->k != UN ? true : x->op == pick->op)) repl[p] = s.chance(1, 2) ? r : m_bin(ADD, x, r); }
    }
    else for (unsigned i = 0; i < k; ++i) { I const * p = all[s.below(unsigned(all.size()))]; repl[p] = s.chance(1, 3) ? m_bin(int(s.below(4)), reify(p), h.expr(2)) : h.expr(5); }
    d << "manipulate " << show(e) << " by"; for (auto & p : repl) d << " " << show(reify(p.first)) << "->" << show(p.second);
    c.desc = d.str();
    N want = rewritten(root, repl);
    vm::rt_manipulation_wrapper<I> w(new Rewriter(repl));
    E got(root->recursive_manipulation(w));
    CHECK(same(reify(got), want), d.str() << ": gave " << show(reify(got)) << " instead of " << show(want));
    if (s.chance(1, 6)) { vm::rt_manipulation_wrapper<I> w0(new MI()); E cp(root->recursive_manipulation(w0)); CHECK(same(reify(cp), e), "the default manipulation does not reproduce " << show(e) << " but gives " << show(reify(cp))); c.label("default functor"); }
    if (s.chance(1, 6))
    {
      int calls = 0, leaves = 0; N by = h.expr(2); vm::rt_manipulation_wrapper<I> w0(new Undecided(calls, by)); E cp(root->recursive_manipulation(w0));
      std::map<I const *, N> every; for (auto p : all) if (!dynamic_cast<U const *>(p) && !dynamic_cast<B const *>(p)) { every[p] = by; ++leaves; }
      CHECK(calls == leaves, "a functor which modifies leaves only was called " << calls << " times for " << show(e));
      CHECK(same(reify(cp), rewritten(root, every)), "replacing the leaves of " << show(e) << " by " << show(by) << " gave " << show(reify(cp))); c.label("functor without 'modifies'");
    }
    for (auto & p : repl) if (p.first != root && depth(e) > 2) { c.nt(); break; }
  }
  CHECK(same(reify(ex), e), d.str() << " changed its argument to " << show(reify(ex)));
  // nodes are still the same objects
  std::vector<I const *> after; nodes(ex.get(), after);
  CHECK(after == all, d.str() << " replaced nodes of its argument");
}
