// C08: simultaneous substitution.
#include "twin.hpp"
#include "driver.hpp"
#include "substgen.hpp"
const char * const property_rule =
  "C08: random trees and lists of 0..6 items (variables incl. permutations, function symbols, overlapping subtrees, duplicates) with replacements that may contain other items; compared with simultaneous substitution on the model tree "
  "(both simplified) and by value; non-trivial = at least two different items of the list occur in the expression below an operation";

void property(Src & s, Case & c)
{
  Gen g(s);
  subst_flags(g, s.below(8));
  g.lconst = s.chance(1, 10);
  N e = g.sized();
  unsigned mode = s.below(4);
  std::vector<std::pair<N, N>> rules;
  if (mode == 0)
  { // permutation (or general map) of the common variables
    unsigned n = 2 + s.below(3); std::vector<unsigned long> to; for (unsigned i = 0; i < n; ++i) to.push_back(i);
    for (unsigned i = n; i > 1; --i) std::swap(to[i - 1], to[s.below(i)]);
    for (unsigned i = 0; i < n; ++i) rules.push_back({ m_var(i), m_var(to[i]) });
    c.label("permutation");
  }
  else
  {
    unsigned n = s.chance(1, 40) ? 7 + s.below(40) : s.below(7);
    for (unsigned i = 0; i < n; ++i)
    {
      N what;
      static const unsigned w[] = { 5, 3, 5, 2, 1, 1 };
      switch (s.weighted(w))
      {
        case 0: what = m_var(g.var_id()); break;
        case 1: what = m_fs(g.fs_id(), g.tag()); break;
        case 2: { std::vector<N> subs; collect_main(e, subs); what = subs[s.below(unsigned(subs.size()))]; break; }
        case 3: what = g.expr(3); break;
        case 4: what = m_const(g.constant()); break;
        default: what = rules.empty() ? m_var(0) : rules[s.below(unsigned(rules.size()))].first; break;      // twice in the list
      }
      N repl;
      switch (s.below(4))
      {
        case 0: repl = m_const(g.constant()); break;
        case 1: repl = rules.empty() ? m_var(g.var_id()) : rules[s.below(unsigned(rules.size()))].first; break;   // another item
        case 2: repl = g.expr(5); break;
        default: repl = m_bin(int(s.below(4)), what, m_var(g.var_id())); break;
      }
      rules.push_back({ what, repl });
      if (s.chance(1, 2)) e = implant(s, e, what, 1 + s.below(2));
    }
  }
  if (s.chance(1, 12)) { std::vector<N> v; size_t d = 1 + s.below(3); for (size_t i = 0; i < d; ++i) v.push_back(g.expr(4)); N vec = m_vec(v); e = s.chance(1, 2) ? vec : m_bin(int(s.below(4)), vec, e); c.label("vector");
    if (s.chance(1, 2))
    { // a whole vector as one of the items, before or after the others
      N repl = g.expr(4); if (s.chance(1, 2)) { std::vector<N> w; for (size_t i = 0; i < d; ++i) w.push_back(g.expr(3)); repl = m_vec(w); }
      rules.insert(rules.begin() + (s.chance(1, 2) ? 0 : long(rules.size())), std::make_pair(vec, repl)); c.label("vector item");
    }
  }
  if (count_nodes(e) > 400) throw Discard();
  std::string text; size_t present = 0; std::vector<N> seen;
  for (auto const & r : rules)
  {
    if (constants_mixed(e, r.first) || occurs(e, r.first, true) || (r.first->k == VAR && any_node(e, [&](Node const & n) { return n.k == INTG && n.id == r.first->id; }))) throw Discard();
    text += show(r.first) + " by " + show(r.second) + "; ";
    bool dup = false; for (auto const & x : seen) dup |= same(x, r.first);
    if (!dup && occurs(e, r.first) && !same(e, r.first)) ++present;
    seen.push_back(r.first);
  }
  N expect = model_subst(e, rules);
  if (count_nodes(expect) > 3000) throw Discard();
  c.desc = "substitute " + text + "in " + show(e);
  std::vector<E> sv, rv;
  for (auto const & r : rules) { sv.push_back(build(r.first)); rv.push_back(build(r.second)); }
  E ex = build(e), got;
  if (s.chance(1, 8)) quietly([&] { vm::substitute(sv, rv, build(twin(e, s, g, c))); });
  if (s.chance(1, 8)) quietly([&] { std::vector<E> other(rv); for (auto & r : other) r = build(twin(reify(r), s, g, c)); vm::substitute(sv, other, ex); });
  unsigned route = s.below(3);
  if (route == 1)
  {
    std::vector<const I *> a, b; for (auto & x : sv) a.push_back(x.get()); for (auto & x : rv) b.push_back(x.get());
    got = E(ex.get()->substitute(a, b)); c.label("interface");
  }
  else got = vm::substitute(sv, rv, ex);
  CHECK(same(reify(ex), e), "simultaneous substitution changed the expression it worked on: " << show(e) << " is now " << show(reify(ex)));
  for (size_t i = 0; i < rules.size(); ++i)
  {
    CHECK(same(reify(sv[i]), rules[i].first), "simultaneous substitution changed the searched item " << show(rules[i].first));
    CHECK(same(reify(rv[i]), rules[i].second), "simultaneous substitution changed the replacement " << show(rules[i].second));
  }
  CHECK(same_norm(reify(got), expect), "simultaneous substitution of " << text << "in " << show(e) << " gave " << show(reify(got)) << " instead of " << show(expect) << " (up to simplification)");
  agree(expect, reify(got), s, 17, 1, "simultaneous substitution");
  if (rules.size() == 1)
  {
    E one = vm::substitute(sv[0], rv[0], ex);
    CHECK(same_norm(reify(one), reify(got)), "a list of one item differs from the single substitution: " << show(reify(got)) << " vs " << show(reify(one)));
    c.label("list of one");
  }
  if (rules.empty()) c.label("empty list");
  if (present >= 2) c.nt();
}
