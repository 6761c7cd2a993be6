// C03: expressions behave as independent values and own their memory.
#include <cstddef>
static long live_blocks = 0;
#include <new>
#include <cstdlib>
void * operator new(std::size_t n) { void * p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live_blocks; return p; }
void * operator new[](std::size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { if (p) { --live_blocks; std::free(p); } }
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete(void * p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void * p, std::size_t) noexcept { operator delete(p); }
#include "driver.hpp"
const char * const property_rule =
  "C03: random histories of up to 40 operations (construction, copy, assignment incl. self and own parts, empty expressions, operators, functions, simplify, substitute, diff, evaluation, comparison, text, LaTeX, quadrature, "
  "traversal, container operations, destruction) over a pool of rt_expr, rt_unary_expr, rt_binary_expr, rt_vector_expr, rt_interval, rt_equation and their constant/variable leaves; after every operation every object is "
  "compared with its model, at the end allocations are balanced (global operator new/delete are counted); non-trivial = at least 5 operations, one of them an assignment or manipulation of a compound object";

typedef vm::rt_equation<I> EQ;
static std::string typed(N const & n) { return show(n); }

struct Pool
{
  std::vector<E> es; std::vector<N> em;       // rt_expr; a null model denotes an empty expression
  std::vector<U> us; std::vector<N> um;
  std::vector<B> bs; std::vector<N> bm;
  std::vector<X> xs; std::vector<N> xm;
  std::vector<IV> ivs; std::vector<std::pair<N, N>> im;
  std::vector<EQ> qs; std::vector<std::pair<N, N>> qm;
};

static N rd(E const & e) { return e.get() == NULL ? N() : reify(e); }
static bool eqm(N const & a, N const & b) { if (!a || !b) return !a && !b; return same(a, b); }

static void verify(Pool & p, std::string const & log)
{
  for (size_t i = 0; i < p.es.size(); ++i) { N r = rd(p.es[i]); CHECK(eqm(r, p.em[i]), "expression " << i << " is " << show(r) << " instead of " << show(p.em[i]) << " after " << log); }
  for (size_t i = 0; i < p.us.size(); ++i) { N r = reify(&p.us[i]); CHECK(eqm(r, p.um[i]), "unary expression " << i << " is " << show(r) << " instead of " << show(p.um[i]) << " after " << log); }
  for (size_t i = 0; i < p.bs.size(); ++i) { N r = reify(&p.bs[i]); CHECK(eqm(r, p.bm[i]), "binary expression " << i << " is " << show(r) << " instead of " << show(p.bm[i]) << " after " << log); }
  for (size_t i = 0; i < p.xs.size(); ++i) { N r = reify(&p.xs[i]); CHECK(eqm(r, p.xm[i]), "vector expression " << i << " is " << show(r) << " instead of " << show(p.xm[i]) << " after " << log); }
  for (size_t i = 0; i < p.ivs.size(); ++i) { N a = rd(p.ivs[i].lower()), b = rd(p.ivs[i].upper()); CHECK(eqm(a, p.im[i].first) && eqm(b, p.im[i].second), "interval " << i << " is [" << show(a) << "; " << show(b) << "] instead of [" << show(p.im[i].first) << "; " << show(p.im[i].second) << "] after " << log); }
  for (size_t i = 0; i < p.qs.size(); ++i) { N a = rd(p.qs[i].lhs()), b = rd(p.qs[i].rhs()); CHECK(eqm(a, p.qm[i].first) && eqm(b, p.qm[i].second), "equation " << i << " is " << show(a) << " = " << show(b) << " instead of " << show(p.qm[i].first) << " = " << show(p.qm[i].second) << " after " << log); }
}

struct Counter : public vm::rt_traversal_interface<I> { mutable int n; Counter() : n(0) {} void operator()(I const *) const { ++n; } };
struct Inc : public vm::rt_manipulation_interface<I>
{
  mutable int n; Inc() : n(0) {}
  I * operator()(I const * e) const { V const * v = dynamic_cast<V const *>(e); if (v) return new V(v->id() + 1); return e->clone(); }
  bool modifies(I const * e) const { ++n; return dynamic_cast<V const *>(e) != NULL; }
};

static char logbuf[6000];
static void add_log(std::string const & t) { size_t l = strlen(logbuf); if (l + t.size() + 2 < sizeof logbuf) { strcpy(logbuf + l, "; "); strcpy(logbuf + l + 2, t.c_str()); } }

static bool bits(double a, double b) { return a == b || (a != a && b != b); }
// everything the object tells is what a new object with the same tree tells
static void observe(I const * o, N const & m, bool evaluable, std::string const & name)
{
  if (any_node(m, [](Node const & n) { return n.k == CONST && n.v != n.v; })) return;     // not equal to itself
  std::unique_ptr<I> fresh(raw(m));
  CHECK(o->deep_equal(fresh.get()) && fresh->deep_equal(o), name << " does not equal a new " << show(m));
  CHECK(o->deep_str() == fresh->deep_str() && o->shallow_str() == fresh->shallow_str(), name << " prints " << o->deep_str() << " where a new object prints " << fresh->deep_str());
  CHECK(o->is_constant() == fresh->is_constant() && o->can_simplify() == fresh->can_simplify() && o->is_unary() == fresh->is_unary(), name << " answers the queries differently from a new " << show(m));
  if (o->is_constant()) { double a = o->unwrap(), b = fresh->unwrap(); CHECK(bits(a, b), name << " unwraps to " << num(a) << " where a new " << show(m) << " gives " << num(b)); }
  if (!evaluable) return;
  std::vector<double> x(3, 0.5);
  double a = o->eval(x), b = fresh->eval(x);
  CHECK(bits(a, b), name << " evaluates to " << num(a) << " where a new " << show(m) << " gives " << num(b));
  if (any_node(m, [](Node const & n) { return n.k == VAR && n.id > 0; })) return;
  a = o->eval(0.25), b = fresh->eval(0.25);
  CHECK(bits(a, b), name << " evaluates to " << num(a) << " at a number where a new " << show(m) << " gives " << num(b));
}

static void history(Src & s, bool & nontrivial, bool & threw)
{
  Pool p; Gen g(s);
  g.fs = g.grad = true; g.intg = g.sint = s.chance(1, 3); g.lconst = s.chance(1, 4); g.pd = g.diverg = s.chance(1, 3);
  g.vec = false;
  bool may_throw = s.chance(1, 4);
  auto smooth = [](N const & n) { return !any_node(n, [](Node const & x) { return x.k == INTG || x.k == SINT || x.k == VEC || (x.k == UN && (x.op == U_FABS || x.op == U_DIV || x.op == U_PD)); }); };
  auto evaluable = [](N const & n) { return !any_node(n, [](Node const & x) { return x.k == INTG || x.k == SINT || x.k == VEC || x.k == FS || (x.k == VAR && x.id > 2) || (x.k == UN && x.op >= U_GRAD); }); };
  unsigned len = 3 + s.below(38); bool compound = false; unsigned done = 0;
  auto pickE = [&]() -> size_t { if (p.es.empty()) { N n = g.sized(9); p.es.push_back(build(n)); p.em.push_back(n); } return s.below(unsigned(p.es.size())); };
  auto fullE = [&]() -> size_t { for (int t = 0; t < 4; ++t) { size_t i = pickE(); if (p.em[i] && p.em[i]->k != VEC && count_nodes(p.em[i]) < 60) return i; } N n = g.sized(9); p.es.push_back(build(n)); p.em.push_back(n); return p.es.size() - 1; };
  auto store = [&](E const & e, N const & n) { if (!p.es.empty() && s.chance(1, 2)) { size_t i = s.below(unsigned(p.es.size())); p.es[i] = e; p.em[i] = n; } else if (p.es.size() < 8) { p.es.push_back(e); p.em.push_back(n); } };
  auto pickU = [&]() -> size_t { if (p.us.empty()) { N n = m_un(int(s.below(10)), g.sized(7)); p.us.push_back(build_u(n)); p.um.push_back(n); } return s.below(unsigned(p.us.size())); };
  auto pickB = [&]() -> size_t { if (p.bs.empty()) { N n = m_bin(int(s.below(4)), g.sized(5), g.sized(5)); p.bs.push_back(build_b(n)); p.bm.push_back(n); } return s.below(unsigned(p.bs.size())); };
  auto pickX = [&]() -> size_t { if (p.xs.empty()) { std::vector<N> c; unsigned d = 1 + s.below(4); for (unsigned k = 0; k < d; ++k) c.push_back(g.expr(3)); N n = m_vec(c); p.xs.push_back(build_x(n)); p.xm.push_back(n); } return s.below(unsigned(p.xs.size())); };
  for (unsigned step = 0; step < len; ++step)
  {
    unsigned op = s.below(55);
    std::string what = "op " + std::to_string(op);
    try
    {
      switch (op)
      {
        case 0: { N n = g.sized(13); store(build(n), n); what = "create " + typed(n); break; }
        case 1: { size_t i = pickE(); E c(p.es[i]); store(c, p.em[i]); what = "copy e" + std::to_string(i); break; }
        case 2: { size_t i = pickE(), j = pickE(); p.es[i] = p.es[j]; p.em[i] = p.em[j]; what = "e" + std::to_string(i) + " = e" + std::to_string(j); break; }
        case 3: { size_t i = pickE(); E & r = p.es[i]; r = p.es[i]; what = "self assignment e" + std::to_string(i); compound = true; break; }
        case 4: { size_t i = pickE(); N n; switch (s.below(6)) { case 0: { double v = g.constant(); p.es[i] = v; n = m_const(v); break; } case 1: { C c(g.constant()); p.es[i] = c; n = reify(&c); break; } case 2: { V v(g.var_id()); p.es[i] = v; n = reify(&v); break; } case 3: { F f(s.below(3), g.tag()); p.es[i] = f; n = reify(&f); break; } case 4: { LC c(long(s.below(9))); p.es[i] = c; n = reify(&c); break; } default: { N m = g.sized(7); p.es[i] = raw(m); n = m; break; } } p.em[i] = n; what = "e" + std::to_string(i) + " = leaf or pointer " + show(n); break; }
        case 5: { size_t i = pickE(), j = pickU(); p.es[i] = E(p.us[j]); p.em[i] = p.um[j]; what = "e" + std::to_string(i) + " = u" + std::to_string(j); compound = true; break; }
        case 6: { size_t i = pickE(), j = pickB(); p.es[i] = p.bs[j]; p.em[i] = p.bm[j]; what = "e" + std::to_string(i) + " = b" + std::to_string(j); compound = true; break; }
        case 7: { size_t i = pickE(), j = pickX(); p.es[i] = p.xs[j]; p.em[i] = p.xm[j]; what = "e" + std::to_string(i) + " = x" + std::to_string(j); compound = true; break; }
        case 8: { // a part of itself
          size_t i = fullE(); I const * q = p.es[i].get(); compound = true;
          if (B const * b = dynamic_cast<B const *>(q))
          {
            N m = p.em[i]; bool left = s.chance(1, 2); I const * part = left ? b->lhs() : b->rhs(); N pm = m->c[left ? 0 : 1];
            if (s.chance(1, 4)) { p.es[i] = *b; what = "e = its own content"; break; }
            if (B const * pb = dynamic_cast<B const *>(part)) p.es[i] = *pb;
            else if (C const * pc = dynamic_cast<C const *>(part)) p.es[i] = *pc;
            else if (V const * pv = dynamic_cast<V const *>(part)) p.es[i] = *pv;
            else if (F const * pf = dynamic_cast<F const *>(part)) p.es[i] = *pf;
            else p.es[i] = part->clone();
            p.em[i] = pm;
          }
          else if (U const * u = dynamic_cast<U const *>(q)) { p.es[i] = u->lhs()->clone(); p.em[i] = p.em[i]->c[0]; }
          what = "e" + std::to_string(i) + " = part of itself"; break; }
        case 9: { size_t i = pickU(), j = pickU(); p.us[i] = p.us[j]; p.um[i] = p.um[j]; compound = true; what = "u" + std::to_string(i) + " = u" + std::to_string(j); break; }
        case 10: { size_t i = pickU(); U & u = p.us[i]; if (U const * in = dynamic_cast<U const *>(u.lhs())) { u = *in; p.um[i] = p.um[i]->c[0]; } else { u = p.us[i]; } compound = true; what = "u" + std::to_string(i) + " = own operand"; break; }
        case 11: { size_t i = pickB(), j = pickB(); p.bs[i] = p.bs[j]; p.bm[i] = p.bm[j]; compound = true; what = "b" + std::to_string(i) + " = b" + std::to_string(j); break; }
        case 12: { size_t i = pickB(); B & b = p.bs[i]; bool left = s.chance(1, 2); if (B const * in = dynamic_cast<B const *>(left ? b.lhs() : b.rhs())) { b = *in; p.bm[i] = p.bm[i]->c[left ? 0 : 1]; } else { b = p.bs[i]; } compound = true; what = "b" + std::to_string(i) + " = own operand"; break; }
        case 13: { size_t i = pickX(), j = pickX(); p.xs[i] = p.xs[j]; p.xm[i] = p.xm[j]; compound = true; what = "x" + std::to_string(i) + " = x" + std::to_string(j); break; }
        case 14: { size_t i = pickX(), j = fullE(); size_t k = s.below(unsigned(p.xs[i].size())); p.xs[i][k] = p.es[j]; Node m = *p.xm[i]; m.c[k] = p.em[j]; p.xm[i] = mk(m); compound = true; what = "x" + std::to_string(i) + "[" + std::to_string(k) + "] = e" + std::to_string(j); break; }
        case 15: { size_t i = pickX(); size_t k = s.below(unsigned(p.xs[i].size())), l = s.below(unsigned(p.xs[i].size())); p.xs[i][k] = p.xs[i][l]; Node m = *p.xm[i]; m.c[k] = p.xm[i]->c[l]; p.xm[i] = mk(m); what = "x[k] = x[l]"; break; }
        case 16: { size_t i = fullE(), j = fullE(); int o = int(s.below(4)); E r = o == ADD ? E(p.es[i] + p.es[j]) : o == SUB ? E(p.es[i] - p.es[j]) : o == MUL ? E(p.es[i] * p.es[j]) : E(p.es[i] / p.es[j]); N n = m_bin(o, p.em[i], p.em[j]); store(r, n); compound = true; what = "e" + std::to_string(i) + bop_name[o] + "e" + std::to_string(j); break; }
        case 17: { // an expression is assigned the result of an operation on itself
          size_t i = fullE(); int o = int(s.below(4)); E & e = p.es[i]; switch (o) { case ADD: e = e + e; break; case SUB: e = e - e; break; case MUL: e = e * e; break; default: e = e / e; } p.em[i] = m_bin(o, p.em[i], p.em[i]); compound = true; what = "e = e op e"; break; }
        case 18: { size_t i = fullE(); E & e = p.es[i]; e = vm::sin(e); p.em[i] = m_un(U_SIN, p.em[i]); compound = true; what = "e = sin(e)"; break; }
        case 19: { size_t i = pickB(); int o = int(s.below(4)); B & b = p.bs[i]; if (count_nodes(p.bm[i]) > 60) break; switch (o) { case ADD: b = b + b; break; case SUB: b = b - b; break; case MUL: b = b * b; break; default: b = b / b; } p.bm[i] = m_bin(o, p.bm[i], p.bm[i]); compound = true; what = "b = b op b"; break; }
        case 20: { size_t i = pickU(); if (count_nodes(p.um[i]) > 60) break; U & u = p.us[i]; u = vm::cos(u); p.um[i] = m_un(U_COS, p.um[i]); compound = true; what = "u = cos(u)"; break; }
        case 21: { size_t i = fullE(); vm::inplace_simplify(p.es[i]); p.em[i] = reify(p.es[i]); compound = true; what = "inplace_simplify(e" + std::to_string(i) + ")"; break; }
        case 22: { size_t i = fullE(); E r = vm::simplify(p.es[i]); store(r, reify(r)); compound = true; what = "simplify(e" + std::to_string(i) + ")"; break; }
        case 23: { size_t i = fullE(), j = fullE(), k = fullE(); if (count_nodes(p.em[j]) > 25) break; E r = vm::substitute(p.es[k], p.es[j], p.es[i]); store(r, reify(r)); compound = true; what = "substitute(e" + std::to_string(k) + ", e" + std::to_string(j) + ", e" + std::to_string(i) + ")"; break; }
        case 24: { size_t i = fullE(), j = fullE(); std::vector<E> a, b; for (unsigned long v = 0; v < 3; ++v) { a.push_back(E(V(v))); b.push_back(p.es[j]); } if (count_nodes(p.em[j]) > 15) break; E r = vm::substitute(a, b, p.es[i]); store(r, reify(r)); compound = true; what = "substitute lists"; break; }
        case 25: { size_t i = fullE(); if (count_nodes(p.em[i]) > 30 || (!may_throw && (!smooth(p.em[i]) || has_uop(p.em[i], U_GRAD)))) break; V v(s.below(3)); E r = vm::diff(p.es[i], v); N n = reify(r); if (count_nodes(n) < 80) store(r, n); compound = true; what = "diff(e" + std::to_string(i) + ")"; break; }
        case 26: { size_t i = fullE(); if (count_nodes(p.em[i]) > 30 || (!may_throw && !smooth(p.em[i]))) break; F f(s.below(3), g.tag()); E r = vm::diff(p.es[i], f); N n = reify(r); if (count_nodes(n) < 80) store(r, n); compound = true; what = "Gateaux diff(e" + std::to_string(i) + ")"; break; }
        case 27: { size_t i = fullE(); if (!may_throw && !evaluable(p.em[i])) break; std::vector<double> x(3, 0.5); volatile double d = vm::eval(p.es[i], x); (void)d; what = "eval(e" + std::to_string(i) + ")"; break; }
        case 28: { size_t i = fullE(), j = fullE(); volatile bool b = p.es[i].get()->deep_equal(p.es[j].get()); b = p.es[i].get()->shallow_equal(p.es[j].get()); (void)b; what = "compare"; break; }
        case 29: { size_t i = fullE(); std::ostringstream o; o << p.es[i]; o << p.es[i].get()->deep_str() << p.es[i].get()->shallow_str(); what = "print"; break; }
        case 30: { size_t i = fullE(); vm::latex_translator t; std::string r = t(p.es[i]); vm::latex_translator t2(t); r += t2(p.es[i]); what = "LaTeX"; break; }
        case 31: { size_t i = fullE(); Counter * c = new Counter(); vm::rt_traversal_wrapper<I> w(c); p.es[i].get()->recursive_traversal(w); what = "traverse"; break; }
        case 32: { size_t i = fullE(); vm::rt_manipulation_wrapper<I> w(new Inc()); E r(p.es[i].get()->recursive_manipulation(w)); store(r, reify(r)); compound = true; what = "manipulate"; break; }
        case 33: { if (!p.es.empty()) { size_t i = s.below(unsigned(p.es.size())); p.es.erase(p.es.begin() + long(i)); p.em.erase(p.em.begin() + long(i)); what = "destroy e" + std::to_string(i); } break; }
        case 34: { if (!p.bs.empty()) { size_t i = s.below(unsigned(p.bs.size())); p.bs.erase(p.bs.begin() + long(i)); p.bm.erase(p.bm.begin() + long(i)); } if (!p.us.empty()) { p.us.erase(p.us.begin()); p.um.erase(p.um.begin()); } if (!p.xs.empty() && s.chance(1, 2)) { p.xs.pop_back(); p.xm.pop_back(); } what = "destroy b, u"; break; }
        case 35: { size_t i = fullE(), j = fullE(); if (p.ivs.size() < 4) { p.ivs.push_back(IV(p.es[i], p.es[j])); p.im.push_back({ p.em[i], p.em[j] }); } else { p.ivs[0] = IV(p.es[i], p.es[j]); p.im[0] = { p.em[i], p.em[j] }; } what = "interval(e" + std::to_string(i) + ", e" + std::to_string(j) + ")"; break; }
        case 36: { if (!p.ivs.empty()) { size_t i = s.below(unsigned(p.ivs.size())), j = s.below(unsigned(p.ivs.size())); p.ivs[i] = p.ivs[j]; p.im[i] = p.im[j]; compound = true; what = "interval " + std::to_string(i) + " = interval " + std::to_string(j); } break; }
        case 37: { size_t i = fullE(), j = fullE(); if (p.qs.size() < 4) { p.qs.push_back(EQ(p.es[i], p.es[j])); p.qm.push_back({ p.em[i], p.em[j] }); } else { size_t a = s.below(4), b = s.below(4); p.qs[a] = p.qs[b]; p.qm[a] = p.qm[b]; } compound = true; what = "equation"; break; }
        case 38: { size_t i = pickE(); E empty; if (s.chance(1, 2)) { p.es[i] = empty; p.em[i] = N(); what = "e" + std::to_string(i) + " = empty"; } else { E c(empty); c = p.es[i]; store(c, p.em[i]); what = "empty = e" + std::to_string(i); } break; }
        case 39: { size_t i = pickE(), j = pickE(); std::swap(p.es[i], p.es[j]); std::swap(p.em[i], p.em[j]); if (!p.bs.empty()) { size_t k = pickB(), l = pickB(); std::swap(p.bs[k], p.bs[l]); std::swap(p.bm[k], p.bm[l]); } what = "swap"; break; }
        case 40: { size_t i = fullE(); if (p.ivs.empty() || count_nodes(p.em[i]) > 40) break; size_t k = s.below(unsigned(p.ivs.size())); V v(s.below(3)); E r = vm::integral(p.ivs[k], p.es[i], v); store(r, m_intg(p.em[i], p.im[k].first, p.im[k].second, v.id())); compound = true; what = "integral"; break; }
        case 41: { size_t i = fullE(); if (!may_throw && (!evaluable(p.em[i]) || any_node(p.em[i], [](Node const & x) { return x.k == VAR && x.id > 0; }))) break; vm::numerical_quadrature q(new vm::gauss_quad_1()); vm::numerical_quadrature q2(q); q = q2; E a(C(0)), b(C(2)); IV iv(a, b); volatile double d = q(iv, p.es[i], V(0)); (void)d; what = "quadrature"; break; }
        case 42: { size_t i = pickX(), j = pickX(); if (p.xs[i].size() != p.xs[j].size() || count_nodes(p.xm[i]) > 60 || count_nodes(p.xm[j]) > 60) break; std::vector<N> c; for (size_t k = 0; k < p.xs[i].size(); ++k) c.push_back(m_bin(ADD, p.xm[i]->c[k], p.xm[j]->c[k])); X r = p.xs[i] + p.xs[j]; size_t t = s.below(unsigned(p.xs.size())); p.xs[t] = r; p.xm[t] = m_vec(c); compound = true; what = "x = x + x"; break; }
        case 43: { // numbers and constants can be assigned to unary and binary expressions
          double v = g.constant(); bool asc = s.chance(1, 2); compound = true;
          if (s.chance(1, 2)) { size_t i = pickB(); B & b = p.bs[i]; if (asc) { if (C const * own = dynamic_cast<C const *>(b.lhs())) { v = static_cast<double>(*own); b = *own; } else b = C(v); } else b = v; p.bm[i] = reify(&b); CHECK(b.eval(std::vector<double>(20, 0.5)) == v, "a binary expression evaluates to " << num(b.eval(std::vector<double>(20, 0.5))) << " after " << num(v) << " was assigned"); what = "b" + std::to_string(i) + " = " + num(v); }
          else { size_t i = pickU(); U & u = p.us[i]; if (asc) { if (C const * own = dynamic_cast<C const *>(u.lhs())) { v = static_cast<double>(*own); u = *own; } else u = C(v); } else u = v; p.um[i] = reify(&u); CHECK(u.eval(std::vector<double>(20, 0.5)) == v, "a unary expression evaluates to " << num(u.eval(std::vector<double>(20, 0.5))) << " after " << num(v) << " was assigned"); what = "u" + std::to_string(i) + " = " + num(v); }
          break; }
        case 45: case 46: { // substitution of parts that do occur, one by one or simultaneously
          size_t i = fullE(); if (count_nodes(p.em[i]) > 40) break;
          std::vector<N> parts; collect(p.em[i], parts); std::vector<E> a, b; size_t grow = 0; unsigned k = 1 + s.below(3);
          for (unsigned t = 0; t < k; ++t) { N w = s.chance(3, 4) ? parts[s.below(unsigned(parts.size()))] : g.expr(3); size_t j = fullE(); grow += count_nodes(p.em[j]); a.push_back(build(w)); b.push_back(p.es[j]); }
          if (grow > 20) break;
          E r = op == 45 ? E(vm::substitute(a[0], b[0], p.es[i])) : E(vm::substitute(a, b, p.es[i])); store(r, reify(r)); compound = true; what = (op == 45 ? "substitute " : "substitute list with ") + show(reify(a[0])) + " in e" + std::to_string(i); break; }
        case 47: { // vectors: derivatives, simplification, substitution
          size_t i = pickX(); if (count_nodes(p.xm[i]) > 40) break; bool ok = true; for (auto & m : p.xm[i]->c) if (!smooth(m) || has_uop(m, U_GRAD)) ok = false;
          if (!may_throw && !ok) break;
          E e(p.xs[i]); E r; unsigned k = s.below(4); V v(s.below(3));
          if (k == 0) { V x(v); r = E(e.get()->diff(&x)); } else if (k == 1) r = E(e.get()->simplify()); else if (k == 2) { size_t j = fullE(); if (count_nodes(p.em[j]) > 15) break; E w(v); r = vm::substitute(w, p.es[j], e); } else { std::vector<N> parts; collect(p.xm[i], parts); std::vector<E> a(1, build(parts[s.below(unsigned(parts.size()))])), b(1, E(v)); r = vm::substitute(a, b, e); }
          store(r, reify(r)); compound = true; what = "vector operation " + std::to_string(k); break; }
        case 48: { // dot product, quotient and product by a scalar
          size_t i = pickX(), j = pickX(); if (count_nodes(p.xm[i]) > 40 || count_nodes(p.xm[j]) > 40) break;
          if (p.xs[i].size() == p.xs[j].size() && s.chance(1, 2)) { E r = p.xs[i] * p.xs[j]; store(r, reify(r)); what = "x * x"; }
          else { size_t k = fullE(); if (count_nodes(p.em[k]) > 15) break; X r = p.xs[i] * p.es[k]; p.xs[i] = r; p.xm[i] = reify(&p.xs[i]); what = "x = x * e"; }
          compound = true; break; }
        case 49: { // translators with customizations come and go
          size_t i = fullE(); vm::latex_translator t; F f(0, g.tag()); t.customize(f, "foo"); t.customize(V(1), "bar"); std::string r = t(p.es[i]); { vm::latex_translator t2(t); t2.customize(V(1), "longer name than before"); t = t2; t2 = t; } vm::latex_translator t3; t3 = t; r += t3(p.es[i]); what = "customized LaTeX"; break; }
        case 50: { // symbolic intervals
          size_t i = fullE(); if (p.ivs.empty() || count_nodes(p.em[i]) > 40) break; size_t k = s.below(unsigned(p.ivs.size())); SIV si(s.below(3)); E r = vm::integral(si, p.es[i]); V v(s.below(3)); E r2 = vm::substitute(si, std::make_pair(p.ivs[k], v), r); if (s.chance(1, 2)) r = r2; store(r, reify(r)); compound = true; what = "symbolic integral"; break; }
        case 51: { vm::numerical_quadrature q(new vm::gauss_quad_1()), e1, e2(e1); e1 = q; e2 = e1; e1 = e1; std::vector<vm::numerical_quadrature> list(2, q); list.resize(5); list[3] = e2; list.push_back(e1); what = "quadrature objects"; break; }
        case 52: case 53: case 54: { // an object behaves like one made anew from the same formula, whatever has happened to it
          size_t i = fullE(), j = pickU(), k = pickB(); observe(p.es[i].get(), p.em[i], evaluable(p.em[i]), "expression " + std::to_string(i)); observe(&p.us[j], p.um[j], evaluable(p.um[j]), "unary expression " + std::to_string(j)); observe(&p.bs[k], p.bm[k], evaluable(p.bm[k]), "binary expression " + std::to_string(k)); what = "observe"; break; }
        default: { size_t i = pickE(); N m = g.sized(7); switch (s.below(3)) { case 0: p.us.push_back(build_u(m_un(U_EXP, m))); p.um.push_back(m_un(U_EXP, m)); if (p.us.size() > 6) { p.us.erase(p.us.begin()); p.um.erase(p.um.begin()); } break; case 1: p.bs.push_back(build_b(m_bin(SUB, m, m))); p.bm.push_back(m_bin(SUB, m, m)); if (p.bs.size() > 6) { p.bs.erase(p.bs.begin()); p.bm.erase(p.bm.begin()); } break; default: p.xs.push_back(build_x(m_vec({ m, m }))); p.xm.push_back(m_vec({ m, m })); if (p.xs.size() > 6) { p.xs.erase(p.xs.begin()); p.xm.erase(p.xm.begin()); } } (void)i; what = "grow pools"; break; }
      }
    }
    catch (std::exception const & e) { threw = true; what += " threw"; }
    catch (const char *) { threw = true; what += " threw"; }
    add_log(what);
    ++done;
    verify(p, what);
  }
  nontrivial = done >= 5 && compound;
}

static void warm_up() { static bool done = false; if (done) return; done = true; std::ostringstream o; o << 1.5 << "x" << 3L << std::endl; E e(V(0)); o << E(e + C(2)) << e; vm::latex_translator t; std::string r = t(e); try { throw vm::variable_index_out_of_bounds_exception(1, 2); } catch (std::exception const &) {} F f(0, tag_test()); (void)tag_unknown(); }

void property(Src & s, Case & c)
{
  warm_up();
  logbuf[0] = 0;
  bool nontrivial = false, threw = false;
  long before = live_blocks, after = before;
  std::string * failed = NULL;
  {
    try { history(s, nontrivial, threw); }
    catch (Fail const & f) { failed = new std::string(f.msg); }
  }
  after = live_blocks - (failed ? 2 : 0);
  c.desc = logbuf;
  if (failed) { std::string m = *failed; delete failed; throw Fail(m); }
  if (!threw) CHECK(after == before, (after - before) << " memory blocks are still allocated after all objects have been destroyed");
  if (nontrivial) c.nt();
  c.label(threw ? "an operation threw" : "no exception");
}
