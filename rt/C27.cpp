// C27: equations, intervals and integrals hold exactly their parts.
#include "driver.hpp"
#include "substgen.hpp"
#include "textparse.hpp"
const char * const property_rule =
  "C27: random histories over equations, intervals and integrals: construction from all argument types (numbers, constants, variables, symbols, unary, binary, general and compile-time expressions) by constructors and make functions, copies, assignments, self-assignments, default construction, destruction of sources; "
  "after every step all parts of all objects are compared with the model; non-trivial = at least one composite side and one copy or assignment";

typedef vm::rt_equation<I> Q;
struct Slot { bool eq; std::unique_ptr<Q> q; std::unique_ptr<IV> iv; N a, b; };

static Q eq_of(N const & a, N const & b, Src & s)
{
  unsigned r = s.below(4);
  if (r == 0) return Q(build(a), build(b));
  if (a->k == CONST && r == 1 && b->k != CONST && b->k != LCONST && b->k != FS && b->k != VEC)
    switch (b->k) { case VAR: if (b->id == 1) return vm::make_equation(a->v, vm::ct_variable<1>()); return vm::make_equation(a->v, V(b->id)); case BIN: return s.chance(1, 2) ? vm::make_equation(a->v, build_b(b)) : vm::make_equation(a->v, build(b)); default: return s.chance(1, 2) ? vm::make_equation(a->v, build_u(b)) : vm::make_equation(a->v, build(b)); }
  if (b->k == CONST && r == 1) { std::unique_ptr<Q> q; with_scalar(a, [&](auto const & x) -> E { q.reset(new Q(E(x), E(b->v))); return E(); }); return *q; }
  std::unique_ptr<Q> q;
  if (r == 2 && b->k == CONST && a->k != VEC) { switch (a->k) { case VAR: return vm::make_equation(V(a->id), b->v); case CONST: return vm::make_equation(C(a->v), b->v); case LCONST: return with_lconst(a, [&](auto const & x) -> Q { return vm::make_equation(x, b->v); }); case FS: return vm::make_equation(F(a->id, a->tag), b->v); case BIN: return vm::make_equation(build_b(a), b->v); default: return vm::make_equation(build_u(a), b->v); } }
  if (a->k == VEC || b->k == VEC) return vm::make_equation(build(a), build(b));
  if (r == 2) { with_scalar(a, [&](auto const & x) -> E { q.reset(new Q(vm::make_equation(x, build(b)))); return E(); }); return *q; }
  with_scalar(a, [&](auto const & x) -> E { with_scalar(b, [&](auto const & y) -> E { q.reset(new Q(vm::make_equation(E(x), y))); return E(); }); return E(); });
  return *q;
}
static IV iv_of(N const & a, N const & b, Src & s)
{
  unsigned r = s.below(4);
  if (r == 0) return IV(build(a), build(b));
  if (a->k == CONST && b->k == CONST && r == 1) return vm::make_interval(a->v, b->v);
  if (a->k == CONST && r == 1 && b->k != CONST && b->k != LCONST && b->k != FS && b->k != VEC)
    switch (b->k) { case VAR: if (b->id == 1) return vm::make_interval(a->v, vm::ct_variable<1>()); return vm::make_interval(a->v, V(b->id)); case BIN: return s.chance(1, 2) ? vm::make_interval(a->v, build_b(b)) : vm::make_interval(a->v, build(b)); default: return s.chance(1, 2) ? vm::make_interval(a->v, build_u(b)) : vm::make_interval(a->v, build(b)); }
  std::unique_ptr<IV> q;
  if (a->k == VEC || b->k == VEC ) return vm::make_interval(build(a), build(b));
  if (r == 2) { with_scalar(a, [&](auto const & x) -> E { q.reset(new IV(vm::make_interval(E(x), build(b)))); return E(); }); return *q; }
  if (r == 3 && b->k == CONST) switch (a->k) { case VAR: return vm::make_interval(V(a->id), b->v); case CONST: return vm::make_interval(C(a->v), b->v); case LCONST: return with_lconst(a, [&](auto const & x) -> IV { return vm::make_interval(x, b->v); }); case FS: return vm::make_interval(F(a->id, a->tag), b->v); case BIN: return vm::make_interval(build_b(a), b->v); default: return vm::make_interval(build_u(a), b->v); }
  switch (a->k)
  {
    case CONST: with_scalar(b, [&](auto const & y) -> E { q.reset(new IV(vm::make_interval(C(a->v), y))); return E(); }); return *q;
    case LCONST: if (a->id) { with_lconst(a, [&](auto const & x) { q.reset(new IV(vm::make_interval(x, build(b)))); return 0; }); return *q; } with_scalar(b, [&](auto const & y) -> E { q.reset(new IV(vm::make_interval(LC(long(a->v)), y))); return E(); }); return *q;
    case VAR: with_scalar(b, [&](auto const & y) -> E { q.reset(new IV(vm::make_interval(V(a->id), y))); return E(); }); return *q;
    case FS: with_scalar(b, [&](auto const & y) -> E { q.reset(new IV(vm::make_interval(F(a->id, a->tag), y))); return E(); }); return *q;
    case BIN: with_scalar(b, [&](auto const & y) -> E { q.reset(new IV(vm::make_interval(build_b(a), y))); return E(); }); return *q;
    default: with_scalar(b, [&](auto const & y) -> E { q.reset(new IV(vm::make_interval(build_u(a), y))); return E(); }); return *q;
  }
}

template <typename L, typename R> static Slot eq_slot(N a, L const & l, N b, R const & r)
{ Slot x; x.eq = true; x.q.reset(new Q(vm::make_equation(l, r))); x.a = a; x.b = b; return x; }
template <typename L, typename R> static Slot iv_slot(N a, L const & l, N b, R const & r)
{ Slot x; x.eq = false; x.iv.reset(new IV(vm::make_interval(l, r))); x.a = a; x.b = b; return x; }
template <typename FN> static void with_any(N const & n, FN fn)      // the object of the kind of n, or the general expression
{ if (n->k == VEC) { fn(build(n)); return; } with_scalar(n, [&](auto const & x) -> E { fn(x); return E(); }); }
template <typename FN> static void with_compiletime(Src & s, FN fn)
{
  vm::ct_variable<0> x; vm::ct_variable<2> z; vm::ct_constant<3> three;
  switch (s.below(7))
  {
    case 5: fn(m_var(65537), vm::ct_variable<65537>()); break;
    case 6: fn(m_long(-70000), vm::ct_constant<-70000>()); break;
    case 0: fn(m_var(0), x); break;
    case 1: fn(m_var(2), z); break;
    case 2: fn(m_long(3), three); break;
    case 3: fn(m_bin(ADD, m_var(0), m_var(2)), x + z); break;
    default: fn(m_bin(MUL, m_long(3), m_var(2)), three * z); break;
  }
}
// equations and intervals with compile-time sides, and with a number and a constant
static Slot with_ct(Src & s, Gen & g)
{
  N n = s.chance(1, 3) ? g.expr(1) : g.expr(5); E e = build(n);
  Slot r; bool general = s.chance(1, 4);
  switch (s.below(6))
  {
    case 0: with_compiletime(s, [&](N m, auto const & t) { if (general) r = eq_slot(m, t, n, e); else with_any(n, [&](auto const & y) { r = eq_slot(m, t, n, y); }); }); break;
    case 1: with_compiletime(s, [&](N m, auto const & t) { if (general) r = eq_slot(n, e, m, t); else if (n->k == VEC) r = eq_slot(n, e, m, t); else with_any(n, [&](auto const & y) { r = eq_slot(n, y, m, t); }); }); break;
    case 2: with_compiletime(s, [&](N m, auto const & t) { if (general) r = iv_slot(m, t, n, e); else with_any(n, [&](auto const & y) { r = iv_slot(m, t, n, y); }); }); break;
    case 3: with_compiletime(s, [&](N m, auto const & t) { if (general || n->k == VEC) r = iv_slot(n, e, m, t); else with_any(n, [&](auto const & y) { r = iv_slot(n, y, m, t); }); }); break;
    case 4: { double a = g.constant(), b = g.constant(); long l = long(s.below(200)) - 100;
      if (s.chance(1, 2)) r = s.chance(1, 2) ? eq_slot(m_const(a), a, m_const(b), C(b)) : eq_slot(m_const(a), a, m_long(l), LC(l));
      else r = s.chance(1, 2) ? iv_slot(m_const(a), a, m_const(b), C(b)) : iv_slot(m_const(a), a, m_long(l), LC(l));
      break; }
    default: { double a = g.constant(); vm::ct_variable<2> z; vm::ct_variable<0> x;
      if (s.chance(1, 2)) r = eq_slot(m_const(a), a, m_var(2), z); else r = iv_slot(m_var(0), x, m_const(a), a); break; }
  }
  return r;
}
static N lhs(Slot const & x) { return x.eq ? reify(x.q->lhs()) : reify(x.iv->lower()); }
static N rhs(Slot const & x) { return x.eq ? reify(x.q->rhs()) : reify(x.iv->upper()); }

void property(Src & s, Case & c)
{
  std::vector<Slot> sl;
  std::ostringstream log;
  unsigned steps = 2 + s.below(10);
  bool composite = false, copied = false;
  for (unsigned k = 0; k < steps; ++k)
  {
    Gen g(s); subst_flags(g, s.below(8)); g.lconst = s.chance(1, 6); g.other_tag = false; g.text_consts = true;
    static const unsigned w[] = { 6, 3, 3, 2, 1, 2, 1, 1 };
    unsigned op = sl.empty() ? 0 : s.weighted(w);
    size_t i = sl.empty() ? 0 : s.below(unsigned(sl.size())), j = sl.empty() ? 0 : s.below(unsigned(sl.size()));
    switch (op)
    {
      case 0:
      {
        Slot x; x.eq = s.chance(1, 2);
        static const int b[] = { 1, 3, 1, 5, 7, 11 };
        x.a = g.expr(b[s.below(6)]); x.b = g.expr(b[s.below(6)]);
        if (s.chance(1, 10)) x.b = m_vec({ x.b, x.a });
        log << (x.eq ? " equation " : " interval ") << show(x.a) << " ; " << show(x.b) << ",";
        c.desc = log.str();
        if (count_nodes(x.a) > 1 || count_nodes(x.b) > 1) composite = true;
        if (x.eq) x.q.reset(new Q(eq_of(x.a, x.b, s))); else x.iv.reset(new IV(iv_of(x.a, x.b, s)));
        sl.push_back(std::move(x));
        break;
      }
      case 1:  // copy
      {
        Slot x; x.eq = sl[i].eq; x.a = sl[i].a; x.b = sl[i].b;
        if (x.eq) x.q.reset(new Q(*sl[i].q)); else x.iv.reset(new IV(*sl[i].iv));
        log << " copy " << i << ","; copied = true; sl.push_back(std::move(x));
        break;
      }
      case 2:  // assignment, also to itself
        if (sl[i].eq != sl[j].eq) break;
        log << " " << i << "<-" << j << ","; copied = true;
        if (sl[i].eq) *sl[i].q = *sl[j].q; else *sl[i].iv = *sl[j].iv;
        sl[i].a = sl[j].a; sl[i].b = sl[j].b;
        break;
      case 3:  // built from parts of others
      {
        Slot x; x.eq = s.chance(1, 2);
        E const & l = sl[i].eq ? (s.chance(1, 2) ? sl[i].q->rhs() : sl[i].q->lhs()) : sl[i].iv->upper();
        E const & r = sl[j].eq ? sl[j].q->lhs() : sl[j].iv->lower();
        x.a = reify(l); x.b = reify(r);
        if (x.eq) x.q.reset(new Q(l, r)); else x.iv.reset(new IV(l, r));
        log << (x.eq ? " equation" : " interval") << " from parts of " << i << " and " << j << ","; copied = true; sl.push_back(std::move(x));
        break;
      }
      case 4:  // destroy
        log << " destroy " << i << ",";
        sl.erase(sl.begin() + long(i));
        break;
      case 5: { Slot x = with_ct(s, g); log << " compile-time " << show(x.a) << " ; " << show(x.b) << ","; composite = true; c.label("compile-time side"); sl.push_back(std::move(x)); break; }
      case 7: // objects made without arguments and assigned later, also inside a container
      {
        Slot x; x.eq = sl[i].eq; x.a = sl[i].a; x.b = sl[i].b; size_t n = 1 + s.below(3), at = s.below(unsigned(n));
        if (x.eq) { std::vector<Q> v(n); v[at] = *sl[i].q; v.resize(n + 3); Q e; Q f(e); f = v[at]; e = f; x.q.reset(new Q(e)); f = Q(); }
        else { std::vector<IV> v(n); v[at] = *sl[i].iv; v.resize(n + 3); IV e; e = v[at]; x.iv.reset(new IV(e)); }
        log << " default object assigned " << i << ","; copied = true; sl.push_back(std::move(x));
        break;
      }
      default: // default interval is [0,1]
      {
        Slot x; x.eq = false; x.iv.reset(new IV()); x.a = m_const(0); x.b = m_const(1); log << " default interval,"; sl.push_back(std::move(x));
        break;
      }
    }
    c.desc = log.str();
    for (size_t m = 0; m < sl.size(); ++m)
    {
      N a = lhs(sl[m]), b = rhs(sl[m]);
      CHECK(same(floating(a), floating(sl[m].a)) && same(floating(b), floating(sl[m].b)), "after" << log.str() << " the " << (sl[m].eq ? "equation " : "interval ") << m << " holds " << show(a) << " and " << show(b) << " instead of " << show(sl[m].a) << " and " << show(sl[m].b));
    }
  }
  // printing and integrals
  for (auto & x : sl)
  {
    std::ostringstream o; if (x.eq) o << *x.q; else o << *x.iv;
    bool invalid = false;
    if (!invalid)
    {
      std::pair<N, N> p = read_text_pair(o.str(), x.eq ? "equation(" : "interval(", x.eq ? "=" : ",");
      CHECK(same(p.first, floating(x.a)) && same(p.second, floating(x.b)), "printed form " << o.str() << " reads as " << show(p.first) << " and " << show(p.second) << " instead of " << show(x.a) << " and " << show(x.b));
    }
    if (!x.eq)
    {
      Gen g(s); N body = g.expr(int(1 + s.below(7))); unsigned long v = s.chance(1, 16) ? (s.chance(1, 2) ? 65537ul : 300ul) : g.var_id();
      N want = m_intg(body, x.a, x.b, v);
      E r = vm::integral(*x.iv, build(body), V(v));
      CHECK(same(floating(reify(r)), floating(want)), "integral over an interval holds " << show(reify(r)) << " instead of " << show(want));
      with_ct_var(v, [&](auto const & ctv) {
        E r2 = body->k == BIN && s.chance(1, 2) ? vm::integral(*x.iv, build_b(body), ctv) : vm::integral(*x.iv, build(body), ctv);
        CHECK(same(floating(reify(r2)), floating(want)), "integral with a compile-time variable holds " << show(reify(r2)) << " instead of " << show(want)); });
      if (s.chance(1, 4))
      { // the operation itself
        typedef vm::op_rt_integral<I> O; typedef vm::op_unary<O, I> OU;
        std::unique_ptr<O> op; N n = want;
        switch (s.below(5)) { case 0: op.reset(new O(*x.iv, vm::ct_variable<3>())); n = m_intg(body, x.a, x.b, 3); break; case 4: op.reset(new O(*x.iv, vm::ct_variable<65537>())); n = m_intg(body, x.a, x.b, 65537); break; case 1: op.reset(new O()); n = m_intg(body, m_const(0), m_const(1), 0); break;
          case 2: { op.reset(new O()); O other(*x.iv, V(v)); *op = other; break; } default: op.reset(new O(*x.iv, V(v))); }
        O copy(*op); op.reset();
        E i1(new U(raw(body), new OU(copy))), i2(i1);
        CHECK(same(floating(reify(i2)), floating(n)), "an integral operation holds " << show(reify(i2)) << " instead of " << show(n));
        CHECK(copy.variable().id() == n->id && same(floating(reify(copy.interval().lower())), floating(n->c[1])) && same(floating(reify(copy.interval().upper())), floating(n->c[2])), "the parts of an integral operation differ from " << show(n));
        c.label("integral operation");
      }
      // the integral keeps its parts when the interval is reassigned
      *x.iv = vm::make_interval(11, 12);
      CHECK(same(floating(reify(r)), floating(want)), "an integral changed with the interval it was made from: " << show(reify(r)) << " instead of " << show(want));
      c.label("integral");
    }
  }
  if (composite && copied) c.nt();
}
