// C11: numerical quadrature.
#include "twin.hpp"
#include "driver.hpp"
const char * const property_rule =
  "C11: random sums and differences of integrals, zeros, and misplaced parts (products, bare formulas, constants, symbolic integrals) are integrated with a recording user-defined rule and with the one-point Gauss rule, through all overloads and copies of the quadrature object; "
  "compared with the formula of the rule on the model tree (error bounds); non-trivial = at least one integral was handed to the rule, or the required exception came from inside a sum";

struct Call { N body, lo, hi; unsigned long var; };
static std::string key(Call const & c) { return show(c.body) + "|" + show(c.lo) + "|" + show(c.hi) + "|" + std::to_string(c.var); }
static double weight(Call const & c) { return double(fnv(key(c)) % 1000003) - 500000.0; }

struct Recorder : vm::numerical_quadrature_interface<I>
{
  std::shared_ptr<std::vector<Call>> log; double factor;
  Recorder(std::shared_ptr<std::vector<Call>> l, double f) : log(l), factor(f) {}
  vm::numerical_quadrature_interface<I> * clone() const { return new Recorder(log, factor); }
  double eval(IV const & iv, E const & e, V const & v) const
  { Call c; c.body = reify(e); c.lo = reify(iv.lower()); c.hi = reify(iv.upper()); c.var = v.id(); log->push_back(c); return factor * weight(c); }
};

static bool constant_tree(N const & n) { if (is_num(n)) return true; return n->k == BIN && constant_tree(n->c[0]) && constant_tree(n->c[1]); }
struct Bad { bool symbolic = false, none = false; };
// reference: sum of the rule applied to the integrals
static R quad(N const & n, std::function<R(Call const &)> const & rule, R sign, Bad & bad)
{
  if (n->k == INTG) { Call c; c.body = n->c[0]; c.lo = n->c[1]; c.hi = n->c[2]; c.var = n->id; return sign * rule(c); }
  if (n->k == SINT) { bad.symbolic = true; return 0; }
  if (constant_tree(n)) { Env env; Num v = evaln(n, env); if (v.st == 0 && v.v == 0) return 0; if (v.st != 0 || std::fabs(v.v) < 1e-9L) throw Discard(); }
  if (n->k == BIN && (n->op == ADD || n->op == SUB)) { R a = quad(n->c[0], rule, sign, bad), b = quad(n->c[1], rule, n->op == ADD ? sign : -sign, bad); return a + b; }
  bad.none = true; return 0;
}

static int attempt(std::function<double()> const & f, double & v)
{
  try { v = f(); return 0; }
  catch (vm::symbolic_integral_evaluation_not_possible_exception const &) { return 1; }
  catch (vm::integration_without_integral_exception const &) { return 2; }
  catch (std::exception const &) { return 3; }
}

void property(Src & s, Case & c)
{
  Gen g(s);
  g.nvars = 4; g.far_vars = s.chance(1, 3);
  bool gauss = s.chance(1, 2);
  auto bound = [&]() -> N { if (s.chance(1, 4)) { g.int_consts = true; N r = m_bin(int(s.below(3)), m_const(g.constant()), s.chance(1, 3) ? m_long(long(s.below(9)) - 3) : m_const(g.constant())); g.int_consts = false; return r; } return m_const(g.constant()); };
  auto integral = [&](unsigned budget) -> N {
    unsigned long var = s.chance(1, 3) ? g.var_id() : s.below(3);
    N body;
    Gen h(s);
    if (!gauss) { h.fs = h.grad = h.pd = true; h.nvars = 4; h.far_vars = true; body = h.expr(int(budget)); if (s.chance(1, 4)) { h.intg = true; body = h.expr(7); } }
    else if (gauss && s.chance(1, 8)) { h.nvars = 4; h.far_vars = g.far_vars; body = h.expr(int(budget)); }   // possibly with other free variables: no number is right unless they cancel
    else if (gauss)
    { // only the integration variable, so that the rule can be applied
      h.nvars = 1; body = h.expr(int(budget));
      std::vector<std::pair<N, N>> r; if (var != 0) r.push_back({ m_var(0), m_var(var) });
      body = model_subst(body, r);
    }
    N lo = !gauss && s.chance(1, 3) ? g.expr(3) : bound(), hi = !gauss && s.chance(1, 3) ? g.expr(3) : bound();
    if (s.chance(1, 8)) { hi = s.chance(1, 2) ? lo : lo->k == CONST ? m_const(-lo->v) : m_bin(SUB, m_const(0), lo); c.label("related bounds"); }
    if (gauss && s.chance(1, 8))
    { // an integrand that is zero or undefined at a bound or takes special values there
      c.label("special at a bound");
      N v = m_var(var), f = m_bin(SUB, v, lo), h2 = m_bin(SUB, v, hi);
      switch (s.below(6))
      {
        case 0: body = f; break;
        case 1: body = h2; break;
        case 2: body = m_bin(MUL, f, h2); break;
        case 3: body = m_bin(DIV, m_const(1), f); break;
        case 4: body = m_bin(MUL, body, m_bin(MUL, f, h2)); break;
        default: body = m_bin(ADD, m_const(g.constant()), m_bin(MUL, f, h2)); break;
      }
    }
    return m_intg(body, lo, hi, var);
  };
  std::function<N(unsigned)> sum = [&](unsigned n) -> N {
    if (n <= 1)
    {
      unsigned k = s.below(24);
      if (k < 18) { static const unsigned b[] = { 3, 1, 5, 7, 11, 15 }; return integral(b[s.below(6)]); }
      if (k == 18) return m_const(0);
      if (k == 19) { double v = double(int(s.below(9)) - 4); return m_bin(SUB, m_const(v), m_const(v)); }
      if (k == 20) return m_sint(g.expr(3), s.below(3));
      if (k == 21) return s.chance(1, 2) ? m_const(double(1 + s.below(5))) : m_bin(int(s.below(2)), m_const(double(5 + s.below(5))), m_const(double(s.below(4))));
      if (k == 22) return s.chance(1, 2) ? m_bin(MUL, m_const(2), integral(3)) : m_un(U_SIN, integral(3));
      return g.expr(5);
    }
    unsigned l = 1 + s.below(n - 1); N a = sum(l); return m_bin(int(s.below(2)), a, sum(n - l));
  };
  static const unsigned nt[] = { 1, 2, 3, 1, 4, 6 };
  N e = sum(nt[s.below(6)]);
  if (s.chance(1, 24)) { unsigned long from = s.below(3); e = rename_var(e, from, s.chance(1, 8) ? 65537 : 300); c.label("large index"); }
  unsigned wrap = s.below(7);
  c.desc = std::string(gauss ? "Gauss rule: " : "recording rule: ") + show(e) + " object " + std::to_string(wrap);
  if (count_nodes(e) > 400) throw Discard();

  auto log = std::make_shared<std::vector<Call>>();
  double factor = 1 + s.below(3);
  auto make = [&](double f) -> vm::numerical_quadrature_interface<I> * { if (gauss) return new vm::gauss_quad_1(); return new Recorder(log, f); };
  vm::numerical_quadrature q0(make(factor)), q1;
  vm::numerical_quadrature * q = &q0;
  std::unique_ptr<vm::numerical_quadrature> held;
  if (wrap == 1) { held.reset(new vm::numerical_quadrature(q0)); q = held.get(); c.label("copied"); }
  else if (wrap == 2) { q1 = q0; q = &q1; c.label("assigned"); }
  else if (wrap == 3) { vm::numerical_quadrature other(make(7)); { vm::numerical_quadrature tmp(q0); other = tmp; } held.reset(new vm::numerical_quadrature(other)); q = held.get(); c.label("assigned and copied"); }

  std::vector<vm::numerical_quadrature> pool;
  if (wrap == 4) { vm::numerical_quadrature empty, copy(empty); q1 = copy; q1 = q0; copy = empty; q = &q1; c.label("copied while empty"); }
  else if (wrap == 5) { pool.resize(1 + s.below(3)); size_t at = s.below(unsigned(pool.size())); pool[at] = q0; pool.resize(pool.size() + 3); q = &pool[at]; c.label("kept in a container"); }
  else if (wrap == 6) { q1 = q0; vm::numerical_quadrature & alias = q1; q1 = alias; { vm::numerical_quadrature tmp(q1); tmp = vm::numerical_quadrature(); } q = &q1; c.label("assigned to itself"); }

  E x = build(e);
  double got = 0;
  if (gauss && s.chance(1, 8)) quietly([&] { (*q)(build(twin(e, s, g, c, true))); });
  int out = attempt([&] { return (*q)(x); }, got);
  CHECK(same(reify(x), e), "numerical quadrature changed its argument " << show(e));

  Bad bad; R want = 0, err = 0; bool undecided = false; size_t integrals = 0;
  if (!gauss)
  {
    std::vector<std::string> keys;
    want = factor * quad(e, [&](Call const & k) -> R { keys.push_back(key(k)); return weight(k); }, 1, bad);
    integrals = keys.size();
    if (!bad.symbolic && !bad.none)
    {
      std::vector<std::string> seen; for (auto & k : *log) seen.push_back(key(k));
      std::sort(keys.begin(), keys.end()); std::sort(seen.begin(), seen.end());
      CHECK(keys == seen, "the rule was called " << seen.size() << " times instead of " << keys.size() << ", or with other arguments; first call seen: " << (seen.empty() ? "none" : seen[0]) << ", expected: " << (keys.empty() ? "none" : keys[0]));
      if (!integrals && out == 0) c.label("zero only");
    }
  }
  bool free_vars = false; double free_value = 0;
  auto by_rule = [&]() {
    integrals = 0; err = 0; bad = Bad();
    want = quad(e, [&](Call const & k) -> R {
      ++integrals;
      Env env0; Num lo = evaln(k.lo, env0), hi = evaln(k.hi, env0);
      if (lo.st || hi.st) { undecided = true; return 0; }
      unsigned long top = k.var; any_node(k.body, [&](Node const & n) { if (n.k == VAR && n.id < 100000) top = std::max(top, n.id); return false; });
      Env env; env.margin = 1e6L; env.x.assign(top + 1, free_value);
      env.x[k.var] = double((lo.v + hi.v) / 2); env.dvar = long(k.var);
      if (any_node(k.body, [&](Node const & n) { return n.k == VAR && n.id != k.var; })) free_vars = true;
      Num m = evaln(k.body, env);
      if (m.st) { undecided = true; return 0; }
      R len = hi.v - lo.v;
      err += std::fabs(len) * (m.e + std::fabs(m.d) * 4 * EPS * (std::fabs(lo.v) + std::fabs(hi.v))) + std::fabs(m.v) * 4 * EPS * (std::fabs(lo.v) + std::fabs(hi.v)) + 4 * EPS * std::fabs(m.v * len);
      return m.v * len; }, 1, bad);
  };
  if (gauss)
  {
    by_rule();
    if (free_vars && !bad.symbolic && !bad.none)
    { // a number may only be returned if it is right for all values of the other variables
      c.label(out ? "free variables, rejected" : "free variables, number");
      for (double f : { 1.25, 2.5, 0.75, 3.0 })
      {
        free_value = f; undecided = false; by_rule();
        if (out == 0 && !undecided) CHECK(std::fabs(want - got) <= TOLK * err + 1e-30L, "numerical quadrature of " << show(e) << " gave " << num(got) << " although the integrand depends on other variables (" << num(double(want)) << " where they are " << num(f) << ")");
      }
      if (out) c.nt();
      return;
    }
  }
  if (bad.symbolic || bad.none)
  {
    CHECK(out != 0, "numerical quadrature of " << show(e) << " gave " << num(got) << " instead of an exception");
    if (free_vars) { c.label("free variables and misplaced parts"); return; }
    if (bad.symbolic && !bad.none) CHECK(out == 1, "the exception for a symbolic integral is of a different type");
    if (bad.none && !bad.symbolic) CHECK(out == 2, "the exception for an expression without integral is of a different type");
    c.label(bad.symbolic ? "symbolic rejected" : "no integral rejected");
    if (e->k == BIN) c.nt();
  }
  else
  {
    if (undecided) { c.label("not decidable"); return; }
    CHECK(out == 0, "numerical quadrature of " << show(e) << " threw an exception");
    CHECK(std::fabs(want - got) <= (gauss ? TOLK * err + 1e-30L : 0.0L), "numerical quadrature of " << show(e) << " gave " << num(got) << " instead of " << num(double(want)));
    if (integrals) c.nt();
    if (integrals > 1) c.label("several integrals");
  }
  // the overloads which take the interval, the integrand and the variable
  if (e->k == INTG && !bad.none)
  {
    IV iv(build(e->c[1]), build(e->c[2])); E body = build(e->c[0]); V v(e->id);
    log->clear();
    double a = (*q)(iv, body, v), b = a;
    with_ct_var(e->id, [&](auto const & ctv) { b = (*q)(iv, body, ctv); });
    auto eq = [](double p, double r) { return p == r || (std::isnan(p) && std::isnan(r)); };
    CHECK(eq(a, got) && eq(b, got), "the overloads of numerical quadrature for " << show(e) << " disagree: " << num(got) << ", " << num(a) << ", " << num(b));
    for (auto & k : *log) CHECK(k.var == e->id && same(k.body, e->c[0]) && same(k.lo, e->c[1]) && same(k.hi, e->c[2]), "the rule was handed " << key(k) << " instead of the parts of " << show(e));
    if (gauss)
    {
      double r = (*q)(IV(build(e->c[2]), build(e->c[1])), body, v);
      CHECK(std::fabs(r + got) <= TOLK * err + 1e-30L, "swapping the bounds of " << show(e) << " does not change the sign: " << num(got) << " and " << num(r));
      // exact for integrands linear in the integration variable
      R A = R(double(int(s.below(33)) - 16)) / 4, Bc = R(double(int(s.below(33)) - 16)) / 2;
      E lin = double(A) * v + double(Bc);
      double l = (*q)(iv, lin, v);
      Env env0; Num lo = evaln(e->c[1], env0), hi = evaln(e->c[2], env0);
      R ex = A * (hi.v * hi.v - lo.v * lo.v) / 2 + Bc * (hi.v - lo.v);
      R mag = std::fabs(hi.v) + std::fabs(lo.v);
      CHECK(std::fabs(ex - l) <= 100 * EPS * (std::fabs(A) * mag * mag + std::fabs(Bc) * mag) + 1e-30L, "the integral of " << num(double(A)) << "*x + " << num(double(Bc)) << " over [" << num(double(lo.v)) << ", " << num(double(hi.v)) << "] is " << num(l) << " instead of " << num(double(ex)));
      c.label("linear integrand");
    }
  }
}
