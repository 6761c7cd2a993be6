// C02: what cannot be evaluated is rejected, never guessed.
#include "driver.hpp"
const char * const property_rule =
  "C02: random formulas into which an unevaluable part (variable beyond the point, function symbol, vector, gradient, divergence, partial derivative, integral, symbolic integral) is planted at a random position "
  "(or none, one in five), and compile-time formulas at vectors that may be too short (and the exception objects themselves), are evaluated over all routes; the kind of exception, its message and its lifetime are checked; non-trivial = such a part below at least one operation";

struct PlainVector { std::vector<double> d; size_t size() const { return d.size(); } double operator[](size_t i) const { return d[i]; } };

template <typename T> static double ev(T const & e, std::vector<double> const & x, unsigned route, bool scalar)
{
  PlainVector pv; pv.d = x;
  if (scalar)
    switch (route % 4)
    {
      case 0: return e(x[0]);
      case 1: return vm::eval(e, x[0]);
      case 2: return e(C(x[0]));
      default: return vm::eval(e, vm::ct_constant<3>());
    }
  double a = x.size() > 0 ? x[0] : 0, b = x.size() > 1 ? x[1] : 0, c = x.size() > 2 ? x[2] : 0;
  switch (route % 6)
  {
    case 0: return e(x);
    case 1: return vm::eval(e, x);
    case 2: if constexpr (!std::is_same<T, V>::value) return e(pv); else return e(x);
    case 3: if constexpr (!std::is_same<T, V>::value) return vm::eval(e, pv); else return vm::eval(e, x);
    case 4:
      if (x.size() == 1) return e(vm::make_vector(a));
      if (x.size() == 2) return e(vm::make_vector(a, b));
      if (x.size() == 3) return e(vm::make_vector(a, b, c));
      return e(x);
    default:
      if (x.size() == 1) return vm::eval(e, vm::make_vector(a));
      if (x.size() == 2) return vm::eval(e, vm::make_vector(a, b));
      if (x.size() == 3) return vm::eval(e, vm::make_vector(a, b, c));
      return vm::eval(e, x);
  }
}

static bool readable(std::string const & t) { if (t.size() < 8 || t.size() > 2000) return false; for (unsigned char ch : t) if (ch < 32 && ch != '\n') return false; return true; }
static void churn() { std::vector<std::string> v; for (int i = 0; i < 6; ++i) v.push_back(std::string(size_t(20 + 40 * i), 'Z')); }

// returns the outcome: 0 value, 1 out of bounds exception, 2 other exception
template <typename FN> static int attempt(FN fn, double & val, std::string & msg)
{
  try { val = fn(); return 0; }
  catch (vm::variable_index_out_of_bounds_exception const & e)
  {
    std::exception const & ex = e; std::string t(ex.what());
    vm::variable_index_out_of_bounds_exception copy(e);
    const char * p = ex.what(); churn();
    CHECK(std::string(p) == t && std::string(static_cast<std::exception const &>(copy).what()) == t, "the message of an exception changed from '" << t << "' to '" << p << "'");
    CHECK(readable(t), "unreadable exception message '" << t << "'");
    msg = t; return 1;
  }
  catch (std::exception const & ex)
  {
    std::string t(ex.what()); const char * p = ex.what(); churn();
    CHECK(std::string(p) == t, "the message of an exception changed from '" << t << "' to '" << p << "'");
    CHECK(readable(t), "unreadable exception message '" << t << "'");
    msg = t; return 2;
  }
  catch (Fail const &) { throw; }
  catch (const char * t) { CHECK(readable(t), "unreadable exception text '" << t << "'"); msg = t; return 2; }
}

static bool has_number(std::string const & t, unsigned long n)
{ std::string d = std::to_string(n); size_t i = 0; while ((i = t.find(d, i)) != std::string::npos) { bool l = i > 0 && isdigit((unsigned char)t[i - 1]), r = i + d.size() < t.size() && isdigit((unsigned char)t[i + d.size()]); if (!l && !r) return true; ++i; } return false; }

// compile-time expressions at standard vectors, which may be too short for their variables
template <bool ONLY0, typename T> static void ct_object_(Src & s, Case & c, T const & e, const char * text, std::vector<unsigned> const & vars, double (*f)(std::vector<double> const &))
{
  if (s.chance(1, 4))
  { // a single number, as a runtime constant, an integer constant or a compile-time constant
    unsigned route = s.below(6); if (!ONLY0 && route == 2) route = 0;    // a compile-time constant is rejected by the compiler there
    long n = long(s.below(2000)) - 1000; double a = route == 0 || route == 3 ? 0.25 + s.below(100) : route == 2 || route == 5 ? 3.0 : double(n);
    bool oob = false, named = false; for (unsigned v : vars) oob = oob || v > 0;
    c.desc = std::string("compile-time ") + text + " at the number " + num(a) + " route " + std::to_string(route); c.nt(); c.label("compile-time object at a number");
    double val = 0; std::string msg;
    int out = attempt([&]() -> double {
      switch (route) { case 0: return double(e(C(a))); case 1: return double(e(LC(n))); case 2: if constexpr (ONLY0) return double(e(vm::ct_constant<3>())); else return 0; case 3: return E(e)(a); case 4: return vm::eval(E(e), LC(n)); default: return vm::eval(E(e), vm::ct_constant<3>()); } }, val, msg);
    for (unsigned v : vars) named = named || (v > 0 && has_number(msg, v));
    if (oob) { CHECK(out == 1, (out == 0 ? "evaluation returned " + num(val) : "an unexpected exception was thrown (" + msg + ")") << " although a variable is out of bounds"); CHECK(named, "the message does not name the index of the variable: " << msg); }
    else { std::vector<double> x(1, a); double w = f(x); CHECK(out == 0 && std::fabs(val - w) <= 1e-12 * (1 + std::fabs(w)), "evaluation gave " << (out ? msg : num(val)) << " instead of " << num(w)); }
    return;
  }
  PlainVector pv; unsigned size = s.below(6);
  for (unsigned i = 0; i < size; ++i) pv.d.push_back(0.5 + s.below(9));
  std::vector<double> x(pv.d); x.shrink_to_fit();
  unsigned route = s.below(6); bool oob = false, named = false;
  for (unsigned v : vars) oob = oob || v >= size;
  c.desc = std::string("compile-time ") + text + " at " + show(x) + " route " + std::to_string(route); c.nt(); c.label("compile-time object");
  double val = 0; std::string msg;
  int out = attempt([&]() -> double {
    switch (route) { case 0: return e(x); case 1: return vm::eval(e, x); case 2: return e(pv); case 3: return vm::eval(e, pv); case 4: return E(e)(x); default: return vm::eval(E(e), pv); } }, val, msg);
  for (unsigned v : vars) named = named || (v >= size && has_number(msg, v));
  if (oob) { CHECK(out == 1, (out == 0 ? "evaluation returned " + num(val) : "an unexpected exception was thrown (" + msg + ")") << " although a variable is out of bounds"); CHECK(named, "the message does not name the index of the variable: " << msg); }
  else { double w = f(x); CHECK(out == 0 && std::fabs(val - w) <= 1e-12 * (1 + std::fabs(w)), "evaluation gave " << (out ? msg : num(val)) << " instead of " << num(w)); }
}
template <typename T> struct only0 { static const bool value = true; };
template <vm::id_type i> struct only0<vm::ct_variable<i> > { static const bool value = i == 0; };
template <typename L, typename O, typename R> struct only0<vm::ct_binary_expr<L, O, R> > { static const bool value = only0<L>::value && only0<R>::value; };
template <typename T> static void ct_object(Src & s, Case & c, T const & e, const char * text, std::vector<unsigned> const & vars, double (*f)(std::vector<double> const &)) { ct_object_<only0<T>::value>(s, c, e, text, vars, f); }
typedef std::vector<double> const & P;
static void compiletime(Src & s, Case & c)
{
  vm::ct_variable<0> x; vm::ct_variable<1> y; vm::ct_variable<2> z; vm::ct_variable<4> w; vm::ct_constant<3> k; C r(2.5);
  switch (s.below(14))
  {
    case 0: return ct_object(s, c, x, "x0", { 0 }, [](P p) { return p[0]; });
    case 1: return ct_object(s, c, z, "x2", { 2 }, [](P p) { return p[2]; });
    case 2: return ct_object(s, c, w, "x4", { 4 }, [](P p) { return p[4]; });
    case 3: return ct_object(s, c, x + y, "x0 + x1", { 0, 1 }, [](P p) { return p[0] + p[1]; });
    case 4: return ct_object(s, c, k - z, "3 - x2", { 2 }, [](P p) { return 3 - p[2]; });
    case 5: return ct_object(s, c, z / x, "x2 / x0", { 2, 0 }, [](P p) { return p[2] / p[0]; });
    case 6: return ct_object(s, c, (k * y) * w, "3 * x1 * x4", { 1, 4 }, [](P p) { return 3 * p[1] * p[4]; });
    case 7: return ct_object(s, c, (x - w) / (k + y), "(x0 - x4) / (3 + x1)", { 0, 1, 4 }, [](P p) { return (p[0] - p[4]) / (3 + p[1]); });
    case 8: return ct_object(s, c, vm::ct_binary_expr<vm::ct_constant<0>, vm::op_mult<double>, vm::ct_variable<3> >(), "0 * x3", { 3 }, [](P) { return 0.0; });
    case 9: return ct_object(s, c, r * z, "2.5 * x2", { 2 }, [](P p) { return 2.5 * p[2]; });
    case 10: return ct_object(s, c, (y + z) * r, "(x1 + x2) * 2.5", { 1, 2 }, [](P p) { return (p[1] + p[2]) * 2.5; });
    case 11: return ct_object(s, c, (x - k) * x, "(x0 - 3) * x0", { 0 }, [](P p) { return (p[0] - 3) * p[0]; });
    case 12: return ct_object(s, c, k / (x + r), "3 / (x0 + 2.5)", { 0 }, [](P p) { return 3 / (p[0] + 2.5); });
    default: return ct_object(s, c, vm::ct_variable<5>() * vm::ct_variable<5>() + x, "x5 * x5 + x0", { 5, 0 }, [](P p) { return p[5] * p[5] + p[0]; });
  }
}

// every exception type, made, copied, thrown and caught as std::exception
template <typename T> static std::string exception_text(T const & e, Src & s, const char * name, bool assign)
{
  std::string first = static_cast<std::exception const &>(e).what();
  CHECK(readable(first), "unreadable message '" << first << "' of " << name);
  std::string caught; const char * p = 0; std::exception_ptr held;
  try { T * heap = new T(e); T copy(*heap); delete heap; churn(); throw copy; }
  catch (std::exception const & ex) { held = std::current_exception(); p = ex.what(); caught = p; churn(); CHECK(caught == p, "the message of " << name << " changed"); }
  CHECK(caught == first, "the message of " << name << " became '" << caught << "' instead of '" << first << "' when thrown");
  if (assign) { T other(e); { T tmp(other); other = tmp; } other = e; churn(); CHECK(first == static_cast<std::exception const &>(other).what(), "the message of an assigned " << name << " is different"); }
  try { std::rethrow_exception(held); } catch (T const & ex) { CHECK(first == static_cast<std::exception const &>(ex).what(), "the message of a rethrown " << name << " is different"); }
  (void)s;
  return first;
}
static std::string random_text(Src & s) { static const char * const w[] = { "variable", "is not", "a constant:", "x0", "expression", "(integral)", "vector,", "cannot", "100%", "\\nabla" }; std::string r = "message:"; unsigned n = 1 + s.below(40); for (unsigned i = 0; i < n; ++i) r += std::string(" ") + w[s.below(10)]; return r; }
static void exceptions(Src & s, Case & c)
{
  std::string t = random_text(s); long id = long(s.below(5000)), size = long(s.below(60));
  unsigned k = s.below(10);
  c.desc = "exception type " + std::to_string(k) + " with " + t + " / " + std::to_string(id) + ", " + std::to_string(size); c.nt(); c.label("exception objects");
  std::string m, want;
  switch (k)
  {
    case 0: exception_text(vm::integration_without_integral_exception(), s, "integration_without_integral_exception", true); break;
    case 1: exception_text(vm::symbolic_integral_evaluation_not_possible_exception(), s, "symbolic_integral_evaluation_not_possible_exception", true); break;
    case 2: exception_text(vm::analytic_integration_not_supported_exception(), s, "analytic_integration_not_supported_exception", true); break;
    case 3: exception_text(vm::no_rhs_provided_exception(), s, "no_rhs_provided_exception", true); break;
    case 4: exception_text(vm::rhs_provided_for_unary_operation_exception(), s, "rhs_provided_for_unary_operation_exception", true); break;
    case 5: if (s.chance(1, 4)) exception_text(vm::expression_not_evaluable_exception(), s, "expression_not_evaluable_exception", true); else m = exception_text(vm::expression_not_evaluable_exception(t), s, "expression_not_evaluable_exception", true), want = t; break;
    case 6: if (s.chance(1, 4)) exception_text(vm::expression_not_unwrappable_exception(), s, "expression_not_unwrappable_exception", true); else m = exception_text(vm::expression_not_unwrappable_exception(t), s, "expression_not_unwrappable_exception", true), want = t; break;
    case 7: if (s.chance(1, 4)) exception_text(vm::expression_not_differentiable_exception(), s, "expression_not_differentiable_exception", true); else m = exception_text(vm::expression_not_differentiable_exception(t), s, "expression_not_differentiable_exception", true), want = t; break;
    default: m = exception_text(vm::variable_index_out_of_bounds_exception(id, size), s, "variable_index_out_of_bounds_exception", true);
      CHECK(has_number(m, (unsigned long)id) && has_number(m, (unsigned long)size), "the message '" << m << "' does not show the index " << id << " and the size " << size); break;
  }
  { // several exceptions alive at the same time
    vm::variable_index_out_of_bounds_exception first(id, size); std::string a = static_cast<std::exception const &>(first).what();
    vm::expression_not_evaluable_exception text1(t); std::string b = static_cast<std::exception const &>(text1).what();
    vm::expression_not_unwrappable_exception text2("other " + t); vm::expression_not_differentiable_exception text3("third " + t);
    vm::variable_index_out_of_bounds_exception second(id + 1, size + 2); vm::expression_not_evaluable_exception text4("fourth");
    try { throw vm::variable_index_out_of_bounds_exception(id + 5, size + 7); } catch (std::exception const &) {}
    CHECK(a == static_cast<std::exception const &>(first).what(), "the message '" << a << "' changed to '" << static_cast<std::exception const &>(first).what() << "' when another exception was made");
    CHECK(b == static_cast<std::exception const &>(text1).what(), "the message '" << b << "' changed to '" << static_cast<std::exception const &>(text1).what() << "' when another exception was made");
    std::string d = static_cast<std::exception const &>(second).what();
    CHECK(has_number(d, (unsigned long)(id + 1)) && has_number(d, (unsigned long)(size + 2)), "the message '" << d << "' does not show the index " << id + 1 << " and the size " << size + 2);
    CHECK(std::string(static_cast<std::exception const &>(text2).what()).find("other " + t) != std::string::npos && std::string(static_cast<std::exception const &>(text3).what()).find("third " + t) != std::string::npos, "exceptions share their texts");
  }
  CHECK(m.find(want) != std::string::npos, "the message '" << m << "' does not contain the text '" << want << "' handed over");
}

void property(Src & s, Case & c)
{
  if (s.chance(1, 16)) return compiletime(s, c);
  if (s.chance(1, 100)) return exceptions(s, c);
  Gen g(s);
  unsigned size = s.below(6);
  bool scalar = s.chance(1, 4);
  if (scalar) size = 1;
  g.nvars = std::max(1u, size);
  g.lconst = s.chance(1, 4);
  N e = g.sized(27);
  static const unsigned w[] = { 4, 5, 3, 2, 2, 2, 2, 1, 1, 2 };
  unsigned kind = s.weighted(w);
  N bad;
  switch (kind)
  {
    case 1: bad = m_var(size + (s.chance(1, 2) ? s.below(3) : s.below(1000))); break;
    case 2: bad = m_fs(g.fs_id(), g.tag()); break;
    case 3: bad = m_un(U_GRAD, g.expr(3)); break;
    case 4: bad = m_un(U_DIV, g.expr(3)); break;
    case 5: bad = m_un(U_PD, g.expr(3), g.var_id()); break;
    case 6: bad = m_vec({ g.expr(2), g.expr(2) }); break;
    case 7: bad = m_intg(g.expr(3), m_const(0), m_const(1), 0); break;
    case 8: bad = m_sint(g.expr(3), 0); break;
    case 9: { static const unsigned long t[] = { 255, 256, 65536, 2147483648ul, 4294967296ul, 4294967297ul, 1ul << 40, 9223372036854775807ul, 18446744073709551615ul, 2147483647ul }; bad = m_var(t[s.below(10)]); break; }
  }
  if (bad)
  {
    std::vector<N> subs; collect(e, subs);
    N t = subs[s.below(unsigned(subs.size()))];
    N r = s.chance(1, 2) ? bad : s.chance(1, 2) ? m_bin(int(s.below(4)), bad, t) : m_bin(int(s.below(4)), t, bad);
    if (s.chance(1, 6)) r = m_bin(MUL, m_const(0), bad);            // a zero factor does not hide it
    if (s.chance(1, 6)) r = m_bin(SUB, bad, bad);
    // replace one occurrence only
    bool done = false;
    std::function<N(N const &)> put = [&](N const & n) -> N {
      if (done) return n;
      if (n == t) { done = true; return r; }
      if (n->c.empty()) return n;
      Node m = *n; for (auto & ch : m.c) ch = put(ch); return mk(m);
    };
    e = put(e);
  }
  std::vector<double> x(size);
  for (auto & v : x) v = coord(s);
  bool oob = any_node(e, [&](Node const & n) { return n.k == VAR && n.id >= size; });
  bool formal = any_node(e, [&](Node const & n) { return n.k == FS || n.k == VEC || n.k == INTG || n.k == SINT || (n.k == UN && n.op >= U_GRAD); });
  if (scalar && s.chance(1, 2)) x[0] = 3;
  unsigned route = s.below(24);
  c.desc = show(e) + " at " + show(x) + (scalar ? " as a number" : "") + " route " + std::to_string(route);
  double val = 0; std::string msg; int out;
  E full = build(e);
  N before = reify(full);
  unsigned type = s.below(3);
  if (type == 1 && e->k == BIN) { B b = build_b(e); out = attempt([&] { return ev(b, x, route, scalar); }, val, msg); c.label("rt_binary_expr"); }
  else if (type == 1 && (e->k == UN || e->k == INTG || e->k == SINT)) { U u = build_u(e); out = attempt([&] { return ev(u, x, route, scalar); }, val, msg); c.label("rt_unary_expr"); }
  else if (type == 1 && e->k == VAR) { V v(e->id); unsigned r = scalar && e->id > 0 ? 2 + (route & 1) : route;   // a bare variable applied to a bare number asserts index 0 (a precondition)
    out = attempt([&] { return ev(v, x, r, scalar); }, val, msg); c.label("rt_variable"); }
  else if (type == 2) { out = attempt([&] { return scalar ? full.get()->eval(x[0]) : full.get()->eval(x); }, val, msg); c.label("interface"); }
  else { out = attempt([&] { return ev(full, x, route, scalar); }, val, msg); c.label("rt_expr"); }
  if (oob && !formal)
  {
    CHECK(out == 1, (out == 0 ? "evaluation returned " + num(val) : "an unexpected exception was thrown (" + msg + ")") << " although a variable is out of bounds");
    bool named = any_node(e, [&](Node const & n) { return n.k == VAR && n.id >= size && has_number(msg, n.id); });
    bool big = any_node(e, [&](Node const & n) { return n.k == VAR && n.id > 9223372036854775807ul; });
    CHECK(named || big, "the message does not name the index of the variable: " << msg);
  }
  else if (oob || formal) CHECK(out != 0, "evaluation returned " << num(val) << " although the expression cannot be evaluated");
  else CHECK(out == 0, "evaluation threw although everything is defined: " << msg);
  if ((oob || formal) && !e->c.empty()) c.nt();
  CHECK(same(before, reify(full)), "evaluation changed the expression");
  c.label(oob ? (formal ? "both" : "out of bounds") : formal ? "formal" : "evaluable");
  // reduction to a number is possible exactly for constant expressions
  bool constant = !any_node(e, [&](Node const & n) { return n.k == VAR; }) && !formal;
  if (constant || s.chance(1, 4))
  {
    double u = 0; std::string m2;
    int o2 = attempt([&] { return full.get()->unwrap(); }, u, m2);
    if (!constant) CHECK(o2 != 0, "reduction to a number gave " << num(u) << " for an expression which is not constant");
    else if (out == 0) CHECK(o2 == 0 && (u == val || (std::isnan(u) && std::isnan(val)) || std::fabs(u - val) <= 1e-12 * std::fabs(val)), "reduction of a constant expression to a number gave " << (o2 ? m2 : num(u)) << " instead of " << num(val));
  }
}
