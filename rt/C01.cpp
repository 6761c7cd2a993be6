// C01: evaluation of a runtime expression gives the value of the formula.
#include "opbuild.hpp"
#include "driver.hpp"
const char * const property_rule =
  "C01: random formulas over + - * / and the functions are built with the library's operators from random operand types (double, int, long, float, rt_constant<double|long>, rt_variable, rt_unary_expr, "
  "rt_binary_expr, rt_expr) and evaluated over random routes (call or eval; scalar, std::vector, user vector, ct_vector, constants) and compared with a reference evaluation (error bounds; exactly for single operations "
  "including zero, infinite and undefined results); non-trivial = at least one operation and a decidable value";

static double dbl(N const & n, std::vector<double> const & x)
{
  switch (n->k)
  {
    case CONST: case LCONST: return n->v;
    case VAR: return x.at(n->id);
    case UN:
    {
      double a = dbl(n->c[0], x);
      switch (n->op)
      {
        case U_EXP: return std::exp(a); case U_SIN: return std::sin(a); case U_COS: return std::cos(a); case U_TAN: return std::tan(a);
        case U_FABS: return std::fabs(a); case U_SQRT: return std::sqrt(a); case U_LOG: return std::log(a); case U_LOG10: return std::log10(a);
        default: return a;
      }
    }
    default:
    {
      double a = dbl(n->c[0], x), b = dbl(n->c[1], x);
      switch (n->op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; }
    }
  }
}

template <typename T> static double ev(T const & e, std::vector<double> const & x, unsigned route, bool scalar)
{
  PlainVector pv; pv.d = x;
  constexpr bool user_vec = !std::is_same<T, V>::value;
  if (scalar)
    switch (route % 8)
    {
      case 0: return e(x[0]);
      case 1: return vm::eval(e, x[0]);
      case 2: return e(C(x[0]));
      case 3: return vm::eval(e, C(x[0]));
      case 4: if (x[0] == 3) return e(vm::ct_constant<3>()); return vm::eval(e, x[0]);
      case 5: if (x[0] == 3) return vm::eval(e, vm::ct_constant<3>()); return e(x[0]);
      case 6: if (x[0] == std::floor(x[0]) && std::fabs(x[0]) < 1e6) return e(LC(long(x[0]))); return e(x[0]);
      default: if (x[0] == std::floor(x[0]) && std::fabs(x[0]) < 1e6) return vm::eval(e, LC(long(x[0]))); return vm::eval(e, x[0]);
    }
  double a = x[0], b = x.size() > 1 ? x[1] : 0, c = x.size() > 2 ? x[2] : 0;
  switch (route % 8)
  {
    case 0: return e(x);
    case 1: return vm::eval(e, x);
    case 2: if constexpr (user_vec) return e(pv); else return e(x);
    case 3: if constexpr (user_vec) return vm::eval(e, pv); else return vm::eval(e, x);
    case 4: case 5:
      if (x.size() == 1) return e(vm::make_vector(a));
      if (x.size() == 2) return e(vm::make_vector(a, b));
      if (x.size() == 3) return e(vm::make_vector(a, b, c));
      return e(x);
    default:
      if (x.size() == 1) return vm::eval(e, vm::make_vector(a));
      if (x.size() == 2) return vm::eval(e, vm::make_vector(a, b));
      if (x.size() == 3) return vm::eval(e, vm::make_vector(a, b, c));
      return vm::eval(e, x);
  }
}

static bool same_number(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-14 * std::fabs(b); }

// numbers of every magnitude, and those at which the library functions overflow, underflow or change branches
static double wide(Src & s)
{
  double m = 1 + double(s.below(1u << 20)) / double(1u << 20), v;
  switch (s.below(4))
  {
    case 0: v = std::ldexp(m, int(s.below(2098)) - 1074); break;
    case 1: v = 690 + 60 * (m - 1); break;               // exp overflows from 709.78, underflows from -745.13
    case 2: v = std::ldexp(m, int(s.below(80)) - 40); break;
    default: v = double(s.below(2000)) / 2; break;
  }
  return s.chance(1, 3) ? -v : v;
}

void property(Src & s, Case & c)
{
  Gen g(s);
  unsigned mode = s.below(6);
  bool scalar = mode == 1 || mode == 4;
  g.nvars = scalar ? 1 : 1 + s.below(4);
  g.far_vars = mode == 3;
  g.lconst = s.chance(1, 4);
  N n;
  bool single = mode >= 4;
  if (single) { n = s.chance(1, 2) ? m_un(int(s.below(9)), g.leaf()) : m_bin(int(s.below(4)), g.leaf(), g.leaf()); c.label("single operation"); }
  else n = g.sized();
  size_t far = 0;
  if (!scalar && !single && s.chance(1, 200))
  { // variables far out in a long point
    static const unsigned long t[] = { 17, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 300, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 65537 };
    unsigned long to[17]; for (auto & i : to) i = t[s.below(s.chance(1, 4) ? 23 : 18)];
    std::function<N(N const &)> mv = [&](N const & q) -> N { if (q->k == VAR) { unsigned long i = to[q->id]; far = std::max(far, size_t(i)); return m_var(i); } if (q->c.empty()) return q; Node m = *q; for (auto & ch : m.c) ch = mv(ch); return mk(m); };
    n = mv(n); c.label("far variables");
  }
  size_t dim = far ? far + 1 + s.below(2) : g.far_vars ? 17 : g.nvars + (scalar ? 0 : s.below(2));
  std::vector<double> x(dim);
  std::string at;
  if (far)
  { // only the coordinates in use are drawn
    for (size_t i = 0; i < dim; ++i) x[i] = 0.3 + double(i % 1009);
    std::vector<N> all; collect(n, all); for (auto const & q : all) if (q->k == VAR) { x[q->id] = coord(s); at += "x" + std::to_string(q->id) + " = " + num(x[q->id]) + " "; }
    at += "of " + std::to_string(dim) + " coordinates";
  }
  else for (auto & v : x)
  {
    static const double t[] = { 0.0, -0.0, 1e300, -1e300, 1e-300, INFINITY, -INFINITY, NAN, 750, -1, 3, 1e-308 };
    v = single && s.chance(1, 3) ? t[s.below(12)] : single && s.chance(1, 2) ? wide(s) : s.chance(1, 8) ? 3.0 : coord(s);
  }
  unsigned route = s.below(8);
  unsigned form = s.below(4);
  OpBuild ob(s);
  Val val = form == 0 ? Val(build(n)) : ob.make(n);
  if (form == 3) val = OpBuild::to_expr(val);
  c.desc = show(n) + " at " + (far ? at : show(x)) + (scalar ? " as a number" : "") + " route " + std::to_string(route) + " type " + std::to_string(val.index());
  double ref = dbl(n, x);
  Env env; env.x = x; Num bound; bound.st = 1;
  bool finite = true; for (double v : x) finite = finite && std::isfinite(v);
  if (finite) { env.margin = 1e3L; bound = evaln(n, env); }
  N before = reify(OpBuild::to_expr(val));
  if (s.chance(1, 8))
  { // another point first, perhaps a very close one
    c.label("after another point");
    std::vector<double> y(x); bool close = s.chance(1, 2);
    for (auto & v : y) v = close ? std::nextafter(v, 1e300) : coord(s);
    try { std::visit([&](auto const & e) { typedef std::decay_t<decltype(e)> T; if constexpr (!is_prim<T>::value) ev(e, y, route, scalar); }, val); } catch (Fail const &) { throw; } catch (...) { }
  }
  for (int pass = 0; pass < 2; ++pass)
  {
    double got = std::visit([&](auto const & e) -> double {
      typedef std::decay_t<decltype(e)> T;
      if constexpr (std::is_same<T, long>::value) return double(vm::eval(e, x)); else if constexpr (is_prim<T>::value) return vm::eval(double(e), x);
      else return ev(e, x, route + unsigned(pass) * 3, scalar);
    }, val);
    if (single || n->c.empty()) CHECK(same_number(got, ref), "value " << num(got) << " instead of " << num(ref));
    else if (bound.st == 0)
      CHECK(close_to(got, 0, bound.v, bound.e + 1e-300L), "value " << num(got) << " instead of " << num(double(bound.v)) << " (double arithmetic: " << num(ref) << ")");
    else if (std::isnan(got) && std::isnan(ref)) c.label("undefined in both");
    else c.label("undecidable");
  }
  N after = reify(OpBuild::to_expr(val));
  CHECK(same(before, after), "evaluation changed the expression from " << show(before) << " to " << show(after));
  if (!n->c.empty() && (single || bound.st == 0)) c.nt();
  static const char * names[] = { "double", "int", "long", "float", "rt_constant<double>", "rt_constant<long>", "rt_variable", "rt_unary_expr", "rt_binary_expr", "rt_expr" };
  c.label(names[val.index()]);
}
