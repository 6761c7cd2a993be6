// C30: operators, functions, constructors and assignments build exactly the expression that is written.
#include "driver.hpp"
#include "substgen.hpp"
#include <variant>
const char * const property_rule =
  "C30: random expressions over all node types (function symbols, vectors, formal operators and integrals included) are written with the library's operators, functions, constructors, conversions and assignments from random operand types "
  "(double, int, long, float, rt_constant<double|long>, rt_variable, rt_function_symbol, rt_unary_expr, rt_binary_expr, rt_vector_expr, rt_expr, compile-time constants, variables and expressions); after every step the tree is compared with the one written and the operands "
  "are looked at again; non-trivial = at least two operations and an operand that is not an rt_expr";

typedef std::variant<double, int, long, float, C, LC, V, F, U, B, X, E> Val;
template <typename T> struct prim { static const bool value = std::is_arithmetic<T>::value; };

struct Item { Val v; N n; };     // an object of the library and the tree it has to hold

template <typename T> static N tree(T const & x)
{
  if constexpr (prim<T>::value) return m_const(double(x));
  else if constexpr (std::is_same<T, E>::value) return reify(x);
  else return reify(&x);
}
static N tree(Val const & v) { return std::visit([](auto const & x) -> N { return tree(x); }, v); }

struct Maker
{
  Src & s; Case & c; unsigned typed = 0, steps = 0;
  std::string text;
  Maker(Src & s_, Case & c_) : s(s_), c(c_) {}

  static bool is_x(Val const & v) { return std::holds_alternative<X>(v); }

  // expected tree of an operation on two objects; vec: the object is statically a vector
  static N entries(int op, N const & a, bool va, N const & b, bool vb)
  {
    if (va && vb && (op == ADD || op == SUB)) { std::vector<N> r; for (size_t i = 0; i < a->c.size(); ++i) r.push_back(m_bin(op, a->c[i], b->c[i])); return m_vec(r); }
    if (va && !vb && (op == MUL || op == DIV)) { std::vector<N> r; for (auto const & x : a->c) r.push_back(m_bin(op, x, b)); return m_vec(r); }
    if (!va && vb && (op == MUL || op == DIV)) { std::vector<N> r; for (auto const & x : b->c) r.push_back(m_bin(op, a, x)); return m_vec(r); }
    return m_bin(op, a, b);
  }
  static N inner(N const & a, N const & b)
  { N r; for (size_t i = 0; i < a->c.size(); ++i) { N p = m_bin(MUL, a->c[i], b->c[i]); r = r ? m_bin(ADD, r, p) : p; } return r; }

  void verify(Val const & v, N const & want, std::string const & what)
  {
    N got = tree(v);
    CHECK(same(got, want), what << " gives " << show(got) << " instead of " << show(want));
  }

  // stores the result of an operation in one of the types that take it
  template <typename R_> Val keep(R_ const & r)
  {
    switch (s.below(6))
    {
      case 0: return E(r);
      case 1: { E e; e = r; return e; }
      case 2: { E e(V(7)); e = r; return e; }
      case 3: { E e(r); E f(e); f = e; return f; }
      default:
        if constexpr (std::is_same<R_, B>::value) { if (s.chance(1, 3)) { B b(new C(1), mk_bop(ADD), new C(2)); b = r; return b; } return r; }
        else if constexpr (std::is_same<R_, U>::value) { if (s.chance(1, 3)) { U u(new C(1)); u = r; return u; } return r; }
        else if constexpr (std::is_same<R_, X>::value || std::is_same<R_, E>::value) return r;
        else return E(r);
    }
  }

  Item leaf(N const & n)
  {
    Item it; it.n = n;
    switch (n->k)
    {
      case VAR: it.v = V(n->id); break;
      case FS:
        if (n->tag == tag_unknown()) { if (n->id == 0 && s.chance(1, 2)) it.v = F(); else it.v = F(n->id, vm::unknown_tag<>()); }
        else if (n->tag == tag_test()) it.v = F(n->id, vm::test_tag<>());
        else it.v = F(n->id, n->tag);
        break;
      case LCONST: it.v = with_lconst(n, [](auto const & x) -> Val { if constexpr (std::is_same<std::decay_t<decltype(x)>, LC>::value) return x; else return E(x); }); break;
      default:
      {
        double v = n->v; bool whole = v == std::floor(v) && std::fabs(v) < 1e6;
        unsigned k = s.below(7);
        if (k == 0) it.v = v;
        else if (k == 1 && whole) it.v = int(v);
        else if (k == 2 && whole) it.v = long(v);
        else if (k == 3 && double(float(v)) == v) it.v = float(v);
        else if (k == 4 && whole) { it.v = LC(long(v)); it.n = m_long(long(v)); }
        else it.v = C(v);
      }
    }
    unsigned how = s.below(8);
    if (how == 0) it.v = std::visit([&](auto const & x) -> Val { typedef std::decay_t<decltype(x)> T; if constexpr (prim<T>::value) return E(double(x)); else return keep(x); }, it.v);
    else if (how == 1) { E e; if (n->k == CONST) { if (s.chance(1, 2)) e = n->v; else { e = E(V(3)); e = n->v; } it.v = e; it.n = m_const(n->v); } }
    else if (how == 2 && n->k == VAR) { E e; switch (n->id) { case 0: e = vm::ct_variable<0>(); break; case 1: e = vm::ct_variable<1>(); break; case 2: e = vm::ct_variable<2>(); break; default: e = V(n->id); } it.v = e; }
    if (!std::holds_alternative<E>(it.v)) ++typed;
    verify(it.v, it.n, "making " + show(it.n));
    return it;
  }

  // identity nodes made by the constructors and assignments of rt_unary_expr
  Item identity(Item const & a)
  {
    Item r; r.n = m_un(U_ID, a.n);
    bool done = false;
    if (V const * v = std::get_if<V>(&a.v)) { r.v = U(*v); done = true; }
    else if (C const * k = std::get_if<C>(&a.v)) { if (s.chance(1, 2)) r.v = U(*k); else { U u(new V(1), mk_uop(U_SIN, 0)); u = *k; r.v = u; } done = true; }
    else if (LC const * k = std::get_if<LC>(&a.v)) { if (s.chance(1, 2)) r.v = U(*k); else { U u(new V(1), mk_uop(U_SIN, 0)); u = *k; r.v = u; } done = true; }
    else if (double const * d = std::get_if<double>(&a.v)) { U u(new V(1), mk_uop(U_SIN, 0)); u = *d; r.v = u; done = true; if (*d == 3 && s.chance(1, 2)) r.v = U(vm::ct_constant<3>()); if (*d == 2 && s.chance(1, 2)) { u = vm::ct_constant<2>(); r.v = u; } }
    if (!done) r.v = std::visit([&](auto const & x) -> Val { typedef std::decay_t<decltype(x)> T; if constexpr (prim<T>::value) return U(new C(double(x))); else if constexpr (std::is_same<T, E>::value) return U(x.get()->clone()); else return U(x.clone()); }, a.v);
    return r;
  }

  Item unary(N const & n, Item const & a0)
  {
    Item a = a0;
    if (a.n->k == FS && !std::holds_alternative<E>(a.v) && n->k == UN && n->op < U_GRAD && n->op != U_ID) a.v = E(std::get<F>(a.v));
    Item r; std::string what;
    if (n->k == UN && n->op == U_ID) { r = identity(a); what = "the identity of " + show(a.n); }
    else
    {
      r.n = n->k == UN ? m_un(n->op, a.n, n->id) : N();
      what = std::string(uop_name[n->k == UN ? n->op : 0]) + " of " + show(a.n);
      r.v = std::visit([&](auto const & x) -> Val {
        typedef std::decay_t<decltype(x)> T;
        if constexpr (prim<T>::value) { C k = C(double(x)); a.n = m_const(double(x)); r.n = m_un(n->op, a.n, n->id); return function(n, k); }
        else return function(n, x); }, a.v);
    }
    verify(r.v, r.n, what);
    verify(a.v, a.n, "after building " + what + ", its argument");
    return r;
  }
  template <typename T> static E wrap(T const & x) { return E(x); }
  template <typename T> Val function(N const & n, T const & x)
  {
    constexpr bool sc = std::is_same<T, C>::value || std::is_same<T, LC>::value || std::is_same<T, V>::value || std::is_same<T, U>::value || std::is_same<T, B>::value || std::is_same<T, E>::value;
    switch (n->op)
    {
#define FN(OP, NAME) case OP: if constexpr (sc) return keep(vm::NAME(x)); else return keep(vm::NAME(wrap(x)))
      FN(U_EXP, exp); FN(U_SIN, sin); FN(U_COS, cos); FN(U_TAN, tan); FN(U_FABS, fabs); FN(U_SQRT, sqrt); FN(U_LOG, log); FN(U_LOG10, log10);
#undef FN
      case U_GRAD: if constexpr (std::is_same<T, F>::value || std::is_same<T, U>::value || std::is_same<T, E>::value) return keep(vm::grad(x)); else return keep(vm::grad(wrap(x)));
      case U_DIV: if constexpr (std::is_same<T, F>::value || std::is_same<T, U>::value || std::is_same<T, E>::value || std::is_same<T, B>::value) return keep(vm::div(x)); else return keep(vm::div(wrap(x)));
      default: return keep(U(wrap(x).get()->clone(), mk_uop(n->op, n->id)));
    }
  }

  template <typename A, typename D> static constexpr bool allowed(int op)
  {
    constexpr bool pa = prim<A>::value, pd = prim<D>::value, xa = std::is_same<A, X>::value, xd = std::is_same<D, X>::value;
    if (pa && pd) return false;
    if ((op == ADD || op == SUB) && ((pa && xd) || (xa && pd))) return false;     // not offered
    if (op == DIV && xa && xd) return false;
    return true;
  }
  template <int OP, typename A, typename D> Val apply(A const & x, D const & y)
  {
    if constexpr (allowed<A, D>(OP))
    {
      if constexpr (OP == ADD) return keep(x + y);
      else if constexpr (OP == SUB) return keep(x - y);
      else if constexpr (OP == MUL) return keep(x * y);
      else return keep(x / y);
    }
    else return keep(B(wrapped(x).get()->clone(), mk_bop(OP), wrapped(y).get()->clone()));
  }
  template <typename T> static E wrapped(T const & x) { if constexpr (prim<T>::value) return E(double(x)); else return E(x); }

  // one operand is a compile-time object
  template <typename CT> Item with_ct(int op, Item const & a, CT const & k, N const & kn, bool left)
  {
    Item r; bool va = is_x(a.v);
    r.n = left ? entries(op, kn, false, a.n, va) : entries(op, a.n, va, kn, false);
    std::string what = (left ? show(kn) + " (compile time) " + bop_name[op] + " " + show(a.n) : show(a.n) + " " + bop_name[op] + " " + show(kn) + " (compile time)");
    r.v = std::visit([&](auto const & x) -> Val {
      typedef std::decay_t<decltype(x)> T;
      auto go = [&](auto const & y) -> Val {
        switch (op) {
          case ADD: return left ? keep(k + y) : keep(y + k);
          case SUB: return left ? keep(k - y) : keep(y - k);
          case MUL: return left ? keep(k * y) : keep(y * k);
          default:  return left ? keep(k / y) : keep(y / k); } };
      if constexpr (prim<T>::value) return go(double(x)); else return go(x); }, a.v);
    N got = tree(r.v);
    if (is_num(a.n)) { r.n = got; agree(left ? m_bin(op, kn, a.n) : m_bin(op, a.n, kn), got, s, 3, 1, what); }      // constants are combined at will
    else verify(r.v, r.n, what);
    verify(a.v, a.n, "after " + what + ", the operand");
    c.label("compile-time operand");
    return r;
  }

  Item binary(int op, Item const & a, Item const & b)
  {
    bool va = is_x(a.v), vb = is_x(b.v);
    if (va && vb && a.n->c.size() != b.n->c.size()) { Item e = a; e.v = E(std::get<X>(a.v)); return binary(op, e, b); }   // sizes have to agree
    if (s.chance(1, 5))
      for (int left = 0; left < 2; ++left)
      {
        Item const & o = left ? a : b; Item const & t = left ? b : a;
        if (!o.n->c.empty()) continue;
        if (s.chance(1, 8))
          switch (s.below(4))
          {
            case 0: return with_ct(op, t, vm::ct_variable<300>(), m_var(300), left != 0);
            case 1: return with_ct(op, t, vm::ct_variable<65537>(), m_var(65537), left != 0);
            case 2: return with_ct(op, t, vm::ct_constant<-70000>(), m_const(-70000), left != 0);
            default: return with_ct(op, t, vm::ct_constant<5000000001>(), m_const(5000000001.0), left != 0);
          }
        if (o.n->k == VAR && o.n->id == 0) return with_ct(op, t, vm::ct_variable<0>(), m_var(0), left != 0);
        if (o.n->k == VAR && o.n->id == 2) return with_ct(op, t, vm::ct_variable<2>(), m_var(2), left != 0);
        if (o.n->k == CONST && o.n->v == 3) return with_ct(op, t, vm::ct_constant<3>(), m_const(3), left != 0);
        if (o.n->k == CONST && o.n->v == 2) return with_ct(op, t, vm::ct_constant<2>(), m_const(2), left != 0);
      }
    Item r; bool dot = va && vb && op == MUL;
    r.n = entries(op, a.n, va, b.n, vb);
    std::string what = show(a.n) + " " + bop_name[op] + " " + show(b.n);
    r.v = std::visit([&](auto const & x, auto const & y) -> Val {
      switch (op) { case ADD: return apply<ADD>(x, y); case SUB: return apply<SUB>(x, y); case MUL: return apply<MUL>(x, y); default: return apply<DIV>(x, y); } }, a.v, b.v);
    if (dot) { N got = tree(r.v); N want = inner(a.n, b.n); CHECK(!got->c.empty() && got->k == BIN, what << " is " << show(got)); agree(want, got, s, 3, 2, what); r.n = got; c.label("inner product"); }
    else verify(r.v, r.n, what);
    verify(a.v, a.n, "after " + what + ", the left operand"); verify(b.v, b.n, "after " + what + ", the right operand");
    return r;
  }

  Item make(N const & n)
  {
    Item r;
    switch (n->k)
    {
      case CONST: case LCONST: case VAR: case FS: return leaf(n);
      case UN: { Item a = make(n->c[0]); ++steps; r = unary(n, a); break; }
      case BIN: { Item a = make(n->c[0]); Item b = make(n->c[1]); ++steps; r = binary(n->op, a, b); break; }
      case VEC:
      {
        X x(n->c.size()); std::vector<N> m;
        for (size_t i = 0; i < n->c.size(); ++i)
        {
          Item a = make(n->c[i]);
          std::visit([&](auto const & y) { typedef std::decay_t<decltype(y)> T; if constexpr (prim<T>::value) x[i] = double(y); else x[i] = y; }, a.v);
          m.push_back(a.n->k == LCONST && std::holds_alternative<long>(a.v) ? m_const(a.n->v) : a.n);
        }
        r.v = x; r.n = m_vec(m); verify(r.v, r.n, "storing the entries of a vector"); c.label("vector"); break;
      }
      default: r.v = build(n); r.n = n; break;
    }
    if (s.chance(1, 4)) { r.v = std::visit([&](auto const & x) -> Val { typedef std::decay_t<decltype(x)> T; if constexpr (prim<T>::value) return E(double(x)); else return keep(x); }, r.v); verify(r.v, r.n, "storing " + show(r.n)); }
    if (!std::holds_alternative<E>(r.v)) ++typed;
    return r;
  }
};

// a binary expression takes numbers, constants and compile-time expressions by assignment
static void into_binary(Src & s, Case & c, Gen & g)
{
  B b = build_b(m_bin(int(s.below(4)), g.expr(3), g.expr(3)));
  N want; const char * how = "";
  vm::ct_variable<0> x; vm::ct_variable<1> y; vm::ct_variable<2> z; vm::ct_constant<3> k; vm::ct_constant<5> q;
  N X0 = m_var(0), Y = m_var(1), Z = m_var(2), K = m_const(3), Q = m_const(5);
  double d = g.constant(); long l = long(s.below(41)) - 20; C rc(d);
  bool made = false;
  switch (s.below(14))
  {
    case 0: b = d; want = m_const(d); how = "number"; break;
    case 1: b = rc; want = m_const(d); how = "constant"; break;
    case 2: b = LC(l); want = m_long(l); how = "long constant"; break;
    case 3: b = k; want = K; how = "compile-time constant"; break;
    case 4: b = vm::ct_binary_expr<vm::ct_constant<5>, vm::op_div<double>, vm::ct_constant<3> >(); want = m_bin(DIV, Q, K); how = "quotient of compile-time constants"; break;
    case 5: b = x + y; want = m_bin(ADD, X0, Y); how = "x + y"; break;
    case 6: b = z - k; want = m_bin(SUB, Z, K); how = "z - 3"; break;
    case 7: b = k / y; want = m_bin(DIV, K, Y); how = "3 / y"; break;
    case 8: b = (x * y) * k; want = m_bin(MUL, m_bin(MUL, X0, Y), K); how = "(x * y) * 3"; break;
    case 9: b = q * (z - y); want = m_bin(MUL, Q, m_bin(SUB, Z, Y)); how = "5 * (z - y)"; break;
    case 10: b = (x - z) / (y + k); want = m_bin(DIV, m_bin(SUB, X0, Z), m_bin(ADD, Y, K)); how = "(x - z) / (y + 3)"; break;
    case 11: b = z * (y / x); want = m_bin(MUL, Z, m_bin(DIV, Y, X0)); how = "z * (y / x)"; break;
    case 12: { B n((x - y) / z); b = n; want = m_bin(DIV, m_bin(SUB, X0, Y), Z); how = "(x - y) / z by the constructor"; made = true; break; }
    default: { B n(q - (x * z)); b = n; want = m_bin(SUB, Q, m_bin(MUL, X0, Z)); how = "5 - x * z by the constructor"; made = true; break; }
  }
  c.desc = std::string("binary expression assigned: ") + how + " " + show(want); c.nt(); c.label(made ? "binary expression made" : "binary expression assigned");
  N got = reify(&b);
  if (is_num(want) || is_num(want->c[0]) ) { Env env; env.x = { 0.5, 1.5, 2.5 }; Num w = evaln(want, env), h = evaln(got, env); CHECK(w.st == 0 && h.st == 0 && close_to(w.v, w.e, h.v, h.e), "a binary expression assigned " << show(want) << " holds " << show(got)); }
  if (!is_num(want) && !(is_num(want->c[0]) && is_num(want->c[1]))) CHECK(same(got, want), "a binary expression assigned " << show(want) << " holds " << show(got));
  B copy(b); E e(b); CHECK(same(reify(&copy), got) && same(reify(e), got), "the copy of a binary expression differs");
}

void property(Src & s, Case & c)
{
  Gen g(s);
  subst_flags(g, s.below(8)); g.fs = true; g.other_tag = s.chance(1, 4); g.lconst = s.chance(1, 4);
  if (s.chance(1, 24)) return into_binary(s, c, g);
  N e = g.sized(21);
  if (s.chance(1, 5))
  {
    size_t d = 1 + s.below(4); auto vec = [&] { std::vector<N> v; for (size_t i = 0; i < d; ++i) v.push_back(g.expr(int(1 + s.below(5)))); return m_vec(v); };
    N x = vec(), y = s.chance(1, 4) ? x : vec();
    N p = s.chance(1, 3) ? m_bin(int(s.below(4)), x, y) : s.chance(1, 2) ? m_bin(int(s.below(4)), x, g.expr(5)) : m_bin(int(s.below(4)), g.expr(5), x);
    e = s.chance(1, 2) ? p : s.chance(1, 2) ? m_bin(int(s.below(4)), p, e) : m_bin(int(s.below(4)), e, p);
  }
  if (s.chance(1, 12)) { e = m_un(U_GRAD, e); if (s.chance(1, 2)) e = m_un(U_DIV, e); }
  c.desc = "write " + show(e);
  Maker m(s, c);
  Item r = m.make(e);
  if (s.chance(1, 10))
  { // the Laplace operator
    E x = std::visit([&](auto const & y) -> E { typedef std::decay_t<decltype(y)> T; if constexpr (prim<T>::value) return E(double(y)); else return E(y); }, r.v);
    N n = r.n; if (is_num(n)) n = tree(x);
    N want = m_un(U_DIV, m_un(U_GRAD, n)), got;
    if (F const * f = std::get_if<F>(&r.v)) { U u = vm::laplace(*f); got = reify(&u); } else { U u = vm::laplace(x); got = reify(&u); }
    CHECK(same(got, want), "the Laplace operator on " << show(n) << " gives " << show(got));
    CHECK(same(reify(x), n), "the Laplace operator changed its argument"); c.label("Laplace operator");
  }
  if (m.steps > 1 && m.typed) c.nt();
}
