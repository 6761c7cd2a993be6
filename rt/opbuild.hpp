// Builds runtime expressions through the public operators and functions, with randomly chosen operand types.
#ifndef VM_HARNESS_OPBUILD_HPP
#define VM_HARNESS_OPBUILD_HPP
#include "core.hpp"
#include <variant>

typedef std::variant<double, int, long, float, C, LC, V, U, B, E> Val;
template <typename T> struct is_prim { static const bool value = std::is_arithmetic<T>::value; };

struct OpBuild
{
  Src & s; unsigned kinds = 0;
  explicit OpBuild(Src & s_) : s(s_) {}

  Val leaf(N const & n)
  {
    if (n->k == VAR) { if (s.chance(1, 3)) { kinds |= 1; return E(V(n->id)); } return V(n->id); }
    if (n->k == LCONST) return with_lconst(n, [](auto const & x) -> Val { if constexpr (std::is_same<std::decay_t<decltype(x)>, LC>::value) return x; else return E(x); });
    unsigned k = s.below(8);
    double v = n->v; bool whole = v == std::floor(v) && std::fabs(v) < 1e6;
    switch (k)
    {
      case 0: case 1: return v;
      case 2: return C(v);
      case 3: return E(v);
      case 4: if (whole) { kinds |= 2; return int(v); } return C(v);
      case 5: if (whole) { kinds |= 4; return long(v); } return v;
      case 6: if (whole) { kinds |= 8; return LC(long(v)); } return E(C(v));
      default: if (double(float(v)) == v) { kinds |= 16; return float(v); } return v;
    }
  }
  static E to_expr(Val const & v) { return std::visit([](auto const & x) -> E { if constexpr (is_prim<std::decay_t<decltype(x)>>::value) return E(double(x)); else return E(x); }, v); }

  template <typename R_> Val keep(R_ const & r)
  {
    if (s.chance(1, 3)) return E(r);
    if constexpr (std::is_same<R_, B>::value || std::is_same<R_, U>::value || std::is_same<R_, E>::value) return r;
    else return E(r);
  }
  Val binary(int op, Val const & a, Val const & b)
  {
    return std::visit([&](auto const & x, auto const & y) -> Val {
      typedef std::decay_t<decltype(x)> TX; typedef std::decay_t<decltype(y)> TY;
      if constexpr (is_prim<TX>::value && is_prim<TY>::value) return binary(op, Val(C(double(x))), Val(y));
      else
        switch (op)
        {
          case ADD: return keep(x + y);
          case SUB: return keep(x - y);
          case MUL: return keep(x * y);
          default: return keep(x / y);
        }
    }, a, b);
  }
  Val unary(int op, Val const & a)
  {
    return std::visit([&](auto const & x) -> Val {
      typedef std::decay_t<decltype(x)> TX;
      if constexpr (is_prim<TX>::value) return unary(op, Val(C(double(x))));
      else
        switch (op)
        {
          case U_EXP: return keep(vm::exp(x));
          case U_SIN: return keep(vm::sin(x));
          case U_COS: return keep(vm::cos(x));
          case U_TAN: return keep(vm::tan(x));
          case U_FABS: return keep(vm::fabs(x));
          case U_SQRT: return keep(vm::sqrt(x));
          case U_LOG: return keep(vm::log(x));
          case U_LOG10: return keep(vm::log10(x));
          default: return U(to_expr(a).get()->clone(), mk_uop(U_ID, 0));
        }
    }, a);
  }
  Val make(N const & n)
  {
    if (n->c.empty()) return leaf(n);
    if (n->k == UN) return unary(n->op, make(n->c[0]));
    Val a = make(n->c[0]); Val b = make(n->c[1]);
    return binary(n->op, a, b);
  }
};

// a user-defined vector type: size() and [] are all the library asks for
struct PlainVector { std::vector<double> d; size_t size() const { return d.size(); } double operator[](size_t i) const { return d[i]; } };
#endif
