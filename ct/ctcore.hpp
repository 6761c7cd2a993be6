// Support code of the generated compile-time programs: types are printed as prefix text and read back by ctlib.py.
#ifndef VM_CTCORE_HPP
#define VM_CTCORE_HPP
#include <cstdio>
#include <cmath>
#include <string>
#include <sstream>
#include <vector>
#include <iostream>
#include "viennamath/expression.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/expand.hpp"
#include "viennamath/manipulation/coefficient.hpp"
#include "viennamath/manipulation/drop_dependent_terms.hpp"
#include "viennamath/manipulation/integrate.hpp"
#include "viennamath/compiletime/ct_equation.hpp"
#include "viennamath/compiletime/ct_interval.hpp"
namespace vm = viennamath;
typedef double D;
template <long n> using K = vm::ct_constant<n>;
template <unsigned long id> using W = vm::ct_variable<id>;
template <typename L, typename R> using A = vm::ct_binary_expr<L, vm::op_plus<D>, R>;
template <typename L, typename R> using S = vm::ct_binary_expr<L, vm::op_minus<D>, R>;
template <typename L, typename R> using M = vm::ct_binary_expr<L, vm::op_mult<D>, R>;
template <typename L, typename R> using Q = vm::ct_binary_expr<L, vm::op_div<D>, R>;
typedef vm::rt_expr<> E;
typedef vm::rt_variable<> V;
typedef vm::rt_constant<double> RC;
typedef vm::rt_constant<long> LC;
typedef vm::rt_constant<int> IC;
typedef vm::rt_constant<float> FC;

// functions applied to the operand itself; a compile-time constant becomes an expression first
template <typename T> struct is_ctc { static const bool value = false; };
template <long n> struct is_ctc<vm::ct_constant<n> > { static const bool value = true; };
#define RAW(f) template <typename T> auto raw_##f(T const & x) { if constexpr (is_ctc<T>::value) return vm::f(E(x)); else return vm::f(x); }
RAW(sin) RAW(cos) RAW(exp) RAW(fabs) RAW(sqrt) RAW(log) RAW(log10) RAW(tan)
template <typename T, typename P> double route(T const & x, P const & p) { return vm::eval(x, p); }

// the same object stored in the runtime types which can be made from it or assigned from it
typedef vm::rt_binary_expr<> BE;
typedef vm::rt_unary_expr<> UE;
template <typename T> struct is_ctb { static const bool value = false; static const bool assignable = false; };
template <typename L, typename O, typename R> struct is_ctb<vm::ct_binary_expr<L, O, R> > { static const bool value = true; static const bool assignable = (is_ctb<L>::value || is_ctc<L>::value) && (is_ctb<R>::value || is_ctc<R>::value); };
template <typename T> struct is_rtc { static const bool value = false; };
template <typename T, typename I> struct is_rtc<vm::rt_constant<T, I> > { static const bool value = true; };
inline BE some_binary() { return BE(V(7).clone(), new vm::op_binary<vm::op_mult<D>, vm::default_interface_type>(), V(9).clone()); }
inline UE some_unary() { return UE(V(7).clone(), new vm::op_unary<vm::op_sin<D>, vm::default_interface_type>()); }
template <typename T> E stored(T const & x)
{
  if constexpr (is_ctb<T>::assignable) { BE b(some_binary()); b = x; return E(b); }
  else if constexpr (is_ctb<T>::value) { BE b(x); BE c(some_binary()); c = b; return E(c); }
  else if constexpr (is_ctc<T>::value || is_rtc<T>::value || std::is_arithmetic<T>::value) { BE b(some_binary()); b = x; return E(b); }
  else if constexpr (std::is_same<T, UE>::value) { UE u(x); UE w(some_unary()); w = u; return E(w); }
  else if constexpr (std::is_same<T, BE>::value) { BE u(x); BE w(some_binary()); w = u; return E(w); }
  else { E a; a = x; return a; }
}
template <typename T> E stored2(T const & x)
{
  if constexpr (is_ctc<T>::value || is_rtc<T>::value || std::is_arithmetic<T>::value) { UE b(some_unary()); b = x; return E(b); }
  else return stored(stored(x));
}

struct Unknown {};
template <typename T> struct Rf { static void p(std::string & s) { s += "? "; } };
template <long n> struct Rf<vm::ct_constant<n> > { static void p(std::string & s) { s += "c" + std::to_string(n) + " "; } };
template <vm::id_type n> struct Rf<vm::ct_variable<n> > { static void p(std::string & s) { s += "v" + std::to_string(n) + " "; } };
template <typename L, typename R> struct Rf<vm::ct_binary_expr<L, vm::op_plus<D>, R> > { static void p(std::string & s) { s += "+ "; Rf<L>::p(s); Rf<R>::p(s); } };
template <typename L, typename R> struct Rf<vm::ct_binary_expr<L, vm::op_minus<D>, R> > { static void p(std::string & s) { s += "- "; Rf<L>::p(s); Rf<R>::p(s); } };
template <typename L, typename R> struct Rf<vm::ct_binary_expr<L, vm::op_mult<D>, R> > { static void p(std::string & s) { s += "* "; Rf<L>::p(s); Rf<R>::p(s); } };
template <typename L, typename R> struct Rf<vm::ct_binary_expr<L, vm::op_div<D>, R> > { static void p(std::string & s) { s += "/ "; Rf<L>::p(s); Rf<R>::p(s); } };
template <vm::id_type n> struct Rf<vm::ct_function_symbol<vm::unknown_tag<n> > > { static void p(std::string & s) { s += "u" + std::to_string(n) + " "; } };
template <vm::id_type n> struct Rf<vm::ct_function_symbol<vm::test_tag<n> > > { static void p(std::string & s) { s += "t" + std::to_string(n) + " "; } };
template <typename L, typename OP> struct Rf<vm::ct_unary_expr<L, OP> > { static void p(std::string & s) { s += "f" + OP().str() + " "; Rf<L>::p(s); } };
template <typename T, typename I> struct Rf<vm::rt_constant<T, I> > { static void p(std::string & s) { s += "r "; } };

template <typename T> void type_(int i, const char * tag) { std::string s; Rf<T>::p(s); printf("%d %s %s\n", i, tag, s.c_str()); }
template <typename T> void type_of(int i, const char * tag, T const &) { type_<T>(i, tag); }
inline void val(int i, const char * tag, double v) { printf("%d %s %.17g\n", i, tag, v); }
template <typename T> void text(int i, const char * tag, T const & x) { std::ostringstream o; o << x; printf("%d %s %s\n", i, tag, o.str().c_str()); }
template <typename F> void tryval(int i, const char * tag, F f)
{
  try { val(i, tag, f()); }
  catch (std::exception const & e) { printf("%d %s exception\n", i, tag); }
}
#endif
