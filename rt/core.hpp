// Core of the generated-input harness: choice sequence, model syntax trees, generators,
// construction of real ViennaMath expressions, read-back ("reify"), and the reference evaluator.
#ifndef VM_HARNESS_CORE_HPP
#define VM_HARNESS_CORE_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <iostream>

#include "viennamath/expression.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/expand.hpp"
#include "viennamath/manipulation/coefficient.hpp"
#include "viennamath/manipulation/drop_dependent_terms.hpp"
#include "viennamath/manipulation/integrate.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"

namespace vm = viennamath;
typedef vm::default_interface_type     I;
typedef vm::rt_expr<I>                 E;
typedef vm::rt_variable<I>             V;
typedef vm::rt_constant<double, I>     C;
typedef vm::rt_constant<long, I>       LC;
typedef vm::rt_constant<int, I>        IC;
typedef vm::rt_constant<float, I>      FC;
typedef vm::rt_function_symbol<I>      F;
typedef vm::rt_unary_expr<I>           U;
typedef vm::rt_binary_expr<I>          B;
typedef vm::rt_vector_expr<I>          X;
typedef vm::rt_interval<I>             IV;
typedef vm::rt_symbolic_interval<I>    SIV;
typedef vm::op_interface<I>            OpI;
typedef vm::id_type                    id_t_;

// ---------------------------------------------------------------- choice sequence
struct Src
{
  const uint8_t *p; size_t n, i;
  Src(const uint8_t *p_, size_t n_) : p(p_), n(n_), i(0) {}
  uint8_t u8() { return i < n ? p[i++] : 0; }
  uint32_t u16() { uint32_t a = u8(); return a | (uint32_t(u8()) << 8); }
  uint32_t u32() { uint32_t a = u16(); return a | (u16() << 16); }
  // uniform-ish in [0,k); the zero byte gives 0, the simplest choice
  uint32_t below(uint32_t k) { if (k <= 1) return 0; if (k <= 256) return u8() % k; if (k <= 65536) return u16() % k; return u32() % k; }
  // true with probability num/den; zero byte -> false
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  template <size_t K> unsigned weighted(const unsigned (&w)[K])
  {
    unsigned sum = 0; for (unsigned x : w) sum += x;
    unsigned r = below(sum);
    for (unsigned j = 0; j < K; ++j) { if (r < w[j]) return j; r -= w[j]; }
    return 0;
  }
};

// ---------------------------------------------------------------- failures
struct Fail { std::string msg; explicit Fail(std::string const & m) : msg(m) {} };
struct Discard {};

inline std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

#define CHECK(cond, text) do { if (!(cond)) { std::ostringstream oss__; oss__ << text; throw Fail(oss__.str()); } } while (0)

// ---------------------------------------------------------------- model trees
enum Kind { CONST, LCONST, VAR, FS, UN, BIN, VEC, INTG, SINT };
enum UOp { U_ID, U_EXP, U_SIN, U_COS, U_TAN, U_FABS, U_SQRT, U_LOG, U_LOG10, U_GRAD, U_DIV, U_PD };
enum BOp { ADD, SUB, MUL, DIV };
static const char * const uop_name[] = { "id","exp","sin","cos","tan","fabs","sqrt","log","log10","grad","div","pd" };
static const char * const bop_name[] = { "+","-","*","/" };

struct Node; typedef std::shared_ptr<const Node> N;
struct Node
{
  Kind k; double v; unsigned long id, tag; int op; std::vector<N> c;
  Node() : k(CONST), v(0), id(0), tag(0), op(0) {}
};

inline N mk(Node n) { return std::make_shared<const Node>(std::move(n)); }
inline N m_const(double v) { Node n; n.k = CONST; n.v = v; return mk(n); }
// constants of another type than double: the index tells the type (0 long, 1 int, 2 float)
inline N m_long(long v) { Node n; n.k = LCONST; n.v = double(v); return mk(n); }
inline N m_int(int v) { Node n; n.k = LCONST; n.id = 1; n.v = double(v); return mk(n); }
inline N m_flt(float v) { Node n; n.k = LCONST; n.id = 2; n.v = double(v); return mk(n); }
inline N m_var(unsigned long id) { Node n; n.k = VAR; n.id = id; return mk(n); }
inline N m_fs(unsigned long id, unsigned long tag) { Node n; n.k = FS; n.id = id; n.tag = tag; return mk(n); }
inline N m_un(int op, N a, unsigned long id = 0) { Node n; n.k = UN; n.op = op; n.id = id; n.c.push_back(a); return mk(n); }
inline N m_bin(int op, N a, N b) { Node n; n.k = BIN; n.op = op; n.c.push_back(a); n.c.push_back(b); return mk(n); }
inline N m_vec(std::vector<N> c) { Node n; n.k = VEC; n.c = std::move(c); return mk(n); }
inline N m_intg(N body, N lo, N hi, unsigned long var) { Node n; n.k = INTG; n.id = var; n.c = { body, lo, hi }; return mk(n); }
inline N m_sint(N body, unsigned long id) { Node n; n.k = SINT; n.id = id; n.c = { body }; return mk(n); }
inline bool is_num(N const & n) { return n->k == CONST || n->k == LCONST; }

inline unsigned long tag_unknown() { return vm::unknown_tag<>::tag_id(); }
inline unsigned long tag_test()    { return vm::test_tag<>::tag_id(); }

inline std::string show(N const & n)
{
  if (!n) return "<null>";
  std::ostringstream s;
  switch (n->k)
  {
    case CONST: return num(n->v);
    case LCONST: return num(n->v) + (n->id == 0 ? "L" : n->id == 1 ? "I" : "F");
    case VAR: s << "x" << n->id; break;
    case FS: s << (n->tag == tag_unknown() ? "u" : n->tag == tag_test() ? "v" : "w") << n->id; if (n->tag != tag_unknown() && n->tag != tag_test()) s << "t" << n->tag; break;
    case UN: s << uop_name[n->op]; if (n->op == U_PD) s << n->id; s << "(" << show(n->c[0]) << ")"; break;
    case BIN: s << "(" << show(n->c[0]) << " " << bop_name[n->op] << " " << show(n->c[1]) << ")"; break;
    case VEC: s << "["; for (size_t i = 0; i < n->c.size(); ++i) s << (i ? ", " : "") << show(n->c[i]); s << "]"; break;
    case INTG: s << "int[" << show(n->c[1]) << ";" << show(n->c[2]) << ";x" << n->id << "](" << show(n->c[0]) << ")"; break;
    case SINT: s << "sint" << n->id << "(" << show(n->c[0]) << ")"; break;
  }
  return s.str();
}

inline bool same(N const & a, N const & b)
{
  if (a == b) return true;
  if (a->k != b->k) return false;
  switch (a->k)
  {
    case CONST: case LCONST: return a->id == b->id && (a->v == b->v || (std::isnan(a->v) && std::isnan(b->v)));
    case VAR: case SINT: if (a->id != b->id) return false; break;
    case FS: return a->id == b->id && a->tag == b->tag;
    case UN: if (a->op != b->op || (a->op == U_PD && a->id != b->id)) return false; break;
    case BIN: if (a->op != b->op) return false; break;
    case INTG: if (a->id != b->id) return false; break;
    case VEC: break;
  }
  if (a->c.size() != b->c.size()) return false;
  for (size_t i = 0; i < a->c.size(); ++i) if (!same(a->c[i], b->c[i])) return false;
  return true;
}

inline size_t count_nodes(N const & n) { size_t r = 1; for (auto const & c : n->c) r += count_nodes(c); return r; }
inline size_t depth(N const & n) { size_t r = 0; for (auto const & c : n->c) r = std::max(r, depth(c)); return r + 1; }
inline bool any_node(N const & n, std::function<bool(Node const &)> const & f) { if (f(*n)) return true; for (auto const & c : n->c) if (any_node(c, f)) return true; return false; }
inline void collect(N const & n, std::vector<N> & out) { out.push_back(n); for (auto const & c : n->c) collect(c, out); }
// like collect, but does not enter integral bounds (which the library treats as attributes of the operation)
inline void collect_main(N const & n, std::vector<N> & out)
{ out.push_back(n); size_t m = n->k == INTG ? 1 : n->c.size(); for (size_t i = 0; i < m; ++i) collect_main(n->c[i], out); }
inline bool has_kind(N const & n, Kind k) { return any_node(n, [k](Node const & x) { return x.k == k; }); }
inline bool has_var(N const & n, unsigned long id) { return any_node(n, [id](Node const & x) { return (x.k == VAR || x.k == INTG) && x.id == id; }); }
inline bool has_uop(N const & n, int op) { return any_node(n, [op](Node const & x) { return x.k == UN && x.op == op; }); }

inline uint64_t fnv(std::string const & s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

// substitution on the model: the outermost match wins, the first pattern of the list wins
inline N model_subst(N const & n, std::vector<std::pair<N, N>> const & rules)
{
  for (auto const & r : rules) if (same(n, r.first)) return r.second;
  if (n->c.empty()) return n;
  Node m = *n;
  size_t lim = n->k == INTG ? 1 : n->c.size();
  for (size_t i = 0; i < lim; ++i) m.c[i] = model_subst(n->c[i], rules);
  return mk(m);
}

// variable `from` becomes variable `to` everywhere (also as a variable of integration)
inline N rename_var(N const & n, unsigned long from, unsigned long to)
{
  Node m = *n;
  if ((n->k == VAR || n->k == INTG) && n->id == from) m.id = to;
  for (auto & x : m.c) x = rename_var(x, from, to);
  return mk(m);
}
// fn(ct_variable<id>()) for the indices which are available as compile-time variables here
template <typename FN> inline bool with_ct_var(unsigned long id, FN fn)
{
  switch (id)
  {
    case 0: fn(vm::ct_variable<0>()); return true;
    case 1: fn(vm::ct_variable<1>()); return true;
    case 2: fn(vm::ct_variable<2>()); return true;
    case 3: fn(vm::ct_variable<3>()); return true;
    case 9: fn(vm::ct_variable<9>()); return true;
    case 16: fn(vm::ct_variable<16>()); return true;
    case 300: fn(vm::ct_variable<300>()); return true;
    case 65537: fn(vm::ct_variable<65537>()); return true;
    default: return false;
  }
}

// ---------------------------------------------------------------- generator
#ifdef VM_DICT
#include VM_DICT
#else
static const double vm_dict[] = { 0, 1, 2, -1, 10 };
static const unsigned vm_dict_n = 5;
#endif

inline N map_consts(N const & n, std::function<double(double)> const & f)
{
  if (n->k == CONST) return m_const(f(n->v));
  if (n->c.empty()) return n;
  Node m = *n; for (auto & ch : m.c) ch = map_consts(ch, f); return mk(m);
}
struct Gen
{
  Src & s;
  unsigned nvars = 3;             // variable ids 0..nvars-1 are the common ones
  bool far_vars = false;          // now and then a large id
  bool fs = false, other_tag = false, grad = false, diverg = false, pd = false, intg = false, sint = false, lconst = false, vec = false;
  unsigned uops = 0x1ff;          // bit mask over U_ID .. U_LOG10
  bool text_consts = false;       // constants with at most 6 significant digits
  bool int_consts = false;
  bool div = true;
  bool big = true;                // now and then a tree of several hundred nodes
  unsigned long intg_var = ~0ul;  // fixed integration variable when not ~0
  bool intg_const_bounds = false;
  std::vector<N> pool;            // earlier subtrees, for sharing

  explicit Gen(Src & s_) : s(s_) {}

  double constant()
  {
    static const unsigned w[] = { 16, 6, 6, 6, 4, 2, 1 };
    unsigned k = s.weighted(w);
    if (int_consts) k = k % 2;
    double r;
    switch (k)
    {
      case 0: { static const double t[] = { 1, 2, 0, 3, -1, 4, 5, 7 }; r = t[s.below(8)]; break; }
      case 1: r = double(int(s.below(41)) - 20); break;
      case 2: r = (double(int(s.below(161)) - 80)) / 8.0; break;
      case 3: { r = vm_dict[s.below(vm_dict_n)]; if (int_consts) r = std::floor(r); break; }
      case 4: r = (double(s.u16()) - 32768.0) / 1000.0; break;
      case 6:
      { // other magnitudes, and numbers near those which the sources mention
        double m = 1 + double(s.below(900)) / 100;
        if (s.chance(1, 2)) { static const double f[] = { 0.5, 0.999, 1.001, 2 }; r = vm_dict[s.below(vm_dict_n)] * f[s.below(4)]; }
        else r = m * std::pow(10.0, double(int(s.below(33)) - 20));
        if (s.chance(1, 3)) r = -r;
        break;
      }
      default: { static const double t[] = { 1e6, 1e-3, 1e-6, -250, 1234.5, 1e9, 0.1, -1e-2 }; r = t[s.below(8)]; break; }
    }
    if (text_consts) { char b[64]; snprintf(b, sizeof b, "%.6g", r); r = strtod(b, 0); }
    return r;
  }
  unsigned long var_id()
  {
    if (far_vars && s.chance(1, 10)) { static const unsigned long t[] = { 3, 4, 5, 7, 9, 11, 12, 16 }; return t[s.below(8)]; }
    return s.below(nvars);
  }
  unsigned long tag() { unsigned k = s.below(other_tag ? 5 : 4); return k < 2 ? tag_unknown() : k < 4 ? tag_test() : 77; }
  unsigned long fs_id() { return far_vars ? far_id(3) : s.below(3); }
  unsigned long far_id(unsigned n)
  {
    if (s.chance(1, 16)) { static const unsigned long t[] = { 3, 7, 11, 127, 128, 256, 257, 1000, 65536, 65537, 2147483648ul, 4294967297ul }; return t[s.below(12)]; }
    return s.below(n);
  }
  N other_const() { unsigned t = s.below(4); long v = long(s.below(15)) - 5; return t < 2 ? m_long(v) : t == 2 ? m_int(int(v)) : m_flt(float(s.chance(1, 2) ? double(v) : v + s.below(8) / 8.0)); }
  N leaf()
  {
    unsigned k = s.below(16);
    if (fs && k >= 11) return m_fs(fs_id(), tag());
    if (lconst && k == 10) return other_const();
    if (k < 6) return m_var(var_id());
    return (k & 1) ? m_var(var_id()) : m_const(constant());
  }
  N expr(int budget)
  {
    N r = expr_(budget);
    if (pool.size() < 24) pool.push_back(r);
    return r;
  }
  N sized(unsigned maxb = 40)
  {
    static const unsigned t[] = { 3, 5, 1, 2, 7, 9, 11, 13, 17, 21, 27, 40 };
    unsigned b = t[s.below(12)];
    if (big && maxb >= 20 && s.chance(1, 3000)) return s.chance(1, 2) ? chain(100 + int(s.below(600))) : expr(200 + int(s.below(400)));
    if (maxb >= 20 && s.chance(1, 300)) return chain(20 + int(s.below(100)));
    N r = expr(int(std::min(b, maxb)));
    return b >= 5 && s.chance(1, 16) ? alike(r) : r;
  }
  // somewhere in the tree, an operation on two operands that are equal or nearly so
  N alike(N const & n)
  {
    std::vector<N> subs; collect_main(n, subs);
    N t = subs[s.below(unsigned(subs.size()))], o = t;
    for (unsigned i = 0; i < 4 && t->c.empty(); ++i) o = t = subs[s.below(unsigned(subs.size()))];
    if (count_nodes(t) > 12 || has_kind(t, VEC)) return n;
    bool vary = !text_consts && !int_consts;
    switch (s.below(6))
    {
      case 0: case 1: if (vary) o = map_consts(t, [](double v) { return v == 0 ? 0 : v * (1 + 1.3e-9); }); break;
      case 2: if (vary) o = map_consts(t, [](double v) { return v == 0 ? 0 : std::nextafter(v, 1e300); }); break;
      case 3: if (t->k == BIN) o = m_bin(t->op, t->c[1], t->c[0]); break;
      case 4: if (t->k == BIN) o = m_bin((t->op + 1) % (div ? 4 : 3), t->c[0], t->c[1]); else if (nvars > 1) o = rename_var(t, 0, 1); break;
      default: break;
    }
    static const int bops[] = { ADD, SUB, MUL, DIV };
    return model_subst(n, { { t, m_bin(bops[s.below(div ? 4 : 3)], t, o) } });
  }
  // a deep tree: every level adds one operation to the one below
  N chain(int levels)
  {
    N r = leaf();
    bool mono = s.chance(1, 4); int o0 = int(s.below(div ? 4 : 3));
    for (int i = 0; i < levels; ++i)
    {
      if (!mono && s.chance(1, 6)) { static const int u[] = { U_SIN, U_COS, U_ID, U_FABS, U_EXP }; std::vector<int> ok; for (int o : u) if (uops & (1u << o)) ok.push_back(o); if (!ok.empty()) { r = m_un(ok[s.below(unsigned(ok.size()))], r); continue; } }
      int o = mono ? o0 : int(s.below(div ? 4 : 3)); static const int bops[] = { ADD, SUB, MUL, DIV };
      N l = leaf(); r = s.chance(1, 2) ? m_bin(bops[o], r, l) : m_bin(bops[o], l, r);
    }
    return r;
  }
private:
  N expr_(int budget)
  {
    if (budget <= 1) return leaf();
    if (!pool.empty() && s.chance(1, 12)) { N r = pool[s.below(unsigned(pool.size()))]; if (int(count_nodes(r)) <= budget + 2) return r; }
    unsigned k = s.below(20);
    if (k >= 14)
    {
      // unary or formal operation
      if (k == 19 || k == 18)
      {
        std::vector<int> formal;
        if (grad) formal.push_back(0);
        if (diverg) formal.push_back(1);
        if (pd) formal.push_back(2);
        if (intg) formal.push_back(3);
        if (sint) formal.push_back(4);
        if (!formal.empty())
          switch (formal[s.below(unsigned(formal.size()))])
          {
            case 0: return m_un(U_GRAD, expr(budget - 1));
            case 1: return m_un(U_DIV, expr(budget - 1));
            case 2: { unsigned long id = var_id(); return m_un(U_PD, expr(budget - 1), id); }
            case 3:
            {
              unsigned long id = intg_var != ~0ul ? intg_var : var_id();
              N lo, hi;
              if (intg_const_bounds || s.chance(1, 2)) { lo = m_const(constant()); hi = m_const(constant()); }
              else { lo = expr(std::min(budget / 4, 3)); hi = expr(std::min(budget / 4, 3)); }
              return m_intg(expr(budget - 1), lo, hi, id);
            }
            case 4: { unsigned long id = far_vars ? far_id(4) : s.below(4); return m_sint(expr(budget - 1), id); }
          }
      }
      std::vector<int> ok;
      static const int order[] = { U_SIN, U_EXP, U_COS, U_SQRT, U_LOG, U_TAN, U_LOG10, U_FABS, U_ID };
      for (int o : order) if (uops & (1u << o)) ok.push_back(o);
      if (!ok.empty()) { int o = ok[s.below(unsigned(ok.size()))]; return m_un(o, expr(budget - 1)); }
    }
    static const int bops[] = { ADD, SUB, MUL, DIV };
    int o = bops[s.below(div ? 4 : 3)];
    int rest = budget - 1;
    int l = 1 + int(s.below(unsigned(std::max(1, rest - 1))));
    N a = expr(l), b = expr(std::max(1, rest - l));
    return m_bin(o, a, b);
  }
};

// ---------------------------------------------------------------- construction of real expressions
inline OpI * mk_uop(int op, unsigned long id)
{
  typedef double D;
  switch (op)
  {
    case U_ID: return new vm::op_unary<vm::op_id<D>, I>();
    case U_EXP: return new vm::op_unary<vm::op_exp<D>, I>();
    case U_SIN: return new vm::op_unary<vm::op_sin<D>, I>();
    case U_COS: return new vm::op_unary<vm::op_cos<D>, I>();
    case U_TAN: return new vm::op_unary<vm::op_tan<D>, I>();
    case U_FABS: return new vm::op_unary<vm::op_fabs<D>, I>();
    case U_SQRT: return new vm::op_unary<vm::op_sqrt<D>, I>();
    case U_LOG: return new vm::op_unary<vm::op_log<D>, I>();
    case U_LOG10: return new vm::op_unary<vm::op_log10<D>, I>();
    case U_GRAD: return new vm::op_unary<vm::op_gradient<D>, I>();
    case U_DIV: return new vm::op_unary<vm::op_divergence<D>, I>();
    case U_PD: return new vm::op_unary<vm::op_partial_deriv<D>, I>(id ? vm::op_partial_deriv<D>(id) : vm::op_partial_deriv<D>());
  }
  abort();
}
inline OpI * mk_bop(int op)
{
  typedef double D;
  switch (op)
  {
    case ADD: return new vm::op_binary<vm::op_plus<D>, I>();
    case SUB: return new vm::op_binary<vm::op_minus<D>, I>();
    case MUL: return new vm::op_binary<vm::op_mult<D>, I>();
    case DIV: return new vm::op_binary<vm::op_div<D>, I>();
  }
  abort();
}

inline I * raw(N const & n)
{
  switch (n->k)
  {
    case CONST: return new C(n->v);
    case LCONST: if (n->id == 1) return new IC(int(n->v)); if (n->id == 2) return new FC(float(n->v)); return new LC(long(n->v));
    case VAR: return new V(n->id);
    case FS: return new F(n->id, n->tag);
    case UN: return new U(raw(n->c[0]), mk_uop(n->op, n->id));
    case BIN: { I * l = raw(n->c[0]); I * r = raw(n->c[1]); return new B(l, mk_bop(n->op), r); }
    case VEC: { X * x = new X(n->c.size()); for (size_t i = 0; i < n->c.size(); ++i) (*x)[i] = E(raw(n->c[i])); return x; }
    case INTG:
    {
      IV iv(E(raw(n->c[1])), E(raw(n->c[2])));
      typedef vm::op_rt_integral<I> O;
      return new U(raw(n->c[0]), new vm::op_unary<O, I>(O(iv, V(n->id))));
    }
    case SINT:
    {
      typedef vm::op_rt_symbolic_integral<I> O;
      return new U(raw(n->c[0]), new vm::op_unary<O, I>(O(SIV(n->id))));
    }
  }
  abort();
}
inline E build(N const & n) { return E(raw(n)); }
// calls f with the constant of a tree of kind LCONST
template <typename FN> auto with_lconst(N const & n, FN f) -> decltype(f(std::declval<LC const &>()))
{ if (n->id == 1) { IC x(int(n->v)); return f(x); } if (n->id == 2) { FC x(float(n->v)); return f(x); } LC x(long(n->v)); return f(x); }

// the concrete wrapper objects (rt_unary_expr, rt_binary_expr, ...) of a model tree
inline U build_u(N const & n) { std::unique_ptr<I> p(raw(n)); return U(dynamic_cast<U const &>(*p)); }
inline B build_b(N const & n) { std::unique_ptr<I> p(raw(n)); return B(dynamic_cast<B const &>(*p)); }
inline X build_x(N const & n) { std::unique_ptr<I> p(raw(n)); return X(dynamic_cast<X const &>(*p)); }

// ---------------------------------------------------------------- read-back
template <typename OP> inline bool is_uop(OpI const * o) { return dynamic_cast<vm::op_unary<OP, I> const *>(o) != NULL; }
template <typename OP> inline bool is_bop(OpI const * o) { return dynamic_cast<vm::op_binary<OP, I> const *>(o) != NULL; }

inline N reify(I const * e)
{
  typedef double D;
  if (e == NULL) throw Fail("the library produced an expression with a missing operand (null pointer)");
  if (C const * c = dynamic_cast<C const *>(e)) return m_const(static_cast<double>(*c));
  if (LC const * c = dynamic_cast<LC const *>(e)) return m_long(static_cast<long>(*c));
  if (IC const * c = dynamic_cast<IC const *>(e)) return m_int(static_cast<int>(*c));
  if (FC const * c = dynamic_cast<FC const *>(e)) return m_flt(static_cast<float>(*c));
  if (V const * v = dynamic_cast<V const *>(e)) return m_var(v->id());
  if (F const * f = dynamic_cast<F const *>(e)) return m_fs(f->id(), f->tag_id());
  if (X const * x = dynamic_cast<X const *>(e))
  { std::vector<N> c; for (size_t i = 0; i < x->size(); ++i) c.push_back(reify((*x)[i].get())); return m_vec(c); }
  if (U const * u = dynamic_cast<U const *>(e))
  {
    OpI const * o = u->op();
    if (o == NULL) throw Fail("the library produced a unary expression without operation");
    N a = reify(u->lhs());
    if (is_uop<vm::op_id<D>>(o)) return m_un(U_ID, a);
    if (is_uop<vm::op_exp<D>>(o)) return m_un(U_EXP, a);
    if (is_uop<vm::op_sin<D>>(o)) return m_un(U_SIN, a);
    if (is_uop<vm::op_cos<D>>(o)) return m_un(U_COS, a);
    if (is_uop<vm::op_tan<D>>(o)) return m_un(U_TAN, a);
    if (is_uop<vm::op_fabs<D>>(o)) return m_un(U_FABS, a);
    if (is_uop<vm::op_sqrt<D>>(o)) return m_un(U_SQRT, a);
    if (is_uop<vm::op_log<D>>(o)) return m_un(U_LOG, a);
    if (is_uop<vm::op_log10<D>>(o)) return m_un(U_LOG10, a);
    if (is_uop<vm::op_gradient<D>>(o)) return m_un(U_GRAD, a);
    if (is_uop<vm::op_divergence<D>>(o)) return m_un(U_DIV, a);
    if (auto p = dynamic_cast<vm::op_unary<vm::op_partial_deriv<D>, I> const *>(o)) return m_un(U_PD, a, p->op().id());
    if (auto p = dynamic_cast<vm::op_unary<vm::op_rt_integral<I>, I> const *>(o))
      return m_intg(a, reify(p->op().interval().lower().get()), reify(p->op().interval().upper().get()), p->op().variable().id());
    if (auto p = dynamic_cast<vm::op_unary<vm::op_rt_symbolic_integral<I>, I> const *>(o)) return m_sint(a, p->op().interval().id());
    throw Fail("unknown unary operation " + o->str() + " in the resulting expression");
  }
  if (B const * b = dynamic_cast<B const *>(e))
  {
    OpI const * o = b->op();
    if (o == NULL) throw Fail("the library produced a binary expression without operation");
    N l = reify(b->lhs()), r = reify(b->rhs());
    if (is_bop<vm::op_plus<D>>(o)) return m_bin(ADD, l, r);
    if (is_bop<vm::op_minus<D>>(o)) return m_bin(SUB, l, r);
    if (is_bop<vm::op_mult<D>>(o)) return m_bin(MUL, l, r);
    if (is_bop<vm::op_div<D>>(o)) return m_bin(DIV, l, r);
    throw Fail("unknown binary operation " + o->str() + " in the resulting expression");
  }
  throw Fail("unknown node type " + e->shallow_str() + " in the resulting expression");
}
inline N reify(E const & e) { return reify(e.get()); }

// ---------------------------------------------------------------- reference evaluator
// A number with a running rounding-error bound and a directional derivative (with its own bound).
typedef long double R;
struct Num { R v, e, d, de; int st; };   // st: 0 fine, 1 ill-conditioned/too large (undecidable), 2 domain error
static const R EPS = 2.3e-16L;

inline Num mknum(R v) { Num r; r.v = v; r.e = 0; r.d = 0; r.de = 0; r.st = 0; return r; }

struct Env
{
  std::vector<double> x;                              // values of the variables
  std::map<std::pair<unsigned long, unsigned long>, double> fs;   // values of the function symbols (id, tag)
  long dvar = -1;                                     // differentiate w.r.t. this variable ...
  bool dfs = false; unsigned long dfs_id = 0, dfs_tag = 0;        // ... or w.r.t. this function symbol
  R margin = 1e3L;                                    // distance to singularities demanded, in units of the error bound
  bool fs_partial = false;                            // a function symbol has a (formal) partial derivative w.r.t. the variable
};

inline double fs_default(unsigned long id, unsigned long tag) { return 0.6 + 0.37 * double(id) + (tag == tag_test() ? 0.213 : tag == tag_unknown() ? 0.0 : 0.111); }

inline Num finish(Num r)
{
  if (r.st) return r;
  if (!(std::isfinite((double)r.v)) || !(std::isfinite((double)r.e))) { r.st = 1; return r; }
  if (std::fabs(r.v) > 1e60L || std::fabs(r.d) > 1e60L || !std::isfinite((double)r.d) || !std::isfinite((double)r.de)) { r.st = 1; return r; }
  // bound the range over which first-order error propagation is trusted
  if (r.e > 1e-6L * std::max((R)1, std::fabs(r.v))) r.st = 1;
  return r;
}

// f(a) with f, f', f''
inline Num fun(Num a, R f, R f1, R f2)
{
  Num r; r.st = a.st; r.v = f;
  r.e = std::fabs(f1) * a.e + std::fabs(f2) * a.e * a.e + EPS * std::fabs(f);
  r.d = f1 * a.d;
  r.de = std::fabs(f1) * a.de + std::fabs(f2) * a.e * std::fabs(a.d) + EPS * std::fabs(r.d);
  return finish(r);
}

inline Num eval_bin(int op, Num a, Num b, Env const & env)
{
  Num r; r.st = std::max(a.st, b.st); r.v = r.e = r.d = r.de = 0;
  if (r.st) return r;
  switch (op)
  {
    case ADD: case SUB:
    {
      R s = op == ADD ? 1 : -1;
      r.v = a.v + s * b.v; r.e = a.e + b.e + EPS * std::fabs(r.v);
      r.d = a.d + s * b.d; r.de = a.de + b.de + EPS * std::fabs(r.d);
      return finish(r);
    }
    case MUL:
      r.v = a.v * b.v; r.e = std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e + EPS * std::fabs(r.v);
      r.d = a.d * b.v + a.v * b.d;
      r.de = a.de * std::fabs(b.v) + std::fabs(a.d) * b.e + a.e * std::fabs(b.d) + std::fabs(a.v) * b.de
             + EPS * (std::fabs(a.d * b.v) + std::fabs(a.v * b.d));
      return finish(r);
    default:
    {
      if (b.v == 0 && b.e == 0) { r.st = 2; return r; }
      if (std::fabs(b.v) <= env.margin * b.e || std::fabs(b.v) < 1e-25L) { r.st = 1; return r; }
      R ib = 1 / b.v;
      r.v = a.v * ib; r.e = (a.e + std::fabs(r.v) * b.e) * std::fabs(ib) * 1.01L + EPS * std::fabs(r.v);
      r.d = (a.d - r.v * b.d) * ib;
      r.de = (a.de + std::fabs(r.v) * b.de + r.e * std::fabs(b.d)) * std::fabs(ib) + std::fabs(r.d) * b.e * std::fabs(ib)
             + EPS * (std::fabs(a.d) + std::fabs(r.v * b.d)) * std::fabs(ib);
      return finish(r);
    }
  }
}

inline Num eval_un(int op, unsigned long id, Num a, Env const & env)
{
  if (a.st) return a;
  Num bad = a;
  switch (op)
  {
    case U_ID: return a;
    case U_EXP: { if (a.v > 130 || a.v < -600) { bad.st = 1; return bad; } R f = expl(a.v); return fun(a, f, f, f); }
    case U_SIN: return fun(a, sinl(a.v), cosl(a.v), sinl(a.v));
    case U_COS: return fun(a, cosl(a.v), -sinl(a.v), cosl(a.v));
    case U_TAN:
    {
      R c = cosl(a.v); if (std::fabs(c) < 1e-4L || std::fabs(c) < env.margin * a.e) { bad.st = 1; return bad; }
      R t = tanl(a.v); return fun(a, t, 1 + t * t, 2 * t * (1 + t * t));
    }
    case U_FABS:
    {
      Num r = a; r.v = std::fabs(a.v);
      if (std::fabs(a.v) <= env.margin * a.e) { r.de = std::fabs(a.d) * 1e30L; if (a.d != 0 || a.de != 0) r.st = 1; return r; }
      if (a.v < 0) r.d = -a.d;
      return r;
    }
    case U_SQRT:
    {
      if (a.v + a.e < 0) { bad.st = 2; return bad; }
      if (a.v == 0 && a.e == 0) { Num r = mknum(0); if (env.dvar >= 0 || env.dfs) r.st = 1; return r; }
      if (a.v <= env.margin * a.e || a.v < 1e-25L) { bad.st = 1; return bad; }
      R f = sqrtl(a.v); return fun(a, f, 0.5L / f, 0.25L / (f * a.v));
    }
    case U_LOG: case U_LOG10:
    {
      if (a.v + a.e <= 0) { bad.st = 2; return bad; }
      if (a.v <= env.margin * a.e || a.v < 1e-25L) { bad.st = 1; return bad; }
      R k = op == U_LOG ? 1.0L : 1.0L / logl(10.0L);
      return fun(a, k * logl(a.v), k / a.v, k / (a.v * a.v));
    }
    // formal operators: any fixed linear functional will do
    case U_GRAD: { R k = 1.37L; a.v *= k; a.d *= k; a.e = a.e * k + EPS * std::fabs(a.v); a.de = a.de * k + EPS * std::fabs(a.d); return a; }
    case U_DIV:  { R k = 0.71L; a.v *= k; a.d *= k; a.e = a.e * k + EPS * std::fabs(a.v); a.de = a.de * k + EPS * std::fabs(a.d); return a; }
    case U_PD:   { R k = 1.09L + 0.17L * R(id % 64); a.v *= k; a.d *= k; a.e = a.e * k + EPS * std::fabs(a.v); a.de = a.de * k + EPS * std::fabs(a.d); return a; }
  }
  abort();
}

inline Num evaln(N const & n, Env const & env)
{
  switch (n->k)
  {
    case CONST: { Num r = mknum(n->v); return finish(r); }
    case LCONST: return mknum(n->v);
    case VAR:
    {
      if (n->id >= env.x.size()) { Num r = mknum(0); r.st = 2; return r; }
      Num r = mknum(env.x[n->id]); if (env.dvar == long(n->id)) r.d = 1; return r;
    }
    case FS:
    {
      auto it = env.fs.find(std::make_pair(n->id, n->tag));
      Num r = mknum(it != env.fs.end() ? it->second : fs_default(n->id, n->tag));
      if (env.dfs && n->id == env.dfs_id && n->tag == env.dfs_tag) r.d = 1;
      if (env.fs_partial && env.dvar >= 0) { r.d = r.v * (1.09L + 0.17L * R(env.dvar % 64)); r.de = EPS * std::fabs(r.d); }
      return r;
    }
    case UN: return eval_un(n->op, n->id, evaln(n->c[0], env), env);
    case BIN:
    {
      if (n->op == MUL && n->c[0]->k == VEC && n->c[1]->k == VEC && n->c[0]->c.size() == n->c[1]->c.size())
      {
        Num r = mknum(0);
        for (size_t i = 0; i < n->c[0]->c.size(); ++i)
          r = eval_bin(ADD, r, eval_bin(MUL, evaln(n->c[0]->c[i], env), evaln(n->c[1]->c[i], env), env), env);
        return r;
      }
      return eval_bin(n->op, evaln(n->c[0], env), evaln(n->c[1], env), env);
    }
    case VEC: { Num r = mknum(0); r.st = 2; return r; }
    case INTG:
    {
      // a fixed linear functional of the integrand which depends on both bounds and the variable
      Num lo = evaln(n->c[1], env), hi = evaln(n->c[2], env);
      if (lo.st || hi.st) { Num r = mknum(0); r.st = std::max(lo.st, hi.st); return r; }
      Env inner = env;
      if (inner.x.size() <= n->id) inner.x.resize(n->id + 1, 0.5);
      // values of the bounds enter through a rounding-insensitive squashing
      R m = 0.5L + 0.3L * sinl(lo.v) + 0.15L * cosl(hi.v);
      inner.x[n->id] = double(m);
      Num b = evaln(n->c[0], inner);
      if (b.st) return b;
      R me = 0.3L * lo.e + 0.15L * hi.e + 2.5e-16L;
      Env dinner = inner; dinner.dvar = long(n->id); dinner.dfs = false;
      Num bd = evaln(n->c[0], dinner);
      R k = 1.21L + 0.13L * R(n->id % 64) + 0.31L * m;
      R ke = 0.31L * me + EPS;
      Num r; r.st = std::max(b.st, bd.st);
      r.v = k * b.v; r.e = k * (b.e + std::fabs(bd.d) * me) + std::fabs(b.v) * ke + EPS * std::fabs(r.v);
      r.d = k * b.d; r.de = k * b.de + std::fabs(b.d) * ke + EPS * std::fabs(r.d);
      return finish(r);
    }
    case SINT:
    {
      Num a = evaln(n->c[0], env); if (a.st) return a;
      R k = 0.83L + 0.19L * R(n->id % 64);
      a.v *= k; a.d *= k; a.e = a.e * k + EPS * std::fabs(a.v); a.de = a.de * k + EPS * std::fabs(a.d); return a;
    }
  }
  abort();
}

static const R TOLK = 16;
inline bool close_to(R a, R ea, R b, R eb) { return std::fabs(a - b) <= TOLK * (ea + eb) + 1e-30L; }

inline double coord(Src & s)
{
  static const unsigned w[] = { 4, 3, 1 };
  switch (s.weighted(w))
  {
    case 0: { static const double t[] = { 0.75, 1.25, 0.5, 2, 1, 3.5, -0.5, -1.75, 0.3, 1.9, 0.11, 2.7, -2.3, 5, 0, 0.99 }; return t[s.below(16)]; }
    case 1: return (double(s.u16()) - 20000.0) / 8192.0;
    default: { static const double t[] = { 10, -7.5, 0.001, 100, 12.25, -0.01, 33, 4 }; return t[s.below(8)]; }
  }
}
inline std::vector<double> point(Src & s, size_t n) { std::vector<double> p(n); for (auto & v : p) v = coord(s); return p; }
inline std::string show(std::vector<double> const & p) { std::string r = "("; for (size_t i = 0; i < p.size(); ++i) r += (i ? ", " : "") + num(p[i]); return r + ")"; }

// do two model trees denote the same function? Compared at several points. Returns the number of points
// at which both were decidable; throws Fail on a difference.
inline int agree(N const & ref, N const & got, Src & s, size_t nvars, int tries, std::string const & what)
{
  int decided = 0;
  for (int t = 0; t < tries; ++t)
  {
    Env env; env.x = point(s, nvars); env.margin = 1e6L;
    for (unsigned long id = 0; id < 3; ++id) { env.fs[{id, tag_unknown()}] = 0.4 + coord(s) * 0.13 + 0.21 * id; env.fs[{id, tag_test()}] = 0.9 + coord(s) * 0.07 - 0.11 * id; }
    Num a = evaln(ref, env); if (a.st) continue;
    env.margin = 1e3L;
    Num b = evaln(got, env);
    if (b.st == 1) continue;
    CHECK(b.st == 0, what << ": the result is undefined at " << show(env.x) << " where the expected value is " << num(double(a.v)) << "; expected " << show(ref) << ", got " << show(got));
    CHECK(close_to(a.v, a.e, b.v, b.e), what << ": value " << num(double(b.v)) << " instead of " << num(double(a.v)) << " at " << show(env.x) << "; expected meaning " << show(ref) << ", got " << show(got));
    ++decided;
  }
  return decided;
}

// ---------------------------------------------------------------- one case
struct Case
{
  bool nontrivial = false;
  std::string desc;                       // rendering of the case (for samples, hashes and reports)
  std::vector<const char *> labels;
  void nt() { nontrivial = true; }
  void label(const char * l) { labels.push_back(l); }
};

void property(Src & s, Case & c);           // supplied by the property's translation unit
extern const char * const property_rule;    // how cases are made and what makes one non-trivial

#endif
