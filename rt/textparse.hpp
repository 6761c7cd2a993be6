// Reader for the text form of runtime expressions (deep_str and stream output).
#ifndef VM_TEXTPARSE_HPP
#define VM_TEXTPARSE_HPP
#include "core.hpp"
struct TextReader
{
  std::string t; size_t i;
  explicit TextReader(std::string const & s) : t(s), i(0) {}
  [[noreturn]] void bad(std::string const & m) { throw Fail("the text form cannot be read (" + m + " at position " + std::to_string(i) + "): " + t); }
  void ws() { while (i < t.size() && t[i] == ' ') ++i; }
  bool take(const char * w) { ws(); size_t n = strlen(w); if (t.compare(i, n, w)) return false; i += n; return true; }
  void need(const char * w) { if (!take(w)) bad(std::string("expected ") + w); }
  double number() { ws(); char * e; double v = strtod(t.c_str() + i, &e); if (e == t.c_str() + i) bad("number"); i = size_t(e - t.c_str()); return v; }
  unsigned long index() { ws(); if (i >= t.size() || !isdigit((unsigned char)t[i])) bad("index"); char * e; unsigned long v = strtoul(t.c_str() + i, &e, 10); i = size_t(e - t.c_str()); return v; }
  int op() { if (take("+")) return ADD; if (take("-")) return SUB; if (take("*")) return MUL; if (take("/")) return DIV; return -1; }
  N paren() { N a = item(); int o = op(); if (o >= 0) { N b = item(); a = m_bin(o, a, b); } need(")"); return a; }
  N wrapped() { if (take("expr(")) return paren(); if (take("unary")) return item(); return item(); }
  N item()
  {
    ws();
    if (take("(")) return paren();
    if (take("constant(")) { double v = number(); need(")"); return m_const(v); }
    if (take("variable(")) { unsigned long k = index(); need(")"); return m_var(k); }
    if (take("function_symbol<"))
    {
      unsigned long tag = 0; if (take("unknown(")) tag = tag_unknown(); else if (take("test(")) tag = tag_test(); else bad("kind of the symbol");
      unsigned long k = index(); need(")"); need(">"); return m_fs(k, tag);
    }
    if (take("rt_integral["))
    {
      need("interval("); N lo = wrapped(); need(","); N hi = wrapped(); need(")"); need(","); need("variable("); unsigned long v = index(); need(")"); need("]");
      need("("); N b = paren(); return m_intg(b, lo, hi, v);
    }
    if (take("symbolic_integral[")) { need("symbolic_interval["); unsigned long k = index(); need("]"); need("]"); need("("); return m_sint(paren(), k); }
    if (take("["))
    {
      unsigned long n = index(); need("]"); need("("); std::vector<N> c;
      while (!take(")")) { if (!c.empty()) need(","); c.push_back(wrapped()); }
      if (c.size() != n) bad("size of the vector");
      return m_vec(c);
    }
    if (take("partial_deriv<")) { unsigned long k = index(); need(">"); need("("); return m_un(U_PD, paren(), k); }
    static const int order[] = { U_LOG10, U_LOG, U_ID, U_EXP, U_SIN, U_COS, U_TAN, U_FABS, U_SQRT, U_GRAD, U_DIV };
    for (int o : order) { std::string w = std::string(uop_name[o]) + "("; if (take(w.c_str())) return m_un(o, paren()); }
    bad("unknown item");
  }
  N whole() { N r = wrapped(); ws(); if (i != t.size()) bad("unexpected text"); return r; }
};
inline N read_text(std::string const & s) { return TextReader(s).whole(); }
inline std::pair<N, N> read_text_pair(std::string const & s, const char * head, const char * sep)
{ TextReader r(s); r.need(head); N a = r.wrapped(); r.need(sep); N b = r.wrapped(); r.need(")"); r.ws(); if (r.i != r.t.size()) r.bad("unexpected text"); return { a, b }; }
// integer and floating-point constants print alike
inline N floating(N const & n) { if (n->k == LCONST) return m_const(n->v); if (n->c.empty()) return n; Node m = *n; for (auto & x : m.c) x = floating(x); return mk(m); }
#endif
