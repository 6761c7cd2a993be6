// Reader for the LaTeX notation and canonical form of model trees under the usual rules of notation:
// sums and products are flattened (keeping signs and order), fractions, functions and operators are nodes.
#ifndef VM_LATEXPARSE_HPP
#define VM_LATEXPARSE_HPP
#include "core.hpp"

struct LNode; typedef std::shared_ptr<LNode> L;
struct LNode { std::string head; std::vector<std::pair<int, L>> c; };   // head: "sum", "prod", "frac", "sin", ..., or the text of an atom
inline L lmk(std::string h, std::vector<L> c = {}) { auto r = std::make_shared<LNode>(); r->head = std::move(h); for (auto & x : c) r->c.push_back({ 1, x }); return r; }
inline L lsum(std::vector<std::pair<int, L>> const & t)
{
  std::vector<std::pair<int, L>> out;
  for (auto const & p : t)
    if (p.second->head == "sum") for (auto const & q : p.second->c) out.push_back({ p.first * q.first, q.second });
    else out.push_back(p);
  if (out.size() == 1 && out[0].first == 1) return out[0].second;
  L r = lmk("sum"); r->c = out; return r;
}
inline L lprod(std::vector<L> const & t)
{
  std::vector<L> out;
  for (auto const & p : t)
    if (p->head == "prod") for (auto const & q : p->c) out.push_back(q.second);
    else out.push_back(p);
  if (out.size() == 1) return out[0];
  return lmk("prod", out);
}
inline std::string lshow(L const & l)
{
  if (l->c.empty()) return l->head;
  std::string r = l->head + "<";
  for (size_t i = 0; i < l->c.size(); ++i) { if (i) r += ","; if (l->head == "sum") r += l->c[i].first > 0 ? "+" : "-"; r += lshow(l->c[i].second); }
  return r + ">";
}
inline std::string lnum(double v) { char b[64]; snprintf(b, sizeof b, "%g", v); return std::string("#") + b; }

struct Names
{
  std::map<unsigned long, std::string> var;
  std::map<std::pair<unsigned long, unsigned long>, std::string> fs;
  std::string v(unsigned long id) const { auto i = var.find(id); return i != var.end() ? i->second : "x_{" + std::to_string(id) + "}"; }
  std::string f(unsigned long id, unsigned long tag) const
  { auto i = fs.find({ id, tag }); return i != fs.end() ? i->second : (tag == tag_test() ? "v_{" : "u_{") + std::to_string(id) + "}"; }
};

inline L canon(N const & n, Names const & nm)
{
  switch (n->k)
  {
    case CONST: case LCONST: return lmk(lnum(n->v));
    case VAR: return lmk(nm.v(n->id));
    case FS: return lmk(nm.f(n->id, n->tag));
    case UN:
      if (n->op == U_ID) return canon(n->c[0], nm);
      if (n->op == U_PD) return lmk("pd", { canon(n->c[0], nm), lmk(nm.v(n->id)) });
      return lmk(uop_name[n->op], { canon(n->c[0], nm) });
    case BIN:
    {
      L a = canon(n->c[0], nm), b = canon(n->c[1], nm);
      if (n->op == ADD) return lsum({ { 1, a }, { 1, b } });
      if (n->op == SUB) return lsum({ { 1, a }, { -1, b } });
      if (n->op == MUL) return lprod({ a, b });
      return lmk("frac", { a, b });
    }
    case VEC: { std::vector<L> c; for (auto const & x : n->c) c.push_back(canon(x, nm)); return lmk("vec", c); }
    case INTG: return lmk("int", { canon(n->c[0], nm), canon(n->c[1], nm), canon(n->c[2], nm), lmk(nm.v(n->id)) });
    case SINT: return lmk("sint" + std::to_string(n->id), { canon(n->c[0], nm) });
  }
  abort();
}

struct LatexReader
{
  std::string t; size_t i;
  explicit LatexReader(std::string const & s) : t(s), i(0) {}
  [[noreturn]] void bad(std::string const & m) { throw Fail("the LaTeX text cannot be read (" + m + " at position " + std::to_string(i) + "): " + t); }
  void ws() { for (;;) { while (i < t.size() && isspace((unsigned char)t[i])) ++i; if (t.compare(i, 2, "\\:") == 0 || t.compare(i, 2, "\\,") == 0) i += 2; else return; } }
  bool at(const char * w)
  {
    ws(); size_t n = strlen(w);
    if (t.compare(i, n, w)) return false;
    if (w[0] == '\\' && isalpha((unsigned char)w[n - 1]) && i + n < t.size() && isalpha((unsigned char)t[i + n])) return false;
    return true;
  }
  bool take(const char * w) { if (!at(w)) return false; i += strlen(w); return true; }
  void need(const char * w) { if (!take(w)) bad(std::string("expected ") + w); }
  std::string sub()
  {
    std::string r;
    if (!take("_")) return r;
    if (take("{")) { ws(); r = "_{"; while (i < t.size() && isalnum((unsigned char)t[i])) r += t[i++]; if (r.size() == 2) bad("empty index"); need("}"); return r + "}"; }
    ws(); if (i >= t.size() || !isalnum((unsigned char)t[i])) bad("index"); r = std::string("_") + t[i++]; return r;
  }
  std::string symbol()
  {
    ws(); std::string r;
    if (i < t.size() && t[i] == '\\') { r = "\\"; ++i; while (i < t.size() && isalpha((unsigned char)t[i])) r += t[i++]; if (r.size() == 1) bad("command"); }
    else if (i < t.size() && isalpha((unsigned char)t[i])) r = t[i++];
    else bad("expected an operand");
    return r + sub();
  }
  L fun(const char * name) { L a = atom(); return lmk(name, { a }); }
  L group(const char * close) { L a = sum(); need(close); return a; }
  L atom()
  {
    ws();
    if (i >= t.size()) bad("unexpected end");
    size_t j = i; if (t[j] == '-' || t[j] == '+') { ++j; }
    if (j < t.size() && (isdigit((unsigned char)t[j]) || t[j] == '.'))
    { char * e; double v = strtod(t.c_str() + i, &e); i = size_t(e - t.c_str()); return lmk(lnum(v)); }
    if (take("\\left(")) return group("\\right)");
    if (take("(")) return group(")");
    if (take("\\left|")) { L a = sum(); need("\\right|"); return lmk("fabs", { a }); }
    if (take("\\frac"))
    {
      need("{");
      if (take("\\partial")) { L a = atom(); need("}"); need("{"); need("\\partial"); L v = lmk(symbol()); need("}"); return lmk("pd", { a, v }); }
      L a = group("}"); need("{"); L b = group("}"); return lmk("frac", { a, b });
    }
    if (take("\\sqrt")) { need("{"); L a = group("}"); return lmk("sqrt", { a }); }
    if (take("\\exp")) return fun("exp");
    if (take("\\sin")) return fun("sin");
    if (take("\\cos")) return fun("cos");
    if (take("\\tan")) return fun("tan");
    if (take("\\ln")) return fun("log");
    if (take("\\log")) return fun("log10");
    if (take("\\nabla")) { if (take("\\cdot")) return fun("div"); return fun("grad"); }
    if (take("\\vec")) { need("["); std::vector<L> c; if (!take("]")) { c.push_back(sum()); while (take(";")) c.push_back(sum()); need("]"); } return lmk("vec", c); }
    if (take("\\int_"))
    {
      need("{");
      if (take("\\Omega"))
      {
        need("_"); need("{"); ws(); std::string d; while (i < t.size() && isdigit((unsigned char)t[i])) d += t[i++]; if (d.empty()) bad("index of the domain"); need("}"); need("}");
        L b = sum(); need("\\mathrm{d}"); need("\\Omega"); return lmk("sint" + d, { b });
      }
      need("["); L lo = sum(); need(";"); L hi = sum(); need("]"); need("}");
      L b = sum(); need("\\mathrm{d}"); L v = lmk(symbol());
      return lmk("int", { b, lo, hi, v });
    }
    return lmk(symbol());
  }
  L term() { std::vector<L> f; f.push_back(atom()); while (take("\\cdot")) f.push_back(atom()); return lprod(f); }
  L sum()
  {
    std::vector<std::pair<int, L>> s; s.push_back({ 1, term() });
    for (;;) { if (take("+")) s.push_back({ 1, term() }); else if (take("-")) s.push_back({ -1, term() }); else break; }
    return lsum(s);
  }
  void end() { ws(); if (i != t.size()) bad("unexpected text"); }
};
inline L read_latex(std::string const & s) { LatexReader r(s); L l = r.sum(); r.end(); return l; }
inline std::pair<L, L> read_latex_equation(std::string const & s) { LatexReader r(s); L a = r.sum(); r.need("="); L b = r.sum(); r.end(); return { a, b }; }
inline std::pair<L, L> read_latex_interval(std::string const & s) { LatexReader r(s); r.need("["); L a = r.sum(); r.need(";"); L b = r.sum(); r.need("]"); r.end(); return { a, b }; }

// braces and left/right pairs must match, in order
inline void check_balanced(std::string const & t)
{
  std::string st;
  for (size_t i = 0; i < t.size(); ++i)
  {
    if (t.compare(i, 5, "\\left") == 0 && i + 5 < t.size() && !isalpha((unsigned char)t[i + 5])) { st += 'L'; i += 5; continue; }
    if (t.compare(i, 6, "\\right") == 0 && i + 6 < t.size() && !isalpha((unsigned char)t[i + 6])) { CHECK(!st.empty() && st.back() == 'L', "unmatched \\right in " << t); st.pop_back(); i += 6; continue; }
    char c = t[i];
    if (c == '{' || c == '(' || c == '[') st += c;
    if (c == '}' || c == ')' || c == ']')
    { char o = c == '}' ? '{' : c == ')' ? '(' : '['; CHECK(!st.empty() && st.back() == o, "unbalanced " << c << " in the LaTeX text " << t); st.pop_back(); }
  }
  CHECK(st.empty(), "unclosed bracket in the LaTeX text " << t);
}
#endif
