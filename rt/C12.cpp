// C12: vector expressions.
#include "driver.hpp"
#include "substgen.hpp"
#include "diffgen.hpp"
const char * const property_rule =
  "C12: random histories (1..12 steps) of stores of every accepted type, copies, assignments, sums, differences, multiples, quotients, inner products, conversions, comparisons, substitutions, derivatives and (rejected) evaluations on up to four vector expressions, "
  "run alongside a model list of trees and compared after every step; non-trivial = at least one vector with two different entries was read back after a later store or operation";

static N bin_model(int op, N a, N b) { return m_bin(op, a, b); }

void property(Src & s, Case & c)
{
  Gen g(s); g.fs = true; g.nvars = 3; g.grad = s.chance(1, 4);
  struct Slot { std::unique_ptr<X> x; std::vector<N> m; };
  std::vector<Slot> v(4);
  std::string text;
  auto check = [&](const char * what) {
    for (size_t k = 0; k < v.size(); ++k)
      if (v[k].x)
      {
        CHECK(v[k].x->size() == v[k].m.size(), what << ": vector " << k << " has " << v[k].x->size() << " entries instead of " << v[k].m.size() << "; history: " << text);
        for (size_t i = 0; i < v[k].m.size(); ++i)
        { N r = reify((*v[k].x)[i]); CHECK(same(r, v[k].m[i]), what << ": entry " << i << " of vector " << k << " is " << show(r) << " instead of " << show(v[k].m[i]) << "; history: " << text); }
      }
  };
  // equal up to simplification and value: the operators on expressions may simplify
  auto expect_entries = [&](X const & x, std::vector<N> const & m, const char * what) {
    CHECK(x.size() == m.size(), what << ": the result has " << x.size() << " entries instead of " << m.size() << "; history: " << text);
    for (size_t i = 0; i < m.size(); ++i) CHECK(same_norm(reify(x[i]), m[i]), what << ": entry " << i << " is " << show(reify(x[i])) << " instead of " << show(m[i]) << "; history: " << text);
  };
  auto fresh = [&](size_t k) {
    size_t n = 1 + s.below(4); if (s.chance(1, 12)) n = s.chance(1, 6) ? 9 + s.below(60) : s.below(9);
    v[k].x.reset(new X(n)); v[k].m.assign(n, m_const(0));
    text += "v" + std::to_string(k) + " = vector of size " + std::to_string(n) + "; ";
  };
  fresh(0);
  check("construction");
  unsigned steps = 1 + s.below(12);
  for (unsigned st = 0; st < steps; ++st)
  {
    size_t k = s.below(4); if (!v[k].x) { if (s.chance(1, 2)) fresh(k); else k = 0; }
    size_t j = s.below(4); if (!v[j].x) j = 0;
    Slot & a = v[k]; Slot & b = v[j];
    unsigned op = s.below(20);
    if (st < 3 && s.chance(2, 3)) op = 0;
    std::string name = "v" + std::to_string(k), other = "v" + std::to_string(j);
    switch (op)
    {
      case 0: case 1: case 2: case 3: case 4:
      {
        if (a.m.empty()) break;
        size_t i = s.below(unsigned(a.m.size())); N e = g.sized(9);
        unsigned how = s.below(6);
        if (how == 0) { double d = g.constant(); e = m_const(d); (*a.x)[i] = d; }
        else if (how == 1 && !b.m.empty()) { size_t h = s.below(unsigned(b.m.size())); e = b.m[h]; (*a.x)[i] = (*b.x)[h]; }
        else if (how == 2) (*a.x)[i] = build(e);
        else if (how == 3 && e->k == BIN) { B x = build_b(e); (*a.x)[i] = x; }
        else if (how == 4 && e->k == UN) { U x = build_u(e); (*a.x)[i] = x; }
        else if (e->k == VAR) (*a.x)[i] = V(e->id);
        else if (e->k == FS) (*a.x)[i] = F(e->id, e->tag);
        else if (e->k == CONST) (*a.x)[i] = C(e->v);
        else (*a.x)[i] = build(e);
        a.m[i] = e; text += name + "[" + std::to_string(i) + "] = " + show(e) + "; ";
        break;
      }
      case 5: { std::unique_ptr<X> n(new X(*b.x)); std::vector<N> m = b.m; a.x = std::move(n); a.m = m; text += name + " = copy of " + other + "; "; break; }
      case 6: { *a.x = *b.x; a.m = b.m; text += name + " assigned " + other + "; "; break; }
      case 7: case 8:
      {
        if (a.m.size() != b.m.size() || a.m.empty()) break;
        int bo = op == 7 ? ADD : SUB; X r = bo == ADD ? *a.x + *b.x : *a.x - *b.x;
        std::vector<N> m; for (size_t i = 0; i < a.m.size(); ++i) m.push_back(bin_model(bo, a.m[i], b.m[i]));
        text += name + (bo == ADD ? " + " : " - ") + other + "; ";
        expect_entries(r, m, bo == ADD ? "sum of vectors" : "difference of vectors");
        bool ok = true; for (auto & n : m) ok &= count_nodes(n) < 60;
        if (ok && s.chance(1, 2)) { std::vector<N> mm; for (size_t i = 0; i < r.size(); ++i) mm.push_back(reify(r[i])); *a.x = r; a.m = mm; text += "stored in " + name + "; "; }
        break;
      }
      case 9: case 10:
      {
        if (a.m.empty()) break;
        N f = g.sized(5); int bo = s.chance(1, 2) ? MUL : DIV; bool left = s.chance(1, 2);
        X r(0);
        if (f->k == CONST) r = bo == MUL ? (left ? f->v * *a.x : *a.x * f->v) : (left ? f->v / *a.x : *a.x / f->v);
        else if (f->k == VAR) { V w(f->id); r = bo == MUL ? (left ? w * *a.x : *a.x * w) : (left ? w / *a.x : *a.x / w); }
        else { E w = build(f); r = bo == MUL ? (left ? w * *a.x : *a.x * w) : (left ? w / *a.x : *a.x / w); }
        std::vector<N> m; for (auto & n : a.m) m.push_back(left ? bin_model(bo, f, n) : bin_model(bo, n, f));
        text += (left ? show(f) + bop_name[bo] + name : name + bop_name[bo] + show(f)) + "; ";
        expect_entries(r, m, "multiple or quotient of a vector");
        break;
      }
      case 11: case 12:
      {
        if (a.m.size() != b.m.size() || a.m.empty()) break;
        E r = *a.x * *b.x;
        N m = m_bin(MUL, a.m[0], b.m[0]); for (size_t i = 1; i < a.m.size(); ++i) m = m_bin(ADD, m, m_bin(MUL, a.m[i], b.m[i]));
        text += name + " * " + other + "; ";
        agree(m, reify(r), s, 3, 2, "inner product of vectors (" + text + ")");
        // ... and as a product of expressions that hold the vectors
        E ea(*a.x), eb(*b.x); E p(new B(ea.get()->clone(), mk_bop(MUL), eb.get()->clone()));
        E q = vm::simplify(p); N rq = reify(q);
        CHECK(!has_kind(rq, VEC), "the product of two vector expressions does not simplify to an inner product: " << show(rq) << "; history: " << text);
        agree(m, rq, s, 3, 2, "simplified product of vectors (" + text + ")");
        c.label("inner product");
        break;
      }
      case 13:
      {
        E e(*a.x); N r = reify(e);
        CHECK(same(r, m_vec(a.m)), "the expression made from " << name << " is " << show(r) << "; history: " << text);
        CHECK(e.get()->deep_equal(a.x.get()) && a.x->deep_equal(e.get()), "a vector differs from its copy in an expression; history: " << text);
        bool eq = same(m_vec(a.m), m_vec(b.m));
        CHECK(a.x->deep_equal(b.x.get()) == eq && b.x->deep_equal(a.x.get()) == eq, "deep_equal of " << show(m_vec(a.m)) << " and " << show(m_vec(b.m)) << " is " << !eq << "; history: " << text);
        CHECK(!a.x->is_unary() || a.m.size() <= 1 || true, "");
        break;
      }
      case 14:
      {
        if (a.m.empty()) break;
        N w = s.chance(1, 2) ? m_var(s.below(3)) : m_fs(s.below(3), tag_unknown()); N to = g.sized(5);
        std::vector<std::pair<N, N>> rules = { { w, to } };
        E ew = build(w), et = build(to), e(*a.x);
        E r(e.get()->substitute(ew.get(), et.get()));
        std::vector<N> m; for (auto & n : a.m) m.push_back(model_subst(n, rules));
        text += "substitute " + show(w) + " by " + show(to) + " in " + name + "; ";
        X const * x = dynamic_cast<X const *>(r.get());
        CHECK(x != 0, "substitution in a vector does not give a vector; history: " << text);
        expect_entries(*x, m, "substitution in a vector");
        c.label("substitution");
        { // the whole vector as the item
          E eb(*b.x), rr = vm::substitute(eb, et, e); bool eq = same(m_vec(a.m), m_vec(b.m));
          N want = model_subst(m_vec(a.m), { { m_vec(b.m), to } });
          CHECK(eq ? same_norm(reify(rr), to) != 0 : same_norm(reify(rr), want) != 0, "substitution of the vector " << show(m_vec(b.m)) << " by " << show(to) << " in " << show(m_vec(a.m)) << " gave " << show(reify(rr)) << "; history: " << text);
        }
        break;
      }
      case 15:
      {
        if (a.m.empty()) break;
        unsigned long id = s.below(3);
        bool bad = any_node(m_vec(a.m), [](Node const & n) { return n.k == FS || (n.k == UN && (n.op == U_FABS || n.op >= U_GRAD)); });
        if (bad) break;
        V w(id); E e(*a.x); E r(e.get()->diff(&w)); X const * x = dynamic_cast<X const *>(r.get());
        text += "d/dx" + std::to_string(id) + " of " + name + "; ";
        CHECK(x != 0 && x->size() == a.m.size(), "the derivative of a vector is not a vector of the same size; history: " << text);
        for (size_t i = 0; i < a.m.size(); ++i) { Env env; env.dvar = long(id); agree_derivative(a.m[i], reify((*x)[i]), env, s, 3, 1, "entry of the derivative of a vector"); }
        c.label("derivative");
        break;
      }
      case 16:
      {
        E e(*a.x); int threw = 0; std::vector<double> p(4, 0.5);
        try { vm::eval(e, p); } catch (std::exception const &) { ++threw; }
        try { vm::eval(e, 0.5); } catch (std::exception const &) { ++threw; }
        try { a.x->unwrap(); } catch (std::exception const &) { ++threw; }
        CHECK(threw == 3, "a vector was evaluated to a number; history: " << text);
        CHECK(!a.x->is_constant(), "a vector claims to be a constant; history: " << text);
        break;
      }
      case 17: { a.x.reset(static_cast<X *>(b.x->clone())); std::vector<N> m = b.m; a.m = m; text += name + " = clone of " + other + "; "; break; }
      case 18: { size_t z = s.below(4); if (z != 0) { v[z].x.reset(); v[z].m.clear(); text += "destroy v" + std::to_string(z) + "; "; } break; }
      default:
      {
        if (a.m.size() < 2) break;
        size_t i = s.below(unsigned(a.m.size())), h = s.below(unsigned(a.m.size()));
        E t = (*a.x)[i]; (*a.x)[i] = (*a.x)[h]; (*a.x)[h] = t; std::swap(a.m[i], a.m[h]); text += "swap entries " + std::to_string(i) + ", " + std::to_string(h) + " of " + name + "; ";
        break;
      }
    }
    check("after a step");
    for (auto & x : v) if (x.x && x.m.size() > 1 && !same(x.m[0], x.m[1]) && st > 0) c.nt();
  }
  c.desc = text;
}
