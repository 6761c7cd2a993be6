// C15: LaTeX customizations, over histories of customize / copy / assign / add_processor / translate.
#include "driver.hpp"
#include "latexparse.hpp"
const char * const property_rule =
  "C15: random histories over up to 4 translators (construct, copy, assign, self-assign, destroy, customize variables and symbols, add a user-defined processor, translate random trees and equations); "
  "each text is read back and compared with the canonical form under the names of a reference model (one map per translator); non-trivial = a translation after a customization and a copy or assignment";

// a user-defined processor: prints vector expressions, and keeps its own customization state
struct VecProc : public vm::rt_latex_processor_interface<I>
{
  typedef vm::rt_latex_processor_interface<I> Base;
  Base * clone() const { return new VecProc(*this); }
  std::string process(I const * e, bool, vm::rt_latex_translator<I> const & t) const
  {
    X const * x = dynamic_cast<X const *>(e);
    if (x == NULL) return "";
    std::string r = " \\vec[";
    for (size_t i = 0; i < x->size(); ++i) r += (i ? "; " : "") + t((*x)[i]);
    return r + "] ";
  }
};

struct Slot { std::unique_ptr<vm::latex_translator> t; Names nm; bool vec; Slot() : vec(false) {} };

static unsigned long far(Src & s) { static const unsigned long t[] = { 11, 16, 127, 256, 257, 258, 65536, 65537, 4294967296ul, 4294967297ul }; return t[s.below(10)]; }

void property(Src & s, Case & c)
{
  static const char * const texts[] = { "x", "y", "\\alpha", "\\beta_{1}", "x_{0}", "x_{1}", "u_{0}", "v_{0}", "\\phi_{2}", "a", "\\xi", "b_{12}" };
  std::vector<Slot> sl(1 + s.below(4));
  for (auto & x : sl) x.t.reset(new vm::latex_translator());
  unsigned steps = 3 + s.below(16);
  bool custom = false, copied = false;
  std::ostringstream log;
  std::ostringstream sink; std::streambuf * old = std::cerr.rdbuf(sink.rdbuf());
  struct Restore { std::streambuf * o; ~Restore() { std::cerr.rdbuf(o); } } restore = { old };
  for (unsigned k = 0; k < steps || k == steps; ++k)
  {
    size_t a = s.below(unsigned(sl.size()));
    static const unsigned w[] = { 6, 6, 2, 2, 1, 1, 1 };
    unsigned op = k == steps ? 0 : s.weighted(w);
    switch (op)
    {
      case 0:
      {
        Gen g(s); g.fs = true; g.nvars = 3; g.far_vars = s.chance(1, 3); g.other_tag = s.chance(1, 3);
        unsigned m = s.below(4); g.pd = g.grad = (m & 1); g.intg = g.sint = (m & 2);
        bool pl = s.chance(1, 2);
        N e = pl ? g.expr(5) : g.sized(17);
        if (sl[a].vec && s.chance(1, 2)) { std::vector<N> v; unsigned d = 1 + s.below(3); for (unsigned i = 0; i < d; ++i) v.push_back(g.expr(3)); e = s.chance(1, 2) ? m_vec(v) : m_bin(int(s.below(4)), m_vec(v), e); }
        log << " t" << a << ":" << show(e) << ";";
        c.desc = log.str();
        vm::latex_translator const & tr = *sl[a].t;
        E ex = build(e);
        std::string text;
        bool eq = false;
        if (e->k == VAR && s.chance(1, 2)) text = tr(V(e->id));
        else if (e->k == FS && s.chance(1, 2)) text = tr(F(e->id, e->tag));
        else if (e->k == BIN && s.chance(1, 3)) text = tr(build_b(e));
        else if (s.chance(1, 8)) { vm::rt_equation<I> q(ex, ex); text = tr(q); eq = true; }
        else text = tr(ex);
        std::string want = lshow(canon(e, sl[a].nm));
        if (eq)
        {
          std::pair<L, L> p = read_latex_equation(text);
          CHECK(lshow(p.first) == want && lshow(p.second) == want, "after" << log.str() << " the translation of an equation is '" << text << "', read as " << lshow(p.first) << " = " << lshow(p.second) << " instead of " << want << " on both sides");
        }
        else
        {
          std::string got = lshow(read_latex(text));
          CHECK(got == want, "after" << log.str() << " the translation is '" << text << "', read as " << got << " instead of " << want);
        }
        if (custom && copied) c.nt();
        break;
      }
      case 1:
      {
        std::string t = texts[s.below(12)];
        std::string padded = s.chance(1, 2) ? " " + t + " " : t;
        custom = true;
        if (s.chance(1, 24))
        { // many items at once
          unsigned n = 5 + s.below(60); unsigned long from = s.chance(1, 4) ? 250 : 0; log << " c" << a << " " << n << " items from " << from << ";";
          for (unsigned i = 0; i < n; ++i) { std::string y = "q_{" + std::to_string(i) + "}"; if (i % 3) { sl[a].t->customize(V(from + i), y); sl[a].nm.var[from + i] = y; } else { unsigned long tag = i % 2 ? tag_test() : tag_unknown(); sl[a].t->customize(F(from + i, tag), y); sl[a].nm.fs[{ from + i, tag }] = y; } }
        }
        else if (s.chance(1, 2)) { unsigned long id = s.chance(1, 8) ? far(s) : s.below(4); log << " c" << a << " x" << id << "=" << t << ";"; sl[a].t->customize(V(id), padded); sl[a].nm.var[id] = t; }
        else { unsigned long id = s.chance(1, 8) ? far(s) : s.below(3), tag = s.chance(1, 8) ? 77 : s.chance(1, 2) ? tag_test() : tag_unknown(); log << " c" << a << " " << show(m_fs(id, tag)) << "=" << t << ";"; sl[a].t->customize(F(id, tag), padded); sl[a].nm.fs[{ id, tag }] = t; }
        break;
      }
      case 2:   // assignment
      {
        size_t b = s.below(unsigned(sl.size()));
        log << " " << a << "<-" << b << ";"; copied = true;
        *sl[a].t = *sl[b].t; sl[a].nm = Names(sl[b].nm); sl[a].vec = sl[b].vec;
        break;
      }
      case 3:   // copy construction
      {
        size_t b = s.below(unsigned(sl.size()));
        log << " " << a << "=copy " << b << ";"; copied = true;
        std::unique_ptr<vm::latex_translator> n(new vm::latex_translator(*sl[b].t));
        Names nm = sl[b].nm; bool v = sl[b].vec;
        sl[a].t = std::move(n); sl[a].nm = nm; sl[a].vec = v;
        break;
      }
      case 4: log << " " << a << "=new;"; sl[a].t.reset(new vm::latex_translator()); sl[a].nm = Names(); sl[a].vec = false; break;
      case 5: log << " vec" << a << ";"; sl[a].t->add_processor(new VecProc()); sl[a].vec = true; break;
      default: // items that cannot be customized: a warning, no effect
        log << " nocustom" << a << ";";
        if (s.chance(1, 2)) sl[a].t->customize(C(s.below(3)), "q");
        else sl[a].t->customize(build_b(m_bin(ADD, m_var(0), m_var(1))), "q");
        break;
    }
  }
  c.desc = log.str();
}
