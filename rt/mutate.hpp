// Single-point mutations of model trees.
#ifndef VM_HARNESS_MUTATE_HPP
#define VM_HARNESS_MUTATE_HPP
#include "core.hpp"
inline N replace_nth(N const & n, size_t & k, N const & r)
{
  if (k == 0) { --k; return r; }
  --k;
  if (n->c.empty()) return n;
  Node m = *n;
  for (auto & ch : m.c) { if (k == size_t(-1)) break; ch = replace_nth(ch, k, r); }
  return mk(m);
}
// an index that differs from 'id', also by multiples of powers of two
inline unsigned long other_id(Src & s, unsigned long id) { static const unsigned long d[] = { 1, 2, 3, 16, 32, 128, 256, 65536, 1ul << 31, 1ul << 32 }; return s.chance(1, 2) ? id + 1 + s.below(3) : id + d[s.below(10)]; }
// changes one node of the tree (including vector entries and integration bounds); the kind of change is named in 'how'
inline N mutate(N const & n, Src & s, Gen & g, const char *& how)
{
  std::vector<N> all; collect(n, all);
  size_t k = s.below(unsigned(all.size()));
  if (s.chance(1, 3))
  { // prefer the rarer kinds of nodes
    std::vector<size_t> rare; for (size_t i = 0; i < all.size(); ++i) if (all[i]->k == VEC || all[i]->k == INTG || all[i]->k == SINT || all[i]->k == LCONST || (all[i]->k == UN && all[i]->op == U_PD)) rare.push_back(i);
    if (!rare.empty()) k = rare[s.below(unsigned(rare.size()))];
  }
  N t = all[k]; Node m = *t;
  switch (t->k)
  {
    case CONST:
      switch (s.below(5))
      {
        case 0: m.v = t->v + 1; how = "constant + 1"; break;
        case 1: m.v = std::nextafter(t->v, 1e300); how = "constant by one ulp"; break;
        case 2: m.v = t->v == 0 ? 1e-12 : t->v * (1 + 1e-10); how = "constant by 1e-10"; break;
        case 3: m.v = -t->v - 0.5; how = "constant sign"; break;
        default: return how = "constant to variable", replace_nth(n, k, m_var(0)); 
      }
      break;
    case LCONST: if (s.chance(1, 4)) { m.v = std::floor(t->v); m.id = t->v == m.v ? (t->id + 1) % 3 : t->id; how = "type of a constant"; break; } m.v += s.chance(1, 2) ? 1 : -2; how = "integer constant"; break;
    case VAR: { if (s.chance(1, 5)) { how = "variable to function symbol"; return replace_nth(n, k, m_fs(t->id, tag_unknown())); } m.id = other_id(s, t->id); how = "variable index"; break; }
    case FS: switch (s.below(3)) { case 0: m.id = other_id(s, t->id); how = "function symbol index"; break; case 1: m.tag = s.chance(1, 4) ? other_id(s, t->tag) : t->tag == tag_unknown() ? tag_test() : tag_unknown(); how = "function symbol kind"; break; default: how = "function symbol to variable"; return replace_nth(n, k, m_var(t->id)); } break;
    case UN:
      if (t->op == U_PD && s.chance(1, 2)) { m.id = other_id(s, t->id); how = "partial derivative index"; break; }
      if (s.chance(1, 6)) { how = "function removed"; return replace_nth(n, k, t->c[0]); }
      m.op = (t->op + 1 + int(s.below(11))) % 12; if (m.op == U_PD) m.id = s.below(3); how = "function"; break;
    case BIN:
      switch (s.below(4))
      {
        case 0: case 1: m.op = (t->op + 1 + int(s.below(3))) % 4; how = "operation"; break;
        case 2: std::swap(m.c[0], m.c[1]); how = "operand order"; break;
        default: how = "operand removed"; return replace_nth(n, k, t->c[s.below(2)]);
      }
      break;
    case VEC:
      switch (s.below(3))
      {
        case 0: m.c.push_back(s.chance(1, 2) ? m_const(0) : m.c[0]); how = "vector longer"; break;
        case 1: if (m.c.size() > 1) { m.c.pop_back(); how = "vector shorter"; break; } m.c.push_back(m_const(1)); how = "vector longer"; break;
        default: std::rotate(m.c.begin(), m.c.begin() + 1, m.c.end()); how = "vector order"; break;
      }
      break;
    case INTG:
      switch (s.below(4))
      {
        case 0: m.id = other_id(s, t->id); how = "integration variable"; break;
        case 1: std::swap(m.c[1], m.c[2]); how = "bounds swapped"; break;
        case 2: how = "integral to symbolic integral"; return replace_nth(n, k, m_sint(t->c[0], 0));
        default: m.c[1 + s.below(2)] = g.leaf(); how = "bound"; break;
      }
      break;
    case SINT:
      switch (s.below(3))
      {
        case 0: m.id = s.chance(1, 2) ? other_id(s, t->id) : t->id + 1 + s.below(300); how = "symbolic interval"; break;
        case 1: how = "symbolic integral to integral"; return replace_nth(n, k, m_intg(t->c[0], m_const(0), m_const(1), 0));
        default: how = "symbolic integral to function"; return replace_nth(n, k, m_un(U_SIN, t->c[0]));
      }
      break;
  }
  return replace_nth(n, k, mk(m));
}
#endif
