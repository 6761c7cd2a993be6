// Similar trees. An operation is sometimes applied to a tree that resembles the one of the case before it is applied to the
// tree itself, so that results which the library keeps from an earlier call show up.
#ifndef VM_HARNESS_TWIN_HPP
#define VM_HARNESS_TWIN_HPP
#include "mutate.hpp"
inline N twin(N const & n, Src & s, Gen & g, Case & c, bool same_shape = false)
{
  c.label("after a similar tree");
  const char * how = "";
  switch (same_shape || has_kind(n, VEC) ? 1 + s.below(3) : s.below(4))
  {
    case 0: return mutate(n, s, g, how);
    case 1: return map_consts(n, [&](double v) { return v == 0 ? 0 : std::nextafter(v, 1e300); });
    default: return map_consts(n, [&](double v) { return v == 0 ? 0 : v * (1 + 1.3e-9); });     // the same text
  }
}
// an outcome of no interest
template <typename Fn> void quietly(Fn const & f) { try { f(); } catch (Fail const &) { throw; } catch (Discard const &) { throw; } catch (...) { } }
#endif
