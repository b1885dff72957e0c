// Harness prelude for grammar<>.
#ifndef VP_GRAM_HPP
#define VP_GRAM_HPP

#include "vp.hpp"
#include <boost/metaparse/grammar.hpp>
#include <boost/mpl/placeholders.hpp>

namespace vp
{
  // semantic action as a placeholder expression
  template <class K, class A> struct tfx { typedef app<K::value, A> type; };

  template <class G> void built(int id) { std::printf("S %d\nB\n", id); }
  template <class G, class S, class Pos> void use()
  { run<by_apply, L<G, nil>, S, Pos>::go(); }
  inline void section(int id) { std::printf("S %d\n", id); }
}

#endif
