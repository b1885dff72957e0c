// Harness prelude for string literals.
#ifndef VP_LIT_HPP
#define VP_LIT_HPP
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/string_value.hpp>
#include <cstdio>
#include <type_traits>
namespace vp
{
  template <class S> struct chars { static void go() { std::printf(" 9999"); } };
  template <char... Cs> struct chars<boost::metaparse::string<Cs...>>
  {
    static void go()
    {
      const int a[] = {0, Cs...};
      for (unsigned i = 1; i <= sizeof...(Cs); ++i) std::printf(" %d", a[i]);
    }
  };
  template <class S> void show() { std::printf("M"); chars<S>::go(); std::printf("\n"); }
  template <class S> void show_value(S) { show<S>(); }
  inline void section(int id) { std::printf("S %d\n", id); }
}
#endif
