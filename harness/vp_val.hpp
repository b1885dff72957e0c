// Harness prelude for positions, parsing results and utilities as values.
#ifndef VP_VAL_HPP
#define VP_VAL_HPP

#include "vp.hpp"
#include <boost/metaparse/accept.hpp>
#include <boost/metaparse/next_char.hpp>
#include <boost/metaparse/next_line.hpp>
#include <boost/metaparse/unless_error.hpp>
#include <boost/metaparse/error/index_out_of_range.hpp>
#include <boost/metaparse/error/unpaired.hpp>
#include <boost/metaparse/util/digit_to_int.hpp>
#include <boost/metaparse/util/digit_to_int_c.hpp>
#include <boost/metaparse/util/in_range.hpp>
#include <boost/metaparse/util/in_range_c.hpp>
#include <boost/metaparse/util/int_to_digit.hpp>
#include <boost/metaparse/util/int_to_digit_c.hpp>
#include <boost/metaparse/util/is_whitespace_c.hpp>

#include <boost/mpl/bool.hpp>
#include <boost/mpl/comparison.hpp>
#include <boost/mpl/long.hpp>

namespace vp
{
  inline void section(int id) { std::printf("S %d\n", id); }
  // a nullary metafunction returning T
  template <class T> struct lazy { typedef T type; };

  template <class P> void see_pos()
  {
    std::printf("V ");
    position<P>();
    std::printf("\n");
  }

  template <class R, bool E> struct out0;
  template <class R> struct out0<R, true>
  { static void go() { msg<typename mp::get_message<R>::type>::go(); } };
  template <class R> struct out0<R, false>
  {
    typedef typename mp::get_remaining<R>::type rem;
    typedef ser_it<
      typename boost::mpl::begin<rem>::type,
      typename boost::mpl::end<rem>::type
    > it;
    static void go()
    {
      ser<typename mp::get_result<R>::type>::go();
      put(it::n);
      it::chars();
    }
  };
  template <class R> void see_out()
  {
    typedef mp::is_error<R> e1;
    typedef typename mp::is_error<>::template apply<R> e2;
    std::printf("V ");
    put(
      bool(e1::type::value) == bool(e2::type::value) ?
        int(bool(e1::type::value)) : 99
    );
    out0<R, e1::type::value>::go();
    position<typename mp::get_position<R>::type>();
    std::printf("\n");
  }

  template <class A, class B> void see_cmp()
  {
    namespace mpl = boost::mpl;
    std::printf("V ");
    put(mpl::equal_to<A, B>::type::value);
    put(mpl::not_equal_to<A, B>::type::value);
    put(mpl::less<A, B>::type::value);
    put(mpl::less_equal<A, B>::type::value);
    put(mpl::greater<A, B>::type::value);
    put(mpl::greater_equal<A, B>::type::value);
    std::printf("\n");
  }

  template <class T> struct boxed
  {
    static void go() { put(vt<typename T::value_type>::v); put(T::value); }
  };
  template <> struct boxed<mp::v1::error::digit_expected>
  { static void go() { put(9); put(1); } };
  template <class T> void see_bool()
  { std::printf("V 3 %d\n", T::value ? 1 : 0); }
  template <class T> void see_val()
  {
    std::printf("V ");
    boxed<T>::go();
    std::printf("\n");
  }
}

#endif
