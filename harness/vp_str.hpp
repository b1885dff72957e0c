// Harness prelude for string histories.
#ifndef VP_STR_HPP
#define VP_STR_HPP
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/string_tag.hpp>
#include <boost/mpl/advance.hpp>
#include <boost/mpl/at.hpp>
#include <boost/mpl/back.hpp>
#include <boost/mpl/begin_end.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/clear.hpp>
#include <boost/mpl/deref.hpp>
#include <boost/mpl/distance.hpp>
#include <boost/mpl/empty.hpp>
#include <boost/mpl/equal.hpp>
#include <boost/mpl/equal_to.hpp>
#include <boost/mpl/front.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/next.hpp>
#include <boost/mpl/pop_back.hpp>
#include <boost/mpl/pop_front.hpp>
#include <boost/mpl/prior.hpp>
#include <boost/mpl/push_back.hpp>
#include <boost/mpl/push_front.hpp>
#include <boost/mpl/size.hpp>
#include <boost/preprocessor/repetition/enum_params.hpp>
#include <boost/type_traits/is_same.hpp>
#include <cstdio>

namespace vp
{
  namespace mp = boost::metaparse;
  namespace mpl = boost::mpl;
  inline void put(int x) { std::printf("%d ", x); }
  inline void bar() { std::printf("| "); }

  // the arguments of the string type itself
  template <class S> struct targs { static void go() { put(9999); } };
#if BOOST_METAPARSE_STD >= 2011
  template <char... Cs> struct targs<mp::string<Cs...> >
  {
    static void go()
    {
      const int a[] = {0, Cs...};
      for (unsigned i = 1; i <= sizeof...(Cs); ++i) put(a[i]);
    }
  };
#else
  template <BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, int C)>
  struct targs<
    mp::string<BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, C)>
  >
  {
    static void go()
    {
      const int a[] =
        {BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, C)};
      int n = BOOST_METAPARSE_LIMIT_STRING_SIZE;
      while (n > 0 && a[n - 1] == BOOST_NO_CHAR) --n;
      for (int i = 0; i < n; ++i) put(a[i]);
    }
  };
#endif

  template <class I, class E> struct fwd
  {
    static void go()
    {
      put(mpl::deref<I>::type::value);
      fwd<typename mpl::next<I>::type, E>::go();
    }
  };
  template <class E> struct fwd<E, E> { static void go() {} };

  template <class I, class B> struct bwd
  {
    typedef typename mpl::prior<I>::type P;
    static void go() { put(mpl::deref<P>::type::value); bwd<P, B>::go(); }
  };
  template <class B> struct bwd<B, B> { static void go() {} };

  template <class S, int I, int N> struct at
  {
    static void go()
    {
      put(mpl::at_c<S, I>::type::value);
      at<S, I + 1, N>::go();
    }
  };
  template <class S, int N> struct at<S, N, N> { static void go() {} };

  template <class S, bool E> struct ends { static void go() {} };
  template <class S> struct ends<S, false>
  {
    static void go()
    {
      put(mpl::front<S>::type::value);
      put(mpl::back<S>::type::value);
    }
  };

  template <class S0> void observe()
  {
    typedef typename S0::type S;
    typedef typename mpl::begin<S>::type B;
    typedef typename mpl::end<S>::type E;
    std::printf("O ");
    put(mpl::size<S>::type::value);
    bar();
    put(mpl::empty<S>::type::value);
    bar();
    ends<S, mpl::empty<S>::type::value>::go();
    bar();
    fwd<B, E>::go();
    bar();
    bwd<E, B>::go();
    bar();
    at<S, 0, mpl::size<S>::type::value>::go();
    bar();
    typedef mpl::c_str<S> cs;
    for (unsigned i = 0; i < sizeof(cs::value); ++i) put(cs::value[i]);
    bar();
    targs<S>::go();
    bar();
    const int n = mpl::size<S>::type::value;
    // iterators: equality, distance, advance to and fro
    const bool same = mpl::equal_to<B, E>::type::value;
    const bool adv =
      boost::is_same<typename mpl::advance_c<B, n>::type, E>::value
      && boost::is_same<typename mpl::advance_c<E, -n>::type, B>::value
      && mpl::equal_to<B, B>::type::value
      && !mpl::equal_to<B, typename mpl::next<B>::type>::type::value
      && !mpl::equal_to<B, mpl::int_<0> >::type::value
      && !mpl::equal_to<mpl::int_<0>, B>::type::value
      && boost::is_same<typename S::tag, mp::string_tag>::value;
    put(same == (n == 0) && adv ? same : 9);
    put(mpl::distance<B, E>::type::value);
    put(mpl::distance<E, B>::type::value);
    std::printf("\n");
  }

  // operations
  template <int C> struct pb
  { template <class S> struct ap : mpl::push_back<S, mpl::char_<C> > {}; };
  template <int C> struct pf
  { template <class S> struct ap : mpl::push_front<S, mpl::char_<C> > {}; };
  struct xb { template <class S> struct ap : mpl::pop_back<S> {}; };
  struct xf { template <class S> struct ap : mpl::pop_front<S> {}; };
  struct cl { template <class S> struct ap : mpl::clear<S> {}; };
  struct nw { template <class S> struct ap { typedef S type; }; };
  template <class W> struct eq {};

  struct nil {};
  template <class O, class Os> struct L {};

  template <class Os, class S> struct hist;
  template <class S> struct hist<nil, S> { static void go() {} };
  template <class O, class Os, class S> struct hist<L<O, Os>, S>
  {
    typedef typename O::template ap<S>::type T;
    static void go() { observe<T>(); hist<Os, T>::go(); }
  };
  template <class W, class Os, class S> struct hist<L<eq<W>, Os>, S>
  {
    static void go()
    {
      std::printf("Q ");
      put(mpl::equal_to<S, W>::type::value);
      put(mpl::equal_to<W, S>::type::value);
      put(mpl::equal<S, W>::type::value);
      put(mpl::equal_to<S, mpl::int_<0> >::type::value);
      put(mpl::equal_to<mpl::char_<'a'>, S>::type::value);
      std::printf("\n");
      hist<Os, S>::go();
    }
  };
  template <class Os, class S> void history(int id)
  {
    std::printf("S %d\n", id);
    hist<Os, S>::go();
  }
}
#endif
