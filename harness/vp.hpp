// Harness prelude: applies parsers and renders their outcome at run time.
// Results, messages and remaining inputs are rendered structurally as flat
// integer sequences (the encoding of spec/Metaparse.tla).
#ifndef VP_HPP
#define VP_HPP

#include <boost/metaparse/accept_when.hpp>
#include <boost/metaparse/alphanum.hpp>
#include <boost/metaparse/always.hpp>
#include <boost/metaparse/always_c.hpp>
#include <boost/metaparse/change_error_message.hpp>
#include <boost/metaparse/accept.hpp>
#include <boost/metaparse/define_error.hpp>
#include <boost/metaparse/digit.hpp>
#include <boost/metaparse/digit_val.hpp>
#include <boost/metaparse/empty.hpp>
#include <boost/metaparse/entire_input.hpp>
#include <boost/metaparse/except.hpp>
#include <boost/metaparse/fail.hpp>
#include <boost/metaparse/fail_at_first_char_expected.hpp>
#include <boost/metaparse/first_of.hpp>
#include <boost/metaparse/foldl.hpp>
#include <boost/metaparse/foldl1.hpp>
#include <boost/metaparse/foldl_reject_incomplete.hpp>
#include <boost/metaparse/foldl_reject_incomplete1.hpp>
#include <boost/metaparse/foldl_reject_incomplete_start_with_parser.hpp>
#include <boost/metaparse/foldl_start_with_parser.hpp>
#include <boost/metaparse/foldr.hpp>
#include <boost/metaparse/foldr1.hpp>
#include <boost/metaparse/foldr_reject_incomplete.hpp>
#include <boost/metaparse/foldr_reject_incomplete1.hpp>
#include <boost/metaparse/foldr_start_with_parser.hpp>
#include <boost/metaparse/get_col.hpp>
#include <boost/metaparse/get_line.hpp>
#include <boost/metaparse/get_message.hpp>
#include <boost/metaparse/get_position.hpp>
#include <boost/metaparse/get_prev_char.hpp>
#include <boost/metaparse/get_remaining.hpp>
#include <boost/metaparse/get_result.hpp>
#include <boost/metaparse/if_.hpp>
#include <boost/metaparse/int_.hpp>
#include <boost/metaparse/is_error.hpp>
#include <boost/metaparse/iterate.hpp>
#include <boost/metaparse/iterate_c.hpp>
#include <boost/metaparse/keyword.hpp>
#include <boost/metaparse/last_of.hpp>
#include <boost/metaparse/letter.hpp>
#include <boost/metaparse/lit.hpp>
#include <boost/metaparse/lit_c.hpp>
#include <boost/metaparse/look_ahead.hpp>
#include <boost/metaparse/middle_of.hpp>
#include <boost/metaparse/nth_of.hpp>
#include <boost/metaparse/nth_of_c.hpp>
#include <boost/metaparse/one_char.hpp>
#include <boost/metaparse/one_char_except.hpp>
#include <boost/metaparse/one_char_except_c.hpp>
#include <boost/metaparse/one_of.hpp>
#include <boost/metaparse/one_of_c.hpp>
#include <boost/metaparse/optional.hpp>
#include <boost/metaparse/range.hpp>
#include <boost/metaparse/range_c.hpp>
#include <boost/metaparse/reject.hpp>
#include <boost/metaparse/repeated.hpp>
#include <boost/metaparse/repeated1.hpp>
#include <boost/metaparse/repeated_one_of.hpp>
#include <boost/metaparse/repeated_one_of1.hpp>
#include <boost/metaparse/repeated_reject_incomplete.hpp>
#include <boost/metaparse/repeated_reject_incomplete1.hpp>
#include <boost/metaparse/return_.hpp>
#include <boost/metaparse/sequence.hpp>
#include <boost/metaparse/sequence_apply.hpp>
#include <boost/metaparse/source_position.hpp>
#include <boost/metaparse/space.hpp>
#include <boost/metaparse/spaces.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/token.hpp>
#include <boost/metaparse/transform.hpp>
#include <boost/metaparse/transform_error.hpp>
#include <boost/metaparse/transform_error_message.hpp>

#include <boost/metaparse/util/is_digit.hpp>
#include <boost/metaparse/util/is_lcase_letter.hpp>
#include <boost/metaparse/util/is_letter.hpp>
#include <boost/metaparse/util/is_ucase_letter.hpp>
#include <boost/metaparse/util/is_whitespace.hpp>

#include <boost/mpl/apply_wrap.hpp>
#include <boost/mpl/begin_end.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/deque.hpp>
#include <boost/mpl/deref.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/is_sequence.hpp>
#include <boost/mpl/integral_c.hpp>
#include <boost/mpl/list_c.hpp>
#include <boost/mpl/next.hpp>
#include <boost/mpl/pop_front.hpp>
#include <boost/mpl/push_back.hpp>
#include <boost/mpl/string.hpp>
#include <boost/mpl/vector_c.hpp>
#include <boost/mpl/void.hpp>

#include <boost/preprocessor/cat.hpp>
#include <boost/preprocessor/repetition/enum_params.hpp>
#include <boost/preprocessor/repetition/repeat.hpp>
#include <boost/preprocessor/repetition/repeat_from_to.hpp>

#include <cstdio>
#include <string>

namespace vp
{
  namespace mp = boost::metaparse;

  // ---- symbolic values and free functions -------------------------------
  template <int N> struct sym { typedef sym type; };
  template <class A, class B> struct node { typedef node type; };
  template <int N, class A> struct app { typedef app type; };
  inline std::string decimal(int n)
  {
    char b[20];
    std::sprintf(b, "%d", n);
    return b;
  }
  template <int N> BOOST_METAPARSE_DEFINE_ERROR(uerr, "user " + decimal(N));
  template <int N, class M> struct wrap
  {
    typedef wrap type;
    static std::string get_value()
    { return "wrap" + decimal(N) + "(" + M::get_value() + ")"; }
  };

  struct mk
  {
    typedef mk type;
    template <class A, class B> struct apply { typedef node<A, B> type; };
    template <class A> struct apply<A, mp::reject<uerr<1>, mp::start> >
    { typedef mp::reject<uerr<1>, mp::start> type; };
  };
  template <int N> struct tf
  {
    typedef tf type;
    template <class A> struct apply { typedef app<N, A> type; };
  };
  template <int N> struct tm
  {
    typedef tm type;
    template <class M> struct apply { typedef wrap<N, M> type; };
  };
  template <bool Moves, int N, class R> struct te_pos : mp::get_position<R> {};
  template <int N, class R> struct te_pos<true, N, R> :
    mp::source_position<boost::mpl::int_<10000 + N>, boost::mpl::int_<N>, boost::mpl::char_<7> > {};
  struct pany { typedef pany type; template <class T> struct apply : boost::mpl::true_ {}; };
  struct pnone { typedef pnone type; template <class T> struct apply : boost::mpl::false_ {}; };
  template <int N> struct te
  {
    typedef te type;
    template <class R> struct apply :
      mp::reject<
        wrap<N, typename mp::get_message<R>::type>,
        typename te_pos<(N >= 50), N, R>::type
      >
    {};
  };
  // what a run has no use for: applying it does not compile
  template <class T> struct unneeded;
  struct bomb
  {
    typedef bomb type;
    template <class S, class Pos> struct apply : unneeded<S> {};
  };
  // applying it to a text of any other length than those in Mask neither
  template <class P, bool Here> struct only_here : P {};
  template <class P> struct only_here<P, false> : bomb {};
  template <class P, unsigned long Mask> struct only
  {
    typedef only type;
    template <class S, class Pos> struct apply :
      only_here<
        typename P::type, ((Mask >> (boost::mpl::size<S>::value)) & 1) != 0
      >::template apply<S, Pos>
    {};
  };
  template <> struct tf<99>
  {
    typedef tf type;
    template <class A> struct apply : unneeded<A> {};
  };
  template <> struct tm<99>
  {
    typedef tm type;
    template <class A> struct apply : unneeded<A> {};
  };
  template <> struct te<99>
  {
    typedef te type;
    template <class A> struct apply : unneeded<A> {};
  };
  struct pbomb
  {
    typedef pbomb type;
    template <class A> struct apply : unneeded<A> {};
  };
  struct bmk
  {
    typedef bmk type;
    template <class A, class B> struct apply : unneeded<A> {};
  };
  typedef bmk rbmk;
#define VP_INST(z, n, unused) \
  template <BOOST_PP_ENUM_PARAMS(n, class A)> struct BOOST_PP_CAT(inst, n) \
  { typedef BOOST_PP_CAT(inst, n) type; }; \
  template <BOOST_PP_ENUM_PARAMS(n, class A)> struct BOOST_PP_CAT(rinst, n) {};
  BOOST_PP_REPEAT_FROM_TO(1, 16, VP_INST, ~)
#undef VP_INST

  // the same values as plain types: nothing but types, no ::type inside
  template <int N> struct rsym {};
  template <class A, class B> struct rnode {};
  template <int N, class A> struct rapp {};
  struct rmk
  {
    typedef rmk type;
    template <class A, class B> struct apply { typedef rnode<A, B> type; };
    template <class A> struct apply<A, mp::reject<uerr<1>, mp::start> >
    { typedef mp::reject<uerr<1>, mp::start> type; };
  };
  template <int N> struct rtf
  {
    typedef rtf type;
    template <class A> struct apply { typedef rapp<N, A> type; };
  };
  template <> struct rtf<99> : tf<99> {};

  // results that are something else to the library
  template <int N> struct odd;
  template <> struct odd<1> { typedef mp::v1::error::digit_expected type; };
  template <> struct odd<2> { typedef mp::reject<uerr<1>, mp::start> type; };
  template <> struct odd<3>
  { typedef mp::accept<sym<1>, mp::string<97>, mp::start> type; };
  template <> struct odd<4> { typedef mp::start type; };
  template <> struct odd<5> { typedef boost::mpl::false_ type; };
  template <> struct odd<6> { typedef boost::mpl::void_ type; };
  template <> struct odd<7> { typedef mp::string<97, 98> type; };
  template <> struct odd<8> { typedef mp::one_char type; };
  template <> struct odd<9> { typedef mp::fail<uerr<1> > type; };
  template <> struct odd<10> { typedef boost::mpl::true_ type; };
#define VP_ODD(n) \
  template <> struct tf<60 + n> \
  { \
    typedef tf type; \
    template <class A> struct apply { typedef odd<n>::type type; }; \
  }; \
  template <> struct rtf<60 + n> : tf<60 + n> {};
  VP_ODD(1) VP_ODD(2) VP_ODD(3) VP_ODD(4) VP_ODD(5)
  VP_ODD(6) VP_ODD(7) VP_ODD(8) VP_ODD(9) VP_ODD(10)
#undef VP_ODD

  // ---- rendering --------------------------------------------------------
  inline void put(int x) { std::printf("%d ", x); }

  template <class V> struct vt { enum { v = 2 }; };
  template <> struct vt<char> { enum { v = 1 }; };

  template <class T, bool Seq> struct ser0;
  template <class T> struct ser : ser0<T, boost::mpl::is_sequence<T>::value> {};
  template <class T> struct ser0<T, false>
  {
    static void go()
    {
      put(vt<typename T::type::value_type>::v);
      put(T::type::value);
    }
  };
  template <class I, class E> struct ser_it
  {
    enum { n = ser_it<typename boost::mpl::next<I>::type, E>::n + 1 };
    static void go()
    {
      ser<typename boost::mpl::deref<I>::type>::go();
      ser_it<typename boost::mpl::next<I>::type, E>::go();
    }
    static void chars()
    {
      put(boost::mpl::deref<I>::type::value);
      ser_it<typename boost::mpl::next<I>::type, E>::chars();
    }
  };
  template <class E> struct ser_it<E, E>
  {
    enum { n = 0 };
    static void go() {}
    static void chars() {}
  };
  template <class T> struct ser0<T, true>
  {
    typedef ser_it<
      typename boost::mpl::begin<T>::type,
      typename boost::mpl::end<T>::type
    > it;
    static void go() { put(4); put(it::n); it::go(); }
  };
  template <> struct ser<void> { static void go() { put(8); } };
#define VP_ODD(n) \
  template <> struct ser<odd<n>::type> \
  { static void go() { put(9); put(n); } };
  VP_ODD(1) VP_ODD(2) VP_ODD(3) VP_ODD(4) VP_ODD(5)
  VP_ODD(6) VP_ODD(7) VP_ODD(8) VP_ODD(9) VP_ODD(10)
#undef VP_ODD
  template <int N> struct ser<sym<N> >
  { static void go() { put(5); put(N); } };
  template <class A, class B> struct ser<node<A, B> >
  { static void go() { put(6); ser<A>::go(); ser<B>::go(); } };
  template <int N, class A> struct ser<app<N, A> >
  { static void go() { put(7); put(N); ser<A>::go(); } };
  template <int N> struct ser<rsym<N> > : ser<sym<N> > {};
  template <class A, class B> struct ser<rnode<A, B> > : ser<node<A, B> > {};
  template <int N, class A> struct ser<rapp<N, A> > : ser<app<N, A> > {};
#define VP_SER(z, n, unused) ser<BOOST_PP_CAT(A, n)>::go();
#define VP_INST(z, n, unused) \
  template <BOOST_PP_ENUM_PARAMS(n, class A)> \
  struct ser<BOOST_PP_CAT(inst, n)<BOOST_PP_ENUM_PARAMS(n, A)> > \
  { static void go() { put(10); put(n); BOOST_PP_REPEAT(n, VP_SER, ~) } }; \
  template <BOOST_PP_ENUM_PARAMS(n, class A)> \
  struct ser<BOOST_PP_CAT(rinst, n)<BOOST_PP_ENUM_PARAMS(n, A)> > : \
    ser<BOOST_PP_CAT(inst, n)<BOOST_PP_ENUM_PARAMS(n, A)> > {};
  BOOST_PP_REPEAT_FROM_TO(1, 16, VP_INST, ~)
#undef VP_INST
#undef VP_SER

  inline void text(const std::string& s)
  {
    put(200);
    put(int(s.size()));
    for (std::string::size_type i = 0; i != s.size(); ++i) put(s[i]);
  }

  template <class M> struct msg
  { static void go() { text(M::get_value()); } };
  namespace er = boost::metaparse::v1::error;
  template <> struct msg<er::digit_expected> { static void go() { put(1); } };
  template <> struct msg<er::end_of_input_expected>
  { static void go() { put(2); } };
  template <> struct msg<er::expected_to_fail> { static void go() { put(3); } };
  template <int F, int T, int N> struct msg<er::index_out_of_range<F, T, N> >
  { static void go() { put(4); put(F); put(T); put(N); } };
  template <> struct msg<er::letter_expected> { static void go() { put(5); } };
  template <char C> struct msg<er::literal_expected<C> >
  { static void go() { put(6); put(C); } };
  template <> struct msg<er::none_of_the_expected_cases_found>
  { static void go() { put(7); } };
  template <> struct msg<er::unexpected_character>
  { static void go() { put(8); } };
  template <> struct msg<er::unexpected_end_of_input>
  { static void go() { put(9); } };
  template <int L, int C, class M> struct msg<er::unpaired<L, C, M> >
  { static void go() { put(10); put(L); put(C); msg<M>::go(); } };
  template <> struct msg<er::whitespace_expected>
  { static void go() { put(11); } };
  template <int N> struct msg<uerr<N> >
  { static void go() { put(100); put(N); } };
  template <int N, class M> struct msg<wrap<N, M> >
  { static void go() { put(101); put(N); msg<M>::go(); } };

  template <class P> void position()
  {
    put(mp::get_line<P>::type::value);
    put(mp::get_col<P>::type::value);
    put(mp::get_prev_char<P>::type::value);
  }

  template <class R, bool E> struct outcome;
  template <class R> struct outcome<R, true>
  {
    static void go()
    {
      std::printf("E ");
      msg<typename mp::get_message<R>::type>::go();
      std::printf("| ");
      position<typename mp::get_position<R>::type>();
      std::printf("\n");
    }
  };
  template <class R> struct outcome<R, false>
  {
    typedef typename mp::get_remaining<R>::type rem;
    static void go()
    {
      std::printf("A ");
      ser<typename mp::get_result<R>::type>::go();
      std::printf("| ");
      ser_it<
        typename boost::mpl::begin<rem>::type,
        typename boost::mpl::end<rem>::type
      >::chars();
      std::printf("| ");
      position<typename mp::get_position<R>::type>();
      std::printf("\n");
    }
  };

  // ---- sessions: parsers applied one after the other ---------------------
  struct nil {};
  template <class P, class Ps = nil> struct L {};

  // the ways of applying a parser
  struct by_apply
  {
    template <class P, class S, class Pos> struct of
    { typedef typename P::template apply<S, Pos> type; };
  };
  struct by_wrap
  {
    template <class P, class S, class Pos> struct of
    { typedef boost::mpl::apply_wrap2<P, S, Pos> type; };
  };
  struct by_type
  {
    template <class P, class S, class Pos> struct of
    { typedef typename P::type::template apply<S, Pos>::type type; };
  };

  template <class W, class Ps, class S, class Pos> struct run;
  template <class W, class S, class Pos> struct run<W, nil, S, Pos>
  { static void go() {} };
  template <class W, class Ps, class R, bool E> struct cont
  { static void go() {} };
  template <class W, class Ps, class R> struct cont<W, Ps, R, false> :
    run<
      W,
      Ps,
      typename mp::get_remaining<R>::type,
      typename mp::get_position<R>::type
    >
  {};
  template <class W, class R> struct cont<W, nil, R, false>
  { static void go() {} };
  template <class W, class P, class Ps, class S, class Pos>
  struct run<W, L<P, Ps>, S, Pos>
  {
    typedef typename W::template of<P, S, Pos>::type R;
    enum { e = mp::is_error<R>::type::value };
    static void go()
    {
      outcome<R, e>::go();
      cont<W, Ps, R, e>::go();
    }
  };

  template <class Ps, class S, class Pos> void session(int id)
  {
    std::printf("S %d\n", id);
    run<by_apply, Ps, S, Pos>::go();
  }
  template <class Ps, class S, class Pos> void session_wrap(int id)
  {
    std::printf("S %d\n", id);
    run<by_wrap, Ps, S, Pos>::go();
  }
  template <class Ps, class S, class Pos> void session_type(int id)
  {
    std::printf("S %d\n", id);
    run<by_type, Ps, S, Pos>::go();
  }

  // ---- hand-written parsers ----------------------------------------------
  // apply has a nested ::type and nothing else
  template <class P> struct hand
  {
    typedef hand type;
    template <class S, class Pos> struct apply
    { typedef typename P::template apply<S, Pos>::type type; };
  };
  template <class P> struct heir : P {};

  // parsers defined by recursion (NTDef of the specification)
#include "vp_nt.hpp"
}

#endif
