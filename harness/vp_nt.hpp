// Written by tools/mknt.py
struct nt1;
struct nt2;
struct nt3;
struct nt4;
struct nt5;
struct nt6;
struct nt7;
struct nt8;
struct nt9;
struct nt10;
struct nt11;
struct nt12;
struct nt13;
struct nt14;
struct nt15;
struct nt16;
struct nt17;
struct nt18;
struct nt19;
struct nt20;
struct nt21;
struct nt1 :
  mp::one_of<mp::middle_of<mp::lit<boost::mpl::char_<40> >, vp::nt1, mp::lit<boost::mpl::char_<41> > >, mp::lit_c<120> >
{};
struct nt2 :
  mp::foldl_start_with_parser<mp::last_of<mp::lit<boost::mpl::char_<43> >, vp::nt3 >, vp::nt3, vp::mk >
{};
struct nt3 :
  mp::foldl_start_with_parser<mp::last_of<mp::lit<boost::mpl::integral_c<char, 42> >, vp::nt4 >, vp::nt4, vp::mk >
{};
struct nt4 :
  mp::one_of<mp::int_, mp::middle_of<mp::lit_c<40>, vp::nt2, mp::lit_c<41> > >
{};
struct nt5 :
  mp::one_of<mp::sequence<mp::lit_c<97>, vp::nt5 >, mp::return_<vp::sym<0> > >
{};
struct nt6 :
  mp::one_of<mp::sequence<mp::lit_c<97>, vp::nt6, mp::lit_c<97> >, mp::sequence<mp::lit<boost::mpl::integral_c<char, 98> >, vp::nt6, mp::lit<boost::mpl::char_<98> > >, mp::lit_c<99> >
{};
struct nt7 :
  mp::token<mp::one_of<mp::int_, mp::middle_of<mp::token<mp::lit<boost::mpl::char_<40> > >, mp::repeated<vp::nt7 >, mp::lit<boost::mpl::char_<41> > > > >
{};
struct nt8 :
  mp::one_of<mp::digit, mp::middle_of<mp::lit<boost::mpl::char_<91> >, mp::foldl_reject_incomplete_start_with_parser<mp::last_of<mp::lit<boost::mpl::char_<44> >, vp::nt8 >, vp::nt8, vp::mk >, mp::lit_c<93> > >
{};
struct nt9 :
  mp::foldr_start_with_parser<mp::first_of<vp::nt10, mp::lit<boost::mpl::char_<94> > >, vp::nt10, vp::mk >
{};
struct nt10 :
  mp::one_of<mp::digit_val, mp::middle_of<mp::lit<boost::mpl::integral_c<char, 40> >, vp::nt9, mp::lit_c<41> > >
{};
struct nt11 :
  mp::repeated_reject_incomplete<mp::last_of<mp::lit_c<97>, mp::optional<mp::middle_of<mp::lit<boost::mpl::char_<123> >, vp::nt11, mp::lit_c<125> >, vp::sym<1> > > >
{};
struct nt12 :
  mp::last_of<mp::look_ahead<mp::sequence<vp::nt13, mp::lit_c<99> > >, mp::repeated1<mp::lit<boost::mpl::char_<97> > >, vp::nt14 >
{};
struct nt13 :
  mp::sequence<mp::lit_c<97>, mp::optional<vp::nt13, vp::sym<2> >, mp::lit_c<98> >
{};
struct nt14 :
  mp::sequence<mp::lit<boost::mpl::char_<98> >, mp::optional<vp::nt14, vp::sym<3> >, mp::lit_c<99> >
{};
struct nt15 :
  mp::one_of<mp::sequence_apply2<vp::inst2, mp::lit<boost::mpl::char_<97> >, vp::nt16 >, mp::return_<vp::sym<4> > >
{};
struct nt16 :
  mp::sequence_apply2<vp::inst2, mp::lit<boost::mpl::char_<97> >, vp::nt15 >
{};
struct nt17 :
  mp::sequence<mp::lit_c<40>, mp::repeated_one_of<vp::nt17, mp::one_char_except_c<40, 41 > >, mp::lit_c<41> >
{};
struct nt18 :
  mp::last_of<mp::except<mp::lit_c<120>, vp::sym<5>, vp::uerr<6> >, mp::sequence<mp::one_char, mp::optional<vp::nt18, vp::sym<7> > > >
{};
struct nt19 :
  mp::one_of<mp::sequence<mp::middle_of<mp::lit_c<60>, mp::letter, mp::lit<boost::mpl::char_<62> > >, mp::foldr<vp::nt19, vp::sym<8>, vp::mk >, mp::middle_of<mp::keyword<boost::mpl::vector_c<char, 60, 47 >, vp::sym<9> >, mp::letter, mp::lit_c<62> > >, mp::letter >
{};
struct nt20 :
  mp::one_of<mp::transform<mp::sequence<mp::letter, vp::nt20 >, vp::tf<1> >, mp::transform_error_message<mp::transform<mp::last_of<mp::lit<boost::mpl::integral_c<char, 46> >, vp::nt20 >, vp::tf<2> >, vp::tm<3> >, mp::empty<vp::sym<10> > >
{};
struct nt21 :
  mp::one_of<mp::iterate<mp::digit, boost::mpl::int_<3> >, mp::middle_of<mp::lit_c<40>, mp::iterate<vp::nt21, boost::mpl::long_<2> >, mp::lit_c<41> > >
{};
