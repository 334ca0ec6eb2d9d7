// Verification harness vocabulary.
//
// Under the symbolic engine vf::nd_char / vf::nd_int values are symbolic
// variables; in a replay (VF_REPLAY) they are specialised with the concrete
// values of a model and the very same harness is compiled with g++.
#ifndef VF_HPP
#define VF_HPP

#include <boost/metaparse/v1/accept.hpp>
#include <boost/metaparse/v1/reject.hpp>
#include <boost/metaparse/v1/is_error.hpp>
#include <boost/metaparse/v1/get_result.hpp>
#include <boost/metaparse/v1/get_remaining.hpp>
#include <boost/metaparse/v1/get_position.hpp>
#include <boost/metaparse/v1/get_message.hpp>
#include <boost/metaparse/v1/get_line.hpp>
#include <boost/metaparse/v1/get_col.hpp>
#include <boost/metaparse/v1/get_prev_char.hpp>
#include <boost/metaparse/v1/source_position.hpp>
#include <boost/metaparse/v1/string.hpp>
#include <boost/metaparse/v1/start.hpp>
#include <boost/metaparse/v1/fail_tag.hpp>
#include <boost/metaparse/v1/accept_tag.hpp>
#include <boost/metaparse/v1/error/digit_expected.hpp>
#include <boost/metaparse/v1/error/end_of_input_expected.hpp>
#include <boost/metaparse/v1/error/expected_to_fail.hpp>
#include <boost/metaparse/v1/error/index_out_of_range.hpp>
#include <boost/metaparse/v1/error/letter_expected.hpp>
#include <boost/metaparse/v1/error/literal_expected.hpp>
#include <boost/metaparse/v1/error/none_of_the_expected_cases_found.hpp>
#include <boost/metaparse/v1/error/unexpected_character.hpp>
#include <boost/metaparse/v1/error/unexpected_end_of_input.hpp>
#include <boost/metaparse/v1/error/unpaired.hpp>
#include <boost/metaparse/v1/error/whitespace_expected.hpp>

#include <boost/mpl/int.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/mpl/if.hpp>
#include <boost/mpl/eval_if.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/begin_end.hpp>
#include <boost/mpl/next_prior.hpp>
#include <boost/mpl/deref.hpp>
#include <boost/mpl/empty.hpp>
#include <boost/mpl/is_sequence.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/deque.hpp>
#include <boost/mpl/map.hpp>

namespace vf
{
  namespace mp = boost::metaparse::v1;
  namespace mpl = boost::mpl;

  struct Z {};
  template <class ZZ, class T> struct dep { typedef T type; };   // makes T dependent

  // ---------------------------------------------------------------- symbols
#ifdef VF_REPLAY
  template <class ZZ, int Id, int K> struct nd_char { static const char value = 'a'; };
  template <class ZZ, int Id, int K, int Lo, int Hi> struct nd_int { static const int value = Lo; };
  template <class ZZ, bool B> struct assume_ {};
#else
  template <class ZZ, int Id, int K> struct nd_char { static const char value; };
  template <class ZZ, int Id, int K, int Lo, int Hi> struct nd_int { static const int value; };
  template <class ZZ, bool B> struct assume_ {};
#endif

  // ---------------------------------------------------------------- result terms
  struct nil { typedef nil type; };
  template <class H, class T> struct cons { typedef cons type; };
  template <int V> struct num { typedef num type; };
  template <class R, class S, class P> struct acc { typedef acc type; };
  template <class M, class P> struct rej { typedef rej type; };
  template <class L, class C, class Prev> struct pos { typedef pos type; };
  template <class A, class B> struct ap { typedef ap type; };     // free binary operation
  template <int Id, class A> struct un { typedef un type; };      // free unary operation
  template <int Id, class N, class P> struct res { typedef res type; };  // result of a stub parser
  template <int Id, class N, class P> struct msg { typedef msg type; };  // message of a stub parser
  template <int Id> struct tag { typedef tag type; };             // opaque constant
  template <int Id, class A, class B, class C> struct err { typedef err type; }; // library error
  template <class A, class B> struct pair { typedef pair type; };
  struct other { typedef other type; };

  // ---------------------------------------------------------------- normal forms
  template <class T> struct nmsg { typedef other type; };
  template <int Id> struct nmsg<tag<Id> > : tag<Id> {};
  template <int Id, class N, class P> struct nmsg<msg<Id, N, P> > : msg<Id, N, P> {};
  template <int Id, class A> struct nmsg<un<Id, A> > { typedef un<Id, typename nmsg<A>::type> type; };
#define VF_ERR0(i, n) template <> struct nmsg<mp::error::n> { typedef err<i, nil, nil, nil> type; };
  VF_ERR0(1, digit_expected)
  VF_ERR0(2, end_of_input_expected)
  VF_ERR0(3, expected_to_fail)
  VF_ERR0(4, letter_expected)
  VF_ERR0(5, none_of_the_expected_cases_found)
  VF_ERR0(6, unexpected_character)
  VF_ERR0(7, unexpected_end_of_input)
  VF_ERR0(8, whitespace_expected)
#undef VF_ERR0
  template <class T> struct num_of { typedef num<static_cast<int>(T::type::value)> type; };
  template <int F, int T, int A> struct nmsg<mp::error::index_out_of_range<F, T, A> > { typedef err<9, num<F>, num<T>, num<A> > type; };
  template <char C> struct nmsg<mp::error::literal_expected<C> > { typedef err<10, num<C>, nil, nil> type; };
  template <int L, int C, class M> struct nmsg<mp::error::unpaired<L, C, M> > { typedef err<11, num<L>, num<C>, typename nmsg<typename M::type>::type> type; };

  template <class P> struct npos
  {
    typedef pos<
      typename num_of<typename mp::get_line<P>::type>::type,
      typename num_of<typename mp::get_col<P>::type>::type,
      typename num_of<typename mp::get_prev_char<P>::type>::type
    > type;
  };

  // a sequence, through its iterators
  template <class T> struct nres;
  template <class T> struct nchr { typedef num<static_cast<int>(T::value)> type; };
  template <class B, class E, template <class> class F> struct seq_it
  {
    typedef cons<
      typename F<typename mpl::deref<B>::type>::type,
      typename seq_it<typename mpl::next<B>::type, E, F>::type
    > type;
  };
  template <class E, template <class> class F> struct seq_it<E, E, F> { typedef nil type; };
  template <class S, template <class> class F> struct nseq :
    seq_it<typename mpl::begin<S>::type, typename mpl::end<S>::type, F> {};
  template <class S> struct nstr : nseq<S, nchr> {};

  template <bool IsSeq, class T> struct nres_seq { typedef typename nseq<T, nres>::type type; };
  template <class T> struct nres_seq<false, T> { typedef num<static_cast<int>(T::value)> type; };
  template <class T> struct nres { typedef typename nres_seq<mpl::is_sequence<T>::value, T>::type type; };
  template <int I, class A, class B, class C> struct nres<err<I, A, B, C> > : err<I, A, B, C> {};
  template <> struct nres<nil> : nil {};
  template <> struct nres<other> : other {};
  template <int Id> struct nres<tag<Id> > : tag<Id> {};
  template <int V> struct nres<num<V> > : num<V> {};
  template <int Id, class N, class P> struct nres<res<Id, N, P> > : res<Id, N, P> {};
  template <int Id, class N, class P> struct nres<msg<Id, N, P> > : msg<Id, N, P> {};
  template <class A, class B> struct nres<ap<A, B> > { typedef ap<typename nres<A>::type, typename nres<B>::type> type; };
  template <class A, class B> struct nres<pair<A, B> > { typedef pair<typename nres<A>::type, typename nres<B>::type> type; };
  template <int Id, class A> struct nres<un<Id, A> > { typedef un<Id, typename nres<A>::type> type; };
  template <class R, class S, class P> struct nres<acc<R, S, P> > : acc<R, S, P> {};
  template <class M, class P> struct nres<rej<M, P> > : rej<M, P> {};
  template <class L, class C, class P> struct nres<pos<L, C, P> > : pos<L, C, P> {};
  template <class T> struct nany { typedef other type; };      // result not looked at

  template <bool E, class R, template <class> class F> struct norm_
  {
    typedef rej<
      typename nmsg<typename mp::get_message<R>::type>::type,
      typename npos<typename mp::get_position<R>::type>::type
    > type;
  };
  template <class R, template <class> class F> struct norm_<false, R, F>
  {
    typedef acc<
      typename F<typename mp::get_result<R>::type>::type,
      typename nstr<typename mp::get_remaining<R>::type>::type,
      typename npos<typename mp::get_position<R>::type>::type
    > type;
  };
  template <class R> struct norm : norm_<mp::is_error<R>::type::value, R, nres> {};
  template <class R> struct norm_any : norm_<mp::is_error<R>::type::value, R, nany> {};
  // run a parser and normalise
  template <class P, class S, class Pos> struct run : norm<typename P::template apply<S, Pos>::type> {};
  template <class P, class S, class Pos> struct run_any : norm_any<typename P::template apply<S, Pos>::type> {};

  // ---------------------------------------------------------------- inputs
  // in<N>: a fixed string of N characters (the suffix of length N of in<8>)
  template <int N> struct in;
  template <> struct in<0> : mp::string<> {};
  template <> struct in<1> : mp::string<'a'> {};
  template <> struct in<2> : mp::string<'b','a'> {};
  template <> struct in<3> : mp::string<'c','b','a'> {};
  template <> struct in<4> : mp::string<'d','c','b','a'> {};
  template <> struct in<5> : mp::string<'e','d','c','b','a'> {};
  template <> struct in<6> : mp::string<'f','e','d','c','b','a'> {};
  template <> struct in<7> : mp::string<'g','f','e','d','c','b','a'> {};
  template <> struct in<8> : mp::string<'h','g','f','e','d','c','b','a'> {};

  // symbolic strings: N symbolic characters c_<Id>_0 ...
  template <class ZZ, int Id, int N> struct sstr;
#define VF_C(k) nd_char<ZZ, Id, k>::value
  template <class ZZ, int Id> struct sstr<ZZ, Id, 0> { typedef mp::string<> type; };
  template <class ZZ, int Id> struct sstr<ZZ, Id, 1> { typedef mp::string<VF_C(0)> type; };
  template <class ZZ, int Id> struct sstr<ZZ, Id, 2> { typedef mp::string<VF_C(0), VF_C(1)> type; };
  template <class ZZ, int Id> struct sstr<ZZ, Id, 3> { typedef mp::string<VF_C(0), VF_C(1), VF_C(2)> type; };
  template <class ZZ, int Id> struct sstr<ZZ, Id, 4> { typedef mp::string<VF_C(0), VF_C(1), VF_C(2), VF_C(3)> type; };
  template <class ZZ, int Id> struct sstr<ZZ, Id, 5> { typedef mp::string<VF_C(0), VF_C(1), VF_C(2), VF_C(3), VF_C(4)> type; };
  template <class ZZ, int Id> struct sstr<ZZ, Id, 6> { typedef mp::string<VF_C(0), VF_C(1), VF_C(2), VF_C(3), VF_C(4), VF_C(5)> type; };
  template <class ZZ, int Id> struct sstr<ZZ, Id, 7> { typedef mp::string<VF_C(0), VF_C(1), VF_C(2), VF_C(3), VF_C(4), VF_C(5), VF_C(6)> type; };
  template <class ZZ, int Id> struct sstr<ZZ, Id, 8> { typedef mp::string<VF_C(0), VF_C(1), VF_C(2), VF_C(3), VF_C(4), VF_C(5), VF_C(6), VF_C(7)> type; };

  // an arbitrary position: line, column and previous character symbolic
  template <class ZZ, int Id> struct spos
  {
    typedef mp::source_position<
      mpl::int_<nd_int<ZZ, Id, 900, 1, 1000000>::value>,
      mpl::int_<nd_int<ZZ, Id, 901, 1, 1000000>::value>,
      mpl::char_<nd_char<ZZ, Id, 902>::value>
    > type;
  };

  // ---------------------------------------------------------------- stub parsers
  // An arbitrary deterministic parser.  On an input of n characters its outcome
  // i_<Id>_<n*10> is -1 (reject, at a later position), 0 (reject at the start
  // position) or 1+k (accept, consuming k characters); its positions are
  // arbitrary subject to the parser contract: an acceptance that consumes
  // nothing stays at the start position, any other one and a later rejection
  // are strictly after it.
  template <class ZZ, class Pos, int Line, int Col> struct later_ :
    assume_<ZZ, (Line > mp::get_line<Pos>::type::value || (Line == mp::get_line<Pos>::type::value && Col > mp::get_col<Pos>::type::value))>
  {};
  template <class ZZ, int Id, int N, int K, class S, class Pos, int Line, int Col>
  struct stub_sel :   // accepts, consumes K-1 >= 1 characters
    later_<ZZ, Pos, Line, Col>
  {
    typedef typename mp::accept<
      res<Id, num<N>, typename npos<Pos>::type>,
      typename in<N - K + 1>::type,
      mp::source_position<mpl::int_<Line>, mpl::int_<Col>, mpl::char_<static_cast<char>('A' + Id)> >
    >::type type;
  };
  template <class ZZ, int Id, int N, class S, class Pos, int Line, int Col>
  struct stub_sel<ZZ, Id, N, 1, S, Pos, Line, Col>
  {
    typedef typename mp::accept<res<Id, num<N>, typename npos<Pos>::type>, S, Pos>::type type;
  };
  template <class ZZ, int Id, int N, class S, class Pos, int Line, int Col>
  struct stub_sel<ZZ, Id, N, 0, S, Pos, Line, Col>
  {
    typedef typename mp::reject<msg<Id, num<N>, typename npos<Pos>::type>, Pos>::type type;
  };
  template <class ZZ, int Id, int N, class S, class Pos, int Line, int Col>
  struct stub_sel<ZZ, Id, N, -1, S, Pos, Line, Col> :
    later_<ZZ, Pos, Line, Col>
  {
    typedef typename mp::reject<
      msg<Id, num<N>, typename npos<Pos>::type>,
      mp::source_position<mpl::int_<Line>, mpl::int_<Col>, mpl::char_<static_cast<char>('a' + Id)> >
    >::type type;
  };
  template <class ZZ, int Id, int N, class S, class Pos>
  struct stub_at :
    stub_sel<ZZ, Id, N, nd_int<ZZ, Id, N * 10, -1, N + 1>::value, S, Pos,
      nd_int<ZZ, Id, N * 10 + 1, 1, 1000000>::value,
      nd_int<ZZ, Id, N * 10 + 2, 1, 1000000>::value>
  {};
  // stub: any outcome; pstub: never accepts without consuming (foldable)
  template <class ZZ, int Id> struct stub
  {
    typedef stub type;
    template <class S, class Pos> struct apply :
      stub_at<ZZ, Id, mpl::size<S>::type::value, S, Pos> {};
  };
  template <class ZZ, int Id, int N, class S, class Pos>
  struct pstub_at :
    assume_<ZZ, nd_int<ZZ, Id, N * 10, -1, N + 1>::value != 1>,
    stub_at<ZZ, Id, N, S, Pos>
  {};
  template <class ZZ, int Id> struct pstub
  {
    typedef pstub type;
    template <class S, class Pos> struct apply :
      pstub_at<ZZ, Id, mpl::size<S>::type::value, S, Pos> {};
  };

  // ---------------------------------------------------------------- free operations
  struct fop { typedef fop type; template <class A, class B> struct apply { typedef ap<A, B> type; }; };
  template <int Id> struct fun { typedef fun type; template <class A> struct apply { typedef un<Id, A> type; }; };

  // ---------------------------------------------------------------- texts
  // text_of<T>: the text T::get_value() returns; output_of<T>: what constructing T prints
  template <class T> struct text_of { typedef text_of type; };
  template <class T> struct output_of { typedef output_of type; };
  struct text {};
  template <int N> struct dec {};      // a number in decimal
#ifdef VF_REPLAY
  void put(const char *); void puti(int);
  void puttext(const char *, unsigned long);
  void output(void (*)());
  template <class T> void construct() { T t; (void) t; }
  template <class T> struct pr;
  template <> struct pr<nil> { static void go() { put("nil"); } };
  template <> struct pr<other> { static void go() { put("other"); } };
  template <int V> struct pr<num<V> > { static void go() { puti(V); } };
  template <int V> struct pr<tag<V> > { static void go() { put("(tag "); puti(V); put(")"); } };
  template <class A, class B> struct pr<cons<A, B> > { static void go() { put("(cons "); pr<A>::go(); put(" "); pr<B>::go(); put(")"); } };
  template <class A, class B> struct pr<ap<A, B> > { static void go() { put("(ap "); pr<A>::go(); put(" "); pr<B>::go(); put(")"); } };
  template <class A, class B> struct pr<pair<A, B> > { static void go() { put("(pair "); pr<A>::go(); put(" "); pr<B>::go(); put(")"); } };
  template <class A, class B> struct pr<rej<A, B> > { static void go() { put("(rej "); pr<A>::go(); put(" "); pr<B>::go(); put(")"); } };
  template <int I, class A> struct pr<un<I, A> > { static void go() { put("(un "); puti(I); put(" "); pr<A>::go(); put(")"); } };
  template <class A, class B, class C> struct pr<acc<A, B, C> > { static void go() { put("(acc "); pr<A>::go(); put(" "); pr<B>::go(); put(" "); pr<C>::go(); put(")"); } };
  template <class A, class B, class C> struct pr<pos<A, B, C> > { static void go() { put("(pos "); pr<A>::go(); put(" "); pr<B>::go(); put(" "); pr<C>::go(); put(")"); } };
  template <int I, class A, class B> struct pr<res<I, A, B> > { static void go() { put("(res "); puti(I); put(" "); pr<A>::go(); put(" "); pr<B>::go(); put(")"); } };
  template <int I, class A, class B> struct pr<msg<I, A, B> > { static void go() { put("(msg "); puti(I); put(" "); pr<A>::go(); put(" "); pr<B>::go(); put(")"); } };
  template <int I, class A, class B, class C> struct pr<err<I, A, B, C> > { static void go() { put("(err "); puti(I); put(" "); pr<A>::go(); put(" "); pr<B>::go(); put(" "); pr<C>::go(); put(")"); } };
  template <class T> struct pr<text_of<T> > { static void go() { const std::string s = T::get_value(); puttext(s.data(), s.size()); } };
  template <class T> struct pr<output_of<T> > { static void go() { output(&construct<T>); } };
#endif
}
#endif
