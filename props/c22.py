"""Documented equivalences: two expressions the reference calls equivalent have the same outcome (result,
remaining input, position; message and position of an error) on every input.  Both sides are the real code."""
from vlib.core import *
from vlib.sem import *
NAMES = 'accept_when alphanum always always_c change_error_message digit digit_val empty entire_input except fail fail_at_first_char_expected first_of foldl foldl1 foldl_reject_incomplete foldl_reject_incomplete1 foldl_reject_incomplete_start_with_parser foldl_start_with_parser foldr foldr1 foldr_reject_incomplete foldr_reject_incomplete1 foldr_start_with_parser if_ int_ iterate iterate_c keyword last_of letter lit lit_c look_ahead nth_of nth_of_c one_char one_char_except one_char_except_c one_of one_of_c optional range range_c repeated repeated1 repeated_one_of repeated_one_of1 repeated_reject_incomplete repeated_reject_incomplete1 return_ sequence sequence_apply space spaces token transform transform_error transform_error_message unless_error'.split()
NAMES += ['middle_of']
INC = inc(*NAMES) + inc('util/is_digit', 'util/is_letter', 'util/is_whitespace', 'util/digit_to_int', 'util/in_range_c') + ['boost/mpl/lambda.hpp', 'boost/mpl/equal_to.hpp', 'boost/mpl/plus.hpp', 'boost/mpl/times.hpp', 'boost/mpl/push_back.hpp', 'boost/mpl/push_front.hpp', 'boost/mpl/at.hpp']
PRE = '''
namespace u = mp::util;
template <class A> struct t1 { typedef t1 type; };
template <class A, class B> struct t2 { typedef t2 type; };
} namespace vf {
template <class A> struct nres<h::t1<A> > { typedef cons<typename nres<A>::type, nil> type; };
template <class A, class B> struct nres<h::t2<A, B> > { typedef cons<typename nres<A>::type, cons<typename nres<B>::type, nil> > type; };
} namespace h {
struct pushb { typedef pushb type; template <class S, class I> struct apply : mpl::push_back<S, I> {}; };
struct mk2 { typedef mk2 type; template <class V> struct apply { typedef t2<typename mpl::at_c<V, 0>::type, typename mpl::at_c<V, 1>::type> type; }; };
struct comp { typedef comp type; template <class A> struct apply { typedef un<2, un<1, A> > type; }; };
template <class A> struct te { };
struct chg { typedef chg type; template <class R> struct apply : mp::reject<tag<3>, typename mp::get_position<R>::type> {}; };
struct chm { typedef chm type; template <class M> struct apply { typedef tag<3> type; }; };
struct dec10 { typedef dec10 type; template <class A, class B> struct apply : mpl::plus<mpl::times<A, mpl::int_<10> >, B> {}; };
// parsers written with the defining conditional of the reference
template <class P> struct la { typedef la type; template <class S, class Pos> struct apply {
  typedef typename P::template apply<S, Pos>::type r;
  template <bool E, class Z> struct go { typedef typename mp::return_<typename mp::get_result<r>::type>::template apply<S, Pos>::type type; };
  template <class Z> struct go<true, Z> { typedef r type; };
  typedef typename go<mp::is_error<r>::type::value, void>::type type; }; };
template <class P, class T, class F> struct fl { typedef fl type; template <class S, class Pos> struct apply {
  typedef typename P::template apply<S, Pos>::type r;
  template <bool E, class Z> struct go { typedef typename mp::foldl<P, typename F::template apply<T, typename mp::get_result<r>::type>::type, F>::template apply<typename mp::get_remaining<r>::type, typename mp::get_position<r>::type>::type type; };
  template <class Z> struct go<true, Z> { typedef typename mp::return_<T>::template apply<S, Pos>::type type; };
  typedef typename go<mp::is_error<r>::type::value, void>::type type; }; };
template <class P, class PT, class F> struct fls { typedef fls type; template <class S, class Pos> struct apply {
  typedef typename PT::template apply<S, Pos>::type r;
  template <bool E, class Z> struct go { typedef typename mp::foldl<P, typename mp::get_result<r>::type, F>::template apply<typename mp::get_remaining<r>::type, typename mp::get_position<r>::type>::type type; };
  template <class Z> struct go<true, Z> { typedef r type; };
  typedef typename go<mp::is_error<r>::type::value, void>::type type; }; };
template <class P, class T, class F> struct fr { typedef fr type; template <class S, class Pos> struct apply {
  typedef typename P::template apply<S, Pos>::type r;
  template <bool E, class Z> struct go {
    typedef typename mp::foldr<P, T, F>::template apply<typename mp::get_remaining<r>::type, typename mp::get_position<r>::type>::type rest;
    typedef typename mp::accept<typename F::template apply<typename mp::get_result<rest>::type, typename mp::get_result<r>::type>::type, typename mp::get_remaining<rest>::type, typename mp::get_position<rest>::type>::type type; };
  template <class Z> struct go<true, Z> { typedef typename mp::return_<T>::template apply<S, Pos>::type type; };
  typedef typename go<mp::is_error<r>::type::value, void>::type type; }; };
'''
def both(anymsg=False):
    def ok(a):
        x, y = a[1], a[2]
        if anymsg and x[0] == 'rej' and y[0] == 'rej': return compare(x[2], y[2])
        return compare(x, y)
    return lambda cx: Pred(ok, 'two equal outcomes')
def prop(tier):
    th = tier == 'thorough'
    es = []
    def ent(nm, a, b, code, **kw):
        am = kw.pop('anymsg', False)
        es.append(Entry(nm, 'typedef %s S_; typedef typename spos<ZZ,99>::type Q_;\ntypedef pair<typename run<%s, S_, Q_>::type, typename run<%s, S_, Q_>::type> type;' % (code, a, b), both(am), **kw))
    def stubs(nm, a, b, ns=(0, 1, 2), **kw):
        for n in ns: ent('%s_%d' % (nm, n), a, b, 'in<%d>' % n, **kw)
    def chars(nm, a, b, ns=(0, 1, 2), **kw):
        for n in ns: ent('%s_c%d' % (nm, n), a, b, 'typename sstr<ZZ,98,%d>::type' % n, **kw)
    P, Q, R = 'pstub<ZZ,0>', 'stub<ZZ,1>', 'stub<ZZ,2>'
    p = 'stub<ZZ,0>'
    X, Y = 'nd_char<ZZ,1,0>::value', 'nd_char<ZZ,1,1>::value'
    T = 'tag<7>,fop'
    long_ = (0, 1, 2, 3) if not th else (0, 1, 2, 3, 4)
    # ---- characters
    chars('digit', 'mp::digit', 'mp::accept_when<mp::one_char,u::is_digit<>,mp::error::digit_expected>', ns=(1, 2))
    chars('letter', 'mp::letter', 'mp::accept_when<mp::one_char,u::is_letter<>,mp::error::letter_expected>')
    chars('space', 'mp::space', 'mp::accept_when<mp::one_char,u::is_whitespace<>,mp::error::whitespace_expected>')
    chars('spaces', 'mp::spaces', 'mp::repeated1<mp::space>', ns=(0, 1, 2, 3))
    chars('lit', 'mp::lit<mpl::char_<%s> >' % X, 'mp::accept_when<mp::one_char,typename mpl::lambda<mpl::equal_to<mpl::_1,mpl::char_<%s> > >::type,mp::error::literal_expected<%s> >' % (X, X), ns=(1, 2))
    chars('lit_c', 'mp::lit_c<%s>' % X, 'mp::lit<mpl::char_<%s> >' % X)
    chars('range_c', 'mp::range_c<%s,%s>' % (X, Y), 'mp::range<mpl::char_<%s>,mpl::char_<%s> >' % (X, Y))
    chars('range', 'mp::range_c<%s,%s>' % (X, Y), 'mp::accept_when<mp::one_char,u::in_range_c<char,%s,%s>,mp::error::unexpected_character>' % (X, Y))
    chars('exc', 'mp::one_char_except_c<%s,%s>' % (X, Y), 'mp::one_char_except<mpl::char_<%s>,mpl::char_<%s> >' % (X, Y))
    chars('always_c', 'mp::always_c<%s,tag<1> >' % X, 'mp::always<mp::lit_c<%s>,tag<1> >' % X)
    chars('digit_val', 'mp::digit_val', 'mp::transform<mp::digit,u::digit_to_int<> >')
    chars('int', 'mp::int_', 'mp::foldl1<mp::digit_val,mpl::int_<0>,dec10>', ns=(0, 1, 2, 3, 4))
    chars('alnum', 'mp::alphanum', 'mp::one_of<mp::digit,mp::letter>', ns=(0, 1, 2), anymsg=True)
    chars('ofc', 'mp::one_of_c<%s,%s,\'x\'>' % (X, Y), "mp::one_of<mp::lit_c<%s>,mp::lit_c<%s>,mp::lit_c<'x'> >" % (X, Y), anymsg=True)
    chars('kw', "mp::keyword<mp::string<%s,'b',%s>,tag<1> >" % (X, Y), "mp::last_of<mp::lit_c<%s>,mp::lit_c<'b'>,mp::lit_c<%s>,mp::return_<tag<1> > >" % (X, Y), ns=(0, 1, 2, 3, 4))
    chars('kw0', 'mp::keyword<mp::string<>,tag<1> >', 'mp::return_<tag<1> >', ns=(0, 1))
    chars('empty', 'mp::empty<tag<1> >', 'mp::except<mp::one_char,tag<1>,mp::error::end_of_input_expected>')
    # ---- combinators of arbitrary parsers
    stubs('always', 'mp::always<%s,tag<1> >' % p, 'mp::last_of<%s,mp::return_<tag<1> > >' % p, ns=long_)
    stubs('entire', 'mp::entire_input<%s,tag<2> >' % p, 'mp::first_of<%s,mp::change_error_message<mp::empty<tag<1> >,tag<2> > >' % p, ns=long_)
    stubs('first', 'mp::first_of<%s,%s,%s>' % (p, Q, R), 'mp::nth_of_c<0,%s,%s,%s>' % (p, Q, R))
    stubs('last', 'mp::last_of<%s,%s,%s>' % (p, Q, R), 'mp::nth_of_c<2,%s,%s,%s>' % (p, Q, R))
    stubs('nth', 'mp::nth_of<mpl::int_<1>,%s,%s,%s>' % (p, Q, R), 'mp::nth_of_c<1,%s,%s,%s>' % (p, Q, R))
    stubs('seq1', 'mp::nth_of_c<0,%s>' % p, p, ns=long_)
    stubs('foldl', 'mp::foldl<%s,%s>' % (P, T), 'fl<%s,%s>' % (P, T), ns=long_)
    stubs('foldr', 'mp::foldr<%s,%s>' % (P, T), 'fr<%s,%s>' % (P, T), ns=long_)
    for d in 'lr':
        f = 'fold' + d
        stubs(f + '1', 'mp::%s1<%s,%s>' % (f, P, T), 'mp::last_of<mp::look_ahead<%s>,mp::%s<%s,%s> >' % (P, f, P, T), ns=long_)
        stubs(f + 'ri', 'mp::%s_reject_incomplete<%s,%s>' % (f, P, T), 'mp::first_of<mp::%s<%s,%s>,mp::fail_at_first_char_expected<%s> >' % (f, P, T, P), ns=long_)
        stubs(f + 'ri1', 'mp::%s_reject_incomplete1<%s,%s>' % (f, P, T), 'mp::first_of<mp::%s1<%s,%s>,mp::fail_at_first_char_expected<%s> >' % (f, P, T, P), ns=long_)
    stubs('foldlsp', 'mp::foldl_start_with_parser<%s,%s,fop>' % (P, Q), 'fls<%s,%s,fop>' % (P, Q))
    stubs('foldlrisp', 'mp::foldl_reject_incomplete_start_with_parser<%s,%s,fop>' % (P, Q), 'mp::first_of<mp::foldl_start_with_parser<%s,%s,fop>,mp::fail_at_first_char_expected<%s> >' % (P, Q, P))
    stubs('iter', 'mp::iterate<%s,mpl::int_<3> >' % p, 'mp::iterate_c<%s,3>' % p)
    for k in (1, 2, 3):
        stubs('iter%d' % k, 'mp::iterate_c<%s,%d>' % (p, k), 'mp::sequence<%s>' % ','.join([p] * k), ns=long_[:-1])
    stubs('look', 'mp::look_ahead<%s>' % p, 'la<%s>' % p, ns=long_)
    stubs('opt', 'mp::optional<%s,tag<1> >' % p, 'mp::one_of<%s,mp::return_<tag<1> > >' % p, ns=long_)
    stubs('rep', 'mp::repeated<%s>' % P, 'mp::foldl<%s,mpl::vector<>,pushb>' % P, ns=long_)
    stubs('rep1', 'mp::repeated1<%s>' % P, 'mp::foldl1<%s,mpl::vector<>,pushb>' % P, ns=long_)
    stubs('repri', 'mp::repeated_reject_incomplete<%s>' % P, 'mp::foldl_reject_incomplete<%s,mpl::vector<>,pushb>' % P, ns=long_)
    stubs('repri1', 'mp::repeated_reject_incomplete1<%s>' % P, 'mp::foldl_reject_incomplete1<%s,mpl::vector<>,pushb>' % P, ns=long_)
    P1 = 'pstub<ZZ,1>'
    stubs('repof', 'mp::repeated_one_of<%s,%s>' % (P, P1), 'mp::repeated<mp::one_of<%s,%s> >' % (P, P1))
    stubs('repof1', 'mp::repeated_one_of1<%s,%s>' % (P, P1), 'mp::repeated1<mp::one_of<%s,%s> >' % (P, P1))
    stubs('seqapp1', 'mp::sequence_apply1<t1,%s>' % p, 'mp::sequence<%s>' % p)
    stubs('seqapp2', 'mp::sequence_apply2<t2,%s,%s>' % (p, Q), 'mp::transform<mp::sequence<%s,%s>,mk2>' % (p, Q))
    stubs('chmsg', 'mp::transform_error_message<%s,chm>' % p, 'mp::transform_error<%s,chg>' % p, ns=long_)
    stubs('fail', 'mp::change_error_message<mp::fail<tag<1> >,tag<2> >', 'mp::fail<tag<2> >')
    stubs('ret', 'mp::accept_when<mp::return_<tag<1> >,alwaysf<ZZ>,tag<2> >', 'mp::fail<tag<2> >')
    # ---- laws
    stubs('tt', 'mp::transform<mp::transform<%s,fun<1> >,fun<2> >' % p, 'mp::transform<%s,comp>' % p, ns=long_)
    stubs('assoc_of', 'mp::one_of<%s,mp::one_of<%s,%s> >' % (p, Q, R), 'mp::one_of<mp::one_of<%s,%s>,%s>' % (p, Q, R), ns=(1,), anymsg=True)
    stubs('dup_of', 'mp::one_of<%s,%s>' % (p, p), 'mp::one_of<%s>' % p)
    stubs('look2', 'mp::look_ahead<mp::look_ahead<%s> >' % p, 'mp::look_ahead<%s>' % p, ns=long_)
    stubs('lookseq', 'mp::last_of<mp::look_ahead<%s>,%s>' % (p, p), p, ns=long_)
    stubs('ent2', 'mp::entire_input<mp::entire_input<%s> >' % p, 'mp::entire_input<%s>' % p, ns=long_)
    chars('tok2', 'mp::token<mp::token<mp::letter> >', 'mp::token<mp::letter>', ns=(0, 1, 2, 3))
    stubs('retl', 'mp::last_of<mp::return_<tag<1> >,%s>' % p, p, ns=long_)
    stubs('retr', 'mp::first_of<%s,mp::return_<tag<1> > >' % p, p, ns=long_)
    stubs('except2', 'mp::except<mp::except<%s,tag<1>,tag<2> >,tag<3>,tag<4> >' % p, 'mp::accept_when<mp::if_<%s,tag<3>,tag<0> >,istag<ZZ>,tag<4> >' % p)
    # a parser is a metaprogramming value: evaluating it changes nothing
    from props.c18 import PARSERS
    for nm, c in PARSERS:
        if nm in ('keyword', 'apply', 'when'): continue
        es.append(Entry('val_' + nm, 'typedef typename dep<ZZ,%s >::type P_; typedef typename sstr<ZZ,98,2>::type S_; typedef typename spos<ZZ,99>::type Q_;\ntypedef pair<typename run_any<P_, S_, Q_>::type, typename run_any<typename P_::type, S_, Q_>::type> type;' % c, both()))
    pre = PRE + '''
template <class ZZ> struct alwaysf { typedef alwaysf type; template <class A> struct apply : mpl::bool_<nd_int<ZZ,7,0,0,0>::value == 1> {}; };
template <class ZZ, class A> struct istag_ : mpl::bool_<true> {};
template <class ZZ> struct istag_<ZZ, tag<0> > : mpl::bool_<false> {};
template <class ZZ> struct istag { typedef istag type; template <class A> struct apply : istag_<ZZ, typename A::type> {}; };
'''
    return Property('C22', INC, es, pre, bounds='%d pairs of expressions: arbitrary (stub) parsers on inputs of at most %d characters, character parsers with arbitrary parameters on all strings of at most 4 characters; any start position' % (len(es), long_[-1]),
        assumptions=['the combined parsers obey the parser contract', 'stated equivalences the reference words loosely are not used (token and spaces, if_ and one_of, middle_of and nth_of: they differ in optional white space, consumption and error wrapping)'])
