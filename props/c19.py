"""Assembled parsers: a parser built from the library computes, for every input, the value its grammar
defines, or rejects it where the grammar is violated (calculators, numbers, lists, identifiers)."""
from vlib.core import *
from vlib.sem import *
INC = inc('build_parser', 'lit_c', 'last_of', 'first_of', 'middle_of', 'space', 'int_', 'digit', 'letter', 'alphanum', 'one_of', 'one_of_c', 'token', 'entire_input', 'repeated', 'repeated1', 'sequence', 'sequence_apply', 'transform', 'always_c', 'always', 'keyword', 'optional', 'empty', 'one_char_except_c', 'return_', 'except',
    'foldl_reject_incomplete_start_with_parser', 'foldr_start_with_parser', 'foldl1', 'foldl_reject_incomplete', 'foldl_reject_incomplete1', 'foldr_reject_incomplete', 'repeated_reject_incomplete') + ['boost/metaparse/v1/util/digit_to_int.hpp', 'boost/mpl/plus.hpp', 'boost/mpl/minus.hpp', 'boost/mpl/times.hpp', 'boost/mpl/negate.hpp', 'boost/mpl/front.hpp', 'boost/mpl/back.hpp', 'boost/mpl/equal_to.hpp']
PRE = r'''
// calculators (example/calculator*)
typedef mp::token<mp::lit_c<'+'> > plus_t; typedef mp::token<mp::lit_c<'-'> > minus_t; typedef mp::token<mp::lit_c<'*'> > mult_t;
typedef mp::token<mp::lit_c<'('> > open_t; typedef mp::token<mp::lit_c<')'> > close_t; typedef mp::token<mp::int_> int_t;
template <class T, char C> struct is_c : mpl::bool_<T::type::value == C> {};
struct eval_plus { typedef eval_plus type; template <class St, class C> struct apply : mpl::eval_if<is_c<mpl::front<C>, '+'>, mpl::plus<typename St::type, typename mpl::back<C>::type>, mpl::minus<typename St::type, typename mpl::back<C>::type> > {}; };
struct eval_mult { typedef eval_mult type; template <class St, class C> struct apply : mpl::times<typename St::type, typename mpl::back<C>::type> {}; };
struct eval_un { typedef eval_un type; template <class St, class C> struct apply : mpl::eval_if<typename mpl::equal_to<mpl::char_<'+'>, typename C::type>::type, St, mpl::negate<typename St::type> > {}; };
typedef mp::foldl_reject_incomplete_start_with_parser<mp::sequence<mult_t, int_t>, int_t, eval_mult> prod1;
typedef mp::foldl_reject_incomplete_start_with_parser<mp::sequence<mp::one_of<plus_t, minus_t>, prod1>, prod1, eval_plus> plus1;
typedef mp::entire_input<mp::last_of<mp::repeated<mp::space>, plus1> > calc1;
struct plus2;
typedef mp::middle_of<open_t, plus2, close_t> paren2;
typedef mp::foldr_start_with_parser<mp::one_of<plus_t, minus_t>, mp::one_of<int_t, paren2>, eval_un> simple2;
typedef mp::foldl_reject_incomplete_start_with_parser<mp::sequence<mult_t, simple2>, simple2, eval_mult> prod2;
struct plus2 : mp::foldl_reject_incomplete_start_with_parser<mp::sequence<mp::one_of<plus_t, minus_t>, prod2>, prod2, eval_plus> {};
typedef mp::entire_input<plus2> calc2;
// binary numbers (example/binary_number)
struct next_bit { typedef next_bit type; template <class A, class B> struct apply : mpl::int_<A::type::value * 2 + B::type::value> {}; };
typedef mp::entire_input<mp::foldl1<mp::transform<mp::one_of_c<'0','1'>, mp::util::digit_to_int<> >, mpl::int_<0>, next_bit> > binary;
// rationals (example/rational)
typedef mp::entire_input<mp::sequence_apply2<ap, mp::token<mp::int_>, mp::one_of<mp::last_of<mp::lit_c<'/'>, mp::token<mp::int_> >, mp::empty<mpl::int_<1> > > > > rat;
// comma separated list, identifiers, a tiny language
typedef mp::middle_of<mp::lit_c<'['>, mp::foldl_reject_incomplete_start_with_parser<mp::last_of<mp::lit_c<','>, mp::digit>, mp::digit, fop>, mp::lit_c<']'> > lst;
typedef mp::foldr_start_with_parser<mp::first_of<mp::letter, mp::lit_c<'='> >, mp::digit, fop> asg;
typedef mp::sequence<mp::letter, mp::repeated<mp::alphanum> > ident;
typedef mp::last_of<mp::except<mp::keyword<mp::string<'i','f'> >, tag<1>, tag<2> >, mp::repeated1<mp::letter> > notkw;
// regular expressions (example/regexp)
typedef mp::foldl_reject_incomplete1<mp::one_of<mp::always_c<'.', tag<1> >, mp::transform<mp::one_char_except_c<'.','(',')'>, fun<2> > >, tag<0>, fop> nonbr;
typedef mp::entire_input<mp::foldl_reject_incomplete<mp::one_of<mp::middle_of<mp::lit_c<'('>, nonbr, mp::lit_c<')'> >, nonbr>, tag<3>, fop> > regexp;
'''
T = lambda i: ('tag', i)
A = lambda a, b: ('ap', a, b)
def mul(a, b): return bv32(a) * bv32(b) if (is_z(a) or is_z(b)) else a * b
def neg(a): return -bv32(a) if is_z(a) else -a
def furthest(cx, pos, rej):
    best = ('rej', NONE, pos)
    for r in rej:
        if not cx.decide(pos_lt(r[2], best[2])): best = r
    return ('rej', ANY, best[2])
def one(*ps): return one_of(list(ps), furthest)
def tok(c): return token(lit(ord(c)))
def int_(cx, s, pos):
    items, s2, e, r = loop(cx, digit, s, pos)
    if not items: return r
    v = 0
    for c in items: v = add(mul(v, 10), add(c, -48)) if items else v
    return ('acc', v, s2, e)
int_t = token(int_)
def op(x, y, cx=None): return None
def f_plus(cx):
    return lambda v, c: add(v, c[1]) if cx.decide(eqz(c[0], 43)) else add(v, neg(c[1]))
f_mult = lambda v, c: mul(v, c[1])
def f_un(cx): return lambda c, v: v if cx.decide(eqz(c, 43)) else neg(v)
def prod1(cx, s, pos): return foldl_swp(seq([tok('*'), int_t]), int_t, f_mult, True)(cx, s, pos)
def plus1(cx, s, pos): return foldl_swp(seq([one(tok('+'), tok('-')), prod1]), prod1, f_plus(cx), True)(cx, s, pos)
calc1 = entire_input(nth([repeated(space), plus1], 1))
def simple2(cx, s, pos): return foldr_swp(one(tok('+'), tok('-')), one(int_t, middle_of(tok('('), plus2, tok(')'))), f_un(cx))(cx, s, pos)
def prod2(cx, s, pos): return foldl_swp(seq([tok('*'), simple2]), simple2, f_mult, True)(cx, s, pos)
def plus2(cx, s, pos): return foldl_swp(seq([one(tok('+'), tok('-')), prod2]), prod2, f_plus(cx), True)(cx, s, pos)
calc2 = entire_input(plus2)
def anym(p):
    """the message of a rejection is not looked at here (C08 and others decide it)"""
    return map_err(p, lambda m, st, e: (ANY, e))
bit = cclass(lambda c: inr(c, 48, 49), ANY, ANY)
binary = entire_input(foldl1(fmap(bit, lambda c: add(c, -48)), 0, lambda a, b: add(mul(a, 2), b)))
empty1 = lambda cx, s, pos: ('rej', EOI, pos) if s else ('acc', 1, s, pos)
rat = entire_input(fmap(seq([int_t, one(nth([lit(47), int_t], 1), empty1)]), lambda r: A(*r)))
lst = middle_of(lit(91), foldl_swp(nth([lit(44), digit], 1), digit, A, True), lit(93))
asg = foldr_swp(nth([letter, lit(61)], 0), digit, lambda x, v: A(v, x))
alnum = one(letter, digit)
ident = seq([letter, repeated(alnum)])
def keyword_if(cx, s, pos):
    r = seq([lit(105), lit(102)])(cx, s, pos)
    if r[0] == 'rej': return r
    return ('acc', ANY, r[2], r[3])
notkw = nth([except_(keyword_if, T(1), T(2)), repeated1(letter)], 1)
nonbr = foldl_ri1(one(fmap(lit(46), lambda r: T(1)), fmap(except_chars([46, 40, 41]), lambda c: ('un', 2, c))), T(0), A)
regexp = entire_input(foldl_ri(one(middle_of(lit(40), nonbr, lit(41)), nonbr), T(3), A))
def prop(tier):
    th = tier == 'thorough'
    es = []
    for nm, r, q, t in [('calc1', calc1, 3, 4), ('calc2', calc2, 3, 4), ('binary', binary, 5, 8), ('rat', rat, 4, 5), ('lst', lst, 5, 7), ('asg', asg, 4, 6), ('ident', ident, 4, 5), ('notkw', notkw, 4, 5), ('regexp', regexp, 4, 6)]:
        for n in range(0, (t if th else q) + 1):
            es.append(symb('%s_%d' % (nm, n), 'typename dep<ZZ,%s>::type' % nm, anym(r), n))
    # longer inputs: a fixed shape with arbitrary digits
    digs = lambda cx, s: [cx.assume(AND(inr(c, 48, 57))) for c in s]
    SH = [('calc1', 'd+d*d', calc1), ('calc1', 'd*d-d', calc1), ('calc1', 'dd+dd', calc1), ('calc1', 'd+d-d+d*d', calc1), ('calc1', 'd + d', calc1), ('calc2', '-d*(d+d)', calc2), ('calc2', '(d-(d-d))', calc2), ('calc2', '(d+d', calc2), ('calc2', 'd-(d*d-', calc2), ('calc2', '--d-d', calc2)]
    for k, (nm, shape, r) in enumerate(SH):
        if not th and len(shape) > 8: continue
        cs_ = []; j = 0; dg = []
        for ch in shape:
            if ch == 'd': cs_.append('nd_char<ZZ,97,%d>::value' % j); dg.append(j); j += 1
            else: cs_.append("'%s'" % ch)
        code = 'struct in_ : assume_<ZZ, (%s)> { typedef mp::string<%s> type; };\ntypedef typename run<typename dep<ZZ,%s>::type, typename in_::type, mp::start>::type type;' % (
            ' && '.join("nd_char<ZZ,97,%d>::value >= '0' && nd_char<ZZ,97,%d>::value <= '9'" % (i, i) for i in dg), ','.join(cs_), nm)
        def mk(shape=shape, r=r, dg=dg):
            def inp(cx):
                out = []; i = 0
                for ch in shape:
                    if ch == 'd':
                        c = cx.ch(97, i); i += 1
                        cx.assume(inr(c, 48, 57)); out.append(c)
                    else: out.append(ord(ch))
                return out
            return oracle(anym(r), inp)
        es.append(Entry('%s_shape%d' % (nm, k), code, mk()))
    return Property('C19', INC, es, PRE, bounds='9 assembled parsers (calculators with precedence, parentheses and unary operators, binary and rational numbers, lists, assignments, identifiers, keywords, regular expressions) on all strings of at most 3 to 5 characters (4 to 8 thorough), any start position; longer calculator inputs of fixed shape with arbitrary digits')
