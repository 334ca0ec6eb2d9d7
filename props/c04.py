"""Character utility metafunctions."""
from vlib.core import *
from vlib.sem import *
INC = inc(*['util/' + x for x in 'digit_to_int digit_to_int_c in_range in_range_c int_to_digit int_to_digit_c is_digit is_lcase_letter is_letter is_ucase_letter is_whitespace is_whitespace_c'.split()])
PRE = '''
namespace u = mp::util;
template <char C> struct lch { typedef mpl::char_<C> type; };    // a lazy boxed character
template <int C> struct lin { typedef mpl::int_<C> type; };
template <class T> struct nde { typedef num<static_cast<int>(T::value)> type; };
template <> struct nde<mp::error::digit_expected> { typedef err<1, nil, nil, nil> type; };
'''
C = 'nd_char<ZZ,1,0>::value'
LC = 'lch<%s>' % C
I = lambda k: 'nd_int<ZZ,1,%d,-1000000000,1000000000>::value' % k
def b(c): return ITE(c, 1, 0)
def prop(tier):
    es = []
    c = lambda cx: cx.ch(1, 0)
    for nm, f in (('is_digit', is_digit), ('is_lcase_letter', is_lower), ('is_ucase_letter', is_upper), ('is_letter', is_letter), ('is_whitespace', is_ws)):
        o = (lambda f: lambda cx: b(f(c(cx))))(f)
        es.append(val(nm, 'num<u::%s<%s>::type::value>' % (nm, LC), o, no_ff=False))
        es.append(val(nm + '_mf', 'num<u::%s<>::type::template apply<%s>::type::value>' % (nm, LC), o, no_ff=False))
        es.append(val(nm + '_direct', 'num<u::%s<%s>::value>' % (nm, 'mpl::char_<%s>' % C), o, no_ff=False))
    es.append(val('is_whitespace_c', 'num<u::is_whitespace_c<%s>::type::value>' % C, lambda cx: b(is_ws(c(cx))), no_ff=False))
    def d2i(cx): return add(c(cx), -48) if cx.decide(is_digit(c(cx))) else DIGIT
    es.append(val('digit_to_int_c', 'typename nde<typename u::digit_to_int_c<%s>::type>::type' % C, d2i, no_ff=False))
    es.append(val('digit_to_int', 'typename nde<typename u::digit_to_int<%s>::type>::type' % LC, d2i, no_ff=False))
    es.append(val('digit_to_int_mf', 'typename nde<typename u::digit_to_int<>::type::template apply<%s>::type>::type' % LC, d2i, no_ff=False))
    n = 'nd_int<ZZ,1,1,0,9>::value'
    i2d = lambda cx: add(cx.int(1, 1, 0, 9), 48)
    es.append(val('int_to_digit_c', 'num<u::int_to_digit_c<%s>::type::value>' % n, i2d))
    es.append(val('int_to_digit', 'num<u::int_to_digit<lin<%s> >::type::value>' % n, i2d))
    es.append(val('int_to_digit_mf', 'num<u::int_to_digit<>::template apply<lin<%s> >::type::value>' % n, i2d))
    es.append(val('roundtrip', 'num<u::digit_to_int<u::int_to_digit<lin<%s> > >::type::value>' % n, lambda cx: cx.int(1, 1, 0, 9)))
    R = lambda cx: [cx.int(1, k, -1000000000, 1000000000) for k in (5, 6, 7)]
    def rng(cx): x = R(cx); return b(inr(x[2], x[0], x[1]))
    L, H, X = ('lin<%s>' % I(k) for k in (5, 6, 7))
    M = lambda t: 'mpl::int_<%s>' % t[4:-1]
    es.append(val('in_range', 'num<u::in_range<%s,%s,%s>::type::value>' % (M(L), M(H), M(X)), rng))
    es.append(val('in_range_1', 'num<u::in_range<%s,%s>::type::template apply<%s>::type::value>' % (M(L), M(H), M(X)), rng))
    es.append(val('in_range_2', 'num<u::in_range<%s>::type::template apply<%s,%s>::type::value>' % (M(L), M(H), M(X)), rng))
    es.append(val('in_range_3', 'num<u::in_range<>::type::template apply<%s,%s,%s>::type::value>' % (M(L), M(H), M(X)), rng))
    es.append(val('in_range_c_int', 'num<u::in_range_c<int,%s,%s>::type::template apply<%s>::type::value>' % (I(5), I(6), X), rng))
    CC = lambda k: 'nd_char<ZZ,1,%d>::value' % k
    rc = lambda cx: b(inr(cx.ch(1, 2), cx.ch(1, 0), cx.ch(1, 1)))
    es.append(val('in_range_c_char', 'num<u::in_range_c<char,%s,%s>::type::template apply<lch<%s> >::type::value>' % (CC(0), CC(1), CC(2)), rc, no_ff=False))
    es.append(val('in_range_char', 'num<u::in_range<mpl::char_<%s>,mpl::char_<%s>,mpl::char_<%s> >::type::value>' % (CC(0), CC(1), CC(2)), rc, no_ff=False))
    return Property('C04', INC, es, PRE, bounds='all 256 character values; all int values within +-10^9 for the range bounds and the item; digits 0..9 for int_to_digit',
        assumptions=['char is signed 8-bit'])
