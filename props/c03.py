"""Numbers: int_ yields the decimal value of the longest digit prefix; digit_val the value of one digit."""
from vlib.core import *
from vlib.sem import *
INC = inc('int_', 'digit_val', 'entire_input', 'token', 'sequence', 'lit_c', 'transform', 'foldl1', 'digit', 'foldl', 'util/digit_to_int')
digit_v = fmap(digit, lambda c: add(c, -48))
def int_(cx, s, pos):
    items, s2, e, r = loop(cx, digit_v, s, pos)
    if not items: return r
    v = 0
    for d in items: v = d if not is_z(v) and v == 0 else bv32(v) * 10 + d
    return ('acc', v, s2, e)
def prop(tier):
    th = tier == 'thorough'
    es = []
    for n in range(0, 9):
        es.append(symb('int_%d' % n, 'mp::int_', int_, n, reach=['acc', 'rej'] if n else ['rej']))
    # long all-digit inputs up to and beyond the int range
    for n in (9, 10):
        es.append(Entry('intdigits_%d' % n, '''
  %s
  typedef typename run<mp::int_, mp::string<%s>, typename spos<ZZ,99>::type>::type type;''' % (
            '', ','.join('nd_digit<ZZ,%d,%d>::value' % (k, 49 if n == 10 and k == 0 else 57) for k in range(n))),
            (lambda n: lambda cx: int_(cx, [dig(cx, k, 49 if n == 10 and k == 0 else 57) for k in range(n)], spos(cx, 99)))(n)))
    es.append(Entry('intmax', 'typedef typename run<mp::int_, mp::string<50,49,52,55,52,56,51,54,52,nd_digit<ZZ,0,54>::value>, typename spos<ZZ,99>::type>::type type;',
        lambda cx: int_(cx, cs('214748364') + [dig(cx, 0, 54)], spos(cx, 99))))
    for k in (1, 2, 3, 5, 8, 12, 24):
        es.append(patt('zeros_%d' % k, 'mp::int_', int_, [48] * k + [None] * 4))
    es.append(patt('zeros_mid', 'mp::int_', int_, [None] + [48] * 6 + [None, None]))
    for n in range(0, 4):
        es.append(symb('digit_val_%d' % n, 'mp::digit_val', digit_v, n))
        es.append(symb('token_int_%d' % n, 'mp::token<mp::int_>', token(int_), n))
        es.append(symb('entire_int_%d' % n, 'mp::entire_input<mp::int_>', entire_input(int_), n))
    es.append(symb('pair_3', 'mp::sequence<mp::int_, mp::lit_c<\'+\'>, mp::int_>', seq([int_, lit(43), int_]), 3))
    if th: es.append(symb('pair_5', 'mp::sequence<mp::int_, mp::lit_c<\'+\'>, mp::int_>', seq([int_, lit(43), int_]), 5))
    pre = '''
template <class ZZ, int K, int H, bool D = (nd_char<ZZ,98,K>::value >= '0' && nd_char<ZZ,98,K>::value <= H)> struct nd_digit : assume_<ZZ, D> { static const char value = nd_char<ZZ,98,K>::value; };
'''
    return Property('C03', INC, es, pre, bounds='all strings of at most 8 characters; all numbers of 9 digits, and of 10 digits below 2000000000 and from 2147483640 to INT_MAX - 1; numbers with 1 to 24 leading zeros',
        assumptions=['values from INT_MAX are outside the property (a constant-expression overflow is diagnosed by the compiler; mpl::int_<INT_MAX> is itself ill-formed, as it names its successor)'])
def dig(cx, k, h):
    c = cx.ch(98, k); cx.assume(inr(c, 48, h)); return c
