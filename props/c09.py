"""nth_of / nth_of_c / first_of / last_of / middle_of: all parsers run in order, the
chosen result is returned with the rest of the input; the first rejection is the
result; middle_of marks a missing closer as unpaired with the start position."""
from vlib.core import *
from vlib.sem import *
INC = inc('nth_of', 'nth_of_c', 'first_of', 'last_of', 'middle_of', 'lit_c', 'digit', 'letter', 'int_', 'one_char')
def st(k): return ','.join('stub<ZZ,%d>' % i for i in range(k))
def sts(k): return [stub(i) for i in range(k)]
def bad(k, n): return fail(index_err(0, n - 1, k))
def prop(tier):
    th = 1 + (tier == 'thorough')
    es = []
    for k in range(1, 5):
        for n in range(0, {1: 3, 2: 3, 3: 2, 4: 1}[k] + th):
            for j in range(k):
                if th or k < 4 or j in (0, 2, 3):
                    es.append(fixed('nthc%d_%d_%d' % (j, k, n), 'mp::nth_of_c<%d,%s>' % (j, st(k)), nth(sts(k), j), n, reach=['acc', 'rej']))
            if n == (1 if k < 4 else 0):
                es.append(fixed('nth%d_%d' % (k, n), 'mp::nth_of<mpl::int_<%d>,%s>' % (k // 2, st(k)), nth(sts(k), k // 2), n, reach=['acc', 'rej']))
            if n < 2:
                es.append(fixed('first%d_%d' % (k, n), 'mp::first_of<%s>' % st(k), nth(sts(k), 0), n, reach=['acc', 'rej']))
                es.append(fixed('last%d_%d' % (k, n), 'mp::last_of<%s>' % st(k), nth(sts(k), k - 1), n, reach=['acc', 'rej']))
        for j in (-1, k, k + 3):
            es.append(fixed('bad%d_%s' % (k, str(j).replace('-', 'm')), 'mp::nth_of_c<%d,%s>' % (j, st(k)), bad(j, k), 1))
    for j in range(5):
        es.append(fixed('nthc%d_5' % j, 'mp::nth_of_c<%d,%s>' % (j, st(5)), nth(sts(5), j), 0))
    es.append(fixed('first5', 'mp::first_of<%s>' % st(5), nth(sts(5), 0), 0))
    es.append(fixed('last5', 'mp::last_of<%s>' % st(5), nth(sts(5), 4), 0))
    LET = 'abcdefghijklmnopqrstuvwxyz'
    for k in (6, 7, 8, 11, 16):
        lits = ','.join('mp::lit_c<%d>' % ord(c) for c in LET[:k])
        rl = [lit(ord(c)) for c in LET[:k]]
        for j in sorted(set([0, 1, k // 2, k - 2, k - 1])):
            es.append(patt('many%d_%d' % (j, k), 'mp::nth_of_c<%d,%s>' % (j, lits), nth(rl, j), [None if i in (j, k - 1) else ord(c) for i, c in enumerate(LET[:k])] + [None], stds=('11', '14'), reach=['acc', 'rej']))
        for nm, j in (('first', 0), ('last', k - 1)):
            es.append(patt('many_%s%d' % (nm, k), 'mp::%s_of<%s>' % (nm, lits), nth(rl, j), cs(LET[:k - 1]) + [None, None], stds=('11', '14'), reach=['acc', 'rej']))
        es.append(patt('manybad%d' % k, 'mp::nth_of_c<%d,%s>' % (k, lits), bad(k, k), [None], stds=('11', '14')))
    # an arbitrary index
    es.append(Entry('nth_any', 'typedef typename run<mp::nth_of_c<nd_int<ZZ,5,0,-3,6>::value,mp::one_char,mp::digit,mp::letter>, typename sstr<ZZ,98,3>::type, typename spos<ZZ,99>::type>::type type;',
        oracle(lambda cx, s, p: (lambda k: nth([one_char, digit, letter], k) if 0 <= k < 3 else bad(k, 3))(cx.value(cx.int(5, 0, -3, 6), -3, 6))(cx, s, p), S(98, 3), P(99)), reach=['acc', 'rej']))
    # no parsers at all
    for nm, p, r, sd in (('nthc', 'mp::nth_of_c<nd_int<ZZ,5,0,-3,6>::value>', lambda cx, s, p: bad(cx.value(cx.int(5, 0, -3, 6), -3, 6), 0)(cx, s, p), ('98', '11', '14')),
                     ('nth', 'mp::nth_of<mpl::int_<nd_int<ZZ,5,0,-3,6>::value> >', lambda cx, s, p: bad(cx.value(cx.int(5, 0, -3, 6), -3, 6), 0)(cx, s, p), ('98', '11', '14')),
                     ('first', 'typename dep<ZZ,mp::first_of<> >::type', bad(0, 0), ('98', '11', '14')), ('last11', 'typename dep<ZZ,mp::last_of<> >::type', bad(0, 0), ('11', '14')),
                     ('last98', 'typename dep<ZZ,mp::last_of<> >::type', lambda cx, s, p: ('rej', ANY, p), ('98',))):
        for n in (0, 1): es.append(Entry('none_%s_%d' % (nm, n), 'typedef typename run<%s, typename sstr<ZZ,98,%d>::type, typename spos<ZZ,99>::type>::type type;' % (p, n), oracle(r, S(98, n), P(99)), stds=sd, reach=['rej']))
    for n in range(0, 3 + th):
        es.append(fixed('mid_%d' % n, 'mp::middle_of<stub<ZZ,0>,stub<ZZ,1>,stub<ZZ,2> >', middle_of(stub(0), stub(1), stub(2)), n, reach=['acc', 'rej']))
    for n in range(0, 4 + th):
        es.append(symb('paren_%d' % n, "mp::middle_of<mp::lit_c<'('>,mp::digit,mp::lit_c<')'> >", middle_of(lit(40), digit, lit(41)), n))
        es.append(symb('firstr_%d' % n, "mp::first_of<mp::letter,mp::lit_c<';'> >", nth([letter, lit(59)], 0), n))
    nest = "mp::middle_of<mp::lit_c<'('>,mp::middle_of<mp::lit_c<'('>,mp::letter,mp::lit_c<')'> >,mp::lit_c<')'> >"
    for n in (2, 4, 5):
        es.append(symb('nest_%d' % n, nest, middle_of(lit(40), middle_of(lit(40), letter, lit(41)), lit(41)), n))
    return Property('C09', INC, es, bounds='1 to 5 parsers (arbitrary stubs), every index (up to 16 literals in C++11 and later), inputs of at most %d characters, any start position; concrete parsers on all strings of at most 5 characters' % (3 if th else 2),
        assumptions=['the combined parsers obey the parser contract'])
