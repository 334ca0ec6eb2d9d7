"""one_of / one_of_c: ordered choice - the first alternative that accepts decides; when
none does, the error is the one of the alternative that got furthest."""
from vlib.core import *
from vlib.sem import *
INC = inc('one_of', 'one_of_c', 'lit_c', 'digit', 'letter', 'int_', 'sequence', 'keyword', 'last_of', 'transform_error_message', 'transform', 'range_c', 'repeated_one_of')
def full_lt(p, q):
    return OR(pos_lt(p, q), AND(eqz(p[1], q[1]), eqz(p[2], q[2]), lt(p[3], q[3])))
def furthest(cx, pos, rej):
    best = ('rej', NONE, pos)
    for r in rej:
        if not cx.decide(full_lt(r[2], best[2])): best = r
    if cx.decide(NOT(full_lt(pos, best[2]))):
        return ('rej', Alt(NONE, *[r[1] for r in rej[-1:]]), pos)
    return best
def one(ps): return one_of(ps, furthest)
def anyerr(cx, pos, rej): return ('rej', ANY, pos)
def st(k): return ','.join('stub<ZZ,%d>' % i for i in range(k))
def chars(n): return 'abcdefghijklmnopqrstuvwxyz'[:n]
def prop(tier):
    th = tier == 'thorough'
    es = []
    for k in range(1, 5):
        for n in range(0, {1: 3, 2: 4, 3: 3, 4: 2}[k] + th):
            es.append(fixed('one%d_%d' % (k, n), 'mp::one_of<%s>' % st(k), one([stub(i) for i in range(k)]), n, reach=['acc', 'rej']))
    es.append(fixed('one0', 'mp::one_of<>', one([]), 1))
    es.append(fixed('nested', 'mp::one_of<mp::one_of<stub<ZZ,0>, stub<ZZ,1> >, stub<ZZ,2> >', one([one([stub(0), stub(1)]), stub(2)]), 1))
    es.append(fixed('nested_r', 'mp::one_of<stub<ZZ,0>, mp::one_of<stub<ZZ,1>, stub<ZZ,2> > >', one([stub(0), one([stub(1), stub(2)])]), 1))
    # ties beyond the start: the same stub seen through two message changes
    tem = lambda i, f: transform_msg(stub(i), lambda m: ('un', f, m))
    es.append(fixed('tie', 'mp::one_of<mp::transform_error_message<stub<ZZ,0>,fun<1> >, mp::transform_error_message<stub<ZZ,0>,fun<2> > >', one([tem(0, 1), tem(0, 2)]), 2))
    es.append(fixed('in_seq', 'mp::sequence<mp::one_of<stub<ZZ,0>, stub<ZZ,1> >, stub<ZZ,2> >', seq([one([stub(0), stub(1)]), stub(2)]), 2))
    if th:
        es.append(fixed('one5_1', 'mp::one_of<%s>' % st(5), one([stub(i) for i in range(5)]), 1))
        es.append(fixed('of_seq', 'mp::one_of<mp::sequence<stub<ZZ,0>, stub<ZZ,1> >, mp::sequence<stub<ZZ,2>, stub<ZZ,3> > >', one([seq([stub(0), stub(1)]), seq([stub(2), stub(3)])]), 1))
    # concrete alternatives over all strings
    ab = "mp::one_of<mp::last_of<mp::lit_c<'a'>,mp::lit_c<'b'>,mp::digit>, mp::last_of<mp::lit_c<'a'>,mp::letter>, mp::digit>"
    rab = one([nth([lit(97), lit(98), digit], 2), nth([lit(97), letter], 1), digit])
    for n in range(0, 5 if th else 4):
        es.append(symb('real_%d' % n, ab, rab, n))
    for k in (1, 2, 3, 4, 5, 8, 19, 20):
        c = [32 + 3 * i for i in range(k)]
        for n in ((0, 1, 2) if k < 4 else (1,)):
            es.append(symb('ofc%d_%d' % (k, n), 'mp::one_of_c<%s>' % ','.join(map(str, c)), one_of([lit(x) for x in c], anyerr), n, reach=['acc', 'rej'] if n else ['rej']))
    # arbitrary characters in one_of_c
    es.append(Entry('ofc_sym', 'typedef typename run<mp::one_of_c<nd_char<ZZ,1,0>::value,nd_char<ZZ,1,1>::value,nd_char<ZZ,1,2>::value>, typename sstr<ZZ,98,2>::type, typename spos<ZZ,99>::type>::type type;',
        oracle(lambda cx, s, p: one_of([lit(cx.ch(1, i)) for i in range(3)], anyerr)(cx, s, p), S(98, 2), P(99))))
    es.append(symb('ofc0', 'mp::one_of_c<>', one_of([], anyerr), 1))
    # many alternatives
    for k in (6, 7, 10, 15, 19, 20):
        for nm, n in (('one_of', 0), ('repeated_one_of', 1)) if k in (7, 20) else (('one_of', 0),):
            alts = ["mp::last_of<mp::lit_c<'a'>,mp::lit_c<%d> >" % (98 + i) for i in range(k)]
            ro = one_of([nth([lit(97), lit(98 + i)], 1) for i in range(k)], lambda cx, pos, rej: (lambda r: r if cx.decide(pos_lt(pos, r[2])) else ('rej', ANY, pos))(rej[-1]))
            es.append(patt('pairs_%s%d' % (nm, k), 'mp::%s<%s>' % (nm, ','.join(alts)), repeated(ro) if n else ro, [None, None, None], reach=['acc', 'rej'] if not n else ['acc']))
    es.append(symb('lits33', 'mp::one_of<%s>' % ','.join('mp::lit_c<%d>' % (40 + i) for i in range(33)), one_of([lit(40 + i) for i in range(33)], anyerr), 1, stds=('11', '14')))
    es.append(symb('lits20', 'mp::one_of<%s>' % ','.join('mp::lit_c<%d>' % (40 + i) for i in range(20)), one_of([lit(40 + i) for i in range(20)], anyerr), 1))
    return Property('C08', INC, es, bounds='1 to 5 alternatives (arbitrary stubs) on inputs of at most 3 characters, any start position; concrete alternatives on all strings of at most %d characters; one_of_c with up to 20 characters' % (4 if th else 3),
        assumptions=['the combined parsers obey the parser contract', 'among rejections at the start position the message may be the generic one or the last alternative\'s (C++98 and C++11 differ)'])
