"""repeated family and iterate: the list of the results, longest run, exact counts."""
from vlib.core import *
from vlib.sem import *
from props.c08 import one
INC = inc('repeated', 'repeated1', 'repeated_reject_incomplete', 'repeated_reject_incomplete1', 'repeated_one_of', 'repeated_one_of1', 'iterate', 'iterate_c', 'lit_c', 'digit', 'last_of', 'letter', 'one_char', 'sequence', 'range_c')
FAM = [('repeated', repeated), ('repeated1', repeated1), ('repeated_reject_incomplete', repeated_ri), ('repeated_reject_incomplete1', repeated_ri1)]
def prop(tier):
    th = tier == 'thorough'
    es = []
    for nm, f in FAM:
        for n in range(0, (5 if nm in ('repeated', 'repeated_reject_incomplete1') else 4) + th):
            es.append(fixed('%s_%d' % (nm, n), 'mp::%s<pstub<ZZ,0> >' % nm, f(pstub(0)), n, reach=['acc'] if '1' not in nm or n else ['rej']))
        item = "mp::last_of<mp::lit_c<','>,mp::digit>"
        ri = nth([lit(44), digit], 1)
        for n in range(0, 5 + th):
            es.append(symb('%s_item_%d' % (nm, n), 'mp::%s<%s>' % (nm, item), f(ri), n))
            if n < 4: es.append(symb('%s_digit_%d' % (nm, n), 'mp::%s<mp::digit>' % nm, f(digit), n))
        es.append(fixed('%s_then' % nm, 'mp::sequence<mp::%s<pstub<ZZ,0> >,stub<ZZ,1> >' % nm, seq([f(pstub(0)), stub(1)]), 2))
        for k in (5, 6, 7, 9, 16, 29):
            es.append(patt('%s_long%d' % (nm, k), 'mp::%s<mp::digit>' % nm, f(digit), [48 + i % 10 for i in range(k)] + [None, None]))
        es.append(patt('%s_longitem' % nm, 'mp::%s<%s>' % (nm, item), f(ri), cs(',1,2,3,4,5,6,7,8,9,0,1,2') + [None, None]))
    # long runs of the same parser
    es.append(Entry('longrun', 'typedef typename run<mp::repeated<mp::digit>, mp::string<%s>, typename spos<ZZ,99>::type>::type type;' % ','.join(["'1'"] * 30 + ['nd_char<ZZ,98,0>::value']),
        oracle(repeated(digit), lambda cx: [49] * 30 + [cx.ch(98, 0)], P(99))))
    for nm, f in [('repeated_one_of', repeated), ('repeated_one_of1', repeated1)]:
        for n in range(0, 3 + th):
            es.append(fixed('%s_%d' % (nm, n), 'mp::%s<pstub<ZZ,0>,pstub<ZZ,1> >' % nm, f(one([pstub(0), pstub(1)])), n))
        for n in range(0, 4):
            es.append(symb('%s_r_%d' % (nm, n), "mp::%s<mp::digit,mp::last_of<mp::lit_c<'-'>,mp::letter>,mp::lit_c<' '> >" % nm,
                f(one([digit, nth([lit(45), letter], 1), lit(32)])), n))
    for k in range(0, 4):
        for n in range(0, 4 if k < 3 else 3):
            es.append(fixed('iterate%d_%d' % (k, n), 'mp::iterate_c<stub<ZZ,0>,%d>' % k, iterate(stub(0), k), n))
        es.append(fixed('iterate_b%d' % k, 'mp::iterate<stub<ZZ,0>,mpl::int_<%d> >' % k, iterate(stub(0), k), 2))
        es.append(symb('iterate_r%d' % k, 'mp::iterate_c<mp::digit,%d>' % k, iterate(digit, k), 4))
    # large counts: exactly that many items, no more and no fewer
    for k in list(range(4, 33)):
        es.append(patt('iterate_big%d' % k, 'mp::iterate_c<mp::digit,%d>' % k, iterate(digit, k), [48 + i % 10 for i in range(k - 2)] + [None, None, None][:32 - k + 2]))
    for k in (7, 30):
        es.append(patt('iterate_bigb%d' % k, 'mp::iterate<mp::digit,mpl::int_<%d> >' % k, iterate(digit, k), [48 + i % 10 for i in range(k - 2)] + [None, None, None]))
    def anyc(name, q, ref, items, hi):
        es.append(Entry(name, 'typedef typename run<mp::iterate_c<%s,nd_int<ZZ,5,0,0,%d>::value>, %s, typename spos<ZZ,99>::type>::type type;' % (q, hi, pcode(98, items)),
            oracle(lambda cx, s, p: iterate(ref, cx.value(cx.int(5, 0, 0, hi), 0, hi))(cx, s, p), lambda cx: pstr(cx, 98, items), P(99)), reach=['acc', 'rej']))
    anyc('iterate_any', 'mp::one_char', one_char, [None] * 4, 5)
    anyc('iterate_anyd', 'mp::digit', digit, cs('0123456789') + [None, None], 14)
    return Property('C12', INC, es, bounds='arbitrary (stub) item parsers on inputs of at most %d characters, any start position; concrete items on all strings of at most %d characters; runs of 5 to 29 items ended by 2 arbitrary characters; counts 0 to 32' % (4 + th, 4 + th),
        assumptions=['the repeated parser never accepts without consuming input (the repetition is otherwise infinite)', 'the combined parsers obey the parser contract'])
