"""foldr family: as foldl, but the results are combined from the right."""
from vlib.core import *
from vlib.sem import *
INC = inc('foldr', 'foldr1', 'foldr_reject_incomplete', 'foldr_reject_incomplete1', 'foldr_start_with_parser', 'lit_c', 'digit', 'int_', 'last_of', 'first_of', 'sequence', 'token', 'letter')
ap = lambda x, v: ('ap', v, x)
T = ('tag', 7)
FAM = [('foldr', foldr), ('foldr1', foldr1), ('foldr_reject_incomplete', foldr_ri), ('foldr_reject_incomplete1', foldr_ri1)]
LONG = (6, 7, 9, 16, 29)
def prop(tier):
    th = 1 + (tier == 'thorough')
    es = []
    for nm, f in FAM:
        for n in range(0, 5 + th):
            es.append(fixed('%s_%d' % (nm, n), 'mp::%s<pstub<ZZ,0>,tag<7>,fop>' % nm, f(pstub(0), T, ap), n, reach=['acc'] if '1' not in nm or n else ['rej']))
        item = "mp::last_of<mp::lit_c<','>,mp::digit>"
        ri = nth([lit(44), digit], 1)
        for n in range(0, 6 + th):
            es.append(symb('%s_item_%d' % (nm, n), 'mp::%s<%s,tag<7>,fop>' % (nm, item), f(ri, T, ap), n))
        for k in LONG:
            es.append(patt('%s_long%d' % (nm, k), 'mp::%s<mp::digit,tag<7>,fop>' % nm, f(digit, T, ap), [48 + i % 10 for i in range(k)] + [None, None]))
        es.append(patt('%s_longitem' % nm, 'mp::%s<%s,tag<7>,fop>' % (nm, item), f(ri, T, ap), cs(',1,2,3,4,5,6,7,8,9,0,1,2') + [None, None]))
        es.append(fixed('%s_then' % nm, 'mp::sequence<mp::%s<pstub<ZZ,0>,tag<7>,fop>,stub<ZZ,1> >' % nm, seq([f(pstub(0), T, ap), stub(1)]), 2))
    for n in range(0, 4 + th):
        es.append(fixed('swp_%d' % n, 'mp::foldr_start_with_parser<pstub<ZZ,0>,stub<ZZ,1>,fop>', foldr_swp(pstub(0), stub(1), ap), n, reach=['acc', 'rej']))
    p = "mp::foldr_start_with_parser<mp::first_of<mp::digit,mp::lit_c<'+'> >,mp::letter,fop>"
    for n in range(0, 6):
        es.append(symb('swp_item_%d' % n, p, foldr_swp(nth([digit, lit(43)], 0), letter, ap), n))
    for k in (5, 12):
        es.append(patt('swp_long%d' % k, p, foldr_swp(nth([digit, lit(43)], 0), letter, ap), cs('1+2+3+4+5+6+7+8+9+0+1+2+')[:2 * k] + [None, None, None]))
    return Property('C11', INC, es, bounds='arbitrary (stub) item parsers on inputs of at most %d characters, any start position; items of 2 characters on all strings of at most %d characters; runs of 6 to 29 items (fixed characters) ended by 2 arbitrary characters' % (4 + th, 5 + th),
        assumptions=['the item parser never accepts without consuming input (the fold is otherwise infinite)', 'the combined parsers obey the parser contract'])
