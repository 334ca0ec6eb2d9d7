"""foldl family: P is applied as long as it accepts; the results are combined left to
right; variants differ only in the start value, in needing one item and in rejecting a
half-read item."""
from vlib.core import *
from vlib.sem import *
INC = inc('foldl', 'foldl1', 'foldl_reject_incomplete', 'foldl_reject_incomplete1', 'foldl_start_with_parser', 'foldl_reject_incomplete_start_with_parser', 'lit_c', 'digit', 'int_', 'last_of', 'sequence', 'token', 'letter')
ap = lambda a, b: ('ap', a, b)
T = ('tag', 7)
FAM = [('foldl', foldl), ('foldl1', foldl1), ('foldl_reject_incomplete', foldl_ri), ('foldl_reject_incomplete1', foldl_ri1)]
LONG = (6, 7, 9, 16, 29)
def prop(tier):
    th = 1 + (tier == 'thorough')
    es = []
    for nm, f in FAM:
        for n in range(0, 5 + th):
            es.append(fixed('%s_%d' % (nm, n), 'mp::%s<pstub<ZZ,0>,tag<7>,fop>' % nm, f(pstub(0), T, ap), n, reach=['acc'] if '1' not in nm or n else ['rej']))
        # items of several characters, a half-read item at the end
        item = "mp::last_of<mp::lit_c<','>,mp::digit>"
        ri = nth([lit(44), digit], 1)
        for n in range(0, 6 + th):
            es.append(symb('%s_item_%d' % (nm, n), 'mp::%s<%s,tag<7>,fop>' % (nm, item), f(ri, T, ap), n))
        # long runs: all but the last characters fixed
        for k in LONG:
            es.append(patt('%s_long%d' % (nm, k), 'mp::%s<mp::digit,tag<7>,fop>' % nm, f(digit, T, ap), [48 + i % 10 for i in range(k)] + [None, None]))
        es.append(patt('%s_longitem' % nm, 'mp::%s<%s,tag<7>,fop>' % (nm, item), f(ri, T, ap), cs(',1,2,3,4,5,6,7,8,9,0,1,2') + [None, None]))
        # a fold followed by another parser sees what the fold left
        es.append(fixed('%s_then' % nm, 'mp::sequence<mp::%s<pstub<ZZ,0>,tag<7>,fop>,stub<ZZ,1> >' % nm, seq([f(pstub(0), T, ap), stub(1)]), 2))
    for nm, inco in [('foldl_start_with_parser', False), ('foldl_reject_incomplete_start_with_parser', True)]:
        for n in range(0, 4 + th):
            es.append(fixed('%s_%d' % (nm, n), 'mp::%s<pstub<ZZ,0>,stub<ZZ,1>,fop>' % nm, foldl_swp(pstub(0), stub(1), ap, inco), n, reach=['acc', 'rej']))
        p = "mp::%s<mp::last_of<mp::lit_c<'+'>,mp::digit>,mp::letter,fop>" % nm
        for n in range(0, 6):
            es.append(symb('%s_item_%d' % (nm, n), p, foldl_swp(nth([lit(43), digit], 1), letter, ap, inco), n))
        for k in (5, 12):
            es.append(patt('%s_long%d' % (nm, k), p, foldl_swp(nth([lit(43), digit], 1), letter, ap, inco), [None] + cs('+1+2+3+4+5+6+7+8+9+0+1+2')[:2 * k] + [None, None]))
    return Property('C10', INC, es, bounds='arbitrary (stub) item parsers on inputs of at most %d characters, any start position; items of 2 characters on all strings of at most %d characters; runs of 6 to 29 items (fixed characters) ended by 2 arbitrary characters' % (4 + th, 5 + th),
        assumptions=['the item parser never accepts without consuming input (the fold is otherwise infinite)', 'the combined parsers obey the parser contract'])
