"""Character-class parsers accept exactly their documented set and consume exactly one character."""
from vlib.core import *
from vlib.sem import *
INC = inc('digit', 'letter', 'space', 'one_char', 'alphanum', 'lit', 'lit_c', 'range', 'range_c', 'one_char_except', 'one_char_except_c', 'one_of_c', 'digit_val', 'always_c')
PRE = '''
template <class ZZ, int I> struct bc { typedef bc type; static const char value = nd_char<ZZ, 1, I>::value; typedef char value_type; };
template <char C> struct lch { typedef mpl::char_<C> type; };
'''
def SC(k): return 'nd_char<ZZ,1,%d>::value' % k
def BC(k): return 'lch<nd_char<ZZ,1,%d>::value>' % k
def dyn(f):
    """reference parser depending on the symbolic parameter characters"""
    return lambda cx, s, pos: f(cx)(cx, s, pos)
def par(cx, k): return cx.ch(1, k)
def anyrej(cx, pos, s=None): return ('rej', ANY, pos)
def alnum(cx, s, pos):
    # alphanum = one_of<letter, digit>: the error is not specified beyond being one, at the start
    if s and cx.decide(OR(is_letter(s[0]), is_digit(s[0]))): return one_char(cx, s, pos)
    return ('rej', ANY, pos)
def oneofc(n):
    def f(cx):
        def p(cx, s, pos):
            if s and cx.decide(oneof_c(s[0], [par(cx, k) for k in range(n)])): return one_char(cx, s, pos)
            return ('rej', ANY, pos)
        return p
    return dyn(f)
def prop(tier):
    th = tier == 'thorough'
    es = []
    def two(nm, ty, ref, sizes=(0, 1, 2), **kw):
        for n in sizes:
            es.append(symb('%s_%d' % (nm, n), ty, ref, n, reach=['acc', 'rej'] if n and 'noreach' not in kw else None, **{k: v for k, v in kw.items() if k != 'noreach'}))
    two('digit', 'mp::digit', digit)
    two('letter', 'mp::letter', letter)
    two('space', 'mp::space', space)
    two('one_char', 'mp::one_char', one_char, noreach=1)
    two('alphanum', 'mp::alphanum', alnum)
    two('digit_val', 'mp::digit_val', fmap(digit, lambda c: add(c, -48)))
    two('lit_c', 'mp::lit_c<%s>' % SC(0), dyn(lambda cx: lit(par(cx, 0))))
    two('lit', 'mp::lit<%s>' % BC(0), dyn(lambda cx: lit(par(cx, 0))))
    two('range_c', 'mp::range_c<%s,%s>' % (SC(0), SC(1)), dyn(lambda cx: range_(par(cx, 0), par(cx, 1))))
    two('range', 'mp::range<%s,%s>' % (BC(0), BC(1)), dyn(lambda cx: range_(par(cx, 0), par(cx, 1))))
    two('always_c', 'mp::always_c<%s, tag<7>>' % SC(0), dyn(lambda cx: fmap(lit(par(cx, 0)), lambda r: ('tag', 7))))
    for k in (range(0, 11) if th else (0, 1, 2, 3, 5, 9, 10)):
        cs_ = lambda cx, k=k: [par(cx, i) for i in range(k)]
        r = (lambda k: dyn(lambda cx: except_chars([par(cx, i) for i in range(k)])))(k)
        sz = (0, 1) if k != 2 else (0, 1, 2)
        stds = ('98', '11', '14')
        two('except_c%d' % k, 'mp::one_char_except_c<%s>' % ','.join(SC(i) for i in range(k)), r, sizes=sz, noreach=1, stds=stds)
        two('except%d' % k, 'mp::one_char_except<%s>' % ','.join(BC(i) for i in range(k)), r, sizes=sz, noreach=1, stds=stds)
    for k in (range(1, 13) if th else (1, 2, 3, 4, 5, 8)):
        two('one_of_c%d' % k, 'mp::one_of_c<%s>' % ','.join(SC(i) for i in range(k)), oneofc(k), sizes=(0, 1) if k != 2 else (0, 1, 2))
    return Property('C02', INC, es, PRE, bounds='inputs of 0-2 characters, all character values, all start positions, all parameter characters (literals, range ends, up to 10 excluded and 8/12 listed characters)',
        assumptions=['char is 8-bit and signed (x86-64)'])
