"""Source positions: every character advances the position exactly as documented; ordering of positions."""
from vlib.core import *
from vlib.sem import *
INC = inc('one_char', 'repeated', 'next_char', 'next_line', 'start', 'source_position', 'always', 'foldr', 'iterate_c', 'get_line', 'get_col', 'get_position') + ['boost/mpl/comparison.hpp']
PRE = '''
template <class A, class B, template <class, class> class R> struct cmp { typedef num<R<A, B>::type::value> type; };
template <class S, class Pos> struct lazyid { typedef Pos type; };
template <class P> struct wrap { typedef P type; };
// position after reading the whole of S
template <class S, class Pos> struct walk {
  typedef typename mp::repeated<mp::one_char>::template apply<S, Pos>::type R;
  typedef pair<typename npos<typename mp::get_position<R>::type>::type, typename nstr<typename mp::get_remaining<R>::type>::type> type;
};
'''
def walk(cx, s, pos):
    for c in s: pos = advance(cx, c, pos)
    return pos
def p2(cx, i): return spos(cx, i)
def lex(a, b):
    return OR(lt(a[1], b[1]), AND(eqz(a[1], b[1]), OR(lt(a[2], b[2]), AND(eqz(a[2], b[2]), lt(a[3], b[3])))))
def same(a, b): return AND(*[eqz(x, y) for x, y in zip(a[1:], b[1:])])
def b2i(c): return ITE(c, 1, 0)
def prop(tier):
    es = []
    th = 1 + (tier == 'thorough')
    for n in range(0, 6 + th):
        es.append(Entry('walk_%d' % n, 'typedef typename walk<typename sstr<ZZ,98,%d>::type, typename spos<ZZ,99>::type>::type type;' % n,
                        (lambda n: lambda cx: ('pair', walk(cx, sstr(cx, 98, n), spos(cx, 99)), []))(n)))
        es.append(Entry('walkstart_%d' % n, 'typedef typename walk<typename sstr<ZZ,98,%d>::type, mp::start>::type type;' % n,
                        (lambda n: lambda cx: ('pair', walk(cx, sstr(cx, 98, n), START), []))(n)))
        es.append(symb('one_char_%d' % n, 'mp::one_char', one_char, n))
    # longer texts, some characters of which are arbitrary
    for k, t in enumerate(['ab\r\ncd?ef\n\nx?\ry', '???\n\r\n?', 'abcdefghijklmnopqrstuvwxyz?\r?', '\r\r\n?\n\n\r?\t', '?' + ' ' * 28 + '?', '\n' * 15 + '?' + '\r\n' * 7 + '?']):
        items = [None if c == '?' else ord(c) for c in t]
        es.append(Entry('walklong_%d' % k, 'typedef typename walk<%s, typename spos<ZZ,99>::type>::type type;' % pcode(98, items),
                        (lambda it: lambda cx: ('pair', walk(cx, pstr(cx, 98, it), spos(cx, 99)), []))(items)))
    # the place after a \r\n line ending (known finding: the column is one too high)
    es.append(Entry('crlf_column', 'typedef typename mp::iterate_c<mp::one_char,2>::template apply<mp::string<13,10,nd_char<ZZ,98,0>::value>, typename spos<ZZ,99>::type>::type R; typedef typename mp::get_position<R>::type Q; typedef pair<num<mp::get_line<Q>::type::value - nd_int<ZZ,99,900,1,1000000>::value>, num<mp::get_col<Q>::type::value> > type;', lambda cx: (spos(cx, 99), ('pair', 1, 1))[1]))
    es.append(Entry('start', 'typedef typename npos<mp::start>::type type;', lambda cx: START))
    for nm, f in (('next_char', lambda p, c: ('pos', p[1], add(p[2], 1), c)), ('next_line', lambda p, c: ('pos', add(p[1], 1), 1, c))):
        es.append(Entry(nm, 'typedef typename npos<typename mp::%s<wrap<typename spos<ZZ,99>::type>, wrap<mpl::char_<nd_char<ZZ,98,0>::value> > >::type>::type type;' % nm,
                        (lambda f: lambda cx: f(spos(cx, 99), cx.ch(98, 0)))(f)))
    for nm, f in (('equal_to', same), ('not_equal_to', lambda a, b: NOT(same(a, b))), ('less', lex), ('greater', lambda a, b: lex(b, a)),
                  ('less_equal', lambda a, b: NOT(lex(b, a))), ('greater_equal', lambda a, b: NOT(lex(a, b)))):
        es.append(Entry('cmp_' + nm, 'typedef typename cmp<typename spos<ZZ,1>::type, typename spos<ZZ,2>::type, mpl::%s>::type type;' % nm,
                        (lambda f: lambda cx: b2i(f(spos(cx, 1), spos(cx, 2))))(f)))
    return Property('C01', INC, es, PRE, bounds='every character string of at most %d characters (and 6 longer texts of up to 31 characters, 2 to 4 of them arbitrary), every start position with line and column in 1..1000000 and any previous character; comparisons over all pairs of such positions' % (5 + th),
        assumptions=['char is 8-bit and signed (x86-64 g++/clang)', 'line/column below 1000001, so that incrementing cannot overflow int'])
