"""BOOST_METAPARSE_STRING turns a literal into exactly its characters (C++11 and later)."""
from vlib.core import *
from vlib.sem import *
INC = inc('string', 'string_value', 'one_char', 'repeated', 'keyword', 'entire_input') + ['boost/mpl/size.hpp', 'boost/mpl/equal_to.hpp', 'boost/mpl/at.hpp', 'boost/mpl/front.hpp']
def C(i, k): return 'nd_char<ZZ,%d,%d>::value' % (i, k)
PRE = '''
template <class A, class B> struct same_t { typedef num<0> type; };
template <class A> struct same_t<A, A> { typedef num<1> type; };
'''
def lit_(n, nsym):
    """array of n characters, the last nsym of them (and the first) symbolic"""
    return [C(0, k) if k < 2 or k >= n - nsym else str((k * 31 + k // 127 * 17) % 127) for k in range(n)]
def ref(cx, n, nsym): return [cx.ch(0, k) if k < 2 or k >= n - nsym else (k * 31 + k // 127 * 17) % 127 for k in range(n)]
def prop(tier):
    th = tier == 'thorough'
    es = []
    pre = PRE
    def add(nm, n, nsym, code, orc, limit=32):
        nonlocal pre
        a = 'lit_%s' % nm
        pre += 'template <class ZZ> struct %s { static constexpr char value[] = {%s}; };\n' % (a, ','.join(lit_(n, nsym) + ['0']))
        t = '#undef BOOST_METAPARSE_LIMIT_STRING_SIZE\n#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n' % limit
        t += 'typedef %s type;' % (code.replace('$S', 'typename BOOST_METAPARSE_V1_STRING(%s<ZZ>::value)' % a))
        es.append(Entry(nm, t, orc, stds=('11', '14')))
    for n in range(0, 33):
        add('str_%d' % n, n, n, 'typename nstr<$S>::type', lambda cx, n=n: ref(cx, n, n))
    for n in (0, 1, 7, 32):
        add('len_%d' % n, n, n, 'num<mpl::size<$S>::type::value>', lambda cx, n=n: n)
        add('same_%d' % n, n, n, 'typename same_t<$S, mp::string<%s> >::type' % ','.join(lit_(n, n)), lambda cx: 1)
    # one character beyond the limit is diagnosed, for every content
    for n, l in ((33, 32), (34, 32), (5, 4), (65, 64)) :
        add('toolong_%d_%d' % (n, l), n, n if n < 10 else 2, 'typename nstr<$S>::type', lambda cx: ERR, limit=l)
    # other limits, up to their last character
    for l, ns in ((1, (0, 1)), (4, (4, 3)), (64, (63, 64, 40)), (127, (127,)), (128, (128, 100)), (129, (129,)), (200, (200,)), (256, (255,))):
        for n in ns:
            add('lim%d_%d' % (l, n), n, 3, 'typename nstr<$S>::type', lambda cx, n=n: ref(cx, n, 3), limit=l)
    if th:
        for l, ns in ((300, (257, 300)), (350, (349, 350))):
            for n in ns:
                add('lim%d_%d' % (l, n), n, 3, 'typename nstr<$S>::type', lambda cx, n=n: ref(cx, n, 3), limit=l)
    # long literals: every limit up to 2048 has its own index table; the last and the middle characters are arbitrary
    tab = sorted({x for k in range(1, 17) for x in (128 * k - 1, 128 * k, 128 * k + 1) if 256 < x <= 2048})
    for l in tab:
        add('long%d' % l, l, 4, 'typename same_t<$S, mp::string<%s> >::type' % ','.join(lit_(l, 4)), lambda cx: 1, limit=l)
    for l in range(3, 2049, 5 if th else 61):
        pre += 'template <class ZZ> struct z_%d { static constexpr char value[%d] = {%s}; };\n' % (l, l + 1, C(0, 0))
        es.append(Entry('limit%d' % l, '#undef BOOST_METAPARSE_LIMIT_STRING_SIZE\n#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\ntypedef pair<num<mpl::size<typename BOOST_METAPARSE_V1_STRING(z_%d<ZZ>::value)>::type::value>, num<mpl::front<typename BOOST_METAPARSE_V1_STRING(z_%d<ZZ>::value)>::type::value> > type;' % (l, l, l),
            lambda cx, l=l: ('pair', l, cx.ch(0, 0)), stds=('11',)))
    # a literal used as input
    add('parse', 3, 3, 'typename run<mp::entire_input<mp::repeated<mp::one_char> >, $S, mp::start>::type', lambda cx: entire_input(repeated(one_char))(cx, ref(cx, 3, 3), START))
    return Property('C06', INC, es, pre, bounds='every content of literals of 0 to 32 characters under the default limit; literals of up to 2048 characters (6 of them arbitrary) under limits from 1 to 2048 (every table boundary, every %dth other limit)' % (5 if th else 61),
        assumptions=['the literal is passed as a constexpr character array, which the macro indexes and measures as it does a literal'], stds_quick=('11', '14'), stds_thorough=('11', '14', '17'))
