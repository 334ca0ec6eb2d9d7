"""Configured limits: with other BOOST_METAPARSE_LIMIT_* values every count up to the limit works, and
behaves exactly as under the default limits."""
from vlib.core import *
from vlib.sem import *
INC = inc('sequence', 'sequence_apply', 'nth_of', 'nth_of_c', 'first_of', 'last_of', 'one_of', 'one_of_c', 'repeated_one_of', 'repeated_one_of1', 'one_char_except', 'one_char_except_c', 'string', 'lit_c', 'digit', 'letter', 'repeated', 'one_char', 'keyword', 'entire_input') + ['boost/mpl/%s.hpp' % x for x in ('push_back', 'push_front', 'pop_back', 'pop_front', 'size', 'at', 'front', 'back', 'empty', 'equal_to', 'distance', 'clear')]
LET = 'abcdefghijklmnopqrstuvwxyz'
PRE = '''
template <class B, class E> struct rev_it { typedef typename mpl::prior<E>::type p; typedef cons<typename nchr<typename mpl::deref<p>::type>::type, typename rev_it<B, p>::type> type; };
template <class B> struct rev_it<B, B> { typedef nil type; };
template <class S, int I, int N> struct at_it { typedef cons<num<mpl::at_c<S, I>::type::value>, typename at_it<S, I + 1, N>::type> type; };
template <class S, int N> struct at_it<S, N, N> { typedef nil type; };
template <class A, class B> struct same_t { typedef num<0> type; };
template <class A> struct same_t<A, A> { typedef num<1> type; };
template <class V> struct arr;
''' + ''.join('template <%s> struct t%d { typedef t%d type; };\n' % (', '.join('class A%d' % i for i in range(k)), k, k) for k in range(1, 22)) + '} namespace vf {\n' + ''.join(
  'template <%s> struct nres<h::t%d<%s> > { typedef %s nil %s type; };\n' % (', '.join('class A%d' % i for i in range(k)), k, ', '.join('A%d' % i for i in range(k)), ''.join('cons<typename nres<A%d>::type, ' % i for i in range(k)), '> ' * k) for k in range(1, 22)) + '} namespace h {\n'
def st(k): return ','.join('stub<ZZ,%d>' % i for i in range(k))
def sts(k): return [stub(i) for i in range(k)]
def lits(k): return ','.join('mp::lit_c<%d>' % ord(c) for c in LET[:k])
def rlits(k): return [lit(ord(c)) for c in LET[:k]]
def anyerr(cx, pos, rej): return ('rej', ANY, pos)
def C(i, k): return 'nd_char<ZZ,%d,%d>::value' % (i, k)
def ST(i, n): return 'typename dep<ZZ,mp::string<> >::type' if n == 0 else 'mp::string<%s>' % ','.join(C(i, k) for k in range(n))
def bad(k, n): return fail(index_err(0, n - 1, k))
def prop(tier):
    th = tier == 'thorough'
    es = []
    for v, L in LIMITS.items():
        S98 = ('98' + v,); ALL = ('98' + v, '11' + v, '14' + v)
        nm = lambda t: '%s_%s' % (v, t)
        # ---- sequence family: every count up to the limit
        n = L['SEQUENCE']
        few = v == 'x' and not th
        for k in (range(1, n + 1) if not few else (1, 6, 19, 20, 21, 22)):
            for d in (range(k) if th else sorted({0, k // 2, k - 1})):
                items = [None if i == d else ord(c) for i, c in enumerate(LET[:k])] + [None] * (k < L['STRING'])
                es.append(patt(nm('seq%d_%d' % (k, d)), 'mp::sequence<%s>' % lits(k), seq(rlits(k)), items, stds=ALL, reach=['acc', 'rej']))
                es.append(patt(nm('nth%d_%d' % (k, d)), 'mp::nth_of_c<%d,%s>' % (d, lits(k)), nth(rlits(k), d), items, stds=S98, reach=['acc', 'rej']))
            items = [ord(c) for c in LET[:k - 1]] + [None]
            es.append(patt(nm('first%d' % k), 'mp::first_of<%s>' % lits(k), nth(rlits(k), 0), items, stds=S98))
            es.append(patt(nm('last%d' % k), 'mp::last_of<%s>' % lits(k), nth(rlits(k), k - 1), items, stds=S98))
            es.append(patt(nm('nthb%d' % k), 'mp::nth_of<mpl::int_<%d>,%s>' % (k - 1, lits(k)), nth(rlits(k), k - 1), items, stds=S98))
            es.append(patt(nm('bad%d' % k), 'mp::nth_of_c<%d,%s>' % (k, lits(k)), bad(k, k), [None], stds=S98))
            if k < n: es.append(patt(nm('app%d' % k), 'mp::sequence_apply%d<t%d,%s>' % (k, k, lits(k)), seq(rlits(k)), items, stds=ALL))
            if k <= 4: es.append(fixed(nm('seqs%d' % k), 'mp::sequence<%s>' % st(k), seq(sts(k)), 1, stds=S98, reach=['acc', 'rej']))
        # ---- one_of family
        n = L['ONE_OF']
        for k in (range(1, n + 1) if not few else (1, 5, 19, 20, 21, 24, 25)):
            es.append(patt(nm('one%d' % k), 'mp::one_of<%s>' % lits(k), one_of(rlits(k), anyerr), [None, None], stds=S98, reach=['acc', 'rej']))
            es.append(patt(nm('onec%d' % k), 'mp::one_of_c<%s>' % ','.join(C(5, i) for i in range(k)), lambda cx, s, p, k=k: one_of([lit(cx.ch(5, i)) for i in range(k)], anyerr)(cx, s, p), [None], stds=S98, reach=['acc', 'rej'])
                      if k <= 5 else patt(nm('onec%d' % k), 'mp::one_of_c<%s>' % ','.join(str(ord(c)) for c in LET[:k]), one_of(rlits(k), anyerr), [None], stds=S98, reach=['acc', 'rej']))
            if k in (1, n // 2, n):
                es.append(patt(nm('rep%d' % k), 'mp::repeated_one_of<%s>' % lits(k), repeated(one_of(rlits(k), anyerr)), [97 + k - 1, None, None], stds=S98, reach=['acc']))
                es.append(patt(nm('rep1_%d' % k), 'mp::repeated_one_of1<%s>' % lits(k), repeated1(one_of(rlits(k), anyerr)), [None, None], stds=S98, reach=['acc', 'rej']))
        # ---- one_char_except family
        n = L['ONE_CHAR_EXCEPT']
        for k in (range(0, n + 1) if not few else (0, 1, 9, 10, 11, 25, 26)):
            ex = lambda cx, s, p, k=k: except_chars([cx.ch(5, i) for i in range(k)])(cx, s, p)
            es.append(patt(nm('exc%d' % k), 'mp::one_char_except_c<%s>' % ','.join(C(5, i) for i in range(k)), ex, [None, 97], stds=S98))
            es.append(patt(nm('ex%d' % k), 'mp::one_char_except<%s>' % ','.join('mpl::char_<%s>' % C(5, i) for i in range(k)), ex, [None, 97], stds=S98))
        # ---- string: every length up to the limit, every content
        if v == 'x': continue
        n = L['STRING']
        V = lambda t, code, orc: es.append(val(nm(t), code, orc, stds=S98))
        for k in (range(0, n + 1) if th or v == 'n' else (0, 1, n // 2, 31, 32, 33, n - 2, n - 1, n)):
            s = ST(0, k); l = lambda cx, k=k: sstr(cx, 0, k)
            V('content%d' % k, 'typename nstr<%s>::type' % s, l)
            V('size%d' % k, 'pair<num<mpl::size<%s>::type::value>, num<mpl::empty<%s>::type::value> >' % (s, s), lambda cx, k=k: ('pair', k, int(k == 0)))
            V('at%d' % k, 'typename at_it<%s,0,%d>::type' % (s, k), l)
            V('rev%d' % k, 'typename rev_it<typename mpl::begin<%s>::type, typename mpl::end<%s>::type>::type' % (s, s), lambda cx, l=l: l(cx)[::-1])
            V('clear%d' % k, 'typename nstr<typename mpl::clear<%s>::type>::type' % s, lambda cx: [])
            V('equal%d' % k, 'num<mpl::equal_to<%s,%s>::type::value>' % (s, ST(1, k)), lambda cx, k=k: ITE(AND(*[eqz(cx.ch(0, i), cx.ch(1, i)) for i in range(k)]), 1, 0)) if k < 5 else None
            if k < n:
                V('pb%d' % k, 'typename nstr<typename mpl::push_back<%s,mpl::char_<%s> >::type>::type' % (s, C(1, 0)), lambda cx, l=l: l(cx) + [cx.ch(1, 0)])
                V('pf%d' % k, 'typename nstr<typename mpl::push_front<%s,mpl::char_<%s> >::type>::type' % (s, C(1, 0)), lambda cx, l=l: [cx.ch(1, 0)] + l(cx))
            if k:
                V('qb%d' % k, 'typename nstr<typename mpl::pop_back<%s>::type>::type' % s, lambda cx, l=l: l(cx)[:-1])
                V('qf%d' % k, 'typename nstr<typename mpl::pop_front<%s>::type>::type' % s, lambda cx, l=l: l(cx)[1:])
                V('ends%d' % k, 'pair<num<mpl::front<%s>::type::value>, num<mpl::back<%s>::type::value> >' % (s, s), lambda cx, l=l: ('pair', l(cx)[0], l(cx)[-1]))
        w = [97 + i % 7 for i in range(n - 1)]
        es.append(patt(nm('full'), 'mp::entire_input<mp::repeated<mp::letter> >', entire_input(repeated(letter)), w + [None], stds=ALL, reach=['acc', 'rej']))
        es.append(patt(nm('kw'), 'mp::keyword<mp::string<%s>,tag<1> >' % ','.join(map(str, w)), fmap(seq([lit(c) for c in w]), lambda r: ('tag', 1)), w[:-1] + [None, None], stds=ALL, reach=['acc', 'rej']))
    sq = tuple(a + b for b in LIMITS for a in ('98', '11', '14'))
    return Property('C21', INC, es, PRE, bounds='limits (sequence, one_of, one_char_except, string) of (9, 13, 17, 45), (3, 4, 3, 8) and (22, 25, 26, 32; the last with the limits of the MPL containers raised to 30): every count from 1 (0) to the limit with one arbitrary item each, strings of every content at lengths up to the limit, any start position',
        assumptions=['limits above 20 need the limits of the MPL containers raised as well'], stds_quick=sq, stds_thorough=sq)
