"""sequence / sequence_applyN: parsers run left to right on what the previous one
left; all results are returned in order; the first rejection is the result."""
from vlib.core import *
from vlib.sem import *
INC = inc('sequence', 'sequence_apply', 'lit_c', 'int_', 'one_char', 'digit', 'letter', 'first_of', 'transform')
PRE = '''
template <class A> struct t1 { typedef t1 type; };
template <class A, class B> struct t2 { typedef t2 type; };
template <class A, class B, class C> struct t3 { typedef t3 type; };
template <class A, class B, class C, class D> struct t4 { typedef t4 type; };
} namespace vf {
template <class A> struct nres<h::t1<A> > { typedef cons<typename nres<A>::type, nil> type; };
template <class A, class B> struct nres<h::t2<A, B> > { typedef cons<typename nres<A>::type, cons<typename nres<B>::type, nil> > type; };
template <class A, class B, class C> struct nres<h::t3<A, B, C> > { typedef cons<typename nres<A>::type, cons<typename nres<B>::type, cons<typename nres<C>::type, nil> > > type; };
template <class A, class B, class C, class D> struct nres<h::t4<A, B, C, D> > { typedef cons<typename nres<A>::type, cons<typename nres<B>::type, cons<typename nres<C>::type, cons<typename nres<D>::type, nil> > > > type; };
} namespace h {
'''
def st(k): return ','.join('stub<ZZ,%d>' % i for i in range(k))
def prop(tier):
    th = 1 + (tier == 'thorough')
    es = []
    for k in range(1, 5):
        for n in range(0, {1: 4, 2: 4, 3: 3, 4: 2}[k] + th):
            es.append(fixed('seq%d_%d' % (k, n), 'mp::sequence<%s>' % st(k), seq([stub(i) for i in range(k)]), n, reach=['acc', 'rej']))
            if n < 3: es.append(fixed('app%d_%d' % (k, n), 'mp::sequence_apply%d<t%d,%s>' % (k, k, st(k)), seq([stub(i) for i in range(k)]), n, reach=['acc', 'rej']))
    es.append(fixed('seq5_1', 'mp::sequence<%s>' % st(5), seq([stub(i) for i in range(5)]), 1))
    es.append(fixed('seq0', 'mp::sequence<>', seq([]), 1, stds=('11', '14')))
    if th: es.append(fixed('seq7_1', 'mp::sequence<%s>' % st(7), seq([stub(i) for i in range(7)]), 1, stds=('11', '14')))
    # many parsers: each of them may be the one that rejects
    LET = 'abcdefghijklmnopqrstuvwxyz'
    for k in (5, 6, 7, 8, 9, 10, 12, 16, 20):
        st_ = ('98', '11', '14') if k <= 5 else ('11', '14')
        cd = 'mp::sequence<%s>' % ','.join('mp::lit_c<%d>' % ord(c) for c in LET[:k])
        rf = seq([lit(ord(c)) for c in LET[:k]])
        for d in sorted(set([0, k // 2, k - 1])):
            es.append(patt('many%d_%d' % (k, d), cd, rf, [None if i == d else ord(c) for i, c in enumerate(LET[:k])] + [None], stds=st_, reach=['acc', 'rej']))
        es.append(patt('manycut%d' % k, cd, rf, cs(LET[:k - 2]) + [None], stds=st_, reach=['rej']))
    # nesting
    es.append(fixed('nest', 'mp::sequence<stub<ZZ,0>, mp::sequence<stub<ZZ,1>, stub<ZZ,2> > >', seq([stub(0), seq([stub(1), stub(2)])]), 2))
    # the same parser in several places
    es.append(fixed('same', 'mp::sequence<stub<ZZ,0>, stub<ZZ,0>, stub<ZZ,1> >', seq([stub(0), stub(0), stub(1)]), 3))
    for n in range(0, 5 + th):
        es.append(symb('real_%d' % n, "mp::sequence<mp::letter, mp::lit_c<'='>, mp::digit>", seq([letter, lit(61), digit]), n))
        es.append(symb('realapp_%d' % n, "mp::sequence_apply4<t4, mp::one_char, mp::letter, mp::one_char, mp::digit>", seq([one_char, letter, one_char, digit]), n))
    return Property('C07', INC, es, PRE, bounds='1 to 5 parsers (arbitrary stubs; up to 20 literals) on inputs of at most 3 characters, any start position; concrete parsers on all strings of at most %d characters' % (4 + th),
        assumptions=['the combined parsers obey the parser contract: deterministic, an acceptance leaves a suffix of the input, later outcomes have later positions'])
