"""string is a faithful compile-time character sequence: the MPL operations agree with the
list of its characters, for every content and every length up to the limit."""
from vlib.core import *
from vlib.sem import *
INC = inc('string', 'impl/front_inserter', 'impl/back_inserter') + ['boost/mpl/%s.hpp' % x for x in ('push_back', 'push_front', 'pop_back', 'pop_front', 'size', 'at', 'front', 'back', 'empty', 'clear', 'equal_to', 'equal', 'begin_end', 'advance', 'distance', 'next_prior', 'deref', 'reverse', 'fold', 'reverse_fold', 'back_inserter', 'front_inserter', 'copy', 'is_sequence', 'not_equal_to')]
def C(i, k): return 'nd_char<ZZ,%d,%d>::value' % (i, k)
def ST(i, n): return 'typename dep<ZZ,mp::string<> >::type' if n == 0 else 'mp::string<%s>' % ','.join(C(i, k) for k in range(n))
def L(i, n): return lambda cx: sstr(cx, i, n)
PRE = '''
template <class S> struct nst { typedef typename nstr<S>::type type; };
template <class B, class E> struct rev_it { typedef typename mpl::prior<E>::type p; typedef cons<typename nchr<typename mpl::deref<p>::type>::type, typename rev_it<B, p>::type> type; };
template <class B> struct rev_it<B, B> { typedef nil type; };
template <class S, int I, int N> struct at_it { typedef cons<num<mpl::at_c<S, I>::type::value>, typename at_it<S, I + 1, N>::type> type; };
template <class S, int N> struct at_it<S, N, N> { typedef nil type; };
template <class S, int I, int N> struct adv_it { typedef cons<num<mpl::deref<typename mpl::advance_c<typename mpl::begin<S>::type, I>::type>::type::value>, typename adv_it<S, I + 1, N>::type> type; };
template <class S, int N> struct adv_it<S, N, N> { typedef nil type; };
template <class A, class B> struct same_t { typedef num<0> type; };
template <class A> struct same_t<A, A> { typedef num<1> type; };
template <class S, class C> struct wrapS { typedef S type; };
template <class S> struct lazy { typedef S type; typedef typename S::tag tag; };
struct snoc_ { typedef snoc_ type; template <class A, class B> struct apply { typedef cons<num<B::type::value>, A> type; }; };
#ifdef VF_REPLAY
template <class S, int N> struct carr { typedef carr type; };
} namespace vf { template <class S, int N> struct pr<h::carr<S, N> > { static void go() { const char *p = mpl::c_str<S>::type::value; for (int i = 0; i < N; ++i) { put("(cons "); puti(p[i]); put(" "); } put("nil"); for (int i = 0; i < N; ++i) put(")"); } }; } namespace h {
#else
template <class S, int I, int N> struct carr_ { typedef cons<num<mpl::c_str<S>::type::value[I]>, typename carr_<S, I + 1, N>::type> type; };
template <class S, int N> struct carr_<S, N, N> { typedef nil type; };
template <class S, int N> struct carr { typedef typename carr_<S, 0, N>::type type; };
#endif
'''
def prop(tier):
    th = tier == 'thorough'
    es = []
    V = lambda nm, code, orc, **kw: es.append(val(nm, code, orc, **kw))
    sizes = tuple(range(0, 33))
    for n in sizes:
        s = ST(0, n); l = L(0, n)
        V('content_%d' % n, 'typename nst<%s>::type' % s, l)
        V('size_%d' % n, 'num<mpl::size<%s>::type::value>' % s, lambda cx, n=n: n)
        V('dist_%d' % n, 'num<mpl::distance<typename mpl::begin<%s>::type, typename mpl::end<%s>::type>::type::value>' % (s, s), lambda cx, n=n: n)
        V('empty_%d' % n, 'num<mpl::empty<%s>::type::value>' % s, lambda cx, n=n: int(n == 0))
        V('at_%d' % n, 'typename at_it<%s,0,%d>::type' % (s, n), l)
        V('rev_%d' % n, 'typename rev_it<typename mpl::begin<%s>::type, typename mpl::end<%s>::type>::type' % (s, s), lambda cx, l=l: l(cx)[::-1])
        V('clear_%d' % n, 'typename nst<typename mpl::clear<%s>::type>::type' % s, lambda cx: [])
        V('c_str_%d' % n, 'typename carr<%s,%d>::type' % (s, n + 1), lambda cx, l=l: l(cx) + [0])
        if n < 32:
            V('push_back_%d' % n, 'typename nst<typename mpl::push_back<%s,mpl::char_<%s> >::type>::type' % (s, C(1, 0)), lambda cx, l=l: l(cx) + [cx.ch(1, 0)])
            V('push_front_%d' % n, 'typename nst<typename mpl::push_front<%s,mpl::char_<%s> >::type>::type' % (s, C(1, 0)), lambda cx, l=l: [cx.ch(1, 0)] + l(cx))
            V('push_size_%d' % n, 'num<mpl::size<typename mpl::push_back<%s,mpl::char_<%s> >::type>::type::value>' % (s, C(1, 0)), lambda cx, n=n: n + 1)
            if n < 6 or n > 30:
                V('pushpop_b_%d' % n, 'typename same_t<%s, typename mpl::pop_back<typename mpl::push_back<%s,mpl::char_<%s> >::type>::type>::type' % (s, s, C(1, 0)), lambda cx: 1)
                V('pushpop_f_%d' % n, 'typename same_t<%s, typename mpl::pop_front<typename mpl::push_front<%s,mpl::char_<%s> >::type>::type>::type' % (s, s, C(1, 0)), lambda cx: 1)
            if n and n < 6 or n == 31:
                # identity of the type, however the string was made
                V('made_%d' % n, 'typename same_t<%s, typename mpl::push_front<%s,mpl::char_<%s> >::type>::type' % (ST(0, n), 'typename dep<ZZ,mp::string<%s> >::type' % ','.join(C(0, k) for k in range(1, n)), C(0, 0)), lambda cx: 1)
                V('made_b_%d' % n, 'typename same_t<%s, typename mpl::push_back<%s,mpl::char_<%s> >::type>::type' % (ST(0, n), ST(0, n - 1), C(0, n - 1)), lambda cx: 1)
        if n:
            V('front_%d' % n, 'num<mpl::front<%s>::type::value>' % s, lambda cx, l=l: l(cx)[0])
            V('back_%d' % n, 'num<mpl::back<%s>::type::value>' % s, lambda cx, l=l: l(cx)[-1])
            V('pop_back_%d' % n, 'typename nst<typename mpl::pop_back<%s>::type>::type' % s, lambda cx, l=l: l(cx)[:-1])
            V('pop_front_%d' % n, 'typename nst<typename mpl::pop_front<%s>::type>::type' % s, lambda cx, l=l: l(cx)[1:])
            V('pop2_%d' % n, 'num<mpl::size<typename mpl::pop_back<%s>::type>::type::value>' % s, lambda cx, n=n: n - 1)
            V('adv_%d' % n, 'typename adv_it<%s,0,%d>::type' % (s, n), l)
    # equality, every pair of contents
    for n in range(0, 4 + 2 * th):
        for m in range(0, 4 + 2 * th):
            eq = lambda cx, n=n, m=m: ITE(AND(*[eqz(a, b) for a, b in zip(sstr(cx, 0, n), sstr(cx, 1, m))]), 1, 0) if n == m else 0
            V('eq_%d_%d' % (n, m), 'num<mpl::equal_to<%s,%s>::type::value>' % (ST(0, n), ST(1, m)), eq)
            if n == m or n + 1 == m: V('seq_eq_%d_%d' % (n, m), 'num<mpl::equal<%s,%s>::type::value>' % (ST(0, n), ST(1, m)), eq)
    V('eq_other', 'num<mpl::equal_to<%s,mpl::int_<1> >::type::value>' % ST(0, 2), lambda cx: 0)
    V('eq_other2', 'num<mpl::equal_to<mpl::int_<1>,%s>::type::value>' % ST(0, 2), lambda cx: 0)
    V('is_seq', 'num<mpl::is_sequence<%s>::type::value>' % ST(0, 2), lambda cx: 1)
    # iterators: comparison
    V('it_eq', 'num<mpl::equal_to<typename mpl::next<typename mpl::begin<%s>::type>::type, typename mpl::advance_c<typename mpl::begin<%s>::type,%s>::type>::type::value>' % (ST(0, 3), ST(0, 3), 'nd_int<ZZ,5,0,0,3>::value'),
      lambda cx: ITE(cx.int(5, 0, 0, 3) == 1, 1, 0))
    V('it_dist', 'num<mpl::distance<typename mpl::advance_c<typename mpl::begin<%s>::type,nd_int<ZZ,5,0,0,3>::value>::type, typename mpl::advance_c<typename mpl::begin<%s>::type,nd_int<ZZ,5,1,0,3>::value>::type>::type::value>' % (ST(0, 3), ST(0, 3)),
      lambda cx: cx.int(5, 1, 0, 3) - cx.int(5, 0, 0, 3))
    def at_any(cx):
        v = cx.value(cx.int(5, 0, 0, 7), 0, 7); return cx.ch(0, v)
    V('at_any', 'num<mpl::at_c<%s,nd_int<ZZ,5,0,0,7>::value>::type::value>' % ST(0, 8), at_any)
    # a history of operations
    ops = {'pb': ('typename mpl::push_back<%s,mpl::char_<%s> >::type', lambda l, c: l + [c]), 'pf': ('typename mpl::push_front<%s,mpl::char_<%s> >::type', lambda l, c: [c] + l),
           'qb': ('typename mpl::pop_back<%s>::type', lambda l, c: l[:-1]), 'qf': ('typename mpl::pop_front<%s>::type', lambda l, c: l[1:])}
    import itertools
    for h in itertools.product(ops, repeat=3 if not th else 4):
        code, refs, k = ST(0, 2), [], 0
        depth, ok = 2, True
        for o in h:
            if o[0] == 'q':
                if depth == 0: ok = False; break
                code = ops[o][0] % code; depth -= 1; refs.append((o, None))
            else:
                code = ops[o][0] % (code, C(1, k)); refs.append((o, k)); k += 1; depth += 1
        if not ok: continue
        def orc(cx, refs=refs):
            l = sstr(cx, 0, 2)
            for o, k in refs: l = ops[o][1](l, cx.ch(1, k) if k is not None else None)
            return l
        V('hist_' + '_'.join(h), 'typename nst<%s>::type' % code, orc)
    # histories on strings close to the limit
    for h in itertools.product(ops, repeat=2 if not th else 3):
        for n in ((15, 16, 29, 30) if not th else range(3, 31)):
            code, refs, k, depth = ST(0, n), [], 0, n
            for o in h:
                if o[0] == 'q': code = ops[o][0] % code; depth -= 1; refs.append((o, None))
                else: code = ops[o][0] % (code, C(1, k)); refs.append((o, k)); k += 1; depth += 1
            if depth > 32: continue
            def orc(cx, refs=refs, n=n):
                l = sstr(cx, 0, n)
                for o, k in refs: l = ops[o][1](l, cx.ch(1, k) if k is not None else None)
                return l
            V('hist%d_' % n + '_'.join(h), 'typename nst<%s>::type' % code, orc)
    # iterators: any two places, forwards and backwards, from either end
    for n in (1, 4, 9, 32):
        s = ST(0, n)
        b = 'typename mpl::begin<%s>::type' % s; e = 'typename mpl::end<%s>::type' % s
        I = 'nd_int<ZZ,5,0,0,%d>::value' % n; J = 'nd_int<ZZ,5,1,0,%d>::value' % n; K = 'nd_int<ZZ,5,0,1,%d>::value' % n
        V('it_deref_end_%d' % n, 'num<mpl::deref<typename mpl::advance_c<%s,-%s>::type>::type::value>' % (e, K), lambda cx, n=n: cx.ch(0, n - cx.value(cx.int(5, 0, 1, n), 1, n)))
        V('it_two_%d' % n, 'num<mpl::distance<typename mpl::advance_c<%s,%s>::type, typename mpl::advance_c<%s,-%s>::type>::type::value>' % (b, I, e, J), lambda cx, n=n: n - cx.int(5, 1, 0, n) - cx.int(5, 0, 0, n))
        V('it_back_%d' % n, 'num<mpl::equal_to<typename mpl::advance<typename mpl::advance<%s,mpl::int_<%s> >::type,mpl::int_<-%s> >::type,%s>::type::value>' % (b, I, J, b), lambda cx, n=n: ITE(cx.int(5, 0, 0, n) == cx.int(5, 1, 0, n), 1, 0))
        V('it_np_%d' % n, 'num<mpl::distance<%s,typename mpl::prior<typename mpl::prior<typename mpl::next<typename mpl::advance_c<%s,%s>::type>::type>::type>::type>::type::value>' % (b, b, I), lambda cx, n=n: cx.int(5, 0, 0, n) - 1)
        V('it_other_%d' % n, 'num<mpl::equal_to<%s,mpl::int_<%s> >::type::value>' % (b, I), lambda cx: 0)
        V('it_strs_%d' % n, 'num<mpl::equal_to<typename mpl::begin<%s>::type,typename mpl::begin<%s>::type>::type::value>' % (s, ST(1, n)), lambda cx, n=n: ITE(AND(*[eqz(a, b) for a, b in zip(sstr(cx, 0, n), sstr(cx, 1, n))]), 1, 0))
    # arguments that have yet to be evaluated
    lz = 'lazy<%s >' % ST(0, 3)
    V('lazy_pb', 'typename nst<typename mpl::push_back<%s,lazy<mpl::char_<%s> > >::type>::type' % (lz, C(1, 0)), lambda cx: sstr(cx, 0, 3) + [cx.ch(1, 0)])
    V('lazy_pf', 'typename nst<typename mpl::push_front<%s,lazy<mpl::char_<%s> > >::type>::type' % (lz, C(1, 0)), lambda cx: [cx.ch(1, 0)] + sstr(cx, 0, 3))
    V('lazy_eq', 'num<mpl::equal_to<%s,lazy<%s > >::type::value>' % (lz, ST(1, 3)), lambda cx: ITE(AND(*[eqz(a, b) for a, b in zip(sstr(cx, 0, 3), sstr(cx, 1, 3))]), 1, 0))
    V('lazy_dist', 'num<mpl::distance<typename mpl::begin<%s>::type, typename mpl::end<%s>::type>::type::value>' % (lz, lz), lambda cx: 3)
    V('lazy_deref', 'num<mpl::deref<typename mpl::begin<%s>::type>::type::value>' % lz, lambda cx: cx.ch(0, 0))
    # the algorithms of MPL see the same characters
    V('alg_fold', 'typename mpl::fold<%s,nil,snoc_>::type' % ST(0, 5), lambda cx: sstr(cx, 0, 5)[::-1])
    V('alg_rfold', 'typename mpl::reverse_fold<%s,nil,snoc_>::type' % ST(0, 5), lambda cx: sstr(cx, 0, 5))
    V('alg_copy', 'typename nst<typename mpl::copy<%s,mpl::back_inserter<typename dep<ZZ,mp::string<> >::type> >::type>::type' % ST(0, 5), lambda cx: sstr(cx, 0, 5))
    V('alg_rcopy', 'typename nst<typename mpl::copy<%s,mpl::front_inserter<typename dep<ZZ,mp::string<> >::type> >::type>::type' % ST(0, 5), lambda cx: sstr(cx, 0, 5)[::-1])
    # the inserters used by the folds
    V('front_ins', 'typename nst<typename mp::impl::front_inserter::apply<%s,mpl::char_<%s> >::type>::type' % (ST(0, 3), C(1, 0)), lambda cx: [cx.ch(1, 0)] + sstr(cx, 0, 3))
    V('back_ins', 'typename nst<typename mp::impl::back_inserter::apply<%s,mpl::char_<%s> >::type>::type' % (ST(0, 3), C(1, 0)), lambda cx: sstr(cx, 0, 3) + [cx.ch(1, 0)])
    return Property('C05', INC, es, PRE, bounds='every content (all 256 character values in each place) of strings of %s characters; every history of %d pushes and pops from every string of 2 characters, of %d on strings close to the limit; iterators advanced to any two places from either end' % ('0 to 32', 4 if th else 3, 3 if th else 2),
        assumptions=['pops are applied to non-empty strings and pushes to strings below the limit (preconditions)'])
