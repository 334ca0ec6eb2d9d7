"""Result and error transformation: transform, always, accept_when, transform_error,
transform_error_message, change_error_message, unless_error change only what they name."""
from vlib.core import *
from vlib.sem import *
INC = inc('transform', 'always', 'always_c', 'accept_when', 'transform_error', 'transform_error_message', 'change_error_message', 'unless_error', 'sequence', 'lit_c', 'digit', 'letter', 'int_', 'one_char', 'last_of', 'one_of')
T = lambda i: ('tag', i)
PRE = '''
template <class ZZ> struct apred { typedef apred type; template <class A> struct apply : mpl::bool_<nd_int<ZZ,7,0,0,1>::value == 1> {}; };
template <class ZZ> struct cpred { typedef cpred type; template <class A> struct apply : mpl::bool_<(A::type::value >= nd_char<ZZ,7,1>::value)> {}; };
struct te_msg { typedef te_msg type; template <class R> struct apply : mp::reject<un<3, typename mp::get_message<R>::type>, typename mp::get_position<R>::type> {}; };
struct te_acc { typedef te_acc type; template <class R> struct apply : mp::accept<un<4, typename nmsg<typename mp::get_message<R>::type>::type>, in<1>, typename mp::get_position<R>::type> {}; };
struct te_start { typedef te_start type; template <class R> struct apply : mp::reject<typename mp::get_message<R>::type, mp::start> {}; };
template <class A> struct other_case { typedef typename mp::accept<tag<6>, in<0>, mp::start>::type type; };
struct inc1 { typedef inc1 type; template <class A> struct apply : mpl::int_<A::type::value + 1> {}; };
'''
def accept_when(p, pred, m):
    def q(cx, s, pos):
        r = p(cx, s, pos)
        if r[0] == 'rej' or cx.decide(pred(cx, r[1])): return r
        return ('rej', m, pos)
    return q
def terr(p, f):
    def q(cx, s, pos):
        r = p(cx, s, pos)
        return r if r[0] == 'acc' else f(r)
    return q
ap_ = lambda i: (lambda r: ('un', i, r))
def prop(tier):
    th = 1 + (tier == 'thorough')
    es = []
    U = [
        ('transform', 'mp::transform<%s,fun<1> >', lambda p: fmap(p, ap_(1))),
        ('always', 'mp::always<%s,tag<1> >', lambda p: fmap(p, lambda r: T(1))),
        ('accept_when', 'mp::accept_when<%s,apred<ZZ>,tag<2> >', lambda p: accept_when(p, lambda cx, r: cx.int(7, 0, 0, 1) == 1, T(2))),
        ('terr_msg', 'mp::transform_error<%s,te_msg>', lambda p: terr(p, lambda r: ('rej', ('un', 3, r[1]), r[2]))),
        ('terr_acc', 'mp::transform_error<%s,te_acc>', lambda p: terr(p, lambda r: ('acc', ('un', 4, r[1]), inn(1), r[2]))),
        ('terr_start', 'mp::transform_error<%s,te_start>', lambda p: terr(p, lambda r: ('rej', r[1], START))),
        ('tmsg', 'mp::transform_error_message<%s,fun<5> >', lambda p: transform_msg(p, ap_(5))),
        ('chmsg', 'mp::change_error_message<%s,tag<3> >', lambda p: change_msg(p, T(3))),
    ]
    for nm, t, r in U:
        for n in range(0, 4 + th):
            es.append(fixed('%s_%d' % (nm, n), t % 'stub<ZZ,0>', r(stub(0)), n))
        es.append(fixed('%s_then' % nm, 'mp::sequence<%s,stub<ZZ,1> >' % (t % 'stub<ZZ,0>'), seq([r(stub(0)), stub(1)]), 2))
        es.append(fixed('%s_after' % nm, 'mp::sequence<stub<ZZ,1>,%s >' % (t % 'stub<ZZ,0>'), seq([stub(1), r(stub(0))]), 2))
        for n in range(0, 4):
            es.append(symb('%s_r_%d' % (nm, n), t % "mp::sequence<mp::lit_c<'x'>,mp::digit,mp::letter>", r(seq([lit(120), digit, letter])), n) if nm not in ('transform', 'always', 'accept_when')
                      else symb('%s_r_%d' % (nm, n), t % "mp::last_of<mp::lit_c<'x'>,mp::digit>", r(nth([lit(120), digit], 1)), n))
    # transformations stacked
    for i, (n1, t1, r1) in enumerate(U):
        for j, (n2, t2, r2) in enumerate(U):
            if 'terr_acc' in (n1, n2): continue
            es.append(fixed('%s_of_%s' % (n1, n2), t1 % (t2 % 'stub<ZZ,0>'), r1(r2(stub(0))), 1))
    es.append(symb('when_c', 'mp::accept_when<mp::one_char,cpred<ZZ>,tag<2> >', accept_when(one_char, lambda cx, r: NOT(lt(r, cx.ch(7, 1))), T(2)), 2))
    es.append(symb('when_deep', "mp::accept_when<mp::last_of<mp::one_char,mp::one_char>,cpred<ZZ>,tag<2> >", accept_when(nth([one_char, one_char], 1), lambda cx, r: NOT(lt(r, cx.ch(7, 1))), T(2)), 3))
    es.append(symb('inc', 'mp::transform<mp::int_,inc1>', fmap(digit, lambda c: add(c, -47)), 1))
    es.append(symb('always_c', "mp::always_c<'q',tag<1> >", fmap(lit(113), lambda r: T(1)), 2))
    es.append(Entry('always_c_sym', 'typedef typename run<mp::always_c<nd_char<ZZ,3,0>::value,tag<1> >, typename sstr<ZZ,98,2>::type, typename spos<ZZ,99>::type>::type type;',
        oracle(lambda cx, s, p: fmap(lit(cx.ch(3, 0)), lambda r: T(1))(cx, s, p), S(98, 2), P(99))))
    for n in range(0, 3):
        es.append(Entry('unless_%d' % n, 'typedef typename norm<typename mp::unless_error<typename stub<ZZ,0>::template apply<in<%d>, typename spos<ZZ,99>::type>, other_case<ZZ> >::type>::type type;' % n,
            (lambda n: lambda cx: (lambda r: r if r[0] == 'rej' else ('acc', T(6), [], START))(stub(0)(cx, inn(n), spos(cx, 99))))(n), reach=['acc', 'rej']))
    return Property('C14', INC, es, PRE, bounds='arbitrary (stub) argument parsers on inputs of at most %d characters, any start position, arbitrary predicates; every pair of transformations stacked' % (3 + th),
        assumptions=['the combined parsers obey the parser contract'])
