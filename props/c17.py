"""Parse outcomes: accept/reject carry what they were given, build_parser delivers the result of an
accepted input and makes a rejected one ill-formed, reporting where and why."""
from vlib.core import *
from vlib.sem import *
INC = inc('build_parser', 'accept', 'reject', 'is_error', 'get_result', 'get_remaining', 'get_position', 'get_message', 'sequence', 'lit_c', 'digit', 'letter', 'last_of', 'entire_input', 'one_char', 'repeated', 'one_of', 'look_ahead', 'optional')
T = lambda i: ('tag', i)
PRE = '''
template <class T> struct lazy { typedef typename T::type type; };
template <class T> struct lazy2 { typedef lazy<T> src; typedef typename src::type type; };
template <class P, class S> struct bp : nres<typename mp::build_parser<P>::type::template apply<S>::type> {};
template <class P, class S> struct bpa : nany<typename mp::build_parser<P>::type::template apply<S>::type> {};
template <class R> struct accs { typedef cons<num<mp::is_error<R>::type::value>, cons<typename nres<typename mp::get_result<R>::type>::type, cons<typename nstr<typename mp::get_remaining<R>::type>::type, cons<typename npos<typename mp::get_position<R>::type>::type, nil> > > > type; };
template <class R> struct rejs { typedef cons<num<mp::is_error<R>::type::value>, cons<typename nmsg<typename mp::get_message<R>::type>::type, cons<typename npos<typename mp::get_position<R>::type>::type, nil> > > type; };
template <class R> struct cur { typedef num<mp::is_error<>::template apply<R>::type::value> type; };
template <class R> struct curt { typedef num<mp::is_error<>::type::template apply<R>::type::value> type; };
'''
def built(p, any_=False, anymsg=False):
    def q(cx, s, pos):
        r = p(cx, s, START)
        if r[0] == 'rej': return ErrWith(r[2][1], r[2][2], ANY if anymsg else r[1])
        return 'other' if any_ else r[1]
    return q
def prop(tier):
    th = 1 + (tier == 'thorough')
    es = []
    for n in range(0, 4 + 2 * th):
        es.append(Entry('bp_%d' % n, 'typedef typename bp<stub<ZZ,0>, in<%d> >::type type;' % n, oracle(built(stub(0)), inn(n)), reach=['ill-formed', 'res']))
    R = [('digit', 'mp::digit', digit), ('ab', "mp::last_of<mp::lit_c<'a'>,mp::digit>", nth([lit(97), digit], 1)),
         ('ent', 'mp::entire_input<mp::digit>', entire_input(digit)),
         ('look', 'mp::look_ahead<mp::last_of<mp::letter,mp::digit> >', look_ahead(nth([letter, digit], 1))),
         ('lines', "mp::last_of<mp::repeated<mp::one_char>,mp::digit>", nth([repeated(one_char), digit], 1)),
         ('seqs', "mp::sequence<mp::letter,mp::digit>", seq([letter, digit]))]
    for nm, c, r in R:
        for n in range(0, 4 + th):
            es.append(Entry('bp%s_%d' % (nm, n), 'typedef typename bp<%s, typename sstr<ZZ,98,%d>::type>::type type;' % (c, n), oracle(built(r, anymsg=True), S(98, n))))
    es.append(Entry('bp_seq', 'typedef typename bp<mp::last_of<stub<ZZ,0>,stub<ZZ,1> >, in<2> >::type type;', oracle(built(nth([stub(0), stub(1)], 1)), inn(2)), reach=['ill-formed', 'res']))
    es.append(Entry('bp_ent', 'typedef typename bp<mp::entire_input<stub<ZZ,0>,msg<7,num<0>,pos<num<1>,num<1>,num<0> > > >, in<2> >::type type;', oracle(built(entire_input(stub(0), ('msg', 7, 0, START))), inn(2)), reach=['ill-formed', 'res']))
    # what an outcome was made of comes back, evaluated or not
    A = lambda r, s, p: 'mp::accept<%s,%s,%s>' % (r, s, p)
    SP, SS = 'typename spos<ZZ,99>::type', 'typename sstr<ZZ,98,%d>::type'
    for n in (0, 1, 3):
        for lz, (sx, px) in enumerate([('%s', '%s'), ('sstr<ZZ,98,%d>', 'spos<ZZ,99>'), ('lazy<sstr<ZZ,98,%d> >', 'lazy2<spos<ZZ,99> >')]):
            s = (SS % n) if lz == 0 else sx % n
            p = SP if lz == 0 else px
            a = A('tag<3>', s, p)
            e = (lambda n: lambda cx: [0, T(3), sstr(cx, 98, n), spos(cx, 99)])(n)
            es.append(Entry('acc%d_%d' % (lz, n), 'typedef typename accs<%s >::type type;' % a, e))
            es.append(Entry('acct%d_%d' % (lz, n), 'typedef typename accs<typename %s::type>::type type;' % a, e))
            es.append(Entry('accl%d_%d' % (lz, n), 'typedef typename accs<lazy<%s > >::type type;' % a, e))
            es.append(Entry('curacc%d_%d' % (lz, n), 'typedef pair<typename cur<%s >::type, typename curt<lazy<%s > >::type> type;' % (a, a), lambda cx: ('pair', 0, 0)))
            if n: continue
            r = 'mp::reject<tag<4>,%s>' % p
            e = lambda cx: [1, T(4), spos(cx, 99)]
            es.append(Entry('rej%d' % lz, 'typedef typename rejs<%s >::type type;' % r, e))
            es.append(Entry('rejt%d' % lz, 'typedef typename rejs<typename %s::type>::type type;' % r, e))
            es.append(Entry('rejl%d' % lz, 'typedef typename rejs<lazy<%s > >::type type;' % r, e))
            es.append(Entry('currej%d' % lz, 'typedef pair<typename cur<%s >::type, typename curt<lazy<%s > >::type> type;' % (r, r), lambda cx: ('pair', 1, 1)))
    # is_error of any parser's outcome
    for n in range(0, 4):
        es.append(Entry('iserr_%d' % n, 'typedef num<mp::is_error<typename stub<ZZ,0>::template apply<in<%d>, typename spos<ZZ,99>::type> >::type::value> type;' % n,
            (lambda n: lambda cx: int(stub(0)(cx, inn(n), spos(cx, 99))[0] == 'rej'))(n)))
    return Property('C17', INC, es, PRE, bounds='build_parser over arbitrary (stub) parsers on inputs of at most %d characters and concrete parsers on all strings of at most %d characters; outcomes with any position and remaining strings of 0, 1 and 3 characters, arguments evaluated or lazy' % (3 + 2 * th, 3 + th),
        assumptions=['the parser given to build_parser obeys the parser contract', 'a rejected input is reported by the class whose instantiation fails: its arguments are the line, the column and the message'])
