"""Texts of the errors (get_value) and the report of debug_parsing_error."""
from vlib.core import *
from vlib.sem import *
INC = ['boost/metaparse/debug_parsing_error.hpp', 'boost/metaparse/define_error.hpp'] + inc('build_parser', 'lit_c', 'digit', 'letter', 'space', 'one_char', 'middle_of', 'nth_of_c', 'entire_input', 'sequence', 'one_of', 'int_', 'keyword', 'except', 'range_c', 'fail', 'change_error_message', 'repeated', 'return_', 'token', 'fail_at_first_char_expected')
PRE = r'''
BOOST_METAPARSE_DEFINE_ERROR(own_error, "an error of my own");
namespace e = mp::error;
template <class R> struct msg_text { typedef text_of<typename mp::get_message<R>::type> type; };
template <bool E, class R> struct rt { typedef text_of<typename mp::get_message<R>::type> type; };
template <class R> struct rt<false, R> { typedef nil type; };
// text of the message when the parser rejects
template <class P, class S, class Pos> struct text_if_rej : rt<mp::is_error<typename P::template apply<S, Pos>::type>::type::value, typename P::template apply<S, Pos>::type> {};
'''
TXT = {1: 'Digit expected', 2: 'End of input expected', 3: 'Parser expected to fail', 4: 'Letter expected', 5: 'None of the expected cases found', 6: 'Unexpected character', 7: 'Unexpected end of input', 8: 'Whitespace expected'}
NAMES = {1: 'digit_expected', 2: 'end_of_input_expected', 3: 'expected_to_fail', 4: 'letter_expected', 5: 'none_of_the_expected_cases_found', 6: 'unexpected_character', 7: 'unexpected_end_of_input', 8: 'whitespace_expected'}
OWN = ('own',)
def dec(n): return [('dec', n)]
def body(m):
    if m == OWN: return cs('an error of my own')
    assert m[0] == 'err', m
    i = m[1]
    if i in TXT: return cs(TXT[i])
    if i == 10: return cs('Expected: ') + [m[2]]
    if i == 9: return cs('index (') + dec(m[4]) + cs(') out of range [') + dec(m[2]) + cs('-') + dec(m[3]) + cs(']')
    return body(m[4]) + cs(' (see ') + dec(m[2]) + cs(':') + dec(m[3]) + cs(')')
def text(l): return tuple(['text'] + l)
def T(f): return lambda cx: text(body(f(cx)))
def cstr(cx, s):
    """a string printed through a pointer ends at its first NUL"""
    out = []
    for c in s:
        if cx.decide(eqz(c, 0)): break
        out.append(c)
    return out
def report(p, s):
    def f(cx):
        i = s(cx)
        out = cs('Compile-time parsing results\n----------------------------\nInput text:\n') + cstr(cx, i) + cs('\n\n')
        r = p(cx, i, START)
        if r[0] == 'rej': return text(out + cs('Parsing failed:\nline ') + dec(r[2][1]) + cs(', col ') + dec(r[2][2]) + cs(': ') + body(r[1]) + cs('\n'))
        return text(out + cs('Parsing was successful. Remaining string is:\n') + cstr(cx, r[2]) + cs('\n'))
    return f
def prop(tier):
    th = 1 + (tier == 'thorough')
    es = []
    I = lambda k: 'nd_int<ZZ,1,%d,-2147483647,2147483647>::value' % k
    iv = lambda cx, k: cx.int(1, k, -2147483647, 2147483647)
    for i in TXT:
        es.append(val('text_' + NAMES[i], 'text_of<typename dep<ZZ,e::%s>::type>' % NAMES[i], T(lambda cx, i=i: err(i))))
    es.append(val('text_own', 'text_of<typename dep<ZZ,own_error>::type>', T(lambda cx: OWN)))
    es.append(val('text_literal', 'text_of<e::literal_expected<nd_char<ZZ,1,0>::value> >', T(lambda cx: literal(cx.ch(1, 0)))))
    es.append(val('text_index', 'text_of<e::index_out_of_range<%s,%s,%s> >' % (I(0), I(1), I(2)), T(lambda cx: index_err(iv(cx, 0), iv(cx, 1), iv(cx, 2)))))
    for i in TXT:
        es.append(val('text_unp_' + NAMES[i], 'text_of<e::unpaired<%s,%s,e::%s> >' % (I(0), I(1), NAMES[i]), T(lambda cx, i=i: unpaired(iv(cx, 0), iv(cx, 1), err(i)))))
    es.append(val('text_unp_lit', 'text_of<e::unpaired<%s,%s,e::literal_expected<nd_char<ZZ,1,0>::value> > >' % (I(0), I(1)), T(lambda cx: unpaired(iv(cx, 0), iv(cx, 1), literal(cx.ch(1, 0))))))
    es.append(val('text_unp_app', 'text_of<typename e::unpaired<%s,%s>::template apply<e::literal_expected<nd_char<ZZ,1,0>::value> >::type>' % (I(0), I(1)), T(lambda cx: unpaired(iv(cx, 0), iv(cx, 1), literal(cx.ch(1, 0))))))
    es.append(val('text_unp_own', 'text_of<e::unpaired<%s,%s,own_error> >' % (I(0), I(1)), T(lambda cx: unpaired(iv(cx, 0), iv(cx, 1), OWN))))
    es.append(val('text_unp_unp', 'text_of<e::unpaired<%s,%s,e::unpaired<%s,%s,e::index_out_of_range<%s,%s,%s> > > >' % tuple(I(k) for k in range(7)), T(lambda cx: unpaired(iv(cx, 0), iv(cx, 1), unpaired(iv(cx, 2), iv(cx, 3), index_err(iv(cx, 4), iv(cx, 5), iv(cx, 6)))))))
    ps = [
        ('digit', 'mp::digit', digit), ('letter', 'mp::letter', letter), ('space', 'mp::space', space), ('one_char', 'mp::one_char', one_char),
        ('lit', 'mp::lit_c<nd_char<ZZ,2,0>::value>', lambda cx, s, p: lit(cx.ch(2, 0))(cx, s, p)),
        ('range', "mp::range_c<'a','f'>", range_(97, 102)),
        ('paren', "mp::middle_of<mp::lit_c<'('>,mp::digit,mp::lit_c<')'> >", middle_of(lit(40), digit, lit(41))),
        ('nest', "mp::middle_of<mp::lit_c<'('>,mp::middle_of<mp::lit_c<'['>,mp::return_<own_error>,mp::lit_c<']'> >,mp::lit_c<')'> >", middle_of(lit(40), middle_of(lit(91), ret(0), lit(93)), lit(41))),
        ('nth', 'mp::nth_of_c<5,mp::digit,mp::letter>', fail(index_err(0, 1, 5))),
        ('entire', 'mp::entire_input<mp::int_>', lambda cx, s, p: entire_input(foldl1(digit, 0, lambda a, x: 0))(cx, s, p)),
        ('except', "mp::except<mp::digit,own_error,own_error>", except_(digit, 0, OWN)),
        ('own', "mp::change_error_message<mp::sequence<mp::letter,mp::letter>,own_error>", change_msg(seq([letter, letter]), OWN)),
        ('kw', "mp::keyword<mp::string<'i','f'> >", seq([lit(105), lit(102)])),
        ('rep', "mp::repeated<mp::letter>", repeated(letter)),
    ]
    for nm, c, ref in ps:
        for n in (0, 1, 2) + (3, 4)[:th]:
            S_ = 'typename sstr<ZZ,98,%d>::type' % n
            def o(cx, ref=ref, n=n):
                r = ref(cx, sstr(cx, 98, n), spos(cx, 99))
                return text(body(r[1])) if r[0] == 'rej' else []
            es.append(val('msg_%s_%d' % (nm, n), 'typename text_if_rej<%s,%s,typename spos<ZZ,99>::type>::type' % (c, S_), o))
            es.append(val('dbg_%s_%d' % (nm, n), 'output_of<mp::debug_parsing_error<%s,%s> >' % (c, S_), report(ref, S(98, n))))
    for nm, c, ref in ps[:1] + ps[6:7] + ps[9:10]:
        for n in (0, 2):
            es.append(val('dbgb_%s_%d' % (nm, n), 'output_of<mp::debug_parsing_error<mp::build_parser<%s>,%s> >' % (c, 'typename sstr<ZZ,98,%d>::type' % n), report(ref, S(98, n))))
    return Property('C20', INC, es, PRE, bounds='every error class, numbers over the whole int range, every character; messages and reports of 15 parsers on all strings of at most %d characters' % (2 + th),
        assumptions=['std::string, std::ostringstream and std::cout are modelled: appending a char appends that character, appending an int its decimal digits', 'a string printed through a character pointer ends at its first NUL'])
