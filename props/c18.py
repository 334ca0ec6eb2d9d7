"""Accounting: whatever is combined, an acceptance leaves a suffix of the input and reports the start
position advanced over exactly the consumed prefix; a rejection is reported inside the input."""
from vlib.core import *
from vlib.sem import *
INC = inc('one_char', 'digit', 'digit_val', 'letter', 'alphanum', 'space', 'spaces', 'int_', 'lit_c', 'range_c', 'one_of', 'one_of_c', 'one_char_except_c', 'sequence', 'sequence_apply', 'nth_of_c', 'first_of', 'last_of', 'middle_of', 'repeated', 'repeated1', 'repeated_reject_incomplete', 'repeated_reject_incomplete1', 'repeated_one_of', 'repeated_one_of1', 'iterate_c',
    'foldl', 'foldl1', 'foldl_reject_incomplete', 'foldl_reject_incomplete1', 'foldl_start_with_parser', 'foldl_reject_incomplete_start_with_parser', 'foldr', 'foldr1', 'foldr_reject_incomplete', 'foldr_reject_incomplete1', 'foldr_start_with_parser', 'optional', 'look_ahead', 'except', 'if_', 'entire_input', 'empty', 'return_', 'token', 'keyword', 'transform', 'always', 'always_c', 'accept_when', 'change_error_message', 'transform_error_message', 'fail_at_first_char_expected', 'grammar')
PRE = '''
template <class A, class B> struct mk2 { typedef ap<A, B> type; };
struct anyp { typedef anyp type; template <class A> struct apply : mpl::bool_<(A::type::value & 1)> {}; };
typedef mp::string<'i','f'> kw_if;
'''
L, D = 'mp::letter', 'mp::digit'
ITEM = "mp::last_of<mp::lit_c<'-'>,mp::digit>"
PARSERS = [
    ('one_char', 'mp::one_char'), ('spaces', 'mp::spaces'), ('int', 'mp::int_'), ('digit_val', 'mp::digit_val'), ('alnum', 'mp::alphanum'),
    ('range', "mp::range_c<'b','y'>"), ('ofc', "mp::one_of_c<'a','\\n','z'>"), ('excc', "mp::one_char_except_c<'a','\\n'>"),
    ('seq', 'mp::sequence<mp::one_char,%s,mp::one_char>' % L), ('apply', 'mp::sequence_apply2<mk2,mp::one_char,%s>' % D),
    ('nth', 'mp::nth_of_c<1,mp::one_char,mp::one_char,%s>' % D), ('first', 'mp::first_of<mp::one_char,%s>' % D), ('last', 'mp::last_of<mp::one_char,%s,mp::space>' % D),
    ('middle', "mp::middle_of<mp::lit_c<'('>,mp::repeated<mp::one_char_except_c<')'> >,mp::lit_c<')'> >"),
    ('of_seq', "mp::one_of<%s,mp::sequence<mp::space,mp::space,%s>,mp::sequence<mp::one_char,%s> >" % (ITEM, D, L)),
    ('rep', 'mp::repeated<%s>' % ITEM), ('rep1', 'mp::repeated1<%s>' % ITEM), ('repri', 'mp::repeated_reject_incomplete<%s>' % ITEM), ('repri1', 'mp::repeated_reject_incomplete1<%s>' % ITEM),
    ('repof', 'mp::repeated_one_of<%s,mp::space>' % ITEM), ('repof1', 'mp::repeated_one_of1<mp::space,%s>' % ITEM),
    ('iter2', 'mp::iterate_c<mp::one_char,2>'), ('iter2i', 'mp::iterate_c<%s,2>' % ITEM),
    ('foldl', 'mp::foldl<%s,tag<1>,fop>' % ITEM), ('foldl1', 'mp::foldl1<mp::space,tag<1>,fop>'), ('foldlri', 'mp::foldl_reject_incomplete<%s,tag<1>,fop>' % ITEM), ('foldlri1', 'mp::foldl_reject_incomplete1<%s,tag<1>,fop>' % ITEM),
    ('foldlsp', 'mp::foldl_start_with_parser<%s,mp::one_char,fop>' % ITEM), ('foldlrisp', 'mp::foldl_reject_incomplete_start_with_parser<%s,mp::one_char,fop>' % ITEM),
    ('foldr', 'mp::foldr<mp::space,tag<1>,fop>'), ('foldr1', 'mp::foldr1<%s,tag<1>,fop>' % ITEM), ('foldrri', 'mp::foldr_reject_incomplete<%s,tag<1>,fop>' % ITEM), ('foldrri1', 'mp::foldr_reject_incomplete1<%s,tag<1>,fop>' % ITEM),
    ('foldrsp', 'mp::foldr_start_with_parser<%s,mp::one_char,fop>' % ITEM),
    ('optional', 'mp::optional<%s,tag<1> >' % ITEM), ('look', 'mp::look_ahead<%s>' % ITEM), ('except', 'mp::except<%s,tag<1>,tag<2> >' % ITEM), ('if', 'mp::if_<%s,tag<1>,tag<2> >' % ITEM),
    ('entire', 'mp::entire_input<mp::repeated<mp::space> >'), ('empty', 'mp::empty<tag<1> >'), ('return', 'mp::return_<tag<1> >'),
    ('token', 'mp::token<%s>' % ITEM), ('keyword', 'mp::keyword<kw_if>'), ('transform', 'mp::transform<%s,fun<1> >' % ITEM), ('always', 'mp::always<%s,tag<1> >' % ITEM), ('always_c', "mp::always_c<'\\n',tag<1> >"),
    ('when', 'mp::accept_when<mp::last_of<mp::one_char,mp::one_char>,anyp,tag<1> >'), ('chmsg', 'mp::change_error_message<mp::sequence<mp::space,mp::letter>,tag<1> >'), ('tmsg', 'mp::transform_error_message<%s,fun<1> >' % ITEM),
    ('facfe', 'mp::repeated<mp::last_of<mp::look_ahead<mp::letter>,mp::one_char> >'),
    ('tokseq', "mp::sequence<mp::token<mp::letter>,mp::token<mp::lit_c<'='> > >"),
    ('nested', "mp::middle_of<mp::token<mp::lit_c<'['> >,mp::repeated_reject_incomplete<mp::token<mp::letter> >,mp::token<mp::lit_c<']'> > >"),
]
def account(items):
    n = len(items)
    def o(cx):
        s, pos = pstr(cx, 98, items), spos(cx, 99)
        at = [pos]
        for c in s: at.append(advance(cx, c, at[-1]))
        def ok(a):
            if a[0] == 'acc':
                k = n - len(a[2])
                return False if k < 0 else AND(compare(s[k:], a[2]), compare(at[k], a[3]))
            return OR(*[c for c in (compare(p, a[2]) for p in at) if c is not False])
        return Pred(ok, 'a suffix of the input, at the position of its first character | an error inside the input')
    return o
def patt_acc(name, c, items):
    return Entry(name, 'typedef typename run_any<%s, %s, typename spos<ZZ,99>::type>::type type;' % (c, pcode(98, items)), account(items))
# longer inputs: ? is an arbitrary character
ITEMS = ['-1-2-3-4-5-6-7?8', '-1-2-3-4-5-6-?-', '-1-2-3-4-5-6-7-8-9-0-1-2??']
LONG = {'spaces': [' \n\r\n\t  \r \n ?\n?'], 'int': ['12345?7?', '0000000?'], 'middle': ['(a\nb\r\nc?d)?', '(abcdefghijkl?'], 'entire': [' \n\r\n  \n??'], 'token': ['-1 \n\r\n  ??', '-? \n\n\n'], 'tokseq': ['a \n \r\n ?  ?'],
    'nested': ['[ a b\nc d ?]  ', '[a b c d e?'], 'seq': ['\n??'], 'rep': ITEMS, 'rep1': ITEMS, 'repri': ITEMS, 'repri1': ITEMS, 'repof': ['-1 -2\n-3\r\n-4 ?5?', '  \n-1-2-?'], 'repof1': [' -1 -2\n-3\r\n-4 ?5?', '  \n-1-2-?'],
    'foldl': ITEMS, 'foldl1': [' \n\r\n\t  \r \n ?\n?'], 'foldlri': ITEMS, 'foldlri1': ITEMS, 'foldlsp': ['?' + t for t in ITEMS], 'foldlrisp': ['?' + t for t in ITEMS], 'foldr': [' \n\r\n\t  \r \n ?\n?'], 'foldr1': ITEMS, 'foldrri': ITEMS, 'foldrri1': ITEMS, 'foldrsp': ITEMS}
def prop(tier):
    th = 1 + (tier == 'thorough')
    es = []
    for nm, c in PARSERS:
        for n in range(0, 4 + th):
            if nm in ('nested',) and n > 3: continue
            es.append(Entry('%s_%d' % (nm, n), 'typedef typename run_any<%s, typename sstr<ZZ,98,%d>::type, typename spos<ZZ,99>::type>::type type;' % (c, n), account([None] * n)))
        if nm in LONG:
            for k, t in enumerate(LONG[nm]):
                items = [None if x == '?' else ord(x) for x in t]
                es.append(patt_acc('%s_long%d' % (nm, k), c, items))
    return Property('C18', INC, es, PRE, bounds='%d parsers built from the library, each on all strings of at most %d characters from any start position; the repeating ones also on inputs of up to 27 characters, 1 to 3 of them arbitrary' % (len(PARSERS), 3 + th))
