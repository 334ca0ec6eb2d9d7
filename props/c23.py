"""Combinators compose: what a combinator does depends on its argument parsers only through
what they do, so nesting any two combinators, or using one parser in several places, behaves
as the composition of the documented behaviours."""
import re
from vlib.core import *
from vlib.sem import *
from props.c08 import one
from props.c13 import facfe
from props.c14 import accept_when, terr
INC = inc('foldl', 'foldl1', 'foldl_reject_incomplete', 'foldl_reject_incomplete1', 'foldl_start_with_parser', 'foldl_reject_incomplete_start_with_parser',
    'foldr', 'foldr1', 'foldr_reject_incomplete', 'foldr_reject_incomplete1', 'foldr_start_with_parser',
    'repeated', 'repeated1', 'repeated_reject_incomplete', 'repeated_reject_incomplete1', 'repeated_one_of', 'repeated_one_of1',
    'look_ahead', 'optional', 'except', 'if_', 'entire_input', 'fail_at_first_char_expected', 'token', 'iterate_c', 'iterate',
    'sequence', 'sequence_apply', 'one_of', 'nth_of_c', 'nth_of', 'first_of', 'last_of', 'middle_of',
    'transform', 'always', 'accept_when', 'transform_error', 'transform_error_message', 'change_error_message', 'digit')
PRE = '''
template <class ZZ, int K> struct bpred { typedef bpred type; template <class A> struct apply : mpl::bool_<nd_int<ZZ,7,K,0,1>::value == 1> {}; };
template <int I> struct te_m { typedef te_m type; template <class R> struct apply : mp::reject<un<I, typename mp::get_message<R>::type>, typename mp::get_position<R>::type> {}; };
'''
T = lambda i: ('tag', i)
l_ = lambda a, b: ('ap', a, b)
r_ = lambda x, v: ('ap', v, x)
un = lambda i: (lambda r: ('un', i, r))
two = lambda rs: ('ap', rs[0], rs[1])
# name, template (P: the argument), reference, kind: 'r' repeats its argument (which must not
# accept without consuming), 'n' may accept without consuming, 'p' consumes if the argument does
def units(o):
  """the combinators; o distinguishes the constants and functions of the outer and the inner one"""
  return [(n, re.sub("@(.)", lambda m: str(o + int(m.group(1))), t), r, k) for n, t, r, k in [
 ('rep', 'mp::repeated<P>', repeated, 'rn'), ('rep1', 'mp::repeated1<P>', repeated1, 'r'),
 ('repi', 'mp::repeated_reject_incomplete<P>', repeated_ri, 'rn'), ('repi1', 'mp::repeated_reject_incomplete1<P>', repeated_ri1, 'r'),
 ('rone', 'mp::repeated_one_of<P,P>', lambda p: repeated(one([p, p])), 'rn'), ('rone1', 'mp::repeated_one_of1<P>', lambda p: repeated1(one([p])), 'r'),
 ('fl', 'mp::foldl<P,tag<@7>,fop>', lambda p: foldl(p, T(o + 7), l_), 'rn'), ('fl1', 'mp::foldl1<P,tag<@7>,fop>', lambda p: foldl1(p, T(o + 7), l_), 'r'),
 ('fli', 'mp::foldl_reject_incomplete<P,tag<@7>,fop>', lambda p: foldl_ri(p, T(o + 7), l_), 'rn'), ('fli1', 'mp::foldl_reject_incomplete1<P,tag<@7>,fop>', lambda p: foldl_ri1(p, T(o + 7), l_), 'r'),
 ('fls', 'mp::foldl_start_with_parser<P,P,fop>', lambda p: foldl_swp(p, p, l_), 'r'),
 ('flis', 'mp::foldl_reject_incomplete_start_with_parser<P,P,fop>', lambda p: foldl_swp(p, p, l_, True), 'r'),
 ('fr', 'mp::foldr<P,tag<@7>,fop>', lambda p: foldr(p, T(o + 7), r_), 'rn'), ('fr1', 'mp::foldr1<P,tag<@7>,fop>', lambda p: foldr1(p, T(o + 7), r_), 'r'),
 ('fri', 'mp::foldr_reject_incomplete<P,tag<@7>,fop>', lambda p: foldr_ri(p, T(o + 7), r_), 'rn'), ('fri1', 'mp::foldr_reject_incomplete1<P,tag<@7>,fop>', lambda p: foldr_ri1(p, T(o + 7), r_), 'r'),
 ('frs', 'mp::foldr_start_with_parser<P,mp::optional<P,tag<@9> >,fop>', lambda p: foldr_swp(p, optional(p, T(o + 9)), r_), 'rn'),
 ('look', 'mp::look_ahead<P>', look_ahead, 'n'), ('opt', 'mp::optional<P,tag<@1> >', lambda p: optional(p, T(o + 1)), 'n'),
 ('exc', 'mp::except<P,tag<@1>,tag<@2> >', lambda p: except_(p, T(o + 1), T(o + 2)), 'n'), ('if', 'mp::if_<P,tag<@1>,tag<@2> >', lambda p: if_(p, T(o + 1), T(o + 2)), 'n'),
 ('facfe', 'mp::always<mp::fail_at_first_char_expected<P>,tag<@8> >', lambda p: fmap(facfe(p), lambda r: T(o + 8)), 'n'),
 ('ent', 'mp::entire_input<P>', entire_input, 'p'), ('entm', 'mp::entire_input<P,tag<@5> >', lambda p: entire_input(p, T(o + 5)), 'p'), ('tok', 'mp::token<P>', token, 'p'),
 ('itc', 'mp::iterate_c<P,2>', lambda p: iterate(p, 2), 'p'), ('it', 'mp::iterate<P,mpl::int_<1> >', lambda p: iterate(p, 1), 'p'),
 ('seq1', 'mp::sequence<P>', lambda p: seq([p]), 'p'), ('seq2', 'mp::sequence<P,P>', lambda p: seq([p, p]), 'p'),
 ('sa2', 'mp::sequence_apply2<ap,P,P>', lambda p: fmap(seq([p, p]), two), 'p'),
 ('one1', 'mp::one_of<P>', lambda p: one([p]), 'p'), ('one2', 'mp::one_of<P,P>', lambda p: one([p, p]), 'p'),
 ('nthc', 'mp::nth_of_c<1,P,P>', lambda p: nth([p, p], 1), 'p'), ('nth', 'mp::nth_of<mpl::int_<0>,P,P>', lambda p: nth([p, p], 0), 'p'),
 ('first', 'mp::first_of<P,P>', lambda p: nth([p, p], 0), 'p'), ('last', 'mp::last_of<P,P>', lambda p: nth([p, p], 1), 'p'),
 ('mid', 'mp::middle_of<P,P,P>', lambda p: middle_of(p, p, p), 'p'),
 ('tr', 'mp::transform<P,fun<@1> >', lambda p: fmap(p, un(o + 1)), 'p'), ('alw', 'mp::always<P,tag<@1> >', lambda p: fmap(p, lambda r: T(o + 1)), 'p'),
 ('when', 'mp::accept_when<P,bpred<ZZ,@0>,tag<@2> >', lambda p: accept_when(p, lambda cx, r: cx.int(7, o, 0, 1) == 1, T(o + 2)), 'p'),
 ('terr', 'mp::transform_error<P,te_m<@3> >', lambda p: terr(p, lambda r: ('rej', ('un', o + 3, r[1]), r[2])), 'p'),
 ('tmsg', 'mp::transform_error_message<P,fun<@5> >', lambda p: transform_msg(p, un(o + 5)), 'p'),
 ('chmsg', 'mp::change_error_message<P,tag<@3> >', lambda p: change_msg(p, T(o + 3)), 'p'),
]]
U = units(0)
OUT = units(10)
VAR = {'rone', 'rone1', 'seq1', 'seq2', 'sa2', 'one1', 'one2', 'nthc', 'nth', 'first', 'last', 'mid', 'itc', 'it', 'tok'}
Q1, Q2 = stub(1), stub(2)
CTX = [ # contexts: P beside other arbitrary parsers; True if P is repeated
 ('cseqh', 'mp::sequence<P,stub<ZZ,1> >', lambda p: seq([p, Q1]), False), ('cseqt', 'mp::sequence<stub<ZZ,1>,P>', lambda p: seq([Q1, p]), False),
 ('coneh', 'mp::one_of<P,stub<ZZ,1> >', lambda p: one([p, Q1]), False), ('conet', 'mp::one_of<stub<ZZ,1>,P>', lambda p: one([Q1, p]), False),
 ('cfirst', 'mp::first_of<P,stub<ZZ,1> >', lambda p: nth([p, Q1], 0), False), ('clast', 'mp::last_of<stub<ZZ,1>,P>', lambda p: nth([Q1, p], 1), False),
 ('cmida', 'mp::middle_of<P,stub<ZZ,1>,stub<ZZ,2> >', lambda p: middle_of(p, Q1, Q2), False), ('cmidb', 'mp::middle_of<stub<ZZ,1>,P,stub<ZZ,2> >', lambda p: middle_of(Q1, p, Q2), False),
 ('cmidc', 'mp::middle_of<stub<ZZ,1>,stub<ZZ,2>,P>', lambda p: middle_of(Q1, Q2, p), False),
 ('cfli', 'mp::foldl_start_with_parser<pstub<ZZ,1>,P,fop>', lambda p: foldl_swp(pstub(1), p, l_), False), ('cflp', 'mp::foldl_start_with_parser<P,stub<ZZ,1>,fop>', lambda p: foldl_swp(p, Q1, l_), True),
 ('cflr', 'mp::foldl_reject_incomplete_start_with_parser<P,stub<ZZ,1>,fop>', lambda p: foldl_swp(p, Q1, l_, True), True),
 ('cfri', 'mp::foldr_start_with_parser<pstub<ZZ,1>,P,fop>', lambda p: foldr_swp(pstub(1), p, r_), False), ('cfrp', 'mp::foldr_start_with_parser<P,stub<ZZ,1>,fop>', lambda p: foldr_swp(p, Q1, r_), True),
]
MANY = {n for n, _, _, k in U if 'r' in k} | {'seq2', 'sa2', 'nthc', 'nth', 'first', 'last', 'mid', 'itc', 'tok', 'ent', 'one2', 'when'}
def put(t, p): return re.sub(r'\bP\b', p, t).replace('>>', '> >')
def prop(tier):
    th = tier == 'thorough'
    es = []
    for i, (n1, t1, r1, k1) in enumerate(OUT):
        for j, (n2, t2, r2, k2) in enumerate(U):
            if 'r' in k1 and 'n' in k2: continue
            pr = 'r' in k1 or 'r' in k2
            s, rs = ('pstub<ZZ,0>', pstub(0)) if pr else ('stub<ZZ,0>', stub(0))
            # only the variadic combinators differ between C++98 and later
            stds = ('98', '14') if {n1, n2} & VAR else (('98', '11', '14')[(i + j) % 3],)
            for n in (1, 2) if th or i == j or {n1, n2} <= MANY else (1,):
                st = stds if n == 1 or th or i == j else (('98', '11', '14')[(i + j) % 3],)
                es.append(fixed('%s_%s_%d' % (n1, n2, n), put(t1, put(t2, s)), r1(r2(rs)), n, **({} if th and n < 2 else {'stds': st})))
            # white space is what token looks for
            if 'tok' in (n1, n2):
                for n in (2, 3) if th else (2,):
                    es.append(symb('%s_%s_ws%d' % (n1, n2, n), put(t1, put(t2, 'mp::digit')), r1(r2(digit)), n, stds=stds))
    # every combinator next to other parsers
    for i, (n1, t1, r1, g) in enumerate(CTX):
        for j, (n2, t2, r2, k2) in enumerate(U):
            if g and 'n' in k2: continue
            s, rs = ('pstub<ZZ,0>', pstub(0)) if g or 'r' in k2 else ('stub<ZZ,0>', stub(0))
            stds = ('98', '14') if th else (('98', '14')[(i + j) % 2],)
            es.append(fixed('%s_%s_c' % (n1, n2), put(t1, put(t2, s)), r1(r2(rs)), 1, stds=stds))
    return Property('C23', INC, es, PRE, bounds='every pair of %d combinators nested in each other (a repetition only over parsers that consume), one arbitrary (stub) parser in all places of the inner one, on inputs of 1 and (where several items can be read) 2 characters, any start position; every combinator in 14 contexts beside other arbitrary parsers on inputs of 1 character; pairs with token also over digit on all strings of 2 characters' % len(U),
        assumptions=['the combined parsers obey the parser contract', 'a repeated parser never accepts without consuming input', 'rejections of one_of at the start position: see C08'])
