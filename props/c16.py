"""grammar: the embedded EBNF builds the parser its rules describe."""
from vlib.core import *
from vlib.sem import *
from props.c08 import one
INC = inc('grammar', 'lit_c', 'digit', 'letter', 'int_', 'first_of') + ['boost/mpl/lambda.hpp', 'boost/mpl/apply.hpp', 'boost/mpl/front.hpp', 'boost/mpl/back.hpp', 'boost/mpl/next_prior.hpp']
PRE = '''
struct succ { typedef succ type; template <class C> struct apply { typedef num<C::type::value + 1> type; }; };
'''
# ------------------------------------------------ reference: definition -> builder of a parser
def anyone(ps): return one_of(ps, lambda cx, pos, rej: ('rej', NONE, pos))
tok = lambda c: token(lit(ord(c)))
esc = anyone([fmap(lit(ord('n')), lambda r: 10), fmap(lit(ord('r')), lambda r: 13), fmap(lit(ord('t')), lambda r: 9), lit(ord('\\')), lit(ord("'"))])
char_token = middle_of(lit(39), anyone([nth([lit(92), esc], 1), except_chars([39])]), token(lit(39)))
alnum_ = cclass(lambda c: OR(is_letter(c), is_digit(c), eqz(c, 95)), LETTER)
name_token = token(repeated1(alnum_))
def expression(cx, s, pos): return _expression(cx, s, pos)
name_expression = anyone([
    fmap(char_token, lambda c: ('char', c)),
    fmap(name_token, lambda n: ('name', n)),
    middle_of(tok('('), expression, tok(')'))])
repeated_expression = foldl_swp(anyone([tok('*'), tok('+')]), name_expression, lambda e, t: ('rep', e, t))
seq_expression = foldl_swp(repeated_expression, repeated_expression, lambda a, b: ('seq', a, b))
_expression = foldl_swp(nth([tok('|'), seq_expression], 1), seq_expression, lambda a, b: ('or', a, b))
define = token(seq([lit(58), lit(58), lit(61)]))
rule_definition = entire_input(seq([name_token, define, expression]))
class Ill(Exception): pass
def build(cx, e, env):
    k = e[0]
    if k == 'char': return lit(e[1])
    if k == 'name':
        for n, make in reversed(env):
            if len(n) == len(e[1]) and cx.decide(AND(*[eqz(a, b) for a, b in zip(n, e[1])])): return make(cx)
        raise Ill()
    if k == 'rep':
        p = build(cx, e[1], env)
        return repeated1(p) if cx.decide(eqz(e[2], ord('+'))) else repeated(p)
    a, b = build(cx, e[1], env), build(cx, e[2], env)
    return seq([a, b]) if k == 'seq' else one([a, b])
def name_of(cx, s):
    r = name_token(cx, s, START)
    if r[0] == 'rej': raise Ill()
    return r[1]
def grammar(items, start='S'):
    """items: ('rule', chars, action or None) | ('import', name, parser) -> oracle parser or ERR"""
    def p(cx, s, pos):
        env, dep = [], [0]
        try:
            for it in items:
                if it[0] == 'import': env.append((name_of(cx, cs(it[1])), lambda cx, q=it[2]: q)); continue
                d = [c(cx) if callable(c) else c for c in it[1]]
                r = rule_definition(cx, d, START)
                if r[0] == 'rej': return ERR
                nm, ex = r[1][0], r[1][2]
                def make(cx, ex=ex, act=it[2]):
                    dep[0] += 1
                    if dep[0] > 20: raise Ill()     # recursive rules are not supported
                    q = build(cx, ex, env); dep[0] -= 1
                    return fmap(q, act) if act else q
                env.append((nm, make))
            q = build(cx, ('name', name_of(cx, cs(start) if isinstance(start, str) else [c[1](cx) if isinstance(c, tuple) else ord(c) for c in start])), env)
        except Ill: return ERR
        try: return q(cx, s, pos)
        except RuntimeError: return ERR     # a repetition of something that reads nothing never ends
    return p
def ctext(chars): return 'mp::string<%s>' % ','.join(c if isinstance(c, str) and len(c) > 1 else str(ord(c)) for c in chars)
SY = lambda k: ('nd_char<ZZ,5,%d>::value' % k, lambda cx: cx.ch(5, k))
def gcode(items, start=None):
    t = 'mp::grammar<%s>' % (ctext([c[0] if isinstance(c, tuple) else c for c in start]) if start else '')
    for i, it in enumerate(items):
        if it[0] == 'import': d = 'import<%s,%s >' % (ctext(it[1]), it[3])
        else:
            cc = [c[0] if isinstance(c, tuple) else c for c in it[1]]
            d = 'rule<%s%s >' % (ctext(cc), ',' + it[3] if it[2] else '')
        t = '%s::template %s::type' % (t, d) if i else 'typename dep<ZZ,%s >::type::template %s::type' % (t, d)
    return t
def ritems(items):
    out = []
    for it in items:
        if it[0] == 'import': out.append(it[:3])
        else: out.append(('rule', [c[1] if isinstance(c, tuple) else ord(c) for c in it[1]], it[2]))
    return out
R = lambda d, act=None, code=None: ('rule', d, act, code)
I = lambda n, ref, code: ('import', n, ref, code)
un = lambda i: (lambda r: ('un', i, r))
def sx(t, *syms):
    """definition text with ? replaced by symbolic characters"""
    out, k = [], 0
    for c in t:
        if c == '?': out.append(SY(k)); k += 1
        else: out.append(c)
    return out
def prop(tier):
    th = 1 + (tier == 'thorough')
    es = []
    def G(nm, items, n, start=None, **kw):
        for m in (n if isinstance(n, (list, tuple, range)) else [n]):
            es.append(Entry('%s_%d' % (nm, m), 'typedef typename run<%s, typename sstr<ZZ,98,%d>::type, typename spos<ZZ,99>::type>::type type;' % (gcode(items, start), m),
                oracle(grammar(ritems(items), start or 'S'), S(98, m), P(99)), **kw))
    G('lit', [R("S ::= 'x'")], range(0, 3))
    G('seq', [R("S ::= 'x' 'y'")], range(0, 4))
    G('seq3', [R("S ::= 'x' 'y' 'z'")], [3, 4])
    G('or', [R("S ::= 'x' | 'y'")], [0, 1, 2])
    G('or3', [R("S ::= 'x' 'a' | 'x' 'b' | 'c'")], [1, 2, 3])
    G('star', [R("S ::= 'x'*")], range(0, 4))
    G('plus', [R("S ::= 'x'+")], range(0, 4))
    G('bracket', [R("S ::= ('x' | 'y') 'z'")], [1, 2, 3])
    G('brstar', [R("S ::= ('x' 'y')* 'z'")], [1, 3, 5] if th else [1, 3])
    G('prec', [R("S ::= 'a' 'b'* | 'c'+ 'd'")], [1, 2, 3])
    G('starplus', [R("S ::= ('x'+ 'y')+")], [2, 3])
    G('ref', [R("R ::= 'x' | 'y'"), R("S ::= R R")], [1, 2, 3])
    G('fwd', [R("S ::= R 'z'"), R("R ::= 'x'")], [2])
    G('chain', [R("a1 ::= 'x'"), R("b_2 ::= a1*"), R("S ::= b_2 'y'")], [1, 3])
    G('esc', [R("S ::= '\\n' '\\r' '\\t' '\\\\' '\\''")], [1, 5])
    G('nospace', [R("S::='x'|'y'*")], [0, 1, 2])
    G('spaces', [R("S  ::=  ( 'x'  )  *  'y' ")], [1, 2])
    G('import', [I('I', digit, 'mp::digit'), R("S ::= I '-' I")], [1, 3])
    G('import_only', [I('S', letter, 'mp::letter')], [0, 1, 2])
    G('start', [R("expr ::= 'e'"), R("S ::= 's'")], [1], start='expr')
    G('start2', [R("expr ::= 'e'"), R("S ::= 's'")], [1])
    G('action', [R("S ::= 'x' | 'y'", un(1), 'fun<1>')], [0, 1, 2])
    G('action_ref', [R("X ::= 'x'", un(1), 'fun<1>'), R("Y ::= 'y'", un(2), 'fun<2>'), R("S ::= X Y | Y", un(3), 'fun<3>')], [1, 2])
    G('action_rep', [R("X ::= 'x'", lambda c: add(c, 1), 'succ'), R("S ::= X+")], [0, 2])
    G('action_lambda', [R("S ::= 'x' 'y'", lambda r: r[1], 'mpl::back<mpl::_1>')], [1, 2])
    # a symbol called like a keyword prefix / one name a prefix of another
    G('prefix', [R("ab ::= 'x'"), R("a ::= 'y'"), R("S ::= a ab")], [2])
    # arbitrary characters inside the definition
    G('symlit', [R(sx("S ::= '?'"))], [1])
    G('symesc', [R(sx("S ::= '\\?'"))], [1])
    G('symq', [R(sx("S ::= '?' '?'"))], [2] if th else [1])
    G('symop', [R(sx("S ::= 'x'?"))], [2])
    G('symop2', [R(sx("S ::= 'x'?'y'"))], [1, 2])
    G('symdef', [R(sx("S ?:= 'x'"))], [1])
    G('symname', [R("A ::= 'x'"), R("B ::= 'y'"), R(sx("S ::= ?"))], [1])
    G('symname2', [R("AB ::= 'x'"), R("B ::= 'y'"), R(sx("S ::= A?"))], [1])
    G('symstart', [R(sx("? ::= 'x'"))], [1])
    # names are read like the names in rules (white space after them is skipped)
    G('start_sp', [R("expr ::= 'e'"), R("S ::= 's'")], [1], start='expr  ')
    G('start_cr', [R("e1 ::= 'e'"), R("e ::= 's'")], [1], start='e\r\n\t')
    G('import_sp', [I('I ', digit, 'mp::digit'), R("S ::= I '-' I")], [3])
    G('symstart2', [R("ab ::= 'x'"), R("a ::= 'y'")], [1], start=[ 'a', SY(0)])
    G('fwd_act', [R("S ::= X Y X", un(3), 'fun<3>'), R("X ::= 'x'", un(1), 'fun<1>'), R("Y ::= 'y'", un(2), 'fun<2>')], [2, 3])
    G('act_start', [R("X ::= 'x'", un(1), 'fun<1>'), R("S ::= X")], [1], start='X')
    G('act_sel', [R("X ::= 'x' 'y'", un(1), 'fun<1>'), R("Y ::= 'x' 'z'", un(2), 'fun<2>'), R("S ::= X | Y | 'x'")], [1, 2])
    G('act_br', [R("X ::= 'x'", un(1), 'fun<1>'), R("S ::= (X 'y')* X")], [1, 3])
    G('imp_act', [I('I', digit, 'mp::digit'), R("X ::= I", un(1), 'fun<1>'), R("S ::= X (I | X)", un(2), 'fun<2>')], [1, 2])
    G('imp_seq', [I('kv', nth([letter, lit(61)], 0), "mp::first_of<mp::letter,mp::lit_c<'='> >"), R("S ::= kv kv | kv+ 'x'*")], [2, 4])
    if th:
        G('symop3', [R(sx("S ::= 'x'??"))], [2])
        G('symany2', [R("A ::= 'x'"), R(sx("S ::=??"))], [1])
        G('symbr', [R(sx("S ::= ?'x'?"))], [1])
    # larger grammars and longer inputs
    def GP(nm, items, pat, **kw):
        es.append(patt(nm, gcode(items), grammar(ritems(items), 'S'), pat, **kw))
    GP('seq6', [R("S::='a' 'b' 'c' 'd' 'e' 'f'")], cs('abcd') + [None] * 3, reach=['acc', 'rej'])
    GP('seq6b', [R("S::='a' 'b' 'c' 'd' 'e' 'f'")], [97, None] + cs('cde') + [None])
    GP('or6', [R("S::='a'|'b'|'c'|'d'|'e'|'f'")], [None, None], reach=['acc', 'rej'])
    GP('or_seq', [R("S::='a''b''c'|'a''b''d'|'a''e'")], [None, 98, None, None], reach=['acc', 'rej'])
    GP('long_star', [R("S::='x'* 'y'")], [120] * 20 + [None, None], reach=['acc', 'rej'])
    GP('long_plus', [R("S::='x'+ 'y'*")], [None] + [120] * 12 + [121] * 10 + [None])
    GP('long_br', [R("S::=('x' 'y'+)* 'z'")], cs('xyxyyxyyyxyxyxy') + [None, None], reach=['acc', 'rej'])
    GP('deep', [R("S::=((('x')))(('y'|('z')))")], [None, None, None], reach=['acc', 'rej'])
    GP('chain8', [R("a::='x'"), R("b::=a a"), R("c::=b b"), R("d::=c|'y'"), R("e::=d+"), R("f::=e 'z'"), R("g::=f"), R("S::=g")], cs('xxxxyxxx') + [None, None], reach=['acc', 'rej'])
    GP('fwd3', [R("S::=a b"), R("a::=c 'y'"), R("b::=c"), R("c::='x'")], [120, None, None, None], reach=['acc', 'rej'])
    GP('longnames', [R("abcdefghij::='x'"), R("abcdefghik::='y'"), R("abcdefghi::='z'"), R("S::=abcdefghik abcdefghi")], [None, None, None], reach=['acc', 'rej'])
    GP('symlong', [R("abcdefg1::='x'"), R("abcdefg2::='y'"), R(sx("S::=abcdefg?"))], [None])
    GP('symmid', [R("ab_c::='x'"), R("ab1c::='y'"), R(sx("S::=ab?c"))], [None])
    GP('symmid2', [R("ab::='x'"), R("cb::='y'"), R(sx("S::=?b"))], [None])
    GP('lits', [R("S::='|' '(' ')' '*' '+' ':' '='")], cs('|()*') + [None, None, None], reach=['acc', 'rej'])
    GP('litname', [R("x::='y'"), R("S::='x' x")], [None, None, None], reach=['acc', 'rej'])
    GP('import3', [I('d', digit, 'mp::digit'), I('l', letter, 'mp::letter'), R("i::=l (l|d)*"), R("S::=i '=' d+")], cs('ab1c=') + [None, None], reach=['acc', 'rej'])
    GP('act_chain', [R("X::='x'|'y'", un(1), 'fun<1>'), R("Y::=X", un(2), 'fun<2>'), R("S::=Y*", un(3), 'fun<3>')], [120, 121, None, None])
    # every definition that starts well and ends arbitrarily is accepted or diagnosed
    return Property('C16', INC, es, PRE, bounds='%d grammars over all inputs of at most 5 characters and any start position; definitions with one to %d arbitrary characters in terminals, operators, names and delimiters' % (len(es), 3 if th else 2),
        assumptions=['no rule is redefined and no rule is recursive (not supported by the library)'])
