"""Reference semantics: the documented behaviour of the parsers and combinators,
written as functions of a (partly symbolic) input.  A parser is a function
p(cx, s, pos) -> ('acc', result, rest, pos) | ('rej', message, pos) where s is a
list of characters (ints or 32-bit z3 terms) and pos = ('pos', line, col, prev)."""
import z3
from .core import *

# ---------------------------------------------------------------- messages
def err(i, a=None, b=None, c=None):
    f = lambda x: [] if x is None else x
    return ('err', i, f(a), f(b), f(c))
DIGIT, EOI, TOFAIL, LETTER, NONE, UNEXP_CH, UNEXP_END, WS = (err(i) for i in range(1, 9))
def index_err(f, t, a): return err(9, f, t, a)
def literal(c): return err(10, c)
def unpaired(l, c, m): return err(11, l, c, m)

# ---------------------------------------------------------------- inputs
START = ('pos', 1, 1, 0)
def spos(cx, i):
    return ('pos', cx.int(i, 900, 1, 1000000), cx.int(i, 901, 1, 1000000), cx.ch(i, 902))
def sstr(cx, i, n): return [cx.ch(i, k) for k in range(n)]
def inn(n): return [ord('a') + n - 1 - k for k in range(n)]
def cs(t): return [ord(c) for c in t]

def add(a, b):
    return bv32(a) + b if (is_z(a) or is_z(b)) else a + b
def lt(a, b): return (bv32(a) < bv32(b)) if (is_z(a) or is_z(b)) else a < b
def eqz(a, b): return (bv32(a) == bv32(b)) if (is_z(a) or is_z(b)) else a == b
def AND(*a):
    r = True
    for x in a: r = conj(r, x)
    return r
def NOT(a):
    if a is True: return False
    if a is False: return True
    return z3.Not(a)
def OR(*a): return NOT(AND(*[NOT(x) for x in a]))
def ITE(c, a, b):
    if c is True: return a
    if c is False: return b
    return z3.If(c, bv32(a), bv32(b))
def inr(c, lo, hi): return AND(NOT(lt(c, lo)), NOT(lt(hi, c)))
def oneof_c(c, chars): return OR(*[eqz(c, x) for x in chars])

def pos_lt(p, q):
    """p strictly before q (line, then column)"""
    return OR(lt(p[1], q[1]), AND(eqz(p[1], q[1]), lt(p[2], q[2])))
def pos_le(p, q): return NOT(pos_lt(q, p))

def advance(cx, c, pos):
    """position after reading c at pos"""
    _, l, co, pv = pos
    nl = OR(eqz(c, 13), AND(eqz(c, 10), NOT(eqz(pv, 13))))
    return ('pos', ITE(nl, add(l, 1), l), ITE(nl, 1, add(co, 1)), c)

is_digit = lambda c: inr(c, 48, 57)
is_lower = lambda c: inr(c, 97, 122)
is_upper = lambda c: inr(c, 65, 90)
is_letter = lambda c: OR(is_lower(c), is_upper(c))
is_ws = lambda c: oneof_c(c, [32, 13, 10, 9])

# ---------------------------------------------------------------- character parsers
def one_char(cx, s, pos):
    if not s: return ('rej', UNEXP_END, pos)
    return ('acc', s[0], s[1:], advance(cx, s[0], pos))
def cclass(pred, msg, end=UNEXP_END):
    def p(cx, s, pos):
        if not s: return ('rej', end, pos)
        if cx.decide(pred(s[0])): return one_char(cx, s, pos)
        return ('rej', msg(s[0]) if callable(msg) else msg, pos)
    return p
digit = cclass(is_digit, DIGIT, DIGIT)
letter = cclass(is_letter, LETTER)
space = cclass(is_ws, WS)
def lit(c): return cclass(lambda x: eqz(x, c), literal(c), literal(c))
def range_(a, b): return cclass(lambda x: inr(x, a, b), UNEXP_CH)
def except_chars(chars): return cclass(lambda x: NOT(oneof_c(x, chars)), UNEXP_CH)

# ---------------------------------------------------------------- combinators
def bind(r, k):
    return r if r[0] == 'rej' else k(*r[1:])
def ret(v): return lambda cx, s, pos: ('acc', v, s, pos)
def fail(m): return lambda cx, s, pos: ('rej', m, pos)
def fmap(p, f):
    return lambda cx, s, pos: bind(p(cx, s, pos), lambda r, s2, q: ('acc', f(r), s2, q))
def fmap_cx(p, f):
    return lambda cx, s, pos: bind(p(cx, s, pos), lambda r, s2, q: ('acc', f(cx, r), s2, q))
def map_err(p, f):
    """f(message, start, position) -> (message, position)"""
    def q(cx, s, pos):
        r = p(cx, s, pos)
        if r[0] == 'acc': return r
        m, e = f(r[1], pos, r[2])
        return ('rej', m, e)
    return q
def change_msg(p, m): return map_err(p, lambda old, st, e: (m, st))
def transform_msg(p, f): return map_err(p, lambda old, st, e: (f(old), e))
def seq(ps):
    def p(cx, s, pos):
        out = []
        for q in ps:
            r = q(cx, s, pos)
            if r[0] == 'rej': return r
            out.append(r[1]); s, pos = r[2], r[3]
        return ('acc', out, s, pos)
    return p
def nth(ps, k): return fmap(seq(ps), lambda rs: rs[k])
def middle_of(a, b, c):
    def p(cx, s, pos):
        def f(m, st, e): return (unpaired(pos[1], pos[2], m), e)
        return nth([a, b, map_err(c, f)], 1)(cx, s, pos)
    return p
def one_of(ps, errs):
    """errs: alternatives the rejection may be (cx, pos, rejections) -> expected"""
    def p(cx, s, pos):
        rej = []
        for q in ps:
            r = q(cx, s, pos)
            if r[0] == 'acc': return r
            rej.append(r)
        return errs(cx, pos, rej)
    return p
def loop(cx, p, s, pos, limit=60):
    """items p accepts in a row -> (items, s, pos, rejection)"""
    items = []
    while True:
        r = p(cx, s, pos)
        if r[0] == 'rej': return items, s, pos, r
        items.append(r[1]); s, pos = r[2], r[3]
        if len(items) > limit: raise RuntimeError('loop')
def _fold(p, init, f, right, incomplete, atleast1):
    def q(cx, s, pos):
        items, s2, e, r = loop(cx, p, s, pos)
        if atleast1 and not items: return r
        if incomplete and not cx.decide(same_pos(r[2], e)): return r
        v = init
        if right:
            for x in reversed(items): v = f(x, v)
        else:
            for x in items: v = f(v, x)
        return ('acc', v, s2, e)
    return q
def same_pos(a, b): return AND(eqz(a[1], b[1]), eqz(a[2], b[2]))
def foldl(p, i, f): return _fold(p, i, f, False, False, False)
def foldl1(p, i, f): return _fold(p, i, f, False, False, True)
def foldl_ri(p, i, f): return _fold(p, i, f, False, True, False)
def foldl_ri1(p, i, f): return _fold(p, i, f, False, True, True)
# for foldr, f(x, acc) with the item first
def foldr(p, i, f): return _fold(p, i, f, True, False, False)
def foldr1(p, i, f): return _fold(p, i, f, True, False, True)
def foldr_ri(p, i, f): return _fold(p, i, f, True, True, False)
def foldr_ri1(p, i, f): return _fold(p, i, f, True, True, True)
def repeated(p): return foldl(p, [], lambda a, x: a + [x])
def repeated1(p): return foldl1(p, [], lambda a, x: a + [x])
def repeated_ri(p): return foldl_ri(p, [], lambda a, x: a + [x])
def repeated_ri1(p): return foldl_ri1(p, [], lambda a, x: a + [x])
def foldl_swp(p, init, f, incomplete=False):
    def q(cx, s, pos):
        r = init(cx, s, pos)
        if r[0] == 'rej': return r
        return _fold(p, r[1], f, False, incomplete, False)(cx, r[2], r[3])
    return q
def foldr_swp(p, init, f):
    def q(cx, s, pos):
        items, s2, e, _ = loop(cx, p, s, pos)
        r = init(cx, s2, e)
        if r[0] == 'rej': return r
        v = r[1]
        for x in reversed(items): v = f(x, v)
        return ('acc', v, r[2], r[3])
    return q
def look_ahead(p):
    return lambda cx, s, pos: bind(p(cx, s, pos), lambda r, s2, q: ('acc', r, s, pos))
def optional(p, v):
    def q(cx, s, pos):
        r = p(cx, s, pos)
        return r if r[0] == 'acc' else ('acc', v, s, pos)
    return q
def except_(p, v, m):
    def q(cx, s, pos):
        return ('rej', m, pos) if p(cx, s, pos)[0] == 'acc' else ('acc', v, s, pos)
    return q
def if_(p, t, f):
    def q(cx, s, pos):
        return ('acc', t if p(cx, s, pos)[0] == 'acc' else f, s, pos)
    return q
def entire_input(p, m=EOI):
    def q(cx, s, pos):
        return bind(p(cx, s, pos), lambda r, s2, e: ('rej', m, e) if s2 else ('acc', r, s2, e))
    return q
def spaces(cx, s, pos): return fmap(repeated1(space), lambda r: ANY)(cx, s, pos)
def token(p):
    def q(cx, s, pos):
        r = p(cx, s, pos)
        if r[0] == 'rej': return r
        _, s2, e, _ = loop(cx, space, r[2], r[3])
        return ('acc', r[1], s2, e)
    return q
def iterate(p, n): return seq([p] * n)

# ---------------------------------------------------------------- stubs
def npos(pos): return pos
def stub(i, productive=False):
    def p(cx, s, pos):
        n = len(s)
        o = cx.int(i, n * 10, -1, n + 1)
        if productive: cx.assume(o != 1)
        k = cx.value(o, -1, n + 1)
        if k == 0: return ('rej', ('msg', i, n, pos), pos)
        if k == 1: return ('acc', ('res', i, n, pos), s, pos)
        q = ('pos', cx.int(i, n * 10 + 1, 1, 1000000), cx.int(i, n * 10 + 2, 1, 1000000))
        q += ((97 if k < 0 else 65) + i,)
        cx.assume(pos_lt(pos, q))
        if k < 0: return ('rej', ('msg', i, n, pos), q)
        return ('acc', ('res', i, n, pos), s[k - 1:], q)
    return p
def pstub(i): return stub(i, True)

def oracle(p, s, pos=None):
    """oracle applying reference parser p to s (a function of cx, or a list)"""
    def f(cx):
        return p(cx, s(cx) if callable(s) else s, pos(cx) if pos else START)
    return f
def S(i, n): return lambda cx: sstr(cx, i, n)
def P(i): return lambda cx: spos(cx, i)

# ---------------------------------------------------------------- entries
def inc(*names): return ['boost/metaparse/v1/%s.hpp' % n for n in names]
def fixed(name, p, ref, n, run='run', pos=True, **kw):
    """parser p over the fixed input in<n> (stubs decide), arbitrary position"""
    return Entry(name, 'typedef typename %s<%s, in<%d>, %s>::type type;' % (run, p, n, 'typename spos<ZZ,99>::type' if pos else 'mp::start'),
                 oracle(ref, inn(n), P(99) if pos else None), **kw)
def symb(name, p, ref, n, run='run', pos=True, **kw):
    """parser p over n symbolic characters, arbitrary position"""
    return Entry(name, 'typedef typename %s<%s, typename sstr<ZZ,98,%d>::type, %s>::type type;' % (run, p, n, 'typename spos<ZZ,99>::type' if pos else 'mp::start'),
                 oracle(ref, S(98, n), P(99) if pos else None), **kw)
def pstr(cx, i, items):
    """characters of a pattern: ints are themselves, None is a symbolic character"""
    return [cx.ch(i, k) if c is None else c for k, c in enumerate(items)]
def pcode(i, items):
    return 'mp::string<%s>' % ','.join('nd_char<ZZ,%d,%d>::value' % (i, k) if c is None else str(c) for k, c in enumerate(items))
def patt(name, p, ref, items, run='run', **kw):
    """parser p over a string of which only some characters (None) are symbolic, arbitrary position"""
    return Entry(name, 'typedef typename %s<%s, %s, typename spos<ZZ,99>::type>::type type;' % (run, p, pcode(98, items), ),
                 oracle(ref, lambda cx: pstr(cx, 98, items), P(99)), **kw)
def val(name, code, orc, **kw):
    return Entry(name, 'typedef %s type;' % code, orc, **kw)
