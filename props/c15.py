"""keyword, token, space, spaces: exact keyword match, token eats the white space that follows."""
from vlib.core import *
from vlib.sem import *
INC = inc('keyword', 'token', 'space', 'spaces', 'sequence', 'digit', 'letter', 'repeated', 'last_of', 'one_of', 'int_', 'lit_c', 'one_char')
T = lambda i: ('tag', i)
oth = lambda f: (lambda cx, s, pos: (lambda r: ('acc', 'other') + r[2:] if r[0] == 'acc' else r)(f(cx, s, pos)))
def kw(chars, v): return fmap(seq([lit(c) for c in chars]), lambda r: v)
def prop(tier):
    th = 1 + (tier == 'thorough')
    es = []
    for k in range(0, 5 + th):
        for n in range(0, 5 + th):
            if not th and abs(n - k) > 2 and n: continue
            # every keyword of k characters on every string of n characters
            es.append(Entry('kw%d_%d' % (k, n), 'typedef typename run<mp::keyword<typename sstr<ZZ,1,%d>::type,tag<1> >, typename sstr<ZZ,98,%d>::type, typename spos<ZZ,99>::type>::type type;' % (k, n),
                (lambda k, n: lambda cx: kw(sstr(cx, 1, k), T(1))(cx, sstr(cx, 98, n), spos(cx, 99)))(k, n), reach=['acc'] if n >= k else ['rej']))
    es.append(symb('kw_void', "mp::keyword<mp::string<'i','f'> >", oth(kw(cs('if'), 0)), 3, run='run_any'))
    es.append(symb('kw_then', "mp::sequence<mp::keyword<mp::string<'i','f'>,tag<1> >,mp::digit>", seq([kw(cs('if'), T(1)), digit]), 4))
    es.append(symb('kw_token', "mp::sequence<mp::token<mp::keyword<mp::string<'i','f'>,tag<1> > >,mp::letter>", seq([token(kw(cs('if'), T(1))), letter]), 5))
    for n in range(0, 5 + th):
        es.append(symb('space_%d' % n, 'mp::space', space, n) if n < 3 else symb('spaces_seq_%d' % n, 'mp::sequence<mp::space,mp::spaces>', seq([space, repeated1(space)]), n))
        es.append(symb('spaces_%d' % n, 'mp::spaces', repeated1(space), n))
        es.append(symb('token_r_%d' % n, 'mp::token<mp::digit>', token(digit), n))
        es.append(symb('tokens_%d' % n, 'mp::sequence<mp::token<mp::letter>,mp::token<mp::digit> >', seq([token(letter), token(digit)]), n))
        es.append(symb('reptok_%d' % n, 'mp::repeated<mp::token<mp::digit> >', repeated(token(digit)), n) if n < 4 + th else symb('tok_last', 'mp::last_of<mp::one_char,mp::token<mp::one_char> >', nth([one_char, token(one_char)], 1), n))
    # long keywords: every place may differ, the input may end anywhere
    for k in (5, 6, 7, 8, 12, 16, 31, 32):
        w = [97 + (7 * i) % 26 for i in range(k)]
        kc = 'mp::keyword<mp::string<%s>,tag<1> >' % ','.join(map(str, w))
        for d in sorted(set([0, 1, k // 2, k - 2, k - 1])):
            items = [None if i == d else c for i, c in enumerate(w)] + [None] * (k < 32)
            es.append(patt('kwlong%d_%d' % (k, d), kc, kw(w, T(1)), items, reach=['acc', 'rej']))
        for d in sorted(set([1, k // 2, k - 1])):
            es.append(patt('kwcut%d_%d' % (k, d), kc, kw(w, T(1)), w[:d - 1] + [None], reach=['rej']))
    # an arbitrary character inside a long keyword
    kc = 'mp::keyword<mp::string<%s>,tag<1> >' % ','.join(['97'] * 5 + ['nd_char<ZZ,1,0>::value'] + ['98'] * 4)
    es.append(patt('kwsym', kc, lambda cx, s, p: kw([97] * 5 + [cx.ch(1, 0)] + [98] * 4, T(1))(cx, s, p), [97] * 5 + [None] + [98] * 3 + [None, None], reach=['acc', 'rej']))
    # much white space
    for k in (5, 6, 7, 9, 15, 28):
        sp = [(32, 9, 10, 13)[(i * i + i // 3) % 4] for i in range(k)]
        es.append(patt('spaces_long%d' % k, 'mp::spaces', repeated1(space), sp + [None, None]))
        es.append(patt('token_long%d' % k, 'mp::token<mp::digit>', token(digit), [None] + sp + [None, None]))
    # token of an arbitrary parser: fixed input with white space at every place
    for n in range(0, 4 + th):
        es.append(Entry('token_stub_%d' % n, 'typedef typename run<mp::token<wstub<ZZ> >, typename sstr<ZZ,98,%d>::type, typename spos<ZZ,99>::type>::type type;' % n,
            (lambda n: lambda cx: token(wstub)(cx, sstr(cx, 98, n), spos(cx, 99)))(n)))
    pre = '''
// rejects, or accepts the first k characters (k arbitrary), keeping the positions of one_char
template <class ZZ, int K, class S, class Pos, class R> struct wstep : wstep<ZZ, K - 1, typename mp::get_remaining<typename mp::one_char::template apply<S, Pos>::type>::type, typename mp::get_position<typename mp::one_char::template apply<S, Pos>::type>::type, R> {};
template <class ZZ, class S, class Pos, class R> struct wstep<ZZ, 0, S, Pos, R> : mp::accept<R, S, Pos> {};
template <class ZZ, class S, class Pos, class R> struct wstep<ZZ, -1, S, Pos, R> : mp::reject<tag<3>, Pos> {};
template <class ZZ, int N, class S, class Pos> struct wat : wstep<ZZ, nd_int<ZZ, 4, N, -1, N>::value, S, Pos, tag<2> > {};
template <class ZZ> struct wstub { typedef wstub type; template <class S, class Pos> struct apply : wat<ZZ, mpl::size<S>::type::value, S, Pos> {}; };
'''
    return Property('C15', INC, es, pre, bounds='every keyword of at most %d characters on every string of at most %d characters; token and spaces on every string of at most %d characters, any start position; keywords of up to 32 characters on inputs that differ in one arbitrary place or end early; up to 30 white space characters' % (4 + th, 4 + th, 4 + th),
        assumptions=[])
def wstub(cx, s, pos):
    n = len(s)
    k = cx.value(cx.int(4, n, -1, n), -1, n)
    if k < 0: return ('rej', ('tag', 3), pos)
    for _ in range(k):
        _, _, s, pos = one_char(cx, s, pos)
    return ('acc', ('tag', 2), s, pos)
