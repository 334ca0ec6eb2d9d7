"""Context and control combinators: look_ahead, optional, except, if_, empty, entire_input,
return_, fail, fail_at_first_char_expected consume exactly what they document."""
from vlib.core import *
from vlib.sem import *
INC = inc('look_ahead', 'optional', 'except', 'if_', 'empty', 'entire_input', 'return_', 'fail', 'fail_at_first_char_expected', 'sequence', 'lit_c', 'digit', 'letter', 'repeated', 'last_of', 'int_')
T = lambda i: ('tag', i)
def facfe(p):
    def q(cx, s, pos):
        r = p(cx, s, pos)
        if r[0] == 'acc': return ('rej', TOFAIL, pos)
        return ('acc', ANY, s, pos) if cx.decide(same_pos(r[2], pos)) else r
    return q
def empty(v):
    return lambda cx, s, pos: ('rej', EOI, pos) if s else ('acc', v, s, pos)
AB = "mp::last_of<mp::lit_c<'a'>,mp::digit>"
RAB = nth([lit(97), digit], 1)
def prop(tier):
    th = 1 + (tier == 'thorough')
    es = []
    one = [ # name, template, reference, run
        ('look_ahead', 'mp::look_ahead<%s>', lambda p: look_ahead(p), 'run'),
        ('optional', 'mp::optional<%s,tag<1> >', lambda p: optional(p, T(1)), 'run'),
        ('except', 'mp::except<%s,tag<1>,tag<2> >', lambda p: except_(p, T(1), T(2)), 'run'),
        ('if', 'mp::if_<%s,tag<1>,tag<2> >', lambda p: if_(p, T(1), T(2)), 'run'),
        ('entire', 'mp::entire_input<%s>', lambda p: entire_input(p), 'run'),
        ('entire_msg', 'mp::entire_input<%s,tag<5> >', lambda p: entire_input(p, T(5)), 'run'),
        ('facfe', 'mp::fail_at_first_char_expected<%s>', facfe, 'run_any'),
    ]
    oth = lambda f: (lambda cx, s, pos: (lambda r: ('acc', 'other') + r[2:] if r[0] == 'acc' else r)(f(cx, s, pos)))
    for nm, t, r, rn in one:
        w = oth if rn == 'run_any' else (lambda x: x)
        for n in range(0, 4 + th):
            es.append(fixed('%s_%d' % (nm, n), t % 'stub<ZZ,0>', w(r(stub(0))), n, run=rn))
        for n in range(0, 4 + th):
            es.append(symb('%s_r_%d' % (nm, n), t % AB, w(r(RAB)), n, run=rn))
        # what follows sees exactly the input that is left
        if rn == 'run':
            es.append(fixed('%s_then' % nm, 'mp::sequence<%s,stub<ZZ,1> >' % (t % 'stub<ZZ,0>'), seq([r(stub(0)), stub(1)]), 2))
            es.append(fixed('%s_after' % nm, 'mp::sequence<stub<ZZ,1>,%s >' % (t % 'stub<ZZ,0>'), seq([stub(1), r(stub(0))]), 1))
            es.append(fixed('%s_in_opt' % nm, 'mp::optional<%s,tag<9> >' % (t % 'stub<ZZ,0>'), optional(r(stub(0)), T(9)), 1))
    es.append(fixed('facfe_then', 'mp::last_of<mp::fail_at_first_char_expected<stub<ZZ,0> >,stub<ZZ,1> >', nth([facfe(stub(0)), stub(1)], 1), 2))
    for n in range(0, 4):
        es.append(symb('empty_%d' % n, 'mp::empty<tag<4> >', empty(T(4)), n))
        es.append(symb('return_%d' % n, 'mp::return_<tag<4> >', ret(T(4)), n))
        es.append(symb('fail_%d' % n, 'mp::fail<tag<4> >', fail(T(4)), n))
    es.append(fixed('opt_default', 'mp::optional<stub<ZZ,0> >', oth(optional(stub(0), T(1))), 2, run='run_any'))
    es.append(symb('int_entire', 'mp::entire_input<mp::repeated<mp::digit> >', entire_input(repeated(digit)), 4))
    es.append(symb('not_followed', "mp::sequence<mp::letter,mp::except<mp::digit,tag<1>,tag<2> > >", seq([letter, except_(digit, T(1), T(2))]), 3))
    es.append(fixed('look2', 'mp::sequence<mp::look_ahead<stub<ZZ,0> >,mp::look_ahead<stub<ZZ,1> >,stub<ZZ,2> >', seq([look_ahead(stub(0)), look_ahead(stub(1)), stub(2)]), 1))
    return Property('C13', INC, es, bounds='arbitrary (stub) argument parsers on inputs of at most %d characters, any start position; concrete arguments on all strings of at most %d characters' % (3 + th, 4),
        assumptions=['the combined parsers obey the parser contract'])
