"""Driver: engine runs, oracle comparison under path conditions, replay with g++."""
import json, os, re, subprocess, sys, time, hashlib, shutil, random
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
import z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
ENGINE = os.path.join(VERIF, 'build', 'tmsym')
HARNESS = os.path.join(VERIF, 'harness')
NCPU = os.cpu_count() or 8

# ------------------------------------------------------------------ terms
class Any_:
    def __repr__(self): return 'ANY'
ANY = Any_()
class Err_:
    def __repr__(self): return 'ILL-FORMED'
ERR = Err_()
class ErrWith:
    """ill-formed, and the diagnostic names line, column and message"""
    def __init__(self, line, col, msg): self.line, self.col, self.msg = line, col, msg
    def cond(self, term):
        """condition under which the ill-formed class carries line, column and message among its arguments"""
        if not isinstance(term, tuple) or len(term) < 3: return False
        ints = [k for k in range(1, len(term)) if is_z(term[k]) or isinstance(term[k], int)]
        if len(ints) < 2 or ints[1] != ints[0] + 1: return False
        c = conj(compare(self.line, term[ints[0]]), compare(self.col, term[ints[1]]))
        if self.msg is ANY: return c
        d = False
        for k in range(1, len(term)):
            if k not in ints:
                x = compare(self.msg, term[k])
                if x is True: return c
                if x is not False: d = x if d is False else z3.Or(d, x)
        return conj(c, d)
    def text_ok(self, m, text):
        v = lambda x: m.eval(bv32(x), model_completion=True).as_signed_long()
        if not re.search(r'(?<!\d)%d\D{1,60}?(?<!\d)%d(?!\d)' % (v(self.line), v(self.col)), text): return False
        return self.msg is ANY or re.search(r'msg<%d' % self.msg[1], text) is not None
    def __repr__(self): return 'ILL-FORMED(%s, %s, %s)' % (self.line, self.col, show(self.msg))
def is_err(e): return e is ERR or isinstance(e, ErrWith)
class Pred:
    """leaf/term predicate: f(actual) -> z3 bool / bool"""
    def __init__(self, f, name='pred'): self.f, self.name = f, name
    def __repr__(self): return self.name
class Alt:
    def __init__(self, *a): self.a = a
    def __repr__(self): return ' | '.join(map(repr, self.a))

def is_z(x): return isinstance(x, z3.ExprRef)

def bv32(x):
    return x if is_z(x) else z3.BitVecVal(x, 32)

def conj(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    return z3.And(a, b)

def compare(e, a):
    """condition under which the actual term a is the expected term e"""
    if e is ANY: return True
    if isinstance(e, Pred): return e.f(a)
    if isinstance(e, Alt):
        r = False
        for x in e.a:
            c = compare(x, a)
            if c is True: return True
            if c is False: continue
            r = c if r is False else z3.Or(r, c)
        return r
    if is_z(e) or isinstance(e, (int, bool)):
        if not (is_z(a) or isinstance(a, int)): return False
        if isinstance(e, bool): e = int(e)
        if not is_z(e) and not is_z(a): return norm32(e) == norm32(a)
        return z3.simplify(bv32(e) == bv32(a)) if False else (bv32(e) == bv32(a))
    if isinstance(e, list):
        if not isinstance(a, list) or len(a) != len(e): return False
        r = True
        for x, y in zip(e, a): r = conj(r, compare(x, y))
        return r
    if isinstance(e, tuple):
        if not isinstance(a, tuple): return False
        if e[:1] == ('text',) and a[:1] == ('text',) and [isinstance(x, tuple) for x in e] != [isinstance(x, tuple) for x in a]: e, a = flat_text(e), flat_text(a)
        if len(a) != len(e): return False
        r = True
        for x, y in zip(e, a): r = conj(r, compare(x, y))
        return r
    if isinstance(e, str) or e is None:
        return e == a
    raise TypeError(e)

def flat_text(t, m=None):
    """numbers whose value is known become their digits"""
    out = ['text']
    for x in t[1:]:
        if isinstance(x, tuple) and x[0] == 'dec':
            v = x[1]
            if is_z(v) and m is not None: v = m.eval(bv32(v), model_completion=True).as_signed_long()
            if is_z(v) and z3.is_bv_value(z3.simplify(v)): v = z3.simplify(v).as_signed_long()
            if is_z(v): out.append(x)
            else: out.extend(ord(c) for c in str(norm32(v)))
        else: out.append(x)
    return tuple(out)

def norm32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v

def show(t, m=None):
    if isinstance(t, ErrWith): return 'ill-formed at %s:%s %s' % (show(t.line, m), show(t.col, m), show(t.msg, m))
    if t is ANY or isinstance(t, (Pred, Alt, Err_)): return repr(t)
    if is_z(t):
        if m is not None:
            v = m.eval(t, model_completion=True)
            return str(v.as_signed_long()) if z3.is_bv_value(v) else str(v)
        return str(z3.simplify(t)).replace('\n', ' ')
    if isinstance(t, list): return '[' + ', '.join(show(x, m) for x in t) + ']'
    if isinstance(t, tuple) and t[:1] == ('text',): return show_text(t, m)
    if isinstance(t, tuple): return '(' + ' '.join(show(x, m) for x in t) + ')'
    return str(t)

def show_text(t, m):
    out = ''
    for x in flat_text(t, m)[1:]:
        if is_z(x) and m is not None: x = m.eval(bv32(x), model_completion=True).as_signed_long()
        out += chr(x & 255) if isinstance(x, int) else '{' + show(x, m) + '}'
    return 'text ' + json.dumps(out)

def from_json(t, syms):
    if isinstance(t, dict):
        return t['i'] if 'i' in t else syms[t['s']]
    if isinstance(t, str): return t
    if t is None: return None
    name = t[0]
    if name == 'vf::num': return from_json(t[1], syms)
    if name == 'vf::nil': return []
    if name == 'vf::cons':
        out = []
        while isinstance(t, list) and t[0] == 'vf::cons':
            out.append(from_json(t[1], syms)); t = t[2]
        return out
    if name == 'vf::other': return 'other'
    if name.startswith('vf::'): name = name[4:]
    return tuple([name] + [from_json(x, syms) for x in t[1:]])

def from_sexpr(s):
    toks = re.findall(r'\(|\)|[^\s()]+', s)
    pos = 0
    sys.setrecursionlimit(100000)
    def rec():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t == '(':
            out = []
            while toks[pos] != ')': out.append(rec())
            pos += 1
            if out[0] == 'cons':
                return [out[1]] + out[2]
            return tuple(out)
        if t == 'nil': return []
        if re.match(r'-?\d+$', t): return int(t)
        return t
    return rec()

# ------------------------------------------------------------------ path context
class Infeasible(Exception): pass
class Undecided(Exception): pass
QTIMEOUT = 30000

class Cx:
    """Evaluation context of an oracle: symbolic variables plus decisions
    resolved (or forked) by the solver under the path condition."""
    def __init__(self, std, solver, stats):
        self.std, self.s, self.stats = std, solver, stats
        self.prefix, self.taken, self.pending = [], [], []
        self.domains = {}
        self.assign = None      # concrete replay: values of every variable not listed are the harness defaults
    def _default(self, name, v, d):
        if self.assign is not None and name not in self.assign: self.s.add(v == d)
    def _var(self, name, w):
        return z3.BitVec(name, w)
    def ch(self, ident, k):
        v = z3.BitVec('c_%d_%d' % (ident, k), 8)
        self._default('c_%d_%d' % (ident, k), v, 97)
        return z3.SignExt(24, v)
    def int(self, ident, k, lo, hi):
        v = z3.BitVec('i_%d_%d' % (ident, k), 32)
        if v not in self.domains:
            self.domains[v] = 1
            self.s.add(v >= lo, v <= hi)
            self._default('i_%d_%d' % (ident, k), v, lo)
        return v
    def chk(self, c):
        t = time.time()
        r = self.s.check(c)
        self.stats['oracle_queries'] += 1
        self.stats['oracle_solver_s'] += time.time() - t
        if r == z3.unknown: raise Undecided('solver unknown in the reference semantics')
        return r == z3.sat
    def decide(self, c):
        if c is True or c is False: return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            self.s.add(c if v else z3.Not(c))
            return v
        t = self.chk(c)
        if t:
            f = self.chk(z3.Not(c))
            if f: self.pending.append(self.taken + [False])
            self.taken.append(True)
            self.s.add(c)
            return True
        # only the negation is possible
        self.taken.append(False)
        self.s.add(z3.Not(c))
        return False
    def eq(self, a, b):
        return self.decide(bv32(a) == bv32(b))
    def value(self, e, lo, hi):
        """concrete value of a small-range expression (forks)"""
        if not is_z(e): return e
        for v in range(lo, hi):
            if self.decide(e == v): return v
        return hi
    def assume(self, c):
        if c is True: return
        if c is False: raise Infeasible()
        if not self.chk(c): raise Infeasible()
        self.s.add(c)

def explore(oracle, std, assertions, stats, body, assign=None):
    """run the oracle over every feasible oracle path; body(cx, expected)"""
    work = [[]]
    n = 0
    while work:
        pre = work.pop()
        s = z3.Solver()
        s.set('timeout', QTIMEOUT)
        for a in assertions: s.add(a)
        cx = Cx(std, s, stats); cx.prefix = pre; cx.assign = assign
        try:
            exp = oracle(cx)
        except Infeasible:
            work.extend(cx.pending); continue
        work.extend(cx.pending)
        n += 1
        r = body(cx, exp)
        if r is not None: return r
    return None

_decl_cache = {}
def parse_path(p):
    """path record -> (assertions, term, vars)"""
    decls, vs = {}, {}
    for name, w in p['vars']:
        v = z3.Bool(name) if w == 0 else z3.BitVec(name, w)
        decls[name] = v; vs[name] = v
    text = p['pc']
    syms = p['syms']
    extra = ''
    rs = []
    for k, (e, w, sg) in enumerate(syms):
        nm = 'r!%d' % k
        extra += '(assert (= r_%d %s))\n' % (k, e)
        decls['r_%d' % k] = z3.Bool('r_%d' % k) if w == 0 else z3.BitVec('r_%d' % k, w)
    assertions = list(z3.parse_smt2_string(text, decls=decls)) if text.strip() else []
    if extra:
        for a in z3.parse_smt2_string(extra, decls=decls):
            rs.append(a.arg(1))
    out = []
    for k, (e, w, sg) in enumerate(syms):
        x = rs[k]
        if w == 0: x = z3.If(x, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        elif w < 32: x = z3.SignExt(32 - w, x) if sg else z3.ZeroExt(32 - w, x)
        elif w > 32: x = z3.Extract(31, 0, x)
        out.append(x)
    return assertions, from_json(p['res'], out), vs

def model_assign(m, extra_names=()):
    a = {}
    for d in m.decls():
        n = d.name()
        if not re.match(r'[cib]_\d+_\d+$', n): continue
        v = m[d]
        if z3.is_bv_value(v): a[n] = v.as_signed_long()
        elif z3.is_true(v): a[n] = 1
        elif z3.is_false(v): a[n] = 0
    return a

def concrete_assertions(assign):
    out = []
    for n, v in assign.items():
        if n[0] == 'c': out.append(z3.BitVec(n, 8) == v)
        elif n[0] == 'i': out.append(z3.BitVec(n, 32) == v)
        else: out.append(z3.Bool(n) == bool(v))
    return out

def model_values(assertions, stats, want=None, avoid=None):
    s = z3.Solver()
    s.set('timeout', QTIMEOUT)
    for a in assertions: s.add(a)
    if s.check() != z3.sat: return None
    return model_assign(s.model())

# ------------------------------------------------------------------ entries
class Entry:
    """One harness entry: a class template NAME<Z> whose ::type is normalised."""
    def __init__(self, name, code, oracle, stds=('98', '11', '14'), tier='quick', no_ff=False, reach=None, bound='', maxpaths=60000):
        self.name, self.code, self.oracle, self.stds, self.tier = name, code, oracle, tuple(stds), tier
        self.reach = reach      # classes of outcome that must be reached (vacuity guard)
        self.bound = bound
        self.no_ff = no_ff
        self.maxpaths = maxpaths

class Property:
    def __init__(self, pid, includes, entries, prelude='', bounds='', assumptions=(), stds_quick=('98', '11', '14'), stds_thorough=('98', '11', '14', '17'), defines=()):
        self.pid, self.includes, self.entries, self.prelude = pid, includes, entries, prelude
        self.bounds, self.assumptions = bounds, list(assumptions)
        self.stds_quick, self.stds_thorough = stds_quick, stds_thorough
        self.defines = list(defines)

STDFLAG = {'98': '-std=c++98', '11': '-std=c++11', '14': '-std=c++14', '17': '-std=c++17'}
# a standard with a letter after it has other library limits
LIMITS = {'w': {'SEQUENCE': 9, 'ONE_OF': 13, 'ONE_CHAR_EXCEPT': 17, 'STRING': 45}, 'n': {'SEQUENCE': 3, 'ONE_OF': 4, 'ONE_CHAR_EXCEPT': 3, 'STRING': 8},
          'x': {'SEQUENCE': 22, 'ONE_OF': 25, 'ONE_CHAR_EXCEPT': 26, 'STRING': 32}}
def stdflags(std):
    return [STDFLAG[std[:2]]] + ['-DBOOST_METAPARSE_LIMIT_%s_SIZE=%d' % kv for v in std[2:] for kv in sorted(LIMITS[v].items())] + (['-DBOOST_MPL_CFG_NO_PREPROCESSED_HEADERS', '-DBOOST_MPL_LIMIT_VECTOR_SIZE=30', '-DBOOST_MPL_LIMIT_LIST_SIZE=30'] if 'x' in std else [])

def harness_text(prop, entries, std):
    t = ''.join('#define %s\n' % d for d in prop.defines)
    t += '#include <vf.hpp>\n' + ''.join('#include <%s>\n' % i for i in prop.includes)
    t += 'namespace h {\nusing namespace vf;\n#define CPP%s 1\n' % std
    t += prop.prelude + '\n'
    for e in entries:
        t += 'template <class ZZ> struct %s {\n%s\n};\n' % (e.name, e.code)
    return re.sub(r'>(?=>)', '> ', t + '}\n')

def run_engine(prop, entries, std, work, no_ff, timeout, slots):
    """entries that the front end refuses (a name they use is gone, say) are left out and the others are explored"""
    t = time.time(); left = list(entries)
    for _ in range(4):
        rc, out, log, dt = run_engine1(prop, left, std, work, no_ff, timeout, slots)
        if rc in (0, 'timeout') or not left: break
        src = out[:-len('.out')]
        ls = {int(m.group(1)) for m in re.finditer(re.escape(src) + r':(\d+):\d+: (?:error|fatal error|note):', log)}
        bad, cur = set(), None
        for i, ln in enumerate(open(src), 1):
            m = re.match(r'template <class ZZ> struct (\w+) \{$', ln)
            if m: cur = m.group(1)
            if i in ls and cur: bad.add(cur)
        if not bad: break
        n = len(left); left = [e for e in left if e.name not in bad]
        if len(left) == n or not left: break
    return rc, out, log[-3000:], time.time() - t

def run_engine1(prop, entries, std, work, no_ff, timeout, slots):
    src = os.path.join(work, 'h%s_%d.cpp' % (std, int(no_ff)))
    out = src + '.out'
    with open(src, 'w') as f: f.write(harness_text(prop, entries, std))
    cmd = [ENGINE, '--coverage', '--slots', str(slots), '--maxpaths', str(max(e.maxpaths for e in entries)), '--timeout', str(timeout), '-o', out]
    if no_ff: cmd.append('--no-ff')
    cmd += [src] + ['h::' + e.name for e in entries] + ['--', '-ferror-limit=0'] + stdflags(std) + ['-I' + os.path.join(REPO, 'include'), '-I' + HARNESS]
    t = time.time()
    env = dict(os.environ); env.pop('TMSYM_STACK', None)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    try: log, _ = p.communicate(timeout=timeout + 40)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); log, _ = p.communicate()
        return 'timeout', out, 'engine timeout', time.time() - t
    return p.returncode, out, log.decode('utf8', 'replace'), time.time() - t

# ------------------------------------------------------------------ replay
MAIN = r'''
#include <cstdio>
#include <iostream>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>
namespace vf {
  void put(const char *s) { std::fputs(s, stdout); }
  void puti(int i) { std::printf("%d", i); }
  void puttext(const char *s, unsigned long n) { put("(text"); for (unsigned long k = 0; k < n; k++) std::printf(" %d", (int) (signed char) s[k]); put(")"); }
  void output(void (*f)()) {
    int fd[2]; std::fflush(stdout);
    if (pipe(fd)) std::abort();
    pid_t p = fork();
    if (p == 0) { dup2(fd[1], 1); close(fd[0]); close(fd[1]); f(); std::cout.flush(); std::fflush(stdout); _exit(0); }
    close(fd[1]);
    std::string t; char c;
    while (read(fd[0], &c, 1) == 1) t += c;
    int st; waitpid(p, &st, 0); close(fd[0]);
    puttext(t.data(), t.size());
  }
}
'''
def spec_text(z, assign):
    t = 'struct %s {};\n' % z
    for n, v in sorted(assign.items()):
        k, a, b = n[0], *map(int, n[1:].strip('_').split('_'))
        if k == 'c': t += 'template <> struct nd_char<%s, %d, %d> { static const char value = %d; };\n' % (z, a, b, v if v < 128 else v - 256)
        elif k == 'i': t += 'template <int L, int H> struct nd_int<%s, %d, %d, L, H> { static const int value = %s; };\n' % (z, a, b, v if v != -2147483648 else '(-2147483647 - 1)')
    return t

def replay_source(prop, entries, std, items):
    """items: list of (entry name, assignment)"""
    h = harness_text(prop, entries, std)
    inc, rest = h.split('namespace h {', 1)
    t = '#define VF_REPLAY 1\n' + inc + 'namespace vf {\n'
    for k, (en, a) in enumerate(items): t += spec_text('Z%d' % k, a)
    t += '}\nnamespace h {' + rest + MAIN + 'int main() {\n'
    for k, (en, a) in enumerate(items):
        t += '  std::printf("@%d "); vf::pr<h::%s<vf::Z%d>::type>::go(); std::puts("");\n' % (k, en, k)
    return t + '  return 0;\n}\n'

def compile_run(src, std, work, timeout=280):
    exe = src + '.exe'
    cmd = ['g++'] + stdflags(std) + ['-w', '-O0', '-I' + os.path.join(REPO, 'include'), '-I' + HARNESS, src, '-o', exe]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    if p.returncode: return 'error', p.stdout.decode('utf8', 'replace')
    r = subprocess.run([exe], stdout=subprocess.PIPE, timeout=60)
    try: os.unlink(exe)
    except OSError: pass
    return 'ok', r.stdout.decode()

_rn = [0]
def replay(prop, entries, std, items, work):
    """concrete results of the real code: list of ('ok', term) / ('error', text)"""
    if not items: return []
    used = {en for en, _ in items}
    ents = [e for e in entries if e.name in used]
    _rn[0] += 1
    src = os.path.join(work, 'r%s_%d_%d.cpp' % (std, os.getpid(), _rn[0] * 1000 + random.randrange(1000)))
    with open(src, 'w') as f: f.write(replay_source(prop, ents, std, items))
    st, out = compile_run(src, std, work)
    if st == 'ok':
        res = [None] * len(items)
        for line in out.splitlines():
            m = re.match(r'@(\d+) (.*)', line)
            if m: res[int(m.group(1))] = ('ok', from_sexpr(m.group(2)))
        return [r if r else ('error', 'no output') for r in res]
    if len(items) == 1: return [(st, out[:20000])]
    h = len(items) // 2
    return replay(prop, entries, std, items[:h], work) + replay(prop, entries, std, items[h:], work)

# ------------------------------------------------------------------ checking
def classify(exp):
    if is_err(exp): return 'ill-formed'
    if isinstance(exp, tuple) and exp and isinstance(exp[0], str): return exp[0]
    return 'value'

_G = {}
def _worker(args):
    std, ename, lines = args
    entry = _G['entries'][ename]
    stats = {'oracle_queries': 0, 'oracle_solver_s': 0.0, 'equiv': 0, 'paths': 0}
    reach, viol, unsup, samples, kinds = {}, [], [], [], {}
    for ln in lines:
        p = json.loads(ln)
        kinds[p['kind']] = kinds.get(p['kind'], 0) + 1
        if p['kind'] == 'assume': continue
        stats['paths'] += 1
        asr, term, vs = parse_path(p)
        if p['kind'] in ('unsupported', 'limit'):
            unsup.append((p['kind'] + ': ' + p['msg'], model_values(asr, stats))); continue
        def body(cx, exp):
            c = classify(exp)
            reach[c] = reach.get(c, 0) + 1
            stats['equiv'] += 1
            if p['kind'] == 'error':
                if exp is ERR: return None
                neg = z3.BoolVal(True)
                if isinstance(exp, ErrWith):
                    ok = exp.cond(term)
                    if ok is True: return None
                    neg = z3.BoolVal(True) if ok is False else z3.Not(ok)
                t0 = time.time(); r = cx.s.check(neg)
                stats['oracle_queries'] += 1; stats['oracle_solver_s'] += time.time() - t0
                if r == z3.unsat: return None
                if r == z3.unknown: raise Undecided('solver unknown in the comparison')
                m = cx.s.model()
                return (show(exp, m), 'ill-formed: ' + p['msg'], model_assign(m))
            if is_err(exp):
                if cx.s.check() != z3.sat: return None
                m = cx.s.model()
                return ('ill-formed', show(term, m), model_assign(m))
            ok = compare(exp, term)
            if ok is True: return None
            neg = z3.BoolVal(True) if ok is False else z3.Not(ok)
            t0 = time.time(); r = cx.s.check(neg)
            stats['oracle_queries'] += 1; stats['oracle_solver_s'] += time.time() - t0
            if r == z3.unsat: return None
            if r == z3.unknown: raise Undecided('solver unknown in the comparison')
            m = cx.s.model()
            return (show(exp, m), show(term, m), model_assign(m))
        try: v = explore(entry.oracle, std, asr, stats, body)
        except Undecided as u:
            unsup.append((str(u), model_values(asr, stats))); continue
        if v is not None: viol.append((ename, std) + v)
        elif p['kind'] in ('ok', 'error') and len(samples) < _G['nsamp']:
            a = model_values(asr, stats)
            if a is not None: samples.append((ename, std, a, ln if len(samples) < 1 else None, p['kind']))
    return ename, std, stats, reach, viol, unsup, samples, kinds

def oracle_concrete(entry, std, assign):
    """expected term(s) for a concrete assignment"""
    st = {'oracle_queries': 0, 'oracle_solver_s': 0.0}
    outs = []
    def body(cx, exp):
        cx.s.check(); outs.append((exp, cx.s.model())); return True
    explore(entry.oracle, std, concrete_assertions(assign), st, body, assign)
    return outs

def agrees(entry, std, assign, got):
    """does the real result got=(status, term) satisfy the oracle?"""
    outs = oracle_concrete(entry, std, assign)
    if not outs: return True, 'outside the assumptions'
    exp, m = outs[0]
    if exp is ERR: return got[0] == 'error', 'ill-formed'
    if isinstance(exp, ErrWith): return got[0] == 'error' and exp.text_ok(m, got[1]), show(exp, m)
    if got[0] != 'ok': return False, show(exp, m)
    if isinstance(exp, tuple) and exp[:1] == ('text',): exp = flat_text(exp, m)
    c = compare(exp, got[1])
    if c is True: return True, show(exp, m)
    if c is False: return False, show(exp, m)
    v = m.eval(c, model_completion=True)
    return z3.is_true(v), show(exp, m)

def run_property(prop, tier, seed):
    t0 = time.time()
    random.seed(seed)
    work = os.path.join(VERIF, 'build', 'work', '%s_%d' % (prop.pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try:
        return _run(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def _run(prop, tier, seed, work, t0):
    budget = float(os.environ.get('VERIF_BUDGET', '700' if tier == 'quick' else '6000'))
    stds = prop.stds_quick if tier == 'quick' else prop.stds_thorough
    entries = [e for e in prop.entries if tier == 'thorough' or e.tier == 'quick']
    def okstd(e, s): return s in e.stds or (s == '17' and '14' in e.stds)
    jobs = []
    for s in stds:
        for ff in (True, False):
            es = [e for e in entries if okstd(e, s) and e.no_ff == ff]
            if es: jobs.append((s, ff, es))
    print('%s: %d entries, standards %s, tier %s' % (prop.pid, len(entries), ','.join(stds), tier), flush=True)
    results, notes = [], []
    cover = set(); agg = {'queries': 0, 'solver_s': 0.0, 'decisions': 0, 'forks': 0, 'insts': 0, 'paths': 0}
    slots = max(2, NCPU * 3 // 2 // max(1, min(len(jobs), 4)))
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(lambda j: (j,) + run_engine(prop, j[2], j[0], work, j[1], budget * 0.6, slots), jobs))
    tasks = []
    inconclusive = []; nopath = []
    for (s, ff, es), rc, out, log, dt in outs:
        got_summary = False
        lines = {}
        if os.path.exists(out):
            for ln in open(out):
                if '"kind":"summary"' in ln:
                    d = json.loads(ln); got_summary = True
                    for k in agg: agg[k] += d[k]
                    cover.update(d['cover'])
                    if d['abort']: inconclusive.append('engine abort %s in c++%s' % (d['abort'], s))
                    continue
                m = re.match(r'\{"entry":"h::([^"]+)"', ln)
                if not m or not ln.endswith('}\n'): continue
                lines.setdefault(m.group(1), []).append(ln)
        if not got_summary:
            inconclusive.append('engine failed (rc %s) for c++%s: %s' % (rc, s, log[-800:]))
        for e in es:
            ls = lines.get(e.name, [])
            if not any('"kind":"assume"' not in l[:200 + len(e.name)] for l in ls):
                inconclusive.append('no path for %s c++%s' % (e.name, s)); nopath.append((e.name, s))
            for i in range(0, len(ls), 40): tasks.append((s, e.name, ls[i:i + 40]))
    t_engine = time.time() - t0
    _G['entries'] = {e.name: e for e in entries}
    _G['nsamp'] = 1 if tier == 'quick' else 2
    reach, viol, unsup, samples = {}, [], [], []
    st = {'oracle_queries': 0, 'oracle_solver_s': 0.0, 'equiv': 0, 'paths': 0}
    kinds = {}
    rnd = random.Random(seed)
    with mp.get_context('fork').Pool(NCPU) as pool:
        for en, s, a, r, v, u, sm, kk in pool.imap_unordered(_worker, tasks, chunksize=1):
            for k in a: st[k] += a[k]
            for k in r: reach.setdefault((en, s), {}).setdefault(k, 0); reach[(en, s)][k] += r[k]
            for k in kk: kinds[k] = kinds.get(k, 0) + kk[k]
            viol += v; unsup += [(en, s) + x for x in u]; samples += sm
    t_oracle = time.time() - t0 - t_engine
    E = _G['entries']
    # vacuity: outcome classes that must be reachable
    for e in entries:
        if e.reach:
            for s in stds:
                if okstd(e, s):
                    miss = [c for c in e.reach if c not in reach.get((e.name, s), {})]
                    if miss: inconclusive.append('vacuity: %s c++%s never reached %s' % (e.name, s, miss))
    # coverage of the input space by the path conditions
    holes = check_partition(tasks, E)
    for h in holes: inconclusive.append(h)
    # replay: candidate violations first, then fallback for undecided paths, then validation samples
    confirmed, spurious, replayed = [], [], 0
    findings = load_findings()
    by = {}
    cand = []
    seen = {}
    for v in viol:
        k = (v[0], v[1]); seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 3: cand.append(v)
    cand = cand[:60]
    items_by_std = {}
    for v in cand: items_by_std.setdefault(v[1], []).append(('viol', v[0], v[4], v))
    fb = {}
    for en, s, msg, a in unsup:
        inconclusive.append('undecided path in %s c++%s: %s' % (en, s, msg))
        if a is not None:
            fb[(en, s)] = fb.get((en, s), 0) + 1
            if fb[(en, s)] <= 4: items_by_std.setdefault(s, []).append(('fallback', en, a, None))
    # entries the engine could not explore: replay one concrete input, so that code that no longer compiles is reported
    for en, s in (nopath if len(nopath) <= 48 else nopath[::max(1, len(nopath) // 48)]): items_by_std.setdefault(s, []).append(('fallback', en, {}, None))
    per = {}
    maxv = 3 if tier == 'quick' else 10
    samples.sort(key=lambda x: (x[0], x[1], json.dumps(x[2], sort_keys=True)))
    rnd.shuffle(samples)
    cap = 40 if tier == 'quick' else 150
    cnt = {}
    nerr = {}
    for en, s, a, ln, kd in samples:
        if kd == 'error':
            nerr[s] = nerr.get(s, 0) + 1
            if nerr[s] > (6 if tier == 'quick' else 40): continue
        if per.get((en, s), 0) >= maxv or cnt.get(s, 0) >= cap: continue
        per[(en, s)] = per.get((en, s), 0) + 1; cnt[s] = cnt.get(s, 0) + 1
        items_by_std.setdefault(s, []).append(('sample' if kd == 'ok' else 'esample', en, a, None))
    # entries that could not be explored at all: solver-free fallback is not attempted
    chunks = []
    for s, its in items_by_std.items():
        chunks += [(s, [x]) for x in its if x[0] == 'esample']
        single = [x for x in its if x[0] not in ('sample', 'esample')]; rest = [x for x in its if x[0] == 'sample']
        for i in range(0, len(single), 6): chunks.append((s, single[i:i + 6]))
        for i in range(0, len(rest), 16): chunks.append((s, rest[i:i + 16]))
    def dorep(c):
        s, its = c
        return c, replay(prop, entries, s, [(x[1], x[2]) for x in its], work)
    validated = 0
    with ThreadPoolExecutor(NCPU) as ex:
        for (s, its), rs in ex.map(dorep, chunks):
            for (why, en, a, v), got in zip(its, rs):
                replayed += 1
                ok, exp = agrees(E[en], s, a, got)
                if ok:
                    if why == 'viol': spurious.append((en, s, a, v[2], v[3]))
                    else: validated += 1
                    continue
                confirmed.append({'entry': en, 'std': s, 'assign': a, 'expected': exp, 'actual': show(got[1]) if got[0] == 'ok' else got[0] + ': ' + got[1][:600], 'why': why})
    for sp in spurious: inconclusive.append('not reproduced by g++: %s c++%s %s expected %s engine %s' % sp)
    # known findings
    new, known = [], {}
    for c in confirmed:
        f = match_finding(findings, prop.pid, c)
        if f: known.setdefault(f['id'], (f, c))
        else: new.append(c)
    for fid, (f, c) in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s (e.g. %s c++%s %s)' % (prop.pid, f['what'], c['entry'], c['std'], short(c['assign'])))
    rdir = os.path.join(VERIF, 'build', 'replay'); os.makedirs(rdir, exist_ok=True)
    for i, c in enumerate(new[:5]):
        path = os.path.join(rdir, '%s_%s_cpp%s_%d.cpp' % (prop.pid, c['entry'], c['std'], i))
        with open(path, 'w') as f:
            f.write('// property %s, entry %s\n// inputs: %s\n// expected: %s\n// actual:   %s\n// g++ %s -w -I%s/include -I%s %s\n' % (
                prop.pid, c['entry'], json.dumps(c['assign'], sort_keys=True), c['expected'], c['actual'].replace('\n', '\n//   '), ' '.join(stdflags(c['std'])), REPO, HARNESS, path))
            f.write(replay_source(prop, [E[c['entry']]], c['std'], [(c['entry'], c['assign'])]))
        print('VIOLATION property=%s replay=%s' % (prop.pid, path))
        print('   entry %s c++%s inputs %s\n   expected %s\n   actual   %s' % (c['entry'], c['std'], short(c['assign']), c['expected'][:600], c['actual'][:600]))
    for n in inconclusive[:12]: print('NOTE: ' + n[:600])
    wall = time.time() - t0
    ev = {
        'property': prop.pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': len(new),
        'assumptions': prop.assumptions,
        'coverage': {
            'states': st['paths'], 'transitions': agg['decisions'], 'traces_validated_against_impl': validated,
            'samples': [{'entry': en, 'std': 'c++' + s, 'inputs': short(a), 'path': (json.loads(ln)['pc'][:400] if ln else '')} for en, s, a, ln, kd in samples[:4]],
            'explanation': 'states = complete symbolic paths of the real templates (each with its path condition); transitions = branch decisions put to the solver; every path is compared with the reference semantics by a solver query over all values of the path.',
            'path_outcomes': kinds,
            'outcome_classes': {k: v for k, v in sorted(_merge(reach).items())},
            'entries': ['%s [%s]%s' % (e.name, ','.join(s for s in stds if okstd(e, s)), ' ' + e.bound if e.bound else '') for e in entries][:150],
            'bounds': prop.bounds,
            'queries_discharged': agg['queries'] + st['oracle_queries'], 'path_feasibility_queries': agg['queries'], 'equivalence_queries': st['oracle_queries'],
            'solver_s': round(agg['solver_s'] + st['oracle_solver_s'], 2),
            'template_instantiations_executed': agg['insts'], 'forks': agg['forks'],
            'functions_encoded_count': len(cover), 'functions_encoded': sorted(cover)[:250],
            'replayed_with_gcc': replayed, 'undecided': inconclusive[:20], 'known_findings': sorted(known),
            'exhaustive': not inconclusive,
            'phase_s': {'engine': round(t_engine, 1), 'oracle': round(t_oracle, 1), 'replay': round(wall - t_engine - t_oracle, 1)},
        }}
    edir = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(edir, exist_ok=True)
    txt = json.dumps(ev, indent=1)
    while len(txt) > 60000 and ev['coverage']['functions_encoded']:
        ev['coverage']['functions_encoded'] = ev['coverage']['functions_encoded'][:len(ev['coverage']['functions_encoded']) // 2]
        txt = json.dumps(ev, indent=1)
    with open(os.path.join(edir, prop.pid + '.json'), 'w') as f: f.write(txt)
    print('%s: %d paths %s, %d queries, %.1f s solver, %d gcc replays (%d validated), %d violations, %d undecided, %.1f s (engine %.1f oracle %.1f)' % (
        prop.pid, st['paths'], kinds, agg['queries'] + st['oracle_queries'], agg['solver_s'] + st['oracle_solver_s'], replayed, validated, len(new), len(inconclusive), wall, t_engine, t_oracle))
    return 1 if new else 0

def _merge(reach):
    o = {}
    for v in reach.values():
        for k, n in v.items(): o[k] = o.get(k, 0) + n
    return o

def short(a): return json.dumps(a, sort_keys=True)[:400]

def match_finding(fs, pid, c):
    for f in fs.get('findings', []):
        if f['property'] == pid and re.search(f['entry'], c['entry']) and c['std'] in f['stds']:
            if 'assign' in f and not all(c['assign'].get(k) == v for k, v in f['assign'].items()): continue
            if 'actual' in f and not re.search(f['actual'], c['actual']): continue
            return f
    return None

def check_partition(tasks, E):
    """the path conditions of an entry cover the whole input space"""
    groups = {}
    for s, en, lines in tasks: groups.setdefault((s, en), []).extend(lines)
    args = [(s, en, ls) for (s, en), ls in groups.items() if len(ls) <= 1500]
    bad = []
    with mp.get_context('fork').Pool(NCPU) as pool:
        for r in pool.imap_unordered(_partition, args):
            if r: bad.append(r)
    return bad

def _partition(a):
    s, en, ls = a
    sv = z3.Solver()
    sv.set('timeout', 60000)
    dom = {}
    for ln in ls:
        p = json.loads(ln)
        asr, _, vs = parse_path({**p, 'syms': [], 'res': None})
        conds = []
        for x in asr:
            conds.append(x)
        sv.add(z3.Not(z3.And(*conds)) if conds else z3.BoolVal(False))
        # the ranges of bounded variables are the first assertions mentioning only them
        for x in asr:
            d = range_of(x)
            if d is not None: dom[d] = x
    for x in dom.values(): sv.add(x)
    if _G['entries'][en].no_ff:
        names = set()
        for ln in ls:
            for n, w in json.loads(ln)['vars']:
                if n[0] == 'c': names.add(n)
        for n in names: sv.add(z3.BitVec(n, 8) != 255)
    r = sv.check()
    if r == z3.sat: return 'path conditions of %s c++%s do not cover %s' % (en, s, sv.model())
    if r == z3.unknown: return 'coverage query of %s c++%s gave no answer' % (en, s)
    return None

def range_of(x):
    """x is (and (bvsle lo v) (bvsle v hi)) or its parts over one i_ variable -> name"""
    names = set()
    def walk(e):
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: names.add(e.decl().name())
        for c in e.children(): walk(c)
    if not z3.is_and(x) or len(x.children()) != 2: return None
    for c in x.children():
        if c.decl().kind() not in (z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ): return None
    walk(x)
    if len(names) != 1: return None
    n = names.pop()
    return n if n[0] == 'i' else None
