"""Whole expressions: precedence, associativity, nesting and unevaluated operands.

The compiler's expression parser is analysed on token sequences whose operands
are contracts; the emitted code is compared with the value the C grammar gives."""
from vt import bdd as B
from vt import sccmodel as SM
from vt import x86
from vt.absint import Ptr
from vt.ir import AnalysisBroken
from .ccommon import (Machine, Operand, Case, Problem, T, types, promote, produce, on_mark, pre_machine, need, need_eq,
                      context_ok, only_writes, zf_ok, interpret, initial, same, BadCode, ORG, AX, BX, CX, DX, SP, BP, SI, DI)
from . import c as C
from .c2 import begin, judge, want_val, want_type, lval_addr, bool16

# name -> (precedence, token)    independent of the compiler's table
BINPREC = {}
for _lv, _ops in enumerate((', ', '= += -= *= /= %= <<= >>= &= ^= |=', '?', '||', '&&', '|', '^', '&', '== !=', '< > <= >=', '<< >>', '+ -', '* / %')):
    for _o in _ops.split():
        BINPREC[_o] = _lv
NAMES = {'<<': 'LSH', '>>': 'RSH', '<=': 'LTEQ', '>=': 'GTEQ', '==': 'EQEQ', '!=': 'NOTEQ', '&&': 'ANDAND', '||': 'OROR', '+=': 'PLUSEQ', '-=': 'MINUSEQ',
         '*=': 'STAREQ', '/=': 'SLASHEQ', '%=': 'MODEQ', '<<=': 'LSHEQ', '>>=': 'RSHEQ', '&=': 'ANDEQ', '^=': 'XOREQ', '|=': 'OREQ',
         '...': 'ELLIPSIS', '++': 'PLUSPLUS', '--': 'MINUSMINUS', '->': 'ARROW', 'sizeof': 'SIZEOF'}
UNARY = ('-', '~', '!', '+', '*', '&', '++', '--', 'sizeof')


def token(S, t):
    if isinstance(t, Operand):
        return (S.E['TOK_NUM'], None)
    if t in NAMES:
        return (S.E['TOK_' + NAMES[t]], None)
    return (ord(t), None)


class Parser:
    """Textbook recursive-descent parser of C expressions."""

    def __init__(self, toks):
        self.t, self.i = list(toks), 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, x):
        if self.next() != x:
            raise AnalysisBroken('script is not an expression: %r' % (self.t,))

    def expr(self):
        l = self.assign()
        while self.peek() == ',':
            self.next()
            l = ('bin', ',', l, self.assign())
        return l

    def assign(self):
        l = self.cond()
        if isinstance(self.peek(), str) and BINPREC.get(self.peek()) == 1:
            op = self.next()
            return ('asg', op, l, self.assign())
        return l

    def cond(self):
        c = self.binary(3)
        if self.peek() == '?':
            self.next()
            a = self.expr()
            self.expect(':')
            return ('cond', c, a, self.cond())
        return c

    def binary(self, lv):
        l = self.unary() if lv > 12 else self.binary(lv + 1)
        while isinstance(self.peek(), str) and BINPREC.get(self.peek()) == lv:
            op = self.next()
            l = ('bin', op, l, self.unary() if lv == 12 else self.binary(lv + 1))
        return l

    def unary(self):
        p = self.peek()
        if isinstance(p, str) and p in UNARY:
            self.next()
            return ('un', p, self.unary())
        return self.postfix()

    def postfix(self):
        p = self.next()
        if p == '(':
            e = self.expr()
            self.expect(')')
        else:
            e = ('op', p)
        while True:
            p = self.peek()
            if p == '[':
                self.next()
                i = self.expr()
                self.expect(']')
                e = ('idx', e, i)
            elif p in ('++', '--') and isinstance(p, str):
                self.next()
                e = ('post', p, e)
            else:
                return e


class Env:
    def __init__(self, S, cpu0, g):
        self.S, self.cpu0, self.g = S, cpu0, g
        self.m = {}         # operand side -> current value (of its own width)

    def copy(self, cond):
        e = Env(self.S, self.cpu0, B.band(self.g, cond))
        e.m = dict(self.m)
        e.ops, e.pre = self.ops, 1
        return e


def ctype(t):
    return 'p' if t.pointee else 'u' if C.is_uint(t) else 'i'


INT = lambda: C.TY('int')
UINT = lambda: C.TY('uint')


class Undefined(Exception):
    pass


def ev(n, env):
    """(value, type, lvalue operand or None); env.pre collects preconditions."""
    k = n[0]
    if k == 'op':
        o = n[1]
        v = env.m[o.side] if o.side in env.m else o.value(env.S, env.cpu0, env.g)
        return v, (o.t if o.t.size == 2 else INT()), o
    if k == 'bin':
        _, op, a, b = n
        if op in ('&&', '||'):
            av, at, _ = ev(a, env)
            t = B.veq(av, 0, 16) ^ 1
            go = t if op == '&&' else t ^ 1
            e2 = env.copy(go)
            bv, bt, _ = ev(b, e2)
            env.pre = B.band(env.pre, B.bor(e2.pre, go ^ 1))
            merge(env, go, e2)
            bt = B.veq(bv, 0, 16) ^ 1
            return bool16((B.band if op == '&&' else B.bor)(t, bt)), INT(), None
        av, at, _ = ev(a, env)
        bv, bt, _ = ev(b, env)
        if op == ',':
            return bv, bt, None
        return binary(op, av, at, bv, bt, env)
    if k == 'asg':
        _, op, a, b = n
        bv, bt, _ = ev(b, env)
        av, at, o = ev(a, env)
        t = o.t
        if op != '=':
            bv, bt, _ = binary(op[:-1], av, at, bv, bt, env)
        bv = promote(t, bv)
        env.m[o.side] = bv
        return bv, (t if t.size == 2 else INT()), None
    if k == 'cond':
        _, c, a, b = n
        cv, _, _ = ev(c, env)
        t = B.veq(cv, 0, 16) ^ 1
        ea, eb = env.copy(t), env.copy(t ^ 1)
        av, at, _ = ev(a, ea)
        bv, bt, _ = ev(b, eb)
        env.pre = B.band(env.pre, B.band(B.bor(ea.pre, t ^ 1), B.bor(eb.pre, t)))
        merge(env, t, ea)
        merge(env, t ^ 1, eb)
        ty = at if at.pointee else bt if bt.pointee else UINT() if C.is_uint(at) or C.is_uint(bt) else INT()
        return B.vite(t, av, bv, 16), ty, None
    if k == 'un':
        _, op, a = n
        if op == 'sizeof':
            v, t, o = ev(a, env.copy(1))
            return (o.t.size if o is not None else 2), INT(), None
        v, t, o = ev(a, env)
        if op == '-':
            return B.vsub(0, v, 16), t, None
        if op == '~':
            return B.vnot(v, 16), t, None
        if op == '!':
            return bool16(B.veq(v, 0, 16)), INT(), None
        if op == '+':
            return v, t, None
        if op in ('++', '--'):
            d = o.t.pointee or 1
            nv = promote(o.t, (B.vadd if op == '++' else B.vsub)(v, d, 16))
            env.m[o.side] = nv
            return nv, t, o
        raise AnalysisBroken('unary ' + op)
    if k == 'post':
        _, op, a = n
        v, t, o = ev(a, env)
        d = o.t.pointee or 1
        env.m[o.side] = promote(o.t, (B.vadd if op == '++' else B.vsub)(v, d, 16))
        return v, t, None
    raise AnalysisBroken(k)


def merge(env, c, e2):
    for s in set(env.m) | set(e2.m):
        if env.m.get(s) is not e2.m.get(s):
            o = env.ops[s]
            old = env.m[s] if s in env.m else o.value(env.S, env.cpu0, env.g)
            new = e2.m[s] if s in e2.m else o.value(env.S, env.cpu0, env.g)
            env.m[s] = B.vite(c, new, old, 16)


def binary(op, av, at, bv, bt, env):
    name = NAMES.get(op, op)
    gg = env.g
    if gg:
        av, bv = SM.simp(av, 16, gg), SM.simp(bv, 16, gg)
    pre = C.c_value(name, at, av, bt, bv)[2]
    env.pre = B.band(env.pre, pre)
    gg = env.g
    if gg:
        av, bv = SM.simp(av, 16, gg), SM.simp(bv, 16, gg)
    isb, v, _ = C.c_value(name, at, av, bt, bv)
    if isb:
        return bool16(v), INT(), None
    if at.pointee and bt.pointee:
        return v, INT(), None
    t = at if at.pointee else bt if bt.pointee else \
        UINT() if C.is_uint(at) or (op not in ('<<', '>>') and C.is_uint(bt)) else INT()
    return v, t, None


def script(S, st, toks, case):
    """Let the real parser read toks; operands are contracts."""
    ex = S.ex
    ex.rec_default = 14
    toks = list(toks) + [';']
    S.tokens = [token(S, t) for t in toks[1:]]
    S.set_token(st, token(S, toks[0]))

    def prim(ex, st, a, inst):
        k = st.ghost.get('tok', 0)
        o = toks[k] if k < len(toks) else None
        if not isinstance(o, Operand):
            return NotImplemented
        S.h_token(ex, st, (), None)
        if o.kind == 'fn':
            o.declare(S, st)
            return [(st, None)]
        return produce(S, ex, st, o, case.out, case.spadj)
    ex.hooks['ParsePrimaryExpression'] = prim
    ex.hooks['IsTypeStart'] = lambda ex, st, a, i: [(st, 0)]


def exprstep(job):
    name, toks, case = job
    S, st, cpu0 = begin(case)
    E = S.E
    script(S, st, toks, case)
    ast = Parser(toks).expr()
    ops = {t.side: t for t in toks if isinstance(t, Operand)}
    fins = S.run('ParseExpr', st)

    def check(fin, c, g):
        env = Env(S, cpu0, g)
        env.ops = ops
        Env.ops = ops
        env.pre = 1
        v, t, o = ev(ast, env)
        g = B.band(g, env.pre)
        if not g:
            return [B.vadd(ops[s].addr(S, cpu0), d, 16) for s in env.m for d in range(ops[s].t.size)]
        c.guard = g
        if fin.gi('TokenType') != ord(';'):
            raise Problem('stops before the end of the expression')
        allowed = []
        for s in env.m:
            o2 = ops[s]
            a = o2.addr(S, cpu0)
            w = 8 * o2.t.size
            need_eq(c.read(x86.DS, a, w), B.vtrunc(env.m[s], w), w, g, '%s gets the wrong value' % s)
            allowed += [a] + ([B.vadd(a, 1, 16)] if w == 16 else [])
        got = C.value_of(S, fin, cpu0, c, g, ()) if not t.array else None
        if got is not None:
            need_eq(got, v, 16, g, 'wrong value')
        return allowed
    return judge(S, fins, cpu0, case, check)


def deadstep(job):
    """sizeof of an arbitrary expression: no code, no bookkeeping change, right size."""
    name, toks, size, case = job
    S, st, cpu0 = begin(case)
    E = S.E
    script(S, st, ['sizeof', '('] + list(toks) + [')'], case)
    keys = ('CodeAddress', 'LocalOffset', 'RegUse', 'Pending', 'IsDeadCode', 'LastZFInst', 'LastFixup')
    before = {k: S.ex.getg(st, k) for k in keys}
    fins = S.run('ParseUnaryExpression', st)
    if not fins:
        return 0, [C.REFUSED]
    bad = []
    for fin in fins:
        for k in keys:
            if fin.g(k) != before[k]:
                bad.append('%s changes although the operand is not evaluated' % k)
        if fin.gi('CurrentType') != E['VT_INT'] | E['VT_LOCLIT'] or fin.gi('CurrentVal') != size:
            bad.append('sizeof yields %d' % fin.gi('CurrentVal'))
    return len(fins), bad


def structstep(job):
    """Assignment of whole structs: which bytes are copied from where to where."""
    name, toks, case = job
    S, st, cpu0 = begin(case)
    cpu0.copies = ()
    script(S, st, toks, case)
    ops = [t for t in toks if isinstance(t, Operand)]
    fins = S.run('ParseExpr', st)

    def check(fin, c, g):
        at = [SM.simp(o.addr(S, cpu0), 16, g) for o in ops]
        if fin.gi('TokenType') != ord(';'):
            raise Problem('stops before the end of the expression')
        if c.trace != tuple(o.side for o in ops if o.code):
            raise Problem('operands are evaluated in the order %s' % (c.trace,))
        if len(c.copies) != len(ops) - 1:
            raise Problem('%d copies are made' % len(c.copies))
        for i, (f, t, n) in enumerate(c.copies):
            d = len(ops) - 2 - i
            need_eq(t, at[d], 16, g, 'the struct is copied to another place')
            if not any(same(f, a, g) for a in at[d + 1:]):
                raise Problem('another object is copied')
            if n != ops[0].t.size:
                raise Problem('%d bytes are copied of a struct of %d' % (n, ops[0].t.size))
        want_type(S, fin, ops[0].t.bits, ops[0].t.extra)
        a = lval_addr(S, fin, cpu0, c)
        if not any(same(a, b, g) for b in at):
            raise Problem('the result is another object')
    return judge(S, fins, cpu0, case, check)
