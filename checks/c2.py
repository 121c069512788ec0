"""Unary and postfix expressions, casts, calls, unevaluated operands."""
from vt import bdd as B
from vt import sccmodel as SM
from vt import x86
from vt.absint import Ptr
from vt.ir import AnalysisBroken
from .ccommon import (Machine, Operand, Case, Problem, T, types, promote, produce, on_mark, pre_machine, need, need_eq,
                      context_ok, only_writes, zf_ok, interpret, initial, same, BadCode, ORG, AX, BX, CX, DX, SP, BP, SI, DI)
from . import c as C


def begin(case, op=None, place=None):
    B.reset()
    SM.CANON.clear()
    S = Machine(C.mod())
    st = S.start(pending=case.pend | (case.adj & 0xffffffff), reguse=case.reguse, localoffset=case.lo)
    cpu0 = pre_machine(case, place)
    if case.pend:
        cpu0.r[AX] = B.sym('in.AX', 16)
    return S, st, cpu0


def judge(S, fins, cpu0, case, check, allow_fatal=False, on_call=None):
    """Interpret what each outcome emitted and apply check(fin, cpu, guard)."""
    if not fins:
        return 0, [C.REFUSED]
    bad = []
    n = 0
    if S.fatal and not allow_fatal:
        bad.append('refused for some operand values')
    for fin in fins:
        code, sub = fin.code(), {}
        try:
            if fin.gi('IsDeadCode'):
                raise Problem('code after the expression is considered dead')
            sub = S.fixups(fin)
            try:
                ps = interpret(code, cpu0.fork(), fin.guard, S.marks, sub, on_mark, on_call)
            except x86.UndefFlag:
                raise BadCode('branches on an undefined flag')
            for p in ps:
                c, g = p.cpu, p.guard
                c.guard = g
                if p.pos != len(code):
                    raise Problem('jumps out of the emitted code')
                n += 1
                allowed = check(fin, c, g) or []
                c.guard = g
                context_ok(S, fin, case, cpu0, c, g)
                only_writes(case, cpu0, c, g, allowed)
                ty = fin.gi('CurrentType')
                zf_ok(S, fin, c, g, not ty & (S.E['VT_LVAL'] | S.E['VT_LOCMASK']) and ty != S.E['VT_BOOL'])
        except (Problem, BadCode) as e:
            bad.append('%s  {%s}' % (e, SM.dis(code, sub)))
    return n, bad


def lval_addr(S, fin, cpu0, c):
    E = S.E
    ty = fin.gi('CurrentType')
    loc = ty & E['VT_LOCMASK']
    if ty == E['VT_BOOL'] or not ty & E['VT_LVAL']:
        raise Problem('the result is not an lvalue (type 0x%X)' % ty)
    if loc == 0:
        return c.r[AX]
    if loc == E['VT_LOCOFF']:
        return B.vadd(cpu0.r[BP], B.vtrunc(fin.g('CurrentVal'), 16), 16)
    if loc == E['VT_LOCGLOB']:
        i = fin.gi('CurrentVal')
        for k, x in S.G.items():
            if x == i:
                return S.gaddr(k)
        raise Problem('result is an unknown global')
    raise Problem('result lvalue 0x%X' % ty)


def want_type(S, fin, bits, extra=None):
    E = S.E
    ty, ex = fin.gi('CurrentType'), fin.gi('CurrentTypeExtra')
    if ty == E['VT_BOOL'] or ty & ~(E['VT_LOCMASK'] | E['VT_LVAL']) != bits:
        raise Problem('result type 0x%X, 0x%X expected' % (ty, bits))
    if extra is not None and bits & E['VT_BASEMASK'] in (E['VT_STRUCT'], E['VT_ARRAY']) and ex != extra:
        raise Problem('result refers to type %d, %d expected' % (ex, extra))


def want_lval(S, fin, cpu0, c, g, addr, bits, extra=None):
    want_type(S, fin, bits, extra)
    need_eq(lval_addr(S, fin, cpu0, c), addr, 16, g, 'the result designates another object')


def want_val(S, fin, cpu0, c, g, val, w=16, what='wrong value'):
    k, v = C.result_value(S, fin, cpu0, c, g)
    if k == 'bool':
        v = B.norm((v,) + (0,) * 15)
    need_eq(v, val, 16, g, what)


def hook_operand(S, op, case, names=('ParseCastExpression', 'ParseUnaryExpression', 'ParseExpr', 'ParseAssignmentExpression'), tok=';'):
    def operand(ex, st, a, inst):
        if tok is not None:
            S.set_token(st, (ord(tok),))
        return produce(S, ex, st, op, case.out, case.spadj)
    for n in names:
        S.ex.hooks[n] = operand


def bool16(b):
    return B.norm((b,) + (0,) * 15)


# ------------------------------------------------------------------- unary
def unstep(job):
    op, o, case = job
    S, st, cpu0 = begin(case)
    E = S.E
    t = o.t
    S.set_token(st, (ord(op) if len(op) == 1 else E['TOK_' + op],))
    hook_operand(S, o, case)
    fins = S.run('ParseUnaryExpression', st)

    def check(fin, c, g):
        v = SM.simp(o.value(S, cpu0, g), 16, g)
        uns = E['VT_UNSIGNED'] if C.is_uint(t) else 0
        if op in '-~+!':
            val = {'-': lambda: B.vsub(0, v, 16), '~': lambda: B.vnot(v, 16), '+': lambda: v, '!': lambda: bool16(B.veq(v, 0, 16))}[op]()
            want_val(S, fin, cpu0, c, g, val)
            if op != '!' and fin.gi('CurrentType') != E['VT_BOOL']:
                want_type(S, fin, E['VT_INT'] | uns)
            return []
        if op == '*':
            want_lval(S, fin, cpu0, c, g, v, t.bits - E['VT_PTR1'], t.extra)
            return []
        a = o.addr(S, cpu0)
        if op == '&':
            want_val(S, fin, cpu0, c, g, a)
            want_type(S, fin, t.bits + E['VT_PTR1'], t.extra)
            return []
        # ++ / --
        d = t.pointee or 1
        nv = (B.vadd if op == 'PLUSPLUS' else B.vsub)(v, d, 16)
        want_lval(S, fin, cpu0, c, g, a, t.bits, t.extra)
        c.guard = g
        need_eq(c.read(x86.DS, a, 8 * t.size), B.vtrunc(nv, 8 * t.size), 8 * t.size, g, 'wrong value stored')
        return [a] + ([B.vadd(a, 1, 16)] if t.size == 2 else [])
    return judge(S, fins, cpu0, case, check)


def poststep(job):
    op, o, case = job
    S, st, cpu0 = begin(case, place=o)
    E = S.E
    t = o.t
    o.declare(S, st)
    S.set_token(st, (E['TOK_' + op],))
    fins = S.run('ParsePostfixExpression', st)

    def check(fin, c, g):
        v = o.value(S, cpu0, g)
        d = t.pointee or 1
        nv = (B.vadd if op == 'PLUSPLUS' else B.vsub)(v, d, 16)
        want_val(S, fin, cpu0, c, g, v)
        want_type(S, fin, E['VT_INT'] if t.size == 1 else t.bits, t.extra)
        a = o.addr(S, cpu0)
        c.guard = g
        need_eq(c.read(x86.DS, a, 8 * t.size), B.vtrunc(nv, 8 * t.size), 8 * t.size, g, 'wrong value stored')
        return [a] + ([B.vadd(a, 1, 16)] if t.size == 2 else [])
    return judge(S, fins, cpu0, case, check)


# ------------------------------------------------------------------- casts
def caststep(job):
    _, tt, o, case = job
    S, st, cpu0 = begin(case)
    E = S.E
    ex = S.ex
    S.set_token(st, (ord('('),))
    ex.hooks['IsTypeStart'] = lambda ex, st, a, i: [(st, 1)]

    def decl(ex, st, a, inst):
        ex.setg(st, 'CurrentType', tt.bits)
        ex.setg(st, 'CurrentTypeExtra', tt.extra)
        S.set_token(st, (ord(')'),))
        return [(st, None)]
    ex.hooks['ParseAbstractDecl'] = decl
    hook_operand(S, o, case)
    fins = S.run('ParseCastExpression', st)

    def check(fin, c, g):
        v = SM.simp(o.value(S, cpu0, g), 16, g)
        want_val(S, fin, cpu0, c, g, promote(tt, v))
        want_type(S, fin, E['VT_INT'] if tt.size == 1 else tt.bits, tt.extra)
    return judge(S, fins, cpu0, case, check)


def parenstep(job):
    """A parenthesised expression keeps the operand and its context."""
    _, o, case = job
    S, st, cpu0 = begin(case)
    S.set_token(st, (ord('('),))
    S.ex.hooks['IsTypeStart'] = lambda ex, st, a, i: [(st, 0)]
    hook_operand(S, o, case, tok=')')
    fins = S.run('ParseCastExpression', st)

    def check(fin, c, g):
        ty = fin.gi('CurrentType')
        if ty != S.E['VT_BOOL'] and ty & S.E['VT_LVAL']:
            want_lval(S, fin, cpu0, c, g, o.addr(S, cpu0), o.t.bits, o.t.extra)
        else:
            want_val(S, fin, cpu0, c, g, o.value(S, cpu0, g))
    return judge(S, fins, cpu0, case, check)


# ------------------------------------------------------------ [] . -> calls
def array_types(S):
    E = S.E
    out = []
    for i, (bound, ty, extra, es) in enumerate(S.arrays()):
        out.append(T('array%d' % i, E['VT_ARRAY'], bound * es, True, es, i, (ty + E['VT_PTR1'], extra)))
    return out


def idxstep(job):
    _, base, idx, case = job
    S, st, cpu0 = begin(case, place=base)
    E = S.E
    base.declare(S, st)
    S.set_token(st, (ord('['),))
    hook_operand(S, idx, case, ('ParseExpr', 'ParseAssignmentExpression'), ']')
    fins = S.run('ParsePostfixExpression', st)
    if base.t.bits == E['VT_ARRAY']:
        _, ety, eextra, es = S.arrays()[base.t.extra]
    else:
        ety, eextra, es = base.t.bits - E['VT_PTR1'], base.t.extra, base.t.pointee

    def check(fin, c, g):
        b = base.value(S, cpu0, g)
        i = SM.simp(idx.value(S, cpu0, g), 16, g)
        if c.trace != ((idx.side,) if idx.code else ()):
            raise Problem('the index is evaluated %d times' % len(c.trace))
        want_lval(S, fin, cpu0, c, g, B.vadd(b, B.vmul(i, es, 16), 16), ety, eextra)

    def addr(c, g):
        i = SM.simp(idx.value(S, cpu0, g), 16, g)
        return B.vadd(base.value(S, cpu0, g), B.vmul(i, es, 16), 16)
    return both(judge(S, fins, cpu0, case, check), loaded(S, fins, cpu0, case, ety, addr))


def loaded(S, fins, cpu0, case, bits, addr):
    """The designated object is also read from there when its value is asked for."""
    E = S.E
    if bits & E['VT_BASEMASK'] in (E['VT_STRUCT'], E['VT_ARRAY']) and not bits & E['VT_PTRMASK'] or not bits & ~E['VT_UNSIGNED']:
        return 0, []
    out = []
    for f in fins:
        out += S.run('GetVal', f.st)
    char = bits & ~E['VT_UNSIGNED'] == E['VT_CHAR']

    def check(fin, c, g):
        v = initial(addr(c, g), 8 if char else 16, g)
        if char:
            v = B.vzext(v, 8, 16) if bits & E['VT_UNSIGNED'] else B.vsext(v, 8, 16)
        want_val(S, fin, cpu0, c, g, v, 16, 'another value is loaded')
    return judge(S, out, cpu0, case, check)


def both(a, b):
    return a[0] + b[0], a[1] + b[1]


def memstep(job):
    """struct member access; sel: index of the member."""
    op, si, sel, base, case = job
    S, st, cpu0 = begin(case, place=base)
    E = S.E
    base.declare(S, st)
    union, mem = S.members()[si - 2]
    S.tokens = [(E['TOK_KEYWORD'] + 200 + sel,), (ord(';'),)]
    S.set_token(st, (ord('.'),) if op == '.' else (E['TOK_ARROW'],))
    fins = S.run('ParsePostfixExpression', st)
    off = 0 if union else sum(m[2] for m in mem[:sel])

    def check(fin, c, g):
        b = base.addr(S, cpu0) if op == '.' else base.value(S, cpu0, g)
        want_lval(S, fin, cpu0, c, g, B.vadd(b, off, 16), mem[sel][0], mem[sel][1])

    def addr(c, g):
        return B.vadd(base.addr(S, cpu0) if op == '.' else base.value(S, cpu0, g), off, 16)
    return both(judge(S, fins, cpu0, case, check), loaded(S, fins, cpu0, case, mem[sel][0], addr))


def callstep(job):
    """Function call: fn is an Operand-like description of the callee."""
    _, fk, ret, args, case = job
    S, st, cpu0 = begin(case)
    E = S.E
    ex = S.ex
    FUN = E['VT_FUN'] if fk in ('glob', 'globf') else E['VT_FUNPTR']
    if fk in ('glob', 'globf'):
        side = 'L' if fk == 'glob' else 'Lf'
        S.setfield(st, 'VarDecls', S.G[side], 'VarDecl', 'Type', ret.bits | FUN | E['VT_LOCGLOB'])
        S.setfield(st, 'VarDecls', S.G[side], 'VarDecl', 'TypeExtra', ret.extra)
        if fk == 'glob':
            st.guard = B.band(st.guard, B.veq(S.gaddr('L'), 0, 16) ^ 1)
        S.cur(st, ret.bits | FUN | E['VT_LVAL'] | E['VT_LOCGLOB'], S.G[side], ret.extra)
        target = S.gaddr(side)
    else:
        o = Operand('L', fk[1:], T('fp', ret.bits | FUN, 2, extra=ret.extra))
        if fk[1:] == 'mem':
            o.place(cpu0)
        o.declare(S, st)
        target = None if fk[1:] == 'mem' else 1
    S.set_token(st, (ord('('),))
    S.tokens = [(ord(')'),) if not args else (ord('x'),)]
    n = len(args)

    def arg(ex, st, a, inst):
        k = st.ghost.get('arg', 0)
        st.ghost['arg'] = k + 1
        # ',' : the parser consumes it with GetToken, whose result does not matter
        S.set_token(st, (ord(',') if k + 1 < n else ord(')'),))
        return produce(S, ex, st, args[k], case.out, case.spadj)
    ex.hooks['ParseAssignmentExpression'] = arg
    fins = S.run('ParsePostfixExpression', st)
    calls = {}

    def on_call(c, insn, g, pos):
        c.guard = g
        k = insn.ops[0]
        sp = c.r[SP] = B.vadd(c.r[SP], 2, 16)      # the return address is gone again
        c.ncall = c.__dict__.get('ncall', 0) + 1
        c.args_at = [c.read(x86.SS, B.vadd(sp, 2 * i, 16), 16) for i in range(n)]
        c.arg_base = sp
        c.called = ('rel' if k[0] == 'rel' else 'abs', c.ip, pos)
        c.bpcall = c.r[BP]
        # the callee may change every register but BP and SP, and its argument slots
        for nme, r in (('AX', AX), ('BX', BX), ('CX', CX), ('DX', DX), ('SI', SI), ('DI', DI)):
            c.r[r] = B.sym('ret.' + nme, 16)
        for f in 'CZSO':
            c.f[f] = B.sym('ret.f' + f, 1)[0]
        for i in range(n):
            for d in (0, 1):
                c.write8(x86.SS, B.vadd(sp, 2 * i + d, 16), B.sym('ret.arg%d' % (2 * i + d), 8))

    def check(fin, c, g):
        if c.__dict__.get('ncall', 0) != 1:
            raise Problem('%d calls are made' % c.__dict__.get('ncall', 0))
        want = tuple(a.side for a in args if a.code)
        if c.trace != want:
            raise Problem('arguments evaluated in order %s' % (c.trace,))
        for i, a in enumerate(args):
            need_eq(c.args_at[i], SM.simp(a.value(S, cpu0, g), 16, g), 16, g, 'argument %d has the wrong value or place' % (i + 1))
        need_eq(c.bpcall, cpu0.r[BP], 16, g, 'BP changed before the call')
        kind, v, pos = c.called
        if fk in ('glob', 'globf'):
            if kind != 'rel':
                raise Problem('indirect call of a named function')
            if fk == 'glob':
                need_eq(B.vadd(v, ORG + pos, 16), target, 16, g, 'the call goes to another place')
            else:
                need_eq(v, target, 16, g, 'the call goes to another place')
        else:
            if kind != 'abs':
                raise Problem('direct call through a function pointer')
            fa = o.addr(S, cpu0)
            need_eq(v, initial(fa, 16, g), 16, g, 'the call goes to another place')
        if ret.bits == E['VT_VOID']:
            if fin.gi('CurrentType') != ret.bits:
                raise Problem('result type 0x%X' % fin.gi('CurrentType'))
            return []
        k, rv = C.result_value(S, fin, cpu0, c, g)
        need_eq(rv, promote(ret, B.sym('ret.AX', 16)), 16, g, 'the result is not the value the callee returned')
        want_type(S, fin, E['VT_INT'] if ret.size == 1 else ret.bits, ret.extra)
        return []
    return judge(S, fins, cpu0, case, check, on_call=on_call)
