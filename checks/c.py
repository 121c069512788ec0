"""Properties of the C compiler scc.c."""
import os
import time
from vt import bdd as B
from vt import sccmodel as SM
from vt import x86, util
from vt.util import REPO, Report, finish, pmap
from vt.ir import AnalysisBroken
from .ccommon import (Machine, Operand, Case, Problem, T, types, promote, produce, on_mark, pre_machine, need, need_eq,
                      context_ok, only_writes, zf_ok, interpret, initial, same, BadCode, ORG, AX, BX, CX, DX, SP, BP, SI, DI)

_mod = [None]
REFUSED = 'always refused'


def mod():
    if _mod[0] is None:
        _mod[0] = SM.module(os.path.join(REPO, 'scc.c'))
        from . import c6
        try:
            SM.PRECS.update(c6.precedences())
        except (c6.Overrun, SM.AnalysisBroken):
            pass        # reported where a precedence is needed, and by C11
    return _mod[0]


BIN = ['+', '-', '*', '/', '%', '&', '^', '|', 'LSH', 'RSH', '<', 'LTEQ', '>', 'GTEQ', 'EQEQ', 'NOTEQ']
ASG = {'PLUSEQ': '+', 'MINUSEQ': '-', 'STAREQ': '*', 'SLASHEQ': '/', 'MODEQ': '%', 'LSHEQ': 'LSH', 'RSHEQ': 'RSH',
       'ANDEQ': '&', 'XOREQ': '^', 'OREQ': '|'}
LOGIC = ('ANDAND', 'OROR')
CMP = {'<': 'L', 'LTEQ': 'NG', '>': 'G', 'GTEQ': 'NL', 'EQEQ': 'Z', 'NOTEQ': 'NZ'}


def tok(S, op):
    return ord(op) if len(op) == 1 else S.E['TOK_' + op]


def is_uint(t):
    return t.unsigned and (t.size == 2 or t.array)


def c_value(op, lt, l, rt, r):
    """(is_bool, value, precondition) of `l op r` on promoted operands."""
    uns = is_uint(lt) or is_uint(rt)
    pre = 1
    if op in CMP:
        c = x86.CPU()
        c.subf(l, r, 0, 16)
        f = c.f
        lt_ = f['C'] if uns else B.bxor(f['S'], f['O'])
        eq = f['Z']
        return True, {'<': lt_, 'GTEQ': lt_ ^ 1, 'EQEQ': eq, 'NOTEQ': eq ^ 1,
                      'LTEQ': B.bor(lt_, eq), '>': B.bor(lt_, eq) ^ 1}[op], pre
    if op == '+' and rt.pointee and not lt.pointee:
        return False, B.vadd(B.vmul(l, rt.pointee, 16), r, 16), pre
    ls = lt.pointee or 1
    if op in '+-' and lt.pointee:
        if rt.pointee:
            d = B.vsub(l, r, 16)
            if ls > 1:
                q = B.vtrunc(B.vdivrem('sdiv', B.vsext(d, 16, 32), ls, 32), 16)
                # pointers into one array differ by a multiple of the element size
                pre = B.veq(B.vmul(q, ls, 16), d, 16) if ls & (ls - 1) == 0 else 1
                if ls & (ls - 1) == 0:
                    sh = ls.bit_length() - 1
                    q = B.vashr_const(d, sh, 16)
                    pre = 1
                    for i in range(sh):
                        pre = B.band(pre, B.bits(d, 16)[i] ^ 1)
                return False, q, pre
            return False, d, pre
        k = B.vmul(r, ls, 16)
        return False, (B.vadd if op == '+' else B.vsub)(l, k, 16), pre
    if op == '+':
        return False, B.vadd(l, r, 16), pre
    if op == '-':
        return False, B.vsub(l, r, 16), pre
    if op == '*':
        return False, B.vmul(l, r, 16), pre
    if op in '/%':
        pre = B.veq(r, 0, 16) ^ 1
        k = ('udiv' if op == '/' else 'urem') if uns else ('sdiv' if op == '/' else 'srem')
        e = B.vzext if uns else B.vsext
        return False, B.vtrunc(B.vdivrem(k, e(l, 16, 32), e(r, 16, 32), 32), 16), pre
    if op == '&':
        return False, B.vand(l, r, 16), pre
    if op == '^':
        return False, B.vxor(l, r, 16), pre
    if op == '|':
        return False, B.vor(l, r, 16), pre
    pre = 1
    for b in B.bits(r, 16)[4:]:
        pre = B.band(pre, b ^ 1)
    if op == 'LSH':
        return False, B.vshift(l, B.vtrunc(r, 8), 16, 'shl'), pre
    return False, B.vshift(l, B.vtrunc(r, 8), 16, 'lshr' if is_uint(lt) else 'ashr'), pre


def result_value(S, fin, cpu0, c, g, lhs_addr=None, lhs_t=None):
    """('bool'|'val', value) the compiler's state says the step produced."""
    E = S.E
    ty = fin.gi('CurrentType')
    if ty == E['VT_BOOL']:
        if fin.gi('Pending'):
            raise Problem('a condition is left in the flags with stack work pending')
        cc = fin.gi('CurrentVal')
        if not 0 <= cc < 16:
            raise Problem('condition code %d' % cc)
        try:
            return 'bool', c.cond(cc)
        except x86.UndefFlag:
            raise Problem('the condition uses a flag the instruction leaves undefined')
    loc = ty & E['VT_LOCMASK']
    if loc == E['VT_LOCLIT']:
        return 'val', B.vtrunc(fin.g('CurrentVal'), 16)
    if loc == 0:
        if ty & E['VT_LVAL']:
            if lhs_addr is None:
                raise Problem('an lvalue results')
            need_eq(c.r[AX], lhs_addr, 16, g, 'the resulting lvalue is not the assigned object')
            c.guard = g
            v = c.read(x86.DS, lhs_addr, 8 * lhs_t.size)
            return 'val', promote(lhs_t, v)
        return 'val', c.r[AX]
    # lvalue at a known place
    if not ty & E['VT_LVAL'] or lhs_addr is None:
        raise Problem('unexpected result description 0x%X' % ty)
    v = fin.g('CurrentVal')
    if loc == E['VT_LOCOFF']:
        a = B.vadd(cpu0.r[BP], B.vtrunc(v, 16), 16)
    else:
        i = fin.gi('CurrentVal')
        a = next((S.gaddr(k) for k, x in S.G.items() if x == i), None)
        if a is None:
            raise Problem('result is an unknown global')
    need_eq(a, lhs_addr, 16, g, 'the resulting lvalue is not the assigned object')
    c.guard = g
    return 'val', promote(lhs_t, c.read(x86.DS, a, 8 * lhs_t.size))


def result_type(S, fin, op, lhs, rhs):
    """The type of the result decides how it is used next."""
    E = S.E
    lt, rt = lhs.t, rhs.t
    if op == '+' and rt.pointee:
        lt, rt = rt, lt
    ty, ex = fin.gi('CurrentType'), fin.gi('CurrentTypeExtra')
    if lt.pointee and not rt.pointee:
        if ty & ~E['VT_LOCMASK'] != lt.rbits or ty & E['VT_LOCMASK'] or lt.rbits & E['VT_BASEMASK'] in (E['VT_STRUCT'], E['VT_ARRAY']) and ex != lt.rextra:
            raise Problem('result type 0x%X (%d), pointer type 0x%X (%d) expected' % (ty, ex, lt.rbits, lt.rextra))
        return
    uns = is_uint(lt) if op in ('LSH', 'RSH') else is_uint(lt) or is_uint(rt)
    if lt.pointee:
        uns = False
    want = E['VT_INT'] | (E['VT_UNSIGNED'] if uns else 0)
    if ty == E['VT_BOOL'] or ty & ~(E['VT_LOCMASK'] | E['VT_LVAL']) != want or ty & E['VT_LVAL']:
        raise Problem('result type 0x%X, 0x%X expected' % (ty, want))


def paths(S, fin, cpu0):
    code = fin.code()
    sub = S.fixups(fin)
    try:
        return code, sub, interpret(code, cpu0.fork(), fin.guard, S.marks, sub, on_mark)
    except x86.UndefFlag:
        raise BadCode('branches on an undefined flag')


def binstep(job):
    """Analyse ParseExpr1 for one operator and operand contract."""
    op, lhs, rhs, case = job
    B.reset()
    SM.CANON.clear()
    S = Machine(mod())
    ex = S.ex
    st = S.start(pending=case.pend | (case.adj & 0xffffffff), reguse=case.reguse, localoffset=case.lo)
    cpu0 = pre_machine(case, lhs)
    if case.pend:
        cpu0.r[AX] = B.sym('in.AX', 16)
    lhs.declare(S, st)
    S.set_token(st, (tok(S, op),))
    asg = ASG.get(op)
    bop = asg or op

    def operand(ex, st, a, inst):
        S.set_token(st, (ord(';'),))
        return produce(S, ex, st, rhs, case.out, case.spadj)
    ex.hooks['ParseCastExpression'] = operand
    fins = S.run('ParseExpr1', st, [S.E['PREC_COMMA']])
    if not fins:
        return 0, [REFUSED]
    bad = []
    n = 0
    exempt = B.veq(rhs.value(S, cpu0), 0, 16) if bop in ('/', '%') and rhs.kind[:3] == 'lit' else 0
    for f in S.fatal:
        if B.band(f.guard, exempt ^ 1):
            bad.append('refused for some operand values')
    for fin in fins:
        code, sub = fin.code(), {}
        try:
            if fin.gi('IsDeadCode'):
                raise Problem('code after the expression is considered dead')
            code, sub, ps = paths(S, fin, cpu0)
            for p in ps:
                c, g = p.cpu, p.guard
                c.guard = g
                if p.pos != len(code):
                    raise Problem('jumps out of the emitted code')
                la, lt = lhs.addr(S, cpu0), lhs.t
                lv, rv = SM.simp(lhs.value(S, cpu0, g), 16, g), SM.simp(rhs.value(S, cpu0, g), 16, g)
                if op == ',':
                    isb, val, pre = False, rv, 1
                elif op in LOGIC:
                    lb, rb = (B.veq(v, 0, 16) ^ 1 for v in (lv, rv))
                    isb, val, pre = True, (B.band if op == 'ANDAND' else B.bor)(lb, rb), 1
                    # the right operand is evaluated exactly when the left one does not decide
                    skip = lb ^ (op == 'ANDAND')
                    if rhs.code:
                        need(skip ^ 1 if c.trace else skip, g, 'the right operand is %sevaluated' % ('' if c.trace else 'not '))
                elif op == '=':
                    isb, val, pre = False, rv, 1
                else:
                    # pointer operands only take + - and comparisons
                    pre = c_value(bop, lhs.t, lv, rhs.t, rv)[2]
                    g2 = B.band(g, pre)
                    isb, val, _ = c_value(bop, lhs.t, SM.simp(lv, 16, g2), rhs.t, SM.simp(rv, 16, g2))
                    if bop in ('/', '%') and lhs.kind == rhs.kind == 'lit':
                        val = B.vtrunc(B.vdivrem('sdiv' if bop == '/' else 'srem', B.vsext(lhs.lit(), 17, 32), B.vsext(rhs.lit(), 17, 32), 32), 16)
                g = B.band(g, pre)
                if bop in ('/', '%', 'RSH', '<', '>', 'LTEQ', 'GTEQ'):
                    # the meaning of out-of-range literals is not claimed here
                    for o in (lhs, rhs):
                        if o.kind == 'lit':
                            b = o.lit()
                            g = B.band(g, B.bxor(b[16], b[15]) ^ 1)
                if not g:
                    continue
                c.guard = g
                n += 1
                allowed = []
                if op not in LOGIC and c.trace != ((rhs.side,) if rhs.code else ()):
                    raise Problem('the right operand is evaluated %d times' % len(c.trace))
                if op == '=' or asg:
                    c.guard = g
                    stored = c.read(x86.DS, la, 8 * lt.size)
                    need_eq(stored, B.vtrunc(val, 8 * lt.size), 8 * lt.size, g, 'wrong value stored')
                    allowed = [la] + ([B.vadd(la, 1, 16)] if lt.size == 2 else [])
                    k, v = result_value(S, fin, cpu0, c, g, la, lt)
                    if k == 'bool':
                        v = B.norm((v,) + (0,) * 15)
                    need_eq(v, promote(lt, val), 16, g, 'wrong value of the assignment expression')
                else:
                    ra = rhs.addr(S, cpu0) if op == ',' else None
                    k, v = result_value(S, fin, cpu0, c, g, ra, rhs.t)
                    if k == 'bool':
                        v = B.norm((v,) + (0,) * 15)
                    if isb:
                        val = B.norm((val,) + (0,) * 15)
                    need_eq(v, val, 16, g, 'wrong value')
                    if op != ',' and not isb:
                        result_type(S, fin, bop, lhs, rhs)
                context_ok(S, fin, case, cpu0, c, g)
                only_writes(case, cpu0, c, g, allowed)
                ty = fin.gi('CurrentType')
                zf_ok(S, fin, c, g, not ty & (S.E['VT_LVAL'] | S.E['VT_LOCMASK']) and ty != S.E['VT_BOOL'])
        except (Problem, BadCode) as e:
            bad.append('%s  {%s}' % (e, SM.dis(code, sub)))
    return n, bad


def value_of(S, fin, cpu0, c, g, ops):
    """Result as a 16-bit value, whatever its description; lvalues are read
    through the address the compiler left."""
    E = S.E
    ty = fin.gi('CurrentType')
    if ty != E['VT_BOOL'] and ty & E['VT_LVAL']:
        loc = ty & E['VT_LOCMASK']
        if loc == 0:
            a = c.r[AX]
        elif loc == E['VT_LOCOFF']:
            a = B.vadd(cpu0.r[BP], B.vtrunc(fin.g('CurrentVal'), 16), 16)
        elif loc == E['VT_LOCGLOB']:
            i = fin.gi('CurrentVal')
            k = next((k for k, x in S.G.items() if x == i), None)
            if k is None:
                raise Problem('result is an unknown global')
            a = S.gaddr(k)
        else:
            raise Problem('result lvalue 0x%X' % ty)
        c.guard = g
        base = ty & (E['VT_BASEMASK'] | E['VT_PTRMASK'])
        if base == E['VT_CHAR']:
            v = c.read(x86.DS, a, 8)
            return (B.vzext if ty & E['VT_UNSIGNED'] else B.vsext)(v, 8, 16)
        return c.read(x86.DS, a, 16)
    k, v = result_value(S, fin, cpu0, c, g)
    return B.norm((v,) + (0,) * 15) if k == 'bool' else v


def condstep(job):
    """cond ? t : f."""
    cond, t, f, case = job
    B.reset()
    SM.CANON.clear()
    S = Machine(mod())
    ex = S.ex
    st = S.start(pending=case.pend | (case.adj & 0xffffffff), reguse=case.reguse, localoffset=case.lo)
    cpu0 = pre_machine(case, cond)
    if case.pend:
        cpu0.r[AX] = B.sym('in.AX', 16)
    cond.declare(S, st)
    S.set_token(st, (ord('?'),))

    def operand(ex, st, a, inst):
        k = st.ghost.get('arm', 0)
        st.ghost['arm'] = k + 1
        S.set_token(st, (ord(':' if k == 0 else ';'),))
        return produce(S, ex, st, f if k else t, case.out, case.spadj)
    ex.hooks['ParseAssignmentExpression'] = operand
    fins = S.run('ParseExpr1', st, [S.E['PREC_COMMA']])
    if not fins:
        return 0, [REFUSED]
    bad = []
    n = 0
    if S.fatal:
        bad.append('refused for some operand values')
    for fin in fins:
        code, sub = fin.code(), {}
        try:
            if fin.gi('IsDeadCode'):
                raise Problem('code after the expression is considered dead')
            code, sub, ps = paths(S, fin, cpu0)
            for p in ps:
                c, g = p.cpu, p.guard
                c.guard = g
                if p.pos != len(code):
                    raise Problem('jumps out of the emitted code')
                cv = B.veq(cond.value(S, cpu0, g), 0, 16) ^ 1
                for arm, want in ((t, cv), (f, cv ^ 1)):
                    ga = B.band(g, want)
                    if not ga:
                        continue
                    n += 1
                    if arm.code and arm.side not in c.trace:
                        raise Problem('the selected operand is not evaluated')
                    if any(x != arm.side for x in c.trace):
                        raise Problem('the operand that is not selected is evaluated')
                    c.guard = ga
                    ty = fin.gi('CurrentType')
                    if (ty & (S.E['VT_BASEMASK'] | S.E['VT_PTRMASK'])) == S.E['VT_STRUCT'] and ty & S.E['VT_LVAL']:
                        need_eq(c.r[AX], arm.addr(S, cpu0), 16, ga, 'wrong object')
                    else:
                        need_eq(value_of(S, fin, cpu0, c, ga, (t, f)), arm.value(S, cpu0, ga), 16, ga, 'wrong value')
                        if cond.kind[:3] == 'lit':
                            ty = -1
                        need_uns = is_uint(t.t) or is_uint(f.t)
                        if ty != -1 and not t.t.pointee and not f.t.pointee and ty != S.E['VT_BOOL']:
                            base = ty & (S.E['VT_BASEMASK'] | S.E['VT_PTRMASK'])
                            if base == S.E['VT_INT'] and bool(ty & S.E['VT_UNSIGNED']) != need_uns or base not in (S.E['VT_INT'], S.E['VT_CHAR']):
                                raise Problem('result type 0x%X' % ty)
                        if ty != -1 and (t.t.pointee or f.t.pointee):
                            if ty & ~(S.E['VT_LVAL'] | S.E['VT_LOCMASK']) != (t.t if t.t.pointee else f.t).bits:
                                raise Problem('result type 0x%X is not the pointer type' % ty)
                    context_ok(S, fin, case, cpu0, c, ga)
                    only_writes(case, cpu0, c, ga, [])
                    ty = fin.gi('CurrentType')
                    zf_ok(S, fin, c, ga, not ty & (S.E['VT_LVAL'] | S.E['VT_LOCMASK']) and ty != S.E['VT_BOOL'])
        except (Problem, BadCode) as e:
            bad.append('%s  {%s}' % (e, SM.dis(code, sub)))
    return n, bad


# ------------------------------------------------------------- job tables
TYS = {}


def TY(name):
    if not TYS:
        TYS.update(types(Machine(mod()).E))
    return TYS[name]


CODE = ('mem', 'rv', 'bool')
ARITH = ['+', '-', '*', '/', '%', '&', '^', '|', 'LSH', 'RSH']
INTS = ['int', 'uint', 'char', 'uchar']


def operands(side, kinds, ts, ccs):
    for k in kinds:
        for t in ts:
            if k in ('lit', 'lit0', 'lit1') and t != 'int':
                continue
            if k == 'rv' and TY(t).size != 2:
                continue
            if k == 'bool':
                if t == 'int':
                    for cc in ccs:
                        yield Operand(side, k, TY(t), cc)
                continue
            yield Operand(side, k, TY(t))


def contexts(op, full=False):
    if op.code:
        cs = [Case(), Case(reguse=1, out='c')]
        if full:
            cs += [Case(out='c'), Case(reguse=1), Case(adj=4), Case(adj=-8, reguse=1, out='c'), Case(spadj=8)]
    else:
        cs = [Case(), Case(pend=1, out='c')]
        if full:
            cs += [Case(pend=1, reguse=1, out='c'), Case(reguse=1), Case(adj=4, pend=1), Case(adj=-8), Case(spadj=8), Case(lo=0), Case(lo=-200), Case(lo=-131)]
    return cs


def opkey(op):
    return op


def describe(job):
    if isinstance(job[1], list):
        return '%s %s' % (job[0], ' '.join(t if isinstance(t, str) else repr(t) for t in job[1])), job[-1]
    op = job[0] if isinstance(job[0], str) else '?:'
    ops = [x for x in job if isinstance(x, Operand)]
    return '%s %s' % (op, ' , '.join(repr(o) for o in ops)), job[-1]


def _run(ch):
    fn, jobs = ch
    out = []
    for j in jobs:
        ok, r = util.guard(fn, j, '%s %r' % (describe(j)[0], j[-1]))
        out.append((j, ok, r))
    return out


def sweep(rep, fn, jobs, refused=None, procs=None):
    """Analyse every job; a refused one counts only where that is documented."""
    jobs = list(jobs)
    mod()
    TY('int')
    N = 96
    for ch in pmap(_run, [(fn, jobs[i::N]) for i in range(N) if jobs[i::N]], procs):
        for j, ok, r in ch:
            if not util.note(ok, r):
                continue
            n, bad = r
            name, case = describe(j)
            if bad == [REFUSED]:
                if refused is None or not refused(j):
                    rep.bad('%s:refused' % name, '%s [context %r] is refused by the compiler' % (name, case))
                continue
            if not bad:
                rep.ok(max(n, 1), '%s [context %r]: %d ways through the emitted code' % (name, case, n))
            for b in bad:
                rep.bad('%s:%s' % (name, b.split(' (')[0].split('  {')[0]), '%s [context %r]: %s' % (name, case, b[:600]))
    for f in ('ParseExpr1', 'DoBinOp', 'DoRhsConstBinOp', 'DoRhsLvalBinOp', 'LvalToRval', 'GetVal', 'GetStoredVal', 'EmitModrm', 'Output1Byte', 'EmitChecks'):
        if f in mod().funcs:
            rep.functions.add(f)


def binjobs(ops, lk, lt, rk, rt, full, lcc=(4,), rcc=(12,), skip=None):
    for op in ops:
        for l in operands('L', lk, lt, lcc):
            if (op in ASG or op == '=') and (l.kind[:3] == 'lit' or l.kind in ('rv', 'bool')):
                continue
            for r in operands('R', rk, rt, rcc):
                if skip and skip(op, l, r):
                    continue
                for c in contexts(l, full):
                    yield op, l, r, c


K7 = ['lit', 'loc', 'glob', 'globf', 'mem', 'rv', 'bool']
CRULE = ('the code generated for the construct, interpreted over symbolic registers and memory, leaves exactly the C value; '
         'operand kinds, types and surrounding register/stack states are enumerated, operand values are symbolic')
CASSUME = ['operands obey the parser contract established by C01-C09 (value in AX / lvalue address in AX / frame, global or constant description)',
           'distinct objects do not overlap unless their addresses are provably equal']


def refuse_lit(j):
    op, l, r, c = j
    return op in CMP and l.kind == 'lit' and r.kind == 'lit'


def C01(full):
    rep = Report('C01')
    fk = ['loc+', 'loc-', 'locw'] if full else []
    sweep(rep, binstep, binjobs(ARITH, K7 + fk, INTS, K7 + fk, INTS, full))
    return finish(rep, 5000, CASSUME, CRULE)


def C02(full):
    rep = Report('C02')
    fk = ['loc+', 'loc-', 'locw'] if full else []
    sweep(rep, binstep, binjobs(list(CMP), K7 + fk, INTS, K7 + fk, INTS, full, lcc=(4,) if not full else (2, 3, 4, 5, 6, 7, 12, 13, 14, 15)), refuse_lit)
    return finish(rep, 3000, CASSUME, CRULE)


def struct_jobs(full):
    S = Machine(mod())
    E = S.E
    kinds = ('loc', 'glob', 'globf', 'mem', 'loc+', 'loc-', 'locw')
    sizes = {0: 4, 1: 6, 2: sum(m[2] for m in S.members()[0][1]), 3: max(m[2] for m in S.members()[1][1])}
    CT = [Case(), Case(pend=1, out='c'), Case(reguse=1, out='c'), Case(pend=1, reguse=1, adj=4), Case(adj=-8), Case(lo=0), Case(reguse=1, adj=2), Case(out='c', spadj=2)]
    jobs = []
    for x, n in sizes.items():
        t = T('struct%d' % x, E['VT_STRUCT'], n, extra=x)
        for i, a in enumerate(kinds):
            for j, b in enumerate(kinds):
                for c in CT if full or (i + j + x) % 3 == 0 else CT[:1] + [CT[1 + (i + j) % 7]]:
                    jobs.append(('struct', [Operand('L', a, t), '=', Operand('R', b, t)], c))
                for k in ('loc', 'mem', 'locw'):
                    if full or (i + j + x) % 4 == 0:
                        jobs.append(('struct', [Operand('L', a, t), '=', Operand('M', k, t), '=', Operand('R', b, t)], CT[(i + j) % 8]))
    return jobs


def C03(full):
    rep = Report('C03')
    LK = ['loc', 'glob', 'globf', 'mem'] + (['loc+', 'loc-', 'locw'] if full else [])

    def refused(j):
        op, l, r, c = j
        return r.kind == 'bool' and op != '=' and (l.t.size == 1 or ASG[op] not in '+-&^|')
    sweep(rep, binstep, binjobs(['='] + list(ASG), LK, INTS, K7, INTS, full), refused)
    if not full:
        sweep(rep, binstep, [j for j in binjobs(['=', 'PLUSEQ', 'XOREQ', 'RSHEQ'], ['loc+', 'loc-', 'locw'], ['int', 'char'], ['lit', 'mem'], ['int'], full)], refused)
        sweep(rep, binstep, [j for j in binjobs(['=', 'MINUSEQ'], ['loc'], ['int'], ['loc+', 'loc-', 'locw'], ['int', 'uchar'], full)], refused)
    from . import c3
    sweep(rep, c3.structstep, struct_jobs(full))
    return finish(rep, 3000, CASSUME, CRULE)


PTRS = ['char*', 'int*', 'char**', 's4*', 's6*']


def C04(full):
    rep = Report('C04')
    PK = ['loc', 'glob', 'globf', 'mem', 'rv'] + (['loc+', 'loc-', 'locw'] if full else [])
    jobs = []
    for p in PTRS:
        jobs += binjobs(['+', '-', 'PLUSEQ', 'MINUSEQ'], PK, [p], K7, INTS, full,
                        skip=lambda op, l, r: r.kind == 'bool')
        jobs += binjobs(['+'], ['lit', 'loc', 'globf', 'mem', 'rv'], INTS, PK, [p], full)
        jobs += binjobs(['-', '='] + list(CMP), PK, [p], PK, [p], full)
        jobs += binjobs(['=', 'EQEQ', 'NOTEQ'], PK, [p], ['lit0'], ['int'], full)
    from .c2 import array_types
    AK = ['loc', 'globf', 'mem']
    for t in array_types(Machine(mod())):
        if not full and t.extra in (4, 5, 6):
            continue
        TYS[t.name] = t
        jobs += binjobs(['+', '-'], AK, [t.name], ['lit', 'loc', 'mem', 'rv'], ['int'], full)
        jobs += binjobs(['+'], ['lit', 'loc', 'mem', 'rv'], ['int'], AK, [t.name], full)
        p = next((p for p in PTRS if (TY(p).bits, TY(p).extra) == (t.rbits, t.rextra)), None)
        if p:
            jobs += binjobs(['-'] + list(CMP), AK, [t.name], ['loc', 'mem', 'rv'], [p], full)
            jobs += binjobs(['-', '='] + list(CMP), ['loc', 'mem', 'rv'], [p], AK, [t.name], full)
            jobs += binjobs(['-'] + list(CMP), AK, [t.name], AK, [t.name], full)
    sweep(rep, binstep, jobs)
    return finish(rep, 1500, CASSUME, CRULE)


def C05(full):
    rep = Report('C05')
    T2 = ['int', 'uint', 'char', 'uchar', 'char*', 's6*']
    CC = (2, 3, 4, 5, 6, 7, 12, 13, 14, 15)
    LT = ['loc', 'glob', 'globf', 'mem', 'rv', 'bool']
    RT = LT + ['lit0', 'lit1']
    jobs = []
    for lcc, rcc in zip(CC, CC[3:] + CC[:3]) if full else ((4, 5), (12, 12), (3, 3), (5, 4), (14, 7)):
        jobs += binjobs(list(LOGIC), LT, ['int', 'char', 'char*'] if not full else T2, RT, ['int', 'char', 'char*'] if not full else T2, full, (lcc,), (rcc,))
    jobs += binjobs([','], LT + ['lit0', 'lit1'], T2, RT, T2, full)
    sweep(rep, binstep, jobs)
    jobs = []
    for ck in ['lit0', 'lit1', 'loc', 'globf', 'mem', 'rv', 'bool']:
        for c in operands('L', [ck], ['int'], (4,) if not full else CC):
            for a, b in COND_TYPES:
                for t in operands('T', ['lit0', 'lit1', 'loc', 'mem', 'rv', 'bool'], [a], (12,)):
                    for f in operands('R', ['lit0', 'lit1', 'loc', 'globf', 'mem', 'rv', 'bool'], [b], (13,)):
                        for cs in contexts(c, full):
                            jobs.append((c, t, f, cs))
    sweep(rep, condstep, jobs)
    return finish(rep, 5000, CASSUME, CRULE)


COND_TYPES = [('int', 'int'), ('char', 'char'), ('uchar', 'char'), ('char', 'uchar'), ('int', 'char'), ('char', 'int'), ('uint', 'int'),
              ('int', 'uint'), ('uint', 'uint'), ('char*', 'char*'), ('int*', 'int*'), ('s4*', 's4*'), ('uchar', 'int'), ('char', 'uint')]


def __getattr__(name):
    from . import c4
    return getattr(c4, name)
