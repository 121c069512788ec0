"""Job tables of the expression properties C06..C12."""
from vt.util import Report, finish
from . import c as C
from . import c2, c3, c5
from .ccommon import Machine, Operand, Case, T

TYS = ['int', 'uint', 'char', 'uchar']
K7 = C.K7


def unary_cases(full):
    cs = [Case(p, u, a, o) for p, u, o in ((0, 0, 'b'), (0, 1, 'c'), (1, 0, 'c'), (1, 1, 'c'), (0, 0, 'c'), (0, 1, 'b'), (1, 0, 'b')) for a in (0, 4, -8)]
    return cs if full else [x for i, x in enumerate(cs) if i % 4 in (0, 3)]


def C06(full):
    rep = Report('C06')
    CT = unary_cases(full)
    CC = (2, 3, 4, 5, 6, 7, 12, 13, 14, 15) if full else (4, 5, 12)
    jobs = []
    for op in ('-', '~', '+', '!'):
        for o in C.operands('R', K7, TYS, CC):
            if o.kind == 'bool' and op in '-~':
                continue
            jobs += [(op, o, c) for c in CT]
    for op in ('*', '!'):
        for o in C.operands('R', ['loc', 'loc+', 'loc-', 'locw', 'glob', 'globf', 'mem', 'rv'], C.PTRS, ()):
            jobs += [(op, o, c) for c in CT]
    LK = ['loc', 'loc+', 'loc-', 'locw', 'glob', 'globf', 'mem']
    for op in ('&', 'PLUSPLUS', 'MINUSMINUS'):
        for o in C.operands('R', LK, TYS + C.PTRS, ()):
            jobs += [(op, o, c) for c in CT]
    C.sweep(rep, c2.unstep, jobs)
    jobs = []
    for op in ('PLUSPLUS', 'MINUSMINUS'):
        for o in C.operands('R', LK, TYS + C.PTRS, ()):
            jobs += [(op, o, c) for c in C.contexts(o, full)]
    C.sweep(rep, c2.poststep, jobs)
    return finish(rep, 3000, C.CASSUME, C.CRULE)


def C07(full):
    rep = Report('C07')
    S = Machine(C.mod())
    E = S.E
    AT = c2.array_types(S)
    if not full:
        AT = AT[:5]
    bases = [Operand('L', k, t) for t in AT for k in ('loc', 'loc+', 'loc-', 'locw', 'glob', 'globf', 'mem')]
    bases += [Operand('L', k, C.TY(t)) for t in C.PTRS for k in ('loc', 'loc+', 'loc-', 'locw', 'glob', 'globf', 'mem', 'rv')]
    jobs = []
    for b in bases:
        for i in C.operands('R', ['lit0', 'lit', 'loc', 'globf', 'mem', 'rv'] if full else ['lit0', 'lit', 'loc', 'mem', 'rv'],
                            TYS if full else ['int', 'char', 'uchar'], ()):
            jobs += [('[]', b, i, c) for c in C.contexts(b, full)]
    C.sweep(rep, c2.idxstep, jobs)
    jobs = []
    for si in (2, 3):
        for sel in range(10):
            st = T('S%d' % si, E['VT_STRUCT'], 100, extra=si)
            pt = T('S%d*' % si, E['VT_STRUCT'] | E['VT_PTR1'], 2, True, extra=si)
            for k in ('loc', 'loc+', 'loc-', 'locw', 'glob', 'globf', 'mem'):
                o = Operand('L', k, st)
                jobs += [('.', si, sel, o, c) for c in C.contexts(o, full)]
            for k in ('loc', 'loc+', 'loc-', 'locw', 'glob', 'globf', 'mem', 'rv'):
                o = Operand('L', k, pt)
                jobs += [('->', si, sel, o, c) for c in C.contexts(o, full)]
    C.sweep(rep, c2.memstep, jobs)
    return finish(rep, 1500, C.CASSUME, C.CRULE)


def C08(full):
    rep = Report('C08')
    E = Machine(C.mod()).E
    VOID = T('void', E['VT_VOID'], 0)
    I = C.TY('int')
    lists = ([], ['lit'], ['rv'], ['bool'], ['mem', 'loc', 'lit', 'rv'], ['rv'] * 4, ['rv', 'lit', 'mem', 'loc', 'glob'],
             ['mem', 'rv', 'globf', 'lit', 'rv', 'bool', 'loc', 'rv', 'lit1'], ['lit'] * 8)
    if full:
        ks = ['lit', 'lit0', 'loc', 'glob', 'globf', 'mem', 'rv', 'bool']
        lists += tuple([a] for a in ks) + tuple([a, b] for a in ks for b in ks)
    jobs = []
    for fk in ('glob', 'globf', 'ploc', 'pglob', 'pmem'):
        for ret in (I, C.TY('uint'), C.TY('char'), C.TY('uchar'), C.TY('s6*'), VOID):
            for al in lists:
                args = [Operand('a%d' % i if k not in ('glob', 'globf') else 'R', k, I if k != 'mem' else C.TY('uchar'), 12 if k == 'bool' else None)
                        for i, k in enumerate(al)]
                if [a.side for a in args].count('R') > 1:
                    continue
                for c in [Case(), Case(pend=1, out='c'), Case(reguse=1, out='c'), Case(pend=1, reguse=1, out='c'), Case(adj=4),
                          Case(adj=-8, pend=1, out='c'), Case(spadj=8)]:
                    if fk == 'pmem' and c.pend:
                        continue
                    jobs.append(('call', fk, ret, tuple(args), c))
    C.sweep(rep, c2.callstep, jobs)
    return finish(rep, 1000, C.CASSUME + ['a called function preserves BP and SP and may change every other register and its argument slots'], C.CRULE)


def C09(full):
    rep = Report('C09')
    CT = unary_cases(full)
    jobs = []
    for t in TYS + C.PTRS:
        for o in C.operands('R', K7, TYS + C.PTRS, (4, 12)):
            jobs += [('cast', C.TY(t), o, c) for c in (CT if full else CT[::3])]
    C.sweep(rep, c2.caststep, jobs)
    jobs = []
    for o in C.operands('R', K7, TYS + C.PTRS, (4, 12)):
        jobs += [('paren', o, c) for c in CT]
    C.sweep(rep, c2.parenstep, jobs)
    # every binary operator in every surrounding state
    some = ['loc', 'mem', 'rv', 'lit']
    jobs = []
    for op in C.BIN + ['=', 'PLUSEQ', 'STAREQ', 'ANDAND', 'OROR', ',']:
        for l in C.operands('L', some, ['int'], ()):
            if l.kind == 'lit' and op in C.LOGIC + (',',) or op in list(C.ASG) + ['='] and l.kind in ('lit', 'rv'):
                continue
            for r in C.operands('R', some + ['bool'], ['int'], (12,)):
                if l.kind == 'lit' and r.kind == 'lit' or r.kind == 'bool' and op == 'STAREQ' or op in C.LOGIC and r.kind == 'lit':
                    continue
                jobs += [(op, l, r, c) for c in C.contexts(l, True)]
    C.sweep(rep, C.binstep, jobs)
    return finish(rep, 3000, C.CASSUME, C.CRULE)


class Fn(Operand):
    """A named function as a primary expression."""

    def __init__(self, t):
        Operand.__init__(self, 'Lf', 'fn', t)

    def declare(self, S, st):
        E = S.E
        S.setfield(st, 'VarDecls', S.G['Lf'], 'VarDecl', 'Type', self.t.bits | E['VT_FUN'] | E['VT_LOCGLOB'])
        S.setfield(st, 'VarDecls', S.G['Lf'], 'VarDecl', 'TypeExtra', self.t.extra)
        S.cur(st, self.t.bits | E['VT_FUN'] | E['VT_LVAL'] | E['VT_LOCGLOB'], S.G['Lf'], self.t.extra)


def dead_jobs(full):
    S = Machine(C.mod())
    E = S.E
    AT = c2.array_types(S)
    I = C.TY('int')

    def V(s, t='int', k='loc'):
        return Operand(s, k, C.TY(t), 12 if k == 'bool' else None)
    CT = [Case(), Case(pend=1, out='c'), Case(reguse=1, out='c'), Case(pend=1, reguse=1, adj=4, out='c'), Case(adj=-8), Case(lo=0)]
    jobs = []

    def add(toks, size):
        for c in CT:
            jobs.append(('sizeof', toks, size, c))
    kinds = ('loc', 'glob', 'globf', 'mem')
    for k in kinds:
        for t in TYS + C.PTRS:
            add([V('L', t, k)], C.TY(t).size)
        for t in AT:
            add([Operand('L', k, t)], t.size)
            add([Operand('L', k, t), '[', V('R'), ']'], S.arrays()[t.extra][3])
            add([Operand('L', k, t), '[', V('R', k='mem'), '+', V('c', k='mem'), ']'], S.arrays()[t.extra][3])
    for k in kinds:
        for t in ('int', 'char', 'uchar', 'char*', 's6*'):
            add([Operand('L', k, T('%s(*)()' % t, C.TY(t).bits | E['VT_FUNPTR'], 2, extra=C.TY(t).extra))], 2)
        add([Operand('L', k, T('void(*)()', E['VT_VOID'] | E['VT_FUNPTR'], 2))], 2)
        for x, n in ((0, 4), (1, 6), (2, sum(m[2] for m in S.members()[0][1])), (3, max(m[2] for m in S.members()[1][1]))):
            add([Operand('L', k, T('struct%d' % x, E['VT_STRUCT'], n, extra=x))], n)
    simple = ('loc', 'globf', 'mem', 'lit', 'rv', 'bool')
    for op in c3.BINPREC:
        if op in ('?', ','):
            continue
        for k in simple:
            if c3.BINPREC[op] == 1 and k in ('lit', 'rv', 'bool'):
                continue
            for k2 in simple if full else ('loc', 'mem', 'lit'):
                if k in ('lit',) and k2 in ('lit',):
                    continue
                if op == ',' and k2 == 'bool' or k2 == 'bool' and c3.BINPREC[op] == 1 and op != '=':
                    continue
                add([V('L', 'int', k), op, V('R', 'int', k2)], 2)
    for k in simple:
        for k2 in ('loc', 'mem', 'lit'):
            if k != 'lit':
                add([V('L', 'int', k), '?', V('R', 'int', k2), ':', V('c', 'int', 'mem')], 2)
        for u in ('-', '~', '!', '+'):
            if k == 'bool' and u in '-~' or k == 'lit':
                continue
            add([u, V('L', 'int', k)], 2)
    for k in kinds:
        for u in ('++', '--'):
            add([u, V('L', 'int', k)], 2)
            add([V('L', 'int', k), u], 2)
        add(['&', V('L', 'char', k)], 2)
        add(['*', V('L', 'char*', k)], 1)
        add(['*', V('L', 'int*', k)], 2)
        add(['*', V('L', 's6*', k)], 6)
    for r in ('int', 'char*', 'uint'):
        f = Fn(C.TY(r))
        add([f, '(', ')'], 2)
        for al in (['lit'], ['mem'], ['loc', 'rv'], ['rv'] * 4, ['mem', 'lit', 'loc', 'rv', 'bool']):
            toks = [f, '(']
            for i, k in enumerate(al):
                toks += ([','] if i else []) + [V('a%d' % i, 'int', k)]
            add(toks + [')'], 2)
    return jobs


def C10(full):
    rep = Report('C10')
    C.sweep(rep, c3.deadstep, dead_jobs(full))
    return finish(rep, 1000, C.CASSUME, 'parsing an unevaluated operand emits nothing, leaves the code generator\'s bookkeeping as it was and yields the size of the operand\'s type')


def C12(full):
    rep = Report('C12')
    ops = [o for o in c3.BINPREC if o != '?']
    P = c3.BINPREC
    a, b, c, d = [Operand(x, 'loc', C.TY('int')) for x in 'abcd']
    jobs = []

    def add(*t):
        jobs.append(('expression', list(t), Case()))
    slow = set() if full else {('*', '<<'), ('*', '>>'), ('<<=', '>>='), ('<<=', '>>'), ('>>=', '>>='), ('>>=', '>>')}
    for o1 in ops:
        add(a, o1, b)
        for o2 in ops:
            if P[o2] == 1 and P[o1] > 1 or (o1, o2) in slow:
                continue
            if o1 in ('*=', '/=', '%=', '<<=', '>>=') and o2 in ('||', '&&', '==', '!=', '<', '>', '<=', '>='):
                continue
            add(a, o1, b, o2, c)
    for o in ops:
        if P[o] != 1:
            add(a, o, b, '?', c, ':', d)
            add(a, '?', b, ':', c, o, d)
            if o != ',':
                add(a, '?', b, o, c, ':', d)
    add(a, '?', b, ':', c, '?', d, ':', a)
    add(a, '=', b, '?', c, ':', d)
    for u in ('-', '~', '!', '+', '++', '--'):
        for o in ops:
            if P[o] != 1:
                add(u, a, o, b)
                add(a, o, u, b)
            if u in ('++', '--') and P[o] != 1:
                add(a, u, o, b)
    C.sweep(rep, c3.exprstep, jobs)
    return finish(rep, 1000, C.CASSUME, 'the code generated for the token sequence computes the value of the tree the C grammar gives it')


def C14(full):
    rep = Report('C14')
    c5.runjobs(rep, c5.fnstep, c5.stmt_jobs(full))
    rep.functions |= {f for f in ('ParseStatement', 'DoLoopStatements', 'EnsureSwitchStmt', 'DoCond', 'EmitJmp', 'EmitJcc', 'EmitLocalLabel', 'DoFixups', 'EmitLocalJump') if f in C.mod().funcs}
    return finish(rep, 50000, C.CASSUME + ['Output is zero-initialised'], 'the marker graph of the emitted code is bisimilar to the control-flow graph of the C statement; SP and the frame agree at every marker')


def C15(full):
    rep = Report('C15')
    c5.runjobs(rep, c5.fnstep, c5.fn_jobs(full))
    rep.functions |= {f for f in ('ParseExternalDefition', 'ParseDeclarator', 'ParseDeclSpecs', 'AddVarDecl', 'PushScope', 'PopScope', 'ParseStatement', 'EmitGlobalLabel') if f in C.mod().funcs}
    return finish(rep, 5000, C.CASSUME + ['Output is zero-initialised'], 'frame, parameters, variables, return value and the state left behind, at every marker of the emitted function')


def C11(full):
    from . import c6
    rep = Report('C11')
    c5.runjobs(rep, c6.anystep, c6.lex_jobs(full), lambda j: j[1])
    rep.functions |= {f for f in ('GetToken', 'SkipWhitespace', 'NextChar', 'GetNum', 'Unescape', 'GetStringLiteral', 'AddBuiltins') if f in C.mod().funcs}
    return finish(rep, 1000, C.CASSUME[:1], 'the token, its value, its precedence and where scanning stops are those of the longest C token, for every division of the input into reads')


def C17(full):
    from . import c7
    rep = Report('C17')
    c5.runjobs(rep, c7.declstep, c7.decl_jobs(full), lambda j: j[0])
    rep.functions |= {f for f in ('ParseDeclSpecs', 'ParseDeclarator', 'ParseFirstDecl', 'ParseExternalDefition', 'AddVarDecl', 'AddVarDeclScope', 'SizeofType', 'EmitGlobalLabel') if f in C.mod().funcs}
    return finish(rep, 5000, C.CASSUME[:1], 'the declared type, size, storage and initial value of every name are those the C declaration gives it')
