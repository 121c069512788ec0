"""Labels, data, expressions and files of the assembler."""
import itertools
from vt import bdd as B
from vt.ir import AnalysisBroken
from vt.util import Report, finish
from . import p
from .p import Num, Lit, nib, witness, STEPS, runall
from .a import Run, Prog, check, mem, low, txt, R16, R8, jobstep, ASSUME, Neg, JCC

ORG = lambda: Num('o', 4)
KINDS = {
    'jmp': lambda P, l: P.insn('JMP', ('rel', l), text='jmp ' + l),
    'call': lambda P, l: P.insn('CALL', ('rel', l), text='call ' + l),
    'mov r': lambda P, l: P.insn('MOV', R16[2], ('i', l, 16)),
    'mov ax,[l]': lambda P, l: P.insn('MOV', R16[0], mem((), (l, 0), 16)),
    'mov [l],al': lambda P, l: P.insn('MOV', mem((), (l, 0), 8), R8[0]),
    'mov cx,[l]': lambda P, l: P.insn('MOV', R16[1], mem((), (l, 0), 16)),
    'mov es:[l+4],dl': lambda P, l: P.insn('MOV', mem((), (l, 4), 8, 'es'), R8[2]),
    'cmp ax': lambda P, l: P.insn('CMP', R16[0], ('i', l, 16)),
    'add bx': lambda P, l: P.insn('ADD', R16[3], ('i', l, 16)),
    'sub si,[bx+l]': lambda P, l: P.insn('SUB', R16[6], mem(('bx',), (l, 0), 16)),
    'xor [bp+l],ch': lambda P, l: P.insn('XOR', mem(('bp',), (l, 0), 8), R8[5]),
    'lea di,[si+bx+l-3]': lambda P, l: P.insn('LEA', R16[7], mem(('si', 'bx'), (l, -3), 16)),
    'add word [l],5': lambda P, l: P.insn('ADD', mem((), (l, 0), 16, size=True), ('i', 5, 16)),
    'mov word [bx],l': lambda P, l: P.insn('MOV', mem(('bx',), None, 16, size=True), ('i', l, 16)),
    'mov word [l],l': lambda P, l: P.insn('MOV', mem((), (l, 0), 16, size=True), ('i', l, 16)),
    'cmp word [si+300],l': lambda P, l: P.insn('CMP', mem(('si',), 300, 16, size=True), ('i', l, 16)),
    'inc byte [l]': lambda P, l: P.insn('INC', mem((), (l, 0), 8, size=True)),
    'push word [bp+l+2]': lambda P, l: P.insn('PUSH', mem(('bp',), (l, 2), 16, size=True)),
    'test byte [l],9': lambda P, l: P.insn('TEST', mem((), (l, 0), 8, size=True), ('i', 9, 8)),
    'test cx': lambda P, l: P.insn('TEST', R16[1], ('i', l, 16)),
    'xchg bl,[di+l]': lambda P, l: P.insn('XCHG', R8[3], mem(('di',), (l, 0), 8)),
    'mov ds,[l]': lambda P, l: P.insn('MOV', ('s', 3), mem((), (l, 0), 16)),
    'mov [cs:l],ax': lambda P, l: P.insn('MOV', mem((), (l, 0), 16, 'cs'), R16[0]),
    'dw': lambda P, l: word(P, l),
    'dw 7,l,9': lambda P, l: word(P, l, (7, 9)),
}
SHORT = {
    'jmp short': lambda P, l: P.insn('JMP', ('rel', l), text='jmp short ' + l),
    'jz': lambda P, l: P.insn('JZ', ('rel', l), text='jz ' + l),
    'jnle': lambda P, l: P.insn('JG', ('rel', l), text='jnle short ' + l),
}


def word(P, l, around=None):
    if around:
        P.t('dw %d, %s , %d\n' % (around[0], l, around[1]))
        P.items += [('d', [around[0], 0]), ('w', l), ('d', [around[1], 0])]
    else:
        P.t('dw %s\n' % l)
        P.items.append(('w', l))


def pad(P, n):
    while n > 0:
        k = min(n, 20)
        P.data('db ' + ','.join('0' for i in range(k)), [0] * k)
        n -= k


def seq_jobs(full):
    """Every short history of references and definitions."""
    out = []
    ops = ['ra', 'rb', 'rl', 'da', 'db', 'dl', 'Rl', 'Ra']
    for n in range(1, 6 if full else 5):
        for s in itertools.product(ops, repeat=n):
            if n >= 4 and not full and 'Ra' in s:
                continue
            if n >= 4 and not any(x[0] != 'd' for x in s):
                continue
            if n >= 4 and not full and s[0] in ('rb', 'db') and 'ra' not in s[1:] and 'da' not in s[1:]:
                continue
            if n >= 5 and ('Rl' in s and 'rl' in s or 'Ra' in s and 'ra' in s):
                continue
            out.append((' '.join(s), s))
    return out


def seqstep(job):
    """ra: reference to label a; da: its definition; rl, dl: the local label .l"""
    B.reset()
    s = job[1]
    P = Prog(256)
    scope, valid = 0, 1
    defs, refs = set(), set()
    kinds = list(KINDS)
    for k, x in enumerate(s):
        n = {'a': 'aa', 'b': 'bb', 'l': '.l'}[x[1]]
        key = n if n[0] != '.' else '%d%s' % (scope, n)
        if x[0] in 'rR':
            refs.add(key)
            if x[0] == 'r':
                P.t('jmp %s\n' % n)
                P.items.append(('i', 'JMP', [('rel', key)], None))
            else:
                P.t('dw %s\n' % n)
                P.items.append(('w', key))
        else:
            if key in defs:
                valid = 0
            defs.add(key)
            if n[0] != '.':
                # local labels end here
                scope += 1
            P.t(n + ':\n')
            P.mark(key)
    if refs - defs:
        valid = 0
    P.insn('CBW', text='cbw')
    return check(P, valid)


def label_jobs(full):
    out = []

    def add(name, f, accept=1, org=ORG):
        def run():
            P = Prog(org())
            r = f(P)
            return check(P, accept if r is None else r)
        out.append((name, run))
    allk = dict(KINDS, **SHORT)
    for k, f in sorted(allk.items()):
        for n in (0, 1, 3, 100, 118, 300) if k in KINDS else (0, 1, 3, 100, 118):
            add('%s forward over %d' % (k, n), lambda P, f=f, n=n: (f(P, 'x'), pad(P, n), P.label('x'), P.insn('CBW', text='cbw'))[0] and None)
            add('%s back over %d' % (k, n), lambda P, f=f, n=n: (P.label('x'), pad(P, n), f(P, 'x'), P.insn('CBW', text='cbw'))[0] and None)
        add('%s undefined' % k, lambda P, f=f: f(P, 'x') and 0 or 0, 0)
        add('%s undefined local' % k, lambda P, f=f: (f(P, '.x'), P.label('y'), P.label('.x')) and 0, 0)
        for g, h in sorted(allk.items()):
            if full or (sorted(allk).index(k) + 3 * sorted(allk).index(g)) % 4 == 0:
                add('%s and %s' % (k, g), lambda P, f=f, h=h: (f(P, 'x'), h(P, 'y'), f(P, 'y'), P.label('x'), h(P, 'x'), f(P, 'y'), P.label('y'), f(P, 'x'), h(P, 'z'), h(P, 'y'), P.label('z'))[0] and None)
    for k in SHORT:
        f = SHORT[k]
        for n in range(120, 136):
            add('%s back over %d' % (k, n), lambda P, f=f, n=n: (P.label('x'), pad(P, n), f(P, 'x'))[0] and None, int(n + 2 <= 128))
            if n < 130:
                add('%s forward over %d' % (k, n), lambda P, f=f, n=n: (f(P, 'x'), pad(P, n), P.label('x'))[0] and None, int(n <= 127))
        for n in (200, 256, 300):
            add('%s back over %d' % (k, n), lambda P, f=f, n=n: (P.label('x'), pad(P, n), f(P, 'x'))[0] and None, 0)
            add('%s forward over %d' % (k, n), lambda P, f=f, n=n: (f(P, 'x'), pad(P, n), P.label('x'))[0] and None, 0)
    for n in range(120, 136):
        add('jmp back over %d' % n, lambda P, n=n: (P.label('x'), pad(P, n), KINDS['jmp'](P, 'x'))[0] and None)
        add('jmp forward over %d' % n, lambda P, n=n: (KINDS['jmp'](P, 'x'), pad(P, n), P.label('x'))[0] and None)
    # numbers as targets
    for m, t in (('JMP', 'jmp '), ('CALL', 'call '), ):
        add(t + 'number', lambda P, m=m, t=t: num_target(P, m, t), 1, lambda: 256)
    add('jmp short number', lambda P: short_target(P, 'JMP', 'jmp short '), 1, lambda: 0x8000)
    add('jc number', lambda P: short_target(P, 'JC', 'jc '), 1, lambda: 0x8000)
    # names
    def names(P, ns):
        for i, n in enumerate(ns):
            KINDS['mov r'](P, n)
        for n in ns:
            P.label(n)
            P.insn('CBW', text='cbw')
        for i, n in enumerate(ns):
            KINDS['mov cx,[l]'](P, n)
    for ns in (['ab', 'aB', 'Ab', 'AB'], ['a', 'A', 'b', 'B', '_', '$', 'a1', 'A1', 'a.', 'a.b', 'a_b', 'a$b'], ['axx', 'movb', 'a', 'x', 'dbx', 'orgg', 'jj', 'byte1', 'wordy', 'jnxe', 'al1', 'mo', 'm', 'jmpp', 'r', 'rest'],
               ['x' * n for n in (1, 5, 15, 16, 17, 31, 32)], ['y' * 15 + c for c in 'abc'], ['y' * 16 + c for c in 'abc'], ['y' * 30 + c + 'z' for c in 'abc'], ['y' * 31 + c for c in 'abc'],
               ['l%d' % i for i in range(60)], ['ab', 'ba', 'abab', 'baba', 'aabb'], ['Mov1', 'mov_', 'MOV$'], ['.', '..', '._'][:0] + ['x', 'X']):
        add('labels %s' % ' '.join(ns)[:60], lambda P, ns=ns: names(P, ns))
    for n in (33, 34, 40, 100):
        # either refused or told apart
        def run(n=n):
            P = Prog(256)
            a, b = 'q' * (n - 1) + 'a', 'q' * (n - 1) + 'b'
            for x in (a, b):
                KINDS['mov r'](P, x)
            for x in (a, b):
                P.label(x)
                P.insn('CBW', text='cbw')
            return check(P, None)
        out.append(('labels of %d characters' % n, run))
    add('200 labels', lambda P: names(P, ['n%d' % i for i in range(200)]))
    for n in (400, 460, 465, 466, 467, 468, 469, 470, 471, 472, 473, 500, 700):
        def many(n=n):
            P = Prog(256)
            for i in range(n):
                P.t('n%d equ %d\n' % (i, 3 * i))
            for i in range(0, n, 7):
                P.insn('MOV', R16[1], ('i', 3 * i, 16), text='mov cx, n%d' % i)
            return check(P, None)
        out.append(('%d names' % n, many))
    for n in (500, 599, 600, 601, 700):
        def refs(n=n):
            P = Prog(256)
            for i in range(n):
                KINDS['dw'](P, 'x')
            P.label('x')
            KINDS['jmp'](P, 'y')
            P.label('y')
            return check(P, None)
        out.append(('%d references' % n, refs))

    def reuse():
        P = Prog(256)
        for i in range(3 if not full else 6):
            for j in range(250):
                KINDS['dw'](P, 'x%d' % i)
                if j % 50 == 0:
                    KINDS['call'](P, 'z')
            P.label('x%d' % i)
        P.label('z')
        return check(P)
    out.append(('records of references are used again', reuse))

    def locals_(k):
        f = KINDS.get(k) or SHORT[k]

        def run():
            P = Prog(256)
            for i in range(4):
                P.label('g%d' % i)
                for l in ('.a', '.b', '.a'):
                    key = '%d%s' % (i, l)
                    n = len(P.items)
                    f(P, l)
                    P.items[n:] = [rename(it, l, key) for it in P.items[n:]]
                for l in '.b', '.a':
                    P.t(l + ':\n')
                    P.mark('%d%s' % (i, l))
                    n = len(P.items)
                    f(P, '.a')
                    P.items[n:] = [rename(it, '.a', '%d.a' % i) for it in P.items[n:]]
            return check(P)
        out.append(('local labels: %s' % k, run))
    for k in allk:
        locals_(k)
    # EQU
    def equ(P):
        n = Num('e', 4)
        P.t('e equ ', n, '\n')
        P.insn('MOV', R16[0], ('i', low(n.val, 32), 16), text='mov ax, e').insn('MOV', R16[2], ('m', None, (6,), low(n.val, 16), 3, 16), text='mov dx, [si+e]')
        P.data('dw e', [low(n.val, 8), B.norm(B.bits(n.val, 32)[8:16])])
        P.data('db e, e', [low(n.val, 8)] * 2)
        m = Num('f', 2)
        P.t('f equ e+', m, '\n')
        P.insn('CMP', R16[3], ('i', B.vadd(n.val, m.val, 32), 16), text='cmp bx, f')
    add('equ', equ)
    for t in ('e equ 5\ne equ 6', 'e equ 5\ne:', 'e:\ne equ 5', 'jmp e\ne equ 5', 'equ 5', 'e equ', 'e equ f', 'e equ ax', 'e 5', 'e', 'e,', 'e ax', 'a: a:', 'ax:', 'mov:', '5:', 'e equ 1 +', 'e equ [5]', 'resb', 'resb f', 'org', 'org f', 'org ax', 'resw -', 'cpu 286', 'cpu 8085', 'cpu', 'db', 'dw', 'db ,', 'db 1,', 'db ax', 'dw ax', 'db [bx]', 'dw mov', 'db f', 'dw 1,,2', 'resb 1\ncbw', 'resw 4\ndb 1', 'x: resb 1\ny: dw x', 'db 1 2', 'db (1)'):
        add('refuse: %s' % t.replace('\n', ' / '), lambda P, t=t: P.t(t, '\n') and 0, 0, lambda: 256)
    # uninitialised data
    for t, n in (('resb', 1), ('resw', 2)):
        def bss(P, t=t, n=n):
            for k in ('mov r', 'jmp', 'mov ax,[l]', 'dw', 'sub si,[bx+l]'):
                KINDS[k](P, 'u')
                KINDS[k](P, 'v')
            a, b = Num('r', 2), Num('s', 2)
            P.label('u').space([t, ' ', a], a.val if n == 1 else B.vadd(a.val, a.val, 32)).label('v')
            P.space([t, ' 3 '], 3 * n).space([t, ' ', b], b.val if n == 1 else B.vadd(b.val, b.val, 32)).label('w')
        add(t, bss, 1, lambda: 256)
    def cpu(P):
        P.t('cpu 8086\n')
        P.insn('CBW', text='cbw')
    add('cpu', cpu)
    return out


def rename(it, l, key):
    if isinstance(it, tuple):
        return tuple(rename(x, l, key) for x in it)
    if isinstance(it, list):
        return [rename(x, l, key) for x in it]
    return key if isinstance(it, str) and it == l else it


def num_target(P, m, t):
    n = Num('n', 4)
    P.insn(m, ('rel', low(n.val, 16)), text=[t, n])
    P.insn('CBW', text='cbw')


def short_target(P, m, t):
    n = Num('n', 4)
    d = B.vsub(low(n.val, 16), 0x8002, 16)
    P.insn(m, ('rel', low(n.val, 16)), text=[t, n])
    P.insn('CBW', text='cbw')
    return B.bor(B.vult(d, 128, 16), B.vult(d, 0xff80, 16) ^ 1)


STEPS['label'] = (label_jobs, jobstep)
STEPS['hist'] = (seq_jobs, seqstep)


def A02(full):
    rep = Report('A02')
    runall(rep, 'label', full)
    runall(rep, 'hist', full)
    rep.functions = set(p.mod().funcs) if 0 else set(Run.module().funcs)
    return finish(rep, 1500, ASSUME, 'every reference to a label stands for the address at which the label is defined, for all origins; what has no such address or distance is refused')


# ---- A03: numbers, strings, data, text, files
def byteof(v, k):
    return low(v, 8) if k == 0 else B.norm((B.bits(v, 32) + [0] * 32 if isinstance(v, list) else tuple(B.bits(v, 32)))[8 * k:8 * k + 8])


def text_jobs(full):
    out = []

    def add(name, f, accept=1):
        def run():
            P = Prog(256)
            r = f(P)
            return check(P, accept if r is None else r)
        out.append((name, run))
    nums = [('%d hex' % n, lambda n=n: Num('a', n)) for n in range(1, 5)] + [('%d hex lower' % n, lambda n=n: Num('a', n, lower=True)) for n in (1, 4)] + [('0X', lambda: Num('a', 4, prefix='0X'))] + [('%d decimal' % n, lambda n=n: Num('a', n, 10, '')) for n in range(1, 5 if not full else 6)]
    nums += [('0%d decimal' % n, lambda n=n: Num('a', n, 10, '0')) for n in (1, 3)]
    for name, f in nums:
        def one(P, f=f):
            n = f()
            P.t(n.ch[:0])
            P.g = B.band(P.g, n.guard)
            P.insn('MOV', R16[0], ('i', n.val, 16), text=['mov ax,', n]).insn('ADD', R8[0], ('i', n.val, 8), text=['add al, ', n, ' '])
            P.data(['dw ', n], [byteof(n.val, 0), byteof(n.val, 1)])
            P.data(['db ', n, ',0,', n], [byteof(n.val, 0), 0, byteof(n.val, 0)])
        add(name, one)
    # expressions
    un = {'-': lambda v: B.vneg(v, 32), '~': lambda v: B.vnot(v, 32), '+': lambda v: v}
    bi = {'+': (4, lambda a, b: B.vadd(a, b, 32)), '-': (4, lambda a, b: B.vsub(a, b, 32)), '<<': (5, lambda a, b: B.vshift(a, b, 32, 'shl')), '|': (10, lambda a, b: B.vor(a, b, 32))}

    def evalx(toks):
        """Operators of C with their precedence; toks: operands (vectors) and operator strings."""
        toks = list(toks)

        def unary():
            t = toks.pop(0)
            if isinstance(t, str):
                return un[t](unary())
            return t.val

        def expr(lim):
            l = unary()
            while toks and bi[toks[0]][0] <= lim:
                op = toks.pop(0)
                r = expr(bi[op][0] - 1)
                l = bi[op][1](l, r)
            return l
        return expr(99)

    def ex(name, mk, where):
        def one(P):
            toks = mk()
            v = evalx(toks)
            t = []
            for x in toks:
                t += [x, ' ' if where % 2 else '']
            if where < 2:
                P.insn('MOV', R16[1], ('i', v, 16), text=['mov cx, '] + t)
            elif where == 2:
                P.t(*(['e equ '] + t + ['\n']))
                P.insn('MOV', R16[1], ('i', v, 16), text='mov cx, e')
            else:
                P.insn('MOV', mem(('bx',), None, 16, size=True), ('i', v, 16), text=['mov word [bx], '] + t)
        add('%s (%d)' % (name, where), one)
    cnt = {'<<': lambda n: Num(n, 1)}
    for w in range(4):
        for u in un:
            ex('%sa' % u, lambda u=u: [u, Num('a', 4)], w)
            for u2 in un:
                ex('%s%sa' % (u, u2), lambda u=u, u2=u2: [u, u2, Num('a', 4)], w)
        for o in bi:
            R = lambda n, o=o: Num(n, 1) if o == '<<' else Num(n, 2)
            ex('a%sb' % o, lambda o=o, R=R: [Num('a', 2), o, R('b')], w)
            for u in un:
                ex('%sa%sb' % (u, o), lambda o=o, R=R, u=u: [u, Num('a', 2), o, R('b')], w)
                if o != '<<':
                    ex('a%s%sb' % (o, u), lambda o=o, R=R, u=u: [Num('a', 2), o, u, R('b')], w)
            for q in bi:
                def three(o=o, q=q):
                    ns = [Num('a', 1), Num('b', 1), Num('c', 1)]
                    # keep the counts of shifts small
                    return [ns[0], o, ns[1], q, ns[2]]
                def small(P, o=o, q=q):
                    pass
                if '<<' in (o, q):
                    def three(o=o, q=q):
                        a, b, c = Num('a', 1), Num('b', 1), Num('c', 1)
                        if q == '<<':
                            c = Lit('3', 3)
                        if o == '<<':
                            b = Lit('1', 1)
                            if q in '+-':
                                c = Lit('2', 2) if q == '+' else Lit('1', 1)
                        return [a, o, b, q, c]
                ex('a%sb%sc' % (o, q), three, w)
                if w < 2 or full:
                    for r in bi:
                        if '<<' in (o, q, r):
                            continue
                        ex('a%sb%sc%sd' % (o, q, r), lambda o=o, q=q, r=r: [Num('a', 1), o, Num('b', 1), q, Num('c', 1), r, Num('d', 1)], w)
    # strings
    for n in range(0, 5):
        for d in ('db', 'dw'):
            def st(P, n=n, d=d):
                cs = [B.sym('s%d' % i, 8) for i in range(n)]
                for c in cs:
                    P.g = B.band(P.g, B.band(B.veq(c, 39, 8) ^ 1, B.veq(c, 0, 8) ^ 1))
                P.src += list(d + " '") + cs + list("'\n")
                P.items.append(('d', cs + ([0] if d == 'dw' and n & 1 else [])))
                P.insn('CBW', text='cbw')
            add('%s of %d characters' % (d, n), st)

            def st2(P, n=n, d=d):
                cs = [B.sym('s%d' % i, 8) for i in range(n)]
                for c in cs:
                    P.g = B.band(P.g, B.band(B.veq(c, 39, 8) ^ 1, B.veq(c, 0, 8) ^ 1))
                P.src += list(d + " 1 , '") + cs + list("',2,'") + cs + list("'\n")
                one, two = ([1], [2]) if d == 'db' else ([1, 0], [2, 0])
                P.items.append(('d', one + cs + two + cs))
                P.insn('CBW', text='cbw')
            add('%s of numbers and %d characters' % (d, n), st2)
    for n in (1, 2):
        def sn(P, n=n):
            cs = [B.sym('s%d' % i, 8) for i in range(n)]
            for c in cs:
                P.g = B.band(P.g, B.band(B.veq(c, 39, 8) ^ 1, B.veq(c, 0, 8) ^ 1))
            v = cs[0] if n == 1 else B.norm(tuple(B.bits(cs[0], 8)) + tuple(B.bits(cs[1], 8)))
            P.src += list("cmp dx, '") + cs + list("'\n")
            P.items.append(('i', 'CMP', [R16[2], ('i', B.vzext(v, 8 * n, 32), 16)], None))
            P.src += list("mov al, '") + cs[:1] + list("'\n")
            P.items.append(('i', 'MOV', [R8[0], ('i', cs[0], 8)], None))
        add('%d characters as a number' % n, sn)
    for n in (20, 100, 126, 127, 128, 129, 200):
        def long(n=n):
            P = Prog(256)
            s = ('abcdefghij' * 20)[:n]
            P.data("db '%s'" % s, s.encode())
            P.insn('CBW', text='cbw')
            return check(P, None if n > 120 else 1)
        out.append(('a string of %d characters' % n, long))
    # white space, comments, letters of either case
    for n in range(0, 4):
        def com(P, n=n):
            cs = [B.sym('c%d' % i, 8) for i in range(n)]
            for c in cs:
                P.g = B.band(P.g, B.band(B.veq(c, 10, 8) ^ 1, B.veq(c, 0, 8) ^ 1))
            P.src += list('cbw ;') + cs + list('\ncwd;') + cs + list('\n;') + cs
            P.items += [('i', 'CBW', [], None), ('i', 'CWD', [], None)]
        add('comments of %d arbitrary characters' % n, com)

        def ws(P, n=n):
            cs = [B.sym('c%d' % i, 8) for i in range(n)]
            for c in cs:
                ok = 0
                for k in b' \t\r\n\f\v':
                    ok = B.bor(ok, B.veq(c, k, 8))
                P.g = B.band(P.g, ok)
            if not n:
                return
            for t in ('mov', 'ax', ',', 'word', '[', 'es', ':', 'bx', '+', '5', ']', 'x', ':', 'db', "'a'", ',', '2'):
                P.src += cs + list(t)
            P.src += cs
            P.items += [('i', 'MOV', [R16[0], ('m', (3,), 5, 0, 16)], None), ('l', 'x'), ('d', [97, 2])]
        add('%d arbitrary characters of white space' % n, ws)

    def case(word, tail, m, ops):
        def f(P):
            cs = []
            for i, c in enumerate(word):
                if c.isalpha():
                    b = B.sym('k%d' % i, 1)
                    b = b if not isinstance(b, tuple) else b[0]
                    cs.append(B.vite(b, ord(c.upper()), ord(c.lower()), 8))
                else:
                    cs.append(c)
            P.src += cs + list(tail + '\n')
            P.items.append(('i', m, ops, None))
        add('%s in either case' % word, f)
    for w in 'adc add and cmp or sbb sub xor mov'.split():
        case(w, ' ax, dx', w.upper(), [R16[0], R16[2]])
    for w in 'cbw cwd clc cli stc sti cmpsb lodsb movsb stosb stosw ret'.split():
        case(w, '', w.upper(), [])
    for w in 'mul imul div idiv not neg inc dec'.split():
        case(w, ' bh', w.upper(), [R8[7]])
    for w in 'push pop call'.split():
        case(w, ' si', w.upper(), [R16[6]])
    for w in 'shl shr sar'.split():
        case(w, ' ch, 1', w.upper(), [R8[5], ('i', 1, 8)])
    for j, m in JCC.items():
        case(j.lower(), ' 258', m, [('rel', 258)])
    case('jmp', ' 300', 'JMP', [('rel', 300)])
    case('jmp short', ' 280', 'JMP', [('rel', 280)])
    for r in R16 + R8:
        case('neg %s' % txt(r), '', 'NEG', [r])
    for i, s in enumerate('es cs ss ds'.split()):
        case('push %s' % s, '', 'PUSH', [('s', i)])
        case('mov ax, [%s:bx]' % s, '', 'MOV', [R16[0], ('m', (3,), 0, i, 16)])
    case('inc byte [bx]', '', 'INC', [('m', (3,), 0, 3, 8)])
    case('inc word [bx]', '', 'INC', [('m', (3,), 0, 3, 16)])
    case('xchg ax, cx', '', 'XCHG', [R16[0], R16[1]])
    case('lea ax, [si]', '', 'LEA', [R16[0], ('m', (6,), 0, 3, 16)])
    case('test al, 3', '', 'TEST', [R8[0], ('i', 3, 8)])
    case('int 33', '', 'INT', [('i', 33, 8)])

    def dirs(P):
        cs = {}
        for w in ('db', 'dw', 'equ', 'org', 'resb', 'resw', 'cpu', 'rep'):
            cs[w] = [B.vite((lambda b: b if not isinstance(b, tuple) else b[0])(B.sym('%s%d' % (w, i), 1)), ord(c.upper()), ord(c), 8) for i, c in enumerate(w)]
        P.src += cs['cpu'] + list(' 8086\n') + list('k ') + cs['equ'] + list(' 7\n') + cs['org'] + list(' 512\n') + cs['db'] + list(' 1\n') + cs['dw'] + list(' k\n') + cs['rep'] + list(' movsb\nmov ax, y\n') + cs['resb'] + list(' 5\n') + cs['resw'] + list(' 5\ny:')
        P.items += [('d', [1, 7, 0]), ('i', 'MOVSB', [], 0xF3), ('i', 'MOV', [R16[0], ('i', 512 + 3 + 2 + 3 + 15, 16)], None)]
        P.org = 512
    add('directives in either case', dirs)
    # one arbitrary character between statements
    for t in ('', 'x:', 'cbw '):
        def arb(P, t=t):
            c = B.sym('c', 8)
            P.g = B.veq(c, 0, 8) ^ 1
            P.src += list('cwd\n' + t) + [c] + list('\ncbw\n')
            P.items += [('i', 'CWD', [], None)] + ([('i', 'CBW', [], None)] if t == 'cbw ' else []) + [('i', 'CBW', [], None)]
            return B.bor(B.bor(B.vult(c, 33, 8), B.vult(c, 128, 8) ^ 1), B.veq(c, 59, 8))
        add('an arbitrary character after %r' % t, arb)
        for n in (2, 3):
            def arb2(P, t=t, n=n):
                # what is no letter, digit, quote, colon or white space
                cs = [B.sym('c%d' % i, 8) for i in range(n)]
                for c in cs:
                    ok = B.band(B.vult(c, 33, 8) ^ 1, B.vult(c, 127, 8))
                    for k in range(33, 127):
                        if chr(k).isalnum() or chr(k) in "_.$';":
                            ok = B.band(ok, B.veq(c, k, 8) ^ 1)
                    P.g = B.band(P.g, ok)
                P.src += list('cwd\n' + t) + cs + list('\ncbw\n')
                return 0
            add('%d arbitrary operators after %r' % (n, t), arb2)
    for t, n in (("db 'abc", 0), ("mov ax, 'a", 0), ("db 'a\nb'", 1), ('', 1), ('\n', 1), ('; x', 1), ('  ', 1)):
        add('text %r' % t, lambda P, t=t, n=n: (P.src.extend(t), P.items.append(('d', [97, 10, 98])) if 'b\'' in t else None) and n, 1)
    return out


SAMPLE = "org 0x100\nstart: mov ax, [bx+0x12] ; a comment\n  jnz .l\n.l: db 'str', 10\ncmp byte [es:si], '$'\nshl ax, 1\nkk equ 5+1\nadd di,kk\njmp start\n"


def file2_jobs(full):
    out = []

    def sample():
        P = Prog(0)
        P.org = 256
        P.src = list(SAMPLE)
        P.items = [('l', 'start'), ('i', 'MOV', [R16[0], ('m', (3,), 0x12, 3, 16)], None), ('i', 'JNZ', [('rel', 'l')], None), ('l', 'l'), ('d', b'str\n'), ('i', 'CMP', [('m', (6,), 0, 0, 8), ('i', 36, 8)], None), ('i', 'SHL', [R16[0], ('i', 1, 8)], None), ('i', 'ADD', [R16[7], ('i', 6, 16)], None), ('i', 'JMP', [('rel', 'start')], None)]
        return P

    def cut(cs, name):
        out.append((name, lambda: check(sample(), cuts={'in.asm': cs})))
    for k in range(1, len(SAMPLE)):
        cut([k], 'a read ends at %d' % k)
        if full:
            for j in range(k + 1, len(SAMPLE), 7):
                cut([k, j], 'reads end at %d and %d' % (k, j))
    for s in (1, 2, 3, 5, 7, 16):
        cut(list(range(s, len(SAMPLE), s)), 'reads of %d' % s)

    def big(n):
        def run():
            P = Prog(256)
            for i in range(n):
                P.insn('ADD', R16[i % 8], ('i', 300 + i, 16))
            return check(P)
        out.append(('a source of %d lines' % n, run))
    for n in (20, 28, 29, 30, 31, 32, 60, 200):
        big(n)

    def io(name, must, files=None, argv=None, want=None, **kw):
        def run():
            f = files or {'in.asm': SAMPLE}
            r = Run(f, 1, argv=argv or ['sas', 'in.asm', 'out.com'], **kw)
            bad = []
            if must == 'fail':
                if r.refused != 1:
                    bad.append('success although %s' % name)
            else:
                if r.refused or len(r.out) != 1 or r.out[0][2] != 0:
                    bad.append('refused')
                elif want and r.names != [want]:
                    bad.append('the output is written to %r' % (r.names,))
            return 1, bad
        out.append((name, run))
    for k in range(0, 2):
        io('read %d fails' % k, 'fail', rfail=k)
    io('read 2 of 3 fails', 'fail', {'in.asm': 'cbw\n' * 300}, rfail=2)
    for n, f in (('-1', lambda n: 0xffffffff), ('0', lambda n: 0), ('one byte less', lambda n: n - 1)):
        io('write returns %s' % n, 'fail', wfail=[f])
    io('no source', 'fail', deny=('in.asm',))
    io('no output', 'fail', deny=('out.com',))
    io('no argument', 'fail', argv=['sas'])
    for a, o in (('in.asm', 'in.com'), ('x', 'x.com'), ('a.b.c', 'a.b.com'), ('y' * 60 + '.asm', 'y' * 60 + '.com'), ('.asm', '.com')):
        io('source %s' % a[:20], 'ok', {a: SAMPLE}, ['sas', a], o)
        io('source %s, output given' % a[:20], 'ok', {a: SAMPLE}, ['sas', a, 'o'], 'o')
    for n in (100, 120, 122, 123, 124, 127, 128, 129, 200):
        def longname(n=n):
            a = 'z' * n
            bad = []
            for argv, w in ((['sas', a], a + '.com'), (['sas', 'in.asm', a], a)):
                r = Run({argv[1]: SAMPLE}, 1, argv=argv)
                for og, o, rc in r.out:
                    if rc == 0 and r.names != [w]:
                        bad.append('the output is written to %r' % (r.names,))
                if n <= 100 and r.refused:
                    bad.append('refused')
            return 1, bad
        out.append(('a name of %d characters' % n, longname))
    return out


STEPS['text'] = (text_jobs, jobstep)
STEPS['afile'] = (file2_jobs, jobstep)


def A03(full):
    rep = Report('A03')
    runall(rep, 'text', full)
    runall(rep, 'afile', full)
    rep.functions = set(Run.module().funcs)
    return finish(rep, 600, ASSUME, 'numbers, expressions, strings and data directives give the bytes they stand for, whatever the case, white space and comments around them and however the source is divided into reads; failures of files are reported')
