"""The assembler: sas's main is analysed from the source text to the bytes it writes."""
import os
from vt import bdd as B
from vt import ir, x86, util
from vt.ir import AnalysisBroken
from vt.util import Report, finish, REPO
from . import p
from .p import Num, Lit, nib, witness, STEPS, runall

_m = []


def mod():
    if not _m:
        _m.append(ir.compile_ir(os.path.join(REPO, 'sas.c'), []))
        if 'main' not in _m[0].funcs:
            raise AnalysisBroken('sas: main not found')
    return _m[0]


class Run(p.Run):
    module = staticmethod(mod)

    def __init__(self, src, guard=1, **kw):
        kw.setdefault('argv', ['sas', 'in.asm', 'out.com'])
        kw.setdefault('first', 'in.asm')
        super().__init__({'in.asm': src} if not isinstance(src, dict) else src, guard, **kw)

    def sprintf(self, ex, st, a, i):
        f = ex.cstring(st, a[1])
        if f in (b'%c', b'%d') and type(a[2]) is not int:
            # the text of a message
            ex.gobj(st, a[0].o) if isinstance(a[0].o, str) else None
            for j, c in enumerate((B.bits(a[2], 32) and low(a[2], 8) if f == b'%c' else 63, 0)):
                ex.store_c(st, a[0].o, a[0].off + j, 1, c)
            return [(st, 1)]
        return super().sprintf(ex, st, a, i)

    def setup(self, ex, st):
        def ok(ex, s, t):
            # outputs of different lengths are kept apart
            for n in s.mem:
                if isinstance(n, str):
                    o, q = s.mem[n], t.mem.get(n)
                    if q is None or o is q or o.size > 8:
                        continue
                    x, y = o.cells.get(0), q.cells.get(0)
                    if x and y and type(x[1]) is int and type(y[1]) is int and x[1] != y[1]:
                        return False
            return True
        ex.extra_merge_ok = ok


# ---- programs
class Prog:
    """A source text together with the code it stands for."""

    def __init__(self, org=0):
        self.src, self.items, self.g = [], [], 1
        self.org = org
        if org:
            self.t('org ', org, '\n')

    def t(self, *parts):
        for x in parts:
            if isinstance(x, str):
                self.src += list(x)
            elif isinstance(x, (list, tuple)):
                self.t(*x)
            elif isinstance(x, int):
                self.src += list(str(x))
            else:
                self.src += x.ch
                self.g = B.band(self.g, x.guard)
        return self

    def insn(self, m, *ops, text=None, seg=None, rep=None):
        """ops: operand descriptions; see txt() and want()"""
        self.t(text if text is not None else [m.lower(), ' ', self.optext(ops)], '\n')
        self.items.append(('i', m, [want(o) for o in ops], rep))
        return self

    def optext(self, ops):
        out = []
        for k, o in enumerate(ops):
            out += ([', '] if k else []) + [txt(o)]
        return out

    def label(self, n):
        self.t(n, ':\n')
        self.items.append(('l', n))
        return self

    def mark(self, n):
        self.items.append(('l', n))
        return self

    def data(self, text, bs):
        self.t(text, '\n')
        self.items.append(('d', list(bs)))
        return self

    def space(self, text, n):
        self.t(text, '\n')
        self.items.append(('s', n))
        return self


def txt(o):
    k = o[0]
    if k == 'r':
        return (x86.R16 if o[2] == 16 else x86.R8)[o[1]].lower()
    if k == 's':
        return x86.SR[o[1]].lower()
    if k == 'i':
        return o[1] if not isinstance(o[1], int) else str(o[1])
    if k == 'm':
        return o[1]
    return o[1]


def want(o):
    """The operand as vt.x86 decodes it."""
    if o[0] == 'i':
        v = o[1] if isinstance(o[1], (int, tuple)) else o[1].val if not isinstance(o[1], str) else ('lab', o[1], 0)
        return ('i', v, o[2])
    if o[0] == 'm':
        return ('m',) + tuple(o[2:])
    return o


def mem(regs, disp=None, w=None, seg=None, order=None, size=False, sp=''):
    """regs: names; disp: None, Num/Lit, int, or (label, addend)"""
    parts = []
    for r in regs:
        parts += (['+'] if parts else []) + [r]
    d = 0
    if disp is not None:
        if isinstance(disp, tuple):
            lab, add = disp
            parts += (['+'] if parts else []) + [lab]
            if add:
                parts += [('+%d' % add) if add > 0 else '-%d' % -add]
            d = ('lab', lab, add)
        elif isinstance(disp, int):
            if disp < 0 and parts:
                parts += ['-%d' % -disp]
            else:
                parts += (['+'] if parts else []) + [str(disp)]
            d = disp & 0xffff
        else:
            parts += (['+'] if parts and not isinstance(disp, Neg) else []) + [disp]
            d = disp.val
    if order:
        parts = order(parts)
    rs = tuple(sorted(x86.R16.index(r.upper()) for r in regs))
    sg = x86.SR.index(seg.upper()) if seg else x86.SS if x86.BP in rs else x86.DS
    t = ([{8: 'byte ', 16: 'word '}[w]] if size else []) + ['['] + ([seg + ':'] if seg else []) + parts + [']']
    return ('m', t, rs, d, sg, w)


def low(v, w):
    if type(v) is int:
        return v & ((1 << w) - 1)
    return B.norm(tuple(B.bits(v, 32)[:w])) if len(v) > w else v


def match(g, out, prog):
    """Reasons why the bytes are not the program; raises Split on an unknown opcode byte."""
    pos, lab, rel, bad = 0, {}, [], []
    addr = prog.org if type(prog.org) is int else low(prog.org.val, 16)
    for it in prog.items:
        if it[0] == 'l':
            lab[it[1]] = addr
        elif it[0] == 'w':
            if pos + 2 > len(out):
                return ['the output ends too early']
            rel.append((B.norm(tuple(B.bits(out[pos], 8)) + tuple(B.bits(out[pos + 1], 8))), it[1], 16, 'word %d' % pos))
            pos += 2
            addr = B.vadd(addr, 2, 16)
        elif it[0] == 's':
            addr = B.vadd(addr, low(it[1], 16), 16)
        elif it[0] == 'd':
            for b in it[1]:
                if pos >= len(out):
                    return ['the output ends too early']
                rel.append((out[pos], b, 8, 'byte %d' % pos))
                pos += 1
                addr = B.vadd(addr, 1, 16)
        else:
            _, m, ops, rep = it
            while 1:
                try:
                    n = x86.decode(out, pos)
                    break
                except x86.Truncated:
                    return ['the output ends within %s' % m]
                except x86.BadInsn as e:
                    if 'not constant' not in str(e):
                        return ['%s is encoded as no instruction (%s)' % (m, ' '.join('%02X' % b if type(b) is int else '??' for b in out[pos:pos + 6]))]
                    k = next(i for i in range(pos, len(out)) if type(out[i]) is not int)
                    raise Split(k)
            pos += n.len
            addr = B.vadd(addr, n.len, 16)
            name = n.m
            o2 = list(n.ops)
            if name == 'NOP' and m == 'XCHG':
                name, o2 = 'XCHG', [('r', 0, 16), ('r', 0, 16)]
            if name != m or n.rep != rep or len(o2) != len(ops):
                bad.append('%s is encoded as %r' % (m, n))
                continue
            if m in ('XCHG', 'TEST') and len(ops) == 2 and [o[0] for o in ops] != [o[0] for o in o2] or m == 'XCHG' and ops != o2 and ops[0][0] == 'r' and ops[1][0] == 'r':
                o2.reverse()
            for a, b in zip(ops, o2):
                if a[0] == 'rel':
                    if b[0] != 'rel':
                        bad.append('%s is encoded as %r' % (m, n))
                    else:
                        rel.append((B.vadd(b[1], addr, 16), a[1], 16, 'target of %s' % m))
                elif a[0] == 'i':
                    if b[0] != 'i' or b[2] != a[2]:
                        bad.append('%s is encoded as %r' % (m, n))
                    else:
                        rel.append((b[1], a[1], a[2], 'immediate of %s' % m))
                elif a[0] == 'm':
                    if b[0] != 'm' or tuple(sorted(b[1])) != a[1] or b[3] != a[3] or a[4] is not None and b[4] != a[4]:
                        bad.append('%s is encoded as %r' % (m, n))
                    else:
                        rel.append((b[2], a[2], 16, 'displacement of %s' % m))
                elif a != b:
                    bad.append('%s is encoded as %r' % (m, n))
    if pos != len(out):
        bad.append('%d bytes too many' % (len(out) - pos))
    for x, y, w, what in rel:
        if isinstance(y, tuple) and len(y) == 3 and y[0] == 'lab':
            y = B.vadd(lab[y[1]], y[2] & 0xffff, 16)
        elif isinstance(y, str):
            y = lab[y]
        e = B.band(g, B.veq(low(x, w), low(y, w), w) ^ 1)
        if e:
            bad.append('%s is %s instead of %s for %s' % (what, B.show(x), B.show(y), witness(e)))
    return bad


class Split(Exception):
    pass


def check(prog, accept=1, **kw):
    """accept: the condition under which the program must be assembled; it must be refused otherwise."""
    g = prog.g
    r = Run(prog.src, g, **kw)
    bad, n = [], 0
    either = accept is None         # may be refused
    accept = 1 if either else accept
    x = B.band(r.refused, B.band(g, accept)) if not either else 0
    if x:
        bad.append('refused for %s' % witness(x))
    tot = 0
    for og, out, rc in r.out:
        x = B.band(og, accept ^ 1)
        if x:
            bad.append('accepted for %s' % witness(x))
        og = B.band(og, accept)
        tot = B.bor(tot, og)
        if rc != 0:
            bad.append('exit code %r' % (rc,))
        todo = [(og, list(out))]
        while todo and len(bad) < 20:
            g1, o = todo.pop()
            if not g1:
                continue
            n += 1
            if n > 2000:
                raise AnalysisBroken('too many encodings')
            try:
                bad += match(g1, o, prog)
            except Split as e:
                k = e.args[0]
                for v in B.values(o[k], 8, g1, 256):
                    todo.append((B.band(g1, B.veq(o[k], v, 8)), o[:k] + [v] + o[k + 1:]))
    x = B.band(B.band(g, accept), (B.bor(tot, r.refused)) ^ 1)
    if x and not bad:
        bad.append('no output for %s' % witness(x))
    return n, bad


# ---- A01: instructions
R8 = [('r', i, 8) for i in range(8)]
R16 = [('r', i, 16) for i in range(8)]
SR = [('s', i) for i in range(4)]
ALU = ['ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP']
EAS = [(), ('si',), ('di',), ('bp',), ('bx',), ('si', 'bx')]
FLAT = [('CBW', 'cbw'), ('CWD', 'cwd'), ('CLC', 'clc'), ('CLI', 'cli'), ('STC', 'stc'), ('STI', 'sti'), ('CMPSB', 'cmpsb'), ('LODSB', 'lodsb'), ('MOVSB', 'movsb'), ('STOSB', 'stosb'), ('STOSW', 'stosw'), ('RET', 'ret')]
UN = ['NOT', 'NEG', 'MUL', 'IMUL', 'DIV', 'IDIV']
SH = ['SHL', 'SHR', 'SAR']
JCC = {'JO': 'JO', 'JNO': 'JNO', 'JC': 'JC', 'JNC': 'JNC', 'JZ': 'JZ', 'JNZ': 'JNZ', 'JNA': 'JNA', 'JA': 'JA', 'JS': 'JS', 'JNS': 'JNS', 'JPE': 'JP', 'JPO': 'JNP', 'JL': 'JL', 'JNL': 'JNL', 'JNG': 'JNG', 'JG': 'JG',
       'JB': 'JC', 'JNAE': 'JC', 'JNB': 'JNC', 'JAE': 'JNC', 'JE': 'JZ', 'JNE': 'JNZ', 'JBE': 'JNA', 'JNBE': 'JA', 'JNGE': 'JL', 'JGE': 'JNL', 'JLE': 'JNG', 'JNLE': 'JG'}
CL = ('r', 1, 8)


def disps(full):
    return [None, lambda k: Num('d%d' % k, 4), lambda k: Num('d%d' % k, 2), lambda k: Neg('d%d' % k, 4), lambda k: Num('d%d' % k, 5, 10, '')] if full else [None, lambda k: Num('d%d' % k, 4), lambda k: Neg('d%d' % k, 2)]


class Neg(Num):
    """-n behind a register"""
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.ch = ['-'] + self.ch
        self.val = B.vneg(self.val, 32)


def mems(full, w, size=False, fixed=False):
    """Thunks for memory operands (name, make)."""
    out = []
    for e in EAS:
        for s in (None, 'es', 'cs', 'ss', 'ds') if full or fixed else (None, 'es'):
            if fixed:
                ds = [lambda: 0x1234, lambda e=e: -0x1234 if e else 0x4321]
                if e != ('bp',):
                    ds.append(lambda e=e: None if e else 7)
            else:
                ds = [(lambda d=d: d and d(0)) for d in disps(full)]
            if s and not full and not fixed:
                ds = ds[1:2]
            for i, d in enumerate(ds):
                def make(e=e, s=s, d=d):
                    v = d()
                    if not e and v is None:
                        v = 0
                    if not e and isinstance(v, Neg):
                        v = Num('d0', 2)
                    return mem(e, v, w, s, size=size)
                out.append(('%s[%s]%d' % (s + ':' if s else '', '+'.join(e), i), make))
    return out


def insn_jobs(full):
    out = []

    def one(name, f, accept=1):
        """f() -> (mnemonic, operands)"""
        def run():
            P = Prog(256)
            x = f()
            P.insn(x[0], *x[1:])
            P.insn('CBW', text='cbw')
            return check(P, accept)
        out.append((name, run))

    def batch(name, fs):
        def run(fs=tuple(fs)):
            P = Prog(256)
            for f in fs:
                x = f()
                P.insn(x[0], *x[1:])
            return check(P)
        out.append((name, run))

    def bad(text):
        def run():
            P = Prog(256)
            P.t(text, '\n')
            return check(P, 0)
        out.append(('refuse %s' % text, run))

    def either(name, f):
        if not full and ':' in name:
            return

        def run():
            P = Prog(256)
            x = f()
            P.insn(x[0], *x[1:])
            P.insn('CBW', text='cbw')
            return check(P, None)
        out.append((name, run))
    for m in ALU + ['MOV']:
        for R in (R8, R16):
            w = R[0][2]
            batch('%s r,r %d' % (m, w), [lambda m=m, a=a, b=b: (m, a, b) for a in R for b in R])
            for a in R:
                n = 'word' if w == 16 else 'byte'
                one('%s %s, imm' % (m, txt(a)), lambda m=m, a=a, w=w: (m, a, ('i', Num('i', w // 4), w)))
                one('%s %s, -imm' % (m, txt(a)), lambda m=m, a=a, w=w: (m, a, ('i', Neg('i', w // 4), w)))
            fx = mems(full, w, False, True)
            batch('%s r,[] %d' % (m, w), [lambda m=m, a=a, f=f: (m, a, f()) for k, (n, f) in enumerate(fx) for a in R if full or k % 3 == a[1] % 3])
            batch('%s [],r %d' % (m, w), [lambda m=m, a=a, f=f: (m, f(), a) for k, (n, f) in enumerate(fx) for a in R if full or k % 3 == a[1] % 3])
            for n, f in mems(full, w):
                if full or m in ('MOV', 'ADD', 'CMP') or n.startswith('[') and 'bp' in n:
                    for a in (R if full else R[:2] + R[6:7]):
                        one('%s %s, %s' % (m, txt(a), n), lambda m=m, a=a, f=f: (m, a, f()))
                        one('%s %s, %s' % (m, n, txt(a)), lambda m=m, a=a, f=f: (m, f(), a))
            for n, f in mems(full, w, True):
                if full or m in ('MOV', 'ADD', 'CMP') or not n.startswith('es'):
                    one('%s %s, imm %d' % (m, n, w), lambda m=m, f=f, w=w: (m, f(), ('i', Num('i', w // 4), w)))
    for s in SR:
        batch('MOV %s' % txt(s), [lambda s=s, a=a: ('MOV', a, s) for a in R16] + [lambda s=s, a=a: ('MOV', s, a) for a in R16]
              + [lambda s=s, f=f: ('MOV', s, f()) for n, f in mems(full, 16, False, True)] + [lambda s=s, f=f: ('MOV', f(), s) for n, f in mems(full, 16, False, True)])
        batch('PUSH POP %s' % txt(s), [lambda s=s, m=m: (m, s) for m in ('PUSH', 'POP')])
        for n, f in mems(full, 16):
            one('MOV %s, %s' % (txt(s), n), lambda s=s, f=f: ('MOV', s, f()))
            one('MOV %s, %s' % (n, txt(s)), lambda s=s, f=f: ('MOV', f(), s))
    batch('PUSH POP r', [lambda a=a, m=m: (m, a) for a in R16 for m in ('PUSH', 'POP')])
    for R in (R8, R16):
        w = R[0][2]
        batch('unary r %d' % w, [lambda a=a, m=m: (m, a) for a in R for m in UN + ['INC', 'DEC']])
        batch('shift %d' % w, [lambda a=a, m=m, c=c: (m, a, c) for a in R for m in SH for c in (('i', 1, 8), CL)])
        for a in R:
            one('TEST %s, imm' % txt(a), lambda a=a, w=w: ('TEST', a, ('i', Num('i', w // 4), w)))
            for n, f in mems(full, w, False, True):
                if full or n.startswith('['):
                    one('XCHG %s, %s' % (txt(a), n), lambda a=a, f=f: ('XCHG', a, f()))
        for n, f in mems(full, w):
            one('XCHG %s, %s sym' % (txt(R[3]), n), lambda R=R, f=f: ('XCHG', R[3], f()))
        for n, f in mems(full, w, True):
            for m in ('INC', 'DEC'):
                one('%s %s %d' % (m, n, w), lambda m=m, f=f: (m, f()))
            one('TEST %s, imm %d' % (n, w), lambda f=f, w=w: ('TEST', f(), ('i', Num('i', w // 4), w)))
            if w == 16:
                one('PUSH %s' % n, lambda f=f: ('PUSH', f()))
                either('POP %s' % n, lambda f=f: ('POP', f()))
            for m in UN:
                either('%s %s %d' % (m, n, w), lambda m=m, f=f: (m, f()))
            for m in SH:
                either('%s %s %d' % (m, n, w), lambda m=m, f=f: (m, f(), CL))
                either('%s %s,1 %d' % (m, n, w), lambda m=m, f=f: (m, f(), ('i', 1, 8)))
            for m in ('CALL', 'JMP'):
                if w == 16:
                    either('%s %s' % (m, n), lambda m=m, f=f: (m, f()))
        for a in R[:3]:
            for n, f in mems(full, w, True):
                for m in ('MOV', 'ADD'):
                    if full or a is R[0] or n.startswith('['):
                        either('%s %s, sized %s' % (m, txt(a), n), lambda m=m, a=a, f=f: (m, a, f()))
                        either('%s sized %s, %s' % (m, n, txt(a)), lambda m=m, a=a, f=f: (m, f(), a))
            for b in R:
                for m in ('TEST', 'XCHG'):
                    either('%s %s,%s' % (m, txt(a), txt(b)), lambda m=m, a=a, b=b: (m, a, b))
            for n, f in mems(False, w):
                either('TEST %s, %s' % (n, txt(a)), lambda a=a, f=f: ('TEST', f(), a))
                either('XCHG %s, %s' % (n, txt(a)), lambda a=a, f=f: ('XCHG', f(), a))
    batch('XCHG AX', [lambda a=a: ('XCHG', R16[0], a) for a in R16])
    for a in R16:
        batch('LEA %s' % txt(a), [lambda a=a, f=f: ('LEA', a, f()) for n, f in mems(full, 16, False, True)])
        one('CALL %s' % txt(a), lambda a=a: ('CALL', a))
        either('JMP %s' % txt(a), lambda a=a: ('JMP', a))
    for n, f in mems(full, 16):
        one('LEA BX, %s' % n, lambda f=f: ('LEA', R16[3], f()))
    one('INT', lambda: ('INT', ('i', Num('i', 2), 8)))

    def flat():
        P = Prog(256)
        for m, t in FLAT:
            P.insn(m, text=t)
            P.insn(m, text='  ' + t.upper() + '\t')
        for m in ('MOVSB', 'STOSB', 'STOSW', 'CMPSB', 'LODSB'):
            P.insn(m, text='rep ' + m.lower(), rep=0xF3)
            P.insn(m, text='REP\n' + m, rep=0xF3)
        return check(P)
    out.append(('no operands', flat))
    for j, m in sorted(JCC.items()):
        def jcc(j=j, m=m):
            P = Prog(256)
            P.insn(m, ('rel', 'f'), text=j + ' f').insn(m, ('rel', 'f'), text=j.lower() + ' short f').insn('CBW', text='cbw').label('f').insn(m, ('rel', 'f'), text=j.lower() + ' f').insn(m, ('rel', 'f'), text=j + ' short f')
            return check(P)
        out.append((j, jcc))
        bad('%s ax' % j)
        bad('%s [bx]' % j)
    # wrong combinations
    two = ALU + ['MOV', 'TEST', 'XCHG']
    for m in two:
        l = m.lower()
        for a in R8:
            for b in R16 + SR:
                if full or (a[1] + b[1]) % 4 == 0:
                    bad('%s %s, %s' % (l, txt(a), txt(b)))
                    bad('%s %s, %s' % (l, txt(b), txt(a)))
        for s in SR:
            bad('%s %s, 1' % (l, txt(s)))
            bad('%s %s, %s' % (l, txt(s), txt(SR[(s[1] + 1) % 4])))
            bad('%s byte [bx], %s' % (l, txt(s)))
            if m != 'MOV':
                bad('%s ax, %s' % (l, txt(s)))
                bad('%s %s, dx' % (l, txt(s)))
                bad('%s %s, [bx]' % (l, txt(s)))
                bad('%s [bx], %s' % (l, txt(s)))
        for x in ('byte [bx], ax', 'word [bx], al', 'ax, byte [bx]', 'al, word [bx]', '[bx], 1', '1, ax', '1, 2', '[bx], [si]', 'byte [bx], byte [si]', 'ax', 'ax,', ', ax', '', 'ax ax', 'ax, bx, cx', 'byte ax, 1', 'ax, byte 1', 'ax, [bx', 'ax, bx]', 'ax, [ax]', 'ax, [bx+bp]', 'ax, [si+di]',
                  'ax, [bx-si]', 'ax, [bx+bx]', 'ax, [cl]', 'ax, [-si]', 'ax, [es]', 'ax, [bx+]', 'ax, []', 'ax, [es:]', 'ax, [bx-f]', 'ax, es:[bx', 'ax, [bx*2]', 'ax, [dx]', 'ax, [sp]', 'ax, [bp+bp]', "ax, ''", "ax, 'abc'", 'ax, [si+si]', 'ax, [si+di+bx]', 'ax, [si+bx+di]', 'ax, [bx+2-si]'):
            bad('f: %s %s' % (l, x))
    for m in SH:
        l = m.lower()
        for x in ('ax, 2', 'ax, 0', 'al, 3', 'ax, ch', 'ax, cx', 'al, ax', 'es, 1', 'ax, es', 'ax, -1', 'ax, f', 'ax, [bx]', '1, 1', 'ax', 'ax, 257', '[bx], 1', 'ax, bl'):
            bad('f: %s %s' % (l, x))
    for m in UN + ['INC', 'DEC', 'PUSH', 'POP', 'CALL', 'INT', 'JMP', 'LEA']:
        l = m.lower()
        for x in ([] if m in ('PUSH', 'POP') else ['es', 'cs', 'ss', 'ds']) + ['', ',', 'ax, bx' if m != 'LEA' else 'ax, bx', '[bx]', 'byte ax', 'ax ax', 'ax 1'] + (['5'] if m not in ('PUSH', 'CALL', 'INT', 'JMP') else []):
            if m in ('CALL', 'JMP', 'PUSH', 'POP') and x == '[bx]':
                continue        # only words: not ambiguous
            bad('f: %s %s' % (l, x))
    for x in ('push al', 'pop bh', 'push byte [bx]', 'call al', 'jmp ch', 'lea al, [bx]', 'lea ax, bx', 'lea ax, 5', 'lea es, [bx]', 'lea [bx], ax', 'int 256', 'int -1', 'int ax', 'int f', 'call byte [bx]', 'jmp short ax', 'call short f', 'jmp byte [bx]', 'cbw ax', 'ret ax', 'nop2', 'foo', 'foo ax', 'mov', 'mov mov, ax', 'ax', 'byte', '5', '[bx]', ',', "'a'", 'xlatb', 'mov ax, cbw', 'mov db, 1', 'pop 5', 'pop byte [bx]'):
        bad('f: ' + x)
    return out


def jobstep(job):
    B.reset()
    return job[1]()


STEPS['insn'] = (insn_jobs, jobstep)
ASSUME = ['sas.c as built for the host (32-bit int); open/read/write/close behave as the C library documents', 'oracle: vt/x86.py decoder (Intel 8086 manual)', 'immediates of 8-bit operands are taken modulo 256', 'unknown numbers have the stated number of digits']


def A01(full):
    rep = Report('A01')
    runall(rep, 'insn', full)
    rep.functions = set(mod().funcs)
    return finish(rep, 1500, ASSUME, 'the bytes written decode to the instruction in the source, for all values of its numbers; what the 8086 has no encoding for is refused')


def __getattr__(name):
    import importlib
    m = importlib.import_module('.a2', __package__)
    if hasattr(m, name):
        return getattr(m, name)
    raise AttributeError(name)
