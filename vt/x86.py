"""The oracle: an independent 8086 decoder and instruction semantics.

Bytes may be constants or symbolic 8-bit vectors (immediates); semantics are
computed on vt.bdd vectors.  Written from the Intel 8086 manual, sharing
nothing with the code under analysis.
"""
from . import bdd as B

R16 = ['AX', 'CX', 'DX', 'BX', 'SP', 'BP', 'SI', 'DI']
R8 = ['AL', 'CL', 'DL', 'BL', 'AH', 'CH', 'DH', 'BH']
SR = ['ES', 'CS', 'SS', 'DS']
ALU = ['ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP']
CC = ['O', 'NO', 'C', 'NC', 'Z', 'NZ', 'NA', 'A', 'S', 'NS', 'P', 'NP', 'L', 'NL', 'NG', 'G']
SHIFT = ['ROL', 'ROR', 'RCL', 'RCR', 'SHL', 'SHR', None, 'SAR']
EA = [('BX', 'SI'), ('BX', 'DI'), ('BP', 'SI'), ('BP', 'DI'), ('SI',), ('DI',), ('BP',), ('BX',)]
AX, CX, DX, BX, SP, BP, SI, DI = range(8)
ES, CS, SS, DS = range(4)


class BadInsn(Exception):
    pass


class Truncated(Exception):
    pass


class Insn:
    def __init__(self):
        self.m = None       # mnemonic
        self.w = 16         # operand width
        self.ops = []
        self.len = 0
        self.seg = None     # override
        self.rep = None
        self.bytes = ()

    def __repr__(self):
        return ('%s ' % {0xF2: 'REPNE', 0xF3: 'REP'}.get(self.rep) if self.rep else '') + self.m + ' ' + ', '.join(opstr(o) for o in self.ops)


def opstr(o):
    k = o[0]
    if k == 'r':
        return (R16 if o[2] == 16 else R8)[o[1]]
    if k == 's':
        return SR[o[1]]
    if k == 'i':
        return B.show(o[1])
    if k == 'rel':
        return 'rel ' + B.show(o[1])
    if k == 'm':
        return '%s[%s%s:%s]' % ('word' if o[4] == 16 else 'byte', '', SR[o[3]] if o[3] is not None else '', '+'.join([R16[r] for r in o[1]] + [B.show(o[2])]))
    return str(o)


def decode(b, pos=0):
    """Decode one instruction of the byte list b at pos."""
    i = pos
    n = Insn()

    def byte():
        nonlocal i
        if i >= len(b):
            raise Truncated()
        v = b[i]
        i += 1
        return v

    def cbyte():
        v = byte()
        if type(v) is not int:
            raise BadInsn('opcode byte not constant')
        return v

    def word():
        lo, hi = byte(), byte()
        if type(lo) is int and type(hi) is int:
            return lo | hi << 8
        return B.norm(B.bits(lo, 8) + B.bits(hi, 8))

    def simm():
        return B.vsext(byte(), 8, 16)

    mr = [None]

    def modrm():
        m = cbyte()
        mr[0] = m
        return m >> 3 & 7

    def rm(w):
        m = mr[0]
        md, r = m >> 6, m & 7
        if md == 3:
            return ('r', r, w)
        if md == 0 and r == 6:
            return ('m', (), word(), n.seg if n.seg is not None else DS, w)
        d = 0 if md == 0 else simm() if md == 1 else word()
        regs = tuple(R16.index(x) for x in EA[r])
        return ('m', regs, d, n.seg if n.seg is not None else SS if BP in regs else DS, w)

    op = cbyte()
    while op in (0x26, 0x2E, 0x36, 0x3E, 0xF2, 0xF3):
        if op >= 0xF0:
            n.rep = op
        else:
            n.seg = op >> 3 & 3
        op = cbyte()
    n.op = op
    w = 16 if op & 1 else 8
    n.w = w
    if op < 0x40:
        k = op & 7
        if k < 4:
            r = modrm()
            a = rm(w)
            g = ('r', r, w)
            n.m, n.ops = ALU[op >> 3], [g, a] if op & 2 else [a, g]
        elif k == 4 or k == 5:
            n.m, n.ops = ALU[op >> 3], [('r', 0, w), ('i', word() if w == 16 else byte(), w)]
        elif op < 0x20:
            n.m, n.ops, n.w = 'POP' if op & 1 else 'PUSH', [('s', op >> 3)], 16
        else:
            n.m = {0x27: 'DAA', 0x2F: 'DAS', 0x37: 'AAA', 0x3F: 'AAS'}[op]
    elif op < 0x50:
        n.m, n.ops, n.w = 'DEC' if op & 8 else 'INC', [('r', op & 7, 16)], 16
    elif op < 0x60:
        n.m, n.ops, n.w = 'POP' if op & 8 else 'PUSH', [('r', op & 7, 16)], 16
    elif 0x70 <= op < 0x80:
        n.m, n.ops = 'J' + CC[op & 15], [('rel', simm())]
    elif 0x80 <= op < 0x84:
        r = modrm()
        a = rm(w)
        n.m, n.ops = ALU[r], [a, ('i', word() if op == 0x81 else (simm() if w == 16 else byte()), w)]
    elif op in (0x84, 0x85, 0x86, 0x87):
        r = modrm()
        n.m, n.ops = 'XCHG' if op & 2 else 'TEST', [rm(w), ('r', r, w)]
    elif 0x88 <= op < 0x8C:
        r = modrm()
        a = rm(w)
        g = ('r', r, w)
        n.m, n.ops = 'MOV', [g, a] if op & 2 else [a, g]
    elif op in (0x8C, 0x8E):
        r = modrm()
        if r > 3:
            raise BadInsn('segment register')
        a = rm(16)
        n.w = 16
        n.m, n.ops = 'MOV', [('s', r), a] if op & 2 else [a, ('s', r)]
    elif op in (0x8D, 0xC4, 0xC5):
        r = modrm()
        a = rm(16)
        if a[0] != 'm':
            raise BadInsn('LEA of register')
        n.w = 16
        n.m, n.ops = {0x8D: 'LEA', 0xC4: 'LES', 0xC5: 'LDS'}[op], [('r', r, 16), a]
    elif op == 0x8F:
        if modrm():
            raise BadInsn('8F')
        n.m, n.ops, n.w = 'POP', [rm(16)], 16
    elif 0x90 <= op < 0x98:
        n.w = 16
        n.m, n.ops = ('NOP', []) if op == 0x90 else ('XCHG', [('r', 0, 16), ('r', op & 7, 16)])
    elif op in (0x98, 0x99, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F):
        n.m = {0x98: 'CBW', 0x99: 'CWD', 0x9B: 'WAIT', 0x9C: 'PUSHF', 0x9D: 'POPF', 0x9E: 'SAHF', 0x9F: 'LAHF'}[op]
    elif op in (0x9A, 0xEA):
        n.m, n.ops = 'CALLF' if op == 0x9A else 'JMPF', [('i', word(), 16), ('i', word(), 16)]
    elif 0xA0 <= op < 0xA4:
        a = ('m', (), word(), n.seg if n.seg is not None else DS, w)
        g = ('r', 0, w)
        n.m, n.ops = 'MOV', [a, g] if op & 2 else [g, a]
    elif op in (0xA4, 0xA5, 0xA6, 0xA7, 0xAA, 0xAB, 0xAC, 0xAD, 0xAE, 0xAF):
        n.m = {0xA4: 'MOVS', 0xA6: 'CMPS', 0xAA: 'STOS', 0xAC: 'LODS', 0xAE: 'SCAS'}[op & 0xFE] + ('W' if op & 1 else 'B')
    elif op in (0xA8, 0xA9):
        n.m, n.ops = 'TEST', [('r', 0, w), ('i', word() if w == 16 else byte(), w)]
    elif 0xB0 <= op < 0xC0:
        n.w = w = 16 if op & 8 else 8
        n.m, n.ops = 'MOV', [('r', op & 7, w), ('i', word() if w == 16 else byte(), w)]
    elif op in (0xC2, 0xCA):
        n.m, n.ops = 'RET' if op == 0xC2 else 'RETF', [('i', word(), 16)]
    elif op in (0xC3, 0xCB, 0xCC, 0xCE, 0xCF):
        n.m = {0xC3: 'RET', 0xCB: 'RETF', 0xCC: 'INT3', 0xCE: 'INTO', 0xCF: 'IRET'}[op]
    elif op in (0xC6, 0xC7):
        if modrm():
            raise BadInsn('C6/C7')
        a = rm(w)
        n.m, n.ops = 'MOV', [a, ('i', word() if w == 16 else byte(), w)]
    elif op == 0xCD:
        n.m, n.ops = 'INT', [('i', byte(), 8)]
    elif 0xD0 <= op < 0xD4:
        r = modrm()
        if SHIFT[r] is None:
            raise BadInsn('shift /6')
        n.m, n.ops = SHIFT[r], [rm(w), ('r', 1, 8) if op & 2 else ('i', 1, 8)]
    elif op in (0xD4, 0xD5):
        n.m, n.ops = 'AAM' if op == 0xD4 else 'AAD', [('i', byte(), 8)]
    elif op == 0xD7:
        n.m = 'XLAT'
    elif op in (0xE0, 0xE1, 0xE2, 0xE3):
        n.m, n.ops = ['LOOPNZ', 'LOOPZ', 'LOOP', 'JCXZ'][op & 3], [('rel', simm())]
    elif op in (0xE4, 0xE5, 0xE6, 0xE7, 0xEC, 0xED, 0xEE, 0xEF):
        g = ('r', 0, w)
        p = ('r', DX, 16) if op & 8 else ('i', byte(), 8)
        n.m, n.ops = ('OUT', [p, g]) if op & 2 else ('IN', [g, p])
    elif op in (0xE8, 0xE9):
        n.m, n.ops = 'CALL' if op == 0xE8 else 'JMP', [('rel', word())]
    elif op == 0xEB:
        n.m, n.ops = 'JMP', [('rel', simm())]
    elif op in (0xF4, 0xF5, 0xF8, 0xF9, 0xFA, 0xFB, 0xFC, 0xFD):
        n.m = {0xF4: 'HLT', 0xF5: 'CMC', 0xF8: 'CLC', 0xF9: 'STC', 0xFA: 'CLI', 0xFB: 'STI', 0xFC: 'CLD', 0xFD: 'STD'}[op]
    elif op in (0xF6, 0xF7):
        r = modrm()
        a = rm(w)
        n.m = ['TEST', None, 'NOT', 'NEG', 'MUL', 'IMUL', 'DIV', 'IDIV'][r]
        if n.m is None:
            raise BadInsn('F6/1')
        n.ops = [a]
        if r == 0:
            n.ops.append(('i', word() if w == 16 else byte(), w))
    elif op in (0xFE, 0xFF):
        r = modrm()
        if op == 0xFE and r > 1 or r == 7:
            raise BadInsn('FE/FF')
        a = rm(w)
        n.m, n.ops = ['INC', 'DEC', 'CALL', 'CALLF', 'JMP', 'JMPF', 'PUSH'][r], [a]
    else:
        raise BadInsn('opcode %02X' % op)
    n.len = i - pos
    n.bytes = tuple(b[pos:i])
    return n


def decode_all(b):
    out = []
    p = 0
    while p < len(b):
        n = decode(b, p)
        n.at = p
        out.append(n)
        p += n.len
    return out


class Lazy:
    """A flag computed on demand."""

    def __init__(self, fn):
        self.fn, self.v = fn, None

    def get(self):
        if self.fn is not None:
            self.v = self.fn()
            self.fn = None
        return self.v


class Flags(dict):
    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if type(v) is Lazy:
            v = v.get()
            dict.__setitem__(self, k, v)
        return v

    def get(self, k, d=None):
        return self[k] if k in self else d

    def pop(self, k, *d):
        if k in self:
            self[k]
        return dict.pop(self, k, *d)

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def copy(self):
        return Flags(self)


class CPU:
    """Registers are 16-bit vectors; flags are bits (None = undefined)."""

    def __init__(self):
        self.r = [0] * 8
        self.s = [0] * 4
        self.f = Flags({'C': 0, 'Z': 0, 'S': 0, 'O': 0})
        self.ip = 0
        self.guard = 1

    def read8(self, seg, off):
        raise NotImplementedError

    def write8(self, seg, off, v):
        raise NotImplementedError

    def read(self, seg, off, w):
        lo = self.read8(seg, off)
        if w == 8:
            return lo
        hi = self.read8(seg, B.vadd(off, 1, 16))
        return B.norm(B.bits(lo, 8) + B.bits(hi, 8))

    def write(self, seg, off, v, w):
        self.write8(seg, off, B.vtrunc(v, 8))
        if w == 16:
            self.write8(seg, B.vadd(off, 1, 16), B.vtrunc(B.vlshr_const(v, 8, 16), 8))

    def reg(self, n, w):
        if w == 16:
            return self.r[n]
        v = B.bits(self.r[n & 3], 16)
        return B.norm(v[8:] if n & 4 else v[:8])

    def setreg(self, n, v, w):
        if w == 16:
            self.r[n] = v
            return
        o = B.bits(self.r[n & 3], 16)
        v = B.bits(v, 8)
        self.r[n & 3] = B.norm(o[:8] + v if n & 4 else v + o[8:])

    def ea(self, m):
        a = m[2]
        for r in m[1]:
            a = B.vadd(a, self.r[r], 16)
        return a

    def get(self, o):
        if o[0] == 'r':
            return self.reg(o[1], o[2])
        if o[0] == 's':
            return self.s[o[1]]
        if o[0] == 'i':
            return o[1]
        return self.read(o[3], self.ea(o), o[4])

    def put(self, o, v):
        if o[0] == 'r':
            self.setreg(o[1], v, o[2])
        elif o[0] == 's':
            self.s[o[1]] = v
        else:
            self.write(o[3], self.ea(o), v, o[4])

    def push(self, v):
        self.r[SP] = B.vsub(self.r[SP], 2, 16)
        self.write(SS, self.r[SP], v, 16)

    def pop(self):
        v = self.read(SS, self.r[SP], 16)
        self.r[SP] = B.vadd(self.r[SP], 2, 16)
        return v

    def zs(self, v, w):
        self.f['Z'] = Lazy(lambda: B.veq(v, 0, w))
        self.f['S'] = B.bits(v, w)[-1]

    def addf(self, a, b, cin, w):
        r, c = B.addc(a, b, cin, w)
        a7, b7, r7 = B.bits(a, w)[-1], B.bits(b, w)[-1], B.bits(r, w)[-1]
        self.f['C'] = c
        self.f['O'] = Lazy(lambda: B.band(B.bxor(a7, r7), B.bxor(b7, r7)))
        self.zs(r, w)
        return r

    def subf(self, a, b, bin_, w):
        r, c = B.addc(a, B.vnot(b, w), bin_ ^ 1, w)
        a7, b7, r7 = B.bits(a, w)[-1], B.bits(b, w)[-1], B.bits(r, w)[-1]
        self.f['C'] = c ^ 1
        self.f['O'] = Lazy(lambda: B.band(B.bxor(a7, b7), B.bxor(a7, r7)))
        self.zs(r, w)
        return r

    def logic(self, r, w):
        self.f['C'] = self.f['O'] = 0
        self.zs(r, w)
        return r

    def cond(self, cc):
        f = self.f
        k = cc >> 1
        if k == 5:
            raise BadInsn('parity')
        need = ['O', 'C', 'Z', 'CZ', 'S', None, 'SO', 'SOZ'][k]
        for n in need:
            if f[n] is None:
                raise UndefFlag(n)
        if k == 0:
            r = f['O']
        elif k == 1:
            r = f['C']
        elif k == 2:
            r = f['Z']
        elif k == 3:
            r = B.bor(f['C'], f['Z'])
        elif k == 4:
            r = f['S']
        elif k == 6:
            r = B.bxor(f['S'], f['O'])
        else:
            r = B.bor(f['Z'], B.bxor(f['S'], f['O']))
        return r ^ (cc & 1)

    def alu(self, m, a, b, w):
        if m == 'ADD':
            return self.addf(a, b, 0, w)
        if m == 'ADC':
            return self.addf(a, b, self.f['C'], w)
        if m in ('SUB', 'CMP'):
            return self.subf(a, b, 0, w)
        if m == 'SBB':
            return self.subf(a, b, self.f['C'], w)
        if m in ('AND', 'TEST'):
            return self.logic(B.vand(a, b, w), w)
        if m == 'OR':
            return self.logic(B.vor(a, b, w), w)
        return self.logic(B.vxor(a, b, w), w)

    def step(self, n):
        """Execute decoded instruction n (ip already past it).  Returns None or a
        control-flow tuple."""
        m, o, w = n.m, n.ops, n.w
        if m in ALU:
            r = self.alu(m, self.get(o[0]), self.get(o[1]), w)
            if m != 'CMP':
                self.put(o[0], r)
        elif m == 'TEST':
            self.alu(m, self.get(o[0]), self.get(o[1]), w)
        elif m in ('INC', 'DEC'):
            c = dict.__getitem__(self.f, 'C')
            a = self.get(o[0])
            r = self.addf(a, 1, 0, w) if m == 'INC' else self.subf(a, 1, 0, w)
            self.f['C'] = c
            self.put(o[0], r)
        elif m == 'NOT':
            self.put(o[0], B.vnot(self.get(o[0]), w))
        elif m == 'NEG':
            self.put(o[0], self.subf(0, self.get(o[0]), 0, w))
        elif m == 'MOV':
            self.put(o[0], self.get(o[1]))
        elif m == 'LEA':
            self.put(o[0], self.ea(o[1]))
        elif m in ('LES', 'LDS'):
            a = self.ea(o[1])
            self.put(o[0], self.read(o[1][3], a, 16))
            self.s[ES if m == 'LES' else DS] = self.read(o[1][3], B.vadd(a, 2, 16), 16)
        elif m == 'XCHG':
            a, b = self.get(o[0]), self.get(o[1])
            self.put(o[0], b)
            self.put(o[1], a)
        elif m == 'NOP':
            pass
        elif m == 'PUSH':
            self.push(self.get(o[0]))
        elif m == 'POP':
            self.put(o[0], self.pop())
        elif m == 'CBW':
            self.r[AX] = B.vsext(B.vtrunc(self.r[AX], 8), 8, 16)
        elif m == 'CWD':
            s = B.bits(self.r[AX], 16)[-1]
            self.r[DX] = B.norm((s,) * 16)
        elif m in ('SHL', 'SHR', 'SAR', 'ROL', 'ROR'):
            self.shift(m, o, w)
        elif m in ('MUL', 'IMUL'):
            a, b = self.opnd(self.reg(0, w), w), self.opnd(self.get(o[0]), w)
            e = B.vzext if m == 'MUL' else B.vsext
            p = B.vmul(e(a, w, 2 * w), e(b, w, 2 * w), 2 * w)
            if w == 16:
                self.r[AX] = B.vtrunc(p, 16)
                self.r[DX] = B.norm(B.bits(p, 32)[16:])
            else:
                self.r[AX] = p
            self.f = Flags({'C': None, 'Z': None, 'S': None, 'O': None})
        elif m in ('DIV', 'IDIV'):
            self.div(m, o, w)
        elif m[0] == 'J' and m[1:] in CC:
            c = self.cond(CC.index(m[1:]))
            self.ip = B.vite(c, B.vadd(self.ip, o[0][1], 16), self.ip, 16)
            return ('cond', c, o[0][1])
        elif m == 'JMP':
            if o[0][0] == 'rel':
                self.ip = B.vadd(self.ip, o[0][1], 16)
            else:
                self.ip = self.get(o[0])
            return ('jmp',)
        elif m == 'CALL':
            t = B.vadd(self.ip, o[0][1], 16) if o[0][0] == 'rel' else self.get(o[0])
            self.push(self.ip)
            self.ip = t
            return ('call',)
        elif m == 'RET':
            self.ip = self.pop()
            if o:
                self.r[SP] = B.vadd(self.r[SP], o[0][1], 16)
            return ('ret',)
        elif m == 'LOOP' or m == 'JCXZ':
            if m == 'LOOP':
                self.r[CX] = B.vsub(self.r[CX], 1, 16)
            z = B.veq(self.r[CX], 0, 16)
            c = z if m == 'JCXZ' else z ^ 1
            self.ip = B.vite(c, B.vadd(self.ip, o[0][1], 16), self.ip, 16)
            return ('cond', c, o[0][1])
        elif m[:4] in ('MOVS', 'STOS', 'LODS', 'SCAS', 'CMPS'):
            self.string(m, n)
        elif m == 'INT':
            return ('int', o[0][1])
        elif m in ('CLD', 'CLI', 'STI', 'STD'):
            self.dirflag(m)
        elif m in ('CLC', 'STC', 'CMC'):
            self.f['C'] = {'CLC': 0, 'STC': 1}.get(m, self.f['C'] ^ 1 if self.f['C'] is not None else None)
        else:
            raise BadInsn('no semantics for ' + m)
        return None

    def opnd(self, v, w):
        return v

    def dirflag(self, m):
        pass

    def shift(self, m, o, w):
        a = self.get(o[0])
        cnt = self.get(o[1])
        ab = B.bits(a, w)
        old = Flags(self.f)

        def one(k):
            if k == 0:
                return a, Flags(old)
            f = Flags(old)
            if m == 'SHL':
                r = B.vshl_const(a, k, w)
                c = ab[w - k] if k <= w else 0
                f['O'] = B.bxor(c, B.bits(r, w)[-1]) if k == 1 else None
            elif m == 'SHR':
                r = B.vlshr_const(a, k, w)
                c = ab[k - 1] if k <= w else 0
                f['O'] = ab[-1] if k == 1 else None
            elif m == 'SAR':
                r = B.vashr_const(a, k, w)
                c = ab[k - 1] if k <= w else ab[-1]
                f['O'] = 0 if k == 1 else None
            else:
                kk = k % w
                if m == 'ROR':
                    kk = (w - kk) % w
                r = B.norm(ab[w - kk:] + ab[:w - kk])
                c = B.bits(r, w)[0 if m == 'ROL' else -1]
                f['C'] = c
                f['O'] = None
                return r, f
            f['C'] = c
            f['Z'] = Lazy(lambda: B.veq(r, 0, w))
            f['S'] = B.bits(r, w)[-1]
            return r, f
        vals = B.values(cnt, 8, self.guard, 256)
        r, f = one(vals[-1])
        for k in vals[:-1]:
            r2, f2 = one(k)
            e = B.veq(cnt, k, 8)
            r = B.vite(e, r2, r, w)
            for n in f:
                f[n] = None if f[n] is None or f2[n] is None else B.bite(e, f2[n], f[n])
        self.f = f
        self.put(o[0], r)

    def div(self, m, o, w):
        d = self.opnd(self.get(o[0]), w)
        if w != 16:
            raise BadInsn('8-bit divide')
        n = B.norm(B.bits(self.opnd(self.r[AX], 16), 16) + B.bits(self.opnd(self.r[DX], 16), 16))
        s = m == 'IDIV'
        e = B.vsext if s else B.vzext
        dd = e(d, 16, 32)
        self.r[AX] = B.vtrunc(B.vdivrem('sdiv' if s else 'udiv', n, dd, 32), 16)
        self.r[DX] = B.vtrunc(B.vdivrem('srem' if s else 'urem', n, dd, 32), 16)
        self.f = Flags({'C': None, 'Z': None, 'S': None, 'O': None})

    def string(self, m, n):
        w = 16 if m[-1] == 'W' else 8
        st = w // 8
        src = n.seg if n.seg is not None else DS
        k = m[:4]

        def once():
            if k == 'MOVS':
                self.write(ES, self.r[DI], self.read(src, self.r[SI], w), w)
            elif k == 'STOS':
                self.write(ES, self.r[DI], self.reg(0, w), w)
            elif k == 'LODS':
                self.setreg(0, self.read(src, self.r[SI], w), w)
            elif k == 'SCAS':
                self.subf(self.reg(0, w), self.read(ES, self.r[DI], w), 0, w)
            else:
                a = self.read(src, self.r[SI], w)
                self.subf(a, self.read(ES, self.r[DI], w), 0, w)
            if k in ('MOVS', 'LODS', 'CMPS'):
                self.r[SI] = B.vadd(self.r[SI], st, 16)
            if k in ('MOVS', 'STOS', 'SCAS', 'CMPS'):
                self.r[DI] = B.vadd(self.r[DI], st, 16)
        if n.rep is None:
            once()
            return
        # repeated: caller provides constant CX; a data-dependent early end is
        # merged back in with a select on its condition
        ends = []
        while True:
            if type(self.r[CX]) is not int:
                raise BadInsn('symbolic repeat count')
            if self.r[CX] == 0:
                break
            once()
            self.r[CX] -= 1
            if k in ('SCAS', 'CMPS') and self.r[CX]:
                z = self.f['Z']
                ends.append((z ^ 1 if n.rep == 0xF3 else z, list(self.r), Flags(self.f)))
        for e, r, f in reversed(ends):
            self.r = [B.vite(e, a, b, 16) for a, b in zip(r, self.r)]
            self.f = Flags({x: B.bite(e, f[x], self.f[x]) for x in f})


class UndefFlag(Exception):
    pass
