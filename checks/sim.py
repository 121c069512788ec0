"""sim86 checks: M01 (results), M02 (flags and branches), M03 (operand addresses),
M04 (DOS services), M05 (memory confinement), M06 (-v/-p change nothing)."""
import os
from vt import bdd as B
from vt import ir, x86, simmodel, util
from vt.absint import Obj, Ptr, NULL
from vt.ir import AnalysisBroken

SRC = os.path.join(util.REPO, 'sim86.c')
_mod = None


def mod():
    global _mod
    if _mod is None:
        _mod = ir.compile_ir(SRC, ['-I', util.REPO])
    return _mod


class Spec(x86.CPU):
    def __init__(self, base_read, guard):
        super().__init__()
        self.log = ()
        self.base = base_read
        self.guard = guard
        self.reads = []

    def lin(self, seg, off):
        return B.vtrunc(B.vadd(B.vshl_const(B.vzext(self.s[seg], 16, 20), 4, 20), B.vzext(off, 16, 20), 20), 20)

    def read8(self, seg, off):
        return simmodel.Mem.read(self.log, self.lin(seg, off), self.base)

    def write8(self, seg, off, v):
        self.log = self.log + ((self.lin(seg, off), v),)


def imm(n, w=8):
    return B.sym('i%d' % n, w)


def disp(mod_, rm):
    if mod_ == 0:
        return [imm(8), imm(9)] if rm == 6 else []
    return [imm(8)] if mod_ == 1 else [imm(8), imm(9)] if mod_ == 2 else []


DEEP = (0x01, 0x8B, 0x88, 0x8D, 0x83, 0xC7, 0xFF)


def modrms(regs, full, deep=True):
    """(modrm byte) choices for the given reg fields.  The operand decoder is
    shared code: a few opcodes get every mod/rm, the rest a cross-section."""
    out = []
    for r in regs:
        for md in range(4):
            for k in range(8):
                if md < 3 and not full and not deep and (md, k) not in ((0, 5), (0, 6), (1, 3), (1, 6), (2, 7)):
                    continue
                if md == 2 and not full and k not in (2, 5, 6, 7):
                    continue
                if md == 3 and not full and k not in ((r + 1) & 7, r, (r + 5) & 7):
                    continue
                out.append(md << 6 | r << 3 | k)
    return out


def forms(full):
    """Instruction forms the simulator implements (confirmed by reading), as
    tuples (bytes-spec, init-spec).  Bytes: int or 'i' (immediate byte) or 'D'
    (displacement for the preceding ModRM)."""
    F = []

    def mr(op, regs, tail=(), init=None, pre=()):
        for m in modrms(regs, full, op in DEEP and not pre):
            F.append((tuple(pre) + (op, m, 'D') + tuple(tail), init))
    for a in range(8):
        for k in range(4):
            mr(a << 3 | k, range(8) if full else [(a + 3 * k) & 7, (a + 3 * k + 4) & 7, (a * 2 + k + 1) & 7])
        F.append(((a << 3 | 4, 'i'), None))
        F.append(((a << 3 | 5, 'i', 'j'), None))
    for s in range(4):
        F.append(((6 | s << 3,), None))
        if s != 1:
            F.append(((7 | s << 3,), None))
    for r in range(8):
        for b in (0x40, 0x48, 0x50, 0x58, 0x90):
            if b == 0x50 and r == 4:
                continue        # PUSH SP differs between CPU generations
            F.append(((b + r,), None))
        F.append(((0xB0 + r, 'i'), None))
        F.append(((0xB8 + r, 'i', 'j'), None))
    for c in range(16):
        if c >> 1 != 5:
            F.append(((0x70 + c, 'i'), None))
    for op in (0x80, 0x81, 0x82, 0x83):
        mr(op, range(8), ('i', 'j') if op == 0x81 else ('i',))
    for op in (0x88, 0x89, 0x8A, 0x8B):
        mr(op, range(8))
    mr(0x8C, range(4))
    mr(0x8E, (0, 2, 3))
    for m in modrms(range(8), True):
        if m < 0xC0:
            F.append(((0x8D, m, 'D'), None))
    F.append(((0x98,), None))
    F.append(((0x99,), None))
    for op in (0xA0, 0xA1, 0xA2, 0xA3):
        F.append(((op, 'i', 'j'), None))
    for op in (0xA4, 0xA5, 0xAA, 0xAB):
        for n in (0, 1, 2, 3):
            F.append(((0xF3, op), ('CX', n)))
    for op in (0xAA, 0xAB, 0xAC, 0xAD):
        F.append(((op,), None))
    for n in (0, 1, 2, 3):
        F.append(((0xF3, 0xA6), ('CX', n)))
        F.append(((0xF2, 0xAE), ('CX', n)))
    F.append(((0xC3,), None))
    mr(0xC6, (0,), ('i',))
    mr(0xC7, (0,), ('i', 'j'))
    mr(0xD1, (4, 5, 7))
    mr(0xD3, (4, 5, 7), init=('CLLT32', 0))
    F.append(((0xE8, 'i', 'j'), None))
    F.append(((0xE9, 'i', 'j'), None))
    F.append(((0xEB, 'i'), None))
    mr(0xF7, (2, 3, 4, 5))
    mr(0xF7, (6,), init=('DX0', 0))
    mr(0xF7, (7,), init=('DXS', 0))
    mr(0xFE, (0, 1))
    mr(0xFF, (0, 1, 2))
    # segment override prefixes
    for p in (0x26, 0x2E, 0x36, 0x3E):
        for m in (0x07, 0x06, 0x46, 0x1A, 0x9D, 0x05):
            for op in (0x8B, 0x88, 0x01, 0x3A):
                F.append(((p, op, m, 'D'), None))
        mr(0xC7, (0,), ('i', 'j'), pre=(p,))
        mr(0xC6, (0,), ('i',), pre=(p,))
        for op, rs, t, ini in ((0x81, (0, 7), ('i', 'j'), None), (0x80, (5,), ('i',), None), (0x83, (2,), ('i',), None),
                               (0xD1, (4, 7), (), None), (0xD3, (5,), (), ('CLLT32', 0)), (0xF7, (2, 3, 4), (), None),
                               (0xFF, (0, 1, 2), (), None), (0xFE, (0,), (), None), (0x8C, (0,), (), None), (0x8E, (3,), (), None),
                               (0x89, (1,), (), None), (0x33, (2,), (), None)):
            for r in rs:
                F.append(((p, op, 0x06 | r << 3, 'D') + t, ini))
                F.append(((p, op, 0x45 | r << 3, 'D') + t, ini))
        for op in (0xA0, 0xA1, 0xA2, 0xA3):
            F.append(((p, op, 'i', 'j'), None))
        F.append(((p, 0xAC), None))
        F.append(((p, 0xAD), None))
        F.append(((p, 0xF3, 0xA4), ('CX', 2)))
        F.append(((0xF3, p, 0xA5), ('CX', 2)))
    return F


def build(f):
    code = []
    for x in f[0]:
        if x == 'D':
            code += disp(code[-1] >> 6, code[-1] & 7)
        elif x == 'i':
            code.append(imm(0))
        elif x == 'j':
            code.append(imm(1))
        else:
            code.append(x)
    init = {}
    ops = [x for x in f[0] if x not in (0x26, 0x2E, 0x36, 0x3E, 0xF2, 0xF3)]
    simple = ops[0] in (0x88, 0x89, 0x8A, 0x8B) and len(ops) > 1 and type(ops[1]) is int and ops[1] >> 6 == 0 and ops[1] & 7 in (4, 5, 7)
    if not simple:
        # distinct constant segments (one wraps past 1 MiB) keep address terms small;
        # symbolic segments are covered by the plain register-indirect moves
        init.update({'DS': 0xF8A1, 'ES': 0x5123, 'SS': 0x4777})
    if f[1] and f[1][0] == 'CX' and (f[1][1] > 1 or ops[0] in (0xA4, 0xA5, 0xA6)):
        init.update({'SI': 0x7FFE, 'DI': 0xFFFD})
    if f[1]:
        k, n = f[1]
        if k == 'CX':
            init['CX'] = n
        elif k == 'CLLT32':
            c = B.sym('CX', 16)
            init['CX'] = c[:5] + (0,) * 3 + c[8:]
        elif k == 'DX0':
            init['DX'] = 0
        elif k == 'DXS':
            init['DX'] = (B.sym('AX', 16)[15],) * 16
    return code, init


def name(f):
    s = ' '.join('%02X' % x if type(x) is int else {'i': 'ib', 'j': 'ib', 'D': 'disp'}[x] for x in f[0])
    return s + (' with %s=%s' % f[1] if f[1] else '')


def compare(f, verbose=0, profile=0, ip0=simmodel.IP0, refuse=False):
    """Mismatches between the data-flow summary of one form and the 8086 model:
    list of (category, text)."""
    B.reset()
    m = mod()
    code, init = build(f)
    sim = simmodel.Sim(m, verbose, profile)
    info, finals, exits = sim.summary(code, init, ip0=ip0)
    insn = x86.decode(code)
    bad = []
    pre = 1
    if insn.m in ('DIV', 'IDIV'):
        # divisor non-zero and quotient in range are the program's business
        c0 = Spec(sim.base_read, 1)
        c0.r, c0.s = list(info['r0']), list(info['s0'])
        pre = B.veq(c0.get(insn.ops[0]), 0, 16) ^ 1
    for kind, what, s, inst in exits:
        g = B.band(s.guard, pre)
        if g and not (kind in ('diag', 'assert') and refuse):
            bad.append(('exit', '%s: simulator gives up (%s %r) at %s' % (insn, kind, what, m.loc(inst) if inst else '?'), None))
    cover = 0
    skipO = insn.m in ('SHL', 'SHR', 'SAR')
    for s in finals:
        g = B.band(s.guard, pre)
        if g == 0:
            continue
        cover = B.bor(cover, g)
        c = Spec(sim.base_read, g)
        c.r, c.s, c.f = list(info['r0']), list(info['s0']), x86.Flags(info['f0'])
        c.ip = (ip0 + insn.len) & 0xffff
        c.step(insn)
        o = sim.outcome(s)

        def diff(cat, what, a, b, w):
            d = B.band(g, B.veq(a, b, w) ^ 1)
            if d:
                w_ = B.explain(B.sat_one(d))
                bad.append((cat, '%s: %s differs from the 8086, e.g. when %s' % (insn, what, {k: '%#x' % v for k, v in sorted(w_.items())}), what))
        for i, n in enumerate(x86.R16):
            if n == 'DX' and insn.m in ('MUL', 'IMUL'):
                continue
            diff('result', n, o[n], c.r[i], 16)
        for i, n in enumerate(x86.SR):
            diff('result', n, o[n], c.s[i], 16)
        diff('result', 'IP', o['IP'], c.ip, 16)
        for n in 'CZSO':
            if c.f[n] is None:
                continue
            d = B.band(g, B.bxor(o['f' + n], c.f[n]))
            if d:
                w_ = B.explain(B.sat_one(d))
                bad.append(('flag', '%s: %s flag differs from the 8086, e.g. when %s' % (insn, n + 'F', {k: '%#x' % v for k, v in sorted(w_.items())}), n))
        cmp_log(s.ghost['log'], c.log, g, insn, bad)
    if not refuse and B.bor(cover, pre ^ 1) != 1 and not any(k == 'exit' for k, _, _ in bad):
        bad.append(('exit', '%s: some states never finish the instruction' % insn, None))
    visited = sorted(sim.ex.visited)
    return bad, str(insn), visited, len(finals)


def cmp_log(a, b, g, insn, bad):
    if len(a) != len(b):
        bad.append(('result', '%s: writes %d bytes of memory, the 8086 writes %d' % (insn, len(a), len(b)), 'mem'))
        return
    for k, ((x, v), (y, w)) in enumerate(zip(a, b)):
        d = B.band(g, B.veq(x, y, 20) ^ 1)
        if d:
            # same bytes in another order?
            if sorted(map(str, a)) == sorted(map(str, b)):
                continue
            bad.append(('addr', '%s: address of written byte %d is wrong, e.g. when %s' % (insn, k, fmt(d)), 'mem'))
            continue
        d = B.band(g, B.veq(v, w, 8) ^ 1)
        if d:
            bad.append(('result', '%s: value of written byte %d is wrong, e.g. when %s' % (insn, k, fmt(d)), 'mem'))


def fmt(d):
    return {k: '%#x' % v for k, v in sorted(B.explain(B.sat_one(d)).items())}
