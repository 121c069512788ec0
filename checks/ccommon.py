"""Operand contracts shared by the scc code-generation checks."""
from vt import bdd as B
from vt import sccmodel as SM
from vt import x86
from vt.absint import Ptr
from vt.sccmodel import Scc, CPU, interpret, initial, same, BadCode, ORG
from vt.ir import AnalysisBroken
from vt.x86 import AX, CX, DX, BX, SP, BP, SI, DI

REGS = {'CX': CX, 'DX': DX, 'SI': SI, 'DI': DI}


class T:
    """A C type as the compiler represents it."""

    def __init__(self, name, bits, size, unsigned=False, pointee=None, extra=0, decay=None):
        self.rbits, self.rextra = decay or (bits, extra)    # type of the value it yields
        self.array = decay is not None
        self.name, self.bits, self.size, self.unsigned, self.pointee, self.extra = name, bits, size, unsigned, pointee, extra

    def __repr__(self):
        return self.name


def types(E):
    P1 = E['VT_PTR1']
    return {t.name: t for t in (
        T('int', E['VT_INT'], 2),
        T('uint', E['VT_INT'] | E['VT_UNSIGNED'], 2, True),
        T('char', E['VT_CHAR'], 1),
        T('uchar', E['VT_CHAR'] | E['VT_UNSIGNED'], 1, True),
        T('char*', E['VT_CHAR'] | P1, 2, True, 1),
        T('int*', E['VT_INT'] | P1, 2, True, 2),
        T('char**', E['VT_CHAR'] | P1 + P1, 2, True, 2),
        T('s4*', E['VT_STRUCT'] | P1, 2, True, 4, 0),
        T('s6*', E['VT_STRUCT'] | P1, 2, True, 6, 1),
    )}


def promote(t, v):
    if t.size == 1:
        b = B.vtrunc(v, 8)
        return B.vzext(b, 8, 16) if t.unsigned else B.vsext(b, 8, 16)
    return v


class Machine(Scc):
    """Scc with variables: VarDecls[10]/[11] are globals with known address,
    [12]/[13] globals whose address is not known yet, StructDecls[0]/[1] have
    2/3 int members, ArrayDecls[0] is int[5], [1] is char[7]."""
    G = {'L': 10, 'R': 11, 'Lf': 12, 'Rf': 13}

    def var(self, st):
        E = self.E
        sf = self.setfield
        for k, i in self.G.items():
            sf(st, 'VarDecls', i, 'VarDecl', 'Id', 100 + i)
            sf(st, 'VarDecls', i, 'VarDecl', 'Type', E['VT_LOCGLOB'] | E['VT_INT'])
            sf(st, 'VarDecls', i, 'VarDecl', 'TypeExtra', 0)
            sf(st, 'VarDecls', i, 'VarDecl', 'Offset', 0 if 'f' in k else B.norm(B.bits(self.gaddr(k), 16) + (0,) * 16))
            sf(st, 'VarDecls', i, 'VarDecl', 'Ref', 0)
        n = 0
        ms = self.m.globals['StructMembers'].ty.elt.size()
        for s, cnt in ((0, 2), (1, 3)):
            sf(st, 'StructDecls', s, 'StructDecl', 'Id', 50 + s)
            sf(st, 'StructDecls', s, 'StructDecl', 'Members', Ptr('StructMembers', n * ms))
            for j in range(cnt):
                sf(st, 'StructMembers', n, 'StructMember', 'Id', 200 + n)
                sf(st, 'StructMembers', n, 'StructMember', 'Type', E['VT_INT'])
                sf(st, 'StructMembers', n, 'StructMember', 'TypeExtra', 0)
                sf(st, 'StructMembers', n, 'StructMember', 'Next', Ptr(None, 0) if j == cnt - 1 else Ptr('StructMembers', (n + 1) * ms))
                n += 1
        for s, (union, mem) in enumerate(self.members()):
            s += 2
            sf(st, 'StructDecls', s, 'StructDecl', 'Id', 50 + s + (E['IS_UNION_FLAG'] if union else 0))
            sf(st, 'StructDecls', s, 'StructDecl', 'Members', Ptr('StructMembers', n * ms))
            for j, (ty, extra, _) in enumerate(mem):
                sf(st, 'StructMembers', n, 'StructMember', 'Id', 200 + j)
                sf(st, 'StructMembers', n, 'StructMember', 'Type', ty)
                sf(st, 'StructMembers', n, 'StructMember', 'TypeExtra', extra)
                sf(st, 'StructMembers', n, 'StructMember', 'Next', Ptr(None, 0) if j == len(mem) - 1 else Ptr('StructMembers', (n + 1) * ms))
                n += 1
        self.ex.setg(st, 'StructCount', 4)
        self.ex.setg(st, 'StructMemCount', n)
        for i, (bound, ty, extra, _) in enumerate(self.arrays()):
            sf(st, 'ArrayDecls', i, 'ArrayDecl', 'Bound', bound)
            sf(st, 'ArrayDecls', i, 'ArrayDecl', 'Type', ty)
            sf(st, 'ArrayDecls', i, 'ArrayDecl', 'TypeExtra', extra)
        self.ex.setg(st, 'ArrayCount', len(self.arrays()))

    def arrays(self):
        """(bound, element type, element extra, element size)"""
        E = self.E
        return [(5, E['VT_INT'], 0, 2), (7, E['VT_CHAR'], 0, 1), (3, E['VT_ARRAY'], 0, 10), (4, E['VT_STRUCT'], 1, 6),
                (300, E['VT_INT'] | E['VT_PTR1'], 0, 2), (2, E['VT_ARRAY'], 1, 7), (9, E['VT_CHAR'] | E['VT_UNSIGNED'], 0, 1)]

    def members(self):
        """Member lists of struct 2 and union 3: (type, extra, size)"""
        E = self.E
        m = [(E['VT_CHAR'], 0, 1), (E['VT_INT'], 0, 2), (E['VT_ARRAY'], 1, 7), (E['VT_STRUCT'], 1, 6),
             (E['VT_INT'] | E['VT_PTR1'], 0, 2), (E['VT_ARRAY'], 3, 24), (E['VT_CHAR'] | E['VT_UNSIGNED'], 0, 1),
             (E['VT_STRUCT'] | E['VT_PTR1'], 1, 2), (E['VT_ARRAY'], 4, 600), (E['VT_INT'] | E['VT_UNSIGNED'], 0, 2)]
        return [(False, m), (True, m)]

    def gaddr(self, k):
        return B.sym('g.' + k, 16)

    def fixups(self, fin):
        """Positions in the emitted code that hold a still unknown address."""
        cs = self.E['CODESTART']
        out = {}
        for k, i in self.G.items():
            if 'f' not in k:
                continue
            r = fin.field('VarDecls', i, 'VarDecl', 'Ref')
            seen = 0
            while r != 0:
                if type(r) is not int:
                    raise AnalysisBroken('symbolic fixup chain')
                if r < ORG:
                    raise BadCode('fixup chain runs into other code')
                seen += 1
                if seen > 8:
                    raise BadCode('cyclic fixup chain')
                out[r - ORG] = self.gaddr(k)
                lo, hi = (self.ex.load_c(fin.st, 'Output', r - cs + d, 1, False, 8) for d in (0, 1))
                r = lo | hi << 8 if type(lo) is int and type(hi) is int else lo
        return out


class Operand:
    """kind: lit | lit0 | lit1 | loc | loc+ | loc- | locw | glob | globf | mem | rv | bool

    loc is a frame offset that fits a signed byte, loc+ one in 128..255, loc-
    one in -256..-129, locw any offset of magnitude 256..32767 with bit 14 != sign."""

    def __init__(self, side, kind, t, cc=None):
        self.side, self.kind, self.t, self.cc = side, kind, t, cc

    def __repr__(self):
        return '%s:%s' % (self.kind, self.t.name) + ('' if self.cc is None else '/%d' % self.cc)

    def sy(self, what, w=16):
        return B.sym('%s.%s' % (self.side, what), w)

    def lit(self):
        return 0 if self.kind == 'lit0' else self.sy('c', 17)

    def off(self):
        b = self.sy('off', 16)
        return {'loc': b[:7] + (b[7],) * 9, 'loc+': b[:7] + (1,) + (0,) * 8, 'loc-': b[:7] + (0,) + (1,) * 8,
                'locw': b[:14] + (b[15] ^ 1, b[15])}[self.kind]

    @property
    def code(self):
        return self.kind in ('mem', 'rv', 'bool')

    def declare(self, S, st, typebits=None):
        """Set CurrentType/Val/Extra to describe this operand."""
        E, t = S.E, self.t
        bits = t.bits if typebits is None else typebits
        k = self.kind
        if k[:3] == 'lit':
            b = self.lit()
            if b != 0:
                st.guard = B.band(st.guard, B.bor(b[16] ^ 1, b[15]))    # -32768..65535
                if k == 'lit1':
                    st.guard = B.band(st.guard, B.veq(b, 0, 17) ^ 1)
            S.cur(st, E['VT_INT'] | E['VT_LOCLIT'], B.vsext(b, 17, 32), 0)
        elif k[:3] == 'loc':
            S.cur(st, bits | E['VT_LVAL'] | E['VT_LOCOFF'], B.vsext(self.off(), 16, 32), t.extra)
        elif k in ('glob', 'globf'):
            if k == 'glob':     # a known address is never zero
                st.guard = B.band(st.guard, B.veq(S.gaddr(self.side), 0, 16) ^ 1)
            S.cur(st, bits | E['VT_LVAL'] | E['VT_LOCGLOB'], S.G[self.side + k[4:]], t.extra)
        elif k == 'mem':
            S.cur(st, bits | E['VT_LVAL'], B.fresh('junk', 32), t.extra)
        elif k == 'rv':
            S.cur(st, bits, B.fresh('junk', 32), t.extra)
        elif k == 'bool':
            S.cur(st, E['VT_BOOL'], self.cc, t.extra)

    def addr(self, S, cpu0):
        k = self.kind
        if k[:3] == 'loc':
            return B.vadd(cpu0.r[BP], self.off(), 16)
        if k in ('glob', 'globf'):
            return S.gaddr(self.side + k[4:])
        return self.sy('ax')

    def place(self, cpu):
        """Machine state in which this operand has been evaluated."""
        if self.kind in ('mem', 'rv'):
            cpu.r[AX] = self.sy('ax')
        elif self.kind == 'bool':
            for f in 'CZSO':
                cpu.f[f] = self.sy('f' + f, 1)[0]

    def value(self, S, cpu0, guard=1):
        """Its C value promoted to 16 bits."""
        k, t = self.kind, self.t
        if k[:3] == 'lit':
            return B.vtrunc(self.lit(), 16)
        if k == 'rv':
            return self.sy('ax')
        if k == 'bool':
            c = CPU()
            for f in 'CZSO':
                c.f[f] = self.sy('f' + f, 1)[0]
            return B.norm((c.cond(self.cc),) + (0,) * 15)
        a = self.addr(S, cpu0)
        if t.array:
            return a
        if t.size == 1:
            return promote(t, initial(a, 8, guard))
        return initial(a, 16, guard)


class Case:
    """Context in which a step is analysed."""

    def __init__(self, pend=0, reguse=0, adj=0, out='b', spadj=0, lo=-20):
        self.pend, self.reguse, self.adj, self.out, self.spadj, self.lo = pend, reguse, adj, out, spadj, lo

    def __repr__(self):
        return 'P%dU%dA%d%s%s' % (self.pend, self.reguse, self.adj, self.out, '+sp' if self.spadj else '')

    def cpu(self):
        c = CPU()
        c.r[SP] = B.vadd(c.r[BP], (self.lo - self.adj) & 0xffff, 16)
        return c


def produce(S, ex, st, op, out='b', spadj=0):
    """Contract of a parse routine that yields operand `op`."""
    if not op.code:
        op.declare(S, st)
        return [(st, None)]
    res = []
    if op.kind == 'bool':
        spadj = 0       # a condition in the flags never has stack work pending
    info = {'op': op, 'bx': False, 'sp': spadj}
    dead = ex.getg(st, 'IsDeadCode')
    if dead:
        op.declare(S, st)
        return [(st, None)]
    states = [st]
    if out == 'c':
        # operand code that needs BX itself: the held value goes to the stack
        ns = []
        for s in states:
            for s2 in S.emit_mark(s, {'op': None, 'bx': False, 'sp': 0}):
                if ex.getg(s2, 'RegUse'):
                    for s3, _ in ex.call('Output1Byte', s2, [0x53]):
                        ex.setg(s3, 'RegUse', 0)
                        lo = ex.getg(s3, 'LocalOffset')
                        ex.setg(s3, 'LocalOffset', B.vsub(lo, 2, 32))
                        ns.append(s3)
                else:
                    ns.append(s2)
        states = ns
        info['bx'] = True
    for s in states:
        for s2 in S.emit_mark(s, info):
            op.declare(S, s2)
            if spadj:
                ex.setg(s2, 'Pending', B.vadd(ex.getg(s2, 'Pending'), spadj, 32))
            res.append((s2, None))
    return res


_mk = [0]


def on_mark(c, info, g):
    op = info['op']
    if op is None:
        return
    c.trace += (op.side,)
    for n, r in REGS.items():
        c.r[r] = B.sym('clob.%s.%s' % (op.side, n), 16)
    if info['bx']:
        c.r[BX] = B.sym('clob.%s.BX' % op.side, 16)
    c.r[AX] = B.sym('clob.%s.AX' % op.side, 16)
    for f in 'CZSO':
        c.f[f] = B.sym('clob.%s.f%s' % (op.side, f), 1)[0]
    op.place(c)
    if info['sp']:
        c.r[SP] = B.vsub(c.r[SP], info['sp'], 16)


def pre_machine(case, lhs):
    c = case.cpu()
    if lhs is not None:
        lhs.place(c)
    return c


class Problem(Exception):
    pass


def need(cond, guard, what):
    """cond must hold under guard."""
    bad = B.band(guard, cond ^ 1) if cond not in (0, 1) else (0 if cond else guard)
    if bad:
        w = B.explain(B.sat_one(bad))
        raise Problem('%s (%s)' % (what, ', '.join('%s=%X' % kv for kv in sorted(w.items())[:6])))


def need_eq(a, b, w, guard, what):
    """a == b must hold under guard."""
    if a == b:
        return
    for x, y in zip(B.bits(a, w), B.bits(b, w)):
        if x != y:
            bad = B.band(guard, B.bxor(x, y))
            if bad:
                e = B.explain(B.sat_one(bad))
                raise Problem('%s (%s)' % (what, ', '.join('%s=%X' % kv for kv in sorted(e.items())[:6])))


def context_ok(S, fin, case, cpu0, c, g):
    """The values held for outer expressions survive, SP and BP are right."""
    p1, u1, lo1 = fin.gi('Pending'), fin.gi('RegUse'), fin.gi('LocalOffset')
    held = ([cpu0.r[BX]] if case.reguse else []) + ([cpu0.r[AX]] if case.pend else [])
    adj1 = p1 & ~1
    need_eq(c.r[BP], cpu0.r[BP], 16, g, 'BP changed')
    need_eq(c.r[SP], B.vadd(c.r[BP], (lo1 - adj1) & 0xffff, 16), 16, g, 'stack pointer out of step with the recorded offset')
    rest = list(held)
    if p1 & 1:
        if not case.pend:
            raise Problem('a value is left pending')
        need_eq(c.r[AX], rest.pop(), 16, g, 'the pending left operand was lost')
    if u1:
        if not rest:
            raise Problem('BX is marked in use for nothing')
        need_eq(c.r[BX], rest.pop(), 16, g, 'the left operand held in BX was lost')
    if lo1 != case.lo - 2 * len(rest):
        raise Problem('stack offset %d after the step, %d expected' % (lo1, case.lo - 2 * len(rest)))
    c.guard = g
    a = B.vadd(cpu0.r[BP], lo1 & 0xffff, 16)
    while rest:
        need_eq(c.read(x86.SS, a, 16), rest.pop(), 16, g, 'a left operand saved on the stack was lost')
        a = B.vadd(a, 2, 16)


def only_writes(case, cpu0, c, g, allowed):
    """Every store goes to `allowed` byte addresses or the stack below the frame."""
    for w in c.writes:
        if any(same(a, w, g) for a in allowed):
            continue
        ok = False
        for d in range(1, 40):
            if same(B.vadd(cpu0.r[BP], (case.lo - max(case.adj, 0) - d) & 0xffff, 16), w, g) or \
               same(B.vadd(cpu0.r[BP], (case.lo - d) & 0xffff, 16), w, g):
                ok = True
                break
        if not ok:
            raise Problem('stores to a place that is not the assigned object')


def zf_ok(S, fin, c, g, value_in_ax):
    if fin.gi('LastZFInst') == fin.gi('CodeAddress'):
        if not value_in_ax:
            return
        z = c.f['Z']
        if z is None:
            raise Problem('the zero flag is assumed to reflect the result after an instruction that leaves it undefined')
        need(B.bxor(z, B.veq(c.r[AX], 0, 16)) ^ 1, g, 'the zero flag is assumed to reflect the result but does not')
