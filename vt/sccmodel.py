"""One code-generation step of scc.c: abstract operands in, 8086 effect out.

A parser routine of the compiler is analysed (vt.absint) from a state that
describes its operands only by contract -- a type, a symbolic frame offset,
global address or constant, or "value already in AX".  Recursive parser calls
are replaced by that same contract, so the result holds for every expression.
The code bytes the routine stores are then decoded and interpreted over
symbolic registers and memory (vt.x86) and compared with C's meaning.
"""
from . import bdd as B
from . import ir, x86
from .absint import Exec, State, Ptr
from .ir import AnalysisBroken
from .x86 import AX, CX, DX, BX, SP, BP, SI, DI

ORG = 0x300         # where the analysed step starts emitting
MARK = 0xD6         # pseudo opcode standing for an operand's own code


def module(src):
    return ir.compile_ir(src, ['-fno-eliminate-unused-debug-types'])


class Bytes:
    """Bytes a step emitted, with the markers of operand code."""

    def __init__(self, data, subst):
        self.data = data
        self.subst = subst


class Final:
    """One outcome of an analysed routine."""

    def __init__(self, S, st, ret):
        self.S, self.st, self.ret, self.guard = S, st, ret, st.guard

    def g(self, name):
        v = self.S.ex.getg(self.st, name)
        return v

    def gi(self, name):
        """Concrete signed 32-bit value of a global."""
        v = self.g(name)
        if type(v) is not int:
            vs = B.values(v, len(v), self.guard, 1)
            if vs and len(vs) == 1:
                v = vs[0]
            else:
                raise AnalysisBroken('%s is not constant after the step' % name)
        return B.sgn(v, 32) if v >> 31 & 1 else v

    def field(self, arr, i, struct, f):
        S = self.S
        lay = S.m.structs[struct]
        es = S.m.globals[arr].ty.elt.size()
        off, n = lay[f]
        return S.ex.load_c(self.st, arr, i * es + off, n, False, n * 8)

    def code(self, start=ORG):
        end = self.gi('CodeAddress')
        cs = self.S.E['CODESTART']
        out = []
        for a in range(start, end):
            out.append(self.S.ex.load_c(self.st, 'Output', a - cs, 1, False, 8))
        return out


class Scc:
    KEY = ('CodeAddress', 'LocalOffset', 'RegUse', 'Pending', 'CurrentType', 'IsDeadCode', 'LastZFInst', 'LocalLabelCounter')

    def __init__(self, m):
        self.m = m
        self.E = m.enums
        for g in self.KEY + ('CurrentVal', 'CurrentTypeExtra', 'Output', 'VarDecls', 'Labels', 'TokenType', 'OperatorPrecedence'):
            if g not in m.globals:
                raise AnalysisBroken('scc: global %s not found' % g)
        for f in ('GetToken', 'Fatal', 'Output1Byte'):
            if f not in m.funcs:
                raise AnalysisBroken('scc: function %s not found' % f)
        self.reset()

    def reset(self):
        ex = self.ex = Exec(self.m, max_unroll=40)
        ex.extra_merge_ok = self.merge_ok
        ex.rec_limit['SizeofType'] = 10
        ex.hooks['GetToken'] = self.h_token
        ex.hooks['Fatal'] = self.h_fatal
        ex.hooks['Printf'] = lambda ex, st, a, i: [(st, None)]
        self.fatal = []
        self.marks = []
        self.tokens = []

    def merge_ok(self, ex, s, t):
        for g in self.KEY:
            ex.gobj(s, g)
            ex.gobj(t, g)
            if ex.getg(s, g) != ex.getg(t, g):
                return False
        n = ex.getg(s, 'LocalLabelCounter')
        for i in range(n if type(n) is int else 0):
            if self.getfield(s, 'Labels', i, 'Label', 'Ref') != self.getfield(t, 'Labels', i, 'Label', 'Ref'):
                return False
        return True

    def getfield(self, st, arr, i, struct, f):
        es = self.m.globals[arr].ty.elt.size()
        off, n = self.m.structs[struct][f]
        self.ex.gobj(st, arr)
        return self.ex.load_c(st, arr, i * es + off, n, False, n * 8)

    def h_fatal(self, ex, st, a, inst):
        self.fatal.append(st)
        return []

    def h_token(self, ex, st, a, inst):
        k = st.ghost.get('tok', 0)
        st.ghost['tok'] = k + 1
        t = self.tokens[k] if k < len(self.tokens) else (ord(';'), None)
        self.set_token(st, t)
        return [(st, None)]

    def set_token(self, st, t):
        ty, num = t[0], t[1] if len(t) > 1 else None
        prec = t[2] if len(t) > 2 else self.prec(ty)
        self.ex.setg(st, 'TokenType', ty & 0xffffffff)
        self.ex.setg(st, 'OperatorPrecedence', prec)
        if num is not None:
            self.ex.setg(st, 'TokenNumVal', num)

    def prec(self, ty):
        return self.PREC.get(ty, 100)

    @property
    def PREC(self):
        """Token type -> OperatorPrecedence as GetToken sets it for the operator's spelling."""
        p = self.__dict__.get('_prec')
        if p is None:
            if not PRECS:
                raise AnalysisBroken('operator precedences not computed')
            p = self._prec = PRECS
        return p

    # ------------------------------------------------------------- states
    def start(self, pending=0, reguse=0, localoffset=-20, dead=0, zf=0, fresh=False):
        st = State()
        ex = self.ex
        self.var(st)
        for g, v in (('CodeAddress', ORG), ('Pending', pending), ('RegUse', reguse), ('LocalOffset', localoffset),
                     ('IsDeadCode', dead), ('LastZFInst', ORG if zf else 0), ('LastFixup', 0), ('LocalLabelCounter', 0)):
            ex.setg(st, g, v & 0xffffffff)
        if not fresh:
            ex.havoc(st, 'Output')
        return st

    def var(self, st):
        pass

    def setfield(self, st, arr, i, struct, f, v):
        lay = self.m.structs[struct]
        es = self.m.globals[arr].ty.elt.size()
        off, n = lay[f]
        self.ex.gobj(st, arr)
        self.ex.store_c(st, arr, i * es + off, n, v)

    def cur(self, st, ty, val=None, extra=0):
        ex = self.ex
        ex.setg(st, 'CurrentType', ty)
        if val is not None:
            ex.setg(st, 'CurrentVal', val)
        ex.setg(st, 'CurrentTypeExtra', extra)

    def emit_mark(self, st, info):
        """Emit operand code through the compiler's own output routine."""
        k = len(self.marks)
        self.marks.append(info)
        out = []
        for s, _ in self.ex.call('Output1Byte', st, [MARK]):
            a = self.ex.getg(s, 'CodeAddress')
            for s2, _ in self.ex.call('Output1Byte', s, [k]):
                out.append(s2)
        return out

    def run(self, fn, st, args=()):
        if fn not in self.m.funcs:
            raise AnalysisBroken('scc: function %s not found' % fn)
        res = self.ex.run(self.m.funcs[fn], st, list(args))
        return [Final(self, s, r) for s, r in res]


# ------------------------------------------------------------------ machine
class Cells:
    """Memory as named cells: addresses that are not provably equal are taken
    to be different objects."""

    def __init__(self, tag='m'):
        self.tag = tag
        self.log = []       # (addr, byte)

    def fork(self):
        c = Cells(self.tag)
        c.log = list(self.log)
        return c


def same(a, b, guard):
    if a == b:
        return True
    if guard == 1:
        return False
    for x, y in zip(B.bits(a, 16), B.bits(b, 16)):
        if x != y and B.band(guard, B.bxor(x, y)):
            return False
    return True


def simp(v, w, g):
    """v with the bits the guard determines made constant."""
    if type(v) is int or g == 1:
        return v
    out = []
    for b in v:
        if b not in (0, 1):
            if not B.band(g, b):
                b = 0
            elif not B.band(g, b ^ 1):
                b = 1
        out.append(b)
    return B.norm(out)


class CPU(x86.CPU):
    def opnd(self, v, w):
        return simp(v, w, self.guard)

    def __init__(self):
        super().__init__()
        self.mem = Cells()
        self.trace = ()
        for i, n in enumerate(x86.R16):
            self.r[i] = B.sym('in.' + n, 16)
        for f in 'CZSO':
            self.f[f] = B.sym('in.' + f, 1)[0]
        self.writes = []
        self.copies = None      # (from, to, bytes) of the repeated moves, where a check keeps them whole

    def fork(self):
        c = CPU.__new__(CPU)
        c.__dict__.update(self.__dict__)
        c.r = list(self.r)
        c.s = list(self.s)
        c.f = x86.Flags(self.f)
        c.mem = self.mem.fork()
        c.writes = list(self.writes)
        return c

    def string(self, m, n):
        """A repeated move is kept as one copy: nothing reads what it wrote."""
        if self.copies is None or n.rep != 0xF3 or m[:4] != 'MOVS':
            return super().string(m, n)
        if n.seg is not None or type(self.r[CX]) is not int:
            raise x86.BadInsn('repeated move of an unknown number of bytes')
        k = self.r[CX] * (2 if m[-1] == 'W' else 1)
        self.copies += ((self.r[SI], self.r[DI], k),)
        self.r[SI], self.r[DI], self.r[CX] = B.vadd(self.r[SI], k, 16), B.vadd(self.r[DI], k, 16), 0

    def read(self, seg, off, w):
        lo = self.read8(seg, off)
        if w == 8:
            return lo
        hi = self.read8(seg, B.vadd(off, 1, 16), 8)
        return B.norm(B.bits(lo, 8) + B.bits(hi, 8))

    def read8(self, seg, off, pos=0):
        for a, v in reversed(self.mem.log):
            if same(a, off, self.guard):
                return v
        return B.norm(B.opaque(('mem', self.canon(off)), 8, pos))

    def canon(self, off):
        for a in CANON:
            if a == off or self.guard != 1 and same(a, off, self.guard):
                return a
        CANON.append(off)
        return off

    def write8(self, seg, off, v):
        self.mem.log.append((off, v))
        self.writes.append(off)


PRECS = {}       # filled once per process from GetToken itself
CANON = []



def initial(addr, w, guard=1):
    """Initial memory contents of a cell."""
    c = CPU()
    c.guard = guard
    return c.read(x86.DS, addr, w)


class Path:
    def __init__(self, guard, cpu, pos):
        self.guard, self.cpu, self.pos = guard, cpu, pos


class BadCode(Exception):
    pass


def interpret(code, cpu, guard, marks=(), subst=(), on_mark=None, on_call=None, limit=200, org=ORG, stop=None, start=0):
    """Interpret emitted bytes from the start; list of Paths that reach the end
    (or leave through a jump outside).  subst: {position: (lo, hi) bytes}."""
    code = list(code)
    for p, v in dict(subst).items():
        b = B.bits(v, 16)
        code[p], code[p + 1] = B.norm(b[:8]), B.norm(b[8:])
    out = []
    work = [(start, cpu, guard)]
    steps = 0
    while work:
        pos, c, g = work.pop()
        while True:
            if pos == len(code) or (stop and pos in stop):
                out.append(Path(g, c, pos))
                break
            if pos < 0 or pos > len(code):
                out.append(Path(g, c, pos))
                break
            steps += 1
            if steps > limit:
                raise BadCode('emitted code does not terminate')
            if code[pos] == MARK:
                c.guard = g
                on_mark(c, marks[code[pos + 1]], g)
                pos += 2
                continue
            try:
                n = x86.decode(code, pos)
            except x86.Truncated:
                raise BadCode('truncated instruction at +%d: %s' % (pos, hexs(code)))
            except x86.BadInsn:
                k = next((i for i in range(pos, min(pos + 3, len(code))) if type(code[i]) is not int), None)
                if k is None:
                    raise BadCode('undefined instruction at +%d: %s' % (pos, hexs(code)))
                vs = B.values(code[k], 8, g, 8)
                if vs is None:
                    raise BadCode('opcode depends on data at +%d' % k)
                if len(vs) == 1 and code[k] == vs[0]:
                    raise BadCode('undefined instruction at +%d: %s' % (pos, hexs(code)))
                for v in vs:
                    code2 = list(code)
                    code2[k] = v
                    g2 = B.band(g, B.veq(code[k], v, 8))
                    for p in interpret(code2[pos:], c.fork(), g2, marks, {}, on_mark, on_call, limit, org, None):
                        if p.pos != 'ret':
                            p.pos += pos
                        out.append(p)
                break
            c.guard = g
            c.ip = 0
            pos += n.len
            try:
                r = c.step(n)
            except x86.BadInsn as e:
                raise BadCode('%s (%s)' % (n, e))
            if r is None:
                continue
            if r[0] == 'cond':
                if r[1] is None:
                    raise BadCode('jump on an undefined flag: %s' % n)
                rel = n.ops[0][1]
                if type(rel) is not int:
                    raise BadCode('symbolic jump distance')
                t = pos + B.sgn(rel, 16)
                gt, gn = B.band(g, r[1]), B.band(g, r[1] ^ 1)
                if gt:
                    work.append((t, c.fork(), gt))
                if not gn:
                    break
                g = gn
                continue
            if r[0] == 'jmp':
                o = n.ops[0]
                if o[0] != 'rel' or type(o[1]) is not int:
                    raise BadCode('indirect jump')
                pos += B.sgn(o[1], 16)
                continue
            if on_call and r[0] == 'call':
                on_call(c, n, g, pos)
                continue
            if r[0] == 'ret':
                out.append(Path(g, c, 'ret'))
                break
            raise BadCode('unexpected %s' % n)
    return out


def hexs(code):
    return ' '.join('%02X' % b if type(b) is int else '??' for b in code)


def dis(code, subst=()):
    code = list(code)
    for p, v in dict(subst).items():
        b = B.bits(v, 16)
        code[p], code[p + 1] = B.norm(b[:8]), B.norm(b[8:])
    o, i = [], 0
    while i < len(code):
        if code[i] == MARK:
            o.append('<operand>')
            i += 2
            continue
        try:
            n = x86.decode(code, i)
        except Exception:
            return '; '.join(o) + ' ?' + hexs(code[i:])
        o.append(str(n))
        i += n.len
    return '; '.join(o)
