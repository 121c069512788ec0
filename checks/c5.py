"""Statements and functions.

A whole function definition is given to the compiler's parser as a token
sequence in which every expression is a contract (marker).  The emitted code,
seen as a graph of markers, must be bisimilar to the control-flow graph the C
statement semantics prescribe, and at every marker SP, BP and the variables'
places must be right."""
from vt import bdd as B
from vt import sccmodel as SM
from vt import x86, util
from vt.absint import Ptr
from vt.ir import AnalysisBroken
from .ccommon import (Machine, Operand, Case, Problem, T, promote, on_mark, need_eq, interpret, initial, same, BadCode, ORG, AX, BX, CX, DX, SP, BP, SI, DI)
from . import c as C
from .c3 import NAMES

NID = 300       # first identifier number of the scripts


class Leaf(Operand):
    """An expression inside a statement."""

    def __init__(self, name, kind='rv', cc=None, pad=0, t=None):
        Operand.__init__(self, name, kind, t or C.TY('int'), cc)
        self.name, self.pad = name, pad
        self.scope = ()

    @property
    def code(self):
        return True     # always marked in the code


class Const(Operand):
    """A literal where the grammar wants a constant; no code."""

    def __init__(self, v):
        Operand.__init__(self, 'k', 'num', C.TY('int'))
        self.v = v


class CaseK(Operand):
    """A concrete case label."""

    def __init__(self, v):
        Operand.__init__(self, 'k%d' % v, 'lit', C.TY('int'))
        self.v = v

    def value(self, S, cpu0, guard=1):
        return self.v & 0xffff


KVALS = [0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, -32768, 300, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]


# ----------------------------------------------------------------- reference
class Node:
    def __init__(self, leaf=None, nxt=None):
        self.leaf, self.nxt = leaf, nxt     # nxt: node, or list of (test, node)
        self.store = None                   # (var, size) that receives the value


class End:
    leaf = None

    def __init__(self, ret=None):
        self.ret = ret


class Builder:
    """Control-flow graph of a statement, textbook style; also renders tokens."""

    def __init__(self):
        self.labels = {}

    def goto(self, l):
        return self.labels.setdefault(l, Node())

    def cond(self, c, t, f):
        if c is True or c is None:
            return t
        if c is False:
            return f
        n = Node(c, [('true', t), ('false', f)])
        return n

    def build(self, s, nxt, brk=None, cont=None, sw=None):
        k = s[0]
        b = self.build
        if k == 'e':
            return Node(s[1], nxt)
        if k == 'decl':
            if s[4] is not None:
                n = Node(s[4], nxt)
                n.store = (s[3], s[2])
                return n
            return nxt
        if k in ('empty', 'static'):
            return nxt
        if k == 'block':
            for x in reversed(s[1]):
                nxt = b(x, nxt, brk, cont, sw)
            return nxt
        if k == 'if':
            t = b(s[2], nxt, brk, cont, sw)
            f = b(s[3], nxt, brk, cont, sw) if s[3] else nxt
            return self.cond(s[1], t, f)
        if k == 'while':
            h = Node()
            h.nxt = self.cond(s[1], b(s[2], h, nxt, h, sw), nxt)
            return h
        if k == 'do':
            h, t = Node(), Node()
            h.nxt = b(s[1], t, nxt, t, sw)
            t.nxt = self.cond(s[2], h, nxt)
            return h
        if k == 'for':
            h, it = Node(), Node()
            it.nxt = Node(s[3], h) if s[3] else h
            h.nxt = self.cond(s[2], b(s[4], it, nxt, it, sw), nxt)
            return Node(s[1], h) if s[1] else h
        if k == 'switch':
            cases = []
            b(s[2], nxt, nxt, cont, cases)
            d = next((n for kk, n in cases if kk is None), nxt)
            return Node(s[1], [('case', kk, n) for kk, n in cases if kk is not None] + [('else', d)])
        if k == 'case':
            sw.append((s[1], nxt))
            return nxt
        if k == 'default':
            sw.append((None, nxt))
            return nxt
        if k == 'break':
            return brk
        if k == 'continue':
            return cont
        if k == 'goto':
            return self.goto(s[1])
        if k == 'label':
            n = self.goto(s[1])
            n.nxt = nxt
            return n
        if k == 'return':
            if s[1] is None:
                return End()
            return Node(s[1], End(s[1]))
        raise AnalysisBroken('statement ' + k)


_uid = [0]


def ident(n):
    return ('id', n)


def render(s, scope, out):
    """Tokens of statement s; scope: list of (id, type, size) visible before it."""
    k = s[0]

    def leaf(l):
        l.scope = tuple(scope)
        out.append(l)

    def cond(c):
        if c is True or c is False:
            out.append(Const(5 if c else 0))
        else:
            leaf(c)
    if k == 'e':
        leaf(s[1])
        out.append(';')
    elif k == 'decl':
        out.append(s[1])
        out.append(ident(s[3]))
        if s[5] is not None:
            out.extend(['[', Const(s[5]), ']'])
        if s[4] is not None:
            out.append('=')
            # the variable is in scope in its own initialiser, but has no place yet
            leaf(s[4])
            s[4].scope = tuple(x for x in scope if x[0] != s[3])
        out.append(';')
        _uid[0] += 1
        scope.append((s[3], s[1], s[2], _uid[0]))
    elif k == 'empty':
        out.append(';')
    elif k == 'block':
        out.append('{')
        inner = list(scope)
        for x in s[1]:
            render(x, inner, out)
        out.append('}')
    elif k == 'if':
        out.extend(['if', '('])
        cond(s[1])
        out.append(')')
        render(('block', [s[2]]) if s[3] and s[2][0] != 'block' else s[2], scope, out)
        if s[3]:
            out.append('else')
            render(s[3], scope, out)
    elif k == 'while':
        out.extend(['while', '('])
        cond(s[1])
        out.append(')')
        render(s[2], scope, out)
    elif k == 'do':
        out.append('do')
        render(s[1], scope, out)
        out.extend(['while', '('])
        cond(s[2])
        out.extend([')', ';'])
    elif k == 'for':
        out.extend(['for', '('])
        if s[1]:
            leaf(s[1])
        out.append(';')
        if s[2] is not None:
            cond(s[2])
        out.append(';')
        if s[3]:
            leaf(s[3])
        out.append(')')
        render(s[4], scope, out)
    elif k == 'switch':
        out.extend(['switch', '('])
        leaf(s[1])
        out.append(')')
        render(s[2], scope, out)
    elif k == 'case':
        out.extend(['case', s[1], ':'])
    elif k == 'default':
        out.extend(['default', ':'])
    elif k in ('break', 'continue'):
        out.extend([k, ';'])
    elif k == 'goto':
        out.extend(['goto', ident(s[1]), ';'])
    elif k == 'label':
        out.extend([ident(s[1]), ':'])
    elif k == 'return':
        out.append('return')
        if s[1] is not None:
            leaf(s[1])
        out.append(';')


def token(S, t):
    E = S.E
    if isinstance(t, Operand):
        return (E['TOK_NUM'], None)
    if isinstance(t, tuple):
        return (E['TOK_KEYWORD'] + t[1], None)
    if t in NAMES:
        return (E['TOK_' + NAMES[t]], None)
    if len(t) > 1 or t.isalpha():
        return (E['TOK_' + t.upper()], None)
    return (ord(t), None)


VTYPE = {'int': ('VT_INT', 2), 'char': ('VT_CHAR', 1)}


def hooks(S, st):
    """A compiler before its first declaration; the map file is not looked at."""
    ex = S.ex
    ex.hooks['write'] = lambda ex, st, a, i: [(st, 0)]
    ex.hooks['CvtHex'] = lambda ex, st, a, i: [(st, a[0])]
    ex.hooks['CopyStr'] = lambda ex, st, a, i: [(st, a[0])]
    ex.setg(st, 'IdBufPtr', Ptr('IdBuffer', 0))
    ex.setg(st, 'ScopeCount', 1)
    ex.gobj(st, 'Scopes')
    ex.store_c(st, 'Scopes', 0, 4, 20)
    for g, v in (('ArgsCount', 0), ('NamedLabelCount', 0), ('IgnoreRedef', 0), ('NextSwitchCase', -1), ('NextSwitchStmt', 0), ('ReturnLabel', -1),
                 ('LocalLabelCounter', 0), ('BssSize', 0)):
        ex.setg(st, g, v & 0xffffffff)


def function(S, toks, count=1):
    """Run the parser over function definitions; [(Final, start offsets)]."""
    ex = S.ex
    E = S.E
    st = S.start(localoffset=0, fresh=True)
    hooks(S, st)
    ex.rec_default = 24
    S.tokens = [token(S, t) for t in toks[1:]] + [(0, None)] * 3
    S.set_token(st, token(S, toks[0]))

    def leaf(ex, st, a, inst):
        k = st.ghost.get('tok', 0)
        o = toks[k] if k < len(toks) else None
        if not isinstance(o, Operand):
            return NotImplemented
        S.h_token(ex, st, (), None)
        if isinstance(o, Const):
            S.cur(st, E['VT_INT'] | E['VT_LOCLIT'], o.v & 0xffffffff, 0)
            return [(st, None)]
        if o.kind == 'lit':
            if isinstance(o, CaseK):
                S.cur(st, E['VT_INT'] | E['VT_LOCLIT'], o.v & 0xffffffff, 0)
                return [(st, None)]
            o.declare(S, st)
            return [(st, None)]
        dead = ex.getg(st, 'IsDeadCode')
        if type(dead) is not int:
            raise AnalysisBroken('IsDeadCode is not constant')
        if dead:
            o.declare(S, st)
            return [(st, None)]
        lo = ex.getg(st, 'LocalOffset')
        vs = {}
        for i in {x[0] for x in o.scope}:
            S.ex.gobj(st, 'VarLookup')
            p = S.ex.load_c(st, 'VarLookup', i * S.m.globals['VarLookup'].ty.elt.size(), S.m.globals['VarLookup'].ty.elt.size(), True, 64)
            vs[i] = p
        info = {'op': o, 'bx': False, 'sp': 0, 'lo': lo, 'vars': {}}
        lay = S.m.structs['VarDecl']
        for i, p in vs.items():
            if not isinstance(p, Ptr) or p.o != 'VarDecls':
                info['vars'][i] = None
                continue
            info['vars'][i] = tuple(ex.load_c(st, 'VarDecls', p.off + lay[f][0], lay[f][1], False, lay[f][1] * 8) for f in ('Type', 'Offset', 'TypeExtra'))
        out = []
        for s in S.emit_mark(st, info):
            ss = [s]
            info.setdefault('pos', ex.getg(s, 'CodeAddress') - 2 - ORG)
            if o.pad:
                a = ex.getg(s, 'CodeAddress')
                for d in range(o.pad):
                    ex.store_c(s, 'Output', a - E['CODESTART'] + d, 1, 0x90)
                ex.setg(s, 'CodeAddress', a + o.pad)
            for x in ss:
                o.declare(S, x)
                if o.kind == 'bool':
                    ex.setg(x, 'LastZFInst', 0)
                out.append((x, None))
        return out
    ex.hooks['ParseExpr'] = leaf
    ex.hooks['ParseAssignmentExpression'] = leaf
    cur = [(SM.Final(S, st, None), ())]
    for _ in range(count):
        todo, cur = cur, []
        for f, at in todo:
            here = at + (f.gi('CodeAddress') - ORG,)
            cur += [(f2, here) for f2 in S.run('ParseExternalDefition', f.st)]
    return cur


def test(S, t, leaf, g):
    v = leaf.value(S, None, g) if leaf.kind != 'locv' else None
    if t[0] == 'true':
        return B.veq(v, 0, 16) ^ 1
    if t[0] == 'false':
        return B.veq(v, 0, 16)
    if t[0] == 'case':
        return B.veq(v, t[1].value(S, None), 16)
    raise AnalysisBroken('test')


def resolve(n):
    seen = set()
    while n is not None and not isinstance(n, End) and n.leaf is None:
        if id(n) in seen:
            return 'loop'
        seen.add(id(n))
        n = n.nxt
    return n


def succs(S, node, g):
    """[(guard, target)] of a reference node."""
    if not isinstance(node.nxt, list):
        return [(g, resolve(node.nxt))]
    out = []
    rest = g
    for t in node.nxt:
        if t[0] == 'else':
            out.append((rest, resolve(t[1])))
            continue
        c = test(S, t, node.leaf, g)
        gg = B.band(rest, c)
        out.append((gg, resolve(t[-1])))
        rest = B.band(rest, c ^ 1)
    return [(a, n) for a, n in out if a]


class Param:
    """Parameter declaration: tokens with None for the name, and its type."""

    def __init__(self, toks, bits, extra=None):
        self.toks, self.bits, self.extra = toks, bits, extra


def param(S, p):
    if isinstance(p, Param):
        return p
    return Param([p, None], S.E[VTYPE[p][0]])


def fnstep(job):
    """job: (name, params, body, case) or (name, [(ret tokens, params, body)...], None, case):
    function definitions compiled one after the other."""
    name, params, body, case = job
    fns = [(['int'], params, body)] if body is not None else params
    B.reset()
    SM.CANON.clear()
    S = Machine(C.mod())
    E = S.E
    toks = []
    for f, (ret, params, body) in enumerate(fns):
        base = NID + 20 * f
        toks += list(ret) + [ident(base), '(']
        scope = []
        n = 0
        for p in params:
            if p == '...':
                toks += ([','] if n else []) + ['...']
                continue
            q = param(S, p)
            toks += ([','] if n else []) + [ident(base + 1 + n) if t is None else t for t in q.toks]
            if None in q.toks:
                scope.append((base + 1 + n, q, -(4 + 2 * n), -1000 * f - n - 1))
            n += 1
        if not params:
            pass
        toks += [')']
        render(body, scope, toks)
    bad = []
    n = 0
    for fin, starts in function(S, toks, len(fns)):
        code = fin.code()
        try:
            for (ret, params, body), start in zip(fns, starts):
                n += bisim(S, fin, code, body, params, start)
            n += after(S, fin, fns, starts)
        except (Problem, BadCode) as e:
            bad.append('%s  {%s}' % (e, SM.dis(code)))
    if S.fatal:
        bad.append('refused for some values')
    if not n and not bad:
        return 0, [C.REFUSED]
    return n, bad


def after(S, fin, fns, starts):
    """What a function leaves behind: its own declaration and nothing else."""
    E = S.E
    n = 0
    for g, v in (('ScopeCount', 1), ('LocalLabelCounter', 0), ('NamedLabelCount', 0), ('IgnoreRedef', 0), ('NextSwitchCase', 0xffffffff)):
        if fin.g(g) != v:
            raise Problem('%s is not reset after a function' % g)
        n += 1
    sz = S.m.globals['VarLookup'].ty.elt.size()
    lay = S.m.structs['VarDecl']
    for i in range(NID, NID + 100):
        p = S.ex.load_c(fin.st, 'VarLookup', i * sz, sz, True, 64)
        isfn = (i - NID) % 20 == 0 and (i - NID) // 20 < len(fns)
        if not isfn:
            if p != Ptr(None, 0):
                raise Problem('a local name is still visible after the function')
            continue
        if not isinstance(p, Ptr) or p.o != 'VarDecls':
            raise Problem('the function is not declared')
        ty, ex_, off = (S.ex.load_c(fin.st, 'VarDecls', p.off + lay[f][0], lay[f][1], False, lay[f][1] * 8) for f in ('Type', 'TypeExtra', 'Offset'))
        ret = fns[(i - NID) // 20][0]
        want = RETS[tuple(ret)]
        if ty != sum(E[x] for x in want) + E['VT_FUN'] + E['VT_LOCGLOB']:
            raise Problem('the function\'s type is 0x%X' % ty)
        if 'VT_STRUCT' in want and ex_ != STRUCTS[ret[ret.index('struct') + 1][1]]:
            raise Problem('the function\'s return type is a wrong struct')
        if off != ORG + starts[(i - NID) // 20]:
            raise Problem('the function is not where its code starts')
        n += 1
    return n


STRUCTS = {50: 0, 51: 1}
RETS = {('int',): ['VT_INT'], ('void',): ['VT_VOID'], ('char',): ['VT_CHAR'], ('unsigned',): ['VT_INT', 'VT_UNSIGNED'], ('char', '*'): ['VT_CHAR', 'VT_PTR1'],
        ('static', 'int'): ['VT_INT'], ('unsigned', 'char'): ['VT_CHAR', 'VT_UNSIGNED'], ('int', '*', '*'): ['VT_INT', 'VT_PTR1', 'VT_PTR1'],
        ('static', 'const', 'char', '*'): ['VT_CHAR', 'VT_PTR1'], ('struct', ('id', 50), '*'): ['VT_STRUCT', 'VT_PTR1'], ('struct', ('id', 51), '*'): ['VT_STRUCT', 'VT_PTR1']}


def bisim(S, fin, code, body, params, entry_pos=0):
    E = S.E
    bld = Builder()
    entry = Node(None, bld.build(body, End()))
    marks = {}
    for k, info in enumerate(S.marks):
        marks[k] = info
    at = {info['pos']: k for k, info in marks.items()}
    stop = set(at)
    lits = [l for l in walk(body) if l[0] == 'case']
    g0 = fin.guard
    F = B.sym('frame', 16)
    n = 0
    # case labels are distinct
    for sw in switches(body):
        ks = [x[1] for x in sw]
        for i in range(len(ks)):
            for j in range(i):
                if not isinstance(ks[i], CaseK):
                    g0 = B.band(g0, B.veq(ks[i].value(S, None), ks[j].value(S, None), 16) ^ 1)
    todo = [(None, entry_pos, None)]
    reached = set()
    seen = set()

    def cpu_at(lo):
        c = SM.CPU()
        c.r[BP] = F
        c.r[SP] = B.vadd(F, lo & 0xffff, 16)
        return c

    def arrive(c, g, tgt, pos, first):
        """Check the machine state on arrival at a marker or return."""
        base = B.vsub(c_s0, 2, 16) if first else F
        if isinstance(tgt, End):
            if pos != 'ret':
                raise Problem('does not return where it should (stops at +%s)' % pos)
            need_eq(c.r[SP], B.vadd(base, 4, 16), 16, g, 'SP at the return')
            ra = initial(B.vadd(base, 2, 16), 16, g)
            need_eq(c.ip, ra, 16, g, 'the return address at the return')
            old = B.sym('in.BP', 16) if first else initial(F, 16, g)
            need_eq(c.r[BP], old, 16, g, 'BP is not restored at the return')
            return None
        k = at.get(pos)
        if k is None:
            raise Problem('control leaves to +%s instead of expression %s' % (pos, tgt.leaf.name))
        info = marks[k]
        if info['op'] is not tgt.leaf:
            raise Problem('control reaches expression %s instead of %s' % (info['op'].name, tgt.leaf.name))
        need_eq(c.r[BP], base, 16, g, 'BP at expression %s' % tgt.leaf.name)
        lo = info['lo']
        if type(lo) is not int:
            raise AnalysisBroken('symbolic LocalOffset')
        need_eq(c.r[SP], B.vadd(base, lo & 0xffff, 16), 16, g, 'the stack pointer disagrees with the frame at expression %s' % tgt.leaf.name)
        return k

    place = {}

    def places(info, leaf):
        """Every live variable has its own place inside the frame, the same everywhere."""
        lo = B.sgn(info['lo'], 32)
        names = {}
        for ent in leaf.scope:
            names[ent[0]] = ent
        used = []
        for ent in leaf.scope:
            i, ty, size, uid = ent
            if names[i] is ent:
                v = info['vars'].get(i)
                if v is None or any(type(x) is not int for x in v):
                    raise Problem('variable %d is not known at expression %s' % (i - NID, leaf.name))
                vt, off, extra = v
                off = B.sgn(off, 32)
                want = (ty.bits if isinstance(ty, Param) else E['VT_ARRAY'] if size > 2 else E[VTYPE[ty][0]]) | E['VT_LOCOFF']
                if isinstance(ty, Param) and ty.extra is not None and extra != ty.extra:
                    raise Problem('parameter %d has the wrong type' % (i - NID))
                if vt != want:
                    raise Problem('variable %d has type 0x%X at expression %s' % (i - NID, vt, leaf.name))
                if place.setdefault(uid, off) != off:
                    raise Problem('variable %d moves to BP%+d at expression %s' % (i - NID, off, leaf.name))
            off = place.get(uid)
            if off is None:
                continue
            if size < 0:
                if off != -size:
                    raise Problem('parameter %d is at BP%+d' % (i - NID, off))
                continue
            if off < lo or off + size > 0:
                raise Problem('variable %d at BP%+d lies outside the frame of %d bytes at expression %s' % (i - NID, off, -lo, leaf.name))
            for o2, s2 in used:
                if off < o2 + s2 and o2 < off + size:
                    raise Problem('variables overlap at expression %s' % leaf.name)
            used.append((off, size))

    c_s0 = B.sym('in.SP', 16)
    while todo:
        node, pos, k = todo.pop()
        first = node is None
        if first:
            cpu = SM.CPU()
            g = g0
            tg = [(g, resolve(entry))]
        else:
            info = marks[k]
            leaf = node.leaf
            cpu = cpu_at(B.sgn(info['lo'], 32))
            for r in (AX, BX, CX, DX, SI, DI):
                cpu.r[r] = B.sym('clob.%s.%d' % (leaf.name, r), 16)
            for f in 'CZSO':
                cpu.f[f] = B.sym('clob.%s.f%s' % (leaf.name, f), 1)[0]
            leaf.place(cpu)
            g = g0
            tg = succs(S, node, g)
        start = pos + (0 if first else 2)
        for gt, t in tg:
            if t == 'loop':     # an endless loop without any expression
                g = B.band(g, gt ^ 1)
                try:
                    interpret(code, cpu.fork(), gt, S.marks, (), None, None, limit=400, stop=stop, start=start)
                except BadCode as e:
                    if 'terminate' not in str(e):
                        raise
                    n += 1
                    continue
                raise Problem('an endless loop is left')
        if not g:
            continue
        try:
            ps = interpret(code, cpu, g, S.marks, (), None, None, limit=3000, stop=stop, start=start)
        except x86.UndefFlag:
            raise BadCode('branches on an undefined flag')
        for gt, t in tg:
            if t is None:
                raise AnalysisBroken('reference has no successor')
            if t == 'loop':
                continue        # an endless loop without any expression
            for p in ps:
                gg = B.band(gt, p.guard)
                if not gg:
                    continue
                n += 1
                c = p.cpu
                c.guard = gg
                k2 = arrive(c, gg, t, p.pos, first)
                # writes
                allowed = []
                if first:
                    allowed = [B.vsub(c_s0, d, 16) for d in (1, 2)]
                    if k2 is not None:
                        need_eq(c.read(x86.SS, B.vsub(c_s0, 2, 16), 16), B.sym('in.BP', 16), 16, gg, 'the caller\'s BP is not saved')
                elif node.store:
                    var, size = node.store
                    own = variable_at(S, marks, var, k2, node)
                    if own is not None:
                        a = B.vadd(F, own & 0xffff, 16)
                        c.guard = gg
                        need_eq(c.read(x86.SS, a, 16), node.leaf.value(S, None, gg), 16, gg, 'variable %d does not get its initial value' % (var - NID))
                    lo = B.sgn(marks[k]['lo'], 32)
                    allowed = [B.vadd(F, (lo - d) & 0xffff, 16) for d in (1, 2)]
                for w in c.writes:
                    if not any(same(w, a, gg) for a in allowed):
                        raise Problem('memory is written between expressions')
                if isinstance(t, End) and t.ret is not None:
                    c.guard = gg
                    need_eq(c.r[AX], node.leaf.value(S, None, gg), 16, gg, 'the function does not return the value of %s' % node.leaf.name)
                if k2 is not None and (id(t), k2) not in seen:
                    seen.add((id(t), k2))
                    reached.add(k2)
                    todo.append((t, at_pos(at, k2), k2))
    for k in sorted(reached):
        places(marks[k], marks[k]['op'])
    return n


def at_pos(at, k):
    return next(p for p, kk in at.items() if kk == k)


def variable_at(S, marks, var, k2, node):
    if k2 is None:
        return None
    v = marks[k2]['vars'].get(var)
    if v is None:
        return None
    return B.sgn(v[1], 32)


def walk(s):
    yield s
    for x in s[1:]:
        if isinstance(x, tuple):
            yield from walk(x)
        elif isinstance(x, list):
            for y in x:
                yield from walk(y)


def switches(s):
    """Case labels per switch statement."""
    out = []

    def rec(s, cur):
        if s[0] == 'switch':
            mine = []
            out.append(mine)
            for x in s[1:]:
                if isinstance(x, tuple):
                    rec(x, mine)
            return
        if s[0] == 'case':
            cur.append(s)
        for x in s[1:]:
            if isinstance(x, tuple):
                rec(x, cur)
            elif isinstance(x, list):
                for y in x:
                    rec(y, cur)
    rec(s, [])
    return out


# ------------------------------------------------------------- job templates
class Gen:
    """Builds statements with fresh expression names."""

    def __init__(self, pads=(0,), conds=('rv', 'bool'), symk=False):
        self.n, self.pads, self.conds = 0, pads, conds
        self.nv, self.nl, self.nk, self.symk = 0, 0, 0, symk

    def leaf(self, kind='rv', cc=None):
        self.n += 1
        return Leaf('e%d' % self.n, kind, cc, self.pads[self.n % len(self.pads)])

    def e(self):
        return ('e', self.leaf())

    def c(self):
        k = self.conds[self.n % len(self.conds)]
        if k in (True, False):
            return k
        return self.leaf(k, (4, 5, 12, 7, 2, 15)[self.n % 6] if k == 'bool' else None)

    def k(self):
        self.n += 1
        if self.symk:
            return Operand('k%d' % self.n, 'lit', C.TY('int'))
        self.nk += 1
        return CaseK(KVALS[self.nk] if self.nk < len(KVALS) else 1000 + 37 * self.nk)

    def var(self):
        self.nv += 1
        return NID + 10 + self.nv

    def lab(self):
        self.nl += 1
        return NID + 100 + self.nl

    def block(self, *ss):
        return ('block', list(ss))


def decl(G, size=2, init=False):
    if size == 1:
        return ('decl', 'char', 1, G.var(), G.leaf() if init else None, None)
    if size == 2:
        return ('decl', 'int', 2, G.var(), G.leaf() if init else None, None)
    return ('decl', 'int', size, G.var(), None, size // 2)


# simple statements (usable anywhere); 'loop'/'brk' need an enclosing statement
LEAVES = {
    'expr': lambda G: G.e(),
    'empty': lambda G: ('empty',),
    'return': lambda G: ('return', None),
    'return e': lambda G: ('return', G.leaf()),
    'block': lambda G: G.block(decl(G, 2, True), G.e(), decl(G, 6), G.e()),
    'block return': lambda G: G.block(decl(G, 2), G.e(), ('return', G.leaf())),
    'block nested': lambda G: G.block(decl(G, 1), G.block(decl(G, 10), G.e()), decl(G, 2, True), G.e()),
    'empty block': lambda G: G.block(),
    'declared block': lambda G: G.block(decl(G, 300), decl(G, 2)),
}
LOOPLEAF = {
    'break': lambda G: ('break',),
    'continue': lambda G: ('continue',),
    'block break': lambda G: G.block(decl(G, 2, True), G.e(), decl(G, 4), ('break',)),
    'block continue': lambda G: G.block(decl(G, 200), G.e(), ('continue',)),
    'if break': lambda G: ('if', G.c(), G.block(decl(G, 2), ('break',)), None),
    'if continue else break': lambda G: ('if', G.c(), ('continue',), ('break',)),
    'dead after break': lambda G: G.block(G.e(), ('break',), G.e(), decl(G, 4, False), G.e()),
}
OUTER = {
    'if': lambda G, x: ('if', G.c(), x(G), None),
    'if-else 1': lambda G, x: ('if', G.c(), x(G), G.e()),
    'if-else 2': lambda G, x: ('if', G.c(), G.e(), x(G)),
    'if-else 12': lambda G, x: ('if', G.c(), x(G), x(G)),
    'seq': lambda G, x: G.block(decl(G, 2, True), x(G), G.e(), x(G), decl(G, 2, True), G.e()),
    'goto over': lambda G, x: (lambda l: G.block(decl(G, 2, True), ('if', G.c(), G.block(decl(G, 4), G.e(), ('goto', l)), None), x(G), decl(G, 2), ('label', l), G.e()))(G.lab()),
    'goto back': lambda G, x: (lambda l: G.block(('label', l), G.e(), x(G), ('if', G.c(), G.block(decl(G, 2), ('goto', l)), None), G.e()))(G.lab()),
    'goto into': lambda G, x: (lambda l: G.block(('if', G.c(), ('goto', l), None), x(G), ('if', G.c(), G.block(decl(G, 2), G.e(), ('label', l), G.e(), decl(G, 2), G.e()), None), G.e()))(G.lab()),
}
LOOPS = {
    'while': lambda G, x: ('while', G.c(), x(G)),
    'do': lambda G, x: ('do', x(G), G.c()),
    'for': lambda G, x: ('for', G.leaf(), G.c(), G.leaf(), x(G)),
    'for no iter': lambda G, x: ('for', G.leaf(), G.c(), None, x(G)),
    'for no init': lambda G, x: ('for', None, G.c(), G.leaf(), x(G)),
    'for ever': lambda G, x: ('for', None, None, G.leaf(), G.block(G.e(), x(G))),
    'while block': lambda G, x: ('while', G.c(), G.block(decl(G, 2, True), x(G), G.e())),
    'for block': lambda G, x: ('for', G.leaf(), G.c(), G.leaf(), G.block(decl(G, 6), G.e(), x(G), G.e())),
    'do block': lambda G, x: ('do', G.block(decl(G, 2, True), x(G), G.e()), G.c()),
}
SWITCHES = {
    'switch': lambda G, x: ('switch', G.leaf(), G.block(('case', G.k()), x(G), ('break',), ('case', G.k()), G.e(), ('default',), x(G))),
    'switch fall': lambda G, x: ('switch', G.leaf(), G.block(('case', G.k()), G.e(), ('case', G.k()), ('case', G.k()), ('case', G.k()), x(G), ('case', G.k()), G.e())),
    'switch default first': lambda G, x: ('switch', G.leaf(), G.block(('default',), x(G), ('case', G.k()), G.e(), ('break',), ('case', G.k()), G.e())),
    'switch default mid': lambda G, x: ('switch', G.leaf(), G.block(('case', G.k()), x(G), ('break',), ('default',), ('case', G.k()), x(G), ('break',), ('case', G.k()), ('break',))),
    'switch only default': lambda G, x: ('switch', G.leaf(), G.block(('default',), x(G))),
    'switch one': lambda G, x: ('switch', G.leaf(), ('block', [('case', G.k()), x(G)])),
    'switch no case': lambda G, x: ('switch', G.leaf(), G.block(x(G), G.e())),
    'switch decl': lambda G, x: ('switch', G.leaf(), G.block(decl(G, 2), ('case', G.k()), G.e(), x(G), decl(G, 2, True), ('case', G.k()), G.e(), ('default',), G.e())),
    'switch block': lambda G, x: ('switch', G.leaf(), G.block(('case', G.k()), G.block(decl(G, 4), G.e(), x(G)), ('break',), ('case', G.k()), G.block(decl(G, 2, True), x(G), ('break',)), ('default',), G.e())),
    'switch inner case': lambda G, x: ('switch', G.leaf(), G.block(('case', G.k()), ('if', G.c(), G.block(G.e(), ('case', G.k()), x(G)), None), G.e(), ('case', G.k()), G.e())),
    'switch loop case': lambda G, x: ('switch', G.leaf(), G.block(('case', G.k()), ('while', G.c(), G.block(G.e(), ('case', G.k()), G.e())), x(G))),
    'switch many': lambda G, x: ('switch', G.leaf(), G.block(*([('case', G.k()) for _ in range(26)] + [x(G), ('break',)] + [y for _ in range(3) for y in (('case', G.k()), G.e(), ('break',))]))),
}


def bodies(full):
    """(name, make) for every statement shape; make(G) builds the function body."""
    out = []

    def wrap(f):
        return lambda G: G.block(G.e(), f(G), G.e())
    for n, f in LEAVES.items():
        out.append((n, lambda G, f=f: G.block(f(G))))
        out.append((n + ' (in sequence)', wrap(f)))
    # all constructs: name -> (make(G, x), inner statements may break, may continue)
    cons = [(n, f, False, False) for n, f in OUTER.items()] + [(n, f, True, True) for n, f in LOOPS.items()] + [(n, f, True, False) for n, f in SWITCHES.items()]

    def inner(brk, cont):
        r = list(LEAVES.items())
        for n, f in LOOPLEAF.items():
            if (cont or 'continue' not in n) and brk:
                r.append((n, f))
        return r
    for n, f, brk, cont in cons:
        for n2, x in inner(brk, cont):
            out.append(('%s [%s]' % (n, n2), wrap(lambda G, f=f, x=x: f(G, x))))
            if n2 in ('expr', 'block', 'return e', 'break'):
                out.append(('%s [%s] last' % (n, n2), lambda G, f=f, x=x: G.block(f(G, x))))
        for n2, f2, b2, c2 in cons:
            lv = inner(b2 or brk, c2 or cont)
            if not full:
                lv = [y for y in lv if y[0] in ('expr', 'block', 'block break', 'block continue', 'return e', 'if continue else break')]
            for n3, x in lv:
                out.append(('%s [%s [%s]]' % (n, n2, n3), wrap(lambda G, f=f, f2=f2, x=x: f(G, lambda G: f2(G, x)))))
    return out


def stmt_jobs(full):
    jobs = []
    sets = [(0,), (130,), (25,), (60,), (0, 110, 5), (118,)]
    for i, (n, mk) in enumerate(bodies(full)):
        for pads in (sets if full else (sets[i % 2], sets[2 + i % 4])):
            G = Gen(pads)
            jobs.append((n + ' pads %s' % (pads,), ['int', 'char'], mk(G), Case()))
    small = [b for b in bodies(False) if b[0].count('[') <= 1]
    for n, mk in small:
        for conds in ((True,), (False,), ('bool', True, 'rv'), ('rv', False, 'bool')):
            jobs.append((n + ' conditions %s' % (conds,), [], mk(Gen((0,), conds)), Case()))
    # every distance around the limits of short jumps
    tight = [b for b in small if b[0].endswith('[expr]')]
    for n, mk in tight:
        for p in range(100, 132) if full else (112, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128):
            jobs.append((n + ' distance %d' % p, [], mk(Gen((p,))), Case()))
            if full:
                jobs.append((n + ' distance %d/0' % p, [], mk(Gen((p, 0))), Case()))
                jobs.append((n + ' distance 0/%d/1' % p, [], mk(Gen((0, p, 1))), Case()))
    for n in SWITCHES:
        if n != 'switch many':
            G = Gen(symk=True)
            jobs.append((n + ' symbolic labels', [], G.block(G.e(), SWITCHES[n](G, LEAVES['expr']), G.e()), Case()))
    return jobs


def describe(job):
    return job[0]


def runjobs(rep, fn, jobs, name=describe):
    from vt.util import pmap
    C.mod()
    C.TY('int')
    N = 128
    for ch in pmap(_chunk, [(fn, jobs[i::N]) for i in range(N) if jobs[i::N]]):
        for j, ok, r in ch:
            if not util.note(ok, r):
                continue
            n, bad = r
            if bad == [C.REFUSED]:
                rep.bad('%s:refused' % name(j), '%s is refused by the compiler' % name(j))
                continue
            if not bad:
                rep.ok(max(n, 1), '%s: %d transitions' % (name(j), n))
            for b in bad:
                rep.bad('%s:%s' % (name(j), b.split('  {')[0]), '%s: %s' % (name(j), b[:600]))


def _chunk(ch):
    fn, jobs = ch
    out = []
    for j in jobs:
        ok, r = util.guard(fn, j, j[0] if isinstance(j[0], str) else j[1])
        out.append((j, ok, r))
    return out


def fn_jobs(full):
    S = Machine(C.mod())
    E = S.E
    I, CH, U, P1, ST = E['VT_INT'], E['VT_CHAR'], E['VT_UNSIGNED'], E['VT_PTR1'], E['VT_STRUCT']
    P = {
        'int': Param(['int', None], I), 'char': Param(['char', None], CH), 'unsigned': Param(['unsigned', None], I | U),
        'unsigned char': Param(['unsigned', 'char', None], CH | U), 'const int': Param(['const', 'int', None], I),
        'char*': Param(['char', '*', None], CH + P1), 'const char*': Param(['const', 'char', '*', None], CH + P1),
        'char**': Param(['char', '*', '*', None], CH + 2 * P1), 'int[]': Param(['int', None, '[', ']'], I + P1),
        'int[3]': Param(['int', None, '[', Const(3), ']'], I + P1), 'char*[]': Param(['char', '*', None, '[', ']'], CH + 2 * P1),
        'struct*': Param(['struct', ident(51), '*', None], ST + P1, 1), 'struct[]': Param(['struct', ident(50), None, '[', ']'], ST + P1, 0),
        'fn*': Param(['int', '(', '*', None, ')', '(', 'int', ')'], I | E['VT_FUNPTR']),
        'unsigned*': Param(['unsigned', '*', None], (I | U) + P1),
        'unnamed': Param(['int'], I), 'unnamed*': Param(['char', '*'], CH + P1),
    }
    jobs = []
    names = list(P)

    def add(name, *fns):
        jobs.append((name, list(fns), None, Case()))

    def bodies_():
        G = Gen((0, 40))
        yield 'return', G.block(G.e(), ('return', G.leaf()))
        G = Gen((0, 40))
        yield 'locals', G.block(decl(G, 2, True), decl(G, 1), decl(G, 10), G.e(), ('if', G.c(), ('return', G.leaf()), None), G.e())
    for a in names:
        for bn, b in bodies_():
            add('f(%s) %s' % (a, bn), (['int'], [P[a]], b))
    for k in range(9):
        for sh in range(0, len(names), 1 if full else 4):
            ps = [P[names[(sh + 3 * i) % len(names)]] for i in range(k)]
            for bn, b in bodies_():
                add('%d parameters (%d) %s' % (k, sh, bn), (['int'], ps, b))
    for i, n1 in enumerate(names):
        for n2 in names[i % 3::1 if full else 3]:
            for bn, b in list(bodies_())[:1]:
                add('f(%s, %s)' % (n1, n2), (['int'], [P[n1], P[n2]], b))
    for bn, b in bodies_():
        add('f(char*, ...) ' + bn, (['int'], [P['char*'], '...'], b))
        add('f(int, char*, ...) ' + bn, (['int'], [P['int'], P['char*'], '...'], b))
    for r in RETS:
        for n in names:
            for bn, b in list(bodies_())[:1]:
                add('%s f(%s)' % (r, n), (list(r), [P[n]], b))
        for bn, b in bodies_():
            add('%s f(struct*, struct[]) %s' % (r, bn), (list(r), [P['struct*'], P['struct[]']], b))
            add('%s f(struct[], struct*) %s' % (r, bn), (list(r), [P['struct[]'], P['struct*']], b))
    add('f(void)', (['int'], [Param(['void'], 0)][:0], Gen().block()))
    # a function is compiled the same whatever came before it
    before = [(n, mk) for n, mk in bodies(False) if n.count('[') <= (1 if not full else 2)]
    rets = list(RETS)
    for i, (n, mk) in enumerate(before):
        for pads in ((0,), (130,)):
            G1, G2, G3 = Gen(pads), Gen((0, 9)), Gen()
            G2.n, G3.n = 1000, 2000
            second = G2.block(G2.e(), decl(G2, 2, True), ('while', G2.c(), G2.block(decl(G2, 4), G2.e())), ('return', G2.leaf()))
            third = G3.block(('if', G3.c(), G3.e(), None), ('return', G3.leaf()))
            add('after %s %s' % (n, pads), (list(rets[i % len(rets)]), [P['int'], P['char']], mk(G1)), (list(rets[(i + 3) % len(rets)]), [P['int']], second),
                (list(rets[(i + 5) % len(rets)]), [], third))
    # declarations: every order and nesting keeps the variables apart
    for i in range(40 if not full else 400):
        G = Gen((0, 3))
        add('scopes %d' % i, (['int'], [P['int'], P['char']], scopes(G, i)))
    return jobs


def scopes(G, seed):
    """A deterministic family of nested blocks with shadowed names."""
    x = [seed * 2654435761 % (1 << 32) + 12345]

    def r(n):
        x[0] = (x[0] * 1103515245 + 12345) & 0x7fffffff
        return (x[0] >> 8) % n

    def blk(d):
        ss = []
        ids = []
        for _ in range(r(4)):
            sz = (1, 2, 2, 4, 10, 130)[r(6)]
            dd = list(decl(G, sz, sz <= 2 and r(2) == 1))
            if r(3) == 0 and d:
                k = NID + 11 + r(4)
                if k not in ids:
                    dd[3] = k       # hides an outer variable
            if dd[3] in ids:
                continue
            ids.append(dd[3])
            ss.append(tuple(dd))
        ss.append(G.e())
        for _ in range(r(3)):
            k = r(5)
            if d >= 3 or k == 0:
                ss.append(G.e())
            elif k == 1:
                ss.append(('if', G.c(), blk(d + 1), blk(d + 1)))
            elif k == 2:
                ss.append(('while', G.c(), blk(d + 1)))
            elif k == 3:
                ss.append(('if', G.c(), G.block(decl(G, 2, True), ('return', G.leaf())), None))
            else:
                ss.append(blk(d + 1))
            ss.append(G.e())
        return ('block', ss)
    return blk(0)
