"""Declarations: the type, the size and the storage of every declared name.

Array bounds, enumerator values and initializers are bit vectors; the scripts
enumerate the shapes of declarations (and what was declared before them)."""
from vt import bdd as B
from vt import sccmodel as SM
from vt.absint import Ptr
from vt.ir import AnalysisBroken
from .ccommon import Machine, Problem, need_eq
from . import c as C
from . import c5

VAR, TAG, MEM, ENU, TDF = 300, 340, 360, 400, 430      # identifier numbers of the scripts
MAXB = 9


class K:
    """An arbitrary constant: name, width."""

    def __init__(self, name, w=4, lo=1):
        self.name, self.w, self.lo = name, w, lo

    def v(self):
        b = B.sym('k.' + self.name, self.w)
        return B.norm(tuple(b) + (0,) * (32 - self.w))

    def guard(self):
        return B.veq(self.v(), 0, 32) ^ 1 if self.lo else 1


class Signed(K):
    """Any 16-bit constant, as a signed value."""

    def __init__(self, name):
        K.__init__(self, name, 16, 0)

    def v(self):
        b = B.sym('k.' + self.name, 16)
        return B.norm(tuple(b) + (b[15],) * 16)


class Str:
    """A string literal of n arbitrary characters."""

    def __init__(self, name, n):
        self.b = [B.sym('s.%s.%d' % (name, i), 8) for i in range(n)] + [0]


class N:
    """A given constant."""

    def __init__(self, n):
        self.n = n

    def v(self):
        return self.n & 0xffffffff

    def guard(self):
        return 1


# ---- types: ('int', u) ('char', u) ('void',) ('su', tag or index, union) ('arr', bound or None, elt) ('ptr', t) ('fnptr', t) ('fun', t)
def size(t, defs):
    k = t[0]
    if k in ('int', 'ptr', 'fnptr'):
        return 2
    if k == 'char':
        return 1
    if k == 'arr':
        return B.vmul(bv(t[1]), size(t[2], defs), 32)
    if k == 'su':
        s = 0
        for _, m in defs[t[1]]:
            z = size(m, defs)
            if t[2]:
                s = B.vite(B.vult(s, z, 32), z, s, 32)
            else:
                s = B.vadd(s, z, 32)
        return s
    raise AnalysisBroken('size of %r' % (t,))


def bv(x):
    return x.v() if hasattr(x, 'v') else x


class Decoder:
    """The type scc has recorded, as a tree."""

    def __init__(self, S, fin, tags):
        self.S, self.fin, self.E, self.tags = S, fin, S.E, tags

    def conc(self, v, what):
        if type(v) is not int:
            vs = B.values(v, len(v), self.fin.guard, 1)
            if not vs or len(vs) != 1:
                raise Problem('%s is not determined' % what)
            v = vs[0]
        return v

    def same(self, ty, extra, want, depth=0):
        """Check Type/TypeExtra against the tree; number of facts."""
        E = self.E
        ty = self.conc(ty, 'type')
        if depth > 12:
            raise Problem('endless type')
        n = 1
        levels = 0
        t = want
        fn = 0
        if t[0] in ('fun', 'fnptr'):
            fn = E['VT_FUN'] if t[0] == 'fun' else E['VT_FUNPTR']
            t = t[1]
        while t[0] == 'ptr':
            levels += 1
            t = t[1]
        exp = levels * E['VT_PTR1'] + fn
        if t[0] in ('int', 'char'):
            exp += E['VT_INT'] if t[0] == 'int' else E['VT_CHAR']
            if t[1]:
                exp += E['VT_UNSIGNED']
        elif t[0] == 'void':
            exp += E['VT_VOID']
        elif t[0] == 'su':
            exp += E['VT_STRUCT']
        elif t[0] == 'arr':
            exp += E['VT_ARRAY']
        if ty & ~E['VT_UNSIGNED'] != exp & ~E['VT_UNSIGNED'] or (t[0] in ('int', 'char') and ty != exp):
            raise Problem('type 0x%X instead of 0x%X' % (ty, exp))
        if t[0] == 'arr':
            x = self.conc(extra, 'array')
            if not 0 <= x < self.fin.gi('ArrayCount'):
                raise Problem('the array type has no bound')
            f = lambda k: self.fin.field('ArrayDecls', x, 'ArrayDecl', k)
            need_eq(f('Bound'), bv(t[1] or 0), 32, self.fin.guard, 'wrong array bound')
            n += 1 + self.same(f('Type'), f('TypeExtra'), t[2], depth + 1)
        elif t[0] == 'su':
            n += self.struct(extra, t, depth)
        return n

    def struct(self, extra, t, depth):
        x = self.conc(extra, 'struct')
        d = self.tags.get(t[1])
        if d is None:       # never defined: no members
            if self.S.ex.load_c(self.fin.st, 'StructDecls', x * self.S.m.globals['StructDecls'].ty.elt.size() + self.S.m.structs['StructDecl']['Members'][0], 8, True, 64) != Ptr(None, 0):
                raise Problem('an undefined struct has members')
            return 1
        if not 0 <= x < self.fin.gi('StructCount'):
            raise Problem('the struct has no definition')
        E = self.E
        i = self.conc(self.fin.field('StructDecls', x, 'StructDecl', 'Id'), 'struct name')
        if bool(i & E['IS_UNION_FLAG']) != bool(t[2]):
            raise Problem('struct and union are confused')
        if type(t[1]) is int and t[1] >= TAG and i & ~E['IS_UNION_FLAG'] != t[1]:
            raise Problem('another struct')
        if depth > 3:
            return 1
        ms = self.S.m.globals['StructMembers'].ty.elt.size()
        lay = self.S.m.structs['StructMember']
        off, w = self.S.m.structs['StructDecl']['Members']
        p = self.S.ex.load_c(self.fin.st, 'StructDecls', x * self.S.m.globals['StructDecls'].ty.elt.size() + off, w, True, 64)
        n = 1
        for name, mt in d:
            if not isinstance(p, Ptr) or p.o != 'StructMembers' or type(p.off) is not int:
                raise Problem('a member is missing')
            f = lambda k: self.S.ex.load_c(self.fin.st, p.o, p.off + lay[k][0], lay[k][1], k == 'Next', lay[k][1] * 8)
            if f('Id') != name:
                raise Problem('a member has another name')
            n += 1 + self.same(f('Type'), f('TypeExtra'), mt, depth + 1)
            p = f('Next')
        if p != Ptr(None, 0):
            raise Problem('there are more members')
        return n


# ---- scripts
class Prog:
    def __init__(self, slot=0):
        self.slot, self.nb = slot, 0
        self.items = []         # ('g'|'l', tokens)
        self.names = {}         # id -> (kind, type, value)
        self.tags = {}          # tag -> members
        self.scope = 'g'
        self.bss = []           # types
        self.init = {}          # id -> initial value
        self.may = False        # scc may refuse this
        self.frame = []
        self.nv = self.nt = self.nm = self.ne = self.nk = 0
        self.consts = []

    def k(self, w=4, lo=1, cls=K):
        self.nk += 1
        c = cls('%d' % self.nk) if cls is Signed else cls('%d' % self.nk, w, lo)
        self.consts.append(c)
        return c

    def bound(self):
        """One bound of the script is arbitrary, the others are different primes."""
        self.nb += 1
        if self.nb - 1 == self.slot:
            return self.k(7)
        return N((2, 3, 5, 7, 11, 13, 17, 19)[self.nb % 8])

    def fresh(self, base=VAR):
        self.nv += 1
        return base + self.nv

    def string(self, n):
        self.nk += 1
        return Str(str(self.nk), n)

    def decl(self, spec, decls, storage=(), inits=()):
        """spec: (tokens, type); decls: declarators; returns the ids."""
        toks = list(storage) + list(spec[0])
        ids = []
        for i, d in enumerate(decls):
            if i:
                toks.append(',')
            v = self.fresh()
            ids.append(v)
            dt, t = d(self, ('id', v), spec[1])
            toks += dt
            z = inits[i] if i < len(inits) else None
            if z is not None:
                toks += ['=', z]
                if isinstance(z, Str) and t[0] == 'arr':
                    t = ('arr', N(len(z.b)), t[2])
                self.init[v] = z
            self.declare(v, t, storage)
        self.items.append((self.scope, toks + [';']))
        return ids

    def declare(self, v, t, storage):
        if 'typedef' in storage:
            self.names[v] = ('type', t, None)
        elif t[0] == 'fun':
            self.names[v] = ('func', t, None)
        elif self.scope == 'l' and 'static' not in storage:
            self.frame.append((v, t))
            self.names[v] = ('local', t, len(self.frame))
        else:
            self.names[v] = ('static' if self.scope == 'l' else 'global', t, None)
            if v not in self.init:
                self.bss.append((v, t))

    def enum(self, vals, tag=False, storage=(), decls=()):
        toks = ['enum'] + ([('id', self.fresh(TAG))] if tag else []) + ['{']
        cur = N(0)
        first = True
        for v in vals:
            if not first:
                toks.append(',')
            i = self.fresh(ENU - 40)
            toks.append(('id', i))
            if v is not None:
                toks += ['=', v]
                cur = v
                val = bv(v)
            else:
                val = 0 if first else B.vadd(prev, 1, 32)
            prev = val
            first = False
            self.names[i] = ('enum', ('int', False), val)
        toks.append('}')
        return toks


def plain(p, name, t):
    return [name], t


def ptr(n, inner=plain):
    def f(p, name, t):
        for _ in range(n):
            t = ('ptr', t)
        a, r = inner(p, name, t)
        return ['*'] * n + a, r
    return f


def cptr(p, name, t):
    return ['*', 'const', name], ('ptr', t)


def arr(n, bounds=None):
    def f(p, name, t):
        bs = bounds or [p.bound() for _ in range(n)]
        toks = [name]
        for b in bs:
            toks += ['['] + ([b] if b is not None else []) + [']']
        for b in reversed(bs):
            t = ('arr', b, t)
        return toks, t
    return f


def fnptr(*params):
    def f(p, name, t):
        return ['(', '*', name, ')', '('] + list(params) + [')'], ('fnptr', t)
    return f


def fun(*params):
    def f(p, name, t):
        return [name, '('] + list(params) + [')'], ('fun', t)
    return f


BASES = [(['int'], ('int', False)), (['char'], ('char', False)), (['unsigned'], ('int', True)), (['unsigned', 'int'], ('int', True)), (['unsigned', 'char'], ('char', True)),
         (['char', 'unsigned'], ('char', True)), (['short'], ('int', False)), (['unsigned', 'short'], ('int', True)), (['signed', 'char'], ('char', False)),
         (['const', 'int'], ('int', False)), (['int', 'const'], ('int', False)), (['volatile', 'char'], ('char', False)), (['signed'], ('int', False)),
         (['const', 'unsigned', 'char'], ('char', True)), (['va_list'], ('ptr', ('char', False)))]
VOID = (['void'], ('void',))


def tag_ref(p, t, union):
    return (['union' if union else 'struct', ('id', t)], ('su', t, union))


def struct_def(p, members, union=False, tag=True):
    """members: list of (spec, [declarators]); returns the spec of the struct."""
    t = p.fresh(TAG) if tag else -(len(p.tags) + 1)
    toks = ['union' if union else 'struct'] + ([('id', t)] if tag else []) + ['{']
    out = []
    for spec, decls in members:
        if callable(spec):
            spec = spec(t)
        toks += list(spec[0])
        for i, d in enumerate(decls):
            m = p.fresh(MEM)
            dt, mt = d(p, ('id', m), spec[1])
            toks += ([','] if i else []) + dt
            out.append((m, mt))
        toks.append(';')
    toks.append('}')
    p.tags[t] = out
    return toks, ('su', t, union)


def tokens(S, t):
    E = S.E
    if isinstance(t, (K, N)):
        return (E['TOK_NUM'], None)
    if isinstance(t, Str):
        return (E['TOK_STRLIT'], t)
    if isinstance(t, tuple):
        return (t[1] + E['TOK_KEYWORD'], None)
    if t == '...':
        return (E['TOK_ELLIPSIS'], None)
    if len(t) > 1:
        return (E['TOK_' + t.upper()], None)
    return (ord(t), None)


def declstep(job):
    name, (full, i) = job
    make = table(full)[i][1]
    B.reset()
    SM.CANON.clear()
    p = Prog(i % 5)
    make(p)
    S = DM(C.mod())
    ex, E = S.ex, S.E
    ex.max_unroll = 400
    ex.elem_limit = 600
    st = S.start(localoffset=0, fresh=True)
    c5.hooks(S, st)
    toks = [t for _, ts in p.items for t in ts]
    S.tokens = [tokens(S, t) for t in toks[1:]] + [(0, None)] * 3
    S.set_token(st, tokens(S, toks[0]))
    for c in p.consts:
        st.guard = B.band(st.guard, c.guard())

    def leaf(ex, st, a, inst):
        k = st.ghost.get('tok', 0)
        o = toks[k] if k < len(toks) else None
        if not isinstance(o, (K, N)):
            return NotImplemented
        S.h_token(ex, st, (), None)
        S.cur(st, E['VT_INT'] | E['VT_LOCLIT'], o.v(), 0)
        return [(st, None)]
    ex.hooks['ParseExpr'] = leaf
    ex.hooks['ParseAssignmentExpression'] = leaf
    ex.rec_default = 24
    cur = [SM.Final(S, st, None)]
    bad = []
    n = 0
    pos = 0
    scope = 'g'
    for sc, ts in p.items:
        if sc != scope:
            cur = [f2 for f in cur for f2 in S.run('PushScope', f.st)]
            scope = sc
        nx = []
        pos += len(ts)
        for f in cur:
            for f2 in S.run('ParseExternalDefition' if sc == 'g' else 'ParseStatement', f.st):
                if f2.st.ghost.get('tok', 0) != pos:
                    bad.append('the declaration does not end at its semicolon')
                nx.append(f2)
        cur = nx
    if S.fatal:
        bad.append('refused for some values')
    if not cur:
        return (1, []) if p.may else (0, [C.REFUSED])
    for fin in cur:
        try:
            n += names(S, fin, p)
        except Problem as e:
            bad.append(str(e))
    return n, sorted(set(bad))


class DM(Machine):
    def members(self):
        return []

    def var(self, st):
        """Nothing is declared yet."""
        ex = self.ex
        ex.setg(st, 'ArrayCount', 0)
        ex.setg(st, 'StructMemCount', 0)

    def set_token(self, st, t):
        if not isinstance(t[1], Str):
            return super().set_token(st, t)
        ex = self.ex
        a = ex.getg(st, 'CodeAddress') + 64 - self.E['CODESTART']
        super().set_token(st, (t[0], len(t[1].b)))
        ex.gobj(st, 'Output')
        ex.setg(st, 'TokenStrLit', Ptr('Output', a))
        for i, b in enumerate(t[1].b):
            ex.store_c(st, 'Output', a + i, 1, b)


def names(S, fin, p):
    n = 0
    E = S.E
    D = Decoder(S, fin, p.tags)
    sz = S.m.globals['VarLookup'].ty.elt.size()
    lay = S.m.structs['VarDecl']
    g = fin.guard
    seen = set()
    at = SM.ORG
    off = 0
    want_off = {}
    for v, t in p.frame:
        s = size(t, p.tags)
        s = B.vand(B.vadd(s, 1, 32), 0xfffffffe, 32)
        off = B.vsub(off, s, 32)
        want_off[v] = off
    S.ex.gobj(fin.st, 'VarLookup')
    for v, (kind, t, val) in p.names.items():
        q = S.ex.load_c(fin.st, 'VarLookup', v * sz, sz, True, 64)
        if not isinstance(q, Ptr) or q.o != 'VarDecls':
            raise Problem('a %s is not declared' % kind)
        if q.off in seen:
            raise Problem('two names share a declaration')
        seen.add(q.off)
        ty, extra, o, i, ref = (S.ex.load_c(fin.st, 'VarDecls', q.off + lay[f][0], lay[f][1], False, lay[f][1] * 8) for f in ('Type', 'TypeExtra', 'Offset', 'Id', 'Ref'))
        ty = D.conc(ty, 'type')
        if i != v:
            raise Problem('a declaration has another name')
        loc = {'local': E['VT_LOCOFF'], 'global': E['VT_LOCGLOB'], 'static': E['VT_LOCGLOB'], 'func': E['VT_LOCGLOB'], 'enum': E['VT_LOCLIT'], 'type': ty & E['VT_LOCMASK']}[kind]
        flag = E['VT_TYPEDEF'] if kind == 'type' else 0
        if ty & E['VT_LOCMASK'] != loc:
            raise Problem('a %s has storage class 0x%X' % (kind, ty & E['VT_LOCMASK']))
        if ty & (E['VT_TYPEDEF'] | E['VT_STATIC']) != flag:
            raise Problem('a %s has flags 0x%X' % (kind, ty & (E['VT_TYPEDEF'] | E['VT_STATIC'])))
        try:
            n += D.same(ty & ~(E['VT_LOCMASK'] | E['VT_TYPEDEF']), extra, t)
        except Problem as e:
            raise Problem('%s of %s %s' % (e, kind, show(t)))
        if kind == 'enum':
            need_eq(o, val, 32, g, 'wrong enumerator value')
        elif kind == 'local':
            need_eq(o, want_off[v], 32, g, 'a local is not below the earlier ones with its size')
        elif v in p.init:
            z = p.init[v]
            if o != at:
                raise Problem('an initialized object is not where its value is emitted')
            bs = z.b if isinstance(z, Str) else B.bits(z.v(), 32)
            if not isinstance(z, Str):
                bs = [B.norm(bs[:8]), B.norm(bs[8:16])]
            for b in bs:
                need_eq(S.ex.load_c(fin.st, 'Output', at - E['CODESTART'], 1, False, 8), b, 8, g, 'wrong initial value')
                at += 1
        elif kind in ('global', 'static', 'func'):
            if o != 0 or ref != 0:
                raise Problem('a %s has an address before it is placed' % kind)
        n += 2
    tot = 0
    for v, t in p.bss:
        if p.names[v][0] == 'global':
            tot = B.vadd(tot, size(t, p.tags), 32)
    need_eq(fin.g('BssSize'), tot, 32, g, 'the space reserved for globals is not that of the declared objects')
    if fin.gi('CodeAddress') != at:
        raise Problem('code or data is emitted that no initializer asks for')
    need_eq(fin.g('LocalOffset'), off, 32, g, 'the frame is not that of the declared locals')
    return n + 2


def show(t):
    if t[0] in ('ptr', 'fnptr', 'fun'):
        return '%s to %s' % (t[0], show(t[1]))
    if t[0] == 'arr':
        return 'array of ' + show(t[2])
    return ' '.join(map(str, t))


# ---- jobs
_tab = {}


def table(full):
    if full not in _tab:
        _tab[full] = list(build(full))
    return _tab[full]


def decl_jobs(full):
    return [(name, (full, i)) for i, (name, _) in enumerate(table(full))]


DECLS = {'x': plain, '*x': ptr(1), '**x': ptr(2), '***x': ptr(3), '*const x': cptr, 'x[]': arr(1), 'x[][]': arr(2), 'x[][][]': arr(3), '*x[]': ptr(1, arr(1)), '**x[][]': ptr(2, arr(2)),
         '(*x)()': fnptr(), '*(*x)(int)': ptr(1, fnptr('int')), '(*x)(char*, ...)': fnptr('char', '*', ',', '...')}
def toarr(p, name, t):
    b = p.bound()
    return ['(', '*', name, ')', '[', b, ']'], ('ptr', ('arr', b, t))


def fnarr(p, name, t):
    b = p.bound()
    return ['(', '*', name, '[', b, ']', ')', '(', ')'], ('arr', b, ('fnptr', t))


def paren(p, name, t):
    return ['(', name, ')'], t


# correct or refused
ODD = {'(*x)[]': toarr, '(*x[])()': fnarr, '(x)': paren, '****x': ptr(4), '*****x': ptr(5), '(**x)()': lambda p, name, t: (['(', '*', '*', name, ')', '(', ')'], ('ptr', ('fnptr', t))),
       '*x[][][][]': ptr(1, arr(4)), '****x[]': ptr(4, arr(1))}
OPEN = {'x[ ]': lambda p, name, t: ([name, '[', ']'], ('arr', N(0), t))}
FUNS = {'x()': fun(), 'x(void)': fun('void'), '*x(int)': ptr(1, fun('int')), '**x(char*, int[])': ptr(2, fun('char', '*', ',', 'int', '[', ']')), 'x(char*, ...)': fun('char', '*', ',', '...')}
SHORT = ('x', '*x', 'x[]', '*x[]', 'x[][]', '(*x)()')


def declarator(x):
    return DECLS.get(x) or FUNS.get(x) or OPEN.get(x) or ODD[x]


def st_members(p):
    return [(BASES[0], [plain, ptr(1), arr(1)]), (BASES[1], [plain]), (BASES[4], [arr(2), ptr(2)])]


def specs(p, kind):
    """A type specifier of the given kind, declared first where necessary."""
    if kind == 'struct':
        s = struct_def(p, st_members(p))
        p.items.append((p.scope, s[0] + [';']))
        return tag_ref(p, s[1][1], False)
    if kind == 'union':
        s = struct_def(p, st_members(p), True)
        p.items.append((p.scope, s[0] + [';']))
        return tag_ref(p, s[1][1], True)
    if kind == 'struct{}':
        return struct_def(p, st_members(p))
    if kind == 'union{}':
        return struct_def(p, st_members(p), True)
    if kind == 'anonymous struct':
        return struct_def(p, st_members(p), False, False)
    if kind == 'nested struct':
        return struct_def(p, [(BASES[1], [plain]), (struct_def(p, st_members(p), False, False), [plain, arr(1), ptr(1)]), (BASES[2], [plain, ptr(3)]),
                              (struct_def(p, st_members(p), True), [arr(1), plain])])
    if kind == 'recursive struct':
        return struct_def(p, [(BASES[0], [plain]), (lambda t: tag_ref(p, t, False), [ptr(1), ptr(1, arr(1)), ptr(2)]), (BASES[1], [fnptr('int'), arr(1)])])
    if kind == 'empty union':
        return struct_def(p, [], True)
    if kind == 'enum':
        return p.enum([None, p.k(1, 0, Signed), None, p.k(8, 0), None]), ('int', False)
    if kind == 'enum tag':
        return p.enum([N(5), None, N(-3), None], True), ('int', False)
    if kind.startswith('typedef '):
        a, d = kind[8:].split(' of ', 1)
        d = specs(p, d)
        v = p.decl(d, [declarator(a)], ('typedef',))[0]
        return [('id', v)], p.names[v][1]
    return BASES[int(kind)]


KINDS = ['struct', 'union', 'struct{}', 'union{}', 'anonymous struct', 'nested struct', 'recursive struct', 'enum', 'enum tag'] + \
    ['typedef %s of %d' % (a, b) for a in SHORT for b in (0, 4)] + ['typedef %s of %s' % (a, k) for a in ('x', '*x', 'x[]') for k in ('struct', 'anonymous struct', 'typedef x[] of 1', 'typedef *x of 0')]


def pointers(t):
    n = 0
    while t[0] == 'ptr':
        n, t = n + 1, t[1]
    return n


def fits(a, t):
    """Does scc's type word hold this combination?"""
    d = declarator(a)
    u = d(Prog(), ('id', 0), t)[1]
    def ok(u):
        if u[0] == 'arr':
            return ok(u[2]) and pointers(u[2]) < 4
        if u[0] in ('fun', 'fnptr'):
            return u[1][0] not in ('arr', 'fun', 'fnptr') and ok(u[1])
        n = pointers(u)
        while u[0] == 'ptr':
            u = u[1]
        return n <= 3 and (n == 0 or u[0] not in ('fun', 'fnptr') and (u[0] != 'arr' or ok(u)))
    return ok(u)


def build(full):
    one = {'g': (), 'l': ()}

    def job(scope, kind, ds, storage=(), before=(), may=False):
        def make(p):
            p.may = may
            p.scope = 'g'
            for b in before:
                s = specs(p, b[0])
                p.decl(s, [declarator(x) for x in b[1]], b[2] if len(b) > 2 else ())
            p.scope = scope
            s = specs(p, kind)
            p.decl(s, [declarator(x) for x in ds], storage)
        nm = '%s%s %s %s' % ('' if scope == 'g' else 'local ', ' '.join(storage), kind, ', '.join(ds))
        if before:
            nm += ' after ' + '; '.join('%s %s' % (b[0], ', '.join(b[1])) for b in before)
        return nm, make

    def tof(kind):
        return specs(Prog(), kind)[1]
    plainkinds = [str(i) for i in range(len(BASES))]
    kinds = plainkinds + KINDS
    for k in kinds + ['typedef x() of 0', 'typedef *x(int) of 4', 'typedef (*x)() of 0', 'typedef *(*x)(int) of 1', 'typedef ***x of 0', 'typedef x[][] of 1']:
        t = tof(k)
        for a in list(DECLS) + list(FUNS) + list(ODD):
            if t[0] == 'fun' and '[' in a:
                continue            # not C
            if a in ODD or t[0] == 'fun' or not fits(a, t):
                for sc, s in (('g', ()), ('g', ('typedef',)), ('l', ()), ('l', ('static',))):
                    yield job(sc, k, [a], s, (), True)
                continue
            if a in FUNS:
                continue
            for sc, sts in (('g', [(), ('static',), ('extern',), ('typedef',)]), ('l', [(), ('static',), ('register',), ('typedef',)])):
                for s in sts if full or k in ('0', 'struct') else (sts[0], sts[1 + (len(k) + len(a)) % 3]):
                    yield job(sc, k, [a], s)
        for a in FUNS:
            if fits(a, t):
                yield job('g', k, [a], ('static',) if len(a) % 2 else ())
    # declarator lists: every declarator starts from the specifier's type
    for k in ['0', '4', '2', 'struct', 'anonymous struct', 'enum', 'typedef x[] of 0', 'typedef *x of 4']:
        t = tof(k)
        ok = [a for a in list(DECLS) + ['x(void)', '*x(int)'] if fits(a, t)]
        for a in ok:
            for b in ok:
                for sc in ('g', 'l'):
                    yield job(sc, k, [a, b], (), (), a in FUNS or sc == 'l' and b in FUNS)
        for a in ok[:4] + ok[5:9:2]:
            for sc in ('g', 'l'):
                if a not in FUNS:
                    yield job(sc, k, [a, 'x', a, 'x'], ('static',) if sc == 'l' else ())
    # initializers
    scalars = [(k, a) for k in ['0', '2', '4', '1', '9', 'enum', 'typedef x of 0', 'typedef *x of 4', '14', 'struct', 'typedef *x of struct'] for a in ('x', '*x', '***x', '*const x', '(*x)()') if fits(a, tof(k)) and tof(k)[0] != 'su' or a == '*x']

    def init(k, ds, zs, storage=(), before=(), may=False):
        def make(p):
            for b in before:
                p.decl(specs(p, b[0]), [DECLS[x] for x in b[1]])
            s = specs(p, k)
            p.decl(s, [declarator(x) for x in ds], storage, [z and z(p) for z in zs])
            p.may = may
        return '%s%s %s' % (' '.join(storage), k, ', '.join(d + (' = ' + z.__name__ if z else '') for d, z in zip(ds, zs))), make

    def word(p):
        return p.k(16, 0, Signed)

    def one(n):
        def string(p):
            return p.string(n)
        string.__name__ = 'string of %d' % n
        return string
    for k, a in scalars:
        for s in ((), ('static',)):
            yield init(k, [a], [word], s)
            yield init(k, ['x' if tof(k)[0] != 'su' else '*x', a, a, '*x'], [None, word, None, word], s)
            yield init(k, [a, '*x', '*x[]', a], [word, None, None, word], s, [('struct', ['x', 'x[]'])])
    for k in ('1', '4', '11', '8', 'typedef x of 1'):
        for n in (0, 1, 2, 7, 33):
            for s in ((), ('static',)):
                yield init(k, ['x[ ]'], [one(n)], s)
                yield init(k, ['x', 'x[ ]', '*x', 'x[ ]'], [word, one(n), None, one(3)], s)
                yield init(k, ['x[][]', 'x[ ]', 'x[]'], [None, one(n), None], s, [('struct', ['x[]', '*x[]'])])
    # what scc may refuse, but must not misunderstand
    yield init('1', ['x[]'], [one(3)], may=True)
    yield init('0', ['x[ ]'], [one(3)], may=True)
    yield init('4', ['x'], [one(3)], may=True)
    # what was declared before stays as it was
    for i, k in enumerate(kinds):
        for j, k2 in enumerate(kinds):
            if not full and (i * 7 + j * 3) % 5:
                continue
            a = [x for x in DECLS if fits(x, tof(k))]
            b = [x for x in DECLS if fits(x, tof(k2))]
            if 'nested struct' in (k, k2) and k == k2:
                continue        # more members than scc has room for
            yield job('g' if (i + j) % 2 else 'l', k, [a[(i + j) % len(a)], a[j % len(a)]], (), [(k2, [b[(i + 2 * j) % len(b)], b[i % len(b)]])])
    for k in ('0', 'struct', 'anonymous struct'):
        for ds in (['x[]', 'x[]'], ['x[][]', '*x[]', 'x[]']):
            for td in ('typedef x[] of ', 'typedef x[][] of ', 'typedef x of '):
                for k2 in ('0', 'struct'):
                    yield job('l', k, ds, (), [(td + k2, ['x[]', 'x']), (td + k2, ['x[][]'])])
