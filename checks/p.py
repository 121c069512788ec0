"""The preprocessor: scpp's main is analysed from its input files to its output file.

Source text enters as characters of which some are bit vectors; open, read,
write and close are the only points the analysis models.  Outcomes carry the
condition on the unknown characters under which they arise."""
import os
from vt import bdd as B
from vt import ir, util
from vt.absint import Exec, State, Ptr, Obj
from vt.ir import AnalysisBroken
from vt.util import Report, finish, pmap, REPO

_m = []


def mod():
    if not _m:
        _m.append(ir.compile_ir(os.path.join(REPO, 'scpp.c'), []))
        if 'main' not in _m[0].funcs:
            raise AnalysisBroken('scpp: main not found')
    return _m[0]


class Problem(Exception):
    pass


class Run:
    """All outcomes of preprocessing `files` ({name: characters})."""

    def __init__(self, files, guard=1, first='in.c', cuts=None, argv=None, deny=(), wfail=None, rfail=None):
        m = self.module()
        self.files, self.cuts = {k: [ord(c) if isinstance(c, str) else c for c in v] for k, v in files.items()}, cuts or {}
        ex = self.ex = Exec(m, max_steps=20000000, max_unroll=1000000, elem_limit=4096)
        ex.rec_default = 20
        ex.ptr_join = False
        st = State()
        st.guard = guard
        argv = argv or ['scpp', first, 'out.i']
        self.setup(ex, st)
        av = Obj('argv', 8 * len(argv) + 8, 'undef')
        ex.new_obj(st, 'argv', av)
        for i, s in enumerate(argv):
            ex.store_c(st, 'argv', 8 * i, 8, self.string(st, 'arg%d' % i, s))
        ex.store_c(st, 'argv', 8 * len(argv), 8, Ptr(None, 0))
        ex.hooks.update(open=self.open, read=self.read, write=self.write, close=self.close, sprintf=self.sprintf, _open=self.open, _read=self.read, strcmp=self.strcmp, strlen=self.strlen)
        self.names = []
        self.deny, self.wfail, self.rfail = deny, wfail, rfail
        self.out = []           # (guard, output bytes, exit code)
        for s, v in ex.run(m.funcs['main'], st, [len(argv), Ptr('argv', 0)]):
            self.out.append((s.guard, s.ghost.get('out', ()), v))
        self.refused = 0
        for k, v, s, i in ex.exits:
            self.refused = B.bor(self.refused, s.guard)
            if k == 'exit' and B.veq(v, 0, 32):
                self.out.append((s.guard, s.ghost.get('out', ()), 'success although refused'))

    module = staticmethod(lambda: mod())

    def setup(self, ex, st):
        pass

    def string(self, st, name, s):
        o = Obj(name, len(s) + 1, 'undef')
        self.ex.new_obj(st, name, o)
        for i, c in enumerate(list(s.encode()) + [0]):
            self.ex.store_c(st, name, i, 1, c)
        return Ptr(name, 0)

    def open(self, ex, st, a, i):
        n = ex.cstring(st, a[0])
        if n is None:
            raise AnalysisBroken('scpp opens a file of unknown name')
        n = n.decode('latin1')
        fd = st.ghost.get('fd', 3)
        st.ghost['fd'] = fd + 1
        flags = a[1] if type(a[1]) is int else -1
        if n in self.deny or not flags & 1 and n not in self.files:
            return [(st, 0xffffffff)]
        st.ghost[('f', fd)] = n
        if flags & 1:
            self.names.append(n)
        st.ghost[('w', fd)] = flags & 1
        return [(st, fd)]

    def close(self, ex, st, a, i):
        st.ghost.pop(('f', a[0]), None)
        return [(st, 0)]

    def read(self, ex, st, a, i):
        fd, p, n = a
        if ('f', fd) not in st.ghost or type(n) is not int or not isinstance(p, Ptr) or type(p.off) is not int:
            raise AnalysisBroken('read from an unknown file or into an unknown place')
        if self.rfail is not None:
            k = st.ghost.get('reads', 0)
            st.ghost['reads'] = k + 1
            if k == self.rfail:
                return [(st, 0xffffffff)]
        name = st.ghost[('f', fd)]
        t = self.files[name]
        lo = st.ghost.get(('p', fd), 0)
        hi = min([c for c in self.cuts.get(name, ()) if c > lo] + [len(t), lo + n])
        ex.gobj(st, p.o) if isinstance(p.o, str) else None
        for j in range(lo, hi):
            ex.store_c(st, p.o, p.off + j - lo, 1, t[j])
        st.ghost[('p', fd)] = hi
        return [(st, hi - lo)]

    def write(self, ex, st, a, i):
        fd, p, n = a
        if not st.ghost.get(('w', fd)):
            raise AnalysisBroken('scpp writes to a file it reads')
        if type(n) is not int:
            raise AnalysisBroken('scpp writes an unknown number of bytes')
        if self.wfail is not None:
            # which writes fail is given by the bits of wfail
            k = st.ghost.get('writes', 0)
            st.ghost['writes'] = k + 1
            how = self.wfail[k] if k < len(self.wfail) else 0
            if how:
                return [(st, how(n))]
        b = tuple(ex.load_c(st, p.o, p.off + j, 1, False, 8) for j in range(n))
        st.ghost['out'] = st.ghost.get('out', ()) + b
        return [(st, n)]

    def chars(self, ex, st, p):
        i = 0
        while 1:
            yield ex.load_c(st, p.o, p.off + i, 1, False, 8)
            i += 1

    def strcmp(self, ex, st, a, i):
        for p in a:
            if isinstance(p.o, str):
                ex.gobj(st, p.o)
        r, on = 0, 1
        for x, y in zip(self.chars(ex, st, a[0]), self.chars(ex, st, a[1])):
            e = B.veq(x, y, 8)
            r = B.vite(B.band(on, e ^ 1), B.vite(B.vult(x, y, 8), 0xffffffff, 1, 32), r, 32)
            on = B.band(on, B.band(e, B.veq(x, 0, 8) ^ 1))
            if B.band(on, st.guard) == 0:
                return [(st, r)]

    def strlen(self, ex, st, a, i):
        if isinstance(a[0].o, str):
            ex.gobj(st, a[0].o)
        r, on = 0, 1
        for x in self.chars(ex, st, a[0]):
            on = B.band(on, B.veq(x, 0, 8) ^ 1)
            if B.band(on, st.guard) == 0:
                if type(r) is not int:
                    v = B.values(r, 64, st.guard, 1)
                    r = v[0] if v else r
                return [(st, r)]
            r = B.vadd(r, B.norm((on,) + (0,) * 63), 64)

    def sprintf(self, ex, st, a, i):
        f = ex.cstring(st, a[1])
        if f is None or any(type(x) is not int for x in a[2:]):
            raise AnalysisBroken('sprintf of unknown values')
        args = [x - (1 << 32) if x >> 31 & 1 else x for x in a[2:]]
        s = (f.decode() % tuple(args)).encode()
        if isinstance(a[0].o, str):
            ex.gobj(st, a[0].o)
        for j, c in enumerate(s + b'\0'):
            ex.store_c(st, a[0].o, a[0].off + j, 1, c)
        return [(st, len(s))]


# ---- symbolic characters
def nib(name, lower=False):
    """A hexadecimal digit: (character, value)."""
    b = B.sym(name, 4)
    d = B.vult(b, 10, 4)
    e = B.vzext(b, 4, 8)
    return B.vite(d, B.vadd(e, 48, 8), B.vadd(e, 87 if lower else 55, 8), 8), B.vzext(b, 4, 32)


def digit(name, base=10):
    """A digit below 10 (or 8): (character, value, condition)."""
    w = 3 if base == 8 else 4
    b = B.sym(name, w)
    return B.vadd(B.vzext(b, w, 8), 48, 8), B.vzext(b, w, 32), 1 if base == 8 else B.vult(b, 10, 4)


class Num:
    def __init__(self, name, n=2, base=16, prefix='0x', suffix='', lower=False):
        self.ch, self.guard, self.val = list(prefix), 1, 0
        for i in range(n):
            if base == 16:
                c, v = nib('%s%d' % (name, i), lower)
            else:
                c, v, g = digit('%s%d' % (name, i), base)
                self.guard = B.band(self.guard, g)
                if base == 10 and n > 1 and i == 0:
                    self.guard = B.band(self.guard, B.veq(v, 0, 32) ^ 1)
            self.ch.append(c)
            self.val = B.vadd(B.vmul(self.val, base, 32), v, 32)
        self.ch += list(suffix)

    def __repr__(self):
        return ''.join(c if isinstance(c, str) else 'h' for c in self.ch)


class Lit:
    def __init__(self, text, val):
        self.ch, self.val, self.guard = list(text), val & 0xffffffff, 1

    def __repr__(self):
        return ''.join(self.ch)


ARITH = ('*', '/', '%', '+', '-', '<', '>', '<=', '>=', '==', '!=', '&', '^', '|', '&&', '||')


def b32(bit):
    return B.norm((bit,) + (0,) * 31)


def nz(v):
    return B.veq(v, 0, 32) ^ 1


def ev(n):
    """(value, condition under which C gives it one)."""
    k = n[0]
    if k == 'op':
        return n[1].val, 1
    if k == 'un':
        v, d = ev(n[2])
        return {'!': lambda: b32(nz(v) ^ 1), '-': lambda: B.vneg(v, 32), '+': lambda: v, '~': lambda: B.vnot(v, 32)}[n[1]](), d
    if k == 'cond':
        c, dc = ev(n[1])
        a, da = ev(n[2])
        b, db = ev(n[3])
        t = nz(c)
        return B.vite(t, a, b, 32), B.band(dc, B.bite(t, da, db))
    _, op, l, r = n
    a, da = ev(l)
    b, db = ev(r)
    if op == '&&':
        return b32(B.band(nz(a), nz(b))), B.band(da, B.bor(nz(a) ^ 1, db))
    if op == '||':
        return b32(B.bor(nz(a), nz(b))), B.band(da, B.bor(nz(a), db))
    d = B.band(da, db)
    if op in '/%':
        d = B.band(d, nz(b))
        return B.vdivrem('sdiv' if op == '/' else 'srem', a, b, 32), d
    f = {'*': B.vmul, '+': B.vadd, '-': B.vsub, '&': B.vand, '^': B.vxor, '|': B.vor}.get(op)
    if f:
        return f(a, b, 32), d
    return b32({'<': lambda: B.vslt(a, b, 32), '>': lambda: B.vslt(b, a, 32), '<=': lambda: B.vslt(b, a, 32) ^ 1, '>=': lambda: B.vslt(a, b, 32) ^ 1,
                '==': lambda: B.veq(a, b, 32), '!=': lambda: B.veq(a, b, 32) ^ 1}[op]()), d


def text(toks, sep=' '):
    out = []
    for i, t in enumerate(toks):
        if i and sep:
            out += list(sep)
        out += list(t) if isinstance(t, str) else t.ch
    return out


def witness(g):
    return ', '.join('%s=%X' % kv for kv in sorted(B.explain(B.sat_one(g)).items())[:8])


def truthstep(job):
    """#if EXPR selects the first group exactly if EXPR is not zero."""
    name, make = job
    B.reset()
    B.EXACT = 17
    pre, toks, sep = make()
    from .c3 import Parser
    ops = [t for t in toks if not isinstance(t, str)]
    g = 1
    for o in ops:
        g = B.band(g, o.guard)
    v, d = ev(Parser(toks).expr())
    g = B.band(g, d)
    src = list(pre) + list('#if ') + text(toks, sep) + list('\nyes\n#else\nno\n#endif\n')
    r = Run({'in.c': src}, g)
    return judge(r, g, [(nz(v), 'yes'), (nz(v) ^ 1, 'no')])


def split(g, out):
    """The outputs an output with unknown characters stands for: (guard, bytes)."""
    todo = [(g, tuple(out))]
    n = 0
    while todo:
        g, out = todo.pop()
        if not g:
            continue
        n += 1
        if n > 3000:
            raise AnalysisBroken('too many outputs')
        for c in out:
            if type(c) is not int:
                vs = B.values(c, 8, g, 256)
                for v in vs:
                    h = B.band(g, B.veq(c, v, 8))
                    todo.append((h, tuple(v if x == c else x for x in out)))
                break
        else:
            if g:
                yield g, bytes(out)


def few(it, bad):
    """The outputs, up to a limit if some are already known to be wrong."""
    n = 0
    try:
        for x in it:
            yield x
            n += 1
            if n > 20 and len(bad) > 5:
                return
    except AnalysisBroken:
        if not bad:
            raise


def judge(r, g, want):
    """want: [(condition, words of the output)]"""
    bad = []
    x = B.band(g, r.refused)
    if x:
        if not B.band(g, x ^ 1) and not r.out:
            return 0, ['refused']
        bad.append('refused for %s' % witness(x))
    n = 0
    for og, out, rc in r.out:
        n += 1
        for og, out in few(split(og, out), bad):
            got = out.split()
            for c, w in want:
                x = B.band(og, c)
                if x and got != w.encode().split():
                    bad.append('%r instead of %r for %s' % (out, w, witness(x)))
        if rc != 0:
            bad.append('exit code %r' % (rc,))
    return n, bad


_tab = {}


def table(key, build):
    if key not in _tab:
        _tab[key] = list(build(key[1]))
    return _tab[key]


STEPS = {}


def step(job):
    kind, full, i = job
    build, fn = STEPS[kind]
    return fn(table((kind, full), build)[i])


def runall(rep, kind, full, refusable=False):
    t = table((kind, full), STEPS[kind][0])
    jobs = [(kind, full, i) for i in range(len(t))]
    N = 128
    res = {}
    for ch in pmap(_chunk, [jobs[i::N] for i in range(N) if jobs[i::N]]):
        for j, ok, r in ch:
            if util.note(ok, r):
                res[j[2]] = r
    for i in sorted(res):
        n, bad = res[i]
        name = t[i][0]
        if not bad:
            rep.ok(max(n, 1), '%s: %d outcomes' % (name, n))
        for b in bad:
            rep.bad('%s:%s' % (name, b.split(' for ')[0]), '%s: %s' % (name, b[:600]))
    rep.functions |= set(mod().funcs)


def _chunk(ch):
    return [(j,) + util.guard(step, j, table(j[:2], STEPS[j[0]][0])[j[2]][0]) for j in ch]


def if_jobs(full):
    K = lambda: Num('k', 4)

    def job(name, f):
        return name, f

    def small(*ops):
        return 1 if any(o in '*/%' for o in ops) else 2

    def shape(name, f):
        yield name, lambda: ('',) + f()
    out = []

    def add(name, f, pre='', sep=' '):
        out.append((name, lambda: (pre, f(), sep)))
    for o in ARITH:
        add('a %s b' % o, lambda o=o: [Num('a'), o, Num('b')])
        add('(a %s b) + 0x1000 == k' % o, lambda o=o: ['(', Num('a'), o, Num('b'), ')', '+', Lit('0x1000', 4096), '==', K()])
        add('a%sb tight' % o, lambda o=o: [Num('a'), o, Num('b')], '', '')
        add('!a %s b' % o, lambda o=o: ['!', Num('a'), o, Num('b'), '==', K()])
        add('a %s !b' % o, lambda o=o: [Num('a'), o, '!', Num('b')])
        add('!(a %s b)' % o, lambda o=o: ['!', '(', Num('a'), o, Num('b'), ')'])
        for p in ARITH:
            n = small(o, p)
            add('(a %s b %s c) + 0x1000 == k' % (o, p), lambda o=o, p=p, n=n: ['(', Num('a', n), o, Num('b', n), p, Num('c', n), ')', '+', Lit('0x1000', 4096), '==', K()])
            add('a %s (b %s c) + 0x1000 == k' % (o, p), lambda o=o, p=p, n=n: ['(', Num('a', n), o, '(', Num('b', n), p, Num('c', n), ')', ')', '+', Lit('0x1000', 4096), '==', K()])
            if full or (ARITH.index(o) + ARITH.index(p)) % 3 == 0:
                for q in ARITH:
                    add('(a %s b %s c %s d) + 0x4000 == k' % (o, p, q),
                        lambda o=o, p=p, q=q: ['(', Num('a', 1), o, Num('b', 1), p, Num('c', 1), q, Num('d', 1), ')', '+', Lit('0x4000', 0x4000), '==', K()])
        n = small(o)
        add('a %s b ? c : d' % o, lambda o=o, n=n: ['(', Num('a', n), o, Num('b', n), '?', Num('c'), ':', Num('d'), ')', '==', Num('k')])
        add('a ? b %s c : d' % o, lambda o=o, n=n: ['(', Num('a'), '?', Num('b', n), o, Num('c', n), ':', Num('d'), ')', '+', Lit('0x1000', 4096), '==', K()])
        add('a ? b : c %s d' % o, lambda o=o, n=n: ['(', Num('a'), '?', Num('b'), ':', Num('c', n), o, Num('d', n), ')', '+', Lit('0x1000', 4096), '==', K()])
    add('a ? b : c ? d : e', lambda: ['(', Num('a'), '?', Num('b'), ':', Num('c'), '?', Num('d'), ':', Num('e'), ')', '==', Num('k')])
    add('a ? b ? c : d : e', lambda: ['(', Num('a'), '?', Num('b'), '?', Num('c'), ':', Num('d'), ':', Num('e'), ')', '==', Num('k')])
    add('!!a', lambda: ['!', '!', Num('a')])
    add('((a))', lambda: ['(', '(', Num('a'), ')', ')'])
    for s in ('', ' ', '\t', '  ', ' /**/ '):
        add('a - b - c < 0 with %r' % s, lambda: [Num('a'), '-', Num('b'), '-', Num('c'), '<', Lit('0', 0)], '', s)
    # numbers
    for n in range(1, 5):
        add('%d decimal digits' % n, lambda n=n: [Num('a', n, 10, ''), '==', Num('k', 5)])
        add('%d octal digits' % n, lambda n=n: [Num('a', n, 8, '0'), '==', K()])
    for n in range(1, 5):
        for pre in ('0x', '0X'):
            for low in (False, True):
                add('%s and %d digits%s' % (pre, n, ' lower' if low else ''), lambda n=n, pre=pre, low=low: [Num('a', n, 16, pre, '', low), '==', K()])
    for suf in ('u', 'U', 'l', 'L', 'ul', 'UL', 'lu', 'LL'):
        add('decimal with %s' % suf, lambda suf=suf: [Num('a', 3, 10, '', suf), '==', K()])
        add('hexadecimal with %s' % suf, lambda suf=suf: [Num('a', 3, 16, '0x', suf), '==', K()])
    # names
    for nm, val in (('UNKNOWN', 0), ('__SCC__', 1)):
        add(nm, lambda nm=nm, val=val: [Lit(nm, val), '+', Num('a'), '==', Num('k')])
    X = '#define X 0x'
    for d, pre, val in (('defined', lambda: list(X) + [nib('x')[0]] + ['\n'], lambda: nib('x')[1]),
                        ('defined with two', lambda: list('#define Y 0x') + [nib('y')[0]] + list('\n#define X (0x') + [nib('x')[0]] + list('+Y)\n'), lambda: B.vadd(nib('x')[1], nib('y')[1], 32)),
                        ('function', lambda: list('#define F(q) (q*0x') + [nib('x')[0]] + list(')\n#define X F(2)\n'), lambda: B.vshl_const(nib('x')[1], 1, 32)),
                        ('empty', lambda: list('#define X\n'), None),
                        ('unknown', lambda: [], lambda: 0),
                        ('undefined', lambda: list(X) + [nib('x')[0]] + list('\n#undef X\n'), lambda: 0),
                        ('redefined', lambda: list('#define X 7\n#undef X\n') + list(X) + [nib('x')[0]] + ['\n'], lambda: nib('x')[1])):
        isdef = d not in ('unknown', 'undefined')

        def lit(t, v):
            l = Lit(t, 0)
            l.val = v
            return l

        def addp(name, f, pre=pre):
            out.append((name, lambda: (pre(), f(), ' ')))
        if val:
            addp('X %s' % d, lambda val=val: [lit('X', val()), '==', Num('k')])
            addp('X %s in expression' % d, lambda val=val: [Num('a', 1), '-', lit('X', val()), '-', Num('b', 1), '+', Lit('0x100', 256), '==', Num('k', 3)])
        for sp in ('defined X', 'defined(X)', 'defined ( X )', 'defined (X)'):
            addp('%s %s' % (sp, d), lambda sp=sp, isdef=isdef: [Lit(sp, isdef)])
            addp('!%s %s' % (sp, d), lambda sp=sp, isdef=isdef: ['!', Lit(sp, isdef), '||', Num('a')])
            addp('%s %s && a' % (sp, d), lambda sp=sp, isdef=isdef: [Lit(sp, isdef), '&&', Num('a')])
            addp('a && %s %s' % (sp, d), lambda sp=sp, isdef=isdef: [Num('a'), '&&', Lit(sp, isdef)])
            addp('%s and %s %s' % (sp, sp.replace('X', 'ZZ'), d), lambda sp=sp, isdef=isdef: [Lit(sp, isdef), '&&', Lit(sp.replace('X', 'ZZ'), 0)])
    return out


STEPS['if'] = (if_jobs, truthstep)


def P01(full):
    rep = Report('P01')
    runall(rep, 'if', full)
    return finish(rep, 300, ['read() delivers the file in any division', 'int has 32 bits on the host'], 'the group of an #if is output exactly under the condition on its operands under which C gives its expression a nonzero value')


def __getattr__(name):
    if name in ('P02', 'P03', 'P04', 'P05'):
        from . import p2
        return getattr(p2, name)
    raise AttributeError(name)
