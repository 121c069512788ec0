"""Data-flow summary of one simulated instruction of sim86.c."""
from . import bdd as B
from . import ir, x86
from .absint import Exec, State, Obj, Ptr, FPtr, NULL, Stop
from .ir import AnalysisBroken

CSEG = 0x2000
IP0 = 0x1234


def callgraph(m):
    g = {}
    for f in m.funcs.values():
        s = set()
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'call' and i.ops[0][0] == 'g':
                    s.add(i.ops[0][1])
        g[f.name] = s
    return g


def closure(g, names):
    out, st = set(), list(names)
    while st:
        n = st.pop()
        if n in out:
            continue
        out.add(n)
        st.extend(g.get(n, ()))
    return out


def stores_global(f_or_blocks, names):
    for b in f_or_blocks:
        for i in b.insts:
            if i.op == 'store' and i.ops[1][0] == 'g' and i.ops[1][1] in names:
                return True
    return False


def find_step_loop(m):
    """The fetch/execute loop: the outermost loop through which both the
    instruction pointer and the flags are (transitively) written."""
    g = callgraph(m)
    wr = {}
    for f in m.funcs.values():
        wr[f.name] = {n for n in ('ip', 'flags') if stores_global(f.blocks, {n})}
    cl = {n: closure(g, [n]) for n in g}
    cands = []
    for f in m.funcs.values():
        for h, body in f.loops.items():
            w = set()
            for b in body:
                for i in b.insts:
                    if i.op == 'store' and i.ops[1][0] == 'g' and i.ops[1][1] in ('ip', 'flags'):
                        w.add(i.ops[1][1])
                    if i.op == 'call' and i.ops[0][0] == 'g':
                        for c in cl.get(i.ops[0][1], ()):
                            w |= wr.get(c, set())
            if len(w) == 2:
                cands.append((f, h, body))
    best = None
    for f, h, body in cands:
        inner = False
        for f2, h2, body2 in cands:
            if f2 is f and h2 is not h and h in body2 and len(body2) > len(body):
                inner = True
            if f2 is not f:
                for b in body2:
                    for i in b.insts:
                        if i.op == 'call' and i.ops[0][0] == 'g' and f.name in cl.get(i.ops[0][1], ()):
                            inner = True
        if not inner:
            if best is not None and best[0] is f and len(best[2]) >= len(body):
                continue
            best = (f, h, body)
    if best is None:
        raise AnalysisBroken('sim86: fetch/execute loop not found')
    return best[0], best[1]


class Mem:
    """Guest memory: an unknown array plus a write log."""

    @staticmethod
    def read(log, addr, base):
        v = base(addr)
        for a, x in log:
            v = B.vite(B.veq(a, addr, 20), x, v, 8)
        return v


class Sim:
    def __init__(self, m, verbose=0, profile=0, max_unroll=6):
        self.m = m
        self.fn, self.header = find_step_loop(m)
        self.verbose, self.profile = verbose, profile
        self.max_unroll = max_unroll
        self.bounded = True
        for g in ('reg', 'sreg', 'ip', 'flags', 'mem', 'verbose'):
            if g not in m.globals:
                raise AnalysisBroken('sim86: global %s not found' % g)

    def lin(self, off):
        return B.vtrunc(off, 20)

    def summary(self, code, init=None, ip0=IP0, cs=CSEG, setup=None, junk=True, memory=None):
        """Analyse one trip round the loop with instruction bytes `code`.
        Returns (initial cpu values, finals, exits)."""
        ex = Exec(self.m, max_unroll=self.max_unroll)
        self.ex = ex
        st = State()
        init = dict(init or {})
        base = (cs * 16) & 0xfffff
        fetch = {((base + ((ip0 + k) & 0xffff)) & 0xfffff): v for k, v in enumerate(code)}
        fetch.update(memory or {})
        info = {'fetched': 0, 'r0': [], 's0': [], 'oob': []}

        def up(name, low):
            if not junk:
                return B.vzext(low, 16, 32)
            return B.norm(B.bits(low, 16) + B.sym(name + '_upper', 16))
        for i, n in enumerate(x86.R16):
            low = init.get(n)
            if low is None:
                low = B.sym(n, 16)
            info['r0'].append(low)
            ex.setg(st, 'reg', up(n, low), i * 4, 4)
        for i, n in enumerate(x86.SR):
            low = init.get(n)
            if low is None:
                low = cs if n == 'CS' else B.sym(n, 16)
            info['s0'].append(low)
            ex.setg(st, 'sreg', up(n, low), i * 4, 4)
        ex.setg(st, 'ip', up('IP', ip0))
        fl = {}
        w = [0] * 32
        for n, b in (('C', 0), ('Z', 6), ('S', 7), ('O', 11)):
            v = init.get('f' + n)
            fl[n] = B.sym('f' + n, 1)[0] if v is None else v
            w[b] = fl[n]
        ex.setg(st, 'flags', B.norm(w))
        info['f0'] = fl
        ex.setg(st, 'verbose', self.verbose)
        if 'do_profile' in self.m.globals:
            ex.setg(st, 'do_profile', self.profile)
        # every other mutable global starts unknown
        for g in self.m.globals.values():
            if not g.const and g.name not in ('reg', 'sreg', 'ip', 'flags', 'verbose', 'do_profile') and not g.name.startswith('.str'):
                o = Obj(g.name, g.ty.size() if g.init is not None else 1 << 40, 'sym')
                o.own = st.tok
                st.mem[g.name] = o
        st.ghost['log'] = ()

        def base_read(addr):
            if type(addr) is int and addr in fetch:
                info['fetched'] += 1
                return fetch[addr]
            return B.opaque(('mem', addr), 8)
        self.base_read = base_read

        def on_load(ex_, s, off, n, inst):
            out = []
            a = self.lin(off)
            for k in range(n):
                v = Mem.read(s.ghost['log'], B.vadd(a, k, 20), base_read)
                out += B.bits(v, 8)
            return B.norm(out)

        def on_store(ex_, s, off, n, v, inst):
            a = self.lin(off)
            vb = B.bits(v, n * 8)
            for k in range(n):
                s.ghost['log'] = s.ghost['log'] + ((B.vadd(a, k, 20), B.norm(vb[k * 8:k * 8 + 8])),)
            return True
        ex.on_load['mem'] = on_load
        ex.on_store['mem'] = on_store
        finals = []
        ex.stop_at[self.header] = lambda e, s, r: finals.append(s)

        def fatal(e, s, a, inst):
            e.exits.append(('diag', e.cstring(s, a[0]) if a else None, s, inst))
            return []
        ex.hooks['Fatal'] = fatal
        if self.bounded:
            def unb(e, f, h, s):
                e.exits.append(('loop', 'a loop in %s runs on after %d rounds' % (f.name, e.max_unroll), s, h.insts[-1]))
                return True
            ex.on_unbounded = unb
        ex.hooks['sprintf'] = h_sprintf
        ex.hooks['strcpy'] = h_strcpy
        if setup:
            setup(ex, st, info)
        # locals of the function holding the loop: unknown
        regs = {}
        for b in self.fn.blocks:
            for i in b.insts:
                if i.op == 'alloca':
                    nm = self.m.files.get(self.fn.vars.get(i.res), i.res)
                    key = ('L', self.fn.name, i.res, nm)
                    o = Obj(key, i.ty.size(), 'sym')
                    o.own = st.tok
                    st.mem[key] = o
                    regs[i.res] = Ptr(key, 0)
        for (ty, nm, at) in self.fn.params:
            regs[nm] = B.sym('param' + nm, ty.w) if ty.k == 'int' else ex.ext_ptr(st, 'param' + nm)
        res = ex.run_from(self.fn, self.header, st, regs)
        info['ret'] = res
        return info, finals, ex.exits

    def outcome(self, s):
        ex = self.ex
        o = {}
        for i, n in enumerate(x86.R16):
            o[n] = B.vtrunc(ex.getg(s, 'reg', i * 4, 4), 16)
        for i, n in enumerate(x86.SR):
            o[n] = B.vtrunc(ex.getg(s, 'sreg', i * 4, 4), 16)
        o['IP'] = B.vtrunc(ex.getg(s, 'ip'), 16)
        fb = B.bits(ex.getg(s, 'flags'), 32)
        for n, b in (('C', 0), ('Z', 6), ('S', 7), ('O', 11)):
            o['f' + n] = fb[b]
        return o


def first_char(ex, st, fmt, args):
    """First character a printf-style call writes, if the analysis knows it."""
    i = 0
    k = 0
    while i < len(fmt):
        if fmt[i:i + 1] != b'%':
            return fmt[i]
        j = i + 1
        while j < len(fmt) and fmt[j:j + 1] in b'-+ #0123456789.':
            j += 1
        while j < len(fmt) and fmt[j:j + 1] in b'lh':
            j += 1
        c = fmt[j:j + 1]
        if c == b'%':
            return ord('%')
        a = args[k] if k < len(args) else None
        k += 1
        if c == b's':
            s = ex.cstring(st, a)
            if s is None:
                return None
            if s:
                return s[0]
        elif c == b'c':
            return a if type(a) is int else None
        else:
            return -1           # some non-NUL digit or sign
        i = j + 1
    return 0


def text_bound(ex, st, fmt, args):
    """Upper bound on the length of printf-style text (None: no bound)."""
    n = k = i = 0
    while i < len(fmt):
        if fmt[i:i + 1] != b'%':
            n += 1
            i += 1
            continue
        j = i + 1
        plus = zero = 0
        w = 0
        while fmt[j:j + 1] in (b'-', b'+', b' ', b'#', b'0'):
            plus |= fmt[j:j + 1] in (b'+', b' ')
            j += 1
        while fmt[j:j + 1].isdigit():
            w = w * 10 + int(fmt[j:j + 1])
            j += 1
        prec = None
        if fmt[j:j + 1] == b'.':
            prec = 0
            j += 1
            while fmt[j:j + 1].isdigit():
                prec = prec * 10 + int(fmt[j:j + 1])
                j += 1
        lng = 0
        while fmt[j:j + 1] in (b'l', b'h', b'z'):
            lng += 1
            j += 1
        c = fmt[j:j + 1]
        if c == b'%':
            n += 1
            i = j + 1
            continue
        a = args[k] if k < len(args) else None
        k += 1
        if c == b'c':
            m = 1
        elif c in (b'd', b'i'):
            bl = 64 if lng > 1 else 32
            if a is not None and not isinstance(a, Ptr):
                v = B.bits(a, bl)
                t = bl
                while t > 0 and (v[t - 1] == 0 or B.band(st.guard, v[t - 1]) == 0):
                    t -= 1
                m = len(str((1 << t) - 1)) + plus
                if t == bl:
                    while t > 1 and v[t - 2] == v[bl - 1]:
                        t -= 1
                    m = len(str(-(1 << (t - 1))))
                    if type(a) is int:
                        m = len(str(a - (1 << bl)))
            else:
                m = 20 if lng > 1 else 11
        elif c in (b'x', b'X', b'u', b'p'):
            bl = 64 if lng > 1 else 32
            v = B.bits(a, bl) if a is not None and not isinstance(a, Ptr) else (1,) * bl
            t = bl
            while t > 0 and (v[t - 1] == 0 or B.band(st.guard, v[t - 1]) == 0):
                t -= 1
            m = max(1, (t + 3) // 4) if c in (b'x', b'X') else len(str((1 << t) - 1))
        elif c == b's':
            m = str_bound(ex, st, a)
            if m is None and prec is None:
                return None
            if prec is not None:
                m = prec if m is None else min(m, prec)
        else:
            return None
        n += max(m, w)
        i = j + 1
    return n


def str_bound(ex, st, p):
    """Upper bound on strlen(p) (None: no bound)."""
    if not isinstance(p, Ptr) or p.o is None:
        return None
    t = ex.cstring(st, p)
    if t is not None:
        return len(t)
    if p.o not in st.mem:
        if p.o in ex.m.globals:
            ex.gobj(st, p.o)
        else:
            return None
    o = st.mem[p.o]
    if o.size is None or o.size >= 1 << 40:
        return None
    if type(p.off) is int:
        return o.size - p.off - 1
    try:
        offs = B.values(p.off, 64, st.guard, 64)
    except Exception:
        offs = None
    if offs:
        best = 0
        for v in offs:
            t = ex.cstring(st, Ptr(p.o, v))
            best = max(best, len(t) if t is not None else o.size - v - 1)
        return best
    return o.size - 1


def h_sprintf(ex, st, a, inst):
    fmt = ex.cstring(st, a[1])
    d = a[0]
    if d.o not in st.mem:
        ex.gobj(st, d.o)
    c = first_char(ex, st, fmt, a[2:]) if fmt is not None else None
    o = st.mem[d.o]
    if o.size is not None and o.size < 1 << 40 and inst is not None:
        n = text_bound(ex, st, fmt, a[2:]) if fmt is not None else None
        off = d.off if type(d.off) is int else 0
        nm = o.name if not isinstance(o.name, tuple) else o.name[-1]
        fits = n is not None and off + n + 1 <= o.size
        ex.note(st, inst, 'text-fits', 'text of up to %s characters into %s[%d]' % (n if n is not None else 'unlimited', nm, o.size), 0 if fits else st.guard)
    ex.havoc_obj(st, d.o)
    if type(d.off) is int:
        if c == -1:
            c = ord('?')
        if c is not None:
            ex.store_c(st, d.o, d.off, 1, c)
    return [(st, B.fresh('sprintf', 32))]


def h_strcpy(ex, st, a, inst):
    d, s = a[0], a[1]
    if d.o not in st.mem:
        ex.gobj(st, d.o)
    t = ex.cstring(st, s)
    o = st.mem[d.o]
    if o.size is not None and o.size < 1 << 40 and inst is not None:
        n = copy_bound(ex, st, s)
        off = d.off if type(d.off) is int else 0
        nm = o.name if not isinstance(o.name, tuple) else o.name[-1]
        fits = n is not None and off + n + 1 <= o.size
        ex.note(st, inst, 'text-fits', 'text of up to %s characters into %s[%d]' % (n if n is not None else 'unlimited', nm, o.size), 0 if fits else st.guard)
    ex.havoc_obj(st, d.o)
    if type(d.off) is int and isinstance(s, Ptr):
        if t is not None:
            ex.store_c(st, d.o, d.off, 1, t[0] if t else 0)
        elif isinstance(s.o, str) and s.o.startswith('Reg'):
            ex.store_c(st, d.o, d.off, 1, ord('R'))
    return [(st, d)]


def copy_bound(ex, st, p):
    n = str_bound(ex, st, p)
    k = ('strlen', str(p))
    v = st.ghost.get(k)
    if v is not None:
        # strlen() of the same string was computed (and possibly tested)
        b = B.bits(v, 64)
        best = None
        # smallest power-of-two-free bound: binary search on the guard
        lo, hi = 0, 1 << 31
        while lo < hi:
            mid = (lo + hi) // 2
            if B.band(st.guard, B.vult(mid, v, 64)) == 0:
                hi = mid
            else:
                lo = mid + 1
        if lo < 1 << 31:
            best = lo
        if best is not None and (n is None or best < n):
            n = best
    return n
