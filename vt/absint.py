"""Guarded forward data-flow analysis of LLVM IR.

A state is (guard, memory, events, ghost).  The guard and every integer are
exact Boolean functions of the symbols standing for unknown inputs (vt.bdd), so
a control-flow merge is an exact join (if-then-else on the guards) and no path
is enumerated just because it exists: states are kept apart only when they
disagree on something that cannot be joined (pointer targets, event traces,
ghost typestate).  Loops whose trip count the analysis cannot bound are cut by
a widening fixpoint; library functions have models; analysed callees are
followed context-sensitively, so an extracted helper makes no difference.
"""
import heapq
from . import bdd as B
from .ir import AnalysisBroken, PTR, I


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __eq__(self, b):
        return isinstance(b, Ptr) and self.o == b.o and self.off == b.off

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return 'null' if self.o is None and self.off == 0 else 'Ptr(%r,%s)' % (self.o, B.show(self.off))


NULL = Ptr(None, 0)


class FPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, b):
        return isinstance(b, FPtr) and self.name == b.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '&' + self.name


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Obj:
    """A memory object.  cells: constant-offset contents; sym: contents written
    or read at symbolic offsets; base: what an untouched byte holds."""
    __slots__ = ('name', 'size', 'cells', 'sym', 'base', 'ver', 'init', 'ro', 'mnull', 'own')

    def __init__(self, name, size, base='sym', init=None, ro=False):
        self.name, self.size, self.base, self.init, self.ro = name, size, base, init, ro
        self.cells = {}
        self.sym = []
        self.ver = 0
        self.mnull = False
        self.own = None

    def copy(self):
        o = Obj(self.name, self.size, self.base, self.init, self.ro)
        o.cells = dict(self.cells)
        o.sym = list(self.sym)
        o.ver = self.ver
        o.mnull = self.mnull
        return o


class State:
    __slots__ = ('guard', 'mem', 'ev', 'ghost', 'tok')

    def __init__(self):
        self.guard = 1
        self.mem = {}
        self.ev = None      # (prev, event)
        self.ghost = {}
        self.tok = object()

    def fork(self):
        s = State.__new__(State)
        s.guard = self.guard
        s.mem = dict(self.mem)
        s.ev = self.ev
        s.ghost = dict(self.ghost)
        s.tok = object()
        self.tok = object()     # both sides must copy before writing
        return s

    def w(self, oid):
        o = self.mem[oid]
        if o.own is not self.tok:
            o = o.copy()
            o.own = self.tok
            self.mem[oid] = o
        return o

    def emit(self, *e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        return out[::-1]


class Stop(Exception):
    pass


class Budget(AnalysisBroken):
    pass


class Exec:
    def __init__(self, mod, max_steps=3000000, max_unroll=4, elem_limit=64):
        self.m = mod
        self.hooks = {}
        self.rec_default = 2
        self.rec_limit = {}     # function -> allowed nesting of itself
        self.on_store = {}      # object name -> f(ex, st, off, n, val, inst) -> True if handled
        self.on_load = {}
        self.stop_at = {}       # block -> f(ex, st, regs)
        self.exits = []         # (kind, value, state, inst)
        self.steps = 0
        self.max_steps = max_steps
        self.max_unroll = max_unroll
        self.elem_limit = elem_limit
        self.stack = []
        self.obl = {}           # (loc, rule, what) -> [count, violation or None]
        self.quiet = 0
        self.check_bounds = True
        self.bounds_filter = None
        self.nobj = 0
        self.merge = True
        self.extra_merge_ok = None
        self.visited = set()
        self.cut_loops = {}     # block -> policy
        self.widen_inv = None
        self.trace_branch = None
        self.default_extern = None
        self.edge_hook = None
        self.unknown_calls = set()
        self.on_unbounded = None
        self.project = False    # drop dead history from guards at widened loops
        self.ptr_join = True    # pointers into one object are joined by offset
        self.coarse = None      # objects larger than this: contents unknown

    # ------------------------------------------------------------ objects
    def new_obj(self, st, key, obj):
        st.mem[key] = obj
        obj.own = st.tok
        return key

    def gobj(self, st, name):
        if name not in st.mem:
            g = self.m.globals.get(name)
            if g is None:
                raise AnalysisBroken('global %s not found' % name)
            o = Obj(name, g.ty.size() if g.init is not None else 1 << 40, 'init' if g.init is not None else 'sym', None, g.const)
            if g.init is not None:
                o.base = 'zero'
                self.put_init(o, 0, g.ty, g.init)
            else:
                o.mnull = False
            st.mem[name] = o
        return name

    def put_init(self, o, off, ty, v):
        k = v[0]
        if k in ('z', 'u'):
            return
        if k == 's':
            for i, c in enumerate(v[1]):
                o.cells[off + i] = (1, c)
        elif k == 'agg':
            if ty.k == 'arr':
                es = ty.elt.size()
                for i, (et, ev) in enumerate(v[1]):
                    self.put_init(o, off + i * es, et, ev)
            else:
                t2 = ty if ty.fields and len(ty.fields) == len(v[1]) else None
                if t2 is None:
                    raise AnalysisBroken('initialiser shape of %s' % o.name)
                for fo, (et, ev) in zip(ty.offsets(), v[1]):
                    self.put_init(o, off + fo, et, ev)
        else:
            val = self.const(None, v, ty)
            o.cells[off] = (ty.size(), val)

    def const(self, st, v, ty):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'z':
            return NULL if ty.k == 'ptr' else 0
        if k == 'u':
            return UNDEF
        if k == 'g':
            n = v[1]
            if n in self.m.funcs or n in self.m.decls:
                return FPtr(n)
            if st is not None:
                self.gobj(st, n)
            return Ptr(n, 0)
        if k == 'gep':
            b = self.const(st, v[2], PTR)
            off = self.gep_off(v[1], [(t, self.const(st, x, t)) for t, x in v[3]])
            return Ptr(b.o, B.vadd(b.off, off, 64))
        if k == 'cast':
            x = self.const(st, v[3], v[2])
            return self.cast(st, v[1], v[2], v[4], x)
        if k == 'fp':
            return UNDEF
        raise AnalysisBroken('constant %r' % (v,))

    # -------------------------------------------------------------- memory
    def default_cell(self, st, o, off, n, isptr):
        if o.base == 'zero':
            return NULL if isptr else 0
        if o.base == 'undef':
            # never-written local storage: an arbitrary but fixed value
            pass
        nm = '%s%s[%d]' % (o.name, "'%d" % o.ver if o.ver else '', off)
        if isptr:
            key = '*' + nm
            if key not in st.mem:
                p = Obj(key, 1 << 40, 'sym')
                p.mnull = True
                st.mem[key] = p
            return Ptr(key, 0)
        if n * 8 > 64:
            raise AnalysisBroken('wide load from %s' % nm)
        return B.sym(nm, n * 8)

    def load(self, st, p, ty, inst=None):
        n = ty.size()
        isptr = ty.k == 'ptr'
        w = ty.bits()
        if not isinstance(p, Ptr):
            if isinstance(p, FPtr):
                raise AnalysisBroken('load through function pointer')
            raise AnalysisBroken('load through %r at %s' % (p, self.m.loc(inst) if inst else '?'))
        if p.o is None:
            self.note(st, inst, 'null-deref', 'load through null pointer', st.guard)
            raise Stop()
        o = st.mem.get(p.o)
        if o is None and isinstance(p.o, str) and p.o in self.m.globals:
            self.gobj(st, p.o)
            o = st.mem[p.o]
        if o is None:
            self.note(st, inst, 'dangling', 'load from dead object %s' % (p.o,), st.guard)
            raise Stop()
        if inst is not None:
            self.bounds(st, o, p.off, n, inst, 'read')
        if self.coarse and o.size is not None and (self.coarse < o.size < 1 << 40 or (o.size > 64 and type(p.off) is not int)):
            if isptr:
                return self.ext_ptr(st, 'coarse%d' % self.tick())
            return B.fresh('coarse', w)
        h = self.on_load.get(o.name)
        if h:
            r = h(self, st, p.off, n, inst)
            if r is not None:
                return r
        if type(p.off) is int:
            v = self.load_c(st, p.o, p.off, n, isptr, w)
        else:
            v = self.load_s(st, p.o, p.off, n, isptr, w)
        if w < n * 8 and not isptr and not isinstance(v, (Ptr, FPtr, Undef)):
            v = B.vtrunc(v, w)
        return v

    def load_c(self, st, oid, off, n, isptr, w):
        o = st.mem[oid]
        c = o.cells.get(off)
        if o.sym:
            return self.load_s(st, oid, off, n, isptr, w)
        if c is not None and c[0] == n:
            v = c[1]
            if v is UNDEF:
                if isptr:
                    raise AnalysisBroken('undef pointer in %s+%d' % (o.name, off))
                v = B.fresh('undef:' + str(o.name), n * 8)
                st.w(oid).cells[off] = (n, v)
            if isptr and not isinstance(v, (Ptr, FPtr)):
                if v == 0:
                    return NULL
                return self.ext_ptr(st, 'int2ptr%s' % (v,))
            if not isptr and isinstance(v, (Ptr, FPtr)):
                return B.opaque(('ptrbits', v), n * 8)
            return v
        if c is None:
            # anything overlapping?
            ov = False
            for d in range(-15, n):
                x = o.cells.get(off + d)
                if x is not None and d + x[0] > 0:
                    ov = True
                    break
            if not ov:
                v = self.default_cell(st, o, off, n, isptr)
                if o.base != 'zero':
                    st.w(oid).cells[off] = (n, v)
                return v
        # gather bytes
        out = []
        for i in range(n):
            out += self.load_byte(st, oid, off + i)
        if isptr:
            return self.ext_ptr(st, 'bytes@%s+%d' % (o.name, off))
        return B.norm(out)

    def load_byte(self, st, oid, off):
        o = st.mem[oid]
        for d in range(0, 16):
            x = o.cells.get(off - d)
            if x is not None:
                if x[0] > d:
                    v = x[1]
                    if v is UNDEF:
                        return B.sym('undefb:%s[%d]%d' % (o.name, off, o.ver), 8)
                    if isinstance(v, (Ptr, FPtr)):
                        return B.opaque(('ptrbyte', v, d), 8)
                    return B.bits(v, x[0] * 8)[d * 8:d * 8 + 8]
                break
        if o.base == 'zero':
            return (0,) * 8
        return B.bits(self.default_cell(st, o, off, 1, False), 8)

    def ext_ptr(self, st, key, size=1 << 40, base='sym', mnull=True):
        key = 'ext:' + key
        if key not in st.mem:
            p = Obj(key, size, base)
            p.mnull = mnull
            st.mem[key] = p
        return Ptr(key, 0)

    def may_overlap(self, st, a, an, b, bn):
        """Guarded condition that [a,a+an) and [b,b+bn) overlap (a BDD)."""
        if type(a) is int and type(b) is int:
            return int(a < b + bn and b < a + an)
        d = B.vsub(a, b, 64)
        # overlap iff d in [0,bn) or -d in [0,an) i.e. d in (-an, bn)
        t = B.vadd(d, an - 1, 64)
        return B.band(st.guard, B.vult(t, an + bn - 1, 64))

    def load_s(self, st, oid, off, n, isptr, w):
        o = st.mem[oid]
        # exact match in the symbolic part (latest first)
        for i in range(len(o.sym) - 1, -1, -1):
            so, sn, sv = o.sym[i]
            if so == off and sn == n:
                # later entries were checked not to overlap at store time
                if isptr and not isinstance(sv, (Ptr, FPtr)):
                    return NULL if sv == 0 else self.ext_ptr(st, 'i2p')
                if not isptr and isinstance(sv, (Ptr, FPtr)):
                    return B.opaque(('ptrbits', sv), n * 8)
                return sv
        if type(off) is int:
            for so, sn, sv in o.sym:
                if self.may_overlap(st, so, sn, off, n):
                    break
            else:
                sym, o2 = o.sym, st.w(oid)
                o2.sym = []
                v = self.load_c(st, oid, off, n, isptr, w)
                st.w(oid).sym = sym
                return v
            if self.must_eq_some(st, o, off, n):
                pass
        offs = B.values(off, 64, st.guard, self.elem_limit) if not o.sym else None
        if offs is not None and offs and not (len(offs) > 1 and max(offs) >= (1 << 39)):
            vals = []
            for k in offs:
                if o.size is not None and k + n > o.size:
                    continue
                vals.append((k, self.load_c(st, oid, k, n, isptr, w)))
            if vals:
                if all(v == vals[0][1] for _, v in vals):
                    return vals[0][1]
                if isptr:
                    raise NeedSplit(off, [k for k, _ in vals])
                r = vals[-1][1]
                for k, v in vals[:-1]:
                    r = B.vite(B.veq(off, k, 64), v, r, n * 8)
                return r
        # overlapping symbolic entries of the same shape: if-then-else over them
        if not isptr and o.sym:
            hits = [e for e in o.sym if self.may_overlap(st, e[0], e[1], off, n)]
            if hits and all(e[1] == n and not isinstance(e[2], (Ptr, FPtr)) for e in hits):
                base = self.opq_load(st, o, off, n, False)
                r = base
                for so, sn, sv in hits:
                    r = B.vite(B.veq(so, off, 64), sv, r, n * 8)
                # partial overlaps (so != off but overlapping) are unknown
                part = 0
                for so, sn, sv in hits:
                    if n > 1:
                        part = B.bor(part, B.band(self.may_overlap(st, so, sn, off, n), B.veq(so, off, 64) ^ 1))
                if B.band(part, st.guard):
                    return B.fresh('mix:%s' % o.name, n * 8)
                return r
            if hits:
                return B.fresh('mix:%s' % o.name, n * 8)
        v = self.opq_load(st, o, off, n, isptr)
        return v

    def must_eq_some(self, st, o, off, n):
        return False

    def opq_load(self, st, o, off, n, isptr):
        if isptr:
            key = 'ld:%s#%d@%s' % (o.name, o.ver, hash(off))
            if key not in st.mem:
                p = Obj(key, 1 << 40, 'sym')
                p.mnull = True
                st.mem[key] = p
            return Ptr(key, 0)
        ck = tuple(sorted((k, v) for k, v in o.cells.items() if not isinstance(v[1], Undef))) if o.cells and len(o.cells) < 4096 else ()
        return B.opaque(('ld:' + str(o.name), o.ver, hash(ck), off, n), n * 8)

    def store(self, st, p, ty, v, inst=None):
        n = ty.size()
        if not isinstance(p, Ptr):
            raise AnalysisBroken('store through %r at %s' % (p, self.m.loc(inst) if inst else '?'))
        if p.o is None:
            self.note(st, inst, 'null-deref', 'store through null pointer', st.guard)
            raise Stop()
        if p.o not in st.mem and isinstance(p.o, str) and p.o in self.m.globals:
            self.gobj(st, p.o)
        o = st.mem.get(p.o)
        if o is None:
            self.note(st, inst, 'dangling', 'store to dead object %s' % (p.o,), st.guard)
            raise Stop()
        if ty.k == 'int' and ty.w < n * 8 and not isinstance(v, Undef):
            v = B.vzext(v, ty.w, n * 8)
        if inst is not None:
            self.bounds(st, o, p.off, n, inst, 'write')
        if self.coarse and o.size is not None and self.coarse < o.size < 1 << 40:
            return
        h = self.on_store.get(o.name)
        if h:
            if h(self, st, p.off, n, v, inst):
                return
        if type(p.off) is int:
            self.store_c(st, p.o, p.off, n, v)
        else:
            self.store_s(st, p.o, p.off, n, v)

    def store_c(self, st, oid, off, n, v):
        o = st.w(oid)
        if o.sym:
            self.clobber_sym(st, o, off, n, v)
        c = o.cells
        x = c.get(off)
        if x is None or x[0] != n:
            for d in range(-15, n):
                y = c.get(off + d)
                if y is not None and d + y[0] > 0:
                    self.split_cell(o, off + d)
            for d in range(n):
                c.pop(off + d, None)
        c[off] = (n, v)

    def split_cell(self, o, off):
        n, v = o.cells.pop(off)
        if n == 1:
            o.cells[off] = (n, v)
            return
        if isinstance(v, (Ptr, FPtr)):
            for i in range(n):
                o.cells[off + i] = (1, B.norm(B.opaque(('ptrbyte', v, i), 8)))
            return
        if v is UNDEF:
            for i in range(n):
                o.cells[off + i] = (1, UNDEF)
            return
        b = B.bits(v, n * 8)
        for i in range(n):
            o.cells[off + i] = (1, B.norm(b[i * 8:i * 8 + 8]))

    def clobber_sym(self, st, o, off, n, v):
        out = []
        for so, sn, sv in o.sym:
            if so == off and sn == n:
                continue
            ov = self.may_overlap(st, so, sn, off, n)
            if not ov:
                out.append((so, sn, sv))
            elif sn == n and not isinstance(sv, (Ptr, FPtr, Undef)) and not isinstance(v, (Ptr, FPtr, Undef)):
                eq = B.veq(B.bits(so, 64), B.bits(off, 64), 64)
                if B.band(ov, eq ^ 1) == 0:
                    out.append((so, sn, B.vite(eq, v, sv, n * 8)))
        o.sym = out

    def store_s(self, st, oid, off, n, v):
        o = st.w(oid)
        offs = B.values(off, 64, st.guard, self.elem_limit) if not o.sym else None
        if offs is not None and len(offs) == 1:
            return self.store_c(st, oid, offs[0], n, v)
        if offs is not None and offs and not isinstance(v, (Ptr, FPtr, Undef)) and max(offs) < (1 << 39):
            ok = True
            for k in offs:
                if o.size is not None and k + n > o.size:
                    continue
                old = self.load_c(st, oid, k, n, False, n * 8)
                if isinstance(old, (Ptr, FPtr)):
                    ok = False
                    break
                self.store_c(st, oid, k, n, B.vite(B.veq(off, k, 64), v, old, n * 8))
            if ok:
                return
        o = st.w(oid)
        self.clobber_sym(st, o, off, n, v)
        # constant cells that may be hit become symbolic-or-unknown
        for k in list(o.cells):
            cn, cv = o.cells[k]
            ov = self.may_overlap(st, off, n, k, cn)
            if ov:
                del o.cells[k]
                if cn == n and not isinstance(cv, (Ptr, FPtr, Undef)) and not isinstance(v, (Ptr, FPtr, Undef)):
                    eq = B.veq(off, k, 64)
                    if B.band(ov, eq ^ 1) == 0:
                        o.sym.append((k, n, B.vite(eq, v, cv, n * 8)))
        o.ver += 1
        if o.base == 'zero':
            o.base = 'sym'
        o.sym.append((off, n, v))

    def havoc(self, st, name, why='havoc'):
        """Forget everything about an object."""
        if name not in st.mem:
            self.gobj(st, name)
        o = st.w(name)
        o.cells = {}
        o.sym = []
        B._fresh[0] += 1
        o.ver = B._fresh[0]
        o.base = 'sym'

    def setg(self, st, name, val, off=0, n=None):
        self.gobj(st, name)
        g = self.m.globals[name]
        if n is None:
            n = g.ty.size() if g.ty.k in ('int', 'ptr') else None
        if n is None:
            raise AnalysisBroken('setg %s' % name)
        self.store_c(st, name, off, n, val)

    def getg(self, st, name, off=0, n=None, isptr=False):
        self.gobj(st, name)
        g = self.m.globals[name]
        if n is None:
            n = g.ty.size()
            isptr = g.ty.k == 'ptr'
        return self.load_c(st, name, off, n, isptr, n * 8)

    # --------------------------------------------------------- obligations
    def note(self, st, inst, rule, what, bad):
        """Record an obligation; bad is the guarded violating condition."""
        if self.quiet:
            return
        k = (self.m.loc(inst) if inst is not None else '?', rule, what)
        r = self.obl.get(k)
        if r is None:
            r = self.obl[k] = [0, None]
        r[0] += 1
        if bad != 0 and r[1] is None:
            r[1] = (B.explain(B.sat_one(bad)), inst.fn.name if inst is not None else '?', [f.name for f, _ in self.stack])

    def bounds(self, st, o, off, n, inst, what):
        if not self.check_bounds or o.size is None or o.size >= (1 << 40):
            return
        if self.bounds_filter and not self.bounds_filter(o, inst, what):
            return
        lim = o.size - n
        if type(off) is int:
            bad = 0 if off <= lim and lim >= 0 else st.guard
        else:
            if lim < 0:
                bad = st.guard
            else:
                bad = B.band(st.guard, B.vult(lim, off, 64))
        nm = o.name if not isinstance(o.name, tuple) else o.name[-1]
        self.note(st, inst, 'bounds-' + what, '%s[%d]' % (nm, o.size), bad)
        if bad:
            st.guard = B.band(st.guard, bad ^ 1)
            if st.guard == 0:
                raise Stop()

    # ------------------------------------------------------------ evaluate
    def ev(self, st, regs, v, ty):
        if v[0] == 'r':
            try:
                return regs[v[1]]
            except KeyError:
                raise AnalysisBroken('register %s unavailable in %s' % (v[1], self.stack[-1][0].name))
        if v[0] == 'c':
            return v[1]
        return self.const(st, v, ty)

    def as_int(self, v, w):
        if v is UNDEF:
            return B.fresh('undef', w)
        if isinstance(v, (Ptr, FPtr)):
            if v == NULL:
                return 0
            return B.opaque(('ptrbits', v), w)
        return v

    def gep_off(self, bt, idx):
        t, i0 = idx[0]
        off = self.scale(i0, t, bt.size())
        ty = bt
        for t, ix in idx[1:]:
            if ty.k == 'struct':
                if type(ix) is not int:
                    raise AnalysisBroken('symbolic struct index')
                off = B.vadd(off, ty.offsets()[ix], 64)
                ty = ty.fields[ix]
            else:
                off = B.vadd(off, self.scale(ix, t, ty.elt.size()), 64)
                ty = ty.elt
        return off

    def scale(self, ix, t, es):
        v = B.vsext(ix, t.bits(), 64) if t.bits() < 64 else ix
        return B.vmul(v, es, 64)

    def cast(self, st, op, ft, tt, a):
        if a is UNDEF:
            return UNDEF
        if op == 'zext':
            return B.vzext(self.as_int(a, ft.w), ft.w, tt.w)
        if op == 'sext':
            return B.vsext(self.as_int(a, ft.w), ft.w, tt.w)
        if op == 'trunc':
            return B.vtrunc(self.as_int(a, ft.w), tt.w)
        if op == 'ptrtoint':
            if a == NULL:
                return 0
            return ('p2i', a)
        if op == 'inttoptr':
            if isinstance(a, tuple) and a and a[0] == 'p2i':
                return a[1]
            if a == 0:
                return NULL
            if type(a) is int and a < 4096:
                return Ptr(None, a)
            return self.ext_ptr(st, 'int%s' % hash(a))
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            return UNDEF
        return a

    def binop(self, op, w, a, b):
        if isinstance(a, tuple) and a and a[0] == 'p2i':
            if isinstance(b, tuple) and b and b[0] == 'p2i' and op == 'sub':
                if a[1].o == b[1].o:
                    return B.vsub(a[1].off, b[1].off, 64)
                return B.opaque(('pdiff', a[1], b[1]), 64)
            a = B.opaque(('ptrbits', a[1]), w)
        if isinstance(b, tuple) and b and b[0] == 'p2i':
            b = B.opaque(('ptrbits', b[1]), w)
        a = self.as_int(a, w)
        b = self.as_int(b, w)
        if op == 'add':
            return B.vadd(a, b, w)
        if op == 'sub':
            return B.vsub(a, b, w)
        if op == 'and':
            return B.vand(a, b, w)
        if op == 'or':
            return B.vor(a, b, w)
        if op == 'xor':
            return B.vxor(a, b, w)
        if op == 'mul':
            return B.vmul(a, b, w)
        if op in ('shl', 'lshr', 'ashr'):
            return B.vshift(a, b, w, op)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            return B.vdivrem(op, a, b, w)
        return UNDEF

    def is_null(self, st, p):
        """Boolean function: p == null"""
        if isinstance(p, FPtr):
            return 0
        if p.o is None:
            return B.veq(p.off, 0, 64)
        o = st.mem.get(p.o)
        if o is not None and o.mnull and p.off == 0:
            return B.opaque(('isnull', p.o), 1)[0]
        return 0

    def icmp(self, st, pred, ty, a, b):
        if ty.k == 'ptr' or isinstance(a, (Ptr, FPtr)) or isinstance(b, (Ptr, FPtr)):
            if a is UNDEF or b is UNDEF:
                return B.fresh('undef', 1)[0]
            if isinstance(a, FPtr) or isinstance(b, FPtr):
                e = int(a == b)
                return e if pred == 'eq' else e ^ 1
            if b == NULL or a == NULL:
                e = self.is_null(st, a if b == NULL else b)
                if pred in ('eq', 'ne'):
                    return e if pred == 'eq' else e ^ 1
            if a.o == b.o:
                return self.icmp(st, pred, I[64], a.off, b.off)
            if pred in ('eq', 'ne'):
                e = 0
                oa, ob = st.mem.get(a.o), st.mem.get(b.o)
                if (oa is not None and oa.mnull) or (ob is not None and ob.mnull):
                    e = B.opaque(('ptreq', str(a), str(b)), 1)[0]
                return e if pred == 'eq' else e ^ 1
            return B.opaque(('ptrcmp', pred, str(a), str(b)), 1)[0]
        w = ty.w
        if isinstance(a, tuple) and a and a[0] == 'p2i':
            a = B.opaque(('ptrbits', a[1]), w)
        if isinstance(b, tuple) and b and b[0] == 'p2i':
            b = B.opaque(('ptrbits', b[1]), w)
        a = self.as_int(a, w)
        b = self.as_int(b, w)
        if pred == 'eq':
            return B.veq(a, b, w)
        if pred == 'ne':
            return B.veq(a, b, w) ^ 1
        if pred == 'ult':
            return B.vult(a, b, w)
        if pred == 'ugt':
            return B.vult(b, a, w)
        if pred == 'uge':
            return B.vult(a, b, w) ^ 1
        if pred == 'ule':
            return B.vult(b, a, w) ^ 1
        if pred == 'slt':
            return B.vslt(a, b, w)
        if pred == 'sgt':
            return B.vslt(b, a, w)
        if pred == 'sge':
            return B.vslt(a, b, w) ^ 1
        return B.vslt(b, a, w) ^ 1

    # ----------------------------------------------------------- execution
    def call(self, name, st, args, inst=None):
        """Analyse a call: list of (state, return value)."""
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, args, inst)
            if r is not NotImplemented:
                return [(st, None)] if r is None else r
        f = self.m.funcs.get(name)
        if f is not None:
            return self.run(f, st, args, inst)
        lib = LIB.get(name)
        if lib is not None:
            r = lib(self, st, args, inst)
            return [(st, None)] if r is None else r
        if name.startswith('llvm.'):
            return [(st, None)]
        if self.default_extern:
            return self.default_extern(self, st, name, args, inst)
        self.unknown_calls.add(name)
        d = self.m.decls.get(name)
        if d is not None and d.noreturn:
            self.exits.append(('noreturn', name, st, inst))
            return []
        ret = None
        if d is not None and d.ret.k == 'int':
            ret = B.fresh('ret:' + name, d.ret.w)
        elif d is not None and d.ret.k == 'ptr':
            ret = self.ext_ptr(st, 'ret:%s#%d' % (name, B._fresh[0]))
            B._fresh[0] += 1
        return [(st, ret)]

    def run(self, f, st, args, inst=None, depth_limit=60):
        if sum(1 for g, _ in self.stack if g is f) >= self.rec_limit.get(f.name, self.rec_default) or len(self.stack) > depth_limit:
            raise AnalysisBroken('recursion into %s without a contract (%s)' % (f.name, ' > '.join(g.name for g, _ in self.stack)))
        regs = {}
        for (ty, nm, at), v in zip(f.params, args):
            bv = [a for a in at if isinstance(a, tuple) and a[0] == 'byval']
            if bv:
                n = self.nobj = self.nobj + 1
                key = ('byval', n, nm)
                o = Obj(key, bv[0][1].size(), 'undef')
                st.mem[key] = o
                o.own = st.tok
                self.copy_mem(st, Ptr(key, 0), v, bv[0][1].size())
                v = Ptr(key, 0)
            regs[nm] = v
        self.visited.add(f.name)
        return self.run_from(f, f.entry, st, regs, inst)

    def cross(self, f):
        c = getattr(f, '_cross', None)
        if c is None:
            defs = {}
            for b in f.blocks:
                for i in b.insts:
                    if i.res:
                        defs[i.res] = b
            c = set(p[1] for p in f.params)
            for b in f.blocks:
                for i in b.insts:
                    vs = list(i.ops)
                    if i.op == 'call':
                        vs += [a[1] for a in i.x]
                    if i.op == 'gep':
                        vs += [a[1] for a in i.x]
                    if i.op == 'alloca' and i.x:
                        vs.append(i.x[1])
                    for v in vs:
                        if v[0] == 'r' and (i.op == 'phi' or defs.get(v[1]) is not b):
                            c.add(v[1])
            # allocas live throughout
            f._cross = c
        return c

    def run_from(self, f, block, st, regs, inst=None, stop=None, first_free=False):
        """Run f from block.  stop: {block: list} collects states reaching it."""
        self.stack.append((f, inst))
        results = []
        seq = 0
        work = []       # heap of (rpo, seq, block)
        pend = {}       # block -> list of (st, regs, count)
        cross = self.cross(f)
        allocs = []

        def push(b, prev, s, r):
            nonlocal seq
            if s.guard == 0:
                return
            if self.edge_hook:
                self.edge_hook(self, f, prev, b, s, r)
            # evaluate phis at the edge
            phis = []
            for i in b.insts:
                if i.op != 'phi':
                    break
                k = i.x.index(prev.name)
                phis.append((i.res, self.ev(s, r, i.ops[k], i.ty)))
            r = {k: v for k, v in r.items() if k in cross}
            for k, v in phis:
                r[k] = v
            if stop is not None and b in stop:
                stop[b].append((s, r))
                return
            h = self.stop_at.get(b)
            if h is not None:
                h(self, s, r)
                return
            l = pend.get(b)
            if l is None:
                l = pend[b] = []
                seq += 1
                heapq.heappush(work, (b.rpo, seq, b))
            l.append((s, r, prev))

        pend[block] = [(st, regs, None)]
        heapq.heappush(work, (block.rpo, 0, block))
        iters = {}
        while work:
            _, _, b = heapq.heappop(work)
            items = pend.pop(b, None)
            if not items:
                continue
            if len(items) > 1 and self.merge:
                items = self.merge_items(items)
            isloop = b in f.loops
            for s, r, prev in items:
                if isloop and self.widening(f, b, s, r, prev, iters, push, results):
                    continue
                self.exec_block(f, b, s, r, push, results, allocs)
        self.stack.pop()
        self._retf = f
        for s, _ in results:
            for a in allocs:
                s.mem.pop(a, None)
        return self.merge_results(results)

    def merge_results(self, results):
        if len(results) < 2 or not self.merge:
            return results
        items = [(s, {'ret': v}, None) for s, v in results]
        return [(s, r.get('ret')) for s, r, _ in self.merge_items(items)]

    # loops whose trip count is not a constant
    def widening(self, f, h, st, regs, prev, iters, push, results):
        if prev is None:
            return False
        body = f.loops[h]
        if prev not in body:        # loop entry
            iters[h] = [0, st.guard]
            pol = self.cut_loops.get(h)
            if pol == 'cut':
                self.widen_loop(f, h, st, regs, push, results)
                return True
            return False
        it = iters.setdefault(h, [0, st.guard])
        if st.guard == it[1]:
            it[0] += 0.002      # decided branch: constant trip count so far
        else:
            it[0] += 1
            it[1] = st.guard
        if it[0] > self.max_unroll:
            if self.on_unbounded and self.on_unbounded(self, f, h, st):
                return True
            self.widen_loop(f, h, st, regs, push, results)
            return True
        return False

    def used_from(self, f, b):
        """Registers used in the blocks reachable from b."""
        c = getattr(f, '_used', None)
        if c is None:
            c = f._used = {}
        if b in c:
            return c[b]
        seen, work, used = set(), [b], set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work.extend(x.succ)
            for i in x.insts:
                vs = list(i.ops)
                if i.op in ('call', 'gep'):
                    vs += [a[1] for a in i.x]
                used.update(v[1] for v in vs if v[0] == 'r')
        c[b] = used
        return used

    def forget_dead(self, f, b, st, regs):
        """Quantify guard variables no live value depends on (over-approximates)."""
        sup = B.support(st.guard)
        live = set()
        used = self.used_from(f, b)
        dead = {v.o for k, v in regs.items() if isinstance(v, Ptr) and k not in used and k in f.alloca_regs()}
        for oid, o in st.mem.items():
            if oid in dead:
                continue
            for n, v in o.cells.values():
                self.sup(v, live)
            for x in o.sym:
                for v in x:
                    self.sup(v, live)
        cross = self.cross(f)
        for k, v in regs.items():
            if k in used and k in cross:
                self.sup(v, live)
        st.guard = B.exists(st.guard, sup - live)

    def sup(self, v, acc):
        if isinstance(v, Ptr):
            v = v.off
        if type(v) is tuple:
            for b in v:
                if type(b) is int:
                    if b > 1:
                        B.support(b, acc)
                else:
                    self.sup(b, acc)

    def widen_loop(self, f, h, st, regs, push, results):
        if self.project:
            st = st.fork()
            self.forget_dead(f, h, st, regs)
            push_ = push

            def push(b, prev, s, r):
                self.forget_dead(f, b, s, r)
                push_(b, prev, s, r)
        body = f.loops[h]
        exits = {s for b in body for s in b.succ if s not in body}
        H = {}          # (oid, off) -> (n, kind): cells to forget; kind int | off | ptr
        HO = set()      # whole objects to forget
        inv_dead = set()
        cell_dead = set()

        def cell(s, oid, off):
            """Current integer view of a forgotten cell (None: not one)."""
            n, kind = H[(oid, off)]
            if oid not in s.mem or s.mem[oid].sym:
                return None
            v = self.load_c(s, oid, off, n, kind != 'int', n * 8)
            if kind == 'off':
                return v.off if isinstance(v, Ptr) else None
            return None if isinstance(v, (Ptr, FPtr, Undef)) else v

        def cands(vals, olds):
            """Candidate invariants of the forgotten cells (Houdini style)."""
            ks = [k for k in H if k[0] not in HO and k not in cell_dead and H[k][1] != 'ptr' and olds.get(k) is not None and vals.get(k) is not None]
            for k in ks:
                w = H[k][0] * 8
                for nm, c in self.invariants(f, h, st, olds[k], vals[k], w):
                    yield (k, nm), c
            wide = [k for k in ks if H[k][0] >= 4 and type(olds[k]) is int]
            if len(wide) <= 8:
                for i, x in enumerate(wide):
                    for y in wide[:i]:
                        wx, wy = H[x][0] * 8, H[y][0] * 8
                        if ((x, y), 'd+') in inv_dead and ((x, y), 'd-') in inv_dead:
                            continue
                        dx = B.vsub(vals[x], olds[x], wx)
                        dy = B.vsub(vals[y], olds[y], wy)
                        w = max(wx, wy)
                        dx = B.vsext(dx, wx, w)
                        dy = B.vsext(dy, wy, w)
                        if ((x, y), 'd+') not in inv_dead:
                            yield ((x, y), 'd+'), B.veq(dx, dy, w)
                        if ((x, y), 'd-') not in inv_dead:
                            yield ((x, y), 'd-'), B.veq(dx, B.vsub(0, dy, w), w)

        def build():
            s = st.fork()
            r = dict(regs)
            for oid in HO:
                if oid in s.mem:
                    self.havoc_obj(s, oid)
            olds = {k: cell(st, *k) for k in H if k[0] not in HO}
            for k in H:
                oid, off = k
                n, kind = H[k]
                if oid in HO or oid not in s.mem:
                    continue
                nm = 'it:%s+%d' % (oid if not isinstance(oid, tuple) else oid[-1], off)
                if kind == 'ptr':
                    v = self.ext_ptr(s, 'loop%s+%d#%d' % (oid, off, self.tick()))
                elif kind == 'off':
                    v = Ptr(self.load_c(st, oid, off, n, True, n * 8).o, B.fresh(nm, 64))
                else:
                    v = B.fresh(nm, n * 8)
                self.store_c(s, oid, off, n, v)
            for k, c in cands(olds, olds):
                if B.band(st.guard, c ^ 1):
                    inv_dead.add(k)
            vals = {k: cell(s, *k) for k in olds}
            for k, c in cands(vals, olds):
                if k not in inv_dead:
                    s.guard = B.band(s.guard, c)
            # high bits the invariants force to zero become constants
            for k, v in vals.items():
                if type(v) is not tuple or s.guard == 0:
                    continue
                t = len(v)
                zero = []
                while t > 0 and B.band(s.guard, v[t - 1]) == 0:
                    t -= 1
                    zero.append(v[t])
                if zero and t < len(v):
                    s.guard = B.exists(s.guard, {B.VAR[b >> 1] for b in zero})
                    nv = B.norm(v[:t] + (0,) * (len(v) - t))
                    n, kind = H[k]
                    self.store_c(s, k[0], k[1], n, nv if kind == 'int' else Ptr(self.load_c(s, k[0], k[1], n, True, 64).o, nv))
            return s, r, olds
        for rnd in range(60):
            s0, r0, olds = build()
            if s0.guard == 0:
                raise AnalysisBroken('loop widening lost the state in %s' % f.name)
            ref = s0.fork()
            back = {h: []}
            for e in exits:
                back[e] = []
            self.quiet += 1
            nex = len(self.exits)
            try:
                self.run_loop_body(f, h, s0, r0, back)
            finally:
                self.quiet -= 1
                del self.exits[nex:]
            changed = False
            for s, r in back[h]:
                vals = {k: cell(s, *k) for k in olds}
                for k in olds:
                    if olds[k] is not None and vals[k] is None and k not in cell_dead:
                        cell_dead.add(k)
                        changed = True
                for k, c in cands(vals, olds):
                    if k not in inv_dead and B.band(s.guard, c ^ 1):
                        inv_dead.add(k)
                        changed = True
                for oid, o in s.mem.items():
                    ro = ref.mem.get(oid)
                    if ro is None or ro is o or oid in HO:
                        continue
                    if o.sym != ro.sym or o.ver != ro.ver:
                        HO.add(oid)
                        changed = True
                        continue
                    for off, (n, v) in o.cells.items():
                        rv = ro.cells.get(off)
                        if rv is not None and rv[0] == n and rv[1] == v:
                            continue
                        if rv is None and ro.base != 'zero' and not isinstance(v, Undef):
                            try:
                                dv = self.load_c(ref, oid, off, n, isinstance(v, (Ptr, FPtr)), n * 8)
                            except AnalysisBroken:
                                dv = None
                            if dv == v:
                                continue
                        if (oid, off) in H:
                            if H[(oid, off)][1] == 'off' and not (isinstance(v, Ptr) and rv is not None and v.o == rv[1].o):
                                H[(oid, off)] = (n, 'ptr')
                                changed = True
                            continue
                        if n > 8 or (rv is not None and rv[0] != n):
                            HO.add(oid)
                        elif isinstance(v, Ptr) and v.o is not None and rv is not None and isinstance(rv[1], Ptr) and rv[1].o == v.o:
                            H[(oid, off)] = (n, 'off')
                        else:
                            H[(oid, off)] = (n, 'ptr' if isinstance(v, (Ptr, FPtr)) else 'int')
                        changed = True
                    for off in ro.cells:
                        if off not in o.cells and oid not in HO:
                            HO.add(oid)
                            changed = True
            if not changed:
                break
        else:
            raise AnalysisBroken('loop widening did not converge in %s' % f.name)
        s0, r0, olds = build()
        # final pass: checks on, back edges end
        back = {h: []}
        outs = {e: [] for e in exits}
        sink = dict(back)
        sink.update(outs)
        self.run_loop_body(f, h, s0, r0, sink, push, results)

    def tick(self):
        B._fresh[0] += 1
        return B._fresh[0]

    def havoc_obj(self, s, oid):
        o = s.w(oid)
        o.cells = {}
        o.sym = []
        if self.coarse and o.size is not None and self.coarse < o.size < 1 << 40:
            return
        o.ver = self.tick()
        o.base = 'sym'

    def invariants(self, f, h, st, old, v, w):
        """Candidate interval invariants of a widened cell (Houdini style)."""
        out = []
        if w < 8:
            return out
        if type(old) is int:
            out.append(('>=', B.vslt(v, old, w) ^ 1))
            out.append(('<=', B.vslt(old, v, w) ^ 1))
            if old & 1 == 0:
                out.append(('even', B.bits(v, w)[0] ^ 1))
            for c in self.loop_consts(f, h):
                c &= (1 << w) - 1
                out.append(('<=%d' % c, B.vslt(c, v, w) ^ 1))
                out.append(('>=%d' % c, B.vslt(v, c, w) ^ 1))
        else:
            out.append(('>=0', B.bits(v, w)[-1] ^ 1))
        if self.widen_inv:
            out += self.widen_inv(self, f, h, st, old, v, w)
        # keep only those true initially
        return [(k, c) for k, c in out]

    def loop_consts(self, f, h):
        c = getattr(h.fn, '_lc', None)
        if c is None:
            c = h.fn._lc = {}
        r = c.get(h)
        if r is None:
            s = set()
            for b in f.loops[h]:
                for i in b.insts:
                    if i.op == 'icmp':
                        for v in i.ops:
                            if v[0] == 'c':
                                x = v[1]
                                s.update((x, x - 1, x + 1))
            r = c[h] = sorted(s)[:12]
        return r

    def run_loop_body(self, f, h, s0, r0, sink, keep=None, results=None):
        """One arbitrary iteration from header h; states arriving at header or
        exits go to sink (or to keep for exits)."""
        body = f.loops[h]
        results = [] if results is None else results
        work, pend = [], {}
        cross = self.cross(f)
        seq = [0]
        allocs = []

        def push(b, prev, s, r):
            if s.guard == 0:
                return
            if b is h or b not in body:
                if b is not h and keep is not None:
                    keep(b, prev, s, r)
                else:
                    if b is h:
                        phis = [i for i in b.insts if i.op == 'phi']
                        if phis:
                            r = dict(r)
                            for i in phis:
                                r[i.res] = self.ev(s, r, i.ops[i.x.index(prev.name)], i.ty)
                    sink[b].append((s, r))
                return
            phis = []
            for i in b.insts:
                if i.op != 'phi':
                    break
                phis.append((i.res, self.ev(s, r, i.ops[i.x.index(prev.name)], i.ty)))
            r = {k: v for k, v in r.items() if k in cross}
            r.update(phis)
            hh = self.stop_at.get(b)
            if hh is not None:
                hh(self, s, r)
                return
            l = pend.get(b)
            if l is None:
                l = pend[b] = []
                seq[0] += 1
                heapq.heappush(work, (b.rpo, seq[0], b))
            l.append((s, r, prev))
        iters = {}
        self.exec_block(f, h, s0, r0, push, results, allocs)
        while work:
            _, _, b = heapq.heappop(work)
            items = pend.pop(b, None)
            if not items:
                continue
            if len(items) > 1 and self.merge:
                items = self.merge_items(items)
            for s, r, prev in items:
                if b in f.loops and self.widening(f, b, s, r, prev, iters, push, results):
                    continue
                self.exec_block(f, b, s, r, push, results, allocs)

    # -------------------------------------------------------------- merging
    def merge_items(self, items):
        out = []
        for it in items:
            for j, o in enumerate(out):
                m = self.try_merge(o, it)
                if m is not None:
                    out[j] = m
                    break
            else:
                out.append(it)
        return out

    def try_merge(self, a, b):
        s, r, p = a
        t, q, p2 = b
        if s.ev is not t.ev and s.events() != t.events():
            return None
        if s.ghost != t.ghost and hard(s.ghost) != hard(t.ghost):
            return None
        if self.extra_merge_ok and not self.extra_merge_ok(self, s, t):
            return None
        g = B.bor(s.guard, t.guard)
        c = B.restrict(s.guard, g) if g > 1 else s.guard
        if c < 2 and c == 0:
            return None
        nr = {}
        for k, v in r.items():
            if k not in q:
                continue
            x = q[k]
            if x is v or x == v:
                nr[k] = v
                continue
            if isinstance(v, (Ptr, FPtr)) or isinstance(x, (Ptr, FPtr)):
                return None
            if v is None or x is None or v is UNDEF or x is UNDEF:
                return None
            if isinstance(v, tuple) and v and v[0] == 'p2i' or isinstance(x, tuple) and x and x[0] == 'p2i':
                return None
            w = len(v) if isinstance(v, tuple) else len(x) if isinstance(x, tuple) else max(v.bit_length(), x.bit_length(), 1)
            if not isinstance(v, tuple) and not isinstance(x, tuple):
                w = self.reg_width(k, v, x)
                if w is None:
                    return None
            nr[k] = B.vite(c, v, x, w)
        m = {}
        changes = []
        for oid, o in list(s.mem.items()):
            o2 = t.mem.get(oid)
            if o2 is None:
                if isinstance(oid, str) and oid in self.m.globals:
                    self.gobj(t, oid)
                    o2 = t.mem[oid]
                else:
                    m[oid] = o
                    continue
            if o is o2:
                m[oid] = o
                continue
            if o.cells == o2.cells and o.sym == o2.sym and o.ver == o2.ver:
                m[oid] = o
                continue
            if o.ver != o2.ver or o.sym != o2.sym:
                return None
            no = o.copy()
            for off in set(o.cells) | set(o2.cells):
                x, y = o.cells.get(off), o2.cells.get(off)
                if x == y:
                    continue
                n = (x or y)[0]
                if x is not None and y is not None and x[0] != y[0]:
                    return None
                isp = isinstance((x or y)[1], (Ptr, FPtr))
                if x is None:
                    if any(off + d in o.cells for d in range(-7, n) if d):
                        if not self.clean(o, off, n):
                            return None
                    if o.base == 'undef' or (o.base == 'zero' and isp):
                        if o.base == 'undef':
                            # uninitialised on one side: keep the defined value
                            no.cells[off] = y
                            continue
                    x = (n, self.default_cell(s, o, off, n, isp))
                if y is None:
                    if any(off + d in o2.cells for d in range(-7, n) if d):
                        if not self.clean(o2, off, n):
                            return None
                    if o2.base == 'undef':
                        no.cells[off] = x
                        continue
                    y = (n, self.default_cell(t, o2, off, n, isp))
                u, v = x[1], y[1]
                if u == v:
                    no.cells[off] = (n, u)
                    continue
                if u is UNDEF:
                    no.cells[off] = y
                    continue
                if v is UNDEF:
                    no.cells[off] = x
                    continue
                if isinstance(u, (Ptr, FPtr)) or isinstance(v, (Ptr, FPtr)):
                    if isinstance(oid, tuple) and oid[0] == 'a' and not self.live_alloca(oid):
                        no.cells.pop(off, None)
                        continue
                    if self.ptr_join and isinstance(u, Ptr) and isinstance(v, Ptr) and u.o == v.o and u.o is not None:
                        no.cells[off] = (n, Ptr(u.o, B.vite(c, u.off, v.off, 64)))
                        continue
                    return None
                no.cells[off] = (n, B.vite(c, u, v, n * 8))
            changes.append((oid, no))
        for oid, o in list(t.mem.items()):
            if oid not in m and oid not in s.mem:
                if isinstance(oid, str) and oid in self.m.globals:
                    # untouched in s: compare with its initial content
                    self.gobj(s, oid)
                    if s.mem[oid].cells != o.cells or s.mem[oid].sym != o.sym or s.mem[oid].ver != o.ver:
                        return self.try_merge(a, b)
                m[oid] = o
        for oid, o in changes:
            m[oid] = o
        n = State.__new__(State)
        n.guard = g
        n.mem = m
        n.ev = s.ev
        n.ghost = s.ghost if s.ghost is t.ghost else {k: v for k, v in s.ghost.items() if t.ghost.get(k, n) == v}
        n.ghost = dict(n.ghost)
        n.tok = object()
        return (n, nr, p)

    def live_alloca(self, oid):
        return True

    def clean(self, o, off, n):
        for d in range(-15, n):
            x = o.cells.get(off + d)
            if x is not None and d != 0 and d + x[0] > 0:
                return False
        return True

    def reg_width(self, k, v, x):
        f = self.stack[-1][0] if self.stack else None
        if k == 'ret':
            f = self._retf
            return f.ret.bits() if f is not None and f.ret.k == 'int' else 64
        d = getattr(f, '_rw', None)
        if d is None:
            d = f._rw = {}
            for ty, nm, _ in f.params:
                d[nm] = ty.bits()
            for b in f.blocks:
                for i in b.insts:
                    if i.res:
                        if i.op in ('icmp', 'fcmp'):
                            d[i.res] = 1
                        elif i.ty is not None and i.ty.k == 'int':
                            d[i.res] = i.ty.w
        return d.get(k)

    _retf = None

    # ---------------------------------------------------------- block body
    def exec_block(self, f, b, st, regs, push, results, allocs):
        states = [(st, regs, 0)]
        while states:
            s, r, i = states.pop()
            try:
                more = self.exec_insts(f, b, s, r, i, push, results, allocs)
            except Stop:
                continue
            if more:
                states.extend(more)

    def exec_insts(self, f, b, st, regs, i, push, results, allocs):
        insts = b.insts
        n = len(insts)
        ev = self.ev
        while i < n:
            ins = insts[i]
            op = ins.op
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget('analysis budget exceeded in %s' % f.name)
            if op == 'load':
                p = ev(st, regs, ins.ops[0], PTR)
                try:
                    regs[ins.res] = self.load(st, p, ins.ty, ins)
                except NeedSplit as e:
                    out = []
                    for k in e.vals:
                        g = B.band(st.guard, B.veq(e.off, k, 64))
                        if g == 0:
                            continue
                        s2 = st.fork()
                        s2.guard = g
                        r2 = dict(regs)
                        r2[ins.res] = self.load(s2, Ptr(p.o, k), ins.ty, ins)
                        out.append((s2, r2, i + 1))
                    return out
            elif op == 'store':
                v = ev(st, regs, ins.ops[0], ins.ty)
                if isinstance(v, tuple) and v and v[0] == 'p2i':
                    v = v[1]
                self.store(st, ev(st, regs, ins.ops[1], PTR), ins.ty, v, ins)
            elif op == 'bin':
                if ins.ty.k == 'fp':
                    regs[ins.res] = UNDEF
                else:
                    regs[ins.res] = self.binop(ins.x, ins.ty.w, ev(st, regs, ins.ops[0], ins.ty), ev(st, regs, ins.ops[1], ins.ty))
            elif op == 'icmp':
                regs[ins.res] = self.nb(self.icmp(st, ins.x, ins.ty, ev(st, regs, ins.ops[0], ins.ty), ev(st, regs, ins.ops[1], ins.ty)))
            elif op == 'cast':
                regs[ins.res] = self.cast(st, ins.x[0], ins.x[1], ins.ty, ev(st, regs, ins.ops[0], ins.x[1]))
            elif op == 'gep':
                p = ev(st, regs, ins.ops[0], PTR)
                idx = [(t, self.as_int(ev(st, regs, v, t), t.bits())) for t, v in ins.x]
                if isinstance(p, Ptr):
                    regs[ins.res] = Ptr(p.o, B.vadd(p.off, self.gep_off(ins.ty, idx), 64))
                elif p is UNDEF:
                    regs[ins.res] = UNDEF
                else:
                    raise AnalysisBroken('gep on %r' % (p,))
            elif op == 'call':
                r = self.exec_call(st, regs, ins)
                if len(r) == 1 and r[0][0] is st:
                    if ins.res:
                        regs[ins.res] = r[0][1]
                else:
                    out = []
                    for j, (s2, v) in enumerate(r):
                        if s2.guard == 0:
                            continue
                        r2 = dict(regs) if len(r) > 1 else regs
                        if ins.res:
                            r2[ins.res] = v
                        out.append((s2, r2, i + 1))
                    return out
            elif op == 'br':
                push(f.bmap[ins.x[0]], b, st, regs)
                return None
            elif op == 'cbr':
                c = self.bit(ev(st, regs, ins.ops[0], I[1]))
                g1 = B.band(st.guard, c)
                if g1 == st.guard:
                    self.branched(ins, st, 1)
                    push(f.bmap[ins.x[0]], b, st, regs)
                elif g1 == 0:
                    self.branched(ins, st, 0)
                    push(f.bmap[ins.x[1]], b, st, regs)
                else:
                    s2 = st.fork()
                    st.guard = g1
                    s2.guard = B.band(s2.guard, c ^ 1)
                    self.branched(ins, st, 1)
                    self.branched(ins, s2, 0)
                    push(f.bmap[ins.x[0]], b, st, regs)
                    push(f.bmap[ins.x[1]], b, s2, dict(regs))
                return None
            elif op == 'switch':
                v = self.as_int(ev(st, regs, ins.ops[0], ins.ty), ins.ty.w)
                if type(v) is int:
                    t = ins.x[0]
                    for k, l in ins.x[1]:
                        if k == v:
                            t = l
                            break
                    push(f.bmap[t], b, st, regs)
                else:
                    by = {}
                    rest = st.guard
                    for k, l in ins.x[1]:
                        e = B.band(st.guard, B.veq(v, k, ins.ty.w))
                        if e:
                            by[l] = B.bor(by.get(l, 0), e)
                            rest = B.band(rest, e ^ 1)
                    if rest:
                        by[ins.x[0]] = B.bor(by.get(ins.x[0], 0), rest)
                    for l, g in by.items():
                        s2 = st.fork()
                        s2.guard = g
                        push(f.bmap[l], b, s2, dict(regs))
                return None
            elif op == 'ret':
                v = None
                if ins.ops:
                    v = ev(st, regs, ins.ops[0], ins.ty)
                    if v is UNDEF and ins.ty.k == 'int':
                        v = B.fresh('undefret:' + f.name, ins.ty.w)
                self._retf = f
                results.append((st, v))
                return None
            elif op == 'unreachable':
                return None
            elif op == 'alloca':
                self.nobj += 1
                key = ('a', self.nobj, f.name, self.m.files.get(f.vars.get(ins.res), ins.res))
                sz = ins.ty.size()
                if ins.x is not None:
                    cnt = self.ev(st, regs, ins.x[1], ins.x[0])
                    if type(cnt) is not int:
                        raise AnalysisBroken('variable alloca')
                    sz *= cnt
                o = Obj(key, sz, 'undef')
                o.own = st.tok
                st.mem[key] = o
                allocs.append(key)
                regs[ins.res] = Ptr(key, 0)
            elif op == 'select':
                c = self.bit(ev(st, regs, ins.ops[0], I[1]))
                a = ev(st, regs, ins.ops[1], ins.ty)
                d = ev(st, regs, ins.ops[2], ins.ty)
                if c == 1:
                    regs[ins.res] = a
                elif c == 0:
                    regs[ins.res] = d
                elif isinstance(a, (Ptr, FPtr)) or isinstance(d, (Ptr, FPtr)):
                    g1, g0 = B.band(st.guard, c), B.band(st.guard, c ^ 1)
                    if a == d or g0 == 0:
                        regs[ins.res] = a
                    elif g1 == 0:
                        regs[ins.res] = d
                    else:
                        s2 = st.fork()
                        r2 = dict(regs)
                        st.guard, s2.guard = g1, g0
                        regs[ins.res], r2[ins.res] = a, d
                        return [(st, regs, i + 1), (s2, r2, i + 1)]
                else:
                    regs[ins.res] = B.vite(c, self.as_int(a, ins.ty.w), self.as_int(d, ins.ty.w), ins.ty.w)
            elif op == 'phi':
                pass
            elif op == 'fcmp':
                regs[ins.res] = B.fresh('fcmp', 1)
            else:
                raise AnalysisBroken('instruction %s' % op)
            i += 1
        return None

    def branched(self, ins, st, taken):
        if self.trace_branch:
            self.trace_branch(self, ins, st, taken)

    @staticmethod
    def nb(bit):
        return bit if bit < 2 else (bit,)

    def bit(self, v):
        if type(v) is int:
            return v
        if v is UNDEF:
            return B.fresh('undef', 1)[0]
        return v[0]

    def exec_call(self, st, regs, ins):
        c = ins.ops[0]
        args = []
        for ty, v, at in ins.x:
            a = self.ev(st, regs, v, ty)
            if isinstance(a, tuple) and a and a[0] == 'p2i':
                a = a[1]
            args.append(a)
        if c[0] == 'g':
            return self.call(c[1], st, args, ins)
        f = self.ev(st, regs, c, PTR)
        if isinstance(f, FPtr):
            return self.call(f.name, st, args, ins)
        h = self.hooks.get('*indirect')
        if h:
            return h(self, st, [f] + args, ins)
        raise AnalysisBroken('indirect call through %r at %s' % (f, self.m.loc(ins)))

    # ------------------------------------------------------------- helpers
    def copy_mem(self, st, d, s, n, inst=None):
        if type(n) is not int:
            raise AnalysisBroken('memcpy of symbolic size')
        if type(s.off) is int and type(d.off) is int:
            if s.o not in st.mem:
                self.gobj(st, s.o)
            so = st.mem[s.o]
            cells = sorted((k, c) for k, c in so.cells.items() if s.off <= k and k + c[0] <= s.off + n)
            if so.base != 'zero':
                # untouched bytes: copy what is known, forget the rest
                do = st.w(d.o)
                for k in [k for k, c in do.cells.items() if k < d.off + n and k + c[0] > d.off]:
                    del do.cells[k]
                if do.base in ('undef', 'zero') and len(cells) == 0:
                    do.base = 'sym'
                    do.ver = self.tick()
            else:
                self.fill(st, d, 0, n)
            for k, (cn, v) in cells:
                self.store_c(st, d.o, d.off + k - s.off, cn, v)
        else:
            self.havoc_obj(st, d.o)

    def fill(self, st, d, v, n, inst=None):
        o = st.w(d.o)
        if type(n) is int and type(d.off) is int:
            if d.off == 0 and o.size is not None and n >= o.size and v == 0:
                o.cells = {}
                o.sym = []
                o.base = 'zero'
                o.ver = self.tick()
                return
            for k in [k for k, c in o.cells.items() if k < d.off + n and k + c[0] > d.off]:
                del o.cells[k]
            if o.base == 'zero' and v == 0:
                return
            if n > 4096:
                self.havoc_obj(st, d.o)
                return
            for k in range(n):
                o.cells[d.off + k] = (1, v)
        else:
            self.havoc_obj(st, d.o)

    def cstring(self, st, p, limit=4096):
        """The constant string at p, or None."""
        if not isinstance(p, Ptr) or type(p.off) is not int:
            return None
        if p.o not in st.mem:
            if p.o in self.m.globals:
                self.gobj(st, p.o)
            else:
                return None
        out = bytearray()
        off = p.off
        o = st.mem[p.o]
        for _ in range(limit):
            if o.size is not None and off >= o.size:
                return None
            v = self.load_c(st, p.o, off, 1, False, 8)
            if type(v) is not int:
                return None
            if v == 0:
                return bytes(out)
            out.append(v)
            off += 1
        return None


class NeedSplit(Exception):
    def __init__(self, off, vals):
        self.off, self.vals = off, vals


def hard(g):
    """Ghost entries that keep states apart; facts ('strlen', ...) are dropped
    on a merge instead."""
    return {k: v for k, v in g.items() if not (type(k) is tuple and k[0] == 'strlen')}


# -------------------------------------------------------------- library models
def lib_exit(ex, st, a, inst):
    ex.exits.append(('exit', a[0], st, inst))
    return []


def lib_assert(ex, st, a, inst):
    ex.exits.append(('assert', ex.cstring(st, a[0]), st, inst))
    return []


def lib_memcpy(ex, st, a, inst):
    n = a[2]
    if type(n) is int and inst is not None:
        ex.bounds(st, st.mem[a[0].o] if a[0].o in st.mem else st.mem[ex.gobj(st, a[0].o)], a[0].off, n, inst, 'write')
    ex.copy_mem(st, a[0], a[1], n, inst) if type(n) is int else ex.havoc_obj(st, a[0].o)
    return [(st, a[0])]


def lib_memset(ex, st, a, inst):
    if a[0].o not in st.mem:
        ex.gobj(st, a[0].o)
    n = a[2]
    v = B.vtrunc(a[1], 8) if not isinstance(a[1], int) else a[1] & 255
    o = st.mem[a[0].o]
    if o.size is not None and o.size < (1 << 40) and ex.check_bounds:
        if type(n) is int:
            ex.bounds(st, o, a[0].off, n, inst, 'write')
        else:
            end = B.vadd(a[0].off, n, 64)
            bad = B.band(st.guard, B.vult(o.size, end, 64))
            ex.note(st, inst, 'bounds-write', '%s[%d]' % (o.name if not isinstance(o.name, tuple) else o.name[-1], o.size), bad)
    ex.fill(st, a[0], v, n, inst)
    return [(st, a[0])]


def lib_strlen(ex, st, a, inst):
    s = ex.cstring(st, a[0])
    if s is not None:
        return [(st, len(s))]
    v = B.norm(B.opaque(('strlen', str(a[0]), ver(st, a[0])), 31) + (0,) * 33)
    st.ghost[('strlen', str(a[0]))] = v
    return [(st, v)]


def ver(st, p):
    o = st.mem.get(p.o) if isinstance(p, Ptr) else None
    return (o.ver, hash(tuple(sorted((k, str(c)) for k, c in o.cells.items())))) if o is not None else 0


def lib_strcmp(ex, st, a, inst):
    x, y = ex.cstring(st, a[0]), ex.cstring(st, a[1])
    if x is not None and y is not None:
        return [(st, 0 if x == y else 1 if x > y else 0xffffffff)]
    return [(st, B.opaque(('strcmp', str(a[0]), str(a[1]), ver(st, a[0]), ver(st, a[1])), 32))]


def lib_strcpy(ex, st, a, inst):
    s = ex.cstring(st, a[1])
    if s is not None and isinstance(a[0], Ptr) and type(a[0].off) is int:
        if a[0].o not in st.mem:
            ex.gobj(st, a[0].o)
        ex.bounds(st, st.mem[a[0].o], a[0].off, len(s) + 1, inst, 'write')
        for i, c in enumerate(s + b'\0'):
            ex.store_c(st, a[0].o, a[0].off + i, 1, c)
    else:
        if a[0].o not in st.mem:
            ex.gobj(st, a[0].o)
        ex.havoc_obj(st, a[0].o)
    return [(st, a[0])]


def lib_nop_int(ex, st, a, inst):
    return [(st, B.fresh('ret', 32))]


def lib_text(ex, st, a, inst):
    """sprintf and friends: the destination text becomes unknown."""
    if isinstance(a[0], Ptr) and a[0].o is not None:
        if a[0].o not in st.mem:
            ex.gobj(st, a[0].o)
        ex.havoc_obj(st, a[0].o)
    return [(st, B.fresh('ret', 32))]


LIB = {
    'exit': lib_exit, '_exit': lib_exit, '__assert_fail': lib_assert,
    'abort': lambda ex, st, a, i: ex.exits.append(('abort', None, st, i)) or [],
    'strlen': lib_strlen, 'strcmp': lib_strcmp, 'strcpy': lib_strcpy,
    'memcpy': lib_memcpy, 'memset': lib_memset, 'memmove': lib_memcpy,
    'printf': lib_nop_int, 'puts': lib_nop_int, 'putchar': lib_nop_int,
    'sprintf': lib_text, 'vsprintf': lib_text, 'snprintf': lib_text, 'vsnprintf': lib_text,
    'vprintf': lib_nop_int, 'fprintf': lib_nop_int,
}


def _intr(name):
    def f(ex, st, a, inst):
        if name == 'memcpy' or name == 'memmove':
            lib_memcpy(ex, st, a, inst)
        elif name == 'memset':
            lib_memset(ex, st, a, inst)
        return [(st, None)]
    return f


for _w in ('i64', 'i32'):
    LIB['llvm.memcpy.p0.p0.' + _w] = _intr('memcpy')
    LIB['llvm.memmove.p0.p0.' + _w] = _intr('memmove')
    LIB['llvm.memset.p0.' + _w] = _intr('memset')
