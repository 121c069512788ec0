"""Parser for the textual LLVM IR clang emits at -O0, and a small program model."""
import os
import re
import subprocess
import tempfile


class AnalysisBroken(Exception):
    """The analysis cannot answer (vanished anchor, unmodelled construct)."""


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'w', 'n', 'elt', 'fields', 'name', '_size', '_align', '_offs')

    def __init__(self, k, w=0, n=0, elt=None, fields=None, name=None):
        self.k, self.w, self.n, self.elt, self.fields, self.name = k, w, n, elt, fields, name
        self._size = None
        self._offs = None

    def align(self):
        if self.k == 'int':
            s = (self.w + 7) // 8
            return 1 if s <= 1 else 2 if s == 2 else 4 if s <= 4 else 8
        if self.k == 'ptr':
            return 8
        if self.k == 'arr':
            return self.elt.align()
        if self.k == 'struct':
            return 1 if self.n else max([f.align() for f in self.fields] or [1])
        if self.k == 'fp':
            return self.w // 8
        return 1

    def offsets(self):
        if self._offs is None:
            o, out = 0, []
            for f in self.fields:
                a = 1 if self.n else f.align()
                o = (o + a - 1) // a * a
                out.append(o)
                o += f.size()
            self._offs = out
        return self._offs

    def size(self):
        if self._size is None:
            if self.k == 'int':
                s = (self.w + 7) // 8
                s = 1 if s <= 1 else 2 if s == 2 else 4 if s <= 4 else 8 if s <= 8 else (s + 15) // 16 * 16
            elif self.k == 'ptr':
                s = 8
            elif self.k == 'fp':
                s = self.w // 8
            elif self.k == 'arr':
                s = self.n * self.elt.size()
            elif self.k == 'struct':
                of = self.offsets()
                s = 0
                if self.fields:
                    s = of[-1] + self.fields[-1].size()
                    a = self.align()
                    s = (s + a - 1) // a * a
            else:
                s = 0
            self._size = s
        return self._size

    def bits(self):
        return self.w if self.k == 'int' else 64

    def __repr__(self):
        return {'int': 'i%d' % self.w}.get(self.k, self.k)


PTR = Ty('ptr')
VOID = Ty('void')
I = {w: Ty('int', w) for w in (1, 8, 16, 32, 64, 128)}


class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'fn', 'blk', 'idx', 'run')

    def __init__(self, op, res=None, ty=None, ops=(), x=None, dbg=None):
        self.op, self.res, self.ty, self.ops, self.x, self.dbg = op, res, ty, ops, x, dbg
        self.run = None


class Block:
    __slots__ = ('name', 'insts', 'succ', 'pred', 'rpo', 'fn')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succ = []
        self.pred = []
        self.rpo = 0


class Func:
    def alloca_regs(self):
        c = getattr(self, '_ar', None)
        if c is None:
            c = self._ar = {i.res for b in self.blocks for i in b.insts if i.op == 'alloca'}
        return c

    def __init__(self, name, ret, params, vararg):
        self.name, self.ret, self.params, self.vararg = name, ret, params, vararg
        self.blocks = []
        self.bmap = {}
        self.noreturn = False
        self.vars = {}      # alloca name -> source variable name
        self.loops = None

    @property
    def entry(self):
        return self.blocks[0]


class Global:
    def __init__(self, name, ty, init, const):
        self.name, self.ty, self.init, self.const = name, ty, init, const


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.enums = {}
        self.enum_order = []
        self.structs = {}       # struct name -> {field: (offset, size)} in bytes
        self._meta = {}
        self.lines = {}
        self.files = {}
        self.src = None

    def line(self, inst):
        d = inst.dbg
        return self.lines.get(d, 0) if d else 0

    def loc(self, inst):
        return '%s:%d' % (os.path.basename(self.src or '?'), self.line(inst))


TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|("(?:[^"\\]|\\.)*")|([%@](?:[-\w.$]+|"[^"]*"))|(![\w.]*)|(\.\.\.)|([A-Za-z_][\w.]*)|(-?\d+(?:\.\d+)?(?:e[+-]?\d+)?)|(\#\d+)|(.))''')


def toks(s):
    out = []
    for m in TOK.finditer(s):
        t = m.group(0).strip()
        if t:
            out.append(t)
    return out


class P:
    """Token-stream parser for one line."""

    def __init__(self, mod, t):
        self.m, self.t, self.i = mod, t, 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ''

    def next(self):
        v = self.peek()
        self.i += 1
        return v

    def acc(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise AnalysisBroken('IR parse: expected %r at %r' % (v, ' '.join(self.t[max(0, self.i - 4):self.i + 6])))

    def type(self):
        t = self.next()
        if t == 'ptr':
            r = PTR
        elif t == 'void':
            r = VOID
        elif t == 'metadata':
            return Ty('meta')
        elif t == 'label':
            return Ty('label')
        elif re.fullmatch(r'i\d+', t):
            w = int(t[1:])
            r = I.get(w)
            if r is None:
                r = I[w] = Ty('int', w)
        elif t in ('double', 'float', 'x86_fp80'):
            r = Ty('fp', {'double': 64, 'float': 32, 'x86_fp80': 128}[t])
        elif t == '[':
            n = int(self.next())
            self.exp('x')
            e = self.type()
            self.exp(']')
            r = Ty('arr', n=n, elt=e)
        elif t == '{':
            fs = []
            while not self.acc('}'):
                fs.append(self.type())
                self.acc(',')
            r = Ty('struct', fields=fs)
        elif t == '<' and self.peek() == '{':
            r = self.type()
            self.exp('>')
            r = Ty('struct', fields=r.fields, n=1)
        elif t == '<':
            n = int(self.next())
            self.exp('x')
            e = self.type()
            self.exp('>')
            r = Ty('arr', n=n, elt=e)
        elif t[0] == '%':
            r = self.m.types.get(t)
            if r is None:
                r = self.m.types[t] = Ty('struct', name=t)
        else:
            raise AnalysisBroken('IR parse: type %r in %s' % (t, ' '.join(self.t)))
        return r

    ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly',
             'immarg', 'returned', 'inreg', 'noreturn', 'nounwind', 'allocptr', 'readnone', 'writable', 'dead_on_unwind'}

    def attrs(self):
        a = []
        while True:
            t = self.peek()
            if t in self.ATTRS:
                a.append(self.next())
            elif t in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                self.next()
                if self.acc('('):
                    self.next()
                    self.exp(')')
                else:
                    self.next()
            elif t in ('byval', 'sret', 'elementtype'):
                self.next()
                self.exp('(')
                ty = self.type()
                self.exp(')')
                a.append((t, ty))
            else:
                return a

    def value(self, ty):
        """An operand: ('r',name) register, ('c',int), ('g',name), ('gep',...), aggregates..."""
        t = self.next()
        if t[0] == '%':
            return ('r', t)
        if t[0] == '@':
            return ('g', t[1:].strip('"'))
        if t in ('null', 'zeroinitializer'):
            return ('z',)
        if t in ('undef', 'poison'):
            return ('u',)
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if re.fullmatch(r'-?\d+', t):
            w = ty.bits()
            return ('c', int(t) & ((1 << w) - 1))
        if t[0] == 'c' and t[1:2] == '"':
            return ('s', cstr(t[2:-1]))
        if t == '[':
            out = []
            while not self.acc(']'):
                e = self.type()
                out.append((e, self.value(e)))
                self.acc(',')
            return ('agg', out)
        if t == '{':
            out = []
            while not self.acc('}'):
                e = self.type()
                out.append((e, self.value(e)))
                self.acc(',')
            return ('agg', out)
        if t == '<':
            self.i -= 1
            self.exp('<')
            if self.peek() == '{':
                v = self.value(ty)
                self.exp('>')
                return v
            out = []
            while not self.acc('>'):
                e = self.type()
                out.append((e, self.value(e)))
                self.acc(',')
            return ('agg', out)
        if t == 'getelementptr':
            self.acc('inbounds')
            self.exp('(')
            bt = self.type()
            self.exp(',')
            self.type()
            b = self.value(PTR)
            idx = []
            while self.acc(','):
                it = self.type()
                idx.append((it, self.value(it)))
            self.exp(')')
            return ('gep', bt, b, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.exp('(')
            st = self.type()
            v = self.value(st)
            self.exp('to')
            dt = self.type()
            self.exp(')')
            return ('cast', t, st, v, dt)
        if t in ('sub', 'add'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.exp('(')
            st = self.type()
            a = self.value(st)
            self.exp(',')
            self.type()
            b = self.value(st)
            self.exp(')')
            return ('bin', t, st, a, b)
        if ty.k == 'fp':
            return ('fp', t)
        raise AnalysisBroken('IR parse: value %r in %s' % (t, ' '.join(self.t)))

    def tyval(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin1')
            i += 1
    return bytes(out)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}
FCASTS = {'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'}


def parse(text, src=None):
    m = Module()
    m.src = src
    fn = None
    blk = None
    lines = text.split('\n')
    for ln in lines:
        if ln.startswith('%') and ' = type ' in ln:
            n, _, b = ln.partition(' = type ')
            p = P(m, toks(b))
            ty = m.types.get(n)
            if ty is None:
                ty = m.types[n] = Ty('struct', name=n)
            if p.peek() == 'opaque':
                ty.fields = []
            else:
                d = p.type()
                ty.fields = d.fields
            ty.k = 'struct'
    i = 0
    while i < len(lines):
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ';':
            continue
        if fn is None:
            if ln[0] == '@':
                parse_global(m, ln)
            elif ln.startswith('define '):
                fn = parse_sig(m, ln)
                m.funcs[fn.name] = fn
                nb = sum(1 for p in fn.params if True)
                blk = None
            elif ln.startswith('declare '):
                f = parse_sig(m, ln)
                m.decls[f.name] = f
            elif ln.startswith('!'):
                parse_meta(m, ln)
            elif ln.startswith('attributes '):
                a = ln.split()
                m.enums.setdefault('@attr', {})[a[1]] = ln
            continue
        if ln[0] == '}':
            fn = None
            continue
        mm = re.match(r'([-\w.$]+|"[^"]*"):', ln)
        if mm:
            blk = Block('%' + mm.group(1))
            fn.blocks.append(blk)
            fn.bmap[blk.name] = blk
            blk.fn = fn
            continue
        s = ln.strip()
        if not s or s[0] == ';':
            continue
        if blk is None:
            blk = Block('%' + str(len(fn.params)) if all(re.fullmatch(r'%\d+', p[1]) for p in fn.params) else '%entry')
            blk.fn = fn
            fn.blocks.append(blk)
            fn.bmap[blk.name] = blk
        if s.startswith('switch '):
            while not s.rstrip().endswith(']') and '], !dbg' not in s and not re.search(r'\](, !\S+ !?\d+)*$', s):
                s += ' ' + lines[i].strip()
                i += 1
        ins = parse_inst(m, fn, s)
        if ins is not None:
            ins.fn = fn
            ins.blk = blk
            ins.idx = len(blk.insts)
            blk.insts.append(ins)
    attrs = m.enums.pop('@attr', {})
    for f in list(m.funcs.values()) + list(m.decls.values()):
        a = attrs.get('#' + str(f.attr), '') if f.attr is not None else ''
        if ' noreturn ' in a:
            f.noreturn = True
        m.attrs = attrs
    for f in m.funcs.values():
        link(f)
    for body in m._meta.values():
        if 'DW_TAG_member' in body:
            nm = re.search(r'name: "(\w+)"', body)
            sc = re.search(r'scope: !(\d+)', body)
            par = m._meta.get(int(sc.group(1))) if sc else None
            pn = re.search(r'name: "(\w+)"', par) if par else None
            if nm and pn:
                o = re.search(r'offset: (\d+)', body)
                z = re.search(r'[ (]size: (\d+)', body)
                m.structs.setdefault(pn.group(1), {})[nm.group(1)] = (int(o.group(1)) // 8 if o else 0, int(z.group(1)) // 8)
    return m


def parse_meta(m, ln):
    mm = re.match(r'!(\d+) = (distinct )?!(\w+)\((.*)\)$', ln)
    if not mm:
        return
    n, kind, body = int(mm.group(1)), mm.group(3), mm.group(4)
    if kind == 'DIEnumerator':
        a = re.search(r'name: "(\w+)", value: (-?\d+)', body)
        m.enums[a.group(1)] = int(a.group(2))
        m.enum_order.append(a.group(1))
    elif kind in ('DIDerivedType', 'DICompositeType') and ('DW_TAG_member' in body or 'DW_TAG_structure_type' in body):
        m._meta[n] = body
    elif kind == 'DILocation':
        a = re.search(r'line: (\d+)', body)
        m.lines[n] = int(a.group(1)) if a else 0
    elif kind == 'DILocalVariable':
        a = re.search(r'name: "(\w+)"', body)
        if a:
            m.files[n] = a.group(1)


def parse_global(m, ln):
    body = re.sub(r', !dbg !\d+.*$', '', ln)
    t = toks(body)
    name = t[0][1:].strip('"')
    p = P(m, t)
    p.next()
    p.exp('=')
    const = False
    ext = False
    while True:
        w = p.peek()
        if w in ('constant', 'global'):
            const = w == 'constant'
            p.next()
            break
        if w == 'external':
            ext = True
        p.next()
    ty = p.type()
    init = None
    if not ext and p.peek() not in ('', ','):
        init = p.value(ty)
    m.globals[name] = Global(name, ty, init, const)


def parse_sig(m, ln):
    attr = re.findall(r'#(\d+)', ln)
    body = re.sub(r'(#\d+|!dbg !\d+)', '', ln)
    body = body.rstrip(' {')
    t = toks(body)
    p = P(m, t)
    p.next()
    while p.peek() in ('dso_local', 'internal', 'private', 'noalias', 'noundef', 'signext', 'zeroext', 'local_unnamed_addr', 'nonnull', 'hidden', 'weak', 'linkonce_odr'):
        p.next()
    p.attrs()
    ret = p.type()
    name = p.next()[1:].strip('"')
    p.exp('(')
    params = []
    va = False
    k = 0
    while not p.acc(')'):
        if p.acc('...'):
            va = True
            continue
        ty = p.type()
        a = p.attrs()
        nm = None
        if p.peek()[:1] == '%':
            nm = p.next()
        params.append((ty, nm or '%' + str(k), a))
        k += 1
        p.acc(',')
    f = Func(name, ret, params, va)
    f.attr = attr[0] if attr else None
    return f


def parse_inst(m, fn, s):
    dbg = None
    mm = re.search(r', !dbg !(\d+)', s)
    if mm:
        dbg = int(mm.group(1))
    if 'llvm.dbg.' in s:
        mm = re.search(r'metadata ptr (%[\w.]+), metadata !(\d+)', s)
        if mm:
            fn.vars[mm.group(1)] = int(mm.group(2))
        return None
    s = re.sub(r'(, !\S+ !?\d+)+$', '', s)
    s = re.sub(r' #\d+$', '', s)
    p = P(m, toks(s))
    res = None
    if p.peek()[:1] == '%' and p.peek(1) == '=':
        res = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN or op in FBIN:
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast'):
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.exp(',')
        b = p.value(ty)
        return Inst('bin', res, ty, (a, b), op, dbg)
    if op == 'fneg':
        ty = p.type()
        return Inst('bin', res, ty, (p.value(ty),), op, dbg)
    if op in CASTS or op in FCASTS:
        if p.peek() == 'nneg':
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.exp('to')
        return Inst('cast', res, p.type(), (a,), (op, ty), dbg)
    if op in ('icmp', 'fcmp'):
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.exp(',')
        return Inst(op, res, ty, (a, p.value(ty)), pred, dbg)
    if op == 'alloca':
        ty = p.type()
        n = None
        if p.acc(',') and p.peek() != 'align':
            n = p.tyval()
        return Inst('alloca', res, ty, (), n, dbg)
    if op == 'load':
        p.acc('volatile')
        ty = p.type()
        p.exp(',')
        p.type()
        return Inst('load', res, ty, (p.value(PTR),), None, dbg)
    if op == 'store':
        p.acc('volatile')
        ty, v = p.tyval()
        p.exp(',')
        p.type()
        return Inst('store', None, ty, (v, p.value(PTR)), None, dbg)
    if op == 'getelementptr':
        p.acc('inbounds')
        bt = p.type()
        p.exp(',')
        p.type()
        b = p.value(PTR)
        idx = []
        while p.acc(','):
            it = p.type()
            idx.append((it, p.value(it)))
        return Inst('gep', res, bt, (b,), idx, dbg)
    if op == 'br':
        if p.acc('label'):
            return Inst('br', None, None, (), [p.next()], dbg)
        ty = p.type()
        c = p.value(ty)
        p.exp(',')
        p.exp('label')
        a = p.next()
        p.exp(',')
        p.exp('label')
        return Inst('cbr', None, None, (c,), [a, p.next()], dbg)
    if op == 'switch':
        ty = p.type()
        c = p.value(ty)
        p.exp(',')
        p.exp('label')
        d = p.next()
        p.exp('[')
        cases = []
        while not p.acc(']'):
            p.type()
            v = p.value(ty)[1]
            p.exp(',')
            p.exp('label')
            cases.append((v, p.next()))
        return Inst('switch', None, ty, (c,), (d, cases), dbg)
    if op == 'ret':
        ty = p.type()
        if ty.k == 'void':
            return Inst('ret', None, ty, (), None, dbg)
        return Inst('ret', None, ty, (p.value(ty),), None, dbg)
    if op == 'unreachable':
        return Inst('unreachable', None, None, (), None, dbg)
    if op == 'phi':
        ty = p.type()
        inc = []
        while p.acc('['):
            v = p.value(ty)
            p.exp(',')
            inc.append((v, p.next()))
            p.exp(']')
            p.acc(',')
        return Inst('phi', res, ty, tuple(v for v, _ in inc), [b for _, b in inc], dbg)
    if op == 'select':
        p.type()
        c = p.value(I[1])
        p.exp(',')
        ty, a = p.tyval()
        p.exp(',')
        _, b = p.tyval()
        return Inst('select', res, ty, (c, a, b), None, dbg)
    if op == 'call':
        while p.peek() in ('fast', 'noalias'):
            p.next()
        p.attrs()
        ty = p.type()
        if p.peek() == '(':      # function type, varargs
            d = 0
            while True:
                t = p.next()
                d += (t == '(') - (t == ')')
                if d == 0:
                    break
        callee = p.value(PTR)
        p.exp('(')
        args = []
        while not p.acc(')'):
            at = p.type()
            aa = p.attrs()
            if at.k == 'meta':
                while p.peek() not in (',', ')'):
                    p.next()
                p.acc(',')
                continue
            args.append((at, p.value(at), aa))
            p.acc(',')
        return Inst('call', res, ty, (callee,), args, dbg)
    if op in ('extractvalue', 'insertvalue'):
        raise AnalysisBroken('IR: %s' % s)
    if op == 'va_arg':
        raise AnalysisBroken('IR: %s' % s)
    raise AnalysisBroken('IR: unknown instruction %s' % s)


def link(f):
    f.bmap = {b.name: b for b in f.blocks}
    for b in f.blocks:
        t = b.insts[-1]
        if t.op in ('br', 'cbr'):
            names = t.x
        elif t.op == 'switch':
            names = [t.x[0]] + [l for _, l in t.x[1]]
        else:
            names = []
        seen = []
        for n in names:
            bb = f.bmap[n]
            if bb not in seen:
                seen.append(bb)
        b.succ = seen
    for b in f.blocks:
        for s in b.succ:
            s.pred.append(b)
    analyse_cfg(f)


def analyse_cfg(f):
    # natural loops first (DFS back edges; the CFGs here are reducible in practice)
    order = []
    color = {}
    back = []
    stack = [(f.entry, iter(f.entry.succ))]
    color[f.entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s) is None:
                color[s] = 1
                stack.append((s, iter(s.succ)))
                break
            if color[s] == 1:
                back.append((b, s))
        else:
            color[b] = 2
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    for i, b in enumerate(rpo):
        b.rpo = i
    loops = {}
    for b, h in back:
        body = loops.setdefault(h, {h})
        st = [b]
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(y for y in x.pred if y in color)
    f.loops = loops
    # An order in which every loop's body precedes the loop's exits: topological
    # order of the loop nesting forest.
    f.reach = rpo
    prio = loop_order(f, rpo, loops)
    for i, b in enumerate(prio):
        b.rpo = i
    for b in f.blocks:
        if b not in color:
            b.rpo = len(prio) + 1


def loop_order(f, rpo, loops):
    depth_of = {}
    for h, body in loops.items():
        for b in body:
            if b not in depth_of or len(loops[depth_of[b]]) > len(body) or (depth_of[b] is not h and len(loops[depth_of[b]]) >= len(body)):
                depth_of[b] = h
    parent = {}
    for h in loops:
        best = None
        for h2, body in loops.items():
            if h2 is not h and h in body and (best is None or len(body) < len(loops[best])):
                best = h2
        parent[h] = best

    def region(nodes, header):
        # contract inner loops
        rep = {}
        inner = []
        for h in loops:
            if h is header or h not in nodes:
                continue
            p = parent[h]
            if p is header or (header is None and p is None):
                inner.append(h)
                for b in loops[h]:
                    rep[b] = h
        units = []
        seen = set()
        for b in rpo:
            if b in nodes:
                r = rep.get(b, b)
                if r not in seen:
                    seen.add(r)
                    units.append(r)
        succ = {u: set() for u in units}
        for b in nodes:
            u = rep.get(b, b)
            for s in b.succ:
                if s in nodes and s is not header:
                    v = rep.get(s, s)
                    if v is not u and v in succ:
                        succ[u].add(v)
        indeg = {u: 0 for u in units}
        for u in units:
            for v in succ[u]:
                indeg[v] += 1
        out = []
        ready = [u for u in units if indeg[u] == 0]
        left = set(units)
        while left:
            if not ready:
                ready = [next(u for u in units if u in left)]
            u = ready.pop(0)
            if u not in left:
                continue
            left.discard(u)
            if u in inner:
                out += region(loops[u], u)
            else:
                out.append(u)
            for v in succ[u]:
                indeg[v] -= 1
                if indeg[v] == 0 and v in left:
                    ready.append(v)
        return out
    return region(set(rpo), None)


FLAGS = ['-std=c99', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w']


def compile_ir(src, extra=(), flags=None):
    """clang -O0 IR of one translation unit (the build's language mode)."""
    with tempfile.TemporaryDirectory(prefix='vt') as d:
        out = os.path.join(d, 'o.ll')
        r = subprocess.run(['clang'] + (flags or FLAGS) + list(extra) + ['-S', '-emit-llvm', src, '-o', out],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('clang failed on %s:\n%s' % (src, r.stderr[-2000:]))
        with open(out, encoding='latin1') as fh:
            text = fh.read()
    return parse(text, src)
