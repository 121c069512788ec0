"""Properties of sim86.c: M01 (results), M02 (flags and branches), M03 (operand
addresses), M04 (DOS services), M05 (memory safety), M06 (-v/-p change
nothing), M07 (start state), M08 (nothing is mis-executed)."""
import itertools
import os
from vt import bdd as B
from vt import ir, x86, simmodel
from vt.absint import Exec, State, Obj, Ptr, NULL
from vt.ir import AnalysisBroken
from vt.util import Report, finish, pmap
from . import sim

SUBSET = ['sim86: the 8086 instruction subset and operand restrictions listed in the property']


def chunks(xs, n=64):
    return [c for c in (xs[i::n] for i in range(n)) if c]


def _cmp(ch):
    out = []
    for f in ch:
        bad, ins, vis, nf = sim.compare(f)
        out.append((f, bad, ins, nf, vis))
    return out


def opkey(f):
    b = [x for x in f[0] if type(x) is int]
    while b[0] in (0x26, 0x2E, 0x36, 0x3E, 0xF2, 0xF3) and len(b) > 1:
        b = b[1:]
    grp = b[0] in (0x80, 0x81, 0x82, 0x83, 0xD1, 0xD3, 0xF7, 0xFE, 0xFF) and len(b) > 1
    return '%02X%s' % (b[0], '/%d' % (b[1] >> 3 & 7) if grp else '')


def run(rep, forms, cats):
    sim.mod()
    for rs in pmap(_cmp, chunks(forms)):
        for f, bad, ins, nf, vis in rs:
            rep.functions.update(v if isinstance(v, str) else str(v) for v in vis)
            hit = [b for b in bad if b[0] in cats]
            if not hit:
                rep.ok(1, '%s: %s' % (sim.name(f), ins))
            for c, text, what in hit:
                rep.bad('%s:%s:%s' % (opkey(f), c, what), '%s -- %s' % (sim.name(f), text))


def M01(full):
    rep = Report('M01')
    run(rep, sim.forms(full), ('result', 'exit', 'addr'))
    return finish(rep, 2500, SUBSET, 'every instruction form: registers, IP and memory writes of the data-flow summary of the fetch/execute loop equal the 8086 model for all register, flag, immediate and memory values')


def M02(full):
    rep = Report('M02')
    fs = sim.forms(full)
    jcc = [f for f in fs if type(f[0][0]) is int and 0x70 <= f[0][0] < 0x80]
    run(rep, [f for f in fs if f not in set(jcc)], ('flag',))
    run(rep, jcc, ('flag', 'result', 'exit'))
    return finish(rep, 2500, SUBSET, 'every instruction form: CF ZF SF OF equal the 8086 model where it defines them; Jcc is taken exactly on its condition')


def M03(full):
    rep = Report('M03')
    fs = []
    for f in sim.forms(full):
        ops = [x for x in f[0] if x not in (0x26, 0x2E, 0x36, 0x3E, 0xF2, 0xF3)]
        pre = len(ops) != len(f[0])
        if ops[0] in (0x88, 0x89, 0x8A, 0x8B, 0x8C, 0x8D, 0x8E, 0xA0, 0xA1, 0xA2, 0xA3, 0xC6, 0xC7, 0xA4, 0xA5, 0xAA, 0xAB, 0xAC, 0xAD) or \
                pre or 0x50 <= ops[0] < 0x60:
            fs.append(f)
    run(rep, fs, ('result', 'addr'))
    return finish(rep, 800, SUBSET, 'moves, LEA, string, stack and prefixed forms: operand addresses (base+index+disp mod 65536, default or overriding segment, 20-bit wrap) equal the 8086 model')


# ------------------------------------------------------------------ DOS services
O_WRONLY, O_CREAT, O_TRUNC = os.O_WRONLY, os.O_CREAT, os.O_TRUNC


def dos(func, intno=0x21, verbose=0, mk=None, init=None, memory=None, unroll=3):
    """Summary of INT intno with AH=func; host calls become ghost events."""
    B.reset()
    m = sim.mod()
    s = simmodel.Sim(m, verbose)
    s.max_unroll = unroll
    al = B.sym('AL', 8)
    ax = B.norm(B.bits(al, 8) + B.bits(func, 8))

    def setup(ex, st, info):
        ex.on_unbounded = None

        def host(name, ret):
            def h(e, s2, a, inst):
                r = B.sym('host_' + name, 32) if ret else None
                # host call results: -1 or a count/handle
                if ret:
                    bits = B.bits(r, 32)
                    lim = B.bor(B.veq(r, 0xffffffff, 32), B.veq(B.norm(bits[16:]), 0, 16))
                    s2.guard = B.band(s2.guard, lim)
                if name in ('read', 'write'):
                    chk_buf(e, s2, a, inst, name)
                extra = ()
                if name == 'open':
                    extra = tuple(e.load_byte(s2, a[0].o, e_off(a[0].off, k)) if a[0].o in s2.mem else None for k in range(8))
                s2.ghost['host'] = s2.ghost.get('host', ()) + ((name, tuple(a), extra),)
                return [(s2, r)]
            return h
        ex.hooks['open'] = host('open', True)
        ex.hooks['read'] = host('read', True)
        ex.hooks['write'] = host('write', True)
        ex.hooks['close'] = host('close', True)
        ex.hooks['putchar'] = host('putchar', True)

        def ph(e, s2, a, inst):
            s2.ghost['host'] = s2.ghost.get('host', ()) + (('printf', (), ()),)
            return [(s2, B.fresh('printf', 32))]
        if not verbose:
            ex.hooks['printf'] = ph
            ex.hooks['puts'] = ph
        if mk:
            mk(ex, st, info)
    info, finals, exits = s.summary([0xCD, intno], dict(init or {}, AX=ax), setup=setup, memory=memory)
    return s, info, finals, exits, al


def e_off(off, k):
    return off + k if type(off) is int else B.vadd(off, k, 64)


def chk_buf(ex, st, a, inst, name):
    p, n = a[1], a[2]
    if not isinstance(p, Ptr) or p.o != 'mem':
        return
    size = ex.m.globals['mem'].ty.size()
    end = B.vadd(p.off, n, 64)
    bad = B.bor(B.vult(size, end, 64), B.vult(size, p.off, 64))
    if type(n) is not int and B.bits(n, 64)[63] != 0:
        bad = B.bor(bad, B.bits(n, 64)[63])
    ex.note(st, inst, 'host-buffer', '%s() stays inside mem' % name, B.band(st.guard, bad))


def M04(full):
    rep = Report('M04')
    rule = 'per INT 21h function: host calls and their operands, CF, AX and everything else left alone, on every path of the data-flow summary'

    def ctx(func, intno=0x21, **k):
        s, info, finals, exits, al = dos(func, intno=intno, **k)
        rep.functions.update(str(v) for v in s.ex.visited)
        return s, info, finals, exits, al

    def same(s, info, st, what, skip=(), ip=2, cf=None):
        o = s.outcome(st)
        for i, n in enumerate(x86.R16):
            if n in skip:
                continue
            rep.check(B.band(st.guard, B.veq(o[n], info['r0'][i], 16) ^ 1) == 0, what + ':' + n, '%s changes %s' % (what, n))
        for i, n in enumerate(x86.SR):
            rep.check(B.band(st.guard, B.veq(o[n], info['s0'][i], 16) ^ 1) == 0, what + ':' + n, '%s changes %s' % (what, n))
        rep.check(B.band(st.guard, B.veq(o['IP'], simmodel.IP0 + 2, 16) ^ 1) == 0, what + ':IP', '%s: execution does not go on after the INT' % what)
        rep.check(not st.ghost['log'], what + ':mem', '%s writes simulated memory itself' % what)
        if cf is not None:
            d = B.band(st.guard, B.bxor(o['fC'], cf))
            rep.check(d == 0, what + ':CF', '%s: carry does not tell failure from success%s' % (what, ', e.g. when %s' % sim.fmt(d) if d else ''))
        return o

    def covered(finals, exits, what, want=1):
        g = 0
        for st in finals:
            g = B.bor(g, st.guard)
        for kind, val, st, inst in exits:
            rep.bad(what + ':exit', '%s ends the simulation (%s %r)' % (what, kind, val))
        rep.check(len(finals) > 0, what + ':runs', '%s never completes' % what, what)
        return g

    def calls(st, what, name):
        ev = st.ghost.get('host', ())
        ok = len(ev) == 1 and ev[0][0] == name
        rep.check(ok, what + ':call', '%s: host calls are %s, expected one %s' % (what, [e[0] for e in ev], name))
        return ev[0] if ok else None

    def eq(st, a, b, w, key, text):
        d = B.band(st.guard, B.veq(a, b, w) ^ 1)
        rep.check(d == 0, key, text + (', e.g. when %s' % sim.fmt(d) if d else ''))

    # 02: output DL
    s, info, finals, exits, al = ctx(2)
    covered(finals, exits, 'AH=02')
    for st in finals:
        same(s, info, st, 'AH=02', skip=('AX',))
        e = calls(st, 'AH=02', 'putchar')
        if e:
            eq(st, B.vtrunc(e[1][0], 8), B.vtrunc(info['r0'][2], 8), 8, 'AH=02:char', 'AH=02 writes another character than DL')
    # 3C/3D
    for fn, fl in ((0x3C, O_WRONLY | O_CREAT | O_TRUNC), (0x3D, os.O_RDONLY)):
        what = 'AH=%02X' % fn
        # any name of up to 6 characters, running past the end of the segment
        s, info, finals, exits, al = ctx(fn, unroll=10, init={'DS': 0x3456, 'DX': 0xFFFC}, memory={0x34560 + 2: 0})
        covered(finals, exits, what)
        opened = 0
        for st in finals:
            o = same(s, info, st, what, skip=('AX',))
            ev = st.ghost.get('host', ())
            if not ev:
                # refused without asking the host: must report failure
                rep.check(B.band(st.guard, o['fC'] ^ 1) == 0, what + ':refused', '%s: file not opened but carry clear' % what)
                continue
            e = calls(st, what, 'open')
            if not e:
                continue
            opened += 1
            r = B.sym('host_open', 32)
            neg = B.bits(r, 32)[31]
            d = B.band(st.guard, B.bxor(o['fC'], neg))
            rep.check(d == 0, what + ':CF', '%s: carry is not set exactly when the host open fails' % what)
            d = B.band(B.band(st.guard, neg ^ 1), B.veq(o['AX'], B.vtrunc(r, 16), 16) ^ 1)
            rep.check(d == 0, what + ':AX', '%s: AX is not the handle' % what)
            eq(st, e[1][1], fl, 32, what + ':flags', '%s: wrong host open flags' % what)
            # the name is the ASCIIZ string at DS:DX
            live = 1
            sp = sim.Spec(s.base_read, st.guard)
            sp.s = list(info['s0'])
            for k in range(8):
                want = sp.read8(3, B.vadd(info['r0'][2], k, 16))
                got = e[2][k]
                if got is None or isinstance(got, Ptr):
                    rep.bad(what + ':name', '%s: the host open gets a name of unknown content' % what)
                    break
                d = B.band(B.band(st.guard, live), B.veq(got, want, 8) ^ 1)
                rep.check(d == 0, what + ':name', '%s: byte %d of the file name is not the byte at DS:DX+%d%s' % (what, k, k, ', e.g. when %s' % sim.fmt(d) if d else ''))
                live = B.band(live, B.veq(want, 0, 8) ^ 1)
        rep.check(opened > 0, what + ':opens', '%s never opens a file' % what)
    # 3E
    s, info, finals, exits, al = ctx(0x3E)
    covered(finals, exits, 'AH=3E')
    for st in finals:
        o = same(s, info, st, 'AH=3E', skip=('AX',))
        e = calls(st, 'AH=3E', 'close')
        if e:
            eq(st, e[1][0], B.vzext(info['r0'][3], 16, 32), 32, 'AH=3E:handle', 'AH=3E closes another handle than BX')
        d = B.band(B.band(st.guard, B.bits(B.sym('host_close', 32), 32)[31] ^ 1), o['fC'])
        rep.check(d == 0, 'AH=3E:CF', 'AH=3E: carry set after a successful close')
    # 3F/40
    for fn, nm in ((0x3F, 'read'), (0x40, 'write')):
        what = 'AH=%02X' % fn
        s, info, finals, exits, al = ctx(fn)
        covered(finals, exits, what)
        for st in finals:
            r = B.sym('host_' + nm, 32)
            neg = B.bits(r, 32)[31]
            o = same(s, info, st, what, skip=('AX',), cf=neg)
            d = B.band(B.band(st.guard, neg ^ 1), B.veq(o['AX'], B.vtrunc(r, 16), 16) ^ 1)
            rep.check(d == 0, what + ':AX', '%s: AX is not the number of bytes moved' % what)
            e = calls(st, what, nm)
            if not e:
                continue
            eq(st, e[1][0], B.vzext(info['r0'][3], 16, 32), 32, what + ':handle', '%s uses another handle than BX' % what)
            p = e[1][1]
            if not isinstance(p, Ptr) or p.o != 'mem':
                rep.bad(what + ':buffer', '%s does not use simulated memory as its buffer' % what)
                continue
            sp = sim.Spec(s.base_read, st.guard)
            sp.s = list(info['s0'])
            lin = sp.lin(3, info['r0'][2])
            eq(st, B.vtrunc(p.off, 20), lin, 20, what + ':buffer', '%s: the buffer is not at DS:DX' % what)
            cx = B.vzext(info['r0'][1], 16, 64)
            left = B.vsub(1 << 20, B.vzext(lin, 20, 64), 64)
            want = B.vite(B.vult(left, cx, 64), left, cx, 64)
            eq(st, e[1][2], want, 64, what + ':count', '%s: the byte count is not CX (up to the end of memory)' % what)
    # 4C, INT 20
    for fn, no in ((0x4C, 0x21), (None, 0x20)):
        what = 'AH=4C' if no == 0x21 else 'INT 20'
        s, info, finals, exits, al = ctx(fn if fn is not None else 0x12, no)
        g = 0
        for kind, val, st, inst in exits:
            rep.check(kind == 'exit', what + ':kind', '%s ends with %s %r' % (what, kind, val))
            if kind == 'exit':
                eq(st, B.vtrunc(val, 8), al if fn else 0, 8, what + ':code', '%s: wrong exit status' % what)
                g = B.bor(g, st.guard)
        rep.check(g == 1 and not finals, what + ':ends', '%s does not always end the program' % what, what)
    # anything else is refused
    for fn in range(256):
        if fn in (2, 0x3C, 0x3D, 0x3E, 0x3F, 0x40, 0x4C):
            continue
        if not full and fn not in (0, 1, 3, 9, 0x0A, 0x25, 0x30, 0x3B, 0x41, 0x42, 0x43, 0x48, 0x4B, 0x4D, 0xC2, 0xBC, 0xFF):
            continue
        s, info, finals, exits, al = ctx(fn)
        what = 'AH=%02X' % fn
        rep.check(not finals and exits and all(k[0] in ('diag', 'assert') for k in exits), what + ':refused', '%s (not provided) is not refused with a message' % what, what + ' refused')
    for no in (0, 3, 0x10, 0x1F, 0x22, 0xFF):
        s, info, finals, exits, al = ctx(0x40, no)
        rep.check(not finals and exits and all(k[0] in ('diag', 'assert') for k in exits), 'INT %02X' % no, 'INT %02X is not refused with a message' % no)
    return finish(rep, 100, ['host open/read/write/close return -1 or a 16-bit count/handle'], rule)


# ------------------------------------------------------------------ memory safety
def obl_report(rep, ex, what):
    for (loc, rule, w), (n, viol) in ex.obl.items():
        if viol is None:
            rep.ok(1, '%s %s at %s' % (rule, w, loc) if not rep.samples or len(rep.samples) < 12 else None)
        else:
            rep.bad('%s:%s:%s' % (viol[1], rule, w), '%s: %s may be violated at %s in %s (while analysing %s), e.g. when %s' % (rule, w, loc, viol[1], what, viol[0]))


def fatal_room(ex, st, a, inst):
    """Length of a Fatal message against the buffer Fatal formats it in."""
    f = ex.m.funcs.get('Fatal')
    if f is None:
        return
    bufs = [i.ty.size() for b in f.blocks for i in b.insts if i.op == 'alloca' and i.ty.k == 'arr']
    uses = any(i.op == 'call' and i.ops[0] == ('g', 'vsprintf') for b in f.blocks for i in b.insts)
    if not uses or not a:
        return
    fmt = ex.cstring(st, a[0])
    n = simmodel.text_bound(ex, st, fmt, a[1:]) if fmt is not None else None
    room = max(bufs) if bufs else 0
    # the largest char array in Fatal is its message buffer (va_list is smaller)
    ex.note(st, inst, 'message-fits', 'Fatal message of up to %s characters into %d bytes' % (n if n is not None else 'unlimited', room), 0 if n is not None and n < room else st.guard)


def m5_setup(ex, st, info):
    old = ex.hooks.get('Fatal')

    def fatal(e, s, a, inst):
        fatal_room(e, s, a, inst)
        return old(e, s, a, inst) if old else []
    ex.hooks['Fatal'] = fatal


def _m5_insn(ch):
    out = []
    for bs, init, vb, cut in ch:
        B.reset()
        s = simmodel.Sim(sim.mod(), vb, 0)

        def setup(ex, st, info):
            m5_setup(ex, st, info)
            if cut:
                ex.on_unbounded = None
                ex.max_unroll = 1
        s.max_unroll = 1 if cut else 6
        s.summary(list(bs), dict(init), setup=setup)
        out.append((bs, vb, {k: (v[0], v[1][:2] if v[1] else None) for k, v in s.ex.obl.items()}, sorted(map(str, s.ex.visited))))
    return out


def M05(full):
    rep = Report('M05')
    m = sim.mod()
    work = []
    seen = set()
    for op in range(256):
        if op in (0x26, 0x2E, 0x36, 0x3E, 0xF2, 0xF3):
            continue
        mrm = (op < 0x40 and op & 7 < 4) or op in (0x80, 0x81, 0x82, 0x83, 0x88, 0x89, 0x8A, 0x8B, 0x8C, 0x8D, 0x8E, 0xC6, 0xC7, 0xD1, 0xD3, 0xF7, 0xFE, 0xFF)
        ms = [None]
        if mrm:
            ms = [md << 6 | r << 3 | k for md in range(4) for r in range(8) for k in (range(8) if full else ((0, 2, 6) if r == (op & 7) else ((r + md) & 7,)))]
        for mm in ms:
            code = [op] + ([mm] if mm is not None else []) + [sim.imm(k) for k in range(4)]
            for vb in (0, 1):
                work.append((tuple(code), (('DS', 0xF8A1), ('ES', 0xFFFF), ('SS', 0xF777)), vb, False))
    for pre in (0x26, 0x2E, 0x36, 0x3E):
        for vb in (0, 1):
            for mm in (0x00, 0x41, 0x82, 0x06):
                work.append(((pre, 0x8B, mm, sim.imm(0), sim.imm(1)), (), vb, False))
    for pre, op in ((0xF3, 0xA4), (0xF3, 0xA5), (0xF3, 0xA6), (0xF3, 0xAA), (0xF3, 0xAB), (0xF2, 0xAE)):
        work.append(((pre, op), (('DS', 0xF8A1), ('ES', 0xFFFF), ('SS', 0xF777)), 1, True))
    n = 0
    for rs in pmap(_m5_insn, chunks(work)):
        for bs, vb, obl, vis in rs:
            n += 1
            rep.functions.update(vis)
            for (loc, rule, w), (cnt, viol) in obl.items():
                k = (loc, rule, w)
                if viol is None:
                    if k not in seen:
                        seen.add(k)
                        rep.ok(1, '%s %s at %s' % (rule, w, loc))
                else:
                    rep.bad('%s:%s:%s' % (viol[1], rule, w), '%s: %s may be violated at %s in %s, instruction %s verbose=%d, e.g. when %s' % (rule, w, loc, viol[1], ' '.join('%02X' % b if type(b) is int else '??' for b in bs), vb, viol[0]))
    rep.notes['instruction_states_analysed'] = n
    # DOS services
    for fn in (0x02, 0x3C, 0x3D, 0x3E, 0x3F, 0x40, 0x99):
        for vb in (0, 1):
            s, info, finals, exits, al = dos(fn, verbose=vb, mk=m5_setup)
            rep.functions.update(str(v) for v in s.ex.visited)
            obl_report(rep, s.ex, 'INT 21h AH=%02X' % fn)
    # profiler exit and stack recorder
    for fn in ('RecordStack',):
        if fn not in m.funcs:
            continue
        B.reset()
        ex = Exec(m, max_unroll=2)
        ex.coarse = 1000
        ex.project = True
        prof_hooks(ex)
        m5_setup(ex, None, None)
        st = State()
        ex.setg(st, 'do_profile', 1)
        ex.setg(st, 'verbose', 0)
        for g in m.globals.values():
            if not g.const and g.name not in ('do_profile', 'verbose') and not g.name.startswith('.str'):
                st.mem[g.name] = o = Obj(g.name, g.ty.size() if g.init is not None else 1 << 40, 'sym')
                o.own = st.tok
        f = m.funcs[fn]
        if 'max_stack' in m.globals:
            # RecordStack leaves 0 <= depth <= number of frames (checked there)
            stack_depth(ex, st, m)
        args = []
        for ty, nm, at in f.params:
            if ty.k == 'ptr':
                st.mem['ret'] = o = Obj('ret', m.globals['max_stack'].ty.size(), 'sym')
                o.own = st.tok
                args.append(Ptr('ret', 0))
            else:
                args.append(B.sym('a' + nm, 32))
        out = ex.run(f, st, args)
        if fn == 'RecordStack' and args and isinstance(args[0], Ptr):
            size, off = depth_field(m)
            for s2, r in out:
                d = ex.load_c(s2, 'ret', off, 4, False, 32)
                bad = B.band(s2.guard, B.bor(B.bits(d, 32)[31], B.vslt(size, d, 32)))
                rep.check(bad == 0, 'RecordStack:depth', 'RecordStack can return a depth outside its frame array')
        rep.functions.add(fn)
        obl_report(rep, ex, fn)
    # program loading
    B.reset()
    if 'ReadFile' in m.funcs:
        ex = Exec(m)
        m5_setup(ex, None, None)
        st = State()
        ex.setg(st, 'verbose', 0)
        for i in range(4):
            ex.setg(st, 'sreg', 0x2000, i * 4, 4)

        def rd(e, s, a, inst):
            chk_buf(e, s, a, inst, 'read')
            return [(s, B.fresh('read', 32))]
        ex.hooks['read'] = rd
        ex.hooks['open'] = lambda e, s, a, i: [(s, B.fresh('open', 32))]
        ex.hooks['close'] = lambda e, s, a, i: [(s, 0)]
        ex.run(m.funcs['ReadFile'], st, [ex.ext_ptr(st, 'name', mnull=False)])
        rep.functions.add('ReadFile')
        obl_report(rep, ex, 'ReadFile')
    return finish(rep, 60, ['simulated segment values and registers are unrestricted'], 'interval/decision-diagram bounds of every array access, host buffer and formatted text in sim86.c')


def depth_field(m):
    """(capacity, offset of the depth field) of the recorded stack: an array
    followed by one int."""
    t = m.globals['max_stack'].ty
    fs = t.fields
    arr = [x for x in fs if x.k == 'arr']
    return arr[0].n, arr[0].size()


def stack_depth(ex, st, m):
    cap, off = depth_field(m)
    d = B.sym('depth', 32)
    st.guard = B.band(st.guard, B.band(B.bits(d, 32)[31] ^ 1, B.vslt(cap, d, 32) ^ 1))
    ex.store_c(st, 'max_stack', off, 4, d)


def prof_hooks(ex):
    ex.hooks['fopen'] = lambda e, s, a, i: [(s, e.ext_ptr(s, 'FILE%d' % e.tick()))]
    ex.hooks['fclose'] = lambda e, s, a, i: [(s, 0)]
    ex.hooks['malloc'] = lambda e, s, a, i: [(s, e.ext_ptr(s, 'heap%d' % e.tick()))]
    ex.hooks['strcpy'] = simmodel.h_strcpy

    def strrchr(e, s, a, inst):
        # somewhere in the string (its length bounded by the object), or null
        o = s.mem[a[0].o]
        t = s.fork()
        c = B.fresh('strrchr_found', 1)
        c = c[0] if type(c) is tuple else c
        s.guard = B.band(s.guard, c)
        t.guard = B.band(t.guard, c ^ 1)
        off = B.fresh('strrchr_off', 64)
        n = s.ghost.get(('textlen', a[0].o))
        lim = n if n is not None else (o.size - 1 if o.size and o.size < 1 << 40 else 1 << 30)
        s.guard = B.band(s.guard, B.vult(off, lim, 64))
        return [(s, Ptr(a[0].o, off)), (t, NULL)]
    ex.hooks['strrchr'] = strrchr

    def strcpy(e, s, a, inst):
        n = simmodel.copy_bound(e, s, a[1])
        d = a[0]
        if type(d.off) is int:
            r = simmodel.h_strcpy(e, s, a, inst)
            s.ghost[('textlen', d.o)] = n
            return r
        o = s.mem[d.o]
        end = B.vadd(d.off, (n if n is not None else 1 << 40) + 1, 64)
        nm = o.name if not isinstance(o.name, tuple) else o.name[-1]
        e.note(s, inst, 'text-fits', 'strcpy into %s[%d]' % (nm, o.size), B.band(s.guard, B.vult(o.size, end, 64)))
        e.havoc_obj(s, d.o)
        return [(s, d)]
    ex.hooks['strcpy'] = strcpy

    def fscanf(e, s, a, inst):
        fmt = e.cstring(s, a[1]) or b''
        k = 2
        i = 0
        while i < len(fmt):
            if fmt[i:i + 1] == b'%':
                j = i + 1
                w = 0
                while fmt[j:j + 1].isdigit():
                    w = w * 10 + int(fmt[j:j + 1])
                    j += 1
                c = fmt[j:j + 1]
                p = a[k]
                k += 1
                n = 4 if c in b'dxXu' else (w + 1 if w else 1 << 30)
                o = s.mem[p.o]
                e.bounds(s, o, p.off, n, inst, 'write')
                e.havoc_obj(s, p.o)
                i = j
            i += 1
        return [(s, B.fresh('fscanf', 32))]
    ex.hooks['fscanf'] = fscanf
    ex.hooks['__isoc99_fscanf'] = fscanf
    ex.hooks['__isoc23_fscanf'] = fscanf


# ------------------------------------------------------------------ -v / -p
def _m6(ch):
    out = []
    for f, vb, pr in ch:
        B.reset()
        code, init = sim.build(f)
        res = []
        for v, p in ((0, 0), (vb, pr)):
            s = simmodel.Sim(sim.mod(), v, p)
            setup = None
            if p:
                def setup(ex, st, info):
                    prof_hooks(ex)
                    ex.hooks['RecordStack'] = lambda e, s2, a, i: [(e.havoc_obj(s2, a[0].o) or s2, None)]

                    def malloc(e, s2, a, i):
                        t = s2.fork()
                        c = B.fresh('malloc_ok', 1)[0]
                        s2.guard = B.band(s2.guard, c)
                        t.guard = 0
                        return [(s2, e.ext_ptr(s2, 'heap%d' % e.tick(), mnull=False))]
                    ex.hooks['malloc'] = malloc
            info, finals, exits = s.summary(code, init, setup=setup)
            res.append((s, info, finals, exits))
        bad = []
        (s1, i1, f1, x1), (s2, i2, f2, x2) = res
        cover = 0
        for b in f2:
            cover = B.bor(cover, b.guard)
        for a in f1:
            oa = s1.outcome(a)
            for b in f2:
                g = B.band(a.guard, b.guard)
                if g == 0:
                    continue
                ob = s2.outcome(b)
                for n in oa:
                    w = 1 if n[0] == 'f' else 16
                    d = B.band(g, B.bxor(oa[n], ob[n]) if w == 1 else B.veq(oa[n], ob[n], 16) ^ 1)
                    if d:
                        bad.append((n, '%s differs, e.g. when %s' % (n, sim.fmt(d))))
                la, lb = a.ghost['log'], b.ghost['log']
                if len(la) != len(lb):
                    bad.append(('mem', 'memory writes differ'))
                else:
                    for (x, v), (y, w) in zip(la, lb):
                        if B.band(g, B.veq(x, y, 20) ^ 1) or B.band(g, B.veq(v, w, 8) ^ 1):
                            bad.append(('mem', 'memory writes differ'))
        g1 = 0
        for a in f1:
            g1 = B.bor(g1, a.guard)
        for kind, what, st, inst in x2:
            if B.band(st.guard, g1):
                bad.append(('exit', 'the simulation ends (%s %r), without the option it goes on' % (kind, what)))
        out.append((f, vb, pr, bad, sorted(map(str, s2.ex.visited))))
    return out


def M06(full):
    rep = Report('M06')
    sim.mod()
    fs = sim.forms(False)
    pick = {}
    for f in fs:
        ops = [x for x in f[0] if x not in (0x26, 0x2E, 0x36, 0x3E, 0xF2, 0xF3)]
        md = ops[1] >> 6 if len(ops) > 2 and ops[2] == 'D' else None
        rm = ops[1] & 7 if md is not None else None
        pre = len(ops) != len(f[0])
        if full:
            k = f
        else:
            k = (opkey(f), md if md != 0 or rm != 6 else 'd16', pre, f[1])
            if ops[0] in (0x8D, 0x89) and not pre:
                k += (rm,)
        pick.setdefault(k, f)
    work = [(f, 1, 0) for f in pick.values()]
    seen = set()
    for f in pick.values():
        k = (opkey(f), len(f[0]) > 0 and f[0][0] in (0x26, 0x2E, 0x36, 0x3E))
        if full or k not in seen:
            seen.add(k)
            work.append((f, 0, 1))
    for rs in pmap(_m6, chunks(work)):
        for f, vb, pr, bad, vis in rs:
            rep.functions.update(vis)
            opt = '-v' if vb else '-p'
            if not bad:
                rep.ok(1, '%s %s' % (opt, sim.name(f)))
            for n, t in bad:
                rep.bad('%s:%s:%s' % (opt, opkey(f), n), '%s with %s: %s' % (sim.name(f), opt, t))
    return finish(rep, 400, SUBSET, 'final registers, IP, flags and memory writes of each form are the same function of the start state with and without -v / -p')


# ------------------------------------------------------------------ refusal
def _m8(ch):
    out = []
    for f in ch:
        code, init = sim.build(f)
        try:
            B.reset()
            insn = x86.decode(code)
            known = True
        except x86.BadInsn:
            known = False
        bad = None
        if known:
            try:
                bad, ins, vis, nf = sim.compare(f, refuse=True)
            except x86.BadInsn:
                known = False
        if not known:
            # no agreed meaning: must be refused
            B.reset()
            s = simmodel.Sim(sim.mod())
            info, finals, exits = s.summary(list(code), dict(init))
            bad = [('result', 'runs on (expected a diagnostic)', 'run')] if finals else []
        out.append((f, known, bad))
    return out


def M08(full):
    rep = Report('M08')
    sim.mod()
    fs = []
    for op in range(256):
        if op in (0x26, 0x2E, 0x36, 0x3E, 0xF2, 0xF3, 0xCD, 0x54):
            continue
        mrm = (op < 0x40 and op & 7 < 4) or op in (0x62, 0x63, 0x69, 0x6B, 0x8F, 0xC0, 0xC1, 0xC4, 0xC5, 0xD0, 0xD1, 0xD2, 0xD3, 0xF6, 0xF7, 0xFE, 0xFF) or \
            0x80 <= op < 0x90 or op in (0xC6, 0xC7) or 0xD8 <= op < 0xE0
        if not mrm:
            if op & 0xF6 == 0xA4 or op in (0xAE, 0xAF):
                fs.append(((op, 'i', 'j'), None))
                fs.append(((0xF3, op), ('CX', 2)))
                fs.append(((0xF2, op), ('CX', 2)))
            else:
                fs.append(((op, 'i', 'j', 0x90, 0x90), None))
            continue
        for r in range(8):
            for m in ((0x07, 0xC3) if not full else (0x07, 0x44, 0x86, 0xC3, 0xC5)):
                init = None
                if op == 0xF7 and r in (6, 7):
                    init = ('DX0', 0) if r == 6 else ('DXS', 0)
                elif op in (0xD3, 0xD2):
                    init = ('CLLT32', 0)
                m |= r << 3
                fs.append(((op, m, 'D', 'i', 'j', 0x90) if m >> 6 in (1, 2) else (op, m, 'i', 'j', 0x90), init))
    for rs in pmap(_m8, chunks(fs)):
        for f, known, bad in rs:
            bad = [b for b in bad if b[0] != 'flag' or True]
            if not bad:
                rep.ok(1, sim.name(f) + (' follows the 8086 or is refused' if known else ' refused'))
            for c, text, what in bad:
                rep.bad('%s:%s' % (opkey(f), what), '%s -- %s' % (sim.name(f), text))
    return finish(rep, 500, ['PUSH SP, DX/flags after MUL and counts above 31 excluded'], 'for every first opcode byte and reg field: each way through the fetch/execute loop either ends in a diagnostic or has the 8086 effect')

