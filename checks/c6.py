"""Tokens: the scanner against the C token grammar.

Characters enter as bit vectors; the input is delivered by read() in every
possible division into buffers, so that a token may be cut anywhere."""
from vt import bdd as B
from vt import sccmodel as SM
from vt.absint import Ptr
from vt.ir import AnalysisBroken
from .ccommon import Machine, Problem, need_eq
from . import c as C

OPS = {}
for _t, _lv in (('* / %', 3), ('+ -', 4), ('<< >>', 5), ('< > <= >=', 6), ('== !=', 7), ('&', 8), ('^', 9), ('|', 10), ('&&', 11), ('||', 12), ('?', 13),
                ('= += -= *= /= %= <<= >>= &= ^= |=', 14), (',', 15), ('( ) [ ] { } ; : ~ ! . -> ++ -- ...', None)):
    for _x in _t.split():
        OPS[_x] = _lv
TOKNAME = {'<<': 'LSH', '>>': 'RSH', '<=': 'LTEQ', '>=': 'GTEQ', '==': 'EQEQ', '!=': 'NOTEQ', '&&': 'ANDAND', '||': 'OROR', '+=': 'PLUSEQ', '-=': 'MINUSEQ',
           '*=': 'STAREQ', '/=': 'SLASHEQ', '%=': 'MODEQ', '<<=': 'LSHEQ', '>>=': 'RSHEQ', '&=': 'ANDEQ', '^=': 'XOREQ', '|=': 'OREQ', '->': 'ARROW',
           '++': 'PLUSPLUS', '--': 'MINUSMINUS', '...': 'ELLIPSIS'}
KEYWORDS = ('auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct '
            'switch typedef union unsigned void volatile while va_list va_start va_end va_arg _emit _start _SBSS _EBSS').split()


class Overrun(Exception):
    pass


class Lexer:
    def __init__(self):
        SM.CANON.clear()
        self.S = S = Machine(C.mod())
        self.ex = ex = S.ex
        ex.max_unroll = 80
        ex.elem_limit = 300
        del ex.hooks['GetToken']
        ex.hooks['read'] = self.read
        ex.hooks['memcmp'] = self.memcmp
        for g in ('InBuf', 'InBufPtr', 'InBufEnd', 'CurChar', 'TokenNumVal', 'TokenStrLit', 'IdBuffer', 'IdBufPtr', 'IdHashTab', 'IdText', 'IdCount', 'Line'):
            if g not in S.m.globals:
                raise AnalysisBroken('scc: global %s not found' % g)
        self.cap = S.m.globals['InBuf'].ty.size()
        self.st0 = st = S.start(fresh=True)
        ex.setg(st, 'IdBufPtr', Ptr('IdBuffer', 0))
        ex.setg(st, 'IdCount', 0)
        ex.setg(st, 'Line', 1)
        n = S.m.globals['IdHashTab'].ty
        ex.gobj(st, 'IdHashTab')
        for i in range(n.n):
            ex.store_c(st, 'IdHashTab', i * n.elt.size(), n.elt.size(), (1 << 8 * n.elt.size()) - 1)

    def builtins(self):
        r = self.S.run('AddBuiltins', self.st0)
        if len(r) != 1:
            raise AnalysisBroken('AddBuiltins has %d outcomes' % len(r))
        self.st0 = r[0].st

    def read(self, ex, st, a, inst):
        """Deliver the text up to the next cut, and no more than asked for."""
        if type(a[2]) is not int or a[2] >= self.cap:
            raise Overrun('read of %r bytes into InBuf' % (a[2],))
        lo = st.ghost.get('rd', 0)
        hi = min([c for c in self.bounds if c > lo] + [len(self.text)])
        hi = min(hi, lo + a[2])
        st.ghost['rb'] = lo
        st.ghost['rd'] = hi
        ex.gobj(st, 'InBuf')
        for i in range(lo, hi):
            ex.store_c(st, 'InBuf', i - lo, 1, self.text[i])
        return [(st, hi - lo)]

    def memcmp(self, ex, st, a, inst):
        p, q, n = a
        if type(n) is not int or not isinstance(p, Ptr) or not isinstance(q, Ptr) or type(p.off) is not int or type(q.off) is not int:
            raise AnalysisBroken('memcmp of %r, %r, %r' % (p, q, n))
        ne = 0
        for i in range(n):
            x, y = (ex.load_c(st, z.o, z.off + i, 1, False, 8) for z in (p, q))
            ne = B.bor(ne, B.veq(x, y, 8) ^ 1)
        return [(st, B.norm((ne,) + (0,) * 31))]

    def begin(self, text, cuts, guard=1):
        """text: list of byte values; cuts: where a read ends."""
        self.text = [ord(c) if isinstance(c, str) else c for c in text]
        self.bounds = sorted(cuts)
        st = self.st0.fork()
        st.ghost['rd'] = st.ghost['rb'] = 0
        st.guard = guard
        ex = self.ex
        ex.setg(st, 'CurChar', 0)
        ex.gobj(st, 'InBuf')
        ex.store_c(st, 'InBuf', 0, 1, 0)
        ex.setg(st, 'InBufPtr', Ptr('InBuf', 0))
        return st

    def next(self, st):
        """[(Final)] after one token."""
        return self.S.run('GetToken', st)

    def pos(self, fin):
        """Number of characters taken beyond the current one."""
        p = self.ex.getg(fin.st, 'InBufPtr', isptr=True)
        if not isinstance(p, Ptr) or p.o != 'InBuf':
            raise AnalysisBroken('InBufPtr is %r' % (p,))
        base = fin.st.ghost.get('rb', 0)
        return B.vadd(p.off, base, 64)

    def at(self, fin, n):
        """Is character n of the text the current one?"""
        want = self.text[n] if n < len(self.text) else 0
        ok = B.band(B.veq(self.pos(fin), min(n + 1, len(self.text)), 64), B.veq(fin.g('CurChar'), want, 8))
        return not B.band(fin.guard, ok ^ 1)


def op_code(E, o):
    return E['TOK_' + TOKNAME[o]] if o in TOKNAME else ord(o)


def prec_code(E, o):
    lv = OPS[o]
    return E['PREC_STOP'] if lv is None else E['PREC_ASSIGN'] if lv == 14 else E['PREC_COMMA'] if lv == 15 else lv


def precedences():
    """Token type -> precedence, as GetToken delivers them for each operator's spelling."""
    L = Lexer()
    p = {}
    for o, lv in OPS.items():
        if lv is None:
            continue
        r = L.next(L.begin(list(o) + [' '], []))
        if len(r) != 1:
            raise AnalysisBroken('operator %s: %d outcomes' % (o, len(r)))
        t, v = r[0].g('TokenType'), r[0].g('OperatorPrecedence')
        if type(t) is not int or type(v) is not int:
            raise AnalysisBroken('operator %s is no single token' % o)
        p[t] = v
    B.reset()
    return p


def cutsets(n, full):
    """Divisions of n characters into reads."""
    if full or n <= 3:
        return [[i for i in range(1, n) if m >> (i - 1) & 1] for m in range(1 << (n - 1))]
    return [[], list(range(1, n))] + [[i] for i in range(1, n)]


def isprefix(text, s):
    """Guard: text starts with s."""
    g = 1
    for i, ch in enumerate(s):
        if i >= len(text):
            return 0
        g = B.band(g, B.veq(text[i], ord(ch), 8))
    return g


def rng(v, lo, hi):
    return B.band(B.vult(v, lo, 8) ^ 1, B.vult(v, hi + 1, 8)) if hi < 255 else B.vult(v, lo, 8) ^ 1


def opstep(job):
    """First character given, the next two arbitrary."""
    ch, cuts = job
    B.reset()
    L = Lexer()
    E = L.S.E
    c = [B.sym('c%d' % i, 8) for i in (1, 2)]
    g = 1
    for v in c:
        g = B.band(g, B.veq(v, 0, 8) ^ 1)
    text = [ord(ch)] + c + [ord(' ')]
    if ch == '/':       # comments
        g = B.band(g, B.bor(B.veq(c[0], ord('*'), 8), B.veq(c[0], ord('/'), 8)) ^ 1)
    n = 0
    bad = []
    fins = L.next(L.begin(text, cuts, g))
    for f in L.S.fatal:
        # ".." is not a token
        ok = isprefix(text, '..') if ch == '.' else 0
        if B.band(f.guard, B.band(g, ok ^ 1)):
            bad.append('refused')
    for o in sorted(OPS, key=lambda o: -len(o)):
        go = B.band(g, isprefix(text, o))
        for p in OPS:
            if len(p) > len(o) and p.startswith(o):
                go = B.band(go, isprefix(text, p) ^ 1)
        if not go:
            continue
        for f in fins:
            gg = B.band(go, f.guard)
            if not gg:
                continue
            n += 1
            for what, have, want, w in (('token', f.g('TokenType'), op_code(E, o), 32), ('precedence', f.g('OperatorPrecedence'), prec_code(E, o), 32)):
                if B.band(gg, B.veq(have, want, w) ^ 1):
                    bad.append('%s: wrong %s' % (o, what))
            if B.band(gg, B.veq(L.pos(f), len(o) + 1, 64) ^ 1) or B.band(gg, B.veq(f.g('CurChar'), text[len(o)], 8) ^ 1):
                bad.append('%s: does not stop after the token' % o)
    return n, sorted(set(bad))


def numstep(job):
    """digits: pattern of a number; d = decimal digit, o = octal, x = hexadecimal (any case)."""
    pat, cuts, tail = job
    B.reset()
    L = Lexer()
    text = []
    g = 1
    val = 0
    base = 16 if pat[:2] in ('0x', '0X') else 8 if pat[0] == '0' else 10
    for i, ch in enumerate(pat):
        if ch in 'dox1':
            v = B.sym('c%d' % i, 8)
            if ch == 'x' and i == 1:
                text.append(ord(ch))
                continue
            dec = rng(v, ord('1') if ch == '1' else ord('0'), ord('7') if ch == 'o' else ord('9'))
            dv = B.vzext(B.vtrunc(v, 4), 4, 32)
            if ch == 'x':
                up = B.bor(rng(v, 65, 70), rng(v, 97, 102))
                g = B.band(g, B.bor(dec, up))
                dv = B.vite(dec, dv, B.vadd(dv, 9, 32), 32)
            else:
                g = B.band(g, dec)
            val = B.vadd(B.vmul(val, base, 32), dv, 32)
            text.append(v)
        else:
            if ch in 'xX':
                text.append(ord(ch))
                continue
            text.append(ord(ch))
            val = B.vadd(B.vmul(val, base, 32), int(ch, 16), 32)
    n0 = len(text)
    text += [ord(x) for x in tail] + [ord(' ')]
    bad = []
    n = 0
    E = L.S.E
    if not g:
        raise AnalysisBroken('number pattern')
    fins = L.next(L.begin(text, cuts, g))
    if L.S.fatal:
        bad.append('refused')
    for f in fins:
        n += 1
        if f.g('TokenType') != E['TOK_NUM'] or f.g('OperatorPrecedence') != E['PREC_STOP']:
            bad.append('not a number token')
        h = f.g('TokenNumVal')
        # only values that fit 16 bits are meant
        fit = B.band(f.guard, B.vult(val, 65536, 32)) if type(val) is not int else f.guard
        if B.band(fit, B.veq(h, val, 32) ^ 1):
            bad.append('wrong value')
        if not L.at(f, n0):
            bad.append('does not stop after the number')
    return n, sorted(set(bad))


ESC = {'n': 10, 'r': 13, 't': 9, "'": 39, '"': 34, '\\': 92}


def escapes(where):
    """(text, value as signed char, guard) of one character of a literal."""
    def sym(name):
        return B.sym('%s.%s' % (where, name), 8)
    out = []
    v = sym('c')
    g = 1
    for x in (0, 10, 39 if where == 'char' else 34, 92):
        g = B.band(g, B.veq(v, x, 8) ^ 1)
    out.append(('plain', [v], v, g))
    for k, x in ESC.items():
        out.append(('\\' + k, [92, ord(k)], x, 1))

    def octd(i, hi='7'):
        d = sym('o%d' % i)
        return d, rng(d, 48, ord(hi)), B.vzext(B.vtrunc(d, 3), 3, 8)

    def hexd(i):
        d = sym('h%d' % i)
        dec = rng(d, 48, 57)
        lo = B.vzext(B.vtrunc(d, 4), 4, 8)
        return d, B.bor(dec, B.bor(rng(d, 65, 70), rng(d, 97, 102))), B.vite(dec, lo, B.vadd(lo, 9, 8), 8)
    for n in (1, 2, 3):
        ds = [octd(i, '3' if n == 3 and i == 0 else '7') for i in range(n)]
        g, val = 1, 0
        for d, gd, dv in ds:
            g = B.band(g, gd)
            val = B.vadd(B.vmul(val, 8, 8), dv, 8)
        out.append(('\\' + 'o' * n, [92] + [d for d, _, _ in ds], val, g))
    for n in (1, 2):
        ds = [hexd(i) for i in range(n)]
        g, val = 1, 0
        for d, gd, dv in ds:
            g = B.band(g, gd)
            val = B.vadd(B.vmul(val, 16, 8), dv, 8)
        out.append(('\\x' + 'h' * n, [92, ord('x')] + [d for d, _, _ in ds], val, g))
    return out


def charstep(job):
    i, cuts = job
    B.reset()
    L = Lexer()
    E = L.S.E
    name, text, val, g = escapes('char')[i]
    text = [39] + text + [39]
    n0 = len(text)
    cuts = [c for c in cuts if c <= n0]
    bad = []
    n = 0
    fins = L.next(L.begin(text + [ord(';'), ord(' ')], cuts, g))
    if L.S.fatal:
        bad.append('refused')
    for f in fins:
        n += 1
        if f.g('TokenType') != E['TOK_NUM'] or f.g('OperatorPrecedence') != E['PREC_STOP']:
            bad.append('not a number token')
        if B.band(f.guard, B.veq(f.g('TokenNumVal'), B.vsext(val, 8, 32), 32) ^ 1):
            bad.append('wrong value')
        if not L.at(f, n0):
            bad.append('does not stop after the literal')
    return n, sorted(set(bad))


def strstep(job):
    """String literals: items are indices into escapes() or ' ' for a break between adjacent literals."""
    items, cuts = job
    B.reset()
    L = Lexer()
    E = L.S.E
    text, vals, g = [34], [], 1
    for k, it in enumerate(items):
        if it == ' ':
            text += [34, 10, 32, 34]
            continue
        name, t, v, gi = escapes('s%d' % k)[it]
        if name[-1] in 'oh' and k + 1 < len(items) and items[k + 1] != ' ':
            # the next character must not continue the escape
            nt = escapes('s%d' % (k + 1))[items[k + 1]][1]
            if nt[0] != 92:
                c = nt[0]
                dig = rng(c, 48, 57)
                if name[-1] == 'h':
                    dig = B.bor(dig, B.bor(rng(c, 65, 70), rng(c, 97, 102)))
                g = B.band(g, dig ^ 1)
        text += t
        vals.append(v)
        g = B.band(g, gi)
    text.append(34)
    n0 = len(text)
    cuts = [c for c in cuts if c <= n0]
    bad = []
    n = 0
    text += [ord(';'), ord(' ')]
    fins = L.next(L.begin(text, cuts, g))
    if L.S.fatal:
        bad.append('refused')
    for f in fins:
        n += 1
        if f.g('TokenType') != E['TOK_STRLIT'] or f.g('OperatorPrecedence') != E['PREC_STOP']:
            bad.append('not a string token')
        if f.g('TokenNumVal') != len(vals) + 1:
            bad.append('wrong length')
        p = L.ex.getg(f.st, 'TokenStrLit', isptr=True)
        if not isinstance(p, Ptr) or p.o != 'Output' or type(p.off) is not int or p.off < f.gi('CodeAddress') - E['CODESTART'] + 32:
            bad.append('the text is not kept clear of the code')
            continue
        for i, v in enumerate(vals + [0]):
            h = L.ex.load_c(f.st, 'Output', p.off + i, 1, False, 8)
            if B.band(f.guard, B.veq(h, v, 8) ^ 1):
                bad.append('wrong character %d' % i)
        if f.g('Line') != 1 + items.count(' '):
            bad.append('wrong line')
        if not L.at(f, n0):
            bad.append('does not stop after the literal')
    return n, sorted(set(bad))


def wsstep(job):
    """White space and comments in front of a token: skipped, lines counted."""
    parts, cuts = job
    B.reset()
    L = Lexer()
    E = L.S.E
    text, g = [], 1
    lines = []
    for k, p in enumerate(parts):
        v = B.sym('w%d' % k, 8)
        if p == 'w':        # any white-space character
            ok = 0
            for x in (9, 10, 11, 12, 13, 32):
                ok = B.bor(ok, B.veq(v, x, 8))
            g = B.band(g, ok)
            text.append(v)
            lines.append(B.veq(v, 10, 8))
        elif p == 'l':      # line comment with an arbitrary character in it
            text += [47, 47, v, 10]
            g = B.band(g, B.bor(B.veq(v, 10, 8), B.veq(v, 0, 8)) ^ 1)
            lines.append(1)
        elif p == 'e':      # empty line comment
            text += [47, 47, 10]
            lines.append(1)
        elif p == '#':      # line marker
            text += [35, v, 10]
            g = B.band(g, B.bor(B.veq(v, 10, 8), B.veq(v, 0, 8)) ^ 1)
            lines.append(1)
        elif p in ('c', '*'):   # block comment
            u = B.sym('u%d' % k, 8)
            text += [47, 42] + ([42] if p == '*' else [v, u]) + [42, 47]
            if p == 'c':
                g = B.band(g, B.bor(B.veq(v, 0, 8), B.veq(u, 0, 8)) ^ 1)
                g = B.band(g, B.band(B.veq(v, 42, 8), B.veq(u, 47, 8)) ^ 1)
                lines += [B.veq(v, 10, 8), B.veq(u, 10, 8)]
        elif p == ';':
            text.append(ord(';'))
    text += [ord('{'), ord(' ')]
    want = 1
    for l in lines:
        want = B.vadd(want, B.norm((l,) + (0,) * 31) if l not in (0, 1) else l, 32)
    ntok = parts.count(';')
    n0 = len(text) - 1
    cuts = [c for c in cuts if c < len(text)]
    cur = [L.begin(text, cuts, g)]
    bad = []
    for _ in range(ntok):
        nx = []
        for st in cur:
            for f in L.next(st):
                if f.g('TokenType') != ord(';'):
                    bad.append('a token is lost')
                nx.append(f.st)
        cur = nx
    n = 0
    for st in cur:
        for f in L.next(st):
            n += 1
            if f.g('TokenType') != ord('{'):
                bad.append('another token is found')
                continue
            if not L.at(f, n0):
                bad.append('does not stop after the token')
            if B.band(f.guard, B.veq(f.g('Line'), want, 32) ^ 1):
                bad.append('wrong line number')
    if L.S.fatal:
        bad.append('refused')
    return n, sorted(set(bad))


def endstep(job):
    """The end of the input ends the tokens, and stays."""
    parts, cuts = job
    B.reset()
    L = Lexer()
    text = [ord(c) for c in parts]
    cur = [L.begin(text, [c for c in cuts if c < len(text)], 1)]
    n = 0
    bad = []
    for k in range(parts.count(';') + 3):
        nx = []
        for st in cur:
            for f in L.next(st):
                n += 1
                if f.g('TokenType') != (ord(';') if k < parts.count(';') else 0):
                    bad.append('token %d is wrong' % k)
                nx.append(f.st)
        cur = nx
    if L.S.fatal:
        bad.append('refused')
    return n, sorted(set(bad))


def idstep(job):
    """Identifiers: keywords, and names against everything scanned before."""
    kind, arg, cuts = job
    B.reset()
    L = Lexer()
    L.builtins()
    E = L.S.E
    bad = []
    n = 0
    if kind == 'kw':
        text = list(arg) + [';', ' ']
        for f in L.next(L.begin(text, [c for c in cuts if c <= len(arg)])):
            n += 1
            if f.g('TokenType') != E['TOK_' + arg.upper()]:
                bad.append('keyword %s is not recognised' % arg)
            if not L.at(f, len(arg)):
                bad.append('does not stop after the token')
    elif kind == 'new':
        # arg: list of names; each gets its own number, again the same, all different
        seen = {}
        st = None
        text = []
        for x in arg:
            text += list(x) + [' ']
        st = L.begin(text, [c for c in cuts if c < len(text)])
        for x in arg:
            r = L.next(st)
            if len(r) != 1:
                raise AnalysisBroken('identifier: %d outcomes' % len(r))
            n += 1
            t = r[0].g('TokenType')
            st = r[0].st
            if x in KEYWORDS:
                if t != E['TOK_' + x.upper()]:
                    bad.append('keyword %s is not recognised' % x)
            elif x in seen:
                if seen[x] != t:
                    bad.append('%s is another identifier the second time' % x)
            elif t in seen.values() or t < E['TOK_ID']:
                bad.append('%s is taken for another identifier' % x)
            else:
                sz = L.S.m.globals['IdText'].ty.elt.size()
                p = L.ex.load_c(st, 'IdText', (t - E['TOK_KEYWORD']) * sz, sz, True, 64)
                if not isinstance(p, Ptr) or any(L.ex.load_c(st, p.o, p.off + i, 1, False, 8) != v for i, v in enumerate(list(map(ord, x)) + [0])):
                    bad.append('the text of %s is not kept' % x)
            seen.setdefault(x, t)
    else:
        # arg + one arbitrary identifier character is a new name unless it completes a keyword
        v = B.sym('id', 8)
        ok = B.bor(B.bor(rng(v, 48, 57), rng(v, 65, 90)), B.bor(rng(v, 97, 122), B.veq(v, 95, 8)))
        text = [ord(c) for c in arg] + [v, ord(' ')]
        for f in L.next(L.begin(text, [c for c in cuts if c <= len(arg)], ok)):
            n += 1
            t = f.g('TokenType')
            g = f.guard
            for kw in KEYWORDS:
                if len(kw) == len(arg) + 1 and kw.startswith(arg):
                    gk = B.band(g, B.veq(v, ord(kw[-1]), 8))
                    if gk and B.band(gk, B.veq(t, E['TOK_' + kw.upper()], 32) ^ 1):
                        bad.append('keyword %s is not recognised' % kw)
                    g = B.band(g, B.veq(v, ord(kw[-1]), 8) ^ 1)
            if g and B.band(g, B.vult(t, E['TOK_ID'], 32)):
                bad.append('%s... is taken for a keyword' % arg)
            if not L.at(f, len(arg) + 1):
                bad.append('does not stop after the token')
    if L.S.fatal:
        bad.append('refused')
    return n, sorted(set(bad))


NAMESETS = []
for _k in range(4):
    NAMESETS.append([])
_alpha = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
for _i in range(150):
    NAMESETS[0].append(_alpha[_i % 53] + _alpha[_i * 7 % 53] + (str(_i) if _i % 3 else '_'))
    NAMESETS[1].append('Name' + _alpha[_i * 11 % 53] + str(_i * 17))
    NAMESETS[2].append('x' * (_i % 23 + 1) + str(_i // 23))
for _i in range(40):
    NAMESETS[3] += ['ab', 'ba', 'a', 'a_', '_a', 'ab' + str(_i), 'if' + str(_i), 'int', 'ints', 'in', 'B' + str(_i)]
NAMESETS = [s[:100] + s[:100:3] + s[100:] + s[::7] for s in NAMESETS]


def lex_jobs(full):
    J = []
    for ch in sorted({o[0] for o in OPS}):
        for cuts in cutsets(4, full):
            J.append((opstep, ('operators starting with %s, reads %s' % (ch, cuts)), (ch, cuts)))
    pats = (['1dddd', '6ddd5', '0ooooo'] if full else ['3dd6d', '65d3d', '02o7oo', '0077ooo']) + ['1', '1d', '1dd', '1ddd', '0', '0o', '0oo', '0ooo', '0oooo', '0x' + 'x', '0xxx', '0xxxx', '0xxxxx', '0Xx', '0Xxxx', '00o', '0x0xx']
    for p in pats:
        for tail in (';', ' ', ')', '+1', '..'):
            for cuts in cutsets(len(p) + 1, False) if full or tail == ';' else [[1]]:
                J.append((numstep, 'number %s%s, reads %s' % (p, tail, cuts), (p, cuts, tail)))
    B.reset()
    ne = len(escapes('char'))
    for i in range(ne):
        for cuts in cutsets(4, True) + [[4], [5]]:
            J.append((charstep, 'character constant %d, reads %s' % (i, cuts), (i, cuts)))
    strs = [[]] + [[i] for i in range(ne)] + [[i, j] for i in range(ne) for j in (range(ne) if full else (0, 1, 8, 11))] + [[' '], [0, ' ', 0], [' ', 8, ' ', 0], [11, ' ', 0], [0, 0, 0, 1, 0]]
    for s in strs:
        for cuts in [[], list(range(1, 12)), [1], [2], [3], [4], [5], [6]] if full or len(s) < 2 else [[], list(range(1, 12)), [3]]:
            J.append((strstep, 'string %s, reads %s' % (s, cuts), (s, cuts)))
    kinds = 'wle#c*;'
    ws = [[]] + [[a] for a in kinds] + [[a, b] for a in kinds for b in kinds] + [['w', 'w', 'w'], [';', 'w', 'w'], ['l', 'w', 'c'], [';', 'l', ';'], ['w', '#', 'w']]
    if full:
        ws += [[a, b, c] for a in kinds for b in kinds for c in kinds]
    for p in ws:
        for cuts in [[], list(range(1, 20)), [1], [2], [3], [4], [5]] if full or len(p) < 2 else [[], list(range(1, 20)), [2], [3]]:
            J.append((wsstep, 'white space %s, reads %s' % (''.join(p), cuts), (p, cuts)))
    for p in ('', ' ', '\n', ';', '; ', ';\n', '; // x', '; // x\n', '/* */', ';/* */', '#x', '#x\n', ';;', '\n\n;\n\n'):
        for cuts in ([], list(range(1, 9)), [1], [2]):
            J.append((endstep, 'end after %r, reads %s' % (p, cuts), (p, cuts)))
    for k in KEYWORDS:
        for cuts in ([], list(range(1, 9)), [1], [2]):
            J.append((idstep, 'keyword %s, reads %s' % (k, cuts), ('kw', k, cuts)))
    for i, s in enumerate(NAMESETS):
        for cuts in ([], list(range(1, 3000))) if full else ([[], list(range(3, 3000, 2))][i % 2],):
            J.append((idstep, 'names %d, reads %d' % (i, len(cuts)), ('new', s, cuts)))
    pre = sorted({k[:-1] for k in KEYWORDS} | set(KEYWORDS)) + ['x', '_', 'Z9']
    for p in pre if full else pre[::3] + ['x']:
        J.append((idstep, 'name %s?' % p, ('sym', p, [])))
    return J


def anystep(job):
    fn, name, arg = job
    try:
        return fn(arg)
    except Overrun as e:
        return 1, [str(e)]
