"""scpp: conditional groups, tokens, macros, includes."""
from vt import bdd as B
from vt.ir import AnalysisBroken
from vt.util import Report, finish
from .p import Run, STEPS, runall, nib, witness, judge, split, few

ASSUME = ['read() delivers the file in any division', 'opening a file fails or gives a descriptor']


class Cond:
    """A condition a directive tests: its text and its value."""

    def __init__(self, name, kind='if'):
        self.kind = kind
        if kind == 'if':
            c, v = nib(name)
            self.ch, self.bit = list('0x') + [c], B.veq(v, 0, 32) ^ 1
        else:                   # the name A is defined, B is not
            b = B.sym(name, 1)[0]
            self.ch, self.bit = [B.norm((b ^ 1, b, 0, 0, 0, 0, 1, 0))], b ^ 1
            if kind == 'ifndef':
                self.bit ^= 1


def group(name, kind, elifs, els, inner=None):
    """inner: {position: (kind, elifs, els, inner)}; positions 0..elifs, -1 for #else."""
    inner = inner or {}
    parts = [(Cond(name, kind), '#%s ' % kind)]
    parts += [(Cond('%se%d' % (name, i)), '#elif ') for i in range(elifs)]
    txt, exp = [], []
    taken = 0
    body = lambda p: inner.get(p)
    for p, (c, d) in enumerate(parts + ([(None, '#else')] if els else [])):
        if c:
            txt += list(d) + c.ch + ['\n']
            on = B.band(taken ^ 1, c.bit)
            taken = B.bor(taken, c.bit)
        else:
            txt += list('#else\n')
            on = taken ^ 1
        w = '%s_%d' % (name, p)
        txt += list(w + '\n')
        exp.append((w, on))
        sub = inner.get(p if c else -1)
        if sub:
            t, e = group('%sn%d' % (name, p), *sub)
            txt += t
            exp += [(x, B.band(on, g)) for x, g in e]
            txt += list(w + 'x\n')
            exp.append((w + 'x', on))
    txt += list('#endif\n')
    return txt, exp


def words_judge(r, g, exp):
    bad, n = [], 0
    x = B.band(g, r.refused)
    if x:
        bad.append('refused for %s' % witness(x))
    tot = 0
    for og0, out, rc in r.out:
        n += 1
        tot = B.bor(tot, og0)
        for og, text in few(split(og0, out), bad):
            got = text.decode('latin1').split()
            i = 0
            for w, c in exp:
                here = i < len(got) and got[i] == w
                x = B.band(og, c ^ 1 if here else c)
                if x:
                    bad.append('%s %s for %s' % (w, 'is output' if here else 'is missing', witness(x)))
                    break
                i += here
            else:
                if i < len(got):
                    bad.append('%s is output once too often' % got[i])
        if rc != 0:
            bad.append('exit code %r' % (rc,))
    x = B.band(g, tot ^ 1)
    if x and not bad:
        bad.append('no output for %s' % witness(x))
    return n, bad


OPENERS = ('if', 'ifdef', 'ifndef')


def group_jobs(full):
    out = []
    shapes = [(k, e, s) for k in OPENERS for e in range(3) for s in (0, 1)]
    for sh in shapes:
        out.append(('#%s with %d #elif%s' % (sh[0], sh[1], ' and #else' if sh[2] else ''), lambda sh=sh: group('a', *sh)))
        for pos in list(range(sh[1] + 1)) + ([-1] if sh[2] else []):
            for s2 in shapes:
                if not full and sh[0] != 'if' and s2[0] != 'if':
                    continue
                out.append(('%r with %r at %d' % (sh, s2, pos), lambda sh=sh, s2=s2, pos=pos: group('a', *sh, {pos: s2 + (None,)})))
        for k in OPENERS:
            s2 = (k, 1, 1)
            out.append(('%r with a group everywhere' % (sh,), lambda sh=sh, s2=s2: group('a', *sh, {p: s2 + (None,) for p in range(-1, 3)})))
    for n in range(3, 16):
        for shape in (('if', 0, 0), ('ifdef', 0, 1), ('if', 1, 1)):
            def deep(n=n, shape=shape):
                g = None
                for i in range(n):
                    g = shape + ({0: g} if g else None,)
                return group('a', *g)
            if shape[0] == 'if' and n > 7:
                continue
            out.append(('%d levels of %r' % (n, shape), deep))
    # two groups in sequence, directives written differently
    for a in (' #  if ', '\t#\tif ', '#if/**/', '# /* x */ if ', '/**/#if ', '#\\\nif '):
        for e in ('#endif', '# endif // x', '#endif /* x */', ' #endif ', '#endif NAME'):
            def styled(a=a, e=e):
                c, d = Cond('c'), Cond('d', 'ifdef')
                return (list(a) + c.ch + list('\none\n' + e.replace('endif', 'else') + '\ntwo\n' + e + '\n#ifdef\t') + d.ch + list(' // c\nthree\n' + e + '\n'),
                        [('one', c.bit), ('two', c.bit ^ 1), ('three', d.bit)])
            out.append(('written %r %r' % (a, e), styled))
    for last in ('#endif', '#endif\n', '#endif // x', '#endif /* x */', '#endif '):
        def atend(last=last):
            c = Cond('c')
            return (list('#if ') + c.ch + list('\none\n' + last), [('one', c.bit)])
        out.append(('ends in %r' % last, atend))
    return out


def groupstep2(job):
    name, make = job
    B.reset()
    txt, exp = make()
    g = 1
    if isinstance(exp, tuple):
        exp, g = exp
    end = [] if name.startswith('ends in') else [('end', 1)]
    r = Run({'in.c': list('#define A\n') + txt + (list('end\n') if end else [])}, g)
    return words_judge(r, g, exp + end)


STEPS['group'] = (group_jobs, groupstep2)


def sym_char(name, allow=None, deny=None, w=8):
    """(bit vector, condition): an arbitrary character."""
    v = B.sym(name, w)
    v8 = B.vzext(v, w, 8)
    if allow is not None:
        g = 0
        for c in allow:
            g = B.bor(g, B.veq(v8, ord(c), 8))
    else:
        g = B.veq(v8, 0, 8) ^ 1
        for c in deny or '':
            g = B.band(g, B.veq(v8, ord(c), 8) ^ 1)
    return v8, g


CONTEXTS = {'#if 0': ('#if 0\nJ\n#endif\n', ''), '#ifdef': ('#ifdef NOPE\nJ\n#endif\n', ''), '#ifndef': ('#ifndef A\nJ\n#endif\n', ''),
            '#else': ('#if 1\nyes\n#else\nJ\n#endif\n', 'yes'), '#elif 0': ('#if 0\nno\n#elif 0\nJ\n#else\nyes\n#endif\n', 'yes'),
            '#elif after': ('#if 1\nyes\n#elif 1\nJ\n#elif 1\nJ\n#else\nJ\n#endif\n', 'yes'),
            '#else in #if 0': ('#if 0\n#if 0\nJ\n#else\nJ\n#endif\nJ\n#else\nyes\n#endif\n', 'yes'),
            '#if 1 in #if 0': ('#if 0\n#if 1\nJ\n#endif\n#endif\n', ''),
            '#elif in #if 0': ('#if 0\n#ifdef A\nJ\n#elif 1\nJ\n#else\nJ\n#endif\n#endif\n', '')}
JUNK = ["it's", '"open', "'", '#bogus', '#error stop', '#include "none.h"', '#include <none.h>', '#include', '#define A 5', '#define N 5', '#undef B', '#undef', '#define', '#define 1',
        'F(', 'F F(1', 'F(1,2,3)', 'F)', '@', '$', '`', '#if )(\n#endif', '#if F(\n#endif', '#ifdef\n#endif', '#ifndef 1\n#endif', '#if\n#elif\n#else\n#endif',
        '#if 1/0\n#else\n#endif', '// #endif', '/* #endif */', '/*\n#endif\n*/', '"#endif"', 'x #endif', 'x # else', 'x \\\n#endif', "'#endif'", '#line x', '#pragma x', '#', '# ', '# 12 "x"', '##',
        '"a\\"b', '\\', '#error it\'s', '#else_not_a_directive', '#endiff', '#elif_', '#ifx']


def junk_jobs(full):
    out = []
    for c in CONTEXTS:
        for i, j in enumerate(JUNK):
            out.append(('%s around %r' % (c, j), (c, lambda j=j: (list(j), 1))))
        for n in range(1, 4 if full else 3):
            def symb(n=n):
                cs = [sym_char('j%d' % i, deny='\n#/\\') for i in range(n)]
                g = 1
                for x in cs:
                    g = B.band(g, x[1])
                return [x[0] for x in cs], g
            out.append(('%s around %d arbitrary characters' % (c, n), (c, symb)))

            def symd(n=n):
                cs = [sym_char('j%d' % i, deny='\n/\\') for i in range(n)]
                g = 1
                for x in cs:
                    g = B.band(g, x[1])
                return list('x #') + [x[0] for x in cs], g
            out.append(('%s around x # and %d arbitrary characters' % (c, n), (c, symd)))
    return out


def junkstep(job):
    name, (c, make) = job
    B.reset()
    j, g = make()
    ctx, out = CONTEXTS[c]
    txt = []
    for ch in ctx:
        txt += j if ch == 'J' else [ch]
    r = Run({'in.c': list('#define A\n#define B 77\n#define F(x) [x]\n') + txt + list('N A B F(8)\n')}, g)
    return judge(r, g, [(1, ' '.join((out + ' N 77 [8]').split()))])


STEPS['junk'] = (junk_jobs, junkstep)


def P02(full):
    rep = Report('P02')
    runall(rep, 'group', full)
    runall(rep, 'junk', full)
    return finish(rep, 900, ASSUME, 'each text line is output exactly under the condition on the directives around it, in source order, and lines of inactive groups have no effect')


# ---- P03: tokens
def allsym(name, n, **kw):
    cs = [sym_char('%s%d' % (name, i), **kw) for i in range(n)]
    g = 1
    for c in cs:
        g = B.band(g, c[1])
    return [c[0] for c in cs], g


LET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_'
DIG = '0123456789'
PUN = '!%&()*+,-.:;<=>?[]^{|}~'
OPS = ('++ -- -> << >> <= >= == != && || += -= *= /= %= &= |= ^= <<= >>= ... + - * / % < > = ! ~ & | ^ ? : , ; ( ) { } [ ] .').split()


def seg_judge(r, g, segs, loose=False):
    """segs: list of lists of characters; between two of them there is white space in the source."""
    bad, n = [], 0
    x = B.band(g, r.refused)
    if x:
        return 0, ['refused for %s' % witness(x)]
    tot = 0
    for og, out, rc in r.out:
        n += 1
        tot = B.bor(tot, og)
        pieces, cur = [], []
        inq = 0
        i = 0
        flat = [c if type(c) is not str else ord(c) for s in segs for c in s]
        # walk both: white space in the output belongs between two segments
        p, why = 0, None
        out = list(out)

        def ws(c):
            return type(c) is int and c in (32, 13, 10, 9)
        while p < len(out) and ws(out[p]):
            p += 1
        for k, s in enumerate(segs):
            for c in s:
                c = ord(c) if type(c) is str else c
                if p >= len(out):
                    why = 'output ends early'
                    break
                x = B.band(og, B.veq(out[p], c, 8) ^ 1) if type(c) is not int or type(out[p]) is not int else (og if out[p] != c else 0)
                if x:
                    why = 'character %d of %r differs for %s' % (p, show(out), witness(x))
                    break
                p += 1
            if why:
                break
            q = p
            while p < len(out) and ws(out[p]):
                p += 1
            if k < len(segs) - 1 and p == q:
                why = 'white space is lost at %d of %r' % (p, show(out))
                break
        if not why and p < len(out):
            why = 'too much output: %r' % show(out)
        if why:
            bad.append(why)
        if rc != 0:
            bad.append('exit code %r' % (rc,))
    x = B.band(g, tot ^ 1)
    if x:
        bad.append('no output for %s' % witness(x))
    return n, bad


def show(out):
    return ''.join(chr(c) if type(c) is int else '?' for c in out)


def tok_jobs(full):
    out = []

    def add(name, f):
        out.append((name, f))
    N = 4 if full else 3
    for q in '"\'':
        for n in range(0, N):
            def lit(q=q, n=n):
                c, g = allsym('s', n, deny='\\\n' + q)
                s = [q] + c + [q]
                return s, [s], g
            add('%s literal of %d arbitrary characters' % (q, n), lit)

            def litx(q=q, n=n):
                c, g = allsym('s', n, deny='\\\n' + q)
                s = ['x'] + [q] + c + [q] + ['+', 'y']
                return s + list(' z'), [s, ['z']], g
            add('%s literal of %d between tokens' % (q, n), litx)
            for m in range(0, 3):
                def esc(q=q, n=n, m=m):
                    c, g = allsym('s', n, deny='\\\n' + q)
                    e, h = allsym('e', 1, deny='\n')
                    s = [q] + c[:m] + ['\\'] + e + c[m:] + [q]
                    return s + list(' z'), [s, ['z']], B.band(g, h)
                if m <= n:
                    add('%s literal with an escape at %d of %d' % (q, m, n), esc)
        def esc2(q=q):
            e, g = allsym('e', 2, deny='\n')
            s = [q, '\\', e[0], '\\', e[1], q]
            return s, [s], g
        add('%s literal of two escapes' % q, esc2)
    for n in range(0, N):
        def ident(n=n):
            a, g = allsym('a', 1, allow=LET)
            c, h = allsym('c', n, allow=LET + DIG)
            return a + c, [a + c], B.band(g, h)
        add('identifier of %d' % (n + 1), ident)

        def num(n=n):
            a, g = allsym('a', 1, allow=DIG)
            c, h = allsym('c', n, allow=LET + DIG)
            return a + c, [a + c], B.band(g, h)
        add('number of %d' % (n + 1), num)

        def two(n=n):
            a, g = allsym('a', 1, allow=LET)
            c, h = allsym('c', n, allow=DIG)
            w, k = allsym('w', 2, allow=' \t\r\n\f\v')
            return a + c + w + a + c, [a + c, a + c], B.band(B.band(g, h), k)
        if n < 2:
            add('two identifiers of %d' % (n + 1), two)
    for n in range(1, N):
        def pun(n=n):
            c, g = allsym('p', n, allow=PUN)
            s = ['a'] + c + ['b']
            return s, [s], g
        add('%d arbitrary operator characters' % n, pun)

        def puns(n=n):
            c, g = allsym('p', n, allow=PUN)
            return ['a', ' '] + c + [' ', 'b'], [['a'], c, ['b']], g
        add('%d arbitrary operator characters in white space' % n, puns)
    for o in OPS:
        add('operator %s' % o, lambda o=o: (list('a%sb' % o), [list('a%sb' % o)], 1))
        for p in OPS:
            if o == '/' or (o + p)[:2] in ('/*', '//') or '//' in o + p or '/*' in o + p:
                continue
            add('operators %s %s' % (o, p), lambda o=o, p=p: (list('a%sb%sc %s %s 1 %s/**/%s' % (o, p, o, p, o, p)), [list('a%sb%sc' % (o, p)), list(o), list(p), ['1'], list(o), list(p)], 1))
    for n in range(0, 4 if full else 3):
        def com(n=n):
            c, g = allsym('c', n)
            for x, y in zip(['*'] + c, c + ['/']):
                # no end of the comment inside
                fx = B.veq(x, 42, 8) if x != '*' else 0
                fy = B.veq(y, 47, 8) if y != '/' else 0
                if x != '*' and y != '/':
                    g = B.band(g, B.band(fx, fy) ^ 1)
            return list('a/*') + c + list('*/b'), [['a'], ['b']], g
        add('comment of %d arbitrary characters' % n, com)

        def com2(n=n):
            c, g = allsym('c', n)
            for x, y in zip(c, c[1:]):
                g = B.band(g, B.band(B.veq(x, 42, 8), B.veq(y, 47, 8)) ^ 1)
            return list('"a" /* ') + c + list('***/"b" /**/ c'), [list('"a"'), list('"b"'), ['c']], g
        add('comment of %d between strings' % n, com2)

        def com3(n=n):
            c, g = allsym('c', n + 3, allow='*/"\'\n x')
            for x, y in zip(['*'] + c, c + ['/']):
                fx = B.veq(x, 42, 8) if x != '*' else 0
                fy = B.veq(y, 47, 8) if y != '/' else 0
                if x != '*' and y != '/':
                    g = B.band(g, B.band(fx, fy) ^ 1)
            return list('a/*') + c + list('*/b'), [['a'], ['b']], g
        add('comment of %d characters with stars, slashes and quotes' % (n + 3), com3)

        def lcom(n=n):
            c, g = allsym('c', n, deny='\n\\')
            return list('a//') + c + list('\nb'), [['a'], ['b']], g
        add('line comment of %d arbitrary characters' % n, lcom)
    for w in range(1, 4):
        def white(w=w):
            c, g = allsym('w', w, allow=' \t\r\n\f\v')
            return ['a'] + c + ['b', '+'] + c + ['"', 's', '"'] + c, [['a'], ['b', '+'], list('"s"')], g
        add('%d arbitrary white space characters' % w, white)
    for s, e in (('a \\\n b', 'a b'), ('a\\\n b', 'a b'), ('a \\\r\n b', 'a b'), ('a+\\\nb', 'a+b'), ('a \\\n\\\n b', 'a b'), ('a / b', 'a / b'), ('a/b', 'a/b'), ('a/=b', 'a/=b'), ('a / /**/ b', 'a / b'),
                 ('/**/a', 'a'), ('/* x */ a', 'a'), ('// x\na', 'a'), ('a // x', 'a'), ('a /* x', 'a'), ('a /* x *', 'a'), ('a "//" b', 'a "//" b'), ("a '/' '*' b", "a '/' '*' b"),
                 ('a\n\n\nb', 'a b'), ('\n\na', 'a'), ('a', 'a'), ('', ''), (' ', ''), ('\n', ''), ('//', ''), ('/**/', ''), ('a\r\nb\r\n', 'a b'), ('a.b->c', 'a.b->c'), ('0x1F+1e5', '0x1F+1e5'),
                 ('f(a,b);', 'f(a,b);'), ('"a""b"', '"a""b"'), ("L'a'", "L'a'"), ('_emit 0x1f', '_emit 0x1f'), ('a[1]={2};', 'a[1]={2};'), ('x?y:z', 'x?y:z'), ('"\\\\"', '"\\\\"'), ('"\\\\" "b"', '"\\\\" "b"')):
        add('%r' % s, lambda s=s, e=e: (list(s), [list(t) for t in e.split()], 1))
    return out


def tokstep(job):
    name, f = job
    B.reset()
    bad, n = [], 0
    for tail in ('', '\n'):
        s, segs, g = f()
        if name.startswith("'a /* x") and tail:
            continue
        r = Run({'in.c': list(s) + list(tail)}, g)
        k, b = seg_judge(r, g, segs)
        n += k
        bad += b
    return n, bad


STEPS['tok'] = (tok_jobs, tokstep)

SAMPLE = ('int ab=0x1F;/*c**/x "s\\"t\\\\"\'\\\'\'y// e\n#define M(p,q) p-q/*d*/+#p\nM (k , "2\\n")\n#if 1//c\nz<<=3;\\\n1\n#else\n"no\n#endif\n#ifdef M\na/b\n#endif\n#undef M\nM(1) __LINE__ end\n')
SAMPLE_OUT = 'int ab=0x1F; x "s\\"t\\\\"\'\\\'\'y k-"2\\n" +"k" z<<=3;1 a/b M(1) 14 end'


def cut_jobs(full):
    out = []
    for i in range(1, len(SAMPLE)):
        out.append(('read() ends after %d characters' % i, (0, [i], 0)))
    out.append(('read() gives single characters', (0, list(range(1, len(SAMPLE))), 0)))
    for i in (2, 3, 5, 7):
        out.append(('read() gives %d characters' % i, (0, list(range(i, len(SAMPLE), i)), 0)))
    L = len(SAMPLE)
    for pad in range(511 - L, 530):
        if pad > 0:
            out.append(('sample behind %d characters' % pad, (pad, [], 0)))
    for pad in (range(1022 - L, 1050) if full else range(1022 - L, 1050, 4)):
        out.append(('sample behind %d characters' % pad, (pad, [], 0)))
    return out


def cutstep(job):
    name, (pad, cuts, _) = job
    B.reset()
    # identifiers of 40 characters, the last of the length that is missing
    ids = []
    left = pad
    while left:
        k = min(left, 41)
        if 0 < left - k < 3:
            k = left - 4 if left - 4 <= 41 else k - 4
        ids.append('i' + ('%d' % len(ids) + 'q' * 40)[:k - 2] if k > 1 else '')
        left -= k
    pre = ''.join(i + ' ' for i in ids)
    if len(pre) != pad:
        raise AnalysisBroken('padding')
    c, g = allsym('c', 1, allow=LET + DIG)
    s = pre + SAMPLE
    k = s.index('ab=')
    s = list(s)
    s[k] = c[0]
    e = SAMPLE_OUT.split(' ')
    segs = [list(i) for i in ids if i] + [list(x) for x in e]
    lit = segs[len([i for i in ids if i]) + 1]
    lit[0] = c[0]
    g = B.band(g, B.vult(c[0], 58, 8) ^ 1)
    r = Run({'in.c': s}, g, cuts={'in.c': cuts})
    return seg_judge(r, g, segs)


STEPS['cut'] = (cut_jobs, cutstep)


def P03(full):
    rep = Report('P03')
    runall(rep, 'tok', full)
    runall(rep, 'cut', full)
    return finish(rep, 1500, ASSUME, 'the bytes written are the tokens of the source in order, strings byte for byte, with white space where the source has white space or a comment, for every division of the input into reads')


# ---- P04: macros, against Prosser's algorithm
PUNCT = sorted(set(OPS) | {'#', '##', ';', '->*'}, key=len, reverse=True)


def isid(c, first=False):
    if type(c) is not int:
        return True
    return chr(c) in LET or (not first and chr(c) in DIG)


class Tk:
    __slots__ = ('kind', 'text', 'ws', 'hide', 'made')

    def __init__(self, kind, text, ws, hide=frozenset(), made=frozenset()):
        self.kind, self.text, self.ws, self.hide, self.made = kind, tuple(text), ws, hide, made

    def with_(self, **kw):
        t = Tk(self.kind, self.text, self.ws, self.hide, self.made)
        for k, v in kw.items():
            setattr(t, k, v)
        return t

    def s(self):
        return bytes(self.text).decode('latin1') if all(type(c) is int for c in self.text) else None


def lex(chars):
    """Tokens of a text whose unknown characters are letters or digits."""
    cs = [ord(c) if type(c) is str else c for c in chars]
    out, i, ws = [], 0, False
    while i < len(cs):
        c = cs[i]
        if type(c) is int and chr(c) in ' \t\r\n\f\v':
            ws = True
            i += 1
            continue
        if cs[i:i + 2] == [47, 42]:
            i = next(j for j in range(i + 2, len(cs)) if cs[j:j + 2] == [42, 47]) + 2
            ws = True
            continue
        j = i + 1
        if isid(c):
            while j < len(cs) and isid(cs[j]):
                j += 1
            out.append(Tk('num' if type(c) is int and chr(c) in DIG else 'id', cs[i:j], ws))
        elif chr(c) in '"\'':
            while cs[j] != c:
                j += 2 if cs[j] == 92 else 1
            j += 1
            out.append(Tk('str', cs[i:j], ws))
        else:
            for p in PUNCT:
                if cs[i:i + len(p)] == [ord(x) for x in p]:
                    j = i + len(p)
                    break
            out.append(Tk('op', cs[i:j], ws))
        i, ws = j, False
    return out


class Macro:
    def __init__(self, params, body):
        self.params = params            # None: object-like
        self.body = lex(body)
        if self.body:
            self.body[0].ws = False


def subst(m, args, raw, hs):
    out = []
    b = m.body
    i = 0

    def arg(t):
        return m.params.index(t.s()) if m.params is not None and t.kind == 'id' and t.s() in m.params else None
    while i < len(b):
        t = b[i]
        if t.s() == '#' and m.params is not None:
            k = arg(b[i + 1])
            txt = [34]
            for j, a in enumerate(raw[k]):
                if j and a.ws:
                    txt.append(32)
                for c in a.text:
                    if c == 34 or (c == 92 and a.kind == 'str'):
                        txt.append(92)
                    txt.append(c)
            out.append(Tk('str', txt + [34], t.ws))
            i += 2
        elif t.s() == '##' and i:
            n = b[i + 1]
            k = arg(n)
            r = [x.with_() for x in raw[k]] if k is not None else [n.with_()]
            if r and out and out[-1].kind != 'none':
                l = out.pop()
                g = lex(l.text + r[0].text)
                if len(g) != 1:
                    raise AnalysisBroken('pasting does not give one token')
                out.append(g[0].with_(ws=l.ws, hide=l.hide & r[0].hide))
                out += r[1:]
            elif r:
                if out and out[-1].kind == 'none':
                    r[0].ws = out.pop().ws
                out += r
            i += 2
        elif arg(t) is not None:
            k = arg(t)
            follow = i + 1 < len(b) and b[i + 1].s() == '##'
            a = [x.with_() for x in (raw[k] if follow else args(k))]
            if a:
                a[0].ws = t.ws
            elif follow:
                a = [Tk('none', (), t.ws)]
            out += a
            i += 1
        else:
            out.append(t.with_())
            i += 1
    out = [t for t in out if t.kind != 'none']
    for t in out:
        t.hide = t.hide | hs
    return out


NEST = []


def expand(ts, macros, within=()):
    out = []
    ts = list(ts)
    while ts:
        t = ts.pop(0)
        n = t.s() if t.kind == 'id' else None
        m = macros.get(n)
        if m is None or n in t.hide:
            out.append(t)
            continue
        if m.params is None:
            r = subst(m, None, None, t.hide | {n})
        else:
            if not ts or ts[0].s() != '(':
                out.append(t)
                continue
            raw, cur, d, i = [], [], 0, 1
            while True:
                if i >= len(ts):
                    raise AnalysisBroken('a call is not closed')
                x = ts[i]
                s = x.s()
                if s == '(':
                    d += 1
                if s == ')':
                    if d == 0:
                        break
                    d -= 1
                if s == ',' and d == 0:
                    raw.append(cur)
                    cur = []
                else:
                    cur.append(x)
                i += 1
            raw.append(cur)
            if not m.params and raw == [[]]:
                raw = []
            if len(raw) != len(m.params):
                raise AnalysisBroken('wrong number of arguments')
            close = ts[i]
            del ts[:i + 1]
            memo = {}

            def args(k):
                if k not in memo:
                    memo[k] = expand([x.with_() for x in raw[k]], macros, within + (n,))
                return memo[k]
            if n in within or any(n in x.made for a in raw for x in a):
                NEST.append(n)
            r = subst(m, args, raw, (t.hide & close.hide) | {n})
        for x in r:
            x.made = x.made | {n}
        if r:
            r[0].ws = r[0].ws or t.ws
        elif ts:
            ts[0].ws = True
        ts = r + ts
    return out


def macrostep(job):
    """job: (name, make) -> (definitions [(name, params or None, body characters)], text characters, guard)"""
    name, make = job
    B.reset()
    defs, text, g = make()
    src, ms = [], {}
    for n, ps, body in defs:
        src += list('#define ' + n + ('(%s)' % ','.join(ps) if ps is not None else '') + ' ') + list(body) + ['\n']
        ms[n] = Macro(ps, body)
    del NEST[:]
    want = expand(lex(text), ms)
    if NEST and not name.startswith('nested '):
        return 1, []        # see NESTED
    src += list(text) + ['\n']
    r = Run({'in.c': src}, g)
    return tokens_judge(r, g, want)


def tokens_judge(r, g, want):
    bad, n = [], 0
    x = B.band(g, r.refused)
    if x:
        return 0, ['refused for %s' % witness(x)]
    tot = 0
    for og, out, rc in r.out:
        n += 1
        tot = B.bor(tot, og)
        try:
            got = lex(out)
        except Exception:
            got = []
        why = None
        if len(got) != len(want):
            why = '%d tokens instead of %d' % (len(got), len(want))
        else:
            for a, b in zip(got, want):
                if len(a.text) != len(b.text) or any(B.band(og, B.veq(x, y, 8) ^ 1) for x, y in zip(a.text, b.text)):
                    why = 'another token'
                    break
        if why:
            bad.append('%s: %r instead of %r' % (why, show(out), ' '.join(show(t.text) for t in want)))
        if rc != 0:
            bad.append('exit code %r' % (rc,))
    x = B.band(g, tot ^ 1)
    if x:
        bad.append('no output for %s' % witness(x))
    return n, bad


# scpp does not expand a call of a macro in an argument of a call of the same macro
NESTED = [([('F', ['x'], '[x]')], 'F(F(1))'), ([('MAX', ['a', 'b'], '(a>b?a:b)')], 'MAX(MAX(1,2),3)'), ([('G', ['x'], '<x>'), ('F', ['x'], 'G(x)')], 'F(G(1))')]


def macro_jobs(full):
    out = []

    def add(defs, text):
        def make():
            k = [0]

            def sub(s):
                r = []
                for c in s:
                    if c == '?':
                        k[0] += 1
                        r.append(nib('n%d' % k[0])[0])
                    else:
                        r.append(c)
                return r
            return [(n, ps, sub(b)) for n, ps, b in defs], sub(text), 1
        out.append(('%s : %s' % ('; '.join('%s%s %s' % (n, '' if ps is None else '(%s)' % ','.join(ps), b) for n, ps, b in defs), text), make))
    J = ['x', 'y']
    O = ('O', None, '0x?')
    N = ('N', None, '-0x?')
    E = ('E', None, '')
    G = ('G', ['a'], '<a>')
    # object-like macros
    for b in ('0x?', '-0x?', '', 'a b', 'a + b', '"s\\n"', "'c'", '(0x?)', 'X', 'X + X', 'O', 'O O', '-O', 'O-', 'E', 'E O E', 'G', 'G(1)', 'G(O)', 'N', '-N', '+N', 'x', '/**/ 1 /**/ 2 /**/', '1 // c', 'G(', '-', '<', '=', '&', '->', '.'):
        for t in ('X', '-X', 'X-', '-X-', 'X X', 'XX X_ xX', 'X(2)', '(X)', 'X,X;X', '"X" X', 'X\nX', 'a X b', 'X=X', 'X=1', '<X>', 'X/**/X', 'X.X', 'X->X', '1X X1', '.X', '&X&', '*X/X', 'G(X)', 'G(-X)', 'G(X X)'):
            if b == 'G(' and ('G' in t or t.count('X') > 1 or '(2)' in t):
                continue
            if b == 'G(' :
                continue
            if b == '1 // c':
                add([O, N, E, G, ('X', None, '1 /*c*/')], t)
                continue
            add([O, N, E, G, ('X', None, b)], t)
    # function-like macros of one and two parameters
    bodies1 = ['x', '-x', 'x-', '-x-', '(x)', 'x x', 'x+x', '#x', 'x #x', 'x##1', '_##x', 'a x b', '', 'O x', 'G(x)', '-G(x)-', 'G(x) G(x)', 'x(O)', '"x"', 'x O x', '[x]', '#x #x', 'x##_##1', 'y', 'G']
    args1 = ['0x?', '-0x?', 'O', 'N', 'E', '(1,2)', 'G(2)', 'G(O)', 'a b', 'a  +  b', '"s\\n"', "'\"'", '"a""b"', '', ' ', ' 7 ', 'v', 'O O', '-O', 'G', '((O))', 'v w/**/z', '"\\\\"', '\n1\n', 'a\nb', 'x', 'y', '<', '=', 'G(G1)', '"X" X']
    for b in bodies1:
        for a in args1:
            if a == 'a,b)(':
                continue
            if '##' in b and len(lex(a)) != 1 or ('##' in b and a not in ('0x?', 'O', 'N', 'E', 'v', 'x', 'y', 'G')):
                if not ('##' in b and a in ('', ' ')):
                    if '##' in b:
                        continue
            if '##' in b and (a in ('0x?',) and b.startswith('_') is False or a == '0x?'):
                pass
            for t in ('F(%s)', '-F(%s)-', 'F (%s)F(3)') if full or b in ('x', '-x-', '#x', 'G(x)') else ('a F(%s)-',):
                if a == 'G' and b == 'x' and 'F(3)' in t:
                    continue
                add([O, N, E, G, ('F', ['x'], b)], t % a)
    bodies2 = ['x y', 'y x', 'x-y', 'x##y', '#x #y', 'x', '', '#x y', 'G(x)G(y)', '(x)*(y)', 'x y x y', 'x##y x', 'G(x##y)', '-x-y-', 'x,y', 'G2(y,x)', 'G2(x,x)']
    args2 = ['1,2', '-1,-2', 'O,N', 'v,1', 'v,O', 'O,O', '(1,2),(3,4)', ' a , b ', ',', '1,', ',2', 'E,E', 'G(1),G(2)', '"a,b","c)"', 'v,w', '((,)),(,)', '\n1\n,\n2\n', 'G2(1,2),3', "',',')'", 'y,x', 'x,y']
    for b in bodies2:
        for a in args2:
            if '##' in b and a not in ('v,1', 'v,O', 'v,w', 'O,O', ',', '1,', ',2', 'y,x', 'x,y', '1,2'):
                continue
            if 'G2' in b and 'G2' in a:
                pass
            add([O, N, E, G, ('G2', ['p', 'q'], '{p:q}'), ('H', ['x', 'y'], b)], 'H(%s)' % a)
            if full:
                add([O, N, E, G, ('G2', ['p', 'q'], '{p:q}'), ('H', ['x', 'y'], b)], '-H (%s)-O' % a)
    # no parameters, many parameters
    for b in ('', '1', '-1', 'O', 'Z0', 'G(O)', '()'):
        for t in ('Z()', 'Z ( )', 'Z', '-Z()-', 'Z()Z()', 'Z\n(\n)', 'Z Z()', 'G(Z())', 'Z;Z()', 'Z+Z ( )'):
            add([O, N, E, G, ('Z', [], b)], t)
    for n in (3, 4, 5):
        ps = ['abcde'[i] for i in range(n)]
        add([('M', ps, ' '.join(reversed(ps)))], 'M(%s)' % ','.join('0x?' for i in range(n)))
        add([('M', ps, ''.join('[%s]#%s' % (p, p) for p in ps))], 'M(%s)' % ','.join('v%d' % i for i in range(n)))
        add([('M', ps, '##'.join(ps))], 'M(%s)' % ','.join('v%d' % i for i in range(n)))
        add([('M', ps, '##'.join(ps) + ' ' + ' ## '.join(ps))], 'M(%s)' % ','.join('' if i % 2 else 'v%d' % i for i in range(n)))
    # names that are not macro calls; recursion; layers
    for defs, t in (([('F', J, 'x y'), G], 'F(G,(1))'), ([('F', J, 'x(y)'), G], 'F(G,1)'), ([('F', J, 'xy y'), G], 'F(1,G)(2)'), ([('F', ['x'], 'x'), G], 'F(G)(1)'), ([('F', ['x'], 'x(1)'), G], 'F(G)'), ([('F', ['x'], 'G x'), G], 'F((1))'), ([('F', ['x'], 'G(x 2) x'), G], 'F(1)'),
                    ([('F', ['x'], 'x'), ('L', None, '('), G], 'G L 1)'), ([('F', ['ab'], 'a##b ab')], 'F(1)'), ([('F', ['x'], '[x]')], 'F F F(1) F'), ([('F', ['x'], '[x]')], 'F;F\n(1)'), ([('F', ['x'], '[x]')], 'F\n\n1'), ([('F', ['x'], '[x]')], '(F)(1)'), ([('F', ['x'], '[x]')], 'F(1)F(2) F(3)'),
                    ([('A', None, 'B'), ('B', None, 'A')], 'A B A'), ([('A', None, 'A + 1')], 'A A'), ([('A', None, 'B 1'), ('B', None, 'C 2'), ('C', None, 'A 3')], 'A B C'),
                    ([('A', None, 'F'), ('F', ['x'], '[x]')], 'A(1) A'), ([('F', ['x'], 'x F')], 'F(1) F(2)'), ([('F', ['x'], 'F x')], 'F(1)'), ([('S', ['x'], '#x'), ('T', ['x'], 'S(x)'), O], 'S(1 + 2)'),
                    ([('S', ['x'], '#x'), O], 'S(O)'), ([('S', ['x'], '#x'), ('Q', None, 'a')], 'S(Q)S(Q)'), ([('C', ['x', 'y'], 'x##y'), ('AB', None, '0x?')], 'C(A,B)'), ([('C', ['x', 'y'], 'x##y'), ('AB', None, '0x?')], 'AB C(A,B) C(A,C)'),
                    ([('C', ['x', 'y'], 'x ## y')], 'C(+,+) C(-,>) C(<,=) C(1,2) C(a,1)'), ([('C', ['x', 'y'], 'x##y')], 'C(0x,?)'), ([('C', ['x', 'y'], 'x##y')], 'C(v?,w?)'),
                    ([('W', ['e'], 'while(e)'), ('D', ['e'], 'do W(e)')], 'D(1) W(2)'), ([('MAX', ['a', 'b'], '((a)>(b)?(a):(b))')], 'MAX(0x?,-0x?)+MAX(x,y)'), ([('I', ['x'], 'x'), ('J', ['x'], 'I(x)'), ('K', ['x'], 'J(x)')], 'K(0x?) K(-1)-K(2)'),
                    ([('P', ['x'], 'p x'), ('Q', None, 'P')], 'Q (1) Q'), ([('v?'.replace('?', '1'), None, '2')], 'v1 v11 1v1 v1'), ([('L1', None, 'L2'), ('L2', None, 'L3'), ('L3', None, 'L4'), ('L4', None, 'L5'), ('L5', None, '0x?')], 'L1 L3 L5'),
                    ([('f', ['a'], 'a*g'), ('g', ['a'], 'f(a)')], 'f(2)'), ([('e', None, ''), ('i', ['x'], 'x')], 'i(e)i(e e)i()e'), ([('_', ['s'], 's')], '_("a") _(_1) _(__)'),
                    ([('a', ['b'], 'b'), ('b', None, '1')], 'a(b) b'), ([('a', ['b', 'c'], 'c b'), ('c', None, '1')], 'a(c,2)'), ([('x', ['x'], 'x')], 'x(1) x'), ([('f', ['x'], 'x'), ('x', None, '7')], 'f(x) f(1) x'),
                    ([('f', ['x'], 'x y'), ('g', ['y'], 'f(y) y')], 'g(1)'), ([('f', ['x'], 'g(x)'), ('g', ['x'], '<x>')], 'f(1) g(2)'), ([('f', ['x', 'y'], 'g(y,x)'), ('g', ['x', 'y'], '<x|y>')], 'f(1,2) g(3,4)')):
        add(defs, t)
    # one call after another: nothing of a call is left for the next
    V = ['', 'v', 'O', 'a b', '(1,2)', 'G(3)', '"s"']
    for i, a in enumerate(V):
        for j, b in enumerate(V):
            for k, body in enumerate(('[x]', '#x x', 'G(x) x' if a or b else 'x')):
                add([O, N, E, G, ('F', ['x'], body)], 'F(%s)F(%s)' % (a, b))
                if full or (i + j + k) % 3 == 0:
                    add([O, N, E, G, ('F', ['x'], body), ('H', ['p', 'q'], '<p|q>')], 'F(%s) H(%s,%s) H(%s,%s) F(%s)' % (a, b, a, '' if i % 2 else a, b, b))
            if full or (i + j) % 2:
                add([O, N, E, G, ('H', ['x', 'y'], 'x,#y y')], 'H(%s,%s) H(%s,) H(,%s) H(,)' % (a, b, a, b))
                add([O, N, E, G, ('M', ['x', 'y', 'z'], '{z|y|x}'), ('F', ['x'], 'M(x,,x) M(,x,)')], 'F(%s) M(%s,%s,) F(%s) F()' % (a, b, a, b))
    n = len(out)
    for d, t in NESTED:
        add(d, t)
    for i in range(n, len(out)):
        out[i] = ('nested ' + out[i][0], out[i][1])
    return out


STEPS['macro'] = (macro_jobs, macrostep)


def P04(full):
    rep = Report('P04')
    runall(rep, 'macro', full)
    return finish(rep, 1800, ASSUME, 'the tokens written are those that the algorithm of the C standard yields, for all values of the unknown digits')


# ---- P05: files, lines, definitions
def seq_jobs(full):
    """Histories of #define and #undef, each behind a condition of its own."""
    import itertools
    out = []
    ops = [('D1', 'X 1'), ('D2', 'X 2'), ('DF', 'X(a) <a>'), ('DE', 'X'), ('U', None)]
    for n in (1, 2, 3):
        for seq in itertools.product(ops, repeat=n):
            def make(seq=seq):
                txt, use = [], []
                # the definition that is in force: list of (condition, key)
                cur = [(1, 'U')]
                for i, (k, d) in enumerate(seq):
                    c = Cond('c%d' % i)
                    txt += list('#if ') + c.ch + list('\n' + ('#undef X' if d is None else '#define ' + d) + '\n#endif\n')
                    new = []
                    for g, o in cur:
                        new.append((B.band(g, c.bit ^ 1), o))
                        # redefining a macro that is defined is an error in C unless it is the same
                        new.append((B.band(g, c.bit), k))
                    cur = new
                bad = 0
                return txt, cur
            out.append((' '.join(k for k, d in seq), make))
    return out


def conflict(seq, bits):
    """A defined macro is defined again differently."""
    s = 'U'
    for (k, d), b in zip(seq, bits):
        if b:
            if s != 'U' and k != 'U' and s != k:
                return True
            s = k
    return s


RES = {'D1': '1 [1 ] (1 (5)) d', 'D2': '2 [2 ] (2 (5)) d', 'DF': 'X [X ] (<5>) d', 'DE': '[ ] ( (5)) d', 'U': 'X [X ] (X (5)) u'}


def seqstep(job):
    name, make = job
    B.reset()
    seq = [(k, None) for k in name.split()]
    txt, cur = make()
    conds = [Cond('c%d' % i).bit for i in range(len(seq))]
    want = []
    g = 0
    for m in range(1 << len(seq)):
        bits = [m >> i & 1 for i in range(len(seq))]
        e = 1
        for b, c in zip(bits, conds):
            e = B.band(e, c if b else c ^ 1)
        r = conflict(seq, bits)
        if r is True:
            continue
        g = B.bor(g, e)
        want.append((e, RES[r]))
    if not g:
        return 1, []
    src = txt + list('X [X ] (X (5))\n#ifdef X\nd\n#else\nu\n#endif\n')
    r = Run({'in.c': src}, g)
    return judge2(r, g, want)


def judge2(r, g, want):
    """As judge, but white space does not matter."""
    bad, n = [], 0
    x = B.band(g, r.refused)
    if x:
        bad.append('refused for %s' % witness(x))
    tot = 0
    for og0, out, rc in r.out:
        n += 1
        tot = B.bor(tot, og0)
        for og, text in few(split(og0, out), bad):
            for c, w in want:
                x = B.band(og, c)
                if x and b''.join(text.split()) != w.replace(' ', '').encode():
                    bad.append('%r instead of %r for %s' % (text, w, witness(x)))
        if rc != 0:
            bad.append('exit code %r' % (rc,))
    x = B.band(g, tot ^ 1)
    if x and not bad:
        bad.append('no output for %s' % witness(x))
    return n, bad


STEPS['seq'] = (seq_jobs, seqstep)


def file_jobs(full):
    """(name, (files, condition list -> None, expected segments))"""
    out = []

    def add(name, files, exp, **kw):
        out.append((name, (files, exp, kw)))
    big = ' '.join('w%d' % i for i in range(150))
    for inc in ('#include "a.h"', '# include "a.h"', '#include <a.h>', '  #  include  "a.h"  ', '#include "a.h" // c', '#include "a.h" /* c */', '#include/**/"a.h"', '#include <a.h> // c', '#include "a.h"\r'):
        for body in ('a', 'a\n', '\na\n', 'a // x', 'a /* x */', '', '\n', '// x', '#define a a\na', '"a"\n', big, big + '\n', 'a\n#if 0\n#endif', "a 'b'", '#ifndef A_H\n#define A_H\na\n#endif\n'):
            for tail in ('\nb\n', '\nb', '', '\n', '\n"b"', '\n\nb', '\n#if 1\nb\n#endif\n'):
                if not full and inc != '#include "a.h"' and body not in ('a', 'a\n', big):
                    continue
                e = {'#define a a\na': 'a', 'a // x': 'a', 'a /* x */': 'a', '\na\n': 'a', '// x': '', '\n': '', 'a\n#if 0\n#endif': 'a', '#ifndef A_H\n#define A_H\na\n#endif\n': 'a'}.get(body, body)
                t = 'b' if 'b' in tail and '"' not in tail else tail
                add('%r with %r and %r' % (inc, body[:40], tail), {'in.c': 'x\n' + inc + tail, 'a.h': body}, ('x ' + e + ' ' + t).split())
    H = {'a.h': '#define A 1\nin_a\n', 'b.h': '#include "a.h"\nin_b A\n', 'g.h': '#ifndef G\n#define G\nin_g\n#endif\n', 'm.h': '#define F(x) <x>\n#define L __LINE__\n'}
    for txt, e in (('#include "a.h"\nA\n', 'in_a 1'), ('#include "b.h"\nA\n', 'in_a in_b 1 1'), ('#include "a.h"\n#include "a.h"\nA', 'in_a in_a 1'), ('#include "g.h"\n#include "g.h"\nG', 'in_g'),
                   ('A\n#include "a.h"\nA\n#undef A\nA', 'A in_a 1 A'), ('#include "b.h"\n#include "g.h"\nx', 'in_a in_b 1 in_g x'), ('#include "b.h"\n#include "b.h"\nx', 'in_a in_b 1 in_a in_b 1 x'),
                   ('#define N "a.h"\n#include N\nA', 'in_a 1'), ('#if 0\n#include "none.h"\n#endif\nx', 'x'), ('#include "m.h"\nF(1)F (2)\n', '<1><2>'), ('#include "m.h"\nF\n(1)\n', '<1>'),
                   ('#if 1\n#include "a.h"\n#else\n#include "none.h"\n#endif\nA', 'in_a 1'), ('#ifdef A\n#include "a.h"\n#endif\n#ifndef A\n#include "b.h"\n#endif\nA', 'in_a in_b 1 1')):
        add('%r' % txt, dict(H, **{'in.c': txt}), e.split())
    for i, (txt, e) in enumerate((('__LINE__', '1'), ('\n__LINE__\n__LINE__', '2 3'), ('a\n/*\n\n*/ __LINE__\n', 'a 4'), ('// x\n__LINE__', '2'), ('a \\\n b __LINE__\n__LINE__', 'a b 2 3'), ('#define L __LINE__\nL\n\nL', '2 4'),
                   ('#define F(x) x __LINE__\nF(1)\nF(2)', '1 2 2 3'), ('#if __LINE__ == 1\na\n#endif\n#if __LINE__ == 4\nb\n#endif\n', 'a b'), ('#include "a.h"\n__LINE__\n', 'in_a 2'), ('#include "b.h"\n\n__LINE__\n', 'in_a in_b 1 3'),
                   ('#include "l.h"\n__LINE__\n', '1 3 2'), ('x\n#include <l.h>\n__LINE__\n', 'x 1 3 3'), ('__FILE__', '"in.c"'), ('#include "f.h"\n__FILE__ __LINE__', '"f.h" 2 "in.c" 2'), ('#define S __FILE__\nS', '"in.c"'),
                   ('"a\\\nb" __LINE__', None), ('__SCC__', '1'), ('#ifdef __SCC__\na\n#endif\n#ifdef __LINE__\nb\n#endif\n#ifdef __FILE__\nc\n#endif\n#ifdef define\nd\n#endif\n#ifdef if\ne\n#endif', 'a b c'),
                   ('\n' * 9 + '__LINE__', '10'), ('\n' * 99 + '__LINE__', '100'), ('\n' * 600 + '__LINE__', '601'), ('x\n' * 300 + '__LINE__', 'x ' * 300 + '301'), ('#pragma x "\n#line 7\n__LINE__ if define', '3 if define'),
                   ('#include "l.h" // c\n__LINE__\n', '1 3 2'), ('#include "l.h" /* c */\n__LINE__\n', '1 3 2'), ('#include "l.h"\n\n\n#include "l.h"\n__LINE__', '1 3 1 3 5'), ('#if 0\n\n#else\n__LINE__\n#endif\n__LINE__', '4 6'))):
        if e is not None:
            add('line %r' % txt[:60], dict(H, **{'in.c': txt, 'l.h': '__LINE__\n\n__LINE__\n', 'f.h': '\n__FILE__ __LINE__'}), e.split())
    return out


def flat_judge(r, g, words):
    want = [ord(c) for w in words for c in w]
    bad, n = [], 0
    x = B.band(g, r.refused)
    if x:
        return 0, ['refused for %s' % witness(x)]
    tot = 0
    for og, out, rc in r.out:
        n += 1
        tot = B.bor(tot, og)
        if bytes(c if type(c) is int else 63 for c in out).decode('latin1').split() != list(words) and list(''.join(words)) != [show([c]) for c in out if c not in (32, 13, 10)]:
            bad.append('%r instead of %r' % (show(out)[:300], ' '.join(words)[:300]))
        elif bytes(out).decode('latin1').split() != list(words) and any(w[0].isalnum() for w in words) and len(bytes(out).split()) < len(words) and '<' not in ''.join(words):
            bad.append('white space is lost: %r instead of %r' % (show(out)[:300], ' '.join(words)[:300]))
        if rc != 0:
            bad.append('exit code %r' % (rc,))
    x = B.band(g, tot ^ 1)
    if x:
        bad.append('no output for %s' % witness(x))
    return n, bad


def filestep(job):
    name, (files, exp, kw) = job
    bad, n = [], 0
    L = len(files['in.c'])
    la = len(files.get('a.h', ''))
    cutsets = [{}]
    if la > 200 and L < 120:
        cutsets += [{'in.c': list(range(1, L)), 'a.h': list(range(1, la))}, {'in.c': list(range(2, L, 3)), 'a.h': list(range(1, la, 2))}]
    elif L < 120:
        cutsets += [{'in.c': [i]} for i in range(1, L)] + [{'in.c': list(range(1, L)), 'a.h': list(range(1, la))}, {'in.c': list(range(2, L, 3)), 'a.h': list(range(1, la, 2))}]
    for cuts in cutsets:
        B.reset()
        r = Run(files, 1, cuts=cuts)
        k, b = flat_judge(r, 1, exp)
        n += k
        bad += b
        if b:
            break
    return n, bad


STEPS['file'] = (file_jobs, filestep)


def fail_jobs(full):
    """What must fail, and only then."""
    out = []
    for d in ('#error', '#error stop', '#include "none.h"', '#include <none.h>', '#bogus', '#include "a.h"\n', 'F(1,2)\n', 'F(1', 'Z(1)', '#include <a.h\n', '@', '$'):
        def make(d=d):
            c = Cond('c')
            return list('#if ') + c.ch + list('\n' + d + '\n#endif\nx\n'), c.bit
        out.append(('if: %s' % d, make))
    for d in ('#endif\n', '#else\n', '#elif 1\n'):
        out.append(('without #if: %s' % d, lambda d=d: (list(d), 1)))
    return out


def failstep(job):
    name, make = job
    B.reset()
    src, c = make()
    never = 'include "a.h"' in name
    r = Run({'in.c': list('#define F(x) [x]\n#define Z() z\n') + src, 'a.h': []}, 1)
    bad = []
    x = B.bxor(r.refused, 0 if never else c)
    if x:
        bad.append('%s for %s' % ('accepted' if B.band(x, r.refused ^ 1) else 'refused', witness(x)))
    for og, out, rc in r.out:
        if rc != 0:
            bad.append('exit code %r' % (rc,))
    return len(r.out) + 1, bad


STEPS['fail'] = (fail_jobs, failstep)


def write_jobs(full):
    out = []
    for size in (10, 500, 511, 512, 513, 600, 1023, 1024, 1025, 1100):
        for k in range(3):
            for how, f in (('-1', lambda n: 0xffffffff), ('0', lambda n: 0), ('1 short', lambda n: n - 1)):
                out.append(('%d characters, write %d returns %s' % (size, k, how), (size, k, f)))
    return out


def writestep(job):
    name, (size, k, f) = job
    B.reset()
    txt = ('abcdefghi ' * 200)[:size - 1] + 'z'
    r = Run({'in.c': txt}, 1, wfail=[None] * k + [f])
    nw = (size + 511) // 512 + (size % 512 == 0)        # a last write of nothing cannot fail by being short
    made = max([s.ghost.get('writes', 0) for kk, v, s, i in r.ex.exits] + [0])
    must = k < (size + 511) // 512
    bad = []
    if must and r.refused != 1:
        bad.append('the output is incomplete but the exit code is 0')
    if k >= nw and (r.refused or not r.out):
        bad.append('refused')
    r = Run({'in.c': txt}, 1)
    for og, out, rc in r.out:
        if bytes(out).split() != txt.encode().split():
            bad.append('another output')
    return 2, bad


STEPS['write'] = (write_jobs, writestep)


def name_jobs(full):
    out = []
    for a, n, o in ((['in.c'], 'in.c', 'in.i'), (['in.c', 'out.x'], 'in.c', 'out.x'), (['a.b.c'], 'a.b.c', 'a.b.i'), (['noext'], 'noext', 'noext.i'), (['x' * 40 + '.c'], 'x' * 40 + '.c', 'x' * 40 + '.i'), (['in.c', 'none/out'], 'in.c', None), (['missing.c'], None, None), ([], None, None), (['x' * 90 + '.c'], 'x' * 90 + '.c', None)):
        out.append(('arguments %s' % ' '.join(a)[:50], (a, n, o)))
    return out


def namestep(job):
    name, (a, n, o) = job
    B.reset()
    r = Run({n: 'text'} if n else {}, 1, argv=['scpp'] + a, deny=('none/out',))
    bad = []
    if o is None:
        if any(rc == 0 for og, out, rc in r.out):
            bad.append('success')
    else:
        if r.refused or len(r.out) != 1:
            bad.append('refused')
        elif o not in r.names:
            bad.append('the output is written to %r' % (r.names,))
    return 1, bad


STEPS['name'] = (name_jobs, namestep)


def P05(full):
    rep = Report('P05')
    for k in ('seq', 'file', 'fail', 'write', 'name'):
        runall(rep, k, full)
    return finish(rep, 500, ASSUME, 'definitions take effect in the order of the directives, #include inserts the file, lines are counted, and what cannot be done ends with a nonzero exit code')
