"""Boolean-function lattice: reduced ordered BDDs with complement edges, and
bit-vector values built on them.

A bit is a Python int: 0 = false, 1 = true, otherwise 2*node + complement.
A bit-vector value of width w is either a Python int (a constant, 0 <= v < 2**w)
or a tuple of w bits, least significant first.  Tuples never hold only
constants: `norm` folds those into ints, so equality of values is `==`.
Variables are ordered by (bit index, symbol number): interleaving keeps adders
and comparisons of any two symbols linear.
"""
import sys
sys.setrecursionlimit(200000)

VAR = [1 << 60]      # level of each node; node 0 is the terminal
LO = [0]
HI = [0]
_uniq = {}
_and = {}
_xor = {}
_ite = {}


def reset():
    del VAR[1:], LO[1:], HI[1:]
    for c in (_uniq, _and, _xor, _ite):
        c.clear()
    SYMS.clear()
    SYMINFO.clear()
    _opq.clear()


def clear_caches():
    for c in (_and, _xor, _ite):
        c.clear()


def mk(v, lo, hi):
    if lo == hi:
        return lo
    c = lo & 1
    if c:
        lo ^= 1
        hi ^= 1
    k = (v, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(VAR)
        VAR.append(v)
        LO.append(lo)
        HI.append(hi)
        _uniq[k] = n
    return n * 2 + c


def band(a, b):
    if a == b:
        return a
    if a > b:
        a, b = b, a
    if a == 0:
        return 0
    if a == 1:
        return b
    if a ^ 1 == b:
        return 0
    k = (a, b)
    r = _and.get(k)
    if r is not None:
        return r
    na = a >> 1
    nb = b >> 1
    va = VAR[na]
    vb = VAR[nb]
    ca = a & 1
    cb = b & 1
    if va == vb:
        r = mk(va, band(LO[na] ^ ca, LO[nb] ^ cb), band(HI[na] ^ ca, HI[nb] ^ cb))
    elif va < vb:
        r = mk(va, band(LO[na] ^ ca, b), band(HI[na] ^ ca, b))
    else:
        r = mk(vb, band(a, LO[nb] ^ cb), band(a, HI[nb] ^ cb))
    _and[k] = r
    return r


def bor(a, b):
    return band(a ^ 1, b ^ 1) ^ 1


def bxor(a, b):
    c = (a ^ b) & 1
    a &= -2
    b &= -2
    if a == b:
        return c
    if a > b:
        a, b = b, a
    if a == 0:
        return b ^ c
    k = (a, b)
    r = _xor.get(k)
    if r is None:
        na = a >> 1
        nb = b >> 1
        va = VAR[na]
        vb = VAR[nb]
        if va == vb:
            r = mk(va, bxor(LO[na], LO[nb]), bxor(HI[na], HI[nb]))
        elif va < vb:
            r = mk(va, bxor(LO[na], b), bxor(HI[na], b))
        else:
            r = mk(vb, bxor(a, LO[nb]), bxor(a, HI[nb]))
        _xor[k] = r
    return r ^ c


def bite(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    if a == 1:
        return bor(c, b)
    if a == 0:
        return band(c ^ 1, b)
    if b == 0:
        return band(c, a)
    if b == 1:
        return bor(c ^ 1, a)
    if a == b ^ 1:
        return bxor(c, b)
    if c & 1:
        c, a, b = c ^ 1, b, a
    inv = a & 1
    if inv:
        a ^= 1
        b ^= 1
    k = (c, a, b)
    r = _ite.get(k)
    if r is None:
        nc, na, nb = c >> 1, a >> 1, b >> 1
        v = min(VAR[nc], VAR[na], VAR[nb])
        if VAR[nc] == v:
            c0, c1 = LO[nc], HI[nc]
        else:
            c0 = c1 = c
        if VAR[na] == v:
            a0, a1 = LO[na], HI[na]
        else:
            a0 = a1 = a
        if VAR[nb] == v:
            b0, b1 = LO[nb] ^ (b & 1), HI[nb] ^ (b & 1)
        else:
            b0 = b1 = b
        r = mk(v, bite(c0, a0, b0), bite(c1, a1, b1))
        _ite[k] = r
    return r ^ inv


def restrict(f, c, _memo=None):
    """Coudert-Madre restrict: a smaller f' with f'&c == f&c (c must not be 0)."""
    if _memo is None:
        _memo = {}
    if c == 1 or f < 2:
        return f
    k = (f, c)
    r = _memo.get(k)
    if r is not None:
        return r
    nf, nc = f >> 1, c >> 1
    vf, vc = VAR[nf], VAR[nc]
    f0, f1 = LO[nf] ^ (f & 1), HI[nf] ^ (f & 1)
    c0, c1 = LO[nc] ^ (c & 1), HI[nc] ^ (c & 1)
    if vc < vf:
        r = restrict(f, bor(c0, c1), _memo)
    elif vc == vf:
        if c0 == 0:
            r = restrict(f1, c1, _memo)
        elif c1 == 0:
            r = restrict(f0, c0, _memo)
        else:
            r = mk(vf, restrict(f0, c0, _memo), restrict(f1, c1, _memo))
    else:
        r = mk(vf, restrict(f0, c, _memo), restrict(f1, c, _memo))
    _memo[k] = r
    return r


def sat_one(f):
    """One satisfying assignment {level: 0/1} of f, or None."""
    if f == 0:
        return None
    out = {}
    while f > 1:
        n = f >> 1
        c = f & 1
        lo, hi = LO[n] ^ c, HI[n] ^ c
        if lo != 0:
            out[VAR[n]] = 0
            f = lo
        else:
            out[VAR[n]] = 1
            f = hi
    return out


def support(f, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [f >> 1]
    while st:
        n = st.pop()
        if n == 0 or n in seen:
            continue
        seen.add(n)
        acc.add(VAR[n])
        st.append(LO[n] >> 1)
        st.append(HI[n] >> 1)
    return acc


def exists(f, vs, _memo=None):
    """Existential quantification of the levels in vs."""
    if _memo is None:
        _memo = {}
        if not vs:
            return f
    if f < 2:
        return f
    r = _memo.get(f)
    if r is not None:
        return r
    n = f >> 1
    c = f & 1
    lo = exists(LO[n] ^ c, vs, _memo)
    if VAR[n] in vs:
        r = 1 if lo == 1 else bor(lo, exists(HI[n] ^ c, vs, _memo))
    else:
        r = mk(VAR[n], lo, exists(HI[n] ^ c, vs, _memo))
    _memo[f] = r
    return r


def size(f):
    seen = set()
    st = [f >> 1]
    while st:
        n = st.pop()
        if n == 0 or n in seen:
            continue
        seen.add(n)
        st.append(LO[n] >> 1)
        st.append(HI[n] >> 1)
    return len(seen)


# ---------------------------------------------------------------- symbols
SYMS = {}       # name -> value tuple
SYMINFO = []    # index -> (name, width)
SHIFT = 24


def sym(name, w, pos=0):
    k = (name, w)
    v = SYMS.get(k)
    if v is None:
        i = len(SYMINFO)
        SYMINFO.append((name, w))
        v = tuple(mk(((b + pos) << SHIFT) + i, 0, 1) for b in range(w))
        SYMS[k] = v
    return v


_fresh = [0]


def fresh(name, w):
    _fresh[0] += 1
    return sym('%s#%d' % (name, _fresh[0]), w)


def explain(assign):
    """Turn a {level: bit} assignment into {symbol: value}."""
    out = {}
    for lv, b in (assign or {}).items():
        i = lv & ((1 << SHIFT) - 1)
        name, _ = SYMINFO[i]
        out[name] = out.get(name, 0) | (b << (lv >> SHIFT))
    return out


# ---------------------------------------------------------------- vectors
def bits(v, w):
    if type(v) is int:
        return tuple((v >> i) & 1 for i in range(w))
    return v


def norm(t):
    c = 0
    for i, b in enumerate(t):
        if b > 1:
            return tuple(t)
        c |= b << i
    return c


def const(v, w):
    return v & ((1 << w) - 1)


def vnot(a, w):
    if type(a) is int:
        return a ^ ((1 << w) - 1)
    return tuple(x ^ 1 for x in a)


def vand(a, b, w):
    if type(a) is int and type(b) is int:
        return a & b
    return norm([band(x, y) for x, y in zip(bits(a, w), bits(b, w))])


def vor(a, b, w):
    if type(a) is int and type(b) is int:
        return a | b
    return norm([bor(x, y) for x, y in zip(bits(a, w), bits(b, w))])


def vxor(a, b, w):
    if type(a) is int and type(b) is int:
        return a ^ b
    return norm([bxor(x, y) for x, y in zip(bits(a, w), bits(b, w))])


def addc(a, b, cin, w):
    """(sum, carry-out bit)"""
    if type(a) is int and type(b) is int and cin < 2:
        r = a + b + cin
        return r & ((1 << w) - 1), (r >> w) & 1
    out = []
    c = cin
    for x, y in zip(bits(a, w), bits(b, w)):
        t = bxor(x, y)
        out.append(bxor(t, c))
        c = bor(band(x, y), band(t, c)) if t > 1 or c > 1 else ((x & y) | (t & c) if x < 2 and y < 2 else bor(band(x, y), band(t, c)))
    return norm(out), c


def vadd(a, b, w):
    if type(a) is int and type(b) is int:
        return (a + b) & ((1 << w) - 1)
    if b == 0:
        return a
    if a == 0:
        return b
    return addc(a, b, 0, w)[0]


def vsub(a, b, w):
    if type(a) is int and type(b) is int:
        return (a - b) & ((1 << w) - 1)
    if b == 0:
        return a
    return addc(a, vnot(b, w), 1, w)[0]


def vneg(a, w):
    return vsub(0, a, w)


_opq = {}


def opaque(key, w, pos=0):
    """A deterministic uninterpreted result for `key` (pos: order hint)."""
    k = (key, w)
    v = _opq.get(k)
    if v is None:
        v = sym('op%d:%s' % (len(_opq), key[0] if isinstance(key, tuple) else key), w, pos)
        _opq[k] = v
    return v


def vmul(a, b, w):
    if type(a) is int and type(b) is int:
        return (a * b) & ((1 << w) - 1)
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        # canonical signed-digit recoding keeps few adders
        r = 0
        i = 0
        neg = 0
        k = b
        if b >> (w - 1):
            k = (1 << w) - b
            neg = 1
        while k:
            if k & 1:
                d = 2 - (k & 3)
                s = vshl_const(a, i, w)
                r = vadd(r, s, w) if d == 1 else vsub(r, s, w)
                k -= d
            k >>= 1
            i += 1
        return vneg(r, w) if neg else r
    if EXACT and few(a, b):
        r = 0
        for i in range(w):
            if b[i]:
                r = vadd(r, vite(b[i], vshl_const(a, i, w), 0, w), w)
        return r
    out = []
    for i in range(w):
        x, y = a[:i + 1], b[:i + 1]
        if y < x:
            x, y = y, x
        out.append(opaque(('mul', i, x, y), 1)[0])
    return norm(out)


def vshl_const(a, n, w):
    if n >= w:
        return 0
    if type(a) is int:
        return (a << n) & ((1 << w) - 1)
    return norm((0,) * n + a[:w - n])


def vlshr_const(a, n, w):
    if n >= w:
        return 0
    if type(a) is int:
        return a >> n
    return norm(a[n:] + (0,) * n)


def vashr_const(a, n, w):
    if n >= w:
        n = w - 1
    t = bits(a, w)
    return norm(t[n:] + (t[-1],) * n)


def vshift(a, s, w, kind):
    f = {'shl': vshl_const, 'lshr': vlshr_const, 'ashr': vashr_const}[kind]
    if type(s) is int:
        return f(a, s, w)
    r = a
    big = 0
    for i, b in enumerate(s):
        if b == 0:
            continue
        if (1 << i) >= w:
            big = bor(big, b)
            continue
        r = vite(b, f(r, 1 << i, w), r, w)
    if big:
        r = vite(big, f(r, w, w), r, w)
    return r


def vite(c, a, b, w):
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    return norm([bite(c, x, y) for x, y in zip(bits(a, w), bits(b, w))])


def veq(a, b, w):
    if type(a) is int and type(b) is int:
        return int(a == b)
    r = 1
    for x, y in zip(bits(a, w), bits(b, w)):
        r = band(r, bxor(x, y) ^ 1)
        if r == 0:
            return 0
    return r


def vult(a, b, w):
    if type(a) is int and type(b) is int:
        return int(a < b)
    r = 0
    for x, y in zip(bits(a, w), bits(b, w)):
        r = bite(bxor(x, y), y, r)
    return r


def flip(a, w):
    return vxor(a, 1 << (w - 1), w)


def vslt(a, b, w):
    return vult(flip(a, w), flip(b, w), w)


def vzext(a, w, nw):
    if type(a) is int:
        return a
    return a + (0,) * (nw - w)


def vsext(a, w, nw):
    if type(a) is int:
        return a | (((1 << nw) - (1 << w)) if a >> (w - 1) else 0)
    return a + (a[-1],) * (nw - w)


def vtrunc(a, nw):
    if type(a) is int:
        return a & ((1 << nw) - 1)
    return norm(a[:nw])


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def _strip0(a, w):
    t = list(bits(a, w))
    while t and t[-1] == 0:
        t.pop()
    return tuple(t)


def _strips(a, w):
    t = list(bits(a, w))
    while len(t) > 1 and t[-1] == t[-2]:
        t.pop()
    return tuple(t)


EXACT = 0       # products and quotients over at most this many variables are spelled out


def few(*vs):
    sup = set()
    for v in vs:
        if type(v) is tuple:
            for b in v:
                support(b, sup)
    return len(sup) <= EXACT


def _exactdiv(op, a, b, w):
    """Restoring division; the quotient by zero is some number."""
    sa = sb = 0
    if op[0] == 's':
        sa, sb = bits(a, w)[-1], bits(b, w)[-1]
        a = vite(sa, vneg(a, w), a, w)
        b = vite(sb, vneg(b, w), b, w)
    r, q = 0, []
    bz = vzext(b, w, w + 1)
    for x in reversed(bits(a, w)):
        r = norm((x,) + bits(r, w + 1)[:w])
        g = vult(r, bz, w + 1) ^ 1
        q.append(g)
        r = vite(g, vsub(r, bz, w + 1), r, w + 1)
    v, s = (norm(tuple(reversed(q))), bxor(sa, sb)) if op[1:] == 'div' else (vtrunc(r, w), sa)
    return vite(s, vneg(v, w), v, w)


def vdivrem(op, a, b, w):
    ca, cb = type(a) is int, type(b) is int
    m = (1 << w) - 1
    if cb and b == 0:
        return fresh('div0', w)
    if ca and cb:
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == 'sdiv' else x - q * y) & m
    if op[0] == 'u' and cb and b & (b - 1) == 0:
        k = b.bit_length() - 1
        return vlshr_const(a, k, w) if op == 'udiv' else vand(a, b - 1, w)
    if EXACT and few(a, b):
        return _exactdiv(op, a, b, w)
    if op[0] == 's':
        # identical to unsigned when both are known non-negative
        if bits(a, w)[-1] == 0 and bits(b, w)[-1] == 0:
            return vdivrem('u' + op[1:], a, b, w)
        if cb and b & (b - 1) == 0 and b >> (w - 1) == 0:
            # truncating division by 2**k
            k = b.bit_length() - 1
            bias = vite(bits(a, w)[-1], b - 1, 0, w)
            q = vashr_const(vadd(a, bias, w), k, w)
            return q if op == 'sdiv' else vsub(a, vshl_const(q, k, w), w)
        x, y = _strips(a, w), _strips(b, w)
        rw = len(x) + 1 if op == 'sdiv' else max(1, min(len(x), len(y)))
        rw = min(rw, w)
        return vsext(opaque((op, x, y), rw), rw, w)
    x, y = _strip0(a, w), _strip0(b, w)
    rw = len(x) if op == 'udiv' else min(len(x), len(y))
    if rw == 0:
        return 0
    return norm(opaque((op, x, y), rw) + (0,) * (w - rw))


def values(v, w, guard, limit):
    """All concrete values v can take under guard (list), or None if > limit."""
    if type(v) is int:
        return [v] if guard != 0 else []
    out = []

    def rec(i, g, acc):
        if g == 0:
            return True
        if i < 0:
            out.append(acc)
            return len(out) <= limit
        b = v[i]
        if not rec(i - 1, band(g, b ^ 1), acc):
            return False
        return rec(i - 1, band(g, b), acc | (1 << i))
    if not rec(w - 1, guard, 0):
        return None
    return out


def show(v, w=16):
    if type(v) is int:
        return '0x%X' % v
    sup = set()
    for b in v:
        if b > 1:
            support(b, sup)
    names = sorted({SYMINFO[l & ((1 << SHIFT) - 1)][0] for l in sup})
    return 'f(%s)' % ','.join(names[:6] + (['...'] if len(names) > 6 else []))
