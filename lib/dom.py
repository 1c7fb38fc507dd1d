"""Abstract values: known-bits x linear (Herbrand/affine mod 2^w) x circular
intervals.  A w-bit integer is a python int when constant, otherwise a BV: one
abstract bit per position, each 0, 1, or bit i of an interned atom.  Atoms are
inputs (Sym), affine sums (Lin), or uninterpreted terms (Op)."""
from ir import AnalysisError

_intern = {}


class Atom:
    __slots__ = ('kind', 'w', 'key', 'name', 'c', 'terms', 'args', '_h')

    def __repr__(s):
        if s.kind == 'sym':
            return s.name
        if s.kind == 'lin':
            r = []
            for t, k in s.terms:
                k = k if k < 1 << (s.w - 1) else k - (1 << s.w)
                r.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + show_bits(t))
            c = s.c if s.c < 1 << (s.w - 1) else s.c - (1 << s.w)
            if c or not r:
                r.append('%+d' % c)
            return '(' + '+'.join(r).replace('+-', '-').replace('++', '+') + ')'
        return '%s(%s)' % (s.name, ','.join(show(a) for a in s.args))


def _mk(kind, w, key, **kw):
    k = (kind, w, key)
    a = _intern.get(k)
    if a is None:
        a = Atom()
        a.kind, a.w, a.key = kind, w, key
        a.name = kw.get('name')
        a.c = kw.get('c')
        a.terms = kw.get('terms')
        a.args = kw.get('args')
        a._h = len(_intern)
        _intern[k] = a
    return a


class BV:
    __slots__ = ('w', 'bits', '_h')

    def __init__(s, bits):
        s.bits = bits
        s.w = len(bits)
        s._h = None

    def __eq__(s, o):
        return isinstance(o, BV) and s.bits == o.bits

    def __hash__(s):
        if s._h is None:
            s._h = hash(s.bits)
        return s._h

    def __repr__(s):
        return show_bits(s.bits)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(s, obj, off=0):
        s.obj, s.off = obj, off

    def __eq__(s, o):
        return isinstance(o, Ptr) and s.obj == o.obj and s.off == o.off

    def __hash__(s):
        return hash((s.obj, s.off))

    def __repr__(s):
        return '&%s%s' % (s.obj, '+%r' % (s.off,) if s.off else '')


class Fn:
    __slots__ = ('name',)

    def __init__(s, name):
        s.name = name

    def __eq__(s, o):
        return isinstance(o, Fn) and s.name == o.name

    def __hash__(s):
        return hash(('fn', s.name))

    def __repr__(s):
        return '&%s()' % s.name


class Tok:
    """opaque token stored in memory (jump buffers, FILE handles...)"""
    __slots__ = ('v',)

    def __init__(s, v):
        s.v = v

    def __eq__(s, o):
        return isinstance(o, Tok) and s.v == o.v

    def __hash__(s):
        return hash(('tok', s.v))

    def __repr__(s):
        return '<%s>' % (s.v,)


def show_bits(bits):
    out, i, n = [], 0, len(bits)
    while i < n:
        b = bits[i]
        j = i + 1
        if b == 0 or b == 1:
            v = b
            while j < n and (bits[j] == 0 or bits[j] == 1):
                v |= bits[j] << (j - i)
                j += 1
            out.append('%#x:%d' % (v, j - i))
        else:
            while j < n and isinstance(bits[j], tuple) and bits[j][0] is b[0] and bits[j][1] == b[1] + (j - i):
                j += 1
            if b[1] == 0 and j - i == b[0].w:
                out.append(repr(b[0]))
            elif j - i == 1:
                out.append('%r[%d]' % (b[0], b[1]))
            else:
                out.append('%r[%d..%d]' % (b[0], b[1], b[1] + j - i - 1))
        i = j
    return out[0] if len(out) == 1 else '{' + ','.join(reversed(out)) + '}'


def show(v):
    if isinstance(v, int):
        return '%#x' % v if v > 9 else str(v)
    return repr(v)


def Sym(name, w):
    a = _mk('sym', w, name, name=name)
    return BV(tuple((a, i) for i in range(w)))


def Op(name, w, args):
    a = _mk('op', w, (name, args), name=name, args=args)
    return BV(tuple((a, i) for i in range(w)))


def mask(w):
    return (1 << w) - 1


def full_atom(bits):
    b = bits[0]
    if not isinstance(b, tuple):
        return None
    a = b[0]
    if a.w != len(bits):
        return None
    for i, x in enumerate(bits):
        if not isinstance(x, tuple) or x[0] is not a or x[1] != i:
            return None
    return a


def mk(bits):
    """bits tuple -> int or normalised BV"""
    for b in bits:
        if b != 0 and b != 1:
            break
    else:
        v = 0
        for i, b in enumerate(bits):
            if b:
                v |= 1 << i
        return v
    # shrink affine atoms to the highest bit used
    top = None
    for b in bits:
        if isinstance(b, tuple) and b[0].kind == 'lin':
            if top is None:
                top = {}
            if b[1] >= top.get(b[0], -1):
                top[b[0]] = b[1]
    if top:
        sub = {}
        for a, m in top.items():
            if m + 1 < a.w:
                sub[a] = tobits(shrink(a, m + 1), m + 1)
        if sub:
            return mk(tuple(sub[b[0]][b[1]] if isinstance(b, tuple) and b[0] in sub else b for b in bits))
    return BV(tuple(bits))


def tobits(v, w):
    if isinstance(v, int):
        return tuple((v >> i) & 1 for i in range(w))
    if isinstance(v, BV):
        return v.bits
    raise AnalysisError('bits of %r' % (v,))


_shr = {}


def shrink(a, k):
    r = _shr.get((a, k))
    if r is None:
        r = make_lin(k, a.c, [(t[:k], c) for t, c in a.terms])
        _shr[(a, k)] = r
    return r


def v2(n):
    return (n & -n).bit_length() - 1


def lin_of(v, w):
    if isinstance(v, int):
        return v & mask(w), []
    bits = v.bits
    a = full_atom(bits)
    if a is not None:
        if a.kind == 'lin':
            return a.c, list(a.terms)
        return 0, [(bits, 1)]
    c = 0
    nb = []
    for i, b in enumerate(bits):
        if b == 1:
            c |= 1 << i
            nb.append(0)
        else:
            nb.append(b)
    k = 0
    while nb[k] == 0:
        k += 1
    t = tuple(nb[k:])
    a = full_atom(t)
    if a is not None and a.kind == 'lin':
        return (c + (a.c << k)) & mask(w), [(x, y << k) for x, y in a.terms]
    return c, [(t, 1 << k)]


def make_lin(w, c, terms):
    m = mask(w)
    acc = []
    for t, k in terms:
        k &= m
        if not k:
            continue
        # nested affine atoms
        n = min(len(t), w - v2(k))
        t = t[:n]
        val = mk(t)
        if isinstance(val, int):
            c += val * k
            continue
        t = val.bits
        a = full_atom(t)
        if a is not None and a.kind == 'lin':
            c += a.c * k
            for t2, k2 in a.terms:
                _acc(acc, t2, k2 * k, w)
            continue
        ones = sum(1 << i for i, b in enumerate(t) if b == 1)
        if ones:
            c += ones * k
            t = tuple(0 if b == 1 else b for b in t)
        z = 0
        while t[z] == 0:
            z += 1
        if z:
            t = t[z:]
            k <<= z
        _acc(acc, t, k, w)
    c &= m
    ts = []
    for t, k in acc:
        k &= m
        if not k:
            continue
        n = w - v2(k)
        t = t[:n]
        if all(b == 0 for b in t):
            continue
        if len(t) < n:
            raise AnalysisError('affine term too short')
        ts.append((t, k))
    if not ts:
        return c
    # disjoint bit positions: plain concatenation
    used = c
    ok = True
    for t, k in ts:
        if k & (k - 1):
            ok = False
            break
        s = v2(k)
        pm = sum(1 << i for i, b in enumerate(t) if b != 0) << s
        if pm & used:
            ok = False
            break
        used |= pm
    if ok:
        bits = [(c >> i) & 1 for i in range(w)]
        for t, k in ts:
            s = v2(k)
            for i, b in enumerate(t):
                if b != 0:
                    bits[s + i] = b
        return mk(tuple(bits))
    ts.sort(key=lambda x: (_bk(x[0]), x[1]))
    ts = tuple(ts)
    a = _mk('lin', w, (c, ts), c=c, terms=ts)
    return BV(tuple((a, i) for i in range(w)))


def _bk(bits):
    return tuple((b[0]._h, b[1]) if isinstance(b, tuple) else (-1, b) for b in bits)


def _acc(acc, t, k, w):
    k &= mask(w)
    if not k:
        return
    for i, (t2, k2) in enumerate(acc):
        n = min(len(t), len(t2))
        if t[:n] == t2[:n]:
            # same low bits; combine when the wider one is available
            s = (k + k2) & mask(w)
            need = w - v2(s) if s else 0
            big = t if len(t) >= len(t2) else t2
            if need <= len(big) and (len(t) == len(t2) or True):
                if len(t) != len(t2):
                    # t*k with len n means only low bits matter for k; big has all bits
                    pass
                acc[i] = (big, s)
                return
    acc.append((t, k))


# ---------------------------------------------------------------- operations
def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def add(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    ca, ta = lin_of(a, w)
    cb, tb = lin_of(b, w)
    return make_lin(w, ca + cb, ta + tb)


def neg(w, a):
    if isinstance(a, int):
        return -a & mask(w)
    c, t = lin_of(a, w)
    return make_lin(w, -c, [(x, -k) for x, k in t])


def sub(w, a, b):
    return add(w, a, neg(w, b))


def mul(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b & mask(w)
    if isinstance(b, int):
        a, b = b, a
    if isinstance(a, int):
        c, t = lin_of(b, w)
        return make_lin(w, c * a, [(x, k * a) for x, k in t])
    return Op('mul', w, tuple(sorted((a, b), key=lambda v: _bk(v.bits))))


def bnot(b):
    if b == 0:
        return 1
    if b == 1:
        return 0
    if b[0].kind == 'op' and b[0].name == '!':
        return b[0].args[0]
    return (_mk('op', 1, ('!', (b,)), name='!', args=(b,)), 0)


def _bop(n, a, b):
    x = (a, b) if (a[0]._h, a[1]) <= (b[0]._h, b[1]) else (b, a)
    return (_mk('op', 1, (n, x), name=n, args=x), 0)


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    return _bop('&', a, b)


def bor(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0 or a == b:
        return a
    return _bop('|', a, b)


def bxor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return 0
    if a == 1:
        return bnot(b)
    if b == 1:
        return bnot(a)
    return _bop('^', a, b)


def bitop(op, w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b if op == 'and' else a | b if op == 'or' else a ^ b
    if op == 'xor':
        if isinstance(a, int) and a == mask(w):
            return sub(w, mask(w), b)
        if isinstance(b, int) and b == mask(w):
            return sub(w, mask(w), a)
    f = {'and': band, 'or': bor, 'xor': bxor}[op]
    return mk(tuple(f(x, y) for x, y in zip(tobits(a, w), tobits(b, w))))


def shl(w, a, b):
    if isinstance(b, int):
        if b >= w:
            return Op('shlbig', w, (a, b))
        if isinstance(a, int):
            return a << b & mask(w)
        if b == 0:
            return a
        return mk((0,) * b + a.bits[:w - b])
    return Op('shl', w, (a, b))


def lshr(w, a, b):
    if isinstance(b, int):
        if b >= w:
            return Op('lshrbig', w, (a, b))
        if isinstance(a, int):
            return a >> b
        if b == 0:
            return a
        return mk(a.bits[b:] + (0,) * b)
    return Op('lshr', w, (a, b))


def ashr(w, a, b):
    if isinstance(b, int):
        if b >= w:
            return Op('ashrbig', w, (a, b))
        if isinstance(a, int):
            return sgn(a, w) >> b & mask(w)
        if b == 0:
            return a
        return mk(a.bits[b:] + (a.bits[-1],) * b)
    return Op('ashr', w, (a, b))


def div(op, w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            return Op(op + '0', w, (a,))
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == 'sdiv' else x - q * y) & mask(w)
    if isinstance(b, int) and b and not b & (b - 1):
        k = v2(b)
        if op == 'udiv':
            return lshr(w, a, k) if k else a
        if op == 'urem':
            return mk(a.bits[:k] + (0,) * (w - k)) if k else 0
        if op == 'srem' and a.bits[-1] == 0:
            return mk(a.bits[:k] + (0,) * (w - k)) if k else 0
        if op == 'sdiv' and a.bits[-1] == 0:
            return lshr(w, a, k) if k else a
    return Op(op, w, (a, b))


def trunc(v, w):
    if isinstance(v, int):
        return v & mask(w)
    return mk(v.bits[:w])


def zext(v, w0, w):
    if isinstance(v, int):
        return v
    return mk(v.bits + (0,) * (w - w0))


def sext(v, w0, w):
    if isinstance(v, int):
        return sgn(v, w0) & mask(w)
    return mk(v.bits + (v.bits[-1],) * (w - w0))


def byte(v, i):
    """byte i (little end) of v"""
    if isinstance(v, int):
        return v >> (8 * i) & 255
    return mk(v.bits[8 * i:8 * i + 8])


def concat(parts):
    """list of (value,width), low first"""
    bits = ()
    for v, w in parts:
        bits += tobits(v, w)
    return mk(bits)


# ---------------------------------------------------------------- evaluation on a finite support
class NoTab(Exception):
    pass


def support(v, acc=None):
    """set of input bits (atom,i) the value depends on"""
    if acc is None:
        acc = set()
    if isinstance(v, int):
        return acc
    seen = set()
    stack = list(v.bits)
    while stack:
        b = stack.pop()
        if not isinstance(b, tuple) or b in seen:
            continue
        seen.add(b)
        a = b[0]
        if a.kind == 'sym':
            acc.add(b)
        elif a.kind == 'lin':
            for t, k in a.terms:
                stack.extend(t[:b[1] + 1])
        else:
            if a.name in '!&|^':
                stack.extend(a.args)
            elif a.name in EVAL:
                for x in a.args:
                    if isinstance(x, BV):
                        stack.extend(x.bits)
                    elif not isinstance(x, (int, tuple)):
                        acc.add(b)
            else:
                acc.add(b)
    return acc


EVAL = {
    'mul': lambda w, a, b: a * b & mask(w),
    'tbl': lambda w, c, i: c[i] if i < len(c) else None,
    'sdiv': lambda w, a, b: div('sdiv', w, a, b),
    'udiv': lambda w, a, b: div('udiv', w, a, b),
    'srem': lambda w, a, b: div('srem', w, a, b),
    'urem': lambda w, a, b: div('urem', w, a, b),
    'shl': lambda w, a, b: a << b & mask(w) if b < w else None,
    'lshr': lambda w, a, b: a >> b if b < w else None,
    'ashr': lambda w, a, b: sgn(a, w) >> b & mask(w) if b < w else None,
    'ite': lambda w, c, a, b: a if c else b,
}


def ev(v, env, memo):
    """concrete value under an assignment of input bits"""
    if isinstance(v, int):
        return v
    r = 0
    for i, b in enumerate(v.bits):
        if evbit(b, env, memo):
            r |= 1 << i
    return r


def evbit(b, env, memo):
    if b == 0 or b == 1:
        return b
    if b in env:
        return env[b]
    a = b[0]
    if a.kind == 'sym':
        raise NoTab()
    x = memo.get(a)
    if x is None:
        if a.kind == 'lin':
            x = a.c
            for t, k in a.terms:
                tv = 0
                for i, y in enumerate(t):
                    if evbit(y, env, memo):
                        tv |= 1 << i
                x += tv * k
            x &= mask(a.w)
        elif a.name == '!':
            x = 1 - evbit(a.args[0], env, memo)
        elif a.name in '&|^':
            p, q = evbit(a.args[0], env, memo), evbit(a.args[1], env, memo)
            x = p & q if a.name == '&' else p | q if a.name == '|' else p ^ q
        elif a.name in EVAL:
            x = EVAL[a.name](a.w, *[ev(y, env, memo) if isinstance(y, BV) else y for y in a.args])
            if not isinstance(x, int):
                raise NoTab()
        else:
            raise NoTab()
        memo[a] = x
    return x >> b[1] & 1


# ---------------------------------------------------------------- facts
def rnorm(rs, w):
    """list of (lo,hi) inclusive unsigned ranges -> sorted disjoint"""
    out = []
    for lo, hi in sorted(rs):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def rint(a, b):
    out = []
    for l1, h1 in a:
        for l2, h2 in b:
            lo, hi = max(l1, l2), min(h1, h2)
            if lo <= hi:
                out.append((lo, hi))
    return tuple(sorted(out))


def rcirc(lo, hi, w):
    """signed/any lo..hi (python ints, lo<=hi) -> unsigned ranges mod 2^w"""
    M = 1 << w
    if hi - lo + 1 >= M:
        return ((0, M - 1),)
    lo %= M
    hi %= M
    if lo <= hi:
        return ((lo, hi),)
    return ((0, hi), (lo, M - 1))


def rcompl(rs, w):
    out = []
    p = 0
    for lo, hi in rs:
        if lo > p:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= mask(w):
        out.append((p, mask(w)))
    return tuple(out)


def rshift(rs, c, w):
    out = []
    for lo, hi in rs:
        out.extend(rcirc(lo + c, hi + c, w))
    return rnorm(out, w)


def rneg(rs, w):
    out = []
    for lo, hi in rs:
        out.extend(rcirc(-hi, -lo, w))
    return rnorm(out, w)


def linkey(v):
    """v = sign*base + c  -> (basekey, c, negated); base canonical without constant"""
    w = v.w
    c, t = lin_of(v, w)
    t2 = tuple(sorted(((x, k & mask(w)) for x, k in t), key=lambda y: (_bk(y[0]), y[1])))
    # canonical sign
    nt = tuple(sorted(((x, -k & mask(w)) for x, k in t2), key=lambda y: (_bk(y[0]), y[1])))
    a, b = [tuple(k for _, k in q) for q in (t2, nt)]
    if b < a:
        return (w, nt), c, True
    return (w, t2), c, False


_tk = {}


def trunckey(k, n):
    """(key, constant, negated) of the low n bits of the linear form with key k"""
    r = _tk.get((k, n))
    if r is None:
        v = trunc(make_lin(k[0], 0, k[1]), n)
        r = (None, 0, False) if isinstance(v, int) else linkey(v)
        _tk[(k, n)] = r
    return r


def lift(rs, low, w, n):
    """elements of rs (w bits) whose low n bits lie in low; intervals wider than 2^n are kept"""
    out = []
    m = 1 << n
    for l, h in rs:
        if h - l >= 4 * m:
            out.append((l, h))
            continue
        base = l - l % m
        while base <= h:
            for a, b in low:
                x, y = max(l, base + a), min(h, base + b)
                if x <= y:
                    out.append((x, y))
            base += m
    return rnorm(out, w)


def proj(rs, w, n):
    out = []
    for l, h in rs:
        if h - l >= (1 << n) - 1:
            return ((0, mask(n)),)
        out.extend(rcirc(l, h, n))
    return rnorm(out, n)


def _up(l, M, K, w):
    """smallest x >= l with x & M == K, or None"""
    d = (l ^ K) & M
    if not d:
        return l
    i = d.bit_length() - 1
    if K >> i & 1:
        lowm = mask(i + 1)
        return (l & ~lowm) | (K & lowm)
    for j in range(i + 1, w):
        if not (M >> j & 1) and not (l >> j & 1):
            lowm = mask(j)
            return (l & ~mask(j + 1)) | (1 << j) | (K & lowm)
    return None


def _down(h, M, K, w):
    full = mask(w)
    r = _up(h ^ full, M, (K ^ full) & M, w)
    return None if r is None else r ^ full


def rbits(rs, M, K, w):
    out = []
    for l, h in rs:
        a, b = _up(l, M, K, w), _down(h, M, K, w)
        if a is not None and b is not None and a <= b:
            out.append((a, b))
    return tuple(out)


REL = {'lt': frozenset('<'), 'le': frozenset('<='), 'gt': frozenset('>'), 'ge': frozenset('>=')}
SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
ALLREL = frozenset('<=>')


OFF = 1 << 100


def tabvals(v):
    """all values of a term made of the entries of one constant table, whatever the index; or None"""
    if isinstance(v, int):
        return {v}
    ts = {b[0] for b in v.bits if isinstance(b, tuple)}
    if len(ts) != 1:
        return None
    t = ts.pop()
    if t.kind != 'op' or t.name != 'tbl' or len(t.args[0]) > 256:
        return None
    tab, idx = t.args
    top = max([i + 1 for i, b in enumerate(idx.bits) if b != 0], default=0)
    out = set()
    for x in tab[:1 << min(top, 9)]:
        r = 0
        for i, b in enumerate(v.bits):
            r |= (x >> b[1] & 1 if isinstance(b, tuple) else b) << i
        out.add(r)
    return out


class Facts:
    """conjunction of abstract constraints of one path"""
    __slots__ = ('kb', 'iv', 'ne', 'misc')

    def __init__(s):
        s.kb, s.iv, s.ne, s.misc = {}, {}, frozenset(), {}

    def copy(s):
        f = Facts()
        f.kb, f.iv, f.ne, f.misc = dict(s.kb), dict(s.iv), s.ne, dict(s.misc)
        return f

    def key(s):
        return (frozenset(s.kb.items()), frozenset(s.iv.items()), s.ne, frozenset(s.misc.items()))

    # -- substitution of known bits
    def subst(s, v):
        if not s.kb or isinstance(v, int) or not isinstance(v, BV):
            return v
        ch = False
        out = []
        memo = {}
        for b in v.bits:
            nb = s._sb(b, memo)
            if nb is not b and nb != b:
                ch = True
            out.append(nb)
        return mk(tuple(out)) if ch else v

    def _sb(s, b, memo):
        if not isinstance(b, tuple):
            return b
        if b in s.kb:
            return s.kb[b]
        a = b[0]
        if a.kind == 'sym':
            return b
        r = memo.get(a)
        if r is None:
            if a.kind == 'lin':
                nt = [(tuple(s._sb(x, memo) for x in t), k) for t, k in a.terms]
                if all(x == y[0] for (x, _), y in zip(nt, a.terms)):
                    r = tuple((a, i) for i in range(a.w))
                else:
                    r = tobits(make_lin(a.w, a.c, nt), a.w)
            elif a.name == '!':
                r = (bnot(s._sb(a.args[0], memo)),)
            elif a.name in ('&', '|', '^'):
                f = {'&': band, '|': bor, '^': bxor}[a.name]
                r = (f(s._sb(a.args[0], memo), s._sb(a.args[1], memo)),)
            else:
                r = tuple((a, i) for i in range(a.w))
                na = tuple(s.subst(x) if isinstance(x, BV) else x for x in a.args)
                if na != a.args:
                    if a.name == 'ite' and isinstance(na[0], int):
                        r = tobits(na[1] if na[0] else na[2], a.w)
                    elif a.name in EVAL and all(isinstance(x, (int, tuple)) for x in na):
                        x = EVAL[a.name](a.w, *na)
                        r = tobits(x, a.w) if isinstance(x, int) else r
                    else:
                        r = Op(a.name, a.w, na).bits
            memo[a] = r
        return r[b[1]]

    # -- ranges
    def ranges(s, v, w):
        """unsigned range set of v"""
        if isinstance(v, int):
            return ((v, v),)
        v = s.subst(v)
        if isinstance(v, int):
            return ((v, v),)
        lo = hi = 0
        for i, b in enumerate(v.bits):
            if b == 1:
                lo |= 1 << i
                hi |= 1 << i
            elif b != 0:
                hi |= 1 << i
        rs = ((lo, hi),)
        k, c, n = linkey(v)
        f = s.iv.get(k)
        if f:
            if n:
                f = rneg(f, w)
            rs = rint(rs, rshift(f, c, w))
            M = K = 0
            for i, b in enumerate(v.bits):
                if not isinstance(b, tuple):
                    M |= 1 << i
                    K |= b << i
            if M:
                rs = rbits(rs, M, K, w)
        # zero/sign extension of a narrower value
        n = w
        while n > 1 and v.bits[n - 1] == 0:
            n -= 1
        if n < w:
            lowv = mk(v.bits[:n])
            if not isinstance(lowv, int):
                rs = rint(rs, s.ranges(lowv, n))
        else:
            top = v.bits[-1]
            n = w
            while n > 1 and v.bits[n - 2] == top:
                n -= 1
            if n < w and n > 1:
                lowv = mk(v.bits[:n])
                if not isinstance(lowv, int):
                    r2 = []
                    for l, h in s.ranges(lowv, n):
                        half = 1 << (n - 1)
                        if l < half:
                            r2.append((l, min(h, half - 1)))
                        if h >= half:
                            l2, h2 = max(l, half), h
                            r2.extend(rcirc(l2 - (1 << n), h2 - (1 << n), w))
                    rs = rint(rs, rnorm(r2, w))
        # linear over a zero-extended term with known narrow range (single term)
        c, t = lin_of(v, w)
        if len(t) == 1 and t[0][1] in (1, mask(w)) and (c or t[0][1] != 1):
            base = mk(t[0][0])
            if not isinstance(base, int) and base.w == w and base != v:
                r = s.ranges(base, w)
                if t[0][1] != 1:
                    r = rneg(r, w)
                rs = rint(rs, rshift(r, c, w))
        elif 1 < len(t) <= 24:
            lo = hi = sgn(c, w)
            for bits, k in t:
                base = mk(bits)
                if isinstance(base, int):
                    l = h = base
                elif base != v:
                    r = s.ranges(base, len(bits))
                    if not r:
                        return r
                    l, h = r[0][0], r[-1][1]
                else:
                    l, h = 0, mask(w)
                k = sgn(k, w)
                lo, hi = (lo + k * l, hi + k * h) if k > 0 else (lo + k * h, hi + k * l)
                if hi - lo >= 1 << w:
                    break
            else:
                rs = rint(rs, rcirc(lo, hi, w))
        return rs

    def signed(s, v, w):
        """(min,max) signed"""
        r = self_signed(s.ranges(v, w), w)
        return r

    # -- predicates
    def _pairs(s, a, b, w):
        out = []
        for x, y in zip(tobits(a, w), tobits(b, w)):
            if x == y:
                continue
            if not isinstance(x, tuple) and not isinstance(y, tuple):
                return None
            if not isinstance(x, tuple) or (isinstance(y, tuple) and (y[0]._h, y[1]) < (x[0]._h, x[1])):
                x, y = y, x
            out.append((x, y))
        return frozenset(out)

    def _eq_ranges(s, a, b, w):
        """if a==b is an interval constraint on one value: (value, ranges)"""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                continue
            if isinstance(y, int):
                # x has k low zero bits, rest are bits of one atom in place
                k = 0
                while k < w and x.bits[k] == 0:
                    k += 1
                if k and k < w and y & mask(k) == 0:
                    at = x.bits[k][0] if isinstance(x.bits[k], tuple) else None
                    if at is not None and at.w >= w and all(
                            isinstance(q, tuple) and q[0] is at and q[1] == i for i, q in enumerate(x.bits) if i >= k):
                        base = mk(tuple((at, i) for i in range(w)))
                        if not isinstance(base, int):
                            return base, ((y, y | mask(k)),)
                    # zero-extended tail: bits above are zero
                if k == 0:
                    return x, ((y, y),)
                continue
            # x == sext(trunc_k x)
            top = y.bits[-1]
            k = w
            while k > 1 and y.bits[k - 2] == top:
                k -= 1
            if 1 < k < w:
                if y.bits[:k] == x.bits[:k]:
                    pass
                # affine atoms are shrunk in y; compare through trunc
                if trunc(x, k) == mk(y.bits[:k]):
                    return x, rcirc(-(1 << (k - 1)), (1 << (k - 1)) - 1, w)
        return None

    def decide(s, pred, w, a, b):
        r = s.decide1(pred, w, a, b)
        if r is None and isinstance(b, int):
            t = tabvals(a) if isinstance(a, BV) else None
            if t:
                n = {cmpc(pred, w, x, b) for x in t}
                if len(n) == 1:
                    return n.pop()
        return r

    def decide1(s, pred, w, a, b):
        a, b = s.subst(a), s.subst(b)
        if isinstance(a, int) and isinstance(b, int):
            return cmpc(pred, w, a, b)
        if pred in ('eq', 'ne'):
            r = s._deceq(a, b, w)
            if r is None and s.misc and ('=' not in s._order('s', w, a, b) or '=' not in s._order('u', w, a, b)):
                r = False
            return r if r is None or pred == 'eq' else not r
        if a == b:
            return pred in ('ule', 'uge', 'sle', 'sge')
        if pred[0] == 'u':
            ra, rb = s.ranges(a, w), s.ranges(b, w)
            if not ra or not rb:
                return None
            al, ah, bl, bh = ra[0][0], ra[-1][1], rb[0][0], rb[-1][1]
        else:
            sa, sb = self_signed(s.ranges(a, w), w), self_signed(s.ranges(b, w), w)
            if sa is None or sb is None:
                return None
            (al, ah), (bl, bh) = sa, sb
        p = pred[1:]
        if p == 'lt':
            r = True if ah < bl else False if al >= bh else None
        elif p == 'le':
            r = True if ah <= bl else False if al > bh else None
        elif p == 'gt':
            r = True if al > bh else False if ah <= bl else None
        else:
            r = True if al >= bh else False if ah < bl else None
        if r is not None:
            return r
        na, nb = s.norm(a, w), s.norm(b, w)
        if na != a or nb != b:
            a, b = na, nb
            f = s.ranges if pred[0] == 'u' else lambda x, w: [s.signed(x, w)]
            ra, rb = f(a, w), f(b, w)
            if ra and rb and ra[0] and rb[0]:
                if cmpc(pred, 128, ra[0][0] + OFF, rb[-1][1] + OFF) and cmpc(pred, 128, ra[-1][1] + OFF, rb[0][0] + OFF):
                    return True
                if not cmpc(pred, 128, ra[0][0] + OFF, rb[-1][1] + OFF) and not cmpc(pred, 128, ra[-1][1] + OFF, rb[0][0] + OFF):
                    return False
        # exact membership for comparisons with a constant
        if isinstance(b, int) or isinstance(a, int):
            v, cr = s._cmp_ranges(pred, w, a, b)
            rv = s.ranges(v, w)
            i = rint(rv, cr)
            if not i:
                return False
            if i == rv:
                return True
        r = s._order(pred[0], w, a, b)
        want = REL[p]
        if r <= want:
            return True
        if not r & want:
            return False
        return s._tab(lambda e, m: cmpc(pred, w, ev(a, e, m), ev(b, e, m)), (a, b))

    def _order(s, sg, w, a, b):
        """the possible orders of a and b, from the comparisons assumed so far"""
        r = ALLREL
        for p in ('lt', 'le', 'gt', 'ge'):
            k = s.misc.get(('cmp', sg + p, w, a, b))
            if k is not None:
                r &= REL[p] if k else ALLREL - REL[p]
            k = s.misc.get(('cmp', sg + p, w, b, a))
            if k is not None:
                r &= REL[SWAP[p]] if k else ALLREL - REL[SWAP[p]]
        if '=' in r and len(r) > 1 and s._deceq(a, b, w) is False:
            r -= {'='}
        return r

    def _cmp_ranges(s, pred, w, a, b):
        """(value, ranges in which pred holds) for comparison with a constant side"""
        if isinstance(a, int):
            sw = {'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule'}
            return s._cmp_ranges(sw[pred], w, b, a)
        c = b
        if pred[0] == 's':
            c = sgn(c, w)
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            lo, hi = 0, mask(w)
        p = pred[1:]
        if p == 'lt':
            hi = c - 1
        elif p == 'le':
            hi = c
        elif p == 'gt':
            lo = c + 1
        else:
            lo = c
        if lo > hi:
            return a, ()
        return a, rnorm(rcirc(lo, hi, w), w)

    def _deceq(s, a, b, w):
        p = s._pairs(a, b, w)
        if p is None:
            return False
        if not p:
            return True
        if s.kb:
            # bit pairs whose exclusive or is known on this path
            n = 0
            for x, y in p:
                if isinstance(x, tuple) and isinstance(y, tuple):
                    k = s.kb.get(bxor(x, y))
                    if k == 1:
                        return False
                    n += k == 0
            if n == len(p):
                return True
        er = s._eq_ranges(a, b, w)
        if er is not None:
            v, rs = er
            rv = s.ranges(v, w)
            i = rint(rv, rs)
            if not i:
                return False
            if i == rv:
                return True
        for n in s.ne:
            if n <= p:
                return False
        # ranges of the difference
        try:
            d = sub(w, a, b)
        except AnalysisError:
            d = None
        if d is not None:
            if isinstance(d, int):
                return d == 0
            rd = s.ranges(d, w)
            if rd and not any(l <= 0 <= h for l, h in rd):
                return False
            if rd == ((0, 0),):
                return True
        ra, rb = s.ranges(a, w), s.ranges(b, w)
        if not rint(ra, rb):
            return False
        return s._tab(lambda e, m: ev(a, e, m) == ev(b, e, m), (a, b))

    def _tab(s, f, vals, limit=10):
        sup = set()
        for v in vals:
            support(v, sup)
        if len(sup) > limit or not sup:
            return None
        res = set()
        for env in s.assignments(sup):
            try:
                res.add(bool(f(env, {})))
            except NoTab:
                return None
            if len(res) == 2:
                return None
        if len(res) == 1:
            return res.pop()
        return None

    def assignments(s, sup):
        """assignments of the support bits consistent with the facts that mention only them"""
        sup = sorted(sup, key=lambda b: (b[0]._h, b[1]))
        free = [b for b in sup if b not in s.kb]
        base = {b: s.kb[b] for b in sup if b in s.kb}
        supset = set(sup)
        cons = []
        for (w, ts), rs in s.iv.items():
            v = make_lin(w, 0, ts)
            if not isinstance(v, int) and support(v) <= supset:
                cons.append((v, rs))
        nes = []
        for n in s.ne:
            xs = [q for pr in n for q in pr if isinstance(q, tuple)]
            sp = set()
            for q in xs:
                support(BV((q,)), sp)
            if sp <= supset:
                nes.append(n)
        for x in range(1 << len(free)):
            env = dict(base)
            for i, b in enumerate(free):
                env[b] = x >> i & 1
            memo = {}
            try:
                if all(any(l <= ev(v, env, memo) <= h for l, h in rs) for v, rs in cons) and \
                        all(any(evbit(p, env, memo) != evbit(q, env, memo) for p, q in n) for n in nes):
                    yield env
            except NoTab:
                yield env

    def assume(s, pred, w, a, b, truth):
        """new facts with (a pred b)==truth, or None when contradictory"""
        d = s.decide(pred, w, a, b)
        if d is not None:
            return s if d == truth else None
        f = s.copy()
        a, b = s.subst(a), s.subst(b)
        if pred == 'ne':
            pred, truth = 'eq', not truth
        if pred == 'eq':
            p = s._pairs(a, b, w)
            er = s._eq_ranges(a, b, w)
            if truth:
                for x, y in p:
                    if not isinstance(y, tuple):
                        f._setbit(x, y)
                if er:
                    f._addiv(er[0], er[1], w)
                else:
                    try:
                        dd = sub(w, a, b)
                        if not isinstance(dd, int):
                            f._addiv(dd, ((0, 0),), w)
                    except AnalysisError:
                        pass
            else:
                f.ne = f.ne | {p}
                if er:
                    f._addiv(er[0], rcompl(er[1], w), w)
                else:
                    try:
                        dd = sub(w, a, b)
                        if not isinstance(dd, int):
                            f._addiv(dd, ((1, mask(w)),), w)
                    except AnalysisError:
                        pass
        else:
            if isinstance(a, int) or isinstance(b, int):
                v, rs = s._cmp_ranges(pred, w, a, b)
                f._addiv(v, rs if truth else rcompl(rs, w), w)
            f.misc[('cmp', pred, w, a, b)] = truth
        return f if f._close() else None

    def _setbit(s, b, v):
        a = b[0]
        if a.kind == 'op' and a.name == '!':
            return s._setbit(a.args[0], 1 - v)
        if a.kind == 'op' and a.name == '&' and v == 1 or a.kind == 'op' and a.name == '|' and v == 0:
            for x in a.args:
                s._setbit(x, v)
        s.kb[b] = v

    def _addiv(s, v, rs, w):
        if isinstance(v, int):
            return
        k, c, n = linkey(v)
        r = rshift(rnorm(rs, w), -c, w)
        if n:
            r = rneg(r, w)
        old = s.iv.get(k)
        s.iv[k] = rint(old, r) if old else r
        # narrow the low part of a zero-extended value
        m = w
        while m > 1 and v.bits[m - 1] == 0:
            m -= 1
        if m < w:
            low = mk(v.bits[:m])
            if not isinstance(low, int):
                s._addiv(low, rint(rnorm(rs, w), ((0, mask(m)),)), m)
        else:
            top = v.bits[-1]
            m = w
            while m > 1 and v.bits[m - 2] == top:
                m -= 1
            if 1 < m < w:
                low = mk(v.bits[:m])
                if not isinstance(low, int):
                    half = 1 << (m - 1)
                    r2 = rint(rnorm(rs, w), ((0, half - 1),)) + tuple(
                        (l - (1 << w) + (1 << m), h - (1 << w) + (1 << m)) for l, h in
                        rint(rnorm(rs, w), ((mask(w) - half + 1, mask(w)),)))
                    s._addiv(low, rnorm(r2, m), m)

    def _close(s):
        """reduction; False when contradictory"""
        for _ in range(6):
            ch = False
            if len(s.iv) > 1:
                for k in list(s.iv):
                    for k2 in list(s.iv):
                        if k2[0] >= k[0]:
                            continue
                        t, tc, tn = trunckey(k, k2[0])
                        if t != k2:
                            continue
                        low = s.iv[k2]
                        x = rneg(low, k2[0]) if tn else low
                        x = rshift(x, tc, k2[0])
                        new = lift(s.iv[k], x, k[0], k2[0])
                        if new != s.iv[k]:
                            s.iv[k] = new
                            ch = True
                        x = rshift(proj(new, k[0], k2[0]), -tc, k2[0])
                        if tn:
                            x = rneg(x, k2[0])
                        x = rint(low, x)
                        if x != low:
                            s.iv[k2] = x
                            ch = True
            for k, rs in list(s.iv.items()):
                if not rs:
                    return False
                w, ts = k
                v = make_lin(w, 0, ts)
                if isinstance(v, int):
                    continue
                v2_ = s.subst(v)
                if isinstance(v2_, int):
                    if not any(l <= v2_ <= h for l, h in rs):
                        return False
                    continue
                if v2_ != v:
                    # re-key the constraint on the reduced value
                    M = K = 0
                    for i, b in enumerate(v2_.bits):
                        if not isinstance(b, tuple):
                            M |= 1 << i
                            K |= b << i
                    rs = rbits(rs, M, K, w)
                    if not rs:
                        return False
                    if linkey(v2_)[0] != k:
                        del s.iv[k]
                        s._addiv(v2_, rs, w)
                        ch = True
                rs2 = s.ranges(v, w)
                if not rs2:
                    return False
                # common high bits of the range -> known bits
                lo, hi = rs2[0][0], rs2[-1][1]
                x = lo ^ hi
                n = x.bit_length()
                if n < w:
                    for i in range(n, w):
                        b = v2_.bits[i]
                        bit = lo >> i & 1
                        if isinstance(b, tuple):
                            if b[0].kind != 'lin':
                                if s.kb.get(b) != bit:
                                    s._setbit(b, bit)
                                    ch = True
                        elif b != bit:
                            return False
            ne2 = set()
            for n in s.ne:
                ps = set()
                sat = False
                for x, y in n:
                    x = s._sb(x, {})
                    y = s._sb(y, {})
                    if x == y:
                        continue
                    if not isinstance(x, tuple) and not isinstance(y, tuple):
                        sat = True
                        break
                    if not isinstance(x, tuple):
                        x, y = y, x
                    ps.add((x, y))
                if sat:
                    ch = ch or True if n in s.ne and False else ch
                    continue
                if not ps:
                    return False
                if len(ps) == 1:
                    x, y = next(iter(ps))
                    if not isinstance(y, tuple):
                        if s.kb.get(x) != 1 - y:
                            s._setbit(x, 1 - y)
                            ch = True
                        continue
                ne2.add(frozenset(ps))
            s.ne = frozenset(ne2)
            if not ch:
                break
        return True

    def equal(s, a, b, w):
        """True when a and b denote the same value on this path"""
        if isinstance(a, (int, BV)) and isinstance(b, (int, BV)):
            if s.decide('eq', w, a, b) is True:
                return True
            return s.norm2(a, b, w)
        return a == b

    def norm2(s, a, b, w):
        a, b = s.norm(a, w), s.norm(b, w)
        return a == b or s.norm(a, w, True) == s.norm(b, w, True)

    def meet(s, o):
        """both conjunctions, or None when they contradict"""
        f = s.copy()
        for k, rs in o.iv.items():
            r = rint(f.iv[k], rs) if k in f.iv else rs
            if not r:
                return None
            f.iv[k] = r
        f.ne = s.ne | o.ne
        for k, v in o.misc.items():
            if f.misc.setdefault(k, v) != v:
                return None
        for b, v in o.kb.items():
            if f.kb.get(b, v) != v:
                return None
            f._setbit(b, v)
        return f if f._close() else None

    def hull(s, a):
        """exact bounds of an affine atom as an integer, or None when it may wrap"""
        lo = hi = sgn(a.c, a.w)
        for bits, k in a.terms:
            base = mk(bits)
            if isinstance(base, int):
                l = h = base
            else:
                r = s.ranges(base, len(bits))
                if not r:
                    return None
                l, h = r[0][0], r[-1][1]
            k = sgn(k, a.w)
            lo, hi = (lo + k * l, hi + k * h) if k > 0 else (lo + k * h, hi + k * l)
        return (lo, hi) if hi - lo < 1 << a.w else None

    def norm(s, v, w, full=False):
        """v with the affine atoms that provably do not wrap opened into the sum"""
        v = s.subst(v)
        if isinstance(v, int):
            return v
        c, t = lin_of(v, w)
        if not full and not any(isinstance(b, tuple) and b[0].kind == 'lin' for bits, _ in t for b in bits):
            return v
        terms = []
        todo = [(b, k) for b, k in t]
        while todo:
            bits, k = todo.pop()
            i = 0
            while i < len(bits):
                b = bits[i]
                if not isinstance(b, tuple):
                    c += (b << i) * k
                    i += 1
                    continue
                a = b[0]
                j = i + 1
                while j < len(bits) and isinstance(bits[j], tuple) and bits[j][0] is a and bits[j][1] == b[1] + j - i:
                    j += 1
                h = s.hull(a) if a.kind == 'lin' else None
                if h and h[0] >= 0 and h[1] < 1 << b[1]:
                    i = j
                    continue
                if h and b[1] == 0 and 0 <= h[0] and h[1] < 1 << (j - i):
                    c += sgn(a.c, a.w) * (k << i)
                    for b2, k2 in a.terms:
                        todo.append((b2, sgn(k2, a.w) * (k << i)))
                else:
                    terms.append((tuple(bits[i:j]) + (0,) * (w - (j - i)), k << i))
                i = j
        return make_lin(w, c, terms)


def self_signed(rs, w):
    if not rs:
        return None
    half = 1 << (w - 1)
    lo, hi = None, None
    for l, h in rs:
        segs = []
        if l < half:
            segs.append((l, min(h, half - 1)))
        if h >= half:
            segs.append((max(l, half) - (1 << w), h - (1 << w)))
        for x, y in segs:
            lo = x if lo is None or x < lo else lo
            hi = y if hi is None or y > hi else hi
    return lo, hi


def cmpc(pred, w, a, b):
    if pred == 'eq':
        return a == b
    if pred == 'ne':
        return a != b
    if pred[0] == 's':
        a, b = sgn(a, w), sgn(b, w)
    p = pred[1:]
    return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b
