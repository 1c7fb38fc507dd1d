"""C21: numeric and character constants have the value of their digits."""
import itertools

import c20
import datachk
import dom
import enc
import ir
from dom import Sym
from encchk import facts_of
from eng import Engine, State
from isa import c_rng

LIMIT = 0xffffffff
READERS = {'cstdecimal': 10, 'csthexa': 16, 'cstoctal': 8, 'cstbinary': 2}
CLASS = {'d': (0x30, 0x30), 'u': (0x41, 0x37), 'l': (0x61, 0x57)}
ESC = {'t': 9, 'n': 10, 'r': 13, '0': 0, '"': 34, '\\': 92, "'": 39}


def run_reader(prog, fn, chars):
    """chars: byte values or (lo, hi) ranges.  (engine, ends, the characters as abstract values)"""
    e = Engine(prog)
    st = State()
    f = facts_of([])
    vals = []
    p = e.putstr(st, 'text', b'x' * len(chars))
    for i, ch in enumerate(chars):
        if isinstance(ch, tuple) and ch[0] < ch[1] and ch[0] >> 4 == ch[1] >> 4:
            v = Sym('c%d' % i, 4)
            f = facts_of([('uge', 4, v, ch[0] & 15, True), ('ule', 4, v, ch[1] & 15, True)], f)
            v = dom.bitop('or', 8, dom.zext(v, 4, 8), ch[0] & 0xf0)
        elif isinstance(ch, tuple):
            v = Sym('c%d' % i, 8)
            f = facts_of([('uge', 8, v, ch[0], True), ('ule', 8, v, ch[1], True)], f)
        else:
            v = ch
        vals.append(v)
        e.store(st, dom.Ptr(p.obj, p.off + i), ir.INT(8), v)
    st.facts = f
    r = e.newobj(st, 'res', max(o + z for o, z in prog.ditypes['result'].values()))
    return e, [x for x in e.call(fn, [r, p], st) if x.end[0] != 'infeasible'], vals, r


def outcome(prog, fn, chars, want, name):
    """want: None (error), or a function of the character values giving the value; 'either' pairs allow both"""
    opt = isinstance(want, tuple)
    e, ends, vals, r = run_reader(prog, fn, chars)
    d = prog.ditypes['result']
    out = []
    for x in ends:
        t = None
        if x.end[0] == 'error':
            if want is not None and not opt:
                t = 'is an error (%s)' % x.end[1]
        elif x.end[0] != 'ret':
            t = 'ends in %r' % (x.end,)
        else:
            get = lambda n: e.load(x, enc.ptradd(r, d[n][0]), ir.INT(8 * d[n][1]))
            v = get('value')
            if want is None:
                t = 'is accepted with the value %s' % dom.show(v)
            else:
                w = (want[0] if opt else want)(vals)
                if not x.facts.equal(v, w, 64):
                    t = 'has the value %s, expected %s' % (dom.show(v), dom.show(w))
                elif get('type') != enc.L_ABS:
                    t = 'is of kind %s' % dom.show(get('type'))
                elif not x.facts.equal(get('modifier'), 0, 16):
                    t = 'has the bit number %s' % dom.show(get('modifier'))
                elif not x.facts.equal(dom.bitop('and', 8, get('flags'), enc.UNDEF | enc.FORWARD), 0, 8):
                    t = 'is marked as not defined'
        out.append((t, x.end[2] if x.end[0] == 'error' and len(x.end) > 2 else 'operator.c ' + fn))
    if not ends:
        out.append(('has no outcome', 'operator.c ' + fn))
    return name, out, (e.nstates, e.steps, frozenset(e.fnseen), frozenset(e.bbseen))


def digit(cls, lo, hi):
    """characters of the class with digit values lo..hi, or None"""
    first, off = CLASS[cls]
    a, b = max(first, lo + off), min((0x39 if cls == 'd' else first + 5), hi + off)
    return (a, b) if a <= b else None


def classes(radix):
    return 'dul' if radix == 16 else 'd'


def show(chars):
    return ''.join(chr(c) if isinstance(c, int) and 32 <= c < 127 else '\\x%02x' % c if isinstance(c, int) else '[%s-%s]' % tuple(
        chr(v) if 32 < v < 127 else '\\x%02x' % v for v in c) for c in chars)


def positional(chars, radix, offs):
    def f(vals):
        t = 0
        for v, o in zip(vals, offs):
            t = dom.add(64, dom.mul(64, t, radix), dom.sub(64, dom.zext(v, 8, 64), o))
        return t
    return f


def number_cases(fn, radix):
    L = []
    n = LIMIT
    while n:
        L.append(n % radix)
        n //= radix
    L.reverse()
    cl = classes(radix)

    def dig(v):
        return 0x30 + v if v < 10 else 0x37 + v

    def fill(k, pat):
        """k free digits with letter case pattern"""
        out, offs = [], []
        for i in range(k):
            c = pat[i % len(pat)]
            out.append(digit(c, 0, min(radix, 10) - 1 if c == 'd' else 15))
            offs.append(CLASS[c][1])
        return out, offs
    pats = ['d', 'u', 'l', 'dl', 'ud', 'lu'] if radix == 16 else ['d']
    # every number of up to len(L)-1 digits, then those of len(L) digits by the first digit that differs from the limit's
    for k in range(1, len(L)):
        for pat in pats:
            cs, offs = fill(k, pat)
            yield cs, offs, True
    for zeros in (0, 1, 3):
        for i, li in enumerate(L):
            pre = [0x30] * zeros + [dig(v) for v in L[:i]]
            poff = [0x30] * zeros + [0x30 if v < 10 else 0x37 for v in L[:i]]
            for lo, hi, ok in ((0, li - 1, True), (li + 1, radix - 1, False)):
                for c in cl:
                    dg = digit(c, lo, hi)
                    if not dg:
                        continue
                    for pat in pats:
                        cs, offs = fill(len(L) - i - 1, pat)
                        yield pre + [dg] + cs, poff + [CLASS[c][1]] + offs, ok
        yield [0x30] * zeros + [dig(v) for v in L], [0x30] * zeros + [0x30 if v < 10 else 0x37 for v in L], True
        for more in (1, 2, 9):
            for c in cl:
                cs, offs = fill(len(L) - 1 + more, pats[0])
                yield [0x30] * zeros + [digit(c, 1, 15)] + cs, [0x30] * zeros + [CLASS[c][1]] + offs, False


def binary_cases():
    """one free digit at every place of every length, the others fixed: the reader decides each digit on its own"""
    for zeros in (0, 1, 3):
        for k in range(1, 33):
            for pat in ('0', '1', '01', '10'):
                for i in range(k):
                    if zeros and i not in (0, k - 1):
                        continue
                    cs = [0x30] * zeros + [ord(pat[j % len(pat)]) for j in range(k)]
                    cs[zeros + i] = (0x30, 0x31)
                    yield cs, [0x30] * len(cs), True
        for more in (1, 2, 9):
            for pat in ('0', '1', '01'):
                cs = [0x30] * zeros + [0x31] + [ord(pat[j % len(pat)]) for j in range(31 + more)]
                yield cs, [0x30] * len(cs), False


def notdigits(radix):
    ok = set()
    for c in classes(radix):
        a, b = digit(c, 0, radix - 1)
        ok |= set(range(a, b + 1))
    out = []
    for v in range(1, 256):
        if v in ok:
            continue
        if out and out[-1][1] == v - 1 and v not in (0x80,):
            out[-1] = (out[-1][0], v)
        else:
            out.append((v, v))
    return out


def numbers(c, prog):
    c.rule('numeric readers, all digit strings by partition at the first digit that differs from the greatest 32-bit value: the value is the positional '
           'sum of the digits, an error exactly when it needs more than 32 bits; any character that is no digit of the radix is an error')
    jobs = []
    for fn, radix in READERS.items():
        for cs, offs, ok in (binary_cases() if radix == 2 else number_cases(fn, radix)):
            jobs.append(('value', fn, cs, positional(cs, radix, offs) if ok else None))
        d0 = digit('d', 0, radix - 1)
        for rg in notdigits(radix):
            for k in range(0, 4):
                for j in range(0, 3):
                    jobs.append(('malformed', fn, [d0] * k + [rg] + [d0] * j, None))
    report(c, prog, jobs)
    c.floor('value', 150)
    c.floor('malformed', 200)


def report(c, prog, jobs):
    def one(j):
        return outcome(prog, j[1], j[2], j[3], '%s %s' % (j[1], show(j[2])))
    for j, (nm, out, us) in zip(jobs, datachk.pmap(lambda i: one(jobs[i]), range(len(jobs)))):
        c.counts['abstract states'] = c.counts.get('abstract states', 0) + us[0]
        c.counts['abstract steps'] = c.counts.get('abstract steps', 0) + us[1]
        c.fns |= us[2]
        for t, w in out:
            if t:
                c.bad(j[0], w, 'the text %s read by %s %s%s' % (show(j[2]), j[1], t, '' if j[3] else ', expected an error'), nm)
            else:
                c.ob(j[0], nm)


def characters(c, prog):
    c.rule('character constants: every printable character and every escape at every position, first character most significant; a character that is not '
           'printable, an unknown escape, a missing end or anything after it is an error; a value that does not fit is never truncated')
    jobs = []
    for q in (0x27, 0x22):
        plain = [(a, b) for a, b in ((0x20, 0x21), (0x22, 0x22), (0x23, 0x26), (0x27, 0x27), (0x28, 0x5b), (0x5d, 0x7e)) if not a <= q <= b]
        mid = (0x28, 0x5b)

        def val(items):
            # items: index of the character or a constant
            def f(vals):
                t = 0
                for kind, v in items:
                    t = dom.add(64, dom.shl(64, t, 8), v if kind == 'n' else dom.zext(vals[v], 8, 64))
                return t
            return f

        def add(parts, end=(None,), want=True):
            cs, items = [q], []
            for p in parts:
                if p[0] == 'esc':
                    cs += [0x5c, ord(p[1])]
                    items.append(('n', ESC.get(p[1])))
                else:
                    items.append(('c', len(cs)))
                    cs.append(p)
            cs += [q] if end == (None,) else list(end)
            n = len(parts)
            w = None
            if want:
                big = n > 4
                if n > 8 and not (parts[0][0] == 'esc' and parts[0][1] == '0'):
                    w = None
                else:
                    w = val(items)
                    if big:
                        w = (w,)
            jobs.append(('characters' if want else 'malformed characters', 'cstascii', cs, w))
        for p in plain:
            for k in range(4):
                for j in range(4 - k):
                    add([mid] * k + [p] + [mid] * j)
        for k in range(0, 11):
            add([mid] * k)
        for x in ESC:
            for k in range(4):
                for j in range(4 - k):
                    add([mid] * k + [('esc', x)] + [mid] * j)
            for y in ESC:
                add([('esc', x), ('esc', y)])
                add([mid, ('esc', x), ('esc', y), mid])
        for bad in ((1, 0x1f), (0x7f, 0x7f), (0x80, 0xff)):
            for k in range(3):
                for j in range(3):
                    add([mid] * k + [bad] + [mid] * j, want=False)
        known = {ord(x) for x in ESC}
        for a, b in ((1, 0x21), (0x23, 0x26), (0x28, 0x2f), (0x31, 0x5b), (0x5d, 0x6d), (0x6f, 0x71), (0x73, 0x73), (0x75, 0xff)):
            assert not any(a <= v <= b for v in known)
            jobs.append(('malformed characters', 'cstascii', [q, 0x5c, (a, b), q], None))
            jobs.append(('malformed characters', 'cstascii', [q, mid, 0x5c, (a, b), mid, q], None))
        for k in range(4):
            add([mid] * k, end=(), want=False)
            add([mid] * k, end=(0x5c,), want=False)
            add([mid] * k, end=(0x5c, q), want=False)
            add([mid] * k, end=(q, (1, 0xff)), want=False)
            add([mid] * k, end=(q, q), want=False)
            add([mid] * k, end=(0x22 + 0x27 - q,), want=False)
    report(c, prog, jobs)
    c.floor('characters', 200)
    c.floor('malformed characters', 100)


def notations():
    dec = ['0', '7', '8', '9', '10', '08', '0010', '255', '65535', '65536', '4294967295', '4294967296', '42949672950', '12A', '1_2', '1.5', '0A', '9_']
    for t in dec:
        yield t
    hx = ['0', '9', 'A', 'F', 'a', 'f', '10', 'fF', '1aB2', '0DeaD', '00001', 'FFFFFFFF', '0FFFFFFFF', '100000000', 'G', '1G', '1.0', '', '0B1', '1B', '0Q', 'E']
    for t in hx:
        yield '$' + t
        for p in ('0x', '0X'):
            yield p + t
        for s in ('h', 'H'):
            yield '0' + t + s
            if t[:1].isdigit():
                yield t + s
    for t in ['0', '1', '10', '101', '0001', '2', '12', '1a', '', '1' * 8, '1' * 32, '0' + '1' * 32, '1' + '0' * 32, '1' * 31 + '2']:
        yield '%' + t
        for p in ('0b', '0B'):
            yield p + t
        for s in ('b', 'B'):
            if t:
                yield t + s
    for t in ['0', '7', '17', '012', '377', '8', '18', '1a', '37777777777', '40000000000', '77777777777', '0037777777777']:
        for s in ('q', 'Q'):
            yield t + s
    for q, o in (("'", '"'), ('"', "'")):
        for t in ('A', 'z', '0', ' ', '+', '-', '*', ',', ';', '(', ')', '<', '?', '_', '{', '~', o, 'AB', 'ABC', 'ABCD', 'a b', '\\n', '\\t', '\\r', '\\0', '\\\\', "\\'",
                  '\\"', 'a\\n', '\\na', 'a\\' + q, '\\' + q + 'a', '\\\\a', 'a\\\\', '\\\\\\\\', '\\\\\\' + q, '1+1', 'a=b', '\\0A'):
            yield q + t + q
            yield '%s%s%s+1' % (q, t, q)
            yield '1+%s%s%s' % (q, t, q)
            yield 'LO(%s%s%s)' % (q, t, q)
        for t in ('\\x', '\\a', '\\1'):
            yield q + t + q


def spelled(c, prog):
    c.rule('every documented notation as an operand, in both letter cases, alone and inside an expression: read as the constant it writes; texts that '
           'no notation allows are errors')
    ts = list(dict.fromkeys(notations()))

    def one(t):
        return c20.judge(prog, t, {}, facts_of([]))
    c20.run_jobs(c, 'notation', [(t, t) for t in ts], one)
    c.floor('notation', 300)


def run(c, prog):
    numbers(c, prog)
    characters(c, prog)
    spelled(c, prog)
    c.assume.append('plain C locale; a character constant of five to eight characters is either an error or exact')
