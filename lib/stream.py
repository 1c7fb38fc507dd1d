"""Decoding of abstract output streams: characters, hexadecimal digits, records."""
import dom
import ir
from dom import BV, Ptr
from ir import AnalysisError

UP = '0123456789ABCDEF'


class NotHex(Exception):
    pass


def nibble(v):
    """4-bit value whose hex digit the abstract character v is, or None"""
    v = dom.trunc(v, 8)
    if isinstance(v, int):
        return None
    ts = {b[0] for b in v.bits if isinstance(b, tuple) and b[0].kind == 'op' and b[0].name == 'tbl'}
    if len(ts) == 1:
        at = ts.pop()
        tab, idx = at.args
        val = [None] * len(tab)
        ok = True
        for i, t in enumerate(tab):
            # the character for table entry i
            ch = 0
            for k, b in enumerate(v.bits):
                if not isinstance(b, tuple):
                    ch |= b << k
                elif b[0] is at:
                    ch |= (t >> b[1] & 1) << k
                else:
                    ok = False
            if i < 16 and (ch > 127 or chr(ch).upper() != UP[i]):
                ok = False
        if ok and len(tab) >= 16 and idx.w >= 4 and all(b == 0 for b in idx.bits[4:]):
            return dom.trunc(idx, 4) if idx.w > 4 else idx
    sup = sorted(dom.support(v), key=lambda b: (b[0]._h, b[1]))
    if not sup or len(sup) > 10:
        return None
    if len(sup) <= 4:
        # candidate nibble: the index of the table in order of its bits
        cands = []
        for b in v.bits:
            if isinstance(b, tuple) and b[0].kind == 'op' and b[0].name == 'tbl':
                cands.append(b[0].args[1])
        for b in v.bits:
            if isinstance(b, tuple) and b[0].kind == 'op':
                for x in b[0].args:
                    if isinstance(x, BV):
                        cands.append(x)
        for c in cands:
            c4 = c if c.w == 4 else None
            if c4 is None:
                c4 = dom.trunc(c, 4) if c.w > 4 else dom.zext(c, c.w, 4)
            ok = True
            for x in range(1 << len(sup)):
                env = {b: x >> i & 1 for i, b in enumerate(sup)}
                try:
                    ch = dom.ev(v, env, {})
                    k = dom.ev(c4, env, {})
                except dom.NoTab:
                    ok = False
                    break
                if chr(ch).upper() != UP[k]:
                    ok = False
                    break
            if ok:
                return c4
    return None


def chars(e, st, kinds=('fputc', 'fputs', 'fprintf', 'fwrite')):
    """[(constant char | ('nib', value4) , where)] written by the path"""
    out = []
    for ev in st.events(*kinds):
        k, a, w = ev
        if k == 'fputc':
            put(out, a[0], w)
        elif k == 'fputs':
            s = e.getstr(st, a[0])
            if s is None:
                raise AnalysisError('fputs of a non-constant string at ' + w)
            out += [(chr(b), w) for b in s]
        elif k == 'fprintf':
            fmt = e.getstr(st, a[1])
            if fmt is None:
                raise AnalysisError('fprintf with a non-constant format at ' + w)
            printf(e, st, out, fmt.decode('latin1'), list(a[2:]), w)
        else:
            raise AnalysisError('%s not modelled at %s' % (k, w))
    return out


def put(out, v, w):
    if isinstance(v, int):
        out.append((chr(v & 255), w))
        return
    n = nibble(v)
    if n is None:
        v8 = dom.trunc(v, 8)
        if isinstance(v8, int):
            out.append((chr(v8), w))
            return
        out.append((('?', v8), w))
        return
    out.append((('nib', n), w))


def printf(e, st, out, fmt, args, w):
    i = 0
    while i < len(fmt):
        ch = fmt[i]
        if ch != '%':
            out.append((ch, w))
            i += 1
            continue
        i += 1
        if fmt[i] == '%':
            out.append(('%', w))
            i += 1
            continue
        j = i
        while fmt[j] in '0123456789l-.h':
            j += 1
        spec, conv = fmt[i:j], fmt[j]
        i = j + 1
        v = args.pop(0)
        if conv in 'Xx' and spec.replace('l', '').replace('h', '') in ('02', '04', '08', '06', '2', '4'):
            n = int(spec.replace('l', '').replace('h', '')[-1])
            full = 32
            if isinstance(v, int):
                s = '%0*X' % (n, v & 0xffffffff)
                out += [(c, w) for c in s]
            else:
                hi = dom.trunc(dom.lshr(v.w, v, 4 * n), 32 - 4 * n) if v.w > 4 * n and n < 8 else 0
                if st.facts.decide('eq', 32 - 4 * n, hi, 0) is not True and n < 8:
                    out.append((('?', v), w))
                for k in range(n - 1, -1, -1):
                    out.append((('nib', dom.trunc(dom.lshr(v.w, v, 4 * k), 4)), w))
        elif conv == 'c':
            put(out, v, w)
        elif conv == 's':
            s = e.getstr(st, v)
            if s is None:
                raise AnalysisError('%%s of a non-constant string at %s' % w)
            out += [(chr(b), w) for b in s]
        elif conv in 'du' and isinstance(v, int):
            out += [(c, w) for c in str(dom.sgn(v, 32) if conv == 'd' else v)]
        else:
            out.append((('fmt', conv, spec, v), w))


def lines(cs):
    out = [[]]
    for c, w in cs:
        if c == '\n':
            out.append([])
        else:
            out[-1].append((c, w))
    tail = out.pop()
    return out, tail


def digit(c):
    if isinstance(c, str):
        if c.upper() in UP:
            return UP.index(c.upper())
        raise NotHex('%r is not a hexadecimal digit' % c)
    if c[0] == 'nib':
        return c[1]
    raise NotHex('%r is not a hexadecimal digit' % (c,))


def hexbytes(cs):
    """byte values of pairs of hexadecimal digits"""
    if len(cs) % 2:
        raise NotHex('odd number of digits')
    out = []
    for i in range(0, len(cs), 2):
        h, l = digit(cs[i][0]), digit(cs[i + 1][0])
        out.append(pair(h, l))
    return out


def pair(h, l):
    """byte of two nibbles; the two halves of one sum are put together as that sum"""
    if isinstance(h, BV):
        b = h.bits[0]
        if isinstance(b, tuple) and b[1] == 4 and b[0].w >= 8:
            v = dom.mk(tuple((b[0], k) for k in range(8)))
            if dom.trunc(v, 4) == l and dom.trunc(dom.lshr(8, v, 4), 4) == h:
                return v
    return dom.concat([(l, 4), (h, 4)])


def s8(bs):
    t = 0
    for b in bs:
        t = dom.add(8, t, b)
    return t


def record(line, facts):
    """('data', addr parts (hi first), data bytes) | ('ext', hi16) | ('end',) ; raises NotHex with the defect"""
    if not line:
        raise NotHex('empty line')
    c0 = line[0][0]

    def eq(a, b):
        return facts.equal(a, b, 8)
    if c0 == ':':
        b = hexbytes(line[1:])
        if len(b) < 5:
            raise NotHex('record too short')
        n = b[0]
        if not isinstance(n, int) or n != len(b) - 5:
            raise NotHex('byte count %s for %d data bytes' % (dom.show(n), len(b) - 5))
        if not eq(s8(b), 0):
            raise NotHex('checksum byte %s makes the sum %s, not zero' % (dom.show(b[-1]), dom.show(s8(b))))
        t = b[3]
        if t == 0:
            return 'data', (b[1], b[2]), b[4:-1]
        if t == 4 and n == 2 and eq(b[1], 0) and eq(b[2], 0):
            return 'ext', (b[4], b[5]), ()
        if t == 1 and n == 0:
            return 'end', (), ()
        raise NotHex('record type %s' % dom.show(t))
    if c0 == 'S':
        t = line[1][0]
        if t not in ('1', '2', '3', '7', '8', '9'):
            raise NotHex('record type S%s' % (t,))
        b = hexbytes(line[2:])
        k = {'1': 2, '2': 3, '3': 4, '7': 4, '8': 3, '9': 2}[t]
        n = b[0] if b else None
        if not isinstance(n, int) or n != len(b) - 1:
            raise NotHex('byte count %s for %d bytes' % (dom.show(n), len(b) - 1))
        if not eq(s8(b), 0xff):
            raise NotHex('checksum byte %s makes the sum %s, not FF' % (dom.show(b[-1]), dom.show(s8(b))))
        if len(b) < k + 2:
            raise NotHex('record too short')
        if t in '789':
            if len(b) != k + 2:
                raise NotHex('data in a terminator')
            return 'end', (), ()
        return 'data', tuple(b[1:1 + k]), b[1 + k:-1]
    raise NotHex('line starts with %r' % (c0,))
