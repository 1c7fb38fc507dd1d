"""The listing as an abstract character stream: numbers printed are kept as terms, hexadecimal digits as nibbles."""
import re

import dom
import ir
import stream
from dom import Ptr
from eng import ptradd

PH = 0x80   # characters from here on stand for whole numbers


class Nums:
    """numbers printed by formatting calls: placeholder characters"""

    def __init__(s):
        s.of, s.tab = {}, []

    def put(s, conv, v):
        k = (conv, v)
        if k not in s.of:
            if len(s.tab) >= 127:
                raise ir.AnalysisError('too many different numbers printed')
            s.of[k] = len(s.tab)
            s.tab.append(k)
        return PH + s.of[k]


def cstring(e, st, p, n=1200):
    """cells of a string up to its end"""
    out = []
    for i in range(n):
        v = e.load(st, ptradd(p, i), ir.INT(8))
        if v == 0:
            return out
        out.append(v)
    raise ir.AnalysisError('string without end')


def fmt(e, st, nums, f, args):
    f = e.getstr(st, f)
    if f is None:
        return None
    args, out, pos = list(args), [], 0
    for m in re.finditer(rb'%([-0+ #]*)(\d*)(?:\.(\d+))?([lhz]*)([dicsXxu%])', f):
        out += list(f[pos:m.start()])
        pos = m.end()
        cv = m.group(5).decode()
        if cv == '%':
            out.append(37)
            continue
        if not args:
            raise ir.AnalysisError('format %r without its argument' % f)
        v = args.pop(0)
        wd = int(m.group(2) or 0)
        if cv == 'c':
            t = [dom.trunc(v, 8) if not isinstance(v, int) else v & 255]
        elif cv == 's':
            t = cstring(e, st, v)
            if m.group(3):
                t = t[:int(m.group(3))]
        else:
            if b'l' not in m.group(4) and b'z' not in m.group(4):
                v = v & dom.mask(32) if isinstance(v, int) else dom.trunc(v, 32) if v.w > 32 else v
            t = [nums.put('d' if cv in 'diu' else 'x', v)]
            wd = min(wd, 2) if wd > 1 else wd
        pad = [32] * (wd - len(t))
        out += t + pad if b'-' in m.group(1) else pad + t
    return out + list(f[pos:])


def stubs(nums):
    def text(st, bs, ins):
        st.ev('text', tuple(bs), ins.where())
        return 0

    def s_puts(e, st, a, ins):
        return text(st, cstring(e, st, a[0]) + [10], ins)

    def s_fputs(e, st, a, ins):
        return text(st, cstring(e, st, a[0]), ins)

    def s_putchar(e, st, a, ins):
        return text(st, [a[0] & 255 if isinstance(a[0], int) else dom.trunc(a[0], 8)], ins)

    def s_printf(e, st, a, ins):
        return text(st, fmt(e, st, nums, a[0], a[1:]) or [63], ins)

    def s_sprintf(e, st, a, ins):
        n = ins.a[0][1].find('snprintf') >= 0
        bs = fmt(e, st, nums, a[2] if n else a[1], a[3:] if n else a[2:])
        if bs is None:
            raise ir.AnalysisError('format unknown at ' + ins.where())
        for i, b in enumerate(bs + [0]):
            e.store(st, ptradd(a[0], i), ir.INT(8), b, ins)
        return len(bs)
    return {'puts': s_puts, 'fputs': s_fputs, 'putchar': s_putchar, 'fputc': s_putchar, 'putc': s_putchar, 'printf': s_printf,
            'sprintf': s_sprintf, 'snprintf': s_sprintf, 'ferror': lambda e, st, a, i: 0}


def lines(st):
    """[(cells, where)] of the lines printed, and the cells of an unfinished one"""
    out, cur = [], []
    for _, bs, w in st.events('text'):
        for b in bs:
            if b == 10:
                out.append((cur, w))
                cur = []
            else:
                cur.append(b)
    return out, cur


def show(cells, nums=None):
    r = ''
    for v in cells:
        if isinstance(v, int):
            if v >= PH and nums and v - PH < len(nums.tab):
                r += '<%s>' % dom.show(nums.tab[v - PH][1])
            else:
                r += chr(v)
        else:
            n = stream.nibble(v)
            r += '?' if n is None else '[%s]' % dom.show(n)
    return r


def nib(v):
    """4-bit term of a hexadecimal digit, or None"""
    if isinstance(v, int):
        return '0123456789ABCDEF'.find(chr(v).upper()) if chr(v).upper() in '0123456789ABCDEF' else None
    return stream.nibble(v)
