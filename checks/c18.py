"""C18: no input makes the assembler write outside its buffers."""
import itertools
import re

import bounds
import chk
import datachk
import dom
import enc
import encchk
import encrun
import flow
import ir
import isa
import lines
import listing
import nest
from dom import Ptr, Sym
from eng import END, INLINE, Engine, Obj, State, ptradd

F = enc.F
M32 = dom.mask(32)
LINE = 249              # longest line a read of 250 gives; shown in readers()
NUMS = {'d': 11, 'i': 11, 'u': 10, 'x': 8, 'X': 8, 'ld': 20, 'li': 20, 'lu': 20, 'lx': 16, 'lX': 16, 'o': 11, 'lo': 22}


# ---------------------------------------------------------------- formatting to memory, greatest length
def digits(st, cv, v, w):
    if isinstance(v, int):
        v = dom.sgn(v, w) if cv[-1] in 'di' else v & dom.mask(w)
        return len(str(v)) if cv[-1] in 'diu' else len('%x' % v) if cv[-1] in 'xX' else len('%o' % v)
    rs = st.facts.ranges(v, w)
    if cv[-1] in 'di':
        rs = [(dom.sgn(l, w), dom.sgn(h, w)) if l >> (w - 1) == h >> (w - 1) else (-(1 << (w - 1)), (1 << (w - 1)) - 1) for l, h in rs]
    n = 1
    for l, h in rs:
        for q in (l, h):
            n = max(n, len(str(q)) if cv[-1] in 'diu' else len('%x' % q) if cv[-1] in 'xX' else len('%o' % q))
    return n


def s_sprintf(e, st, a, ins):
    isn = ins.a[0][1].find('snprintf') >= 0
    d, cap, rest = a[0], a[1] if isn else None, list(a[2:] if isn else a[1:])
    f = e.getstr(st, rest.pop(0))
    if f is None:
        raise ir.AnalysisError('format unknown at ' + ins.where())
    out, pos = [], 0
    for m in re.finditer(rb'%([-0+ #]*)(\d*)(?:\.(\d+))?([lhz]*)([dicsXxuo%])', f):
        out += list(f[pos:m.start()])
        pos = m.end()
        cv = m.group(5).decode()
        if cv == '%':
            out.append(37)
            continue
        v = rest.pop(0)
        wd = int(m.group(2) or 0)
        if cv == 'c':
            t = [v & 255 if isinstance(v, int) else dom.trunc(v, 8)]
        elif cv == 's':
            t = cstring(e, st, v)
            t = t[:int(m.group(3))] if m.group(3) else t
        else:
            w = 64 if b'l' in m.group(4) or b'z' in m.group(4) else 32
            v = v & dom.mask(w) if isinstance(v, int) else dom.trunc(v, w) if v.w > w else v
            t = [ord('1')] * (digits(st, ('l' if w == 64 else '') + cv, v, w) + (1 if b'+' in m.group(1) else 0))
            if isinstance(v, int):
                s = str(dom.sgn(v, w)) if cv in 'di' else '%d' % v if cv == 'u' else '%x' % v
                t = list(s.encode())
        pad = [32] * (wd - len(t))
        out += t + pad if b'-' in m.group(1) else pad + t
    out += list(f[pos:])
    n = len(out)
    if isinstance(d, Ptr):
        if isinstance(cap, int):
            out = out[:max(cap - 1, 0)]
        if not isinstance(cap, int) or cap:
            for i, b in enumerate(out + [0]):
                e.store(st, ptradd(d, i), ir.INT(8), b, ins)
    return n


def cstring(e, st, p, n=1100):
    out = []
    for i in range(n):
        o = e.obj(st, p.obj)
        if o.size is not None and p.off + i >= o.size:
            return out
        v = e.load(st, ptradd(p, i), ir.INT(8))
        if v == 0:
            return out
        out.append(v)
    return out


QUIET = {n: (lambda e, st, a, i: 0) for n in ('puts', 'fputs', 'putchar', 'fputc', 'putc', 'printf', 'fprintf', 'fflush', 'ferror', 'perror')}
BASE = dict(QUIET, sprintf=s_sprintf, snprintf=s_sprintf, __sprintf_chk=s_sprintf, __snprintf_chk=s_sprintf)


OOBS = []


class Run:
    """one scenario: an engine whose stores are recorded"""

    def __init__(s, prog, stubs=None, base=BASE, **kw):
        s.prog = prog
        s.e = Engine(prog, dict(base, **(stubs or {})), max_steps=12000000, **kw)
        s.watch(s.e)
        s.ends = []

    seen = None

    def watch(s, e):
        s.seen, s.free = set(), set()

        def hit(e, st, ptr, ty, v, ins):
            if ins is not None:
                o = st.mem.get(ptr.obj)
                (s.seen if o is None or o.size is not None else s.free).add(ins.where())
        e.onstore = hit
        e.onoob = lambda e, st, o, off, ins: OOBS.append((ins.where() if ins else '', 'writes at offset %s of %s' % (off, oname(o))))
        e.oncopy = lambda e, st, d, ins: hit(e, st, d, None, None, ins)

    def call(s, fn, args, st):
        x = [y for y in s.e.call(fn, args, st) if y.end[0] != 'infeasible']
        s.ends += x
        return x


def oob(x):
    return [v for v in x.events('oob') if v[1] == 'write'] + [('symwrite',) + v[1:] for v in x.events('symwrite')]


def judge(r, nm, more=None):
    """[(where, text)] of the ends of a scenario, and what it covered"""
    bad = []
    for x in r.ends:
        for v in oob(x):
            if v[0] == 'oob':
                bad.append((v[4], '%s: writes at offset %s of %s (%d bytes)' % (nm, v[3], oname(v[2]), r.e.obj(x, v[2]).size)))
            else:
                bad.append((v[5], '%s: writes anywhere in %s' % (nm, oname(v[1]))))
        if x.end[0] == 'defect':
            bad.append((x.end[2], '%s: %s' % (nm, x.end[1])))
        t = more and more(x)
        if t:
            bad.append((t[0], '%s: %s' % (nm, t[1])))
    e = r.e
    return nm, len(r.ends), bad, frozenset(r.seen), (e.nstates, e.steps, frozenset(e.fnseen), frozenset(e.bbseen))


def oname(o):
    return o if isinstance(o, str) else '.'.join(str(x) for x in o)


# ---------------------------------------------------------------- scenarios: generators of (name, thunk)
def text_of(kind, n):
    if kind == 'letters':
        return 'A' * n
    if kind == 'words':
        return ('AB C ' * (n // 5 + 1))[:n]
    if kind == 'remark':
        return ('LAB NOP ; ' + 'remark' * (n // 6 + 1))[:n]
    if kind == 'tabs':
        return ('A\t' * (n // 2 + 1))[:n]
    if kind == 'odd':
        return ('A\x01\x02' * (n // 3 + 1))[:n]
    if kind == 'end remark':
        return 'A' * max(0, n - 1) + ';'
    return ' ' * n


def titles(prog):
    """TITLE on every length of title"""
    en = encrun.pseudo_names(prog)['NAM']
    for passno in (1, 2):
        for n in list(range(0, 40)) + [48, 64, 100, 200, LINE - 7]:
            for q in ('%s', "'%s'", '"%s"'):
                def f(n=n, q=q, passno=passno):
                    k = encrun.cpu(prog, '6502', passno)
                    r = Run(prog)
                    e, ends = case(r, k, en, q % text_of('letters', n), {}, passno)
                    return judge(r, 'TITLE of %d characters %s, pass %d' % (n, q % '', passno))
                yield f


def case(r, k, en, oper, syms, passno=2, **kw):
    """enc.run_case with the recording engine"""
    old = enc.Engine
    try:
        enc.Engine = lambda prog, sb=None, **k2: mk(r, sb)
        e, ends = enc.run_case(k, en, oper, syms, passno, **kw)
    finally:
        enc.Engine = old
    r.ends = [x.st for x in ends]
    return e, ends


def mk(r, sb):
    e = Engine(r.prog, dict(BASE, **(sb or {})), max_steps=12000000)
    r.e = e
    r.watch(e)
    return e


V1, V2 = datachk.V['V1'], datachk.V['V2']


def widths(prog):
    """line lengths PAGE accepts, and the one at the start"""
    k = encrun.cpu(prog, '6502')
    r = Run(prog)
    e, ends = case(r, k, encrun.pseudo_names(prog)['PAGE'], 'V1,V2', {n: (v, enc.USED) for n, v in datachk.V.items()},
                   facts=encchk.facts_of(datachk.DOM32))
    got = initial(prog, 'llen')
    for x in ends:
        if x.kind != 'ret':
            continue
        v = e.getg(x.st, 'llen')
        for l, h in ([(v, v)] if isinstance(v, int) else x.facts.ranges(v, 32)):
            for q in (l, h):
                got.add(dom.sgn(q, 32))
    return sorted(got), judge(r, 'PAGE with any values')


def initial(prog, name):
    """constants the program itself gives a variable"""
    g = prog.gl(name)
    out = set()
    for f in prog.funcs.values():
        for i in ir.instrs(f):
            if i.op == 'store' and i.a[2] == ('g', g.name) and i.a[1][0] == 'c':
                out.add(dom.sgn(i.a[1][1] & M32, 32))
    return out


CHARS = [(33, 58), (59, 59), (60, 126), (32, 32), (9, 9), (10, 13), (1, 8), (127, 127), (128, 255)]


def lstate(prog, r, llen, lpos, content, off=0, flags=F['LIST_ON'], tail=''):
    """listing line with lpos characters used"""
    e, st = r.e, State()
    for n, v in (('llen', llen), ('plen', 66), ('ppos', 10), ('lpos', lpos), ('asmflags', flags), ('linenumber', 7), ('macrolevel', 0),
                 ('lineprefix', 0), ('advance', 1), ('pagenumber', 1)):
        e.setg(st, n, v & M32)
    try:
        e.setg(st, 'lastoffset', off)
    except ir.AnalysisError:
        pass
    g = prog.gl('linebuffer', 'output.c')
    n = min(lpos, llen)
    t = (text_of(content, n) + '\0' + tail)[:ir.size_of(g.ty)]
    for i, ch in enumerate(t):
        e.store(st, Ptr(g.name, i), ir.INT(8), ord(ch))
    return st


def lnonneg(prog, r):
    def f(x):
        if x.end[0] != 'ret':
            return None
        v = r.e.getg(x, 'lpos')
        if not isinstance(v, int) or dom.sgn(v, 32) < 0:
            return 'output.c', 'position in the line becomes %s' % dom.show(v)
    return f


def listing_ops(prog, llens):
    big = max(llens)
    base = [x for x in sorted({min(llens), 40, 76, 132, big}) if min(llens) <= x <= big]
    for llen in base:
        ps = sorted({0, 1, 5, 20, 21, 22, 27, 28, 29, 36, llen - 62, llen - 61, llen - 60, llen - 8, llen - 2, llen - 1, llen, llen + 1, llen + 9})
        for lpos in [p for p in ps if p >= 0]:
            for content in (('letters', 'words', 'remark', 'end remark', 'tabs') if llen < 200 else ('letters', 'remark')):
                for off in (0, 30, llen - 1):
                    if off != 0 and (lpos < llen or content not in ('letters', 'words')):
                        continue
                    for lo, hi in CHARS:
                        def f(llen=llen, lpos=lpos, content=content, off=off, lo=lo, hi=hi):
                            r = Run(prog, {'filter': enc.filter_stub})
                            st = lstate(prog, r, llen, lpos, content, off)
                            v = Sym('CH', 8)
                            st.facts = encchk.facts_of(isa.c_rng(v, lo, hi, 8))
                            r.call('outputcar', [v if lo != hi else lo], st)
                            return judge(r, 'line of %d, at %d, %s, character %d..%d' % (llen, lpos, content, lo, hi), lnonneg(prog, r))
                        yield f
            for name, args in (('outputaddr', [0x1234ABCD]), ('outputbyte', [Sym('BYTE', 32)]), ('outputEOL', [])):
                for fl in (0, F['ADDR16'], F['ADDR24']):
                    for adv in (1, 21):
                        def f(llen=llen, lpos=lpos, name=name, args=args, fl=fl, adv=adv):
                            r = Run(prog, {'filter': enc.filter_stub})
                            st = lstate(prog, r, llen, lpos, 'letters', 0, F['LIST_ON'] | fl)
                            r.e.setg(st, 'advance', adv)
                            r.e.setg(st, 'pc', Sym('PC', 64))
                            r.call(name, args, st)
                            return judge(r, '%s in a line of %d at %d' % (name, llen, lpos), lnonneg(prog, r))
                        yield f
            for n in sorted({-(1 << 31), -1, 0, 2, 21, 28, llen - 1, llen, llen + 1, 1000, (1 << 31) - 1}):
                def f(llen=llen, lpos=lpos, n=n):
                    r = Run(prog, {'filter': enc.filter_stub})
                    st = lstate(prog, r, llen, lpos, 'letters')
                    r.call('position', [n & M32], st)
                    return judge(r, 'position %d in a line of %d at %d' % (n, llen, lpos), lnonneg(prog, r))
                yield f
    # source lines: number, nesting mark and text
    lno = Sym('LINE', 32)
    for llen in base:
        for kind in ('letters', 'words', 'remark', 'tabs'):
            for n in (0, 1, 40, LINE):
                def f(llen=llen, kind=kind, n=n):
                    r = Run(prog, {'filter': enc.filter_stub})
                    st = lstate(prog, r, llen, 0, 'letters')
                    put(r.e, st, prog.gl('curline').name, text_of(kind, n))
                    r.call('outputline', [], st)
                    return judge(r, 'line %s of %d characters in %d' % (kind, n, llen), lnonneg(prog, r))
                yield f
    for lev in (0, 1, 2, 4, 5, 6, 9, 10, 1000):
        for pre in (0, ord('M')):
            for lo, hi in ((0, 9), (10, 99999), (100000, (1 << 31) - 1)):
                def f(lev=lev, pre=pre, lo=lo, hi=hi):
                    r = Run(prog, {'filter': enc.filter_stub})
                    st = lstate(prog, r, 76, 0, 'letters')
                    st.facts = encchk.facts_of(isa.c_rng(lno, lo, hi, 32))
                    for g, v in (('macrolevel', lev), ('lineprefix', pre), ('linenumber', lno)):
                        r.e.setg(st, g, v)
                    put(r.e, st, prog.gl('curline').name, 'A B')
                    r.call('outputline', [], st)
                    return judge(r, 'line number %d..%d, macro level %d, mark %d' % (lo, hi, lev, pre), lnonneg(prog, r))
                yield f


def put(e, st, obj, t):
    for i, ch in enumerate(t + '\0'):
        e.store(st, Ptr(obj, i), ir.INT(8), ord(ch))


def summary(prog, llens):
    for err in (0, 1):
        for llen in llens:
            for lpos in (0, 30):
                def f(err=err, llen=llen, lpos=lpos):
                    r = Run(prog, {'filter': enc.filter_stub})
                    st = lstate(prog, r, llen, lpos, 'letters')
                    n = Sym('ERRN', 32)
                    w = Sym('WARN', 32)
                    st.facts = encchk.facts_of([('eq', 32, n, 0, not err)] + isa.c_rng(n, 0, (1 << 31) - 1, 32) + isa.c_rng(w, 0, (1 << 31) - 1, 32))
                    for g, v in (('errnumber', n), ('warnnumber', w), ('pc', Sym('PC', 64)), ('codelen', Sym('LEN', 64))):
                        r.e.setg(st, g, v)
                    r.call('result', [], st)
                    return judge(r, 'summary, %s, line of %d' % ('errors' if err else 'no errors', llen), lnonneg(prog, r))
                yield f


def symbols(prog, llens):
    """cross reference entries"""
    d = prog.ditypes['label']
    for llen in sorted({min(llens), 61, 62, 63, 76, 123, max(llens)}):
        if not min(llens) <= llen <= max(llens):
            continue
        for lpos in sorted({0, llen - 62, llen - 61, llen - 60, llen} & set(range(llen + 1))):
            for n in (1, 48):
                for typ in (-1, 2, 3, 4, 5, 6):
                    if llen not in (76, max(llens)) and typ not in (3, 6):
                        continue

                    def f(llen=llen, lpos=lpos, n=n, typ=typ):
                        r = Run(prog, {'filter': enc.filter_stub})
                        st = lstate(prog, r, llen, lpos, 'letters')
                        fl = Sym('LFLAGS', 8)
                        p = enc.mklabel(prog, r.e, st, 'S', 0x1234ABCD, fl, typ, Sym('MODI', 16) if typ != 6 else 0x7fff)
                        for i in range(d['name'][1]):
                            r.e.store(st, Ptr(p.obj, d['name'][0] + i), ir.INT(8), 65 if i < n else 0)
                        r.call('printlabel', [p], st)
                        return judge(r, 'entry of %d characters of type %d in a line of %d at %d' % (n, typ, llen, lpos), lnonneg(prog, r))
                    yield f


def messages(prog):
    """every message through the routine that prints it"""
    lno = Sym('LINE', 32)
    for fn in ('error', 'warning'):
        g = prog.funcs.get(prog.fn(fn).name)
        texts = set()
        for f in prog.funcs.values():
            for i in ir.instrs(f):
                if i.op == 'call' and i.a[0] == ('g', g.name):
                    ts = behind(prog, f, i.a[1][0][1])
                    if ts:
                        texts |= {(t, i.where()) for t in ts}
                    else:
                        texts.add(('x' * 240, i.where()))
        longest = {}
        for t, w in texts:
            longest.setdefault(len(t), (t, w))
        for n, (t, w) in sorted(longest.items()):
            for flags in (0, F['LIST_ON'], F['NOERROR'] | F['NOWARNING']):
                for lo, hi in ((0, 9), (10, 9999999), (10000000, (1 << 31) - 1)):
                    def f(fn=fn, t=t, w=w, flags=flags, lo=lo, hi=hi):
                        stubs = {'error': lambda *a: INLINE, 'warning': lambda *a: INLINE, 'outputline': lambda *a: 0, 'longjmp': lines.s_longjmp}
                        r = Run(prog, stubs)
                        st = lstate(prog, r, 76, 0, 'letters', 0, flags)
                        sl = enc.mklabel(prog, r.e, st, '*', Sym('STAR', 64), enc.USED)
                        r.e.setg(st, 'starlabel', sl)
                        st.facts = encchk.facts_of(isa.c_rng(lno, lo, hi, 32))
                        r.e.setg(st, 'linenumber', lno)
                        lines.set_recovery(r.e, st)
                        r.call(fn, [r.e.putstr(st, 'msg', t)], st)
                        return judge(r, '%s of %d characters given at %s, line %d..%d' % (fn, len(t), w, lo, hi))
                    yield f


def empty(r, st):
    """the variables of the program as they start"""
    for g in r.prog.globals.values():
        if g.defined and g.name not in r.e.constg:
            o = r.e.ginit(g.name).copy()
            o.ro = False
            st.mem[g.name] = o
            st.owned.add(g.name)


def names(prog):
    for seg in (0, 7, 10, 99, 12345, (1 << 31) - 1):
        for n in list(range(0, 56)) + [60, 64, 100, LINE]:
            for dot in (0, 1):
                def f(seg=seg, n=n, dot=dot):
                    r = Run(prog)
                    t = ('.' + text_of('letters', n))[:n] if dot else text_of('letters', n)
                    for fn in ('checklabel', 'searchlabel'):
                        st = State()
                        empty(r, st)
                        r.e.setg(st, 'segment', seg)
                        r.call(fn, [r.e.putstr(st, 'name', t)], st)
                    for fn, extra in (('findlabel', []), ('deflabel', [0, 3, Sym('VAL', 64)])) if n in (0, 1, 47, 48, 49, LINE) else ():
                        st = State()
                        empty(r, st)
                        r.e.setg(st, 'segment', seg)
                        r.e.setg(st, 'asmflags', 0)
                        r.call(fn, [r.e.putstr(st, 'name', t)] + extra, st)
                    return judge(r, 'name of %d characters%s in section %d' % (n, ', local' if dot else '', seg))
                if seg in (0, 99, (1 << 31) - 1) or dot:
                    yield f

    def many():
        """one symbol after the other until two blocks of symbols were taken"""
        r = Run(prog)
        st = State()
        empty(r, st)
        r.e.setg(st, 'segment', 0)
        r.e.setg(st, 'asmflags', 0)
        r.e.setg(st, 'passnumber', 1)
        after = 0
        n = 0
        x = st
        while after < 3 and n < 450:
            # numbers in an order that keeps the tree flat
            nm = 'S%03d' % (n * 377 % 1000)
            x = x.copy()
            x.end = None
            x.trace = None
            ends = r.e.call('findlabel', [r.e.putstr(x, 'name', nm)], x)
            ends = [y for y in ends if y.end[0] not in ('infeasible', 'fatal')]
            if len(ends) != 1:
                raise ir.AnalysisError('findlabel of a new name: %r' % [y.end for y in ends])
            x = ends[0]
            if oob(x):
                break
            n += 1
            blocks = len({o for o in x.mem if isinstance(o, tuple) and o[0] == 'heap'})
            if blocks >= 3:
                after += 1
        r.ends = [x]
        return judge(r, 'symbols one after the other')
    yield many


def vocabulary(prog):
    e = Engine(prog)
    cpus = [n for n in cpunames(prog)]
    for cn in cpus:
        for again in (0, 1):
            def f(cn=cn, again=again):
                r = Run(prog, {'filter': enc.filter_stub})
                st = State()
                empty(r, st)
                r.e.setg(st, 'asmflags', F['CODE_ON'] | F['ORG_GV'])
                r.e.setg(st, 'passnumber', 1 + again)
                ends = r.call('Xcpu', [0, 0, r.e.putstr(st, 'mn', 'CPU'), r.e.putstr(st, 'op', cn)], st)
                for x in list(ends):
                    if x.end[0] == 'ret':
                        y = x.copy()
                        y.frames, y.end = [], None
                        if not again:
                            r.call('undeflabels', [r.e.getg(y, 'lroot')], y)
                return judge(r, 'vocabulary of %s' % cn)
            yield f


def cpunames(prog):
    g = prog.gl('cpulist')
    e = Engine(prog)
    o = e.ginit(g.name)
    n = ir.size_of(g.ty.e)
    seen = {}
    for k in range(g.ty.n):
        c = o.cells.get(k * n)
        t = c and e.getstr(State(), c[1]) if c and isinstance(c[1], Ptr) else None
        fn = next((o.cells[q][1] for q in range(k * n, k * n + n) if q in o.cells and isinstance(o.cells[q][1], dom.Fn)), None)
        if t:
            seen.setdefault(fn, t.decode('latin1'))
    return sorted(seen.values())


def records(prog):
    """bytes one after the other with moves of the location, both formats"""
    for fmt in (F['CODE_HEX'], F['CODE_SCODE']):
        for jump in list(range(0, 19)) + [32, 99]:
            def f(fmt=fmt, jump=jump):
                r = Run(prog, {'outputbyte': lambda *a: 0, 'fopen': lambda e, st, a, i: Ptr('FILE:code', 0)})
                x = State()
                empty(r, x)
                r.e.setg(x, 'asmflags', fmt | F['CODE_ON'] | F['ORG_GV'])
                r.e.setg(x, 'pc', 0x1000)
                for n in range(36):
                    sts = []
                    for fn, args in ([('setpc', [0x8000])] if n == jump else []) + [('insert8', [Sym('B%d' % n, 8)])]:
                        x = x.copy()
                        x.frames, x.end = [], None
                        ends = [y for y in r.e.call(fn, args, x) if y.end[0] not in ('infeasible',)]
                        if len(ends) != 1:
                            raise ir.AnalysisError('%s: %r' % (fn, [y.end for y in ends]))
                        x = ends[0]
                r.ends = [x]
                return judge(r, 'bytes in a row, location moved after %d' % jump)
            yield f


def gets(text, cycle=False):
    """fgets delivering the given lines, each cut as the size given asks"""
    def f(e, st, a, ins):
        k = st.data.get('k', 0)
        n = a[1]
        if not isinstance(n, int):
            raise ir.AnalysisError('size of a read unknown at ' + ins.where())
        n = dom.sgn(n, 32)
        if k >= len(text):
            nest.setf(st, a[2], eof=1)
            st.data['over'] = st.data.get('over', 0) + 1
            if st.data['over'] > 8:
                st.end = ('stop', '', ins.where())
                return END
            return 0
        t = (text[k] + '\n').encode('latin1')
        if len(t) > n - 1:
            t = t[:n - 1]
        st.data['k'] = k + 1
        for i, b in enumerate(t + b'\0'):
            e.store(st, ptradd(a[0], i), ir.INT(8), b, ins)
        return a[0]
    return f


def getc(e, st, a, ins):
    return 10


def src(prog, text, stubs):
    """Run over a source with the given lines"""
    r = Run(prog)
    sb = dict(nest.STUBS, **BASE)
    sb.update({'fgets': gets(text), 'getc': getc, 'fgetc': getc, '_IO_getc': getc, 'filter': enc.filter_stub, 'error': nest.s_error,
               'warning': lambda e, st, a, i: 0, 'findlabel': lambda e, st, a, i: Ptr('lab:*', 0), 'rewind': lambda *a: 0})
    sb.update(stubs)
    e, st = nest.world(prog, sb, max_steps=12000000)
    r.e = e
    r.watch(e)
    st.data['k'] = 0
    e.setg(st, 'sourcelevel', M32)
    e.setg(st, 'macrolevel', 0)
    e.setg(st, 'asmflags', F['NOERROR'])
    e.setg(st, 'passnumber', 2)
    e.setg(st, 'linenumber', 5)
    g = prog.gl('curline')
    st.mem[g.name] = Obj(ir.size_of(g.ty), 'zero')
    st.owned.add(g.name)
    return r, e, st


def readers(prog):
    """every function that reads lines, on lines of every length around the limits"""
    L = [text_of(k, n) for n in (0, 1, 9, 100, 247, 248, 249, 250, 251, 254, 255, 256, 300) for k in ('letters', 'blanks', 'odd', 'tabs')]
    for t in L:
        for prep in ('pass', 'Xif', 'Xmacro', 'macro line'):
            def f(t=t, prep=prep):
                lens = []

                def line(e, st, a, ins):
                    s = e.getstr(st, a[0])
                    if s is None:
                        raise ir.AnalysisError('line unknown at ' + ins.where())
                    st.data['len'] = max(st.data.get('len', 0), len(s))
                    st.data['n'] = st.data.get('n', 0) + 1
                    return nest.codes(prog)['ENDC'] if prep == 'Xif' and st.data['n'] >= 3 else 0
                body = [t, ' ENDM'] if prep == 'Xmacro' else [t, t + 'x']
                r, e, st = src(prog, body, {'asmline': line, 'deflabel': lambda e, st, a, i: Ptr('lab:MAC', 0), 'testtrue': lambda *a: 1})
                enc.mklabel(prog, e, st, 'MAC', 0, 0, enc.L_MACRO)
                if prep == 'pass':
                    ends = r.call('pass', [2], st)
                elif prep == 'Xif':
                    ends = r.call('Xif', [3, 0, e.putstr(st, 'mn', 'IF'), e.putstr(st, 'op', '1')], st)
                else:
                    ends = r.call('Xmacro', [3, e.putstr(st, 'nm', 'MAC'), e.putstr(st, 'mn', 'MACRO'), 0], st)
                    if prep == 'macro line':
                        for x in list(ends):
                            if x.end[0] == 'ret':
                                y = x.copy()
                                y.frames, y.end = [], None
                                r.call('macrocall', [Ptr('lab:MAC', 0), 3, 0], y)

                def long(x):
                    if x.data.get('len', 0) > LINE:
                        return 'macro.c linegets', 'a line of %d characters is assembled' % x.data['len']
                return judge(r, '%s on a line of %d characters' % (prep, len(t)), long)
            yield f
    for n in list(range(0, 70)) + [100, 240, LINE - 6]:
        def f(n=n):
            r, e, st = src(prog, [' ENDM'], {'deflabel': lambda e, st, a, i: Ptr('lab:MAC', 0)})
            enc.mklabel(prog, e, st, 'MAC', 0, 0, enc.L_MACRO)
            r.call('Xmacro', [3, e.putstr(st, 'nm', 'N' * n), e.putstr(st, 'mn', 'MACRO'), 0], st)
            return judge(r, 'macro name of %d characters' % n)
        yield f


def calls(prog):
    """macro calls: argument counts and lengths, and what the text makes of them"""
    opers = [None, 'A', ',', ',' * 9, ','.join('ABCDEFGHI'), ','.join('ABCDEFGHIJ'), ','.join('ABCDEFGHIJKL'), ','.join(['AB'] * 60), 'A' * 245,
             'A' * 239, 'A' * 240, 'A' * 241, 'A' * 242, 'A' * 122 + ',' + 'B' * 122, ','.join(['X' * 26] * 9), ','.join(['X' * 24] * 10)]
    texts = ['\\1' * 120, '\\*' * 120, '\\9' * 100, '\\#' * 120, '\\' * 240, '\\0' * 100, '\\a' * 100, '\\1\\2' * 60, ' op \\1,\\2', '\\1' + 'x' * 240, 'x\\*' + 'x\\#' * 60] + \
        ['x' * j + m for j in (0, 1, 117, 230, 231, 238, 239, 240, 241, 242, 243, 247) for m in ('\\1', '\\*', '\\#', '\\x', '\\', '\\9')] + \
        ['x' * j for j in (239, 240, 241, 242, 249)]
    for oper in opers:
        for lo in range(0, len(texts), 12):
            def f(oper=oper, lo=lo, body=[t[:LINE] for t in texts[lo:lo + 12]]):
                def line(e, st, a, ins):
                    s = e.getstr(st, a[0])
                    st.data['len'] = max(st.data.get('len', 0), len(s or b''))
                    return 0
                r, e, st = src(prog, body + [' ENDM'], {'asmline': line, 'deflabel': lambda e, st, a, i: Ptr('lab:MAC', 0)})
                enc.mklabel(prog, e, st, 'MAC', 0, 0, enc.L_MACRO)
                ends = r.call('Xmacro', [3, e.putstr(st, 'nm', 'MAC'), e.putstr(st, 'mn', 'MACRO'), 0], st)
                for x in list(ends):
                    if x.end[0] != 'ret':
                        raise ir.AnalysisError('macro definition: %r' % (x.end,))
                    for full in (0, 1) if lo == 0 else (0,):
                        y = x.copy()
                        y.frames, y.end = [], None
                        put(e, y, prog.gl('curline').name, 'A' * (LINE if full else 10))
                        r.call('macrocall', [Ptr('lab:MAC', 0), 3, 0 if oper is None else e.putstr(y, 'op', oper)], y)

                def long(x):
                    if x.data.get('len', 0) > LINE:
                        return 'macro.c linegets', 'a line of %d characters is assembled' % x.data['len']
                return judge(r, 'call with %r' % (oper if oper is None or len(oper) < 30 else oper[:27] + '...'), long)
            yield f


def levels(prog):
    g = prog.gl('source')
    n = ir.size_of(g.ty) // ir.size_of(g.ty.e)
    for fn in ('Xinclude', 'macrocall'):
        for lev in range(-1, n):
            def f(fn=fn, lev=lev):
                r, e, st = src(prog, [], {'asmline': lambda e, st, a, i: nest.codes(prog)['ENDM'], 'fopen': lambda e, st, a, i: Ptr('FILE:inc', 0)})
                p = enc.mklabel(prog, e, st, 'MAC', 0, 0, enc.L_MACRO)
                q = e.newobj(st, 'mline', 32, 'zero')
                e.store(st, Ptr(p.obj, prog.ditypes['label']['ptr'][0]), ir.PTRT, q)
                e.setg(st, 'sourcelevel', lev & M32)
                a = [p, 3, 0] if fn == 'macrocall' else [0, 0, e.putstr(st, 'mn', 'INCLUDE'), e.putstr(st, 'nm', 'f')]
                r.call(fn, a, st)

                def deep(x):
                    v = e.getg(x, 'sourcelevel')
                    if x.end[0] == 'ret' and (not isinstance(v, int) or not -1 <= dom.sgn(v, 32) < n):
                        return 'macro.c ' + fn, 'source level %s of %d' % (dom.show(v), n)
                return judge(r, '%s at source level %d' % (fn, lev), deep)
            yield f
    # an include that ends gives its level back
    for lev in range(n):
        def f(lev=lev):
            r, e, st = src(prog, ['A'], {})
            for k in range(lev + 1):
                nest.level(prog, e, st, k, 0 if k else 1, Ptr('FILE:src', 0))
            e.setg(st, 'sourcelevel', lev)
            e.setg(st, 'includelevel', lev)
            nest.setf(st, nest.SRC, n=3)
            e.stubs['fclose'] = lambda *a: 0
            g = prog.gl('curline')
            r.call('linegets', [Ptr(g.name, 0), 250], st)

            def deep(x):
                v = e.getg(x, 'sourcelevel')
                if x.end[0] == 'ret' and (not isinstance(v, int) or not 0 <= dom.sgn(v, 32) < n):
                    return 'macro.c linegets', 'source level %s of %d' % (dom.show(v), n)
            return judge(r, 'ends of files at source level %d' % lev, deep)
        yield f


TOK = ['A', ',', '(', ')', "'", '"', '\\', ' ', ';']


def pieces(prog):
    """the operand splitter with little or no room left, and the text of a line trimmed and reversed in place"""
    buf = prog.gl('buffer', 'filter.c')
    size = ir.size_of(buf.ty)
    pats = sorted(patterns(prog))
    texts = ['', 'A', 'AB', 'A,B', 'AAAA,BBBB', '(A)', "'A'", 'A;B', '  A', 'A B C', 'A=B', 'A.B', '#A', 'A' * 12, 'A' * 8 + ',' + 'B' * 8]
    for room in list(range(0, 14)) + [40]:
        def f(room=room):
            r = Run(prog, {'fatal': full})
            for p in pats:
                for t in texts:
                    st = State()
                    # from wherever the position is, a line starts at the front
                    r.e.setg(st, 'bufferpos', Ptr(buf.name, size - 1 - room))
                    outs = [r.e.newobj(st, 'out%d' % i, 8) for i in range(p.count('?'))]
                    e = r.e
                    e.push(st, prog.fn('filter'), [e.putstr(st, 's', t), e.putstr(st, 'p', p)] + outs, None, None)
                    r.ends += [x for x in e.run(st) if x.end[0] != 'infeasible']

            def room_left(x):
                v = r.e.getg(x, 'bufferpos')
                if x.end[0] == 'ret' and not (isinstance(v, Ptr) and v.obj == buf.name and isinstance(v.off, int) and 0 <= v.off < size):
                    return 'filter.c filter', 'next piece would start at %s of %d' % (v, size)
            return judge(r, 'splitter with %d characters left' % room, room_left)
        yield f

    def f():
        r = Run(prog)
        for n in range(0, 5):
            for t in itertools.product("A'\"\\", repeat=n):
                st = State()
                r.call('reverse', [r.e.putstr(st, 's', ''.join(t))], st)
        return judge(r, 'reversing a text')
    yield f
    for t in ['', ' ', '  ', '\t', 'A', 'A ', ' A', 'A  ', ' ' * LINE, 'A' * LINE, 'A' + ' ' * (LINE - 1), ' A ; B', ';', 'A ;']:
        def f(t=t):
            r = Run(prog)
            old = lines.Engine
            try:
                lines.Engine = lambda prog, sb=None, **k: mk(r, sb)
                L = lines.Line(prog, t, 3)
            finally:
                lines.Engine = old
            r.ends = L.ends
            return judge(r, 'line %r' % (t if len(t) < 12 else t[:10] + '...'))
        yield f
    def f():
        # an operand text taken apart by the parser itself
        r = Run(prog)
        k = encrun.cpu(prog, '6502')
        en = encrun.pseudo_names(prog)['IF']
        ends = []
        for t in ('V1', 'V1=V2', 'V1+V2*V1-V2', "'A'>V1", '(V1)', '!V1', '-V1', 'V1.3'):
            e, x = case(r, k, encrun.pseudo_names(prog)['DW'], t, {n: (v, enc.USED) for n, v in datachk.V.items()})
            ends += r.ends
        r.ends = ends
        return judge(r, 'operands')
    yield f


def full(e, st, a, ins):
    st.end = ('fatal', '', ins.where())
    return END


def behind(prog, f, v):
    """strings a value may be"""
    out = set(flow.strings_behind(prog, f, v) or ())
    d, todo, seen = flow.defs(f), [v], set()
    while todo:
        v = todo.pop()
        t = flow.conststr(prog, f, v)
        if t is not None:
            out.add(t)
        elif v[0] == 'r' and v[1] not in seen:
            seen.add(v[1])
            i = d.get(v[1])
            if i is not None and i.op in ('phi', 'select'):
                todo += [x for _, x in i.a] if i.op == 'phi' else [i.a[1], i.a[2]]
    return out


def patterns(prog):
    flt = prog.fn('filter').name
    out = set()
    for f in prog.funcs.values():
        for i in ir.instrs(f):
            if i.op == 'call' and i.a[0] == ('g', flt):
                out |= set(behind(prog, f, i.a[1][1][1]) or ())
    return out


# ---------------------------------------------------------------- rules read off the program
def results(c, prog):
    c.rule('every call of the splitter: it hands over as many places for pieces as the pattern has, and each is a variable of the caller that holds a pointer')
    flt = prog.fn('filter').name
    for f in prog.funcs.values():
        for i in ir.instrs(f):
            if i.op != 'call' or i.a[0] != ('g', flt):
                continue
            ps = behind(prog, f, i.a[1][1][1])
            if not ps or len(ps) > 1:
                c.counts['patterns not constant'] = c.counts.get('patterns not constant', 0) + 1
                continue
            need = max(p.count('?') for p in ps)
            args = i.a[1][2:]
            t = None
            if len(args) < need:
                t = '%d pieces, %d places' % (need, len(args))
            for ty, v in args[:need]:
                p = bounds.place(prog, f, v)
                if p[0] == 'object' and p[2] is not None and (p[3] < 0 or p[3] + 8 > p[2]) or ty.k != 'p':
                    t = 'a piece is stored in %r' % (p,)
            if t:
                c.bad('places for pieces', i.where(), '%s in %s: %s' % (' '.join(map(repr, sorted(ps))), f.cname, t), 'pieces ' + f.cname)
            else:
                c.ob('places for pieces', '%s %s' % (f.cname, i.where()))
    c.floor('places for pieces', 30)


def run(c, prog):
    results(c, prog)
    st = bounds.sites(prog)
    c.rule('every store at a fixed place of an object: the place lies in it')
    moving = {}
    for f, i, z, p in st:
        if p[0] == 'object':
            if p[2] is not None and (p[3] < 0 or p[3] + (z or 1) > p[2]):
                c.bad('fixed places', i.where(), '%s stores %s bytes at offset %d of %s (%d bytes)' % (f.cname, z, p[3], p[1], p[2]), 'fixed %s %s' % (f.cname, p[1]))
            else:
                c.ob('fixed places')
        elif p[0] == 'moving':
            moving.setdefault(i.where(), f.cname)
    c.counts['stores at a field of a structure the function was handed'] = sum(1 for x in st if x[3][0] == 'field')
    for k in ('6502', '6800', 'Z80'):
        encrun.cpu(prog, k)
    encrun.cpu(prog, '6502', 1)
    encrun.pseudo_names(prog)
    nest.codes(prog)
    nest.file_offset(prog)
    c.rule('every store that moves along an array, from every state its callers leave on the partition of lengths and positions around the limits: '
           'it stays inside the object, or the run ends with a diagnostic; the positions left are again inside')
    llens, first = widths(prog)
    c.counts['line lengths accepted'] = '%d..%d' % (llens[0], llens[-1])
    if llens[0] < 1:
        c.bad('line length', 'output.c setpage', 'PAGE accepts a line of %d characters' % llens[0], 'line length')
    fam = [('titles', titles(prog)), ('listing lines', listing_ops(prog, llens)), ('summary', summary(prog, llens)), ('cross reference', symbols(prog, llens)),
           ('messages', messages(prog)), ('names', names(prog)), ('vocabularies', vocabulary(prog)), ('records', records(prog)), ('lines read', readers(prog)),
           ('macro calls', calls(prog)), ('nesting', levels(prog)), ('pieces', pieces(prog))]
    tasks = [(g, f) for g, fs in fam for f in fs]
    seen = set(first[3])
    res = [('page', first)] + pmap(tasks)
    done = set()
    for g, x in res:
        if isinstance(x, str):
            c.err('%s: %s' % (g, x))
            continue
        nm, n, bad, hit, u = x
        seen |= hit
        c.used(encrun.U(*u))
        for w, t in bad:
            if (w, g) not in done:
                done.add((w, g))
                c.bad(g, w, t, '%s %s' % (g, nm))
        c.ob(g, nm, max(n - len(bad), 0))
        if not n:
            c.err('%s: %s has no end' % (g, nm))
    for w, fn in sorted(moving.items()):
        if w in seen:
            c.ob('stores reached', '%s %s' % (fn, w))
        else:
            c.counts.setdefault('stores not reached', []).append('%s %s' % (fn, w))
    c.floor('stores reached', 30)
    c.floor('listing lines', 1000)
    c.assume.append('a pointer to a structure handed to a function points to a whole structure of its type')
    c.assume.append('library functions write what their documentation says; calls of the stack are not bounded here')


def _call(k):
    try:
        del OOBS[:]
        return _tasks[k][1]()
    except ir.AnalysisError as x:
        if OOBS:        # the path ran on with what a write outside its object left
            return 'then ' + str(x), 1, sorted({(w, '%s: %s' % (_tasks[k][0], t)) for w, t in OOBS}), frozenset(), (0, 0, frozenset(), frozenset())
        return str(x)


def pmap(tasks):
    global _tasks
    _tasks = tasks
    r = chk.pool_map(_call, range(len(tasks)), chunk=20)
    return [(g, x) for (g, f), x in zip(tasks, r)]
