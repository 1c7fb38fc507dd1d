"""Abstract runs of the line assembler and of the block readers around it.

Handlers, macro calls and the reading of lines are replaced by summaries that do
anything their interface allows; the recovery point (setjmp/longjmp) is tracked as
a token naming the activation it belongs to."""
import dom
import enc
import ir
import isa
import encchk
from dom import Sym, Ptr, Fn, Tok, BV
from eng import Engine, State, Obj, END, INLINE, JUMPED, ptradd

F = enc.F
NOLABEL, DEFLABEL, DEFMACRO, DEFCOND = 16, 32, 64, 128
STAR = Sym('STAR', 64)
K = Sym('K', 31)
LIM = 1 << 32


def rootglobal(f, v, seen=None):
    """global a store address is based on, or None"""
    seen = seen or set()
    while True:
        if v[0] == 'g':
            return v[1]
        if v[0] in ('gep', 'bitcast'):
            v = v[2]
            continue
        if v[0] == 'r' and v[1] not in seen:
            seen.add(v[1])
            i = defs(f).get(v[1])
            if i is None:
                return None
            if i.op == 'getelementptr':
                v = i.a[1]
                continue
            if i.op == 'phi':
                for _, x in i.a:
                    g = rootglobal(f, x, seen)
                    if g:
                        return g
                return None
            if i.op == 'select':
                return rootglobal(f, i.a[1], seen) or rootglobal(f, i.a[2], seen)
        return None


def defs(f):
    d = f.__dict__.get('_defs')
    if d is None:
        d = f._defs = {i.dst: i for i in ir.instrs(f) if i.dst}
    return d


def address_taken(prog):
    """functions whose address is stored or passed somewhere"""
    out = set()

    def scan(v):
        if v[0] == 'g' and v[1] in prog.funcs:
            out.add(v[1])
        elif v[0] == 'agg':
            for _, x in v[1]:
                scan(x)
        elif v[0] in ('gep', 'bitcast', 'ptrtoint', 'inttoptr'):
            scan(v[2])
    for g in prog.globals.values():
        if g.defined and g.init:
            scan(g.init[1])
    for f in prog.funcs.values():
        for i in ir.instrs(f):
            if i.op == 'call':
                for t, v in i.a[1]:
                    if v:
                        scan(v)
            elif i.op == 'store':
                scan(i.a[1])
            elif i.op == 'phi':
                for _, v in i.a:
                    scan(v)
            elif i.op == 'select':
                scan(i.a[1])
                scan(i.a[2])
    return out


def closure(prog, f, fp=None):
    """names of the functions reachable from f; calls through a pointer go to fp (default: every address-taken function)"""
    key = (f.name, None if fp is None else tuple(sorted(fp)))
    cache = prog.__dict__.setdefault('_closure', {})
    if key in cache:
        return cache[key]
    at = address_taken(prog) if fp is None else fp
    seen, work = set(), [f.name]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        g = prog.funcs.get(n)
        if g is None:
            continue
        for i in ir.instrs(g):
            if i.op == 'call':
                if i.a[0][0] == 'g':
                    work.append(i.a[0][1])
                else:
                    work += at
    cache[key] = seen
    return seen


# ---------------------------------------------------------------- setjmp
def s_setjmp(e, st, a, ins):
    fr = st.frames[-1]
    if not fr.ids:
        st.cnt += 1
        fr.ids = ('act', st.cnt)
    p = a[0]
    e.store(st, p, ir.INT(64), Tok((fr.ids, fr.bb, fr.idx, fr.fn.cname)))
    st.ev('setjmp', p, fr.fn.cname, ins.where())
    return 0


def jmptok(e, st, p):
    o = e.obj(st, p.obj)
    c = o.cells.get(p.off)
    return c[1] if c and isinstance(c[1], Tok) else None


def s_longjmp(e, st, a, ins):
    t = jmptok(e, st, a[0])
    if t is None:
        st.end = ('longjmp', None, ins.where())
        return END
    act, bb, idx, fn = t.v
    if act == 'outer':
        st.end = ('recover', t.v[3], ins.where())
        return END
    for k in range(len(st.frames) - 1, -1, -1):
        if st.frames[k].ids == act:
            break
    else:
        st.end = ('defect', 'recovery point of %s used after it returned' % fn, ins.where())
        return END
    del st.frames[k + 1:]
    fr = st.frames[-1]
    fr.bb, fr.idx = bb, idx
    i = fr.fn.blocks[bb].ins[idx]
    if i.dst:
        fr.regs[i.dst] = 1
    fr.idx += 1
    st.ev('longjmp', fn)
    return JUMPED


OUTER = Tok(('outer', 0, 0, 'caller'))


def set_recovery(e, st, name='caller'):
    g = e.p.gl('errorjump')
    e.store(st, Ptr(g.name, 0), ir.INT(64), Tok(('outer', 0, 0, name)))


def recovery(e, st):
    return jmptok(e, st, Ptr(e.p.gl('errorjump').name, 0))


# ---------------------------------------------------------------- printf to memory
def s_sprintf(e, st, a, ins):
    """contents are constant where format and arguments are; a number of unknown digits leaves unknown leading characters"""
    isn = ins.a[0][1].find('snprintf') >= 0
    d, rest = a[0], list(a[2:] if isn else a[1:])
    cap = a[1] if isn else None
    st.ev('sprintf', d, tuple(rest), ins.where())
    fmt = e.getstr(st, rest[0])
    out = []
    args = rest[1:]
    if fmt is None or not isinstance(d, Ptr) and d != 0:
        out = None
    else:
        import re
        pos = 0
        for m in re.finditer(rb'%(-?)(0?)(\d*)(l*)([dcsXxu%])', fmt):
            out += list(fmt[pos:m.start()])
            pos = m.end()
            cv = m.group(5)
            if cv == b'%':
                out.append(37)
                continue
            v = args.pop(0)
            wd = int(m.group(3) or 0)
            if cv == b'c':
                out.append(dom.trunc(v, 8) if not isinstance(v, int) else v & 255)
            elif cv == b's':
                t = e.getstr(st, v)
                if t is None:
                    st.cnt += 1
                    t = [Sym('str%d.%d' % (st.cnt, i), 8) for i in range(4)]
                out += [32] * (wd - len(t)) + list(t)
            elif isinstance(v, int):
                t = b'%*d' % (wd, dom.sgn(v, 32)) if cv in b'du' else b'%*X' % (wd, v)
                out += list(t)
            else:
                st.cnt += 1
                out += [Sym('dig%d.%d' % (st.cnt, i), 8) for i in range(max(wd - 1, 0))] + [ord('0')]
        out += list(fmt[pos:])
    if not isinstance(d, Ptr):
        return len(out) if out is not None and all(isinstance(b, int) for b in out) else Sym('ret.sprintf', 32)
    if out is None:
        o = e.wobj(st, d.obj)
        o.cells, o.lazy, o.gen = {}, 'sym', o.gen + 1
        return Sym('ret.sprintf', 32)
    if isinstance(cap, int):
        out = out[:cap - 1]
    for i, b in enumerate(out + [0]):
        e.store(st, ptradd(d, i), ir.INT(8), b, ins)
    return len(out)


# ---------------------------------------------------------------- asmline
def ev_stub(name, ret=0):
    def f(e, st, a, ins):
        st.ev(name, tuple(a), ins.where())
        return ret
    return f


def s_setpc(e, st, a, ins):
    st.ev('setpc', a[0], ins.where())
    e.setg(st, 'pc', a[0])
    return 0


def raise_error(e, st, msg, ins):
    """the summary ends in error(msg)"""
    p = e.putstr(st, 'msg:' + msg, msg)
    e.push(st, e.p.fn('error'), [p], None, ins)
    return st, JUMPED


def snap(e, st):
    sl = e.getg(st, 'starlabel')
    d = e.p.ditypes['label']
    return dict(pc=e.getg(st, 'pc'), advance=e.getg(st, 'advance'), star=e.load(st, ptradd(sl, d['value'][0]), ir.INT(64)),
                flags=e.getg(st, 'asmflags'), errjmp=recovery(e, st), errnumber=e.getg(st, 'errnumber'))


def handler(kind):
    """any instruction or directive handler: places K bytes, then returns or is in error"""
    def f(e, st, a, ins):
        st.ev('handler', kind, tuple(a), snap(e, st), ins.where())
        out = []
        for er in (0, 1):
            x = st.copy()
            if kind == 'code':
                e.setg(x, 'pc', dom.add(64, e.getg(x, 'pc'), dom.zext(K, 31, 64)))
                e.setg(x, 'advance', dom.add(32, e.getg(x, 'advance'), dom.zext(K, 31, 32)))
            elif kind in ('cond', 'macrodef', 'call'):
                # nested lines leave any advance and any location behind
                havoc_nested(e, x)
            if er:
                out.append(raise_error(e, x, 'handler error', ins))
            else:
                st.cnt += 1
                out.append((x, Sym('HRET', 32) if kind in ('cond', 'macrodef') else 0))
        return out
    return f


def havoc_nested(e, st):
    e.setg(st, 'advance', Sym('ADVN', 32))
    sl = e.getg(st, 'starlabel')
    e.store(st, ptradd(sl, e.p.ditypes['label']['value'][0]), ir.INT(64), Sym('STARN', 64))
    e.setg(st, 'pc', Sym('PCN', 64))


WORDS = {
    'MNE': (enc.L_MNEMO, 8, 'code'), 'DEFL': (enc.L_MNEMO, 8 | DEFLABEL, 'code'), 'EQU': (enc.L_MNEMO, 8 | DEFLABEL, 'code'),
    'NOL': (enc.L_MNEMO, 8 | NOLABEL, 'code'),
    'IFX': (enc.L_MNEMO, 8 | NOLABEL | DEFCOND, 'cond'), 'MACX': (enc.L_MNEMO, 8 | DEFLABEL | DEFMACRO, 'macrodef'),
    'ENDX': (enc.L_MNEMO, 8 | NOLABEL | DEFMACRO, 'macrodef'),
    'CALL': (enc.L_MACRO, 0, 'call'), 'SYM': (enc.L_ABS, 8, None), 'UMAC': (enc.L_MACRO, enc.UNDEF, 'call'),
    'UMNE': (enc.L_MNEMO, 8 | enc.UNDEF, 'code'), 'REGX': (enc.L_REGS, 8, None),
}

# text, expected: label (or None), keyword, operand, or 'error', 'empty', 'label'
TEXTS = [
    ('', 'empty'), (' ', 'empty'), ('\t', 'empty'), ('; remark', 'empty'), ('  ; remark', 'empty'), (';', 'empty'),
    ('LAB', ('label', 'LAB')), ('LAB ; remark', ('label', 'LAB')), ('LAB ', ('label', 'LAB')), ('SYM', ('label', 'SYM')),
    ('UMAC', ('label', 'UMAC')), ('.L', ('label', '.L')),
    (' LAB', 'error'), ('1LAB MNE', 'error'), ('LAB XYZ', 'error'), (' XYZ A', 'error'), ('L-B MNE', 'error'), ('LAB XYZ 1', 'error'),
    ('LAB UMNE', 'error'), (' UMAC 1', 'error'),
    ('MNE', (None, 'MNE', None)), (' MNE', (None, 'MNE', None)), (' MNE OP', (None, 'MNE', 'OP')), ('\tMNE\tOP', (None, 'MNE', 'OP')),
    (' mne OP', (None, 'MNE', 'OP')), (' MNE OP ; remark', (None, 'MNE', 'OP')), (' MNE;remark', (None, 'MNE', None)),
    ("\tMNE ';'", (None, 'MNE', "';'")), ('LAB MNE', ('LAB', 'MNE', None)), ('LAB MNE OP', ('LAB', 'MNE', 'OP')),
    (' LAB MNE OP  ', ('LAB', 'MNE', 'OP')), ('LAB MNE A , B', ('LAB', 'MNE', 'A , B')), ('.L MNE OP', ('.L', 'MNE', 'OP')),
    ('LAB = OP', ('LAB', 'EQU', 'OP')), ('LAB=OP', ('LAB', 'EQU', 'OP')), (' LAB = OP', ('LAB', 'EQU', 'OP')), ('* = OP', ('*', 'EQU', 'OP')),
    ('LAB DEFL OP', ('LAB', 'DEFL', 'OP')), (' DEFL OP', 'error'), ('DEFL OP', 'error'),
    ('NOL OP', (None, 'NOL', 'OP')), ('LAB NOL OP', 'error'), ('SYM MNE OP', ('SYM', 'MNE', 'OP')), ('REGX MNE OP', ('REGX', 'MNE', 'OP')),
    (' IFX A=B', (None, 'IFX', 'A=B')), ('IFX A', (None, 'IFX', 'A')), ('LAB IFX A', 'error'), (' IFX', (None, 'IFX', None)),
    ('LAB MACX', ('LAB', 'MACX', None)), (' ENDX', (None, 'ENDX', None)), ('LAB ENDX', 'error'),
    (' CALL', (None, 'CALL', None)), (' CALL 1,2', (None, 'CALL', '1,2')), ('LAB CALL 1', ('LAB', 'CALL', '1')), ('CALL', (None, 'CALL', None)),
]


class Line:
    """one abstract run of asmline"""

    def __init__(s, prog, text, status, star=None, words=WORDS, extra=None, setup=None, org=True, passno=2):
        s.text, s.status = text, status
        labels = {}

        def search(e, st, a, ins):
            n = e.getstr(st, a[0])
            if n is None:
                raise ir.AnalysisError('name not constant at ' + ins.where())
            return labels.get(n.decode('latin1').upper(), 0)

        def dl(e, st, a, ins):
            n = e.getstr(st, a[0])
            st.ev('deflabel', n, a[1], a[2], a[3], ins.where())
            x = st.copy()
            return [(st, Ptr('*deflabel', 0)), raise_error(e, x, 'definition error', ins)]
        stubs = {
            'filter': enc.filter_stub, 'searchlabel': search, 'findlabel': search, 'deflabel': dl, 'setpc': s_setpc, 'error': lambda e, st, a, i: (
                st.ev('error', e.getstr(st, a[0]), i.where()), INLINE)[1],
            'outputraw': ev_stub('outputraw'), 'outputline': ev_stub('outputline'), 'position': ev_stub('position'),
            'outputaddr': ev_stub('outputaddr'), 'snprintf': s_sprintf, 'sprintf': s_sprintf, 'longjmp': s_longjmp,
            'setjmp': s_setjmp, '_setjmp': s_setjmp, 'macrocall': handler('call'), 'zerobuffer': ev_stub('zerobuffer'),
            '__snprintf_chk': s_sprintf,
        }
        for w, (t, fl, k) in words.items():
            if k:
                stubs['H:' + w] = handler(k)
        stubs.update(extra or {})
        e = s.e = Engine(prog, stubs)
        st = State()
        f0 = isa.c_rng(STAR, 0, LIM - 1)
        st.facts = encchk.facts_of(f0)
        for w, (t, fl, k) in words.items():
            labels[w] = mkword(prog, e, st, w, t, fl, Fn('H:' + w) if k else 0)
        sl = enc.mklabel(prog, e, st, '*', STAR, enc.USED if org else enc.UNDEF)
        labels['*'] = sl
        e.setg(st, 'starlabel', sl)
        e.setg(st, 'asmflags', Sym('FLAGS', 32))
        e.setg(st, 'pc', Sym('PC0', 64))
        e.setg(st, 'advance', Sym('ADV0', 32))
        e.setg(st, 'errnumber', Sym('ERRN', 32))
        e.setg(st, 'linenumber', Sym('LINE', 32))
        e.setg(st, 'passnumber', passno)
        e.setg(st, 'lpos', 0)
        e.setg(st, 'segment', 7)
        set_recovery(e, st)
        if setup:
            setup(e, st)
        p = e.putstr(st, 'line', text, 256)
        s.ends = [x for x in e.call('asmline', [p, status], st) if x.end[0] != 'infeasible']

    def star(s, x):
        sl = s.e.getg(x, 'starlabel')
        return s.e.load(x, ptradd(sl, s.e.p.ditypes['label']['value'][0]), ir.INT(64))


def mkword(prog, e, st, name, typ, flags, ptr):
    p = enc.mklabel(prog, e, st, name, 0, flags, typ)
    e.store(st, Ptr(p.obj, prog.ditypes['label']['ptr'][0]), ir.PTRT, ptr)
    return p


def location(c, prog):
    """asmline: the handler runs at the location of the line and the location afterwards is past what it placed"""
    c.rule('every line: the handler is entered with the record position at the location and nothing advanced, and on every way out of the '
           'line, error included, the location is the one before plus the bytes placed')
    n = 0
    for text, exp in TEXTS:
        for status in (2, 3, 0, 1):
            L = Line(prog, text, status)
            c.used(L.e)
            for x in L.ends:
                hs = x.events('handler')
                t = None
                if x.end[0] not in ('ret', 'recover'):
                    t = 'ends in %r' % (x.end,)
                for _, kind, a, sn, w in hs:
                    f = x.facts
                    if not f.equal(sn['pc'], STAR, 64):
                        t = 'handler entered with record position %s' % dom.show(sn['pc'])
                    elif kind == 'code' and not f.equal(sn['advance'], 0, 32):
                        t = 'handler entered with advance %s' % dom.show(sn['advance'])
                want = STAR
                nested = False
                for _, kind, a, sn, w in hs:
                    if kind == 'code':
                        want = dom.add(64, want, dom.zext(K, 31, 64))
                    else:
                        nested = True
                got = L.star(x)
                if nested:
                    if x.end[0] == 'ret' and not x.facts.equal(got, Sym('STARN', 64), 64):
                        t = t or 'location after nested lines becomes %s' % dom.show(got)
                elif not x.facts.equal(got, want, 64):
                    t = t or 'location after the line is %s, expected %s' % (dom.show(got), dom.show(want))
                if t:
                    c.bad('line location', hs[-1][4] if hs else 'crasm.c asmline', 'line %r status %d, %s: %s' % (text, status, x.end[0], t),
                          'line %r' % text)
                else:
                    c.ob('line location', '%r status %d: %s' % (text, status, x.end[0]))
    c.rule('handlers whose bytes are added to the location by the line assembler assemble no other lines')
    asm = prog.fn('asmline').name
    hs = set()
    for g in tables(prog):
        for en in enc.read_table(prog, Engine(prog), g):
            if en.type == enc.L_MNEMO and not en.flags & (DEFCOND | DEFMACRO) and isinstance(en.ptr, Fn):
                hs.add(en.ptr.name)
    for h in sorted(hs):
        if asm in closure(prog, prog.funcs[h], fp=()):
            c.bad('handlers', h, '%s assembles other lines' % h, 'handler ' + h)
        else:
            c.ob('handlers', h)
    c.floor('line location', 150)
    c.floor('handlers', 15)


def tables(prog):
    """vocabulary tables: arrays of struct label with initialisers naming handlers"""
    sz = max(o + z for o, z in prog.ditypes['label'].values())
    out = []
    for g in prog.globals.values():
        if g.defined and g.ty.k == 'a' and g.ty.e.k == 's' and ir.size_of(g.ty.e) in (sz, (sz + 7) // 8 * 8) and g.init and g.init[1][0] == 'agg':
            try:
                t = enc.read_table(prog, Engine(prog), g.name)
            except ir.AnalysisError:
                continue
            if t:
                out.append(g.name)
    return out


def callers(prog):
    """direct callers of each function; taking the address counts as a call from outside"""
    if not hasattr(prog, '_callers'):
        out = {}
        for f in prog.funcs.values():
            for i in ir.instrs(f):
                if i.op == 'call' and i.a[0][0] == 'g':
                    out.setdefault(i.a[0][1], set()).add(f.name)
        for n in address_taken(prog):
            out.setdefault(n, set()).add('*')
        prog._callers = out
    return prog._callers


def only_from(name, entry, callers, stack=frozenset()):
    """name is one of entry, or a helper that only they reach"""
    if name in entry:
        return True
    cs = callers.get(name)
    if not cs or name in stack:
        return bool(stack) and name in stack
    return all(only_from(x, entry, callers, stack | {name}) for x in cs)
