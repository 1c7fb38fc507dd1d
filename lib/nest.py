"""Abstract runs of the line readers (pass, Xif, Xmacro, macrocall, linegets) over nondeterministic files and lines.

A file gives any number of lines up to a budget, the last one terminated or
not; a line is ordinary, in error, or one that ends or opens a block.  The
traces of events are judged by the checks."""
import dom
import enc
import ir
import lines
from dom import Sym, Ptr, Fn
from eng import Engine, State, END, INLINE, JUMPED, ptradd

F = enc.F
SRC = Ptr('FILE:src', 0)


def codes(prog):
    """values that end a block: read off the directives themselves"""
    if hasattr(prog, '_codes'):
        return prog._codes
    out = {}
    for n, fn in (('ELSE', 'Xelse'), ('ENDC', 'Xendc'), ('ENDM', 'Xendm'), ('EXITM', 'Xexitm')):
        e = Engine(prog, {'outputline': lambda *a: 0})
        st = State()
        e.setg(st, 'macrolevel', 1)
        e.setg(st, 'asmflags', 0)
        r = {x.end[1] if x.end[0] == 'ret' else None for x in e.call(fn, [3, 0, e.putstr(st, 'm', n), 0], st) if x.end[0] != 'infeasible'}
        if len(r) != 1 or not isinstance(list(r)[0], int) or list(r)[0] == 0:
            raise ir.AnalysisError('%s gives %r' % (fn, r))
        out[n] = r.pop()
    if len(set(out.values())) != 4:
        raise ir.AnalysisError('block codes are not distinct: %r' % out)
    prog._codes = out
    return out


# ---------------------------------------------------------------- files
def fl(st, p):
    return st.data.setdefault('files', {}).get(p.obj)


def setf(st, p, **kw):
    d = dict(st.data.get('files', {}))
    f = dict(d.get(p.obj, {'n': 0, 'eof': 0, 'err': 0, 'open': 1, 'pos': 0}))
    f.update(kw)
    d[p.obj] = f
    st.data['files'] = d


def s_fgets(e, st, a, ins):
    buf, n, fp = a
    f = fl(st, fp) if isinstance(fp, Ptr) else None
    if f is None or not f['open']:
        st.end = ('defect', 'reads a file that is not open', ins.where())
        return END
    if isinstance(n, int) and n > 256:
        st.ev('longread', n, ins.where())
    if f['eof']:
        st.ev('fgets', fp.obj, None, ins.where())
        n = st.data['eofreads'] = st.data.get('eofreads', 0) + 1
        if n > 20:
            st.end = ('defect', 'the end of the source is read again and again', ins.where())
            return END
        return 0
    out = []
    k = f['pos']
    text = b'%s%d' % (fp.obj[5:].encode(), k)
    kinds = ['line', 'last', 'end'] if f['n'] > 0 else ['end']
    kinds = [x for x in kinds if x in st.data.get('kinds', kinds)] or kinds
    for kd in kinds:
        x = st.copy()
        if kd == 'end':
            setf(x, fp, eof=1)
            x.ev('fgets', fp.obj, None, ins.where())
            out.append((x, 0))
            continue
        setf(x, fp, n=f['n'] - 1, pos=k + 1, eof=1 if kd == 'last' else 0)
        t = text + (b'\n' if kd == 'line' else b'')
        x.ev('fgets', fp.obj, text, ins.where(), kd == 'last')
        for i, b in enumerate(t + b'\0'):
            e.store(x, ptradd(buf, i), ir.INT(8), b, ins)
        out.append((x, buf))
    if st.data.get('readerr'):
        x = st.copy()
        setf(x, fp, err=1)
        x.ev('readerror', fp.obj, ins.where())
        out.append((x, 0))
    return out


def s_feof(e, st, a, ins):
    f = fl(st, a[0]) if isinstance(a[0], Ptr) else None
    if f is None:
        st.end = ('defect', 'feof of a file that is not open', ins.where())
        return END
    return int(f['eof'])


def s_ferror(e, st, a, ins):
    f = fl(st, a[0]) if isinstance(a[0], Ptr) else None
    if f is None:
        return 0
    return int(f['err'])


def s_rewind(e, st, a, ins):
    st.ev('rewind', a[0], ins.where())
    if fl(st, a[0]) is not None:
        setf(st, a[0], eof=0, err=0, pos=0)
    return 0


def s_clearerr(e, st, a, ins):
    if fl(st, a[0]) is not None:
        setf(st, a[0], eof=0, err=0)
    return 0


def s_fclose(e, st, a, ins):
    st.ev('fclose', a[0], ins.where())
    f = fl(st, a[0]) if isinstance(a[0], Ptr) else None
    if f is None or not f['open']:
        st.end = ('defect', 'closes a file that is not open', ins.where())
        return END
    setf(st, a[0], open=0)
    return 0


def s_fopen(e, st, a, ins):
    n = st.data.get('nfiles', 0)
    x = st.copy()
    st.data['nfiles'] = n + 1
    p = Ptr('FILE:inc%d' % n, 0)
    setf(st, p, n=st.data.get('incbudget', 1), eof=0, err=0, open=1, pos=0)
    st.ev('fopen', p, e.getstr(st, a[0]), ins.where())
    x.ev('fopen', 0, e.getstr(x, a[0]), ins.where())
    return [(st, p), (x, 0)]


def quiet(name):
    def f(e, st, a, ins):
        st.ev(name, tuple(a), ins.where())
        return 0
    return f


def s_error(e, st, a, ins):
    st.ev('error', e.getstr(st, a[0]), e.getg(st, 'errnumber'), lines.recovery(e, st), ins.where())
    n = st.data['errors'] = st.data.get('errors', 0) + 1
    if n > 30:
        st.end = ('defect', 'errors are raised for ever', ins.where())
        return END
    return INLINE


def s_getc(e, st, a, ins):
    f = fl(st, a[0]) if isinstance(a[0], Ptr) else None
    if f is None or not f['open']:
        st.end = ('defect', 'reads a file that is not open', ins.where())
        return END
    n = st.data['getc'] = st.data.get('getc', 0) + 1
    out = []
    for v in (10, 0xffffffff) + ((ord('x'), 32) if n < 4 else ()):
        x = st.copy()
        if v == 0xffffffff:
            setf(x, a[0], eof=1)
        x.ev('getc', v, ins.where())
        out.append((x, v))
    return out


STUBS = {
    'getc': s_getc, 'fgetc': s_getc, '_IO_getc': s_getc,
    'fgets': s_fgets, 'feof': s_feof, 'ferror': s_ferror, 'rewind': s_rewind, 'clearerr': s_clearerr, 'fclose': s_fclose, 'fopen': s_fopen,
    'setjmp': lines.s_setjmp, '_setjmp': lines.s_setjmp, 'longjmp': lines.s_longjmp, 'sprintf': lines.s_sprintf, 'snprintf': lines.s_sprintf,
    'error': s_error, 'outputraw': quiet('outputraw'), 'outputline': quiet('outputline'), 'filter': enc.filter_stub,
    'zerobuffer': quiet('zerobuffer'), 'position': quiet('position'), 'outputaddr': quiet('outputaddr'),
    '__sigsetjmp': lines.s_setjmp,
}

SNAP = ('sourcelevel', 'linenumber', 'macrolevel', 'segment', 'thiscall', 'includelevel', 'lineprefix', 'errnumber', 'passnumber', 'asmflags')


def snap(e, st):
    d = {n: e.getg(st, n) for n in SNAP}
    d['rec'] = lines.recovery(e, st)
    return d


def line_stub(choices, budget=None, havoc=True):
    """a line: outcomes from choices(status, n) in 0, 'error', 'include' or a block code name"""
    def f(e, st, a, ins):
        n = st.data.get('lines', 0)
        st.data['lines'] = n + 1
        s = a[1]
        st.ev('line', e.getstr(st, a[0]), s, snap(e, st), ins.where())
        cs = codes(e.p)
        out = []
        for ch in choices(s, n, st):
            x = st.copy()
            x.ev('outcome', ch)
            if havoc and isinstance(s, int) and s & 2 and ch in (0, 'error'):
                # an executed line may change the section, the numbering and the location
                for g in ('segment', 'thiscall'):
                    e.setg(x, g, Sym('%s.%d' % (g, n), 32))
            if ch == 'error':
                out.append(lines.raise_error(e, x, 'line error', ins))
            elif ch == 'include':
                g = e.p.fn('Xinclude')
                e.push(x, g, [0, 0, e.putstr(x, 'mn', 'INCLUDE'), e.putstr(x, 'nm', 'inc')], ins.dst, ins)
                from eng import JUMPED
                x.frames[-2].idx = x.frames[-2].idx
                out.append((x, JUMPED))
            elif ch == 0:
                out.append((x, 0))
            else:
                out.append((x, cs[ch]))
        return out
    return f


def world(prog, stubs=None, budget=2, incbudget=1, kinds=None, **kw):
    sb = dict(STUBS)
    sb.update(stubs or {})
    e = Engine(prog, sb, **kw)
    st = State()
    setf(st, SRC, n=budget)
    st.data['incbudget'] = incbudget
    if kinds:
        st.data['kinds'] = kinds
    e.setg(st, 'file', SRC)
    sl = enc.mklabel(prog, e, st, '*', Sym('STAR', 64), enc.USED)
    e.setg(st, 'starlabel', sl)
    e.setg(st, 'advance', 0)
    e.setg(st, 'errnumber', Sym('ERRN', 32))
    lines.set_recovery(e, st)
    g = prog.gl('curline')
    st.mem[g.name] = __import__('eng').Obj(ir.size_of(g.ty), 'zero')
    st.owned.add(g.name)
    return e, st


def level(prog, e, st, k, typ, file=None):
    """source level k"""
    g = prog.gl('source')
    sz = ir.size_of(g.ty.e)
    e.store(st, Ptr(g.name, k * sz), ir.INT(8), typ)
    if file is not None:
        e.store(st, Ptr(g.name, k * sz + file_offset(prog)), ir.PTRT, file)


def file_offset(prog):
    """offset of the FILE pointer in a source entry, as Xinclude stores it"""
    if not hasattr(prog, '_foff'):
        e = Engine(prog, dict(STUBS, fopen=lambda e, st, a, i: Ptr('FILE:probe', 0)))
        st = State()
        e.setg(st, 'sourcelevel', 0)
        e.setg(st, 'asmflags', 0)
        g = prog.gl('source')
        sz = ir.size_of(g.ty.e)
        for x in e.call('Xinclude', [0, 0, 0, e.putstr(st, 'o', 'f')], st):
            if x.end[0] == 'ret':
                o = e.obj(x, g.name)
                offs = [q - sz for q, (z, v) in o.cells.items() if v == Ptr('FILE:probe', 0)]
                if len(offs) == 1:
                    prog._foff = offs[0]
        if not hasattr(prog, '_foff'):
            raise ir.AnalysisError('Xinclude does not store the file it opened')
    return prog._foff


# ---------------------------------------------------------------- programs as skeletons
HANDLERS = {'else': 'Xelse', 'endc': 'Xendc', 'endm': 'Xendm', 'exitm': 'Xexitm'}


def skeleton_stub(choose):
    """a line of the kind choose(state, text, executed) gives: plain, in error, or a block directive run by its own handler"""
    def f(e, st, a, ins):
        text, s = e.getstr(st, a[0]), a[1]
        if text is None or not isinstance(s, int):
            raise ir.AnalysisError('line or status unknown at ' + ins.where())
        n = st.data['lines'] = st.data.get('lines', 0) + 1
        st.ev('line', text, s, snap(e, st), ins.where())
        out = []
        for ch in choose(st, text, bool(s & 2)):
            x = st.copy()
            x.ev('outcome', ch, bool(s & 2))
            if s & 2 and ch in ('.', 'err'):
                for g in ('segment', 'thiscall'):
                    v = Sym('%s.%d' % (g, n), 32)
                    e.setg(x, g, v)
                    x.ev('set', g, v)
            args = [s, 0, e.putstr(x, ('mn', n), ch.upper())]
            if ch == 'err':
                x.ev('error', b'line error')
                out.append(lines.raise_error(e, x, 'line error', ins))
            elif ch == 'include' and s & 2:
                e.push(x, e.p.fn('Xinclude'), args + [e.putstr(x, ('nm', n), 'inc')], ins.dst, ins)
                out.append((x, JUMPED))
            elif ch in ('if0', 'if1'):
                e.push(x, e.p.fn('Xif'), [s, 0, args[2], e.putstr(x, ('nm', n), ch[2])], ins.dst, ins)
                out.append((x, JUMPED))
            elif ch == 'call' and s & 2:
                e.push(x, e.p.fn('macrocall'), [Ptr(st.data['macro'], 0), s, 0], ins.dst, ins)
                out.append((x, JUMPED))
            elif ch in HANDLERS:
                e.push(x, e.p.fn(HANDLERS[ch]), args + [0], ins.dst, ins)
                out.append((x, JUMPED))
            else:
                out.append((x, 0))
        return out
    return f


def define_macro(prog, body):
    """label of a macro, its text stored by the MACRO directive itself: cells of the memory it allocated"""
    e, st = world(prog, {'deflabel': lambda e, st, a, i: Ptr('lab:MAC', 0)}, budget=0)
    enc.mklabel(prog, e, st, 'MAC', 0, 0, enc.L_MACRO)
    txt = list(body) + [' ENDM']

    def gets(e, st, a, ins):
        k = st.data.get('k', 0)
        st.data['k'] = k + 1
        if k >= len(txt):
            raise ir.AnalysisError('MACRO reads past ENDM')
        for i, b in enumerate(txt[k].encode() + b'\0'):
            e.store(st, ptradd(a[0], i), ir.INT(8), b, ins)
        return 0
    e.stubs['linegets'] = gets
    e.setg(st, 'macrolevel', 0)
    e.setg(st, 'sourcelevel', 0)
    e.setg(st, 'asmflags', F['NOERROR'])
    ends = [x for x in e.call('Xmacro', [3, e.putstr(st, 'nm', 'MAC'), e.putstr(st, 'mn', 'MACRO'), 0], st) if x.end[0] != 'infeasible']
    if len(ends) != 1 or ends[0].end[0] != 'ret':
        raise ir.AnalysisError('MACRO on %r: %r' % (txt, [x.end for x in ends]))
    x = ends[0]
    objs = {'lab:MAC': x.mem['lab:MAC']}
    for ev in x.events('malloc'):
        objs[ev[1].obj] = x.mem[ev[1].obj]
    return objs


def explore(prog, choose, body=(), budget=3, incbudget=2, kinds=None, passno=2, flags=None, **kw):
    """every trace of a pass over nondeterministic programs"""
    e, st = world(prog, {'asmline': skeleton_stub(choose)}, budget=budget, incbudget=incbudget, kinds=kinds, **kw)
    e.stubs['findlabel'] = lambda e, st, a, i: Ptr('lab:*', 0)
    for n, o in define_macro(prog, body).items():
        st.mem[n] = o.copy()
        st.owned.add(n)
    st.data['macro'] = 'lab:MAC'
    e.setg(st, 'sourcelevel', 0xffffffff)
    e.setg(st, 'asmflags', F['NOERROR'] if flags is None else flags)
    return e, [x for x in e.call('pass', [passno], st) if x.end[0] != 'infeasible']


class Model:
    """what the trace of a pass should be, by the documented meaning of the directives"""

    def __init__(s, body, facts):
        s.body = list(body) + [' ENDM']
        s.facts = facts
        s.src = [dict(kind='file', name='FILE:src', n=0, eof=False)]
        s.blk = []              # ('if', executed outside, condition, part) or ('macro',)
        s.pending = None
        s.errors = 0
        s.loose = False         # a block directive was misused: the block structure is no longer judged
        s.probs = []
        s.need = []             # errors that must have been given
        s.seg = 0
        s.call = 0
        s.lastinc = None
        s.after = None
        s.n = {'line': 0, 'return': 0, 'exec': 0, 'error': 0, 'call': 0, 'close': 0}

    def p(s, cat, msg, where=''):
        s.probs.append((cat, msg, where))

    def executed(s):
        for b in s.blk:
            if b[0] == 'if' and not b[2 if b[3] == 1 else 4]:
                return False
        return True

    def endmacro(s):
        """leave the innermost macro expansion"""
        while s.src and s.src[-1]['kind'] == 'file':
            s.src.pop()
        m = s.src.pop()
        while s.blk and s.blk.pop()[0] != 'macro':
            pass
        s.seg = m['seg']
        s.after = m['after']

    def level(s):
        return sum(1 for x in s.src if x['kind'] == 'macro')

    def need_error(s, why):
        if not s.loose:
            s.need.append((s.errors, why))
        s.loose = True

    def run(s, evs, end):
        for ev in evs:
            k = ev[0]
            if k == 'fgets':
                s.fgets(ev)
            elif k == 'fopen':
                if ev[1] == 0:
                    s.need.append((s.errors, 'an include file that cannot be opened'))
                else:
                    s.src.append(dict(kind='file', name=ev[1].obj, n=0, eof=False))
            elif k == 'fclose':
                t = s.src[-1]
                s.n['close'] += 1
                if t['kind'] != 'file' or len(s.src) < 2 or ev[1].obj != t['name'] or not t['eof']:
                    s.p('files', '%s is closed while it is read' % ev[1].obj, ev[2])
                else:
                    s.src.pop()
                    s.n['return'] += 1
            elif k == 'line':
                s.line(ev)
            elif k == 'outcome':
                s.outcome(ev)
            elif k == 'set':
                if ev[1] == 'segment':
                    s.seg = ev[2]
                else:
                    s.call = ev[2]
            elif k == 'error':
                s.errors += 1
                s.n['error'] += 1
        s.finish(end)
        return s.probs

    def fgets(s, ev):
        t = s.src[-1]
        if s.pending:
            s.p('files', 'line %r is read but not assembled' % s.pending.decode(), ev[3])
        if t['kind'] == 'macro':
            if s.loose:
                s.endmacro()
                return s.fgets(ev)
            s.p('files', 'a macro expansion is left for the file before its end', ev[3])
            s.endmacro()
            return s.fgets(ev)
        if ev[1] != t['name']:
            s.p('files', 'reads %s where %s is to be continued' % (ev[1], t['name']), ev[3])
        t['n'] += 1
        if ev[2] is None:
            t['eof'] = True
            s.pending = b''
            if len(s.src) == 1 and s.blk and not s.loose:
                s.need_error('IF without ENDC')
                s.blk = []
        else:
            t['eof'] = ev[4]
            s.pending = ev[2]

    def line(s, ev):
        text, status, sn, where = ev[1:5]
        s.n['line'] += 1
        t = s.src[-1]
        if s.pending is None and t['kind'] == 'file' and s.loose is False:
            s.p('files', 'a line %r is assembled that was not read' % text.decode('latin1'), where)
        if s.pending is None and t['kind'] == 'macro' or s.pending is None and s.loose and s.level():
            while s.src[-1]['kind'] != 'macro':
                s.src.pop()
            t = s.src[-1]
            want = s.body[t['pos']].encode() if t['pos'] < len(s.body) else None
            if want is None or text.strip() != want.strip():
                # a misused block directive may have ended the expansion
                if s.loose and s.level() > 1:
                    s.endmacro()
                    return s.line(ev)
                s.p('expand', 'expansion line %d is %r, defined as %r' % (t['pos'] + 1, text.decode('latin1'), want and want.decode()), where)
            t['pos'] += 1
        elif s.pending is not None and s.pending != text:
            s.p('files', 'line %r is assembled where %r was read' % (text.decode('latin1'), s.pending.decode()), where)
        s.pending = None
        if t['kind'] == 'file' and sn['linenumber'] != t['n']:
            s.p('number', 'line %d of %s has number %s' % (t['n'], t['name'], dom.show(sn['linenumber'])), where)
        if sn['macrolevel'] != s.level() and not s.loose:
            s.p('macro', 'macro nesting is %s with %d expansions open' % (dom.show(sn['macrolevel']), s.level()), where)
        if not s.loose and not (sn['segment'] == s.seg or s.facts.equal(sn['segment'], s.seg, 32)):
            s.p('macro', 'section is %s, expected %s' % (dom.show(sn['segment']), dom.show(s.seg)), where)
        if sn['passnumber'] not in (1, 2):
            s.p('pass', 'pass number is %s' % dom.show(sn['passnumber']), where)
        if not s.loose:
            s.n['exec'] += 1
            if bool(status & 2) != s.executed():
                s.p('exec', 'line %r is %s but should %sbe assembled' % (text.decode('latin1'), 'executed' if status & 2 else 'skipped',
                                                                        '' if s.executed() else 'not '), where)
        if sn['errnumber'] != s.errors:
            s.p('errors', '%s errors counted after %d errors' % (dom.show(sn['errnumber']), s.errors), where)
        s.checkneed(where)

    def checkneed(s, where):
        for n, why in s.need:
            if s.errors <= n:
                s.p('misuse', '%s is not reported' % why, where)
        s.need = []

    def outcome(s, ev):
        ch, ex = ev[1], ev[2]
        inm = s.level() > 0
        top = s.blk[-1] if s.blk else None
        if ch == 'err':
            s.need.append((s.errors, 'the line in error'))
        elif ch in ('if0', 'if1'):
            c = ch == 'if1'
            s.blk.append(('if', ex, ex and c, 1, ex and not c))
        elif ch == 'else':
            if top and top[0] == 'if' and top[3] == 1:
                s.blk[-1] = ('if', top[1], top[2], 2, top[4])
            else:
                s.need_error('ELSE without an open IF')
        elif ch == 'endc':
            if top and top[0] == 'if':
                s.blk.pop()
            else:
                s.need_error('ENDC without IF')
        elif ch == 'exitm' and ex and inm:
            s.endmacro()
        elif ch == 'endm' and inm:
            if top and top[0] == 'if':
                s.need_error('a conditional left open in a macro')
            s.endmacro()
        elif ch == 'call' and ex:
            s.n['call'] += 1
            s.call = dom.add(32, s.call, 1)
            s.src.append(dict(kind='macro', pos=0, seg=s.seg, after=None))
            s.seg = s.call
            s.blk.append(('macro',))

    def finish(s, end):
        if end[0] != 'ret':
            s.p('end', 'the pass ends in %r' % (end,), end[2] if len(end) > 2 else '')
            return
        if s.pending:
            s.p('files', 'line %r is read but not assembled' % s.pending.decode())
        if any(b[0] == 'if' for b in s.blk) and not s.loose and not s.errors:
            s.p('misuse', 'IF without ENDC is not reported')
        while len(s.src) > 1 and s.loose:
            s.src.pop()
        if len(s.src) > 1:
            s.p('files', '%s is still being read at the end of the pass' % s.src[-1].get('name', 'a macro'))
        s.checkneed('')


def judge(e, x, body):
    m = Model(body, x.facts)
    m.run(x.events('fgets', 'fopen', 'fclose', 'line', 'outcome', 'set', 'error'), x.end)
    if x.end[0] == 'ret':
        v = e.getg(x, 'errnumber')
        if v != m.errors:
            m.p('errors', '%s errors counted at the end of the pass, %d given' % (dom.show(v), m.errors))
        f = fl(x, SRC)
        if f['n'] > 0 and not f['eof']:
            m.p('files', 'the pass ends before the end of the source')
        v = e.getg(x, 'sourcelevel')
        if v != 0 and not (isinstance(v, int) and dom.sgn(v, 32) <= 0):
            m.p('files', 'the pass ends at source level %s' % dom.show(v))
        v = e.getg(x, 'macrolevel')
        if v != 0 and not m.loose:
            m.p('macro', 'macro nesting is %s at the end of the pass' % dom.show(v))
        for n, q in x.data.get('files', {}).items():
            if n != SRC.obj and q['open'] and not m.loose:
                m.p('files', '%s is not closed' % n)
    return m


# ---------------------------------------------------------------- families of skeletons
def _plain(t):
    return t == b''


def fam_files(st, t, ex):
    if t == b'':
        return ['.']
    return ['.', 'err'] + (['include'] if ex and st.data.get('nfiles', 0) < 2 else [])


def fam_blocks(st, t, ex):
    if t == b'':
        return ['.']
    return ['.', 'err', 'if1', 'else', 'endc', 'exitm', 'endm'] + (['if0'] if ex else [])


def fam_nest(st, t, ex):
    if t == b'':
        return ['.']
    return ['.', 'if1', 'else', 'endc'] + (['if0'] if ex else [])


def fam_incblocks(st, t, ex):
    if t == b'':
        return ['.']
    return ['.', 'err', 'else', 'endc'] + (['if0', 'if1'] if ex else ['if1']) + (['include'] if st.data.get('nfiles', 0) < 1 else [])


def fam_macro(st, t, ex):
    if t == b'':
        return ['.']
    if t.strip() == b'ENDM':
        return ['endm']
    if t.startswith(b'src'):
        return ['.', 'err', 'if1', 'endc', 'else'] + (['call', 'if0'] if ex else ['call'])
    return ['.', 'err', 'if1', 'else', 'endc', 'exitm'] + (['if0'] if ex else []) + (
        ['call'] if ex and t == b'm1' and st.data.get('lines', 0) < 4 else [])


def fam_macronest(st, t, ex):
    if t == b'':
        return ['.']
    if t.strip() == b'ENDM':
        return ['endm']
    if t.startswith(b'src'):
        return ['.', 'call']
    if t.startswith(b'inc'):
        return ['.', 'err'] + (['call'] if ex and st.data.get('lines', 0) < 5 else [])
    return ['.', 'exitm'] + (['call'] if ex and st.data.get('lines', 0) < 5 else []) + (
        ['include'] if ex and st.data.get('nfiles', 0) < 2 else [])


FAMILIES = {
    'files': (fam_files, dict(budget=3, incbudget=2), dict(budget=4, incbudget=2)),
    'blocks': (fam_blocks, dict(budget=4, kinds=['line', 'end']), dict(budget=5, kinds=['line', 'end'])),
    'nested blocks': (fam_nest, dict(budget=6, kinds=['line']), dict(budget=7, kinds=['line'])),
    'blocks across files': (fam_incblocks, dict(budget=3, incbudget=2), dict(budget=4, incbudget=2)),
    'macros': (fam_macro, dict(budget=2, body=('m0', 'm1'), kinds=['line', 'end']), dict(budget=3, body=('m0', 'm1'), kinds=['line', 'end'])),
    'nested macros and files': (fam_macronest, dict(budget=1, incbudget=1, body=('m0', 'm1'), kinds=['line', 'last']),
                                dict(budget=1, incbudget=2, body=('m0', 'm1'), kinds=['line', 'last'])),
}


def _piece(arg):
    prog, name, tier, prefix = arg
    fn, quick, deep = FAMILIES[name]
    kw = dict(deep if tier == 'thorough' else quick)

    def choose(st, t, ex):
        n = st.data['lines'] - 1
        o = fn(st, t, ex)
        return [x for x in o if n >= len(prefix) or x == prefix[n]]
    body = kw.get('body', ())
    try:
        e, ends = explore(prog, choose, max_states=400000, max_steps=20000000, **kw)
    except ir.AnalysisError as x:
        return name, 0, {}, [('undecided', str(x), '', '')], set(), 0, 0, set(), None
    if not ends:
        return name, 0, {}, [], e.fnseen, e.nstates, e.steps, e.bbseen, None
    probs, seen, tot = [], {}, {}
    for x in ends:
        m = judge(e, x, body)
        for k, v in m.n.items():
            tot[k] = tot.get(k, 0) + v
        for cat, msg, w in m.probs:
            seen[cat] = seen.get(cat, 0) + 1
            if seen[cat] <= 3:
                probs.append((cat, msg, w, ' '.join(story(x))))
    smp = ' '.join(story(ends[len(ends) // 2]))
    return name, len(ends), tot, probs, e.fnseen, e.nstates, e.steps, e.bbseen, smp


def story(x):
    out = []
    for v in x.events('line', 'outcome', 'fclose'):
        if v[0] == 'line':
            t = v[1].decode('latin1').strip() or '(empty)'
        elif v[0] == 'outcome':
            out.append('%s%s:%s' % (t, '' if v[2] else '~', v[1]))
        else:
            out.append('close')
    return out


def families(c, prog, cats, names=None, floors=()):
    """explore the families and report the problems of the given categories"""
    import chk
    work = []
    for name in names or FAMILIES:
        fn = FAMILIES[name][0]
        # split on the outcomes of the first line
        for a in ('.', 'err', 'include', 'if0', 'if1', 'else', 'endc', 'exitm', 'endm', 'call'):
            for b in ('.', 'err', 'include', 'if0', 'if1', 'else', 'endc', 'exitm', 'endm', 'call'):
                work.append((name, (a, b)))
    global _prog, _tier
    _prog, _tier = prog, c.tier
    define_macro(prog, ('m0',))
    file_offset(prog)
    tot = {}
    for name, n, t, probs, fns, ns, steps, bbs, smp in chk.pool_map(_work, work, chunk=1):
        for p in probs:
            if p[0] == 'undecided':
                c.err('%s: %s' % (name, p[1]))
        if not n:
            continue
        c.fns |= fns
        c.counts['abstract states'] = c.counts.get('abstract states', 0) + ns
        c.counts['abstract steps'] = c.counts.get('abstract steps', 0) + steps
        c._bb = getattr(c, '_bb', set()) | bbs
        for k, v in t.items():
            tot[k] = tot.get(k, 0) + v
        g = 'traces, ' + name
        bad = [p for p in probs if p[0] in cats or p[0] == 'end']
        c.ob(g, smp, n - (1 if bad else 0))
        seen = set()
        for cat, msg, w, tr in bad:
            if (cat, w) not in seen:
                seen.add((cat, w))
                c.bad(g, w or 'crasm.c pass', '%s (program: %s)' % (msg, tr[:300]), '%s %s' % (cat, w))
    c.counts['basic blocks'] = len(getattr(c, '_bb', ()))
    c.counts['trace events judged'] = tot
    return tot


def _work(w):
    return _piece((_prog, w[0], _tier, w[1]))
