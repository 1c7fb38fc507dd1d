"""Encoder analysis: the instruction handlers on abstract operands.

A case is (cpu, mnemonic, operand text).  Operand texts are shapes: the names in
them are registers of the CPU's own vocabulary or abstract symbols (V1, V2) whose
value is unknown (64-bit symbol) and whose flags are a chosen partition.  The
handler found in the vocabulary table is interpreted on all paths; the bytes it
emits are terms over the symbols."""
import ir
import dom
from ir import AnalysisError
from dom import BV, Ptr, Fn, Sym, Op, mask
from eng import Engine, State, Obj, END, INLINE, ptradd

UNDEF, FORWARD, USED, NOREDEF = 1, 2, 4, 8
F = dict(CPU_GV=1, ORG_GV=2, CODE_ON=4, LIST_ON=8, IFLIST_ON=16, MACROLIST_ON=64, INCLUDELIST_ON=128, LOHI=256,
         ADDR16=512, ADDR24=1024, RELATIF=2048, CODE_HEX=4096, CODE_SCODE=8192,
         NOLIST=1 << 16, NOWARNING=1 << 17, NOERROR=1 << 18, NOCODE=1 << 19)
L_MNEMO, L_MACRO, L_ABS, L_REL, L_REGS, L_BIT = -1, 2, 3, 4, 5, 6


def field(prog, st, f):
    return prog.ditypes[st][f][0]


# ---------------------------------------------------------------- filter summary
def filter_summary(prog, s, fil):
    """(result, captures, consumed, note): effect of filter on constant strings, from its own body"""
    cache = prog.__dict__.setdefault('_filt', {})
    k = (s, fil)
    if k in cache:
        return cache[k]
    e = Engine(prog)
    st = State()
    buf = prog.gl('buffer', 'filter.c')
    st.mem[buf.name] = Obj(None, 'sym')
    st.owned.add(buf.name)
    e.setg(st, 'bufferpos', Ptr(buf.name, 100))
    n = fil.count(b'?')
    outs = [e.newobj(st, 'out%d' % i, 8) for i in range(n)]
    fn = prog.fn('filter')
    args = [0 if s is None else e.putstr(st, 'subj', s), e.putstr(st, 'pat', fil)] + outs
    e.push(st, fn, args, None, None)
    ends = e.run(st)
    prog.__dict__.setdefault('_filteng', []).append((e.nstates, e.steps, frozenset(e.fnseen)))
    ends = [x for x in ends if x.end[0] != 'fatal']
    if len(ends) != 1 or ends[0].end[0] != 'ret':
        raise AnalysisError('filter(%r,%r): %r' % (s, fil, [x.end for x in ends]))
    x = ends[0]
    r = x.end[1]
    if not isinstance(r, int):
        raise AnalysisError('filter result not constant')
    note = None
    bp = e.getg(x, 'bufferpos')
    caps = [bool(e.obj(x, o.obj).cells.get(0)) for o in outs]
    if r:
        caps = []
        if not isinstance(bp, Ptr) or bp.obj != buf.name:
            note = 'bufferpos leaves the buffer'
        for i, o in enumerate(outs):
            c = e.obj(x, o.obj).cells.get(0)
            p = c[1] if c else None
            t = e.getstr(x, p) if p is not None else None
            if t is None:
                note = 'capture %d not set' % i
                caps.append(None)
                continue
            caps.append(t)
            if p.obj != buf.name or p.off <= 100 or p.off + len(t) > bp.off:
                note = 'capture %d (%r) lies in buffer space that the next call reuses' % (i, t)
    con = e.getg(x, 'chars_consumed_by_filter')
    res = (r, caps, con if isinstance(con, int) else None, note)
    cache[k] = res
    return res


def filter_stub(e, st, a, ins):
    s = e.getstr(st, a[0]) if not (isinstance(a[0], int) and a[0] == 0) else None
    fil = e.getstr(st, a[1])
    if fil is None or (s is None and a[0] != 0):
        raise AnalysisError('filter on a non-constant string at %s' % ins.where())
    r, caps, con, note = filter_summary(e.p, s, fil)
    if note:
        st.end = ('defect', 'filter(%r, %r): %s' % (s.decode('latin1') if s else s, fil.decode('latin1'), note), ins.where())
        return END
    n = fil.count(b'?')
    if len(a) - 2 < n:
        st.end = ('defect', 'filter pattern %r needs %d result arguments, %d given' % (fil, n, len(a) - 2), ins.where())
        return END
    for i in range(n):
        st.cnt += 1
        nm = ('cap', st.cnt)
        if r:
            p = e.putstr(st, nm, caps[i])
        elif not caps[i]:
            continue
        else:
            p = e.newobj(st, nm)
        e.store(st, a[2 + i], ir.PTRT, p, ins)
    if con is not None:
        e.setg(st, 'chars_consumed_by_filter', con)
    return r


# ---------------------------------------------------------------- vocabulary
class Entry:
    __slots__ = ('name', 'flags', 'type', 'modifier', 'ptr', 'value', 'addr', 'table')


def read_table(prog, e, gname):
    """entries of a vocabulary table, from its initialiser"""
    o = e.ginit(gname)
    d = prog.ditypes['label']
    esz = None
    for f in d:
        pass
    ty = prog.globals[gname].ty
    if ty.k != 'a':
        raise AnalysisError('vocabulary %s is not an array' % gname)
    esz = ir.size_of(ty.e)
    out = []
    for i in range(ty.n):
        b = i * esz

        def cell(f, sz):
            c = o.cells.get(b + d[f][0])
            if c is None:
                return 0
            return c[1]
        lf = cell('left', 8)
        if isinstance(lf, int) and lf == mask(64):
            return out
        name = bytearray()
        for k in range(d['name'][1]):
            c = o.cells.get(b + d['name'][0] + k)
            v = c[1] if c else 0
            if not v:
                break
            name.append(v)
        en = Entry()
        en.name = name.decode('latin1').upper()
        en.flags = cell('flags', 1)
        en.type = dom.sgn(cell('type', 1), 8)
        en.modifier = dom.sgn(cell('modifier', 2), 16)
        en.ptr = cell('ptr', 8)
        en.value = cell('value', 8)
        en.addr = Ptr(gname, b)
        en.table = gname
        out.append(en)
    raise AnalysisError('vocabulary %s has no end mark' % gname)


class Cpu:
    """a CPU as Xcpu binds it: state after binding, and its vocabulary"""

    def __init__(s, prog, name, passno=2):
        s.prog, s.name = prog, name
        e = Engine(prog, {'filter': filter_stub, 'init_label_list': bind_stub})
        st = State()
        base_flags = F['CODE_ON'] | F['ORG_GV']
        e.setg(st, 'asmflags', base_flags)
        e.setg(st, 'passnumber', passno)
        ends = e.call('Xcpu', [0, 0, e.putstr(st, 'mn', 'CPU'), e.putstr(st, 'op', name)], st)
        if len(ends) != 1 or ends[0].end[0] != 'ret':
            raise AnalysisError('CPU %s: %r' % (name, [x.end for x in ends]))
        x = ends[0]
        s.engine = e
        s.flags = e.getg(x, 'asmflags')
        if not isinstance(s.flags, int):
            raise AnalysisError('flags after CPU %s not constant' % name)
        s.tables = [v[1].obj for v in x.events('bind')]
        s.state = x
        x.frames, x.trace, x.end = [], None, None
        s.words = {}
        s.entries = []
        for t in s.tables:
            for en in read_table(prog, e, t):
                s.entries.append(en)
                s.words.setdefault(en.name, en)
            st_t = e.ginit(t).copy()
            st_t.ro = False
            x.mem[t] = st_t

    def mnemonics(s):
        return [en for en in s.words.values() if en.type == L_MNEMO]


def bind_stub(e, st, a, ins):
    st.ev('bind', a[0], ins.where())
    return 0


# ---------------------------------------------------------------- one case
class End:
    __slots__ = ('kind', 'msg', 'where', 'bytes', 'warn', 'facts', 'st', 'rec')

    def __repr__(s):
        return '%s%s %s%s' % (s.kind, ' "%s"' % s.msg if s.msg else '', '[' + ' '.join(dom.show(b) for b in s.bytes) + ']',
                              ' warn' if s.warn else '')


def insert8_stub(e, st, a, ins):
    st.ev('emit', a[0] if isinstance(a[0], int) else dom.trunc(a[0], 8), ins.where())
    if isinstance(a[0], int):
        pass
    e.setg(st, 'pc', dom.add(64, e.getg(st, 'pc'), 1))
    e.setg(st, 'advance', dom.add(32, e.getg(st, 'advance'), 1))
    return 0


def mklabel(prog, e, st, name, value, flags, typ=L_ABS, modifier=0):
    sz = max(o + z for o, z in prog.ditypes['label'].values())
    p = e.newobj(st, 'lab:' + name, sz, 'zero')
    d = prog.ditypes['label']
    e.store(st, Ptr(p.obj, d['flags'][0]), ir.INT(8), flags)
    e.store(st, Ptr(p.obj, d['type'][0]), ir.INT(8), typ & 255)
    e.store(st, Ptr(p.obj, d['modifier'][0]), ir.INT(16), modifier & 0xffff if isinstance(modifier, int) else modifier)
    e.store(st, Ptr(p.obj, d['ptr'][0]), ir.PTRT, 0)
    e.store(st, Ptr(p.obj, d['value'][0]), ir.INT(64), value)
    return p


def findlabel_stub(cpu, labels):
    def f(e, st, a, ins):
        s = e.getstr(st, a[0])
        if s is None:
            raise AnalysisError('label name not constant at ' + ins.where())
        n = s.decode('latin1').upper()
        st.ev('ref', n)
        if cpu is not None and n in cpu.words:
            return cpu.words[n].addr
        if n in labels:
            return labels[n]
        # unknown name: as findlabel creates it in pass 2
        return mklabel(e.p, e, st, n, 0, UNDEF)
    return f


def run_case(cpu, en, oper, syms, passno=2, stubs=None, facts=None, setup=None):
    """syms: {name: (value, flags)}.  Returns (engine, [End])"""
    prog = cpu.prog
    labels = {}
    st = cpu.state.copy()
    st.mem = dict(cpu.state.mem)
    sb = {'filter': filter_stub, 'insert8': insert8_stub, 'findlabel': findlabel_stub(cpu, labels)}
    sb.update(stubs or {})
    e = Engine(prog, sb)
    for n, (v, fl) in syms.items():
        labels[n] = mklabel(prog, e, st, n, v, fl)
    if facts:
        st.facts = facts
    e.setg(st, 'pc', Sym('PC', 64))
    e.setg(st, 'advance', 0)
    e.setg(st, 'asmflags', cpu.flags)
    e.setg(st, 'passnumber', passno)
    if setup:
        setup(e, st)
    op = 0 if oper is None else e.putstr(st, 'oper', oper)
    if not isinstance(en.ptr, Fn):
        raise AnalysisError('mnemonic %s has no handler' % en.name)
    ends = e.call(prog.funcs[en.ptr.name], [en.modifier & 0xffffffff, 0, e.putstr(st, 'mnemo', en.name), op], st)
    out = []
    for x in ends:
        if x.end[0] == 'infeasible':
            continue
        o = End()
        o.kind = x.end[0]
        o.msg = x.end[1] if len(x.end) > 1 and o.kind in ('error', 'fatal', 'defect') else None
        o.where = x.end[2] if len(x.end) > 2 else ''
        o.bytes = [b for _, b, w in x.events('emit')]
        o.rec = x.events('emit')
        o.warn = [w[1] for w in x.events('warning')]
        o.facts = x.facts
        o.st = x
        out.append(o)
    return e, out


def field_size(prog, st, f):
    return prog.ditypes[st][f][1]
