"""C08: every byte recorded once, in order, at its own location."""
import dom
import enc
import encchk
import encrun
import datachk
import stream
import isa
import ir
import lines
from c07 import START, REXT, PCV, STUBS
from dom import Sym, Ptr
from eng import Engine, State, END

X, ADR, ADV = Sym('X', 8), Sym('ADR', 64), Sym('ADV', 32)
F = enc.F
LIM = (1 << 32) - 18


def start(prog, e, n, flags, op):
    st = State()
    st.facts = encchk.facts_of(isa.c_rng(START, 0, LIM) + isa.c_rng(PCV, 0, LIM) + isa.c_rng(ADR, 0, LIM))
    e.setg(st, 'asmflags', flags)
    e.setg(st, 'rawnumber', n)
    e.setg(st, 'rawstart', START)
    e.setg(st, 'rawextended', REXT)
    e.setg(st, 'pc', PCV)
    e.setg(st, 'advance', ADV)
    e.setg(st, 'codelen', Sym('CLEN', 64))
    e.setg(st, 'scode', Ptr('FILE:code', 0) if op else 0)
    g = prog.gl('raw', 'scode.c')
    for i in range(n):
        e.store(st, Ptr(g.name, i), ir.INT(8), Sym('D%d' % i, 8))
    return st


def decode(e, x, facts):
    """[(address 32, offset, byte)] of the records written on this path"""
    ls, tail = stream.lines(stream.chars(e, x))
    if tail:
        raise stream.NotHex('unterminated line')
    ext = dom.trunc(dom.lshr(32, REXT, 16), 16)
    out = []
    for l in ls:
        kind, adr, data = stream.record(l, facts)
        if kind == 'end':
            continue
        if kind == 'ext':
            ext = dom.concat([(adr[1], 8), (adr[0], 8)])
            continue
        a = dom.concat([(b, 8) for b in reversed(adr)])
        if l[0][0] == ':':
            a = dom.concat([(a, 16), (ext, 16)])
        elif len(adr) < 4:
            a = dom.zext(a, 8 * len(adr), 32)
        out += [(dom.zext(a, 32, 64), i, b) for i, b in enumerate(data)]
    return out


def buffered(prog, e, x):
    n = e.getg(x, 'rawnumber')
    if not isinstance(n, int) or not 0 <= dom.sgn(n, 32) <= 16:
        raise stream.NotHex('buffer count %s' % dom.show(n))
    s = e.getg(x, 'rawstart')
    g = prog.gl('raw', 'scode.c')
    return [(s, i, e.load(x, Ptr(g.name, i), ir.INT(8))) for i in range(n)]


def same(f, got, want):
    if len(got) != len(want):
        return '%d bytes recorded, expected %d' % (len(got), len(want))
    for k, ((a, i, b), (a2, i2, b2)) in enumerate(zip(got, want)):
        if not f.equal(b, b2, 8):
            return 'byte %d is %s, expected %s' % (k, dom.show(b), dom.show(b2))
        m = dom.mask(64)
        if not (f.equal(a, dom.add(64, a2, (i2 - i) & m), 64) or f.equal(dom.add(64, a, (i - i2) & m), a2, 64) or
                f.equal(dom.add(64, a, i), dom.add(64, a2, i2), 64)):
            return 'byte %d recorded at %s%+d, expected at %s%+d' % (k, dom.show(a), i, dom.show(a2), i2)
    return None


OPS = ('insert8', 'setpc', 'flushscoderaw')


def jobs():
    for n in range(17):
        for h in ('CODE_HEX', 'CODE_SCODE'):
            for op in OPS:
                for on in (1, 0):
                    if op != 'insert8' and not on:
                        continue
                    yield n, h, op, on, 1, 0
    for h in ('CODE_HEX', 'CODE_SCODE'):
        for op in OPS:
            for on in (1, 0):
                yield 0, h, op, on, 0, 0
                yield 0, h, op, on, 0, 1


def run(c, prog):
    c.rule('each operation on the location or the record buffer (insert8, setpc, flushscoderaw), from every buffer state: the records written '
           'followed by the buffer after are the buffer before, extended by exactly (location, byte) when a byte is inserted with the code on')

    def one(j):
        n, h, op, on, opened, nocode = j
        e = Engine(prog, dict(STUBS, outputbyte=lambda e, st, a, ins: 0,
                              fopen=lambda e, st, a, ins: (st.ev('fopen'), Ptr('FILE:code', 0))[1]))
        fl = F['ORG_GV'] | F[h] | (F['CODE_ON'] if on else 0) | (F['NOCODE'] if nocode else 0)
        st = start(prog, e, n, fl, opened)
        ends = e.call(op, {'insert8': [X], 'setpc': [ADR], 'flushscoderaw': []}[op], st)
        out = []
        for x in ends:
            if x.end[0] == 'infeasible':
                continue
            if x.end[0] != 'ret':
                out.append(('scode.c ' + op, 'ends in %r' % (x.end,)))
                continue
            f = x.facts
            want = [(START, i, Sym('D%d' % i, 8)) for i in range(n)]
            t = None
            try:
                if op == 'insert8':
                    if on and not nocode:
                        want = want + [(PCV, 0, X)]
                    if not f.equal(e.getg(x, 'pc'), dom.add(64, PCV, 1), 64):
                        t = 'location after is %s' % dom.show(e.getg(x, 'pc'))
                    if not f.equal(e.getg(x, 'advance'), dom.add(32, ADV, 1), 32):
                        t = 'advance after is %s' % dom.show(e.getg(x, 'advance'))
                else:
                    w = ADR if op == 'setpc' else PCV
                    if not f.equal(e.getg(x, 'pc'), w, 64):
                        t = 'location after is %s' % dom.show(e.getg(x, 'pc'))
                    if not f.equal(e.getg(x, 'advance'), ADV, 32):
                        t = 'advance changed'
                got = decode(e, x, f) + buffered(prog, e, x)
                t = t or same(f, got, want)
                if not t and x.events('fopen') and opened:
                    t = 'file opened again'
                cs = x.events('fputc', 'fputs', 'fprintf')
                if not t and e.getg(x, 'scode') == 0 and cs:
                    t = 'writes to a file that is not open'
            except stream.NotHex as ex:
                t = str(ex)
            ev = x.events('fputc', 'fputs')
            out.append((ev[0][2] if ev else 'scode.c ' + op, t))
        return j, out, encrun.U(e.nstates, e.steps, frozenset(e.fnseen), frozenset(e.bbseen))
    fns = set()
    for j, out, u in datachk.pmap(one, list(jobs()), 1):
        n, h, op, on, opened, nocode = j
        c.used(u)
        fns |= u.fnseen
        name = '%s, %d buffered, %s%s%s%s' % (op, n, h, '' if on else ', code off', '' if opened else ', no file yet', ', no code wanted' if nocode else '')
        for w, t in out:
            if t is None:
                c.ob('step ' + op, name)
            else:
                c.bad('step ' + op, w, name + ': ' + t, '%s %d %s %d' % (op, n, h, on))
    # no origin: refused
    e = Engine(prog, STUBS)
    st = start(prog, e, 0, F['CODE_ON'] | F['CODE_SCODE'], 1)
    for x in e.call('insert8', [X], st):
        if x.end[0] == 'error' and x.events('fputc') == [] and e.getg(x, 'rawnumber') == 0:
            c.ob('no origin', 'insert8 without origin is an error')
        else:
            c.bad('no origin', 'scode.c insert8', 'byte placed without an origin: %r' % (x.end,))
    # multi byte insertion
    c.rule('insert16, insert24, insert32 insert exactly the bytes of their argument, in the byte order of the processor')
    for fn, nb, w in (('insert16', 2, 16), ('insert24', 3, 32), ('insert32', 4, 32)):
        for lohi in (0, 1):
            e = Engine(prog, dict(STUBS, insert8=enc.insert8_stub))
            st = start(prog, e, 0, F['ORG_GV'] | F['CODE_ON'] | F['CODE_SCODE'] | (F['LOHI'] if lohi else 0), 1)
            v = Sym('W', w)
            for x in e.call(fn, [v], st):
                bs = [b for _, b, _w in x.events('emit')]
                want = [dom.byte(v, i) for i in range(nb)]
                if not lohi:
                    want.reverse()
                if x.end[0] == 'ret' and len(bs) == nb and all(x.facts.equal(a, b, 8) for a, b in zip(bs, want)):
                    c.ob('multi byte', '%s lohi=%d' % (fn, lohi))
                else:
                    c.bad('multi byte', 'scode.c ' + fn, '%s with lohi=%d emits %s' % (fn, lohi, ' '.join(map(dom.show, bs))), fn)
            c.used(e)
    # nothing else touches the state
    c.rule('the record buffer and the location are written only by the operations above and by functions that only they call')
    gs = {prog.gl(n, 'scode.c').name for n in ('raw', 'rawnumber', 'rawstart', 'pc', 'rawextended')}
    writers = {f.name for f in prog.funcs.values() for i in ir.instrs(f) if i.op == 'store' and lines.rootglobal(f, i.a[2]) in gs}
    callers = {}
    for f in prog.funcs.values():
        for i in ir.instrs(f):
            if i.op == 'call' and i.a[0][0] == 'g':
                callers.setdefault(i.a[0][1], set()).add(f.name)
    entry = {prog.fn(n).name for n in OPS}
    okset = set(entry)
    ch = True
    while ch:
        ch = False
        for w in fns:
            if w not in okset and callers.get(w) and callers[w] <= okset:
                okset.add(w)
                ch = True
    for w in sorted(writers):
        if w in okset:
            c.ob('writers', w)
        else:
            c.bad('writers', prog.funcs[w].file if hasattr(prog.funcs[w], 'file') else w, '%s writes the location or the record buffer' % w, 'writer ' + w)
    lines.location(c, prog)
    c.floor('step insert8', 60)
    c.floor('step setpc', 34)
    c.floor('step flushscoderaw', 30)
    c.floor('writers', 2)
    c.assume.append('addresses below 2^32-17 (the code file formats have 32-bit addresses); the final flush is closescodefile (C07); '
                    'initial state: empty buffer, no file')
