"""C16: included files and macros nest and return to the next line."""
import dom
import enc
import ir
import lines
import nest
from dom import Sym, Ptr
from eng import Engine, State, ptradd

F = enc.F


def entries(prog):
    g = prog.gl('source')
    return g.name, ir.size_of(g.ty), ir.size_of(g.ty.e)


def limit(c, prog):
    c.rule('INCLUDE and macro calls at every nesting level: one level deeper while the source stack has room, a fatal diagnostic and no '
           'write to the stack otherwise')
    g, tot, sz = entries(prog)
    n = tot // sz
    for fn in ('Xinclude', 'macrocall'):
        for lev in range(n + 2):
            e, st = nest.world(prog, {'asmline': nest.skeleton_stub(lambda st, t, ex: ['endm'])})
            for nm, o in nest.define_macro(prog, ()).items():
                st.mem[nm] = o.copy()
                st.owned.add(nm)
            e.setg(st, 'sourcelevel', lev)
            e.setg(st, 'macrolevel', 0)
            e.setg(st, 'includelevel', 0)
            e.setg(st, 'asmflags', Sym('FLAGS', 32))
            e.setg(st, 'linenumber', 7)
            e.setg(st, 'lineprefix', 0)
            e.setg(st, 'segment', 0)
            e.setg(st, 'thiscall', 0)
            st.data['nfiles'] = 0
            if fn == 'Xinclude':
                a = [0, 0, e.putstr(st, 'mn', 'INCLUDE'), e.putstr(st, 'nm', 'inc')]
            else:
                a = [Ptr('lab:MAC', 0), 2, 0]
            ends = e.call(fn, a, st)
            c.used(e)
            for x in ends:
                if x.end[0] == 'infeasible' or x.events('fopen') and x.events('fopen')[0][1] == 0:
                    continue
                t = None
                o = x.mem.get(g)
                oob = x.events('oob')
                if oob:
                    t = 'source stack written outside its %d entries' % n
                elif lev + 1 < n:
                    if x.end[0] != 'ret':
                        t = 'level %d of %d is refused: %r' % (lev + 1, n, x.end)
                    elif fn == 'Xinclude' and e.getg(x, 'sourcelevel') != lev + 1:
                        t = 'source level becomes %s' % dom.show(e.getg(x, 'sourcelevel'))
                    elif fn == 'macrocall' and e.getg(x, 'sourcelevel') != lev:
                        t = 'source level becomes %s' % dom.show(e.getg(x, 'sourcelevel'))
                elif x.end[0] not in ('fatal', 'error', 'recover', 'exit'):
                    t = 'level %d is accepted with %d entries: %r' % (lev + 1, n, x.end)
                elif o is not None and any(k >= tot for k in o.cells):
                    t = 'source stack written outside its %d entries' % n
                if t:
                    c.bad('nesting limit', 'macro.c ' + fn, '%s at level %d: %s' % (fn, lev, t), 'limit ' + fn)
                else:
                    c.ob('nesting limit', '%s at level %d: %s' % (fn, lev, x.end[0]))
    c.floor('nesting limit', 12)


def textual(c, prog):
    c.rule('the line reader, every character and both ways a line can end: printable characters, tabs and 8 bit characters are kept in order, the '
           'line number advances by one, and a line of a macro does not advance it')
    for kind in ('line', 'last'):
        for lo, hi in classes():
            keep = (hi >= 128) or lo == 9 or 32 <= lo <= 126
            ch = Sym('C', 8)
            e = Engine(prog, dict(nest.STUBS, warning=lambda e, st, a, i: (st.ev('warning', i.where()), 0)[1]))

            def gets(e, st, a, ins):
                out = [ord('A'), ch, ord('B')] + ([10] if kind == 'line' else []) + [0]
                for i, b in enumerate(out):
                    e.store(st, ptradd(a[0], i), ir.INT(8), b, ins)
                nest.setf(st, nest.SRC, eof=int(kind == 'last'))
                return a[0]
            e.stubs['fgets'] = gets
            st = State()
            st.facts = facts(ch, lo, hi)
            nest.setf(st, nest.SRC, n=3)
            e.setg(st, 'file', nest.SRC)
            e.setg(st, 'sourcelevel', 0xffffffff)
            e.setg(st, 'linenumber', Sym('LINE', 32))
            e.setg(st, 'passnumber', 2)
            buf = e.newobj(st, 'buf', 256)
            for x in e.call('linegets', [buf, 250], st):
                if x.end[0] == 'infeasible':
                    continue
                t = None
                got = []
                for i in range(4):
                    v = e.load(x, ptradd(buf, i), ir.INT(8))
                    if v == 0:
                        break
                    got.append(v)
                want = [65, ch, 66] if keep else [65, 66]
                if lo == 0:
                    want = [65]
                if x.end[0] != 'ret':
                    t = 'ends in %r' % (x.end,)
                elif len(got) != len(want) or any(not x.facts.equal(a, b, 8) for a, b in zip(got, want)):
                    t = 'becomes %s' % ' '.join(dom.show(v) for v in got)
                elif not x.facts.equal(e.getg(x, 'linenumber'), dom.add(32, Sym('LINE', 32), 1), 32):
                    t = 'line number becomes %s' % dom.show(e.getg(x, 'linenumber'))
                elif bool(x.events('warning')) != (not keep and lo != 0):
                    t = 'warning %s' % ('missing' if not keep else 'given')
                nm = 'character %02X..%02X, %s' % (lo, hi, 'terminated' if kind == 'line' else 'not terminated')
                if t:
                    c.bad('line text', 'macro.c linegets', nm + ': ' + t, nm)
                else:
                    c.ob('line text', nm)
            c.used(e)
    c.floor('line text', 8)


def toolong(c, prog):
    c.rule('a line that fills the buffer: the rest of it is skipped up to its end and no further, and anything but blanks in it is an error')
    for n in (249, 250):
        e = Engine(prog, dict(nest.STUBS, warning=lambda e, st, a, i: 0))

        def gets(e, st, a, ins):
            if a[1] < 100:
                raise ir.AnalysisError('line buffer of %r' % a[1])
            k = a[1] - 1
            for i, b in enumerate([65] * (k - 1) + [10 if n == 250 else 65, 0]):
                e.store(st, ptradd(a[0], i), ir.INT(8), b, ins)
            st.ev('fgets')
            return a[0]
        e.stubs['fgets'] = gets
        st = State()
        nest.setf(st, nest.SRC, n=3)
        e.setg(st, 'file', nest.SRC)
        e.setg(st, 'sourcelevel', 0xffffffff)
        e.setg(st, 'linenumber', Sym('LINE', 32))
        e.setg(st, 'passnumber', 2)
        e.setg(st, 'asmflags', F['NOERROR'])
        lines.set_recovery(e, st)
        buf = e.newobj(st, 'buf', 256)
        sl = enc.mklabel(prog, e, st, '*', Sym('STAR', 64), enc.USED)
        e.setg(st, 'starlabel', sl)
        e.setg(st, 'advance', 0)
        for x in e.call('linegets', [buf, 250], st):
            if x.end[0] == 'infeasible':
                continue
            t = None
            g = [v[1] for v in x.events('getc')]
            over = len(x.events('fgets')) > 1
            if n == 250 and (g or over):
                t = 'reads on after the end of the line'
            elif n == 249 and not over and (not g or g[-1] not in (10, 0xffffffff)):
                t = 'the rest of the line is left to be read as another line'
            elif any(v in (10, 0xffffffff) for v in g[:-1]):
                t = 'reads on after the end of the line'
            elif not over and (ord('x') in g) != (x.end[0] == 'recover'):
                t = 'text beyond the buffer %s' % ('is dropped silently' if x.end[0] != 'recover' else ': blanks are an error')
            elif not x.facts.equal(e.getg(x, 'linenumber'), dom.add(32, Sym('LINE', 32), 1), 32):
                t = 'line number becomes %s' % dom.show(e.getg(x, 'linenumber'))
            nm = 'full buffer, %s' % ('end of line in it' if n == 250 else 'then %s' % ' '.join('EOF' if v > 255 else repr(chr(v)) for v in g))
            if t:
                c.bad('long line', 'macro.c linegets', nm + ': ' + t, nm)
            else:
                c.ob('long line', nm)
        c.used(e)
    c.floor('long line', 2)


def classes():
    return [(1, 8), (9, 9), (11, 31), (32, 91), (92, 92), (93, 126), (127, 127), (128, 255)]


def facts(v, lo, hi):
    import encchk
    import isa
    return encchk.facts_of(isa.c_rng(v, lo, hi, 8))


def run(c, prog):
    c.rule('every trace of a pass over nondeterministic programs with includes and macro calls: each line read is assembled once, in order, under '
           'its own number; a source that ends is closed once and the one containing it continues at its next line')
    tot = nest.families(c, prog, ('files', 'number'), ['files', 'blocks across files', 'nested macros and files', 'macros'])
    if tot.get('return', 0) < 500 or tot.get('line', 0) < 5000:
        c.err('traces cover too little: %r' % tot)
    limit(c, prog)
    textual(c, prog)
    toolong(c, prog)
    c.assume.append('stdio: fgets delivers the next line, feof and ferror its outcome')
    c.assume.append('ENDM or EXITM inside a file included by a macro is not explored')
