"""C12: an erroneous line is reported once and assembly continues after it."""
import dom
import enc
import ir
import lines
import nest
from dom import Sym, Ptr
from eng import Engine, State, END

F = enc.F
FLAGS = Sym('FLAGS', 32)


def message(c, prog):
    c.rule('error(), every setting: the message carries the line number and the text, is shown unless errors are off, goes out with the '
           'listing switched on for it alone, and the line stays accounted for: the location moves past what it placed')
    for off in (0, 1):
        for adv in (0, 1):
            outs = []

            def raw(e, st, a, ins):
                st.ev('outputraw', a[0], e.getg(st, 'asmflags'), text(e, st, a[0]), ins.where())
                return 0
            e = Engine(prog, dict(nest.STUBS, outputraw=raw, longjmp=lambda e, st, a, i: (
                setattr(st, 'end', ('jump', lines.jmptok(e, st, a[0]), a[1])), END)[1],
                outputline=lambda e, st, a, i: (st.ev('outputline', e.getg(st, 'asmflags')), 0)[1]))
            del e.stubs['error']
            st = State()
            fl = dom.bitop('or', 32, dom.bitop('and', 32, FLAGS, dom.mask(32) & ~F['NOERROR']), F['NOERROR'] if off else 0)
            e.setg(st, 'asmflags', fl)
            e.setg(st, 'linenumber', Sym('LINE', 32))
            e.setg(st, 'advance', 0 if not adv else dom.zext(Sym('ADV', 31), 31, 32))
            sl = enc.mklabel(prog, e, st, '*', Sym('STAR', 64), 0)
            e.setg(st, 'starlabel', sl)
            lines.set_recovery(e, st)
            for x in e.call('error', [e.putstr(st, 'msg', 'some text')], st):
                if x.end[0] == 'infeasible':
                    continue
                t = None
                o = x.events('outputraw')
                star = e.load(x, Ptr(sl.obj, prog.ditypes['label']['value'][0]), ir.INT(64))
                want = dom.add(64, Sym('STAR', 64), dom.zext(Sym('ADV', 31), 31, 64)) if adv else Sym('STAR', 64)
                sp = [v for v in x.events('sprintf') if Sym('LINE', 32) in v[2]]
                if x.end[0] != 'jump' or x.end[1] is None or x.end[1].v[0] != 'outer':
                    t = 'does not go to the recovery point: %r' % (x.end,)
                elif len(o) != (0 if off else 1):
                    t = '%d messages' % len(o)
                elif o and not (o[0][2] is FLAGS or x.facts.equal(dom.bitop('and', 32, o[0][2], F['LIST_ON']), F['LIST_ON'], 32)):
                    t = 'message depends on the listing being on'
                elif o and not sp:
                    t = 'message without the line number'
                elif o and b'ome text' not in o[0][3]:
                    t = 'message without its text: %r' % o[0][3]
                elif not x.facts.equal(e.getg(x, 'asmflags'), fl, 32):
                    t = 'settings become %s' % dom.show(e.getg(x, 'asmflags'))
                elif not x.facts.equal(star, want, 64):
                    t = 'location becomes %s' % dom.show(star)
                nm = 'errors %s, %s' % ('off' if off else 'on', 'bytes placed' if adv else 'nothing placed')
                if t:
                    c.bad('message', 'crasm.c error', nm + ': ' + t, nm)
                else:
                    c.ob('message', nm)
            c.used(e)
    c.floor('message', 4)


def text(e, st, p):
    """known characters of a string"""
    out = bytearray()
    for i in range(200):
        v = e.load(st, Ptr(p.obj, p.off + i), ir.INT(8))
        if v == 0:
            break
        out.append(v if isinstance(v, int) else 63)
    return bytes(out)


def raising(c, prog):
    c.rule('errors are counted by the recovery points only: every function that arms the recovery point counts one error when it is taken')
    for f in prog.funcs.values():
        for i in ir.instrs(f):
            if i.op == 'call' and i.a[0][0] == 'g' and i.a[0][1] in ('setjmp', '_setjmp', '__sigsetjmp'):
                c.ob('recovery points', '%s at %s' % (f.cname, i.where()))
                if f.cname not in ('pass', 'Xif', 'macrocall', 'Xmacro'):
                    c.counts['recovery points outside the explored readers'] = c.counts.get('recovery points outside the explored readers', 0) + 1
    c.floor('recovery points', 3)


def definition(c, prog):
    c.rule('MACRO, every way its reading can go: the text up to ENDM is read, an end of source is one error given to the caller\'s recovery point')
    for status in (0, 1, 2, 3):
        for body, last in (([' a', ' ENDM'], 'ret'), ([' a', ' b'], 'eof'), ([' x ENDM y'], 'recover')):
            e, st = nest.world(prog, {'deflabel': lambda e, st, a, i: Ptr('lab:MAC', 0)}, budget=0)
            enc.mklabel(prog, e, st, 'MAC', 0, 0, enc.L_MACRO)

            def gets(e, st, a, ins, body=body):
                k = st.data.get('k', 0)
                st.data['k'] = k + 1
                t = body[k] if k < len(body) else ''
                if k >= len(body):
                    nest.setf(st, nest.SRC, eof=1)
                    if k > len(body) + 2:
                        st.end = ('defect', 'reads on after the end of the source', ins.where())
                        return END
                for i, b in enumerate(t.encode() + b'\0'):
                    e.store(st, Ptr(a[0].obj, a[0].off + i), ir.INT(8), b, ins)
                return 0
            e.stubs['linegets'] = gets
            e.setg(st, 'macrolevel', 0)
            e.setg(st, 'sourcelevel', 0)
            e.setg(st, 'asmflags', F['NOERROR'])
            for x in e.call('Xmacro', [status, e.putstr(st, 'nm', 'MAC'), e.putstr(st, 'mn', 'MACRO'), 0], st):
                if x.end[0] == 'infeasible':
                    continue
                t = None
                n = x.data.get('k', 0)
                errs = len(x.events('error'))
                if x.end[0] not in ('ret', 'recover'):
                    t = 'ends in %r' % (x.end,)
                elif last == 'ret' and (x.end[0] != 'ret' or n != len(body) or errs):
                    t = '%d lines of %d read, %d errors, %s' % (n, len(body), errs, x.end[0])
                elif last != 'ret' and (x.end[0] != 'recover' or errs != 1):
                    t = '%d errors, %s' % (errs, x.end[0])
                elif lines.recovery(e, x) != lines.OUTER and x.end[0] == 'ret':
                    t = 'recovery point of the caller not restored'
                elif not x.facts.equal(e.getg(x, 'errnumber'), Sym('ERRN', 32), 32):
                    t = 'counts an error itself'
                nm = 'status %d, lines %r' % (status, body)
                if t:
                    c.bad('macro definition', 'macro.c Xmacro', nm + ': ' + t, nm)
                else:
                    c.ob('macro definition', nm)
            c.used(e)
    c.floor('macro definition', 12)


def run(c, prog):
    c.rule('every trace of a pass over nondeterministic programs: the error count at each line and at the end is the number of errors raised, each '
           'error returns to a recovery point that is still active, and reading continues with the next line')
    tot = nest.families(c, prog, ('errors', 'misuse', 'files'))
    if tot.get('error', 0) < 5000:
        c.err('traces cover too little: %r' % tot)
    message(c, prog)
    raising(c, prog)
    definition(c, prog)
    lines.location(c, prog)
    c.assume.append('a line is abstracted to its outcomes: plain, error raised inside it, or one of the block directives run by its real handler')
