"""C10: undefined, redefined and inconsistent symbols are errors."""
import itertools
import dom
import enc
import ir
import lines
from dom import Sym, Ptr, Fn
from eng import Engine, State
from chk import Check

UNDEF, FORWARD, USED, NOREDEF = enc.UNDEF, enc.FORWARD, enc.USED, enc.NOREDEF
FL = {UNDEF: 'undefined', FORWARD: 'forward', USED: 'used', NOREDEF: 'fixed'}
TY = {-1: 'mnemonic', 2: 'macro', 3: 'absolute', 4: 'relative', 5: 'registers', 6: 'bit'}
OLD, NEW = Sym('OLD', 64), Sym('NEW', 64)


def fshow(f):
    return '+'.join(n for b, n in FL.items() if f & b) or 'none'


def field(e, x, p, f):
    o, z = e.p.ditypes['label'][f]
    v = e.load(x, Ptr(p.obj, p.off + o), ir.PTRT if f in ('left', 'right', 'ptr') else ir.INT(8 * z))
    return v


def all_flags():
    for k in range(5):
        for bs in itertools.combinations(FL, k):
            yield sum(bs)


def deflabel(c, prog):
    c.rule('deflabel, every old symbol state x kind x definition flags x pass: a definition of a symbol already defined in this pass is an '
           'error when either definition is final; a forward referenced symbol whose value differs from the first pass is an error; '
           'otherwise the symbol is defined with the value and kind given, and stays final and forward if it was')
    for old in [None] + list(all_flags()):
        for ty in (3,) if old is None else TY:
            for nf in (0, NOREDEF, FORWARD, FORWARD | NOREDEF):
                for nty in (3, 2, 4):
                    for pn in (1, 2):
                        st = State()

                        def make(e, st, a, ins):
                            st.ev('make', e.getstr(st, a[0]), a[1])
                            p = enc.mklabel(prog, e, st, 'Q', 0, a[1] if isinstance(a[1], int) else 0, a[2] if isinstance(a[2], int) else 3)
                            return p
                        e = Engine(prog, {'searchlabel': lambda e, st, a, i: (st.ev('search', e.getstr(st, a[0])), q if q is not None else 0)[1],
                                          'makelabel': make})
                        q = None if old is None else enc.mklabel(prog, e, st, 'Q', OLD, old, ty)
                        e.setg(st, 'passnumber', pn)
                        ends = e.call('deflabel', [e.putstr(st, 'nm', 'FOO'), nf, nty, NEW], st)
                        c.used(e)
                        o = UNDEF if old is None else old
                        name = 'old %s %s, definition %s as %s, pass %d' % (
                            'absent' if old is None else fshow(old), TY[ty] if old is not None else '', fshow(nf), TY[nty], pn)
                        dup = not o & UNDEF and (o & NOREDEF or nf & NOREDEF)
                        ph = pn == 2 and old is not None and o & UNDEF and o & FORWARD
                        for x in ends:
                            if x.end[0] == 'infeasible':
                                continue
                            t = None
                            w = x.end[2] if len(x.end) > 2 else 'label.c deflabel'
                            same = x.facts.decide('eq', 64, OLD, NEW)
                            if x.end[0] == 'error':
                                if not dup and not (ph and same is False):
                                    t = 'rejected: %s' % x.end[1]
                            elif x.end[0] != 'ret':
                                t = 'ends in %r' % (x.end,)
                            elif dup:
                                t = 'redefinition accepted'
                            elif ph and same is not True:
                                t = 'value differing from the first pass accepted'
                            else:
                                r = x.end[1]
                                if not isinstance(r, Ptr) or r.off != 0 or r.obj != 'lab:Q':
                                    t = 'returns %r' % (r,)
                                else:
                                    f = field(e, x, r, 'flags')
                                    if not x.facts.equal(field(e, x, r, 'value'), NEW, 64):
                                        t = 'value becomes %s' % dom.show(field(e, x, r, 'value'))
                                    elif field(e, x, r, 'type') != nty:
                                        t = 'kind becomes %s' % dom.show(field(e, x, r, 'type'))
                                    elif not isinstance(f, int) or f & UNDEF:
                                        t = 'still undefined'
                                    elif (o | nf) & NOREDEF & ~f:
                                        t = 'definition is no longer final'
                                    elif o & (FORWARD | USED) & ~f:
                                        t = 'mark %s lost' % fshow(o & (FORWARD | USED) & ~f)
                                    elif f & ~(o | nf):
                                        t = 'mark %s appears' % fshow(f & ~(o | nf))
                                    elif old is None and [v[1] for v in x.events('make')] != [b'FOO']:
                                        t = 'symbol not entered under its name'
                            if t:
                                c.bad('definition', w, name + ': ' + t, 'deflabel ' + name)
                            else:
                                c.ob('definition', '%s: %s' % (name, x.end[0]))


def findlabel(c, prog):
    c.rule('findlabel: an existing symbol is only marked used; a new one is undefined, and forward and final exactly in the first pass')
    for old in [None] + list(all_flags()):
        for pn in (1, 2):
            st = State()

            def make(e, st, a, ins):
                st.ev('make', e.getstr(st, a[0]))
                return enc.mklabel(prog, e, st, 'Q', 0, a[1], a[2] if isinstance(a[2], int) else 3)
            e = Engine(prog, {'searchlabel': lambda e, st, a, i: q if q is not None else 0, 'makelabel': make})
            q = None if old is None else enc.mklabel(prog, e, st, 'Q', OLD, old, 5)
            e.setg(st, 'passnumber', pn)
            ends = e.call('findlabel', [e.putstr(st, 'nm', 'FOO')], st)
            c.used(e)
            want = (old | USED) if old is not None else (UNDEF | USED | (FORWARD | NOREDEF if pn == 1 else 0))
            for x in ends:
                if x.end[0] == 'infeasible':
                    continue
                t = None
                if x.end[0] != 'ret' or not isinstance(x.end[1], Ptr) or x.end[1].obj != 'lab:Q':
                    t = 'ends in %r' % (x.end,)
                elif field(e, x, x.end[1], 'flags') != want:
                    t = 'marks %s, expected %s' % (dom.show(field(e, x, x.end[1], 'flags')), fshow(want))
                elif old is not None and (field(e, x, q, 'value') != OLD or field(e, x, q, 'type') != 5):
                    t = 'value or kind changed by a reference'
                nm = 'reference to %s, pass %d' % ('a new name' if old is None else fshow(old), pn)
                if t:
                    c.bad('reference', 'label.c findlabel', nm + ': ' + t, nm)
                else:
                    c.ob('reference', nm)


def between(c, prog):
    c.rule('undeflabels, every node: both subtrees are visited, the symbol becomes undefined, stays forward exactly if it was final and '
           'defined, and nothing else of it changes; directives stay defined')
    for old in all_flags():
        for ty in (3, 2, -1):
            st = State()
            e = Engine(prog, {'undeflabels': lambda e, st, a, i: (st.ev('visit', a[0]), 0)[1]})
            q = enc.mklabel(prog, e, st, 'Q', OLD, old, ty)
            L, R = Ptr('lab:L', 0), Ptr('lab:R', 0)
            for f, v in (('left', L), ('right', R)):
                e.store(st, Ptr(q.obj, prog.ditypes['label'][f][0]), ir.PTRT, v)
            ps = prog.gl('pseudos').name
            st.mem[ps] = e.ginit(ps).copy()
            st.mem[ps].ro = False
            ents = enc.read_table(prog, e, ps)
            d = prog.ditypes['label']
            for n, en in enumerate(ents):
                e.store(st, Ptr(ps, en.addr.off + d['flags'][0]), ir.INT(8), (en.flags & 255) | (UNDEF if n % 2 else 0))
            ends = e.call('undeflabels', [q], st)
            c.used(e)
            for x in ends:
                if x.end[0] == 'infeasible':
                    continue
                nm = '%s %s' % (fshow(old), TY[ty])
                t = None
                keep = FORWARD if old & NOREDEF and not old & UNDEF else 0
                want = (old & ~FORWARD) | UNDEF | (old & keep)
                vs = [v[1] for v in x.events('visit')]
                if x.end[0] != 'ret':
                    t = 'ends in %r' % (x.end,)
                elif sorted(map(repr, (v for v in vs if v != 0))) != sorted(map(repr, (L, R))):
                    t = 'visits %r' % (vs,)
                elif field(e, x, q, 'flags') != want:
                    t = 'marks %s, expected %s' % (dom.show(field(e, x, q, 'flags')), fshow(want))
                elif field(e, x, q, 'value') != OLD or field(e, x, q, 'type') != ty & 255:
                    t = 'value or kind changed'
                else:
                    for en in ents:
                        if field(e, x, en.addr, 'flags') != en.flags & 255 & ~UNDEF:
                            t = 'directive %s left with marks %s' % (en.name, dom.show(field(e, x, en.addr, 'flags')))
                if t:
                    c.bad('between passes', 'label.c undeflabels', nm + ': ' + t, 'undeflabels ' + nm)
                else:
                    c.ob('between passes', nm)


def use(c, prog):
    c.rule('a name in an expression: an undefined symbol that is not defined further on is an error, any other has the value, kind and marks '
           'of its symbol')
    d, dr = prog.ditypes['label'], prog.ditypes['result']
    for old in all_flags():
        for ty in TY:
            for pn in (1, 2):
                st = State()
                e = Engine(prog, {'findlabel': lambda e, st, a, i: (st.ev('find', e.getstr(st, a[0])), q)[1], 'filter': enc.filter_stub})
                q = enc.mklabel(prog, e, st, 'Q', OLD, old, ty)
                e.store(st, Ptr(q.obj, d['modifier'][0]), ir.INT(16), Sym('MOD', 16))
                e.store(st, Ptr(q.obj, d['ptr'][0]), ir.PTRT, Ptr('*PTR', 0))
                e.setg(st, 'passnumber', pn)
                ends = e.call('parse', [e.putstr(st, 'ex', 'FOO')], st)
                c.used(e)
                nm = 'use of %s %s, pass %d' % (fshow(old), TY[ty], pn)
                for x in ends:
                    if x.end[0] == 'infeasible':
                        continue
                    t = None
                    lost = old & UNDEF and not old & FORWARD
                    if [v[1] for v in x.events('find')] != [b'FOO']:
                        t = 'looks up %r' % ([v[1] for v in x.events('find')],)
                    elif lost:
                        if x.end[0] != 'error':
                            t = 'undefined symbol accepted'
                    elif x.end[0] != 'ret':
                        t = 'ends in %r' % (x.end,)
                    else:
                        r = x.end[1]
                        ld = lambda f, ty: e.load(x, Ptr(r.obj, r.off + dr[f][0]), ty)
                        if not x.facts.equal(ld('value', ir.INT(64)), OLD, 64):
                            t = 'value %s' % dom.show(ld('value', ir.INT(64)))
                        elif ld('type', ir.INT(8)) != ty & 255 or ld('flags', ir.INT(8)) != old:
                            t = 'kind %s marks %s' % (dom.show(ld('type', ir.INT(8))), dom.show(ld('flags', ir.INT(8))))
                        elif ld('modifier', ir.INT(16)) != Sym('MOD', 16) or ld('ptr', ir.PTRT) != Ptr('*PTR', 0):
                            t = 'number or binding of the symbol lost'
                    if t:
                        c.bad('use', x.end[2] if len(x.end) > 2 else 'operator.c cstlabel', nm + ': ' + t, nm)
                    else:
                        c.ob('use', '%s: %s' % (nm, x.end[0]))


def equ(c, prog):
    c.rule('EQU: the name gets the value, kind and binding of its expression by a definition that is not final; a reference still pending does '
           'not make the name pending')
    dr, d = prog.ditypes['result'], prog.ditypes['label']
    for fl in all_flags():
        for ty in (3, 4, 5, 6):
            st = State()

            def p_stub(e, st, a, ins):
                r = e.newobj(st, 'res', None, 'zero')
                for f, v, t in (('flags', fl, ir.INT(8)), ('type', ty, ir.INT(8)), ('modifier', Sym('MOD', 16), ir.INT(16)),
                                ('ptr', Ptr('*PTR', 0), ir.PTRT), ('value', NEW, ir.INT(64))):
                    e.store(st, Ptr(r.obj, dr[f][0]), t, v)
                return r

            def d_stub(e, st, a, ins):
                st.ev('deflabel', e.getstr(st, a[0]), a[1], a[2], a[3], ins.where())
                return enc.mklabel(prog, e, st, 'Q', a[3], 0, 3, 77)
            e = Engine(prog, {'parse': p_stub, 'deflabel': d_stub, 'position': lambda *a: 0, 'outputaddr': lambda *a: 0})
            e.setg(st, 'asmflags', Sym('FLAGS', 32))
            ends = e.call('Xequ', [0, e.putstr(st, 'lab', 'FOO'), e.putstr(st, 'mn', 'EQU'), e.putstr(st, 'op', 'BAR')], st)
            c.used(e)
            nm = 'equ to %s %s' % (fshow(fl), TY[ty])
            for x in ends:
                if x.end[0] == 'infeasible':
                    continue
                t = None
                ds = x.events('deflabel')
                if x.end[0] != 'ret' or len(ds) != 1:
                    t = 'ends in %r after %d definitions' % (x.end, len(ds))
                else:
                    _, n, f, ty2, v, w = ds[0]
                    q = Ptr('lab:Q', 0)
                    if n != b'FOO' or ty2 != ty or not x.facts.equal(v, NEW, 64):
                        t = 'defines %r as kind %s value %s' % (n, dom.show(ty2), dom.show(v))
                    elif not isinstance(f, int) or f & (UNDEF | NOREDEF):
                        t = 'defined with marks %s' % dom.show(f)
                    elif fl & FORWARD & ~f:
                        t = 'forward mark of the expression lost'
                    elif field(e, x, q, 'modifier') != Sym('MOD', 16) or field(e, x, q, 'ptr') != Ptr('*PTR', 0):
                        t = 'number or binding of the expression lost'
                if t:
                    c.bad('equ', 'pseudos.c Xequ', nm + ': ' + t, nm)
                else:
                    c.ob('equ', nm)


def label_lines(c, prog):
    c.rule('every line with a label: the label is defined once, as a final definition with the location of the line as value, or the line is '
           'in error; the location itself and labels without an origin cannot be defined so')
    xm = prog.fn('Xmacro').name
    words = dict(lines.WORDS)
    tests = [t for t in lines.TEXTS]
    for text, exp in tests:
        for org in (True, False):
            for rel in (0, 1):
                def setup(e, st):
                    e.setg(st, 'asmflags', enc.F['CODE_ON'] | (enc.F['RELATIF'] if rel else 0) | (enc.F['ORG_GV'] if not org else 0))
                L = lines.Line(prog, text, 3, org=org, setup=setup)
                c.used(L.e)
                lab = None
                if isinstance(exp, tuple):
                    if exp[0] == 'label':
                        lab = exp[1]
                    elif exp[0] and not words[exp[1]][1] & lines.DEFLABEL:
                        lab = exp[0]
                for x in L.ends:
                    ds = x.events('deflabel')
                    er = [v[1] for v in x.events('error')]
                    t = None
                    w = ds[0][5] if ds else 'crasm.c asmline'
                    if x.end[0] not in ('ret', 'recover'):
                        t = 'ends in %r' % (x.end,)
                    elif lab is None or not org:
                        if ds:
                            t = 'defines %r' % ds[0][1]
                        elif lab is not None and x.end[0] != 'recover':
                            t = 'label accepted without an origin'
                    elif x.end[0] == 'ret' and len(ds) != 1:
                        t = 'label not defined'
                    elif len(ds) > 1:
                        t = 'label defined %d times' % len(ds)
                    elif not ds and x.end[0] == 'recover' and b'handler error' in er:
                        t = 'instruction assembled before its label was defined'
                    elif ds:
                        _, n, f, ty, v, w = ds[0]
                        if n.decode('latin1').upper() != lab.upper() or ty != (4 if rel else 3) or not x.facts.equal(v, lines.STAR, 64):
                            t = 'defines %r as kind %s with value %s' % (n, dom.show(ty), dom.show(v))
                        elif f != NOREDEF:
                            t = 'definition is not final'
                    nm = 'line %r%s%s' % (text, '' if org else ' without origin', ' relative' if rel else '')
                    if t:
                        c.bad('labels', w, nm + ': ' + t, nm)
                    else:
                        c.ob('labels', '%s: %s' % (nm, x.end[0]))
    c.rule('the location cannot be defined as a label')
    for text in ('* MNE OP', '* MNE'):
        L = lines.Line(prog, text, 3)
        c.used(L.e)
        for x in L.ends:
            if x.end[0] == 'recover' and not x.events('deflabel') and not x.events('handler'):
                c.ob('star', text)
            else:
                c.bad('star', 'crasm.c asmline', 'line %r accepted' % text, 'line %r' % text)
    c.rule('a macro that is defined cannot be defined again: its name followed by MACRO is an error')
    words = dict(lines.WORDS)
    for text in ('CALL MACX', ' CALL MACX', 'CALL macx', 'CALL MACX ; remark'):
        def bind(e, st):
            d = prog.ditypes['label']
            for k, o in list(st.mem.items()):
                if k == 'lab:MACX':
                    e.store(st, Ptr(k, d['ptr'][0]), ir.PTRT, Fn(xm))
        L = lines.Line(prog, text, 3, setup=bind, extra={xm: lines.handler('macrodef'), 'Xmacro': lines.handler('macrodef')})
        c.used(L.e)
        for x in L.ends:
            if x.end[0] == 'recover' and not x.events('handler'):
                c.ob('macro', text)
            else:
                c.bad('macro', 'crasm.c asmline', 'line %r: %s, %d calls' % (text, x.end[0], len(x.events('handler'))), 'line %r' % text)
    # Xmacro defines its label as a macro, once, when executed
    c.floor('labels', 100)


def run(c, prog):
    deflabel(c, prog)
    findlabel(c, prog)
    between(c, prog)
    use(c, prog)
    equ(c, prog)
    label_lines(c, prog)
    c.floor('definition', 1000)
    c.floor('use', 150)
