"""C27: LIST, CLIST, MLIST and ILIST list exactly the lines they are documented to list."""
import itertools

import c23
import dom
import enc
import ir
import lines
import nest
from dom import Ptr
from eng import Engine, State

F = enc.F
M = dom.mask(32)
L, C, MA, I = F['LIST_ON'], F['IFLIST_ON'], F['MACROLIST_ON'], F['INCLUDELIST_ON']
BITS = (('list', L), ('clist', C), ('mlist', MA), ('ilist', I))
ALL = L | C | MA | I
BASE = F['CODE_ON'] | F['NOERROR']


def settings():
    for r in range(5):
        for on in itertools.combinations(BITS, r):
            yield sum(b for _, b in on), '+'.join(n for n, _ in on) or 'all off'


def current(e, st):
    return e.getstr(st, Ptr(e.p.gl('curline').name, 0))


def setcur(e, st, text):
    g = e.p.gl('curline')
    for k, b in enumerate(text + b'\0'):
        e.store(st, Ptr(g.name, k), ir.INT(8), b)


def s_outputline(e, st, a, ins):
    st.ev('shown', current(e, st), e.getg(st, 'asmflags'), e.getg(st, 'linenumber'), e.getg(st, 'lineprefix'), ins.where())
    return 0


def shown(evs, where=None):
    """events of lines that come out: the listing is on and the line has a number"""
    return [v for v in evs if v[0] == 'shown' and v[2] & L and v[3] != 0]


def line_world(prog, budget, flags, kinds, outcomes, stubs=None):
    """a world whose lines have the given outcomes in turn"""
    def s_line(e, st, a, ins):
        n = st.data['lines'] = st.data.get('lines', 0) + 1
        s = a[1]
        if not isinstance(s, int):
            raise ir.AnalysisError('status unknown at ' + ins.where())
        k = outcomes[n - 1] if n <= len(outcomes) else 'ENDC'
        v = e.getg(st, 'asmflags')
        st.ev('line', e.getstr(st, a[0]), s, v, k, ins.where())
        if s & 2 and k[1:] in ('con', 'coff', 'mon', 'moff'):
            b = C if k[1] == 'c' else MA
            e.setg(st, 'asmflags', v | b if k.endswith('on') else v & ~b & M)
        if k == 'err':
            return [lines.raise_error(e, st, 'line error', ins)]
        if k in ('ELSE', 'ENDC', 'EXITM', 'ENDM'):
            return nest.codes(prog)[k]
        return 0
    e, st = nest.world(prog, dict({'asmline': s_line, 'outputline': s_outputline}, **(stubs or {})), budget=budget, kinds=kinds)
    e.setg(st, 'asmflags', flags)
    for n, v in (('sourcelevel', 0), ('macrolevel', 0), ('linenumber', 5), ('lineprefix', 0), ('segment', 0), ('thiscall', 0), ('includelevel', 0), ('passnumber', 2)):
        e.setg(st, n, v)
    nest.level(prog, e, st, 0, 1, nest.SRC)
    return e, st


# ---------------------------------------------------------------- conditionals
def conditionals(c, prog):
    c.rule('IF, every setting, status of the block, condition and script of lines with and without ELSE: a line of the selected part is assembled for '
           'listing exactly when the block is, a line of the other part exactly when in addition CLIST is on where the part begins; the lines of '
           'the directives themselves are listed once when CLIST is on, and never in a block that is not to be listed')
    body = ('.', 'err', '.coff', '.con')
    scripts = [list(p) + ['ENDC'] for r in (1, 2) for p in itertools.product(body, repeat=r)]
    scripts += [[a, 'ELSE', b, 'ENDC'] for a in body for b in body] + [['ELSE', a, 'EXITM'] for a in body]
    for fl, nm0 in settings():
        if fl & (MA | I) and c.tier == 'quick':
            continue
        for status in range(4):
            if status == 1 and not fl & C:
                continue        # no line of a block that is not executed is listed with CLIST off, and none changes CLIST
            for cond in ((b'0', b'1') if status & 2 else (b'1',)):
                for sc in scripts:
                    e, st = line_world(prog, 6, BASE | fl, ['line'], sc)
                    setcur(e, st, b' if')
                    nm = '%s, status %d, IF %s, lines %s' % (nm0, status, cond.decode(), ' '.join(sc))
                    ends = [x for x in e.call('Xif', [status, 0, e.putstr(st, 'mn', 'IF'), e.putstr(st, 'op', cond)], st) if x.end[0] != 'infeasible']
                    c.used(e)
                    t = None if ends else 'no way through'
                    for x in ends:
                        t = t or conditional(x, status, fl, cond == b'1', sc)
                    if t:
                        c.bad('conditional', 'macro.c Xif', nm + ': ' + t, 'conditional ' + nm)
                    else:
                        c.ob('conditional', nm)
    c.floor('conditional', 600)


def conditional(x, status, fl, cond, sc):
    if x.end[0] not in ('ret',):
        return 'ends in %r' % (x.end,)
    evs = [v for v in x.events() if v[0] in ('shown', 'line')]
    k = next((i for i, v in enumerate(evs) if v[0] == 'line'), len(evs))
    groups = [(b' if', fl, evs[:k])]
    part = 1
    start = fl
    for i, v in enumerate(evs):
        if v[0] != 'line':
            continue
        sel = bool(status & 2) and cond == (part == 1)
        now = v[3]
        want = status & 1 and (sel or bool(start & C))
        if bool(v[2] & 1) != bool(want):
            return 'line %s is assembled %s listing' % (v[4], 'for' if v[2] & 1 else 'without')
        j = next((j for j in range(i + 1, len(evs)) if evs[j][0] == 'line'), len(evs))
        if v[4] in ('ELSE', 'ENDC', 'EXITM'):
            groups.append((v[1], now if v[4] != 'EXITM' else None, evs[i + 1:j]))
        elif [w for w in evs[i + 1:j] if w[0] == 'shown' and v[4] != 'err']:
            return 'line %s is listed by the conditional' % v[4]
        if v[4] == 'ELSE':
            part, start = 2, now
    for text, f, g in groups:
        g = [v for v in g if v[0] == 'shown']
        if len(g) > 1:
            return 'directive %r is listed %d times' % (text, len(g))
        if g and not status & 1:
            return 'directive %r is listed in a block that is not' % text
        if g and g[0][1] != text:
            return 'directive %r is listed as %r' % (text, g[0][1])
        if f is not None and not g and status & 1 and f & C:
            return 'directive %r is not listed' % text
    return None


# ---------------------------------------------------------------- macros
def macros(c, prog):
    c.rule('macro calls, every setting, status and body: the lines of the expansion are assembled for listing exactly when the call is and MLIST is on at '
           'the call; the call itself is listed once, as it stands in the source, exactly when it is to be listed')
    body = ('.', 'err', '.mon', '.moff')
    for fl, nm0 in settings():
        if fl & (C | I) and c.tier == 'quick':
            continue
        for status in (2, 3):
            for sc in itertools.product(body, repeat=2):
                for last in ('ENDM', 'EXITM'):
                    cells = nest.define_macro(prog, [' a', ' b', ' c'])
                    e, st = line_world(prog, 0, BASE | fl, None, list(sc) + [last])
                    for n, o in cells.items():
                        st.mem[n] = o.copy()
                        st.owned.add(n)
                    setcur(e, st, b' mac')
                    nm = '%s, status %d, lines %s %s' % (nm0, status, ' '.join(sc), last)
                    ends = [x for x in e.call('macrocall', [Ptr('lab:MAC', 0), status, 0], st) if x.end[0] != 'infeasible']
                    c.used(e)
                    t = None if ends else 'no way through'
                    for x in ends:
                        evs = x.events()
                        if x.end[0] != 'ret':
                            t = 'ends in %r' % (x.end,)
                            continue
                        f = fl & MA
                        for v in evs:
                            if v[0] == 'line' and bool(v[2] & 1) != bool(status & 1 and f):
                                t = t or 'line %s of the expansion is assembled %s listing' % (v[4], 'for' if v[2] & 1 else 'without')
                        inner = False
                        n = 0
                        for v in evs:
                            if v[0] == 'line':
                                inner = v[4] == 'err'
                            elif v[0] == 'shown':
                                if inner and v[4] == ord('M'):
                                    inner = False       # the line in error, shown by error()
                                    continue
                                n += 1
                                if v[1] != b' mac' or v[3] != 5 or v[4] != 0:
                                    t = t or 'the call is listed as line %r %r' % (v[3], v[1])
                                elif bool(v[2] & L) != bool(fl & L):
                                    t = t or 'the call is listed with the listing %s' % ('on' if v[2] & L else 'off')
                        if n != (1 if status & 1 else 0):
                            t = t or 'the call is listed %d times' % n
                        if bool(e.getg(x, 'asmflags') & L) != bool(fl & L):
                            t = t or 'the listing is %s after the call' % ('off' if fl & L else 'on')
                    if t:
                        c.bad('macro', 'macro.c macrocall', nm + ': ' + t, 'macro ' + nm)
                    else:
                        c.ob('macro', nm)
    c.floor('macro', 200)


def definitions(c, prog):
    c.rule('macro definitions, every setting and status: each of their lines is listed once exactly when the definition is to be listed')
    for fl, nm0 in settings():
        for status in range(4):
            e, st = line_world(prog, 4, BASE | fl, ['line'], [], {'deflabel': lambda e, st, a, i: Ptr('lab:MAC', 0), 'filter': endm(prog)})
            enc.mklabel(prog, e, st, 'MAC', 0, 0, enc.L_MACRO)
            setcur(e, st, b'mac macro')
            nm = '%s, status %d' % (nm0, status)
            ends = [x for x in e.call('Xmacro', [status, e.putstr(st, 'nm', 'MAC'), e.putstr(st, 'mn', 'MACRO'), 0], st) if x.end[0] != 'infeasible']
            c.used(e)
            t = None if ends else 'no way through'
            for x in ends:
                read = [b'mac macro'] + [v[2] for v in x.events('fgets')]
                got = [v[1] for v in x.events('shown')]
                if x.end[0] != 'ret':
                    t = 'ends in %r' % (x.end,)
                elif got != (read if status & 1 else []):
                    t = 'lines %r are listed as %r' % (read, got)
            if t:
                c.bad('definition', 'macro.c Xmacro', nm + ': ' + t, 'definition ' + nm)
            else:
                c.ob('definition', nm)
    c.floor('definition', 64)


def endm(prog):
    """the third line read is the ENDM"""
    def f(e, st, a, ins):
        m = e.getstr(st, a[0])
        p = e.getstr(st, a[1])
        if p == b'_ENDM_' and m is not None and m.endswith(b'2'):
            return 1
        if p is not None and b'ENDM' in p:
            return 0
        return enc.filter_stub(e, st, a, ins)
    return f


# ---------------------------------------------------------------- included files
def includes(c, prog):
    c.rule('INCLUDE, every setting, outside and inside of a macro: its line is listed once exactly when the listing is on and, inside of a macro, MLIST is; '
           'the lines of the file are listed exactly when in addition ILIST is on, and after the file the listing is as before')
    for fl, nm0 in settings():
        for mac in (0, 1):
            for depth in (1, 2):
                e, st = line_world(prog, 2, BASE | fl, ['last'], [])
                st.data['incbudget'] = 1
                e.setg(st, 'macrolevel', mac)
                setcur(e, st, b' include f')
                nm = '%s, %s a macro, %d deep' % (nm0, 'inside of' if mac else 'outside of', depth)
                t = None
                todo, n = [st], 0
                for d in range(depth):
                    nxt = []
                    for s0 in todo:
                        before = len(s0.events('shown')), e.getg(s0, 'asmflags')
                        for x in e.call('Xinclude', [0, 0, e.putstr(s0, 'mn', 'INCLUDE'), e.putstr(s0, 'nm', 'f')], s0):
                            if x.end[0] == 'infeasible' or x.events('error') and x.end[0] == 'recover':
                                continue
                            if x.end[0] != 'ret':
                                t = t or 'ends in %r' % (x.end,)
                                continue
                            got = [v for v in x.events('shown')[before[0]:] if v[2] & L and v[3]]
                            f0 = before[1]
                            want = bool(f0 & L and (not mac or fl & MA))
                            if len(got) != want:
                                t = t or 'the directive is listed %d times' % len(got)
                            elif got and got[0][1] != b' include f':
                                t = t or 'the directive is listed as %r' % got[0][1]
                            f1 = e.getg(x, 'asmflags')
                            if bool(f1 & L) != bool(f0 & L and fl & I):
                                t = t or 'the file is read with the listing %s' % ('on' if f1 & L else 'off')
                            elif (f1 ^ f0) & ~L & M:
                                t = t or 'other settings change: %x to %x' % (f0, f1)
                            if e.getg(x, 'linenumber') != 0 and want:
                                t = t or 'the directive is listed again by the line assembler'
                            x.frames, x.end = [], None
                            e.setg(x, 'linenumber', 5)
                            nxt.append(x)
                    todo = nxt
                # read the files to their ends and one line more
                for k in range(depth + 1):
                    nxt = []
                    for s0 in todo:
                        for x in e.call('linegets', [Ptr(prog.gl('curline').name, 0), 250], s0):
                            if x.end[0] == 'infeasible':
                                continue
                            if x.end[0] != 'ret':
                                t = t or 'reading ends in %r' % (x.end,)
                                continue
                            lv = e.getg(x, 'includelevel')
                            f1 = e.getg(x, 'asmflags')
                            if lv != depth - k:
                                t = t or 'level of files %r after %d lines' % (lv, k + 1)
                            elif bool(f1 & L) != bool(fl & L and (lv == 0 or fl & I)):
                                t = t or 'the listing is %s at level %d of the files' % ('on' if f1 & L else 'off', lv)
                            elif (f1 ^ fl) & ~L & ALL:
                                t = t or 'other settings change: %x to %x' % (fl, f1)
                            x.frames, x.end = [], None
                            nxt.append(x)
                            n += 1
                    todo = nxt
                c.used(e)
                if not n:
                    t = t or 'no way through'
                if t:
                    c.bad('include', 'macro.c Xinclude', nm + ': ' + t, 'include ' + nm)
                else:
                    c.ob('include', nm)
    c.floor('include', 64)


# ---------------------------------------------------------------- directives, passes, output
def switches(c, prog):
    c.rule('LIST, CLIST, MLIST and ILIST with ON and OFF in any spelling set and clear their own setting and no other, LIST ON only in a run that lists; '
           'anything else is an error and changes nothing')
    for (n, b) in BITS:
        h = 'X' + n
        e = Engine(prog)
        ents = [x for g in prog.globals.values() if g.cname == 'pseudos' and g.init is not None for x in enc.read_table(prog, e, g.name)
                if x.name.upper() == n.upper()]
        h = ents and getattr(ents[0].ptr, 'name', None)
        if not h:
            c.err('no handler of directive %s' % n)
            continue
        for fl, nm0 in settings():
            for no in (0, F['NOLIST']):
                if no and fl & L:
                    continue        # the listing is never on in a run that does not list
                for op in ('ON', 'OFF', 'on', 'Off', ' ON ', 'O', 'ONX', 'X', '', None):
                    e = Engine(prog, {'filter': enc.filter_stub})
                    st = State()
                    f0 = BASE | fl | no
                    e.setg(st, 'asmflags', f0)
                    for g in ('macrolevel', 'includelevel', 'sourcelevel'):
                        e.setg(st, g, 0)
                    o = 0 if op is None else e.putstr(st, 'op', op)
                    ends = [x for x in e.call(h, [0, 0, e.putstr(st, 'mn', n.upper()), o], st) if x.end[0] != 'infeasible']
                    c.used(e)
                    w = (op or '').strip().upper()
                    want = f0 | b if w == 'ON' and not (b == L and no) else f0 & ~b & M if w == 'OFF' else f0
                    t = None if len(ends) == 1 else '%d ways' % len(ends)
                    for x in ends:
                        if (x.end[0] == 'error') != (w not in ('ON', 'OFF')) or x.end[0] not in ('error', 'ret'):
                            t = 'ends in %s' % x.end[0]
                        elif e.getg(x, 'asmflags') != want:
                            t = 'settings %x become %s' % (f0, dom.show(e.getg(x, 'asmflags')))
                    nm = '%s %s, %s%s' % (n.upper(), op, nm0, ', no listing' if no else '')
                    if t:
                        c.bad('switch', 'pseudos.c ' + h, nm + ': ' + t, 'switch ' + nm)
                    else:
                        c.ob('switch', nm)
    c.floor('switch', 600)


def beginnings(c, prog):
    c.rule('at the first line of either pass, whatever the settings before: LIST is on exactly in a run that lists, CLIST is on, MLIST and ILIST are off, '
           'and the line is assembled for listing')
    for n in (1, 2):
        for fl, nm0 in settings():
            for no in (0, F['NOLIST']):
                if no and fl & L:
                    continue
                e, st = nest.world(prog, {'asmline': lambda e, st, a, i: (st.ev('line', a[1], e.getg(st, 'asmflags')), 0)[1],
                                          'findlabel': lambda e, st, a, i: Ptr('lab:*', 0), 'outputline': s_outputline}, budget=1, kinds=['last'])
                e.setg(st, 'asmflags', F['NOERROR'] | fl | no)
                e.setg(st, 'sourcelevel', M)
                ends = [x for x in e.call('pass', [n], st) if x.end[0] != 'infeasible']
                c.used(e)
                t = None if ends else 'no way through'
                for x in ends:
                    v = x.events('line')
                    if not v:
                        t = 'reads no line'
                    elif v[0][1] != 3:
                        t = 'status %r' % (v[0][1],)
                    else:
                        want = (0 if no else L) | C
                        if v[0][2] & ALL != want:
                            t = 'settings %x where %x is documented' % (v[0][2] & ALL, want)
                nm = 'pass %d after %s%s' % (n, nm0, ', no listing' if no else '')
                if t:
                    c.bad('beginning', 'crasm.c pass', nm + ': ' + t, 'beginning ' + nm)
                else:
                    c.ob('beginning', nm)
    c.floor('beginning', 40)


def silence(c, prog):
    c.rule('a line goes out exactly when the listing is on')
    for fl, nm0 in settings():
        for ppos in (0, 5, 63):
            rec = lambda k: lambda e, st, a, i: (st.ev('print', k), 0)[1]
            e = Engine(prog, {k: rec(k) for k in ('puts', 'printf', 'putchar', 'fputs', 'fwrite', 'fputc', 'putc')})
            e.stubs['ferror'] = lambda e, st, a, i: 0
            st = State()
            e.setg(st, 'asmflags', BASE | fl)
            for g, v in (('ppos', ppos), ('plen', 66), ('llen', 76), ('pagenumber', 1)):
                e.setg(st, g, v)
            p = e.putstr(st, 'text', b'text')
            t = None
            for x in e.call('outputraw', [p], st):
                if x.end[0] == 'infeasible':
                    continue
                n = len(x.events('print'))
                if x.end[0] != 'ret':
                    t = 'ends in %r' % (x.end,)
                elif bool(n) != bool(fl & L):
                    t = '%d things are printed' % n
            c.used(e)
            if t:
                c.bad('output', 'output.c outputraw', '%s, line %d of the page: %s' % (nm0, ppos, t), 'output ' + nm0)
            else:
                c.ob('output', nm0)
    c.floor('output', 48)


def run(c, prog):
    c.level = 'proof'
    c.assume += ['LIST ON and OFF inside of an included file or a macro expansion, and CLIST inside of a part, are not judged beyond the lines that follow them',
                 'with CLIST off the lines of IF, ELSE and ENDC themselves may be listed or not',
                 'ENDM, EXITM lines of an expansion may be listed or not']
    c23.onceshown(c, prog)
    conditionals(c, prog)
    macros(c, prog)
    definitions(c, prog)
    includes(c, prog)
    switches(c, prog)
    beginnings(c, prog)
    silence(c, prog)
