"""C15: macro calls expand their own text with their own arguments."""
import dom
import enc
import ir
import lines
import nest
from dom import Sym, Ptr
from eng import Engine, State, END, JUMPED

F = enc.F


def call(prog, bodies, oper, choose=None, extra=None, setup=None, calls=None):
    """macrocall of the first macro; calls: {text: (macro, operand)} for lines that are calls"""
    def line(e, st, a, ins):
        t = e.getstr(st, a[0])
        if t is None:
            raise ir.AnalysisError('expanded line not constant at ' + ins.where())
        for k, (m, op) in (calls or {}).items():
            if t.strip() == k:
                st.ev('line', t, a[1], nest.snap(e, st), ins.where())
                st.cnt += 1
                e.push(st, e.p.fn('macrocall'), [Ptr('lab:' + m, 0), a[1], e.putstr(st, ('op', st.cnt), op)], ins.dst, ins)
                return JUMPED
        return plain(e, st, a, ins)
    plain = nest.skeleton_stub(choose or (lambda st, t, ex: ['endm'] if t.strip().upper() == b'ENDM' else ['.']))
    e, st = nest.world(prog, dict({'asmline': line, 'warning': lambda e, st, a, i: (st.ev('warning', e.getstr(st, a[0]), i.where()), 0)[1]},
                                  **(extra or {})))
    for k, body in bodies.items():
        for n, o in nest.define_macro(prog, body).items():
            n2 = 'lab:' + k if n == 'lab:MAC' else (k,) + (n if isinstance(n, tuple) else (n,))
            o = o.copy()
            # memory of each definition is its own
            for q, (z, v) in list(o.cells.items()):
                if isinstance(v, Ptr) and v.obj != 'lab:MAC':
                    o.cells[q] = (z, Ptr((k,) + (v.obj if isinstance(v.obj, tuple) else (v.obj,)), v.off))
            st.mem[n2] = o
            st.owned.add(n2)
    first = next(iter(bodies))
    e.setg(st, 'sourcelevel', 3)
    e.setg(st, 'macrolevel', 2)
    e.setg(st, 'segment', Sym('SEG', 32))
    e.setg(st, 'thiscall', Sym('CALLS', 32))
    e.setg(st, 'linenumber', Sym('LINE', 32))
    e.setg(st, 'lineprefix', Sym('PREFIX', 8))
    e.setg(st, 'asmflags', dom.bitop('or', 32, Sym('FLAGS', 32), F['NOERROR']))
    if setup:
        setup(e, st)
    ends = e.call('macrocall', [Ptr('lab:' + first, 0), 3, 0 if oper is None else e.putstr(st, 'oper', oper)], st)
    return e, [x for x in ends if x.end[0] != 'infeasible']


def expand(t, args, whole):
    out, i = '', 0
    while i < len(t):
        if t[i] != '\\':
            out += t[i]
            i += 1
            continue
        n = t[i + 1:i + 2]
        if n == '#':
            out += str(len(args))
            i += 2
        elif n == '*':
            out += whole
            i += 2
        elif n and n in '123456789':
            out += args[int(n) - 1] if int(n) <= len(args) else ''
            i += 2
        else:
            out += '\\'
            i += 1
    return out


ARGS = [[], ['A'], ['A', 'BB'], ['A', 'BB', 'CCC'], ['1', '2', '3', '4', '5', '6', '7', '8', '9'], ['"P,Q"', 'R'], ["'X'", "','", 'Z'], ['(A,B)', 'C'],
        ['A', '', 'B'], ['X' * 59, 'Y'], ['X' * 60, 'Y' * 61], ['L' * 100, 'M' * 100], ['\\2', 'B']]
MARKS = ['\\%d' % i for i in range(1, 10)] + ['\\*', '\\#']
TEXT = [' op %s' % m for m in MARKS] + ['%s op' % m for m in MARKS[:2]] + [' op \\1,\\2', ' \\1\\2\\3', 'a\\#b\\1c', ' op \\1 \\1', " asc '\\1'",
        ' \\x \\1', ' op \\', ' op \\\\', ' op \\A\\2', ' op \\1\\', ' plain', '', ' op 1 2', ' op \\19', ' op \\#\\1']


def substitution(c, prog):
    c.rule('macro call, every parameter mark against every argument list: each line assembled is the defined line with \\1..\\9 replaced by the '
           'argument (nothing if not given), \\* by the whole operand, \\# by the number of arguments, and everything else unchanged')
    for args in ARGS:
        for sep in (',', ' , ') if 1 < len(args) < 4 else (',',):
            whole = sep.join(args)
            body = [t for t in TEXT if len(expand(t, args, whole)) < 200]
            e, ends = call(prog, {'MAC': body}, whole or None)
            c.used(e)
            for x in ends:
                got = [v[1].decode('latin1') for v in x.events('line')]
                want = [expand(t, args, whole) for t in body] + [' ENDM']
                nm = 'arguments %r' % whole
                if x.end[0] != 'ret':
                    c.bad('substitution', 'macro.c macrocall', '%s: ends in %r' % (nm, x.end), nm)
                    continue
                for i, (g, w) in enumerate(zip(got + [None] * len(want), want)):
                    if g is None or g.rstrip() != w.rstrip():
                        c.bad('substitution', x.events('line')[min(i, len(got) - 1)][4] if got else 'macro.c linegets',
                              '%s: line %r becomes %r, expected %r' % (nm, (body + [' ENDM'])[i], g, w), 'line %r' % (body + [' ENDM'])[i])
                    else:
                        c.ob('substitution', '%s: %r' % (nm, w))
                if len(got) > len(want):
                    c.bad('substitution', 'macro.c macrocall', '%s: assembles %r after the definition' % (nm, got[len(want)]), nm)
                for v in x.events('warning'):
                    c.bad('substitution', v[2], '%s: warning %r' % (nm, v[1]), nm)
    c.floor('substitution', 200)


def long_lines(c, prog):
    c.rule('an expansion that does not fit the line buffer is reported')
    for args, t in ((['A' * 130, 'B' * 130], ' op \\1\\2'), (['A' * 130, 'B' * 130], ' op \\1,\\2,3'), (['A' * 200], ' op \\1\\1 x'),
                    (['A' * 120], ' op \\1' + 'x' * 150), (['A' * 120], ' op' + 'x' * 150 + '\\1')):
        e, ends = call(prog, {'MAC': [t]}, ','.join(args))
        c.used(e)
        for x in ends:
            nm = 'expansion of %d characters of %s' % (len(expand(t, args, '')), t[:20])
            if not x.events('warning', 'error'):
                c.bad('long expansion', 'macro.c linegets', nm + ': cut without a diagnostic', nm)
            else:
                c.ob('long expansion', nm)
    c.floor('long expansion', 5)


def restored(c, prog):
    c.rule('macro call, every way its lines can go (plain, error, EXITM, conditional directives): on return and on error the source level, nesting '
           'depth, section, line number, listing state and recovery point are those of the caller')

    def choose(st, t, ex):
        if t.strip() == b'ENDM':
            return ['endm']
        return ['.', 'err', 'exitm', 'else', 'endc', 'if1'] + (['if0'] if ex else [])
    pre = {'sourcelevel': 3, 'macrolevel': 2, 'segment': Sym('SEG', 32), 'linenumber': Sym('LINE', 32), 'lineprefix': Sym('PREFIX', 8)}
    for body in ([], [' a'], [' a', ' b'], [' a', ' b', ' c']):
        e, ends = call(prog, {'MAC': body}, 'X,Y', choose)
        c.used(e)
        for x in ends:
            how = ' '.join(v[1] for v in x.events('outcome'))
            t = None
            if x.end[0] not in ('ret', 'recover'):
                t = 'ends in %r' % (x.end,)
            for n, v in pre.items():
                g = e.getg(x, n)
                if not t and not (g == v or x.facts.equal(g, v, 8 if n == 'lineprefix' else 32)):
                    t = '%s is %s after the call, %s before' % (n, dom.show(g), dom.show(v))
            if not t:
                fl = e.getg(x, 'asmflags')
                if not x.facts.equal(fl, dom.bitop('or', 32, Sym('FLAGS', 32), F['NOERROR']), 32):
                    t = 'settings are %s after the call' % dom.show(fl)
            if not t and lines.recovery(e, x) != lines.OUTER:
                t = 'recovery point is not the caller\'s'
            if not t and x.end[0] == 'ret' and x.end[1] != 0:
                t = 'returns %s' % dom.show(x.end[1])
            nm = 'lines %s' % how
            if t:
                c.bad('restored', 'macro.c macrocall', '%s: %s' % (nm, t), nm)
            else:
                c.ob('restored', '%s: %s' % (nm, x.end[0]))
    c.floor('restored', 100)
    c.rule('more than nine arguments are an error that leaves the state of the caller alone')
    for n in (9, 10, 12):
        e, ends = call(prog, {'MAC': [' a']}, ','.join(['A'] * n))
        c.used(e)
        for x in ends:
            t = None
            if (x.end[0] == 'recover') != (n > 9):
                t = '%s' % ('accepted' if n > 9 else 'refused')
            elif n > 9 and x.events('line'):
                t = 'expanded'
            for k, v in pre.items():
                g = e.getg(x, k)
                if not t and not (g == v or x.facts.equal(g, v, 8 if k == 'lineprefix' else 32)):
                    t = '%s is %s' % (k, dom.show(g))
            if t:
                c.bad('argument count', 'macro.c macrocall', '%d arguments: %s' % (n, t), '%d arguments' % n)
            else:
                c.ob('argument count', '%d: %s' % (n, x.end[0]))
    c.floor('argument count', 3)


def nested(c, prog):
    c.rule('a call inside an expansion has its own text, arguments and section; the outer expansion continues with its own afterwards')
    for k in range(3):
        outer = ['P \\1 \\# \\*', ' CALLB', 'Q \\1 \\2 \\*']
        inner = ['R \\1 \\#', ' S \\2'] if k < 2 else ['R \\1', ' CALLC', 'T \\1 \\*']
        bod = {'A': outer, 'B': inner, 'C': ['U \\1 \\2']}
        e, ends = call(prog, bod, 'o1,o2', calls={b'CALLB': ('B', 'i1,i2,i3'), b'CALLC': ('C', 'c1,c2')} if k else {b'CALLB': ('B', 'i1')})
        c.used(e)

        def run_(name, args):
            out = []
            for t in bod[name] + [' ENDM']:
                x = expand(t, args, ','.join(args))
                out.append(x)
                if x.strip() == 'CALLB':
                    out += run_('B', ['i1', 'i2', 'i3'] if k else ['i1'])
                elif x.strip() == 'CALLC':
                    out += run_('C', ['c1', 'c2'])
            return out
        want = run_('A', ['o1', 'o2'])
        for x in ends:
            got = [v[1].decode('latin1') for v in x.events('line')]
            nm = 'nesting shape %d' % k
            if x.end[0] != 'ret' or [g.rstrip() for g in got] != [w.rstrip() for w in want]:
                c.bad('nested call', 'macro.c macrocall', '%s: assembles %r, expected %r' % (nm, got, want), nm)
            else:
                c.ob('nested call', '%s: %r' % (nm, got))
    c.floor('nested call', 3)


DEFS = [
    ([' a', ' b', ' ENDM'], 2), ([' ENDM'], 0), ([' a', '\tendm'], 1), ([' a', ' ENDM ; done'], 1), ([' jsr SENDM', ' ENDM'], 1),
    ([' ENDMX', ' ENDM'], 1), ([' XENDM', ' ENDM'], 1), ([" asc 'ENDM'", ' ENDM'], 1), (['; ENDM', ' ENDM'], 1), (['', ' ENDM'], 1),
    ([' a ; ENDM here', ' ENDM'], 1), ([' IF 1', ' EXITM', ' ENDC', ' ENDM'], 3), ([' db "a;b"', ' ENDM'], 1), (['ENDM'], 0),
    ([' a_ENDM', 'ENDM.x', ' ENDM'], 2), ([' lda ENDM,x', ' ENDM'], 1),
]


def definition(c, prog):
    c.rule('MACRO: the definition is every line up to the first that has ENDM as a word, without remarks, and a call assembles those lines')
    for text, n in DEFS:
        e, st = nest.world(prog, {'deflabel': lambda e, st, a, i: (st.ev('deflabel', e.getstr(st, a[0]), a[2]), Ptr('lab:MAC', 0))[1]}, budget=0)
        enc.mklabel(prog, e, st, 'MAC', 0, 0, enc.L_MACRO)

        def gets(e, st, a, ins):
            k = st.data.get('k', 0)
            st.data['k'] = k + 1
            if k >= len(text):
                st.end = ('defect', 'reads on after ENDM', ins.where())
                return END
            for i, b in enumerate(text[k].encode() + b'\0'):
                e.store(st, Ptr(a[0].obj, a[0].off + i), ir.INT(8), b, ins)
            return 0
        e.stubs['linegets'] = gets
        e.setg(st, 'macrolevel', 0)
        e.setg(st, 'sourcelevel', 0)
        e.setg(st, 'asmflags', F['NOERROR'])
        for x in e.call('Xmacro', [3, e.putstr(st, 'nm', 'MyMac'), e.putstr(st, 'mn', 'MACRO'), 0], st):
            if x.end[0] == 'infeasible':
                continue
            t = None
            nm = 'definition %r' % (text,)
            d = x.events('deflabel')
            if x.end[0] != 'ret':
                t = 'ends in %r' % (x.end,)
            elif x.data.get('k') != n + 1:
                t = 'takes %d lines, expected %d' % (x.data.get('k', 0), n + 1)
            elif len(d) != 1 or d[0][1] != b'MyMac' or d[0][2] != enc.L_MACRO:
                t = 'defines %r' % (d,)
            if t:
                c.bad('definition', 'macro.c Xmacro', nm + ': ' + t, nm)
                continue
            # expand it
            x.frames, x.end, x.trace = [], None, None
            e2, s2 = nest.world(prog, {'asmline': nest.skeleton_stub(lambda st, t, ex: ['endm'] if t.split()[:1] in ([b'ENDM'], [b'endm']) else ['.'])})
            for o in x.mem:
                if o == 'lab:MAC' or o not in s2.mem and not (isinstance(o, str) and o in prog.globals):
                    s2.mem[o] = x.mem[o]
            for g, v in (('sourcelevel', 0), ('macrolevel', 0), ('segment', 0), ('thiscall', 0), ('linenumber', 5), ('lineprefix', 0), ('asmflags', F['NOERROR'])):
                e2.setg(s2, g, v)
            for y in e2.call('macrocall', [Ptr('lab:MAC', 0), 3, 0], s2):
                if y.end[0] == 'infeasible':
                    continue
                got = [v[1].decode('latin1').rstrip() for v in y.events('line')]
                want = [strip(l) for l in text[:n + 1]]
                if y.end[0] != 'ret' or got != want:
                    c.bad('definition', 'macro.c Xmacro', '%s: a call assembles %r' % (nm, got), nm)
                else:
                    c.ob('definition', nm)
            c.used(e2)
        c.used(e)
    c.floor('definition', 14)


def strip(l):
    q = None
    for i, ch in enumerate(l):
        if q:
            q = None if ch == q else q
        elif ch in '\'"':
            q = ch
        elif ch == ';':
            return l[:i].rstrip()
    return l.rstrip()


def run(c, prog):
    substitution(c, prog)
    long_lines(c, prog)
    restored(c, prog)
    nested(c, prog)
    definition(c, prog)
    c.rule('every trace of a pass over nondeterministic programs: an expansion assembles the lines of its definition in order, one nesting level deeper and in a '
           'section of its own, and the caller\'s section and depth return with it')
    tot = nest.families(c, prog, ('macro', 'expand'), ['macros', 'nested macros and files'])
    if tot.get('call', 0) < 2000:
        c.err('traces cover too little: %r' % tot)
    c.assume.append('argument texts are representative constants; operand splitting itself is C24')
