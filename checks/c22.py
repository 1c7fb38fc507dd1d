"""C22: both passes start from the same state."""
import c10
import c11
import dom
import enc
import ir
import lines
import nest
from dom import Sym, Ptr
from eng import Engine, State, END

F = enc.F
ZERO = ('macrolevel', 'thiscall', 'segment', 'includelevel', 'errnumber', 'warnnumber', 'codelen')


def prologue(c, prog):
    c.rule('run from its start, and from an unknown state left by the first pass: at the first line read by either pass, nesting, section and macro numbers, error, '
           'warning and code counts are zero, the pass number is right, the location is undefined and assignable, code output is on, and the '
           'line is the first of the source, number 1')
    d = prog.ditypes['label']
    for flags in (0, 1, 7):
        for typ in (0, 1):
            e, st = nest.world(prog, None, budget=2, kinds=['line', 'last'])
            sl = e.getg(st, 'starlabel')

            def line(e, st, a, ins):
                st.ev('line', e.getstr(st, a[0]), nest.snap(e, st), {g: e.getg(st, g) for g in ZERO}, e.getg(st, 'starlabel'),
                      e.load(st, Ptr(sl.obj, d['flags'][0]), ir.INT(8)), ins.where())
                if len(st.events('line')) > 1 and e.getg(st, 'passnumber') == 2 or len(st.events('pass')) > 1:
                    st.end = ('first',)
                    return END
                # anything can happen in the first pass
                for g in ZERO:
                    e.setg(st, g, Sym('old.' + g, 32))
                e.setg(st, 'linenumber', Sym('old.line', 32))
                e.setg(st, 'lineprefix', Sym('old.prefix', 8))
                e.store(st, Ptr(sl.obj, d['flags'][0]), ir.INT(8), Sym('SFLAGS', 8))
                fl = dom.bitop('or', 32, dom.bitop('and', 32, e.getg(st, 'asmflags'), c11.NO),
                               dom.bitop('and', 32, Sym('SETTINGS', 32), ~c11.NO & dom.mask(32)))
                e.setg(st, 'asmflags', fl)
                e.setg(st, 'sourcelevel', 0)
                nest.level(prog, e, st, 0, typ, nest.SRC)
                nest.setf(st, nest.SRC, eof=1, n=3)
                return 0
            ok = lambda e, st, a, i: 0
            e.stubs.update({'asmline': line, 'searchlabel': lambda e, st, a, i: (st.ev('search', e.getstr(st, a[0])), sl)[1],
                            'fprintf': ok, 'init_label_list': ok, 'undeflabels': ok, 'result': ok, 'xref': ok, 'closescodefile': ok, 'remove': ok,
                            'outputEOP': ok, 'fopen': lambda e, st, a, i: nest.SRC})
            for g in ZERO + ('linenumber', 'passnumber', 'advance', 'asmflags'):
                v = e.ginit(prog.gl(g).name).cells.get(0)
                e.setg(st, g, v[1] if v else 0)
            v = e.ginit(prog.gl('sourcelevel').name).cells.get(0)
            e.setg(st, 'sourcelevel', v[1] if v else 0)
            e.setg(st, 'lineprefix', 0)
            e.setg(st, 'starlabel', 0)
            e.setg(st, 'scode', 0)
            e.store(st, Ptr(sl.obj, d['flags'][0]), ir.INT(8), enc.UNDEF | enc.FORWARD | enc.NOREDEF)
            nest.level(prog, e, st, 0, 0, 0)
            e.setg(st, 'filename', Ptr('arg:in', 0))
            for x in e.call('crasm', [flags], st):
                if x.end[0] == 'infeasible':
                    continue
                ls = x.events('line')
                for k, v in enumerate(ls[:2], 1):
                    _, text, sn, z, now, sf, w = v
                    nm = 'pass %d, options %d, reader state %d' % (k, flags, typ)
                    t = None
                    for g in ZERO:
                        if z[g] != 0 and not t:
                            t = '%s is %s' % (g, dom.show(z[g]))
                    fl = sn['asmflags']
                    if t:
                        pass
                    elif sn['passnumber'] != k:
                        t = 'pass number is %s' % dom.show(sn['passnumber'])
                    elif not x.facts.equal(dom.bitop('and', 32, fl, F['CODE_ON']), F['CODE_ON'], 32):
                        t = 'code output is not on'
                    elif now != sl:
                        t = 'location symbol is %r' % (now,)
                    elif not x.facts.equal(dom.bitop('and', 8, sf, enc.UNDEF | enc.NOREDEF | enc.FORWARD), enc.UNDEF, 8):
                        t = 'location symbol has marks %s' % dom.show(sf)
                    elif text != b'src0':
                        t = 'first line is %r' % text
                    elif sn['linenumber'] != 1:
                        t = 'first line has number %s' % dom.show(sn['linenumber'])
                    elif sn['sourcelevel'] != 0:
                        t = 'first line is at level %s' % dom.show(sn['sourcelevel'])
                    if t:
                        c.bad('start of pass', 'crasm.c pass', nm + ': ' + t, 'start ' + nm)
                    else:
                        c.ob('start of pass', nm)
                if len(ls) < 2:
                    c.bad('start of pass', 'crasm.c pass', 'options %d: no line in the second pass: %r' % (flags, x.end), 'no line')
            c.used(e)
    c.floor('start of pass', 12)


def stop(e, st, a, ins):
    st.end = ('first', e.getstr(st, a[0]), a[1])
    return END


def twice(c, prog):
    c.rule('after any trace of the first pass over nondeterministic programs with conditionals, includes and macros, the second pass reads the same first line as the '
           'first, at the top level, with nothing counted')

    def choose(st, t, ex):
        if st.data.get('second'):
            return ['.']
        if t == b'':
            return ['.']
        if t.strip() == b'ENDM':
            return ['endm']
        return ['.', 'err', 'if1', 'endc'] + (['if0', 'call', 'include'] if ex and st.data.get('nfiles', 0) < 2 and st.data['lines'] < 5 else [])
    e, ends = nest.explore(prog, choose, budget=2, incbudget=1, body=('m0',), passno=1, max_states=200000)
    c.used(e)
    e.stubs['asmline'] = stop
    e.max_steps = e.max_states = 1 << 40
    n = 0
    for x in ends:
        if x.end[0] != 'ret':
            continue
        how = ' '.join(nest.story(x))
        x.frames, x.end, x.trace = [], None, None
        f = nest.fl(x, nest.SRC)
        nest.setf(x, nest.SRC, n=2)
        x.data['kinds'] = ['line']
        for y in e.call('pass', [2], x):
            if y.end[0] == 'infeasible':
                continue
            t = None
            if y.end[0] != 'first':
                t = 'no line is read: %r' % (y.end,)
            elif y.end[1] != b'src0':
                t = 'first line is %r' % y.end[1]
            elif e.getg(y, 'linenumber') != 1:
                t = 'first line has number %s' % dom.show(e.getg(y, 'linenumber'))
            elif e.getg(y, 'sourcelevel') != 0:
                t = 'first line is at level %s' % dom.show(e.getg(y, 'sourcelevel'))
            else:
                for g in ZERO:
                    if e.getg(y, g) != 0:
                        t = t or '%s is %s' % (g, dom.show(e.getg(y, g)))
            if t:
                c.bad('second pass', 'crasm.c pass', 'after %s: %s' % (how[:200], t), 'second pass')
            else:
                n += 1
                c.ob('second pass', how)
    c.floor('second pass', 200)


def run(c, prog):
    prologue(c, prog)
    twice(c, prog)
    c10.between(c, prog)
    driver(c, prog)
    c.assume.append('settings made by CPU and OUTPUT in the first pass stay in force at the start of the second (outside the statement)')


def driver(c, prog):
    c.rule('run driver: pass 1, all symbols undefined from the root, pass 2, with no setting changed but the reporting ones')
    for flags in range(16):
        e, ends = c11.run_driver(prog, flags, 0)
        c.used(e)
        for x in ends:
            ev = [v for v in x.events() if v[0] in ('pass', 'undef')]
            if x.end[0] in ('infeasible', 'fatal') and not ev:
                continue
            nm = 'options %d' % flags
            seq = [v[0] + (str(v[1]) if v[0] == 'pass' else '') for v in ev]
            if seq != ['pass1', 'undef', 'pass2']:
                c.bad('driver', 'crasm.c crasm', '%s: order %s' % (nm, ' '.join(seq)), nm)
            elif ev[1][1] != (Ptr('lab:root', 0),):
                c.bad('driver', 'crasm.c crasm', '%s: symbols undefined from %r' % (nm, ev[1][1]), nm)
            elif not c11.kept(x.facts, ev[2][2]):
                c.bad('driver', 'crasm.c crasm', '%s: settings %s' % (nm, dom.show(ev[2][2])), nm)
            else:
                c.ob('driver', nm)
    c.floor('driver', 16)
