"""C13: unselected conditional lines have no effect."""
import dom
import enc
import ir
import lines
import nest
from dom import Sym, Ptr, Fn
from eng import Engine, State, END

F = enc.F
BLOCK = {'IF': 'opens a conditional', 'ELSE': 'is part of a conditional', 'ENDC': 'closes a conditional'}


def lines_off(c, prog):
    c.rule('the line assembler with execution off, every line shape: no symbol defined, no instruction, directive or macro run, no location moved; '
           'only block directives are run, told that execution is off')
    for text, exp in lines.TEXTS:
        for status in (0, 1):
            for org in (True, False):
                L = lines.Line(prog, text, status, org=org)
                c.used(L.e)
                for x in L.ends:
                    t = None
                    w = 'crasm.c asmline'
                    for ev in x.events('deflabel'):
                        t, w = 'defines %r' % (ev[1],), ev[5]
                    for ev in x.events('handler'):
                        kind, a = ev[1], ev[2]
                        if kind in ('code', 'call'):
                            t, w = 'runs %s' % {'code': 'an instruction or directive', 'call': 'a macro'}[kind], ev[4]
                        elif not isinstance(a[0], int) or a[0] & 2:
                            t, w = 'runs a block directive with status %s' % dom.show(a[0]), ev[4]
                    if not t and x.end[0] == 'ret' and not x.events('handler') and not x.facts.equal(L.star(x), lines.STAR, 64):
                        t = 'moves the location to %s' % dom.show(L.star(x))
                    if not t and x.end[0] not in ('ret', 'recover'):
                        t = 'ends in %r' % (x.end,)
                    if t:
                        c.bad('skipped line', w, 'line %r status %d: %s' % (text, status, t), 'line %r' % text)
                    else:
                        c.ob('skipped line', '%r status %d: %s' % (text, status, x.end[0]))
    c.floor('skipped line', 100)


def dispatched(c, prog):
    c.rule('vocabulary: the conditional directives reach their handler in skipped text, and every directive that does has no effect there')
    found = {}
    for g in lines.tables(prog):
        for en in enc.read_table(prog, Engine(prog), g):
            if en.type != enc.L_MNEMO:
                continue
            if en.name in BLOCK:
                found[en.name] = en
            if en.flags & (lines.DEFCOND | lines.DEFMACRO) and isinstance(en.ptr, Fn):
                effects(c, prog, en)
    for n, why in BLOCK.items():
        if n not in found:
            c.bad('block directive', 'stdvocabulary.c', 'no directive %s' % n, 'directive ' + n)
        elif not found[n].flags & (lines.DEFCOND | lines.DEFMACRO):
            c.bad('block directive', 'stdvocabulary.c', '%s %s but is not looked at in skipped text' % (n, why), 'directive ' + n)
        else:
            c.ob('block directive', n)


WATCH = ('deflabel', 'insert8', 'setpc', 'parse', 'makelabel', 'undeflabels', 'init_label_list', 'settitle', 'setpage')


def effects(c, prog, en):
    for status in (0, 1):
        for lev in (0, 1):
            for oper in (None, 'A', '1'):
                def watch(n):
                    def f(e, st, a, ins):
                        st.ev('effect', n, ins.where())
                        return Ptr('*' + n, 0)
                    return f
                sb = {n: watch(n) for n in WATCH if n in prog.funcs or any(g.cname == n for g in prog.funcs.values())}
                sb['fopen'] = lambda e, st, a, i: (st.ev('effect', 'fopen', i.where()), 0)[1]
                sb['asmline'] = nest.skeleton_stub(lambda st, t, ex: ['.', 'else', 'endc'] if t else ['.'])
                e, st = nest.world(prog, sb, budget=3)

                e.setg(st, 'macrolevel', lev)
                e.setg(st, 'sourcelevel', 0)
                nest.level(prog, e, st, 0, 1, nest.SRC)
                e.setg(st, 'asmflags', F['NOERROR'])
                e.setg(st, 'lineprefix', 0)
                lab = e.putstr(st, 'lb', 'LAB') if en.flags & lines.DEFLABEL else 0
                for x in e.call(prog.funcs[en.ptr.name], [status, lab, e.putstr(st, 'mn', en.name), 0 if oper is None else e.putstr(st, 'op', oper)], st):
                    if x.end[0] == 'infeasible':
                        continue
                    t, w = None, en.ptr.name
                    for ev in x.events('effect'):
                        t, w = 'uses %s' % ev[1], ev[2]
                    for ev in x.events('line'):
                        if ev[2] & 2:
                            t, w = 'assembles the line %r' % ev[1].decode('latin1'), ev[4]
                    sl = e.getg(x, 'starlabel')
                    v = e.load(x, Ptr(sl.obj, prog.ditypes['label']['value'][0]), ir.INT(64))
                    if not t and not x.facts.equal(v, Sym('STAR', 64), 64) and not x.events('error'):
                        t = 'moves the location to %s' % dom.show(v)
                    nm = '%s, status %d, %s macro, operand %s' % (en.name, status, 'in a' if lev else 'no', oper)
                    if t:
                        c.bad('skipped directive', w, nm + ': ' + t, 'skipped ' + en.name)
                    else:
                        c.ob('skipped directive', nm)
                c.used(e)


def run(c, prog):
    c.rule('every trace of a pass over nondeterministic programs: a line is executed exactly when the selected parts of all conditionals around it '
           'say so; ELSE and ENDC belong to the innermost open IF, conditionals left open or closed twice are errors')
    tot = nest.families(c, prog, ('exec', 'misuse', 'expand'), ['blocks', 'nested blocks', 'blocks across files', 'macros'])
    if tot.get('exec', 0) < 5000:
        c.err('traces cover too little: %r' % tot)
    lines_off(c, prog)
    dispatched(c, prog)
    c.floor('skipped directive', 40)
    c.assume.append('nesting shapes are explored to the depth of the families (six lines quick, seven thorough); the handlers keep no state '
                    'besides their own activation')
