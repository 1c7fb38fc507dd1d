"""C17: listing options and listing directives decide nothing but the listing."""
import enc
import flow
import ir
import taint
from dom import Ptr
from eng import Engine, State, END
from ir import instrs

F = enc.F
BITS = F['LIST_ON'] | F['IFLIST_ON'] | F['MACROLIST_ON'] | F['INCLUDELIST_ON'] | F['NOLIST']
HANDLERS = ('LIST', 'MLIST', 'CLIST', 'ILIST', 'PAGE', 'NAM', 'SKIP')
APART = ('parse', 'filter', 'error', 'warning', 'fatal')
# objects whose content decides the code, and the symbols
STATE = ('errnumber', 'advance', 'codelen', 'linenumber', 'macrolevel', 'includelevel', 'sourcelevel', 'segment', 'thiscall', 'passnumber', 'starlabel', 'lroot')


def options(c, prog):
    """bits of the driver's argument that the listing options decide"""
    def argv(words):
        e = Engine(prog)
        st = State()

        def drv(e, st, a, ins):
            st.end = ('run', a[0], tuple(e.getg(st, g) for g in ('filename', 'scodename')))
            return END
        e.stubs.update({'crasm': drv, 'syntax': lambda e, st, a, i: (setattr(st, 'end', ('usage',)), END)[1]})
        v = e.newobj(st, 'argv', 8 * (len(words) + 1))
        for k, w in enumerate(words):
            e.store(st, Ptr(v.obj, v.off + 8 * k), ir.PTRT, e.putstr(st, 'word:' + w, w.encode()))
        e.store(st, Ptr(v.obj, v.off + 8 * len(words)), ir.PTRT, 0)
        ends = [x for x in e.call('main', [len(words), v], st) if x.end[0] != 'infeasible']
        c.used(e)
        return ends
    diff = 0
    for rest in (['in.asm'], ['-o', 'out', 'in.asm'], ['-s', 'in.asm'], ['in.asm', '-s', '-o', 'out']):
        base = argv(['crasm'] + rest)
        if len(base) != 1 or base[0].end[0] != 'run' or not isinstance(base[0].end[1], int):
            c.err('options %r: %r' % (rest, [x.end for x in base]))
            continue
        for o in ('-l', '-x', '-lx'):
            for pos in (0, len(rest)):
                w = rest[:pos] + [o] + rest[pos:]
                x = argv(['crasm'] + w)
                nm = ' '.join(w)
                if len(x) != 1 or x[0].end[0] != 'run' or not isinstance(x[0].end[1], int):
                    c.bad('option', 'crasm.c main', 'arguments "%s": %r' % (nm, [y.end for y in x]), 'option ' + nm)
                elif x[0].end[2] != base[0].end[2]:
                    c.bad('option', 'crasm.c main', 'arguments "%s" name other files than without %s' % (nm, o), 'option ' + nm)
                else:
                    diff |= x[0].end[1] ^ base[0].end[1]
                    c.ob('option', nm)
    return diff


def directives(c, prog, T):
    """cells and bits the handlers of the listing directives write themselves"""
    e = Engine(prog)
    d = prog.ditypes['label']
    tabs = [g.name for g in prog.globals.values() if g.cname == 'pseudos' and g.init is not None]
    ents = {x.name.upper(): x for n in tabs for x in enc.read_table(prog, e, n)}
    skip = {f.name for n in APART for f in prog.funcs.values() if f.cname == n}
    out = {}
    for n in HANDLERS:
        x = ents.get(n)
        h = x and getattr(x.ptr, 'name', None)
        if h not in T.prog.funcs:
            c.err('no handler of directive %s' % n)
            continue
        clo, todo = set(), [h]
        while todo:
            k = todo.pop()
            if k in clo or k in skip:
                continue
            clo.add(k)
            todo += [t for i in instrs(T.prog.funcs[k]) if i.op == 'call' for t in T.targets(T.prog.funcs[k], i)]
        for k in sorted(clo):
            f = T.prog.funcs[k]
            c.fns.add(f.cname)
            for i in instrs(f):
                ps = ()
                if i.op == 'store':
                    ps, m = T.pt.of(f, i.a[2]), T.written(f, i, i.a[1], i.a[2])
                elif i.op == 'call' and taint.ext(i) in taint.WRITES:
                    ps, m = T.pt.of(f, i.a[1][taint.WRITES[taint.ext(i)]][1]), taint.ALL
                for p in ps:
                    if p[0][0] == 'a' and p[0][1] in clo or p[0][0] == 'g' and p[0][1] in T.cloned:
                        continue
                    out.setdefault((p, m), (n, i.where()))
                if i.op == 'call' and T.touches(f, i):
                    c.bad('directive', i.where(), '%s acts on a file other than the listing' % n, 'directive %s' % n)
        c.ob('directive', '%s: %d functions' % (n, len(clo)))
    return out


def run(c, prog):
    c.level = 'proof'
    c.rule('seeds: the listing bits of the settings, page size and title, the bits of the driver argument that -l and -x change, and every cell (bit) a handler of a '
           'listing directive writes outside the expression, splitting and diagnostic routines')
    c.rule('nothing marked, by data or by control, at any operation on a file other than the listing, at a return to the recovery point, '
           'in a symbol, or in a count, level or location variable')
    c.assume += ['a store through a pointer affects the objects and fields of the inclusion-based points-to sets',
                 'diagnostics raised by the listing itself (line length must be greater, text space exhausted) are the diagnostics about the directive',
                 'the listing stream and the code file are different files']
    T = taint.Taint(prog, 'filter', APART + ('searchlabel',))
    opt = options(c, prog)
    for g, m in (('asmflags', BITS), ('llen', taint.ALL), ('plen', taint.ALL), ('title', taint.ALL)):
        T.seed((('g', prog.gl(g).name), 0), m)
    for (p, m), (n, w) in directives(c, prog, T).items():
        T.mark(('m',) + p, m, None, '%s at %s' % (n, w))
    cr = T.prog.fn('crasm')
    T.mark(('v', cr.name, cr.params[0][1]), opt, None, 'listing option')
    T.run()
    for f in T.prog.funcs.values():
        c.fns.add(f.cname)
        for i, why in T.sinks(f):
            if why:
                c.bad('action', i.where(), '%s depends on the listing: %s' % (i.text.strip()[:70], T.trail(why)), 'action %s %s' % (f.cname, taint.ext(i)))
            else:
                c.ob('action', '%s at %s' % (taint.ext(i), i.where()))
    # symbols: every object that may be one
    objs = {}
    fl = T.prog.funcs.get(prog.fn('searchlabel').name)
    for p in T.pt.pts.get(('ret', fl.name), ()):
        objs.setdefault(p[0], 'symbol')
    for p in T.pt.pts.get(('m', ('g', prog.gl('lroot').name), 0), ()):
        objs.setdefault(p[0], 'symbol')
    for g in STATE:
        l = [x for x in prog.globals.values() if x.cname == g]
        if not l:
            c.err('no variable %s' % g)
        for x in l:
            objs[('g', x.name)] = g
    for o, nm in sorted(objs.items(), key=str):
        hit = [(n, m) for n, m in T.T.items() if n[0] == 'm' and n[1] == o]
        for n, m in hit:
            c.bad('state', T.name(n), '%s depends on the listing: %s' % (nm, T.trail(n)), 'state %s' % T.name(n))
        if not hit:
            c.ob('state', '%s %s' % (nm, T.name(('m', o, 0))))
    # settings other than those of the listing
    n = ('m', ('g', prog.gl('asmflags').name), 0)
    m = T.T.get(n, 0) & ~BITS & ((1 << 32) - 1)
    if m:
        c.bad('state', 'asmflags', 'settings %#x depend on the listing: %s' % (m, T.trail(n)), 'state asmflags %#x' % m)
    else:
        c.ob('state', 'settings other than %#x' % BITS)
    c.counts['marked values and cells'] = len(T.T)
    c.counts['functions called under a marked branch'] = len(T.PC)
    c.floor('action', 20)
    c.floor('directive', len(HANDLERS))
    c.floor('option', 20)
    c.floor('state', 12)
