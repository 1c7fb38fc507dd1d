"""C29: CPU and OUTPUT: the instructions, byte order and file format a program is assembled with."""
import dom
import enc
import encrun
import datachk
import ir
import isa
import lines
import nest
import stream
from c07 import STUBS
from dom import Sym, Ptr
from eng import Engine, State, END
from enc import F

M = dom.mask(32)
BUDGET = 6000000        # several times what the longest sequence takes
CPUS = ('6800', '6801', '6803', '6500', '6502', '65C02', 'Z80')
LOHI = {n: int(n[:2] == '65' or n == 'Z80') for n in CPUS}
HEX = {n: int(n == 'Z80') for n in CPUS}
FMT = F['CODE_HEX'] | F['CODE_SCODE']
FLAGS = Sym('FLAGS', 32)


def names(cn):
    return set((isa.names6800 if cn[:2] == '68' else isa.names6502)(cn)) if cn != 'Z80' else set(isa.NAMESZ80)


def directives(prog):
    e = Engine(prog)
    return {x.name: x for g in prog.globals.values() if g.cname == 'pseudos' and g.init is not None for x in enc.read_table(prog, e, g.name)}


def do(e, st, ents, line):
    """a directive with its operand; the states it can leave"""
    w, _, op = line.partition(' ')
    en = ents[w.upper()]
    o = e.putstr(st, 'oper', op) if op else 0
    xs = [x for x in e.call(en.ptr.name, [en.modifier & M, 0, e.putstr(st, 'mnemo', w), o], st) if x.end[0] != 'infeasible']
    return xs


def go(x):
    x.frames, x.trace = [], None
    en, x.end = x.end, None
    return en


# ---------------------------------------------------------------- instructions
def fresh(prog):
    e = Engine(prog, {'sprintf': lines.s_sprintf, 'snprintf': lines.s_sprintf, 'filter': enc.filter_stub}, max_steps=BUDGET)
    st = State()
    e.setg(st, 'lroot', 0)
    e.setg(st, 'segment', 1)
    e.setg(st, 'asmflags', F['CODE_ON'] | F['ORG_GV'] | F['NOERROR'])
    e.setg(st, 'labelarray_inst', 0) if any(g.cname == 'labelarray_inst' and g.defined for g in prog.globals.values()) else None
    for t in lines.tables(prog):
        t = t.name if hasattr(t, 'name') else t
        st.mem[t] = e.ginit(t).copy()
        st.mem[t].ro = False
        st.owned.add(t)
    for g in prog.globals.values():
        if g.defined and g.cname == 'localname':
            st.mem[g.name] = e.ginit(g.name).copy()
            st.mem[g.name].ro = False
    return e, st


class Stop(Exception):
    pass


def one(e, xs, what, kind='ret', warned=None):
    if len(xs) != 1 or xs[0].end[0] != kind:
        raise Stop('%s ends in %s' % (what, [x.end for x in xs][:3]))
    w = len(xs[0].events('warning'))
    go(xs[0])
    if warned is not None:
        warned.append(w)
    return xs[0]


def fn(prog, name):
    return next((f for f in prog.funcs.values() if f.cname == name), None)


def lookup(e, st, n):
    """the symbol a name stands for and whether it is defined"""
    y = st.copy()
    y.mem = dict(st.mem)
    xs = [x for x in e.call('searchlabel', [e.putstr(y, 'nm', n)], y) if x.end[0] != 'infeasible']
    if len(xs) != 1 or xs[0].end[0] != 'ret':
        raise Stop('looking up %s ends in %s' % (n, [x.end for x in xs][:2]))
    p = xs[0].end[1]
    if p == 0:
        return None, False
    fl = e.load(xs[0], Ptr(p.obj, p.off + e.p.ditypes['label']['flags'][0]), ir.INT(8))
    if not isinstance(fl, int):
        raise Stop('state of %s not constant' % n)
    return p, not fl & enc.UNDEF


def instruction(e, st, n):
    f = fn(e.p, 'findmnemo')
    if f is None:
        p, d = lookup(e, st, n)
        return p if d else None
    y = st.copy()
    y.mem = dict(st.mem)
    xs = [x for x in e.call(f, [e.putstr(y, 'nm', n)], y) if x.end[0] != 'infeasible']
    if len(xs) != 1 or xs[0].end[0] != 'ret':
        raise Stop('looking up %s ends in %s' % (n, [x.end for x in xs][:2]))
    return xs[0].end[1] or None


def known(e, st, ents, mine, other, nm):
    """directives and the words in mine are known; those in other are not"""
    for n, en in sorted(ents.items()):
        if instruction(e, st, n) != en.addr:
            raise Stop('%s: directive %s is not known' % (nm, n))
    for en in mine:
        p, d = lookup(e, st, en.name)
        if p != en.addr or not d:
            raise Stop('%s: %s is %s' % (nm, en.name, 'another symbol' if d else 'not known'))
        if en.type == enc.L_MNEMO and instruction(e, st, en.name.lower()) != en.addr:
            raise Stop('%s: %s is not taken for an instruction' % (nm, en.name))
    for n in sorted(other):
        if instruction(e, st, n) is not None:
            raise Stop('%s: %s is taken for an instruction' % (nm, n))


def start(prog, ents):
    e, st = fresh(prog)
    st = one(e, e.call('init_label_list', [Ptr(prog.gl('pseudos').name, 0)], st), 'loading the directives')
    return e, st


def second(e, st):
    e.setg(st, 'passnumber', 2)
    st = one(e, e.call('undeflabels', [e.getg(st, 'lroot')], st), 'the start of the second pass')
    return st


def availability(job):
    prog, cn, kind = job
    ents = directives(prog)
    cpu = encrun.cpu(prog, cn)
    everything = set().union(*(names(x) for x in CPUS)) - set(ents)
    mine = [en for en in cpu.entries]
    words = {en.name for en in mine}
    e, st = start(prog, ents)
    e.setg(st, 'passnumber', 1)
    obs = 0
    try:
        if kind == 'plain':
            known(e, st, ents, [], everything, 'before CPU')
            k = []
            st = one(e, do(e, st, ents, 'CPU ' + cn), 'CPU %s' % cn, warned=k)
            known(e, st, ents, mine, everything - words, 'first pass')
            st = second(e, st)
            known(e, st, ents, [], everything, 'second pass before CPU')
            st = one(e, do(e, st, ents, 'CPU ' + cn.lower()), 'CPU %s in the second pass' % cn, warned=k)
            known(e, st, ents, mine, everything - words, 'second pass')
            if sum(k):
                raise Stop('a warning is given')
            obs = 4 * (len(everything) + len(ents))
        elif kind.startswith('two '):
            b = kind[4:]
            st = one(e, do(e, st, ents, 'CPU ' + cn), 'CPU %s' % cn)
            st = one(e, do(e, st, ents, 'CPU ' + b), 'CPU %s' % b) if b != 'error' else st
            st = second(e, st)
            st = one(e, do(e, st, ents, 'CPU ' + cn), 'CPU %s in the second pass' % cn)
            st = one(e, do(e, st, ents, 'CPU ' + b), 'a second CPU (%s)' % b, 'error')
            known(e, st, ents, mine, everything - words, 'second pass')
            f = e.getg(st, 'asmflags')
            if not isinstance(f, int) or bool(f & F['LOHI']) != bool(LOHI[cn]):
                raise Stop('the byte order is that of another processor')
            obs = len(everything)
        else:
            w = kind[5:]
            for n in (1, 2):
                if n == 2:
                    st = second(e, st)
                st = one(e, e.call('deflabel', [e.putstr(st, 'nm', w), enc.NOREDEF, enc.L_ABS, 5], st), 'definition of %s' % w)
                k = []
                st = one(e, do(e, st, ents, 'CPU ' + cn), 'CPU %s' % cn, warned=k)
                if not k[0]:
                    raise Stop('pass %d: no warning' % n)
                known(e, st, ents, [x for x in mine if x.name != w], (everything - words) | {w}, 'pass %d' % n)
                p, d = lookup(e, st, w)
                v = e.load(st, Ptr(p.obj, p.off + prog.ditypes['label']['value'][0]), ir.INT(64)) if p is not None else None
                if not d or v != 5:
                    raise Stop('pass %d: the user\'s symbol %s is lost' % (n, w))
            obs = 2 * len(everything)
    except ir.AnalysisError as x:
        if 'step budget' not in str(x):
            raise
        return cn, kind, 'does not end within %d instructions (%s)' % (BUDGET, x), 0, encrun.U(e.nstates, e.steps, frozenset(e.fnseen), frozenset(e.bbseen))
    except Stop as x:
        return cn, kind, str(x), 0, encrun.U(e.nstates, e.steps, frozenset(e.fnseen), frozenset(e.bbseen))
    return cn, kind, None, obs, encrun.U(e.nstates, e.steps, frozenset(e.fnseen), frozenset(e.bbseen))


def instructions(c, prog):
    c.rule('with the real symbol tree, in both passes: no instruction is known before CPU; CPU makes every instruction and register name of the processor '
           'known and no other processor\'s; a second CPU is an error of the second pass and changes nothing; a user\'s symbol of the same name stays and '
           'all other instructions are known')
    jobs = []
    for cn in CPUS:
        es = encrun.cpu(prog, cn).entries
        have = {en.name for en in es if en.type == enc.L_MNEMO}
        for n in sorted(have | names(cn)):
            nm = 'CPU %s, %s' % (cn, n)
            if n not in have:
                c.bad('instructions', 'pseudos.c Xcpu', '%s: the instruction is not loaded' % nm, nm)
            elif n not in names(cn):
                c.bad('instructions', 'pseudos.c Xcpu', '%s: the processor has no such instruction' % nm, nm)
            else:
                c.ob('instructions', nm)
        jobs.append((prog, cn, 'plain'))
        for b in CPUS:
            if b[:2] != cn[:2] or b == cn:
                if b in ('6800', '65C02', 'Z80', cn):
                    jobs.append((prog, cn, 'two ' + b))
        for k in sorted({0, 1, len(es) // 2, len(es) - 2, len(es) - 1}):
            jobs.append((prog, cn, 'user ' + es[k].name))
    for cn, kind, t, n, u in datachk.pmap(availability, jobs, 1):
        c.used(u)
        nm = 'CPU %s, %s' % (cn, kind)
        if t:
            c.bad('instructions', 'label.c init_label_list', nm + ': ' + t, nm)
        else:
            c.ob('instructions', nm, n)
    c.floor('instructions', 3000)


# ---------------------------------------------------------------- settings and format
def bit(v, b):
    return dom.trunc(dom.lshr(32, v, b.bit_length() - 1), 1)


def settings(c, prog):
    c.rule('CPU, from any settings: the byte order is that of the processor, addresses have 16 bits, code is absolute, only the second pass notes that '
           'there was a CPU; no other setting but the format changes. Without name, with an unknown one or a second time it is an error and changes nothing')
    ents = directives(prog)
    for p in (1, 2):
        for cn in CPUS + ('', '8080', '68', 'Z8', '65C02X', '6502,Z80'):
            for gv in (0, F['CPU_GV']):
                e = Engine(prog, {'filter': enc.filter_stub, 'init_label_list': enc.bind_stub})
                st = State()
                f0 = dom.bitop('or', 32, dom.bitop('and', 32, FLAGS, ~F['CPU_GV'] & M), gv)
                e.setg(st, 'asmflags', f0)
                e.setg(st, 'passnumber', p)
                xs = do(e, st, ents, 'CPU ' + cn)
                c.used(e)
                nm = 'pass %d, CPU %s%s' % (p, cn, ' again' if gv else '')
                good = cn in CPUS and not gv
                t = None if xs else 'no way through'
                for x in xs:
                    f1 = e.getg(x, 'asmflags')
                    if x.end[0] != ('ret' if good else 'error'):
                        t = 'ends in %s' % x.end[0]
                        continue
                    if not good and x.events('bind'):
                        t = 'instructions are loaded'
                    for k in range(32):
                        b = 1 << k
                        want = bit(f0, b)
                        if good:
                            if b & FMT:
                                continue
                            want = {F['LOHI']: LOHI[cn], F['ADDR16']: 1, F['RELATIF']: 0}.get(b, want)
                            if b == F['CPU_GV'] and p == 2:
                                want = 1
                            if b == F['ADDR24']:
                                continue
                        if not x.facts.equal(bit(f1, b), want, 1):
                            t = 'setting %x becomes %s' % (b, dom.show(bit(f1, b)))
                if t:
                    c.bad('settings', 'pseudos.c Xcpu', nm + ': ' + t, nm)
                else:
                    c.ob('settings', nm)
    c.floor('settings', 40)


def fmt(prog, flags, end):
    """'hex' or 's': how one buffered byte, or the end of the file, is written"""
    k = (flags & FMT, end)
    if k not in _fmt:
        e = Engine(prog, STUBS)
        st = State()
        e.setg(st, 'asmflags', flags)
        e.setg(st, 'rawnumber', 0 if end else 1)
        e.setg(st, 'rawstart', 0x1000)
        e.setg(st, 'rawextended', 0)
        e.setg(st, 'pc', 0x1001)
        e.setg(st, 'scode', Ptr('FILE:code', 0))
        e.store(st, Ptr(prog.gl('raw', 'scode.c').name, 0), ir.INT(8), 0x55)
        out = set()
        for x in e.call('closescodefile' if end else 'flushscoderaw', [], st):
            if x.end[0] == 'infeasible':
                continue
            cs = stream.chars(e, x)
            ch = cs[0][0] if cs else None
            out.add({':': 'hex', ord(':'): 'hex', 'S': 's', ord('S'): 's'}.get(ch, repr(ch)))
        _fmt[k] = out.pop() if len(out) == 1 else repr(out)
    return _fmt[k]


_fmt = {}


def between(c, prog):
    """settings of the format as the second pass begins, given those at the end of the first"""
    c.rule('the format chosen in the first pass is that of the second from its start on')
    for b in (0, F['CODE_HEX'], F['CODE_SCODE'], FMT):
        for run in (1, 3, 7):
            def s_pass(e, st, a, ins, b=b):
                st.ev('pass', a[0], e.getg(st, 'asmflags'))
                if a[0] == 1:
                    e.setg(st, 'asmflags', dom.bitop('or', 32, dom.bitop('and', 32, e.getg(st, 'asmflags'), ~FMT & M), b))
                return 0
            rec = lambda e, st, a, i: 0
            sb = dict(STUBS)
            sb.update({'init_label_list': rec, 'fopen': lambda e, st, a, i: Ptr('FILE:src', 0), 'undeflabels': rec, 'result': rec, 'xref': rec, 'remove': rec,
                       'unlink': rec, 'pass': s_pass, 'outputEOP': rec, 'closescodefile': rec})
            e = Engine(prog, sb)
            st = State()
            for g in ('lroot', 'scode', 'errnumber', 'warnnumber'):
                e.setg(st, g, 0)
            e.setg(st, 'filename', e.putstr(st, 'fn', 'x'))
            e.setg(st, 'scodename', e.putstr(st, 'sn', 'y'))
            t = None
            n = 0
            for x in e.call('crasm', [run], st):
                if x.end[0] == 'infeasible':
                    continue
                ps = {v[1]: v[2] for v in x.events('pass')}
                f = ps.get(2)
                n += 1
                if not isinstance(f, int) or f & FMT != b:
                    t = 'format settings %x become %s' % (b, dom.show(f) if f is not None else None)
            c.used(e)
            nm = 'between the passes, format %x, run %d' % (b, run)
            if t or not n:
                c.bad('format', 'crasm.c crasm', nm + ': ' + (t or 'no way through'), nm)
            else:
                c.ob('format', nm)
        for p in (1, 2):
            e, st = nest.world(prog, {'asmline': lambda e, st, a, i: (st.ev('line', e.getg(st, 'asmflags')), 0)[1],
                                      'findlabel': lambda e, st, a, i: Ptr('lab:*', 0), 'outputline': lambda e, st, a, i: 0}, budget=1, kinds=['last'])
            e.setg(st, 'asmflags', F['NOERROR'] | b)
            e.setg(st, 'sourcelevel', M)
            t, n = None, 0
            for x in e.call('pass', [p], st):
                if x.end[0] == 'infeasible':
                    continue
                for v in x.events('line')[:1]:
                    n += 1
                    if not isinstance(v[1], int) or v[1] & FMT != b:
                        t = 'format settings %x become %s' % (b, dom.show(v[1]))
            c.used(e)
            nm = 'start of pass %d, format %x' % (p, b)
            if t or not n:
                c.bad('format', 'crasm.c pass', nm + ': ' + (t or 'no line is read'), nm)
            else:
                c.ob('format', nm)


def formats(c, prog):
    c.rule('for every processor and every order of CPU and OUTPUT in the program, every record of the second pass and the end of the file are in the format '
           'of OUTPUT, or, without OUTPUT, in that of the processor')
    ents = directives(prog)
    for cn in CPUS:
        for o in (None, 'HEX', 'SCODE', 'hex', ' Scode '):
            want = (o.strip().lower()[0] if o else 'h' if HEX[cn] else 's') == 'h' and 'hex' or 's'
            for prg in ([['CPU ' + cn]] if o is None else [['CPU ' + cn, 'OUTPUT ' + o], ['OUTPUT ' + o, 'CPU ' + cn]]):
                e = Engine(prog, {'filter': enc.filter_stub, 'init_label_list': enc.bind_stub})
                st = State()
                e.setg(st, 'asmflags', F['CODE_ON'] | F['ORG_GV'] | F['NOERROR'])
                nm = '; '.join(prg)
                t = None
                try:
                    for p in (1, 2):
                        e.setg(st, 'passnumber', p)
                        if p == 2:
                            e.setg(st, 'asmflags', e.getg(st, 'asmflags') & ~F['NOERROR'])
                        for k in range(len(prg) + 1):
                            f = e.getg(st, 'asmflags')
                            if not isinstance(f, int):
                                raise Stop('settings not constant')
                            if p == 2:
                                for end in (0, 1):
                                    g = fmt(prog, f, end)
                                    if g != want:
                                        raise Stop('%s in the format %s after %d of its lines in the second pass' % (
                                            'the end of the file is written' if end else 'a record is written', g, k))
                            if k < len(prg):
                                st = one(e, do(e, st, ents, prg[k]), prg[k])
                except Stop as x:
                    t = str(x)
                c.used(e)
                if t:
                    c.bad('format', 'pseudos.c Xoutput', nm + ': ' + t, nm)
                else:
                    c.ob('format', nm)
    c.rule('OUTPUT, from any settings: nothing but the format changes; without a name of a format it is an error')
    for op in ('HEX', 'SCODE', 'hex', 'Scode', ' HEX ', '', 'BIN', 'HEXX', 'S', 'HEX,SCODE'):
        e = Engine(prog, {'filter': enc.filter_stub})
        st = State()
        e.setg(st, 'asmflags', FLAGS)
        xs = do(e, st, ents, 'OUTPUT ' + op)
        c.used(e)
        t = None if xs else 'no way through'
        good = op.strip().upper() in ('HEX', 'SCODE')
        for x in xs:
            f1 = e.getg(x, 'asmflags')
            if x.end[0] != ('ret' if good else 'error'):
                t = 'ends in %s' % x.end[0]
            for k in range(32):
                if not (1 << k) & FMT and not x.facts.equal(bit(f1, 1 << k), bit(FLAGS, 1 << k), 1):
                    t = 'setting %x becomes %s' % (1 << k, dom.show(bit(f1, 1 << k)))
        nm = 'OUTPUT %s' % op
        if t:
            c.bad('format', 'pseudos.c Xoutput', nm + ': ' + t, nm)
        else:
            c.ob('format', nm)
    c.floor('format', 60)


def run(c, prog):
    c.level = 'proof'
    c.assume += ['one CPU and at most one OUTPUT directive in the program (a second CPU: error of the second pass)',
                 'a program with an error leaves no code file (C11), so its format does not matter']
    for cn in CPUS:
        encrun.cpu(prog, cn)
    instructions(c, prog)
    settings(c, prog)
    formats(c, prog)
    between(c, prog)
