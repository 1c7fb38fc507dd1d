"""C26: the command line decides the files, the listing, the warnings and the cross reference of the run, whatever the order of its words."""
import itertools

import dom
import enc
import encchk
import ir
import isa
import lines
from c07 import STUBS
from c11 import ERR, M, NO, SET, sym
from dom import Sym, Ptr
from eng import Engine, State, END

F = enc.F
IN, OUT = b'prog.asm', b'code.s'


def rec(name, ret=0):
    def f(e, st, a, ins):
        st.ev(name, tuple(a), ins.where())
        return ret
    return f


def s_fopen(e, st, a, ins):
    st.ev('fopen', e.getstr(st, a[0]), e.getstr(st, a[1]), ins.where())
    return Ptr('FILE:src', 0)


def s_pass(e, st, a, ins):
    n = a[0] if isinstance(a[0], int) else 0
    p = e.getg(st, 'scodename')
    st.ev('pass', a[0], e.getg(st, 'asmflags'), e.getstr(st, p) if isinstance(p, Ptr) else None, ins.where())
    # a pass can leave any setting but those of the run
    e.setg(st, 'asmflags', dom.bitop('or', 32, dom.bitop('and', 32, e.getg(st, 'asmflags'), NO), dom.bitop('and', 32, SET[n], ~NO & M)))
    if n == 2:
        e.setg(st, 'errnumber', ERR)
        e.setg(st, 'warnnumber', Sym('WARNINGS', 32))
    return 0


def launch(prog, words):
    """every way through the program up to its passes, given these arguments"""
    stubs = dict(STUBS)
    stubs.update({'init_label_list': rec('init'), 'fopen': s_fopen, 'undeflabels': rec('undef'), 'result': rec('result'), 'xref': rec('xref'),
                  'remove': rec('remove'), 'unlink': rec('remove'), 'pass': s_pass, 'ferror': sym('ferror'), 'fclose': sym('fclose'),
                  'fflush': sym('fflush'), 'fileerror': rec('fileerror'), 'outputEOP': rec('outputEOP'),
                  'syntax': lambda e, st, a, i: (setattr(st, 'end', ('usage', i.where())), END)[1]})
    e = Engine(prog, stubs)
    st = State()
    st.facts = encchk.facts_of(isa.c_rng(ERR, 0, 1 << 30, 32))
    for g in ('scode', 'lroot', 'filename', 'scodename'):
        e.setg(st, g, 0)
    e.setg(st, 'errnumber', 0)
    v = e.newobj(st, 'argv', 8 * (len(words) + 2))
    for k, w in enumerate([b'crasm'] + words):
        e.store(st, Ptr(v.obj, v.off + 8 * k), ir.PTRT, e.putstr(st, ('word', k), w))
    e.store(st, Ptr(v.obj, v.off + 8 * (len(words) + 1)), ir.PTRT, 0)
    return e, [x for x in e.call('main', [len(words) + 1, v], st) if x.end[0] != 'infeasible']


def outcome(c, e, x, want):
    """text of the difference between a run and the one the arguments ask for"""
    ev = x.events()
    ps = x.events('pass')
    if want is None:
        if x.end[0] != 'usage':
            return 'is run' if ps else 'ends in %r' % (x.end,)
        return 'assembles before the usage is printed' if ps else None
    if x.end[0] == 'usage':
        return 'is refused'
    if x.end[0] not in ('ret', 'exit'):
        return 'ends in %r' % (x.end,)
    fo = x.events('fopen')
    if [v[1] for v in fo] != [IN] or not (fo[0][2] or b'').startswith(b'r'):
        return 'opens %r' % [v[1:3] for v in fo]
    if [v[1] for v in ps] != [1, 2]:
        return 'passes %r' % [v[1] for v in ps]
    fl = [dom.bitop('and', 32, v[2], NO) for v in ps]
    if not all(isinstance(v, int) for v in fl):
        return 'options of the passes not decided'
    for b, n in (('NOCODE', 'writes code'), ('NOWARNING', 'warns'), ('NOLIST', 'lists'), ('NOERROR', 'reports errors')):
        if not fl[0] & F[b]:
            return 'the first pass ' + n
    p = fl[1]
    if p & F['NOERROR']:
        return 'errors are not reported'
    if bool(p & F['NOCODE']) == ('o' in want):
        return 'code is %swritten' % ('not ' if 'o' in want else '')
    if 'o' in want and ps[1][3] != OUT:
        return 'the code file is %r' % (ps[1][3],)
    if bool(p & F['NOWARNING']) != ('s' in want):
        return 'warnings are %s' % ('given' if 's' in want else 'suppressed')
    if bool(p & F['NOLIST']) != ('l' in want):
        return 'the listing is %s' % ('given' if 'l' in want else 'suppressed')
    ks = [v[0] for v in ev]
    n = ks.count('xref')
    if n > 1:
        return 'the cross reference is printed %d times' % n
    if n and 'result' not in ks[:ks.index('xref')]:
        return 'the cross reference stands before the summary'
    res = ks.count('result')
    if res != 1:
        return '%d summaries' % res
    tot = e.getg(x, 'errnumber')
    z = x.facts.decide('eq', 32, tot, 0)
    w = 'x' in want or 'l' not in want and z
    if w is None:
        # some runs of this way have errors and some do not
        return 'the cross reference does not depend on the errors'
    if bool(n) != bool(w):
        return 'the cross reference is %s' % ('printed' if n else 'not printed')
    f = [v[1] for v in x.events('remove')]
    if f and 'o' not in want:
        return 'removes a file'
    return None


def spellings(opts):
    """argument lists that ask for the options: every order, every place of the source, every grouping"""
    for p in itertools.permutations(list(opts) + ['in']):
        i = p.index('in')
        for cut in itertools.product((0, 1), repeat=max(0, len(p) - 1)):
            ws, cur = [], None
            for k, o in enumerate(p):
                if o == 'in':
                    ws.append(IN)
                    cur = None
                    continue
                if cur is not None and k and cut[k - 1]:
                    ws[cur] += o.encode()
                else:
                    if k and cut[k - 1]:
                        ws = None
                        break
                    ws.append(b'-' + o.encode())
                    cur = len(ws) - 1
                if o == 'o':
                    ws.append(OUT)
                    cur = None
            if ws is not None:
                yield tuple(ws)


def show(ws):
    return ' '.join(w.decode('latin1') for w in ws) or '(none)'


def arguments(c, prog):
    c.rule('every order, place and grouping of -s, -l, -x, -o FILE and the source name, and each repeated: run from the command line with everything '
           'inside the passes unknown, the run opens the source, names the code file and places code exactly with -o, warns except with -s, '
           'lists except with -l, and prints the cross reference with -x or after a listing without errors')
    todo = {}
    for r in range(5):
        for o in itertools.combinations('slxo', r):
            for ws in spellings(o):
                todo[ws] = set(o)
    for o in 'slx':
        for a in ([b'-' + 2 * o.encode(), IN], [b'-' + o.encode(), b'-' + o.encode(), IN], [b'-' + o.encode(), IN, b'-' + o.encode()],
                  [b'-o', OUT, b'-' + o.encode(), IN, b'-' + o.encode()]):
            todo[tuple(a)] = {o} | ({'o'} if OUT in a else set())
    # the words after an option are names whatever they look like
    good = list(todo.items())
    for ws, _ in good:
        if len(ws) > 3:
            continue
        names = {i + 1 for i, w in enumerate(ws) if w.startswith(b'-') and w.endswith(b'o')}
        for k in range(len(ws) + 1):
            if k in names:
                continue
            for bad in (b'other.asm', b'-q', b'-sq', b'-qs', b'-O', b'--x'):
                todo[ws[:k] + (bad,) + ws[k:]] = None
        todo[tuple(w for w in ws if w != IN)] = None
    for b in range(1, 256):
        ch = bytes([b])
        if ch not in b'slxo':
            todo[(b'-' + ch, IN)] = None
            todo[(b'-l' + ch, IN)] = None
    for ws, want in todo.items():
        e, ends = launch(prog, list(ws))
        c.used(e)
        t = 'no way through' if not ends else None
        for x in ends:
            t = t or outcome(c, e, x, want)
        g = 'arguments' if want is not None else 'refused'
        if t:
            c.bad(g, 'crasm.c main', 'arguments "%s": %s' % (show(ws), t), g + ' ' + show(ws))
        else:
            c.ob(g, show(ws))
    c.floor('arguments', 300)
    c.floor('refused', 400)


def printing(x):
    return [v for v in x.events() if v[0] in ('puts', 'printf', 'putchar', 'fputs', 'fputc', 'fwrite', 'fprintf', 'outputraw', 'outputline')]


def report(c, prog):
    c.rule('error and warning with every setting of the run: an error is printed whenever its pass reports errors, with or without a listing, '
           'and counted; a warning is printed in a listing and counted exactly when warnings are not suppressed')
    out = {'outputraw': lambda e, st, a, i: (st.ev('outputraw', e.getg(st, 'asmflags'), i.where()), 0)[1],
           'outputline': lambda e, st, a, i: (st.ev('outputline', e.getg(st, 'asmflags'), i.where()), 0)[1],
           'snprintf': lines.s_sprintf, 'sprintf': lines.s_sprintf, 'longjmp': lines.s_longjmp}
    no = ('NOERROR', 'NOWARNING', 'NOLIST', 'NOCODE', 'LIST_ON')
    for r in range(len(no) + 1):
        for on in itertools.combinations(no, r):
            flags = sum(F[n] for n in on)
            nm = '+'.join(on) or 'no setting'
            for fn in ('error', 'warning'):
                st = State()
                e = Engine(prog, dict(STUBS, **out))
                for k in ('error', 'warning'):
                    e.stubs.pop(k, None)
                e.setg(st, 'asmflags', flags)
                e.setg(st, 'advance', 0)
                e.setg(st, 'linenumber', 7)
                e.setg(st, 'warnnumber', Sym('WARNINGS', 32))
                e.setg(st, 'starlabel', enc.mklabel(prog, e, st, '*', Sym('STAR', 64), enc.USED))
                lines.set_recovery(e, st)
                ends = [x for x in e.call(fn, [e.putstr(st, 'msg', b'message')], st) if x.end[0] != 'infeasible']
                c.used(e)
                t = None if ends else 'no way through'
                for x in ends:
                    raws, lns = x.events('outputraw'), x.events('outputline')
                    if fn == 'error':
                        if len(raws) != (0 if flags & F['NOERROR'] else 1):
                            t = '%d messages' % len(raws)
                        elif len(lns) != 1:
                            t = 'the line is shown %d times' % len(lns)
                        elif raws and not (raws[0][1] & F['LIST_ON'] and lns[0][1] & F['LIST_ON']):
                            t = 'the message is lost without a listing'
                    else:
                        if len(raws) != (0 if flags & F['NOWARNING'] else 1) or lns:
                            t = '%d messages' % len(raws)
                        elif not x.facts.equal(e.getg(x, 'warnnumber'), dom.add(32, Sym('WARNINGS', 32), len(raws)), 32):
                            t = 'the count becomes %s' % dom.show(e.getg(x, 'warnnumber'))
                    if e.getg(x, 'asmflags') != flags:
                        t = 'changes the settings'
                if t:
                    c.bad('report', 'crasm.c ' + fn, '%s, %s: %s' % (fn, nm, t), 'report %s %s' % (fn, nm))
                else:
                    c.ob('report', '%s, %s' % (fn, nm))
    c.floor('report', 64)


DOC = ('6800', '6801', '6803', '6500', '6502', '65C02', 'Z80')
OTHER = ('', '6', '680', '68000', '6802', '65', '65C', '65C0', '65C022', '6502C', 'Z8', 'Z800', '80', 'Z', '16800', '6800 X', 'NONE')


def processors(c, prog):
    c.rule('CPU accepts exactly the processors of the usage and of the manual, in either letter case, and the usage names each of them once')
    e = Engine(prog, dict(STUBS, printf=lambda e, st, a, i: (st.ev('print', e.getstr(st, a[0]), [e.getstr(st, v) for v in a[1:] if isinstance(v, Ptr)]), 0)[1],
                          puts=lambda e, st, a, i: (st.ev('print', e.getstr(st, a[0]), []), 0)[1], putchar=lambda e, st, a, i: 0))
    st = State()
    named = None
    for x in e.call('syntax', [e.putstr(st, 'msg', b'message')], st):
        if x.end[0] == 'infeasible':
            continue
        if x.end[0] != 'exit' or named is not None:
            c.bad('processor', 'crasm.c syntax', 'the usage ends in %r' % (x.end,), 'usage')
        named = [w for v in x.events('print') for t in [v[1]] + v[2] if t is not None for w in t.split()]
    c.used(e)
    for n in sorted(set(DOC) | set(OTHER) | {n.lower() for n in DOC}):
        w = n.encode()
        e = Engine(prog, {'filter': enc.filter_stub, 'init_label_list': enc.bind_stub})
        st = State()
        e.setg(st, 'asmflags', F['CODE_ON'] | F['ORG_GV'])
        e.setg(st, 'passnumber', 1)
        ends = [x for x in e.call('Xcpu', [0, 0, e.putstr(st, 'mn', b'CPU'), e.putstr(st, 'op', w)], st) if x.end[0] != 'infeasible']
        c.used(e)
        ok = [x.end[0] == 'ret' and bool(x.events('bind')) for x in ends]
        t = None
        if not ends or len(set(ok)) != 1:
            t = 'not decided: %r' % [x.end for x in ends]
        elif n.upper() in DOC:
            if not ok[0]:
                t = 'is refused'
            elif named.count(n.upper().encode()) != 1:
                t = 'is named %d times in the usage' % named.count(n.upper().encode())
        elif ends[0].end[0] != 'error':
            t = 'is accepted'
        if t:
            c.bad('processor', 'pseudos.c Xcpu', 'processor "%s": %s' % (n, t), 'processor ' + n)
        else:
            c.ob('processor', '"%s" %s' % (n, 'accepted' if ok[0] else 'refused'))
    c.floor('processor', 20)


def run(c, prog):
    c.level = 'proof'
    c.assume += ['the source can be opened (C11 has the other case)', 'an -o that is not followed by a name, and a second -o, are not judged',
                 'what stands inside a pass is not looked at here: it may leave any setting and any counts']
    arguments(c, prog)
    report(c, prog)
    processors(c, prog)
