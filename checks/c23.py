"""C23: the summary and the listing report what was assembled."""
import itertools

import c11
import datachk
import dom
import enc
import encchk
import encrun
import flow
import ir
import isa
import lines
import listing
import nest
from dom import Ptr, Sym
from eng import END, JUMPED, Engine, State

F = enc.F
ON = F['LIST_ON'] | F['CODE_ON'] | F['ORG_GV']
M = dom.mask(32)
ERRN, WARNN = Sym('ERRORS', 32), Sym('WARNINGS', 32)
PC, LEN = Sym('LASTPC', 64), Sym('LENGTH', 64)


def page(prog, e, st, llen=76, plen=66, ppos=10, flags=ON):
    for n, v in (('llen', llen), ('plen', plen), ('ppos', ppos), ('lpos', 0), ('asmflags', flags), ('linenumber', 7), ('macrolevel', 0),
                 ('lineprefix', 0), ('advance', 1), ('pagenumber', 1)):
        e.setg(st, n, v)
    g = prog.gl('linebuffer', 'output.c')
    e.store(st, Ptr(g.name, 0), ir.INT(8), 0)
    for k, b in enumerate(b'the title\0'):
        e.store(st, Ptr(prog.gl('title', 'output.c').name, k), ir.INT(8), b)


# ---------------------------------------------------------------- summary
def summary(c, prog):
    c.rule('the summary, for every number of errors and warnings, last location and length: it shows exactly these, and reports success exactly without errors')
    for plen, ppos, llen in ((66, 2, 76), (66, 60, 76), (0, 40, 120), (66, 0, 40), (10, 5, 76)):
        for err in (0, 1):
            nums = listing.Nums()
            e = Engine(prog, dict(listing.stubs(nums), filter=enc.filter_stub))
            st = State()
            page(prog, e, st, llen, plen, ppos)
            cs = [('eq', 32, ERRN, 0, not err)] + isa.c_rng(ERRN, 0, 1 << 30, 32) + isa.c_rng(WARNN, 0, 1 << 30, 32) \
                + isa.c_rng(PC, 1, (1 << 32) - 1) + isa.c_rng(LEN, 0, (1 << 32) - 1)
            st.facts = encchk.facts_of(cs)
            e.setg(st, 'errnumber', ERRN)
            e.setg(st, 'warnnumber', WARNN)
            e.setg(st, 'pc', PC)
            e.setg(st, 'codelen', LEN)
            for x in e.call('result', [], st):
                if x.end[0] == 'infeasible':
                    continue
                nm = '%s, page %d,%d at %d' % ('errors' if err else 'no errors', plen, llen, ppos)
                t = None
                if x.end[0] != 'ret':
                    t = 'ends in %r' % (x.end,)
                else:
                    t = judge_summary(x, nums, err)
                if t:
                    c.bad('summary', 'xref.c result', nm + ': ' + t, nm)
                else:
                    c.ob('summary', nm)
            c.used(e)
    c.floor('summary', 10)


def judge_summary(x, nums, err):
    ls, tail = listing.lines(x)
    want = {'ERRORS': [ERRN], 'WARNINGS': [WARNN]}
    if not err:
        last = dom.sub(64, PC, 1)
        want.update({'LAST ADDRESS': [last], 'CODE LENGTH': [LEN]})
    seen = {}
    text = ''
    for cells, w in ls:
        s = ''.join(chr(v) if isinstance(v, int) and v < listing.PH else ' ' for v in cells).upper()
        vals = [nums.tab[v - listing.PH] for v in cells if isinstance(v, int) and v >= listing.PH]
        text += s + '\n'
        for k in want:
            if k in s and vals:
                seen.setdefault(k, []).append(vals)
    for k, vs in want.items():
        if len(seen.get(k, [])) != 1:
            return '%s is shown %d times' % (k.lower(), len(seen.get(k, [])))
        for conv, v in seen[k][0]:
            w = v.w if not isinstance(v, int) else 64
            full = vs[0]
            if w < 64 and full.w == 64:
                v, w = (dom.zext(v, w, 64), 64) if not isinstance(v, int) else (v, 64)
            if not x.facts.equal(v, full, full.w):
                return '%s is shown as %s' % (k.lower(), dom.show(v))
    if ('SUCCESSFUL' in text) != (not err):
        return 'success is %sreported' % ('not ' if not err else '')
    if ('NO CODE' in text) != bool(err):
        return 'the absence of code is %sreported' % ('not ' if err else '')
    return None


def driver(c, prog):
    c.rule('end of a run, every combination of options and stream failures: at the summary the counts, location and length are those the second pass '
           'left, with the failures of the code file added to the errors')
    def atend(e, st, a, ins):
        if a[0] == 2:
            for n, v in (('warnnumber', WARNN), ('pc', PC), ('codelen', LEN)):
                e.setg(st, n, v)
        return base(e, st, a, ins)

    def s_result(e, st, a, ins):
        st.ev('summary', {n: e.getg(st, n) for n in ('errnumber', 'warnnumber', 'pc', 'codelen', 'asmflags')}, ins.where())
        return 0
    for flags in range(16):
        for opened in ((0, 1) if flags & c11.SCODE else (0,)):
            base = c11.s_pass(opened)
            e, ends = c11.run_driver(prog, flags, opened, {'pass': atend, 'result': s_result})
            c.used(e)
            for x in ends:
                if x.end[0] in ('infeasible', 'fatal'):
                    continue
                nm = 'options %d%s' % (flags, ', code file open' if opened else '')
                t = None
                sm = x.events('summary')
                if len(sm) != 1:
                    t = '%d summaries' % len(sm)
                else:
                    d = sm[0][1]
                    failed = any(v[2] for v in x.events('ferror', 'fclose', 'fflush') if v[1] and v[1][0] == Ptr('FILE:code', 0))
                    now = dom.add(32, c11.ERR, 1 if failed else 0)
                    if not x.facts.equal(d['errnumber'], now, 32) and not failed:
                        t = 'error count %s' % dom.show(d['errnumber'])
                    if failed and x.facts.decide('eq', 32, d['errnumber'], 0) is not False:
                        t = 'a failure of the code file is not counted'
                    if not x.facts.equal(d['warnnumber'], Sym('WARNINGS', 32), 32):
                        t = 'warning count %s' % dom.show(d['warnnumber'])
                    if not x.facts.equal(d['codelen'], LEN, 64):
                        t = 'code length %s' % dom.show(d['codelen'])
                    if not x.facts.equal(d['pc'], PC, 64):
                        t = 'location %s' % dom.show(d['pc'])
                    if not x.facts.equal(dom.bitop('and', 32, d['asmflags'], F['LIST_ON']), F['LIST_ON'], 32):
                        t = 'the summary depends on the listing being on'
                if t:
                    c.bad('end of run', 'crasm.c crasm', nm + ': ' + t, nm)
                else:
                    c.ob('end of run', nm)
    c.floor('end of run', 30)


# ---------------------------------------------------------------- counters
def counters(c, prog):
    c.rule('the code length grows by one for each byte placed while code is on and by nothing else; a warning adds one to the warning count, and '
           'nothing else does; the bytes of the listing are those given to the code')
    for code in (0, 1):
        for fo in (0, 1):
            e = Engine(prog, {'outputbyte': lambda e, st, a, i: (st.ev('shown', a[0], e.getg(st, 'pc'), i.where()), 0)[1],
                              'fopen': lambda e, st, a, i: Ptr('FILE:code', 0), 'flushscoderaw': lambda e, st, a, i: (e.setg(st, 'rawnumber', 0), 0)[1]})
            st = State()
            fl = dom.bitop('and', 32, Sym('FLAGS', 32), M & ~(F['CODE_ON'] | F['ORG_GV']))
            e.setg(st, 'asmflags', dom.bitop('or', 32, fl, F['ORG_GV'] | (F['CODE_ON'] if code else 0)))
            e.setg(st, 'codelen', LEN)
            e.setg(st, 'pc', PC)
            e.setg(st, 'advance', Sym('ADV', 32))
            e.setg(st, 'rawnumber', 3)
            e.setg(st, 'scode', Ptr('FILE:code', 0) if fo else 0)
            for x in e.call('insert8', [Sym('X', 8)], st):
                if x.end[0] == 'infeasible':
                    continue
                nm = 'code %s%s' % ('on' if code else 'off', ', file open' if fo else '')
                t = None
                sh = x.events('shown')
                if x.end[0] != 'ret':
                    t = 'ends in %r' % (x.end,)
                elif not x.facts.equal(e.getg(x, 'codelen'), dom.add(64, LEN, code), 64):
                    t = 'length becomes %s' % dom.show(e.getg(x, 'codelen'))
                elif len(sh) != code:
                    t = 'shown %d times' % len(sh)
                elif sh and not (x.facts.equal(dom.trunc(sh[0][1], 8) if not isinstance(sh[0][1], int) else sh[0][1], Sym('X', 8), 8)
                                 and x.facts.equal(sh[0][2], PC, 64)):
                    t = 'shown as %s at %s' % (dom.show(sh[0][1]), dom.show(sh[0][2]))
                if t:
                    c.bad('byte placed', 'scode.c insert8', nm + ': ' + t, nm)
                else:
                    c.ob('byte placed', nm)
            c.used(e)
    for off, lst in itertools.product((0, 1), (1, 0)):
        nums = listing.Nums()
        e = Engine(prog, dict(listing.stubs(nums), filter=enc.filter_stub))
        st = State()
        page(prog, e, st, flags=(ON if lst else ON & ~F['LIST_ON']) | (F['NOWARNING'] if off else 0))
        e.setg(st, 'warnnumber', WARNN)
        e.setg(st, 'linenumber', Sym('LINE', 32))
        del e.stubs['warning']
        for x in e.call('warning', [e.putstr(st, 'm', 'some text')], st):
            if x.end[0] == 'infeasible':
                continue
            ls, _ = listing.lines(x)
            t = None
            got = [l for l, w in ls if 'ome text' in listing.show(l)]
            if x.end[0] != 'ret':
                t = 'ends in %r' % (x.end,)
            elif not x.facts.equal(e.getg(x, 'warnnumber'), dom.add(32, WARNN, 0 if off else 1), 32):
                t = 'count becomes %s' % dom.show(e.getg(x, 'warnnumber'))
            elif len(got) != (0 if off or not lst else 1):
                t = '%d messages' % len(got)
            elif got and ('d', Sym('LINE', 32)) not in [nums.tab[v - listing.PH] for v in got[0] if isinstance(v, int) and v >= listing.PH]:
                t = 'message without the line number: %s' % listing.show(got[0], nums)
            nm = 'warnings %s, listing %s' % ('off' if off else 'on', 'on' if lst else 'off')
            if t:
                c.bad('warning', 'crasm.c warning', nm + ': ' + t, nm)
            else:
                c.ob('warning', nm)
        c.used(e)
    writers(c, prog, 'codelen', ('insert8',), ('pass', 'crasm'))
    writers(c, prog, 'warnnumber', ('warning',), ('pass', 'crasm'))
    writers(c, prog, 'pc', ('insert8', 'setpc', 'flushscoderaw'), ('pass', 'crasm'))
    onlycaller(c, prog, 'outputbyte', ('insert8',))
    c.floor('byte placed', 4)
    c.floor('warning', 4)
    c.floor('counter', 6)


def writers(c, prog, g, ways, outside):
    """stores to a counter are made by its ways, or outside the assembly of lines"""
    name = prog.gl(g).name
    ways = {prog.fn(w).name for w in ways}
    cg = flow.callgraph(prog)
    # functions lines reach other than through the ways
    seen, todo = set(), [prog.fn('asmline').name]
    while todo:
        f = todo.pop()
        if f in seen or f in ways:
            continue
        seen.add(f)
        todo += [t for _, t in cg[f]]
    for f in prog.funcs.values():
        for i in ir.instrs(f):
            hit = i.op == 'store' and flow.base_of(i.a[2]) == name
            esc = i.op == 'call' and any(flow.base_of(v) == name for t, v in i.a[1] if t.k == 'p') \
                or i.op == 'store' and i.a[0].k == 'p' and flow.base_of(i.a[1]) == name
            if not hit and not esc:
                continue
            if f.name in seen:
                c.bad('counter', i.where(), '%s: %s is changed while a line is assembled, apart from %s' % (f.cname, g, ', '.join(sorted(ways))),
                      '%s in %s' % (g, f.cname))
            else:
                c.ob('counter', '%s in %s' % (g, f.cname))


def onlycaller(c, prog, fn, by):
    cs = lines.callers(prog)
    n = prog.fn(fn).name
    entry = {prog.fn(b).name for b in by}
    for f in cs.get(n, ()):
        if lines.only_from(f, entry, cs):
            c.ob('counter', '%s called by %s' % (fn, f))
        else:
            c.bad('counter', f, '%s is called by %s' % (fn, f), '%s by %s' % (fn, f))


# ---------------------------------------------------------------- bytes beside lines
def parse_line(cells):
    """(address nibbles, [byte nibble pairs], rest) of a listing line that begins with an address, or None"""
    i = 0
    while i < len(cells) and cells[i] == 32:
        i += 1
    a = []
    while i < len(cells) and listing.nib(cells[i]) is not None:
        a.append(listing.nib(cells[i]))
        i += 1
    if not a or i >= len(cells) or cells[i] != 32:
        return None
    i += 1
    b = []
    while i + 1 < len(cells) and listing.nib(cells[i]) is not None and listing.nib(cells[i + 1]) is not None:
        b.append((listing.nib(cells[i]), listing.nib(cells[i + 1])))
        i += 2
    return a, b, cells[i:]


class Shown:
    """the operations that reach the byte columns of a line, run from an empty line"""

    def __init__(s, prog, flags):
        s.nums = listing.Nums()
        s.e = Engine(prog, dict(listing.stubs(s.nums), filter=enc.filter_stub), max_states=200000)
        st = State()
        page(prog, s.e, st, flags=flags, plen=0)
        st.facts = encchk.facts_of([])
        st.data = {'bytes': (), 'vals': ()}
        s.states = [st]
        s.n = 0
        s.bad = []

    def call(s, fn, args, st, then=None):
        out = []
        for x in s.e.call(fn, args, st):
            if x.end[0] == 'infeasible':
                continue
            if x.end[0] != 'ret':
                s.bad.append('%s ends in %r' % (fn, x.end))
                continue
            x.end = None
            x.frames = []
            out.append(x)
        return out

    def byte(s, where, advance):
        """one more byte, at the next location ('next') or at any"""
        s.n += 1
        out = []
        for st in s.states:
            p = st.data.get('pc')
            pc = p if where == 'next' and p is not None else Sym('AT%d' % s.n, 64)
            if where != 'next' or p is None:
                st.facts = encchk.facts_of(isa.c_rng(pc, 0, (1 << 32) - 1), st.facts)
            b = Sym('B%d' % s.n, 8)
            st.data['bytes'] += ((b, pc, advance),)
            s.e.setg(st, 'pc', pc)
            s.e.setg(st, 'advance', advance)
            for x in s.call('outputbyte', [dom.zext(b, 8, 32)], st):
                x.data['pc'] = dom.add(64, pc, 1)
                out.append(x)
        s.states = out

    def show(s):
        """a value shown by EQU, at the start of a line"""
        s.n += 1
        out = []
        for st in s.states:
            if s.e.getg(st, 'lpos') != 0:
                out.append(st)
                continue
            v = Sym('VAL%d' % s.n, 64)
            st.data['vals'] += (v,)
            for y in s.call('position', [2], st):
                out += s.call('outputaddr', [v], y)
        s.states = out

    def eol(s):
        s.states = [x for st in s.states for x in s.call('outputEOL', [], st)]


def judge_bytes(x, tail, digits):
    """text of the defect in the lines shown"""
    f = x.facts
    todo = list(x.data['bytes'])
    ls, _ = listing.lines(x)
    for cells, w in ls + [(tail, 'last line')]:
        if not any(not isinstance(v, int) for v in cells):
            continue
        p = parse_line(cells)
        if p is None:
            return 'line %r does not begin with an address' % listing.show(cells)
        a, bs, rest = p
        if len(a) != digits:
            return 'address of %d digits in %r' % (len(a), listing.show(cells))
        if any(not isinstance(v, int) for v in rest) or rest and bytes(rest).strip() not in (b'', b'...'):
            return 'unknown text %r after the bytes' % listing.show(rest)
        first = None
        for k, (h, l) in enumerate(bs):
            v = dom.concat([(l, 4), (h, 4)])
            while todo and not f.equal(v, todo[0][0], 8):
                b, pc, adv = todo.pop(0)
                if adv < 20:
                    return 'byte %s is not shown' % dom.show(b)
            if not todo:
                return 'shows %s, which is no byte placed' % dom.show(v)
            b, pc, adv = todo.pop(0)
            if k == 0:
                first = pc
                if not any(f.equal(q, pc, 64) for q in (pc,) + x.data['vals']
                           if all(n == dom.trunc(dom.lshr(64, q, 4 * i), 4) for i, n in enumerate(reversed(a)))):
                    return 'byte %s placed at %s is shown at %s' % (dom.show(b), dom.show(pc), listing.show(cells[:len(cells) - len(rest)]))
            elif not f.equal(pc, dom.add(64, prev, 1), 64):
                return 'byte %s placed at %s is shown at %s + %d' % (dom.show(b), dom.show(pc), dom.show(first), k)
            prev = pc
    for b, pc, adv in todo:
        if adv < 20:
            return 'byte %s is not shown' % dom.show(b)
    return None


def scripts(tier):
    ops = ('next', 'any', 'long', 'show', 'eol')
    deep = 2 if tier == 'quick' else 3
    for k in (0, 1, 2, 4, 5, 6, 7, 9):
        for tailn in range(deep + 1 + (k in (0, 1, 5, 7))):
            for t in itertools.product(ops, repeat=tailn):
                yield 0, ('any',) + ('next',) * k + t
    # the later bytes of a long line
    for adv in range(9, 22):
        for k in (3, 6, 8, 9):
            yield adv, ('any',) + ('next',) * k + ('any',)


def columns(c, prog):
    c.rule('listing lines, every sequence of bytes at following or any other locations, values shown and line ends: each line begins with the location of '
           'its first byte, and the bytes on it are those placed at consecutive locations from there; the first twenty bytes of a line are all shown')
    jobs = [(d, fl, a, s) for d, fl in ((4, F['ADDR16']), (6, F['ADDR24']), (8, 0)) for a, s in scripts(c.tier)]

    def one(i):
        d, fl, adv, sc = jobs[i]
        try:
            r = Shown(prog, ON | fl)
            for op in sc:
                if op in ('next', 'any'):
                    r.byte(op, adv)
                    adv += 1
                elif op == 'long':
                    r.byte('next', 21)
                elif op == 'show':
                    r.show()
                else:
                    r.eol()
            out = [('error', b) for b in r.bad]
            for x in r.states:
                g = prog.gl('linebuffer', 'output.c')
                t = judge_bytes(x, listing.cstring(r.e, x, Ptr(g.name, 0)), d)
                out.append(('bad', t) if t else ('ok', None))
            if not r.states:
                out.append(('error', 'no way through'))
        except ir.AnalysisError as x:
            return [('error', str(x))], None
        return out, encrun.U(r.e.nstates, r.e.steps, frozenset(r.e.fnseen), frozenset(r.e.bbseen))
    for (d, fl, adv, sc), (out, u) in zip(jobs, datachk.pmap(one, range(len(jobs)))):
        if u:
            c.used(u)
        nm = '%d digits: %s%s' % (d, 'after %d bytes, ' % adv if adv else '', ' '.join(sc))
        for k, t in out:
            if k == 'ok':
                c.ob('columns', nm)
            elif k == 'bad':
                c.bad('columns', 'output.c outputbyte', nm + ': ' + t, nm)
            else:
                c.err('%s: %s' % (nm, t))
    c.floor('columns', 300)


def visible(c, prog):
    c.rule('a line of the listing carries its source text and its line number after the bytes, and leaves an empty line')
    for text in ('lab nop', '', ' lda #1 ; remark', "\tdb 'a','b'"):
        for npos, pre in itertools.product((0, 9, 21), (0, ord('M'), ord('C'))):
            nums = listing.Nums()
            e = Engine(prog, dict(listing.stubs(nums), filter=enc.filter_stub))
            st = State()
            page(prog, e, st)
            e.setg(st, 'linenumber', Sym('LINE', 32))
            st.facts = encchk.facts_of(isa.c_rng(Sym('LINE', 32), 1, 99999, 32))
            e.setg(st, 'lineprefix', pre)
            g = prog.gl('linebuffer', 'output.c')
            for k in range(npos):
                e.store(st, Ptr(g.name, k), ir.INT(8), ord('a') + k)
            e.store(st, Ptr(g.name, npos), ir.INT(8), 0)
            e.setg(st, 'lpos', npos)
            cur = prog.gl('curline')
            for k, b in enumerate(text.encode() + b'\0'):
                e.store(st, Ptr(cur.name, k), ir.INT(8), b)
            for x in e.call('outputline', [], st):
                if x.end[0] == 'infeasible':
                    continue
                ls, tail = listing.lines(x)
                t = None
                nm = 'line %r, %d columns filled%s' % (text, npos, ', prefix ' + chr(pre) if pre else '')
                if x.end[0] != 'ret' or len(ls) != 1:
                    t = 'ends in %r with %d lines' % (x.end, len(ls))
                elif e.getg(x, 'lpos') != 0 or e.load(x, Ptr(g.name, 0), ir.INT(8)) != 0:
                    t = 'the line is not empty afterwards'
                else:
                    cells = ls[0][0]
                    s = ''.join(chr(v) if isinstance(v, int) and v < 128 else '#' for v in cells)
                    body = s[npos:].expandtabs(1).split()
                    src = text.split()
                    num = [nums.tab[v - listing.PH] for v in cells if isinstance(v, int) and v >= listing.PH]
                    if s[:npos] != ''.join(chr(ord('a') + k) for k in range(npos)):
                        t = 'the bytes became %r' % s[:npos]
                    elif not pre and num != [('d', Sym('LINE', 32))]:
                        t = 'line number missing in %r' % s
                    elif pre and chr(pre) not in s:
                        t = 'prefix missing in %r' % s
                    elif (body[1:] if len(body) > len(src) else body) != src:
                        t = 'text shown as %r' % s
                if t:
                    c.bad('source line', 'output.c outputline', nm + ': ' + t, nm)
                else:
                    c.ob('source line', nm)
            c.used(e)
    c.floor('source line', 30)


def onceshown(c, prog):
    c.rule('every line kind: a line that is to be listed is listed once, after its bytes were placed, also when it is in error; a line that is not to be '
           'listed is only listed when it is in error')
    for text, exp in lines.TEXTS:
        for status in (0, 1, 2, 3):
            L = lines.Line(prog, text, status)
            c.used(L.e)
            for x in L.ends:
                ev = [v[0] for v in x.events('outputline', 'handler')]
                hs = x.events('handler')
                n = ev.count('outputline')
                err = x.end[0] == 'recover'
                t = None
                if any(v[1] != 'code' for v in hs) and not err:
                    if n > 0:
                        t = 'the line of a block is listed by the line assembler'
                else:
                    want = 1 if err or status & 1 else 0
                    if any(v[1] in ('cond', 'macrodef') for v in hs):
                        want = n
                    if n != want:
                        t = 'listed %d times' % n
                    elif n and 'handler' in ev and ev[-1] != 'outputline':
                        t = 'listed before its bytes are placed'
                nm = '%r status %d: %s' % (text, status, x.end[0])
                if t and not (exp not in ('error', 'empty') and exp[0] != 'label' and exp[1] == 'CALL' and not status & 2):
                    c.bad('listed once', 'crasm.c asmline', nm + ': ' + t, nm)
                else:
                    c.ob('listed once', nm)
    c.floor('listed once', 150)


# ---------------------------------------------------------------- macro calls
def expansions(c, prog):
    c.rule('a macro call, every sequence of body lines that place bytes, switch the listing of macros, are in error or end the call: no byte of the '
           'expansion is left to be listed beside the line after the call, and bytes listed beside a body line are its own')
    kinds = ('put', 'on', 'off', 'err', 'exitm')
    for mlist in (0, 1):
        for status in (2, 3):
            for sc in itertools.product(kinds, repeat=3 if c.tier != 'quick' else 2):
                e, st, mac = call_world(prog, sc, mlist)
                for x in e.call('macrocall', [mac, status, 0], st):
                    if x.end[0] == 'infeasible':
                        continue
                    nm = 'macro listing %s, status %d: %s' % ('on' if mlist else 'off', status, ' '.join(sc))
                    t = None
                    if x.end[0] not in ('ret', 'recover'):
                        t = 'ends in %r' % (x.end,)
                    elif x.data.get('wrong'):
                        t = x.data['wrong']
                    elif status & 1 and x.data.get('pending'):
                        t = 'bytes of line %s of the expansion are still to be listed after the call' % x.data['pending'][0]
                    elif status & 1 and not x.events('outputline'):
                        t = 'the call is not listed at all'
                    if t:
                        c.bad('expansion listing', 'macro.c macrocall', nm + ': ' + t, nm)
                    else:
                        c.ob('expansion listing', nm)
                c.used(e)
    c.floor('expansion listing', 50)


def call_world(prog, sc, mlist):
    def s_out(e, st, a, ins):
        cur = e.getstr(st, Ptr(prog.gl('curline').name, 0))
        st.ev('outputline', cur, ins.where())
        st.data['pending'] = ()
        return 0

    def s_line(e, st, a, ins):
        n = st.data['lines'] = st.data.get('lines', 0) + 1
        s = a[1]
        if not isinstance(s, int):
            raise ir.AnalysisError('status unknown at ' + ins.where())
        k = sc[n - 1] if n <= len(sc) else 'exitm'
        if s & 1 and st.data.get('pending'):
            st.data['wrong'] = 'bytes of line %s are listed beside line %d' % (st.data['pending'][0], n)
        if k in ('put', 'err') and s & 2:
            st.data['pending'] = st.data.get('pending', ()) + (n,)
        if k == 'err':
            return [lines.raise_error(e, st, 'line error', ins)]
        if k in ('on', 'off') and s & 2:
            v = e.getg(st, 'asmflags')
            v = v | F['MACROLIST_ON'] if k == 'on' else v & ~F['MACROLIST_ON'] & M
            e.setg(st, 'asmflags', v)
        if s & 1:
            s_out(e, st, a, ins)
        return nest.codes(prog)['EXITM'] if k == 'exitm' else 0
    cells, mac = nest.define_macro(prog, [' a', ' b', ' c', ' d']), Ptr('lab:MAC', 0)
    e, st = nest.world(prog, {'asmline': s_line, 'outputline': s_out}, budget=0)
    for n, o in cells.items():
        st.mem[n] = o.copy()
        st.owned.add(n)
    e.setg(st, 'asmflags', F['LIST_ON'] | F['CODE_ON'] | (F['MACROLIST_ON'] if mlist else 0))
    for n, v in (('sourcelevel', 0), ('macrolevel', 0), ('linenumber', 5), ('lineprefix', 0), ('segment', 0), ('thiscall', 0)):
        e.setg(st, n, v)
    cur = prog.gl('curline')
    for k, b in enumerate(b' mac\0'):
        e.store(st, Ptr(cur.name, k), ir.INT(8), b)
    return e, st, mac


# ---------------------------------------------------------------- cross reference
def trees(names):
    """all search trees of sorted names: (name, left, right) or None"""
    if not names:
        yield None
    for i, n in enumerate(names):
        for l in trees(names[:i]):
            for r in trees(names[i + 1:]):
                yield (n, l, r)


def plant(prog, e, st, t, flags, types, mods=()):
    if t is None:
        return 0
    n, l, r = t
    p = enc.mklabel(prog, e, st, n, Sym('V.' + n, 64), flags[n], types[n], Sym('M.' + n, 16) if n in mods else 0)
    d = prog.ditypes['label']
    for k, b in enumerate(n.encode() + b'\0'):
        e.store(st, Ptr(p.obj, d['name'][0] + k), ir.INT(8), b)
    e.store(st, Ptr(p.obj, d['left'][0]), ir.PTRT, plant(prog, e, st, l, flags, types, mods))
    e.store(st, Ptr(p.obj, d['right'][0]), ir.PTRT, plant(prog, e, st, r, flags, types, mods))
    return p


def xref_case(c, prog, t, flags, types, llen, width, nm, mods=()):
    nums = listing.Nums()
    e = Engine(prog, dict(listing.stubs(nums), filter=enc.filter_stub))
    st = State()
    page(prog, e, st, llen=llen, plen=0, flags=ON | {4: F['ADDR16'], 6: F['ADDR24'], 8: 0}[width])
    e.setg(st, 'lroot', plant(prog, e, st, t, flags, types, mods))
    want = sorted(flags)
    for x in e.call('xref', [], st):
        if x.end[0] == 'infeasible':
            continue
        bad = None
        if x.end[0] != 'ret':
            bad = 'ends in %r' % (x.end,)
        else:
            ls, tail = listing.lines(x)
            cells = [v for l, w in ls for v in l + [10]] + tail
            bad = judge_xref(x, cells, want, flags, types, width, mods, nums)
        if bad:
            c.bad('cross reference', 'xref.c printlabel', nm + ': ' + bad, nm)
        else:
            c.ob('cross reference', nm)
    c.used(e)


def judge_xref(x, cells, want, flags, types, width, mods, nums):
    """names in order, each after its value"""
    s = ''.join(chr(v) if isinstance(v, int) and v < 128 else '\1' for v in cells)
    i = 0
    for n in want:
        j = s.find(n, i)
        if j < 0:
            return 'symbol %s is missing or out of order' % n
        if s.count(n) != 1:
            return 'symbol %s is listed %d times' % (n, s.count(n))
        vals = [v for v in cells[i:j] if not isinstance(v, int)]
        i0, i = i, j + len(n)
        undef = flags[n] & enc.UNDEF and not flags[n] & enc.FORWARD
        if types[n] == enc.L_BIT:
            k = s.rfind('Bit', i0, j)
            g = nums.tab[cells[k + 3] - listing.PH] if k >= 0 and k + 3 < j and isinstance(cells[k + 3], int) and cells[k + 3] >= listing.PH else None
            w = dom.sext(Sym('M.' + n, 16), 16, 32) if n in mods else 0
            if g is None or g[1] != w and not x.facts.equal(g[1], w, 32):
                return 'bit number of %s is shown as %s' % (n, dom.show(g[1]) if g else 'nothing')
        if types[n] in (enc.L_ABS, enc.L_REL, enc.L_BIT) and not undef:
            if len(vals) != width:
                return '%d digits before symbol %s' % (len(vals), n)
            for k, v in enumerate(reversed(vals)):
                w = dom.trunc(dom.lshr(64, Sym('V.' + n, 64), 4 * k), 4)
                g = listing.nib(v)
                if g is None or g != w and not x.facts.equal(g, w, 4):
                    return 'value of %s: digit %d is %s' % (n, k, dom.show(v))
        elif vals and undef:
            return 'undefined symbol %s has a value' % n
    if any(not isinstance(v, int) for v in cells[i:]):
        return 'a value without symbol'
    return None


def crossref(c, prog):
    c.rule('the cross reference, every shape of the symbol tree and every state of a symbol: each symbol once, in order, with its own value')
    names = ['ALPHA', 'BETA', 'GAMMA', 'ZED'] if c.tier != 'quick' else ['ALPHA', 'BETA', 'ZED']
    for t in trees(names):
        xref_case(c, prog, t, {n: enc.USED for n in names}, {n: enc.L_ABS for n in names}, 76, 4, 'tree %r' % (t,))
    for fl in (0, enc.USED, enc.FORWARD, enc.USED | enc.FORWARD, enc.UNDEF | enc.USED, enc.UNDEF | enc.FORWARD | enc.USED, enc.NOREDEF, enc.NOREDEF | enc.USED):
        for llen in (70, 76, 140):
            for width in (4, 6, 8):
                two = {'FIRST': fl, 'SECOND': enc.USED}
                xref_case(c, prog, ('FIRST', None, ('SECOND', None, None)), two, {n: enc.L_ABS for n in two}, llen, width,
                          'flags %d, line length %d, %d digits' % (fl, llen, width))
    for ty in (enc.L_ABS, enc.L_REL, enc.L_BIT, enc.L_REGS, enc.L_MACRO):
        for other in (enc.L_ABS, enc.L_BIT):
            for llen in (70, 76, 140):
                for width in (4, 6, 8):
                    tys = {'FIRST': ty, 'SECOND': other}
                    xref_case(c, prog, ('FIRST', None, ('SECOND', None, None)), {n: enc.USED for n in tys}, tys, llen, width,
                              'types %d and %d, line length %d, %d digits' % (ty, other, llen, width), tuple(n for n in tys if tys[n] == enc.L_BIT))
    c.floor('cross reference', 100)


def run(c, prog):
    summary(c, prog)
    driver(c, prog)
    counters(c, prog)
    columns(c, prog)
    visible(c, prog)
    onceshown(c, prog)
    expansions(c, prog)
    crossref(c, prog)
    c.assume.append('listing lines of at least 39 columns, as PAGE enforces; lines of source text up to a few words (wrapping is not judged)')
