"""C25: well-formed names, identity of names, scope of local names."""
import dom
import enc
import encrun
import ir
import lines
from dom import Sym, Ptr
from eng import Engine, State

LEN = 48
ALPHA = set(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')
FIRST = ALPHA | set(b'_.')
NEXT = FIRST | set(b'0123456789')


def limit(prog):
    return enc.field_size(prog, 'label', 'name')


def good(n, seg, lim):
    if n == b'*':
        return True
    if not n or n[0] not in FIRST or any(ch not in NEXT for ch in n[1:]):
        return False
    return len(n) + (len(b'%d' % seg) if n[:1] == b'.' else 0) <= lim


def names(lim):
    for ch in range(1, 256):
        b = bytes([ch])
        for n in (b, b + b'1', b'a' + b, b'.' + b, b'a' + b + b'z', b'Foo_9.' + b, b'x' * (lim - 1) + b):
            yield n
    yield b''
    for k in range(lim - 12, lim + 4):
        yield b'a' * k
        yield b'.' + b'a' * (k - 1)
        yield b'_' + b'9' * (k - 1)


def check_names(c, prog):
    lim = limit(prog)
    c.rule('checklabel, every character at every kind of position and every length around the limit: accepted exactly for * and for a letter, '
           'underscore or period followed by letters, digits, underscores and periods, short enough to be told apart')
    for seg in (0, 7, 12345):
        for n in names(lim):
            st = State()
            e = Engine(prog, {'snprintf': lines.s_sprintf, 'sprintf': lines.s_sprintf})
            e.setg(st, 'segment', seg)
            for x in e.call('checklabel', [e.putstr(st, 'nm', n)], st):
                if x.end[0] == 'infeasible':
                    continue
                r = x.end[1] if x.end[0] == 'ret' else None
                w = good(n, seg, lim)
                if isinstance(r, int) and bool(r) == w:
                    c.ob('well formed', '%r: %s' % (n.decode('latin1'), 'accepted' if w else 'rejected'))
                else:
                    c.bad('well formed', 'label.c checklabel', 'name %r (section %d): %s, expected %s' % (
                        n, seg, 'ends in %r' % (x.end,) if r is None else 'accepted' if r else 'rejected', 'accepted' if w else 'rejected'),
                        'name %r' % n)
            c.used(e)


def keyof(n, seg, lim):
    s = b'%d' % seg if n[:1] == b'.' else b''
    return (s + bytes(ch - 32 if 97 <= ch <= 122 else ch for ch in n))[:lim]


def tree(prog, e, st):
    """full tree of depth 3; returns {slot (obj, off): child obj}, order"""
    d = prog.ditypes['label']
    sz = max(o + z for o, z in d.values())
    def node(k):
        p = e.newobj(st, 'node:%d' % k, sz, 'zero')
        e.store(st, Ptr(p.obj, d['type'][0]), ir.INT(8), 3)
        return p
    ns = {k: node(k) for k in range(1, 8)}
    for k in range(1, 8):
        for f, j in (('left', 2 * k), ('right', 2 * k + 1)):
            e.store(st, Ptr('node:%d' % k, d[f][0]), ir.PTRT, ns[j] if j in ns else 0)
    e.setg(st, 'lroot', ns[1])
    return ns


def search(c, prog):
    d = prog.ditypes['label']
    lim = limit(prog)
    c.rule('searchlabel and makelabel over all outcomes of the comparisons along a tree: the symbol returned is one that compared equal, and a '
           'new symbol is linked exactly where the search for it ends')

    def cmp_stub(e, st, a, ins):
        p = [v for v in a[:2] if isinstance(v, Ptr) and isinstance(v.obj, str) and v.obj.startswith('node:')]
        key = e.getstr(st, a[0] if not p or a[0] != p[0] else a[1])
        st.cnt += 1
        s = Sym('cmp%d' % st.cnt, 32)
        st.ev('cmp', p[0] if p else None, s, key, a[2] if len(a) > 2 else None, ins.where(), bool(p) and a[0] == p[0])
        return s
    for fn in ('searchlabel', 'makelabel'):
        for root in (1, 0):
            st = State()
            e = Engine(prog, {'strncmp': cmp_stub, 'strcmp': cmp_stub, 'sprintf': lines.s_sprintf, 'snprintf': lines.s_sprintf,
                              'memcmp': cmp_stub})
            tree(prog, e, st)
            e.setg(st, 'segment', 7)
            if not root:
                e.setg(st, 'lroot', 0)
            args = [e.putstr(st, 'nm', 'FooBar')] + ([9, 3] if fn == 'makelabel' else [])
            if fn == 'makelabel':
                e.setg(st, 'labelarray_inst', 0)
            for x in e.call(fn, args, st):
                if x.end[0] == 'infeasible':
                    continue
                t = None
                cs = x.events('cmp')
                pos, at = 1, (prog.gl('lroot').name, 0)
                found = None
                for k, (_, p, s, key, n, w, swapped) in enumerate(cs):
                    if key is None or p is None:
                        t = 'comparison with something else at %s' % w
                        break
                    if key != b'FOOBAR' or n is not None and n != lim:
                        t = 'compares %r over %s characters' % (key, n)
                    if p.obj != 'node:%d' % pos or p.off != d['name'][0]:
                        t = 'comparison %d is with %r' % (k + 1, p)
                        break
                    sg = [pr for pr, v in (('eq', 0), ('sgt', 1), ('slt', 1)) if x.facts.decide(pr, 32, s, 0) is True]
                    if sg == ['eq']:
                        found = pos
                        if k != len(cs) - 1:
                            t = 'search goes on after a match'
                        break
                    if len(sg) != 1:
                        t = 'a comparison result is not looked at'
                        break
                    right = (sg[0] == 'sgt') != swapped
                    at = ('node:%d' % pos, d['right' if right else 'left'][0])
                    pos = 2 * pos + int(right)
                nm = '%s, %s' % (fn, ' '.join('%s' % dom.show(v[2]) for v in cs))
                nm = '%s after %d comparisons%s' % (fn, len(cs), ', found' if found else '')
                if t is None and found is None and pos <= 7 and root:
                    t = 'search ends at an inner node'
                if t is None:
                    if fn == 'searchlabel':
                        r = x.end[1] if x.end[0] == 'ret' else x.end
                        want = Ptr('node:%d' % found, 0) if found else 0
                        if r != want:
                            t = 'returns %r' % (r,)
                    elif found:
                        if x.end[0] != 'fatal':
                            t = 'a second symbol of the same name is made'
                    elif x.end[0] == 'fatal':
                        if x.end[1] != 'no memory':
                            t = 'stops: %s' % x.end[1]
                    elif x.end[0] != 'ret' or not isinstance(x.end[1], Ptr):
                        t = 'ends in %r' % (x.end,)
                    else:
                        q = x.end[1]
                        ld = lambda f, ty: e.load(x, Ptr(q.obj, q.off + d[f][0]), ty)
                        link = e.load(x, Ptr(at[0], at[1]), ir.PTRT)
                        if link != q:
                            t = 'new symbol not linked where the search ended'
                        elif ld('left', ir.PTRT) != 0 or ld('right', ir.PTRT) != 0:
                            t = 'new symbol has subtrees'
                        elif e.getstr(x, Ptr(q.obj, q.off + d['name'][0])) != b'FOOBAR':
                            t = 'new symbol is called %r' % e.getstr(x, Ptr(q.obj, q.off + d['name'][0]))
                        elif ld('flags', ir.INT(8)) != 9 or ld('type', ir.INT(8)) != 3:
                            t = 'marks or kind of the new symbol'
                if t:
                    c.bad('search', cs[-1][5] if cs else 'label.c', nm + ': ' + t, fn)
                else:
                    c.ob('search', nm)
            c.used(e)
    c.rule('the name searched for is the name in capitals, preceded by the section number for local names')
    for seg in (0, 7, 123456):
        for n in (b'foo', b'FOO', b'fOo_9.x', b'.l', b'.Loop1', b'.', b'a' * lim, b'z' * (lim + 3), b'.' + b'q' * (lim - 8), b'.' + b'q' * lim, b'*', b'\xe9t'):
            st = State()
            e = Engine(prog, {'strncmp': cmp_stub, 'strcmp': cmp_stub, 'sprintf': lines.s_sprintf, 'snprintf': lines.s_sprintf})
            tree(prog, e, st)
            e.setg(st, 'segment', seg)
            lm = [g for g in prog.globals.values() if g.defined and g.cname == 'localname']
            for g in lm:
                st.mem[g.name] = e.ginit(g.name).copy()
                st.mem[g.name].ro = False
            for x in e.call('searchlabel', [e.putstr(st, 'nm', n)], st):
                if x.end[0] == 'infeasible':
                    continue
                ks = {v[3] for v in x.events('cmp')}
                w = keyof(n, seg, lim)
                if ks and all(k is not None and k[:lim] == w for k in ks):
                    c.ob('key', '%r in section %d: %r' % (n, seg, w))
                else:
                    c.bad('key', 'label.c searchlabel', '%r in section %d is searched as %s, expected %r' % (n, seg, sorted(map(str, ks)), w),
                          'key %r' % n)
            c.used(e)


def vocabulary(c, prog):
    c.rule('every keyword of every processor is found under its name, in either case, after the tables are bound, and is its own entry')
    d = prog.ditypes['label']
    for cn in ('6800', '6801', '6803', '6500', '6502', '65C02', 'Z80'):
        cpu = encrun.cpu(prog, cn)
        st = State()
        e = Engine(prog, {'sprintf': lines.s_sprintf, 'snprintf': lines.s_sprintf}, max_steps=30000000)
        e.setg(st, 'lroot', 0)
        e.setg(st, 'segment', 1)
        tabs = [prog.gl('pseudos').name] + list(cpu.tables)
        for t in tabs:
            st.mem[t] = e.ginit(t).copy()
            st.mem[t].ro = False
            st.owned.add(t)
        for g in prog.globals.values():
            if g.defined and g.cname == 'localname':
                st.mem[g.name] = e.ginit(g.name).copy()
                st.mem[g.name].ro = False
        bad = None
        for t in tabs:
            ends = [x for x in e.call('init_label_list', [Ptr(t, 0)], st) if x.end[0] != 'infeasible']
            if len(ends) != 1 or ends[0].end[0] != 'ret' or ends[0].events('warning'):
                c.bad('vocabulary', 'label.c init_label_list', '%s: binding %s ends in %s' % (
                    cn, t, [(x.end, x.events('warning')) for x in ends][:3]), 'binding ' + cn)
                bad = True
                break
            st = ends[0]
            st.frames, st.trace, st.end = [], None, None
        if bad:
            continue
        for t in tabs:
            for en in enc.read_table(prog, e, t):
                for n in (en.name, en.name.lower()):
                    y = st.copy()
                    ends = [x for x in e.call('searchlabel', [e.putstr(y, 'nm', n)], y) if x.end[0] != 'infeasible']
                    if len(ends) == 1 and ends[0].end[0] == 'ret' and ends[0].end[1] == en.addr:
                        c.ob('vocabulary', '%s %s' % (cn, n))
                    else:
                        c.bad('vocabulary', 'label.c init_label_list', '%s: keyword %s gives %s' % (cn, n, [x.end for x in ends][:2]),
                              '%s keyword %s' % (cn, en.name))
        c.used(e)


def scope(c, prog):
    c.rule('CODE and DUMMY each start a section with a number never used before in the pass; an operand is an error')
    S, T = Sym('SEG', 32), Sym('CALLS', 32)
    for fn, on in (('Xcode', 1), ('Xdummy', 0)):
        for op in (None, '', 'X'):
            st = State()
            e = Engine(prog)
            e.setg(st, 'segment', S)
            e.setg(st, 'thiscall', T)
            e.setg(st, 'asmflags', Sym('FLAGS', 32))
            for x in e.call(fn, [0, 0, e.putstr(st, 'm', 'X'), 0 if op is None else e.putstr(st, 'o', op)], st):
                if x.end[0] == 'infeasible':
                    continue
                t = None
                if op:
                    if x.end[0] != 'error' or e.getg(x, 'segment') != S:
                        t = 'operand accepted'
                else:
                    n = dom.add(32, T, 1)
                    m = enc.F['CODE_ON']
                    want = dom.bitop('or', 32, Sym('FLAGS', 32), m) if on else dom.bitop('and', 32, Sym('FLAGS', 32), ~m & dom.mask(32))
                    if x.end[0] != 'ret':
                        t = 'ends in %r' % (x.end,)
                    elif not x.facts.equal(e.getg(x, 'segment'), n, 32) or not x.facts.equal(e.getg(x, 'thiscall'), n, 32):
                        t = 'section becomes %s, numbering %s' % (dom.show(e.getg(x, 'segment')), dom.show(e.getg(x, 'thiscall')))
                    elif not x.facts.equal(e.getg(x, 'asmflags'), want, 32):
                        t = 'flags become %s' % dom.show(e.getg(x, 'asmflags'))
                if t:
                    c.bad('section', 'pseudos.c ' + fn, '%s operand %r: %s' % (fn, op, t), fn)
                else:
                    c.ob('section', '%s operand %r' % (fn, op))
            c.used(e)
    c.rule('the section number and its counter change in the section directives, macro calls and at the start of a pass only')
    gs = {prog.gl('segment').name, prog.gl('thiscall').name}
    entry = {prog.fn(n).name for n in ('Xcode', 'Xdummy', 'macrocall', 'pass')}
    callers = lines.callers(prog)
    for f in prog.funcs.values():
        if any(i.op == 'store' and lines.rootglobal(f, i.a[2]) in gs for i in ir.instrs(f)):
            if lines.only_from(f.name, entry, callers):
                c.ob('section writers', f.name)
            else:
                c.bad('section writers', '%s %s' % (f.file, f.cname), '%s changes the section number' % f.cname, 'writer ' + f.cname)


def run(c, prog):
    check_names(c, prog)
    search(c, prog)
    vocabulary(c, prog)
    scope(c, prog)
    c.floor('well formed', 3000)
    c.floor('search', 20)
    c.floor('key', 20)
    c.floor('vocabulary', 400)
    c.floor('section writers', 1)
