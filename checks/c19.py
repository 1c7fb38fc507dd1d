"""C19: every loop of the assembler makes progress and every recursion is bounded."""
import chk
import flow
import ir
import rank
from ir import instrs

SHOW = {'num': 'a count with a bound', 'ne': 'a count with an end value', 'str': 'text up to its end mark', 'tab': 'a table up to its end mark', 'list': 'a list',
        'input': 'input up to its end', 'piece': 'a text replaced by a piece of it', 'mod': 'a count with a period'}


def line(f, h, body, sc):
    """where the loop is tested: first exit"""
    for b in f.order:
        if b in body and any(x not in body for x in sc[b]):
            w = f.blocks[b].ins[-1].where()
            if ':' in w:
                return w
    return f.blocks[h].ins[0].where()


def loops(c, P):
    prog = P.prog
    c.rule('every natural loop: the ways round it are ordered by measures each of which has a lower end on the way that lowers it; a way that leaves all that its '
           'own tests read as it was, or that moves a count away from its only bound, or that can be taken again when the input has ended, is a violation')
    kinds = {}
    for f in prog.funcs.values():
        ls, sc, odd = rank.loops(prog, f, P.noret)
        inner = dict(ls)
        for x, y in odd:
            c.counts.setdefault('not decided', []).append('%s: jumps into a loop' % f.cname)
        for h, body in ls:
            w = line(f, h, body, sc)
            c.fns.add(f.name)
            nm = '%s %s' % (f.cname, w)
            try:
                r = rank.rank(P, f, h, body, sc, inner)
                if r[0] != 'ranked':
                    try:
                        r2 = rank.rank(P, f, h, body, sc, inner, rank.helpers(P, f, body))
                        if r2[0] == 'ranked' or r[0] == 'open':
                            r = r2
                    except rank.Many:
                        pass
            except rank.Many:
                c.counts.setdefault('not decided', []).append(nm + ': too many ways round')
                continue
            k, st, order, n = r
            key = 'loop %s' % f.cname
            c.counts['ways round loops'] = c.counts.get('ways round loops', 0) + n
            if k == 'ranked':
                c.ob('loops', '%s: %s' % (nm, ', '.join(dict.fromkeys(SHOW[m[0]] for m in order)) or 'no way round'))
                for m in order:
                    kinds[SHOW[m[0]]] = kinds.get(SHOW[m[0]], 0) + 1
            elif k == 'stuck':
                c.bad('loops', w, '%s: the way round over %s changes nothing that its tests read: once taken it repeats for ever' % (f.cname, way(st)), key)
            elif k == 'away':
                c.bad('loops', w, '%s: the way round over %s moves a count away from its bound, and nothing else ends the loop' % (f.cname, way(st)), key)
            elif k == 'endless':
                c.bad('loops', w, '%s: the way round over %s can be taken for ever: %s' % (f.cname, way(st[0]), st[1]), key)
            elif reading(P, f, body) and not (set(m[0] for m in order) - {'input'}) and st.reads > 0:
                c.bad('loops', w, '%s: the way round over %s reads on without asking whether there is more' % (f.cname, way(st)), key)
            else:
                c.counts.setdefault('not decided', []).append('%s: no measure for the way over %s' % (nm, way(st)))
            try:
                e = rank.ateof(P, f, h, body, sc, inner)
            except rank.Many:
                e = None
            if e is not None:
                c.bad('loops', w, '%s: at the end of the input the way over %s stays possible for ever' % (f.cname, way(e)), key + ' end')
    c.counts['measures'] = kinds
    c.floor('loops', 40)


def reading(P, f, body):
    return any(t in P.line or t in P.readers for b in body for i in f.blocks[b].ins if i.op == 'call' and i.a[0][0] == 'g' for t in P.calls(f, i))


def way(st):
    return ', '.join(dict.fromkeys(x for x in st.trail if ':' in x))


# ---------------------------------------------------------------- recursion
def scc(cg):
    idx, low, st, out = {}, {}, [], []

    def go(v):
        idx[v] = low[v] = len(idx)
        st.append(v)
        for x in cg.get(v, ()):
            if x not in idx:
                go(x)
                low[v] = min(low[v], low[x])
            elif x in st:
                low[v] = min(low[v], idx[x])
        if low[v] == idx[v]:
            c = []
            while True:
                x = st.pop()
                c.append(x)
                if x == v:
                    break
            if len(c) > 1 or v in cg.get(v, ()):
                out.append(c)
    for v in cg:
        if v not in idx:
            go(v)
    return out


def sources(f, v, seen=None):
    """what a value may be, through phis and variables: ('param', k), ('field', k) of a parameter, ('cell', alloca)"""
    out, todo, seen = set(), [v], set()
    d = flow.defs(f)
    par = {r: k for k, (ty, r) in enumerate(f.params)}
    while todo:
        v = todo.pop()
        if v[0] != 'r':
            if v[0] == 'c' and v[1] == 0 or v[0] == 'null':
                continue
            out.add(('other', repr(v)[:60]))
            continue
        if v[1] in seen:
            continue
        seen.add(v[1])
        if v[1] in par:
            out.add(('param', par[v[1]]))
            continue
        i = d[v[1]]
        if i.op == 'phi':
            todo += [x for _, x in i.a]
        elif i.op == 'select':
            todo += [i.a[1], i.a[2]]
        elif i.op in ('bitcast',):
            todo.append(i.a[1])
        elif i.op == 'load':
            a = i.a[0]
            if a[0] == 'r' and a[1] in d and d[a[1]].op == 'alloca':
                out.add(('cell', a[1]))
            elif a[0] == 'r' and a[1] in par:
                out.add(('field', par[a[1]]))
            elif a[0] == 'r' and a[1] in d and d[a[1]].op == 'getelementptr' and d[a[1]].a[1][0] == 'r' and d[a[1]].a[1][1] in par:
                out.add(('field', par[d[a[1]].a[1][1]]))
            else:
                out.add(('load', repr(a)[:60]))
        elif i.op == 'getelementptr':
            out.add(('part', repr(i.a[1])[:60]))
        else:
            out.add((i.op, v[1]))
    return out


def asked(f, dom, pred, i, r):
    """the call is reached only with the parameter not null"""
    b = block_of(f, i)
    for d in dom[b]:
        t = f.blocks[d].ins[-1]
        if t.op == 'br' and len(t.a) == 3 and t.a[0][0] == 'r':
            q = flow.defs(f).get(t.a[0][1])
            if q is not None and q.op == 'icmp' and q.a[0] in ('eq', 'ne') and ('r', r) in (q.a[2], q.a[3]):
                side = t.a[1] if q.a[0] == 'ne' else t.a[2]
                if side in dom[b] or side == b:
                    return True
    return False


def block_of(f, i):
    for b in f.order:
        if any(x is i for x in f.blocks[b].ins):
            return b


def shrinks(P, f, i, g, dom, pred):
    """why the recursion gets smaller over this call, or None"""
    args = i.a[1]
    for k, (ty, v) in enumerate(args):
        if ty.k != 'p' or k >= len(g.params):
            continue
        s = sources(f, v)
        if not s:
            continue
        if all(x[0] == 'field' for x in s) and all(asked(f, dom, pred, i, f.params[x[1]][1]) for x in s):
            return 'goes down a structure'
        if all(x[0] == 'cell' for x in s):
            ok = True
            for _, cell in s:
                t = piece_of(P, f, cell)
                ok = ok and t
            if ok:
                return 'takes a piece of the text'
    return None


def piece_of(P, f, cell):
    """the variable is only set by splitting a parameter, with patterns that take something away"""
    got = False
    for i in instrs(f):
        if i.op == 'store' and i.a[2] == ('r', cell):
            if i.a[1][0] == 'c' and i.a[1][1] == 0 or i.a[1][0] == 'null':
                continue
            return False
        if i.op == 'call' and any(v == ('r', cell) for ty, v in i.a[1]):
            if i.a[0] != ('g', P.split):
                if i.a[0][0] == 'g' and i.a[0][1].startswith('@llvm.') or i.a[0][0] == 'g' and i.a[0][1].startswith('llvm.'):
                    continue
                return False
            s = sources(f, i.a[1][0][1])
            if not s or not all(x[0] == 'param' for x in s):
                return False
            ps = flow.strings_behind(P.prog, f, i.a[1][1][1])
            if not ps or any('?' in p and all(ch in '?_' for ch in p) for p in ps):
                return False
            got = True
    return got


def reads_first(P, f, i, dom):
    b = block_of(f, i)
    for x in f.blocks[b].ins:
        if x is i:
            break
        if x.op == 'call' and x.a[0][0] == 'g' and x.a[0][1] in P.line:
            return True
    return any(x.op == 'call' and x.a[0][0] == 'g' and x.a[0][1] in P.line for d in dom[b] if d != b for x in f.blocks[d].ins)


def recursion(c, P):
    prog = P.prog
    c.rule('every cycle of the call graph has a call that goes down a structure, takes a piece of the text, reads a line first, or passes a constant with which the '
           'callee does not come back')
    for comp in scc(P.cg):
        left = {}
        comp = set(comp)
        for n in comp:
            f = prog.funcs[n]
            ls, sc, odd = rank.loops(prog, f, P.noret)
            dom = rank.dominators(f, sc)
            pred = None
            for i in instrs(f):
                if i.op != 'call' or block_of(f, i) not in dom:
                    continue
                for t in P.calls(f, i):
                    if t not in comp:
                        continue
                    g = prog.funcs[t]
                    c.fns.add(n)
                    why = shrinks(P, f, i, g, dom, pred) or (reads_first(P, f, i, dom) and 'reads a line first') or (returns(P, g, i, comp) and 'constant that ends it')
                    if why:
                        c.ob('recursion', '%s -> %s at %s: %s' % (f.cname, g.cname, i.where(), why))
                    else:
                        left.setdefault(n, {}).setdefault(t, i)
        rest = scc({n: set(x) for n, x in left.items()})
        for cy in rest:
            i = next(i for n in cy for t, i in left.get(n, {}).items() if t in cy)
            c.bad('recursion', i.where(), 'nothing gets smaller round %s' % ' -> '.join(sorted(prog.funcs[x].cname for x in cy)), 'recursion ' + ' '.join(sorted(cy)))
        c.ob('cycles of calls', ' '.join(sorted(comp)))
    c.rule('a source is only opened below a limit: every increase of the nesting level comes after a test against a constant whose other side ends the run')
    g = [x for x in prog.globals if x.split(':')[-1] == 'sourcelevel']
    n = 0
    for f in prog.funcs.values():
        ls, sc, odd = rank.loops(prog, f, P.noret)
        dom = rank.dominators(f, sc)
        d = flow.defs(f)
        for i in instrs(f):
            if i.op == 'store' and i.a[2][0] == 'g' and i.a[2][1] in g:
                v = i.a[1]
                up = v[0] == 'r' and v[1] in d and d[v[1]].op == 'add' and any(x[0] == 'c' and 0 < rank.sgn(x[1], 32) for x in d[v[1]].a[:2])
                if not up or block_of(f, i) not in dom:
                    continue
                n += 1
                base = [x for x in d[v[1]].a[:2] if x[0] == 'r']
                ok = False
                for b in dom[block_of(f, i)]:
                    t = f.blocks[b].ins[-1]
                    q = d.get(t.a[0][1]) if t.op == 'br' and len(t.a) == 3 and t.a[0][0] == 'r' else None
                    if q is None or q.op != 'icmp' or q.a[0] not in ('slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge', 'eq', 'ne'):
                        continue
                    l, r = q.a[2], q.a[3]
                    if not (l[0] == 'c' or r[0] == 'c') or not (same(d, l, v, g) or same(d, r, v, g) or any(same(d, l, x, g) or same(d, r, x, g) for x in base)):
                        continue
                    ok = ok or any(ends(P, f, sc, x) for x in (t.a[1], t.a[2]))
                if ok:
                    c.ob('nesting limit', '%s %s' % (f.cname, i.where()))
                else:
                    c.bad('nesting limit', i.where(), '%s goes one source deeper without a limit' % f.cname, 'limit ' + f.cname)
    if not n:
        c.counts['nesting limit'] = 'no increase of sourcelevel found'


def same(d, a, b, g):
    if a == b:
        return True
    if a[0] == 'r' and b[0] == 'r' and a[1] in d and b[1] in d:
        x, y = d[a[1]], d[b[1]]
        if x.op == y.op == 'load' and x.a[0] == y.a[0]:
            return True
        if x.op == y.op == 'add':
            return any(same(d, p, q, g) for p in x.a[:2] for q in y.a[:2] if p[0] == 'r' and q[0] == 'r')
    return False


def ends(P, f, sc, b):
    """the block leads to the end of the run (or back to the recovery point) only"""
    return not any(f.blocks[x].ins[-1].op == 'ret' and sc_ok(P, f, x) for x in rank.reach(sc, b, None))


def sc_ok(P, f, x):
    return not any(flow.ends_block(P.prog, i, P.noret) for i in f.blocks[x].ins)


def returns(P, g, i, comp):
    """with the constants passed the function called does not call back"""
    if not any(v[0] == 'c' and ty.k == 'i' for ty, v in i.a[1]):
        return False
    ls, sc, odd = rank.loops(P.prog, g, P.noret)
    w = rank.Walker(P, g, None, set(), sc, dict(ls))
    st = rank.St()
    st.env, st.mem, st.writes, st.cond, st.seen, st.reads, st.tests, st.trail = {}, {}, [], [], set(), 0, 0, ()
    hit = []
    old = w.call

    def call(st, f, j):
        if any(t in comp for t in P.calls(f, j)):
            hit.append(j)
            return []
        return old(st, f, j)
    w.call = call
    args = [rank.con(rank.sgn(v[1], ty.w)) if v[0] == 'c' and ty.k == 'i' else w.new('arg') for ty, v in i.a[1]]

    class I:
        dst = None
    try:
        w.into(st, g, I, g, args)
    except rank.Many:
        return False
    return not hit


def run(c, prog):
    P = rank.Prog(prog)
    rank.prepare(P)
    loops(c, P)
    recursion(c, P)
    c.assume.append('texts have an end mark that writes made while they are walked do not remove; lists and the tree of symbols have no cycle; counters do not overflow')
    c.assume.append('a line of a finite file is read once; lines of macros are read again only one nesting level deeper')
    c.assume.append('a label table entry is told from the end mark by its left pointer only')
