"""Inlining of small functions in a private copy of the program: the analyses that merge the calls of a function see each small call apart."""
import copy

import flow
import ir
from ir import Block, instrs, succs


def subst(x, m):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'r' and isinstance(x[1], str):
            return m.get(x[1], x)
        return tuple(subst(y, m) for y in x)
    if isinstance(x, list):
        return [subst(y, m) for y in x]
    return x


def relabel(i, lab):
    if i.op == 'br':
        i.a = tuple(lab.get(x, x) if isinstance(x, str) else x for x in i.a)
    elif i.op == 'switch':
        t, v, d, cs = i.a
        i.a = (t, v, lab.get(d, d), [(k, lab.get(x, x)) for k, x in cs])
    elif i.op == 'phi':
        i.a = [(lab.get(b, b), v) for b, v in i.a]


def own(f):
    """private instructions"""
    for b in f.order:
        q = f.blocks[b]
        q.ins = [copy.copy(i) for i in q.ins]
        q.phis = [copy.copy(i) for i in q.phis]
    f.__dict__.pop('_defs', None)
    f.__dict__.pop('_uses', None)


def expand(f, b, k, g, n):
    """puts the body of g in the place of the call at f.blocks[b].ins[k]"""
    blk = f.blocks[b]
    call = blk.ins[k]
    tag = '%%i%d.' % n
    ren = lambda r: tag + r.lstrip('%')
    m = {}
    for (t, r), (_, v) in zip(g.params, call.a[1]):
        m[r] = v
    for i in instrs(g):
        if i.dst:
            m[i.dst] = ('r', ren(i.dst))
    lab = {x: ren(x) for x in g.order}
    cont = Block()
    cont.name, cont.fn, cont.preds, cont.phis = tag + 'ret', f, [], []
    cont.ins = blk.ins[k + 1:]
    for i in cont.ins:
        i.bb = cont.name
    rets = []
    new = []
    for x in g.order:
        q = Block()
        q.name, q.fn, q.preds, q.phis, q.ins = lab[x], f, [], [], []
        for dst, src in ((q.phis, g.blocks[x].phis), (q.ins, g.blocks[x].ins)):
            for i in src:
                j = copy.copy(i)
                j.fn, j.bb = f.name, q.name
                if j.dst:
                    j.dst = ren(j.dst)
                if j.op == 'phi':
                    j.a = [(p, subst(v, m)) for p, v in j.a]
                else:
                    j.a = subst(j.a, m)
                relabel(j, lab)
                if j.op == 'ret':
                    rets.append((q.name, j.a[0] if j.a else None))
                    j.op, j.a, j.dst = 'br', (cont.name,), None
                dst.append(j)
        new.append(q)
    jump = copy.copy(call)
    jump.op, jump.a, jump.dst, jump.ty = 'br', (lab[g.order[0]],), None, ir.VOID
    blk.ins = blk.ins[:k] + [jump]
    if call.dst:
        if rets:
            p = copy.copy(call)
            p.op, p.a, p.bb = 'phi', rets, cont.name
            cont.phis.append(p)
        else:
            p = copy.copy(call)
            p.op, p.a, p.bb = 'select', (('c', 1), ('undef',), ('undef',)), cont.name
            cont.ins.insert(0, p)
    for q in f.blocks.values():
        for i in q.phis:
            relabel(i, {b: cont.name})
    at = f.order.index(b) + 1
    f.order[at:at] = [q.name for q in new] + [cont.name]
    for q in new:
        f.blocks[q.name] = q
    f.blocks[cont.name] = cont
    for q in f.blocks.values():
        q.preds = []
        for x, i in enumerate(q.ins):
            i.idx = x
    for x in f.order:
        for t in succs(f.blocks[x]):
            f.blocks[t].preds.append(x)
    f.__dict__.pop('_defs', None)
    f.__dict__.pop('_uses', None)


def signed(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if w > 1 and x >> (w - 1) else x


def folded(i):
    """the constant an instruction on constants has"""
    if i.op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl'):
        a, b = i.a
        if a[0] == b[0] == 'c' and i.ty.k == 'i':
            x, y = a[1], b[1]
            if i.op == 'shl' and not 0 <= y < i.ty.w:
                return None
            r = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'add': lambda: x + y, 'sub': lambda: x - y,
                 'mul': lambda: x * y, 'shl': lambda: x << y}[i.op]()
            return ('c', signed(r, i.ty.w))
    if i.op in ('zext', 'sext', 'trunc') and i.a[1][0] == 'c' and i.a[0].k == 'i':
        x = i.a[1][1] & ((1 << i.a[0].w) - 1)
        if i.op == 'sext' and x >> (i.a[0].w - 1):
            x -= 1 << i.a[0].w
        return ('c', signed(x, i.ty.w))
    return None


def fold(f):
    m = {}
    for _ in range(4):
        n = len(m)
        for i in instrs(f):
            if i.dst and i.dst not in m:
                c = folded(i)
                if c:
                    m[i.dst] = c
        if len(m) == n:
            break
        for i in instrs(f):
            if i.op == 'phi':
                i.a = [(p, subst(v, m)) for p, v in i.a]
            elif i.a:
                i.a = subst(i.a, m)
    f.__dict__.pop('_defs', None)
    f.__dict__.pop('_uses', None)


def size(f):
    return sum(1 for _ in instrs(f))


def inline(prog, want, limit=40, most=1500):
    """prog is a private copy. Direct calls of functions want() accepts, not recursive and at most limit instructions long, are expanded"""
    cg = {n: {t for i, t in prog.callees(f) if t in prog.funcs} for n, f in prog.funcs.items()}

    def recursive(n):
        seen, todo = set(), list(cg[n])
        while todo:
            x = todo.pop()
            if x == n:
                return True
            if x not in seen:
                seen.add(x)
                todo += cg[x]
        return False
    ok = {n for n, f in prog.funcs.items() if size(f) <= limit and not f.vararg and want(f) and not recursive(n)
          and not any(i.op == 'call' and i.a[0][0] == 'g' and i.a[0][1].lstrip('@') in ('_setjmp', 'setjmp', '__sigsetjmp', 'llvm.va_start')
                      for i in instrs(f))}
    body = {}
    for n in ok:
        body[n] = copy.copy(prog.funcs[n])
    count = 0
    for f in list(prog.funcs.values()):
        own(f)
    for f in list(prog.funcs.values()):
        for depth in range(4):
            hit = False
            for b in list(f.order):
                while True:
                    k = next((k for k, i in enumerate(f.blocks[b].ins) if i.op == 'call' and i.a[0][0] == 'g' and i.a[0][1] in ok
                              and len(i.a[1]) >= len(prog.funcs[i.a[0][1]].params) and i.a[0][1] != f.name), None)
                    if k is None or size(f) > most:
                        break
                    count += 1
                    g = prog.funcs[f.blocks[b].ins[k].a[0][1]]
                    expand(f, b, k, g, count)
                    hit = True
                    b = f.order[f.order.index(b) + 1 + len(g.order)]
            if not hit:
                break
        fold(f)
    used = {r for n, f in prog.funcs.items() for i in instrs(f) for v in flow.operands(i) for r in (flow.base_of(v),) if r in ok and r != n}

    def inside(v):
        if v[0] == 'agg':
            for _, x in v[1]:
                inside(x)
        elif flow.base_of(v) in ok:
            used.add(flow.base_of(v))
    for g in prog.globals.values():
        if g.init is not None:
            inside(g.init[1])
    for n in ok - used:
        del prog.funcs[n]
    for k in ('_taken', '_cg', '_noret'):
        prog.__dict__.pop(k, None)
    return count
