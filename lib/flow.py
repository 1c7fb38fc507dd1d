"""Flow-insensitive and flow-sensitive facts of the SSA program: constants behind a value, call graph, life of captured pieces."""
import ir
from ir import instrs, succs


def defs(f):
    d = getattr(f, '_defs', None)
    if d is None:
        d = {i.dst: i for i in instrs(f) if i.dst}
        f._defs = d
    return d


def operands(i):
    """values read by the instruction"""
    def vals(x):
        if isinstance(x, tuple):
            if x and x[0] in ('c', 'r', 'g', 'undef', 'zero', 'str', 'agg', 'gep', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'sext', 'zext') \
                    and not isinstance(x[0], ir.Ty):
                yield x
            else:
                for y in x:
                    yield from vals(y)
        elif isinstance(x, list):
            for y in x:
                yield from vals(y)
    if i.op == 'phi':
        return [v for _, v in i.a]
    return list(vals(i.a)) if i.a else []


def base_of(v):
    """constant expression -> (global, True when at offset 0)"""
    if v[0] == 'g':
        return v[1]
    if v[0] == 'gep':
        return base_of(v[2])
    if v[0] in ('inttoptr', 'ptrtoint', 'bitcast'):
        return base_of(v[2])
    return None


def globalstr(prog, name):
    g = prog.globals.get(name)
    if g is None or g.init is None or not g.const:
        return None
    v = g.init[1]
    if v[0] == 'str' and v[1].endswith(b'\0') and b'\0' not in v[1][:-1]:
        return v[1][:-1].decode('latin1')
    if v[0] == 'zero' and g.ty.k == 'a' and g.ty.n == 1:
        return ''
    return None


def conststr(prog, f, v):
    """the string a value always is, or None"""
    if v[0] == 'g':
        return globalstr(prog, v[1])
    return None


def globals_behind(f, v, seen=None):
    """globals a pointer value may be derived from"""
    seen = set() if seen is None else seen
    out = set()
    todo = [v]
    d = defs(f)
    while todo:
        v = todo.pop()
        b = base_of(v)
        if b:
            out.add(b)
        elif v[0] == 'r' and v[1] not in seen:
            seen.add(v[1])
            i = d.get(v[1])
            if i is None:
                continue
            if i.op == 'load':
                todo.append(i.a[0])
            elif i.op == 'getelementptr':
                todo.append(i.a[1])
            elif i.op in ('phi', 'select', 'bitcast'):
                todo += operands(i)
    return out


def strings_in(prog, v, out):
    b = base_of(v)
    if b:
        s = globalstr(prog, b)
        if s is not None:
            out.add(s)
    elif v[0] == 'agg':
        for _, x in v[1]:
            strings_in(prog, x, out)


def strings_behind(prog, f, v):
    out = set()
    for g in globals_behind(f, v):
        gl = prog.globals.get(g)
        if gl is not None and gl.init is not None:
            strings_in(prog, gl.init[1], out)
    return out


# ---------------------------------------------------------------- call graph
def address_taken(prog):
    """functions whose address is stored somewhere"""
    r = getattr(prog, '_taken', None)
    if r is not None:
        return r
    out = set()

    def scan(v):
        if v[0] == 'g' and v[1] in prog.funcs:
            out.add(v[1])
        elif v[0] == 'agg':
            for _, x in v[1]:
                scan(x)
        elif v[0] in ('gep', 'inttoptr', 'ptrtoint', 'bitcast'):
            scan(v[2])
    for g in prog.globals.values():
        if g.init is not None:
            scan(g.init[1])
    for f in prog.funcs.values():
        for i in instrs(f):
            for v in operands(i):
                if i.op == 'call' and v is i.a[0]:
                    continue
                scan(v)
    prog._taken = out
    return out


def targets(prog, i):
    """functions a call may enter (defined ones), by name; indirect calls: every function of matching parameter count whose address is taken"""
    c = i.a[0]
    if c[0] == 'g':
        return [c[1]] if c[1] in prog.funcs else []
    n = len(i.a[1])
    return [t for t in address_taken(prog) if len(prog.funcs[t].params) == n or prog.funcs[t].vararg and len(prog.funcs[t].params) <= n]


def callgraph(prog):
    g = getattr(prog, '_cg', None)
    if g is None:
        g = {f.name: [(i, t) for i in instrs(f) if i.op == 'call' for t in targets(prog, i)] for f in prog.funcs.values()}
        prog._cg = g
    return g


def reaching(prog, goals):
    """functions that may call one of the goals, directly or not"""
    cg = callgraph(prog)
    out = set(goals)
    ch = True
    while ch:
        ch = False
        for f, l in cg.items():
            if f not in out and any(t in out for _, t in l):
                out.add(f)
                ch = True
    return out


def noreturn(prog):
    """functions without a return that is reachable, and library functions known not to return"""
    r = getattr(prog, '_noret', None)
    if r is not None:
        return r
    out = set()
    ch = True
    while ch:
        ch = False
        for f in prog.funcs.values():
            if f.name in out:
                continue
            if not any(f.blocks[b].ins and f.blocks[b].ins[-1].op == 'ret' for b in reachable(prog, f, out)):
                out.add(f.name)
                ch = True
    prog._noret = out
    return out


def ends_block(prog, i, noret):
    if i.op != 'call' or i.a[0][0] != 'g':
        return False
    n = i.a[0][1]
    return n in noret or n not in prog.funcs and n.lstrip('@') in ('exit', 'abort', 'longjmp', '_exit', '__assert_fail')


def reachable(prog, f, noret):
    seen, todo = set(), [f.order[0]]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if any(ends_block(prog, i, noret) for i in f.blocks[b].ins):
            continue
        todo += succs(f.blocks[b])
    # a block cut short by such a call does not return
    return {b for b in seen if not any(ends_block(prog, i, noret) for i in f.blocks[b].ins)}


# ---------------------------------------------------------------- life of captured pieces
def stale(prog, c):
    """uses of a captured piece after the buffer may have been started anew: (function, where, text)"""
    flt = prog.fn('filter').name
    zero = prog.fn('zerobuffer').name
    resets = reaching(prog, {zero}) - {flt}
    out = []
    for f in prog.funcs.values():
        if f.name in (flt, zero):
            continue
        d = defs(f)
        slots = set()
        for i in instrs(f):
            if i.op == 'call' and i.a[0] == ('g', flt):
                for _, v in i.a[1][2:]:
                    if v[0] == 'r' and v[1] in d and d[v[1]].op == 'alloca':
                        slots.add(v[1])
        # functions called with pieces: the pointer parameters of functions whose address is taken (handlers) or that get a piece
        params = {r for t, r in f.params if t.k == 'p'} if passes_pieces(prog, f, flt) else set()
        if not slots and not params:
            continue
        c.ob('lifetime', f.cname)
        # state: set of stale names (slots or SSA pointer values derived from pieces)
        derived = {}

        def origin(v, seen=()):
            """slots/params a pointer value is derived from through loads of slots, geps, phis: computed per SSA value"""
            if v[0] != 'r':
                return frozenset()
            n = v[1]
            if n in derived:
                return derived[n]
            if n in seen:
                return frozenset()
            if n in params:
                return frozenset([n])
            i = d.get(n)
            r = frozenset()
            if i is not None:
                if i.op == 'load' and i.a[0][0] == 'r' and i.a[0][1] in slots:
                    r = frozenset([n])
                elif i.op == 'getelementptr':
                    r = origin(i.a[1], seen + (n,))
                elif i.op in ('phi', 'select', 'bitcast'):
                    for o in operands(i):
                        r |= origin(o, seen + (n,))
            if not seen:
                derived[n] = r
            return r
        for n in d:
            origin(('r', n))
        pieces = {n for n in derived if derived[n]} | slots | params
        state = {f.order[0]: frozenset()}
        todo = [f.order[0]]
        noret = noreturn(prog)
        reported = set()

        def isold(v, st):
            return v[0] == 'r' and v[1] in st

        while todo:
            b = todo.pop()
            st = set(state[b])
            dead = False
            for i in f.blocks[b].ins:
                uses = []
                if i.op == 'load':
                    p = i.a[0]
                    if p[0] == 'r' and p[1] in slots:
                        (st.add if p[1] in st else st.discard)(i.dst)
                        continue
                    uses = [p]
                elif i.op in ('getelementptr', 'select', 'bitcast'):
                    (st.add if any(isold(v, st) and v[1] not in slots for v in operands(i)) else st.discard)(i.dst)
                    continue
                elif i.op == 'store':
                    if i.a[2][0] == 'r' and i.a[2][1] in slots:
                        (st.add if isold(i.a[1], st) else st.discard)(i.a[2][1])
                        continue
                    uses = [i.a[2]]
                elif i.op == 'call':
                    uses = [v for _, v in i.a[1]]
                for v in uses:
                    if v[0] == 'r' and v[1] not in slots and v[1] in st and (i.file, i.line) not in reported:
                        reported.add((i.file, i.line))
                        out.append((f.cname, i.where(), 'uses a piece of the line taken before another line was started (%s)' % i.text.strip()[:90]))
                if i.op == 'call':
                    if ends_block(prog, i, noret):
                        dead = True
                        break
                    if i.a[0] == ('g', flt):
                        for _, v in i.a[1][2:]:
                            if v[0] == 'r':
                                st.discard(v[1])
                    elif any(t in resets for t in targets(prog, i)):
                        st |= pieces
            if dead:
                continue
            for t in succs(f.blocks[b]):
                n = set(st)
                for ph in f.blocks[t].phis:
                    v = dict(ph.a)[b]
                    (n.add if isold(v, st) and v[1] not in slots else n.discard)(ph.dst)
                n = frozenset(n) | state.get(t, frozenset())
                if t not in state or n != state[t]:
                    state[t] = n
                    todo.append(t)
    return out


def passes_pieces(prog, f, flt):
    """the pointer parameters of f may be pieces: a caller passes a value that comes from a slot of filter"""
    r = getattr(prog, '_pieces', None)
    if r is None:
        r = set()
        slots = {}
        for g in prog.funcs.values():
            d = defs(g)
            s = set()
            for i in instrs(g):
                if i.op == 'call' and i.a[0] == ('g', flt):
                    for _, v in i.a[1][2:]:
                        if v[0] == 'r' and v[1] in d and d[v[1]].op == 'alloca':
                            s.add(v[1])
            slots[g.name] = s
        ch = True
        while ch:
            ch = False
            for g in prog.funcs.values():
                if g.name == flt:
                    continue
                for i in instrs(g):
                    if i.op != 'call' or i.a[0] == ('g', flt):
                        continue
                    for _, v in i.a[1]:
                        if frompiece(g, v, slots[g.name], g.name in r):
                            for t in targets(prog, i):
                                if t not in r and t != flt:
                                    r.add(t)
                                    ch = True
        prog._pieces = r
    return f.name in r


def frompiece(f, v, slots, params):
    d = defs(f)
    todo, seen = [v], set()
    ps = {r for t, r in f.params if t.k == 'p'} if params else set()
    while todo:
        v = todo.pop()
        if v[0] != 'r' or v[1] in seen:
            continue
        seen.add(v[1])
        if v[1] in ps:
            return True
        i = d.get(v[1])
        if i is None:
            continue
        if i.op == 'load' and i.a[0][0] == 'r' and i.a[0][1] in slots:
            return True
        if i.op == 'getelementptr':
            todo.append(i.a[1])
        elif i.op in ('phi', 'select', 'bitcast'):
            todo += operands(i)
    return False


def meet(a, b):
    return a.meet(b)
