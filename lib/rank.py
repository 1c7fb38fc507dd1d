"""Why a loop ends: every way round a natural loop is read off as a transformation of the values at its head, and an order of
measures is looked for that makes each way round smaller (counters and their bounds, unread text, tables with an end mark,
lists, unread input).  A way round that leaves everything its own tests read as it was repeats for ever."""
import copy

import flow
import ir
import taint
from ir import instrs, size_of, layout

ALLMEM = None
READERS = {'fgets', 'getc', 'fgetc', 'fread', '_IO_getc', 'getchar'}
MOVERS = {'ungetc', 'rewind', 'fseek', 'clearerr', 'freopen', 'fopen', 'fclose', 'fsetpos'}
FILECELL = ('FILE',)
FRESH = {'malloc', 'calloc', 'realloc', 'fopen', 'setjmp', '_setjmp', '__sigsetjmp', 'time', 'rand', 'clock'}
SETJMP = {'setjmp', '_setjmp', '__sigsetjmp'}
ROOM = 4000
CLASS = {'isspace': lambda c: int(c in (32, 9, 10, 11, 12, 13)), 'isprint': lambda c: int(32 <= c < 127), 'isascii': lambda c: int(c < 128),
         'isalpha': lambda c: int(chr(c).isalpha() and c < 128), 'isdigit': lambda c: int(48 <= c < 58), 'isalnum': lambda c: int(chr(c).isalnum() and c < 128),
         'toupper': lambda c: c - 32 if 97 <= c < 123 else c, 'tolower': lambda c: c + 32 if 65 <= c < 91 else c}


class Many(Exception):
    pass


# ---------------------------------------------------------------- linear terms
def con(n):
    return (n, ())


def atm(a):
    return (0, ((a, 1),))


def comb(x, y, k=1):
    if not y[1]:
        return (x[0] + k * y[0], x[1])
    d = dict(x[1])
    for a, c in y[1]:
        d[a] = d.get(a, 0) + k * c
    return (x[0] + k * y[0], tuple(sorted(((a, c) for a, c in d.items() if c), key=repr)))


def sub(x, y):
    return comb(x, y, -1)


def one(x):
    """the atom of a term that is just an atom"""
    return x[1][0][0] if x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1 else None


def sgn(n, w):
    n &= (1 << w) - 1
    return n - (1 << w) if n >> (w - 1) else n


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


class St:
    __slots__ = ('env', 'mem', 'writes', 'cond', 'seen', 'reads', 'tests', 'trail', 'top')

    def copy(s):
        x = St()
        x.env, x.mem, x.writes, x.cond, x.seen = dict(s.env), dict(s.mem), list(s.writes), list(s.cond), set(s.seen)
        x.reads, x.tests, x.trail = s.reads, s.tests, s.trail
        x.top = getattr(s, 'top', ())
        return x


class Prog:
    """facts of the whole program the loops share"""

    def __init__(s, prog):
        s.prog = prog
        s.pt = taint.PointsTo(prog)
        s.noret = flow.noreturn(prog)
        s.cls = {}
        s.mods, s.refs = {}, {}
        s.effects()

    def calls(s, f, i):
        c = i.a[0]
        if c[0] == 'g':
            return [c[1]] if c[1] in s.prog.funcs else []
        out = [p[0][1] for p in s.pt.of(getattr(f, 'real', f), c) if p[0][0] == 'f' and p[0][1] in s.prog.funcs]
        return out or flow.targets(s.prog, i)

    def cells(s, f, v, w):
        return frozenset((o, off, w) for o, off in s.pt.of(getattr(f, 'real', f), v))

    def whole(s, f, v):
        return frozenset((o, None, 0) for o, off in s.pt.of(getattr(f, 'real', f), v))

    def ext(s, f, i):
        """(written, read) by a library call"""
        n = i.a[0][1].lstrip('@')
        w, r = set(), set()
        if n in READERS or n in MOVERS:
            w.add((FILECELL, None, 0))
        if n in ('feof', 'ferror', 'ftell') or n in READERS:
            r.add((FILECELL, None, 0))
        for k, (ty, v) in enumerate(i.a[1]):
            if ty.k == 'p':
                if taint.WRITES.get(n) == k:
                    w |= s.whole(f, v)
                else:
                    r |= s.whole(f, v)
        if n in ('memcpy', 'llvm.memcpy.p0.p0.i64') and i.a[1][0][1][0] == 'r':
            pass
        return w, r

    def effects(s):
        own, ro, cg = {}, {}, {}
        for f in s.prog.funcs.values():
            w, r, c = set(), set(), set()
            for i in instrs(f):
                if i.op == 'store':
                    w |= s.cells(f, i.a[2], size_of(i.a[0])) or {(('?',), None, 0)}
                elif i.op == 'load':
                    r |= s.cells(f, i.a[0], size_of(i.ty))
                elif i.op == 'call':
                    ts = s.calls(f, i)
                    c |= set(ts)
                    if i.a[0][0] == 'g' and not ts:
                        a, b = s.ext(f, i)
                        w |= a
                        r |= b
            own[f.name], ro[f.name], cg[f.name] = w, r, c
        ch = True
        while ch:
            ch = False
            for n in own:
                for t in cg[n]:
                    if not own[t] <= own[n]:
                        own[n] |= own[t]
                        ch = True
                    if not ro[t] <= ro[n]:
                        ro[n] |= ro[t]
                        ch = True
        s.mods = {n: frozenset(x) for n, x in own.items()}
        s.refs = {n: frozenset(x) for n, x in ro.items()}
        s.cg = cg


def overlap(a, b):
    """two sets of cells may share memory"""
    if a is ALLMEM or b is ALLMEM:
        return True
    if any(x[0] == ('?',) for x in a) or any(x[0] == ('?',) for x in b):
        return True
    small, big = (a, b) if len(a) <= len(b) else (b, a)
    objs = {}
    for o, off, w in big:
        objs.setdefault(o, []).append((off, w))
    for o, off, w in small:
        for off2, w2 in objs.get(o, ()):
            if off is None or off2 is None or off < off2 + w2 and off2 < off + w:
                return True
    return False


# ---------------------------------------------------------------- natural loops
def loops(prog, f, noret):
    """[(head, body)] on the graph without calls that do not return"""
    sc = {b: ([] if any(flow.ends_block(prog, i, noret) for i in f.blocks[b].ins) else list(dict.fromkeys(ir.succs(f.blocks[b])))) for b in f.order}
    live, todo = set(), [f.order[0]]
    while todo:
        b = todo.pop()
        if b not in live:
            live.add(b)
            todo += sc[b]
    order = [b for b in f.order if b in live]
    pred = {b: [] for b in order}
    for b in order:
        for x in sc[b]:
            pred[x].append(b)
    dom = dominators(f, sc)
    heads = {}
    for b in order:
        for x in sc[b]:
            if x in dom[b]:
                heads.setdefault(x, set()).add(b)
    # a cycle that is not entered at one head has no head here
    odd = []
    state = {}

    def dfs(b):
        st = [(b, iter(sc[b]))]
        state[b] = 1
        while st:
            x, it = st[-1]
            for y in it:
                if state.get(y) == 1 and y not in dom[x]:
                    odd.append((x, y))
                if y not in state:
                    state[y] = 1
                    st.append((y, iter(sc[y])))
                    break
            else:
                state[x] = 2
                st.pop()
    dfs(order[0])
    out = []
    for h, tails in heads.items():
        body, todo = {h}, list(tails)
        while todo:
            b = todo.pop()
            if b not in body:
                body.add(b)
                todo += pred[b]
        out.append((h, body))
    return out, sc, odd


# ---------------------------------------------------------------- ways round a loop
class Walker:
    def __init__(s, P, f, h, body, sc, inner, eof=False, inline=()):
        s.P, s.f, s.h, s.body, s.sc, s.inner, s.eof = P, f, h, body, sc, inner, eof
        s.inline = inline
        s.n = 0
        s.uid = 0
        s.paths = []
        s.ptrs = set()

    feof = None

    def new(s, what=''):
        s.uid += 1
        return atm(('new', what, s.uid))

    # -- memory
    def ver(s, st, cls, addr, w):
        """number of the last write that may have changed the cell"""
        for k in range(len(st.writes), 0, -1):
            c, a, w2 = st.writes[k - 1]
            if a is not None and addr is not None and a[1] == addr[1]:
                if a[0] + w2 <= addr[0] or addr[0] + w <= a[0]:
                    continue
                return k
            if overlap(c, cls):
                return k
        return 0

    def load(s, st, addr, w, cls):
        v = st.mem.get((addr, w))
        if v is not None:
            return v
        cls = s.P.cls.setdefault((addr, w), cls)
        return atm(('ld', addr, w, s.ver(st, cls, addr, w)))

    def put(s, st, addr, w, v, cls):
        for (a, w2) in list(st.mem):
            if a[1] == addr[1]:
                if a[0] + w2 <= addr[0] or addr[0] + w <= a[0]:
                    continue
                del st.mem[a, w2]
            elif overlap(cls, s.P.cls.get((a, w2), ALLMEM)):
                del st.mem[a, w2]
        st.writes.append((cls, addr, w))
        s.P.cls.setdefault((addr, w), cls)
        st.mem[addr, w] = v

    def spoil(s, st, cls):
        if cls is not ALLMEM and not cls:
            return
        for k in list(st.mem):
            if overlap(cls, s.P.cls.get(k, ALLMEM)):
                del st.mem[k]
        st.writes.append((cls, None, 0))

    # -- values
    def val(s, st, f, v, ty=None):
        k = v[0]
        if k == 'c':
            return con(sgn(v[1], ty.w) if ty is not None and ty.k == 'i' and ty.w > 1 else v[1])
        if k == 'r':
            x = st.env.get((f.name, v[1]))
            return x if x is not None else atm(('reg', f.name, v[1]))
        if k == 'g':
            return atm(('g', v[1]))
        if k == 'gep':
            return comb(s.val(st, f, v[2]), s.offset(st, f, v[1], v[3]))
        if k in ('bitcast', 'inttoptr', 'ptrtoint'):
            return s.val(st, f, v[2])
        if k in ('null', 'zero'):
            return con(0)
        return s.new('undef')

    def offset(s, st, f, bt, idx):
        o, t = con(0), bt
        for k, (ty, v) in enumerate(idx):
            if k == 0:
                o = comb(o, s.val(st, f, v, ty), size_of(bt))
            elif t.k == 's':
                o = (o[0] + layout(t)[0][v[1]], o[1])
                t = t.fs[v[1]]
            elif t.k == 'a':
                o = comb(o, s.val(st, f, v, ty), size_of(t.e))
                t = t.e
        return o

    def cond(s, x, truth):
        """(predicate, a, b) that holds when the 1-bit term has the value"""
        for _ in range(20):
            if not x[1]:
                return bool(x[0] & 1) == truth
            a = one(x)
            if a is None:
                return ('ne' if truth else 'eq', x, con(0))
            if a[0] != 'icmp':
                return ('ne' if truth else 'eq', x, con(0))
            p, l, r = a[1:]
            if not r[1] and r[0] == 0 and p in ('eq', 'ne') and one(l) is not None and one(l)[0] == 'icmp':
                truth = truth == (p == 'ne')
                x = l
                continue
            if not r[1] and r[0] == 1 and p in ('eq', 'ne') and one(l) is not None and one(l)[0] == 'icmp':
                truth = truth == (p == 'eq')
                x = l
                continue
            return (p if truth else NEG[p], l, r)
        return ('ne' if truth else 'eq', x, con(0))

    def assume(s, st, c):
        """False when the conditions contradict each other"""
        if c is True or c is False:
            return c
        p, a, b = c
        d = sub(a, b)
        if not d[1]:
            n = d[0]
            return {'eq': n == 0, 'ne': n != 0, 'slt': n < 0, 'ult': n < 0, 'sle': n <= 0, 'ule': n <= 0, 'sgt': n > 0, 'ugt': n > 0, 'sge': n >= 0, 'uge': n >= 0}[p]
        key = lambda d: (d[1], d[0])
        lo, hi, no = bounds_of(d[1], st.cond)
        m = d[0]            # the term is (atoms) + m compared with 0
        if p == 'eq' and (lo is not None and -m < lo or hi is not None and -m > hi or -m in no):
            return False
        if p == 'ne' and lo is not None and lo == hi == -m:
            return False
        if p in ('slt', 'sle') and lo is not None and lo + m > (-1 if p == 'slt' else 0):
            return False
        if p in ('sgt', 'sge') and hi is not None and hi + m < (1 if p == 'sgt' else 0):
            return False
        st.cond.append(c)
        return True

    # -- walking
    def run(s):
        st = St()
        st.env, st.mem, st.writes, st.cond, st.seen, st.reads, st.tests, st.trail = {}, {}, [], [], set(), 0, 0, ()
        st.top = ()
        for i in s.f.blocks[s.h].phis:
            st.env[s.f.name, i.dst] = atm(('phi', i.dst))
        s.around = around(s, st)
        st.cond += s.around
        s.block(st, s.h, None, True)
        return s.paths

    def block(s, st, b, prev, first=False):
        work = [(st, b, prev, first)]
        while work:
            st, b, prev, first = work.pop()
            s.n += 1
            if s.n > ROOM:
                raise Many(s.f.cname)
            if b == s.h and not first:
                st.env['end'] = {i.dst: s.val(st, s.f, dict((y, x) for y, x in phi_in(i))[prev], i.ty) for i in s.f.blocks[b].phis}
                s.paths.append(st)
                continue
            if b not in s.body or b in st.seen:
                continue
            st.seen.add(b)
            blk = s.f.blocks[b]
            if b != s.h and b in s.inner:
                for i in blk.phis:
                    st.env[s.f.name, i.dst] = s.new('inner')
                s.havoc(st, s.f, s.inner[b])
            elif b != s.h:
                e = {i.dst: s.val(st, s.f, dict((y, x) for y, x in phi_in(i))[prev], i.ty) for i in blk.phis}
                for k, v in e.items():
                    st.env[s.f.name, k] = v
            sts = [st]
            for i in blk.ins:
                if i.op == 'phi' or i.op in ('br', 'switch', 'ret', 'unreachable'):
                    continue
                sts = [y for x in sts for y in s.ins(x, s.f, i)]
                if not sts:
                    break
            t = blk.ins[-1]
            for st in sts:
                st.trail = st.trail + (t.where(),)
                for c, x in s.nexts(st, s.f, t):
                    y = st.copy()
                    if s.assume_all(y, c):
                        if not any(b in t for g, t in s.inner.items() if g != s.h and t < s.body):
                            leaves = any(z not in s.body for z in s.sc[b])
                            y.top = st.top + tuple((k, leaves) for k in c)
                        work.append((y, x, b, False))

    def assume_all(s, st, cs):
        return all(s.assume(st, c) for c in cs)

    def nexts(s, st, f, t):
        if t.op == 'br':
            if len(t.a) == 1:
                return [([], t.a[0])]
            c = s.val(st, f, t.a[0])
            out = []
            for truth, x in ((True, t.a[1]), (False, t.a[2])):
                out.append(([s.cond(c, truth)], x))
            return out
        if t.op == 'switch':
            ty, v, d, cs = t.a
            v = s.val(st, f, v, ty)
            out = [([('eq', v, con(sgn(k, ty.w)))], l) for k, l in cs]
            return out + [([('ne', v, con(sgn(k, ty.w))) for k, l in cs], d)]
        return []

    def havoc(s, st, f, body):
        cls = set()
        for b in body:
            for i in f.blocks[b].ins:
                if i.op == 'store':
                    cls |= s.P.cells(f, i.a[2], size_of(i.a[0])) or {(('?',), None, 0)}
                elif i.op == 'call':
                    ts = s.P.calls(f, i)
                    for t in ts:
                        cls |= s.P.mods[t]
                    if i.a[0][0] == 'g' and not ts:
                        cls |= s.P.ext(f, i)[0]
                        if i.a[0][1].lstrip('@') in SETJMP:
                            s.spoil(st, ALLMEM)
        s.spoil(st, frozenset(cls))

    def ins(s, st, f, i):
        """states after the instruction (none: the way ends here)"""
        op, k = i.op, (f.name, i.dst)
        if op == 'call':
            return s.call(st, f, i)
        if op == 'store':
            a, w = s.val(st, f, i.a[2]), size_of(i.a[0])
            s.put(st, a, w, s.val(st, f, i.a[1], i.a[0]), s.P.cells(f, i.a[2], w) or frozenset({(('?',), None, 0)}))
            return [st]
        if op == 'load':
            w = size_of(i.ty)
            st.env[k] = s.load(st, s.val(st, f, i.a[0]), w, s.P.cells(f, i.a[0], w) or frozenset({(('?',), None, 0)}))
            return [st]
        if op == 'getelementptr':
            st.env[k] = comb(s.val(st, f, i.a[1]), s.offset(st, f, i.a[0], i.a[2]))
            return [st]
        if op == 'icmp':
            p, ty, a, b = i.a
            a, b = s.val(st, f, a, ty), s.val(st, f, b, ty)
            if ty.k == 'p':
                s.ptrs.add((a, b))
            d = sub(a, b)
            if not d[1]:
                n = d[0]
                st.env[k] = con(int({'eq': n == 0, 'ne': n != 0}.get(p, n < 0 if p in ('slt', 'ult') else n <= 0 if p in ('sle', 'ule') else n > 0 if p in ('sgt', 'ugt') else n >= 0)))
            else:
                st.env[k] = atm(('icmp', p, a, b))
            return [st]
        if op in ('sext', 'zext', 'bitcast', 'ptrtoint', 'inttoptr'):
            st.env[k] = s.val(st, f, i.a[1], i.a[0])
            return [st]
        if op == 'trunc':
            x = s.val(st, f, i.a[1], i.a[0])
            a = one(x)
            if not x[1]:
                st.env[k] = con(sgn(x[0], i.ty.w) if i.ty.w > 1 else x[0] & 1)
            elif a is not None and a[0] == 'ld' and a[2] * 8 <= i.ty.w or all(y[0] in ('phi', 'new', 'reg') or y[0] == 'ld' for y, c in x[1]) and i.ty.w >= 32:
                st.env[k] = x
            else:
                st.env[k] = atm(('op', 'trunc', i.ty.w, (x,)))
            return [st]
        if op in ('add', 'sub'):
            st.env[k] = comb(s.val(st, f, i.a[0], i.ty), s.val(st, f, i.a[1], i.ty), 1 if op == 'add' else -1)
            return [st]
        if op in ('mul', 'shl'):
            a, b = s.val(st, f, i.a[0], i.ty), s.val(st, f, i.a[1], i.ty)
            if op == 'shl' and not b[1] and 0 <= b[0] < 32:
                st.env[k] = comb(con(0), a, 1 << b[0])
                return [st]
            if op == 'mul' and (not a[1] or not b[1]):
                st.env[k] = comb(con(0), b, a[0]) if not a[1] else comb(con(0), a, b[0])
                return [st]
        if op == 'xor':
            a, b = s.val(st, f, i.a[0], i.ty), s.val(st, f, i.a[1], i.ty)
            if i.ty.w == 1 and not b[1] and b[0] & 1:
                st.env[k] = atm(('icmp', 'eq', a, con(0)))
                return [st]
        if op == 'select':
            c = s.val(st, f, i.a[0])
            out = []
            for truth, v in ((True, i.a[1]), (False, i.a[2])):
                x = st.copy()
                if s.assume_all(x, [s.cond(c, truth)]):
                    x.env[k] = s.val(x, f, v, i.ty)
                    out.append(x)
            return out
        if op == 'alloca':
            st.env[k] = atm(('reg', f.name, i.dst))
            return [st]
        if i.dst:
            args = tuple(s.val(st, f, v, i.ty) for v in flow.operands(i))
            st.env[k] = atm(('op', op, i.ty.w if i.ty.k == 'i' else 64, args))
        return [st]

    def call(s, st, f, i):
        P = s.P
        if flow.ends_block(P.prog, i, P.noret):
            return []
        ts = P.calls(f, i)
        k = (f.name, i.dst)
        args = [s.val(st, f, v, ty) for ty, v in i.a[1]]
        if i.a[0][0] == 'g' and not ts:
            n = i.a[0][1].lstrip('@')
            if n in SETJMP:
                s.spoil(st, ALLMEM)
                st.env[k] = s.new('setjmp')
                return [st]
            if n in READERS:
                st.reads += 1
                if s.eof:
                    st.env[k] = con(0 if n in ('fgets', 'fread') else -1)
                    return [st]
                w, r = P.ext(f, i)
                s.spoil(st, frozenset(w))
                st.env[k] = atm(('read', n, s.uid))
                s.uid += 1
                return [st]
            if (s.eof or s.feof is not None) and n == 'feof':
                st.env[k] = con(1 if s.eof else s.feof)
                return [st]
            if n in CLASS and not args[0][1] and i.dst:
                st.env[k] = con(CLASS[n](args[0][0] & 255))
                return [st]
            w, r = P.ext(f, i)
            if i.dst:
                st.env[k] = s.new(n) if n in FRESH else atm(('call', n, tuple(args), s.ver(st, frozenset(r), None, 0) if r else 0, frozenset(r)))
            if n == 'ungetc':
                st.reads -= 1
            s.spoil(st, frozenset(w))
            return [st]
        if s.inline and len(ts) == 1 and ts[0] in s.inline and not any(t == ts[0] for t in s.stack):
            return s.into(st, f, i, P.prog.funcs[ts[0]], args)
        m, r = set(), set()
        for t in ts:
            m |= P.mods[t]
            r |= P.refs[t]
        if not ts:
            m = {(('?',), None, 0)}
        if any(x[0] == FILECELL for x in m) or any(t in s.P.readers for t in ts):
            st.reads += 1
        if i.dst:
            nm = ts[0] if len(ts) == 1 else repr(i.a[0])
            st.env[k] = atm(('call', nm, tuple(args), s.ver(st, frozenset(r), None, 0) if r else 0, frozenset(r)))
        s.spoil(st, frozenset(m))
        return [st]

    stack = ()

    def into(s, st, f, i, g, args):
        """the ways through a function called"""
        inn, sc, odd = loops(s.P.prog, g, s.P.noret)
        heads = dict(inn)
        out = []
        real, g = g, copy.copy(g)
        g.real, g.name = real, '%s@%d' % (real.name, s.uid)
        s.uid += 1
        for (ty, r), a in zip(g.params, args):
            st.env[g.name, r] = a
        work = [(st, g.order[0], None, frozenset())]
        old = s.stack
        s.stack = old + (real.name,)
        while work:
            st, b, prev, seen = work.pop()
            s.n += 1
            if s.n > ROOM:
                raise Many(s.f.cname)
            if b in seen:
                continue
            seen = seen | {b}
            blk = g.blocks[b]
            if b in heads:
                for j in blk.phis:
                    st.env[g.name, j.dst] = s.new('inner')
                s.havoc(st, g, heads[b])
            else:
                e = {j.dst: s.val(st, g, dict((y, x) for y, x in phi_in(j))[prev], j.ty) for j in blk.phis}
                for k, v in e.items():
                    st.env[g.name, k] = v
            sts = [st]
            for j in blk.ins:
                if j.op in ('phi', 'br', 'switch', 'ret', 'unreachable'):
                    continue
                sts = [y for x in sts for y in s.ins(x, g, j)]
                if not sts:
                    break
            t = blk.ins[-1]
            for st in sts:
                if t.op == 'ret':
                    if i.dst:
                        st.env[f.name, i.dst] = s.val(st, g, t.a[0], t.ty) if t.a else s.new('ret')
                    out.append(st)
                    continue
                for c, x in s.nexts(st, g, t):
                    y = st.copy()
                    if s.assume_all(y, c):
                        work.append((y, x, b, seen))
        s.stack = old
        return out

    # -- the next time round
    def after(s, st, x):
        """the value a term of the head state has at the head again"""
        r = con(x[0])
        for a, c in x[1]:
            v = s.atom(st, a)
            if v is None:
                return None
            r = comb(r, v, c)
        return r

    def atom(s, st, a):
        k = a[0]
        if k == 'phi':
            return st.env['end'][a[1]]
        if k in ('g',):
            return atm(a)
        if k == 'reg':
            return atm(a)           # defined outside the loop, or the place of a variable
        if k == 'ld':
            if a[3] != 0:
                return None
            ad = s.after(st, a[1])
            if ad is None:
                return None
            return s.load(st, ad, a[2], s.P.cls.get((a[1], a[2]), ALLMEM))
        if k == 'op':
            v = [s.after(st, x) for x in a[3]]
            return None if None in v else atm((k, a[1], a[2], tuple(v)))
        if k == 'icmp':
            l, r = s.after(st, a[2]), s.after(st, a[3])
            return None if l is None or r is None else atm((k, a[1], l, r))
        if k == 'call':
            if a[3] != 0:
                return None
            v = [s.after(st, x) for x in a[2]]
            if None in v:
                return None
            return atm((k, a[1], tuple(v), s.ver(st, a[4], None, 0) if a[4] else 0, a[4]))
        return None


def around(w, st):
    """conditions that hold whenever the head is reached, over values the loop and the way to it leave alone"""
    f, P = w.f, w.P
    out = []
    dm = dominators(f, w.sc)
    pred = {}
    for b in dm:
        for x in w.sc[b]:
            pred.setdefault(x, []).append(b)
    for d in dm.get(w.h, ()):
        if d == w.h or d in w.body:
            continue
        t = f.blocks[d].ins[-1]
        if t.op != 'br' or len(t.a) != 3 or t.a[1] == t.a[2]:
            continue
        side = [x for x in (t.a[1], t.a[2]) if x in dm and x in dm[w.h] and pred.get(x) == [d]]
        if not side:
            # the other side never comes here
            side = [x for x in (t.a[1], t.a[2]) if w.h in reach(w.sc, x, d)]
            if len(side) != 1:
                continue
        between = set()
        back = reach_back(pred, w.h, d)
        for b in back:
            between.add(b)
        wr = set()
        allm = False
        for b in between | set(w.body):
            if b == d:
                continue
            for i in f.blocks[b].ins:
                if i.op == 'store':
                    wr |= P.cells(f, i.a[2], size_of(i.a[0])) or {(('?',), None, 0)}
                elif i.op == 'call' and not flow.ends_block(P.prog, i, P.noret):
                    ts = P.calls(f, i)
                    for x in ts:
                        wr |= P.mods[x]
                    if i.a[0][0] == 'g' and not ts:
                        wr |= P.ext(f, i)[0]
                        allm |= i.a[0][1].lstrip('@') in SETJMP
        # what is written in the block itself after the value was read
        for i in f.blocks[d].ins:
            if i.op == 'store':
                wr |= P.cells(f, i.a[2], size_of(i.a[0])) or {(('?',), None, 0)}
        c = outside(w, st, t.a[0], frozenset(wr), allm, 0)
        if c is None:
            continue
        c = w.cond(c, side[0] == t.a[1])
        if c is not True and c is not False:
            out.append(c)
    return out


def outside(w, st, v, wr, allm, n, ty=None):
    """term of a value computed before the loop, or None when it may no longer be so"""
    f, P = w.f, w.P
    if v[0] != 'r':
        return w.val(st, f, v, ty)
    if n > 12:
        return None
    if (f.name, v[1]) in st.env:
        return None             # belongs to the loop
    i = flow.defs(f).get(v[1])
    if i is None or i.op in ('phi', 'alloca', 'select'):
        return atm(('reg', f.name, v[1]))
    if i.op == 'call':
        return atm(('reg', f.name, v[1]))
    if i.op == 'load':
        a = outside(w, st, i.a[0], wr, allm, n + 1)
        cls = P.cells(f, i.a[0], size_of(i.ty))
        if a is None or allm or not cls or overlap(cls, wr):
            return atm(('reg', f.name, v[1]))
        return w.load(st, a, size_of(i.ty), cls)
    if i.op == 'icmp':
        p, t, a, b = i.a
        a, b = outside(w, st, a, wr, allm, n + 1, t), outside(w, st, b, wr, allm, n + 1, t)
        return None if a is None or b is None else atm(('icmp', p, a, b))
    if i.op in ('sext', 'zext', 'bitcast', 'ptrtoint', 'inttoptr'):
        return outside(w, st, i.a[1], wr, allm, n + 1, i.a[0])
    if i.op in ('add', 'sub'):
        a, b = outside(w, st, i.a[0], wr, allm, n + 1, i.ty), outside(w, st, i.a[1], wr, allm, n + 1, i.ty)
        return None if a is None or b is None else comb(a, b, 1 if i.op == 'add' else -1)
    if i.op in ('and', 'or', 'xor'):
        a, b = outside(w, st, i.a[0], wr, allm, n + 1, i.ty), outside(w, st, i.a[1], wr, allm, n + 1, i.ty)
        return None if a is None or b is None else atm(('op', i.op, i.ty.w, (a, b)))
    return atm(('reg', f.name, v[1]))


def dominators(f, sc):
    live, todo = set(), [f.order[0]]
    while todo:
        b = todo.pop()
        if b not in live:
            live.add(b)
            todo += sc[b]
    order = [b for b in f.order if b in live]
    pred = {b: [] for b in order}
    for b in order:
        for x in sc[b]:
            pred[x].append(b)
    dom = {b: set(order) for b in order}
    dom[order[0]] = {order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[x] for x in pred[b]]
            d = (set.intersection(*ps) if ps else set()) | {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    return dom


def reach(sc, b, stop):
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x not in seen and x != stop:
            seen.add(x)
            todo += sc[x]
    return seen


def reach_back(pred, b, stop):
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            if x != stop:
                todo += pred.get(x, ())
    return seen


def phi_in(i):
    """[(block, value)] of a phi"""
    return [(l, v) for l, v in i.a]


def bounds_of(atoms, conds):
    """(least, greatest, excluded) value the signed conditions give the sum of the atoms"""
    lo = hi = None
    no = set()
    if not atoms:
        return 0, 0, no
    neg = tuple((a, -c) for a, c in atoms)
    for p, a, b in conds:
        d = sub(a, b)
        if d[1] == atoms:
            m, pp = d[0], p
        elif d[1] == neg:
            m, pp = -d[0], {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(p, p)
        else:
            continue
        v = -m          # the sum is compared with v
        if pp == 'eq':
            lo = v if lo is None else max(lo, v)
            hi = v if hi is None else min(hi, v)
        elif pp == 'ne':
            no.add(v)
        elif pp == 'slt':
            hi = v - 1 if hi is None else min(hi, v - 1)
        elif pp == 'sle':
            hi = v if hi is None else min(hi, v)
        elif pp == 'sgt':
            lo = v + 1 if lo is None else max(lo, v + 1)
        elif pp == 'sge':
            lo = v if lo is None else max(lo, v)
    return lo, hi, no


# ---------------------------------------------------------------- measures
def measures(w, st):
    """measures the tests of one way round suggest"""
    out = []
    for p, a, b in st.cond:
        d = sub(b, a)
        if p in ('slt', 'ult'):
            out.append(('num', d))
        elif p in ('sle', 'ule'):
            out.append(('num', (d[0] + 1, d[1])))
        elif p in ('sgt', 'ugt'):
            out.append(('num', comb(con(0), d, -1)))
        elif p in ('sge', 'uge'):
            n = comb(con(0), d, -1)
            out.append(('num', (n[0] + 1, n[1])))
        elif p == 'ne':
            x = one(a)
            if not b[1] and b[0] == 0:
                if x is not None:
                    out += [('list', a)]
                    if x[0] == 'call' and x[1] == w.P.split and len(x[2]) > 2:
                        out.append(('piece', x[2][0]))
                if len(a[1]) == 1 and not (x is not None and x[0] in ('call', 'read', 'icmp')) and (a, b) not in w.ptrs:
                    out.append(('ne', a))
                if x is not None and x[0] == 'op' and x[1] in ('srem', 'urem'):
                    out.append(('mod', x[3][0], x[3][1]))
            elif (a, b) not in w.ptrs or b[1]:
                out.append(('ne', d))
            if not b[1] and x is not None and x[0] == 'ld' and x[3] == 0:
                out.append(('str', x[1]) if x[2] == 1 and b[0] == 0 else ('tab', x[1], x[2], b[0]))
        if p in ('eq', 'ne', 'sgt', 'sge', 'slt', 'sle', 'ugt', 'ult', 'uge', 'ule'):
            for t in (a, b):
                for x in atoms_in(t):
                    if x[0] == 'ld' and x[3] == 0:
                        out.append(('str', x[1]) if x[2] == 1 else ('tab', x[1], x[2], 0))
    if st.reads > 0:
        out.append(('input',))
    return sorted(dict.fromkeys(out), key=lambda m: m[0] == 'ne')


def atoms_in(t):
    for a, c in t[1]:
        yield a
        if a[0] == 'op':
            for y in a[3]:
                yield from atoms_in(y)
        elif a[0] == 'icmp':
            yield from atoms_in(a[2])
            yield from atoms_in(a[3])
        elif a[0] == 'call':
            for y in a[2]:
                yield from atoms_in(y)


def nonzero(w, st, addr, size=1):
    """the conditions of the way imply that the cell is not zero"""
    for p, a, b in st.cond:
        for x, y in ((a, b), (b, a)):
            t = one(x)
            if t is None:
                continue
            if t == ('ld', addr, size, t[3] if t[0] == 'ld' else 0) and t[3] == 0:
                if not y[1]:
                    n = y[0]
                    if p == 'ne' and n == 0 or p == 'eq' and n != 0:
                        return True
                    q = p if x is a else {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
                    if q in ('sgt', 'ugt') and n >= 0 or q in ('sge', 'uge') and n > 0 or q == 'slt' and n <= 0 or q == 'sle' and n < 0:
                        return True
                elif p == 'eq':
                    # equal to another character that is not zero
                    u = one(y)
                    if u is not None and u[0] == 'ld' and u[1] != addr and nonzero_plain(st, u):
                        return True
            # a test of the character's class, or of it in the other case, compared with something not zero
            if t[0] in ('op', 'call', 'ld'):
                if classtest(t, addr, size) and not y[1] and (p == 'ne' and y[0] == 0 or p == 'eq' and y[0] != 0):
                    return True
                if t[0] == 'call' and t[1] in ('toupper', 'tolower') and p == 'eq' and is_cell(t[2][0], addr, size):
                    u = one(y)
                    if not y[1] and y[0] != 0:
                        return True
                    if u is not None and u[0] == 'call' and u[1] in ('toupper', 'tolower'):
                        v = one(u[2][0])
                        if v is not None and v[0] == 'ld' and nonzero_plain(st, v):
                            return True
    return False


def nonzero_plain(st, u):
    for p, a, b in st.cond:
        if one(a) == u and not b[1] and (p == 'ne' and b[0] == 0 or p == 'eq' and b[0] != 0):
            return True
        if one(b) == u and not a[1] and (p == 'ne' and a[0] == 0 or p == 'eq' and a[0] != 0):
            return True
    return False


def is_cell(t, addr, size):
    a = one(t)
    return a is not None and a[0] == 'ld' and a[1] == addr and a[2] == size and a[3] == 0


def classtest(t, addr, size):
    """(class table)[character] & mask with a mask the zero character is not in"""
    if t[0] == 'op' and t[1] == 'and':
        xs = t[3]
        m = [x[0] for x in xs if not x[1]]
        l = [one(x) for x in xs if one(x) is not None and one(x)[0] == 'ld']
        if m and l and not (m[0] & 2):
            return any(is_cell(atm(a), addr, size) for a in atoms_in(l[0][1])) or \
                any(a == ('ld', addr, size, 0) for a, c in spread(l[0][1]))
    if t[0] == 'call' and t[1] in ('isdigit', 'isxdigit', 'isalpha', 'isalnum', 'isprint', 'isspace', 'isupper', 'islower', 'ispunct', 'isgraph'):
        return is_cell(t[2][0], addr, size)
    return False


def spread(t):
    return t[1]


class Judge:
    def __init__(s, P, w):
        s.P, s.w = P, w

    def move(s, m, st):
        """'down', 'same', 'up' or None (not known) of a measure along one way round"""
        w = s.w
        k = m[0]
        if k == 'input':
            if st.reads > 0:
                return 'down' if s.more_input(st) else None
            return 'same'
        x = m[1]
        y = w.after(st, x)
        if y is None:
            return None
        d = sub(y, x)
        if k == 'piece':
            if not d[1] and d[0] == 0:
                return 'same'
            u = one(y)
            if u is not None and u[0] == 'ld' and u[2] == 8:
                for p, a, b in st.cond:
                    t = one(a)
                    if p == 'ne' and b == con(0) and t is not None and t[0] == 'call' and t[1] == w.P.split and t[2][0] == x and u[1] in t[2][2:]:
                        g = one(t[2][1])
                        pat = g is not None and g[0] == 'g' and flow.globalstr(w.P.prog, g[1])
                        if pat and any(ch not in '?_' for ch in pat):
                            return 'down'
            return None
        if k == 'mod':
            if d[1]:
                return None
            return 'same' if d[0] == 0 else 'down' if abs(d[0]) == 1 and m in measures(w, st) and not m[2][1] and m[2][0] else None
        if k == 'num':
            if d[1]:
                if s.rests(st, x, d):
                    return 'up'
                lo, hi = s.range(st, d)
                if hi is not None and hi <= 0:
                    return ('down' if s.guarded(m, st) else None) if hi < 0 else 'same'
                if lo is not None and lo > 0:
                    return 'up'
                return None
            if d[0] == 0:
                return 'same'
            if d[0] < 0:
                return 'down' if s.guarded(m, st) else None
            return 'up'
        if k == 'ne':
            if d[1]:
                return None
            if d[0] == 0:
                return 'same'
            if abs(d[0]) == 1 and ('ne', x) in measures(w, st):
                lo, hi = s.start(x)
                if d[0] < 0 and lo is not None and lo < 0 or d[0] > 0 and (hi is not None and hi > 0 or lo is not None and lo >= 0 and hi != 0):
                    return 'up'
                return 'down'
            return None
        if k == 'str':
            if d[1]:
                return None
            if d[0] == 0:
                return 'same'
            if d[0] < 0:
                return 'up'
            if all(nonzero(w, st, (x[0] + j, x[1])) for j in range(d[0])):
                return 'down'
            return None
        if k == 'tab':
            if not d[1] and d[0] == 0:
                return 'same'
            step = d[0]
            if d[1]:
                a = d[1][0][0]
                if len(d[1]) != 1 or d[0] or a[0] != 'ld' or a[1][1] != x[1] or a[2] not in (2, 4) or a[3] or m[3]:
                    return None
                step = (a[1][0] - x[0], d[1][0][1])
            elif d[0] < 0:
                return None
            if (nonzero(w, st, x, m[2]) if m[3] == 0 else unlike(st, x, m[2], m[3])) and s.marked(x, m[2], step, m[3]):
                return 'down'
            return None
        if k == 'list':
            if not d[1] and d[0] == 0:
                return 'same'
            a, b = one(x), one(y)
            if b is not None and b[0] == 'ld' and b[2] == 8 and len(b[1][1]) == 1 and b[1][1] == x[1] and ('list', x) in measures(w, st):
                return 'down'
            return None
        return None

    def more_input(s, st):
        """the way is taken only when there was something left to read"""
        for p, a, b in st.cond:
            for x, y in ((a, b), (b, a)):
                for t in atoms_in(x):
                    if t[0] == 'read':
                        if t[1] == 'fgets' and p == 'ne' and y == con(0):
                            return True
                        if t[1] != 'fgets' and (p == 'ne' and y == con(-1) or p == 'eq' and not y[1] and y[0] != -1):
                            return True
                    if t[0] == 'call' and t[1] in s.P.endtests and not y[1]:
                        e = s.P.endtests[t[1]]
                        if y[0] or p not in ('eq', 'ne') or e is None or (p == 'ne') != e:
                            return True
                    if t[0] == 'call' and t[1] == 'feof' and not y[1]:
                        # what is read when the first source has ended is one of those opened since
                        if not (p == 'ne' and y[0] == 0) or s.deeper(st):
                            return True
                    if t[0] == 'ld' and t[2] == 8 and y == con(0) and p == 'ne' and s.P.cursor(s.P.cls.get((t[1], t[2]))):
                        return True
        return False

    def deeper(s, st):
        for p, a, b in st.cond:
            for t in list(atoms_in(a)) + list(atoms_in(b)):
                if t[0] == 'ld' and t[2] >= 4 and len(t[1][1]) == 1 and t[1][1][0][0][0] == 'g':
                    lo, hi, no = bounds_of(((t, 1),), st.cond)
                    if lo is not None and lo >= 1 or 0 in no:
                        return True
        return False

    def guarded(s, m, st):
        """the way round is taken only while the measure is positive"""
        return any(q[0] == 'num' and q[1][1] == m[1][1] and q[1][0] <= m[1][0] for q in measures(s.w, st))

    def start(s, x):
        """least and greatest value of a term when the loop is come to (None: not known)"""
        if len(x[1]) != 1 or x[1][0][1] != 1:
            return None, None
        a = x[1][0][0]
        f, w = s.w.f, s.w
        if a[0] != 'phi':
            return None, None
        i = next((i for i in f.blocks[w.h].phis if i.dst == a[1]), None)
        lo, hi = [], []
        for b, v in i.a:
            if b in w.body:
                continue
            if v[0] == 'c':
                lo.append(sgn(v[1], i.ty.w))
                hi.append(sgn(v[1], i.ty.w))
                continue
            t = atm(('reg', f.name, v[1])) if v[0] == 'r' else None
            if t is None:
                return None, None
            l, h, no = bounds_of(t[1], w.around)
            if l in no:
                l += 1
            lo.append(l)
            hi.append(h)
        return (None if None in lo else x[0] + min(lo)), (None if None in hi else x[0] + max(hi))

    def rests(s, st, x, d):
        """the term is halved, and the tests let it be zero: it stays there"""
        for a, c in d[1]:
            if a[0] == 'op' and a[1] in ('ashr', 'lshr', 'sdiv', 'udiv') and len(a[3][0][1]) == 1 and a[3][0][0] == 0:
                lo, hi, no = bounds_of(a[3][0][1], st.cond)
                r = sub(d, atm(a)) if c == 1 else sub(comb(con(0), d, -1), atm(a))
                if lo == 0 and 0 not in no and r == comb(con(0), a[3][0], -1):
                    return True
        return False

    def range(s, st, d):
        """least and greatest value of a term (None: not known)"""
        for a, c in d[1]:
            # halving
            if c == 1 and a[0] == 'op' and a[1] in ('ashr', 'lshr', 'sdiv', 'udiv') and not a[3][1][1] and a[3][1][0] >= (1 if a[1] in ('ashr', 'lshr') else 2):
                r = sub(d, atm(a))
                r = comb(r, a[3][0])
                lo = s.range(st, a[3][0])[0]
                if lo is not None and lo >= 1:
                    q = s.range(st, r)
                    return None, None if q[1] is None else q[1] - 1
        lo = hi = d[0]
        for a, c in d[1]:
            l, h, no = bounds_of(((a, 1),), st.cond)
            if a[0] == 'phi' and a[1] in s.positive:
                l = 1 if l is None else max(l, 1)
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi

    positive = ()

    def find_positive(s, paths):
        """head values that start above zero and stay there"""
        f = s.w.f
        cand = set()
        for i in f.blocks[s.w.h].phis:
            if i.ty.k == 'i' and all(v[0] == 'c' and sgn(v[1], i.ty.w) >= 1 for b, v in i.a if b not in s.w.body):
                cand.add(i.dst)
        while cand:
            s.positive = cand
            bad = set()
            for st in paths:
                for r in cand:
                    lo, hi = s.range(st, st.env['end'][r])
                    if lo is None or lo < 1:
                        bad.add(r)
            if not bad:
                return
            cand = cand - bad
        s.positive = ()

    def marked(s, x, size, step, mark):
        """the tables the pointer runs through have an end mark, and the steps come to it"""
        cls = s.P.cls.get((x, size))
        if not cls or cls is ALLMEM:
            return not isinstance(step, tuple)
        for o, off, w in cls:
            if o[0] != 'g':
                continue
            g = s.P.prog.globals.get(o[1])
            if g is None or g.init is None:
                continue
            if not zero_at(g, off, step, mark):
                return False
        return True


def unlike(st, addr, size, mark):
    for p, a, b in st.cond:
        for x, y in ((a, b), (b, a)):
            if p == 'ne' and one(x) == ('ld', addr, size, 0) and not y[1] and y[0] == mark:
                return True
    return False


def zero_at(g, off, step, mark=0):
    t, v = g.init[0], g.init[1]
    if t.k != 'a' or v[0] not in ('agg', 'zero'):
        return True
    if v[0] == 'zero':
        return mark == 0

    def num(y):
        if y[0] in ('zero', 'null'):
            return 0
        if y[0] == 'c':
            return y[1]
        if y[0] == 'inttoptr' and y[2][0] == 'c':
            return sgn(y[2][1], 64)
        return None

    def field(et, x, o):
        if x[0] == 'zero':
            return 0
        if et.k == 's' and x[0] == 'agg':
            for k, (ft, y) in enumerate(x[1]):
                if layout(et)[0][k] == o:
                    return num(y)
            return None
        return num(x)
    rows = v[1]
    k = 0
    while 0 <= k < len(rows):
        et, x = rows[k]
        if field(et, x, off) == mark:
            return True
        if isinstance(step, tuple):
            n = field(et, x, off + step[0])
            if n is None or n <= 0 or step[1] != size_of(et):
                return False
            k += n
        else:
            if step % size_of(et):
                return False
            k += step // size_of(et)
    return False


def stuck(w, st):
    """everything the tests of the way read is as it was"""
    for p, a, b in st.cond:
        if w.after(st, a) != a or w.after(st, b) != b:
            return False
    return True


def endless(P, w, j, f, body, paths, left):
    """a way round whose tests give no bound: they stay as they are, or move without an end"""
    if any(t in P.line or t in P.readers or t.lstrip('@') in READERS for b in body for i in f.blocks[b].ins if i.op == 'call' and i.a[0][0] == 'g'
           for t in list(P.calls(f, i)) + [i.a[0][1]]):
        return None
    asks = [c for st in left for c, leaves in st.top if leaves and isinstance(c, tuple)]
    if asks and all(w.after(st, x) == x for st in paths for c in asks for x in c[1:]):
        return left[0], 'nothing the loop does changes what its tests read'
    for st in left:
        for (p, a, b), leaves in ((c, l) for c, l in st.top if isinstance(c, tuple)):
            for x, y in ((a, b), (b, a)):
                q, r = one(x), None if w.after(st, x) is None else one(w.after(st, x))
                if p == 'eq' and y == con(0) and q is not None and q[0] == 'ld' and q[2] == 1 and q[3] == 0 and r is not None and r[0] == 'ld':
                    d = sub(r[1], q[1])
                    if not d[1] and d[0] > 0 and any(follows(w, st, o) for o in left):
                        return st, 'it goes on behind the end mark of the text'
    texts = any(i.op == 'store' and i.a[0].k == 'i' and i.a[0].w == 8 for b in body for i in f.blocks[b].ins)
    for st in left:
        cs = [c for c, leaves in st.top if isinstance(c, tuple)]
        if cs and len(st.top) == len(cs) and all(unbounding(P, w, j, st, c, texts) for c in cs) and follows(w, st, st):
            return st, 'no test of the way gives it an end'
    return None


def unbounding(P, w, j, st, c, texts):
    """the condition says nothing about how often the way can be taken"""
    p, a, b = c
    x, y = w.after(st, a), w.after(st, b)
    if x == a and y == b:
        return True
    for t in (a, b):
        q = one(t)
        if q is not None and q[0] == 'call':
            if q[1] == P.split and w.after(st, q[2][0]) == q[2][0] and not texts and (b if t is a else a) == con(0):
                return True
            return False
    if x is None or y is None:
        return False
    if p == 'ne':
        for t, n, o, o2 in ((a, x, b, y), (b, y, a, x)):
            q, r = one(t), one(n)
            if q is None or r is None or o != o2:
                continue
            if q[0] == 'ld' and r[0] == 'ld' and q[2] == r[2] and q[3] == 0:
                d = sub(r[1], q[1])
                if d[1] or d[0] <= 0:
                    continue
                if q[2] == 1 and (not o[1] and o[0] != 0 or one(o) is not None and nonzero_plain(st, one(o))):
                    return True
                if not o[1] and not j.marked(q[1], q[2], d[0], o[0]):
                    return True
            if q[0] == 'op' and q[1] == 'shl' and r[0] == 'op':
                return True
        return False
    if p in ('slt', 'sle', 'sgt', 'sge'):
        d = sub(b, a) if p in ('slt', 'sle') else sub(a, b)
        e = sub(y, x) if p in ('slt', 'sle') else sub(x, y)
        g = sub(e, d)
        return not g[1] and g[0] >= 0
    return False


def follows(w, p, q):
    """way q can be taken right after way p"""
    st = p.copy()
    for c, a, b in q.cond:
        x, y = w.after(p, a), w.after(p, b)
        if x is None or y is None:
            continue
        if not w.assume(st, (c, x, y)):
            return False
    return True


def cycles(left, nxt):
    """groups of ways that can follow each other for ever"""
    import collections
    idx, low, st, out = {}, {}, [], []

    def go(v):
        idx[v] = low[v] = len(idx)
        st.append(v)
        for x in nxt[v]:
            if x not in idx:
                go(x)
                low[v] = min(low[v], low[x])
            elif x in st:
                low[v] = min(low[v], idx[x])
        if low[v] == idx[v]:
            c = []
            while True:
                x = st.pop()
                c.append(x)
                if x == v:
                    break
            if len(c) > 1 or v in nxt[v]:
                out.append(c)
    for v in left:
        if v not in idx:
            go(v)
    return out


def rank(P, f, h, body, sc, inner, inline=()):
    """('ranked'|'stuck'|'away'|'open', a way round, measures, number of ways)"""
    P.cls.clear()
    w = Walker(P, f, h, body, sc, inner, False, inline)
    paths = w.run()
    j = Judge(P, w)
    j.find_positive(paths)
    ms = sorted(dict.fromkeys(m for st in paths for m in measures(w, st)), key=lambda m: m[0] == 'ne')
    memo, fol = {}, {}

    def mv(m, k):
        if (m, k) not in memo:
            memo[m, k] = j.move(m, paths[k])
        return memo[m, k]
    order = []

    def solve(left):
        """ways no measure is found for"""
        left = list(left)
        while left:
            for m in ms:
                r = [mv(m, k) for k in left]
                if all(x in ('down', 'same') for x in r) and 'down' in r:
                    order.append(m)
                    left = [k for k, x in zip(left, r) if x != 'down']
                    break
            else:
                break
        if not left or len(left) > 60:
            return left
        for a in left:
            for b in left:
                if (a, b) not in fol:
                    fol[a, b] = follows(w, paths[a], paths[b])
        groups = cycles(left, {a: [b for b in left if fol[a, b]] for a in left})
        if len(groups) == 1 and len(groups[0]) == len(left):
            return left
        return [k for g in groups for k in solve(g)]
    left = [paths[k] for k in solve(range(len(paths)))]
    idx = {id(st): k for k, st in enumerate(paths)}
    if left:
        for st in left:
            if stuck(w, st):
                return 'stuck', st, order, len(paths)
        for st in left:
            ask = st.copy()
            ask.cond = [c for c, leaves in st.top if leaves and isinstance(c, tuple)]
            ask.reads = 0
            r = [(m, mv(m, idx[id(st)])) for m in measures(w, ask)]
            if any(x == 'up' for m, x in r if m[0] in ('num', 'ne')) and not any(x in ('down', None) for m, x in r):
                return 'away', st, order, len(paths)
        e = endless(P, w, j, f, body, paths, left)
        if e is not None:
            return 'endless', e, order, len(paths)
        return 'open', left[0], order, len(paths)
    return 'ranked', None, order, len(paths)


def helpers(P, f, body):
    """functions worth looking into: small ones, and larger ones called with constants"""
    out = set()
    todo = [i for b in body for i in f.blocks[b].ins if i.op == 'call']
    seen = set()
    while todo:
        i = todo.pop()
        if i.a[0][0] != 'g' or i.a[0][1] not in P.prog.funcs or flow.ends_block(P.prog, i, P.noret):
            continue
        g = P.prog.funcs[i.a[0][1]]
        if len(g.order) <= 20 or len(g.order) <= 60 and any(v[0] == 'c' and ty.k == 'i' for ty, v in i.a[1]):
            if g.name not in out:
                out.add(g.name)
                if len(g.order) <= 20:
                    todo += [k for k in instrs(g) if k.op == 'call']
    return out


def ateof(P, f, h, body, sc, inner):
    """a way round that stays possible when the input has ended"""
    P.cls.clear()
    w = Walker(P, f, h, body, sc, inner, True)
    for st in w.run():
        if st.reads > 0 and stuck(w, st):
            return st
    return None


def endvalue(P, g):
    """the truth value a test for the end has at the end only, or None"""
    ls, sc, odd = loops(P.prog, g, P.noret)
    vs = []

    class I:
        dst = '%value'
    for k in (0, 1):
        w = Walker(P, g, None, set(), sc, dict(ls))
        w.feof = k
        st = St()
        st.env, st.mem, st.writes, st.cond, st.seen, st.reads, st.tests, st.trail = {}, {}, [], [], set(), 0, 0, ()
        try:
            vs.append({bool(v[0]) for v in (x.env[g.name, I.dst] for x in w.into(st, g, I, g, [w.new('arg') for q in g.params])) if not v[1]})
        except Many:
            return None
    e = vs[1] - vs[0]
    return e.pop() if len(e) == 1 else None


def prepare(P):
    """which functions read input, which tell the end of it, and the places that hold the reader's position"""
    prog = P.prog
    P.split = prog.fn('filter').name
    rd = set()
    for f in prog.funcs.values():
        for i in instrs(f):
            if i.op == 'call' and i.a[0][0] == 'g' and i.a[0][1].lstrip('@') in READERS:
                rd.add(f.name)
    P.line = set(rd)
    cg = {n: set(t) for n, t in P.cg.items()}
    reach = set(rd)
    ch = True
    while ch:
        ch = False
        for n in cg:
            if n not in reach and cg[n] & reach:
                reach.add(n)
                ch = True
    P.readers = reach
    ends = set()
    for f in prog.funcs.values():
        if any(i.op == 'call' and i.a[0][0] == 'g' and i.a[0][1].lstrip('@') == 'feof' for i in instrs(f)) and f.name not in reach:
            ends.add(f.name)
    P.endtests = {n: endvalue(P, prog.funcs[n]) for n in ends}
    cur = set()
    for n in rd:
        f = prog.funcs[n]
        for i in instrs(f):
            if i.op == 'store' and i.a[0].k == 'p' and i.a[1][0] == 'r':
                d = flow.defs(f).get(i.a[1][1])
                if d is not None and d.op == 'load':
                    cur |= set(P.cells(f, i.a[2], 8))
    P.cursor = lambda cls: bool(cls) and cls is not ALLMEM and overlap(cls, frozenset(cur))
