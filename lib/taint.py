"""Information flow over the whole program: which bits of which values and objects may depend on the seeds, by data or by control.
Points-to (inclusion based, structure fields apart, arrays as one cell), bit masks for integers, control dependence on the pruned graph."""
import collections
import copy

import flow
import inl
import ir
from ir import AnalysisError, instrs, succs, size_of, layout

ALL = (1 << 64) - 1
PRINTS = {'printf', 'puts', 'putchar', 'perror', 'vprintf'}
STREAM = {'fprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3, 'fread': 3, 'fgets': 2, 'getc': 0, 'fgetc': 0, 'fclose': 0, 'fflush': 0,
          'rewind': 0, 'clearerr': 0, 'fseek': 0, 'ungetc': 1, 'vfprintf': 0, 'setbuf': 0}
ASKS = {'ferror': 0, 'feof': 0, 'ftell': 0}
FILES = {'remove', 'rename', 'fopen', 'freopen', 'unlink', 'system', 'longjmp', '_longjmp', 'siglongjmp'}
WRITES = {'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'strncat': 0, 'memcpy': 0, 'memmove': 0, 'memset': 0, 'sprintf': 0, 'snprintf': 0, 'fgets': 0, 'fread': 0,
          'llvm.memcpy.p0.p0.i64': 0, 'llvm.memset.p0.i64': 0, 'llvm.memmove.p0.p0.i64': 0, 'vsprintf': 0, 'vsnprintf': 0}
SAME = {'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'strncat': 0, 'memcpy': 0, 'memmove': 0, 'memset': 0, 'strchr': 0, 'strrchr': 0, 'strstr': 0, 'fgets': 0}


def rpo(f, sc):
    out, seen = [], set()
    st = [(f.order[0], iter(sc[f.order[0]]))]
    seen.add(f.order[0])
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                st.append((x, iter(sc[x])))
                break
        else:
            out.append(b)
            st.pop()
    return out[::-1]


def fixed(a):
    return a[0] == 'g' or a[0] == 'gep' and flow.base_of(a) is not None


def ext(i):
    """name of the library function called, or None"""
    c = i.a[0]
    return c[1].lstrip('@') if c[0] == 'g' else None


class PointsTo:
    """nodes: ('v', fn, reg), ('m', object, offset), ('ret', fn); objects: ('g', name), ('a', fn, reg), ('h', fn, reg), ('f', fn)"""

    def __init__(s, prog):
        s.prog = prog
        s.pts = collections.defaultdict(set)
        s.succ = collections.defaultdict(set)     # copy edges
        s.adds = collections.defaultdict(list)    # node -> (dst, offset added)
        s.loads = collections.defaultdict(list)
        s.stores = collections.defaultdict(list)
        s.icalls = collections.defaultdict(list)
        s.copies = collections.defaultdict(list)
        s.todo = []
        s.slots = collections.defaultdict(set)
        s.done = set()
        s.tags = {}
        for g in prog.globals.values():
            if g.init is not None:
                s.init(g, g.init[0], g.init[1], 0)
        for f in prog.funcs.values():
            for i in instrs(f):
                s.instr(f, i)
        s.solve()

    def init(s, g, t, v, o):
        if v[0] == 'agg':
            for k, (et, x) in enumerate(v[1]):
                s.init(g, et, x, o + (layout(t)[0][k] if t.k == 's' else 0))
        elif v[0] in ('g', 'gep', 'bitcast', 'inttoptr'):
            p = s.const(v)
            if p:
                s.add(('m', ('g', g.name), o), p)

    def const(s, v):
        if v[0] == 'g':
            return (('f', v[1]), 0) if v[1] not in s.prog.globals else (('g', v[1]), 0)
        if v[0] == 'gep':
            p = s.const(v[2])
            return p and (p[0], p[1] + offset(v[1], v[3]))
        if v[0] == 'bitcast':
            return s.const(v[2])
        return None

    def add(s, n, p):
        if p not in s.pts[n]:
            s.pts[n].add(p)
            s.todo.append((n, p))

    def val(s, f, v, dst):
        """dst includes the value"""
        if v[0] == 'r':
            s.edge(('v', f.name, v[1]), dst)
        else:
            p = s.const(v)
            if p:
                s.add(dst, p)

    def node(s, f, v):
        if v[0] == 'r':
            return ('v', f.name, v[1])
        p = s.const(v)
        n = ('k', p)
        if p:
            s.add(n, p)
        return n

    def edge(s, a, b):
        if b not in s.succ[a]:
            s.succ[a].add(b)
            for p in list(s.pts[a]):
                s.add(b, p)

    def instr(s, f, i):
        d = ('v', f.name, i.dst)
        if i.op in ('phi', 'select', 'bitcast', 'inttoptr', 'ptrtoint', 'add', 'sub'):
            vs = [v for v in flow.operands(i)]
            if i.op == 'select':
                vs = [i.a[1], i.a[2]]
            for v in vs:
                s.val(f, v, d)
        elif i.op == 'alloca':
            s.add(d, (('a', f.name, i.dst), 0))
        elif i.op == 'getelementptr':
            s.gep(s.node(f, i.a[1]), d, offset(i.a[0], i.a[2]))
        elif i.op == 'load':
            n = s.node(f, i.a[0])
            s.loads[n].append(d)
            for p in list(s.pts[n]):
                s.edge(('m',) + p, d)
        elif i.op == 'store':
            n, v = s.node(f, i.a[2]), s.node(f, i.a[1])
            s.stores[n].append(v)
            for p in list(s.pts[n]):
                s.edge(v, ('m',) + p)
        elif i.op == 'ret' and i.a:
            s.val(f, i.a[0], ('ret', f.name))
        elif i.op == 'call':
            c = i.a[0]
            if c[0] == 'g':
                s.call(f, i, c[1])
            else:
                n = s.node(f, c)
                s.icalls[n].append((f, i))
                for p in list(s.pts[n]):
                    s.icall(f, i, p)

    def gep(s, a, d, o):
        s.adds[a].append((d, o))
        for p in list(s.pts[a]):
            s.add(d, (p[0], p[1] + o))

    def icall(s, f, i, p):
        if p[0][0] == 'f' and (id(i), p[0][1]) not in s.done:
            s.done.add((id(i), p[0][1]))
            s.call(f, i, p[0][1])

    def call(s, f, i, t):
        g = s.prog.funcs.get(t)
        if g is not None and i.a[0][0] != 'g':
            k = id(i)
            if k not in s.tags:
                s.tags[k] = tagged(s.prog, f, i, flow.noreturn(s.prog))
            if s.tags[k] is not None and t in s.tags[k].every and t not in s.tags[k]:
                return
        if g is not None:
            for k, (ty, v) in enumerate(i.a[1]):
                if k < len(g.params):
                    s.val(f, v, ('v', t, g.params[k][1]))
                else:
                    s.val(f, v, ('va', t))
            if i.dst:
                s.edge(('ret', t), ('v', f.name, i.dst))
            return
        n = t.lstrip('@')
        if n == 'llvm.va_start':
            # the variable arguments are read through the list
            s.edge(('va', f.name), ('m', ('a', f.name, '*va'), 0))
            w = s.node(f, i.a[1][0][1])
            s.adds[w].append((('dummy',), 0))
            s.vas = getattr(s, 'vas', [])
            s.vas.append((w, f.name))
            for p in list(s.pts[w]):
                s.valist(p[0], f.name)
        elif n in ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'):
            a, b = s.node(f, i.a[1][0][1]), s.node(f, i.a[1][1][1])
            s.copies[a].append((a, b))
            s.copies[b].append((a, b))
            s.copy(a, b)
        if i.dst and i.ty.k == 'p':
            if n in SAME:
                s.val(f, i.a[1][SAME[n]][1], ('v', f.name, i.dst))
            else:
                s.add(('v', f.name, i.dst), (('h', f.name, i.dst), 0))

    def valist(s, obj, fn):
        """the areas a va_list object points to hold the variable arguments"""
        for o in (8, 16):
            s.add(('m', obj, o), (('a', fn, '*va'), 0))

    def copy(s, a, b):
        for p in list(s.pts[a]):
            for q in list(s.pts[b]):
                for o in list(s.slots[q[0]]):
                    s.edge(('m', q[0], o), ('m', p[0], p[1] + o - q[1]))

    def solve(s):
        while s.todo:
            n, p = s.todo.pop()
            if n[0] == 'm' and n[2] not in s.slots[n[1]]:
                s.slots[n[1]].add(n[2])
            for d in list(s.succ[n]):
                s.add(d, p)
            for d, o in s.adds[n]:
                if d != ('dummy',):
                    s.add(d, (p[0], p[1] + o))
            for d in s.loads[n]:
                s.edge(('m',) + p, d)
            for v in s.stores[n]:
                s.edge(v, ('m',) + p)
            for f, i in s.icalls[n]:
                s.icall(f, i, p)
            for w, fn in getattr(s, 'vas', []):
                if w == n:
                    s.valist(p[0], fn)
            for a, b in s.copies[n]:
                s.copy(a, b)

    def of(s, f, v):
        if v[0] == 'r':
            return s.pts.get(('v', f.name, v[1]), ())
        p = s.const(v)
        return (p,) if p else ()


def offset(bt, idx):
    """constant part of an address computation: fields, not elements"""
    o = 0
    t = bt
    for k, (ty, v) in enumerate(idx):
        if k == 0:
            continue
        if t.k == 's':
            o += layout(t)[0][v[1]]
            t = t.fs[v[1]]
        elif t.k == 'a':
            t = t.e
    return o


# ---------------------------------------------------------------- control dependence
def control(prog, f, noret):
    """block -> blocks whose branch decides whether it runs (transitively closed), on the graph without calls that do not return"""
    cut = {}
    for b in f.order:
        cut[b] = any(flow.ends_block(prog, i, noret) for i in f.blocks[b].ins)
    sc = {b: ([] if cut[b] else list(dict.fromkeys(succs(f.blocks[b])))) for b in f.order}
    END = None
    seen, todo = set(), [f.order[0]]
    while todo:
        b = todo.pop()
        if b not in seen:
            seen.add(b)
            todo += sc[b]
    live = [b for b in f.order if b in seen]
    # a block that ends the run has no say in what follows
    pd = {b: set(live) | {END} for b in live}
    pd[END] = {END}
    ends = {b for b in live if cut[b]}
    good = {b for b in live if not sc[b] and not cut[b]}
    ch = True
    reach = set(good)
    while ch:
        ch = False
        for b in live:
            if b not in reach and any(x in reach for x in sc[b]):
                reach.add(b)
                ch = True
    s2 = {b: [x for x in sc[b] if x in reach] if b in reach else sc[b] for b in live}
    ch = True
    while ch:
        ch = False
        for b in reversed(live):
            n = None
            for x in (s2[b] or [END]):
                n = set(pd[x]) if n is None else n & pd[x]
            n = n | {b}
            if n != pd[b]:
                pd[b] = n
                ch = True
    dep = {b: set() for b in live}
    for b in live:
        if len(s2[b]) > 1:
            for x in s2[b]:
                for y in pd[x]:
                    if y is not None and (y == b or y not in pd[b]):
                        dep[y].add(b)
        if len(sc[b]) > 1 and b in reach:
            for x in sc[b]:
                if x not in reach:
                    # leads to the end of the run only
                    st, sn = [x], set()
                    while st:
                        y = st.pop()
                        if y in sn:
                            continue
                        sn.add(y)
                        dep[y].add(b)
                        st += sc[y]
    ch = True
    while ch:
        ch = False
        for b in live:
            n = set(dep[b])
            for x in dep[b]:
                n |= dep[x]
            if n != dep[b]:
                dep[b] = n
                ch = True
    return live, dep, sc


# ---------------------------------------------------------------- walk over the whole graph
class Walk:
    """forward reachability of program points, calls and returns matched on the way down"""

    def __init__(s, prog, noret, calls):
        s.prog, s.noret, s.calls = prog, noret, calls
        s.sites = collections.defaultdict(list)
        s.jumps = []
        for f in prog.funcs.values():
            for b in f.order:
                for k, i in enumerate(f.blocks[b].ins):
                    if i.op == 'call':
                        for t in calls(f, i):
                            s.sites[t].append((f, b, k))
                        if ext(i) in ('_setjmp', 'setjmp', '__sigsetjmp'):
                            s.jumps.append((f, b, k))

    def scan(s, f, b, k, hit, stop, summ, out):
        """runs forward within the function; returns (may reach the return, may jump to the recovery point)"""
        seen = set()
        todo = [(b, k)]
        ret = jump = False
        while todo:
            b, k = todo.pop()
            if (b, k) in seen:
                continue
            seen.add((b, k))
            go = True
            for i in f.blocks[b].ins[k:]:
                for c in hit(f, i):
                    out.add((f.name, id(i), c))
                    s.hits[(f.name, id(i))] = (f, i)
                if stop(f, i):
                    go = False
                    break
                if i.op == 'call':
                    if ext(i) in ('longjmp', '_longjmp', 'siglongjmp'):
                        jump = True
                        go = False
                        break
                    ts = s.calls(f, i)
                    if ts:
                        go = False
                        for x in ts:
                            h, r, j = summ.get(x, (set(), False, False))
                            for n, k, c in h:
                                if c is None:
                                    out.add((n, k, None))
                                elif c < len(i.a[1]):
                                    out |= {(n, k, d) for d in s.roots(f, i.a[1][c][1])}
                            jump |= j
                            go |= r
                        if not go:
                            break
                    elif flow.ends_block(s.prog, i, s.noret):
                        go = False
                        break
                elif i.op == 'ret':
                    ret = True
            if go:
                todo += [(x, 0) for x in succs(f.blocks[b])]
        return ret, jump

    def after(s, f, b, k, hit, stop):
        """instructions hit() accepts that may run after instruction k of block b, paths ending at instructions stop() accepts"""
        s.hits = {}
        summ = {}
        ch = True
        while ch:
            ch = False
            for g in s.prog.funcs.values():
                h = set()
                r, j = s.scan(g, g.order[0], 0, hit, stop, summ, h)
                if summ.get(g.name) != (h, r, j):
                    summ[g.name] = (h, r, j)
                    ch = True
        out = set()
        seen = set()
        jumped = False
        todo = [(f, b, k + 1)]
        while todo:
            f, b, k = todo.pop()
            if (f.name, b, k) in seen:
                continue
            seen.add((f.name, b, k))
            r, j = s.scan(f, b, k, hit, stop, summ, out)
            if r:
                todo += [(g, c, n + 1) for g, c, n in s.sites[f.name]]
            if j and not jumped:
                jumped = True
                todo += [(g, c, n + 1) for g, c, n in s.jumps]
        return [s.hits[x[:2]] for x in out]


def roots(f, v, other):
    """where a pointer comes from: parameter numbers, and None when other() accepts an origin of another kind"""
    d = flow.defs(f)
    par = {r: k for k, (t, r) in enumerate(f.params)}
    out, seen, todo = set(), set(), [v]
    while todo:
        v = todo.pop()
        if v[0] != 'r':
            if other(v):
                out.add(None)
            continue
        if v[1] in seen:
            continue
        seen.add(v[1])
        if v[1] in par:
            out.add(par[v[1]])
            continue
        i = d.get(v[1])
        if i is not None and i.op == 'getelementptr':
            todo.append(i.a[1])
        elif i is not None and i.op in ('phi', 'select', 'bitcast'):
            todo += flow.operands(i) if i.op != 'select' else [i.a[1], i.a[2]]
        elif other(v):
            out.add(None)
    return out


# ---------------------------------------------------------------- taint
class Taint:
    def __init__(s, prog, clone, keep=()):
        """clone: name of a function whose calls from functions without effect on files get a private copy of its closure and its file's objects"""
        s.prog = prog = shallow(prog)
        s.noret = flow.noreturn(prog)
        s.sinkless = s.quiet()
        s.small = inl.inline(prog, lambda f: f.name not in s.sinkless and f.name not in s.noret and f.cname not in keep
                             and (not clone or f.file != prog.fn(clone).file), 30)
        s.noret = flow.noreturn(prog)
        s.sinkless = s.quiet()
        s.cloned = set()
        if clone:
            s.split(clone)
            prog._taken = prog._cg = None
            prog.__dict__.pop('_taken')
            prog.__dict__.pop('_cg')
            prog.__dict__.pop('_noret', None)
            s.noret = flow.noreturn(prog)
            s.sinkless = s.quiet()
        s.tcache = {}
        s.pt = PointsTo(prog)
        s.cd = {n: control(prog, f, s.noret) for n, f in prog.funcs.items()}
        s.T = {}
        s.M = {}
        s.PC = {}
        s.R = {}
        s.why = {}
        s.walk = Walk(prog, s.noret, s.targets)
        s.deadcache = {}
        s.ignored = []
        s.changed = True

    def targets(s, f, i):
        if i.a[0][0] == 'g':
            return [i.a[0][1]] if i.a[0][1] in s.prog.funcs else []
        r = s.tcache.get(id(i))
        if r is None:
            r = [p[0][1] for p in s.pt.of(f, i.a[0]) if p[0][0] == 'f' and p[0][1] in s.prog.funcs]
            t = tagged(s.prog, f, i, s.noret)
            if t is not None:
                r = [x for x in r if x in t or x not in t.every]
            s.tcache[id(i)] = r
        return r

    # ----- functions that neither touch a file nor return through the recovery point
    def stream(s, f, v):
        """names of the streams a FILE pointer may be"""
        g = flow.globals_behind(f, v)
        return g

    def touches(s, f, i):
        """the call acts on something other than the listing"""
        n = ext(i)
        if n is None or n in s.prog.funcs:
            return False
        if n in FILES:
            return True
        if n in STREAM:
            v = i.a[1][STREAM[n]][1]
            return not s.stream(f, v) <= {'stdout', 'stderr'} or not s.stream(f, v)
        return False

    def quiet(s):
        bad = {f.name for f in s.prog.funcs.values() if any(i.op == 'call' and s.touches(f, i) for i in instrs(f))}
        bad = flow.reaching(s.prog, bad)
        # that print, and come back
        show = {f.name for f in s.prog.funcs.values() if f.name not in s.noret
                and any(i.op == 'call' and ext(i) in PRINTS | {'fprintf', 'fputs', 'fputc', 'fwrite'} for i in instrs(f))}
        ch = True
        while ch:
            ch = False
            for f, l in flow.callgraph(s.prog).items():
                if f not in show and f not in s.noret and any(t in show for _, t in l):
                    show.add(f)
                    ch = True
        return {f for f in s.prog.funcs if f not in bad and (f in show or f.endswith('#listing'))}

    def split(s, name):
        prog = s.prog
        f = prog.fn(name)
        clo, todo = set(), [f.name]
        while todo:
            n = todo.pop()
            if n in clo:
                continue
            clo.add(n)
            todo += [t for _, t in flow.callgraph(prog)[n] if prog.funcs[t].file == f.file]
        objs = set()
        used = collections.defaultdict(set)
        for g in prog.funcs.values():
            for i in instrs(g):
                for v in flow.operands(i):
                    b = flow.base_of(v)
                    if b in prog.globals:
                        used[b].add(g)
        for b, l in used.items():
            if all(g.file == f.file for g in l) and not prog.globals[b].const and any(g.name in clo for g in l):
                objs.add(b)
        sites = [(g, i) for g in prog.funcs.values() if g.name in s.sinkless and g.name not in clo
                 for i in instrs(g) if i.op == 'call' and i.a[0] == ('g', f.name)]
        if not sites:
            return
        ren = {n: n + '#listing' for n in clo | objs}
        for o in objs:
            g = copy.copy(prog.globals[o])
            g.name = ren[o]
            prog.globals[g.name] = g
        for n in clo:
            g = copy.copy(prog.funcs[n])
            g.name = ren[n]
            g.__dict__.pop('_defs', None)
            g.__dict__.pop('_vers', None)
            g.blocks = {}
            for b in g.order:
                o = prog.funcs[n].blocks[b]
                q = copy.copy(o)
                q.ins = [s.reins(i, ren) for i in o.ins]
                q.phis = [s.reins(i, ren) for i in o.phis]
                g.blocks[b] = q
            prog.funcs[g.name] = g
        for g, i in sites:
            ng = prog.funcs[g.name]
            for b in ng.order:
                for k, x in enumerate(ng.blocks[b].ins):
                    if x is i:
                        y = copy.copy(i)
                        y.a = (('g', ren[f.name]), i.a[1])
                        ng.blocks[b].ins[k] = y
        s.cloned = set(ren.values())
        s.nsplit = len(sites)

    def reins(s, i, ren):
        j = copy.copy(i)
        j.fn = ren[i.fn]
        j.a = rename(i.a, ren)
        return j

    # ----- marks
    def seed(s, cell, mask):
        s.mark(('m',) + cell, mask, None, 'listing setting')

    def mark(s, n, mask, cause, where):
        o = s.T.get(n, 0)
        if mask & ~o:
            s.T[n] = o | mask
            if n not in s.why:
                s.why[n] = (cause, where)
            s.changed = True

    def bit(s, f, v, w=64):
        if v[0] == 'r':
            return s.T.get(('v', f.name, v[1]), 0)
        return 0

    def cell(s, f, p):
        """marks of a cell as seen from the function"""
        m = s.T.get(('m',) + p, 0)
        if f.name in s.sinkless:
            m |= s.T.get(('q',) + p, 0)
        return m

    def form(s, f, v):
        """(root, kept bits, set bits): v = root & kept | set"""
        d = flow.defs(f)
        keep, st = ALL, 0
        while v[0] == 'r':
            i = d.get(v[1])
            if i is None:
                break
            if i.op == 'and' and i.a[1][0] == 'c':
                keep &= i.a[1][1] & ALL | st
                v = i.a[0]
            elif i.op == 'or' and i.a[1][0] == 'c':
                k = i.a[1][1] & ALL & keep & ~st
                st |= k
                v = i.a[0]
            else:
                break
        if v[0] == 'c':
            return None, 0, (v[1] & keep | st) & ALL
        i = d.get(v[1]) if v[0] == 'r' else None
        if i is not None and i.op == 'load' and fixed(i.a[0]):
            v = ('mem', i.a[0], s.version(f, i))
        return v, keep & ~st, st

    def version(s, f, i):
        """which content of its cell a load from a fixed address reads, or a store there replaces"""
        t = f.__dict__.get('_vers')
        if t is None:
            t = f._vers = {}
            live, dep, sc = s.cd[f.name]
            addrs = {}
            for j in instrs(f):
                a = j.a[0] if j.op == 'load' else j.a[2] if j.op == 'store' else None
                if a is not None and fixed(a):
                    addrs[repr(a)] = {p[0] for p in s.pt.of(f, a)}
            pred = collections.defaultdict(list)
            for b in live:
                for x in sc[b]:
                    pred[x].append(b)
            out = {}
            order = rpo(f, sc)
            for _ in range(20):
                stable = True
                for b in order:
                    m = {a: 'entry' for a in addrs} if b == f.order[0] else None
                    for p in pred[b]:
                        if p in out:
                            m = dict(out[p]) if m is None else {a: m[a] if m[a] == out[p][a] else ('join', b) for a in m}
                    for j in f.blocks[b].ins:
                        if j.op == 'load' and fixed(j.a[0]):
                            t[id(j)] = m[repr(j.a[0])]
                        elif j.op == 'store':
                            if fixed(j.a[2]):
                                t[id(j)] = m[repr(j.a[2])]
                            os = {p[0] for p in s.pt.of(f, j.a[2])}
                            for a in m:
                                if addrs[a] & os:
                                    m[a] = ('after', id(j))
                        elif j.op == 'call' and (s.targets(f, j) or ext(j) in WRITES or ext(j) is None or ext(j) in ('_setjmp', 'setjmp')):
                            for a in m:
                                m[a] = ('after', id(j))
                    if out.get(b) != m:
                        out[b] = m
                        stable = False
                if stable:
                    break
            else:
                t.clear()
        return t.get(id(i), ('at', id(i)))

    def differ(s, f, vs):
        """bits in which the values may differ"""
        fs = [s.form(f, v) for v in vs]
        r, k, o = fs[0]
        m = 0
        for r2, k2, o2 in fs[1:]:
            if r2 == r:
                m |= (k ^ k2) | (o ^ o2)
            elif r is None or r2 is None:
                a, b = (k2, o ^ o2) if r is None else (k, o ^ o2)
                m |= a | b
            else:
                m |= k | k2 | o ^ o2
        return m

    # ----- one pass over a function
    def function(s, f):
        live, dep, sc = s.cd[f.name]
        d = flow.defs(f)
        pc = s.PC.get(f.name)
        tb = {}
        for b in live:
            t = f.blocks[b].ins[-1]
            v = t.a[0] if t.op == 'br' and len(t.a) == 3 else t.a[1] if t.op == 'switch' else None
            if v is not None and s.bit(f, v):
                tb[b] = ('v', f.name, v[1])
        under = {}
        for b in live:
            for x in dep[b]:
                if x in tb:
                    under[b] = tb[x]
        s.under = under
        for b in live:
            blk = f.blocks[b]
            for i in blk.phis:
                n = ('v', f.name, i.dst)
                for p, v in i.a:
                    s.flow(n, s.bit(f, v), v, f, i)
                for p, v in i.a:
                    c = under.get(p) if p in under else tb.get(p)
                    if c:
                        s.mark(n, s.differ(f, [v for _, v in i.a]), c, i.where())
            for i in blk.ins:
                s.instr(f, i, under.get(b), pc)
                if f.blocks[b].ins and flow.ends_block(s.prog, i, s.noret):
                    break
        # values that leave a region whose extent is decided by a marked branch
        for b in under:
            for i in f.blocks[b].ins:
                if i.dst and i.op in ('load', 'call') and ('v', f.name, i.dst) not in s.T and s.leaves(f, i, b, dep):
                    s.mark(('v', f.name, i.dst), ALL, under[b], i.where())

    def leaves(s, f, i, b, dep):
        us = f.__dict__.get('_uses')
        if us is None:
            us = collections.defaultdict(set)
            for j in instrs(f):
                if j.op == 'phi':
                    for p, v in j.a:
                        if v[0] == 'r':
                            us[v[1]].add(p)
                else:
                    for v in flow.operands(j):
                        if v[0] == 'r':
                            us[v[1]].add(j.bb)
            f._uses = us
        return any(x in dep and not dep[b] <= dep[x] for x in us[i.dst])

    def flow(s, n, m, v, f, i):
        if m:
            s.mark(n, m, ('v', f.name, v[1]), i.where())

    def instr(s, f, i, uc, pc):
        op = i.op
        n = ('v', f.name, i.dst) if i.dst else None
        B = lambda v: s.bit(f, v)
        if op in ('and', 'or', 'xor'):
            a, b = i.a
            ma, mb = B(a), B(b)
            if b[0] == 'c':
                ma &= (b[1] if op == 'and' else ~b[1] if op == 'or' else ALL) & ALL
            s.flow(n, ma, a, f, i)
            s.flow(n, mb, b, f, i)
        elif op in ('shl', 'lshr', 'ashr') and i.a[1][0] == 'c':
            m, k = B(i.a[0]), i.a[1][1]
            r = m << k if op == 'shl' else m >> k
            if op == 'ashr' and m >> (i.ty.w - 1) & 1:
                r |= ALL & ~((1 << max(0, i.ty.w - 1 - k)) - 1)
            s.flow(n, r & ALL, i.a[0], f, i)
        elif op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            for v in i.a:
                m = B(v)
                if m:
                    if op in ('add', 'sub', 'mul', 'shl'):
                        m = ALL & ~((m & -m) - 1)
                    else:
                        m = ALL
                    s.flow(n, m, v, f, i)
        elif op == 'icmp':
            for v in i.a[2:4]:
                s.flow(n, ALL if B(v) else 0, v, f, i)
        elif op in ('trunc', 'zext', 'bitcast', 'ptrtoint', 'inttoptr'):
            m = B(i.a[1])
            if op in ('trunc', 'zext') and i.a[0].k == 'i':
                m &= (1 << min(i.a[0].w, i.ty.w)) - 1
            s.flow(n, m, i.a[1], f, i)
        elif op == 'sext':
            m = B(i.a[1])
            w = i.a[0].w
            m &= (1 << w) - 1
            if m >> (w - 1):
                m |= ALL & ~((1 << w) - 1)
            s.flow(n, m, i.a[1], f, i)
        elif op == 'select':
            if B(i.a[0]):
                s.mark(n, s.differ(f, [i.a[1], i.a[2]]), ('v', f.name, i.a[0][1]), i.where())
            for v in i.a[1:]:
                s.flow(n, B(v), v, f, i)
        elif op == 'getelementptr':
            for v in [i.a[1]] + [x for _, x in i.a[2]]:
                s.flow(n, ALL if B(v) else 0, v, f, i)
        elif op == 'load':
            v = i.a[0]
            if B(v):
                s.flow(n, ALL, v, f, i)
            for p in s.pt.of(f, v):
                m = s.cell(f, p)
                if m:
                    s.mark(n, m, ('m',) + p, i.where())
        elif op == 'store':
            ty, v, a = i.a
            for p in s.pt.of(f, a):
                s.put(f, i, p, B(v), ('v', f.name, v[1]) if v[0] == 'r' else None)
                if B(a):
                    s.put(f, i, p, ALL, ('v', f.name, a[1]))
                c = uc or pc
                if c:
                    s.put(f, i, p, s.written(f, i, v, a), c)
        elif op == 'ret':
            if i.a:
                r = ('ret', f.name)
                s.flow(r, B(i.a[0]), i.a[0], f, i)
                if uc:
                    s.mark(r, ALL, uc, i.where())
        elif op == 'call':
            s.call(f, i, uc, pc)

    def written(s, f, i, v, a):
        """bits a store changes: setting or clearing bits of the value just read leaves the others"""
        r, k, o = s.form(f, v)
        if r is not None and r[0] == 'mem' and r[1] == a and r[2] == s.version(f, i):
            return o | ~k & ALL
        return ALL

    def put(s, f, i, p, m, cause):
        if not m:
            return
        n = ('m',) + p
        if m & ~s.T.get(n, 0) and p[0][0] in 'ga' and s.dead(f, i, p):
            s.mark(('q',) + p, m, cause, i.where())
            return
        s.mark(n, m, cause, i.where())

    def dead(s, f, i, p):
        """nothing but the listing reads the array before it is filled anew"""
        k = (id(i), p[0])
        if k in s.deadcache:
            return s.deadcache[k]
        r = False
        g = s.prog.globals.get(p[0][1]) if p[0][0] == 'g' else None
        if g is not None and g.ty.k == 'a' and i.op == 'call':
            ptr = lambda f, v: any(q[0] == p[0] for q in s.pt.of(f, v))
            only = lambda f, v: v == ('g', p[0][1]) or v[0] == 'gep' and flow.base_of(v) == p[0][1]

            org = lambda f, v: roots(f, v, lambda x: ptr(f, x))
            s.walk.roots = org

            def hit(f, j):
                if f.name in s.sinkless:
                    return ()
                if j.op == 'load':
                    return org(f, j.a[0])
                if j.op == 'call':
                    n = ext(j)
                    if n is not None and n not in s.prog.funcs:
                        w = WRITES.get(n)
                        out = set()
                        for k, (t, v) in enumerate(j.a[1]):
                            if t.k == 'p' and not (k == w and n not in ('strcat', 'strncat')):
                                out |= org(f, v)
                        return out
                return ()

            def stop(f, j):
                # a call of the reader that fills the array
                if j.op != 'call' or ext(j) is None:
                    return False
                t = s.prog.funcs.get(j.a[0][1])
                return t is not None and bool(j.a[1]) and only(f, j.a[1][0][1]) and s.fills(t)
            b = f.blocks[i.bb]
            l = s.walk.after(f, i.bb, b.ins.index(i), hit, stop)
            r = not l
            s.ignored.append((s.prog.funcs[f.name].cname, i.where(), g.cname, r, [(h.cname, j.where()) for h, j in l][:6]))
        s.deadcache[k] = r
        return r

    def fills(s, t):
        """the function reads a file into its first argument"""
        return any(i.op == 'call' and ext(i) in ('fgets', 'fread', 'read', 'getline', 'fgetc', 'getc') for i in instrs(t))

    def call(s, f, i, uc, pc):
        B = lambda v: s.bit(f, v)
        n = ('v', f.name, i.dst) if i.dst else None
        ts = s.targets(f, i)
        c = uc or pc
        if i.a[0][0] == 'r' and B(i.a[0]):
            c = ('v', f.name, i.a[0][1])
        if ts:
            for t in ts:
                g = s.prog.funcs[t]
                for k, (ty, v) in enumerate(i.a[1]):
                    m = B(v)
                    if m:
                        if k < len(g.params):
                            s.mark(('v', t, g.params[k][1]), m, ('v', f.name, v[1]), i.where())
                        else:
                            s.mark(('m', ('a', t, '*va'), 0), m, ('v', f.name, v[1]), i.where())
                if c and t not in s.PC and not s.terminal(f, i):
                    s.PC[t] = ('pc', t)
                    s.why[('pc', t)] = (c, i.where())
                    s.changed = True
                if n:
                    m = s.T.get(('ret', t), 0)
                    if m:
                        s.mark(n, m, ('ret', t), i.where())
            return
        e = ext(i)
        if e is None or e.startswith('llvm.dbg') or e.startswith('llvm.lifetime'):
            return
        if e in ('_setjmp', 'setjmp'):
            return
        # data: everything the arguments are or point to
        got = []
        w = WRITES.get(e)
        for k, (ty, v) in enumerate(i.a[1]):
            if B(v):
                got.append(('v', f.name, v[1]))
            if k == w and e not in ('strcat', 'strncat'):
                continue
            for p in s.pt.of(f, v):
                if p[0][0] == 'f':
                    continue
                for o in {p[1]} | (s.pt.slots[p[0]] if e.startswith('llvm.mem') or e in ('memcpy', 'memmove') else set()):
                    if s.cell(f, (p[0], o)):
                        got.append(('m', p[0], o))
        if n and e not in ('malloc', 'calloc', 'realloc', 'strdup'):
            if e in SAME and e not in ('strchr', 'strrchr', 'strstr'):
                v = i.a[1][SAME[e]][1]
                s.flow(n, B(v), v, f, i)
            elif got:
                s.mark(n, ALL, got[0], i.where())
        if w is not None:
            for p in s.pt.of(f, i.a[1][w][1]):
                cells = {p[1]} | (s.pt.slots[p[0]] if e.startswith('llvm.mem') or e in ('memcpy', 'memmove', 'memset') else set())
                for o in cells:
                    if got:
                        s.put(f, i, (p[0], o), ALL, got[0])
                    if c:
                        s.put(f, i, (p[0], o), ALL, c)

    def terminal(s, f, i):
        """nothing that matters can happen during or after this call"""
        k = ('t', id(i))
        if k not in s.deadcache:
            b = f.blocks[i.bb]
            hit = lambda g, j: {None} if j.op == 'call' and s.touches(g, j) else ()
            s.deadcache[k] = not s.walk.after(f, i.bb, b.ins.index(i) - 1, hit, lambda g, j: False)
        return s.deadcache[k]

    def run(s):
        while s.changed:
            s.changed = False
            for f in s.prog.funcs.values():
                s.function(f)

    def sinks(s, f):
        """(instruction, cause or None) of the calls in the function that act on files or return through the recovery point"""
        live, dep, sc = s.cd[f.name]
        s.function(f)
        under = s.under
        for b in live:
            for i in f.blocks[b].ins:
                if i.op == 'call' and (s.touches(f, i) or s.stops(f, i)):
                    c = under.get(b) or s.PC.get(f.name)
                    if not c:
                        for t, v in i.a[1]:
                            if s.bit(f, v):
                                c = ('v', f.name, v[1])
                            for p in s.pt.of(f, v):
                                if p[0][0] in 'gah' and s.T.get(('m',) + p) and t.k == 'p' and not s.isfile(f, v):
                                    c = ('m',) + p
                    yield i, c

    def stops(s, f, i):
        """ends the run, or the line, and the function neither prints nor always does so"""
        return flow.ends_block(s.prog, i, s.noret) and f.name not in s.noret and f.name not in s.sinkless

    def isfile(s, f, v):
        return False

    def trail(s, n, k=14):
        out = []
        seen = set()
        while n is not None and n not in seen and len(out) < k:
            seen.add(n)
            w = s.why.get(n)
            out.append('%s%s' % (s.name(n), ' (%s)' % w[1] if w and w[1] else ''))
            n = w[0] if w else None
        return ' <- '.join(out)

    def name(s, n):
        if n[0] in 'mq':
            o = n[1]
            if o[0] == 'g':
                g = s.prog.globals.get(o[1])
                return (g.cname if g else o[1]) + ('+%d' % n[2] if n[2] else '')
            return 'memory of %s+%d' % (s.prog.funcs[o[1]].cname if o[1] in s.prog.funcs else o[1], n[2])
        if n[0] == 'v':
            return '%s %s' % (s.prog.funcs[n[1]].cname, n[2])
        if n[0] == 'ret':
            return 'result of ' + s.prog.funcs[n[1]].cname
        if n[0] == 'pc':
            return 'call of ' + s.prog.funcs[n[1]].cname
        return str(n)


class Names(set):
    pass


def tagged(prog, f, i, noret):
    """functions a call through a field of a table entry may enter, given the tests of another field of that entry on the way"""
    d = flow.defs(f)
    l = d.get(i.a[0][1]) if i.a[0][0] == 'r' else None
    if l is None or l.op != 'load':
        return None
    g = d.get(l.a[0][1]) if l.a[0][0] == 'r' else None
    if g is None or g.op != 'getelementptr' or g.a[0].k != 's' or g.a[1][0] != 'r':
        return None
    st, obj = g.a[0], g.a[1]
    fo = offset(g.a[0], g.a[2])
    # entries of the tables: (value by field offset)
    ents = []

    def entry(t, v):
        if v[0] != 'agg':
            return
        if t.k == 's' and shape(t) == shape(st):
            ents.append({layout(t)[0][k]: x for k, (_, x) in enumerate(v[1])})
            return
        for et, x in v[1]:
            entry(et, x)
    for gl in prog.globals.values():
        if gl.init is not None:
            entry(gl.init[0], gl.init[1])
    fn = lambda x: x.get(fo, ('zero',))[1] if x.get(fo, ('zero',))[0] == 'g' else None
    ents = [x for x in ents if fn(x) in prog.funcs]
    if not ents:
        return None
    live, dep, sc = control(prog, f, noret)
    # tests that hold at the call: edges every path to it takes
    pred = {b: [] for b in live}
    for b in live:
        for x in sc[b]:
            pred[x].append(b)
    out = Names()
    out.every = {fn(x) for x in ents}
    tests = []
    for b in live:
        t = f.blocks[b].ins[-1]
        if t.op != 'br' or len(t.a) != 3 or t.a[0][0] != 'r' or t.a[1] == t.a[2]:
            continue
        c = d.get(t.a[0][1])
        if c is None or c.op != 'icmp' or c.a[0] not in ('eq', 'ne') or c.a[3] != ('c', 0):
            continue
        a = d.get(c.a[2][1]) if c.a[2][0] == 'r' else None
        if a is None or a.op != 'and' or a.a[1][0] != 'c':
            continue
        x = a.a[0]
        while x[0] == 'r' and d.get(x[1]) is not None and d[x[1]].op in ('zext', 'sext'):
            x = d[x[1]].a[1]
        y = d.get(x[1]) if x[0] == 'r' else None
        if y is None or y.op != 'load' or y.a[0][0] != 'r':
            continue
        h = d.get(y.a[0][1])
        if h is None or h.op != 'getelementptr' or h.a[1] != obj:
            continue
        for edge, truth in ((t.a[1], c.a[0] == 'ne'), (t.a[2], c.a[0] == 'eq')):
            other = t.a[2] if edge == t.a[1] else t.a[1]
            # no way to the call without this edge
            seen, todo = set(), [f.order[0]]
            while todo:
                z = todo.pop()
                if z in seen:
                    continue
                seen.add(z)
                todo += [n for n in sc[z] if not (z == b and n == edge)]
            if i.bb not in seen:
                tests.append((offset(h.a[0], h.a[2]), a.a[1][1], truth))
    if not tests:
        return None
    for x in ents:
        ok = True
        for o, k, truth in tests:
            v = x.get(o, ('zero',))
            n = v[1] if v[0] == 'c' else 0
            if bool(n & k) != truth:
                ok = False
        if ok:
            out.add(fn(x))
    return out


def shape(t):
    return [(x.k, size_of(x)) for x in t.fs]


def shallow(prog):
    p = copy.copy(prog)
    for k in ('_taken', '_cg', '_noret'):
        p.__dict__.pop(k, None)
    p.funcs = {}
    p.globals = dict(prog.globals)
    for n, f in prog.funcs.items():
        g = copy.copy(f)
        g.order = list(f.order)
        g.__dict__.pop('_defs', None)
        g.__dict__.pop('_uses', None)
        g.blocks = {}
        for b, o in f.blocks.items():
            q = copy.copy(o)
            q.ins = list(o.ins)
            g.blocks[b] = q
        p.funcs[n] = g
    return p


def rename(x, ren):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'g' and x[1] in ren:
            return ('g', ren[x[1]])
        if len(x) and isinstance(x, tuple) and hasattr(x, '_fields'):
            return x
        return tuple(rename(y, ren) for y in x)
    if isinstance(x, list):
        return [rename(y, ren) for y in x]
    return x
