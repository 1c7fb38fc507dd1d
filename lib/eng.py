"""Path-sensitive abstract interpreter over the IR (domain: dom.py).

Calls are analysed in context; a branch the abstract state does not decide is
split, each side keeping the constraint; loop heads can be merged on equal
abstract states.  No concrete run, no solver."""
import ir
from ir import AnalysisError, size_of, layout
import dom
from dom import BV, Ptr, Fn, Tok, Sym, Op, Facts, mask, mk


class Dead(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'bb', 'idx', 'prev', 'regs', 'dst', 'depth', 'ids', 'callsite', 'forks')

    def copy(s):
        f = Frame()
        f.fn, f.bb, f.idx, f.prev, f.dst, f.depth, f.ids, f.callsite = s.fn, s.bb, s.idx, s.prev, s.dst, s.depth, s.ids, s.callsite
        f.regs = dict(s.regs)
        f.forks = dict(s.forks)
        return f


class State:
    __slots__ = ('frames', 'mem', 'owned', 'facts', 'trace', 'end', 'cnt', 'jmps', 'data', 'steps', 'path')

    def __init__(s):
        s.frames, s.mem, s.owned = [], {}, set()
        s.facts = Facts()
        s.trace = None
        s.end = None
        s.cnt = 0
        s.jmps = {}
        s.data = {}
        s.path = ()

    def copy(s):
        n = State()
        n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem)
        n.owned = set()
        s.owned = set()
        n.facts, n.trace, n.end, n.cnt = s.facts, s.trace, s.end, s.cnt
        n.jmps = dict(s.jmps)
        n.data = dict(s.data)
        n.path = s.path
        return n

    def ev(s, *e):
        s.trace = (s.trace, e)

    def events(s, *kinds):
        out = []
        t = s.trace
        while t:
            if not kinds or t[1][0] in kinds:
                out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Obj:
    """abstract memory block: cells offset -> (size, value)"""
    __slots__ = ('cells', 'size', 'lazy', 'ro', 'gen')

    def __init__(s, size=None, lazy='sym', ro=False):
        s.cells, s.size, s.lazy, s.ro, s.gen = {}, size, lazy, ro, 0

    def copy(s):
        o = Obj(s.size, s.lazy, s.ro)
        o.cells = dict(s.cells)
        o.gen = s.gen
        return o


PURE_READ = {'strcmp', 'strncmp', 'strlen', 'filter', 'error', 'warning', 'fatal', 'fileerror', 'printf', 'fprintf', 'puts',
             'fputs', 'syntax', 'searchlabel', 'strchr', 'parse', 'findlabel'}


def const_globals(prog):
    """globals never written and never escaping to a writer: read-only tables"""
    bad = set()

    def roots(v, f, defs, seen):
        if v[0] == 'g':
            yield v[1]
        elif v[0] == 'gep':
            yield from roots(v[2], f, defs, seen)
        elif v[0] in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'sext', 'zext'):
            yield from roots(v[2], f, defs, seen)
        elif v[0] == 'r' and v[1] in defs and v[1] not in seen:
            seen.add(v[1])
            i = defs[v[1]]
            if i.op == 'getelementptr':
                yield from roots(i.a[1], f, defs, seen)
            elif i.op == 'phi':
                for _, x in i.a:
                    yield from roots(x, f, defs, seen)
            elif i.op == 'select':
                yield from roots(i.a[1], f, defs, seen)
                yield from roots(i.a[2], f, defs, seen)
            elif i.op in ('bitcast', 'ptrtoint', 'inttoptr'):
                yield from roots(i.a[1], f, defs, seen)
    # formal parameters that only flow to reads, by fixpoint over the call graph
    for f in prog.funcs.values():
        defs = {i.dst: i for i in ir.instrs(f) if i.dst}
        for i in ir.instrs(f):
            if i.op == 'store':
                for g in roots(i.a[2], f, defs, set()):
                    bad.add(g)
                if i.a[0].k == 'p':
                    for g in roots(i.a[1], f, defs, set()):
                        bad.add(g)
            elif i.op == 'call':
                cal = i.a[0][1] if i.a[0][0] == 'g' else None
                for n, (t, v) in enumerate(i.a[1]):
                    if t.k != 'p':
                        continue
                    if cal in PURE_READ and not (cal == 'filter' and n >= 2):
                        continue
                    if cal and cal.startswith('llvm.mem') and n == 1 or cal in ('memcpy', 'strcpy', 'strncpy', 'memmove') and n == 1:
                        continue
                    if cal in prog.funcs and n < len(prog.funcs[cal].params) and \
                            readonly_param(prog, prog.funcs[cal], n, set()):
                        continue
                    for g in roots(v, f, defs, set()):
                        bad.add(g)
            elif i.op == 'ret' and i.a and i.ty.k == 'p':
                pass
    return {g.name for g in prog.globals.values() if g.defined and (g.const or g.name not in bad)}


def readonly_param(prog, f, n, stack):
    """parameter n of f is only read through"""
    key = (f.name, n)
    if key in stack:
        return True
    stack = stack | {key}
    der = {f.params[n][1]}
    ch = True
    ins = list(ir.instrs(f))
    while ch:
        ch = False
        for i in ins:
            if i.dst in der or not i.dst:
                continue
            ops = []
            if i.op == 'getelementptr':
                ops = [i.a[1]]
            elif i.op == 'phi':
                ops = [x for _, x in i.a]
            elif i.op == 'select':
                ops = list(i.a[1:])
            elif i.op in ('bitcast', 'ptrtoint', 'inttoptr'):
                ops = [i.a[1]]
            if any(o[0] == 'r' and o[1] in der for o in ops):
                der.add(i.dst)
                ch = True
    for i in ins:
        if i.op == 'store':
            if any(o[0] == 'r' and o[1] in der for o in (i.a[1], i.a[2])):
                return False
        elif i.op == 'call':
            cal = i.a[0][1] if i.a[0][0] == 'g' else None
            for k, (t, v) in enumerate(i.a[1]):
                if v[0] == 'r' and v[1] in der and t.k == 'p':
                    if cal in PURE_READ and not (cal == 'filter' and k >= 2):
                        continue
                    if cal in prog.funcs and k < len(prog.funcs[cal].params) and readonly_param(prog, prog.funcs[cal], k, stack):
                        continue
                    return False
        elif i.op == 'ret' and i.a and i.a[0][0] == 'r' and i.a[0][1] in der:
            return False
    return True


class Engine:
    def __init__(s, prog, stubs=None, max_states=60000, max_steps=3000000, max_forks=600):
        s.p = prog
        s.stubs = {}
        s.stubs.update(BUILTINS)
        s.stubs.update(stubs or {})
        if not hasattr(prog, '_constg'):
            prog._constg = const_globals(prog)
            prog._ginit = {}
        s.constg = prog._constg
        s.max_states, s.max_steps, s.max_forks = max_states, max_steps, max_forks
        s.steps = 0
        s.nstates = 0
        s.merge = None
        s.seen = set()
        s.fnseen = set()
        s.bbseen = set()
        s.live = None

    # ---------------------------------------------------------------- memory
    def ginit(s, name):
        """initial cells of a defined global"""
        o = s.p._ginit.get(name)
        if o is None:
            g = s.p.globals[name]
            o = Obj(size_of(g.ty), 'zero', name in s.constg)
            s.fill(o, 0, g.init[0], g.init[1])
            s.p._ginit[name] = o
        return o

    def fill(s, o, off, ty, v):
        if v[0] == 'agg':
            if ty.k == 'a':
                es = size_of(ty.e)
                for i, (t, x) in enumerate(v[1]):
                    s.fill(o, off + i * es, t, x)
            else:
                offs, _ = layout(ty)
                for i, (t, x) in enumerate(v[1]):
                    s.fill(o, off + offs[i], t, x)
        elif v[0] == 'str':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
        elif v[0] in ('zero', 'undef'):
            if ty.k in 'ip':
                o.cells[off] = (size_of(ty), 0)
        else:
            o.cells[off] = (size_of(ty), s.const(v, ty))

    def const(s, v, ty):
        k = v[0]
        if k == 'c':
            return v[1] & mask(ty.w)
        if k == 'g':
            if v[1] in s.p.funcs or v[1] in s.p.decls and v[1] not in s.p.globals:
                return Fn(v[1])
            return Ptr(v[1], 0)
        if k == 'gep':
            b = s.const(v[2], ir.PTRT)
            off = s.gepoff(v[1], [(t, s.const(x, t)) for t, x in v[3]])
            if isinstance(b, Ptr):
                return Ptr(b.obj, (b.off + off))
            return (b + off) & mask(64)
        if k in ('undef',):
            return Sym('undef', ty.w)
        if k in ('inttoptr', 'ptrtoint', 'bitcast'):
            return s.const(v[2], v[1])
        if k == 'zero':
            return 0
        raise AnalysisError('constant %r' % (v,))

    def gepoff(s, bt, idx):
        off = 0
        t = bt
        for n, (ity, v) in enumerate(idx):
            if n == 0:
                sz = size_of(t)
            elif t.k == 's':
                off = dom.add(64, off, layout(t)[0][v])
                t = t.fs[v]
                continue
            elif t.k == 'a':
                t = t.e
                sz = size_of(t)
            else:
                raise AnalysisError('gep into ' + t.k)
            if isinstance(v, int):
                off = dom.add(64, off, (dom.sgn(v, ity.w) * sz) & mask(64))
            else:
                v = dom.sext(v, ity.w, 64) if ity.w < 64 else v
                off = dom.add(64, off, dom.mul(64, sz, v))
        if isinstance(off, int):
            off = dom.sgn(off, 64)
        return off

    def obj(s, st, name):
        o = st.mem.get(name)
        if o is None:
            g = s.p.globals.get(name) if isinstance(name, str) else None
            if g is not None and g.defined:
                if name in s.constg:
                    o = s.ginit(name)
                else:
                    o = Obj(size_of(g.ty), 'sym')
            elif g is not None:
                o = Obj(None, 'sym')
            else:
                o = Obj(None, 'sym')
            st.mem[name] = o
        return o

    def wobj(s, st, name):
        o = s.obj(st, name)
        if name not in st.owned:
            o = o.copy()
            st.mem[name] = o
            st.owned.add(name)
        return o

    def symname(s, obj, off, size, gen):
        n = obj if isinstance(obj, str) else '.'.join(str(x) for x in obj)
        return '%s%s%s' % (n, '+%d' % off if off else '', '#%d' % gen if gen else '')

    def lazyval(s, o, objname, off, ty):
        if o.lazy == 'zero':
            return 0
        nm = s.symname(objname, off, size_of(ty), o.gen)
        if ty.k == 'p':
            return Ptr('*' + nm, 0)
        return Sym(nm + ('' if ty.w == 64 else ':%d' % ty.w), ty.w)

    def load(s, st, ptr, ty, ins=None):
        if not isinstance(ptr, Ptr):
            st.ev('badptr', 'load', repr(ptr), ins.where() if ins else '')
            raise Dead()
        if not isinstance(ptr.off, int):
            return s.symload(st, ptr, ty, ins)
        o = s.obj(st, ptr.obj)
        sz = size_of(ty)
        if o.size is not None and (ptr.off < 0 or ptr.off + sz > o.size):
            st.ev('oob', 'read', ptr.obj, ptr.off, ins.where() if ins else '')
            return Sym('oob', ty.w) if ty.k == 'i' else Ptr('*oob', 0)
        c = o.cells.get(ptr.off)
        if c is not None and c[0] == sz:
            v = c[1]
            if ty.k == 'i' and ty.w != sz * 8 and isinstance(v, (int, BV)):
                v = dom.trunc(v, ty.w)
            return v
        # cells overlapping?
        parts = []
        hit = False
        for i in range(sz):
            b = None
            for back in range(8):
                c = o.cells.get(ptr.off + i - back)
                if c is not None:
                    if c[0] > back:
                        b = (c, back)
                    break
            if b:
                hit = True
            parts.append(b)
        if not hit:
            v = s.lazyval(o, ptr.obj, ptr.off, ty)
            if o.lazy != 'zero':
                o = s.wobj(st, ptr.obj)
                o.cells[ptr.off] = (sz, v)
            return v
        vals = []
        for i, b in enumerate(parts):
            if b is None:
                v = s.lazyval(o, ptr.obj, ptr.off + i, ir.INT(8))
                if o.lazy != 'zero':
                    o = s.wobj(st, ptr.obj)
                    o.cells[ptr.off + i] = (1, v)
                vals.append((v, 8))
            else:
                (csz, cv), back = b
                if not isinstance(cv, (int, BV)):
                    if csz == sz and back == 0:
                        return cv
                    return Sym('ptrbyte', ty.w)
                if isinstance(cv, BV) and cv.w != csz * 8:
                    cv = dom.zext(cv, cv.w, csz * 8)
                vals.append((dom.byte(cv, back), 8))
        v = dom.concat(vals)
        if ty.k == 'i' and ty.w != sz * 8:
            v = dom.trunc(v, ty.w)
        if ty.k == 'p' and isinstance(v, BV):
            return Ptr('*' + repr(v), 0)
        return v

    def offvals(s, st, off, limit=300):
        """possible constant offsets of a symbolic offset: (index term, [(t, off)])"""
        off = st.facts.subst(off)
        if isinstance(off, int):
            return None, [(0, dom.sgn(off, 64))]
        c, ts = dom.lin_of(off, 64)
        if len(ts) != 1:
            return None, None
        bits, k = ts[0]
        idx = mk(bits)
        idxw = idx.w
        rs = st.facts.ranges(idx, idxw)
        n = sum(h - l + 1 for l, h in rs)
        if n > limit:
            return None, None
        return idx, [(t, dom.sgn((c + k * t) & mask(64), 64)) for l, h in rs for t in range(l, h + 1)]

    def symload(s, st, ptr, ty, ins):
        idx, vals = s.offvals(st, ptr.off)
        o = s.obj(st, ptr.obj)
        if vals is None:
            st.ev('symread', ptr.obj, ptr.off, ins.where() if ins else '')
            st.cnt += 1
            nm = 'rd.%s.%s.%d' % (ptr.obj, ins.where() if ins else '', st.cnt)
            return Sym(nm, ty.w) if ty.k == 'i' else Ptr('*' + nm, 0)
        if len(vals) == 1:
            return s.load(st, Ptr(ptr.obj, vals[0][1]), ty, ins)
        got = [(t, s.load(st, Ptr(ptr.obj, f), ty, ins)) for t, f in vals]
        if all(isinstance(v, int) for _, v in got):
            if len({v for _, v in got}) == 1:
                return got[0][1]
            hi = max(t for t, _ in got)
            tab = [0] * (hi + 1)
            for t, v in got:
                tab[t] = v
            return Op('tbl', ty.w, (tuple(tab), idx))
        raise Split(idx, [t for t, _ in vals])

    def store(s, st, ptr, ty, v, ins=None):
        if not isinstance(ptr, Ptr):
            st.ev('badptr', 'store', repr(ptr), ins.where() if ins else '')
            raise Dead()
        sz = size_of(ty)
        if not isinstance(ptr.off, int):
            idx, vals = s.offvals(st, ptr.off)
            if vals and len(vals) == 1:
                ptr = Ptr(ptr.obj, vals[0][1])
            elif vals and len(vals) <= 40:
                raise Split(idx, [t for t, _ in vals])
            else:
                st.ev('symwrite', ptr.obj, ptr.off, sz, v, ins.where() if ins else '')
                o = s.wobj(st, ptr.obj)
                o.cells = {}
                o.lazy = 'sym'
                o.gen += 1
                return
        o = s.obj(st, ptr.obj)
        if o.size is not None and (ptr.off < 0 or ptr.off + sz > o.size):
            st.ev('oob', 'write', ptr.obj, ptr.off, ins.where() if ins else '')
            if s.onoob:
                s.onoob(s, st, ptr.obj, ptr.off, ins)
            return
        o = s.wobj(st, ptr.obj)
        c = o.cells
        old = c.get(ptr.off)
        if old is None or old[0] != sz:
            # split overlapping cells into bytes
            for q in range(ptr.off - 7, ptr.off + sz):
                x = c.get(q)
                if x is None or q + x[0] <= ptr.off:
                    continue
                if q == ptr.off and x[0] <= sz or q > ptr.off and q + x[0] <= ptr.off + sz:
                    del c[q]
                    continue
                del c[q]
                if isinstance(x[1], (int, BV)):
                    cv = x[1]
                    if isinstance(cv, BV) and cv.w != x[0] * 8:
                        cv = dom.zext(cv, cv.w, x[0] * 8)
                    for i in range(x[0]):
                        c[q + i] = (1, dom.byte(cv, i))
            for i in range(sz):
                c.pop(ptr.off + i, None)
        c[ptr.off] = (sz, v)
        if s.onstore:
            s.onstore(s, st, ptr, ty, v, ins)

    onstore = None
    onoob = None
    oncopy = None

    # -- convenience for checks
    def setg(s, st, cname, v, ty=None, file=None):
        g = s.p.gl(cname, file)
        s.store(st, Ptr(g.name, 0), ty or g.ty, v)

    def getg(s, st, cname, file=None):
        g = s.p.gl(cname, file)
        return s.load(st, Ptr(g.name, 0), g.ty)

    def newobj(s, st, name, size=None, lazy='sym'):
        st.mem[name] = Obj(size, lazy)
        st.owned.add(name)
        return Ptr(name, 0)

    def putstr(s, st, name, bs, cap=None):
        if isinstance(bs, str):
            bs = bs.encode('latin1')
        o = Obj(cap or len(bs) + 1, 'zero')
        for i, b in enumerate(bs + b'\0'):
            o.cells[i] = (1, b)
        st.mem[name] = o
        st.owned.add(name)
        return Ptr(name, 0)

    def getstr(s, st, p):
        """bytes of a constant C string, or None"""
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            return None
        o = s.obj(st, p.obj)
        out = bytearray()
        i = p.off
        while True:
            c = o.cells.get(i)
            if c is None:
                if o.lazy == 'zero' and (o.size is None or i < o.size):
                    return bytes(out)
                return None
            if not isinstance(c[1], int) or c[0] != 1:
                v = s.load(st, Ptr(p.obj, i), ir.INT(8))
                if not isinstance(v, int):
                    return None
                b = v
            else:
                b = c[1]
            if b == 0:
                return bytes(out)
            out.append(b)
            i += 1
            if len(out) > 100000:
                return None

    # ---------------------------------------------------------------- running
    def val(s, st, fr, v, ty):
        k = v[0]
        if k == 'r':
            return fr.regs[v[1]]
        if k == 'c':
            return v[1] & mask(ty.w)
        return s.const(v, ty)

    def start(s, fn, args, st=None):
        st = st or State()
        if isinstance(fn, str):
            fn = s.p.fn(fn)
        if len(args) != len(fn.params):
            raise AnalysisError('%s takes %d parameters, %d expected' % (fn.cname, len(fn.params), len(args)))
        s.push(st, fn, args, None, None)
        return st

    def push(s, st, fn, args, dst, ins):
        f = Frame()
        f.fn, f.bb, f.idx, f.prev, f.dst = fn, fn.order[0], 0, None, dst
        f.regs = {}
        f.depth = len(st.frames)
        if f.depth > 60:
            raise AnalysisError('call depth in ' + fn.cname)
        f.ids = 0
        f.callsite = ins
        f.forks = {}
        for (t, r), a in zip(fn.params, args):
            f.regs[r] = a
        if fn.vararg:
            f.regs['...'] = tuple(args[len(fn.params):])
        st.frames.append(f)
        s.fnseen.add(fn.name)

    def run(s, st):
        """all path ends reachable from st"""
        ends = []
        work = [st]
        while work:
            x = work.pop()
            s.nstates += 1
            if s.nstates > s.max_states:
                raise AnalysisError('too many abstract states (%s)' % (x.frames[-1].fn.cname if x.frames else '?'))
            try:
                more = s.go(x)
            except Dead:
                x.end = ('dead',)
                ends.append(x)
                continue
            if more is None:
                ends.append(x)
            else:
                for y in more:
                    (work if y.end is None else ends).append(y)
        return ends

    def call(s, fn, args, st=None):
        return s.run(s.start(fn, args, st))

    def go(s, st):
        """run until the end (None) or a split (list of states)"""
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.bb]
            if fr.idx == 0:
                s.bbseen.add((fr.fn.name, fr.bb))
            ins = blk.ins[fr.idx]
            s.steps += 1
            if s.steps > s.max_steps:
                raise AnalysisError('step budget in %s' % fr.fn.cname)
            op = ins.op
            try:
                r = s.step(st, fr, ins, op)
            except Split as e:
                out = []
                for t in e.vals:
                    f = st.facts.assume('eq', e.idx.w, e.idx, t, True)
                    if f is None:
                        continue
                    n = st.copy()
                    n.facts = f
                    out.append(n)
                return out
            if r is None:
                continue
            if r == 'end':
                return None
            return r

    def jump(s, st, fr, to):
        blk = fr.fn.blocks[to]
        if blk.phis:
            vals = []
            for ph in blk.phis:
                for b, v in ph.a:
                    if b == fr.bb:
                        vals.append((ph.dst, s.val(st, fr, v, ph.ty)))
                        break
                else:
                    raise AnalysisError('phi')
            for d, v in vals:
                fr.regs[d] = v
        fr.prev, fr.bb, fr.idx = fr.bb, to, 0

    def branch(s, st, fr, ins, c, t, f):
        """c: i1 value"""
        c = st.facts.subst(c) if isinstance(c, BV) else c
        if isinstance(c, int):
            s.jump(st, fr, t if c else f)
            return None
        b = c.bits[0]
        pr = st_pred(b)
        outs = []
        for truth, to in ((True, t), (False, f)):
            if pr is None:
                ff = st.facts.assume('eq', 1, c, 1, truth)
            else:
                ff = s.assume(st, pr, truth)
            if ff is not None:
                outs.append((ff, to))
        if not outs:
            st.end = ('infeasible',)
            return 'end'
        if len(outs) == 1:
            st.facts = outs[0][0]
            s.jump(st, fr, outs[0][1])
            return None
        key = (ins.bb, ins.idx)
        n = fr.forks.get(key, 0) + 1
        if n > s.max_forks:
            raise AnalysisError('undecided loop at %s in %s' % (ins.where(), fr.fn.cname))
        res = []
        for ff, to in outs:
            x = st.copy()
            x.facts = ff
            xf = x.frames[-1]
            xf.forks[key] = n
            s.jump(x, xf, to)
            if s.merge and s.merge(s, x, xf):
                continue
            res.append(x)
        return res

    def assume(s, st, pr, truth):
        if pr[0] == 'icmp':
            return st.facts.assume(pr[1], pr[2], pr[3], pr[4], truth)
        if pr[0] == 'peq':
            k = st.facts.misc.get(pr)
            if k is not None:
                return st.facts if k == truth else None
            f = st.facts.copy()
            f.misc[pr] = truth
            return f
        raise AnalysisError('predicate')

    def icmp(s, st, pred, ty, a, b):
        if ty.k == 'p' or isinstance(a, (Ptr, Fn, Tok)) or isinstance(b, (Ptr, Fn, Tok)):
            return s.pcmp(st, pred, a, b)
        w = ty.w
        d = st.facts.decide(pred, w, a, b)
        if d is not None:
            return int(d)
        a, b = st.facts.subst(a), st.facts.subst(b)
        return mkpred(('icmp', pred, w, a, b))

    NONNULL = ('alloca', 'heap', 'str')

    def isnull(s, st, p):
        """True/False/None"""
        if isinstance(p, int):
            return p == 0
        if isinstance(p, (Fn, Tok)):
            return False
        o = p.obj
        if isinstance(o, str) and o.startswith('*') and p.off == 0:
            k = st.facts.misc.get(('peq', o, 0))
            return k
        return False

    def pcmp(s, st, pred, a, b):
        if pred in ('eq', 'ne'):
            r = None
            if isinstance(a, int) and isinstance(b, int):
                r = a == b
            elif isinstance(a, int) or isinstance(b, int):
                p, c = (b, a) if isinstance(a, int) else (a, b)
                if c == 0:
                    r = s.isnull(st, p)
                    if r is None:
                        k = ('peq', p.obj, 0)
                        v = mkpred(k)
                        return v if pred == 'eq' else dom.bitop('xor', 1, v, 1)
                else:
                    r = False
            elif a == b:
                r = True
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    if isinstance(a.off, int) and isinstance(b.off, int):
                        r = a.off == b.off
                    else:
                        return s.icmp(st, pred, ir.INT(64), tooff(a), tooff(b))
                else:
                    sa = isinstance(a.obj, str) and a.obj.startswith('*')
                    sb = isinstance(b.obj, str) and b.obj.startswith('*')
                    if sa or sb:
                        x, y = sorted((repr(a), repr(b)))
                        k = ('peq', x, y)
                        q = st.facts.misc.get(k)
                        if q is None:
                            v = mkpred(k)
                            return v if pred == 'eq' else dom.bitop('xor', 1, v, 1)
                        r = q
                    else:
                        r = False
            else:
                r = False
            return int(r if pred == 'eq' else not r)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            m = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)
            return s.icmp(st, m, ir.INT(64), tooff(a), tooff(b))
        if isinstance(a, BV) and isinstance(b, BV):
            return s.icmp(st, pred, ir.INT(64), a, b)
        raise AnalysisError('pointer comparison %s %r %r' % (pred, a, b))

    def step(s, st, fr, ins, op):
        regs = fr.regs
        if op == 'load':
            p = s.val(st, fr, ins.a[0], ir.PTRT)
            v = s.load(st, p, ins.ty, ins)
            regs[ins.dst] = v
        elif op == 'store':
            p = s.val(st, fr, ins.a[2], ir.PTRT)
            s.store(st, p, ins.a[0], s.val(st, fr, ins.a[1], ins.a[0]), ins)
        elif op == 'getelementptr':
            b = s.val(st, fr, ins.a[1], ir.PTRT)
            off = s.gepoff(ins.a[0], [(t, s.val(st, fr, x, t)) for t, x in ins.a[2]])
            regs[ins.dst] = ptradd(b, off)
        elif op == 'icmp':
            pred, t, a, b = ins.a
            regs[ins.dst] = s.icmp(st, pred, t, s.val(st, fr, a, t), s.val(st, fr, b, t))
        elif op == 'br':
            if len(ins.a) == 1:
                s.jump(st, fr, ins.a[0])
                if s.merge and s.merge(s, st, fr):
                    st.end = ('merged',)
                    return 'end'
                return None
            c = s.val(st, fr, ins.a[0], ir.INT(1))
            r = s.branch(st, fr, ins, c, ins.a[1], ins.a[2])
            if r is None and s.merge and s.merge(s, st, fr):
                st.end = ('merged',)
                return 'end'
            return r
        elif op == 'call':
            return s.docall(st, fr, ins)
        elif op == 'phi':
            raise AnalysisError('stray phi')
        elif op == 'ret':
            v = s.val(st, fr, ins.a[0], ins.ty) if ins.a else None
            st.frames.pop()
            if fr.depth == 0 or not st.frames:
                st.end = ('ret', v)
                return 'end'
            up = st.frames[-1]
            if fr.dst:
                up.regs[fr.dst] = v
            up.idx += 1
            if s.onret:
                s.onret(s, st, fr, v)
            return None
        elif op == 'switch':
            t, v, d, cs = ins.a
            v = s.val(st, fr, v, t)
            v = st.facts.subst(v) if isinstance(v, BV) else v
            if isinstance(v, int):
                for k, l in cs:
                    if k & mask(t.w) == v:
                        s.jump(st, fr, l)
                        break
                else:
                    s.jump(st, fr, d)
                if s.merge and s.merge(s, st, fr):
                    st.end = ('merged',)
                    return 'end'
                return None
            outs = []
            rest = st.facts
            for k, l in cs:
                f = rest.assume('eq', t.w, v, k & mask(t.w), True)
                if f is not None:
                    outs.append((f, l))
                rest = rest.assume('eq', t.w, v, k & mask(t.w), False)
                if rest is None:
                    break
            if rest is not None:
                outs.append((rest, d))
            res = []
            for f, l in outs:
                x = st.copy()
                x.facts = f
                s.jump(x, x.frames[-1], l)
                if s.merge and s.merge(s, x, x.frames[-1]):
                    continue
                res.append(x)
            return res
        elif op == 'unreachable':
            st.end = ('unreachable',)
            return 'end'
        elif op == 'alloca':
            t, n = ins.a
            name = ('alloca', fr.fn.cname, ins.dst, fr.depth)
            st.mem[name] = Obj(size_of(t) * (n or 1), 'sym')
            st.owned.add(name)
            regs[ins.dst] = Ptr(name, 0)
        elif op == 'select':
            c = s.val(st, fr, ins.a[0], ir.INT(1))
            c = st.facts.subst(c) if isinstance(c, BV) else c
            a, b = s.val(st, fr, ins.a[1], ins.ty), s.val(st, fr, ins.a[2], ins.ty)
            if isinstance(c, int):
                regs[ins.dst] = a if c else b
            elif a == b:
                regs[ins.dst] = a
            else:
                res = []
                pr = st_pred(c.bits[0])
                for truth, v in ((True, a), (False, b)):
                    f = s.assume(st, pr, truth) if pr else st.facts.assume('eq', 1, c, 1, truth)
                    if f is None:
                        continue
                    x = st.copy()
                    x.facts = f
                    x.frames[-1].regs[ins.dst] = v
                    x.frames[-1].idx += 1
                    res.append(x)
                return res
        else:
            regs[ins.dst] = s.arith(st, fr, ins, op)
        fr.idx += 1
        return None

    onret = None

    def arith(s, st, fr, ins, op):
        ty = ins.ty
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast'):
            t0, v = ins.a
            v = s.val(st, fr, v, t0)
            if op == 'trunc':
                if isinstance(v, (Ptr, Fn)):
                    return Sym('ptrint:%r' % (v,), ty.w)
                return dom.trunc(v, ty.w)
            if op == 'zext':
                if t0.w == 1 and isinstance(v, BV):
                    v = st.facts.subst(v)
                return dom.zext(v, t0.w, ty.w)
            if op == 'sext':
                return dom.sext(v, t0.w, ty.w)
            if op == 'inttoptr' and isinstance(v, BV):
                return Ptr('*' + repr(v), 0)
            return v
        w = ty.w
        a, b = s.val(st, fr, ins.a[0], ty), s.val(st, fr, ins.a[1], ty)
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return dom.sub(w, tooff(a), tooff(b))
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return ptradd(a, b if not isinstance(b, int) else dom.sgn(b, w))
            return Op('ptr' + op, w, (repr(a), repr(b)))
        if isinstance(a, BV):
            a = st.facts.subst(a)
        if isinstance(b, BV):
            b = st.facts.subst(b)
        if op == 'add':
            return dom.add(w, a, b)
        if op == 'sub':
            return dom.sub(w, a, b)
        if op == 'mul':
            return dom.mul(w, a, b)
        if op in ('and', 'or', 'xor'):
            return dom.bitop(op, w, a, b)
        if op == 'shl':
            return dom.shl(w, a, b)
        if op == 'lshr':
            return dom.lshr(w, a, b)
        if op == 'ashr':
            return dom.ashr(w, a, b)
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if isinstance(b, int) and b == 0:
                st.ev('div0', ins.where())
                raise Dead()
            st.ev('div', op, a, b, w, ins.where())
            return dom.div(op, w, a, b)
        raise AnalysisError('op ' + op)

    def docall(s, st, fr, ins):
        cal, args = ins.a
        if cal[0] == 'g':
            name = cal[1]
        else:
            v = s.val(st, fr, cal, ir.PTRT)
            if isinstance(v, Fn):
                name = v.name
            elif '*' in s.stubs:
                name = None
            else:
                st.ev('badcall', repr(v), ins.where())
                raise Dead()
        vals = [s.val(st, fr, x, t) if t.k != 'v' else None for t, x in args]
        if name is None:
            r = s.stubs['*'](s, st, [v] + vals, ins)
            return s.ret_stub(st, ins, r)
        f = s.p.funcs.get(name)
        cname = f.cname if f else name
        stub = s.stubs.get(name) or s.stubs.get(cname)
        if stub is not None:
            r = stub(s, st, vals, ins)
            if r is INLINE:
                stub = None
            else:
                return s.ret_stub(st, ins, r)
        if f is None and stub is None:
            f = s.p.lib.get(name)
        if f is not None:
            if len(vals) < len(f.params):
                vals = vals + [Sym('missing', t.w) for t, _ in f.params[len(vals):]]
            s.push(st, f, vals if f.vararg else vals[:len(f.params)], ins.dst, ins)
            return None
        if name.startswith('llvm.'):
            base = name.split('.')[1]
            if base in ('lifetime', 'dbg', 'va_end', 'assume'):
                fr.idx += 1
                return None
            if ('llvm.' + base) in s.stubs:
                return s.ret_stub(st, ins, s.stubs['llvm.' + base](s, st, vals, ins))
        raise AnalysisError('call to unmodelled external %s at %s' % (name, ins.where()))

    def ret_stub(s, st, ins, r):
        """stub result: value | END | list of (state,value)"""
        if r is END:
            return 'end'
        if r is JUMPED:
            return None
        if isinstance(r, list):
            out = []
            for x, v in r:
                if v is JUMPED or x.end is not None:
                    out.append(x)
                    continue
                fr = x.frames[-1]
                if ins.dst:
                    fr.regs[ins.dst] = v
                fr.idx += 1
                out.append(x)
            # finished states must be reported as ends
            return Many(out)
        fr = st.frames[-1]
        if ins.dst:
            fr.regs[ins.dst] = r
        fr.idx += 1
        return None


def Many(xs):
    return xs


class Split(Exception):
    def __init__(s, idx, vals):
        s.idx, s.vals = idx, vals


class _U:
    def __init__(s, n):
        s.n = n

    def __repr__(s):
        return s.n


END, JUMPED, INLINE = _U('END'), _U('JUMPED'), _U('INLINE')


def tooff(p):
    return p.off & mask(64) if isinstance(p.off, int) else p.off


def ptradd(b, off):
    if isinstance(b, Ptr):
        if isinstance(b.off, int) and isinstance(off, int):
            return Ptr(b.obj, b.off + off)
        o = dom.add(64, b.off & mask(64) if isinstance(b.off, int) else b.off,
                    off & mask(64) if isinstance(off, int) else off)
        return Ptr(b.obj, dom.sgn(o, 64) if isinstance(o, int) else o)
    if isinstance(b, int):
        if isinstance(off, int):
            return (b + off) & mask(64)
        return dom.add(64, b, off)
    if isinstance(b, BV):
        return dom.add(64, b, off & mask(64) if isinstance(off, int) else off)
    raise AnalysisError('gep on %r' % (b,))


def mkpred(pr):
    """an i1 value standing for a predicate"""
    return Op('pred', 1, (pr,))


def st_pred(b):
    a = b[0]
    if a.kind == 'op' and a.name == 'pred':
        return a.args[0]
    return None


# ---------------------------------------------------------------- library models
def b_error(e, st, a, ins):
    m = e.getstr(st, a[0])
    st.end = ('error', m.decode('latin1') if m is not None else '?', ins.where(), ins)
    return END


def b_warning(e, st, a, ins):
    m = e.getstr(st, a[0])
    st.ev('warning', m.decode('latin1') if m is not None else '?', ins.where())
    return 0


def b_fatal(e, st, a, ins):
    m = e.getstr(st, a[0])
    st.end = ('fatal', m.decode('latin1') if m is not None else '?', ins.where())
    return END


def b_exit(e, st, a, ins):
    st.end = ('exit', a[0])
    return END


def b_strlen(e, st, a, ins):
    m = e.getstr(st, a[0])
    if m is not None:
        return len(m)
    return Sym('strlen(%r)' % (a[0],), 64)


def b_strcmp(e, st, a, ins):
    x, y = e.getstr(st, a[0]), e.getstr(st, a[1])
    n = a[2] if len(a) > 2 else None
    if x is None or y is None:
        return Sym('strcmp(%s,%s)' % (x if x is not None else a[0], y if y is not None else a[1]), 32)
    if n is not None:
        x, y = x[:n], y[:n]
    return 0 if x == y else 1 if x > y else mask(32)


def b_strcpy(e, st, a, ins):
    m = e.getstr(st, a[1])
    n = a[2] if len(a) > 2 and isinstance(a[2], int) else None
    if m is None or not isinstance(a[0], Ptr) or not isinstance(a[0].off, int):
        st.ev('strcpy', a[0], a[1], n, ins.where())
        if isinstance(a[0], Ptr):
            o = e.wobj(st, a[0].obj)
            o.cells = {}
            o.lazy = 'sym'
            o.gen += 1
        return a[0]
    bs = m + b'\0'
    if n is not None:
        bs = (m + b'\0' * n)[:n]
    for i, b in enumerate(bs):
        e.store(st, Ptr(a[0].obj, a[0].off + i), ir.INT(8), b, ins)
    return a[0]


def b_memcpy(e, st, a, ins):
    d, s_, n = a[0], a[1], a[2]
    if not isinstance(n, int) or not isinstance(d, Ptr) or not isinstance(s_, Ptr) or not isinstance(d.off, int) or not isinstance(s_.off, int):
        raise AnalysisError('memcpy at ' + ins.where())
    so = e.obj(st, s_.obj)
    if n > 1024 and so.size is None:
        n = 1024
    items = []
    i = 0
    while i < n:
        c = so.cells.get(s_.off + i)
        if c is not None and i + c[0] <= n:
            items.append((i, c[0], c[1]))
            i += c[0]
        else:
            i += 1
    if so.lazy != 'zero' and not items:
        # entirely unknown source
        st.ev('memcpy?', d.obj, s_.obj, ins.where())
    wo = e.wobj(st, d.obj)
    if wo.size is not None and d.off + n > wo.size:
        st.ev('oob', 'write', d.obj, d.off + n - 1, ins.where())
        if e.onoob:
            e.onoob(e, st, d.obj, d.off + n - 1, ins)
        return d
    for q in [q for q in wo.cells if d.off - 7 <= q < d.off + n]:
        x = wo.cells[q]
        if q + x[0] <= d.off:
            continue
        if q < d.off or q + x[0] > d.off + n:
            raise AnalysisError('memcpy splits a cell')
        del wo.cells[q]
    if so.lazy == 'zero':
        for i in range(n):
            wo.cells.setdefault(d.off + i, (1, 0))
        for i, z, v in items:
            for k in range(z):
                wo.cells.pop(d.off + i + k, None)
    elif so.lazy == 'sym' and wo is not so:
        # unknown remainder: copy lazily by naming
        pass
    for i, z, v in items:
        wo.cells[d.off + i] = (z, v)
    if e.oncopy:
        e.oncopy(e, st, d, ins)
    return d


def b_memset(e, st, a, ins):
    d, v, n = a[0], a[1], a[2]
    if isinstance(n, int) and isinstance(d, Ptr) and isinstance(d.off, int):
        o = e.wobj(st, d.obj)
        if d.off == 0 and v == 0 and (o.size is None or n >= o.size):
            o.cells = {}
            o.lazy = 'zero'
        else:
            for i in range(n):
                e.store(st, Ptr(d.obj, d.off + i), ir.INT(8), dom.trunc(v, 8) if not isinstance(v, int) else v & 255, ins)
        return d
    raise AnalysisError('memset at ' + ins.where())


def ctype(f, tolow=None):
    def one(c):
        k = dom.sgn(c & dom.mask(32), 32)
        return False if k == -1 or k < -128 or k > 255 else bool(f(k & 255))

    def g(e, st, a, ins):
        v = a[0]
        if isinstance(v, int):
            c = dom.sgn(v, 32)
            if c == -1 or c < -128 or c > 255:
                return 0
            return int(f(c & 255))
        try:
            n = set()
            for lo, hi in st.facts.ranges(v, 32):
                if hi - lo > 255:
                    n = {0, 1}
                    break
                for c in range(lo, hi + 1):
                    k = dom.sgn(c & dom.mask(32), 32)
                    n.add(0 if k == -1 or k < -128 or k > 255 else int(f(k & 255)))
            if len(n) == 1:
                return n.pop()
            t = dom.tabvals(v)
            n = {one(x) for x in t} if t else n
            if len(n) == 1:
                return int(n.pop())
            k = st.facts._tab(lambda en, m: one(dom.ev(v, en, m)), (v,))
            if k is not None:
                return int(k)
        except (TypeError, ValueError, AttributeError, dom.NoTab):
            pass
        return Sym('%s(%r)' % (ins.a[0][1], v), 32)
    return g


def b_toupper(e, st, a, ins):
    v = a[0]
    if isinstance(v, int):
        return v - 32 if 97 <= v <= 122 else v
    return Op('toupper', 32, (v,))


def b_tolower(e, st, a, ins):
    v = a[0]
    if isinstance(v, int):
        return v + 32 if 65 <= v <= 90 else v
    return Op('tolower', 32, (v,))


def b_out(kind):
    def g(e, st, a, ins):
        st.ev(kind, tuple(a), ins.where())
        return Sym('ret.' + kind, 32)
    return g


def b_sprintf(e, st, a, ins):
    n = ins.a[0][1]
    st.ev('sprintf', tuple(a), ins.where())
    d = a[0]
    if isinstance(d, Ptr):
        o = e.wobj(st, d.obj)
        o.cells = {}
        o.lazy = 'sym'
        o.gen += 1
    return Sym('ret.sprintf', 32)


def b_malloc(e, st, a, ins):
    st.cnt += 1
    name = ('heap', ins.file, ins.line, st.cnt)
    st.mem[name] = Obj(a[0] if isinstance(a[0], int) else None, 'sym')
    st.owned.add(name)
    st.ev('malloc', Ptr(name, 0), a[0], ins.where())
    return Ptr(name, 0)


def b_vastart(e, st, a, ins):
    fr = st.frames[-1]
    va = fr.regs.get('...', ())
    nf = len(fr.fn.params)
    save = ('alloca', fr.fn.cname, 'regsave', fr.depth)
    o = Obj(None, 'sym')
    st.mem[save] = o
    st.owned.add(save)
    ov = ('alloca', fr.fn.cname, 'ovf', fr.depth)
    o2 = Obj(None, 'sym')
    st.mem[ov] = o2
    st.owned.add(ov)
    for i, v in enumerate(va):
        if nf + i < 6:
            o.cells[8 * (nf + i)] = (8, v)
        else:
            o2.cells[8 * (nf + i - 6)] = (8, v)
    p = a[0]
    e.store(st, p, ir.INT(32), 8 * nf)
    e.store(st, ptradd(p, 4), ir.INT(32), 48)
    e.store(st, ptradd(p, 8), ir.PTRT, Ptr(ov, 0))
    e.store(st, ptradd(p, 16), ir.PTRT, Ptr(save, 0))
    return 0


BUILTINS = {
    'error': b_error, 'warning': b_warning, 'fatal': b_fatal, 'exit': b_exit,
    'strlen': b_strlen, 'strcmp': b_strcmp, 'strncmp': b_strcmp, 'strcpy': b_strcpy, 'strncpy': b_strcpy,
    'memcpy': b_memcpy, 'memmove': b_memcpy, 'llvm.memcpy': b_memcpy, 'llvm.memmove': b_memcpy, 'memset': b_memset,
    'llvm.memset': b_memset, 'llvm.va_start': b_vastart,
    'isdigit': ctype(lambda c: 48 <= c <= 57), 'isxdigit': ctype(lambda c: chr(c) in '0123456789abcdefABCDEF'),
    'isalpha': ctype(lambda c: chr(c).isalpha() and c < 128), 'isalnum': ctype(lambda c: chr(c).isalnum() and c < 128),
    'isprint': ctype(lambda c: 32 <= c < 127), 'isspace': ctype(lambda c: c == 32 or 9 <= c <= 13),
    'isascii': ctype(lambda c: c < 128), 'isupper': ctype(lambda c: 65 <= c <= 90), 'islower': ctype(lambda c: 97 <= c <= 122),
    'toupper': b_toupper, 'tolower': b_tolower,
    'printf': b_out('printf'), 'fprintf': b_out('fprintf'), 'puts': b_out('puts'), 'putchar': b_out('putchar'),
    'fputc': b_out('fputc'), 'putc': b_out('fputc'), 'fputs': b_out('fputs'), 'fflush': b_out('fflush'), 'fwrite': b_out('fwrite'),
    'sprintf': b_sprintf, 'snprintf': b_sprintf, 'malloc': b_malloc,
}
