"""Front end: /repo's current sources -> LLVM IR (clang, the build's own flags)
-> a resolved in-memory program (functions, blocks, instructions, globals,
struct layouts, source positions).  Nothing is executed."""
import os, re, shlex, shutil, subprocess, sys, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
PTR = 64


class AnalysisError(Exception):
    """The analysis itself cannot proceed (vanished anchor, unknown construct)."""


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'e', 'fs', 'name', '_l', 'packed')

    def __init__(s, k, w=0, n=0, e=None, fs=None, name=None, packed=False):
        s.k, s.w, s.n, s.e, s.fs, s.name, s._l, s.packed = k, w, n, e, fs, name, None, packed

    def __repr__(s):
        return {'i': 'i%d' % s.w, 'p': 'ptr', 'v': 'void'}.get(s.k, s.name or s.k)


VOID, PTRT = Ty('v'), Ty('p', 64)
_INTS = {}


def INT(w):
    if w not in _INTS:
        _INTS[w] = Ty('i', w)
    return _INTS[w]


def align_of(t):
    if t.k == 'i':
        return max(1, min(8, (t.w + 7) // 8))
    if t.k == 'p':
        return 8
    if t.k == 'a':
        return align_of(t.e)
    if t.k == 's':
        if t.packed:
            return 1
        return max([align_of(f) for f in t.fs] or [1])
    raise AnalysisError('align of ' + t.k)


def layout(t):
    """struct -> (offsets, size)"""
    if t._l is None:
        off, offs = 0, []
        for f in t.fs:
            a = 1 if t.packed else align_of(f)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += size_of(f)
        a = align_of(t)
        t._l = (offs, (off + a - 1) // a * a)
    return t._l


def size_of(t):
    if t.k == 'i':
        return (t.w + 7) // 8
    if t.k == 'p':
        return 8
    if t.k == 'a':
        return t.n * size_of(t.e)
    if t.k == 's':
        return layout(t)[1]
    if t.k == 'v':
        return 0
    raise AnalysisError('size of ' + t.k)


# ---------------------------------------------------------------- program
class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line', 'file', 'fn', 'idx', 'bb', 'text', 'extra')

    def where(s):
        return '%s:%s' % (s.file, s.line) if s.line else s.file


class Block:
    __slots__ = ('name', 'ins', 'phis', 'fn', 'preds')


class Func:
    def __init__(s):
        s.name = s.cname = s.file = None
        s.params, s.blocks, s.order = [], {}, []
        s.ret = VOID
        s.vararg = False
        s.line = 0


class Global:
    __slots__ = ('name', 'cname', 'ty', 'init', 'const', 'file', 'line', 'defined')


class Program:
    def __init__(s):
        s.funcs, s.globals, s.structs = {}, {}, {}
        s.decls = set()
        s.units = []
        s.ditypes = {}
        s.lib = {}      # bodies of library functions the program calls (lib/clib.c)

    def fn(s, name, file=None):
        """function by C name (and file basename when static duplicates exist)"""
        c = [f for f in s.funcs.values() if f.cname == name and (file is None or f.file == file)]
        if len(c) != 1:
            raise AnalysisError('anchor function %s%s: %d definitions' % (
                name, ' in ' + file if file else '', len(c)))
        return c[0]

    def has_fn(s, name):
        return any(f.cname == name for f in s.funcs.values())

    def gl(s, name, file=None):
        c = [g for g in s.globals.values() if g.cname == name and g.defined and (file is None or g.file == file)]
        if len(c) != 1:
            raise AnalysisError('anchor variable %s%s: %d definitions' % (
                name, ' in ' + file if file else '', len(c)))
        return c[0]

    def callees(s, f):
        for i in instrs(f):
            if i.op == 'call' and i.a[0][0] == 'g':
                yield i, i.a[0][1]


def instrs(f):
    for b in f.order:
        for i in f.blocks[b].phis:
            yield i
        for i in f.blocks[b].ins:
            yield i


# ---------------------------------------------------------------- lexer helpers
class P:
    """recursive-descent over one IR line"""
    tok = re.compile(r'\s*(%"[^"]*"|@"[^"]*"|[%@][-\w.$]+|c"(?:[^"])*"|"[^"]*"|![\w.]*|-?\d+\.\d+e[+-]\d+|-?\d+|[\w.]+|\.\.\.|.)')

    def __init__(s, text, mod):
        s.t = s.tok.findall(text)
        s.i = 0
        s.m = mod

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        x = s.t[s.i]
        s.i += 1
        return x

    def accept(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def expect(s, x):
        y = s.next()
        if y != x:
            raise AnalysisError('IR parse: expected %s got %s in %s' % (x, y, ' '.join(s.t)[:200]))

    def type(s):
        x = s.next()
        if x == 'ptr':
            t = PTRT
        elif x == 'void':
            t = VOID
        elif re.fullmatch(r'i\d+', x):
            t = INT(int(x[1:]))
        elif x == '[':
            n = int(s.next())
            s.expect('x')
            e = s.type()
            s.expect(']')
            t = Ty('a', n=n, e=e, name='[%d x %r]' % (n, e))
        elif x == '{' or x == '<':
            packed = x == '<'
            if packed:
                s.expect('{')
            fs = []
            if not s.accept('}'):
                while True:
                    fs.append(s.type())
                    if s.accept('}'):
                        break
                    s.expect(',')
            if packed:
                s.expect('>')
            t = Ty('s', fs=fs, name='{...}', packed=packed)
        elif x.startswith('%'):
            t = s.m.struct(x)
        elif x == 'metadata' or x == 'label':
            t = VOID
        elif x in ('double', 'float'):
            t = Ty('f', 64)
        else:
            raise AnalysisError('IR type %s in %s' % (x, ' '.join(s.t)[:160]))
        if s.peek() == '(':          # function type
            depth = 0
            while True:
                y = s.next()
                if y == '(':
                    depth += 1
                elif y == ')':
                    depth -= 1
                    if depth == 0:
                        break
        return t

    ATTR = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'returned', 'readonly',
            'readnone', 'writeonly', 'inreg', 'immarg', 'dso_local', 'inrange', 'allocptr', 'nofree', 'nest'}

    def attrs(s):
        while True:
            x = s.peek()
            if x in s.ATTR:
                s.i += 1
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'allocsize', 'range'):
                s.i += 1
                if s.accept('('):
                    d = 1
                    while d:
                        y = s.next()
                        d += (y == '(') - (y == ')')
                elif x == 'align':
                    s.i += 1
            else:
                return

    def value(s, ty):
        """operand -> ('c',int) ('r',reg) ('g',global) ('null',) ('undef',) ('agg',[...]) ('str',bytes) ('gep',...)"""
        x = s.next()
        if x.startswith('%'):
            return ('r', x)
        if x.startswith('@'):
            return ('g', s.m.gname(x))
        if re.fullmatch(r'-?\d+', x):
            return ('c', int(x))
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'null':
            return ('c', 0)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x.startswith('c"'):
            return ('str', unesc(x[2:-1]))
        if x in ('[', '{', '<'):
            end = {'[': ']', '{': '}', '<': '>'}[x]
            el = []
            if s.peek() == '{' and x == '<':
                s.next()
                end = '}'
                pk = True
            else:
                pk = False
            if not s.accept(end):
                while True:
                    t = s.type()
                    el.append((t, s.value(t)))
                    if s.accept(end):
                        break
                    s.expect(',')
            if pk:
                s.expect('>')
            return ('agg', el)
        if x == 'getelementptr':
            while s.peek() in ('inbounds', 'nuw', 'nusw'):
                s.next()
            s.expect('(')
            bt = s.type()
            s.expect(',')
            pt = s.type()
            base = s.value(pt)
            idx = []
            while s.accept(','):
                s.attrs()
                t = s.type()
                idx.append((t, s.value(t)))
            s.expect(')')
            return ('gep', bt, base, idx)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'sext', 'zext'):
            s.expect('(')
            t = s.type()
            v = s.value(t)
            s.expect('to')
            t2 = s.type()
            s.expect(')')
            return (x, t, v, t2)
        raise AnalysisError('IR operand %s in %s' % (x, ' '.join(s.t)[:200]))


def unesc(t):
    out = bytearray()
    i = 0
    b = t.encode('latin1')
    while i < len(b):
        if b[i] == 0x5c and b[i + 1] == 0x5c:
            out.append(0x5c)
            i += 2
        elif b[i] == 0x5c:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


class Module:
    def __init__(s, prog, path, src):
        s.prog, s.src = prog, src
        s.internal = set()
        s.base = os.path.basename(src)
        s.loc = {}
        s.structs = {}
        s.text = open(path, encoding='latin1').read().split('\n')
        s.parse()

    def struct(s, x):
        if x not in s.structs:
            s.structs[x] = Ty('s', fs=None, name=x)
        return s.structs[x]

    def gname(s, x):
        x = x[1:].strip('"')
        if x in s.internal:
            return s.base + ':' + x
        return x

    def parse(s):
        L = s.text
        md = {}
        for l in L:
            if l.startswith('!') and ' = ' in l and l[1:2].isdigit():
                k, v = l.split(' = ', 1)
                md[k] = v
            m = re.match(r'(@[-\w.$"]+) = (private|internal) ', l)
            if m:
                s.internal.add(m.group(1)[1:].strip('"'))
            m = re.match(r'define internal .*?(@[-\w.$"]+)\(', l)
            if m:
                s.internal.add(m.group(1)[1:].strip('"'))
        s.md = md
        for l in L:
            m = re.match(r'(%[-\w.$"]+) = type (.*)$', l)
            if m:
                t = s.struct(m.group(1))
                if m.group(2) == 'opaque':
                    t.fs = []
                else:
                    p = P(m.group(2), s)
                    u = p.type()
                    t.fs, t.packed = u.fs, u.packed
        i = 0
        while i < len(L):
            l = L[i]
            if l.startswith('@'):
                s.global_(l)
            elif l.startswith('define'):
                j = i
                while L[j] != '}':
                    j += 1
                s.func(L[i], L[i + 1:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@([-\w.$"]+)\(', l)
                s.prog.decls.add(m.group(1).strip('"'))
            i += 1
        for k, v in md.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in v or 'DW_TAG_union_type' in v:
                s.ditype(v)

    def ditype(s, v):
        m = re.search(r'name: "(\w+)"', v)
        if not m:
            return
        e = re.search(r'elements: (!\d+)', v)
        if not e:
            return
        out = {}
        for r in re.findall(r'!\d+', s.md.get(e.group(1), '')):
            d = s.md.get(r, '')
            n = re.search(r'name: "(\w+)"', d)
            o = re.search(r'offset: (\d+)', d)
            z = re.search(r'size: (\d+)', d)
            if n:
                out[n.group(1)] = ((int(o.group(1)) if o else 0) // 8, int(z.group(1)) // 8)
        s.prog.ditypes.setdefault(m.group(1), out)

    def line(s, ref):
        if ref in s.loc:
            return s.loc[ref]
        d = s.md.get(ref, '')
        m = re.search(r'line: (\d+)', d)
        r = int(m.group(1)) if m else 0
        s.loc[ref] = r
        return r

    def global_(s, l):
        m = re.match(r'(@[-\w.$"]+) = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        rest = re.sub(r'(, align \d+)?(, !dbg !\d+)?$', '', re.sub(r', !dbg !\d+$', '', rest))
        words = rest
        ext = bool(re.match(r'(external|extern_weak)\b', words))
        m = re.search(r'\b(global|constant) ', words)
        if not m:
            return
        const = m.group(1) == 'constant'
        p = P(words[m.end():], s)
        g = Global()
        g.name = s.gname(name)
        g.cname = name[1:].strip('"')
        g.file = s.base
        g.line = 0
        g.const = const
        g.ty = p.type()
        g.defined = not ext
        g.init = None
        if not ext:
            g.init = (g.ty, p.value(g.ty))
            m2 = re.search(r'!dbg (!\d+)', l)
            if m2:
                d = s.md.get(m2.group(1), '')
                m3 = re.search(r'var: (!\d+)', d)
                if m3:
                    g.line = s.line(m3.group(1))
        old = s.prog.globals.get(g.name)
        if old is None or (g.defined and not old.defined):
            s.prog.globals[g.name] = g

    def func(s, head, body):
        f = Func()
        m = re.match(r'define (.*?)(@[-\w.$"]+)\((.*)\)([^()]*)\{$', head)
        pre, nm, params, post = m.groups()
        f.name = s.gname(nm)
        f.cname = nm[1:].strip('"')
        f.file = s.base
        p = P(pre, s)
        while p.peek() in ('dso_local', 'internal', 'private', 'hidden', 'noundef', 'signext', 'zeroext', 'noalias', 'nonnull'):
            p.next()
        f.ret = p.type()
        p = P(params, s)
        while p.peek() is not None:
            if p.accept('...'):
                f.vararg = True
                break
            t = p.type()
            p.attrs()
            r = p.next()
            f.params.append((t, r))
            p.accept(',')
        m = re.search(r'!dbg (!\d+)', post)
        if m:
            f.line = s.line(m.group(1))
        cur = None
        nxt = len(f.params)
        first = str(nxt)
        i = 0
        while i < len(body):
            l = body[i]
            i += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            m = re.match(r'([-\w.$"]+):', l)
            if m and not l.startswith(' '):
                cur = s.newblock(f, '%' + m.group(1))
                continue
            if cur is None:
                cur = s.newblock(f, '%' + first)
            if 'llvm.dbg.' in l:
                continue
            while l.strip().startswith(('switch', '%')) and ' [' in l and 'switch' in l and not l.rstrip().endswith((']',)) and ']' not in l.split('switch', 1)[1]:
                l += ' ' + body[i].strip()
                i += 1
            if l.strip().startswith('switch'):
                while ']' not in l:
                    l += ' ' + body[i].strip()
                    i += 1
            ins = s.instr(l.strip(), f, cur)
            if ins is None:
                continue
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                ins.idx = len(cur.ins)
                cur.ins.append(ins)
        for b in f.blocks.values():
            b.preds = []
        for b in f.order:
            for t in succs(f.blocks[b]):
                f.blocks[t].preds.append(b)
        s.prog.funcs[f.name] = f

    def newblock(s, f, name):
        b = Block()
        b.name, b.ins, b.phis, b.fn, b.preds = name, [], [], f, []
        f.blocks[name] = b
        f.order.append(name)
        return b

    def instr(s, l, f, bb):
        I = Instr()
        I.text = l
        I.fn, I.file, I.bb, I.dst, I.extra = f.name, s.base, bb.name, None, None
        m = re.search(r', !dbg (!\d+)', l)
        I.line = s.line(m.group(1)) if m else 0
        l = re.sub(r'(, )?!(dbg|srcloc|llvm\.loop|tbaa|range|nonnull|noundef) !\d+', '', l)
        m = re.match(r'(%[-\w.$]+) = (.*)$', l)
        if m:
            I.dst, l = m.group(1), m.group(2)
        p = P(l, s)
        op = p.next()
        while op in ('tail', 'musttail', 'notail', 'nnan', 'fast'):
            op = p.next()
        I.op = op
        I.ty = VOID
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                I.extra = p.next() if I.extra != 'nsw' else p.next() and 'nsw'
            I.ty = p.type()
            a = p.value(I.ty)
            p.expect(',')
            I.a = (a, p.value(I.ty))
        elif op == 'icmp':
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            I.ty = INT(1)
            I.a = (pred, t, a, p.value(t))
        elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect('to')
            I.ty = p.type()
            I.a = (t, v)
        elif op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            I.ty = p.type()
            p.expect(',')
            p.type()
            I.a = (p.value(PTRT),)
        elif op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            I.a = (t, v, p.value(PTRT))
        elif op == 'alloca':
            t = p.type()
            n = 1
            if p.accept(',') and p.peek() != 'align':
                nt = p.type()
                n = p.value(nt)
                if n[0] != 'c':
                    n = None
                else:
                    n = n[1]
            I.ty = PTRT
            I.a = (t, n)
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            p.type()
            base = p.value(PTRT)
            idx = []
            while p.accept(','):
                t = p.type()
                idx.append((t, p.value(t)))
            I.ty = PTRT
            I.a = (bt, base, idx)
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                I.a = (p.next(),)
            else:
                p.type()
                c = p.value(INT(1))
                p.expect(',')
                p.expect('label')
                t = p.next()
                p.expect(',')
                p.expect('label')
                I.a = (c, t, p.next())
        elif op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cs = []
            while not p.accept(']'):
                p.type()
                k = p.value(t)[1]
                p.expect(',')
                p.expect('label')
                cs.append((k, p.next()))
            I.a = (t, v, d, cs)
        elif op == 'ret':
            I.ty = p.type()
            I.a = (p.value(I.ty),) if I.ty.k != 'v' else ()
        elif op == 'unreachable':
            I.a = ()
        elif op == 'select':
            p.type()
            c = p.value(INT(1))
            p.expect(',')
            I.ty = p.type()
            a = p.value(I.ty)
            p.expect(',')
            t2 = p.type()
            I.a = (c, a, p.value(t2))
        elif op == 'phi':
            I.ty = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(I.ty)
                p.expect(',')
                b = p.next()
                p.expect(']')
                inc.append((b, v))
                if not p.accept(','):
                    break
            I.a = inc
        elif op == 'call':
            while p.peek() in P.ATTR or p.peek() in ('fastcc', 'ccc') or p.peek() == 'range':
                p.next()
            I.ty = p.type()
            if p.peek() == '(':
                pass
            callee = p.value(PTRT)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    if p.peek() == 'metadata':
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            d += (x == '(') - (x == ')')
                        args.append((VOID, ('undef',)))
                    else:
                        t = p.type()
                        p.attrs()
                        args.append((t, p.value(t)))
                    if p.accept(')'):
                        break
                    p.expect(',')
            I.a = (callee, args)
        elif op in ('extractvalue', 'insertvalue', 'fence', 'freeze'):
            raise AnalysisError('IR op ' + op)
        else:
            raise AnalysisError('IR op %s: %s' % (op, l))
        return I


def succs(b):
    if not b.ins:
        return []
    t = b.ins[-1]
    if t.op == 'br':
        return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[2]] + [x for _, x in t.a[3]]
    return []


# ---------------------------------------------------------------- driver
def compile_commands():
    """(source, extra flags) of every translation unit of the default target, from the build itself"""
    env = {k: v for k, v in os.environ.items() if k not in ('MAKEFLAGS', 'MAKELEVEL', 'MFLAGS')}
    env['LC_ALL'] = 'C'
    r = subprocess.run(['make', '-n', '-B', '-C', REPO + '/src', 'CC=gcc', 'all'], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    if r.returncode:
        raise AnalysisError('make -n failed: ' + r.stderr[-400:])
    units = []
    for l in r.stdout.split('\n'):
        try:
            w = shlex.split(l)
        except ValueError:
            continue
        src = [x for x in w if x.endswith('.c')]
        if not w or not src or os.path.basename(w[0]) not in ('gcc', 'cc', 'clang'):
            continue
        fl = []
        i = 1
        while i < len(w):
            x = w[i]
            if x in ('-D', '-I', '-U', '-include', '-isystem'):
                fl += [x, w[i + 1]]
                i += 1
            elif x[:2] in ('-D', '-I', '-U') or x.startswith('-std'):
                fl.append(x)
            i += 1
        for x in src:
            units.append((os.path.normpath(os.path.join(REPO, 'src', x)), fl))
    if len(units) < 10:
        raise AnalysisError('only %d translation units found in the build' % len(units))
    return units


CLIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'clib.c')
LLVM = {'llvm.abs.i32': 'lib_abs32', 'llvm.abs.i64': 'lib_abs64'}


def library(prog, tmp):
    """bodies for the library functions the program calls and the interpreter has no model of"""
    have = set(re.findall(r'^(?!extern|static)[a-z][\w ]*?\**(\w+)\(', open(CLIB).read(), re.M))
    want = {LLVM.get(n, n) for n in prog.decls} & have - {f.cname for f in prog.funcs.values()}
    if not want:
        return
    o = os.path.join(tmp, 'clib.ll')
    r = subprocess.run('clang -O0 -Xclang -disable-O0-optnone -fno-builtin -D__NO_CTYPE -g -w -S -emit-llvm -o %s.0 %s && opt -S -passes=mem2reg %s.0 -o %s' % (
        o, shlex.quote(CLIB), o, o), shell=True, stderr=subprocess.PIPE, universal_newlines=True)
    if r.returncode:
        raise AnalysisError('clang failed on %s: %s' % (CLIB, r.stderr[-400:]))
    q = Program()
    Module(q, o, CLIB)
    prog.lib = {f.name: f for f in q.funcs.values()}
    for n, m in LLVM.items():
        prog.lib[n] = prog.lib[m]


def load():
    units = compile_commands()
    tmp = tempfile.mkdtemp(prefix='crasm-ir-')
    try:
        prog = Program()
        procs = []
        for k, (src, fl) in enumerate(units):
            o = os.path.join(tmp, '%d.ll' % k)
            std = [] if any(x.startswith('-std') for x in fl) else ['-std=gnu17']
            cmd = ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-D__NO_CTYPE', '-g', '-w', '-S', '-emit-llvm',
                   '-fno-discard-value-names'] + std + fl + ['-o', o + '.0', src]
            cmd.remove('-fno-discard-value-names')
            sh = ' '.join(shlex.quote(c) for c in cmd) + ' && opt -S -passes=mem2reg %s -o %s' % (
                shlex.quote(o + '.0'), shlex.quote(o))
            procs.append((src, o, subprocess.Popen(['sh', '-c', sh], cwd=REPO + '/src', stderr=subprocess.PIPE,
                                                   universal_newlines=True)))
        for src, o, p in procs:
            err = p.communicate()[1]
            if p.returncode:
                raise AnalysisError('clang failed on %s: %s' % (src, err[-600:]))
        for src, o, p in procs:
            Module(prog, o, src)
            prog.units.append(src)
        library(prog, tmp)
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(len(p.units), 'units', len(p.funcs), 'functions', len(p.globals), 'globals',
          sum(1 for f in p.funcs.values() for _ in instrs(f)), 'instructions', '%.2fs' % (time.time() - t))
    print(p.ditypes)
