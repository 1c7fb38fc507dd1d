"""C20: expressions have the documented value and kind."""
import itertools
import re

import dom
import enc
import ir
from chk import pool_map
from dom import Sym
from encchk import facts_of
from eng import Engine, State
from isa import c_rng

K = {'ABS': enc.L_ABS, 'REGS': enc.L_REGS, 'BIT': enc.L_BIT, 'MNEMO': enc.L_MNEMO, 'MACRO': enc.L_MACRO}
NAMES = {v & 255: k for k, v in K.items()}
# documented levels, loosest first
LEVELS = [['\\'], ['+', '-'], ['*', '/'], ['|', '&', '^'], ['<<', '>>']]
OPS = [o for l in LEVELS[1:] for o in l]
M64 = dom.mask(64)
ANY = 'any'


class Err(Exception):
    pass


# ---------------------------------------------------------------- reference
def tokens(t):
    return re.findall(r"'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\"|<<|>>|[$%]?[A-Za-z0-9_.]+|\S", t)


def parse_ref(text):
    """tree of the documented reading"""
    ts = tokens(text)
    pos = [0]

    def peek():
        return ts[pos[0]] if pos[0] < len(ts) else None

    def level(k):
        if k == len(LEVELS):
            return unary()
        x = level(k + 1)
        while peek() in LEVELS[k]:
            o = ts[pos[0]]
            pos[0] += 1
            x = ('b', o, x, level(k + 1))
        return x

    def unary():
        if peek() in ('-', '~'):
            o = ts[pos[0]]
            pos[0] += 1
            return ('u', o, unary())
        return postfix()

    def postfix():
        x = primary()
        while peek() == '{':
            pos[0] += 1
            y = level(0)
            need('}')
            x = ('b', '{', x, y)
        return x

    def need(t):
        if peek() != t:
            raise Err()
        pos[0] += 1

    def primary():
        t = peek()
        if t is None:
            raise Err()
        pos[0] += 1
        if t == '(':
            x = level(0)
            need(')')
            return x
        if t.upper() in ('LO', 'HI', 'ADDR', 'BIT') and peek() == '(':
            pos[0] += 1
            x = level(0)
            need(')')
            return ('f', t.upper(), x)
        if t == '*' or re.match(r'[A-Za-z_.]', t):
            return ('s', t.upper())
        if t[0] in '\'"':
            v = 0
            for m in re.finditer(r'\\(.)|(.)', t[1:-1]):
                ch = m.group(2) or {'t': '\t', 'n': '\n', 'r': '\r', '0': '\0', "'": "'", '"': '"', '\\': '\\'}.get(m.group(1))
                if ch is None:
                    raise Err()
                v = v << 8 | ord(ch)
            return ('n', v)
        return ('n', number(t))
    x = level(0)
    if pos[0] != len(ts):
        raise Err()
    return x


def number(t):
    for pat, base in ((r'\$([0-9A-F]+)$', 16), (r'([0-9][0-9A-F]*)H$', 16), (r'0X([0-9A-F]+)$', 16), (r'%([01]+)$', 2), (r'([01]+)B$', 2),
                      (r'0B([01]+)$', 2), (r'([0-7]+)Q$', 8), (r'([0-9]+)$', 10)):
        m = re.match(pat, t.upper())
        if m:
            if int(m.group(1), base) > 0xffffffff:
                raise Err()
            return int(m.group(1), base)
    raise Err()


def value(t, syms, f):
    """(kind, value, bit number) of the tree under the facts of a path; Err when its operands are not of the right kind"""
    if t[0] == 'n':
        return 'ABS', t[1], 0
    if t[0] == 's':
        if t[1] not in syms:
            raise Err()
        return syms[t[1]]
    if t[0] == 'u':
        k, v, m = value(t[2], syms, f)
        if k != 'ABS':
            raise Err()
        if v == ANY:
            return 'ABS', ANY, 0
        return 'ABS', dom.neg(64, v) if t[1] == '-' else dom.bitop('xor', 64, v, M64), 0
    if t[0] == 'f':
        k, v, m = value(t[2], syms, f)
        if (k == 'BIT') != (t[1] in ('ADDR', 'BIT')) or k not in ('ABS', 'BIT'):
            raise Err()
        if t[1] != 'BIT' and v == ANY:
            return 'ABS', ANY, 0
        if t[1] == 'ADDR':
            return 'ABS', v, 0
        if t[1] == 'BIT':
            return 'ABS', ANY if m == ANY else dom.sext(m, 16, 64), 0
        return 'ABS', dom.bitop('and', 64, v if t[1] == 'LO' else dom.lshr(64, v, 8), 255), 0
    _, o, a, b = t
    ka, va, ma = value(a, syms, f)
    kb, vb, mb = value(b, syms, f)
    if o == '\\':
        if ka != 'REGS' or kb != 'REGS':
            raise Err()
        return 'REGS', dom.bitop('or', 64, va, vb), ANY
    if o == '-' and ka == kb == 'REGS':
        return 'REGS', ANY, ANY
    if ka != 'ABS' or kb != 'ABS':
        raise Err()
    if vb == ANY or va == ANY and o != '{':
        return ('BIT' if o == '{' else 'ABS'), ANY, ANY
    if o == '{':
        if f.decide('slt', 64, vb, 0) is not False or f.decide('sgt', 64, vb, 32) is not False:
            raise Err()
        return 'BIT', va, dom.trunc(vb, 16)
    if o == '/':
        if f.decide('eq', 64, vb, 0):
            return 'ABS', ANY, 0
        if f.decide('eq', 64, vb, M64):
            return 'ABS', dom.neg(64, va), 0
        return 'ABS', dom.div('sdiv', 64, va, vb), 0
    op = {'+': dom.add, '-': dom.sub, '*': dom.mul, '<<': dom.shl, '>>': dom.ashr}.get(o)
    if op:
        if o in ('<<', '>>') and isinstance(vb, int) and vb > 63:
            return 'ABS', ANY, 0
        return 'ABS', op(64, va, vb), 0
    return 'ABS', dom.bitop({'|': 'or', '&': 'and', '^': 'xor'}[o], 64, va, vb), 0


def touching(text):
    """a sign or a star right after another operator: not claimed to be understood"""
    return '**' in text or re.search(r'[-+*/|&^~<>\\{][ \t]*[-~+]', text) is not None


# ---------------------------------------------------------------- the parser on one text
def evaluate(prog, text, syms, facts):
    labels = {}
    e = Engine(prog, {'filter': enc.filter_stub, 'findlabel': enc.findlabel_stub(None, labels)})
    st = State()
    st.facts = facts
    for n, (k, v, m) in syms.items():
        labels[n] = enc.mklabel(prog, e, st, n, v, enc.USED, K[k], 0)
        if m:
            e.store(st, dom.Ptr(labels[n].obj, prog.ditypes['label']['modifier'][0]), ir.INT(16), m)
    e.setg(st, 'passnumber', 2)
    e.setg(st, 'asmflags', enc.F['NOWARNING'])
    ends = [x for x in e.call('parse', [e.putstr(st, 'ex', text)], st) if x.end[0] != 'infeasible']
    return e, ends


def judge(prog, text, syms, facts):
    """[(text of the mismatch or None, sample)]"""
    try:
        tree = parse_ref(text)
    except Err:
        tree = None
    e, ends = evaluate(prog, text, syms, facts)
    out = []
    d = prog.ditypes['result']
    for x in ends:
        f = x.facts
        t = None
        for _, op, a, b, w, where in x.events('div'):
            z = f.decide('eq', w, b, 0)
            if z is not False:
                t = 'divides by a value that can be 0 at %s' % where
            elif op == 'sdiv' and f.decide('eq', w, b, dom.mask(w)) is not False:
                t = 'divides by a value that can be -1 at %s' % where
        if x.events('div0'):
            t = 'divides by 0'
        try:
            ref = value(tree, syms, f) if tree is not None else None
        except Err:
            ref = None
        if t:
            pass
        elif x.end[0] == 'error':
            if ref is not None and not touching(text) and not (ref[0] == 'REGS' and ref[1] == ANY):
                t = 'is an error (%s), expected %s' % (x.end[1], ref[0] + ' ' + (ref[1] if ref[1] == ANY else dom.show(ref[1])))
        elif x.end[0] != 'ret':
            t = 'ends in %r' % (x.end,)
        else:
            r = x.end[1]

            def get(n):
                return e.load(x, enc.ptradd(r, d[n][0]), ir.INT(8 * d[n][1]))
            kind = get('type')
            got = NAMES.get(kind, 'kind %s' % dom.show(kind)) if isinstance(kind, int) else '?'
            v, m = get('value'), get('modifier')
            if ref is None:
                t = 'is %s %s, expected an error' % (got, dom.show(v))
            elif got != ref[0]:
                t = 'is of kind %s, expected %s' % (got, ref[0])
            elif ref[1] != ANY and not f.equal(v, ref[1], 64):
                t = 'is %s, expected %s' % (dom.show(v), dom.show(ref[1]))
            elif ref[2] != ANY and got in ('ABS', 'BIT') and not f.equal(m, ref[2], 16):
                t = 'has bit number %s, expected %s' % (dom.show(m), dom.show(ref[2]))
        out.append((t, '%s: %s' % (text, 'error' if ref is None else ref[0] + ' ' + (ref[1] if ref[1] == ANY else dom.show(ref[1]))[:60])))
    if not out:
        out.append(('has no outcome', text))
    return out, (e.nstates, e.steps, frozenset(e.fnseen), frozenset(e.bbseen))


V = {n: ('ABS', Sym(n, 64), 0) for n in ('V1', 'V2', 'V3', 'V4', 'V5', 'V6')}
V['*'] = ('ABS', Sym('STAR', 64), 0)


def free():
    return facts_of([])


def structure(tier):
    """(group, text)"""
    for o in OPS:
        for sp in ('', ' ', '\t', '  '):
            yield 'one operator', 'V1%s%s%sV2' % (sp, o, sp)
        yield 'one operator', 'V1 %sV2' % o
        yield 'one operator', 'V1%s V2' % o
    for o, p in itertools.product(OPS, OPS):
        yield 'two operators', 'V1%sV2%sV3' % (o, p)
        yield 'two operators', 'V1 %s V2 %s V3' % (o, p)
        yield 'parentheses', '(V1%sV2)%sV3' % (o, p)
        yield 'parentheses', 'V1%s(V2%sV3)' % (o, p)
        yield 'parentheses', '((V1 %s V2) %s (V3))' % (o, p)
        yield 'parentheses', '(V1%sV2)%s(V3%sV4)' % (o, p, o)
    some = OPS if tier == 'thorough' else ['+', '-', '*', '/', '|', '&', '<<', '>>']
    for c3 in itertools.product(some, repeat=3):
        yield 'three operators', 'V1%sV2%sV3%sV4' % c3
    for l in LEVELS[1:]:
        for n in ((4, 5) if tier == 'thorough' else (4,)):
            for c4 in itertools.product(l, repeat=n):
                yield 'one level', ''.join('V%d%s' % (i + 1, o) for i, o in enumerate(c4)) + 'V%d' % (n + 1)
    for u in '-~':
        yield 'unary', u + 'V1'
        yield 'unary', u + ' V1'
        yield 'unary', u + '(V1)'
        yield 'unary', '-%sV1' % u
        yield 'unary', '~%sV1' % u
        yield 'unary', '-(%sV1)' % u
        yield 'unary', '~(%sV1)' % u
        for o in OPS:
            yield 'unary', '%sV1%sV2' % (u, o)
            yield 'unary', 'V1%s(%sV2)' % (o, u)
            yield 'unary', '%s(V1%sV2)' % (u, o)
            yield 'unary', 'V1%s%sV2' % (o, u)
            yield 'unary', 'V1 %s %sV2' % (o, u)
            yield 'unary', '%s V1 %s V2' % (u, o)
            for p in OPS:
                yield 'unary', '%sV1%sV2%sV3' % (u, o, p)
                yield 'unary', 'V1%s%sV2%sV3' % (o, u, p)
                yield 'unary', 'V1%sV2%s%sV3' % (o, p, u)
    for fn in ('LO', 'HI', 'lo', 'Hi'):
        yield 'functions', '%s(V1)' % fn
        yield 'functions', '%s (V1)' % fn
        yield 'functions', '%s( V1 )' % fn
        yield 'functions', '-%s(V1)' % fn
        yield 'functions', '~%s(V1)' % fn
        yield 'functions', '%s(-V1)' % fn
        yield 'functions', '%s((V1))' % fn
        for o in OPS:
            yield 'functions', '%s(V1%sV2)' % (fn, o)
            yield 'functions', '%s(V1)%sV2' % (fn, o)
            yield 'functions', 'V1%s%s(V2)' % (o, fn)
            yield 'functions', '%s(V1)%s%s(V2)' % (fn, o, fn)
            yield 'functions', '%s(V1%s%s(V2))' % (fn, o, fn)
    for t in ('V1{3}', 'V1 {3}', 'ADDR(V1{3})', 'BIT(V1{3})', 'addr(V1{3})', 'bit(V1{3})', 'BIT(V1{0})', 'BIT(V1{7})', 'BIT(V1{32})', 'BIT(V1{33})',
              'BIT(V1{V2})', 'ADDR(V1{V2})', 'V1{V2}', 'ADDR((V1+V2){3})', 'ADDR(V1)', 'BIT(V1)', 'LO(V1{3})', 'HI(V1{3})', '-V1{3}', '~V1{3}',
              'BIT(V1{3})+ADDR(V2{3})', 'ADDR(V1{2})+3', '3+BIT(V1{2})', 'ADDR(V1{2})*BIT(V2{3})', 'V1{3}+1', '1+V1{3}', 'V1{3}*2', 'V1{3}{2}', '(V1{3})',
              'V1-V2{3}', 'V1{3}-V2', 'V1{3}-V2{3}'):
        yield 'bit references', t
    for t in ('*', '*+3', '*-V1', 'V1-*', 'V1+*', '3+*-1', '*/2', '(*)*2', '2*(*)', '(*+1)&255', '-*', '~*', '*<<1', '*|1', 'LO(*)', 'HI(*)', '*-*', '*+*',
              'V1**', '***', '2**', '*&*', '**2'):
        yield 'location', t
    for t in ("'A'-80H", "'+'+1", "1+'+'", "'('+1", "1+')'", "'a'*2", "'\\''+1", "1-'\\''", "$10+%11-0x1F", '"+"-1', '"-"', "'*'*'*'", "'<<'", "-'a'", "~'-'",
              "0FFH&$0F", "10B+2", "17Q|1", "0b11<<4", "1+10H", "0AH-1", "'ab'+1", "'\\\\'+1", "(')')*2", "LO('ab')", "HI('ab')", "'\"'+1", '"\'"+1', "255/16*16",
              "1+2*3", "1<<4-1", "100-10-1", "64/4/2", "7&3|8", "8|3&1", "1<<2<<3", "256>>2<<1", "2-3", "0-1", "5-3+2", "-1+2", "-2*3", "(2+3)*(4-1)",
              '4294967295+1', '$FFFFFFFF', '-4294967295', "((((1))))", '(((V1)))+(((V2)))'):
        yield 'constants', t


def kinds(prog, c):
    c.rule('every operator on every pair of operand kinds: the documented kind, or an error')
    jobs = []
    syms0 = {'V1': None, 'V2': None}
    for k1 in K:
        for t in ('-V1', '~V1', 'LO(V1)', 'HI(V1)', 'ADDR(V1)', 'BIT(V1)', '(V1)', 'V1'):
            jobs.append((t, {'V1': (k1, Sym('V1', 64), Sym('M1', 16) if k1 == 'BIT' else 0)}))
        for k2 in K:
            for o in OPS + ['\\']:
                jobs.append(('V1%sV2' % o, {'V1': (k1, Sym('V1', 64), 0), 'V2': (k2, Sym('V2', 64), 0)}))
            jobs.append(('V1{V2}', {'V1': (k1, Sym('V1', 64), 0), 'V2': (k2, Sym('V2', 64), 0)}))
    def one(j):
        return judge(prog, j[0], j[1], free())
    run_jobs(c, 'operand kinds', [(('%s with %s' % (t, ', '.join('%s of kind %s' % (n, s[0]) for n, s in sy.items()))), (t, sy)) for t, sy in jobs], one)


def run_jobs(c, group, named, one):
    import datachk
    for (nm, j), (res, us) in zip(named, datachk.pmap(one, [j for _, j in named])):
        c.counts['abstract states'] = c.counts.get('abstract states', 0) + us[0]
        c.counts['abstract steps'] = c.counts.get('abstract steps', 0) + us[1]
        c.fns |= us[2]
        for t, smp in res:
            if t:
                c.bad(group, 'parse.c parse', 'expression %r %s' % (nm, t), 'expression %s' % nm)
            else:
                c.ob(group, smp)


def registers(prog, c):
    c.rule('a range of registers is every register from the first to the last, a list is all its members; a range that runs backwards is an error')
    def one(j):
        text, syms, want = j
        e, ends = evaluate(prog, text, syms, free())
        out = []
        d = prog.ditypes['result']
        for x in ends:
            got = None
            if x.end[0] == 'ret':
                got = e.load(x, enc.ptradd(x.end[1], d['value'][0]), ir.INT(64))
            elif x.end[0] != 'error':
                got = repr(x.end)
            out.append((None if got == want else 'is %s, expected %s' % ('an error' if got is None else got, 'an error' if want is None else want),
                        '%s: %s' % (text, want)))
        return out or [('has no outcome', text)], (e.nstates, e.steps, frozenset(e.fnseen), frozenset(e.bbseen))
    named = []
    pts = (0, 1, 2, 7, 12, 15, 16, 30, 31) if c.tier == 'quick' else range(32)
    for i in pts:
        for j in pts:
            sy = {'V1': ('REGS', 1 << i, 0), 'V2': ('REGS', 1 << j, 0)}
            # register numbers above 30 have no defined bit
            if i < 31 and j < 31:
                want = sum(1 << k for k in range(i, j + 1)) if i <= j else None
                named.append(('V1-V2, registers %d and %d' % (i, j), ('V1-V2', sy, want)))
            named.append(('V1\\V2, registers %d and %d' % (i, j), ('V1\\V2', sy, 1 << i | 1 << j)))
    sy = {'V%d' % i: ('REGS', 1 << i, 0) for i in range(1, 7)}
    named.append(('V1\\V3\\V5', ('V1\\V3\\V5', sy, 0b101010)))
    named.append(('V1-V3\\V5', ('V1-V3\\V5', sy, 0b101110)))
    named.append(('V1\\V3-V5', ('V1\\V3-V5', sy, 0b111010)))
    named.append(('V1-V2\\V4-V6', ('V1-V2\\V4-V6', sy, 0b1110110)))
    run_jobs(c, 'registers', named, one)


def run(c, prog):
    c.rule('every text of the families (all sequences of up to three binary operators, chains of one level, parentheses, signs, functions, bit references, the '
           'location symbol, constants) over symbolic 64-bit values: the value and kind of the documented reading, or an error where the kinds are '
           'wrong or a sign follows another operator; no division by a value that can be 0 or -1')
    groups = {}
    for g, t in structure(c.tier):
        groups.setdefault(g, []).append(t)

    def one(t):
        return judge(prog, t, V, free())
    for g, ts in groups.items():
        run_jobs(c, g, [(t, t) for t in ts], one)
        c.floor(g, len(ts))
    kinds(prog, c)
    registers(prog, c)
    c.floor('operand kinds', 250)
    c.assume.append('values are the 64-bit ones of the implementation (the manual says 32); division by 0 and shifts of 64 or more have no documented '
                    'value; relative values do not occur; a sign or the location symbol written next to another operator (3*-2) may be refused')
