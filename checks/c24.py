"""C24: operand lists are split at their separators only; blanks and case do not matter; pieces stay intact."""
import itertools
import re

import datachk
import dom
import enc
import encrun
import flow
import ir
import isa
from dom import Ptr, Sym
from encchk import facts_of
from eng import Engine, State
from ir import AnalysisError


# ---------------------------------------------------------------- reference
def closed(t):
    """quotes are closed and parentheses balanced at the end of t"""
    q, depth, esc = None, 0, False
    for ch in t:
        if esc:
            esc = False
        elif q:
            if ch == '\\':
                esc = True
            elif ch == q:
                q = None
        elif ch in '\'"':
            q = ch
        elif ch == '(':
            depth += 1
        elif ch == ')':
            depth -= 1
    return q is None and not esc and depth == 0


def wellformed(t):
    """every string is closed and parentheses pair, from either end"""
    q, depth, esc, lo, hi = None, 0, False, 0, 0
    for ch in t:
        if esc:
            esc = False
        elif q:
            esc = ch == '\\'
            if ch == q:
                q = None
        elif ch in '\'"':
            q = ch
        elif ch in '()':
            depth += 1 if ch == '(' else -1
            lo, hi = min(lo, depth), max(hi, depth)
    return q is None and depth == 0 and (lo == 0 or hi == 0)


def literal(s, pos, seg):
    for ch in seg:
        if ch == '_':
            while pos < len(s) and s[pos] in ' \t':
                pos += 1
        elif pos < len(s) and (s[pos].upper() == ch.upper() or ch == ' ' and s[pos] == '\t'):
            pos += 1
        else:
            return None
    return pos


def match(s, pat):
    """captures, or None.  Each capture is the shortest closed text followed by what the pattern has next"""
    segs = pat.split('?')
    pos = literal(s, 0, segs[0])
    if pos is None:
        return None
    caps = []
    for i, seg in enumerate(segs[1:]):
        last = i == len(segs) - 2
        if last and seg == '':
            return caps + [s[pos:]]
        for end in range(pos, len(s) + 1):
            if not closed(s[pos:end]):
                continue
            m = literal(s, end, seg)
            if m is not None and (not last or m == len(s)):
                caps.append(s[pos:end])
                pos = m
                break
        else:
            return None
    return caps if pos == len(s) or segs[-1] == '' and len(segs) > 1 else None


# ---------------------------------------------------------------- the program's patterns
def patterns(prog):
    """pattern strings: constants given to filter, and the strings of the tables whose entries are given to it"""
    out = set()
    tables = set()
    for f in prog.funcs.values():
        for i, cal in prog.callees(f):
            if prog.funcs.get(cal) is not None and prog.funcs[cal].cname == 'filter':
                s = flow.conststr(prog, f, i.a[1][1][1])
                if s is not None:
                    out.add(s)
                else:
                    tables |= flow.strings_behind(prog, f, i.a[1][1][1])
    return out, tables


# ---------------------------------------------------------------- one call
def one_match(prog, s, pat):
    try:
        r, caps, con, note = enc.filter_summary(prog, s.encode('latin1'), pat.encode('latin1'))
    except AnalysisError as x:
        return 'ends wrongly: %s' % x
    if note:
        return note
    want = match(s, pat)
    got = [x.decode('latin1') for x in caps] if r else None
    if not wellformed(s):
        return None
    if got != want:
        return 'gives %r, expected %r' % (got, want)
    return None


PIECES = ['v', 'W1', "'a,b'", '"x;y"', '(a,b)', "'('", '")"', "'\\''", '"\\""', "'\"'", '"\'"', 'f(a,(b))', "('x)')", '((v))', "'\\\\'", "(a)(b)",
          "'='", '(a=b)', "'a b'", '(a b)', '-1', '', "'<'", '(3<4)', "','", '"\\\\\\""',
          '"("', "')'", '"a(b"', "'))'", '(")")', '("(")', '"\\"("', '","', '")("', "';'", '"(\\\\"']


def literals(pat):
    return [x for x in re.split(r'[?_]+', pat) if x]


def texts(pat, tier):
    """exhaustive short texts over the characters that matter, then structured ones"""
    lit = ''.join(sorted(set(''.join(literals(pat)))))
    al = []
    for ch in 'v \t()\'"\\' + lit + lit.lower():
        if ch not in al:
            al.append(ch)
    n = 4 if tier == 'thorough' else 3
    if len(al) > 12:
        n -= 1
    for k in range(n + 1):
        for t in itertools.product(al, repeat=k):
            yield ''.join(t)
    segs = pat.split('?')
    blank = ['', ' ', '\t', '  \t ']
    # the pattern itself with every piece in every place and every amount of blanks
    for k, b in enumerate(blank):
        for p in PIECES:
            for o in ('v', "'('"):
                for case in (str.upper, str.lower):
                    for place in range(max(1, len(segs) - 1)):
                        t = ''
                        for i, seg in enumerate(segs):
                            if i:
                                t += p if i - 1 == place else o
                            t += case(seg).replace('_', b)
                        yield t
    sep = literals(pat)[:2] or [',']
    for a, b, c in itertools.product(PIECES, PIECES, PIECES[:12]):
        yield a + sep[0] + b
        if tier == 'thorough' or len(a) + len(b) < 9:
            yield a + ' ' + sep[0] + '\t' + b + sep[-1] + c


def matching(c, prog):
    c.rule('every pattern of the program on every short text over the characters that matter to it and on structured texts with strings, escapes and nested '
           'parentheses: matches exactly when the text can be divided, a piece being the shortest text with closed strings and balanced parentheses before '
           'what the pattern has next; the pieces are exactly the characters between; they lie in memory that later calls do not reuse')
    direct, tabled = patterns(prog)
    pats = sorted(direct | tabled)
    jobs = []
    for p in pats:
        jobs += [(p, chunk) for chunk in chunks(list(dict.fromkeys(texts(p, c.tier))), 400)]

    def one(j):
        p, ts = jobs[j]
        out = []
        for t in ts:
            e = one_match(prog, t, p)
            if e:
                out.append((t, e))
        n = prog.__dict__.pop('_filteng', [])
        prog.__dict__['_filt'] = {}
        return out, (sum(x[0] for x in n), sum(x[1] for x in n), frozenset().union(*[x[2] for x in n]) if n else frozenset())
    for (p, ts), (out, us) in zip(jobs, datachk.pmap(one, range(len(jobs)))):
        c.counts['abstract states'] = c.counts.get('abstract states', 0) + us[0]
        c.counts['abstract steps'] = c.counts.get('abstract steps', 0) + us[1]
        c.fns |= us[2]
        c.ob('match', 'pattern %r: %d texts' % (p, len(ts)), len(ts) - len(out))
        for t, e in out:
            c.bad('match', 'filter.c filter', 'pattern %r on %r %s' % (p, t, e), 'pattern %r on %r' % (p, t))
    c.counts['patterns'] = len(pats)
    c.floor('match', 50000)
    return pats


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


# ---------------------------------------------------------------- sequences of calls
class Chain:
    def __init__(s, prog):
        s.e = Engine(prog)
        s.prog = prog
        s.st = State()
        buf = prog.gl('buffer', 'filter.c')
        s.e.setg(s.st, 'bufferpos', Ptr(buf.name, 0))
        s.n = 0

    def call(s, fn, args):
        s.e.push(s.st, s.prog.fn(fn), args, None, None)
        ends = [x for x in s.e.run(s.st) if x.end[0] not in ('infeasible', 'fatal')]
        if len(ends) != 1 or ends[0].end[0] != 'ret':
            raise AnalysisError('%s: %r' % (fn, [x.end for x in ends]))
        s.st = ends[0]
        r = s.st.end[1] if len(s.st.end) > 1 else None
        s.st.end = None
        s.st.frames = []
        return r

    def text(s, t):
        s.n += 1
        return s.e.putstr(s.st, 'text%d' % s.n, t)

    def filter(s, p, pat):
        outs = []
        for i in range(pat.count('?')):
            s.n += 1
            outs.append(s.e.newobj(s.st, 'slot%d' % s.n, 8))
        r = s.call('filter', [p, s.text(pat)] + outs)
        return [s.e.load(s.st, o, ir.PTRT) for o in outs] if r else None

    def get(s, p):
        t = s.e.getstr(s.st, p)
        return None if t is None else t.decode('latin1')


def sequences(c, prog, pats):
    c.rule('a whole list taken apart by successive calls, with other patterns tried on the pieces in between: every piece taken earlier still reads the same')
    others = [p for p in pats if '?' in p][::7] + ['(?)', '?_+_?', '?.?']
    lists = []
    for k in (2, 3, 5):
        for i in range(0, len(PIECES)):
            lists.append([PIECES[(i + j * (k + 3)) % len(PIECES)] or 'v' for j in range(k)])

    def one(i):
        ps = lists[i]
        out = []
        for sep in (',', ' ,\t'):
            ch = Chain(prog)
            rest = ch.text(sep.join(ps))
            kept = []
            for k, want in enumerate(ps):
                r = ch.filter(rest, '?_,_?')
                if k == len(ps) - 1:
                    if r is not None:
                        out.append('the last piece is divided')
                    kept.append((rest, want))
                    break
                if r is None:
                    out.append('piece %d is not found' % k)
                    break
                kept.append((r[0], want))
                rest = r[1]
                for o in others[k % 3::3]:
                    ch.filter(r[0], o)
            for p, want in kept:
                if ch.get(p) != want:
                    out.append('piece %r reads %r afterwards' % (want, ch.get(p)))
        return out, (ch.e.nstates, ch.e.steps, frozenset(ch.e.fnseen))
    for ps, (out, us) in zip(lists, datachk.pmap(one, range(len(lists)))):
        c.fns |= us[2]
        for t in out:
            c.bad('sequence', 'filter.c filter', 'list %s: %s' % (','.join(ps), t), 'list %s' % ','.join(ps))
        if not out:
            c.ob('sequence', ','.join(ps))
    c.floor('sequence', 70)


# ---------------------------------------------------------------- reverse
def rev(t):
    units, q, i = [], None, 0
    while i < len(t):
        ch = t[i]
        if q and ch == '\\' and i + 1 < len(t):
            units.append(t[i:i + 2])
            i += 2
            continue
        if q:
            q = None if ch == q else q
        elif ch in '\'"':
            q = ch
        units.append(ch)
        i += 1
    return ''.join(reversed(units))


def reversal(c, prog):
    c.rule('an operand turned around for the parser has its characters in the opposite order, escapes kept whole, and turned again is the same text')
    ts = []
    for k in range(0, 5 if c.tier == 'thorough' else 4):
        ts += [''.join(t) for t in itertools.product('v()\'"\\,', repeat=k)]
    ts += [a + o + b for a in PIECES for b in PIECES for o in ('+', ' , ', '')]
    ts = [t for t in dict.fromkeys(ts) if wellformed(t)]
    ch = chunks(ts, 60)

    def one(i):
        out = []
        for t in ch[i]:
            k = Chain(prog)
            p = k.text(t)
            k.call('reverse', [p])
            a = k.get(p)
            if a != rev(t):
                out.append((t, 'becomes %r, expected %r' % (a, rev(t))))
            k.call('reverse', [p])
            if k.get(p) != t:
                out.append((t, 'turned twice becomes %r' % k.get(p)))
        return out, (k.e.nstates, k.e.steps, frozenset(k.e.fnseen))
    for l, (out, us) in zip(ch, datachk.pmap(one, range(len(ch)))):
        c.fns |= us[2]
        c.ob('reverse', '%r' % l[-1], 2 * len(l) - len(out))
        for t, e in out:
            c.bad('reverse', 'filter.c reverse', 'text %r %s' % (t, e), 'reverse %r' % t)
    c.floor('reverse', 1000)


# ---------------------------------------------------------------- spellings of one instruction
def tokens(t):
    return re.findall(r"AF'|[A-Za-z0-9_.%]+|\S", t, re.I)


def spellings(t, tier):
    ks = tokens(t)
    if len(ks) < 2:
        yield t.upper()
        yield t.lower()
        return
    yield ' '.join(ks).upper()
    yield '\t'.join(ks).lower()
    if tier == 'thorough':
        for i in range(1, len(ks)):
            yield ''.join(ks[:i]) + ' \t' + ''.join(ks[i:])
            yield (''.join(ks[:i]) + '  ' + ''.join(ks[i:])).upper()


def same(a, b):
    """the outcomes of two runs agree wherever both are possible"""
    for x in a:
        for y in b:
            f = both(x, y)
            if f is None:
                continue
            if x.kind != y.kind:
                return 'one %s, the other %s' % (kind(x), kind(y))
            if x.kind == 'ret' and (len(x.bytes) != len(y.bytes) or not all(f.equal(p, q, 8) for p, q in zip(x.bytes, y.bytes))):
                return 'one gives [%s], the other [%s]' % (' '.join(map(dom.show, x.bytes)), ' '.join(map(dom.show, y.bytes)))
    return None


def kind(x):
    return 'is assembled' if x.kind == 'ret' else 'is an error (%s)' % x.msg


def both(x, y):
    f = flow.meet(x.facts, y.facts)
    return f


def spelled(c, prog):
    c.rule('every instruction and operand form written with blanks between all its parts and in the other letter case: the same bytes or an error alike')
    tasks = []
    for prop in ('C01', 'C02', 'C03'):
        for t in encrun.tasks(prog, prop, 'quick'):
            if t[4] == 0 and t[2] and not re.search(r'[ \t]', t[2]) and encrun.spec_of(prop, t[0], t[1], t[3], 0) is not None:
                tasks.append((t[0], t[1], t[2]))
    if c.tier != 'thorough':
        seen = {}
        keep = []
        for t in tasks:
            en = encrun.cpu(prog, t[0]).words[t[1]]
            k = (t[0], en.ptr.name, t[2])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 2:
                keep.append(t)
        tasks = keep
    f0 = facts_of(isa.DOM)

    def one(i):
        cn, m, text = tasks[i]
        k = encrun.cpu(prog, cn)
        syms = {n: (Sym(n, 64), enc.USED) for n in ('V1', 'V2')}
        out = []
        e, a = enc.run_case(k, k.words[m], text, syms, 2, facts=f0)
        vs = list(dict.fromkeys(spellings(text, c.tier)))
        for v in vs:
            if v == text:
                continue
            try:
                e, b = enc.run_case(k, k.words[m], v, syms, 2, facts=f0)
            except AnalysisError as x:
                out.append((v, str(x)))
                continue
            d = same(a, b)
            if d:
                out.append((v, d))
        return out, len(vs), (e.nstates, e.steps, frozenset(e.fnseen))
    for (cn, m, text), (out, n, us) in zip(tasks, datachk.pmap(one, range(len(tasks)))):
        c.fns |= us[2]
        c.ob('spelling', '%s %s %s' % (cn, m.lower(), text), n - len(out))
        for v, d in out:
            c.bad('spelling', 'handler of %s' % m, '%s "%s %s" and "%s %s": %s' % (cn, m, text, m, v, d), '%s %s %s' % (cn, m.lower(), v))
    c.floor('spelling', 3000)


# ---------------------------------------------------------------- life of the pieces
def lifetime(c, prog):
    c.rule('no piece taken from a line is used after a call that can start the next line: on every path from such a call to a use the piece was taken again')
    for f, where, what in flow.stale(prog, c):
        c.bad('lifetime', where, '%s: %s' % (f, what), 'lifetime %s' % f)
    c.floor('lifetime', 10)


def run(c, prog):
    pats = matching(c, prog)
    sequences(c, prog, pats)
    reversal(c, prog)
    spelled(c, prog)
    lifetime(c, prog)
    c.assume.append('texts with an open string or unpaired parentheses may be divided in any way')
