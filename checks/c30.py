"""C30: every line is taken apart as the manual says: label, instruction, operand, comment."""
import dom
import enc
import ir
import encrun
import datachk
import lines
from dom import Sym, Ptr
from lines import WORDS, DEFLABEL, NOLABEL, DEFCOND, DEFMACRO

LABELS = ['', 'LAB', '.L', 'a.b_1', '_x', 'SYM', 'REGX', 'MNELAB', 'L36.567890123456789012345678901234_56']
BADLABELS = ['1LAB', 'L-B', '"L"', 'L(1)', '#', 'L$']
KEYS = ['MNE', 'mne', 'Mne', 'NOL', 'DEFL', 'CALL', 'call', 'IFX', 'MACX', 'ENDX']
BADKEYS = ['XYZ', 'UMNE', 'UMAC', 'SYMB', 'MNE1', 'MN', 'SYM', 'REGX']
OPERS = [None, 'OP', 'A,B', 'A , B', '#1', '(A),Y', '( A , B )', 'A B', '";"', "';'", '"a  b"', '"="', "'='", 'A=B', 'A = B', 'A<B', 'A>=B', '"\\";"', "'\\''", "'\\\\'",
         '"a;b",1', '";";";"'[:7], '"(;"', "'(',';'", '"it\'s; x"', '"x = y"', 'MNE', 'LAB', 'a.b', '.L', '*', '-1', '\\', '%1', '$FF', '1 ', '"tab\there"', '=', '==', '= 1']
TAILS = ['', ' ', '\t', '  \t ', ';', ' ;', '; c', ' ; c', '\t;c', ";it's", '; "', ' ;a;b', '; x = y', '; (', '; )', ' ; MNE OP', '; \\']
LEADS = ['', ' ', '\t', '   ', ' \t ']
GAPS = [' ', '\t', '   ', '\t ']


MODIFIER = 0x1234


def remark(s):
    """the line without its comment"""
    q, k = None, 0
    while k < len(s):
        ch = s[k]
        if q:
            if ch == '\\':
                k += 1
            elif ch == q:
                q = None
        elif ch in '"\'':
            q = ch
        elif ch == ';':
            return s[:k]
        k += 1
    return s


def outside(s, w):
    """first place of w outside strings"""
    q, k = None, 0
    while k < len(s):
        ch = s[k]
        if q:
            if ch == '\\':
                k += 1
            elif ch == q:
                q = None
        elif ch in '"\'':
            q = ch
        elif ch == w:
            return k
        k += 1
    return -1


def isname(s):
    return s == '*' or bool(s) and (s[0].isalpha() or s[0] in '_.') and all(x.isalnum() or x in '_.' for x in s)


def word(s):
    """first word and the rest; blanks in strings and parentheses do not end it"""
    q, d, k = None, 0, 0
    while k < len(s):
        ch = s[k]
        if q:
            if ch == '\\':
                k += 1
            elif ch == q:
                q = None
        elif ch in '"\'':
            q = ch
        elif ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
        elif ch in ' \t' and not d:
            return s[:k], s[k:].strip(' \t')
        k += 1
    return s, None


def keyword(w):
    u = w.upper()
    if u not in WORDS:
        return None
    t, fl, k = WORDS[u]
    if fl & enc.UNDEF or t not in (enc.L_MNEMO, enc.L_MACRO):
        return None
    return u


def reading(line):
    """'empty', 'error', ('label', name) or (label, keyword as written, operand)"""
    s = remark(line)
    free = line[:1] not in (' ', '\t')
    s = s.strip(' \t')
    if not s:
        return 'empty'
    k = outside(s, '=')
    if k >= 0:
        l = s[:k].rstrip(' \t')
        if ' ' not in l and '\t' not in l:
            return (l, 'EQU', s[k + 1:].lstrip(' \t')) if isname(l) else 'error'
    a, rest = word(s)
    label = None
    if keyword(a) is None:
        if rest is None:
            return ('label', a) if free and isname(a) else 'error'
        if not isname(a):
            return 'error'
        label = a
        a, rest = word(rest)
        if keyword(a) is None:
            return 'error'
    fl = WORDS[keyword(a)][1]
    if label is not None and fl & NOLABEL or label is None and fl & DEFLABEL:
        return 'error'
    return label, a, rest


def texts(tier):
    """every part in every form, each two of them that touch together"""
    out = []

    def add(*p):
        t = ''.join(p)
        if len(t) < 200 and t not in seen:
            seen.add(t)
            out.append(t)
    seen = set()
    full = tier == 'thorough'
    for l in LABELS:
        for k in KEYS + BADKEYS:
            for o in (None, 'OP', '";"', 'A=B') if full else (None, 'A = B'):
                add(l or ' ', ' ' if l else '', k, '' if o is None else ' ' + o)
    for l in BADLABELS:
        for k in ('MNE', 'NOL', 'CALL', 'XYZ', ''):
            add(l, ' ' if k else '', k, ' OP' if k else '')
        add(l, ' = 5')
    for n, o in enumerate(OPERS):
        for m, t in enumerate(TAILS):
            if o is not None and o.endswith('\\') and t:
                continue
            for q, (l, k) in enumerate((('', 'MNE'), ('LAB', 'MNE'), ('', 'CALL'))):
                if full or (n + m) % 3 == q:
                    add(l or ' ', ' ' if l else '', k, '' if o is None else ' ' + o, t)
    for l in ('', 'LAB', '.L'):
        for ld in LEADS:
            for n, g in enumerate(GAPS):
                for m, g2 in enumerate(GAPS):
                    for q, k in enumerate(('MNE', 'CALL', 'IFX')):
                        if full or (n + m) % 3 == q:
                            add(ld, l, g if l else '', k, g2, 'A , B', ' ')
    for n, l in enumerate(['LAB', '.L', '*', 'MNE', 'a1', '1a', 'SYM', 'LAB MNE', '']):
        for m, eq in enumerate(('=', ' = ', ' =', '= ', '\t=\t')):
            for r, o in enumerate(('5', 'A+B', "'='", '"x=y"', "';'", 'A = B', '*')):
                for q, t in enumerate(('', ' ', ' ; c', '; x=y', ";'")):
                    if full or (n + m + r) % 5 == q:
                        add(' ' if (n + r) % 2 else '', l, eq, o, t)
    for l in ('', 'LAB'):
        for g in GAPS:
            for g2 in GAPS:
                for k in ('MNE', 'CALL', 'IFX'):
                    for o in ('A=B', '= 1', 'A = B'):
                        if k != 'IFX' or not l:
                            add(l or ' ', g if l else '', k, g2, o)
    for a in ('LAB', 'SYM', 'XYZ', 'L-B'):
        for b in ('XYZ', 'LAB', 'SYM', 'UMNE', '1A', 'MNE'):
            for d in ('MNE', 'CALL', 'MNE OP', 'LAB MNE', 'XYZ', '=', '= 5', 'DEFL 5', 'NOL'):
                add(a, ' ', b, ' ', d)
                if full:
                    add(' ', a, ' ', b, ' ', d)
    for l in LABELS + BADLABELS:
        for ld in ('', ' ', '\t', '\t '):
            for t in TAILS if full else TAILS[::3]:
                add(ld, l, t)
    for t in TAILS:
        for ld in LEADS:
            add(ld, t)
    for t in ('"\xe9"', "'\xe9'", '"a\xff;b"', '"\x80"', 'OP ; \xe9', 'OP;\xff', 'op', 'Op , oP', '"Op"', "'a'", '#$ff', '"%s"', '%1011'):
        for k in ('MNE', 'LAB MNE', 'CALL'):
            add(' ' if k != 'LAB MNE' else '', k, ' ', t)
    return out


def s_word(w):
    def f(e, st, a, ins):
        st.ev('taken', w, a[0], text(e, st, a[1]), text(e, st, a[2]), text(e, st, a[3]))
        return 0
    return f


def s_call(e, st, a, ins):
    st.ev('taken', 'CALL', a[1], None, None, text(e, st, a[2]), a[0])
    return 0


def s_define(e, st, a, ins):
    st.ev('deflabel', e.getstr(st, a[0]), a[1], a[2], a[3], ins.where())
    return Ptr('*deflabel', 0)


def text(e, st, p):
    if isinstance(p, int):
        return None if p == 0 else '?'
    t = e.getstr(st, p)
    return '?' if t is None else t.decode('latin1')


def plain(e, st):
    e.setg(st, 'asmflags', enc.F['CODE_ON'])
    e.setg(st, 'pc', 0x1000)
    for o in list(st.mem):
        if isinstance(o, str) and o.startswith('lab:') and o[4:] in WORDS:
            e.store(st, Ptr(o, e.p.ditypes['label']['modifier'][0]), ir.INT(16), MODIFIER)


def judge(prog, job):
    line, status = job
    want = reading(line)
    extra = {'H:' + w: s_word(w) for w, v in WORDS.items() if v[2] and v[0] == enc.L_MNEMO}
    extra['macrocall'] = s_call
    extra['deflabel'] = s_define
    L = lines.Line(prog, line, status, extra=extra, setup=plain)
    u = encrun.U(L.e.nstates, L.e.steps, frozenset(L.e.fnseen), frozenset(L.e.bbseen))
    if not L.ends:
        return 'no way through', u
    for x in L.ends:
        er = [v[1].decode('latin1') if isinstance(v[1], bytes) else v[1] for v in x.events('error')]
        took = x.events('taken')
        defs = [v[1].decode('latin1') if isinstance(v[1], bytes) else v[1] for v in x.events('deflabel')]
        if x.end[0] != 'ret' and not er:
            return 'ends in %r' % (x.end,), u
        sel = bool(status & 2)
        for v in x.events('deflabel'):
            if not x.facts.equal(v[4], lines.STAR, 64):
                return 'the label stands for %s, not for the location of the line' % dom.show(v[4]), u
        if want == 'error':
            if took:
                return 'is taken for %r, expected an error' % (took[0][1:],), u
            if not er and sel:
                return 'is accepted, expected an error', u
            continue
        if want == 'empty':
            if er or took or defs:
                return 'an empty line gives %r' % ((er or took or defs)[0],), u
            continue
        if er:
            return 'gives error "%s"' % er[0], u
        if want[0] == 'label':
            if took or defs != ([want[1]] if sel else []):
                return 'defines %r and runs %r, expected the label %s' % (defs, [t[1:] for t in took], want[1]), u
            continue
        l, k, o = want
        w = keyword(k)
        fl = WORDS[w][1]
        mine = [l] if l is not None and not fl & DEFLABEL and sel else []
        if defs != mine:
            return 'defines %r, expected %r' % (defs, mine), u
        nested = fl & (DEFCOND | DEFMACRO)
        if not sel and not nested:
            if took:
                return 'runs %r in a line that is not selected' % (took[0][1:],), u
            continue
        if len(took) != 1 or took[0][1] != w:
            return 'runs %r, expected %s' % ([t[1:] for t in took], w), u
        _, _, a0, gl, gm, go = took[0][:6]
        if (go or None) != (o or None):
            return 'hands over the operand %r, expected %r' % (go, o), u
        if w != 'CALL':
            if gl != l:
                return 'hands over the label %r, expected %r' % (gl, l), u
            if not nested and (not isinstance(a0, int) or a0 & 0xffff != MODIFIER):
                return 'hands over the number %r of another instruction' % (a0,), u
            if gm is None or gm.upper() != k.upper():
                return 'hands over the instruction %r, expected %r' % (gm, k), u
        if (nested or w == 'CALL') and a0 != status:
            return 'hands over the status %r, expected %d' % (a0, status), u
    return None, u


def run(c, prog):
    c.level = 'proof'
    c.rule('each line of the grammar: after the comment, which starts at the first semicolon outside of strings, is dropped, a name before "=" is given the rest as '
           'value, otherwise the first word is the instruction or, if there is none of that name, the label and the second word is the instruction, and the '
           'rest without surrounding blanks is its operand; exactly that instruction is run with these texts, a label stands for the location where its '
           'instruction does not take it, and every other line is an error')
    ts = texts(c.tier)
    jobs = [(t, 3) for t in ts] + [(t, s) for k, t in enumerate(ts) for s in (0, 1, 2) if k % 12 == s]
    for (t, s), (bad, u) in zip(jobs, datachk.pmap(lambda j: judge(prog, j), jobs, max(1, len(jobs) // 64))):
        c.used(u)
        nm = '%r, status %d' % (t, s)
        if bad:
            c.bad('line', 'crasm.c asmline', '%r%s: %s' % (t, '' if s == 3 else ' (status %d)' % s, bad), nm)
        else:
            c.ob('line', nm)
    c.floor('line', 1000)
