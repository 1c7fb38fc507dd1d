"""C14: conditions select the branch their comparison says."""
import dom
import enc
import ir
import nest
from dom import Sym, Ptr
from eng import END
from encchk import facts_of

F = enc.F
OPS = {'=': 'eq', '==': 'eq', '<>': 'ne', '!=': 'ne', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge'}
HOLDS = {'eq': '=', 'ne': '<>', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}
KINDS = {'ABS': enc.L_ABS, 'REGS': enc.L_REGS, 'BIT': enc.L_BIT, 'MNEMO': enc.L_MNEMO, 'MACRO': enc.L_MACRO}
SHAPES = ['%s%s%s', '%s %s %s', '%s\t%s  %s', '(%s)%s(%s)']
V = [Sym('V1', 64), Sym('V2', 64)]


def taken(prog, oper, syms, facts=None, flags=None, passno=2):
    """ends of an IF with the operand: True (first part), False, 'error', or something else"""
    def line(e, st, a, ins):
        st.end = ('first', a[1])
        return END
    labels = {}
    e, st = nest.world(prog, {'asmline': line, 'findlabel': enc.findlabel_stub(None, labels)}, budget=1, kinds=['line'])
    for n, (v, typ, mod, fl) in syms.items():
        labels[n] = enc.mklabel(prog, e, st, n, v, fl, typ, mod if isinstance(mod, int) else 0)
        if not isinstance(mod, int):
            e.store(st, Ptr(labels[n].obj, prog.ditypes['label']['modifier'][0]), ir.INT(16), mod)
    e.setg(st, 'macrolevel', 0)
    e.setg(st, 'sourcelevel', 0)
    e.setg(st, 'passnumber', passno)
    e.setg(st, 'linenumber', 0)
    e.setg(st, 'lineprefix', 0)
    nest.level(prog, e, st, 0, 1, nest.SRC)
    e.setg(st, 'asmflags', F['NOWARNING'] | F['NOERROR'] if flags is None else flags)
    if facts:
        st.facts = facts
    out = []
    op = 0 if oper is None else e.putstr(st, 'oper', oper)
    for x in e.call('Xif', [3, 0, e.putstr(st, 'mn', 'IF'), op], st):
        if x.end[0] == 'infeasible':
            continue
        if x.end[0] == 'first' and isinstance(x.end[1], int):
            r = bool(x.end[1] & 2)
        elif x.end[0] == 'recover':
            r = 'error'
        else:
            r = x.end
        out.append((r, x, e))
    return out


def word(r):
    return {True: 'takes the first part', False: 'takes the other part', 'error': 'is an error'}.get(r, r if isinstance(r, str) else 'ends in %r' % (r,))


def judge(c, group, nm, ends, want):
    """want: acceptable outcomes, or a function of the end's facts giving them"""
    hit = False
    for r, x, e in ends:
        w = want(x.facts) if callable(want) else want
        if w is None:
            continue
        hit = True
        if isinstance(r, (bool, str)) and r in w:
            c.ob(group, '%s %s' % (nm, word(r)))
        else:
            c.bad(group, 'macro.c Xif', '%s %s, expected: %s' % (nm, word(r), ' or '.join(word(q) for q in w)), nm)
    if not hit:
        c.bad(group, 'macro.c Xif', nm + ': no way to select', nm)
    if ends:
        c.used(ends[0][2])


def orders():
    yield '=', facts_of([]), (V[0], V[0])
    for o, p in (('<', 'slt'), ('>', 'sgt')):
        yield o, facts_of([(p, 64, V[0], V[1], True)]), (V[0], V[1])


def numbers(c, prog):
    c.rule('every comparison operator and layout, both operands numbers: in each of the three orders of their (64-bit signed) values the first part is taken '
           'exactly when the comparison holds')
    for op, p in OPS.items():
        for k, sh in enumerate(SHAPES):
            oper = sh % ('V1', op, 'V2')
            for o, f, (a, b) in orders():
                syms = {'V1': (a, enc.L_ABS, 0, 0), 'V2': (b, enc.L_ABS, 0, 0)}
                for fl in ((None, F['IFLIST_ON']) if k == 0 else (None,)):
                    judge(c, 'comparison', 'IF %r with V1 %s V2%s' % (oper, o, ', listed' if fl else ''), taken(prog, oper, syms, f, fl), [o in HOLDS[p]])
    # constant operands around signs and sizes
    vals = [0, 1, 255, 256, 65535, 0x7fffffff, 0x80000000, 0xffffffff]
    for op, p in OPS.items():
        for a in vals:
            for b in vals:
                if abs(vals.index(a) - vals.index(b)) > 2:
                    continue
                for sa, sb in (('', ''), ('-', ''), ('', '-'), ('-', '-')):
                    x, y = (-a if sa else a), (-b if sb else b)
                    o = '<' if x < y else '>' if x > y else '='
                    oper = '%s%d %s %s%d' % (sa, a, op, sb, b)
                    judge(c, 'constants', 'IF %r' % oper, taken(prog, oper, {}), [o in HOLDS[p]])
    c.floor('comparison', 120)
    c.floor('constants', 500)


def texts(c, prog):
    c.rule('operators are found outside quotes and parentheses only, the longest one that is written there')
    for oper, want in (("'<'=3CH", True), ("'<' = 3CH", True), ("'>'<>62", False), ('"="==3DH', True), ("'=' < '>'", True), ("'\\''=27H", True),
                       ("(1<<4)>(1<<3)", True), ("(1<<3)>(1<<4)", False), ("(8>>1)=4", True), ("4=(8>>1)", True), ("8>>1=4", True), ("8>>1>=4", True),
                       ("1<<3<=7", False), ("1<<3<>8", False), ("16>>2!=4", False), ("2==2", True), ("2=2", True), ("3=2", False),
                       ("1+1=2", True), ("2=1+1", True), ("2*3>=3+3", True), ("2*3>3+3", False), ("-1<0", True), ("0>-1", True), ("-1<=-1", True),
                       ("0", False), ("1", True), ("-1", True), ("256", True), ("65536", True), ("4294967295", True), ("5-5", False), ("5-4", True),
                       ("(0)", False), ("(1)", True), ("1-2<3-1", True), ("'a'", True), ("~0", True), ("1<2", True), ("2<1", False), ("1>2", False), ("2>1", True)):
        judge(c, 'operand text', 'IF %r' % oper, taken(prog, oper, {}), [want])
    c.floor('operand text', 30)


def single(c, prog):
    c.rule('a single operand selects the first part exactly when its value is not zero; one that is not a number is never taken as zero')
    for z in (True, False):
        f = facts_of([] if z else [('ne', 64, V[0], 0, True)])
        judge(c, 'single operand', 'IF V1 with V1 %s' % ('zero' if z else 'not zero'),
              taken(prog, 'V1', {'V1': (0 if z else V[0], enc.L_ABS, 0, 0)}, f), [not z])
    for k, t in KINDS.items():
        if k != 'ABS':
            judge(c, 'single operand', 'IF V1 with V1 of kind %s' % k, taken(prog, 'V1', {'V1': (V[0], t, Sym('M1', 16), 0)}), [True, 'error'])
    judge(c, 'single operand', 'IF without operand', taken(prog, None, {}), [False, 'error'])


def kinds(c, prog):
    c.rule('operands of different kinds are not equal and have no order; equal ones of the same kind agree in value and bit number')
    for op, p in OPS.items():
        oper = 'V1 %s V2' % op
        for k1, t1 in KINDS.items():
            for k2, t2 in KINDS.items():
                if k1 == k2:
                    continue
                syms = {'V1': (V[0], t1, 0, 0), 'V2': (V[0], t2, 0, 0)}
                judge(c, 'different kinds', 'IF V1 %s V2 with kinds %s, %s and one value' % (op, k1, k2), taken(prog, oper, syms),
                      ['error', False] if p == 'eq' else ['error', True] if p == 'ne' else ['error'])
        for k, t in KINDS.items():
            if k == 'ABS':
                continue
            if p not in ('eq', 'ne'):
                judge(c, 'no order', 'IF V1 %s V2 of kind %s' % (op, k), taken(prog, oper, {'V1': (V[0], t, 0, 0), 'V2': (V[1], t, 0, 0)}), ['error'])
                continue
            for same, other in ((True, None), (False, 'value'), (False, 'bit number')):
                f = facts_of([('ne', 64, V[0], V[1], True)] if other == 'value' else [])
                syms = {'V1': (V[0], t, 3, 0), 'V2': (V[1] if other == 'value' else V[0], t, 5 if other == 'bit number' else 3, 0)}
                judge(c, 'same kind', 'IF V1 %s V2 of kind %s, %s' % (op, k, 'equal' if same else 'different ' + other),
                      taken(prog, oper, syms, f), [same == (p == 'eq')])
    c.floor('different kinds', 150)
    c.floor('same kind', 40)


def forward(c, prog):
    c.rule('an operand not known yet is an error in both passes: no branch is selected from a value that may change')
    for op in ('=', '<>', '<', '>', '<=', '>='):
        for who in ('V1', 'V2'):
            for ps in (1, 2):
                syms = {n: (V[k], enc.L_ABS, 0, enc.UNDEF | enc.FORWARD | enc.NOREDEF if n == who else 0) for k, n in enumerate(('V1', 'V2'))}
                judge(c, 'not defined yet', 'IF V1 %s V2 in pass %d, %s defined later' % (op, ps, who), taken(prog, 'V1 %s V2' % op, syms, passno=ps), ['error'])
    for ps in (1, 2):
        judge(c, 'not defined yet', 'IF V1 in pass %d, V1 defined later' % ps,
              taken(prog, 'V1', {'V1': (V[0], enc.L_ABS, 0, enc.UNDEF | enc.FORWARD | enc.NOREDEF)}, passno=ps), ['error'])


def run(c, prog):
    numbers(c, prog)
    texts(c, prog)
    single(c, prog)
    kinds(c, prog)
    forward(c, prog)
    c.assume.append('numbers have bit number 0; relative values do not occur (no processor of this assembler sets F_RELATIF); '
                    'a >, < written in the same operand as a shift outside parentheses is read as the comparison (syntax error)')
