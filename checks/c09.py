"""C09: both passes give a statement the same length."""
import dom
import enc
import encchk
import encrun
import datachk
import isa
from dom import Sym
from eng import Engine, State
from ir import AnalysisError

U_, FW, US = enc.UNDEF, enc.FORWARD, enc.USED
NR = enc.NOREDEF
V1, V2 = Sym('V1', 64), Sym('V2', 64)

# (name, (V1 first pass value, flags), (V2 ...)): F not yet defined, D defined before, P defined before and referenced before that
FWD, DEF, PAST = U_ | FW | US | NR, US, FW | US | NR
STATES = {'F': FWD, 'D': DEF, 'P': PAST}


def lens(ends):
    return [(len(x.bytes), x) for x in ends]


def syms(combo, passno):
    out = {}
    for n, s in zip(('V1', 'V2'), combo):
        v = Sym(n, 64)
        if passno == 1 and s == 'F':
            v = 0
        out[n] = (v, STATES[s])
    return out


def compare(prog, cn, runf, combo):
    """[(where, text)], obligations, engines"""
    f0 = encchk.facts_of(isa.DOM)
    e2, ends2 = runf(2, syms(combo, 2), f0)
    e1, ends1 = runf(1, syms(combo, 1), f0)
    es = [e1, e2]
    bad, n = [], 0
    ok2 = [x for x in ends2 if x.kind == 'ret']
    l1 = {len(x.bytes) for x in ends1}
    l2 = {len(x.bytes) for x in ok2}
    for x in ends1 + ends2:
        if x.kind not in ('ret', 'error'):
            bad.append((x.where or '?', 'ends in %s %s' % (x.kind, x.msg)))
    if len(l1 | l2) <= 1:
        return bad, max(1, len(ok2)), es
    for x in ok2:
        e, p1 = runf(1, syms(combo, 1), x.facts)
        es.append(e)
        for y in p1:
            n += 1
            if len(y.bytes) != len(x.bytes):
                w = y.where or (x.rec[-1][2] if x.rec else '?')
                bad.append((w, '%d bytes in the first pass (%s%s), %d in the second' % (
                    len(y.bytes), y.kind, ' "%s"' % y.msg if y.msg else '', len(x.bytes))))
    return bad, n, es


def cases(prog, tier):
    for prop in ('C01', 'C02', 'C03'):
        seen = set()
        for cn, m, text, form, fwd in encrun.tasks(prog, prop, tier):
            if fwd or (cn, m, text) in seen:
                continue
            seen.add((cn, m, text))
            yield cn, m, text
    for cn in ('6800', '6502', 'Z80'):
        for m in ('DB', 'DW', 'DDB', 'DL'):
            for text in ('V1', 'V1,V2', 'V1,1,V2', 'V1+V2'):
                yield cn, m, text
        for text in ('V1', 'V1,V2', '3,V1', '0,V2', 'V1+1,3', 'V1+V2'):
            yield cn, 'DS', text


EXPR = ['V1+1', '1+V1', 'V1-V2', '-V1', '~V1', '$10|V1', 'V1&255', 'V1^V2', 'V1*2', 'V1/2', 'V1<<1', '1>>V1', 'lo(V1)', 'hi(V1)', '(V1+1)*2',
        'V1+V2', 'V2-V1', '1+V2+V1', 'addr(V1{3})', 'bit(V1{V2})', 'V1|V2', 'V1&V2', 'V1*V2', 'V2/V1', 'V1<<V2', 'V2>>V1']


def run(c, prog):
    c.rule('for every instruction, operand shape and symbol state (not yet defined, defined, defined after an earlier reference): each path of '
           'the second pass that produces code emits as many bytes as every path of the first pass with the same symbols, errors included')
    for n in ('6800', '6801', '6803', '6500', '6502', '65C02', 'Z80'):
        for p in (1, 2):
            encrun.cpu(prog, n, p)
    ps = encrun.pseudo_names(prog)
    jobs = []
    for cn, m, text in cases(prog, c.tier):
        vs = [v for v in ('V1', 'V2') if text and v in text]
        combos = {(): ['DD'], ('V1',): ['FD', 'DD', 'PD'], ('V2',): ['DF', 'DD', 'DP'],
                  ('V1', 'V2'): ['FF', 'FD', 'DF', 'DD', 'PF', 'FP', 'PP']}[tuple(vs)]
        for co in combos:
            jobs.append((cn, m, text, co))

    def one(j):
        cn, m, text, co = j
        k1, k2 = encrun.cpu(prog, cn, 1), encrun.cpu(prog, cn, 2)
        en = k2.words.get(m) or ps[m]

        def runf(passno, sy, f0):
            if m == 'DS':
                f0 = encchk.facts_of(isa.c_rng(V1, 0, 3) + isa.c_rng(V2, 0, 3), f0)
                if f0 is None:
                    return Engine(prog), []
            return enc.run_case(k1 if passno == 1 else k2, en, text, sy, passno, facts=f0)
        try:
            bad, n, es = compare(prog, cn, runf, co)
        except AnalysisError as x:
            return j, str(x), 0, []
        return j, bad, n, [encrun.U(e.nstates, e.steps, frozenset(e.fnseen), frozenset(e.bbseen)) for e in es]
    for (cn, m, text, co), bad, n, us in datachk.pmap(one, jobs):
        name = '%s %s %s [%s]' % (cn, m.lower(), text or '', co)
        g = 'length ' + ('data' if m in ps else cn)
        if isinstance(bad, str):
            c.err(name + ': ' + bad)
            continue
        for u in us:
            c.used(u)
        c.ob(g, name, max(0, n - len(bad)))
        for w, t in bad:
            c.bad(g, w, '%s: %s' % (name, t), '%s %s %s' % (cn, m.lower(), text))
    # a size that is itself defined from a later symbol: the value differs between the passes
    c.rule('DS: a size that can differ between the passes is refused')
    for nm, fl, v1 in (('not yet defined', FWD, 0), ('defined from a symbol not yet defined', FW | US, 0)):
        res = []
        for passno in (1, 2):
            e, ends = datachk.run_one(prog, 'DS', 'N', {'N': (v1 if passno == 1 else 4, fl)}, '6502', None, passno=passno)
            c.used(e)
            res.append({(len(x.bytes), x.kind) for x in ends})
        if all(k == 'error' for _, k in res[1]) or {n for n, _ in res[0]} == {n for n, k in res[1] if k == 'ret'}:
            c.ob('block size', nm)
        else:
            c.bad('block size', 'pseudos.c Xds', 'ds with a size %s: %s in the first pass, %s in the second' % (nm, sorted(res[0]), sorted(res[1])), 'ds ' + nm)
    # forward marks survive every operator
    c.rule('the value of an expression is marked not yet defined / forward whenever one of its symbols is')
    k = encrun.cpu(prog, '6800', 2)
    for text in EXPR:
        for co in ('FD', 'DF', 'PD', 'DP', 'FF'):
            vs = [v for v in ('V1', 'V2') if v in text]
            if not any(v in vs and s != 'D' for v, s in zip(('V1', 'V2'), co)):
                continue
            labels = {}
            st = k.state.copy()
            st.mem = dict(k.state.mem)
            e = Engine(prog, {'filter': enc.filter_stub, 'findlabel': enc.findlabel_stub(k, labels)})
            for n, s in zip(('V1', 'V2'), co):
                labels[n] = enc.mklabel(prog, e, st, n, Sym(n, 64), STATES[s])
            e.setg(st, 'passnumber', 1)
            want = 0
            for n, s in zip(('V1', 'V2'), co):
                if n in text:
                    want |= STATES[s]
            want &= U_ | FW
            for x in e.call('parse', [e.putstr(st, 'ex', text)], st):
                if x.end[0] in ('infeasible', 'error'):
                    continue
                fl = e.load(x, enc.ptradd(x.end[1], enc.field(prog, 'result', 'flags')), enc.ir.INT(enc.field_size(prog, 'result', 'flags') * 8))
                if isinstance(fl, int) and fl & want == want:
                    c.ob('forward mark', '%s [%s]' % (text, co))
                else:
                    c.bad('forward mark', 'parse.c parse', 'value of %s with symbols %s has flags %s, the marks %d are lost' % (text, co, dom.show(fl), want), 'mark ' + text)
            c.used(e)
    c.floor('length 6800', 500)
    c.floor('length 65C02', 500)
    c.floor('length Z80', 2000)
    c.floor('length data', 60)
    c.floor('forward mark', 60)
    c.assume.append('operand values -32768..65535; a symbol defined before the statement has the same value in both passes (induction over '
                    'the statements; the phase check of C10 reports the others); DS sizes 0..3 for the pass comparison')
