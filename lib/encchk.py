"""Comparison of the encoder's abstract path ends with the reference pieces."""
import dom
from dom import Facts, Sym
import enc
from ir import AnalysisError
import isa
from chk import pool_map


def facts_of(conds, base=None):
    f = base if base is not None else Facts()
    for c in conds:
        f = f.assume(*c)
        if f is None:
            return None
    return f


def match(end, outs, f):
    """the end agrees with one acceptable outcome under facts f"""
    for o in outs:
        if o[0] == 'error':
            if end.kind == 'error':
                return True
            continue
        if end.kind != 'ret':
            continue
        if o[0] == 'any':
            if o[2] is None or bool(end.warn) == o[2]:
                return True
            continue
        if len(end.bytes) != len(o[1]):
            continue
        if not all(f.equal(a, b, 8) for a, b in zip(end.bytes, o[1])):
            continue
        if o[2] is not None and bool(end.warn) != o[2]:
            continue
        return True
    return False


def strip(outs, mode):
    """mode 'bytes': ignore diagnostics; 'diag': keep"""
    if mode == 'diag':
        return outs
    return [o if o[0] == 'error' else (o[0], o[1], None) for o in outs]


def showo(o):
    if o[0] == 'error':
        return 'error'
    return ('any bytes' if o[0] == 'any' else '') + '[' + ' '.join(dom.show(b) for b in o[1]) + ']' + ('' if o[2] is None else ' with diagnostic' if o[2] else ' without diagnostic')


def check_case(cpu, en, oper, spec, flags, mode, passno=2, syms=('V1', 'V2')):
    """[(where, text)] mismatches, number of obligations, engine"""
    f0 = facts_of(isa.DOM)
    e, ends = enc.run_case(cpu, en, oper, {n: (Sym(n, 64), flags) for n in syms}, passno, facts=f0)
    bad = []
    n = 0
    lost = []
    for x in ends:
        hit = False
        for conds, outs in spec:
            f = facts_of(conds, x.facts)
            if f is None:
                continue
            hit = True
            n += 1
            if not match(x, strip(outs, mode), f):
                if x.kind in ('ret', 'error'):
                    got = repr(x)
                else:
                    got = '%s: %s' % (x.kind, x.msg)
                w = x.where or (x.rec[-1][2] if x.rec else '?')
                bad.append((w, '%s "%s %s"%s: produces %s, expected %s' % (
                    cpu.name, en.name.lower(), oper or '', ' (forward reference)' if flags & enc.FORWARD else '', got,
                    ' or '.join(showo(o) for o in outs))))
        if not hit and x.kind != 'infeasible':
            lost.append(x)
    if lost and n == 0:
        raise AnalysisError('%s %s %s: no reference outcome covers %r' % (cpu.name, en.name, oper, lost[0]))
    return bad, n, e
