"""Data directives on abstract operands."""
import dom
import enc
import encchk
import encrun
import isa
from dom import Facts, Sym, byte
from chk import pool_map

V = {n: Sym(n, 64) for n in ('V1', 'V2', 'V3')}
DOM32 = [c for v in V.values() for c in isa.c_rng(v, -(1 << 31), (1 << 32) - 1)] + isa.c_rng(isa.PC, 0, 65535)
SIZE = {'DB': 1, 'DW': 2, 'DDB': 2, 'DL': 4}


def field_bytes(m, v, lohi):
    n = SIZE[m]
    le = lohi != (m == 'DDB')
    bs = [byte(v, i) for i in range(n)]
    return bs if le else bs[::-1]


def fit(m, v):
    """(conditions for fitting, conditions for not)"""
    n = SIZE[m]
    if n == 4:
        return [], None
    k = dom.trunc(dom.lshr(64, v, 8 * n), 32 - 8 * n)
    return [('eq', 32 - 8 * n, k, 0, True)], [('eq', 32 - 8 * n, k, 0, False)]


def cases():
    for m in ('DB', 'DW', 'DDB', 'DL'):
        for text, vs in (('V1', ['V1']), ('V1,V2', ['V1', 'V2']), ('V2 , V1 ,V3', ['V2', 'V1', 'V3']), ('V1,V1', ['V1', 'V1'])):
            for cn in ('6800', '6502', 'Z80'):
                yield m, text, vs, cn


def spec(m, vs, lohi):
    bs = []
    for v in vs:
        bs += field_bytes(m, V[v], lohi)
    good = []
    out = []
    for v in vs:
        ok, no = fit(m, V[v])
        good += ok
        if no:
            out.append((no, [('bytes', tuple(bs), True), isa.ERR]))
    out.append((good, [('bytes', tuple(bs), False)]))
    return out


def run_one(prog, m, text, syms, cn, facts, stubs=None, setup=None, passno=2):
    k = encrun.cpu(prog, cn, passno)
    en = encrun.pseudo_names(prog)[m]
    return enc.run_case(k, en, text, syms, passno, facts=facts, stubs=stubs, setup=setup)


def sweep(c, prog, mode, group):
    for n in ('6800', '6502', 'Z80'):
        encrun.cpu(prog, n)
    encrun.pseudo_names(prog)
    f0 = encchk.facts_of(DOM32)
    for m, text, vs, cn in cases():
        lohi = bool(encrun.cpu(prog, cn).flags & enc.F['LOHI'])
        sp = spec(m, vs, lohi)
        if mode == 'diag':
            sp = [(a, [o if o[0] == 'error' else ('any', o[1], o[2]) for o in b]) for a, b in sp]
        e, ends = run_one(prog, m, text, {n: (v, enc.USED) for n, v in V.items()}, cn, f0)
        c.used(e)
        for x in ends:
            for conds, outs in sp:
                f = encchk.facts_of(conds, x.facts)
                if f is None:
                    continue
                if encchk.match(x, encchk.strip(outs, mode), f):
                    c.ob(group, '%s %s %s' % (cn, m.lower(), text))
                else:
                    c.bad(group, x.where or (x.rec[-1][2] if x.rec else '?'), '%s "%s %s": produces %r, expected %s' % (
                        cn, m.lower(), text, x, ' or '.join(encchk.showo(o) for o in outs)), '%s %s %s' % (cn, m.lower(), text))


def _pcall(x):
    return _pfn(x)


def pmap(fn, items, chunk=None):
    global _pfn
    _pfn = fn
    return pool_map(_pcall, items, chunk=chunk)
