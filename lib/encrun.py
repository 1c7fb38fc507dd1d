"""Sweep of (CPU, mnemonic, operand form, flag partition) cases, in parallel."""
import dom
import enc
import encchk
import isa
from chk import pool_map
from ir import AnalysisError

FAM = {
    'C01': (('6800', '6801', '6803'), isa.FORMS6800, isa.SPACED6800, isa.spec6800, isa.names6800),
    'C02': (('6500', '6502', '65C02'), isa.FORMS6502, isa.SPACED6502, isa.spec6502, isa.names6502),
}
_cpus = {}


def cpu(prog, name, passno=2):
    k = (name, passno)
    if k not in _cpus:
        _cpus[k] = enc.Cpu(prog, name, passno)
    return _cpus[k]


def z80_forms(m, tier):
    """operand token lists"""
    T = isa.TOKZ80
    yield []
    for t in T:
        yield [t]
    two = m in ('LD', 'ADD', 'ADC', 'SBC', 'EX', 'IN', 'OUT', 'JP', 'CALL', 'JR', 'BIT', 'SET', 'RES')
    if two or tier == 'thorough':
        for a in T:
            for b in T:
                yield [a, b]
    else:
        some = ['a', 'b', 'hl', '(hl)', '(ix+%s)', '%s', '(%s)', 'nz']
        for a in some:
            for b in some:
                yield [a, b]


def z80_text(toks, sp=False):
    o = []
    for t, v in zip(toks, ('V1', 'V2')):
        o.append(t % v if '%' in t else t)
    return (' , ' if sp else ',').join(o) or None


def z80_spaced(toks):
    def wide(t):
        return t.replace('(', '( ').replace(')', ' )').replace('+', ' + ').replace('-', ' - ').upper().replace('%S', '%s')
    return [wide(t) for t in toks]


def tasks(prog, prop, tier):
    """[(cpu name, mnemonic, operand text, spec args, fwd, label)]"""
    out = []
    if prop in FAM:
        cpus, forms, spaced, spec, names = FAM[prop]
        for cn in cpus:
            c = cpu(prog, cn)
            for en in c.mnemonics():
                for fo in forms:
                    if spec(cn, en.name, fo, 0) is None:
                        continue
                    for fwd in (0, 1):
                        out.append((cn, en.name, None if fo == 'none' else fo, fo, fwd))
                    for alt in spaced.get(fo, ()):
                        out.append((cn, en.name, alt, fo, 0))
    else:
        c = cpu(prog, 'Z80')
        for en in c.mnemonics():
            if isa.specz80(en.name, []) is None:
                continue
            for toks in z80_forms(en.name, tier):
                out.append(('Z80', en.name, z80_text(toks), toks, 0))
                if len(toks) <= 1 and any('%s' in t for t in toks):
                    out.append(('Z80', en.name, z80_text(toks), toks, 1))
            for toks in ([], ['a'], ['(hl)'], ['(ix+%s)'], ['%s'], ['hl'], ['a', '(ix+%s)'], ['a', '%s'], ['hl', '(%s)'], ['a', 'b'],
                         ['(iy-%s)', 'b'], ['%s', '(ix+%s)'], ['(hl)', '%s'], ['(%s)', 'a'], ['de', 'hl'], ['nz', '%s'], ['hl', 'bc']):
                if toks:
                    out.append(('Z80', en.name, z80_text(z80_spaced(toks), True), toks, 0))
    return out


def spec_of(prop, cn, m, form, fwd):
    if prop in FAM:
        return FAM[prop][3](cn, m, form, fwd)
    return isa.specz80(m, form)


def sweep(c, prog, prop, mode, tasklist, group, passno=2, specf=None):
    names = {t[0] for t in tasklist}
    for n in names:
        cpu(prog, n, passno)

    def one(t):
        cn, m, text, form, fwd = t
        k = cpu(prog, cn, passno)
        sp = (specf or spec_of)(prop, cn, m, form, fwd)
        if sp is None:
            return t, [], 0, (0, 0, frozenset(), frozenset())
        try:
            b, n, e = encchk.check_case(k, k.words[m], text, sp, enc.USED | (enc.FORWARD if fwd else 0), mode, passno)
        except AnalysisError as x:
            return t, '%s "%s %s": %s' % (cn, m, text, x), 0, (0, 0, frozenset(), frozenset())
        return t, b, n, (e.nstates, e.steps, frozenset(e.fnseen), frozenset(e.bbseen))

    global _one
    _one = one
    for t, b, n, u in pool_map(_call, tasklist):
        if isinstance(b, str):
            c.err(b)
            continue
        c.ob(group, '%s %s %s' % (t[0], t[1].lower(), t[2] or ''), n - len(b))
        for w, txt in b:
            c.bad(group, w, txt, '%s %s %s' % (t[0], t[1].lower(), t[2] or '-'))
        c.used(U(*u))


class U:
    def __init__(s, n, st, f, b):
        s.nstates, s.steps, s.fnseen, s.bbseen = n, st, f, b


def _call(t):
    return _one(t)


def vocabulary(c, prog, prop, cn, names):
    """every mnemonic of the reference exists and is an instruction; aliases point at the same handler data"""
    k = cpu(prog, cn)
    for m in sorted(names):
        en = k.words.get(m)
        if en is None or en.type != enc.L_MNEMO:
            c.bad('vocabulary', (k.tables or ['?'])[-1], 'CPU %s has no instruction %s' % (cn, m), '%s %s vocabulary' % (cn, m.lower()))
        else:
            c.ob('vocabulary', '%s %s' % (cn, m.lower()))


def unaccounted(prog, cn, names):
    k = cpu(prog, cn)
    ps = pseudo_names(prog)
    return sorted(e.name for e in k.mnemonics() if e.name not in names and e.name not in ps)


_pseudo = None


def pseudo_names(prog):
    global _pseudo
    if _pseudo is None:
        from eng import Engine
        e = Engine(prog)
        _pseudo = {}
        for t in prog.globals:
            pass
        _pseudo = {x.name: x for x in enc.read_table(prog, e, prog.gl('pseudos', 'stdvocabulary.c').name)}
    return _pseudo
