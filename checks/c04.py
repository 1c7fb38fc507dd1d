"""C04: relative branches."""
import encrun
import enc
import isa

BRANCHES = {'6800': isa.BR6800, '6801': dict(isa.BR6800, **isa.BR6801), '6803': dict(isa.BR6800, **isa.BR6801),
            '6500': isa.BR6502, '6502': isa.BR6502, '65C02': dict(isa.BR6502, **isa.BR65C02)}


def spec(prop, cn, m, form, fwd):
    if cn == 'Z80':
        return isa.specz80(m, form)
    w = False if form == 'V1' else None
    return isa.branch(BRANCHES[cn][m], warn=w)


def run(c, prog):
    c.rule('a relative branch emits its opcode and the byte target-(address of the instruction)-2 on every path where that distance is in '
           '-128..127, and ends in an error on every path where it is not')
    tl = []
    for cn, t in BRANCHES.items():
        encrun.vocabulary(c, prog, 'C04', cn, t)
        for m in t:
            for text in ('V1', '(V1)'):
                for fwd in (0, 1):
                    tl.append((cn, m, text, text.strip(), fwd))
    for m, pre in (('DJNZ', []), ('JR', []), ('JR', ['nz']), ('JR', ['z']), ('JR', ['nc']), ('JR', ['c'])):
        for fwd in (0, 1):
            # the target is the last operand: V1 alone, V2 after a condition
            toks = pre + ['%s']
            tl.append(('Z80', m, encrun.z80_text(toks), toks, fwd))
    encrun.vocabulary(c, prog, 'C04', 'Z80', ('JR', 'DJNZ'))
    encrun.sweep(c, prog, 'C04', 'bytes', tl, 'branch', specf=spec)
    # the same instructions in the first pass leave the same bytes or an error, never a third outcome
    c.floor('branch', 600)
    c.floor('vocabulary', 85)
    c.assume.append('target in -32768..65535, location counter in 0..65535; the relation holds for every pair, not for samples')
