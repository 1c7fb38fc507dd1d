import c01
import encrun
import isa


def run(c, prog):
    c.rule('for each Z80 instruction and list of operand tokens, every path of the handler emits the reference bytes, '
           'or ends in an error exactly where the reference has no encoding')
    encrun.vocabulary(c, prog, 'C03', 'Z80', isa.NAMESZ80)
    tl = encrun.tasks(prog, 'C03', c.tier)
    encrun.sweep(c, prog, 'C03', 'bytes', tl, 'encoding')
    c.floor('encoding', 15000)
    c.floor('vocabulary', 60)
    c01.std(c, prog, ('Z80',), lambda cn: isa.NAMESZ80)
