import encrun
import isa


def run(c, prog, prop='C01'):
    cpus, forms, spaced, spec, names = encrun.FAM[prop]
    c.rule('for each CPU, instruction and operand form, every path of the handler emits the reference opcode and operand bytes, '
           'or ends in an error exactly where the reference has no encoding')
    for cn in cpus:
        encrun.vocabulary(c, prog, prop, cn, names(cn))
    tl = encrun.tasks(prog, prop, c.tier)
    encrun.sweep(c, prog, prop, 'bytes', tl, 'encoding')
    if prop == 'C01':
        c.floor('encoding', 5000)
        c.floor('vocabulary', 290)
    else:
        c.floor('encoding', 5000)
        c.floor('vocabulary', 180)
    std(c, prog, cpus, names)


def std(c, prog, cpus, names):
    for cn in cpus:
        x = encrun.unaccounted(prog, cn, names(cn))
        if x:
            c.assume.append('%s: instructions outside the reference, not checked: %s' % (cn, ' '.join(x)))
    c.assume.append('operand values in -32768..65535, location counter in 0..65535; operands are shapes over the CPU\'s registers and '
                    'abstract symbols with any value; symbol lookup, pattern matching on the shapes and code emission are summaries '
                    '(filter summary derived from its own body; emission checked by C07/C08)')
