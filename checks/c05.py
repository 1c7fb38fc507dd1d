"""C05: operands that do not fit their field are diagnosed."""
import dom
import enc
import encrun
import isa
from dom import Facts, Sym, byte


def wants(prop, form):
    f = form if isinstance(form, str) else ','.join(form)
    return 'V1' in f or '%s' in f


def run(c, prog):
    c.rule('on every path where an operand value does not fit the emitted field the handler calls warning() or error(); '
           'on every path where it fits it calls neither')
    for prop in ('C01', 'C02', 'C03'):
        tl = []
        for t in encrun.tasks(prog, prop, c.tier):
            if not wants(prop, t[3]):
                continue
            sp = encrun.spec_of(prop, t[0], t[1], t[3], t[4])
            # only shapes that the reference encodes, with a diagnostic demanded or forbidden somewhere
            if any(o[0] == 'bytes' and o[2] is not None for _, os_ in sp for o in os_):
                tl.append(t)
        encrun.sweep(c, prog, prop, 'diag', tl, 'operand fit ' + prop, specf=diag_spec)
    import datachk
    datachk.sweep(c, prog, 'diag', 'data fit')
    c.floor('operand fit C01', 1200)
    c.floor('operand fit C02', 1200)
    c.floor('operand fit C03', 1500)
    c.floor('data fit', 40)
    c.assume.append('instruction operands in -32768..65535, data operands in the 32-bit range; bytes are compared by C01-C03 and C06')


def diag_spec(prop, cn, m, form, fwd):
    """only the diagnostic part: any bytes"""
    return [(conds, [o if o[0] == 'error' else ('any', o[1], o[2]) for o in os_])
            for conds, os_ in encrun.spec_of(prop, cn, m, form, fwd)]
