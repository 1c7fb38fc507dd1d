"""C07: records of the code file."""
import dom
import enc
import encchk
import encrun
import datachk
import stream
import isa
from dom import Sym, Ptr, byte
from eng import Engine, State
from chk import pool_map
import ir

START, REXT, PCV = Sym('START', 64), Sym('REXT', 32), Sym('PCV', 64)


def setup(prog, e, n, hexf, flags=None, scode='open'):
    st = State()
    st.facts = encchk.facts_of(isa.c_rng(START, 0, (1 << 32) - 17) + isa.c_rng(PCV, 0, (1 << 32) - 1))
    e.setg(st, 'asmflags', flags if flags is not None else enc.F['CODE_ON'] | enc.F['ORG_GV'] | (enc.F['CODE_HEX'] if hexf else enc.F['CODE_SCODE']))
    e.setg(st, 'rawnumber', n)
    e.setg(st, 'rawstart', START)
    e.setg(st, 'rawextended', REXT)
    e.setg(st, 'pc', PCV)
    e.setg(st, 'scode', Ptr('FILE:code', 0) if scode == 'open' else 0)
    g = prog.gl('raw', 'scode.c')
    for i in range(n):
        e.store(st, Ptr(g.name, i), ir.INT(8), Sym('D%d' % i, 8))
    return st


STUBS = {'ferror': lambda e, st, a, ins: 0, 'fclose': lambda e, st, a, ins: 0}


def data_of(n):
    return [Sym('D%d' % i, 8) for i in range(n)]


def check_records(ls, tail, facts, hexf, n, ext0, end=False):
    """text of the defect, or None; the extended address state after"""
    if tail:
        return 'unterminated line', None
    recs = []
    for l in ls:
        try:
            recs.append(stream.record(l, facts))
        except stream.NotHex as x:
            return str(x), None
    ends = [r for r in recs if r[0] == 'end']
    if end:
        if len(ends) != 1 or recs[-1][0] != 'end':
            return '%d terminator records' % len(ends), None
        recs = recs[:-1]
        if (ls[-1][0][0] == ':') != hexf:
            return 'terminator of the other format', None
    elif ends:
        return 'terminator in the middle of the file', None
    datas = [r for r in recs if r[0] == 'data']
    got = []
    for r in recs:
        if r[0] == 'ext':
            ext0 = dom.concat([(r[1][1], 8), (r[1][0], 8)])
            continue
        if len(r[2]) > 16:
            return 'record of %d data bytes' % len(r[2]), None
        a = dom.concat([(b, 8) for b in reversed(r[1])])
        w = 8 * len(r[1])
        if hexf:
            a = dom.concat([(a, 16), (ext0, 16)])
        else:
            a = dom.zext(a, w, 32) if w < 32 else a
        got += [(a, k, b) for k, b in enumerate(r[2])]
    return None, (got, ext0)


def run(c, prog):
    c.rule('for every number of buffered bytes, start address, data and previous extended address, each line written is a record whose count, '
           'address and checksum agree with its data, and the records denote exactly the buffered bytes at their addresses')
    jobs = [(n, h, end) for n in range(0, 17) for h in (0, 1) for end in (0, 1)]

    def one(j):
        n, h, end = j
        e = Engine(prog, STUBS)
        st = setup(prog, e, n, h)
        ends = e.call('closescodefile' if end else 'flushscoderaw', [], st)
        out = []
        for x in ends:
            if x.end[0] == 'infeasible':
                continue
            if x.end[0] != 'ret':
                out.append(('?', 'ends in %r' % (x.end,)))
                continue
            cs = stream.chars(e, x)
            ls, tail = stream.lines(cs)
            where = cs[0][1] if cs else 'scode.c'
            ext = dom.trunc(dom.lshr(32, REXT, 16), 16)
            t, r = check_records(ls, tail, x.facts, bool(h), n, ext, bool(end))
            if t is None:
                got, ext2 = r
                if len(got) != n:
                    t = '%d bytes recorded for %d buffered' % (len(got), n)
                for i, (a, k, b) in enumerate(got[:n]):
                    if not x.facts.equal(b, Sym('D%d' % i, 8), 8):
                        t = 'data byte %d is %s' % (i, dom.show(b))
                    if not x.facts.equal(a, dom.add(32, dom.trunc(START, 32), i - k), 32):
                        t = 'byte %d recorded at %s, offset %d' % (i, dom.show(a), k)
                if t is None and h:
                    now = dom.trunc(dom.lshr(32, e.getg(x, 'rawextended'), 16), 16)
                    if not x.facts.equal(now, ext2, 16):
                        t = 'extended address state %s does not match the last announced %s' % (dom.show(now), dom.show(ext2))
                if t is None and e.getg(x, 'rawnumber') != 0:
                    t = 'buffer not emptied'
            out.append((where, t))
        return j, out, encrun.U(e.nstates, e.steps, frozenset(e.fnseen), frozenset(e.bbseen))
    for (n, h, end), out, u in datachk.pmap(one, jobs, 1):
        c.used(u)
        name = '%s, %d buffered bytes%s' % ('Intel hex' if h else 'S-record', n, ', end of file' if end else '')
        for w, t in out:
            if t is None:
                c.ob('record', name)
            else:
                c.bad('record', w, name + ': ' + t, '%s %d %d' % ('hex' if h else 's', n, end))
    # the extended address known at the beginning of a file is zero
    e = Engine(prog, dict(STUBS, fopen=lambda e, st, a, ins: (st.ev('fopen', tuple(a), ins.where()), Ptr('FILE:code', 0))[1],
                          outputbyte=lambda e, st, a, ins: 0))
    st = setup(prog, e, 0, 1, scode='closed')
    e.setg(st, 'rawstart', PCV)
    for x in e.call('insert8', [Sym('X', 8)], st):
        if x.end[0] != 'ret':
            continue
        t = None
        if not x.events('fopen'):
            t = 'no file opened for the first byte'
        elif not x.facts.equal(dom.lshr(32, e.getg(x, 'rawextended'), 16), 0, 32):
            t = 'a new file starts with extended address %s' % dom.show(e.getg(x, 'rawextended'))
        if t:
            c.bad('file start', 'scode.c insert8', t)
        else:
            c.ob('file start', 'extended address 0 at open')
    c.used(e)
    c.floor('record', 68)
    c.floor('file start', 1)
    c.assume.append('addresses below 2^32-16; stream writes succeed (failures: C11)')
