"""C06: bytes of the data directives."""
import dom
import enc
import encchk
import encrun
import datachk
import isa
from dom import Sym, byte
from chk import pool_map

SIZES = [0, 1, 2, 3, 15, 16, 17, 18, 127, 128, 255, 256, 257, 300, 1000]
BIG = [65535, 65536, 70000]
ESC = {'t': 9, 'n': 10, 'r': 13, '0': 0, "'": 39, '"': 34, '\\': 92}


def asc_ref(s):
    """bytes of an ASC operand, or None for an error (s: bytes)"""
    if not s or s[0] not in b'\'"':
        return None
    d = s[0]
    out = []
    i = 1
    while True:
        if i >= len(s):
            return None
        c = s[i]
        if c == d:
            break
        if c == 92:
            i += 1
            if i >= len(s) or chr(s[i]) not in ESC:
                return None
            c = ESC[chr(s[i])]
        out.append(c)
        i += 1
    return out if i == len(s) - 1 else None


def asc_cases():
    for d in ('"', "'"):
        yield (d + d).encode()
        for c in range(1, 256):
            yield d.encode() + bytes([c]) + d.encode()
            yield d.encode() + b'\\' + bytes([c]) + d.encode()
            yield d.encode() + b'A' + bytes([c]) + b'B' + d.encode()
        o = "'" if d == '"' else '"'
        for t in ('abc', 'a\\n\\r\\tz', '\\0\\0', '\\\\\\' + d + 'x', 'x' + o + 'y', 'ab' * 40, '\\\\', '\\' + d):
            yield (d + t + d).encode()
            yield (d + t).encode()
            yield (d + t + d + ' ').encode()
            yield (d + t + o).encode()
    for t in ('abc', 'A', '1', '(x)', '#', ''):
        yield t.encode()


def run(c, prog):
    c.rule('DB/DW/DDB/DL: on every path the bytes emitted are those of each listed value, in order, in the byte order of the processor')
    datachk.sweep(c, prog, 'bytes', 'data bytes')
    for n in ('6800', '6502', 'Z80'):
        encrun.cpu(prog, n)
    encrun.pseudo_names(prog)
    c.rule('ASC: every one-character and escaped string, and the composed ones, gives exactly its characters; malformed strings end in an error')
    asc = list(asc_cases())

    def one_asc(t):
        k = encrun.cpu(prog, '6502')
        e, ends = datachk.run_one(prog, 'ASC', t if t else None, {}, '6502', None)
        return t, [(x.kind, x.msg, x.where, x.bytes) for x in ends], encrun.U(e.nstates, e.steps, frozenset(e.fnseen), frozenset(e.bbseen))
    for t, ends, u in datachk.pmap(one_asc, asc):
        c.used(u)
        ref = asc_ref(t)
        for kind, msg, where, bs in ends:
            good = kind == 'error' if ref is None else kind == 'ret' and bs == ref
            if good:
                c.ob('string', 'asc %s' % t.decode('latin1'))
            else:
                c.bad('string', where, 'asc %r: %s %s, expected %s' % (t.decode('latin1'), kind, bs if kind == 'ret' else msg,
                                                                      'an error' if ref is None else ref), 'asc %s' % t.decode('latin1'))
    c.rule('DS: exactly the count of fill bytes, for every count of the boundary partition; negative or unrepresentable counts and forward '
           'references are errors')
    jobs = [(n, fill) for n in SIZES + BIG for fill in (None, 'V2')] + [(n, 'V2') for n in (-1, -2, -32768, 1 << 32, (1 << 32) + 5, 1 << 31, 1 << 40, -(1 << 32))]
    jobs.sort(key=lambda j: -j[0] if 0 < j[0] < 100000 else 0)
    V2 = Sym('V2', 64)

    def one_ds(j):
        n, fill = j
        k = encrun.cpu(prog, '6502')
        text = 'N' if fill is None else 'N , V2' if n % 2 else 'N,V2'
        f0 = encchk.facts_of(isa.c_rng(V2, -32768, 65535))
        e, ends = datachk.run_one(prog, 'DS', text, {'N': (n & dom.mask(64), enc.USED), 'V2': (V2, enc.USED)}, '6502', f0)
        out = []
        for x in ends:
            exp = 0 if fill is None else byte(V2, 0)
            same = all(x.facts.equal(b, exp, 8) for b in x.bytes) if len(x.bytes) <= 400 else len(set(x.bytes)) == 1 and x.facts.equal(x.bytes[0], exp, 8)
            adv = e.getg(x.st, 'advance')
            out.append((x.kind, x.msg, x.where, len(x.bytes), same, adv))
        return j, text, out, encrun.U(e.nstates, e.steps, frozenset(e.fnseen), frozenset(e.bbseen))
    for (n, fill), text, ends, u in datachk.pmap(one_ds, jobs, 1):
        c.used(u)
        for kind, msg, where, cnt, same, adv in ends:
            if n < 0 or n >= 1 << 31:
                good = kind == 'error' and cnt == 0
            else:
                good = kind == 'ret' and cnt == n and same and adv == n
            if good:
                c.ob('block', 'ds %s with N=%d: %d bytes' % (text, n, cnt))
            else:
                c.bad('block', where, 'ds %s with N=%d: %s, %d bytes%s, location advanced by %s' % (
                    text, n, kind + (' "%s"' % msg if msg else ''), cnt, '' if same else ' (not all the fill byte)', adv), 'ds %d' % n)
    for fl, ok in ((enc.UNDEF | enc.FORWARD | enc.USED, False), (enc.FORWARD | enc.USED, True), (enc.UNDEF, False)):
        for ps in (1, 2):
            e, ends = datachk.run_one(prog, 'DS', 'N', {'N': (4, fl)}, '6502', None, passno=ps)
            c.used(e)
            for x in ends:
                # a plainly undefined symbol is an error of the second pass only
                if fl == enc.UNDEF and ps == 1:
                    continue
                good = (x.kind == 'ret' and len(x.bytes) == 4) if ok else (x.kind == 'error' and not x.bytes)
                if good:
                    c.ob('block reference', 'ds with flags %d in pass %d' % (fl, ps))
                else:
                    c.bad('block reference', x.where or '?', 'ds N with symbol state %d in pass %d: %r' % (fl, ps, x), 'ds flags %d' % fl)
    c.rule('ALIGN: one null byte exactly when the parity of the location is not the one asked for')
    PC = Sym('PC', 64)
    for word, odd in (('EVEN', 0), ('ODD', 1), (' even ', 0), ('odd', 1)):
        for par in (0, 1):
            f0 = encchk.facts_of([('eq', 1, dom.trunc(PC, 1), par, True)])
            e, ends = datachk.run_one(prog, 'ALIGN', word, {}, '6502', f0)
            c.used(e)
            for x in ends:
                want = [] if par == odd else [0]
                if x.kind == 'ret' and x.bytes == want:
                    c.ob('align', 'align %s at parity %d' % (word, par))
                else:
                    c.bad('align', x.where or '?', 'align %s at parity %d: %r, expected %r' % (word, par, x, want), 'align %s %d' % (word, par))
    for word in ('X', 'EVENODD', '2'):
        e, ends = datachk.run_one(prog, 'ALIGN', word, {}, '6502', None)
        for x in ends:
            if x.kind == 'error' and not x.bytes:
                c.ob('align', 'align %s rejected' % word)
            else:
                c.bad('align', x.where or '?', 'align %s: %r' % (word, x), 'align %s' % word)
    c.floor('data bytes', 40)
    c.floor('string', 1500)
    c.floor('block', 30)
    c.floor('align', 8)
    c.assume.append('data values in the 32-bit range; DS counts by the stated partition, not for every count; strings by single characters, '
                    'single escapes and compositions of them; insert8 is a summary (checked by C08)')
