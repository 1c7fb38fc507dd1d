"""C11: a run with errors leaves no code file, a run without leaves a complete one."""
import dom
import enc
import encchk
import isa
import ir
from dom import Sym, Ptr
from eng import Engine, State, END
from c07 import STUBS

F = enc.F
ERR = Sym('ERRORS', 32)
NO = F['NOCODE'] | F['NOERROR'] | F['NOWARNING'] | F['NOLIST']
SCODE, LIST, XREF, WARN = 1, 2, 4, 8
M = dom.mask(32)
SET = [Sym('SETTINGS%d' % i, 32) for i in range(3)]


def kept(f, fl):
    """the settings left by the first pass are those the second starts with"""
    return f.equal(dom.bitop('and', 32, fl, ~NO & M), dom.bitop('and', 32, SET[1], ~NO & M), 32)



def sym(name):
    """fails or does not"""
    def f(e, st, a, ins):
        x = st.copy()
        st.ev(name, tuple(a), 0, ins.where())
        x.ev(name, tuple(a), 1, ins.where())
        return [(st, 0), (x, M if name != 'ferror' else 1)]
    return f


def rec(name, ret=0):
    def f(e, st, a, ins):
        st.ev(name, tuple(a), ins.where())
        return ret
    return f


def s_pass(opened):
    def f(e, st, a, ins):
        st.ev('pass', a[0], e.getg(st, 'asmflags'), ins.where())
        # a pass can leave any setting
        n = a[0] if isinstance(a[0], int) else 0
        e.setg(st, 'asmflags', dom.bitop('or', 32, dom.bitop('and', 32, e.getg(st, 'asmflags'), NO), dom.bitop('and', 32, SET[n], ~NO & M)))
        if a[0] == 2:
            e.setg(st, 'errnumber', ERR)
            e.setg(st, 'warnnumber', Sym('WARNINGS', 32))
            if opened:
                e.setg(st, 'scode', Ptr('FILE:code', 0))
        return 0
    return f


def run_driver(prog, flags, opened, extra=None):
    def s_fopen(e, st, a, ins):
        st.ev('fopen', a[0], ins.where())
        x = st.copy()
        return [(st, Ptr('FILE:src', 0)), (x, 0)]
    stubs = dict(STUBS)
    stubs.update({
        'init_label_list': rec('init'), 'fopen': s_fopen, 'undeflabels': rec('undef'), 'result': lambda e, st, a, i: (
            st.ev('result', e.getg(st, 'errnumber'), i.where()), 0)[1], 'xref': rec('xref'), 'remove': rec('remove', 0), 'unlink': rec('remove', 0),
        'pass': s_pass(opened), 'ferror': sym('ferror'), 'fclose': sym('fclose'), 'fflush': sym('fflush'), 'fileerror': rec('fileerror'),
        'flushscoderaw': rec('flush'), 'outputEOP': rec('outputEOP')})
    stubs.update(extra or {})
    e = Engine(prog, stubs)
    st = State()
    st.facts = encchk.facts_of(isa.c_rng(ERR, 0, 1 << 30, 32))
    e.setg(st, 'filename', Ptr('arg:in', 0))
    e.setg(st, 'scodename', Ptr('arg:out', 0) if flags & SCODE else 0)
    e.setg(st, 'errnumber', 0)
    e.setg(st, 'lroot', Ptr('lab:root', 0))
    e.setg(st, 'scode', 0)
    return e, e.call('crasm', [flags], st)


def run(c, prog):
    c.rule('every way through the run driver: two passes with the symbols undefined between them; the code file is closed before the summary; '
           'it is removed exactly when errors were counted, after it was closed; a failed write or close counts as an error')
    for flags in range(16):
        for opened in ((0, 1) if flags & SCODE else (0,)):
            e, ends = run_driver(prog, flags, opened)
            c.used(e)
            for x in ends:
                if x.end[0] == 'infeasible':
                    continue
                nm = 'options %s%s' % ('+'.join(n for b, n in ((1, '-o'), (2, 'list'), (4, 'xref'), (8, 'warnings')) if flags & b) or 'none',
                                       ', code file open' if opened else '')
                ev = x.events()
                ks = [v[0] for v in ev]
                f = x.facts
                t = None
                w = 'crasm.c crasm'
                fails = [v for v in ev if v[0] in ('ferror', 'fclose', 'fflush') and v[1] and v[1][0] == Ptr('FILE:code', 0)]
                failed = [v for v in fails if v[2]]
                if x.end[0] == 'fatal':
                    if 'pass' in ks:
                        t = 'stops after a pass: %s' % x.end[1]
                    else:
                        c.ob('driver', nm + ': no source file')
                        continue
                elif x.end[0] not in ('ret', 'exit'):
                    t = 'ends in %r' % (x.end,)
                seq = [k if k != 'pass' else 'pass%s' % v[1] for k, v in zip(ks, ev) if k in ('pass', 'undef')]
                if not t and seq != ['pass1', 'undef', 'pass2']:
                    t = 'order of the passes: %s' % ' '.join(seq)
                un = x.events('undef')
                if not t and un[0][1] != (Ptr('lab:root', 0),):
                    t = 'symbols undefined from %r' % (un[0][1],)
                if not t:
                    p1, p2 = [v[2] for v in x.events('pass')]
                    same = kept(f, p2)
                    p1, p2 = [dom.bitop('and', 32, v, NO) for v in (p1, p2)]
                    for k, v in ((1, p1), (2, p2)):
                        if not isinstance(v, int):
                            t = 'options of pass %d not decided' % k
                    if not t:
                        if not all(p1 & F[b] for b in ('NOCODE', 'NOERROR', 'NOWARNING')):
                            t = 'pass 1 reports or writes code (flags %x)' % p1
                        elif bool(p2 & F['NOCODE']) == bool(flags & SCODE):
                            t = 'code %s in pass 2 %s -o' % (('not written', 'with') if flags & SCODE else ('written', 'without'))
                        elif p2 & F['NOERROR']:
                            t = 'errors not reported in pass 2'
                        elif bool(p2 & F['NOWARNING']) == bool(flags & WARN):
                            t = 'warnings of pass 2 %s' % ('suppressed' if flags & WARN else 'not suppressed')
                        elif bool(p2 & F['NOLIST']) == bool(flags & LIST):
                            t = 'listing of pass 2 %s' % ('suppressed' if flags & LIST else 'not suppressed')
                        elif not same:
                            t = 'pass 2 starts with other settings: %s' % dom.show(x.events('pass')[1][2])
                closes = [i for i, v in enumerate(ev) if v[0] == 'fclose' and v[1][0] == Ptr('FILE:code', 0)]
                rem = [i for i, k in enumerate(ks) if k == 'remove']
                res = [i for i, k in enumerate(ks) if k == 'result']
                writes = [i for i, v in enumerate(ev) if v[0] in ('fputs', 'fputc', 'fwrite', 'fprintf', 'flush') and (
                    v[0] == 'flush' or Ptr('FILE:code', 0) in v[1])]
                if not t and len(res) != 1:
                    t = '%d summaries' % len(res)
                if not t and opened:
                    if len(closes) != 1:
                        t = 'code file closed %d times' % len(closes)
                    elif 'flush' not in ks:
                        t = 'buffered bytes not written before the end'
                    elif writes and max(writes) > closes[0]:
                        t = 'write after the close'
                    elif closes[0] > res[0]:
                        t = 'summary before the code file is closed'
                    elif not any(v[0] == 'ferror' for v in fails):
                        t = 'write failures are not looked at'
                if not t and not opened and closes:
                    t = 'closes a file that is not open'
                if not t:
                    tot = ev[res[0]][1]
                    want = dom.add(32, ERR, 1 if failed else 0)
                    if failed:
                        if f.decide('eq', 32, tot, 0) is not False:
                            t = 'failed %s not counted as an error' % failed[0][0]
                    elif not f.equal(tot, want, 32):
                        t = 'error count %s reported' % dom.show(tot)
                    noerr = f.decide('eq', 32, tot, 0)
                    if not t and rem:
                        if not flags & SCODE:
                            t = 'removes a file without -o'
                        elif noerr is not False:
                            t = 'removes the code file of a run without errors'
                        elif ev[rem[0]][1] != (Ptr('arg:out', 0),):
                            t = 'removes %r' % (ev[rem[0]][1],)
                        elif closes and rem[0] < closes[0]:
                            t = 'removed before it is closed'
                        elif any(k in ('fputs', 'fputc') for k in ks[rem[0]:]):
                            t = 'written after it was removed'
                        w = ev[rem[0]][2]
                    if not t and flags & SCODE and not rem and noerr is not True:
                        t = 'code file kept though errors were counted'
                if t:
                    c.bad('driver', w, nm + ': ' + t, nm)
                else:
                    c.ob('driver', '%s: %s%s' % (nm, 'removed' if rem else 'kept', ', failure' if failed else ''))
    c.floor('driver', 16)
    openings(c, prog)


def openings(c, prog):
    c.rule('the code file is opened once, under the requested name, for writing; failure to open stops the run')
    for code_on in (0, 1):
        def s_fopen(e, st, a, ins):
            st.ev('fopen', a[0], e.getstr(st, a[1]), ins.where())
            x = st.copy()
            return [(st, Ptr('FILE:code', 0)), (x, 0)]
        e = Engine(prog, dict(STUBS, fopen=s_fopen, outputbyte=rec('outputbyte')))
        st = State()
        e.setg(st, 'asmflags', F['ORG_GV'] | F['CODE_SCODE'] | (F['CODE_ON'] if code_on else 0))
        e.setg(st, 'scode', 0)
        e.setg(st, 'scodename', Ptr('arg:out', 0))
        e.setg(st, 'rawnumber', 0)
        for x in e.call('insert8', [Sym('X', 8)], st):
            if x.end[0] == 'infeasible':
                continue
            fs = x.events('fopen')
            t = None
            if len(fs) > 1 or fs and (fs[0][1] != Ptr('arg:out', 0) or fs[0][2] is None or not fs[0][2].startswith(b'w')):
                t = 'opens %r' % (fs,)
            elif code_on and not fs:
                t = 'byte placed without a code file'
            elif x.end[0] == 'ret' and fs and e.getg(x, 'scode') != Ptr('FILE:code', 0):
                t = 'goes on without the code file'
            if t:
                c.bad('open', fs[0][3] if fs else 'scode.c insert8', t, 'open')
            else:
                c.ob('open', 'code %s: %s' % ('on' if code_on else 'off', x.end[0]))
        c.used(e)
    c.floor('open', 3)
    c.assume.append('runs that stop with a fatal error (exit inside a pass) are outside the property; the system\'s ferror/fclose report failures')
