"""C28: the listing is divided into the pages that PAGE, NAM and SKIP ask for, and a line too long for the page goes on below it."""
import dom
import enc
import encchk
import ir
import isa
import lines
import listing
from dom import Ptr, Sym
from eng import Engine, State

F = enc.F
ON = F['LIST_ON'] | F['CODE_ON']
M = dom.mask(32)
ROW, NUM = Sym('ROW', 32), Sym('NUMBER', 32)
TITLE = b'the title'


def world(prog, flags=ON, llen=76, plen=66, ppos=10, text=b'', **kw):
    nums = listing.Nums()
    e = Engine(prog, dict(listing.stubs(nums), filter=enc.filter_stub, **kw))
    st = State()
    for n, v in (('llen', llen), ('plen', plen), ('ppos', ppos), ('lpos', len(text)), ('asmflags', flags), ('linenumber', 7), ('macrolevel', 0),
                 ('lineprefix', 0), ('advance', 0), ('pagenumber', NUM), ('passnumber', 2), ('warnnumber', 0)):
        e.setg(st, n, v)
    for g, bs in (('linebuffer', text), ('title', TITLE)):
        for k, b in enumerate(bs + b'\0'):
            e.store(st, Ptr(prog.gl(g, 'output.c').name, k), ir.INT(8), b)
    return e, st, nums


def ends(e, fn, args, st):
    return [x for x in e.call(fn, args, st) if x.end[0] != 'infeasible']


def header(cells, nums, title=TITLE):
    """the cells are the header of the next page"""
    t = listing.show(cells, nums)
    if title.decode() not in t:
        return 'header without the title: %r' % t
    got = [nums.tab[v - listing.PH][1] for v in cells if isinstance(v, int) and v >= listing.PH]
    if got != [dom.add(32, NUM, 1)]:
        return 'header with the page number %s' % ' '.join(dom.show(v) for v in got)
    return None


# ---------------------------------------------------------------- a line on its page
def rows(c, prog):
    c.rule('a line printed at any row of a page of any length: on the first row the header of the next page stands before it, the row counter moves by the '
           'rows printed, and the page ends exactly when the rows printed on it, header and foot included, are its length')
    for plen in [0] + list(range(10, 201)):
        for first, llen in ((1, 39), (1, 76), (1, 132), (0, 76)):
            e, st, nums = world(prog, llen=llen, plen=plen, ppos=0 if first else ROW)
            if not first:
                # inside of the page: the foot is not reached
                st.facts = encchk.facts_of(isa.c_rng(ROW, 2, plen - 3 if plen else 1 << 20, 32))
            t = None
            xs = ends(e, 'outputraw', [e.putstr(st, 'text', b'some text')], st)
            c.used(e)
            kinds = set()
            for x in xs:
                out, rest = listing.lines(x)
                got = [o for o, _ in out]
                if x.end[0] != 'ret' or rest:
                    t = 'ends in %r, %r unfinished' % (x.end, listing.show(rest, nums))
                    continue
                n = len(got)
                now = e.getg(x, 'ppos')
                if first:
                    if n < 3:
                        t = '%d rows printed' % n
                    else:
                        t = t or header(got[0], nums)
                        if got[1]:
                            t = t or 'no blank row after the header'
                    if not x.facts.equal(e.getg(x, 'pagenumber'), dom.add(32, NUM, 1), 32):
                        t = t or 'page number becomes %s' % dom.show(e.getg(x, 'pagenumber'))
                    got = got[2:]
                elif not x.facts.equal(e.getg(x, 'pagenumber'), NUM, 32):
                    t = t or 'page number changes inside of a page'
                if not got or bytes(v for v in got[0] if isinstance(v, int)) != b'some text':
                    t = t or 'prints %r' % [listing.show(g, nums) for g in got]
                if any(got[1:]):
                    t = t or 'text %r after the line' % [listing.show(g, nums) for g in got[1:]]
                total = n if first else dom.add(32, ROW, n)
                if now == 0:
                    kinds.add('end')
                    if plen == 0:
                        t = t or 'an endless page ends'
                    elif not x.facts.equal(total, plen, 32):
                        t = t or 'a page ends after %s rows' % dom.show(total)
                elif not x.facts.equal(now, total, 32):
                    t = t or 'row %s after %s rows' % (dom.show(now), dom.show(total))
                elif plen and x.facts.decide('slt', 32, total, plen - 2) is not True:
                    t = t or 'the page goes on without room for its foot'
                else:
                    kinds.add('on')
            if not t and not kinds:
                t = 'no way through'
            nm = '%s of %s, %d columns' % ('first row' if first else 'any row', plen or 'an endless page', llen)
            if t:
                c.bad('row', 'output.c outputraw', nm + ': ' + t, 'row ' + nm)
            else:
                c.ob('row', nm + ': ' + ' or '.join(sorted(kinds)))
    c.floor('row', 700)


def ejections(c, prog):
    c.rule('PAGE without operand, at every row: the rest of the page is blank up to its length and the next line starts the next page; at the start of '
           'a page nothing is printed, and without a listing nothing changes')
    for plen in (10, 11, 66, 200):
        for row in range(plen - 2):
            if row in (1, 2) or plen == 200 and 10 < row < 190 and c.tier == 'quick':
                continue
            for on in (1, 0):
                e, st, nums = world(prog, flags=ON if on else F['CODE_ON'], plen=plen, ppos=row)
                t = None
                xs = ends(e, 'Xpage', [0, 0, e.putstr(st, 'mn', 'PAGE'), 0], st)
                c.used(e)
                for x in xs:
                    out, rest = listing.lines(x)
                    n = len(out) + len(rest)
                    if x.end[0] != 'ret':
                        t = 'ends in %r' % (x.end,)
                    elif any(o for o, _ in out) or rest:
                        t = 'prints %r' % [listing.show(o, nums) for o, _ in out]
                    elif not on or not row:
                        if n:
                            t = '%d rows are printed' % n
                        elif e.getg(x, 'ppos') != row:
                            t = 'row %s' % dom.show(e.getg(x, 'ppos'))
                    elif n + row != plen or e.getg(x, 'ppos') != 0:
                        t = 'page of %s rows' % (n + row)
                nm = 'row %d of %d%s' % (row, plen, '' if on else ', no listing')
                if t or not xs:
                    c.bad('ejection', 'output.c outputEOP', nm + ': ' + str(t), 'ejection ' + nm)
                else:
                    c.ob('ejection', nm)
    c.floor('ejection', 180)


# ---------------------------------------------------------------- directives
def sizes(c, prog):
    c.rule('PAGE rows,columns: from then on the page has exactly that size; a refused size and a wrong operand change nothing and are errors')
    vals = (-1, 0, 1, 9, 10, 11, 12, 38, 39, 40, 60, 66, 80, 132, 199, 200, 201, 256, 998, 999, 1000, 1001, 1 << 16, 1 << 31)
    ok = 0
    for r in vals:
        for w in vals:
            e, st, nums = world(prog, error=None, warning=None)
            e.stubs.pop('error', None)
            e.stubs.pop('warning', None)
            from eng import BUILTINS
            e.stubs.update(error=BUILTINS['error'], warning=BUILTINS['warning'])
            op = '%d,%d' % (r, w)
            xs = ends(e, 'Xpage', [0, 0, e.putstr(st, 'mn', 'PAGE'), e.putstr(st, 'op', op)], st)
            c.used(e)
            t = None if xs else 'no way through'
            for x in xs:
                got = e.getg(x, 'plen'), e.getg(x, 'llen')
                if x.end[0] == 'ret':
                    ok += 1
                    if got != (r & M, w & M):
                        t = 'the page has %s rows and %s columns' % got
                    elif r < 0 or 0 < r < 4 or w < 39:
                        t = 'is accepted'
                elif x.end[0] == 'error':
                    if got != (66, 76):
                        t = 'is refused and the page becomes %s rows and %s columns' % got
                    elif 20 <= r <= 200 and 40 <= w <= 200:
                        t = 'is refused'
                else:
                    t = 'ends in %r' % (x.end,)
            if t:
                c.bad('size', 'output.c setpage', 'PAGE %s: %s' % (op, t), 'size ' + op)
            else:
                c.ob('size', 'PAGE ' + op)
    c.floor('size', 500)


def skips(c, prog):
    c.rule('SKIP n prints n blank lines for every n up to 100; a larger or negative one prints none and is diagnosed')
    for n in list(range(0, 102)) + [-1, 255, 256, 300, 65536, 65537, 1 << 31, (1 << 32) + 1]:
        e, st, nums = world(prog, plen=0)
        xs = ends(e, 'Xskip', [0, 0, e.putstr(st, 'mn', 'SKIP'), e.putstr(st, 'op', '%d' % n)], st)
        c.used(e)
        t = None if len(xs) == 1 else '%d ways' % len(xs)
        for x in xs:
            out, rest = listing.lines(x)
            d = x.end[0] == 'error' or bool(x.events('warning'))
            if 0 <= n <= 100:
                if x.end[0] != 'ret' or d or rest or any(o for o, _ in out) or len(out) != n:
                    t = '%d lines are printed%s' % (len(out), ', with a diagnostic' if d else '')
            elif n < 1 << 31 and (not d or out or rest):
                t = '%d lines are printed%s' % (len(out), '' if d else ' without a diagnostic')
            elif out:
                t = '%d lines are printed' % len(out)
        nm = 'SKIP %d' % n
        if t:
            c.bad('skip', 'pseudos.c Xskip', nm + ': ' + t, nm)
        else:
            c.ob('skip', nm)
    c.floor('skip', 100)


def titles(c, prog):
    c.rule('NAM, titles of every length: the header of the next page has the title completely, or the title is refused and stays as it was')
    for n in range(1, 60):
        e, st, nums = world(prog, ppos=0)
        from eng import BUILTINS
        e.stubs.update(error=BUILTINS['error'], warning=BUILTINS['warning'])
        t = None
        new = bytes(97 + i % 26 for i in range(n))
        xs = ends(e, 'Xnam', [0, 0, e.putstr(st, 'mn', 'NAM'), e.putstr(st, 'op', new)], st)
        if not xs:
            t = 'no way through'
        for x in xs:
            if x.events('oob'):
                t = 'the title does not fit its room'
                continue
            got = e.getstr(x, Ptr(prog.gl('title', 'output.c').name, 0))
            if x.end[0] == 'ret':
                if got != new:
                    t = 'the title becomes %r' % got
                x.frames, x.end = [], None
                for y in ends(e, 'outputraw', [e.putstr(x, 'text', b'some text')], x):
                    out, rest = listing.lines(y)
                    t = t or (header(out[0][0], nums, new) if out else 'no header')
            elif x.end[0] == 'error':
                if got != TITLE:
                    t = 'is refused and the title becomes %r' % got
                elif n <= 20:
                    t = 'is refused'
            else:
                t = 'ends in %r' % (x.end,)
        c.used(e)
        nm = 'title of %d characters' % n
        if t:
            c.bad('title', 'output.c settitle', nm + ': ' + t, nm)
        else:
            c.ob('title', nm)
    c.floor('title', 59)


# ---------------------------------------------------------------- long lines
def wraps(c, prog):
    c.rule('a character added to a listing line at every column of pages of every kind of width, the content of the line unknown: what stands on the line stays '
           'or goes out unchanged as one line no wider than the page, and the character stands behind it or on the continuation')
    for llen in (39, 40, 57, 76, 132) if c.tier != 'quick' else (39, 40, 76):
        for lpos in sorted({0, 1, 20, 21, 27, 28, 29, 30, llen - 2, llen - 1, llen, llen + 1, llen + 7}):
            for ch in (ord('x'), ord(';'), ord('"'), 0xe9, ord(' '), ord('\t'), 1):
                for off in (0, 28, 34):
                    if off >= llen or off and lpos < llen - 1:
                        continue        # only a line that ends looks at it
                    t = wrap(c, prog, llen, lpos, ch, off)
                    nm = '%d columns, column %d, character %02x, continuation at %d' % (llen, lpos, ch, off)
                    if t:
                        c.bad('wrap', 'output.c outputcar', nm + ': ' + t, 'wrap ' + nm)
                    else:
                        c.ob('wrap', nm)
    c.floor('wrap', 300)


def wrap(c, prog, llen, lpos, ch, off):
    n = min(lpos, llen)
    cells = [Sym('C%d' % i, 8) for i in range(n)]

    def s_filter(e, st, a, ins):
        # any pattern may be found in what stands on the line; the rest begins anywhere in it
        x = st.copy()
        e.setg(st, 'chars_consumed_by_filter', 0)
        out = [(st, 0)]
        for k in sorted({0, 1, max(0, n - 29)}):
            y = x.copy()
            e.setg(y, 'chars_consumed_by_filter', k)
            out.append((y, 1))
        return out

    def s_raw(e, st, a, ins):
        p = a[0]
        got = []
        for i in range(1000):
            v = e.load(st, Ptr(p.obj, p.off + i), ir.INT(8))
            if v == 0:
                break
            got.append(v)
        st.ev('raw', tuple(got), ins.where())
        return 0
    e = Engine(prog, {'filter': s_filter, 'outputraw': s_raw})
    st = State()
    facts = []
    for s in cells:
        facts.append(('ne', 8, s, 0, True))
    st.facts = encchk.facts_of(facts) if facts else st.facts
    for g, v in (('llen', llen), ('lpos', lpos), ('asmflags', ON), ('plen', 66), ('ppos', 10), ('lastoffset', off)):
        e.setg(st, g, v)
    b = prog.gl('linebuffer', 'output.c').name
    for k, v in enumerate(cells + [0]):
        e.store(st, Ptr(b, k), ir.INT(8), v)
    xs = ends(e, 'outputcar', [ch if ch < 128 else ch - 256 & 255], st)
    c.used(e)
    if not xs:
        return 'no way through'
    for x in xs:
        if x.end[0] == 'fatal':
            return 'stops the run'
        if x.end[0] != 'ret':
            return 'ends in %r' % (x.end,)
        raws = x.events('raw')
        now = []
        for i in range(1000):
            v = e.load(x, Ptr(b, i), ir.INT(8))
            if v == 0:
                break
            now.append(v)
        pos = e.getg(x, 'lpos')
        if len(raws) > 1 or raws and list(raws[0][1]) != cells:
            return 'the line goes out as %d characters' % len(raws[0][1])
        if len(now) > llen:
            return 'the line has %d columns' % len(now)
        base = [] if raws else cells
        if now[:len(base)] != base:
            return 'changes what stands on the line'
        more = now[len(base):]
        if ch in (32, 9):
            if raws or any(v != 32 for v in more):
                return 'a blank prints %r' % more
        elif ch == 1:
            if any(v != 32 for v in more):
                return 'prints %r' % more
        else:
            if not more or more[-1] != ch or any(v != 32 for v in more[:-1]):
                return 'the character is lost'
            if pos != len(now):
                return 'the next character goes to column %s of %d' % (dom.show(pos), len(now))
            if bool(raws) != (lpos >= llen):
                return 'the line is %s' % ('ended before its last column' if raws else 'wider than the page')
    return None


def run(c, prog):
    c.level = 'proof'
    c.assume += ['standard output accepts what is printed', 'the page is not made shorter than the rows already printed on it, nor narrower than a line already begun']
    rows(c, prog)
    ejections(c, prog)
    sizes(c, prog)
    skips(c, prog)
    titles(c, prog)
    wraps(c, prog)
