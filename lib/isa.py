"""Reference instruction sets, written from the manufacturers' opcode maps.

spec(cpu, mnemonic, operand form, forward) gives the pieces (condition on the
operand value, acceptable outcomes) the assembler has to produce."""
import dom
from dom import Sym, trunc, byte

V1, V2, PC = Sym('V1', 64), Sym('V2', 64), Sym('PC', 64)
ERR = ('error',)


def lo(v):
    return byte(v, 0)


def hi(v):
    return byte(v, 1)


def B(*bs, **kw):
    return ('bytes', tuple(bs), kw.get('warn'))


def c_eq(v, k, w=64, truth=True):
    return ('eq', w, v, k & ((1 << w) - 1), truth)


def c_rng(v, lo_, hi_, w=64):
    m = (1 << w) - 1
    return [('sge', w, v, lo_ & m, True), ('sle', w, v, hi_ & m, True)]


def c_lt(v, k, w=64):
    return ('slt', w, v, k & ((1 << w) - 1), True)


def c_gt(v, k, w=64):
    return ('sgt', w, v, k & ((1 << w) - 1), True)


def hi8(v):
    """bits 8..15"""
    return byte(v, 1)


def fits8(v):
    return [('eq', 8, hi8(v), 0, True)]


def not8(v):
    return [('eq', 8, hi8(v), 0, False)]


DOM = c_rng(V1, -32768, 65535) + c_rng(V2, -32768, 65535) + c_rng(PC, 0, 65535)


def imm8(op, v=V1):
    """an 8 bit immediate: emitted truncated, diagnosed iff bits 8-15 are set"""
    return [(fits8(v), [B(op, lo(v), warn=False)]), (not8(v), [B(op, lo(v), warn=True), ERR])]


def branch(op, v=V1, warn=False):
    d = trunc(dom.sub(64, dom.sub(64, v, PC), 2), 32)
    return [(c_rng(d, -128, 127, 32), [B(op, trunc(d, 8), warn=warn)]),
            ([c_lt(d, -128, 32)], [ERR]), ([c_gt(d, 127, 32)], [ERR])]


ALL = []


# ------------------------------------------------------------------ 6800 / 6801
BR6800 = dict(BRA=0x20, BHI=0x22, BLS=0x23, BCC=0x24, BCS=0x25, BNE=0x26, BEQ=0x27, BVC=0x28, BVS=0x29, BPL=0x2a, BMI=0x2b,
              BGE=0x2c, BLT=0x2d, BGT=0x2e, BLE=0x2f, BSR=0x8d)
INH6800 = dict(NOP=0x01, TAP=0x06, TPA=0x07, INX=0x08, DEX=0x09, CLV=0x0a, SEV=0x0b, CLC=0x0c, SEC=0x0d, CLI=0x0e, SEI=0x0f,
               SBA=0x10, CBA=0x11, TAB=0x16, TBA=0x17, DAA=0x19, ABA=0x1b, TSX=0x30, INS=0x31, PULA=0x32, PULB=0x33,
               DES=0x34, TXS=0x35, PSHA=0x36, PSHB=0x37, RTS=0x39, RTI=0x3b, WAI=0x3e, SWI=0x3f,
               NEGA=0x40, COMA=0x43, LSRA=0x44, RORA=0x46, ASRA=0x47, ASLA=0x48, ROLA=0x49, DECA=0x4a, INCA=0x4c,
               TSTA=0x4d, CLRA=0x4f, NEGB=0x50, COMB=0x53, LSRB=0x54, RORB=0x56, ASRB=0x57, ASLB=0x58, ROLB=0x59,
               DECB=0x5a, INCB=0x5c, TSTB=0x5d, CLRB=0x5f)
# immediate (i1/i2 = operand bytes), direct, indexed, extended
MEM6800 = {}
for _n, _b in dict(SUB=0x80, CMP=0x81, SBC=0x82, AND=0x84, BIT=0x85, LDA=0x86, EOR=0x88, ADC=0x89, ORA=0x8a, ADD=0x8b).items():
    MEM6800[_n + 'A'] = {'i1': _b, 'd': _b + 0x10, 'x': _b + 0x20, 'e': _b + 0x30}
    MEM6800[_n + 'B'] = {'i1': _b + 0x40, 'd': _b + 0x50, 'x': _b + 0x60, 'e': _b + 0x70}
MEM6800.update({
    'STAA': {'d': 0x97, 'x': 0xa7, 'e': 0xb7}, 'STAB': {'d': 0xd7, 'x': 0xe7, 'e': 0xf7},
    'CPX': {'i2': 0x8c, 'd': 0x9c, 'x': 0xac, 'e': 0xbc}, 'LDS': {'i2': 0x8e, 'd': 0x9e, 'x': 0xae, 'e': 0xbe},
    'STS': {'d': 0x9f, 'x': 0xaf, 'e': 0xbf}, 'LDX': {'i2': 0xce, 'd': 0xde, 'x': 0xee, 'e': 0xfe},
    'STX': {'d': 0xdf, 'x': 0xef, 'e': 0xff}, 'JMP': {'x': 0x6e, 'e': 0x7e}, 'JSR': {'x': 0xad, 'e': 0xbd},
    'NEG': {'x': 0x60, 'e': 0x70}, 'COM': {'x': 0x63, 'e': 0x73}, 'LSR': {'x': 0x64, 'e': 0x74}, 'ROR': {'x': 0x66, 'e': 0x76},
    'ASR': {'x': 0x67, 'e': 0x77}, 'ASL': {'x': 0x68, 'e': 0x78}, 'ROL': {'x': 0x69, 'e': 0x79}, 'DEC': {'x': 0x6a, 'e': 0x7a},
    'INC': {'x': 0x6c, 'e': 0x7c}, 'TST': {'x': 0x6d, 'e': 0x7d}, 'CLR': {'x': 0x6f, 'e': 0x7f},
})
BR6801 = dict(BRN=0x21)
INH6801 = dict(LSRD=0x04, ASLD=0x05, PULX=0x38, ABX=0x3a, PSHX=0x3c, MUL=0x3d)
MEM6801 = {
    'SUBD': {'i2': 0x83, 'd': 0x93, 'x': 0xa3, 'e': 0xb3}, 'ADDD': {'i2': 0xc3, 'd': 0xd3, 'x': 0xe3, 'e': 0xf3},
    'LDD': {'i2': 0xcc, 'd': 0xdc, 'x': 0xec, 'e': 0xfc}, 'STD': {'d': 0xdd, 'x': 0xed, 'e': 0xfd},
}
FORMS6800 = ['none', '#V1', 'V1', 'V1,x', ',x', 'V1,y', 'V1,V1', 'x', '#x', 'V1,V1,x', '(V1)']
SPACED6800 = {'#V1': ['# V1', '#\tV1'], 'V1,x': ['V1 , X', 'V1, x'], ',x': [', X']}


def spec6800(cpu, m, form, fwd):
    ext = cpu != '6800'
    br = dict(BR6800)
    inh = dict(INH6800)
    mem = dict(MEM6800)
    if ext:
        br.update(BR6801)
        inh.update(INH6801)
        mem.update(MEM6801)
    if m in br:
        if form in ('V1', '(V1)'):
            return branch(br[m], warn=False if form == 'V1' else None)
        return [(ALL, [ERR])]
    if m in inh:
        return [(ALL, [B(inh[m], warn=False)] if form == 'none' else [ERR])]
    if m not in mem:
        return None
    t = mem[m]
    if form == '#V1':
        if 'i1' in t:
            return imm8(t['i1'])
        if 'i2' in t:
            return [(ALL, [B(t['i2'], hi(V1), lo(V1), warn=False)])]
        return [(ALL, [ERR])]
    if form == ',x':
        return [(ALL, [B(t['x'], 0, warn=False)])]
    if form == 'V1,x':
        return [(fits8(V1), [B(t['x'], lo(V1), warn=False)]), (not8(V1), [ERR])]
    if form in ('V1', '(V1)'):
        e = B(t['e'], hi(V1), lo(V1), warn=False if form == 'V1' else None)
        if 'd' in t and not fwd:
            return [(fits8(V1), [B(t['d'], lo(V1), warn=False if form == 'V1' else None)]), (not8(V1), [e])]
        if m == 'JSR' and ext and not fwd:
            return [(fits8(V1), [e, B(0x9d, lo(V1))]), (not8(V1), [e])]
        return [(ALL, [e])]
    return [(ALL, [ERR])]


def names6800(cpu):
    r = set(BR6800) | set(INH6800) | set(MEM6800)
    if cpu != '6800':
        r |= set(BR6801) | set(INH6801) | set(MEM6801)
    return r


# ------------------------------------------------------------------ 6502 / 65C02
BR6502 = dict(BPL=0x10, BMI=0x30, BVC=0x50, BVS=0x70, BCC=0x90, BCS=0xb0, BNE=0xd0, BEQ=0xf0,
              # names CRASM adds for branch-after-compare
              BHI=0xb0, BLO=0x90, BGT=0x10, BLE=0x30)
INH6502 = dict(BRK=0x00, PHP=0x08, CLC=0x18, PLP=0x28, SEC=0x38, RTI=0x40, PHA=0x48, CLI=0x58, RTS=0x60, PLA=0x68, SEI=0x78,
               DEY=0x88, TXA=0x8a, TYA=0x98, TXS=0x9a, TAY=0xa8, TAX=0xaa, CLV=0xb8, TSX=0xba, INY=0xc8, DEX=0xca,
               CLD=0xd8, INX=0xe8, NOP=0xea, SED=0xf8)
# zp abs zpx absx zpy absy indx(zp,x) indy (zp),y imm acc ind (abs)
MEM6502 = {
    'ORA': dict(imm=0x09, zp=0x05, zpx=0x15, ab=0x0d, abx=0x1d, aby=0x19, izx=0x01, izy=0x11),
    'AND': dict(imm=0x29, zp=0x25, zpx=0x35, ab=0x2d, abx=0x3d, aby=0x39, izx=0x21, izy=0x31),
    'EOR': dict(imm=0x49, zp=0x45, zpx=0x55, ab=0x4d, abx=0x5d, aby=0x59, izx=0x41, izy=0x51),
    'ADC': dict(imm=0x69, zp=0x65, zpx=0x75, ab=0x6d, abx=0x7d, aby=0x79, izx=0x61, izy=0x71),
    'STA': dict(zp=0x85, zpx=0x95, ab=0x8d, abx=0x9d, aby=0x99, izx=0x81, izy=0x91),
    'LDA': dict(imm=0xa9, zp=0xa5, zpx=0xb5, ab=0xad, abx=0xbd, aby=0xb9, izx=0xa1, izy=0xb1),
    'CMP': dict(imm=0xc9, zp=0xc5, zpx=0xd5, ab=0xcd, abx=0xdd, aby=0xd9, izx=0xc1, izy=0xd1),
    'SBC': dict(imm=0xe9, zp=0xe5, zpx=0xf5, ab=0xed, abx=0xfd, aby=0xf9, izx=0xe1, izy=0xf1),
    'ASL': dict(acc=0x0a, zp=0x06, zpx=0x16, ab=0x0e, abx=0x1e),
    'ROL': dict(acc=0x2a, zp=0x26, zpx=0x36, ab=0x2e, abx=0x3e),
    'LSR': dict(acc=0x4a, zp=0x46, zpx=0x56, ab=0x4e, abx=0x5e),
    'ROR': dict(acc=0x6a, zp=0x66, zpx=0x76, ab=0x6e, abx=0x7e),
    'LDX': dict(imm=0xa2, zp=0xa6, zpy=0xb6, ab=0xae, aby=0xbe),
    'LDY': dict(imm=0xa0, zp=0xa4, zpx=0xb4, ab=0xac, abx=0xbc),
    'CPX': dict(imm=0xe0, zp=0xe4, ab=0xec),
    'CPY': dict(imm=0xc0, zp=0xc4, ab=0xcc),
    'STX': dict(zp=0x86, zpy=0x96, ab=0x8e),
    'STY': dict(zp=0x84, zpx=0x94, ab=0x8c),
    'INC': dict(zp=0xe6, zpx=0xf6, ab=0xee, abx=0xfe),
    'DEC': dict(zp=0xc6, zpx=0xd6, ab=0xce, abx=0xde),
    'BIT': dict(zp=0x24, ab=0x2c),
    'JMP': dict(ab=0x4c, ind=0x6c),
    'JSR': dict(ab=0x20),
}
ADD65C02 = {
    'ORA': dict(izp=0x12), 'AND': dict(izp=0x32), 'EOR': dict(izp=0x52), 'ADC': dict(izp=0x72), 'STA': dict(izp=0x92),
    'LDA': dict(izp=0xb2), 'CMP': dict(izp=0xd2), 'SBC': dict(izp=0xf2),
    'BIT': dict(imm=0x89, zpx=0x34, abx=0x3c), 'INC': dict(acc=0x1a), 'DEC': dict(acc=0x3a), 'JMP': dict(iax=0x7c),
    'STZ': dict(zp=0x64, zpx=0x74, ab=0x9c, abx=0x9e), 'TSB': dict(zp=0x04, ab=0x0c), 'TRB': dict(zp=0x14, ab=0x1c),
}
INH65C02 = dict(PHX=0xda, PLX=0xfa, PHY=0x5a, PLY=0x7a)
BR65C02 = dict(BRA=0x80)
FORMS6502 = ['none', 'a', '#V1', 'V1', 'V1,x', 'V1,y', '(V1,x)', '(V1),y', '(V1)', '(V1,y)', '(V1),x', 'x', 'y', '#a', 'V1,a',
             '(a)', '(x),y', '@V1', '@V1,x', '@V1,y', 's', 'p']
SPACED6502 = {'#V1': ['# V1'], 'V1,x': ['V1 , X'], 'V1,y': ['V1, Y'], '(V1,x)': ['( V1 , X )'], '(V1),y': ['( V1 ) , Y'],
              '(V1)': ['( V1 )'], 'a': ['A']}


def mem6502(cpu):
    m = {k: dict(v) for k, v in MEM6502.items()}
    if cpu == '65C02':
        for k, v in ADD65C02.items():
            m.setdefault(k, {}).update(v)
    if cpu == '6500':
        m['ROR'] = {}
    return m


def names6502(cpu):
    r = set(BR6502) | set(INH6502) | set(mem6502(cpu))
    if cpu == '65C02':
        r |= set(INH65C02) | set(BR65C02)
    return r


def spec6502(cpu, m, form, fwd):
    br = dict(BR6502)
    inh = dict(INH6502)
    if cpu == '65C02':
        br.update(BR65C02)
        inh.update(INH65C02)
    if m in br:
        return branch(br[m], warn=False if form == 'V1' else None) if form in ('V1', '(V1)') else [(ALL, [ERR])]
    if m in inh:
        return [(ALL, [B(inh[m], warn=False)] if form == 'none' else [ERR])]
    t = mem6502(cpu).get(m)
    if t is None:
        return None
    if form in ('none', 'a'):
        return [(ALL, [B(t['acc'], warn=False)] if 'acc' in t else [ERR])]
    if form == '#V1':
        if 'imm' not in t:
            return [(ALL, [ERR])]
        return imm8(t['imm'])
    if form == '(V1),x':
        # parentheses around the base of an indexed operand are a parenthesised expression
        return [(c, [('bytes', o[1], None) if o[0] == 'bytes' else o for o in os_] + [ERR])
                for c, os_ in spec6502(cpu, m, 'V1,x', fwd)]
    pair = {'V1': ('zp', 'ab'), 'V1,x': ('zpx', 'abx'), 'V1,y': ('zpy', 'aby'), '(V1,x)': ('izx', 'iax'), '@V1,x': ('izx', 'iax'),
            '(V1),y': ('izy', None), '@V1,y': ('izy', None), '(V1)': ('izp', 'ind'), '@V1': ('izp', 'ind')}.get(form)
    if pair is None:
        return [(ALL, [ERR])]
    s, l = t.get(pair[0]), t.get(pair[1])
    L = B(l, lo(V1), hi(V1), warn=False) if l is not None else ERR
    S = B(s, lo(V1), warn=False) if s is not None else None
    if S is None:
        return [(ALL, [L])]
    if fwd:
        # the long form where there is one; otherwise the short one or a rejection
        if l is not None:
            return [(ALL, [L])]
        return [(fits8(V1), [ERR, S]), (not8(V1), [ERR])]
    return [(fits8(V1), [S]), (not8(V1), [L])]


# ------------------------------------------------------------------ Z80
R8 = dict(B=0, C=1, D=2, E=3, H=4, L=5, A=7)
RP = dict(BC=0, DE=1, HL=2, SP=3)
CC = dict(NZ=0, Z=1, NC=2, C=3, PO=4, PE=5, P=6, M=7)
SIMPLEZ80 = dict(CCF=(0x3f,), CPD=(0xed, 0xa9), CPDR=(0xed, 0xb9), CPI=(0xed, 0xa1), CPIR=(0xed, 0xb1), CPL=(0x2f,),
                 DAA=(0x27,), EXX=(0xd9,), HALT=(0x76,), IND=(0xed, 0xaa), INDR=(0xed, 0xba), INI=(0xed, 0xa2),
                 INIR=(0xed, 0xb2), DI=(0xf3,), EI=(0xfb,), LDD=(0xed, 0xa8), LDDR=(0xed, 0xb8), LDI=(0xed, 0xa0),
                 LDIR=(0xed, 0xb0), NEG=(0xed, 0x44), NOP=(0x00,), OTDR=(0xed, 0xbb), OTIR=(0xed, 0xb3),
                 OUTD=(0xed, 0xab), OUTI=(0xed, 0xa3), RETI=(0xed, 0x4d), RETN=(0xed, 0x45), RLA=(0x17,), RLCA=(0x07,),
                 RLD=(0xed, 0x6f), RRA=(0x1f,), RRCA=(0x0f,), RRD=(0xed, 0x67), SCF=(0x37,))
ALUZ80 = dict(ADD=0x80, ADC=0x88, SUB=0x90, SBC=0x98, AND=0xa0, XOR=0xa8, OR=0xb0, CP=0xb8)
CBZ80 = dict(RLC=0x00, RRC=0x08, RL=0x10, RR=0x18, SLA=0x20, SRA=0x28, SRL=0x38)
BITZ80 = dict(BIT=0x40, RES=0x80, SET=0xc0)
NAMESZ80 = set(SIMPLEZ80) | set(ALUZ80) | set(CBZ80) | set(BITZ80) | {
    'IM', 'RST', 'DJNZ', 'JR', 'JP', 'CALL', 'RET', 'EX', 'IN', 'OUT', 'PUSH', 'POP', 'INC', 'DEC', 'LD'}

REGTOK = ['a', 'b', 'c', 'd', 'e', 'h', 'l', 'bc', 'de', 'hl', 'sp', 'ix', 'iy', 'f', 'i', 'r', 'af']
MEMTOK = ['(hl)', '(ix)', '(iy)', '(ix+%s)', '(iy+%s)', '(ix-%s)', '(iy-%s)', '(bc)', '(de)', '(sp)', '(c)', '(%s)']
MISC = ['%s', "af'", 'nz', 'z', 'nc', 'po', 'pe', 'p', 'm', '(a)', '(af)']
TOKZ80 = REGTOK + MEMTOK + MISC


def slot(tok, v):
    """(kind, data) of an operand token; v: its symbol"""
    t = tok.upper()
    if tok == '%s':
        return ('n', v)
    if tok == '(%s)':
        return ('mem', v)
    if t in R8:
        return ('r', R8[t])
    if t == '(HL)':
        return ('r', 6, [], None)
    if t in ('(IX)', '(IY)'):
        return ('r', 6, [0xdd if t == '(IX)' else 0xfd], 0)
    if tok in ('(ix+%s)', '(iy+%s)'):
        return ('r', 6, [0xdd if 'x' in tok else 0xfd], v)
    if tok in ('(ix-%s)', '(iy-%s)'):
        return ('r', 6, [0xdd if 'x' in tok else 0xfd], dom.neg(64, v))
    if t in ('IX', 'IY'):
        return ('rp', 2, [0xdd if t == 'IX' else 0xfd])
    if t in RP:
        return ('rp', RP[t], [])
    return ('x', t)


def W(s):
    # redundant outer parentheses draw a warning of their own
    return False if s[0] == 'n' else None


def r8(s):
    """register-or-memory slot -> (number, prefix, displacement or None), or None"""
    if s[0] != 'r':
        return None
    if len(s) == 2:
        return s[1], [], None
    return s[1], s[2], s[3]


def with_disp(pre, opb, d, tail=(), warn=None, cb=None):
    """pieces of a prefixed instruction with displacement d (None: none)"""
    if d is None:
        return [(ALL, [B(*(list(pre) + ([0xcb] if cb is not None else []) + [opb if cb is None else cb] + list(tail)), warn=warn)])]
    db = d if isinstance(d, int) else lo(d)
    if cb is None:
        bs = list(pre) + [opb, db] + list(tail)
    else:
        bs = list(pre) + [0xcb, db, cb]
    if isinstance(d, int):
        return [(ALL, [B(*bs, warn=warn)])]
    return [(c_rng(d, -128, 127), [B(*bs, warn=warn)]),
            ([c_lt(d, -128)], [B(*bs, warn=True), ERR]), ([c_gt(d, 127)], [B(*bs, warn=True), ERR])]


def warn8(pieces, v):
    """split pieces on the 8-bit fit of immediate v: overflow must be diagnosed"""
    out = []
    for c, o in pieces:
        out.append((list(c) + fits8(v), o))
        out.append((list(c) + not8(v), [x if x[0] == 'error' else ('bytes', x[1], True) for x in o] + [ERR]))
    return out


def specz80(m, toks):
    """toks: operand tokens with %s placeholders (V1 for the first, V2 for the second)"""
    E = [(ALL, [ERR])]
    vs = [V1, V2]
    s = [slot(t, vs[i]) for i, t in enumerate(toks)]
    n = len(toks)
    up = [t.upper() for t in toks]
    if m in SIMPLEZ80:
        return [(ALL, [B(*SIMPLEZ80[m], warn=False)])] if n == 0 else E
    if m == 'IM':
        if n == 1 and s[0][0] in ('n', 'mem'):
            v = s[0][1]
            return [([c_eq(v, k)], [B(0xed, o)]) for k, o in ((0, 0x46), (1, 0x56), (2, 0x5e))] + \
                   [([c_eq(v, 0, truth=False), c_eq(v, 1, truth=False), c_eq(v, 2, truth=False)], [ERR])]
        return E
    if m == 'RST':
        if n == 1 and s[0][0] in ('n', 'mem'):
            v = s[0][1]
            p = [([c_eq(v, k)], [B(0xc7 | k << 3)]) for k in range(8)]
            p += [([c_eq(v, k)], [B(0xc7 | k)]) for k in range(8, 64, 8)]
            p += [([c_eq(v, k)], [ERR]) for k in range(9, 64) if k % 8]
            p += [([c_lt(v, 0)], [ERR]), ([c_gt(v, 63)], [ERR])]
            return p
        return E
    if m == 'DJNZ':
        return branch(0x10, s[0][1], warn=W(s[0])) if n == 1 and s[0][0] in ('n', 'mem') else E
    if m == 'JR':
        if n == 1 and s[0][0] in ('n', 'mem'):
            return branch(0x18, s[0][1], warn=W(s[0]))
        if n == 2 and up[0] in ('NZ', 'Z', 'NC', 'C') and s[1][0] in ('n', 'mem'):
            return branch(0x20 + (CC[up[0]] << 3), s[1][1], warn=W(s[1]))
        return E
    if m in ('JP', 'CALL'):
        if m == 'JP' and n == 1 and up[0] in ('(HL)', '(IX)', '(IY)'):
            return [(ALL, [B(*({'H': [], 'X': [0xdd], 'Y': [0xfd]}[up[0][2] if up[0][2] != 'L' else 'H'] + [0xe9]), warn=False)])]
        u, c = (0xc3, 0xc2) if m == 'JP' else (0xcd, 0xc4)
        if n == 1 and (s[0][0] == 'n' or s[0][0] == 'mem' and m == 'CALL'):
            return [(ALL, [B(u, lo(s[0][1]), hi(s[0][1]))])]
        if n == 2 and up[0] in CC and s[1][0] in ('n', 'mem'):
            return [(ALL, [B(c + (CC[up[0]] << 3), lo(s[1][1]), hi(s[1][1]))])]
        return E
    if m == 'RET':
        if n == 0:
            return [(ALL, [B(0xc9, warn=False)])]
        if n == 1 and up[0] in CC:
            return [(ALL, [B(0xc0 + (CC[up[0]] << 3), warn=False)])]
        return E
    if m == 'EX':
        if n != 2:
            return E
        if set(up) == {'DE', 'HL'}:
            return [(ALL, [B(0xeb, warn=False)])]
        if set(up) == {'AF', "AF'"}:
            return [(ALL, [B(0x08, warn=False)])]
        o = None
        if up[0] == '(SP)':
            o = up[1]
        elif up[1] == '(SP)':
            o = up[0]
        if o in ('HL', 'IX', 'IY'):
            return [(ALL, [B(*({'HL': [], 'IX': [0xdd], 'IY': [0xfd]}[o] + [0xe3]), warn=False)])]
        return E
    if m in ('IN', 'OUT'):
        if n != 2:
            return E
        port, reg = (1, 0) if m == 'IN' else (0, 1)
        if s[port][0] == 'mem' and up[reg] == 'A':
            v = s[port][1]
            return warn8([(ALL, [B(0xdb if m == 'IN' else 0xd3, lo(v), warn=False)])], v)
        if up[port] == '(C)' and s[reg][0] == 'r' and len(s[reg]) == 2:
            return [(ALL, [B(0xed, (0x40 if m == 'IN' else 0x41) + (s[reg][1] << 3), warn=False)])]
        return E
    if m in BITZ80:
        if n != 2 or s[0][0] not in ('n', 'mem') or r8(s[1]) is None:
            return E
        r, pre, d = r8(s[1])
        v = s[0][1]
        out = []
        for k in range(8):
            for c, o in with_disp(pre, None, d, cb=BITZ80[m] + (k << 3) + r):
                out.append(([c_eq(v, k)] + list(c), o))
        return out + [([c_lt(v, 0)], [ERR]), ([c_gt(v, 7)], [ERR])]
    if m in CBZ80:
        if n != 1 or r8(s[0]) is None:
            return E
        r, pre, d = r8(s[0])
        return with_disp(pre, None, d, cb=CBZ80[m] + r, warn=False)
    if m in ALUZ80:
        two = n == 2
        if two and m in ('ADD', 'ADC', 'SBC') and s[0][0] == 'rp':
            if s[1][0] != 'rp' or toks[0] in ('bc', 'de', 'sp'):
                return E
            pre = s[0][2]
            if s[1][1] == 2 and s[1][2] != pre:
                return E
            if m == 'ADD':
                return [(ALL, [B(*(pre + [0x09 + (s[1][1] << 4)]), warn=False)])]
            if pre:
                return E
            return [(ALL, [B(0xed, (0x4a if m == 'ADC' else 0x42) + (s[1][1] << 4), warn=False)])]
        if n == 0 or two and up[0] != 'A' or n == 1 and m in ('ADD', 'ADC', 'SBC'):
            return E
        extra = two and m not in ('ADD', 'ADC', 'SBC')       # 'sub a,b': accepted with a warning
        x = s[-1]
        q = r8(x)
        if q is not None:
            p = with_disp(q[1], ALUZ80[m] + q[0], q[2], warn=None if extra else False)
        elif x[0] == 'n':
            p = warn8([(ALL, [B(ALUZ80[m] + 0x46, lo(x[1]), warn=None if extra else False)])], x[1])
        else:
            return E
        if extra:
            p = [(c, list(o) + [ERR]) for c, o in p]
        return p
    if m in ('PUSH', 'POP'):
        if n != 1:
            return E
        b = 0xc5 if m == 'PUSH' else 0xc1
        if up[0] == 'AF':
            return [(ALL, [B(b + 0x30, warn=False)])]
        if s[0][0] == 'rp' and up[0] != 'SP':
            return [(ALL, [B(*(s[0][2] + [b + (s[0][1] << 4)]), warn=False)])]
        return E
    if m in ('INC', 'DEC'):
        if n != 1:
            return E
        q = r8(s[0])
        if q is not None:
            return with_disp(q[1], (0x04 if m == 'INC' else 0x05) + (q[0] << 3), q[2], warn=False)
        if s[0][0] == 'rp':
            return [(ALL, [B(*(s[0][2] + [(0x03 if m == 'INC' else 0x0b) + (s[0][1] << 4)]), warn=False)])]
        return E
    if m == 'LD':
        if n != 2:
            return E
        a, b = s
        qa, qb = r8(a), r8(b)
        if qa and qb:
            if qa[0] == 6 and qb[0] == 6:
                return E
            d = qa[2] if qa[2] is not None else qb[2]
            return with_disp(qa[1] + qb[1], 0x40 + (qa[0] << 3) + qb[0], d, warn=False)
        if qa and b[0] == 'n':
            p = with_disp(qa[1], 0x06 + (qa[0] << 3), qa[2], tail=[lo(b[1])], warn=False)
            return warn8(p, b[1])
        if up[0] == 'A':
            if b[0] == 'mem':
                return [(ALL, [B(0x3a, lo(b[1]), hi(b[1]), warn=False)])]
            o = {'(BC)': [0x0a], '(DE)': [0x1a], 'I': [0xed, 0x57], 'R': [0xed, 0x5f]}.get(up[1])
            return [(ALL, [B(*o, warn=False)])] if o else E
        if a[0] == 'rp':
            if b[0] == 'n':
                return [(ALL, [B(*(a[2] + [0x01 + (a[1] << 4), lo(b[1]), hi(b[1])]), warn=False)])]
            if b[0] == 'mem':
                if a[1] == 2:
                    o = a[2] + [0x2a, lo(b[1]), hi(b[1])]
                    alt = [B(0xed, 0x6b, lo(b[1]), hi(b[1]))] if not a[2] else []
                    return [(ALL, [B(*o, warn=False)] + alt)]
                return [(ALL, [B(0xed, 0x4b + (a[1] << 4), lo(b[1]), hi(b[1]), warn=False)])]
            if up[0] == 'SP' and b[0] == 'rp' and b[1] == 2:
                return [(ALL, [B(*(b[2] + [0xf9]), warn=False)])]
            return E
        if a[0] == 'mem':
            v = a[1]
            if up[1] == 'A':
                return [(ALL, [B(0x32, lo(v), hi(v), warn=False)])]
            if b[0] == 'rp':
                if b[1] == 2:
                    alt = [B(0xed, 0x63, lo(v), hi(v))] if not b[2] else []
                    return [(ALL, [B(*(b[2] + [0x22, lo(v), hi(v)]), warn=False)] + alt)]
                return [(ALL, [B(0xed, 0x43 + (b[1] << 4), lo(v), hi(v), warn=False)])]
            return E
        if up[1] == 'A':
            o = {'(BC)': [0x02], '(DE)': [0x12], 'I': [0xed, 0x47], 'R': [0xed, 0x4f]}.get(up[0])
            return [(ALL, [B(*o, warn=False)])] if o else E
        return E
    return None
