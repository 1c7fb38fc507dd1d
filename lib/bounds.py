"""Stores to memory: which addresses are fixed places of their object, and which move along it.

A store is at a fixed place when its address is an object plus constants only, or a field of a structure the function
was handed.  Every other store moves along an array; those are decided by interpreting the functions that contain them
on the states their callers can be in."""
import flow
import ir
from ir import size_of, layout, instrs

WRITERS = {'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'strncat': 0, 'memcpy': 0, 'memmove': 0, 'memset': 0, 'sprintf': 0, 'snprintf': 0, 'fgets': 0, 'fread': 1,
           'llvm.memcpy.p0.p0.i64': 0, 'llvm.memset.p0.i64': 0, 'llvm.memmove.p0.p0.i64': 0, 'vsprintf': 0, 'vsnprintf': 0, 'gets': 0,
           'stpcpy': 0, 'strlcpy': 0, '__sprintf_chk': 0, '__snprintf_chk': 0, '__strcpy_chk': 0, '__strncpy_chk': 0, '__memcpy_chk': 0}


def step(bt, idx):
    """(constant offset or None, moves) of an address computation"""
    o, t, moves = 0, bt, False
    for k, (ty, v) in enumerate(idx):
        if k == 0:
            if v[0] != 'c':
                return None, True
            o += size_of(bt) * sgn(v[1])
            moves |= v[1] != 0
        elif t.k == 's':
            o += layout(t)[0][v[1]]
            t = t.fs[v[1]]
        elif t.k == 'a':
            if v[0] != 'c':
                return None, True
            o += size_of(t.e) * sgn(v[1])
            t = t.e
    return o, moves


def sgn(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def place(prog, f, v):
    """('object', name, size, offset), ('field', offset) of a pointer received, or ('moving',)"""
    d = flow.defs(f)
    off = 0
    for _ in range(50):
        if v[0] == 'gep':
            o, m = step(v[1], v[3])
            if o is None:
                return ('moving',)
            off += o
            v = v[2]
        elif v[0] == 'bitcast':
            v = v[2]
        elif v[0] == 'g':
            g = prog.globals.get(v[1])
            return ('object', v[1].lstrip('@'), size_of(g.ty) if g else None, off)
        elif v[0] == 'r':
            i = d.get(v[1])
            if i is None:
                return ('field', off, 'param') if off >= 0 else ('moving',)
            if i.op == 'alloca':
                return ('object', i.dst, size_of(i.a[0]) if i.a and hasattr(i.a[0], 'k') else None, off)
            if i.op == 'getelementptr':
                o, m = step(i.a[0], i.a[2])
                if o is None or m and off + o != 0:
                    return ('moving',)
                off += o
                v = i.a[1]
            elif i.op in ('load', 'call', 'phi', 'select'):
                if i.op in ('phi', 'select') and walks(f, v, d):
                    return ('moving',)
                return ('field', off, i.op)
            else:
                return ('moving',)
        else:
            return ('moving',)
    return ('moving',)


def walks(f, v, d):
    """the pointer is advanced by the function itself"""
    seen, todo = set(), [v]
    while todo:
        v = todo.pop()
        if v[0] != 'r' or v[1] in seen:
            continue
        seen.add(v[1])
        i = d.get(v[1])
        if i is None:
            continue
        if i.op == 'getelementptr':
            o, m = step(i.a[0], i.a[2])
            if o is None or m:
                return True
            todo.append(i.a[1])
        elif i.op == 'phi':
            todo += [x for _, x in i.a]
        elif i.op == 'select':
            todo += [i.a[1], i.a[2]]
    return False


def sites(prog):
    """[(function, instruction, size stored or None, place)]"""
    out = []
    for f in prog.funcs.values():
        for i in instrs(f):
            if i.op == 'store':
                z, pl = size_of(i.a[0]), place(prog, f, i.a[2])
                if pl[0] == 'field' and pl[1] == 0 and z == 1 and pl[2] == 'load':
                    pl = ('moving',)        # a character through a pointer that is kept
                out.append((f, i, z, pl))
            elif i.op == 'call' and i.a[0][0] == 'g':
                n = i.a[0][1].lstrip('@')
                if n in WRITERS and len(i.a[1]) > WRITERS[n]:
                    v = i.a[1][WRITERS[n]][1]
                    if v is None or v[0] == 'c' or v[0] == 'null':
                        continue
                    pl = ('moving',)
                    if ('memcpy' in n or 'memmove' in n or 'memset' in n) and i.a[1][2][1][0] == 'c':
                        p = place(prog, f, v)
                        if p[0] == 'object':
                            out.append((f, i, i.a[1][2][1][1], p))
                            continue
                    out.append((f, i, None, pl))
    return out
