# PTV pyext
"""Every way of putting a number into a typed vector, with values around every limit."""
import math
import struct
import pointless
from pydrv import *

PV = pointless.PointlessPrimVector
LIM = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-32768, 32767), 'u16': (0, 65535), 'i32': (-1 << 31, (1 << 31) - 1), 'u32': (0, (1 << 32) - 1), 'i64': (-1 << 63, (1 << 63) - 1), 'u64': (0, (1 << 64) - 1)}
CODES = list(LIM) + ['f']
EDGES = sorted({s * (1 << k) + d for k in (0, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 127, 128) for s in (1, -1) for d in (-2, -1, 0, 1, 2)})


class Int(int):
    pass


class Idx:
    def __init__(self, v): self.v = v
    def __index__(self): return self.v
    def __int__(self): return self.v


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def number():
    r = rnd.random()
    if r < .7: return rnd.choice(EDGES)
    if r < .8: return rnd.getrandbits(rnd.randint(1, 80)) * rnd.choice([1, -1])
    if r < .85: return Int(rnd.choice(EDGES))
    if r < .95: return rnd.choice([0.0, -0.0, 1.0, 1.5, -2.5, 1e300, -1e300, 3.4028235e38, 3.5e38, 1e-46, 1e-40, 16777217.0, math.inf, -math.inf, rnd.uniform(-1e9, 1e9)])
    return rnd.choice(['1', None, [1], b'1', 1j, Idx(1), True, False])


def accepted(t, x):
    if t == 'f':
        return isinstance(x, float)
    return isinstance(x, int) and LIM[t][0] <= x <= LIM[t][1]


def one():
    t = rnd.choice(CODES)
    l = [1.5 if t == 'f' else rnd.choice([0, 1, 5, 100])for _ in range(rnd.randint(0, 6))]
    v = PV(t, sequence=l)
    for _ in range(12):
        x = number()
        how = rnd.randrange(8)
        note((t, list(l), how, repr(x), type(x).__name__))
        ok = accepted(t, x)
        want = (f32(x) if t == 'f' else int(x)) if ok else None
        m = list(l)
        i = rnd.randint(-len(l) - 1, len(l)) if rnd.random() < .5 else rnd.choice(EDGES)
        if how == 0:
            f = lambda: v.append(x); m.append(want)
        elif how == 1:
            f = lambda: v.append_bulk([x]); m.append(want)
        elif how == 2:
            y = 2.5 if t == 'f' else 7; f = lambda: v.append_bulk(iter([y, x, y])); m += [y, want, y]
        elif how in (3, 4):
            note(i)
            if not -len(l) <= i < len(l): ok = False
            else: m[i] = want
            def f(): v[i] = x
        elif how == 5:
            m = [want]
            def f():
                w = PV(t, sequence=[x])
                check(len(w) == 1 and same(w[0], want), 'construction: %r' % list(w))
            e, r = raises(f, ValueError, TypeError, OverflowError)
            check(e != ok, 'construction accepted: %r, expected %r' % (not e, ok))
            continue
        elif how == 6 and isinstance(x, int):
            # membership uses the same conversion
            e, r = raises(lambda: x in v, ValueError, TypeError, OverflowError)
            if t != 'f': check(not e and r == (x in l), 'membership')
            continue
        elif how == 7:
            u = rnd.choice(CODES)
            if not accepted(u, x): continue
            src = PV(u, sequence=[x])
            y = src[0]
            ok = accepted(t, y)
            if rnd.random() < .5:
                src = pointless.Pointless(pointless.serialize_to_bytearray(src)).GetRoot(); note('stored')
            m.append(y); f = lambda: v.append_bulk(src)
        else:
            continue
        e, r = raises(f, ValueError, TypeError, OverflowError, IndexError)
        check(e != ok, 'accepted: %r, expected %r' % (not e, ok))
        if ok: l = m
        check(len(v) == len(l) and all(same(a, b) for a, b in zip(v, l)), 'contents %r, expected %r' % (list(v), l))
        check(v.typecode == t, 'typecode')


def same(a, b):
    return type(a) is type(b) and (struct.pack('d', a) == struct.pack('d', b) if type(a) is float else a == b)


run(one, 6)
