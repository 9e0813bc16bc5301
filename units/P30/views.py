# PTV pyext
"""Stored vectors, their slices and slices of slices against Python lists of the same values."""
import os
import struct
import tempfile
import pointless
from pydrv import *

PV = pointless.PointlessPrimVector
FMT = {'i8': 'b', 'u8': 'B', 'i16': 'h', 'u16': 'H', 'i32': 'i', 'u32': 'I', 'i64': 'q', 'u64': 'Q', 'f': 'f'}
LIM = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-1 << 15, (1 << 15) - 1), 'u16': (0, (1 << 16) - 1), 'i32': (-1 << 31, (1 << 31) - 1), 'u32': (0, (1 << 32) - 1), 'i64': (-1 << 63, (1 << 63) - 1), 'u64': (0, (1 << 64) - 1)}


def num(t):
    if t == 'f': return struct.unpack('f', struct.pack('f', rnd.choice([0.0, 1.5, -2.25, 1e10, -1e-10, rnd.uniform(-9, 9), float(rnd.randint(-5, 5))])))[0]
    lo, hi = LIM[t]
    return rnd.choice([lo, hi, max(lo, rnd.randint(-3, 5)), max(lo, rnd.randint(-3, 5)), rnd.randint(lo, hi)])


def leaf():
    return rnd.choice([0, 1, -1, 7, 255, -129, 1 << 20, (1 << 32) - 1, -(1 << 31), True, False, None, 1.5, -0.25, 2.0, '', 'a', 'abc', 'b' * rnd.randint(0, 9), '\xe9', '\u20ac', '\U0001f600x', 'a\u20ac', '\U0001f600', '\U0010ffff\u20ac', '\U00010000'])


def anyval(d):
    if d and rnd.random() < .25: return [anyval(d - 1) for _ in range(rnd.randint(0, 4))]
    return leaf()


def make():
    """(stored vector, list, element type or None)"""
    n = rnd.choice([0, 1, 1, 2, 3, 4, 5, 8, 20, 100])
    k = rnd.random()
    if k < .5:
        t = rnd.choice(list(FMT)); l = [num(t) for _ in range(n)]; o = PV(t, sequence=l)
        if not l: t = None
    elif k < .6:
        t = None; l = [rnd.choice([0, 1, -1, 5, 300, -300, 1 << 31, -(1 << 31), 1 << 16, (1 << 32) - 1]) for _ in range(n)]; o = list(l)
    else:
        t = None; l = [anyval(2) for _ in range(n)]; o = list(l)
    if rnd.random() < .3 and l and t:
        # a file: mapped read-only
        fd, f = tempfile.mkstemp(dir=DIR); os.close(fd)
        pointless.serialize([o, 1], f)
        r = pointless.Pointless(f).GetRoot()[0]
        os.unlink(f)
    else:
        wrap = rnd.random() < .5
        r = pointless.Pointless(pointless.serialize_to_bytearray([o, None] if wrap else o)).GetRoot()
        if wrap: r = r[0]
    return r, l, t


def typed(r):
    x = raises(lambda: r.typecode, ValueError)
    return None if x[0] else x[1]


def plain(x):
    return [plain(y) for y in x] if type(x).__name__ == 'PyPointlessVector' else x


def eq(a, b):
    """the same value and type"""
    if isinstance(b, list): return type(a).__name__ == 'PyPointlessVector' and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def idx(n):
    return rnd.choice([None, 0, 1, -1, 2, -2, n, n - 1, n + 1, -n, -n - 1, -n + 1, rnd.randint(-n - 3, n + 3), rnd.randint(-n - 3, n + 3), 1 << 31, -(1 << 31), 1 << 32, -(1 << 32), (1 << 32) + 1, -(1 << 32) + 1, 1 << 63, -(1 << 63), 1 << 70, -(1 << 70)])


class Ix:
    def __init__(self, v): self.v = v
    def __index__(self): return self.v


def look(v, l, t, what):
    check(len(v) == len(l), what + ': length %d, expected %d' % (len(v), len(l)))
    got = list(v)
    check(eq_all(got, l), what + ': items %r, expected %r' % (list(map(plain, got)), l))
    check(eq_all(list(reversed(v)), l[::-1]), what + ': reversed')
    for _ in range(4):
        i = idx(len(l))
        if i is None: continue
        j = Ix(i) if rnd.random() < .2 else i
        note(('index', i))
        try: e = l[i]
        except IndexError: check(raises(lambda: v[j], IndexError)[0], what + ': index %d is out of bounds' % i)
        else: x = v[j]; check(eq(x, e), what + ': item %d is %r, expected %r' % (i, x, e))
    check(raises(lambda: v['a'], TypeError)[0] and raises(lambda: v[1.0], TypeError)[0], what + ': bad index')
    for _ in range(2):
        x = rnd.choice(l) if l and rnd.random() < .6 else leaf()
        note(('in', x))
        check((x in v) == (x in l), what + ': membership of %r' % (x,))
    if t:
        check(v.typecode == t, what + ': typecode')
        m = memoryview(v)
        check(m.readonly and bytes(m) == b''.join(struct.pack(FMT[t], x) for x in l), what + ': buffer')
        m.release()
    if t or (l and typed(v)):
        if l: check(eq(v.min(), min(l)) and eq(v.max(), max(l)) and tuple(v.range()) == (min(l), max(l)), what + ': min, max, range')
        else: check(raises(v.min, ValueError)[0] and raises(v.max, ValueError)[0] and raises(v.range, ValueError)[0], what + ': min, max, range of nothing')
    elif l:
        check(raises(v.min, ValueError)[0] and raises(v.max, ValueError)[0] and raises(v.range, ValueError)[0], what + ': min, max, range of values')
        check(raises(lambda: memoryview(v), BufferError)[0], what + ': buffer of values')


def eq_all(a, b):
    return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))


def one():
    v, l, t = make()
    note(('vector', t, l))
    look(v, l, t, 'vector')
    root, rl = v, l
    for _ in range(rnd.randint(1, 5)):
        a, b = idx(len(l)), idx(len(l))
        note(('slice', a, b))
        what = 'slice [%s:%s]' % (a, b)
        s = v[a:b] if rnd.random() < .8 else v[a:b:1]; m = l[a:b]
        check(type(s) is type(v), what + ': type')
        look(s, m, t, what)
        check(raises(lambda: v[a:b:rnd.choice([2, -1, -2, 3])], ValueError)[0] and raises(lambda: v[a:b:0], ValueError)[0], what + ': other steps')
        # comparisons, with another view of the same vector too
        for w, wl in ((v, l), (root, rl), (s, m), (root[1:], rl[1:])):
            for f in (lambda x, y: x == y, lambda x, y: x != y, lambda x, y: x < y, lambda x, y: x <= y, lambda x, y: x > y, lambda x, y: x >= y):
                e = raises(lambda: f(m, wl), TypeError); r = raises(lambda: f(s, w), TypeError)
                check(e[0] == r[0] and (e[0] or e[1] == r[1]), what + ': comparison %r, expected %r' % (r, e))
        # written again, the slice is what it is
        if rnd.random() < .4:
            w = pointless.Pointless(pointless.serialize_to_bytearray([s, root, s, v])).GetRoot()
            for x, y in zip(w, (m, rl, m, l)): check(eq(x, y), what + ': written again: %r, expected %r' % (plain(x), y))
        if t == 'u64':
            p = sorted(rl); note('bisect')
            q = pointless.Pointless(pointless.serialize_to_bytearray(PV('u64', sequence=p))).GetRoot()[a:b]; p = p[a:b]
            import bisect
            x = num('u64'); 
            check(q.typecode != 'u64' or q.bisect_left(x) == bisect.bisect_left(p, x), 'bisect_left of %d' % x) if p else None
            check(raises(lambda: s.bisect_left(rnd.choice([-1, 1 << 64, 'x', 1.0])), ValueError, TypeError)[0], 'bisect_left of a bad value')
        if rnd.random() < .75: v, l = s, m
    # views keep the data alive
    del root
    look(v, l, t, 'last view')
    it = iter(v); rt = reversed(v); del v
    check(eq_all(list(it), l) and eq_all(list(rt), l[::-1]), 'iterators')
    check(list(it) == [] and list(rt) == [], 'iterators at the end')


DIR = tempfile.mkdtemp(prefix='ptv30')
import atexit, shutil
_exit = os._exit
def leave(c):
    shutil.rmtree(DIR, ignore_errors=True)
    _exit(c)
os._exit = leave
run(one, 15)
