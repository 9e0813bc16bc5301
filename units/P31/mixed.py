# PTV pyext
"""Hashes and comparisons of Python objects, stored values and mixes of the two."""
import math
import struct
import pointless
from pydrv import *

PV = pointless.PointlessPrimVector
BV = pointless.PointlessBitvector
cmp, is_eq, H = pointless.pointless_cmp, pointless.pointless_is_eq, pointless.pyobject_hash
LIM = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-1 << 15, (1 << 15) - 1), 'u16': (0, (1 << 16) - 1), 'i32': (-1 << 31, (1 << 31) - 1), 'u32': (0, (1 << 32) - 1), 'i64': (-1 << 63, (1 << 63) - 1), 'u64': (0, (1 << 64) - 1)}


def f32(x): return struct.unpack('f', struct.pack('f', x))[0]


def bits():
    n = rnd.choice([0, 1, 2, 5, 8, 9, 16, 28, 29, 30, 33, 64, 65, 200])
    p = rnd.choice([0, .5, 1, 2, 3])
    l = [i >= n // 2 for i in range(n)] if p == 2 else [i < n // 2 for i in range(n)] if p == 3 else [rnd.random() < p for _ in range(n)]
    return BV(sequence=l)


def leaf(h=0):
    k = rnd.randrange(8)
    if k == 0: return rnd.choice([0, 1, -1, 2, 255, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, -(1 << 31)])
    if k == 1: return rnd.choice([None, True, False])
    if k == 2: return f32(rnd.choice([0.0, -0.0, 1.0, -1.0, 1.5, 0.1, 255.0, 1e10, math.inf, -math.inf]))
    if k == 3: return rnd.choice([0.1, 1e300, -1e300, 1e-300, rnd.uniform(-2, 2), 0.1])
    if k == 4: return rnd.choice(['', 'a', 'b', 'ab', 'abc', 'a' * rnd.randint(1, 6), '\xe9', '\xff\xe9', '\u20ac', 'a\u20ac', '\uffff', '\U0001f600', 'a\U0001f600\xe9', 'ab\U0010ffff', '\U00010000'])
    if k == 5: return bits()
    if k == 6: return rnd.randint(-3, 3)
    return rnd.choice('ab') + rnd.choice('ab\xff\u20ac\U0001f600')


def val(d, h=0):
    if d and rnd.random() < .4: return (tuple if h else rnd.choice([list, tuple]))(val(d - 1, h) for _ in range(rnd.choice([0, 1, 1, 2, 3])))
    return leaf()


def near(x):
    """something likely equal to x, or close"""
    k = rnd.random()
    if isinstance(x, (list, tuple)):
        if k < .1: return x[:-1]
        if k < .2: return x + type(x)([leaf()])
        l = [near(y) if rnd.random() < .5 else y for y in x]
        return l if k < .6 and type(x) is list else tuple(l) if type(x) is tuple else l
    if k < .5: return x
    if isinstance(x, BV):
        l = [x[i] for i in range(len(x))]
        if k < .7 and l: i = rnd.randrange(len(l)); l[i] = not l[i]
        elif k < .8: l.append(False)
        return BV(sequence=l)
    if isinstance(x, str): return x + rnd.choice(['', 'a', '\xe9', '\u20ac', '\U0001f600'])
    if isinstance(x, (int, float)): return rnd.choice([lambda: f32(float(x)) if abs(x) < 1e38 else x, lambda: int(x) if abs(x) < 1 << 31 else x, lambda: x])()
    return leaf()


def kind(x):
    if x is None: return 'none'
    if isinstance(x, (int, float)): return 'number'
    if isinstance(x, str): return 'string'
    if isinstance(x, BV): return 'bits'
    if isinstance(x, (list, tuple)): return 'vector'
    return 'other'


class Refused(Exception): pass


def single(x):
    """the number x as it is compared"""
    if isinstance(x, float):
        try: return f32(x)
        except OverflowError: return math.copysign(math.inf, x)
    return x


def lex(a, b, f):
    for x, y in zip(a, b):
        c = f(x, y)
        if c: return c
    return (len(a) > len(b)) - (len(a) < len(b))


def order(a, b):
    k = kind(a)
    if k != kind(b) or k == 'other': raise Refused()
    if k == 'none': return 0
    if k == 'number':
        a, b = single(a), single(b)
        return (a > b) - (a < b)
    if k == 'string': return (a > b) - (a < b)
    if k == 'bits': return lex([a[i] for i in range(len(a))], [b[i] for i in range(len(b))], lambda x, y: x - y)
    return lex(a, b, order)


def forms(x):
    """x itself, and values stored as x"""
    yield x
    r = pointless.Pointless(pointless.serialize_to_bytearray(rnd.choice([lambda: [x, 's'], lambda: [x]])())).GetRoot()[0]
    yield r
    if isinstance(x, (list, tuple)):
        v = pointless.Pointless(pointless.serialize_to_bytearray([None, 's'] + list(x) + [3])).GetRoot()
        yield v[2:-1]
        # Python around stored
        yield type(x)(rnd.choice(list(forms(y))) if rnd.random() < .5 else y for y in x)
        if len(x) == 0 or rnd.random() < .3: yield v[2:-1][:]


def sign(c): return (c > 0) - (c < 0)


def compare():
    a = val(3); b = near(a) if rnd.random() < .8 else val(3)
    note((show(a), show(b)))
    e = raises(lambda: order(a, b), Refused)
    for x in forms(a):
        for y in forms(b):
            r = raises(lambda: cmp(x, y), TypeError); q = raises(lambda: is_eq(x, y), ValueError)
            what = 'comparison of %r with %r (%s, %s)' % (show(a), show(b), type(x).__name__, type(y).__name__)
            if e[0]: check(r[0] and q[0], what + ' is not refused: %r %r' % (r, q))
            else: check(not r[0] and not q[0] and sign(r[1]) == e[1] and q[1] is (e[1] == 0), what + ': %r %r, expected %r' % (r, q, e[1]))
    # items of typed vectors: integers of up to 64 bits
    t = rnd.choice(list(LIM) + ['f'])
    pick = lambda: rnd.choice([-(1 << 63), -(1 << 63) + 1, -(1 << 32), -(1 << 31), -1, 0, 1, (1 << 31), (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, rnd.randint(-(1 << 63), (1 << 64) - 1), rnd.randint(-9, 300)])
    l = [f32(float(pick())) for _ in range(2)] if t == 'f' else [max(LIM[t][0], min(LIM[t][1], pick())) for _ in range(2)]
    v = pointless.Pointless(pointless.serialize_to_bytearray(PV(t, sequence=l))).GetRoot()
    y = [pick() if rnd.random() < .5 else rnd.choice([int(l[k]), l[k], True]) for k in (0, 1)]; note((t, l, y))
    for x in (y, tuple(y)):
        e = raises(lambda: order(l, y), Refused)[1]
        big = any(k < -(1 << 63) or k >= 1 << 64 for k in y)
        if not big: check(sign(cmp(v, x)) == e and sign(cmp(x, v)) == -e and is_eq(v, x) is (e == 0) and sign(cmp(x, x)) == 0, 'comparison of a %s vector %r with %r' % (t, l, x))
    # sets and maps are not compared
    s = rnd.choice([{1}, {'a': 2}, set(), {}])
    o = pointless.Pointless(pointless.serialize_to_bytearray([s])).GetRoot()[0]
    for x in (s, o, [s], [o]):
        for y in (s, o) if x is s or x is o else ([s], [o]):
            check(raises(lambda: cmp(x, y), TypeError)[0] and raises(lambda: is_eq(x, y), ValueError)[0], 'sets and maps compared')
    z = rnd.choice(['a\0', '\0', '\u20ac\0a'])
    check(raises(lambda: cmp(z, rnd.choice(list(forms('a')))), TypeError)[0], 'string with a zero compared')


def show(x):
    if isinstance(x, BV): return [x[i] for i in range(len(x))]
    return type(x)(map(show, x)) if isinstance(x, (list, tuple)) else x


def hashes():
    x = val(3, 1); note(show(x))
    # whether it can be hashed at all
    h = H((x,))
    for y in forms((x,)): check(H(y) == h, 'hash of %r (%s)' % (show(x), type(y).__name__))
    if isinstance(x, (tuple, BV)):
        h = H(x)
        for y in forms(x): check(H(y) == h, 'hash of %r (%s)' % (show(x), type(y).__name__))
    y = near(x)
    if not raises(lambda: order(x, y), Refused)[0] and order(x, y) == 0 and not lossy(x) and not lossy(y): check(H(y if kind(y) != 'vector' else tup(y)) == H(x), 'equal values %r and %r hash differently' % (show(x), show(y)))
    t = rnd.choice(list(LIM) + ['f'])
    l = [f32(rnd.uniform(-9, 9)) if t == 'f' else rnd.choice([LIM[t][0], LIM[t][1], max(LIM[t][0], rnd.randint(-9, 9)), rnd.randint(*LIM[t])]) for _ in range(rnd.choice([0, 1, 2, 5, 20]))]
    p = PV(t, sequence=l); note((t, l))
    r = pointless.Pointless(pointless.serialize_to_bytearray([p, p])).GetRoot()[0]
    check(H(r) == H(p) == H((p,)) - H((p,)) + H(r[:]), 'hash of a typed vector')
    i, j = sorted((rnd.randint(0, len(l)), rnd.randint(0, len(l))))
    check(H(r[i:j]) == H(p[i:j]), 'hash of a typed slice')
    if all(-(1 << 31) <= y < 1 << 32 for y in l): check(H(tuple(l)) == H(p), 'hash of a typed vector and a tuple')
    b = rnd.choice([[], {}, set(), [1], ([],), (1, {}), 1 << 32, -(1 << 31) - 1, 1 << 64, b'x', object(), 1j])
    check(raises(lambda: H(b), ValueError)[0] and raises(lambda: H((b, 1)), ValueError)[0] and raises(lambda: H((1, b)), ValueError)[0], 'hashed %r' % (b,))
    m = pointless.Pointless(pointless.serialize_to_bytearray([[{1: 2}], [[{1}], 's'], {2}, {3: 4}])).GetRoot()
    for o in m: check(raises(lambda: H(o), ValueError)[0] and raises(lambda: H((1, o)), ValueError)[0], 'hashed a stored set or map')


def tup(x): return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def lossy(x):
    """numbers that compare equal to others only because they are rounded"""
    if isinstance(x, (list, tuple)): return any(map(lossy, x))
    return isinstance(x, float) and x != single(x)


def one():
    if rnd.random() < .5: compare()
    else: hashes()


run(one, 12)
