# PTV pyext
"""Random Python values through serialize, serialize_to_buffer and serialize_to_bytearray, and back."""
import math
import os
import struct
import tempfile
import pointless
from pydrv import *

PV = pointless.PointlessPrimVector
BV = pointless.PointlessBitvector
LIM = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-1 << 15, (1 << 15) - 1), 'u16': (0, (1 << 16) - 1), 'i32': (-1 << 31, (1 << 31) - 1), 'u32': (0, (1 << 32) - 1), 'i64': (-1 << 63, (1 << 63) - 1), 'u64': (0, (1 << 64) - 1)}
Sub = {t: type('My' + t.__name__, (t,), {}) for t in (int, float, str, list, tuple, dict, set, frozenset, bytearray)}


def f32(x): return struct.unpack('f', struct.pack('f', x))[0]


def flt(): return f32(rnd.choice([0.0, -0.0, 1.5, -2.25, 1e10, 3.4e38, -1e-40, math.inf, -math.inf, rnd.uniform(-9, 9), float(rnd.randint(-5, 5))]))


def num(t):
    if t == 'f': return flt()
    lo, hi = LIM[t]
    return rnd.choice([lo, hi, max(lo, rnd.randint(-3, 5)), rnd.randint(lo, hi)])


def string():
    n = rnd.choice([0, 1, 1, 2, 3, 4, 5, 8, 17, 200])
    k = rnd.randrange(5)
    a = ['abcXYZ019 ~\x7f\x01', 'ab\x80\xff\xe9', 'ab\xff\u0100\u20ac\uffff\ud800', 'a\xff\u20ac\U00010000\U0010ffff', '\U0001f600\U0010ffff'][k]
    return ''.join(rnd.choice(a) for _ in range(n))


def integer(): return rnd.choice([0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, -32769, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, -(1 << 31), rnd.randint(-(1 << 31), (1 << 32) - 1), rnd.randint(-9, 9)])


def bits(): return BV(sequence=[rnd.random() < p for p in [rnd.choice([0, .5, 1])] for _ in range(rnd.choice([0, 1, 7, 8, 9, 16, 20, 26, 27, 28, 29, 32, 33, 64, 100]))])


def sub(x):
    """sometimes an instance of a subclass"""
    return Sub[type(x)](x) if rnd.random() < .05 and type(x) in Sub else x


def hashable(d, eq):
    """a key: also usable as a member of a set"""
    k = rnd.randrange(8)
    if k < 2: x = integer()
    elif k < 4: x = string()
    elif k == 4: x = rnd.choice([None, True, False])
    elif k == 5: x = flt()
    elif k == 6 and d: x = tuple(hashable(d - 1, eq) for _ in range(rnd.randint(0, 3)))
    elif k == 7: x = bits()
    else: x = rnd.randint(-99, 99)
    return x if isinstance(x, BV) else sub(x)


def value(d, pool):
    if pool and rnd.random() < .15: return rnd.choice(pool)
    k = rnd.randrange(12 if d else 6)
    if k == 0: x = integer()
    elif k == 1: x = string()
    elif k == 2: x = rnd.choice([None, True, False])
    elif k == 3: x = flt()
    elif k == 4:
        t = rnd.choice(list(LIM) + ['f'])
        x = rnd.choice([bits(), PV(t, sequence=[num(t) for _ in range(rnd.choice([0, 1, 2, 5, 20]))]), bytearray(rnd.randrange(256) for _ in range(rnd.choice([0, 1, 9]))), BV(rnd.choice([0, 1, 40]))])
    elif k == 5: x = string()
    elif k in (6, 7): x = [value(d - 1, pool) for _ in range(rnd.choice([0, 1, 2, 3, 4, 10]))]
    elif k == 8: x = tuple(value(d - 1, pool) for _ in range(rnd.choice([0, 1, 2, 3])))
    elif k == 9: x = keys(d)
    elif k == 10: x = stored(d)
    else:
        x = {q: value(d - 1, pool) for q in keys(d - 1)}
    if not isinstance(x, (PV, BV)): x = sub(x)
    if not isinstance(x, (int, float)) and x is not None: pool.append(x)
    return x


def keys(d):
    """a set whose members stay different when written"""
    out = {}
    for _ in range(rnd.choice([0, 1, 2, 3, 10])):
        x = hashable(min(d, 2), 0)
        out.setdefault(canon(x), x)
    try: return rnd.choice([set, frozenset])(out.values())
    except TypeError: return set()


def stored(d):
    if rnd.random() < .4:
        # a slice of a stored vector of any type
        t = rnd.choice(list(LIM) + ['f', 'any', 'bool'])
        n = rnd.choice([1, 2, 3, 8])
        x = [value(0, []) for _ in range(n)] + ['s'] if t == 'any' else [rnd.random() < .5 for _ in range(n)] if t == 'bool' else PV(t, sequence=[num(t) for _ in range(n)]) if rnd.random() < .7 else [num(t) for _ in range(n)]
        try: r = pointless.Pointless(pointless.serialize_to_bytearray(x)).GetRoot()
        except (ValueError, IOError): return None
        if name(r) != 'PyPointlessVector': return None
        a, b = sorted((rnd.randint(0, n), rnd.randint(0, n)))
        return r[a:min(n, max(b, a + 1))]
    x = value(d - 1, [])
    try: r = pointless.Pointless(pointless.serialize_to_bytearray([x])).GetRoot()
    except MemoryError: raise
    r = r if rnd.random() < .3 else r[0]
    if type(r).__name__ == 'PyPointlessVector' and rnd.random() < .5: r = r[rnd.choice([None, 0, 1]):rnd.choice([None, -1, 1])]
    return r


def name(x): return type(x).__name__


def canon(x):
    """a comparable description of the contents of any value, written or read (containers only without cycles)"""
    if x is None or x is True or x is False: return ('c', str(x))
    if isinstance(x, int): return ('i', int(x))
    if isinstance(x, float): return ('f', struct.pack('f', x))
    if isinstance(x, str): return ('s', tuple(map(ord, x)))
    if isinstance(x, BV): return ('b', tuple(x[i] for i in range(len(x))))
    if isinstance(x, (list, tuple)): return vec([canon(y) for y in x])
    if isinstance(x, bytearray): return vec([('i', y) for y in x])
    if isinstance(x, PV): return vec([('f', struct.pack('f', x[i])) if x.typecode == 'f' else ('i', x[i]) for i in range(len(x))])
    if name(x) == 'PyPointlessVector': return vec([canon(x[i]) for i in range(len(x))])
    if isinstance(x, (set, frozenset)) or name(x) == 'PyPointlessSet':
        a = [canon(y) for y in x]
        s = frozenset(a)
        check(len(s) == len(a) == len(x), 'members of a set')
        return ('S', s)
    if isinstance(x, dict): return ('M', frozenset((canon(k), canon(v)) for k, v in x.items()))
    if name(x) == 'PyPointlessMap':
        a = [(canon(k), canon(v)) for k, v in x.items()]
        check(len(a) == len(x) == len(set(k for k, _ in a)), 'entries of a map')
        return ('M', frozenset(a))
    fail('read back a %r' % (x,))


def vec(a): return ('v', tuple(a))


def options():
    o = {}
    if rnd.random() < .5: o['unwiden_strings'] = rnd.random() < .5
    if rnd.random() < .5: o['normalize_bitvector'] = rnd.random() < .5
    return o


def write(x):
    """write x in one of the three ways (or two that must agree), return the root"""
    o = options(); note(o)
    k = rnd.randrange(4)
    if k == 0:
        f = os.path.join(DIR, 'f')
        check(pointless.serialize(x, f, **o) is None, 'value of serialize')
        check(os.listdir(DIR) == ['f'], 'files left: %r' % os.listdir(DIR))
        b = bytearray(open(f, 'rb').read())
        r = pointless.Pointless(f).GetRoot() if rnd.random() < .5 else pointless.Pointless(b).GetRoot()
        os.unlink(f)
    elif k == 1:
        v = pointless.serialize_to_buffer(x, **o)
        check(isinstance(v, PV) and v.typecode == 'u8', 'type of serialize_to_buffer')
        b = bytearray(bytes(memoryview(v)))
        r = pointless.Pointless(v if rnd.random() < .5 else b).GetRoot()
    else:
        b = pointless.serialize_to_bytearray(x, **o)
        check(type(b) is bytearray, 'type of serialize_to_bytearray')
        r = pointless.Pointless(b).GetRoot()
    if rnd.random() < .2: check(bytearray(pointless.serialize_to_bytearray(x, **o)) == b, 'the ways to write differ')
    return r


class Other: pass


def bad():
    """something that cannot be written"""
    return rnd.choice([1 << 32, -(1 << 31) - 1, 1 << 63, -(1 << 63), 1 << 64, -(1 << 64) - 1, 1 << 200, 'a\0', '\0', '\u20ac\0x', '\U0001f600\0', b'bytes', Other(), Other, 1j, range(3), memoryview(b'a'), object(), len,
                       math.nan if 0 else {math.nan}, {(1, math.nan): 1}, {frozenset([1])}, {f32(0.1), 0.1}, {(0.1,): 1, (f32(0.1),): 2}])


def refused():
    b = bad()
    x = b
    for _ in range(rnd.randint(0, 3)):
        w = [x, rnd.choice(['s', 1, None, [5], {}])]; rnd.shuffle(w)
        x = rnd.choice([lambda: w, lambda: tuple(w), lambda: {1: x}, lambda: {'k': w, 2: 3}])()
    if rnd.random() < .3:
        try: x = rnd.choice([lambda: {b}, lambda: {b: 1}, lambda: {(b, 1)}])()
        except TypeError: pass
    note(('bad', b))
    check(raises(lambda: pointless.serialize_to_bytearray(x, **options()), Exception)[0], 'written: %r' % (x,))
    check(raises(lambda: pointless.serialize_to_buffer(x, **options()), Exception)[0], 'written: %r' % (x,))
    f = os.path.join(DIR, 'f')
    old = rnd.random() < .5
    if old: open(f, 'w').write('old')
    check(raises(lambda: pointless.serialize(x, f, **options()), Exception)[0], 'written: %r' % (x,))
    check(os.listdir(DIR) == (['f'] if old else []), 'files left: %r' % os.listdir(DIR))
    if old: check(open(f).read() == 'old', 'file changed'); os.unlink(f)


def shape(x, y, seen):
    """walk a Python value and the one read back together; an object seen again must be the same container"""
    if isinstance(x, (list, dict)):
        if not len(x): return
        cid = y.container_id
        if id(x) in seen: check(seen[id(x)] == cid, 'a shared container was split'); return
        check(cid not in seen.values(), 'two containers became one')
        seen[id(x)] = cid
        check(len(x) == len(y), 'length of a container')
        if isinstance(x, list):
            for i in range(len(x)): shape(x[i], y[i], seen)
        else:
            check(sorted(x) == sorted(y.keys()), 'keys')
            for k in x: shape(x[k], y[k], seen)
    else: check(canon(x) == canon(y), 'leaf %r became %r' % (x, y))


def cyclic():
    n = rnd.randint(1, 6)
    c = [rnd.choice([list, dict])() for _ in range(n)]
    for j, x in enumerate(c):
        for i in range(rnd.randint(1, 4)):
            # a list that only holds numbers may become a typed vector, which has no identity
            y = rnd.choice(c) if rnd.random() < .7 else rnd.choice(['s', None, '\u20ac', True])
            if isinstance(x, list): x.append(y)
            else: x[i] = y
    note(('cyclic', repr(c)))
    shape(c, write(c), {})


def deep():
    n = rnd.choice([rnd.randint(1, 600), rnd.randint(120, 135), rnd.randint(505, 520)])
    x = rnd.choice(['s', 1, [], None])
    k = rnd.randrange(3)
    for i in range(n): x = [x] if k == 0 or (k == 2 and i % 2) else {1: x}
    note(('deep', n, k))
    b = raises(lambda: pointless.serialize_to_bytearray(x), ValueError, IOError)
    if b[0]: check(n >= 128, 'refused at depth %d: %s' % (n, b[1])); return
    y = pointless.Pointless(b[1]).GetRoot()
    for i in range(n):
        check(len(x) == 1 == len(y), 'length')
        x = x[0] if isinstance(x, list) else x[1]
        y = y[0] if name(y) == 'PyPointlessVector' else y[1]
    check(canon(x) == canon(y), 'the bottom')


def one():
    k = rnd.random()
    if k < .12: refused()
    elif k < .27: cyclic()
    elif k < .3: deep()
    else:
        x = value(rnd.choice([0, 1, 2, 3]), [])
        note(repr(x) if not name(x).startswith('Py') else canon(x))
        want = canon(x)
        r = write(x)
        check(canon(r) == want, 'read back %r, written %r' % (canon(r), want))
        if type(r) in (int, float, str, bool): check(type(r) in (int, str, bool, float) and (isinstance(x, type(r))), 'type')


DIR = tempfile.mkdtemp(prefix='ptv32')
import shutil
_exit = os._exit
def leave(c):
    shutil.rmtree(DIR, ignore_errors=True)
    _exit(c)
os._exit = leave
run(one, 15)
