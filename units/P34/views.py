# PTV pyext
"""Stored sets and maps read from Python against the set or dict that was written."""
import math
import os
import struct
import tempfile
import pointless
from pydrv import *

PV = pointless.PointlessPrimVector
BV = pointless.PointlessBitvector


def f32(x): return struct.unpack('f', struct.pack('f', x))[0]


def leaf():
    k = rnd.randrange(6)
    if k == 0: return rnd.choice([0, 1, -1, 2, 255, 256, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, -(1 << 31), -7])
    if k == 1: return rnd.choice([None, True, False])
    if k == 2: return f32(rnd.choice([0.0, -0.0, 1.0, 2.0, -1.0, 1.5, 0.1, 4294967296.0, 1e10, math.inf, -math.inf, -7.0]))
    if k == 3: return rnd.choice(['', 'a', 'b', 'ab', 'abc', 'a' * rnd.randint(1, 6), '1', '\xe9', '\xff\xe9', '\u20ac', 'a\u20ac', '\U0001f600', 'a\U0001f600\xe9'])
    if k == 4: return rnd.randint(0, 30)
    return rnd.choice('abcdefghijklmnop') + rnd.choice('qrstuvw\u20ac')


def key(d=2):
    if d and rnd.random() < .2: return tuple(key(d - 1) for _ in range(rnd.randint(0, 3)))
    return leaf()


def value():
    return rnd.choice([leaf, leaf, lambda: [leaf() for _ in range(3)], lambda: {'z': leaf()}, lambda: {leaf()}])()


def name(x): return type(x).__name__


def exact(r, x):
    """r is what x is read back as"""
    if isinstance(x, (list, tuple)): return name(r) == 'PyPointlessVector' and len(r) == len(x) and all(exact(a, b) for a, b in zip(r, x))
    if isinstance(x, set): return name(r) == 'PyPointlessSet' and len(r) == len(x) and all(exact(a, b) for a, b in zip(r, x))
    if isinstance(x, dict): return name(r) == 'PyPointlessMap' and len(r) == len(x) and all(exact(r[k], v) for k, v in x.items())
    return type(r) is type(x) and r == x


def plain(r):
    return tuple(map(plain, r)) if name(r) == 'PyPointlessVector' else r


def rewrap(k):
    """other objects equal to the key k"""
    if isinstance(k, tuple):
        c = rnd.randrange(3)
        if c == 0: return pointless.Pointless(pointless.serialize_to_bytearray([k, 's'])).GetRoot()[0]
        if c == 1 and k:
            v = pointless.Pointless(pointless.serialize_to_bytearray(['s'] + list(k) + [None])).GetRoot()
            return v[1:-1]
        if c == 2: return tuple(rewrap(x) for x in k)
        return k
    if type(k) in (int, float, bool):
        o = [int(k)] if k == k and abs(k) != math.inf and int(k) == k and -(1 << 31) <= k < 1 << 32 else []
        if abs(k) < 1 << 24: o.append(float(k))
        if k in (0, 1): o.append(bool(k))
        return rnd.choice(o + [k])
    if isinstance(k, str): return ''.join(list(k))
    return k


def unhashable():
    return rnd.choice([[], {}, set(), [1], ([],), (1, [2]), 1 << 32, -(1 << 31) - 1, 1 << 64, (1 << 70,), b'x', object(), 1j,
                       pointless.Pointless(pointless.serialize_to_bytearray([{1: 2}])).GetRoot()[0],
                       pointless.Pointless(pointless.serialize_to_bytearray([{1}])).GetRoot()[0],
                       pointless.Pointless(pointless.serialize_to_bytearray([[{1}, 's']])).GetRoot()[0]])


def probes(m):
    l = list(m)
    for _ in range(12):
        k = rnd.choice(l) if l and rnd.random() < .6 else key()
        yield k, rewrap(k)
    for k in l: yield k, k


def make(o):
    wrap = rnd.random() < .5
    x = [o, rnd.choice([None, 's'])] if wrap else o
    if rnd.random() < .3:
        f = os.path.join(DIR, 'f')
        pointless.serialize(x, f)
        r = pointless.Pointless(f).GetRoot()
        os.unlink(f)
    else: r = pointless.Pointless(pointless.serialize_to_bytearray(x)).GetRoot()
    return r[0] if wrap else r


def look_set(s, o):
    check(name(s) == 'PyPointlessSet' and len(s) == len(o), 'length of the set')
    l = list(s)
    check(len(l) == len(o) and {plain(x) for x in l} == o, 'members %r' % ([plain(x) for x in l],))
    for x in l:
        e = [y for y in o if y == plain(x)][0]
        check(exact(x, e), 'member %r, expected %r' % (x, e))
    it = iter(s); c = [next(it) for _ in range(len(o))]
    check(next(it, 9) == 9 and next(it, 9) == 9 and len(c) == len(o), 'iterating past the end')
    for k, w in probes(o):
        note(('in', k, type(w)))
        check((w in s) is (k in o), 'membership of %r' % (k,))
    u = unhashable()
    check(raises(lambda: u in s, TypeError, ValueError)[0], 'membership of unhashable %r' % (u,))
    check(raises(lambda: s[0], TypeError)[0], 'item of a set')


def look_map(m, o):
    check(name(m) == 'PyPointlessMap' and len(m) == len(o), 'length of the map')
    items = list(m.items())
    ks, vs, it = list(m.keys()), list(m.values()), list(m)
    check(len(items) == len(ks) == len(vs) == len(it) == len(o), 'number of items')
    check({plain(k) for k in ks} == set(o), 'keys')
    for n, (k, v) in enumerate(items):
        check(isinstance(items[n], tuple), 'type of an item')
        e = [x for x in o if x == plain(k)][0]
        check(exact(k, e) and exact(v, o[e]), 'item %r' % ((k, v),))
        check(exact(ks[n], e) and exact(it[n], e) and exact(vs[n], o[e]), 'keys, values and items differ')
    for f in (m.keys, m.values, m.items, m.__iter__):
        i = f(); c = [next(i) for _ in range(len(o))]
        check(next(i, 9) == 9 and next(i, 9) == 9, 'iterating past the end')
    D = object()
    for k, w in probes(o):
        note(('key', k, type(w)))
        has = k in o
        check((w in m) is has and m.__contains__(w) is has, 'membership of %r' % (k,))
        r = raises(lambda: m[w], KeyError)
        g, h = m.get(w), m.get(w, D)
        if has: check(not r[0] and exact(r[1], o[k]) and exact(g, o[k]) and exact(h, o[k]), 'value of %r' % (k,))
        else:
            check(r[0] and (w is None or type(w) is tuple or r[1].args[0] is w) and g is None and h is D, 'value of absent %r: %r %r %r' % (k, r, g, h))
        r2 = raises(lambda: m.__getitem__(w), KeyError)
        check(r2[0] is not has, '__getitem__')
    u = unhashable()
    note(('unhashable', repr(u)))
    for f in (lambda: u in m, lambda: m[u], lambda: m.get(u), lambda: m.get(u, 1)):
        check(raises(f, TypeError, ValueError)[0], 'lookup of unhashable %r' % (u,))
    check(raises(lambda: m.get(), TypeError)[0] and raises(lambda: m.get(1, 2, 3), TypeError)[0], 'arguments of get')
    def put(): m[1] = 2
    check(raises(put, TypeError)[0], 'assignment')


def one():
    n = rnd.choice([0, 1, 2, 3, 5, 8, 13, 40, 200])
    d = rnd.choice([0, 0, 2])
    ks = [key(d) for _ in range(n)]
    if rnd.random() < .2: ks = [rnd.randint(0, 3 * n) for _ in range(n)]
    if rnd.random() < .4:
        o = set(ks); note(o)
        s = make(o)
        look_set(s, o)
        x = make(s)
        look_set(x, o)
        it = iter(s); del s
        check(len(list(it)) == len(o), 'iterator of a dropped set')
    else:
        o = {k: value() for k in ks}; note(o)
        m = make(o)
        look_map(m, o)
        x = make(m)
        look_map(x, o)
        it = m.items(); del m
        check(len(list(it)) == len(o), 'iterator of a dropped map')


DIR = tempfile.mkdtemp(prefix='ptv34')
import shutil
_exit = os._exit
def leave(c):
    shutil.rmtree(DIR, ignore_errors=True)
    _exit(c)
os._exit = leave
run(one, 15)
