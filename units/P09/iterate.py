# PTV pyext
"""Iterators over random stored sets and maps, alone and interleaved, against the entries written."""
import pointless
from pydrv import *


def key(d):
    k = rnd.randrange(9)
    if k == 0: return None
    if k == 1: return rnd.choice([True, False])
    if k < 4: return rnd.choice([0, -1, 7, 8, 16, 1 << 31, (1 << 32) - 1, -(1 << 31), rnd.randint(-60, 60)])
    if k == 4: return rnd.choice([0.5, -2.25, 1e10, 3.0, -0.0, 0.0])
    if k < 7: return ''.join(rnd.choice('ab\xff\u20ac\U0001f600') for _ in range(rnd.randint(0, 3)))
    if d: return tuple(key(d - 1) for _ in range(rnd.randint(0, 3)))
    return rnd.randint(0, 1 << 32) & 0xffffffff


def canon(x):
    if type(x).__name__ == 'PyPointlessVector': return ('v',) + tuple(canon(y) for y in x)
    if isinstance(x, tuple): return ('v',) + tuple(canon(y) for y in x)
    if x is None: return ('n',)
    if isinstance(x, (bool, int, float)): return ('i', float(x) if isinstance(x, float) else int(x))
    return ('s', tuple(map(ord, x)))


def count(it, limit):
    out = []
    for x in it:
        out.append(x)
        check(len(out) <= limit, 'more entries than were stored')
    return out


def same(got, want, what):
    check(sorted(map(repr, got)) == sorted(map(repr, want)), '%s: %r, written %r' % (what, got, want))


def one():
    n = rnd.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 11, 21, 22, 43, rnd.randint(0, 200)])
    ks = {}
    k0 = rnd.randint(0, 3)
    for i in range(n):
        k = key(2) if k0 else i * rnd.choice([1, 8, 64])
        ks.setdefault(canon(k), k)
    try: d = {k: rnd.randint(0, 99) for k in ks.values()}
    except TypeError: return
    note(repr(d))
    r = pointless.Pointless(pointless.serialize_to_bytearray([d, set(d), {}, set()])).GetRoot()
    m, s, m0, s0 = r[0], r[1], r[2], r[3]
    K, V, I, L = [canon(k) for k in d], list(d.values()), [(canon(k), v) for k, v in d.items()], len(d)
    its = [('keys', lambda: (canon(x) for x in m.keys()), K), ('values', lambda: m.values(), V), ('items', lambda: ((canon(k), v) for k, v in m.items()), I), ('map', lambda: (canon(x) for x in m), K), ('set', lambda: (canon(x) for x in s), K),
           ('empty map', lambda: iter(m0), []), ('empty set', lambda: iter(s0), [])]
    for w, f, want in its: same(count(f(), L), want, w)
    check(list(map(canon, m.keys())) == list(map(canon, m)) and list(zip(map(canon, m.keys()), m.values())) == list((canon(k), v) for k, v in m.items()), 'one order')
    # two at a time
    a, b = rnd.choice(its), rnd.choice(its)
    ia, ib, ga, gb = iter(a[1]()), iter(b[1]()), [], []
    live = [(ia, ga), (ib, gb)]
    while live:
        x = rnd.choice(live)
        try: x[1].append(next(x[0])); check(len(x[1]) <= L, 'more entries than were stored')
        except StopIteration: live.remove(x)
    same(ga, a[2], a[0]); same(gb, b[2], b[0])


run(one, 8)
