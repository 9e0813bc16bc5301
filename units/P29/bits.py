# PTV pyext
"""Random histories of operations on PointlessBitvector against a list of booleans."""
import pointless
from pydrv import *

BV = pointless.PointlessBitvector
Boom = type('Boom', (Exception,), {})


def pattern(n=None):
    if n is None:
        n = rnd.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 64, 65]) if rnd.random() < .8 else rnd.randint(0, 400)
    k = rnd.randrange(6)
    if k == 0: return [False] * n
    if k == 1: return [True] * n
    if k == 2:
        j = rnd.randint(0, n); return [False] * j + [True] * (n - j)
    if k == 3:
        j = rnd.randint(0, n); return [True] * j + [False] * (n - j)
    p = rnd.choice([.05, .5, .95])
    return [rnd.random() < p for _ in range(n)]


def stored(l):
    return pointless.Pointless(pointless.serialize_to_bytearray([BV(sequence=l), 0])).GetRoot()[0]


def prefix(l, x):
    n = 0
    while n < len(l) and l[n] == x: n += 1
    return n


def same(b, l, what):
    check(len(b) == len(l), what + ': length %d, expected %d' % (len(b), len(l)))
    got = [b[i] for i in range(len(l))]
    check(got == l, what + ': bits %r, expected %r' % (got, l))
    check(all(x is True or x is False for x in got), what + ': type of bits')
    check(b.IsAnySet() is any(l), what + ': IsAnySet')


def queries(b, l, what):
    same(b, l, what)
    check(list(b) == l, what + ': iteration')
    check(b.NumZeroPrefix() == prefix(l, False), what + ': NumZeroPrefix')
    check(b.NumOnePrefix() == prefix(l, True), what + ': NumOnePrefix')
    check(b.NumZeroPostfix() == prefix(l[::-1], False), what + ': NumZeroPostfix')
    check(b.NumOnePostfix() == prefix(l[::-1], True), what + ': NumOnePostfix')
    i = rnd.choice([len(l), -len(l) - 1, len(l) + 1, 1 << 32, (1 << 32) + 1, -(1 << 32), 1 << 64, -(1 << 64), 1 << 31])
    check(raises(lambda: b[i], IndexError)[0], what + ': index out of bounds')
    if l:
        i = rnd.randint(-len(l), -1)
        check(b[i] is l[i], what + ': negative index')
    check(raises(lambda: b['x'], TypeError)[0], what + ': bad index')


def compare(a, la, b, lb, what):
    note((la, lb))
    r = (a < b, a <= b, a == b, a != b, a > b, a >= b)
    e = (la < lb, la <= lb, la == lb, la != lb, la > lb, la >= lb)
    check(r == e, what + ': comparisons %r, expected %r' % (r, e))
    if la == lb:
        check(hash(a) == hash(b), what + ': hash of equal bitvectors')
        check(pointless.pyobject_hash_32(a) == pointless.pyobject_hash_32(b), what + ': 32-bit hash of equal bitvectors')
    c = pointless.pointless_cmp(a, b)
    check((c == 0) == (la == lb), what + ': pointless_cmp')
    check(pointless.pointless_is_eq(a, b) == (la == lb), what + ': pointless_is_eq')


def near(l):
    """a list close to l"""
    m = list(l)
    k = rnd.randrange(6)
    if k == 0 or not m: return m
    if k == 1: m.pop()
    elif k == 2: m.append(rnd.random() < .5)
    elif k == 3:
        i = rnd.randrange(len(m)); m[i] = not m[i]
    elif k == 4: m[-1] = not m[-1]
    else: return pattern()
    return m


def one():
    l = pattern()
    note(l)
    if rnd.random() < .15:
        n = rnd.choice([0, 1, 7, 8, 9, 300]); l = [False] * n; b = BV(size=n)
    elif rnd.random() < .1:
        l = []; b = BV()
    else:
        src = [rnd.choice([x, int(x)]) for x in l]
        b = BV(sequence=src if rnd.random() < .5 else iter(src))
    queries(b, l, 'construction')
    others = []
    for _ in range(rnd.randint(1, 25)):
        op = rnd.randrange(17)
        i = rnd.choice([0, -1, len(l) - 1, len(l), -len(l), -len(l) - 1, rnd.randint(-len(l) - 2, len(l) + 2), 1 << 32, -(1 << 32), (1 << 32) + 1, 1 << 64, -(1 << 64)])
        note((op, i))
        what = 'operation %d' % op
        if op == 0:
            x = rnd.random() < .5; note(x)
            check(b.append(x) is None, what); l = l + [x]
        elif op == 1:
            n = rnd.choice([0, 1, 3, 8, 9, 31, rnd.randint(0, 100)]); x = rnd.random() < .5; note((n, x))
            check((b.extend_true if x else b.extend_false)(n) is None, what); l = l + [x] * n
        elif op == 2:
            if len(l) < 3000:
                check(b.append_bulk(b) is None, what); l = l + l
        elif op == 3:
            m = pattern(); note(m); o = BV(sequence=m) if rnd.random() < .5 else stored(m)
            check(b.append_bulk(o) is None, what); l = l + m
            same(o, m, 'source of append_bulk')
        elif op in (4, 5, 16):
            for _ in range(rnd.choice([1, 1, 2, 9])):
                if l:
                    check(b.pop() is l[-1], 'pop'); l = l[:-1]
                else: check(raises(b.pop, IndexError)[0], 'pop of an empty bitvector')
        elif op in (6, 7):
            x = rnd.choice([True, False, 0, 1]); note(x)
            try:
                m = list(l); m[i] = bool(x)
            except IndexError:
                def f(): b[i] = x
                check(raises(f, IndexError)[0], what + ': assignment out of bounds')
            else:
                b[i] = x; l = m
        elif op == 8:
            x = rnd.choice([2, -1, 1.0, 'x', None, 1 << 32, (1 << 32) + 1, 1 << 64, (1 << 64) + 1, [], 256, 257]); note(x)
            def f(): b[i] = x
            check(raises(f, ValueError, IndexError, OverflowError, TypeError)[0], what + ': bad value')
        elif op == 9:
            def f(): del b[i]
            check(raises(f, TypeError, IndexError)[0], what + ': deletion')
            f = rnd.choice([lambda: b.extend_true(-1), lambda: b.extend_false(-5), lambda: b.append(1), lambda: b.append('x'), lambda: b.append_bulk([True]), lambda: b.extend_true(1 << 32), lambda: b.extend_true('x')])
            check(raises(f, TypeError, ValueError, OverflowError)[0], what + ': bad argument')
        elif op == 10:
            c = b.copy(); queries(c, l, 'copy')
            compare(c, l, b, l, 'copy')
            others.append((b, l) if rnd.random() < .5 else (c, l))
            if others[-1][0] is b: b = c
        elif op == 11:
            m = near(l); o = BV(sequence=m) if rnd.random() < .5 else stored(m)
            compare(b, l, o, m, what); compare(o, m, b, l, what)
            if others: compare(b, l, *others[-1], what)
        elif op == 12:
            s = pointless.Pointless(pointless.serialize_to_bytearray(b)).GetRoot() if rnd.random() < .5 else stored(l)
            if rnd.random() < .5: s = pointless.Pointless(pointless.serialize_to_bytearray([s, b, s])).GetRoot()[rnd.randrange(3)]
            queries(s, l, 'stored bitvector')
            compare(s, l, b, l, 'stored bitvector')
            def f(): s[0] = True
            for f in (f, lambda: s.append(True), lambda: s.extend_true(1), lambda: s.extend_false(0), lambda: s.append_bulk(b), s.pop):
                check(raises(f, ValueError)[0], 'stored bitvectors are read-only')
            queries(s, l, 'stored bitvector after refused changes')
            c = s.copy(); queries(c, l, 'copy of a stored bitvector')
            if rnd.random() < .5: b = c
        elif op == 13:
            n = rnd.randint(0, 20); m = pattern(n)
            def gen():
                for x in m: yield x
                raise Boom()
            check(raises(lambda: BV(sequence=gen()), Boom)[0], 'failing sequence')
            check(raises(lambda: BV(sequence=m + [rnd.choice([2, 'x', None, -1, 1.0, 1 << 70])] + m), ValueError)[0], 'bad sequence')
            check(raises(lambda: BV(size=rnd.choice([-1, 1 << 32, 'x', 1.0, 1 << 64])), ValueError, OverflowError)[0], 'bad size')
            check(raises(lambda: BV(size=1, sequence=[1]), TypeError)[0], 'size and sequence')
        elif op == 14:
            # initialized again, perhaps by a sequence that uses the bitvector meanwhile
            m = pattern(); note(m); out = []
            def gen():
                for x in m:
                    k = rnd.randrange(8)
                    if k == 0 and out: check(b.pop() is out.pop(), 'pop')
                    elif k == 1: b.append(True); out.append(True)
                    elif k == 2 and out: j = rnd.randrange(len(out)); out[j] = not out[j]; b[j] = out[j]
                    out.append(x)
                    yield x
            b.__init__(sequence=gen()); l = out
        elif op == 15:
            it = iter(b); got = []; l = list(l)
            for j in range(rnd.randint(0, len(l) + 3)):
                k = rnd.randrange(6)
                if k == 0: b.append(False); l.append(False)
                elif k == 1 and l: check(b.pop() is l.pop(), 'pop')
                try:
                    x = next(it)
                    check(j < len(l) and x is l[j], 'iteration under changes')
                except StopIteration:
                    check(j >= len(l), 'iteration ends'); break
        same(b, l, what)
        for o, m in others: same(o, m, 'copied bitvector')
    queries(b, l, 'end')


def large():
    """near the largest size"""
    n = (1 << 32) - 1 - rnd.randint(8, 20)
    b = BV(size=n); l = {}
    note(('large', n))
    for i in range((1 << 32) - 1 - n):
        x = rnd.random() < .7
        b.append(x)
        check(len(b) == n + i + 1 and b[n + i] is x and b[-1] is x, 'append to a large bitvector')
        l[n + i] = x
    check(raises(lambda: b.append(True), ValueError)[0] and raises(lambda: b.extend_false(1 << 30), ValueError)[0] and raises(lambda: b.append_bulk(b), ValueError)[0], 'too large')
    check(len(b) == (1 << 32) - 1, 'length of the largest bitvector')
    for i in l: check(b[i] is l[i], 'bits of a large bitvector')
    for i in (0, 1, n // 2, n - 1, 1 << 24, 1 << 31): check(b[i] is False, 'bits of a large bitvector')
    check(b.IsAnySet() is any(l.values()), 'IsAnySet of a large bitvector')
    while len(b) > n: i = len(b) - 1; check(b.pop() is l[i], 'pop of a large bitvector')
    check(b.IsAnySet() is False, 'IsAnySet of a large bitvector after pops')


def middling():
    """beyond 2^16 and 2^24 bits"""
    n = rnd.choice([1 << 16, 1 << 24]) + rnd.randint(1, 99)
    note(('middling', n))
    b = BV(size=n)
    b.append(True); b.extend_false(3); b.append(True)
    check(b.NumZeroPrefix() == n, 'NumZeroPrefix'); check(b.NumZeroPostfix() == 0, 'NumZeroPostfix')
    c = b.copy()
    check(b == c and not b != c and b <= c and not b < c, 'comparison of a large bitvector')
    c[n] = False
    check(b != c and b > c and c < b and c <= b and not b == c, 'comparison of large bitvectors differing near the end')
    d = BV(sequence=[True, False, True]); d.append_bulk(b); d.append_bulk(d)
    for k in (0, n + 8):
        check(d[k] and not d[k + 1] and d[k + 2] and d[k + 3 + n] and not d[k + 4 + n] and d[k + 7 + n] and not d[k + 3], 'append_bulk of a large bitvector')
    check(len(d) == 2 * (n + 8), 'length')
    s = stored_bv(b)
    check(s == b and b == s and hash(s) == hash(b) and s.copy() == b and s.NumZeroPrefix() == n, 'a large stored bitvector')
    e = BV(sequence=[True]); e.extend_true(n); e.append(False)
    check(e.NumOnePrefix() == n + 1 and e.NumZeroPostfix() == 1 and e.NumOnePostfix() == 0, 'NumOnePrefix')
    for i in range(3): e.pop()
    check(e.NumOnePostfix() == n - 1, 'NumOnePostfix')


def stored_bv(b):
    return pointless.Pointless(pointless.serialize_to_bytearray([b, 0])).GetRoot()[0]


first = True


def step():
    global first
    if first: first = False; large(); middling()
    elif rnd.random() < .0005: middling()
    else: one()


run(step, 15)
