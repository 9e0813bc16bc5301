# PTV pyext
"""Random histories of operations on PointlessPrimVector against a list of the same numbers."""
import math
import struct
import pointless
from pydrv import *

PV = pointless.PointlessPrimVector
BITS = {'i8': (8, 1), 'u8': (8, 0), 'i16': (16, 1), 'u16': (16, 0), 'i32': (32, 1), 'u32': (32, 0), 'i64': (64, 1), 'u64': (64, 0)}
CODES = list(BITS) + ['f']
SIZE = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'f': 4}


def lim(t):
    b, s = BITS[t]
    return (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def val(t, small=False):
    if t == 'f':
        return f32(rnd.choice([0.0, 1.0, -1.5, 2.5, 1e10, -1e-20, float(rnd.randint(-50, 50)), rnd.uniform(-1e6, 1e6)]))
    lo, hi = lim(t)
    if small or rnd.random() < .6:
        return max(lo, rnd.randint(-3, 6))
    return rnd.choice([lo, hi, lo + 1, hi - 1, rnd.randint(lo, hi), hi // 2, hi // 2 + 1, 0])


def bad(t):
    """a value the vector must refuse"""
    if t == 'f':
        return rnd.choice(['x', None, [1.0]])
    lo, hi = lim(t)
    return rnd.choice([lo - 1, hi + 1, lo - 1 - rnd.getrandbits(70), hi + 1 + rnd.getrandbits(70), 1.0, 'x', None, 1 << 64, -(1 << 63) - 1])


def fill(t, n):
    return [val(t, rnd.random() < .5) for _ in range(n)]


def stored(t, vals):
    """the same numbers as a stored vector of exactly this element type"""
    p = pointless.Pointless(pointless.serialize_to_bytearray(PV(t, sequence=vals)))
    return p.GetRoot()


def bits(t, x):
    return struct.pack('d', x) if t == 'f' else x


def same(v, l, t, what):
    check(len(v) == len(l), what + ': length %d, expected %d' % (len(v), len(l)))
    got = [v[i] for i in range(len(l))]
    check([bits(t, x) for x in got] == [bits(t, x) for x in l], what + ': contents %r, expected %r' % (got, l))
    check(all(type(x) is (float if t == 'f' else int) for x in got), what + ': type of items')


def one():
    t = rnd.choice(CODES)
    l = fill(t, rnd.choice([0, 1, 2, 3, 5, 9, 30, 100]) if rnd.random() < .9 else rnd.randint(0, 1500))
    note((t, list(l)))
    v = PV(t, sequence=l) if rnd.random() < .5 else PV(t, sequence=iter(l))
    check(v.typecode == t, 'typecode')
    same(v, l, t, 'construction')
    views = []
    for _ in range(rnd.randint(1, 25)):
        op = rnd.randrange(27)
        x = rnd.choice(l) if l and rnd.random() < .7 else val(t, True)
        i = rnd.choice([0, -1, len(l) - 1, len(l), -len(l), -len(l) - 1, rnd.randint(-len(l) - 2, len(l) + 2), 1 << 32, -(1 << 32), (1 << 32) + 1, 1 << 64, -(1 << 64)])
        note((op, x, i))
        what = 'operation %d' % op
        resize = op in (0, 1, 2, 3, 4, 5, 6, 7, 8, 24, 25)
        before = list(l)
        try:
            m = list(l)
            e_m = e_v = None
            r_m = r_v = None
            if op == 0:
                m.append(x); f = lambda: v.append(x)
            elif op in (1, 24):
                k = fill(t, rnd.randint(0, 12)); note(k)
                src = rnd.choice(['list', 'iter', 'prim', 'other', 'stored', 'stored_slice', 'tuple'])
                note(src)
                o = k
                if src == 'iter': o = iter(k)
                if src == 'tuple': o = tuple(k)
                if src == 'prim': o = PV(t, sequence=k)
                if src == 'other' and t != 'f':
                    k = [min(abs(q), 127) for q in k]; o = PV(rnd.choice([c for c in CODES if c != 'f']), sequence=k)
                if src == 'stored' and k: o = stored(t, k)
                if src == 'stored_slice' and k:
                    a, b = sorted((rnd.randint(0, len(k)), rnd.randint(0, len(k)))); o = stored(t, k)[a:b]; k = k[a:b]
                m.extend(k); f = lambda: v.append_bulk(o)
            elif op == 2:
                m.extend(m); f = lambda: v.append_bulk(v)
            elif op == 3:
                try: r_m = m.pop()
                except IndexError as e: e_m = e
                f = lambda: v.pop()
            elif op == 4:
                n = rnd.randint(0, len(l) + 1) if rnd.random() < .8 else rnd.choice([1 << 32, (1 << 32) + 1, (1 << 32) + len(l), (1 << 33) - 1, (1 << 31), (1 << 40) + 1, (1 << 63) - 1, 1 << 63, 1 << 64, 1 << 70]); note(n)
                if n > len(l): e_m = (ValueError, OverflowError) if n >= (1 << 31) else ValueError()
                elif n: del m[-n:]
                f = lambda: v.pop_bulk(n)
            elif op == 5:
                try: m.remove(x)
                except ValueError as e: e_m = e
                f = lambda: v.remove(x)
            elif op == 6:
                try:
                    j = m.index(x); m[j] = m[-1]; m.pop()
                except ValueError as e: e_m = e
                f = lambda: v.fast_remove(x)
            elif op == 7:
                if rnd.random() < .2:
                    m.clear(); f = lambda: v.clear()
                else:
                    f = lambda: None; resize = False
            elif op == 8:
                y = bad(t); note(y); e_m = (ValueError, TypeError); f = lambda: v.append(y)
            elif op == 25:
                k = fill(t, rnd.randint(0, 5)) + [bad(t)] + fill(t, rnd.randint(0, 5)); note(k); e_m = (ValueError, TypeError); f = lambda: v.append_bulk(k)
            elif op == 9:
                try: r_m = m.index(x)
                except ValueError as e: e_m = e
                f = lambda: v.index(x)
            elif op == 10:
                y = x if rnd.random() < .7 or t == 'f' else rnd.choice([-1, 255, 256, 65535, 1 << 31, 1 << 63, (1 << 64) - 1, -(1 << 63), 1 << 80, -129])
                note(y); r_m = y in m; f = lambda: y in v
            elif op == 11:
                try: r_m = m[i]
                except IndexError as e: e_m = e
                f = lambda: v[i]
            elif op == 12:
                y = val(t); note(y)
                try: m[i] = y
                except IndexError as e: e_m = e
                def f(): v[i] = y
            elif op == 13:
                y = bad(t); note(y); e_m = (ValueError, TypeError, IndexError)
                def f(): v[i] = y
            elif op == 14:
                a, b = [rnd.choice([None, 0, -1, len(l), rnd.randint(-len(l) - 3, len(l) + 3), 1 << 40, -(1 << 40), 1 << 70]) for _ in 'ab']; note((a, b))
                r_m = m[a:b]
                def f():
                    s = v[a:b]
                    check(type(s) is PV and s.typecode == t, 'type of a slice')
                    same(s, r_m, t, 'slice')
                    return list(s)
            elif op == 15:
                r_m = list(m); f = lambda: list(v)
            elif op == 16:
                r_m = list(reversed(m)); f = lambda: list(reversed(v))
            elif op == 17:
                m.sort(); f = lambda: v.sort()
            elif op == 18:
                r_m = struct.pack('II', {'i8': 0, 'u8': 1, 'i16': 2, 'u16': 3, 'i32': 4, 'u32': 5, 'i64': 6, 'u64': 7, 'f': 8}.get(t, 0), len(m))[4:] + b''.join(struct.pack({'i8': 'b', 'u8': 'B', 'i16': 'h', 'u16': 'H', 'i32': 'i', 'u32': 'I', 'i64': 'q', 'u64': 'Q', 'f': 'f'}[t], q) for q in m)
                def f():
                    b = v.serialize()
                    w = PV(buffer=b)
                    check(w.typecode == t, 'type after serialize()')
                    same(w, l, t, 'serialize() and back')
                    for cut in {len(b) - 1, rnd.randint(0, len(b) - 1)}:
                        check(raises(lambda: PV(buffer=bytes(b[:cut])), ValueError)[0], 'truncated buffer refused')
                    return bytes(b[4:])
            elif op == 19:
                r_m = max(m) if m else None; e_m = None if m else ValueError(); f = lambda: v.max()
            elif op == 20:
                r_m = min(m) if m else None; e_m = None if m else ValueError(); f = lambda: v.min()
            elif op == 21:
                r_m = (min(m), max(m)) if m else None; e_m = None if m else ValueError(); f = lambda: v.range()
            elif op == 22:
                if len(views) < 2 and rnd.random() < .3: views.append(memoryview(v))
                for w in views: check(bytes(w) == b''.join(struct.pack({'i8': 'b', 'u8': 'B', 'i16': 'h', 'u16': 'H', 'i32': 'i', 'u32': 'I', 'i64': 'q', 'u64': 'Q', 'f': 'f'}[t], q) for q in m), 'exported buffer')
                f = lambda: None
            elif op == 23:
                if views: views.pop().release()
                f = lambda: None
            else:
                # projections and remaps
                if t != 'f' and rnd.random() < .5:
                    n = rnd.randint(0, 9); u = rnd.choice(CODES); k = fill(u, n); n2 = rnd.choice(CODES); k2 = fill(n2, n); note((u, k, n2, k2))
                    src = [PV(u, sequence=k), PV(n2, sequence=k2)]
                    if k and rnd.random() < .5: src[1] = stored(n2, k2 + k2)[n:]
                    if all(0 <= q < n for q in m):
                        keys = [(k[q], k2[q]) for q in m]
                        def f():
                            v.sort_proj(*src)
                            got = list(v)
                            check(sorted(got) == sorted(m), 'sort_proj permutes')
                            check([(k[q], k2[q]) for q in got] == sorted(keys), 'sort_proj orders')
                            for j, q in enumerate(l): v[j] = q
                    else:
                        e_m = ValueError(); f = lambda: v.sort_proj(*src)
                else:
                    u = rnd.choice([c for c in CODES if c != 'f']); ix = [rnd.randint(0, max(0, len(l) - 1)) % (lim(u)[1] + 1) for _ in range(rnd.randint(0, 6))] if rnd.random() < .7 else [val(u) for _ in range(3)]
                    note((u, ix))
                    src = PV(u, sequence=ix) if rnd.random() < .5 or not ix else stored(u, ix)
                    if all(0 <= q < len(l) for q in ix):
                        r_m = [m[q] for q in ix]
                        f = lambda: list(PV.FromRemap(v, src))
                    else:
                        e_m = ValueError(); f = lambda: PV.FromRemap(v, src)
            if views and resize:
                # nothing to be removed or added is reported either way, but nothing may change
                m = before
                r = raises(f, BufferError, IndexError, ValueError, TypeError, OverflowError)
                if op in (0, 1, 3, 4, 5, 6, 24, 2) and e_m is None and not (op in (1, 2, 24, 4, 7)):
                    check(r[0] and isinstance(r[1], BufferError), what + ': a vector with an exported buffer refuses to change size')
            elif e_m is not None:
                r = raises(f, ValueError, TypeError, IndexError, OverflowError)
                check(r[0], what + ': raises')
                m = before
            else:
                r_v = f()
                if op in (3, 9, 11, 14, 15, 16, 18, 19, 20, 21) or r_m is not None:
                    if t == 'f' and isinstance(r_m, float): check(r_v == r_m and math.copysign(1, r_v) == math.copysign(1, r_m) or r_m == 0 and r_v == 0, what + ': result %r, expected %r' % (r_v, r_m))
                    else: check(r_v == r_m and (type(r_v) is type(r_m)), what + ': result %r, expected %r' % (r_v, r_m))
                else:
                    check(r_v is None, what + ': result %r' % (r_v,))
        finally:
            pass
        l = m
        same(v, l, t, what)
    for w in views: w.release()


run(one, 20)
