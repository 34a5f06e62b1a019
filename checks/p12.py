"""Time is an integer saturating at +-infinity."""
from vt import patch
from vt.build import *
from sampo.schemas.time import TIME_INF

BIG = 4 * 10 ** 9


def clamp(x):
    return Max(Min(x, TIME_INF), -TIME_INF)


def basic(ctx, other):
    a = ctx.int('a', -BIG, BIG)
    b = ctx.int('b', -BIG, BIG)
    A = Time(a)
    ctx.check(A.value == clamp(a), 'construction does not saturate')
    v = A.value
    if other == 'time':
        B = Time(b)
        w = B.value
    else:
        B = w = b
    r = {'add': A + B, 'sub': A - B, 'radd': b + A, 'rsub': b - A}
    ctx.observe('r', {k: x.value for k, x in r.items()})
    ctx.reach()
    ctx.check(all(isinstance(x, Time) for x in r.values()), 'arithmetic does not give a Time')
    ctx.check(And(r['add'].value == clamp(v + w), r['sub'].value == clamp(v - w), r['radd'].value == clamp(v + b),
                  r['rsub'].value == clamp(b - v)), 'wrong sum or difference')
    ctx.check(And(Iff(A < B, v < w), Iff(A <= B, v <= w), Iff(A > B, v > w), Iff(A >= B, v >= w), Iff(A == B, v == w),
                  Iff(A != B, v != w)), 'wrong comparison')
    ctx.check(And(Iff(A.is_inf(), Or(v == TIME_INF, v == -TIME_INF)), Iff(A.__bool__(), v != 0), A.__int__() == v),
              'predicates')
    ctx.check(And(A.value == v, eq(val(B), w)), 'operands changed')
    C = Time(0)
    C.set_time(b)
    ctx.check(C.value == clamp(b), 'set_time does not saturate')


def product(ctx, f):
    a = ctx.int('a', -TIME_INF, TIME_INF)
    A = Time(a)
    r = [A * f, f * A, A * Time(f), A // f if f else None, A // Time(f) if f else None]
    ctx.observe('r', [x.value if x is not None else None for x in r])
    ctx.reach()
    ctx.check(And([x.value == clamp(a * f) for x in r[:3]]), 'wrong product')
    if f:
        q = r[3].value
        ctx.check(And(r[4].value == q, If(q < TIME_INF, And(q * f <= a, a < (q + 1) * f) if f > 0 else
                                          And(q * f >= a, a > (q + 1) * f), True)), 'wrong quotient')


def half(ctx):
    """fractions are cut towards zero"""
    h = ctx.half('h', -1000, 1000)
    a = ctx.int('a', -1000, 1000)
    A = Time(a)
    rs = [(Time(h), h), (A + h, a + h), (h + A, a + h), (A - h, a - h), (h - A, h - a), (A * h, a * h), (h * A, a * h)]
    ctx.observe('r', [x.value for x, _ in rs])
    ctx.reach()
    for x, s in rs:
        ctx.check(And(Implies(s >= 0, And(x.value <= s, s < x.value + 1)), Implies(s <= 0, And(x.value >= s, s > x.value - 1))),
                  'fraction of a sum, difference or product not cut towards zero')
    ctx.check(And(Iff(A < h, a < h), Iff(A <= h, a <= h), Iff(A > h, a > h), Iff(A >= h, a >= h), Iff(A == h, eq(a, h)),
                  A.value == a), 'wrong comparison with a fraction')


def hashes(ctx, n):
    a, b = ctx.int('a', -n, n), ctx.int('b', -n, n)
    A, B = Time(a), Time(b)
    own = patch.TIME_HASH or Time.__hash__      # the hash of the code: symbolic runs use a constant one elsewhere
    ha, hb = own(A), own(B)
    ctx.observe('h', [ha, hb])
    ctx.reach()
    ctx.check(Implies(a == b, ha == hb), 'equal times hash differently')
    ctx.check(ha == hash(a), 'time hashes unlike the equal int')
    k = a.__index__()
    ctx.check(str(Time(k)) == str(k) and repr(Time(k)) == str(k), 'text of a time')
    ctx.check(Time._deserialize(A._serialize()) == A, 'time does not survive serialization')


from vt.sym import Iff  # noqa
HARNESSES = {'basic': basic, 'product': product, 'half': half, 'hashes': hashes}
BOUNDS = {'quick': 'values -4*10^9..4*10^9 (twice the infinity); factors from a list; halves up to 1000',
          'thorough': 'as quick with more factors and hash range'}
OUTSIDE = 'other fractions than halves, division of floats'


def configs(tier):
    yield dict(h='basic', other='time')
    yield dict(h='basic', other='int')
    for f in (0, 1, 2, 3, 7, -1, -3, 10 ** 6, 2 * 10 ** 9):
        yield dict(h='product', f=f)
    yield dict(h='half')
    yield dict(h='hashes', n=4)
    if tier == 'thorough':
        for f in (5, 11, 100, 999, -2, 123456, -10 ** 9):
            yield dict(h='product', f=f)
        yield dict(h='hashes', n=12)
