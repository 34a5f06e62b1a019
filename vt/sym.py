"""Symbolic values: proxies around z3 terms that the real SAMPO code computes with.

SymInt    mathematical integer (Python int semantics; nothing wraps)
SymBool   truth value; taking its truth (`if`, `and`, `not` ...) forks the execution
SymDyadic mantissa / 2**k with |mantissa| < 2**53: the floats that are computed exactly,
          so that no rounding is ever ignored (anything else raises Inexact)

Every proxy is an opaque Python object: C code can only reach its value through
__bool__/__index__/__hash__, all of which fork over every feasible value (sound), so a
value can never be silently realised.
"""
import builtins
import math
import z3

try:
    import numpy as _np
except Exception:  # pragma: no cover
    _np = None

ENGINE = None  # the active explorer (set by engine.py)


class Inexact(BaseException):
    """A float operation that is not exact would be needed: outside the encoding."""


def _np_int(x):
    return _np is not None and isinstance(x, _np.integer)


def _np_float(x):
    return _np is not None and isinstance(x, _np.floating)


def _is_arr(x):
    return _np is not None and isinstance(x, _np.ndarray)


# --------------------------------------------------------------------------- atoms
# A SymInt is a linear form  sum(coef * atom) + const  over atoms: input variables and opaque integer
# terms (joins, products, quotients).  The z3 term is built only when the solver has to see it.
ATOM_E, ATOM_B, REG = [], [], {}
EXPR = {}
_NUM = {}


def reset_atoms():
    ATOM_E.clear()
    ATOM_B.clear()
    REG.clear()
    EXPR.clear()


def atom(key, mk, lo, hi):
    i = REG.get(key)
    if i is None:
        i = len(ATOM_E)
        REG[key] = i
        ATOM_E.append(mk)
        ATOM_B.append((lo, hi))
    return SymInt(((i, 1),), 0, lo, hi)


def var_int(name, lo, hi):
    return atom(('var', name), lambda: z3.Int(name), lo, hi)


def var_bool(name):
    return SymBool(('bvar', name))


def _iv(n):
    e = _NUM.get(n)
    if e is None:
        e = _NUM[n] = z3.IntVal(n)
    return e


def _atom_e(i):
    e = ATOM_E[i]
    if callable(e):
        e = ATOM_E[i] = e()
    return e


def _sum_e(t, c):
    parts = []
    for i, k in t:
        e = _atom_e(i)
        parts.append(e if k == 1 else _iv(k) * e)
    if c:
        parts.append(_iv(c))
    if not parts:
        return _iv(0)
    return parts[0] if len(parts) == 1 else z3.Sum(parts)


def key_expr(k):
    e = EXPR.get(k)
    if e is not None:
        return e
    op = k[0]
    if op == 'le':
        e = _sum_e(k[1], 0) <= _iv(-k[2])
    elif op == 'eq':
        e = _sum_e(k[1], 0) == _iv(-k[2])
    elif op == 'bvar':
        e = z3.Bool(k[1])
    elif op == 'not':
        e = z3.Not(key_expr(k[1]))
    elif op == 'and':
        e = z3.And([key_expr(x) for x in k[1]])
    elif op == 'or':
        e = z3.Or([key_expr(x) for x in k[1]])
    elif op == 'iff':
        e = key_expr(k[1]) == key_expr(k[2])
    else:
        raise AssertionError(op)
    EXPR[k] = e
    return e


def neg_key(k):
    op = k[0]
    if op == 'le':
        return 'le', tuple((i, -c) for i, c in k[1]), 1 - k[2]
    if op == 'not':
        return k[1]
    return 'not', k


def _le0(t, c, lo, hi):
    """sum(t) + c <= 0, given bounds of the whole"""
    if hi is not None and hi <= 0:
        return True
    if lo is not None and lo > 0:
        return False
    return SymBool(('le', t, c))


def _eq0(t, c, lo, hi):
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return False
    if t[0][1] < 0:
        t, c = tuple((i, -k) for i, k in t), -c
    if len(t) == 1 and t[0][1] > 1 and c % t[0][1]:
        return False
    return SymBool(('eq', t, c))


def _lin(t, c):
    """linear form -> int or SymInt"""
    if not t:
        return c
    lo = hi = c
    for i, k in t:
        l, h = ATOM_B[i]
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    if lo is not None and lo == hi:
        return lo
    return SymInt(t, c, lo, hi)


def _merge(t1, t2, s):
    """t1 + s * t2 on sorted term tuples"""
    if not t1:
        return t2 if s == 1 else tuple((i, s * k) for i, k in t2)
    if not t2:
        return t1
    d = dict(t1)
    for i, k in t2:
        v = d.get(i, 0) + s * k
        if v:
            d[i] = v
        else:
            del d[i]
    return tuple(sorted(d.items()))


# ----------------------------------------------------------------------------- SymBool
class SymBool:
    __slots__ = ('k',)
    __array_ufunc__ = None

    def __init__(self, k):
        self.k = k

    @property
    def e(self):
        return key_expr(self.k)

    def __bool__(self):
        return ENGINE.branch(self)

    def __invert__(self):
        return SymBool(neg_key(self.k))

    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return Not(Iff(self, o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return Iff(self, o)
        if isinstance(o, (int, SymInt)):
            return self.as_int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return hash(bool(self))

    def as_int(self):
        k = self.k
        return atom(('b2i', k), lambda: z3.If(key_expr(k), _iv(1), _iv(0)), 0, 1)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __repr__(self):
        return '<symbool>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return _restore, (_stash(self),)


def to_bool(o):
    """-> SymBool or bool, no fork"""
    if isinstance(o, SymBool):
        return o
    if isinstance(o, SymInt):
        return o != 0
    if isinstance(o, SymDyadic):
        return to_bool(o.m)
    return builtins.bool(o)


def bool_expr(o):
    o = to_bool(o)
    return o.e if isinstance(o, SymBool) else z3.BoolVal(o)


def _args(xs):
    if len(xs) == 1 and not isinstance(xs[0], (SymBool, bool, SymInt)) and hasattr(xs[0], '__iter__'):
        return list(xs[0])
    return xs


def And(*xs):
    ks = []
    for x in _args(xs):
        x = to_bool(x)
        if isinstance(x, SymBool):
            ks.append(x.k)
        elif not x:
            return False
    if not ks:
        return True
    return SymBool(ks[0] if len(ks) == 1 else ('and', tuple(ks)))


def Or(*xs):
    ks = []
    for x in _args(xs):
        x = to_bool(x)
        if isinstance(x, SymBool):
            ks.append(x.k)
        elif x:
            return True
    if not ks:
        return False
    return SymBool(ks[0] if len(ks) == 1 else ('or', tuple(ks)))


def Not(x):
    x = to_bool(x)
    return SymBool(neg_key(x.k)) if isinstance(x, SymBool) else not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = to_bool(a), to_bool(b)
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return True if a.k == b.k else SymBool(('iff', a.k, b.k))
    if isinstance(a, SymBool):
        return a if b else Not(a)
    if isinstance(b, SymBool):
        return b if a else Not(b)
    return a == b


def eq(a, b):
    """Structural equality as one formula (no forking) over nested containers of scalars."""
    if isinstance(a, (SymInt, SymBool, SymDyadic)) or isinstance(b, (SymInt, SymBool, SymDyadic)):
        r = (a == b)
        return False if r is NotImplemented else r
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return And([eq(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return And([eq(x, y) for x, y in zip(a, b)])
    return a == b


def If(c, a, b):
    if isinstance(c, SymBool):
        return ite(c, a, b)
    return a if c else b


def Max(*xs):
    """Non-forking maximum (for oracles)."""
    if len(xs) == 1:
        xs = list(xs[0])
    r = xs[0]
    for x in xs[1:]:
        r = If(x > r, x, r)
    return r


def Min(*xs):
    if len(xs) == 1:
        xs = list(xs[0])
    r = xs[0]
    for x in xs[1:]:
        r = If(x < r, x, r)
    return r


# ------------------------------------------------------------------------------ SymInt
def _bounds(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    return x, x


_EMPTY = ()


def _coerce(o):
    """int-like operand -> (terms, const, lo, hi) or None"""
    if isinstance(o, SymInt):
        return o.t, o.c, o.lo, o.hi
    if isinstance(o, builtins.int):
        o = builtins.int(o)
        return _EMPTY, o, o, o
    if isinstance(o, SymBool):
        o = o.as_int()
        return o.t, o.c, o.lo, o.hi
    if _np_int(o) or _np is not None and isinstance(o, _np.bool_):
        o = builtins.int(o)
        return _EMPTY, o, o, o
    return None


def _mulb(a, b):
    (al, ah), (bl, bh) = a, b
    if None in (al, ah, bl, bh):
        if al is not None and bl is not None and al >= 0 and bl >= 0:
            return al * bl, None
        return None, None
    ps = (al * bl, al * bh, ah * bl, ah * bh)
    return builtins.min(ps), builtins.max(ps)


def _is_float(o):
    return isinstance(o, (float, SymDyadic)) or _np_float(o)


class SymInt:
    __slots__ = ('t', 'c', 'lo', 'hi')
    __array_ufunc__ = None

    def __init__(self, t, c, lo, hi):
        self.t, self.c, self.lo, self.hi = t, c, lo, hi

    @property
    def e(self):
        return _sum_e(self.t, self.c)

    @property
    def key(self):
        return self.t, self.c

    # --- arithmetic
    def _arr(self, o, f):
        r = _np.empty(o.shape, dtype=object)
        for i, x in _np.ndenumerate(o):
            r[i] = f(self, x)
        return r

    def __add__(self, o):
        c = _coerce(o)
        if c is None:
            if _is_float(o):
                return SymDyadic(self, 0) + o
            if _is_arr(o):
                return self._arr(o, lambda a, b: a + b)
            return NotImplemented
        t2, c2, lo, hi = c
        if not t2:
            if not c2:
                return self
            return SymInt(self.t, self.c + c2, None if self.lo is None else self.lo + c2,
                          None if self.hi is None else self.hi + c2)
        return _lin(_merge(self.t, t2, 1), self.c + c2)
    __radd__ = __add__

    def __neg__(self):
        return SymInt(tuple((i, -k) for i, k in self.t), -self.c, None if self.hi is None else -self.hi,
                      None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __sub__(self, o):
        c = _coerce(o)
        if c is None:
            if _is_float(o):
                return SymDyadic(self, 0) - o
            if _is_arr(o):
                return self._arr(o, lambda a, b: a - b)
            return NotImplemented
        t2, c2, lo, hi = c
        if not t2:
            if not c2:
                return self
            return SymInt(self.t, self.c - c2, None if self.lo is None else self.lo - c2,
                          None if self.hi is None else self.hi - c2)
        return _lin(_merge(self.t, t2, -1), self.c - c2)

    def __rsub__(self, o):
        c = _coerce(o)
        if c is None:
            if _is_float(o):
                return SymDyadic.of(o) - self
            if _is_arr(o):
                return self._arr(o, lambda a, b: b - a)
            return NotImplemented
        return -self + SymInt(*c) if c[0] else -self + c[1]

    def __mul__(self, o):
        c = _coerce(o)
        if c is None:
            if _is_float(o):
                return SymDyadic(self, 0) * o
            if _is_arr(o):
                return self._arr(o, lambda a, b: a * b)
            if isinstance(o, (list, tuple, str)):
                return o * self.__index__()
            return NotImplemented
        t2, c2, lo, hi = c
        if not t2:
            if c2 == 0:
                return 0
            if c2 == 1:
                return self
            return _lin(tuple((i, k * c2) for i, k in self.t), self.c * c2)
        l, h = _mulb((self.lo, self.hi), (lo, hi))
        x, y = sorted((self.key, (t2, c2)))
        return atom(('mul', x, y), lambda: _sum_e(*x) * _sum_e(*y), l, h)
    __rmul__ = __mul__

    def _divmod(self, o, swap=False):
        c = _coerce(o)
        if c is None:
            return None
        a, b = self, (SymInt(*c) if c[0] else c[1])
        if swap:
            a, b = b, a
        if isinstance(b, SymInt):
            if b == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            neg = builtins.bool(b < 0)
        else:
            if b == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            neg = b < 0
        if neg:
            a, b = -a, -b
        ka = a.key if isinstance(a, SymInt) else ((), a)
        kb = b.key if isinstance(b, SymInt) else ((), b)
        (al, ah), (bl, bh) = _bounds(a), _bounds(b)
        bl1 = builtins.max(bl or 1, 1)
        ql = qh = None
        if al is not None:
            ql = al // bl1 if al < 0 else (al // bh if bh else 0)
        if ah is not None:
            qh = ah // bl1 if ah >= 0 else (ah // bh if bh else -1)
        # z3 Int division is the floor for a positive divisor
        if ql is not None and ql == qh:
            q = ql
        else:
            q = atom(('div', ka, kb), lambda: _sum_e(*ka) / _sum_e(*kb), ql, qh)
        if isinstance(b, SymInt):
            m = atom(('mod', ka, kb), lambda: _sum_e(*ka) % _sum_e(*kb), 0, None if bh is None else bh - 1)
        else:
            m = a - q * b
            if isinstance(m, SymInt):
                m = SymInt(m.t, m.c, 0 if m.lo is None else builtins.max(m.lo, 0),
                           b - 1 if m.hi is None else builtins.min(m.hi, b - 1))
        return q, (-m if neg else m)

    def __floordiv__(self, o):
        if _is_float(o):
            return SymDyadic(self, 0) // o
        if _is_arr(o):
            return self._arr(o, lambda a, b: a // b)
        r = self._divmod(o)
        return NotImplemented if r is None else r[0]

    def __rfloordiv__(self, o):
        if _is_arr(o):
            return self._arr(o, lambda a, b: b // a)
        r = self._divmod(o, True)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % (self.__index__(),)
        r = self._divmod(o, True)
        return NotImplemented if r is None else r[1]

    def __divmod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r

    def __rshift__(self, o):
        return self // (1 << builtins.int(o))

    def __lshift__(self, o):
        return self * (1 << builtins.int(o))

    def __rrshift__(self, o):
        return o >> builtins.int(self)

    def __rlshift__(self, o):
        return o << builtins.int(self)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return to_bool(self) & o
        return builtins.int(self) & builtins.int(o)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return to_bool(self) | o
        return builtins.int(self) | builtins.int(o)
    __ror__ = __or__

    def __xor__(self, o):
        return builtins.int(self) ^ builtins.int(o)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __truediv__(self, o):
        if _is_arr(o):
            return self._arr(o, lambda a, b: a / b)
        if _coerce(o) is None and not _is_float(o):
            return NotImplemented
        return SymDyadic(self, 0) / o

    def __rtruediv__(self, o):
        if _is_arr(o):
            return self._arr(o, lambda a, b: b / a)
        if _coerce(o) is None and not _is_float(o):
            return NotImplemented
        return SymDyadic.of(o) / self

    def __pow__(self, o):
        if isinstance(o, builtins.int) and 0 <= o <= 4:
            r = 1
            for _ in builtins.range(o):
                r = self * r
            return r
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        if self.hi is not None and self.hi <= 0:
            return -self
        m = None
        if self.lo is not None and self.hi is not None:
            m = builtins.max(-self.lo, self.hi)
        k = self.key

        def mk():
            e = _sum_e(*k)
            return z3.If(e >= 0, e, -e)
        return atom(('abs', k), mk, 0, m)

    # --- comparison
    def _cmp(self, o, op, rop):
        c = _coerce(o)
        if c is None:
            return self._fcmp(o, op)
        t2, c2, lo, hi = c
        if not t2:
            d = (self.t, self.c - c2, None if self.lo is None else self.lo - c2,
                 None if self.hi is None else self.hi - c2)
        else:
            x = _lin(_merge(self.t, t2, -1), self.c - c2)
            if not isinstance(x, SymInt):
                return getattr(x, op)(0)
            d = (x.t, x.c, x.lo, x.hi)
        t, k, lo, hi = d
        if rop == 0:    # <
            return _le0(t, k + 1, None if lo is None else lo + 1, None if hi is None else hi + 1)
        if rop == 1:    # <=
            return _le0(t, k, lo, hi)
        nt = tuple((i, -q) for i, q in t)
        if rop == 2:    # >
            return _le0(nt, 1 - k, None if hi is None else 1 - hi, None if lo is None else 1 - lo)
        if rop == 3:    # >=
            return _le0(nt, -k, None if hi is None else -hi, None if lo is None else -lo)
        return _eq0(t, k, lo, hi)

    def __lt__(self, o):
        return self._cmp(o, '__lt__', 0)

    def __le__(self, o):
        return self._cmp(o, '__le__', 1)

    def __gt__(self, o):
        return self._cmp(o, '__gt__', 2)

    def __ge__(self, o):
        return self._cmp(o, '__ge__', 3)

    def __eq__(self, o):
        return self._cmp(o, '__eq__', 4)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def _fcmp(self, o, op):
        if isinstance(o, float) or _np_float(o):
            if math.isinf(o):
                return getattr(0.0, op)(builtins.float(o))
            if o == builtins.int(o):
                return getattr(self, op)(builtins.int(o))
        if _is_float(o):
            return getattr(SymDyadic(self, 0), op)(o)
        if _is_arr(o):
            r = _np.empty(o.shape, dtype=bool)
            for i, x in _np.ndenumerate(o):
                r[i] = builtins.bool(getattr(self, op)(x))
            return r
        return NotImplemented

    # --- realisation: forks over every feasible value
    def __bool__(self):
        return builtins.bool(self != 0)

    def __index__(self):
        return ENGINE.concretize(self)

    def __int__(self):
        return ENGINE.concretize(self)

    def __float__(self):
        return builtins.float(ENGINE.concretize(self))

    def __hash__(self):
        return hash(ENGINE.concretize(self))

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        return round(self.__index__(), n)

    def is_integer(self):
        return True

    def item(self):
        return self

    def __repr__(self):
        return '<symint>'

    def __format__(self, spec):
        return '<symint>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return _restore, (_stash(self),)


_STASH = []


def _stash(x):
    _STASH.append(x)
    return len(_STASH) - 1


def _restore(i):
    return _STASH[i]


class Opaque:
    """The result of an inexact float computation whose value nothing may depend on: arithmetic
    gives Opaque again, any comparison or truth test raises Inexact (the path is undecided)."""
    __array_ufunc__ = None

    def _op(self, *o):
        if o and _is_arr(o[0]):
            r = _np.empty(o[0].shape, dtype=object)
            r.fill(self)
            return r
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = _op

    def _no(self, *o):
        raise Inexact('the code depends on an inexact float')
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __hash__ = __int__ = __float__ = _no


# --------------------------------------------------------------------------- SymDyadic
LIM = 2 ** 53


class SymDyadic:
    """m / 2**k, m a SymInt or int with |m| < 2**53: a float that is exactly this value."""
    __slots__ = ('m', 'k')
    __array_ufunc__ = None

    def __init__(self, m, k):
        lo, hi = _bounds(m)
        if lo is None or hi is None or builtins.max(abs(lo), abs(hi)) >= LIM:
            raise Inexact('float mantissa out of the exactly representable range')
        self.m, self.k = m, k

    @staticmethod
    def of(x):
        if isinstance(x, SymDyadic):
            return x
        if isinstance(x, (SymInt, builtins.int)):
            return SymDyadic(x, 0)
        if isinstance(x, SymBool):
            return SymDyadic(x.as_int(), 0)
        if _np_int(x):
            return SymDyadic(builtins.int(x), 0)
        if isinstance(x, float) or _np_float(x):
            n, d = builtins.float(x).as_integer_ratio()
            return SymDyadic(n, d.bit_length() - 1)
        return None

    def _al(self, o):
        o = SymDyadic.of(o)
        if o is None:
            return None
        k = builtins.max(self.k, o.k)
        return self.m * (1 << (k - self.k)), o.m * (1 << (k - o.k)), k

    def _bin(self, o, f):
        if isinstance(o, float) and math.isinf(o):
            return f(0.0, o)
        a = self._al(o)
        if a is None:
            return NotImplemented
        m = f(a[0], a[1])
        lo, hi = _bounds(m)
        if ENGINE.exact_quot and lo is not None and hi is not None and LIM <= builtins.max(-lo, hi) < 1 << 170:
            return SymQuot(m, a[2], 1, 0)
        return SymDyadic(m, a[2])

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        o = SymDyadic.of(o)
        if o is None:
            return NotImplemented
        m, k = self.m * o.m, self.k + o.k
        lo, hi = _bounds(m)
        if lo is not None and hi is not None and LIM <= builtins.max(-lo, hi) < 1 << 170 and isinstance(m, SymInt):
            return SymProd(m, k, builtins.max(-lo, hi))
        return SymDyadic(m, k)
    __rmul__ = __mul__

    def __neg__(self):
        return SymDyadic(-self.m, self.k)

    def __abs__(self):
        return SymDyadic(abs(self.m), self.k)

    def __truediv__(self, o):
        o = SymDyadic.of(o)
        if o is None:
            return NotImplemented
        if not isinstance(o.m, SymInt):
            if o.m == 0:
                raise ZeroDivisionError('float division by zero')
            n = abs(o.m)
            if n & (n - 1) == 0:
                s = n.bit_length() - 1
                m = self.m if o.m > 0 else -self.m
                k = self.k + s - o.k
                if k < 0:
                    return SymDyadic(m * (1 << -k), 0)
                return SymDyadic(m, k)
        # not exact in general: an opaque float if the harness asked for it, otherwise
        # split over all the values involved and divide real floats
        if ENGINE.opaque_div:
            return Opaque()
        if ENGINE.exact_quot and not isinstance(o.m, SymInt):
            return SymQuot(self.m if o.m > 0 else -self.m, self.k, abs(o.m), o.k)
        return builtins.float(self) / builtins.float(o)

    def __rtruediv__(self, o):
        return SymDyadic.of(o) / self

    def __floordiv__(self, o):
        r = self / o
        return r // 1.0 if isinstance(r, float) else SymDyadic(r.__floor__(), 0)

    def _cmp(self, o, f):
        if isinstance(o, float) and math.isinf(o):
            return f(0.0, o)
        a = self._al(o)
        if a is None:
            return NotImplemented
        return f(a[0], a[1])

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __bool__(self):
        return builtins.bool(self.m)

    def __float__(self):
        return builtins.int(self.m) / (1 << self.k)

    def __hash__(self):
        return hash(builtins.float(self))

    def __floor__(self):
        return self.m // (1 << self.k)

    def __ceil__(self):
        return -((-self.m) // (1 << self.k))

    def __trunc__(self):
        if self.k == 0:
            return self.m
        return If(self.m >= 0, self.m // (1 << self.k), -((-self.m) // (1 << self.k)))

    def __int__(self):
        return builtins.int(self.__trunc__())

    def __round__(self, n=None):
        if n:
            return round(builtins.float(self), n)
        if self.k == 0:
            r = self.m
        else:
            p = 1 << self.k
            fl, rem2 = self.m // p, (self.m % p) * 2
            up = Or(rem2 > p, And(rem2 == p, fl % 2 == 1))
            r = If(up, fl + 1, fl)
        return r if n is None else SymDyadic(r, 0)

    def is_integer(self):
        return self.m % (1 << self.k) == 0

    def __repr__(self):
        return '<symfloat>'

    def __format__(self, spec):
        return '<symfloat>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return _restore, (_stash(self),)


class SymProd:
    """The rounded float product whose exact value is m / 2**k; only its integer part can be used.

    int(RNE(v)) >= n  iff  v >= n - ulp/2, ulp that of the binade of v (ties go to the even mantissa, which is n);
    so int(RNE(v)) = floor(v + 2**(j-53)) for v in [2**j, 2**(j+1))."""
    __array_ufunc__ = None

    def __init__(self, m, k, hi):
        self.m, self.k, self.hi = m, k, hi

    def __trunc__(self):
        if builtins.bool(self.m >= 0):
            return self._tr(self.m)
        return -self._tr(-self.m)

    def _tr(self, m):
        a = 55                                  # scale so that all the addends are integers
        top = builtins.max(self.hi.bit_length() - self.k, 0)
        assert top < 50
        add = 1 << (self.k + a - 1 - 53)        # v in [1/2, 1): only values next to 1 matter
        for j in range(0, top + 1):
            add = If(m >= 1 << (self.k + j), 1 << (self.k + a + j - 53), add)
        return (m * (1 << a) + add) // (1 << (self.k + a))

    __int__ = __trunc__

    def __ceil__(self):
        return SymQuot(self.m, self.k, 1, 0).__ceil__()

    def __floor__(self):
        return SymQuot(self.m, self.k, 1, 0).__floor__()

    def __round__(self, nd=None):
        return SymQuot(self.m, self.k, 1, 0).__round__(nd)

    def _no(self, *o):
        raise Inexact('the code depends on a rounded float')
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __hash__ = __float__ = _no

    def _op(self, *o):
        return Opaque()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = _op


class SymQuot:
    """The rounded float quotient of a symbolic dyadic and a concrete float, exact value x = n / d; only its
    integer roundings can be used.

    For x in [2**j, 2**(j+1)), j < 51: RNE(x) > i iff x > i + 2**(j-53) and RNE(x) >= i iff x >= i - 2**(j-53) for the
    integers i next to x (ties go to the even mantissa, which is that of the integer)."""
    __array_ufunc__ = None

    def __init__(self, m, k, p, q):
        s = q - k
        self.n, self.d = (m * (1 << s), p) if s >= 0 else (m, p << -s)
        while self.d % 2 == 0 and s > 0:
            s, self.d, self.n = s - 1, self.d // 2, m * (1 << (s - 1))
        lo, hi = _bounds(self.n)
        self.lo, self.hi = lo, hi

    def _half(self, n, top):
        r = 0                                   # below 1 only 0 is next to x, and a quotient > 0 stays > 0
        for j in range(0, builtins.max(top, 0) + 1):
            r = If(n >= self.d << j, self.d << j, r)
        return r

    def _tops(self, hi):
        t = (builtins.max(hi, 0) // self.d).bit_length()
        if t > 50:
            raise Inexact('quotient too large')
        return t

    def _up(self, n, hi):
        if builtins.bool(n <= 0):
            return 0
        d = self.d << 53
        return -((self._half(n, self._tops(hi)) - n * (1 << 53)) // d)

    def _down(self, n, hi):
        # just below 1: the ulp is 2**-53
        d = self.d << 54
        h = self._half(n, self._tops(hi)) * 2
        h = If(n >= self.d, h, self.d)
        return (n * (1 << 54) + h) // d

    def __ceil__(self):
        return self._up(self.n, self.hi) if builtins.bool(self.n >= 0) else -self._down(-self.n, -self.lo)

    def __floor__(self):
        return self._down(self.n, self.hi) if builtins.bool(self.n >= 0) else -self._up(-self.n, -self.lo)

    def __trunc__(self):
        return self._down(self.n, self.hi) if builtins.bool(self.n >= 0) else -self._down(-self.n, -self.lo)

    __int__ = __trunc__

    def __round__(self, nd=None):
        if nd is not None:
            raise Inexact('the code depends on a rounded float')
        if not builtins.bool(self.n >= 0):
            r = SymQuot.__new__(SymQuot)
            r.n, r.d, r.lo, r.hi = -self.n, self.d, -self.hi, -self.lo
            return -round(r)
        n2, hi = self.n * 2, self.hi * 2
        t = self._down(n2, hi)
        if builtins.bool(t % 2 == 0):
            return t // 2
        if builtins.bool(self._up(n2, hi) == t):
            return t // 2 if builtins.bool(t // 2 % 2 == 0) else t // 2 + 1
        return t // 2 + 1

    def _no(self, *o):
        raise Inexact('the code depends on a rounded float')
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __hash__ = __float__ = _no

    def _op(self, *o):
        return Opaque()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = _op


SYM = (SymInt, SymBool, SymDyadic)


# -------------------------------------------------------------------- joins and builtins
def _time_cls():
    import sys
    m = sys.modules.get('sampo.schemas.time')
    return m.Time if m else ()


def ite(c, a, b):
    """Join two values under a symbolic condition without forking."""
    if a is b:
        return a
    T = _time_cls()
    if T and type(a) is T and type(b) is T:
        t = object.__new__(T)
        t.value = ite(c, a.value, b.value)
        return t
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return Or(And(c, a), And(Not(c), b))
    ca, cb = _coerce(a), _coerce(b)
    if ca is not None and cb is not None:
        ka, kb = (ca[0], ca[1]), (cb[0], cb[1])
        if ka == kb:
            return a
        lo = None if ca[2] is None or cb[2] is None else builtins.min(ca[2], cb[2])
        hi = None if ca[3] is None or cb[3] is None else builtins.max(ca[3], cb[3])
        k = c.k
        known = ENGINE.lookup(c) if ENGINE is not None else None
        if known is not None:
            return a if known else b
        return atom(('ite', k, ka, kb), lambda: z3.If(key_expr(k), _sum_e(*ka), _sum_e(*kb)), lo, hi)
    if _is_float(a) or _is_float(b):
        da, db = SymDyadic.of(a), SymDyadic.of(b)
        if da is not None and db is not None and type(a) is type(b) or isinstance(a, SymDyadic) or isinstance(b, SymDyadic):
            x, y, k = da._al(db)
            return SymDyadic(ite(c, x, y), k)
    return a if builtins.bool(c) else b


def _joinable(xs):
    T = _time_cls()
    if T and all(type(x) is T for x in xs):
        return any(isinstance(x.value, SYM) for x in xs)
    return all(isinstance(x, (builtins.int, SymInt)) and not isinstance(x, bool) for x in xs) and \
        any(isinstance(x, SymInt) for x in xs)


_MISSING = object()


def _mk_minmax(real, op):
    def f(*args, key=None, default=_MISSING):
        if len(args) == 1:
            xs = list(args[0])
            if not xs:
                if default is _MISSING:
                    return real(xs)
                return default
        else:
            xs = list(args)
        if key is None and len(xs) > 1 and ENGINE is not None and ENGINE.merge and _joinable(xs):
            r = xs[0]
            for x in xs[1:]:
                c = op(x, r)
                if isinstance(c, SymBool):
                    r = ite(c, x, r)
                elif c:
                    r = x
            return r
        return real(xs, key=key)
    f.__name__ = real.__name__
    return f


sym_max = _mk_minmax(builtins.max, lambda a, b: a > b)
sym_min = _mk_minmax(builtins.min, lambda a, b: a < b)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.int, SymInt))

    def __call__(cls, x=0, *a, **kw):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, (SymDyadic, SymProd, SymQuot)):
            return x.__trunc__()
        if not isinstance(x, (builtins.int, float, str, bytes)) and not a and not _np_int(x):
            m = getattr(type(x), '__int__', None)
            if m is not None and type(x).__module__.startswith('sampo'):
                return m(x)
        return builtins.int(x, *a, **kw)

    def __eq__(cls, o):
        return o is builtins.int or o is SymInt or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(builtins.int)


class sym_int(builtins.int, metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, SymDyadic))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SymDyadic))

    def __call__(cls, x=0.0):
        if isinstance(x, (SymInt, SymBool)):
            return SymDyadic.of(x)
        if isinstance(x, SymDyadic):
            return x
        return builtins.float(x)

    def __eq__(cls, o):
        return o is builtins.float or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(builtins.float)


class sym_float(builtins.float, metaclass=_FloatMeta):
    pass


INJECT = {'int': sym_int, 'float': sym_float, 'max': sym_max, 'min': sym_min}
