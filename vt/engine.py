"""Path-exhaustive symbolic execution of real Python code, driven by z3.

A harness `h(ctx, **cfg)` is executed again and again, each time along another path.  Whenever the
code takes the truth of a symbolic condition, the solver decides which outcomes are possible under
the path condition; every possible outcome is explored.  At the end of each path the property
(every ctx.check) is decided by the solver: PC and not(property) must be unsatisfiable.
When all paths have been explored, the property holds for every value of the declared inputs.
"""
import builtins
import os
import random as _random
import sys
import time
import traceback

import z3

from . import sym
from .sym import SymInt, SymBool, SymDyadic, bool_expr, neg_key

QUERY_TIMEOUT_MS = 60_000


class PathInfeasible(BaseException):
    pass


class PathLimit(BaseException):
    """a path took too many decisions or too long"""


class Diverged(BaseException):
    """replaying a decision prefix took another way: the harness is not deterministic"""


class Inconclusive(BaseException):
    pass


# trail outcomes: 0/1 decided branch, 2/3 forced branch, 4 assumption, ('v', n) value split
class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.obligations = 0
        self.solver_s = 0.0
        self.reached = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)

    def as_dict(self):
        d = dict(self.__dict__)
        d['solver_s'] = round(d['solver_s'], 3)
        return d


class Violation:
    def __init__(self, kind, msg, inputs):
        self.kind, self.msg, self.inputs = kind, msg, inputs


class SymCtx:
    """What a harness sees when executed symbolically."""
    symbolic = True

    def __init__(self, eng):
        self.eng = eng
        self.names = {}
        self.obs = {}
        self.checks = []
        self.counters = {}

    def int(self, name, lo, hi):
        v = self.names.get(name)
        if v is not None:
            return v[0]
        if lo == hi:
            self.names[name] = (lo, None)
            return lo
        v = sym.var_int(name, lo, hi)
        var = v.e
        self.eng.assume_expr(z3.And(var >= lo, var <= hi))
        self.names[name] = (v, var)
        return v

    def bool(self, name):
        v = self.names.get(name)
        if v is not None:
            return v[0]
        v = sym.var_bool(name)
        var = v.e
        self.names[name] = (v, var)
        return v

    def pick(self, name, options):
        """one of a few options; forks over them"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[self.eng.concretize(i)]

    def fresh(self, prefix):
        n = self.counters.get(prefix, 0)
        self.counters[prefix] = n + 1
        return f'{prefix}#{n}'

    def time(self, name, lo, hi):
        from sampo.schemas.time import Time
        return Time(self.int(name, lo, hi))

    def half(self, name, lo, hi):
        """a float that is a multiple of 1/2 in [lo, hi] (exactly representable)"""
        return SymDyadic(self.int(name, lo * 2, hi * 2), 1)

    def assume(self, cond):
        if isinstance(cond, (SymBool, SymInt)):
            cond = sym.to_bool(cond)
            known = self.eng.lookup(cond)
            if known is True:
                return
            if known is False or not self.eng.assume_expr(cond.e, check=True):
                raise PathInfeasible()
            self.eng._remember(cond.k, True)
        elif not cond:
            raise PathInfeasible()

    def check(self, cond, msg):
        self.checks.append((cond, msg))
        if cond is False:
            # definitely false on this whole path: stop, the end-of-path query finds the inputs
            raise CheckFailed()

    def check_now(self, cond, msg):
        """check, and stop the path where it cannot hold"""
        self.check(cond, msg)

    def observe(self, key, value):
        self.obs[key] = value

    def reach(self):
        self.eng.stats.reached += 1


class CheckFailed(BaseException):
    pass


class Engine:
    def __init__(self, merge=True, max_decisions=4000, path_seconds=120, value_limit=256, opaque_div=False,
                 exact_quot=False):
        self.merge = merge
        self.max_decisions = max_decisions
        self.path_seconds = path_seconds
        self.value_limit = value_limit
        self.truncs = []
        self.split_vals = []
        self.opaque_div = opaque_div
        self.exact_quot = exact_quot
        self.solver = z3.SimpleSolver() if os.environ.get('VT_SIMPLE') else z3.Solver()
        self.solver.set('timeout', QUERY_TIMEOUT_MS)
        self.stats = Stats()
        self.trail = []        # outcomes of the path being executed
        self.asserted = []     # outcomes whose constraints are on the solver stack
        self.prefix = []
        self.model = None
        self.cache = {}
        self.split_vals = []
        self.known = {}
        self.pending = []
        self.running = False

    # ------------------------------------------------------------------ solver
    def _check(self, *extra):
        t = time.perf_counter()
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r, m

    def _need_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r != z3.sat:
                raise Inconclusive('solver gave no answer on a path condition')
            self.model = m
        return self.model

    def _step(self, outcome, expr):
        """record an outcome and put its constraint on the stack"""
        i = len(self.trail)
        if i >= self.max_decisions:
            raise PathLimit('decisions')
        if time.perf_counter() - self.t0 > self.path_seconds:
            raise PathLimit('time')
        if i < len(self.asserted):
            # common prefix with what is on the stack (begin() guarantees equality)
            self.trail.append(outcome)
            return
        self.solver.push()
        if expr is not None:
            self.solver.add(expr)
        self.asserted.append(outcome)
        self.trail.append(outcome)

    def assume_expr(self, e, check=False):
        i = len(self.trail)
        if i < len(self.prefix):
            if self.prefix[i] != 4:
                raise Diverged(f'expected {self.prefix[i]} got assumption')
            self._step(4, e)
            return True
        self._step(4, e)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None
        if check:
            try:
                self._need_model()
            except PathInfeasible:
                return False
        return True

    def lookup(self, b):
        """is the condition already decided on this path (no solver)?"""
        k = b.k
        c = self.cache.get(k)
        if c is not None:
            return c
        op = k[0]
        if op == 'le':
            t, c = k[1], k[2]
            if t[0][1] < 0:
                kn = self.known.get(tuple((i, -q) for i, q in t))
                if kn is None:
                    return None
                lo, hi = kn          # of -t;  t <= -c  <=>  -t >= c
                if lo is not None and lo >= c:
                    return True
                if hi is not None and hi < c:
                    return False
            else:
                kn = self.known.get(t)
                if kn is None:
                    return None
                lo, hi = kn
                if hi is not None and hi <= -c:
                    return True
                if lo is not None and lo > -c:
                    return False
        elif op == 'eq':
            kn = self.known.get(k[1])
            if kn is not None:
                lo, hi = kn
                v = -k[2]
                if lo is not None and v < lo or hi is not None and v > hi:
                    return False
                if lo is not None and lo == hi == v:
                    return True
        return None

    def branch(self, b):
        if not self.running:
            raise RuntimeError('symbolic truth value taken outside of an exploration')
        c = self.lookup(b)
        if c is not None:
            return c
        self.stats.decisions += 1
        i = len(self.trail)
        if i < len(self.prefix):
            o = self.prefix[i]
            if o not in (0, 1, 2, 3):
                raise Diverged(f'expected {o} got branch')
            r = bool(o & 1)
            if i < len(self.asserted):
                self._step(o, None)
            else:
                self._step(o, (b.e if o == 1 else z3.Not(b.e)) if o < 2 else None)
            self._remember(b.k, r)
            return r
        e = b.e
        m = self._need_model()
        v = m.eval(e, model_completion=True)
        if z3.is_true(v):
            r = True
        elif z3.is_false(v):
            r = False
        else:
            raise Inconclusive('model does not decide a condition')
        other = z3.Not(e) if r else e
        st, _ = self._check(other)
        if st == z3.unsat:
            self._step(3 if r else 2, None)
        else:
            if st != z3.sat:
                raise Inconclusive('solver gave no answer on a branch')
            self.pending.append(list(self.trail) + [0 if r else 1])
            self._step(1 if r else 0, e if r else z3.Not(e))
        self._remember(b.k, r)
        return r

    def _remember(self, k, r):
        self.cache[k] = r
        self.cache[neg_key(k)] = not r
        op = k[0]
        if op == 'not':
            k, r = k[1], not r
            op = k[0]
        if op == 'and' and r or op == 'or' and not r:
            for x in k[1]:
                self._remember(x, r)
            return
        if op == 'le':
            t, c = k[1], k[2]
            if not r:
                # t + c >= 1
                lo, hi = 1 - c, None
            else:
                lo, hi = None, -c
        elif op == 'eq' and r:
            t = k[1]
            lo = hi = -k[2]
        else:
            return
        if t[0][1] < 0:
            t = tuple((i, -q) for i, q in t)
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        kn = self.known.get(t)
        if kn is not None:
            if kn[0] is not None and (lo is None or kn[0] > lo):
                lo = kn[0]
            if kn[1] is not None and (hi is None or kn[1] < hi):
                hi = kn[1]
        self.known[t] = (lo, hi)

    def concretize(self, s):
        if not isinstance(s, SymInt):
            return s
        if not self.running:
            raise RuntimeError('symbolic value realised outside of an exploration')
        if s.lo is not None and s.lo == s.hi:
            return s.lo
        key = ('v', s.t, s.c)
        c = self.cache.get(key)
        if c is not None:
            return c
        kn = self.known.get(s.t)
        if kn is not None and kn[0] is not None and kn[0] == kn[1]:
            return kn[0] + s.c
        i = len(self.trail)
        if i < len(self.prefix):
            o = self.prefix[i]
            if not isinstance(o, tuple):
                raise Diverged(f'expected {o} got value split')
            v = o[1]
            self._step(o, s.e == v if i >= len(self.asserted) else None)
        else:
            e = s.e
            m = self._need_model()
            vals = []
            first = m.eval(e, model_completion=True).as_long()
            vals.append(first)
            t = time.perf_counter()
            self.solver.push()
            self.solver.add(e != first)
            while True:
                self.stats.queries += 1
                r = self.solver.check()
                if r == z3.unsat:
                    self.stats.unsat += 1
                    break
                if r != z3.sat:
                    self.solver.pop()
                    self.stats.unknown += 1
                    raise Inconclusive('solver gave no answer in a value split')
                self.stats.sat += 1
                x = self.solver.model().eval(e, model_completion=True).as_long()
                vals.append(x)
                if len(vals) > (8 if self.truncs else self.value_limit):
                    if len(self.truncs) >= 200:
                        self.solver.pop()
                        raise Inconclusive('too many value splits with too many values')
                    # not decidable here; a few values are still followed, so that a violation can show. Values
                    # taken by other splits come first: equal values are what such code tells apart
                    self.truncs.append(f'more than {self.value_limit} values in a value split, only a few followed')
                    self.solver.pop()
                    self.solver.push()
                    seen = [x for x in dict.fromkeys(self.split_vals) if x != first][:6]
                    vals = [first]
                    for x in seen:
                        if len(vals) >= 3:
                            break
                        if self.solver.check(e == x) == z3.sat:
                            vals.append(x)
                    if len(vals) < 3:
                        self.solver.add(*[e != x for x in vals])
                        if self.solver.check() == z3.sat:
                            vals.append(self.solver.model().eval(e, model_completion=True).as_long())
                    break
                self.solver.add(e != x)
            self.solver.pop()
            self.stats.solver_s += time.perf_counter() - t
            base = list(self.trail)
            for x in vals[1:]:
                self.pending.append(base + [('v', x)])
            v = first
            self._step(('v', v), e == v)
        self.cache[key] = v
        self.split_vals.append(v)
        self._remember(('eq', s.t, s.c - v) if s.t[0][1] > 0 else
                       ('eq', tuple((i, -q) for i, q in s.t), v - s.c), True)
        return v

    # ------------------------------------------------------------------ one path
    def begin(self, prefix):
        n = 0
        lim = min(len(prefix), len(self.asserted))
        while n < lim and prefix[n] == self.asserted[n]:
            n += 1
        k = len(self.asserted) - n
        if k:
            self.solver.pop(k)
            del self.asserted[n:]
        self.prefix = prefix
        self.trail = []
        self.model = None
        self.cache = {}
        self.known = {}
        sym.reset_atoms()
        self.t0 = time.perf_counter()

    def inputs_of(self, ctx, model):
        out = {}
        for name, (v, var) in ctx.names.items():
            if var is None:
                out[name] = v
            else:
                x = model.eval(var, model_completion=True)
                out[name] = z3.is_true(x) if z3.is_bool(x) else x.as_long()
        return out

    def run_path(self, harness, cfg, prefix):
        """returns (ctx, violations, model, status)"""
        sym.ENGINE = self
        self.begin(prefix)
        reset_determinism()
        ctx = SymCtx(self)
        self.running = True
        err = None
        try:
            harness(ctx, **cfg)
        except CheckFailed:
            pass
        except PathInfeasible:
            self.stats.infeasible += 1
            return ctx, [], None, 'infeasible'
        except (Inconclusive, Diverged, sym.Inexact, RecursionError) as ex:
            if isinstance(ex, RecursionError):
                err = ex
            else:
                try:
                    self.running = False
                    ex.vt_inputs = self.inputs_of(ctx, self._need_model())
                except BaseException:  # noqa
                    pass
                raise
        except PathLimit as ex:
            err = ex
        except Exception as ex:  # noqa
            err = ex
            err._vt_tb = traceback.format_exc()
        finally:
            self.running = False
        if len(self.trail) < len(self.prefix):
            if err is not None and not isinstance(err, PathLimit):
                raise Diverged(f'path ended after {len(self.trail)} of {len(self.prefix)} decisions: '
                               f'{err!r}\n{getattr(err, "_vt_tb", "")}')
            if err is None:
                raise Diverged(f'path ended after {len(self.trail)} of {len(self.prefix)} decisions')
        try:
            model = self._need_model()
        except PathInfeasible:
            self.stats.infeasible += 1
            return ctx, [], None, 'infeasible'
        self.stats.paths += 1
        vio = []
        # property obligations of this path
        conds = []
        for c, msg in ctx.checks:
            self.stats.obligations += 1
            if isinstance(c, (SymBool, SymInt)):
                conds.append((bool_expr(c), msg))
            elif not c:
                conds.append((z3.BoolVal(False), msg))
        if conds:
            r, m = self._check(z3.Or([z3.Not(c) for c, _ in conds]))
            if r == z3.sat:
                for c, msg in conds:
                    if not z3.is_true(m.eval(c, model_completion=True)):
                        vio.append(Violation('check', msg, self.inputs_of(ctx, m)))
                        break
            elif r != z3.unsat:
                raise Inconclusive('solver gave no answer on the property')
        if isinstance(err, PathLimit):
            vio.append(Violation('limit', str(err), self.inputs_of(ctx, model)))
        elif err is not None:
            vio.append(Violation('exception', type(err).__name__, self.inputs_of(ctx, model)))
            vio[-1].tb = getattr(err, '_vt_tb', '')
        return ctx, vio, model, 'done'


# -------------------------------------------------------------------- determinism
_RESETS = []


def on_reset(f):
    _RESETS.append(f)
    return f


class _UUID:
    n = 0


def reset_determinism():
    import random
    _UUID.n = 0
    random.seed(0)
    np = sys.modules.get('numpy')
    if np is not None:
        np.random.seed(0)
    sym._STASH.clear()
    for f in _RESETS:
        f()


def det_uuid4():
    import uuid
    _UUID.n += 1
    return uuid.UUID(int=(0xABCD << 96) + _UUID.n)


def evaluate(value, model):
    """a canonical, JSON-able form of an observation under a model"""
    if isinstance(value, SymInt):
        return model.eval(value.e, model_completion=True).as_long()
    if isinstance(value, SymBool):
        return z3.is_true(model.eval(value.e, model_completion=True))
    if isinstance(value, SymDyadic):
        m = value.m
        if isinstance(m, SymInt):
            m = model.eval(m.e, model_completion=True).as_long()
        return canon(m / (1 << value.k))
    if isinstance(value, dict):
        return {str(evaluate(k, model)): evaluate(v, model) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [evaluate(v, model) for v in value]
    if type(value).__name__ == 'Time' and hasattr(value, 'value'):
        return evaluate(value.value, model)
    return canon(value)


def canon(v):
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, builtins.int):
        return v
    if isinstance(v, float):
        return int(v) if v == v and abs(v) != float('inf') and v == int(v) else repr(v)
    if isinstance(v, dict):
        return {str(canon(k)): canon(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if type(v).__name__ == 'Time' and hasattr(v, 'value'):
        return canon(v.value)
    if hasattr(v, 'item'):
        return canon(v.item())
    if hasattr(v, 'tolist'):
        return canon(v.tolist())
    return str(v)


# -------------------------------------------------------------------- concrete twin
class ConCtx:
    """The same interface over concrete inputs: used for replay and validation on unpatched code."""
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.obs = {}
        self.failed = []
        self.missing = []
        self.counters = {}
        self.nchecks = 0

    def int(self, name, lo, hi):
        if name in self.inputs:
            return int(self.inputs[name])
        if lo != hi:
            self.missing.append(name)
        return lo

    def bool(self, name):
        if name in self.inputs:
            return bool(self.inputs[name])
        self.missing.append(name)
        return False

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    fresh = SymCtx.fresh

    def time(self, name, lo, hi):
        from sampo.schemas.time import Time
        return Time(self.int(name, lo, hi))

    def half(self, name, lo, hi):
        return self.int(name, lo * 2, hi * 2) / 2

    def assume(self, cond):
        if not cond:
            raise PathInfeasible()

    def check(self, cond, msg):
        self.nchecks += 1
        if not cond:
            self.failed.append(msg)
            raise CheckFailed()

    check_now = check

    def observe(self, key, value):
        self.obs[key] = value

    def reach(self):
        pass


def run_concrete(harness, cfg, inputs):
    """-> dict(status=ok|check|exception|infeasible, msg, obs)"""
    reset_determinism()
    ctx = ConCtx(inputs)
    try:
        harness(ctx, **cfg)
        st, msg, tb = 'ok', None, None
    except CheckFailed:
        st, msg, tb = 'check', ctx.failed[-1], None
    except PathInfeasible:
        st, msg, tb = 'infeasible', None, None
    except Exception as ex:  # noqa
        st, msg, tb = 'exception', type(ex).__name__, traceback.format_exc()
    return {'status': st, 'msg': msg, 'tb': tb, 'obs': canon(ctx.obs), 'missing': ctx.missing}
