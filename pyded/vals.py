"""Symbolic values: scalars, numpy-like arrays, and the path context."""
import itertools
from fractions import Fraction
import z3
from .sym import (Unsupported, fn, fresh, is_z3, to_frac, z, zr, zb, num, PI, op_app, sum_term,
                  I, RL, B, LINEAR_OPS, BINDERS)


class PyExc(Exception):
    """an exception raised by the verified code on this path"""
    def __init__(self, etype, msg=''):
        Exception.__init__(self, '%s: %s' % (etype, msg))
        self.etype, self.msg = etype, msg


class Infeasible(Exception):
    """path condition became false (assume)"""


class Split(Exception):
    pass


# --------------------------------------------------------------------- context
class Ctx:
    def __init__(self):
        self.reset([])

    def reset(self, prefix):
        self.prefix, self.trace = prefix, []
        self.pc = []
        self.facts, self.factkeys = [], set()
        self.solver = z3.Solver()
        self.solver.set('timeout', 3000)
        self.trail = None          # list of undo closures while inside a loop body
        self.notes = []
        self.inputs = {}
        self.tmp = 0
        self.ghosts = []
        self.hints = []            # index terms named by the contract, candidates for instantiation
        self.sorts = {}
        self.fuel = 400000
        self.touched = set()
        self.extc = {}
        self.dimnames = set()
        self.xbase = None          # length of the path condition at the entry of a summarised loop body
        self._ids = itertools.count()
        self.ctxid = next(self._ids)

    def push(self):
        self.solver.push()
        return (len(self.pc), len(self.facts), self.ctxid, self.prefix, self.trace)

    def pop(self, st):
        self.solver.pop()
        n, nf, self.ctxid, self.prefix, self.trace = st
        del self.pc[n:]
        for f in self.facts[nf:]:
            self.solver.add(f)

    def add_fact(self, e):
        if self.xbase is not None and len(self.pc) > self.xbase:
            e = z3.Implies(z3.And(*self.pc[self.xbase:]), e)
        k = e.get_id()
        if k not in self.factkeys:
            self.factkeys.add(k)
            self.facts.append(e)
            self.solver.add(e)

    def assume(self, c):
        c = z3.simplify(zb(c)) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_false(c):
            raise Infeasible()
        if not z3.is_true(c):
            self.pc.append(c)
            self.solver.add(c)
            self.ctxid = next(self._ids)

    def feasible(self, c):
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def entails(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return not self.feasible(z3.Not(c))

    def has_app(self, c):
        st, seen = [c], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    return True
                st.extend(x.children())
        return False

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        n = len(self.trace)
        if n < len(self.prefix):
            v, forced = self.prefix[n]
        else:
            t = self.feasible(c)
            f = t and self.feasible(z3.Not(c))
            if t and f and self.ghosts and self.has_app(c):
                from .prove import instantiate
                self.solver.push()
                for g in instantiate(c, self.pc + self.facts, ()):
                    self.solver.add(g)
                t = self.feasible(c)
                f = (not t) or self.feasible(z3.Not(c))
                self.solver.pop()
            elif t and f and self.ghosts and self.extc and 'ext!' in str(c):
                from .prove import ematch
                self.solver.push()
                for g in ematch(self.facts):
                    self.solver.add(g)
                t = self.feasible(c)
                f = (not t) or self.feasible(z3.Not(c))
                self.solver.pop()
            if not t:
                v, forced = False, True
            elif not f:
                v, forced = True, True
            else:
                v, forced = True, False
            if len(self.trace) > 4000:
                raise Unsupported('too many branches on one path')
        self.trace.append((v, forced))
        self.assume(c if v else z3.Not(c))
        return v


CTX = Ctx()


def log_undo(f, tag=None):
    if CTX.trail is not None:
        CTX.trail.append((f, tag))


# --------------------------------------------------------------------- raw scalars
class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im


def simp(e):
    """unwrap numerals"""
    if is_z3(e):
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return Fraction(f.numerator, f.denominator)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    return e


def isint(x):
    return isinstance(x, (bool, int)) or (is_z3(x) and x.sort() in (I, B))


def kind_of(x):
    if isinstance(x, Cx):
        return 'c'
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, (Fraction, float)):
        return 'f'
    if is_z3(x):
        s = x.sort()
        return 'b' if s == B else 'i' if s == I else 'f'
    if isinstance(x, str):
        return 'S'
    return 'O'


def norm_raw(x):
    if isinstance(x, float):
        return to_frac(x)
    if isinstance(x, complex):
        return Cx(to_frac(x.real), to_frac(x.imag))
    return x


def _co(a, b):
    a, b = num(a), num(b)
    za, zb_ = z(a), z(b)
    if za.sort() != zb_.sort():
        if za.sort() == I:
            za = z3.ToReal(za)
        if zb_.sort() == I:
            zb_ = z3.ToReal(zb_)
    return za, zb_


def _conc(*xs):
    return all(isinstance(x, (bool, int, Fraction)) for x in xs)


def cre(x):
    return x.re if isinstance(x, Cx) else x


def cim(x):
    return x.im if isinstance(x, Cx) else 0


def r_add(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        return Cx(r_add(cre(a), cre(b)), r_add(cim(a), cim(b)))
    if _conc(a, b):
        return a + b
    if _conc(a) and a == 0 and (isinstance(a, int) or kind_of(b) == 'f'):
        return num(b)
    if _conc(b) and b == 0 and (isinstance(b, int) or kind_of(a) == 'f'):
        return num(a)
    x, y = _co(a, b)
    return x + y


def r_neg(a):
    if isinstance(a, Cx):
        return Cx(r_neg(a.re), r_neg(a.im))
    a = num(a)
    return -a


def r_sub(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        return Cx(r_sub(cre(a), cre(b)), r_sub(cim(a), cim(b)))
    if _conc(a, b):
        return a - b
    if _conc(b) and b == 0 and (isinstance(b, int) or kind_of(a) == 'f'):
        return num(a)
    x, y = _co(a, b)
    return x - y


def r_mul(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        if not isinstance(a, Cx):
            return Cx(r_mul(a, b.re), r_mul(a, b.im))
        if not isinstance(b, Cx):
            return Cx(r_mul(a.re, b), r_mul(a.im, b))
        return Cx(r_sub(r_mul(a.re, b.re), r_mul(a.im, b.im)), r_add(r_mul(a.re, b.im), r_mul(a.im, b.re)))
    if _conc(a, b):
        return a * b
    if kind_of(a) == 'b' and kind_of(b) == 'b':
        return z3.And(zb(a), zb(b))
    for p, q in ((a, b), (b, a)):
        if _conc(p):
            if p == 0:
                return Fraction(0) if (kind_of(q) == 'f' or kind_of(p) == 'f') else 0
            if p == 1 and (isinstance(p, int) or kind_of(q) == 'f'):
                return num(q)
    if kind_of(a) == 'b':
        y = z(num(b))
        return z3.If(zb(a), y, z3.IntVal(0) if y.sort() == I else z3.RealVal(0))
    if kind_of(b) == 'b':
        return r_mul(b, a)
    x, y = _co(a, b)
    return x * y


def r_div(a, b):
    if isinstance(b, Cx):
        d = r_add(r_mul(b.re, b.re), r_mul(b.im, b.im))
        n = r_mul(a, Cx(b.re, r_neg(b.im)))
        return Cx(r_div(cre(n), d), r_div(cim(n), d))
    if isinstance(a, Cx):
        return Cx(r_div(a.re, b), r_div(a.im, b))
    if _conc(b) and b == 0:
        return UNDEF('division by zero')
    if _conc(a, b):
        return Fraction(a) / Fraction(b)
    if _conc(a) and a == 0:
        return Fraction(0)     # 0/b with b nonzero (assumed; float division)
    if _conc(b) and b == 1 and kind_of(a) == 'f':
        return a
    return zr(a) / zr(b)


def UNDEF(why):
    CTX.notes.append('undefined: ' + why)
    return fresh('undef', RL)


def r_floor(a):
    if _conc(a):
        import math
        return math.floor(a)
    if isint(a):
        return num(a)
    return z3.ToInt(a)


def r_ceil(a):
    return r_neg(r_floor(r_neg(a)))


def r_fdiv(a, b):
    if _conc(a, b):
        if b == 0:
            raise PyExc('ZeroDivisionError')
        r = a // b
        return Fraction(r) if isinstance(a, Fraction) or isinstance(b, Fraction) else r
    if isint(a) and isint(b):
        a, b = num(a), num(b)
        if _conc(b) and b < 0:
            return r_fdiv(r_neg(a), -b)
        if not _conc(b) and not CTX.entails(z(b) > 0):
            raise Unsupported('floor division by possibly non-positive')
        return z(a) / z(b)
    q = r_floor(r_div(a, b))
    return z3.ToReal(q) if is_z3(q) else Fraction(q)


def r_mod(a, b):
    if _conc(a, b):
        if b == 0:
            raise PyExc('ZeroDivisionError')
        return a % b
    if isint(a) and isint(b):
        a, b = num(a), num(b)
        if not (_conc(b) and b > 0):
            if _conc(b) or not CTX.entails(z(b) > 0):
                raise Unsupported('mod by possibly non-positive')
        return z(a) % z(b)
    return r_sub(a, r_mul(b, r_fdiv(a, b)))


def r_trunc(a):
    if _conc(a):
        return int(a)
    if isint(a):
        return num(a)
    f = z3.ToInt(a)
    if CTX.entails(a >= 0):
        return f
    return z3.If(a >= 0, f, -z3.ToInt(-a))


def r_round(a):
    """half to even"""
    if _conc(a):
        return round(a)
    if isint(a):
        return num(a)
    f = z3.ToInt(a + z3.RealVal('1/2'))
    return z3.If(z3.And(z3.ToReal(f) == a + z3.RealVal('1/2'), f % 2 != 0), f - 1, f)


def r_sqrt(a):
    if isinstance(a, Cx):
        raise Unsupported('complex sqrt')
    if _conc(a):
        import math
        f = Fraction(a)
        if f >= 0:
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return Fraction(p, q)
        else:
            return UNDEF('sqrt of negative')
    return fn('sqrt', RL, RL)(zr(a))


def exact_root(a, k):
    """k-th root of a perfect k-th power of non-negative numbers (an exponent written as a decimal is taken as 1/k)"""
    from .sym import canon, ATOMS
    p = canon(a)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if c != 1 or not m or any(e % k for _, e in m):
        return None
    r = 1
    for i, e in m:
        x = ATOMS[i].expr
        if not CTX.entails(x >= 0):
            return None
        for _ in range(e // k):
            r = r_mul(r, x)
    return zr(r)


def r_pow(a, b):
    if isinstance(b, Cx):
        raise Unsupported('complex power')
    if is_z3(b):
        b = simp(z3.simplify(b))
    if _conc(b):
        fb = Fraction(b)
        if fb.denominator == 1 and abs(fb) <= 24:
            n = int(fb)
            if n < 0:
                return r_div(1, r_pow(a, -n))
            if n == 0:
                return 1 if isint(a) and isint(b) else Fraction(1)
            r = a
            for _ in range(n - 1):
                r = r_mul(r, a)
            if isinstance(b, Fraction) and isint(r):
                r = to_frac(r) if _conc(r) else zr(r)
            return r
        if isinstance(a, Cx):
            raise Unsupported('complex power')
        if fb.denominator == 2 and abs(fb) <= 24:
            s = r_sqrt(a)
            return r_pow(s, int(fb * 2))
        if is_z3(a) and 0 < fb < 1 and abs(1 / fb - round(1 / fb)) < Fraction(1, 10 ** 9):
            r = exact_root(a, round(1 / fb))
            if r is not None:
                return r
        if _conc(a) and fb.denominator == 1 and abs(fb) < 400:
            return Fraction(a) ** int(fb) if a or fb > 0 else UNDEF('0**neg')
    return fn('powr', RL, RL, RL)(zr(a), zr(b))


UNARY = {}


def r_fun(name):
    f = fn(name, RL, RL)

    def g(a):
        if isinstance(a, Cx):
            if name == 'exp':
                e = g(a.re)
                return Cx(r_mul(e, r_fun('cos')(a.im)), r_mul(e, r_fun('sin')(a.im)))
            raise Unsupported('complex ' + name)
        if _conc(a):
            if name in ('sin', 'tan', 'arctan', 'sinh', 'arcsin', 'tanh') and a == 0:
                return Fraction(0)
            if name in ('exp', 'cos', 'cosh') and a == 0:
                return Fraction(1)
            if name == 'log' and a == 1:
                return Fraction(0)
            if name == 'exp' and a < 0:
                return r_div(1, f(zr(-a)))
        return f(zr(a))
    return g


def r_log10(a):
    if _conc(a) and a > 0:
        x = Fraction(a)
        k = 0
        while x >= 10:
            x /= 10
            k += 1
        while x < 1:
            x *= 10
            k -= 1
        if x == 1:
            return Fraction(k)
    return fn('log10', RL, RL)(zr(a))


def r_cmp(op, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        e = r_and(r_cmp('==', cre(a), cre(b)), r_cmp('==', cim(a), cim(b)))
        if op == '==':
            return e
        if op == '!=':
            return r_not(e)
        raise PyExc('TypeError', 'complex ordering')
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if op == '==':
            return type(a) is type(b) and a == b
        if op == '!=':
            return not (type(a) is type(b) and a == b)
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        raise PyExc('TypeError', 'ordering of %r and %r' % (a, b))
    if _conc(a, b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if not (is_z3(a) or _conc(a)) or not (is_z3(b) or _conc(b)):
        if op == '==':
            return a is b
        if op == '!=':
            return a is not b
        raise Unsupported('comparison of %r %r' % (type(a), type(b)))
    if kind_of(a) == 'b' and kind_of(b) == 'b' and op in ('==', '!='):
        return z(a) == z(b) if op == '==' else z(a) != z(b)
    x, y = _co(a, b)
    r = simp({'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
              '==': lambda: x == y, '!=': lambda: x != y}[op]())
    if NAN_USED[0]:
        n = simp(z3.Or(zb(nancond(x)), zb(nancond(y))))
        if not z3.is_false(n):
            r = simp(z3.Or(n, r) if op == '!=' else z3.And(z3.Not(n), r))
    return r


NANC = z3.Real('nan!')
NAN_USED = [False]
_nan = {}


def nancond(e):
    """when the term is NaN, for the NaN constants the code writes explicitly"""
    if not NAN_USED[0] or not is_z3(e):
        return False
    i = e.get_id()
    if i in _nan:
        return _nan[i][0]
    if z3.is_quantifier(e):
        r = nancond(e.body())
        if r is not False:
            raise Unsupported('NaN inside a reduction')
    elif z3.eq(e, NANC):
        r = True
    elif z3.is_app_of(e, z3.Z3_OP_ITE) and e.sort() != z3.BoolSort():
        c, a, b = e.children()
        x, y = nancond(a), nancond(b)
        r = x if x is y else simp(z3.If(c, zb(x), zb(y)))
    elif e.sort() == z3.BoolSort():
        r = False
    else:
        cs = [nancond(c) for c in e.children()]
        cs = [c for c in cs if c is not False]
        r = False if not cs else simp(z3.Or(*[zb(c) for c in cs]))
    if is_z3(r) and z3.is_false(r):
        r = False
    _nan[i] = (r, e)
    return r


def truth(a):
    """raw scalar -> bool or z3 Bool"""
    if isinstance(a, Cx):
        return r_cmp('!=', a, 0)
    if _conc(a):
        return bool(a)
    if is_z3(a):
        return zb(a)
    return bool(a)


def r_not(a):
    a = truth(a)
    return (not a) if isinstance(a, bool) else z3.Not(a)


def r_and(*xs):
    ys = []
    for x in xs:
        x = truth(x)
        if x is False:
            return False
        if x is not True:
            ys.append(x)
    return True if not ys else ys[0] if len(ys) == 1 else z3.And(*ys)


def r_or(*xs):
    ys = []
    for x in xs:
        x = truth(x)
        if x is True:
            return True
        if x is not False:
            ys.append(x)
    return False if not ys else ys[0] if len(ys) == 1 else z3.Or(*ys)


def r_ite(c, a, b):
    c = truth(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, Cx) or isinstance(b, Cx):
        return Cx(r_ite(c, cre(a), cre(b)), r_ite(c, cim(a), cim(b)))
    if a is b:
        return a
    if _conc(a, b) and type(a) is type(b) and a == b:
        return a
    if kind_of(a) == 'b' and kind_of(b) == 'b':
        return z3.If(c, zb(a), zb(b))
    if (kind_of(a) not in 'bif') or (kind_of(b) not in 'bif'):
        raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))
    x, y = _co(a, b)
    if z3.eq(x, y):
        return simp(x)
    return z3.If(c, x, y)


def r_abs(a):
    if isinstance(a, Cx):
        return r_sqrt(r_add(r_mul(a.re, a.re), r_mul(a.im, a.im)))
    if _conc(a):
        return abs(a)
    a = num(a)
    if CTX.entails(z(a) >= 0):
        return a
    return z3.If(a >= 0, a, -a)


def r_min(a, b):
    return r_ite(r_cmp('<=', a, b), a, b)


def r_max(a, b):
    return r_ite(r_cmp('>=', a, b), a, b)


def cast(kind, x):
    k = kind_of(x)
    if kind == k or kind == 'O':
        return x
    if kind == 'b':
        return truth(x)
    if isinstance(x, Cx):
        if kind == 'c':
            return x
        return cast(kind, x.re)
    if kind == 'i':
        if k == 'b':
            return num(x)
        return r_trunc(x)
    if kind == 'f':
        if _conc(x):
            return Fraction(x)
        return zr(x)
    if kind == 'c':
        return Cx(cast('f', x), Fraction(0))
    raise Unsupported('cast %s -> %s' % (k, kind))


def subst_raw(x, pairs):
    if isinstance(x, Cx):
        return Cx(subst_raw(x.re, pairs), subst_raw(x.im, pairs))
    if is_z3(x):
        return simp(z3.substitute(x, *pairs))
    return x


def rkey(x):
    if isinstance(x, Cx):
        return ('c', rkey(x.re), rkey(x.im))
    if is_z3(x):
        return ('z', x.get_id())
    return (type(x).__name__, x)


# --------------------------------------------------------------------- dimensions
def dsimp(d):
    if is_z3(d):
        return simp(z3.simplify(d))
    return d


def dim_same(a, b):
    if _conc(a, b):
        return a == b
    return CTX.entails(z(a) == z(b))


def dimnorm(d):
    """a dimension written as one of the constants it is made of, where the two are equal"""
    if not is_z3(d) or z3.is_const(d):
        return d
    seen, st, cs = set(), [d], {}
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.sort() == I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            cs[x.get_id()] = x
        st.extend(x.children())
    if len(seen) < 60:
        for x in cs.values():
            if CTX.entails(z(d) == x):
                return x
    return d


def dim_unify(a, b):
    """returns common dim for broadcasting or raises PyExc"""
    if isinstance(a, int) and isinstance(b, int):
        if a == b or b == 1:
            return a
        if a == 1:
            return b
        raise PyExc('ValueError', 'broadcast %s %s' % (a, b))
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if is_z3(a) and is_z3(b) and z3.eq(a, b):
        return a
    if CTX.decide(z(a) == z(b)):
        return a
    for d, o in ((a, b), (b, a)):
        if CTX.feasible(z(d) == 1):
            if CTX.decide(z(d) == 1):
                return o
    raise PyExc('ValueError', 'broadcast')


def bcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j >= 0:
                d = dim_unify(d, s[j])
        out.append(d)
    return tuple(out)


def prod(ds):
    r = 1
    for d in ds:
        r = r_mul(r, d)
    return r


def all_int(ds):
    return all(isinstance(d, int) for d in ds)


# --------------------------------------------------------------------- arrays
class Buf:
    __slots__ = ('f', 'shape', 'kind', 'cache', 'name', 'writes', 'id', 'bits')
    _ids = itertools.count()

    def __init__(self, shape, f, kind, name=None):
        self.f, self.shape, self.kind, self.name = f, shape, kind, name
        self.cache, self.writes = {}, 0
        self.id = next(Buf._ids)
        self.bits = 64

    def get(self, idx):
        k = (CTX.ctxid,) + tuple([i if isinstance(i, int) else ('z', i.get_id()) for i in idx])
        h = self.cache.get(k)
        if h is None:
            v = simp(self.f(idx))
            self.cache[k] = (v, idx)
            return v
        return h[0]

    def set(self, f, axes=None):
        old, oc, ow = self.f, self.cache, self.writes

        def undo():
            self.f, self.cache, self.writes = old, oc, ow
        log_undo(undo, ('buf', self, axes))
        CTX.touched.add(self)
        self.f, self.cache, self.writes = f, {}, ow + 1
        # bound closure depth for concrete arrays
        if all_int(self.shape):
            n = 1
            for d in self.shape:
                n *= d
            if n <= 512 and CTX.trail is None:
                tbl = {ix: f(ix) for ix in itertools.product(*[range(d) for d in self.shape])}
                self.f = table_fn(tbl, self.shape)
        return old


def table_fn(tbl, shape):
    def f(idx):
        if all(isinstance(i, int) for i in idx):
            return tbl[tuple(int(i) for i in idx)]
        cands = [range(d) if not isinstance(i, int) else (int(i),) for i, d in zip(idx, shape)]
        r = None
        for ix in itertools.product(*cands):
            v = tbl[ix]
            if r is None:
                r = v
            else:
                c = r_and(*[r_cmp('==', i, j) for i, j in zip(idx, ix) if not isinstance(i, int)])
                r = r_ite(c, v, r)
        if r is None:
            raise PyExc('IndexError', 'empty')
        return r
    return f


class Sel:
    """describes x[mask]: values val(idx) where mask(idx), over shape"""
    __slots__ = ('val', 'mask', 'shape', 'mkey')

    def __init__(self, val, mask, shape, mkey):
        self.val, self.mask, self.shape, self.mkey = val, mask, shape, mkey


class Arr:
    """numpy array. axes: list per base axis of ('f', e) | ('a', view_axis, start, step)"""
    __array_priority__ = 1e9
    __slots__ = ('buf', 'shape', 'axes', 'sel', '_meta', 'snap', 'unit')

    def __init__(self, shape, f, kind, name=None, sel=None):
        shape = tuple(dsimp(d) for d in shape)
        self.buf = Buf(shape, f, kind, name)
        self.shape, self.axes, self.sel, self.meta, self.snap = shape, None, sel, None, False
        self.unit = None

    @staticmethod
    def view(buf, shape, axes):
        a = Arr.__new__(Arr)
        a.buf, a.shape, a.axes, a.sel, a.meta, a.snap = buf, tuple(dsimp(d) for d in shape), axes, None, None, False
        a.unit = None
        return a

    @property
    def meta(self):
        """where the values come from; lost when the buffer is written"""
        m = self._meta
        return m[1] if m is not None and m[0] == (self.buf.id, self.buf.writes) else None

    @meta.setter
    def meta(self, v):
        self._meta = None if v is None else ((self.buf.id, self.buf.writes), v)

    @property
    def kind(self):
        return self.buf.kind

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        return self.get(tuple(idx))

    def get(self, idx):
        if self.axes is None:
            return self.buf.get(tuple(idx))
        return self.buf.get(tuple(self._b(a, idx) for a in self.axes))

    @staticmethod
    def _b(a, idx):
        if a[0] == 'f':
            return a[1]
        _, v, st, sp = a
        i = idx[v]
        if is_z3(sp) or sp != 1:
            i = r_mul(sp, i)
        return simp(r_add(st, i)) if not (isinstance(st, int) and st == 0) else i

    def fullaxes(self):
        return self.axes if self.axes is not None else [('a', k, 0, 1) for k in range(len(self.buf.shape))]

    def frozen(self):
        """current-value function (not affected by later writes)"""
        f, cache = self.buf.f, {}
        b = Buf(self.buf.shape, f, self.buf.kind)
        b.cache = self.buf.cache
        axes = self.axes
        if axes is None:
            return lambda idx: b.get(tuple(idx))
        return lambda idx: b.get(tuple(Arr._b(a, idx) for a in axes))

    def copy(self):
        r = Arr(self.shape, self.frozen(), self.kind, sel=self.sel)
        r.meta, r.unit = self.meta, self.unit
        r.buf.bits = self.buf.bits
        return r

    # python protocol (used by native contract code)
    def __bool__(self):
        n = prod(self.shape)
        if isinstance(n, int) and n == 1:
            return CTX.decide(truth(self.get(tuple(0 for _ in self.shape))))
        raise PyExc('ValueError', 'truth value of an array')

    def __len__(self):
        if not self.shape:
            raise PyExc('TypeError', 'len of 0-d')
        if isinstance(self.shape[0], int):
            return self.shape[0]
        raise Unsupported('native len() of symbolic dim')

    def __hash__(self):
        return id(self)


class Sc:
    """symbolic scalar"""
    __array_priority__ = 1e9
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.decide(truth(self.e))

    def __hash__(self):
        return hash(rkey(self.e))

    def __index__(self):
        e = dsimp(self.e)
        if isinstance(e, int):
            return e
        raise Unsupported('symbolic value used as a Python index')

    def __repr__(self):
        return 'Sc(%s)' % (self.e if not isinstance(self.e, Cx) else 'cx')


class OpaqueStr:
    def __init__(self, parts):
        self.parts = parts


class SymSeq:
    """list / range of symbolic length; at(i) gives the element"""
    def __init__(self, n, at, what='list'):
        self.n, self.at, self.what = dsimp(n), at, what


def wrap(x):
    x = simp(x)
    if is_z3(x) or isinstance(x, Cx):
        return Sc(x)
    return x


def raw(x):
    """interpreter scalar -> raw"""
    if isinstance(x, Sc):
        return x.e
    if isinstance(x, float):
        return to_frac(x)
    if isinstance(x, complex):
        return Cx(to_frac(x.real), to_frac(x.imag))
    if isinstance(x, Arr) and x.ndim == 0:
        return x.get(())
    return x


def is_scalar(x):
    return isinstance(x, (Sc, bool, int, Fraction, float, complex)) or (isinstance(x, Arr) and x.ndim == 0)


def as_arr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, SymSeq):
        e = x.at(fresh('probe', I))
        if isinstance(e, Arr) or isinstance(e, (list, tuple, SymSeq)):
            ea = as_arr(e)
            shp = ea.shape

            def f(idx):
                return as_arr(x.at(idx[0])).get(idx[1:])
            return Arr((x.n,) + shp, f, ea.kind)
        k = kind_of(raw(e))
        return Arr((x.n,), lambda idx: raw(x.at(idx[0])), k)
    if isinstance(x, (list, tuple)):
        return list_to_arr(x)
    if is_scalar(x):
        r = raw(x)
        return Arr((), lambda idx: r, kind_of(r))
    if isinstance(x, range):
        return list_to_arr(list(x))
    if isinstance(x, str):
        return Arr((), lambda idx: x, 'S')
    raise Unsupported('cannot make an array of %s' % type(x).__name__)


KORD = 'bifc'


def kmax(*ks):
    for k in ks:
        if k not in KORD:
            return k
    return max(ks, key=KORD.index)


def list_to_arr(xs):
    els = list(xs)
    if not els:
        return Arr((0,), table_fn({}, (0,)), 'f')
    if all(is_scalar(e) for e in els):
        rs = [raw(e) for e in els]
        k = kmax(*[kind_of(r) for r in rs])
        rs = [cast(k, r) for r in rs]
        return Arr((len(rs),), table_fn({(i,): r for i, r in enumerate(rs)}, (len(rs),)), k)
    if all(isinstance(e, str) for e in els):
        return Arr((len(els),), table_fn({(i,): r for i, r in enumerate(els)}, (len(els),)), 'S')
    if any(e is None or not isinstance(e, (Arr, list, tuple, SymSeq, range, Sc, int, Fraction, float)) for e in els):
        return Arr((len(els),), lambda idx: els[idx[0]], 'O')
    arrs = [as_arr(e) for e in els]
    shp = arrs[0].shape
    for a in arrs[1:]:
        if len(a.shape) != len(shp):
            raise PyExc('ValueError', 'inhomogeneous')
        for p, q in zip(a.shape, shp):
            if not dim_same(p, q):
                raise PyExc('ValueError', 'inhomogeneous')
    k = kmax(*[a.kind for a in arrs])
    fs = [a.frozen() for a in arrs]

    def f(idx):
        if isinstance(idx[0], int):
            return cast(k, fs[idx[0]](idx[1:]))
        r = cast(k, fs[0](idx[1:]))
        for i in range(1, len(fs)):
            r = r_ite(r_cmp('==', idx[0], i), cast(k, fs[i](idx[1:])), r)
        return r
    return Arr((len(arrs),) + tuple(shp), f, k)


def unwrap0(a):
    if isinstance(a, Arr) and a.ndim == 0:
        return wrap(a.get(()))
    return a


def elementwise(f, kindf, *args):
    """apply raw function elementwise with broadcasting"""
    arrs = [as_arr(a) for a in args]
    if all(a.ndim == 0 for a in arrs):
        r = f(*[a.get(()) for a in arrs])
        return wrap(r)
    sels = [a for a in arrs if a.sel is not None]
    if sels:
        s0 = sels[0].sel
        for a in arrs:
            if a.sel is None:
                if a.ndim != 0:
                    if a.ndim == 1 and a.shape[0] == 1:
                        continue
                    raise Unsupported('mix of selection and plain array')
            elif a.sel.mkey != s0.mkey:
                raise Unsupported('selections with different masks')
        vals = [(a.sel.val if a.sel is not None else (lambda idx, r=a.get(tuple(0 for _ in a.shape)): r)) for a in arrs]
        nf = lambda idx: f(*[v(idx) for v in vals])
        k = kindf(*[a.kind for a in arrs])
        return mk_sel(nf, s0.mask, s0.shape, s0.mkey, k, sels[0].shape[0])
    shp = bcast_shapes(*[a.shape for a in arrs])
    n = len(shp)
    gets = []
    for a in arrs:
        fr = a.frozen()
        off = n - a.ndim
        ones = [isinstance(d, int) and d == 1 and not (isinstance(shp[off + k], int) and shp[off + k] == 1) for k, d in enumerate(a.shape)]
        # symbolic dims decided to be 1
        for k, d in enumerate(a.shape):
            if is_z3(d) and not (is_z3(shp[off + k]) and z3.eq(d, shp[off + k])) and not dim_same(d, shp[off + k]):
                ones[k] = True
        gets.append((fr, off, ones))

    def g(idx):
        return f(*[fr(tuple(0 if o else i for i, o in zip(idx[off:], ones))) for fr, off, ones in gets])
    return Arr(shp, g, kindf(*[a.kind for a in arrs]))


_selc = itertools.count()


def mk_sel(val, mask, shape, mkey, kind, length=None):
    if length is None:
        length = dsimp(z3.ToInt(zr(sum_term(lambda *k: num(mask(k)), shape)))) if True else None
    u = fn('selelem!%d' % next(_selc), I, RL)
    return Arr((length,), lambda idx: (cast('i', u(z(idx[0]))) if kind == 'i' else u(z(idx[0])) != 0 if kind == 'b' else u(z(idx[0]))),
               kind, sel=Sel(val, mask, shape, mkey))


def kf_arith(*ks):
    k = kmax(*ks)
    return 'i' if k == 'b' else k


def kf_arith_b(*ks):
    return kmax(*ks)


def kf_float(*ks):
    k = kmax(*ks)
    return k if k == 'c' else 'f'


def kf_bool(*ks):
    return 'b'


BINOPS = {
    '+': (r_add, kf_arith_b), '-': (r_sub, kf_arith), '*': (r_mul, kf_arith_b), '/': (r_div, kf_float),
    '//': (r_fdiv, kf_arith), '%': (r_mod, kf_arith), '**': (r_pow, kf_arith),
    '<': (lambda a, b: r_cmp('<', a, b), kf_bool), '<=': (lambda a, b: r_cmp('<=', a, b), kf_bool),
    '>': (lambda a, b: r_cmp('>', a, b), kf_bool), '>=': (lambda a, b: r_cmp('>=', a, b), kf_bool),
    '==': (lambda a, b: r_cmp('==', a, b), kf_bool), '!=': (lambda a, b: r_cmp('!=', a, b), kf_bool),
    '&': (lambda a, b: r_and(a, b), kf_bool), '|': (lambda a, b: r_or(a, b), kf_bool),
    '^': (lambda a, b: r_ite(a, r_not(b), truth(b)), kf_bool),
}


def _badd(a, b):
    # numpy: bool + bool on arrays is logical or
    if kind_of(a) == 'b' and kind_of(b) == 'b':
        return r_or(a, b)
    return r_add(a, b)


def arr_binop(op, a, b):
    f, kf = BINOPS[op]
    if op in '&|^':
        for x in (a, b):
            k = as_arr(x).kind
            if k != 'b':
                raise Unsupported('bitwise operator on non-bool')
    if op == '+':
        f = _badd
    r = elementwise(f, kf, a, b)
    if isinstance(r, Arr):
        la, lb = getattr(a, 'meta', None), getattr(b, 'meta', None)
        if la or lb:
            from . import npm
            npm.combine_meta(op, a, b, r)
    return r


def sc_binop(op, a, b):
    ra, rb = raw(a), raw(b)
    return wrap(BINOPS[op][0](ra, rb))


def anybin(op):
    def f(self, other):
        from . import interp
        return interp.binop(op, self, other)

    def r(self, other):
        from . import interp
        return interp.binop(op, other, self)
    return f, r


for _op, _nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'truediv'), ('//', 'floordiv'), ('%', 'mod'),
                 ('**', 'pow'), ('&', 'and'), ('|', 'or'), ('^', 'xor')):
    for _c in (Arr, Sc):
        _f, _r = anybin(_op)
        setattr(_c, '__%s__' % _nm, _f)
        setattr(_c, '__r%s__' % _nm, _r)
for _op, _nm in (('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'), ('==', 'eq'), ('!=', 'ne')):
    for _c in (Arr, Sc):
        setattr(_c, '__%s__' % _nm, anybin(_op)[0])
for _c in (Arr, Sc):
    _c.__neg__ = lambda self: sc_binop('*', -1, self) if isinstance(self, Sc) else arr_binop('*', -1, self)
    _c.__pos__ = lambda self: self
    _c.__invert__ = lambda self: wrap(r_not(self.e)) if isinstance(self, Sc) else elementwise(r_not, kf_bool, self)
    _c.__abs__ = lambda self: wrap(r_abs(raw(self))) if is_scalar(self) else elementwise(r_abs, lambda k: 'f' if k == 'c' else k, self)
Sc.__hash__ = lambda self: hash(rkey(self.e))
Arr.__hash__ = lambda self: id(self)


# --------------------------------------------------------------------- indexing
def norm_index(i, d, check=True):
    """Python index semantics: negative wraps; out of range raises"""
    i = num(raw(i))
    if isinstance(i, Fraction) or (is_z3(i) and i.sort() != I):
        raise PyExc('IndexError', 'float index')
    if isinstance(i, int) and isinstance(d, int):
        if not -d <= i < d:
            raise PyExc('IndexError', 'index %d out of bounds %d' % (i, d))
        return i if i >= 0 else i + d
    zi, zd = z(i), z(d)
    if isinstance(i, int):
        neg = i < 0
    elif CTX.entails(zi >= 0):
        neg = False
    else:
        neg = CTX.decide(zi < 0)
    if neg:
        if check and not CTX.decide(zi + zd >= 0):
            raise PyExc('IndexError', 'out of bounds')
        return dsimp(zi + zd)
    if check and not CTX.decide(zi < zd):
        raise PyExc('IndexError', 'out of bounds')
    return i


def slice_bounds(s, d):
    """start, length, step of a slice on a dim (raw)"""
    st, en, sp = s
    sp = 1 if sp is None else raw(sp)
    sym_step = is_z3(sp) and isint(sp)
    if not isinstance(sp, int):
        if not sym_step or not CTX.entails(sp > 0):
            raise Unsupported('symbolic slice step')
    for q in (st, en):
        if q is not None and kind_of(raw(q)) == 'f':
            raise PyExc('TypeError', 'slice indices must be integers')

    def clip(x, lo, hi):
        x = num(raw(x))
        if isinstance(x, int) and isinstance(d, int):
            if x < 0:
                x += d
            return min(max(x, lo), hi)
        zx, zd = z(x), z(d)
        if (isinstance(x, int) and x < 0) or (not isinstance(x, int) and not CTX.entails(zx >= 0) and CTX.decide(zx < 0)):
            x = dsimp(zx + zd)
            zx = z(x)
            if not CTX.decide(zx >= lo):
                return lo
        hi_ = z(hi)
        if isinstance(hi, int) and isinstance(x, int):
            return min(x, hi)
        if CTX.decide(zx <= hi_):
            return x
        return hi
    if sym_step or sp > 0:
        a = 0 if st is None else clip(st, 0, d)
        b = d if en is None else clip(en, 0, d)
        n = dsimp(r_sub(b, a))
        if isinstance(n, int):
            n = max(0, n)
        elif not CTX.decide(z(n) >= 0):
            n = 0
        if sym_step:
            n = dimnorm(r_fdiv(r_add(n, r_sub(sp, 1)), sp))
        elif sp != 1:
            n = dsimp(r_fdiv(r_add(n, sp - 1), sp))
        return a, n, sp
    hi = dsimp(r_sub(d, 1))
    a = hi if st is None else clip(st, -1, hi)
    b = -1 if en is None else clip(en, -1, hi)
    n = dsimp(r_sub(a, b))
    if isinstance(n, int):
        n = max(0, n)
    elif not CTX.decide(z(n) >= 0):
        n = 0
    m = -sp
    if m != 1:
        n = dsimp(r_fdiv(r_add(n, m - 1), m))
    return a, n, sp


class SliceV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


def _expand(idx, nd):
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = list(idx)
    used = 0
    for i in idx:
        if i is None or i is Ellipsis:
            continue
        if isinstance(i, Arr) and i.kind == 'b' and i.ndim > 0:
            used += i.ndim
        else:
            used += 1
    if any(i is Ellipsis for i in idx):
        k = [j for j, i in enumerate(idx) if i is Ellipsis][0]
        idx[k:k + 1] = [SliceV(None, None, None)] * (nd - used)
    else:
        idx += [SliceV(None, None, None)] * (nd - used)
    if used > nd:
        raise PyExc('IndexError', 'too many indices')
    return idx


def canon_idx(i):
    if isinstance(i, slice):
        return SliceV(i.start, i.stop, i.step)
    if isinstance(i, list):
        return as_arr(i)
    if isinstance(i, SymSeq):
        return as_arr(i)
    if isinstance(i, Arr) and i.ndim == 0:
        return wrap(i.get(()))
    return i


def basic_view(a, idx):
    """view of Arr for int/slice/None indices"""
    fa = a.fullaxes()
    # map view-axis of a -> new spec
    new_shape = []
    trans = {}
    ax = 0
    for i in idx:
        if i is None:
            new_shape.append(1)
        elif isinstance(i, SliceV):
            st, n, sp = slice_bounds((i.a, i.b, i.c), a.shape[ax])
            trans[ax] = ('a', len(new_shape), st, sp)
            new_shape.append(n)
            ax += 1
        else:
            trans[ax] = ('f', norm_index(i, a.shape[ax]))
            ax += 1
    axes = []
    for s in fa:
        if s[0] == 'f':
            axes.append(s)
        else:
            _, v, st, sp = s
            t = trans[v]
            if t[0] == 'f':
                axes.append(('f', dsimp(r_add(st, r_mul(sp, t[1])))))
            else:
                axes.append(('a', t[1], dsimp(r_add(st, r_mul(sp, t[2]))), dsimp(r_mul(sp, t[3]))))
    return Arr.view(a.buf, new_shape, axes)


NZ = NZE = ()        # set by npm


def nz_mask(idx):
    if NZ and isinstance(idx, NZ):
        return idx.cond
    if NZE and isinstance(idx, NZE):
        if idx.cond.ndim != 1:
            raise Unsupported('one axis of np.where')
        return idx.cond
    return idx


def special_nan(v):
    """np.nan used as a value of an array"""
    if type(v).__name__ == 'Special' and v.name == 'nan':
        NAN_USED[0] = True
        return wrap(NANC)
    return v


def getitem(a, idx):
    idx = nz_mask(idx)
    if isinstance(idx, tuple):
        idx = tuple(canon_idx(i) for i in idx)
    else:
        idx = canon_idx(idx)
    if a.sel is not None:
        return sel_getitem(a, idx)
    ix = _expand(idx, a.ndim)
    if all(i is None or isinstance(i, SliceV) or is_scalar(i) and not isinstance(i, bool) for i in ix):
        v = basic_view(a, ix)
        if v.ndim == 0:
            return wrap(v.get(())) if a.kind != 'O' else v.get(())
        v.unit = a.unit
        return v
    return fancy(a, ix)


def sel_getitem(a, idx):
    s = a.sel
    if isinstance(idx, Arr) and idx.kind == 'b':
        if idx.sel is None or idx.sel.mkey != s.mkey:
            raise Unsupported('selection indexed by foreign mask')
        m2 = idx.sel.val
        nm = lambda k: r_and(s.mask(k), m2(k))
        return mk_sel(s.val, nm, s.shape, ('and', s.mkey, mask_key(m2, s.shape)), a.kind)
    raise Unsupported('indexing into a selection')


class Rows:
    """a[mask] for a mask over the first axis of an array with two axes: its columns are selections"""
    def __init__(self, a, m):
        self.a, self.m = Arr(a.shape, a.frozen(), a.kind), Arr(m.shape, m.frozen(), 'b')

    def getitem_model(self, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and isinstance(ix[0], SliceV) and ix[0].a is None and ix[0].b is None and ix[0].c is None:
            c = getitem(self.a, ix)
            return Rows(c, self.m) if c.ndim == 2 else getitem(c, self.m)
        raise Unsupported('indexing into selected rows')

    def attr_model(self, w, n):
        if n == 'astype':
            from . import npm
            return lambda d, *r, **k: Rows(npm.asarray(self.a, dtype=d), self.m)
        if n == 'ndim':
            return 2
        raise Unsupported('selected rows: ' + n)


def mask_key(m, shape):
    ks = [z3.Int('mk!%d' % i) for i in range(len(shape))]
    e = z(truth(m(tuple(ks))))
    return (z3.simplify(e).sexpr(),)


def fancy(a, ix):
    # single boolean mask covering all axes
    arrs = [(p, i) for p, i in enumerate(ix) if isinstance(i, Arr)]
    if len(arrs) == 1 and arrs[0][1].kind == 'b':
        m = arrs[0][1]
        if m.ndim == a.ndim and len(ix) == 1:
            for p, q in zip(m.shape, a.shape):
                if not dim_same(p, q):
                    raise PyExc('IndexError', 'mask shape')
            if all_int(a.shape) and a.ndim == 1:
                mf = [m.get((i,)) for i in range(a.shape[0])]
                if all(isinstance(x, bool) for x in mf):
                    keep = [i for i, x in enumerate(mf) if x]
                    return Arr((len(keep),), table_fn({(j,): a.get((i,)) for j, i in enumerate(keep)}, (len(keep),)), a.kind)
            fa, fm = a.frozen(), m.frozen()
            return mk_sel(fa, lambda k: truth(fm(k)), a.shape, mask_key(fm, a.shape), a.kind)
        if m.ndim == 1:
            p = arrs[0][0]
            n = m.shape[0]
            full = [i for q, i in enumerate(ix) if q != p]
            if is_z3(n) and a.ndim == 2 and p == 0 and all(isinstance(i, SliceV) and i.a is None and i.b is None and i.c is None for i in full):
                if not dim_same(n, a.shape[0]):
                    raise PyExc('IndexError', 'mask shape')
                return Rows(a, m)
            if isinstance(n, int):
                mf = [m.get((i,)) for i in range(n)]
                keep = []
                for i, x in enumerate(mf):
                    if x if isinstance(x, bool) else CTX.decide(x):
                        keep.append(i)
                ix[p] = list_to_arr(keep) if keep else Arr((0,), table_fn({}, (0,)), 'i')
                return fancy(a, ix)
        raise Unsupported('boolean mask on part of the axes')
    if any(i.kind == 'b' for _, i in arrs):
        raise Unsupported('mixed boolean index')
    for _, i in arrs:
        if i.kind != 'i':
            raise PyExc('IndexError', 'arrays used as indices must be of integer type')
        if i.sel is not None:
            raise Unsupported('index by selection')
    # integer gather; scalars join as arrays
    pos = [p for p, i in enumerate(ix) if isinstance(i, Arr)]
    adv = [p for p, i in enumerate(ix) if isinstance(i, Arr) or (i is not None and not isinstance(i, SliceV))]
    contiguous = adv == list(range(adv[0], adv[-1] + 1)) and not any(ix[p] is None for p in adv)
    ish = bcast_shapes(*[ix[p].shape for p in pos])
    new_shape, plan = [], []
    ax = 0
    inserted = False
    if not contiguous:
        new_shape += list(ish)
        ioff = 0
        inserted = True
    for p, i in enumerate(ix):
        if i is None:
            new_shape.append(1)
        elif isinstance(i, SliceV):
            st, n, sp = slice_bounds((i.a, i.b, i.c), a.shape[ax])
            plan.append(('s', len(new_shape), st, sp))
            new_shape.append(n)
            ax += 1
        elif isinstance(i, Arr):
            if not inserted:
                ioff = len(new_shape)
                new_shape += list(ish)
                inserted = True
            plan.append(('g', i.frozen(), i.shape, a.shape[ax], i))
            ax += 1
        else:
            plan.append(('f', norm_index(i, a.shape[ax])))
            ax += 1
    fa = a.frozen()
    for q in plan:
        if q[0] == 'g':
            check_gather(q)
    nI = len(ish)

    def f(idx):
        out = []
        for q in plan:
            if q[0] == 's':
                out.append(simp(r_add(q[2], r_mul(q[3], idx[q[1]]))))
            elif q[0] == 'f':
                out.append(q[1])
            else:
                gi = idx[ioff:ioff + nI]
                sh = q[2]
                off = nI - len(sh)
                sub = tuple(0 if (isinstance(d, int) and d == 1) else gi[off + k] for k, d in enumerate(sh))
                v = q[1](sub)
                d = q[3]
                if isinstance(v, int) and isinstance(d, int):
                    if not -d <= v < d:
                        raise PyExc('IndexError', 'gather')
                    v = v % d if d else v
                elif not permuted(v, d) and not CTX.entails(z(v) >= 0):
                    v = r_ite(r_cmp('<', v, 0), r_add(v, d), v)
                out.append(v)
        return fa(tuple(out))
    return Arr(new_shape, f, a.kind)


def permuted(v, d):
    """an entry of a permutation of range(d) as argsort gives it"""
    if not is_z3(v) or v.decl().kind() != z3.Z3_OP_TO_INT:
        return False
    a = v.arg(0)
    return a.decl().name().startswith('Argsort') and a.num_args() == 3 and z3.eq(a.arg(1), z(d))


def check_gather(q):
    """bounds of a gather: concrete ones are checked at evaluation; symbolic ones raise IndexError when feasible"""
    _, f, sh, d, arr = q
    if all_int(sh) and prod(sh) <= 64:
        for ix in itertools.product(*[range(n) for n in sh]):
            v = f(ix)
            norm_index(wrap(v), d)
        return
    ks = tuple(fresh('g', I) for _ in sh)
    rng = r_and(*[r_and(r_cmp('<=', 0, k), r_cmp('<', k, n)) for k, n in zip(ks, sh)])
    v = f(ks)
    bad = r_and(rng, r_or(r_cmp('<', v, r_neg(d)), r_cmp('>=', v, d)))
    if not (bad is False) and CTX.feasible(z(bad)):
        CTX.notes.append('gather bounds not proved')


def setitem(a, idx, val):
    idx, val = nz_mask(idx), special_nan(val)
    if isinstance(idx, tuple):
        idx = tuple(canon_idx(i) for i in idx)
    else:
        idx = canon_idx(idx)
    if a.snap:
        raise Unsupported('write through a reshaped view')
    if a.sel is not None:
        if isinstance(idx, Arr) and idx.kind == 'b' and idx.sel is not None and idx.sel.mkey == a.sel.mkey and (is_scalar(val)):
            s, m = a.sel, idx.sel.val
            r = raw(val)
            k = a.kind
            olds = a.sel

            def undo():
                a.sel = olds
            log_undo(undo)
            a.sel = Sel(lambda ix: r_ite(m(ix), cast(k, r), olds.val(ix)), s.mask, s.shape, s.mkey)
            return
        raise Unsupported('assignment into a selection')
    ix = _expand(idx, a.ndim)
    arrs = [i for i in ix if isinstance(i, Arr)]
    if not arrs:
        v = basic_view(a, ix)
        assign_view(v, val)
        return
    if len(arrs) == 1 and len(ix) == 1 and arrs[0].kind == 'b' and arrs[0].ndim == a.ndim:
        m = arrs[0]
        fm = m.frozen()
        fa = a.frozen()
        if isinstance(val, Arr) and val.sel is not None:
            if val.sel.mkey != mask_key(fm, a.shape):
                raise Unsupported('masked store with a different selection')
            sv = val.sel.val
            k = a.kind
            new = lambda idx: r_ite(fm(idx), cast(k, sv(idx)), fa(idx))
        elif is_scalar(val):
            r = cast(a.kind, raw(val))
            new = lambda idx: r_ite(fm(idx), r, fa(idx))
        else:
            raise Unsupported('masked store of an array')
        assign_view(a, Arr(a.shape, new, a.kind))
        return
    if len(arrs) == 1 and arrs[0].kind == 'b' and arrs[0].ndim == 1:
        p = [k for k, i in enumerate(ix) if isinstance(i, Arr)][0]
        if all(isinstance(i, SliceV) and i.a is None and i.b is None and i.c is None for k, i in enumerate(ix) if k != p) and is_scalar(val):
            fm, fa, r = arrs[0].frozen(), a.frozen(), cast(a.kind, raw(val))
            assign_view(a, Arr(a.shape, lambda idx: r_ite(fm((idx[p],)), r, fa(idx)), a.kind))
            return
    # integer arrays of concrete size: sequential stores
    if all(i.kind == 'i' for i in arrs):
        ish = bcast_shapes(*[i.shape for i in arrs])
        if all_int(ish) and prod(ish) <= 256:
            if any(isinstance(i, SliceV) or i is None for i in ix) and not is_scalar(val):
                if len(arrs) == 1 and len(ish) == 1 and isinstance(ix[0], Arr):
                    va = as_arr(val)
                    for t in range(ish[0]):
                        sub = getitem(va, t) if va.ndim == a.ndim else va
                        setitem(a, (wrap(arrs[0].get((t,))),) + tuple(slice(i.a, i.b, i.c) for i in ix[1:]), sub)
                    return
                raise Unsupported('fancy store of an array')
            va = None if is_scalar(val) else as_arr(val)
            if va is not None:
                va = Arr(va.shape, va.frozen(), va.kind)
            for t in itertools.product(*[range(d) for d in ish]):
                cur = []
                for i in ix:
                    if isinstance(i, Arr):
                        off = len(ish) - i.ndim
                        cur.append(wrap(i.get(tuple(0 if i.shape[k] == 1 else t[off + k] for k in range(i.ndim)))))
                    else:
                        cur.append(i)
                x = val
                if va is not None:
                    off = len(ish) - va.ndim
                    x = wrap(va.get(tuple(0 if va.shape[k] == 1 else t[off + k] for k in range(va.ndim))))
                assign_view(basic_view(a, cur), x)
            return
    raise Unsupported('fancy store')


def assign_view(v, val):
    buf = v.buf
    k = buf.kind
    if isinstance(val, Arr) and val.sel is not None:
        raise Unsupported('store of a selection')
    va = as_arr(val)
    if va.ndim > v.ndim:
        # leading ones allowed
        while va.ndim > v.ndim and isinstance(va.shape[0], int) and va.shape[0] == 1:
            va = getitem(va, 0)
            if not isinstance(va, Arr):
                va = as_arr(va)
        if va.ndim > v.ndim:
            raise PyExc('ValueError', 'could not broadcast input array')
    off = v.ndim - va.ndim
    ones = []
    for j, d in enumerate(va.shape):
        t = v.shape[off + j]
        if isinstance(d, int) and d == 1:
            ones.append(True)
            continue
        u = dim_unify(d, t)
        if isinstance(t, int) and t == 1 and not (isinstance(u, int) and u == 1):
            raise PyExc('ValueError', 'could not broadcast input array')
        ones.append(False)
    fv = va.frozen()
    oldf = buf.f
    ob = Buf(buf.shape, oldf, buf.kind)
    ob.cache = buf.cache
    axes = v.fullaxes()
    if k == 'S' or k == 'O':
        kk = 'O'
    else:
        kk = k
    if k in 'bif' and va.kind == 'c':
        CTX.notes.append('complex value stored into real array (imaginary part dropped)')

    def new(j):
        conds = []
        vidx = [0] * v.ndim
        for pos, s in enumerate(axes):
            if s[0] == 'f':
                conds.append(r_cmp('==', j[pos], s[1]))
            else:
                _, ax, st, sp = s
                d = v.shape[ax]
                sy = is_z3(sp)
                full = not sy and isinstance(st, int) and st == 0 and sp == 1 and (d is buf.shape[pos] or (isinstance(d, int) and d == buf.shape[pos]) or (is_z3(d) and is_z3(buf.shape[pos]) and z3.eq(d, buf.shape[pos])))
                if full:
                    vidx[ax] = j[pos]
                    continue
                if not sy and sp == 1:
                    q = simp(r_sub(j[pos], st))
                elif not sy and sp == -1:
                    q = simp(r_sub(st, j[pos]))
                elif sy:
                    df = r_sub(j[pos], st)
                    conds.append(r_cmp('<=', 0, df))
                    conds.append(r_cmp('==', r_mod(df, sp), 0))
                    q = r_fdiv(df, sp)
                else:
                    df = r_sub(j[pos], st) if sp > 0 else r_sub(st, j[pos])
                    m = abs(sp)
                    conds.append(r_cmp('==', r_mod(df, m), 0))
                    q = r_fdiv(df, m)
                if isinstance(q, int) and isinstance(d, int):
                    conds.append(0 <= q < d)
                else:
                    conds.append(r_cmp('<=', 0, q))
                    conds.append(r_cmp('<', q, d))
                vidx[ax] = q
        c = r_and(*conds)
        if c is False:
            return ob.get(j)
        val_ = cast(kk, fv(tuple(0 if o else vidx[off + t] for t, o in enumerate(ones))))
        if c is True:
            return val_
        return r_ite(c, val_, ob.get(j))
    buf.set(new, (axes, v.shape))
