"""Symbolic scalars and their canonical form.

Terms are z3 expressions over mathematical integers and reals.  `canon` maps a
term to a polynomial (dict: monomial -> rational) over atoms.  Sums over
symbolic ranges and declared-linear array operators (FFT, convolution ...) are
distributed over monomials and identified up to renaming of bound variables.
Every cancellation x*x**-1 logs the side condition x != 0, which the prover
must discharge separately.
"""
import sys, itertools
from fractions import Fraction
import z3

I, RL, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """The construct is outside the verified subset (undecided, not a violation)."""


# --------------------------------------------------------------- z3 helpers
_opcache = {}


def fn(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _opcache:
        _opcache[k] = z3.Function(name, *sorts)
    return _opcache[k]


_fresh = itertools.count()


def fresh(prefix, sort):
    return z3.Const('%s!%d' % (prefix, next(_fresh)), sort)


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def to_frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float literal')
        return Fraction(repr(x))
    raise Unsupported('not numeric: %r' % (x,))


def z(x):
    """Any real-or-int or bool scalar as a z3 expression."""
    if is_z3(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, (float, Fraction)):
        f = to_frac(x)
        return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator)) if f.denominator != 1 else z3.RealVal(str(f.numerator))
    raise Unsupported('no scalar term for %r' % (type(x),))


def zr(x):
    e = num(x)
    e = z(e)
    return z3.ToReal(e) if e.sort() == I else e


def zb(x):
    e = z(x)
    if e.sort() == B:
        return e
    return e != 0


def num(x):
    """bool -> 0/1"""
    if isinstance(x, bool):
        return int(x)
    if is_z3(x) and x.sort() == B:
        if z3.is_true(x):
            return 1
        if z3.is_false(x):
            return 0
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


PI = z3.Real('pi')

# array operators: name -> (linear?, number-of-binders known from the lambda)
LINEAR_OPS = set()
SUM = 'Sum'


def op_app(name, binders, body, dims, outs=(), out_sort=RL):
    """op(lambda binders. body, dims..., outs...)"""
    body = z3.simplify(body) if False else body
    lam = z3.Lambda(list(binders), body)
    args = [lam] + [z(d) for d in dims] + [z(o) for o in outs]
    f = fn('%s/%d/%d' % (name, len(binders), len(outs)), *([a.sort() for a in args] + [out_sort]))
    return f(*args)


def sum_term(f, dims):
    """Sum_{0<=k_i<dims_i} f(k)."""
    dims = [d for d in dims]
    if all(isinstance(d, int) for d in dims):
        n = 1
        for d in dims:
            n *= d
        if n <= 64:
            tot = 0
            for ix in itertools.product(*[range(d) for d in dims]):
                tot = tot + zr(f(*ix))
            return tot
    ks = [fresh('k', I) for _ in dims]
    body = zr(f(*ks))
    return op_app(SUM, ks, body, dims)


# --------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'key', 'expr', 'binders', 'kind', 'data', 'height')


ATOMS = []            # id -> Atom
BYKEY = {}
BINDERS = {}          # binder name -> (const, dim expr)
MAXATOMS = 400000


def mk_atom(key, expr, binders, kind='t', data=None, height=0):
    a = BYKEY.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    if a.id > MAXATOMS:
        raise Unsupported('normaliser: too many atoms')
    a.key, a.expr, a.binders, a.kind, a.data, a.height = key, expr, frozenset(binders), kind, data, height
    ATOMS.append(a)
    BYKEY[key] = a
    return a


def akey(a):
    """key usable inside a parent key"""
    return a.key if a.binders else '@%d' % a.id


# --------------------------------------------------------------- polynomials
# mono: tuple of (atom id, power) sorted ; poly: dict mono -> Fraction
ONE = ()
COND = []             # side conditions (z3 bool) accumulated by canon
MAXTERMS = 20000


def pconst(c):
    c = to_frac(c)
    return {ONE: c} if c else {}


def patom(a, p=1):
    return {((a.id, p),): Fraction(1)}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def mono_mul(m1, m2):
    """returns (mono) or ('sqrt', ...) expansions handled by caller"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, p in m2:
        if a in d:
            o = d[a]
            at = ATOMS[a]
            if at.kind == '[':
                d[a] = 1
                continue
            if (o > 0) != (p > 0):
                COND.append(('nz', a))
            n = o + p
            if n:
                d[a] = n
            else:
                del d[a]
        else:
            d[a] = p
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > MAXTERMS * 4:
        raise Unsupported('normaliser: polynomial too large')
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            extra = None
            for a, k in m:
                if (k >= 2 or k <= -2) and (ATOMS[a].kind == 'sqrt' or (ATOMS[a].kind == 'root' and abs(k) >= ATOMS[a].data[1][ONE].denominator)):
                    extra = a
                    break
            if extra is not None:
                for mm, cc in _reduce_sqrt({m: c1 * c2}).items():
                    v = r.get(mm, 0) + cc
                    if v:
                        r[mm] = v
                    else:
                        r.pop(mm, None)
                continue
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > MAXTERMS:
        raise Unsupported('normaliser: polynomial too large')
    return r


def _reduce_sqrt(p):
    out = {}
    for m, c in p.items():
        for a, k in m:
            if ATOMS[a].kind == 'root' and abs(k) >= ATOMS[a].data[1][ONE].denominator:
                inner, fr = ATOMS[a].data[0], ATOMS[a].data[1][ONE]
                COND.append(('gt0e', pexpr(inner)))
                rest = tuple((b, j) for b, j in m if b != a)
                e, rem = divmod(abs(k), fr.denominator)
                base = inner if k > 0 else pinv(inner)
                q = pmul({rest: c}, ppow(base, e * fr.numerator))
                if rem:
                    q = pmul(q, patom(ATOMS[a], rem if k > 0 else -rem))
                out = padd(out, _reduce_sqrt(q))
                break
            if abs(k) >= 2 and ATOMS[a].kind == 'sqrt':
                inner = ATOMS[a].data
                if not evidently_nonneg(inner):
                    COND.append(('ge0', a))
                rest = tuple((b, j) for b, j in m if b != a)
                e, rem = divmod(abs(k), 2)
                q = {rest: c}
                base = inner if k > 0 else pinv(inner)
                for _ in range(e):
                    q = pmul(q, base)
                if rem:
                    q = pmul(q, patom(ATOMS[a], 1 if k > 0 else -1))
                out = padd(out, q)
                break
        else:
            out = padd(out, {m: c})
    return out


def evidently_nonneg(p):
    for m, c in p.items():
        if c < 0:
            return False
        for a, k in m:
            if k % 2 and ATOMS[a].kind not in ('[', 'sqrt', 'pos'):
                return False
    return True


def ppow(p, n):
    if n < 0:
        return ppow(pinv(p), -n)
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, p)
    return r


def pkey(p):
    return '+'.join(sorted('%s*%s' % (c, '.'.join(sorted('%s^%d' % (akey(ATOMS[a]), k) for a, k in m))) for m, c in p.items())) or '0'


def pbinders(p):
    s = set()
    for m in p:
        for a, _ in m:
            s |= ATOMS[a].binders
    return s


def pheight(p):
    h = 0
    for m in p:
        for a, _ in m:
            h = max(h, ATOMS[a].height)
    return h


def mono_expr(m):
    es = []
    den = []
    for a, k in m:
        e = ATOMS[a].expr
        (es if k > 0 else den).extend([e] * abs(k))
    r = None
    for e in es:
        r = e if r is None else r * e
    if r is None:
        r = z3.RealVal(1)
    for e in den:
        r = r / e
    return r


def pexpr(p):
    r = z3.RealVal(0)
    first = True
    for m, c in sorted(p.items()):
        t = mono_expr(m)
        if c != 1:
            t = z(Fraction(c)) * t if c.denominator != 1 else z3.RealVal(c.numerator) * t
        if t.sort() == I:
            t = z3.ToReal(t)
        r = t if first else r + t
        first = False
    return r


def factor(p):
    """p = lc * mono(cm) * q with q monic and primitive"""
    monos = list(p)
    common = dict(monos[0])
    for m in monos[1:]:
        d = dict(m)
        for a in list(common):
            if a not in d:
                if common[a] > 0:
                    del common[a]
                # negative: min(power, 0)
                continue
            common[a] = min(common[a], d[a])
    for m in monos:
        for a, k in m:
            if k < 0:
                common[a] = min(common.get(a, 0), k)
    common = {a: k for a, k in common.items() if ATOMS[a].kind != '[' and k}
    cm = tuple(sorted(common.items()))
    if cm:
        inv_cm = tuple(sorted((a, -k) for a, k in common.items()))
        n0 = len(COND)
        q = {}
        for m, c in p.items():
            q[mono_mul(m, inv_cm)] = c
    else:
        inv_cm = ONE
        q = p
    # monic
    lead = min(q, key=lambda m: (len(m), [(ATOMS[a].key, k) for a, k in m]))
    lc = q[lead]
    q = pscale(q, 1 / lc)
    return lc, cm, q


def pinv(p):
    if not p:
        raise Unsupported('division by constant zero')
    # common monomial content
    monos = list(p)
    if len(monos) == 1:
        m, c = monos[0], p[monos[0]]
        if all(ATOMS[a].kind != '[' for a, _ in m):
            out = {ONE: 1 / c}
            for a, k in m:
                at = ATOMS[a]
                if at.kind == 'inv':
                    f = ppow(at.data, k)
                    out = pmul(out, f)
                else:
                    out = pmul(out, {((a, -k),): Fraction(1)})
            return out
    lc, cm, q = factor(p)
    inv_cm = tuple((a, -k) for a, k in cm)
    if len(q) == 1 and list(q)[0] == ONE:
        return pmul(pconst(1 / lc), {inv_cm: Fraction(1)})
    at = mk_atom('inv{' + pkey(q) + '}', 1 / pexpr(q), pbinders(q), 'inv', q, pheight(q))
    return pmul({((at.id, 1),): 1 / lc}, {inv_cm: Fraction(1)})


def pclear(p):
    """Multiply out all top-level inv atoms (log nonzero conditions)."""
    for _ in range(50):
        mx = {}
        for m in p:
            for a, k in m:
                if ATOMS[a].kind == 'inv':
                    mx[a] = max(mx.get(a, 0), k)
        if not mx:
            return p
        a = min(mx)
        top = mx[a]
        q = ATOMS[a].data
        COND.append(('nzp', a))
        out = {}
        for m, c in p.items():
            d = dict(m)
            k = d.pop(a, 0)
            rest = tuple(sorted(d.items()))
            out = padd(out, pmul({rest: c}, ppow(q, top - k)))
        p = out
    raise Unsupported('normaliser: too many denominators')


# --------------------------------------------------------------- canon
_cache = {}
_keep = []
NAMED = {}


def canon(e):
    if not is_z3(e):
        return pconst(e)
    i = e.get_id()
    hit = _cache.get(i)
    if hit is not None:
        p, conds = hit
        COND.extend(conds)
        return p
    n0 = len(COND)
    p = _canon(e)
    _cache[i] = (p, COND[n0:])
    _keep.append(e)
    return p


def _name(d):
    return d.name()


K = z3


def _canon(e):
    d = e.decl()
    k = d.kind()
    ch = e.children()
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return pconst(Fraction(str(e.as_fraction()) if z3.is_rational_value(e) else e.as_long()))
    if e.sort() == B:
        return ccond(e)
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = padd(r, canon(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = canon(ch[0])
        for c in ch[1:]:
            r = padd(r, canon(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return pscale(canon(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = canon(ch[0])
        for c in ch[1:]:
            r = pmul(r, canon(c))
        return r
    if k == z3.Z3_OP_DIV:
        return pmul(canon(ch[0]), pinv(canon(ch[1])))
    if k == z3.Z3_OP_TO_REAL:
        return canon(ch[0])
    if k == z3.Z3_OP_ITE:
        c = canon_bool(ch[0])
        if c == pconst(1):
            return canon(ch[1])
        if not c:
            return canon(ch[2])
        a, b = canon(ch[1]), canon(ch[2])
        return padd(pmul(c, padd(a, b, -1)), b)
    if k == z3.Z3_OP_UNINTERPRETED:
        nm = d.name()
        if not ch:
            if nm in BINDERS:
                return patom(mk_atom(nm, e, [nm]))
            return patom(mk_atom(('w:' if e.sort() == I else 'v:') + nm, e, []))
        if ch and z3.is_quantifier(ch[0]) and ch[0].is_lambda():
            return canon_op(e, nm, ch)
        if nm == 'sqrt':
            return canon_sqrt(ch[0])
        if nm == 'powr':
            return canon_powr(e, ch[0], ch[1])
        if nm == 'exp':
            return canon_exp(ch[0])
        ks, bs, h = [], set(), 0
        for c in ch:
            p = canon(c)
            ks.append(pkey(p))
            bs |= pbinders(p)
            h = max(h, pheight(p))
        return patom(mk_atom('%s(%s)' % (nm + '~' if e.sort() == I else nm, ','.join(ks)), e, bs, 'pos' if nm in POSFN else 't', None, h))
    # other interpreted operators (div, mod, to_int, abs ...)
    ks, bs, h = [], set(), 0
    ps = [canon(c) for c in ch]
    for p in ps:
        ks.append(pkey(p))
        bs |= pbinders(p)
        h = max(h, pheight(p))
    if k == z3.Z3_OP_TO_INT and ch[0].decl().kind() == z3.Z3_OP_TO_REAL:
        return canon(ch[0].arg(0))
    if k == z3.Z3_OP_TO_INT and len(ps[0]) <= 1 and all(m == ONE for m in ps[0]):
        import math
        return pconst(math.floor(ps[0].get(ONE, 0)))
    if k == z3.Z3_OP_TO_INT and whole(ps[0]):
        return ps[0]
    if k == z3.Z3_OP_MOD:
        return canon_mod(e, ps[0], ps[1])
    return patom(mk_atom('%s(%s)' % (d.name(), ','.join(ks)), e, bs, 't', None, h))


def canon_mod(e, p, d):
    """p mod d: inner remainders by the same d and whole multiples of d drop out"""
    dk = pkey(d)
    q, hit = p, False
    for _ in range(20):
        for m, c in q.items():
            if c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'mod' and pkey(ATOMS[m[0][0]].data[1]) == dk:
                q = padd(padd(q, {m: -c}), pscale(ATOMS[m[0][0]].data[0], c))
                hit = True
                break
        else:
            break
    if len(d) == 1 and ONE not in d and d[next(iter(d))] == 1 and next(iter(d)) in q and q[next(iter(d))].denominator == 1:
        q = {m: c for m, c in q.items() if m != next(iter(d))}
        hit = True
    if hit:
        if not whole(q):
            q = p
        else:
            COND.append(('gt0e', pexpr(d)))
            x, y = pexpr(q), pexpr(d)
            if not q:
                return {}
            e = (x if x.sort() == I else z3.ToInt(x)) % (y if y.sort() == I else z3.ToInt(y))
    return patom(mk_atom('mod(%s,%s)' % (pkey(q), dk), e, pbinders(q) | pbinders(d), 'mod', (q, d), max(pheight(q), pheight(d))))


def mod_terms(e):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app_of(x, z3.Z3_OP_MOD):
            out.append(x)
        st.extend(x.children())
    return out


def occurs(x, e):
    seen, st = set(), [e]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(x):
            return True
        if z3.is_quantifier(y):
            st.append(y.body())
        else:
            st.extend(y.children())
    return False


def shift_binder(ks, dps, dep):
    """a binder k over 0..d-1 that occurs only inside (+-k + c) mod d runs over the same values as that term"""
    if not any('mod(' in str(ATOMS[a].key) for a, _ in dep):
        return None
    body = mono_expr(tuple(dep))
    for t in mod_terms(body):
        d = canon(t.arg(1))
        x = canon(t.arg(0))
        for i, k in enumerate(ks):
            if pkey(dps[i]) != pkey(d):
                continue
            n = k.decl().name()
            ka = BYKEY.get(n)
            if ka is None:
                continue
            mk = ((ka.id, 1),)
            co = x.get(mk)
            if co not in (1, -1) or not whole(x) or any(n in ATOMS[a].binders for m in x if m != mk for a, _ in m):
                continue
            if any(pbinders(d) & {q.decl().name()} for q in ks):
                continue
            f = fresh('t', I)
            b2 = z3.substitute(body, (t, f))
            if occurs(k, b2):
                continue
            return z3.substitute(b2, (f, k))
    return None


def whole(p):
    """every value of the polynomial is an integer"""
    return all(c.denominator == 1 and whole_mono(m) for m, c in p.items())


def whole_mono(m):
    for a, k in m:
        at = ATOMS[a]
        if k < 0:
            return False
        if at.kind == '[' or (at.expr is not None and at.expr.sort() == I):
            continue
        if at.kind == 'sum' and whole_mono(at.data[2]):
            continue
        return False
    return True


POSFN = {'exp'}


ROOTS = [False]


def root_split(p, q):
    """p^q (q rational) for a monomial p with positive factors: the product of the powers of its factors"""
    if len(p) == 1:
        (m, c), = p.items()
        prim = None
    else:
        c, m, prim = factor(p)
    if c <= 0:
        return None
    bases = {}

    def put(key, poly, ex):
        o = bases.get(key, (poly, Fraction(0)))
        bases[key] = (poly, o[1] + ex)
    for a, k in m:
        at = ATOMS[a]
        if at.kind == 'sqrt':
            put(pkey(at.data), at.data, Fraction(k, 2))
        elif at.kind == 'inv':
            put(pkey(at.data), at.data, Fraction(-k))
        elif at.kind == '[':
            return None
        elif (at.kind == 'root' or at.key.startswith('powr(')) and set(at.data[1]) == {ONE} and len(at.data[0]) == 1:
            put(pkey(at.data[0]), at.data[0], k * at.data[1][ONE])
        else:
            pa = patom(at)
            put(pkey(pa), pa, Fraction(k))
    if prim is not None:
        put(pkey(prim), prim, Fraction(1))
    if c != 1:
        put(pkey({ONE: c}), {ONE: c}, Fraction(1))
    out = pconst(1)
    for key, (poly, ex) in bases.items():
        ex = ex * q
        if ex == 0:
            continue
        if not (set(poly) == {ONE}):
            COND.append(('gt0e', pexpr(poly)))
        n = ex.numerator // ex.denominator
        fr = ex - n
        if n:
            out = pmul(out, ppow(poly, n))
        if fr == Fraction(1, 2):
            out = pmul(out, root_atom(poly))
        elif fr:
            out = pmul(out, patom(mk_atom('root(%s,%s)' % (pkey(poly), pkey({ONE: fr})), fn('powr', RL, RL, RL)(zr(pexpr(poly)), zr(fr)),
                                          pbinders(poly), 'root', (poly, {ONE: fr}), pheight(poly))))
    return out


def root_atom(p):
    if list(p) == [ONE] and p[ONE] > 0:
        import math
        c = p[ONE]
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return pconst(Fraction(a, b))
    return patom(mk_atom('sqrt(%s)' % pkey(p), fn('sqrt', RL, RL)(zr(pexpr(p))), pbinders(p), 'sqrt', p, pheight(p)))


def canon_sqrt(x):
    p = canon(x)
    if len(p) == 0:
        return {}
    if ROOTS[0]:
        r = root_split(p, Fraction(1, 2))
        if r is not None:
            return r
    if list(p) == [ONE]:
        c = p[ONE]
        if c > 0:
            import math
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return pconst(Fraction(a, b))
    at = mk_atom('sqrt(%s)' % pkey(p), fn('sqrt', RL, RL)(zr(pexpr(p))), pbinders(p), 'sqrt', p, pheight(p))
    return patom(at)


def canon_exp(x):
    p = canon(x)
    if not p:
        return pconst(1)
    at = mk_atom('exp(%s)' % pkey(p), fn('exp', RL, RL)(zr(pexpr(p))), pbinders(p), 'pos', p, pheight(p))
    return patom(at)


def canon_powr(e, b, x):
    p, q = canon(b), canon(x)
    if set(q) <= {ONE}:
        c = q.get(ONE, Fraction(0))
        if c.denominator == 1:
            return ppow(p, int(c))
        if ROOTS[0]:
            r = root_split(p, c)
            if r is not None:
                return r
    at = mk_atom('powr(%s,%s)' % (pkey(p), pkey(q)), fn('powr', RL, RL, RL)(zr(pexpr(p)), zr(pexpr(q))),
                 pbinders(p) | pbinders(q), 't', (p, q), max(pheight(p), pheight(q)))
    return patom(at)


# conditions
def canon_bool(e):
    i = e.get_id()
    hit = _cache.get(('b', i))
    if hit is not None:
        COND.extend(hit[1])
        return hit[0]
    n0 = len(COND)
    p = ccond(e)
    _cache[('b', i)] = (p, COND[n0:])
    _keep.append(e)
    return p


def iverson_atom(key, expr, bs, h):
    return mk_atom('[' + key + ']', z3.If(expr, z3.RealVal(1), z3.RealVal(0)), bs, '[', expr, h)


def ccond(e):
    if z3.is_true(e):
        return pconst(1)
    if z3.is_false(e):
        return {}
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_NOT:
        return padd(pconst(1), canon_bool(ch[0]), -1)
    if k == z3.Z3_OP_AND:
        r = pconst(1)
        for c in ch:
            r = pmul(r, canon_bool(c))
        return r
    if k == z3.Z3_OP_OR:
        r = pconst(1)
        for c in ch:
            r = pmul(r, padd(pconst(1), canon_bool(c), -1))
        return padd(pconst(1), r, -1)
    if k == z3.Z3_OP_IMPLIES:
        a, b = canon_bool(ch[0]), canon_bool(ch[1])
        return padd(pconst(1), pmul(a, padd(pconst(1), b, -1)), -1)
    if k == z3.Z3_OP_ITE:
        c, a, b = map(canon_bool, ch)
        return padd(pmul(c, padd(a, b, -1)), b)
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and ch[0].sort() == B:
        a, b = canon_bool(ch[0]), canon_bool(ch[1])
        # a==b : ab+(1-a)(1-b)
        r = padd(pmul(a, b), pmul(padd(pconst(1), a, -1), padd(pconst(1), b, -1)))
        return r if k == z3.Z3_OP_EQ else padd(pconst(1), r, -1)
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
        isint = ch[0].sort() == I and ch[1].sort() == I
        n0 = len(COND)
        d = padd(canon(ch[0]), canon(ch[1]), -1)
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_DISTINCT:
            r = c_eq(d, isint)
            return r if k == z3.Z3_OP_EQ else padd(pconst(1), r, -1)
        if k == z3.Z3_OP_GE:
            return c_le(pscale(d, -1), isint)
        if k == z3.Z3_OP_LE:
            return c_le(d, isint)
        if k == z3.Z3_OP_GT:
            return padd(pconst(1), c_le(d, isint), -1)
        return padd(pconst(1), c_le(pscale(d, -1), isint), -1)
    if k == z3.Z3_OP_UNINTERPRETED:
        nm = e.decl().name()
        if ch and z3.is_quantifier(ch[0]) and ch[0].is_lambda():
            return canon_op(e, nm, ch, boolean=True)
        ks, bs, h = [], set(), 0
        for c in ch:
            p = canon(c)
            ks.append(pkey(p))
            bs |= pbinders(p)
            h = max(h, pheight(p))
        return patom(iverson_atom('%s(%s)' % (nm, ','.join(ks)), e, bs, h))
    raise Unsupported('condition %s' % e.decl().name())


def _lead(p):
    ms = [m for m in p if m != ONE]
    return min(ms, key=lambda m: [(akey(ATOMS[a]), k) for a, k in m])


def c_eq(d, isint):
    if not d:
        return pconst(1)
    if set(d) == {ONE}:
        return {}
    l = _lead(d)
    d = pscale(d, 1 / d[l])
    e = pexpr(d) == 0
    return patom(iverson_atom('eq ' + pkey(d), e, pbinders(d), pheight(d)))


def c_le(d, isint):
    """[d <= 0]"""
    if not d:
        return pconst(1)
    if set(d) == {ONE}:
        return pconst(1) if d[ONE] <= 0 else {}
    l = _lead(d)
    if isint and all(c.denominator == 1 for c in d.values()):
        if d[l] < 0:
            # d<=0  <=>  not (d>=1) <=> not (1-d<=0)
            return padd(pconst(1), c_le(padd(pconst(1), d, -1), True), -1)
        e = pexpr(d) <= 0
        return patom(iverson_atom('le ' + pkey(d), e, pbinders(d), pheight(d)))
    d = pscale(d, 1 / abs(d[l]))
    e = pexpr(d) <= 0
    return patom(iverson_atom('le ' + pkey(d), e, pbinders(d), pheight(d)))


# operators over lambdas
def bind(lam, dims=None):
    n = lam.num_vars()
    ks = []
    for i in range(n):
        k = fresh('b', lam.var_sort(i))
        BINDERS[k.decl().name()] = (k, dims[i] if dims else None)
        ks.append(k)
    body = z3.substitute_vars(lam.body(), *reversed(ks))
    return ks, body


import re


def _rename(key, names, h):
    for i, n in enumerate(names):
        key = key.replace(n + '#', '\0') if False else re.sub(re.escape(n) + r'(?!\d)', '#%d_%d' % (h, i), key)
    return key


def sum_atom(binders, dims, mono):
    """binders: list of consts, dims: polys, mono: all factors depend (connected)."""
    h = 1 + max([ATOMS[a].height for a, _ in mono] or [0])
    names = [b.decl().name() for b in binders]
    outer = set()
    for a, _ in mono:
        outer |= ATOMS[a].binders
    outer -= set(names)
    for d in dims:
        outer |= pbinders(d)
    best = None
    perms = itertools.permutations(range(len(names))) if len(names) <= 4 else [tuple(range(len(names)))]
    mk = pkey({mono: Fraction(1)})
    for pm in perms:
        ks = [pkey(dims[i]) for i in pm]
        key = 'S{' + ';'.join(ks) + '|' + _sorted_mono_key(mono, [names[i] for i in pm], h) + '}'
        if best is None or key < best[0]:
            best = (key, pm)
    key, pm = best
    body = mono_expr(mono)
    bs = [binders[i] for i in pm]
    ds = [dims[i] for i in pm]
    expr = op_app(SUM, bs, body, [z3.ToInt(pexpr(d)) if pexpr(d).sort() != I else pexpr(d) for d in ds])
    return mk_atom(key, expr, outer, 'sum', (bs, ds, mono), h)


def _sorted_mono_key(mono, names, h):
    # keys contain names; sort after renaming for alpha invariance
    parts = []
    for a, k in mono:
        parts.append('%s^%d' % (_rename(akey(ATOMS[a]), names, h), k))
    return '.'.join(sorted(parts))


def canon_op(e, nm, ch, boolean=False):
    lam = ch[0]
    base = nm.split('/')[0]
    r = lam.num_vars()
    dims, outs = ch[1:1 + r], ch[1 + r:]
    dps = [canon(d) for d in dims]
    ks, body = bind(lam, dims)
    names = {k.decl().name() for k in ks}
    P = canon(body) if body.sort() != B else canon_bool(body)
    if base == SUM:
        return canon_sum(ks, dps, P)
    ops = [canon(o) for o in outs]
    okey = ','.join(pkey(o) for o in ops)
    ob = set()
    for o in ops:
        ob |= pbinders(o)
    for d in dps:
        ob |= pbinders(d)
    oh = max([pheight(o) for o in ops] + [pheight(d) for d in dps] + [0])
    lst = [k.decl().name() for k in ks]
    if base in LINEAR_OPS:
        out = {}
        groups = {}
        for m, c in P.items():
            dep = tuple((a, k) for a, k in m if ATOMS[a].binders & names)
            ind = tuple((a, k) for a, k in m if not (ATOMS[a].binders & names))
            groups.setdefault(dep, {})
            groups[dep] = padd(groups[dep], {ind: c})
        for dep, coef in groups.items():
            h = 1 + max([ATOMS[a].height for a, _ in dep] + [oh])
            key = '%s{%s|%s|%s}' % (base, ';'.join(pkey(d) for d in dps), _sorted_mono_key(dep, lst, h), okey)
            bs = set(ob)
            for a, _ in dep:
                bs |= ATOMS[a].binders
            bs -= names
            mb = mono_expr(dep)
            mb = z3.ToReal(mb) if mb.sort() == z3.IntSort() else mb
            expr = e.decl()(*([z3.Lambda(ks, mb)] + list(dims) + list(outs))) if lam.body().sort() == RL else None
            at = mk_atom(key, expr, bs, 'lin', (base, ks, dps, dep, ops), h)
            out = padd(out, pmul(coef, patom(at)))
        return out
    h = 1 + max(pheight(P), oh)
    key = '%s{%s|%s|%s}' % (base, ';'.join(pkey(d) for d in dps), '+'.join(sorted('%s*%s' % (c, _sorted_mono_key(m, lst, h)) for m, c in P.items())), okey)
    bs = (pbinders(P) - names) | ob
    if boolean or e.sort() == B:
        return patom(iverson_atom(key, e, bs, h))
    at = mk_atom(key, e, bs, 'op', (base, ks, dps, P, ops), h)
    return patom(at)


def canon_sum(ks, dps, P):
    names = [k.decl().name() for k in ks]
    out = {}
    for m, c in P.items():
        out = padd(out, pscale(sum_mono(ks, names, dps, m), c))
    return out


def sum_mono(ks, names, dps, m):
    nameset = set(names)
    ind = tuple((a, k) for a, k in m if not (ATOMS[a].binders & nameset))
    dep = [(a, k) for a, k in m if ATOMS[a].binders & nameset]
    # flatten nested sums: a factor that is itself a sum atom of power 1
    for i, n in enumerate(names):
        if set(dps[i]) <= {ONE} and any(n in ATOMS[a].binders for a, _ in dep):
            q = dps[i].get(ONE, Fraction(0))
            if q.denominator == 1 and q <= 4:
                tot = {}
                k2, n2, d2 = ks[:i] + ks[i + 1:], names[:i] + names[i + 1:], dps[:i] + dps[i + 1:]
                for v in range(max(int(q), 0)):
                    body = canon(z3.substitute(mono_expr(tuple(dep)), (ks[i], z3.IntVal(v))))
                    for mm, cc in body.items():
                        tot = padd(tot, pscale(sum_mono(k2, n2, d2, mm) if k2 else {mm: Fraction(1)}, cc))
                return pmul({ind: Fraction(1)}, tot)
    changed = True
    while changed:
        changed = False
        for (a, k) in dep:
            at = ATOMS[a]
            if at.kind == 'sum' and k == 1:
                bs, ds, mono = at.data
                if any(pbinders(d) & nameset for d in ds):
                    continue
                nb = []
                body = mono_expr(mono)
                sub = []
                for b, d in zip(bs, ds):
                    f = fresh('b', I)
                    BINDERS[f.decl().name()] = (f, pexpr(d))
                    sub.append((b, f))
                    nb.append(f)
                q = canon(z3.substitute(body, *sub))
                rest = [x for x in dep if x != (a, k)]
                tot = {}
                for mm, cc in q.items():
                    full = mono_mul(tuple(sorted(rest)), mm)
                    tot = padd(tot, pscale(sum_mono(ks + nb, names + [b.decl().name() for b in nb], dps + ds, full), cc))
                return pmul({ind: Fraction(1)}, tot)
    # delta elimination  [eq(k - e)]
    for (a, k) in dep:
        at = ATOMS[a]
        if at.kind == '[' and at.key.startswith('[eq '):
            d = canon_eq_poly(at)
            for i, n in enumerate(names):
                if n not in at.binders:
                    continue
                ka = BYKEY.get(n)
                if ka is None:
                    continue
                mk = ((ka.id, 1),)
                co = d.get(mk)
                if co is None or co not in (1, -1):
                    continue
                rest = {mm: cc for mm, cc in d.items() if mm != mk}
                if any(n in ATOMS[x].binders for mm in rest for x, _ in mm):
                    continue
                sol = pscale(rest, -1 / co)      # k = sol
                se = pexpr(sol)
                si = se if se.sort() == I else z3.ToInt(se)
                restm = tuple(x for x in dep if x[0] != a)
                body = z3.substitute(mono_expr(restm), (ks[i], si))
                rng = pmul(c_le(pscale(sol, -1), True), c_le(padd(padd(sol, dps[i], -1), pconst(1)), True))
                q = pmul(canon(body), rng)
                k2 = [x for j, x in enumerate(ks) if j != i]
                n2 = [x for j, x in enumerate(names) if j != i]
                d2 = [x for j, x in enumerate(dps) if j != i]
                tot = {}
                for mm, cc in q.items():
                    tot = padd(tot, pscale(sum_mono(k2, n2, d2, mm) if k2 else {mm: Fraction(1)}, cc))
                return pmul({ind: Fraction(1)}, tot)
    if TRUNC[0]:
        q = truncate(ks, names, dps, dep)
        if q is not None:
            return pmul({ind: Fraction(1)}, q)
    sh = shift_binder(ks, dps, dep)
    if sh is not None:
        tot = {}
        for mm, cc in canon(sh).items():
            tot = padd(tot, pscale(sum_mono(ks, names, dps, mm), cc))
        return pmul({ind: Fraction(1)}, tot)
    res = {ind: Fraction(1)}
    # unused binders
    used = set()
    for a, _ in dep:
        used |= ATOMS[a].binders & nameset
    live = []
    for i, n in enumerate(names):
        if n not in used:
            res = pmul(res, dps[i])
        else:
            live.append(i)
    # connected components
    comp = {i: i for i in live}

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    idx = {names[i]: i for i in live}
    for a, _ in dep:
        bs = [idx[n] for n in ATOMS[a].binders & nameset]
        for b in bs[1:]:
            comp[find(b)] = find(bs[0])
    groups = {}
    for i in live:
        groups.setdefault(find(i), []).append(i)
    for root, members in groups.items():
        ns = {names[i] for i in members}
        mono = tuple(sorted((a, k) for a, k in dep if ATOMS[a].binders & ns))
        at = make_sum([ks[i] for i in members], [dps[i] for i in members], mono)
        res = pmul(res, at)
    return res


TRUNC = [False]
WEAK = [False]         # the last equality rests on cutting sums short: its side conditions may fail where the equality holds


def truncate(ks, names, dps, dep):
    """sum_{k<d} [k < h] f(k) = sum_{k<h} f(k) for 0 <= h <= d; likewise with t = (+-k + c) mod d in the place of k"""
    for a, p in dep:
        at = ATOMS[a]
        if at.kind != '[' or not at.key.startswith('[le '):
            continue
        d = canon(at.data.arg(0))
        if not whole(d):
            continue
        other = tuple(x for x in dep if x[0] != a)
        for m, co in d.items():
            if co not in (1, -1) or len(m) != 1 or m[0][1] != 1:
                continue
            ka = ATOMS[m[0][0]]
            rest = {mm: c for mm, c in d.items() if mm != m}
            if any(set(names) & ATOMS[x].binders for mm in rest for x, _ in mm):
                continue
            if ka.key in names:
                i, body = names.index(ka.key), mono_expr(other)
            elif ka.kind == 'mod':
                got = rebase(ks, dps, ka, mono_expr(other))
                if got is None:
                    continue
                i, body = got
            else:
                continue
            h = padd(pconst(1), rest, -1) if co == 1 else rest       # k < h, or k >= h
            COND.append(('ge0e', pexpr(h)))
            COND.append(('ge0e', pexpr(padd(dps[i], h, -1))))
            low = {}
            for mm, cc in canon(body).items():
                low = padd(low, pscale(sum_mono(ks, names, dps[:i] + [h] + dps[i + 1:], mm), cc))
            return low if co == 1 else padd(sum_mono(ks, names, dps, other), low, -1)
    return None


def rebase(ks, dps, at, body):
    """body(k) with k = +-(t - c) mod d for the atom t = (+-k + c) mod d, k over 0..d-1: (which binder, the body in terms of t, named k)"""
    x, d = at.data
    for i, k in enumerate(ks):
        n = k.decl().name()
        ka = BYKEY.get(n)
        if pkey(dps[i]) != pkey(d) or ka is None:
            continue
        mk = ((ka.id, 1),)
        co = x.get(mk)
        if co not in (1, -1) or not whole(x) or any(n in ATOMS[a].binders for m in x if m != mk for a, _ in m):
            continue
        if any(pbinders(d) & {q.decl().name()} for q in ks):
            continue
        ye = pexpr({m: v for m, v in x.items() if m != mk})
        ye = ye if ye.sort() == I else z3.ToInt(ye)
        de = pexpr(d)
        de = de if de.sort() == I else z3.ToInt(de)
        f = fresh('t', I)
        body = z3.substitute(body, *[(t, f) for t in mod_terms(body) if pkey(canon(t)) == pkey(patom(at))])
        body = z3.substitute(body, (k, (f - ye if co == 1 else ye - f) % de))
        return i, z3.substitute(body, (f, k))
    return None


def canon_eq_poly(at):
    e = at.data          # pexpr == 0
    return canon(e.arg(0))


def make_sum(bs, ds, mono):
    # peel a positive numeral offset of a single symbolic dimension: sum_{k<d+c}
    if len(bs) == 1:
        d = ds[0]
        c = d.get(ONE, Fraction(0))
        if set(d) == {ONE}:
            n = int(c)
            if 0 <= n <= 64:
                tot = {}
                body = mono_expr(mono)
                for i in range(n):
                    tot = padd(tot, canon(z3.substitute(body, (bs[0], z3.IntVal(i)))))
                return tot
        elif c.denominator == 1 and 0 < c <= 3:
            base = padd(d, pconst(c), -1)
            COND.append(('ge0e', pexpr(base)))
            body = mono_expr(mono)
            tot = make_sum(bs, [base], mono)
            be = pexpr(base)
            be = be if be.sort() == I else z3.ToInt(be)
            for i in range(int(c)):
                tot = padd(tot, canon(z3.substitute(body, (bs[0], be + i))))
            return tot
    return patom(sum_atom(bs, ds, mono))


def side_conditions(conds):
    out = []
    seen = set()
    for c in conds:
        tag, a = c
        if tag == 'nz':
            e = ATOMS[a].expr != 0
        elif tag == 'nzp':
            e = pexpr(ATOMS[a].data) != 0
        elif tag == 'ge0':
            e = pexpr(ATOMS[a].data) >= 0
        elif tag == 'gt0e':
            e = a > 0
        else:
            e = a >= 0
        k = e.sexpr()
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


def equal_canon(a, b):
    global _cache
    WEAK[0] = False
    ok, rest = _equal_canon(a, b)
    if not ok and not ROOTS[0] and (uses(a, ('powr', 'sqrt')) or uses(b, ('powr', 'sqrt'))):
        old = _cache
        _cache = {}
        ROOTS[0] = True
        try:
            ok2, rest2 = _equal_canon(a, b)
        except Unsupported:
            ok2, rest2 = False, None
        finally:
            ROOTS[0] = False
            _cache = old
        if ok2:
            return ok2, rest2
    if not ok and not TRUNC[0] and any(ATOMS[x].kind == '[' for m in rest for a, _ in m if ATOMS[a].kind == 'sum' for x, _ in ATOMS[a].data[2]):
        old = _cache
        _cache = {}
        TRUNC[0] = True
        try:
            ok2, rest2 = _equal_canon(a, b)
        except Unsupported:
            ok2, rest2 = False, None
        finally:
            TRUNC[0] = False
            _cache = old
        if ok2:
            WEAK[0] = True
            return ok2, rest2
    return ok, rest


def uses(e, names):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if not is_z3(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.num_args() and x.decl().name() in names:
            return True
        st.extend(x.children())
    return False


def _equal_canon(a, b):
    """(True, side conditions) when a-b normalises to zero, else (False, poly)."""
    n0 = len(COND)
    p = padd(canon(a), canon(b), -1)
    if p:
        p = pclear(p)
    conds = COND[n0:]
    del COND[n0:]
    if not p:
        return True, side_conditions(conds)
    return False, p


class FQ(Fraction):
    """exact rational handed to native contract code: float literals met in arithmetic are read as decimals"""


def _fq(name):
    base = getattr(Fraction, name)

    def op(self, *o):
        o = [to_frac(x) if isinstance(x, float) else x for x in o]
        r = base(self, *o)
        return FQ(r) if type(r) is Fraction else r
    return op


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__pow__', '__neg__', '__abs__'):
    setattr(FQ, _n, _fq(_n))
