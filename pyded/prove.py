"""Discharge of obligations: normal form equality, then z3 with instantiated lemmas."""
import itertools, time
import z3
from . import sym
from .sym import (Unsupported, canon, canon_bool, padd, pmul, pclear, pexpr, pconst, COND, side_conditions, fn, fresh, is_z3, z, zr, zb, ATOMS,
                  I, RL, B, PI, equal_canon, SUM, ONE)
from .vals import CTX, r_and, r_or, r_cmp, r_not, truth, simp, Cx, is_z3 as _isz

STATS = {'solver_s': 0.0, 'queries': 0, 'canon': 0, 'z3': 0}
TIMEOUT = 8000


class Result:
    def __init__(self, status, how='', model=None, detail=''):
        self.status, self.how, self.model, self.detail = status, how, model, detail


# ------------------------------------------------------------ purification
class Purify:
    """z3 term -> term over plain constants for sums/operators/functions; collects lemmas"""
    def __init__(self, depth=0):
        self.map = {}
        self.lem = []
        self.sums = {}
        self.quads = {}
        self.exts = {}
        self.depth = depth
        self.fapps = {}
        self.lemids = set()
        self.fids = {}

    def term(self, e):
        """arithmetical z3 expr -> expr with atoms replaced by constants"""
        e = z(e)
        if e.sort() == B:
            return self.boolean(e)
        n0 = len(COND)
        p = canon(e)
        p0 = p
        conds = COND[n0:]
        del COND[n0:]
        r = self.poly(p)
        return r

    def poly(self, p):
        tot = z3.RealVal(0)
        first = True
        for m, c in sorted(p.items()):
            t = None
            den = []
            for a, k in m:
                v = self.atom(a)
                if v.sort() == I:
                    v = z3.ToReal(v)
                for _ in range(abs(k)):
                    if k > 0:
                        t = v if t is None else t * v
                    else:
                        den.append(v)
            if t is None:
                t = z3.RealVal(1)
            if c != 1:
                t = z(c) * t if c.denominator == 1 else (z3.RealVal(str(c)) * t)
                if t.sort() == I:
                    t = z3.ToReal(t)
            for d in den:
                t = t / d
            tot = t if first else tot + t
            first = False
        return tot

    def atom(self, aid):
        if aid in self.map:
            return self.map[aid]
        a = ATOMS[aid]
        if a.kind == '[':
            b = self.boolean(a.data)
            r = z3.If(b, z3.RealVal(1), z3.RealVal(0))
        elif a.kind == 'inv':
            q = self.poly(a.data)
            r = 1 / q
        elif a.kind in ('sum', 'lin', 'op'):
            r = z3.Real('at!%d' % aid)
            self.map[aid] = r
            if a.kind == 'sum':
                self.sums[aid] = a
            elif a.data[0] == 'Quad':
                self.quads[aid] = a
            elif a.data[0] in ('Max', 'Min'):
                self.exts[aid] = a
        elif a.kind == 'sqrt':
            r = z3.Real('at!%d' % aid)
            self.map[aid] = r
            x = self.poly(a.data)
            self.lem.append(r >= 0)
            self.lem.append(z3.Implies(x >= 0, r * r == x))
            self.lem.append(z3.Implies(x > 0, r > 0))
        elif a.kind == 'pos' and a.key.startswith('exp('):
            r = z3.Real('at!%d' % aid)
            self.map[aid] = r
            self.lem.append(r > 0)
            x = self.poly(a.data)
            self.lem.append(z3.Implies(x > 0, r > 1))
            self.lem.append(z3.Implies(x < 0, r < 1))
            self.lem.append(z3.Implies(x == 0, r == 1))
        else:
            e = a.expr
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = e
            elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = e.decl().name()
                r = z3.Const('at!%d' % aid, e.sort())
                self.map[aid] = r
                args = tuple(self.arg(c) for c in e.children())
                self.fapps.setdefault(nm, []).append((args, r))
                x = args[0] if args else None
                if nm == 'powr':
                    b, ex = args
                    self.lem.append(z3.Implies(b > 0, r > 0))
                elif nm in ('sin', 'cos'):
                    self.lem.append(z3.And(r >= -1, r <= 1))
                elif nm in ('log', 'log10'):
                    self.lem.append(z3.Implies(x > 1, r > 0))
                    self.lem.append(z3.Implies(z3.And(x > 0, x < 1), r < 0))
                    self.lem.append(z3.Implies(x == 1, r == 0))
                elif nm == 'cosh':
                    self.lem.append(r >= 1)
            elif z3.is_app(e):
                ch = [self.arg(c) for c in e.children()]
                k = e.decl().kind()
                if k == z3.Z3_OP_TO_INT:
                    r = z3.ToInt(ch[0] if ch[0].sort() == RL else z3.ToReal(ch[0]))
                elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                    ci = [x if x.sort() == I else z3.ToInt(x) for x in ch]
                    r = ci[0] / ci[1] if k == z3.Z3_OP_IDIV else ci[0] % ci[1]
                else:
                    r = e.decl()(*ch)
            else:
                r = e
        self.map[aid] = r
        return r

    def arg(self, c):
        """argument of a function: keep the sort"""
        if c.sort() == B:
            return self.boolean(c)
        t = z3.simplify(self.term(c))
        if c.sort() == I and t.sort() == RL:
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
                return t.arg(0)
            return toint(t)
        return t

    def boolean(self, e):
        if z3.is_true(e) or z3.is_false(e):
            return e
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.boolean(ch[0]))
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.boolean(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.boolean(c) for c in ch])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.boolean(ch[0]), self.boolean(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(*[self.boolean(c) for c in ch])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and ch[0].sort() == B:
            r = self.boolean(ch[0]) == self.boolean(ch[1])
            return r if k == z3.Z3_OP_EQ else z3.Not(r)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            isint = ch[0].sort() == I and ch[1].sort() == I
            n0 = len(COND)
            d = padd(canon(ch[0]), canon(ch[1]), -1)
            del COND[n0:]
            neg = {m: -c for m, c in d.items() if c < 0}
            pos = {m: c for m, c in d.items() if c > 0}
            a, b = self.poly(pos), self.poly(neg)
            if isint:
                a, b = toint(a), toint(b)
            return {z3.Z3_OP_LE: lambda: a <= b, z3.Z3_OP_LT: lambda: a < b, z3.Z3_OP_GE: lambda: a >= b, z3.Z3_OP_GT: lambda: a > b,
                    z3.Z3_OP_EQ: lambda: a == b, z3.Z3_OP_DISTINCT: lambda: a != b}[k]()
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                return e
            n0 = len(COND)
            p = canon_bool(e)
            del COND[n0:]
            ms = [m for m in p if m != ONE]
            if len(p) == 1 and len(ms) == 1 and p[ms[0]] == 1 and len(ms[0]) == 1:
                aid = ms[0][0][0]
                key = ('b', aid)
                if key not in self.map:
                    at = ATOMS[aid]
                    self.map[key] = z3.Bool('atb!%d' % aid)
                    if z3.is_app(at.data) and not (at.data.children() and z3.is_quantifier(at.data.arg(0))):
                        args = tuple(self.arg(c) for c in at.data.children())
                        self.fapps.setdefault(at.data.decl().name(), []).append((args, self.map[key]))
                return self.map[key]
            return self.poly(p) != 0
        raise Unsupported('purify ' + e.decl().name())

    def congruence(self):
        out = []
        for a1, r1 in self.fapps.get('sin', []):
            for a2, r2 in self.fapps.get('cos', []):
                out.append(z3.Implies(a1[0] == a2[0], r1 * r1 + r2 * r2 == 1))
        for nm, apps in self.fapps.items():
            if len(apps) > 25:
                # many applications: leave congruence to the solver
                doms = [tuple(x.sort() for x in a) + (r.sort(),) for a, r in apps]
                for (a, r), d in zip(apps, doms):
                    if a:
                        out.append(z3.Function('uf!%s!%s' % (nm, '_'.join(str(x) for x in d)), *d)(*a) == r)
                continue
            for (a1, r1), (a2, r2) in itertools.combinations(apps, 2):
                if r1.sort() != r2.sort() or len(a1) != len(a2):
                    continue
                if r1.get_id() == r2.get_id():
                    continue
                out.append(z3.Implies(z3.And(*[x == y for x, y in zip(a1, a2)]), r1 == r2))
        return out


    def top(self, e):
        """boolean(e), remembered across queries"""
        k = e.get_id()
        hit = PCACHE.get(k)
        if hit is None:
            q = Purify(self.depth)
            try:
                r = q.boolean(e)
            except Unsupported as u:
                r = u
            hit = PCACHE[k] = (e, r, q)
        e, r, q = hit
        if isinstance(r, Unsupported):
            raise r
        self.map.update(q.map)
        have = self.lemids
        for l in q.lem:
            if l.get_id() not in have:
                have.add(l.get_id())
                self.lem.append(l)
        for d, o in ((self.sums, q.sums), (self.quads, q.quads), (self.exts, q.exts)):
            d.update(o)
        for nm, apps in q.fapps.items():
            mine = self.fapps.setdefault(nm, [])
            ids = self.fids.setdefault(nm, {x.get_id() for _, x in mine})
            for a, x in apps:
                if x.get_id() not in ids:
                    ids.add(x.get_id())
                    mine.append((a, x))
        return r


PCACHE = {}


def toint(t):
    t = z3.simplify(t)
    if t.sort() == I:
        return t
    # push ToInt through sums of ToReal terms
    def conv(e):
        if e.sort() == I:
            return e
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_TO_REAL:
                return e.arg(0)
            if z3.is_rational_value(e) and e.denominator_as_long() == 1:
                return z3.IntVal(e.numerator_as_long())
            if k == z3.Z3_OP_ADD:
                cs = [conv(c) for c in e.children()]
                return None if any(c is None for c in cs) else z3.Sum(cs)
            if k == z3.Z3_OP_MUL:
                cs = [conv(c) for c in e.children()]
                return None if any(c is None for c in cs) else z3.Product(cs)
            if k == z3.Z3_OP_ITE:
                x, y = conv(e.arg(1)), conv(e.arg(2))
                return None if x is None or y is None else z3.If(e.arg(0), x, y)
        return None
    c = conv(t)
    return c if c is not None else z3.ToInt(t)


SOFT = lambda: []


def solve(hyps, goal, timeout=None, want_models=False):
    """is (and hyps => goal)?  returns Result"""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    STATS['queries'] += 1
    if r == z3.unsat:
        STATS['solver_s'] += time.time() - t0
        return Result('proved', 'z3')
    if r == z3.sat:
        m = s.model()
        ms = []
        if want_models:
            s.set('timeout', 1500)
            for lvl in SOFT():
                s.push()
                s.add(*lvl)
                if s.check() == z3.sat:
                    ms.append(s.model())
                s.pop()
                if ms:
                    break
        STATS['solver_s'] += time.time() - t0
        if ms:
            R = Result('refuted', 'z3', ms[0])
            R.models = [m]
            return R
        return Result('refuted', 'z3', m)
    STATS['solver_s'] += time.time() - t0
    return Result('unknown', 'z3', None, s.reason_unknown())


def int_consts(e):
    out = {}
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_const(x) and x.sort() == I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
        st.extend(x.children())
    return out


def inst_terms(exprs):
    """index terms that occur as arguments of uninterpreted functions / integer constants"""
    out = {}
    st, seen = list(exprs), set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                for c in x.children():
                    if not z3.is_quantifier(c) and c.sort() == I:
                        out[c.get_id()] = c
            elif x.sort() == I and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.get_id()] = x
            st.extend(x.children())
    return list(out.values())


def prove(goal, skolems=(), extra=(), depth=0, timeout=None):
    """goal: raw bool / z3 Bool under the current path condition"""
    if isinstance(goal, bool):
        if goal:
            return Result('proved', 'trivial')
        goal = z3.BoolVal(False)
    goal = zb(goal)
    if z3.is_true(z3.simplify(goal)):
        return Result('proved', 'simplify')
    k = goal.decl().kind()
    ch = goal.children()
    if k == z3.Z3_OP_AND:
        for c in ch:
            r = prove(c, skolems, extra, depth, timeout)
            if r.status != 'proved':
                return r
        return Result('proved', 'and')
    if depth < 8 and k in (z3.Z3_OP_IMPLIES, z3.Z3_OP_OR) and len(ch) > 1:
        # hypotheses into the path condition, conclusion on its own
        if k == z3.Z3_OP_IMPLIES:
            hyp, con = [ch[0]], ch[1]
        else:
            eqs = [c for c in ch if c.decl().kind() == z3.Z3_OP_EQ and c.arg(0).sort() != B] or [ch[-1]]
            con = eqs[-1]
            hyp = [z3.Not(c) for c in ch if c is not con]
        st = CTX.push()
        try:
            for h in hyp:
                CTX.pc.append(z3.simplify(h))
                CTX.solver.add(CTX.pc[-1])
            r = prove(con, skolems, extra, depth + 1, timeout)
        finally:
            CTX.pop(st)
        if r.status == 'proved':
            return r
        if k == z3.Z3_OP_IMPLIES and r.status == 'refuted' and depth > 0:
            return r
    if k == z3.Z3_OP_EQ and ch[0].sort() == I and depth == 0 and discrete(goal):
        hs = [h for h in list(CTX.pc) + list(CTX.facts) + list(extra) if discrete(h)]
        r = solve(hs, goal, min(timeout or TIMEOUT, DISCRETE_MS))
        STATS['z3'] += 1
        if r.status == 'proved':
            return r
    if k == z3.Z3_OP_EQ and ch[0].sort() != B and depth < 6:
        try:
            ok, rest = equal_canon(ch[0], ch[1])
        except Unsupported:
            ok, rest = False, None
        if ok:
            weak = sym.WEAK[0]
            for c in rest:
                if not side(c, skolems, extra, depth, timeout):
                    if weak:
                        break
                    return Result('unknown', 'side condition', None, 'side condition not proved: %s' % str(c)[:300])
            else:
                STATS['canon'] += 1
                return Result('proved', 'normal form')
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and ch[0].sort() != B and depth < 8:
        if k != z3.Z3_OP_EQ:
            try:
                if sum_pointwise(k, ch, skolems, extra, depth):
                    return Result('proved', 'pointwise under the sum')
                if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) and ch[0].sort() == RL:
                    n0 = len(COND)
                    lo, hi = (ch[0], ch[1]) if k == z3.Z3_OP_LE else (ch[1], ch[0])
                    try:
                        d = padd(canon(hi), canon(lo), -1)
                        cs = side_conditions(COND[n0:])
                    finally:
                        del COND[n0:]
                    if nonneg_poly(d, skolems, extra, depth) and all(side(c, skolems, extra, depth, 1500) for c in cs):
                        return Result('proved', 'signs')
            except Unsupported:
                pass
        g2 = simp_under_pc(goal)
        if g2 is not goal:
            if z3.is_true(g2):
                return Result('proved', 'simplify')
            return prove(g2, skolems, extra, depth + 1, timeout)
        if k == z3.Z3_OP_EQ and CTX.ghosts:
            try:
                if by_definitions(goal, skolems, extra, depth):
                    return Result('proved', 'normal form with definitions')
            except Unsupported:
                pass
        quick = smt(goal, skolems, extra, depth, timeout, quick=True)
        if quick.status == 'proved':
            return quick
        r2 = split(goal, skolems, extra, depth, timeout)
        if r2 is not None and r2.status == 'proved':
            return r2
        return smt(goal, skolems, extra, depth, timeout)
    return smt(goal, skolems, extra, depth, timeout)


DISCRETE_MS = 20000


def discrete(e):
    """only integers and truth values, no quantifiers (function symbols are left uninterpreted)"""
    seen, st, n = set(), [e], 0
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        n += 1
        if n > 20000 or not z3.is_app(x) or x.sort() not in (I, B):
            return False
        st.extend(x.children())
    return True


def nonneg_atom(a, strict, skolems, extra, depth):
    at = ATOMS[a]
    if at.kind == 'sqrt' and not strict or at.kind == 'pos' and at.key.startswith('exp(') or at.kind == '[' and not strict:
        return True
    if at.kind == 'inv':
        return nonneg_poly(at.data, skolems, extra, depth, True)
    e = at.expr
    if e.sort() == B:
        return not strict
    k = (a, strict, tuple(h.get_id() for h in CTX.pc))
    if k not in SIGNS and at.kind == 'sum' and depth < 8:
        SIGNS[k] = (sum_sign(at, strict, skolems, extra, depth), list(CTX.pc))
    if k not in SIGNS:
        SIGNS[k] = (smt(e > 0 if strict else e >= 0, skolems, extra, depth + 1, 1500, quick=True).status == 'proved', list(CTX.pc))
    return SIGNS[k][0]


SIGNS = {}
NEST = [0]


def side(c, skolems, extra, depth, timeout=None):
    """side condition of a normal form"""
    if smt(c, skolems, extra, depth + 1, timeout or 2000).status == 'proved':
        return True
    x, ne = c, False
    if x.decl().kind() == z3.Z3_OP_NOT and x.arg(0).decl().kind() == z3.Z3_OP_EQ:
        x, ne = x.arg(0), True
    elif x.decl().kind() == z3.Z3_OP_DISTINCT and x.num_args() == 2:
        ne = True
    elif x.decl().kind() not in (z3.Z3_OP_GT, z3.Z3_OP_GE):
        return False
    if x.arg(0).sort() == B or depth > 6:
        return False
    n0 = len(sym.COND)
    try:
        p = padd(canon(x.arg(0)), canon(x.arg(1)), -1)
        more = sym.side_conditions(sym.COND[n0:])
    except Unsupported:
        return False
    finally:
        del sym.COND[n0:]
    if any(z3.eq(m, c) or smt(m, skolems, extra, depth + 1, 1500).status != 'proved' for m in more):
        return False
    strict = x.decl().kind() != z3.Z3_OP_GE
    if nonneg_poly(p, skolems, extra, depth, strict) or ne and nonneg_poly({m: -v for m, v in p.items()}, skolems, extra, depth, True):
        return True
    if not strict:
        return False
    r, even = power_root(p)
    return sums_positive(r, skolems, extra, depth, True, even or ne)


def power_root(p):
    """(linear r with p = r^k, is k even); (p, False) where there is none"""
    none = p, False
    deg = {sum(e for _, e in m) for m in p}
    if len(deg) != 1 or not 2 <= min(deg) <= 3:
        return none
    k = min(deg)
    at = sorted({a for m in p for a, _ in m})
    if len(at) > 6 or any(((a, k),) not in p for a in at):
        return none
    cs = []
    for a in at:
        v = p[((a, k),)]
        q = abs(v) ** (1 / k)
        q = type(v)(round(float(q) * 5040), 5040)
        if abs(v) != q ** k:
            return none
        cs.append([q, -q] if k % 2 == 0 else [q if v > 0 else -q])
    for signs in itertools.product(*cs):
        r = {((a, 1),): c for a, c in zip(at, signs)}
        w = r
        for _ in range(k - 1):
            w = pmul(w, r)
        if w == p:
            if signs[0] < 0 and k % 2 == 0:
                r = {m: -c for m, c in r.items()}
            return r, k % 2 == 0
    return none


def sums_positive(p, skolems, extra, depth, strict, either):
    """sums over equal ranges, merged: positive if the body is non-negative everywhere and positive somewhere"""
    for sg in (1, -1) if either else (1,):
        lst, dims = [], None
        for m, c in p.items():
            if len(m) != 1 or m[0][1] != 1 or ATOMS[m[0][0]].kind != 'sum':
                return False
            at = ATOMS[m[0][0]]
            key = sorted(sym.pkey(x) for x in at.data[1])
            if dims is None:
                dims, ds = key, sorted(at.data[1], key=sym.pkey)
            if key != dims or len(set(key)) != len(key):
                return False
            lst.append((c * sg, at))
        ks = [fresh('s', I) for _ in ds]
        tot = z3.RealVal(0)
        for c, at in lst:
            bs, dd, mono = at.data
            tot = tot + zr(c) * zr(z3.substitute(sym.mono_expr(mono), *[(b, ks[dims.index(sym.pkey(x))]) for b, x in zip(bs, dd)]))
        if positive_sum(ks, ds, tot, strict, skolems, extra, depth):
            return True
    return False


def sum_sign(at, strict, skolems, extra, depth):
    """a sum is non-negative if its body is; positive if moreover its body is positive somewhere"""
    bs, ds, mono = at.data
    ks = [fresh('s', I) for _ in bs]
    return positive_sum(ks, ds, zr(z3.substitute(sym.mono_expr(mono), *zip(bs, ks))), strict, skolems, extra, depth)


def positive_sum(ks, ds, body, strict, skolems, extra, depth):
    inside = [z3.And(q >= 0, q < toint(pexpr(d))) for q, d in zip(ks, ds)]

    if NEST[0] > 1:
        return False

    def holds(goals, hyps):
        st = CTX.push()
        NEST[0] += 1
        try:
            for h in hyps:
                CTX.pc.append(h)
                CTX.solver.add(h)
            return all(prove(g, list(skolems) + ks, extra, 6, 2000).status == 'proved' for g in goals)
        finally:
            NEST[0] -= 1
            CTX.pop(st)
    if strict and holds([body > 0], inside):
        return holds([toint(pexpr(d)) >= 1 for d in ds], [])
    if not holds([body >= 0], inside):
        return False
    if not strict:
        return True
    cand = [lambda d: toint(pexpr(d)) / 2, lambda d: z3.IntVal(0), lambda d: toint(pexpr(d)) - 1]
    for f in cand:
        w = [(q, f(d)) for q, d in zip(ks, ds)]
        if holds([z3.simplify(z3.substitute(body, *w)) > 0] + [z3.substitute(h, *w) for h in inside], []):
            return True
    return False


def nonneg_poly(p, skolems, extra, depth, strict=False, lvl=0):
    """non-negative by the signs of its factors"""
    if not p:
        return not strict
    if lvl > 4:
        return False
    lc, cm, q = sym.factor(p)
    if lc < 0:
        lc, q = -lc, {m: -c for m, c in q.items()}
    for a, k in cm:
        if k % 2 and not nonneg_atom(a, strict or k < 0, skolems, extra, depth):
            if not (ATOMS[a].kind == 'inv' and nonneg_poly({m: -c for m, c in ATOMS[a].data.items()}, skolems, extra, depth, True, lvl + 1)):
                return False
            q = {m: -c for m, c in q.items()}
        if k % 2 == 0 and strict:
            return False
    if set(q) == {ONE}:
        return q[ONE] > 0
    # every term non-negative
    if all(c > 0 for c in q.values()):
        if all(k % 2 == 0 or nonneg_atom(a, k < 0, skolems, extra, depth) for m in q for a, k in m) and (not strict or ONE in q):
            return True
    # difference of two roots, or of a root and a number
    if len(q) == 2:
        (m1, c1), (m2, c2) = sorted(q.items(), key=lambda t: -t[1])
        if c1 == -c2 and len(m1) == 1 and m1[0][1] == 1 and ATOMS[m1[0][0]].kind == 'sqrt':
            x = ATOMS[m1[0][0]].data
            if len(m2) == 1 and m2[0][1] == 1 and ATOMS[m2[0][0]].kind == 'sqrt':
                y = ATOMS[m2[0][0]].data
                return nonneg_poly(y, skolems, extra, depth, False, lvl + 1) and nonneg_poly(padd(x, y, -1), skolems, extra, depth, strict, lvl + 1)
        if c2 < 0 and m2 == ONE and len(m1) == 1 and m1[0][1] == 1 and ATOMS[m1[0][0]].kind == 'sqrt':
            r = c2 / c1
            return nonneg_poly(padd(ATOMS[m1[0][0]].data, pconst(r * r), -1), skolems, extra, depth, strict, lvl + 1)
        # difference of two exponentials, of two inverses
        if c1 == -c2 and len(m1) == 1 == len(m2) and m1[0][1] == 1 == m2[0][1]:
            a1, a2 = ATOMS[m1[0][0]], ATOMS[m2[0][0]]
            if all(a.kind == 'pos' and a.key.startswith('exp(') for a in (a1, a2)):
                return nonneg_poly(padd(a1.data, a2.data, -1), skolems, extra, depth, strict, lvl + 1)
            if all(a.kind == 'inv' and nonneg_poly(a.data, skolems, extra, depth, True, lvl + 1) for a in (a1, a2)):
                return nonneg_poly(padd(a2.data, a1.data, -1), skolems, extra, depth, strict, lvl + 1)
    # number minus an exponential
    if len(q) == 2 and ONE in q and q[ONE] > 0 and not strict:
        m, c = [(m, c) for m, c in q.items() if m != ONE][0]
        if c < 0 and -c <= q[ONE] and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'pos' and ATOMS[m[0][0]].key.startswith('exp('):
            return nonneg_poly(padd({}, ATOMS[m[0][0]].data, -1), skolems, extra, depth, False, lvl + 1)
    if depth < 8 and all(ATOMS[a].kind == 'sum' for m in q for a, _ in m):
        r, even = power_root(q)
        if even and not strict or sums_positive(r, skolems, extra, depth, strict, even):
            return True
    e = pexpr(q)
    if len(q) > 12:
        return False
    return smt(e > 0 if strict else e >= 0, skolems, extra, depth + 1, 1500, quick=True).status == 'proved'


def ghost_atoms(p):
    return {a for m in p for a, _ in m if ATOMS[a].kind == 't' and z3.is_app(ATOMS[a].expr) and ATOMS[a].expr.decl().name().startswith('ghost.')}


def by_definitions(goal, skolems, extra, depth):
    """equality modulo the equations the contract gives for its specification functions (their recurrences), used left to right"""
    n0 = len(COND)
    d = pclear(padd(canon(goal.arg(0)), canon(goal.arg(1)), -1))
    base = COND[n0:]
    del COND[n0:]
    if not ghost_atoms(d):
        return False
    eqs = []
    steps = []
    for a in ghost_atoms(d):
        for t in ATOMS[a].expr.children():
            steps += [z3.simplify(t - 1), t]
    for e in list(CTX.pc) + list(extra) + instantiate(goal, list(CTX.pc), steps + list(skolems), near=True):
        g = z3.BoolVal(True)
        if z3.is_implies(e):
            g, e = e.children()
        for q in (e.children() if z3.is_and(e) else [e]):
            if not z3.is_eq(q) or q.arg(0).sort() == B:
                continue
            try:
                p = padd(canon(q.arg(0)), canon(q.arg(1)), -1)
            except Unsupported:
                del COND[n0:]
                continue
            cs = COND[n0:]
            del COND[n0:]
            for a in sorted(ghost_atoms(p), key=lambda a: (-len(ATOMS[a].key), ATOMS[a].key))[:1]:
                if sum(1 for m in p for b, _ in m if b == a) == 1 and ((a, 1),) in p:
                    c = p[((a, 1),)]
                    rest = {m: -v / c for m, v in p.items() if m != ((a, 1),)}
                    eqs.append((a, rest, g, cs, q.get_id()))

    # rewrite towards the earlier argument first
    eqs.sort(key=lambda t: -len(ATOMS[t[0]].key))
    nodes = [0]

    def search(d, used, guards, conds):
        nodes[0] += 1
        if nodes[0] > 150:
            return False
        if not d:
            for g in guards:
                if smt(g, skolems, extra, depth + 1, 1500).status != 'proved':
                    return False
            return all(side(c, skolems, extra, depth, 1500) for c in side_conditions(conds))
        if len(used) >= 10:
            return False
        here = ghost_atoms(d)
        for a, rest, g, cs, k in eqs:
            if k in used or a not in here:
                continue
            out, bad = {}, False
            for m, c in d.items():
                p = dict(m).get(a, 0)
                if p == 0:
                    out = padd(out, {m: c})
                elif p == 1:
                    out = padd(out, pmul({tuple(x for x in m if x[0] != a): c}, rest))
                else:
                    bad = True
                    break
            if bad:
                continue
            m0 = len(COND)
            out = pclear(out) if out else out
            cc = COND[m0:]
            del COND[m0:]
            if search(out, used | {k}, guards + [g], conds + cs + cc):
                return True
        return False
    return search(d, frozenset(), [], base)


def body_nonneg(e, skolems, extra, depth):
    """a sum as it stands, its body non-negative with the terms free of the index left opaque"""
    if not (z3.is_app(e) and e.decl().name().startswith('Sum/') and z3.is_quantifier(e.arg(0)) and e.arg(0).is_lambda()):
        return False
    lam = e.arg(0)
    n = lam.num_vars()
    ks = [fresh('s', I) for _ in range(n)]
    body = z3.substitute_vars(lam.body(), *reversed(ks))
    names = {q.decl().name() for q in ks}
    opaque = {}

    def mentions(x):
        return bool(names & set(int_consts(x)))

    def ab(x):
        if not mentions(x):
            if x.sort() == RL and x.num_args() and not z3.is_rational_value(x):
                return opaque.setdefault(x.get_id(), (fresh('o', RL), x))[0]
            return x
        if z3.is_quantifier(x) or not x.num_args():
            return x
        return x.decl()(*[ab(c) for c in x.children()])
    body = ab(body)
    ds = e.children()[1:1 + n]
    st = CTX.push()
    try:
        for q, d in zip(ks, ds):
            d = toint(d)
            for c in (q >= 0, q < d):
                CTX.pc.append(c)
                CTX.solver.add(c)
        return prove(zr(body) >= 0, list(skolems) + ks, extra, max(depth + 1, 6), 2000).status == 'proved'
    finally:
        CTX.pop(st)


def sum_pointwise(k, ch, skolems, extra, depth):
    """0 <= Sum f when f >= 0 at every index; sums over equal ranges are merged first"""
    lo, hi = (ch[0], ch[1]) if k in (z3.Z3_OP_LE, z3.Z3_OP_LT) else (ch[1], ch[0])
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) and z3.is_rational_value(z3.simplify(lo)) and z3.simplify(lo).numerator_as_long() == 0 and body_nonneg(hi, skolems, extra, depth):
        return True
    n0 = len(sym.COND)
    d = padd(canon(hi), canon(lo), -1)
    if any(ATOMS[a].kind == 'inv' for m in d for a, _ in m):
        conds = sym.COND[n0:]
    conds = sym.COND[n0:]
    del sym.COND[n0:]
    if sym.side_conditions(conds):
        return False
    groups, rest = {}, {}
    for m, c in d.items():
        ss = [(a, p) for a, p in m if ATOMS[a].kind == 'sum']
        if len(ss) != 1 or ss[0][1] != 1:
            rest[m] = c
            continue
        at = ATOMS[ss[0][0]]
        key = tuple(sorted(sym.pkey(x) for x in at.data[1]))
        groups.setdefault(key, []).append((c, tuple(x for x in m if x != ss[0]), at))
    if len(groups) != 1:
        return False
    (key, lst), = groups.items()
    dims = sorted(((sym.pkey(x), x) for x in lst[0][2].data[1]), key=lambda t: t[0])
    if len({x for x, _ in dims}) != len(dims):
        perm_ok = True
    ks = [fresh('s', I) for _ in dims]
    tot = z3.RealVal(0)
    for c, m, at in lst:
        bs, ds, mono = at.data
        left = list(range(len(ks)))
        sub = []
        for b, dd in zip(bs, ds):
            q = next(i for i in left if dims[i][0] == sym.pkey(dd))
            left.remove(q)
            sub.append((b, ks[q]))
        body = zr(z3.substitute(sym.mono_expr(mono), *sub))
        tot = tot + zr(c) * zr(sym.mono_expr(m)) * body
    if rest:
        rz = zr(pexpr(rest))
        if smt(rz >= 0, skolems, extra, depth + 1, 1500).status != 'proved':
            return False
    st = CTX.push()
    try:
        for q, (_, dd) in zip(ks, dims):
            h = z3.And(q >= 0, q < toint(pexpr(dd)))
            CTX.pc.append(h)
            CTX.solver.add(h)
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        ok = smt(tot > 0 if strict else tot >= 0, list(skolems) + ks, extra, depth + 1, 3000).status == 'proved'
    finally:
        CTX.pop(st)
    if ok and strict:
        return all(smt(toint(pexpr(dd)) >= 1, skolems, extra, depth + 1, 1500).status == 'proved' for _, dd in dims)
    return ok


def atoms_of(c, out):
    """atomic conditions of a boolean term"""
    k = c.decl().kind() if z3.is_app(c) else None
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or (k == z3.Z3_OP_ITE and c.sort() == B):
        for x in c.children():
            atoms_of(x, out)
    elif k not in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE) and all(not z3.eq(c, o) for o in out):
        out.append(c)
    return out


def has_bound(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if z3.is_var(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return False


def ite_atoms(e):
    """atomic conditions, free of bound variables, of the if-then-else terms of e (lambda bodies included), innermost first"""
    out, seen = [], set()

    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            walk(x.body())
            return
        for c in x.children():
            walk(c)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.sort() != B:
            for c in atoms_of(x.arg(0), []):
                if not has_bound(c) and all(not z3.eq(c, o) for o in out):
                    out.append(c)
    walk(e)
    return out


def residues():
    """(x, k, c) for every constant x the path condition gives x % k == c"""
    out = []
    for h in CTX.pc:
        for c in (h.children() if z3.is_and(h) else [h]):
            neg = z3.is_not(c)
            e = c.arg(0) if neg else c
            if not z3.is_eq(e):
                continue
            x, v = e.children()
            if z3.is_int_value(x):
                x, v = v, x
            if z3.is_int_value(v) and z3.is_app_of(x, z3.Z3_OP_MOD) and z3.is_int_value(x.arg(1)) and x.arg(0).num_args() == 0 and not z3.is_int_value(x.arg(0)):
                k, r = x.arg(1).as_long(), v.as_long()
                if not neg and 0 <= r < k:
                    out.append((x.arg(0), k, r))
                elif neg and k == 2 and r in (0, 1):
                    out.append((x.arg(0), 2, 1 - r))
    return out


def by_residue(goal):
    """x replaced by k (x div k) + c where the path condition gives the residue of x and the goal mentions x div k"""
    for x, k, c in residues():
        d = x / z3.IntVal(k)
        q = z3.Int('quotient!')
        g = z3.substitute(goal, (d, q))
        if not z3.eq(g, goal):
            goal = z3.substitute(z3.substitute(g, (x, k * q + c)), (q, d))
    return goal


def pc_subst(goal):
    """constants that the path condition fixes to a number replaced by it"""
    goal = by_residue(goal)
    sub = []
    for h in CTX.pc:
        for c in (h.children() if z3.is_and(h) else [h]):
            if z3.is_eq(c):
                x, v = c.children()
                if z3.is_const(v) and z3.is_int_value(x):
                    x, v = v, x
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (z3.is_int_value(v) or z3.is_rational_value(v)):
                    sub.append((x, v))
                elif x.sort() == I and not any(z3.eq(x, a) or z3.eq(v, a) for a, _ in sub):
                    # an index that is determined by the others
                    for a, b in ((x, v), (v, x)):
                        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() not in int_consts(b) and a.decl().name().startswith('k!'):
                            if not any(y in int_consts(b) for y in [q.decl().name() for q, _ in sub]):
                                sub.append((a, b))
                                break
    if CTX.ghosts:
        # indices that the path condition pins down
        done = {a.decl().name() for a, _ in sub}
        for nm, x in list(int_consts(goal).items())[:6]:
            if nm not in done and '!' in nm and CTX.entails(x == 0):
                sub.append((x, z3.IntVal(0)))
    return z3.simplify(z3.substitute(goal, *sub)) if sub else goal


def ground_mods(e):
    """terms a mod b with symbolic b and no bound variable"""
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_MOD and not z3.is_int_value(x.arg(1)) and not has_bound(x):
                out.append(x)
            st.extend(x.children())
    return out


def simp_under_pc(goal):
    """decide the conditions inside the goal that the path condition settles"""
    cs = ite_atoms(goal)[:40]
    sub = []
    for c in cs:
        if CTX.entails(c):
            sub.append((c, z3.BoolVal(True)))
        elif CTX.entails(z3.Not(c)):
            sub.append((c, z3.BoolVal(False)))
    for m in ground_mods(goal)[:8]:
        a, b = m.children()
        for c, v in ((z3.And(a >= 0, a < b), a), (z3.And(a >= b, a < 2 * b), a - b), (z3.And(a < 0, a >= -b), a + b)):
            if CTX.entails(c):
                sub.append((m, v))
                break
    g = z3.substitute(goal, *sub) if sub else goal
    g = pc_subst(g)
    if z3.eq(g, goal):
        return goal
    g = z3.simplify(g)
    return goal if z3.eq(g, z3.simplify(goal)) else g


SPLITS = [0]


def split(goal, skolems, extra, depth, timeout):
    """case distinction on an atomic condition of the if-then-else terms of the goal"""
    if SPLITS[0] >= 6:
        return None
    cs = [c for c in ite_atoms(goal) if not CTX.entails(c) and not CTX.entails(z3.Not(c))]
    if not cs:
        return None
    c = cs[0]
    SPLITS[0] += 1
    try:
        for v in (True, False):
            st = CTX.push()
            try:
                h = c if v else z3.simplify(z3.Not(c))
                CTX.pc.append(h)
                CTX.solver.add(h)
                if smt(z3.BoolVal(False), skolems, extra, max(depth, 1), 800, light=True).status == 'proved':
                    continue
                g = pc_subst(z3.simplify(z3.substitute(goal, (c, z3.BoolVal(v)))))
                r = prove(g, skolems, extra, max(depth, 1), timeout)
            finally:
                CTX.pop(st)
            if r.status != 'proved':
                return r
        return Result('proved', 'case split')
    finally:
        SPLITS[0] -= 1


def smt(goal, skolems, extra, depth, timeout, light=False, quick=False):
    hyps0 = list(CTX.pc) + list(CTX.facts) + list(extra)
    r = None
    if CTX.ghosts and not light:
        # without the quantified facts, then with their instances at the terms of the goal, then with all
        r = smt_with(goal, hyps0, [], skolems, depth, 400, True)
        if r.status == 'proved':
            return r
        g1 = instantiate(goal, hyps0, skolems, near=True)
        if g1:
            r = smt_with(goal, hyps0, g1, skolems, depth, 1500, True)
            if r.status == 'proved':
                return r
        if quick:
            return r
        ghosts = instantiate(goal, hyps0, skolems)
    else:
        ghosts = []
        if quick:
            return smt_with(goal, hyps0, [], skolems, depth, 700, True)
    return smt_with(goal, hyps0, ghosts, skolems, depth, timeout, light)


def smt_with(goal, hyps0, ghosts, skolems, depth, timeout, light):
    P = Purify(depth)
    try:
        g = P.top(goal)
        if depth >= 1:
            own = (set(P.sums), set(P.quads))
        hs = []
        for h in hyps0 + ghosts:
            try:
                hs.append(P.top(h) if h.sort() == B else h)
            except Unsupported:
                pass
        base = hs
        hs = hs + P.lem + P.congruence() + [PI > z3.RealVal('3.1415926'), PI < z3.RealVal('3.1415927')]
        if depth >= 1:
            for d, keep in ((P.sums, own[0]), (P.quads, own[1])):
                for q in [q for q in d if q not in keep]:
                    del d[q]
        if not light and depth < 3 and (P.sums or P.quads or P.exts):
            r = solve(hs, g, min(timeout or TIMEOUT, 1500))
            STATS['z3'] += 1
            if r.status == 'proved':
                return r
            P2 = (sum_lemmas(P, depth) + quad_lemmas(P, depth) + ext_lemmas(P, [goal] + hyps0, skolems))
            hs = base + P.lem + P2 + P.congruence() + [PI > z3.RealVal('3.1415926'), PI < z3.RealVal('3.1415927')]
    except Unsupported as e:
        return Result('unknown', 'purify', None, str(e))
    STATS['z3'] += 1
    r = solve(hs, g, timeout, want_models=(depth == 0 and not light))
    if r.status == 'refuted' and depth == 0:
        r.fapps = eval_fapps(P, r.model)
    return r


def eval_fapps(P, m):
    """values of the input functions at the index tuples the counter-model talks about"""
    out = {}
    for nm, apps in P.fapps.items():
        for args, r in apps:
            try:
                a = tuple(m.eval(x, model_completion=True).as_long() for x in args if x.sort() == I)
                if len(a) != len(args):
                    continue
                v = m.eval(r, model_completion=True)
                if z3.is_true(v) or z3.is_false(v):
                    v = z3.is_true(v)
                elif z3.is_int_value(v):
                    v = v.as_long()
                elif z3.is_rational_value(v):
                    v = float(v.as_fraction())
                else:
                    v = float(v.approx(20).as_fraction())
                out.setdefault(nm, []).append((a, v))
            except Exception:
                continue
    return out


ICACHE = {}


def instance(shape, f, ix):
    """one instance of a quantified fact, remembered while the path condition it was made under still holds"""
    k = (id(f), tuple(i.get_id() for i in ix))
    hit = ICACHE.get(k)
    if hit is not None and len(hit[0]) <= len(CTX.pc) and all(a is b for a, b in zip(hit[0], CTX.pc)):
        return hit[1]
    try:
        rng = r_and(*[r_cmp('<=', 0, i) if d is None else r_and(r_cmp('<=', 0, i), r_cmp('<', i, d)) for i, d in zip(ix, shape)])
        if rng is False or (is_z3(rng) and z3.is_false(z3.simplify(rng))):
            e = None
        else:
            e = z3.Implies(zb(rng), zb(truth(f(*ix))))
    except Unsupported:
        e = None
    ICACHE[k] = (list(CTX.pc), e, f, ix)
    return e


PATTERNS = {}


def patterns(shape, f):
    """applications g(k0,..) in the body of a quantified fact whose arguments are exactly its bound variables: (g, positions)"""
    hit = PATTERNS.get(id(f))
    if hit is not None:
        return hit[0]
    ks = [fresh('pat', I) for _ in shape]
    out = []
    try:
        e = zb(truth(f(*ks)))
        ids = {k.get_id(): i for i, k in enumerate(ks)}
        st, seen = [e], set()
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                pos = [ids.get(c.get_id()) for c in x.children()]
                if None not in pos and len(set(pos)) == len(ks):
                    out.append((x.decl(), [pos.index(i) for i in range(len(ks))]))
            st.extend(x.children())
    except Exception:
        out = []
    PATTERNS[id(f)] = (out, f)
    return out


def ematch(exprs, cap=40):
    """instances of the quantified facts at the argument tuples that occur in the expressions"""
    apps = {}
    st, seen = list(exprs), set()
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            apps.setdefault(x.decl().get_id(), []).append(x)
        st.extend(x.children())
    out, done = [], set()
    for shape, f in CTX.ghosts:
        for d, pos in patterns(shape, f):
            for x in apps.get(d.get_id(), ())[:12]:
                ix = [x.arg(i) for i in pos]
                if any(z3.is_quantifier(i) for i in ix):
                    continue
                k = (id(f),) + tuple(i.get_id() for i in ix)
                if k in done:
                    continue
                done.add(k)
                e = instance(shape, f, ix)
                if e is not None:
                    out.append(e)
                if len(out) >= cap:
                    return out
    return out


def instantiate(goal, hyps, skolems, near=False):
    if not CTX.ghosts:
        return []
    out = ematch([goal] + list(hyps))
    skip = {n for n, d in CTX.inputs.items() if d['kind'] == 'choice'} | CTX.dimnames
    terms, have = [], set()

    def add(ts):
        new = []
        for t in ts:
            if not is_z3(t):
                t = z3.IntVal(t)
            if t.get_id() in have or (z3.is_const(t) and t.decl().name() in skip):
                continue
            have.add(t.get_id())
            terms.append(t)
            new.append(t)
        return new
    add(skolems)
    add(inst_terms([goal]))
    if near:
        del terms[8:]
    else:
        add(inst_terms(hyps))
        del terms[14:]
    new_from = len(terms)
    for rnd in range(1 if near else 2):
        got = []
        for shape, f in CTX.ghosts:
            cnt = 0
            for idx in sorted(itertools.product(range(len(terms)), repeat=len(shape)), key=max) if len(shape) < 4 else itertools.product(range(len(terms)), repeat=len(shape)):
                if rnd and all(i < new_from for i in idx):
                    continue
                cnt += 1
                if cnt > 200:
                    break
                ix = [terms[i] for i in idx]
                e = instance(shape, f, ix)
                if e is not None:
                    out.append(e)
                    got.append(e)
        if rnd == 0:
            add([t for t in inst_terms(got) if t.num_args()])
            del terms[20:]
            if len(terms) == new_from:
                break
    return out


def sum_lemmas(P, depth):
    """sign lemmas for sums and pairwise comparison of sums over the same range (proved pointwise)"""
    out = []
    items = list(P.sums.items())[:8]
    for aid, a in items:
        bs, ds, mono = a.data
        body = sym.mono_expr(mono)
        body = body if body.sort() == RL else z3.ToReal(body)
        ks = [fresh('s', I) for _ in bs]
        bz = z3.substitute(body, *list(zip(bs, ks)))
        dz = [toint(pexpr(d)) for d in ds]
        rng = [z3.And(q >= 0, q < d) for q, d in zip(ks, dz)]
        v = P.map[aid]
        st = CTX.push()
        try:
            for r in rng:
                CTX.pc.append(r)
            pos = smt(bz >= 0, ks, (), depth + 1, 1500).status == 'proved'
            neg = (not pos) and smt(bz <= 0, ks, (), depth + 1, 1500).status == 'proved'
            strict = pos and smt(bz > 0, ks, (), depth + 1, 1500).status == 'proved'
        finally:
            CTX.pop(st)
        if pos:
            out.append(v >= 0)
        if neg:
            out.append(v <= 0)
        if strict:
            out.append(z3.Implies(z3.And(*[P.term(d) >= 1 for d in dz]), v > 0))
    for (i1, a1), (i2, a2) in itertools.combinations(items, 2):
        b1, d1, m1 = a1.data
        b2, d2, m2 = a2.data
        if len(b1) != len(b2) or [sym.pkey(x) for x in d1] != [sym.pkey(x) for x in d2]:
            continue
        ks = [fresh('s', I) for _ in b1]
        e1 = z3.substitute(zr(sym.mono_expr(m1)), *list(zip(b1, ks)))
        e2 = z3.substitute(zr(sym.mono_expr(m2)), *list(zip(b2, ks)))
        dz = [toint(pexpr(d)) for d in d1]
        st = CTX.push()
        try:
            for q, d in zip(ks, dz):
                CTX.pc.append(z3.And(q >= 0, q < d))
            le = smt(e1 <= e2, ks, (), depth + 1, 1500).status == 'proved'
            ge = smt(e1 >= e2, ks, (), depth + 1, 1500).status == 'proved'
        finally:
            CTX.pop(st)
        if le:
            out.append(P.map[i1] <= P.map[i2])
        if ge:
            out.append(P.map[i1] >= P.map[i2])
    return out


def quad_lemmas(P, depth):
    """an integral of a positive function is strictly increasing in its upper limit and zero over an empty range"""
    out = []
    items = list(P.quads.items())[:6]
    for n, (i1, a1) in enumerate(items):
        _, ks, dps, dep, ops = a1.data
        x = ks[0]
        g = zr(sym.mono_expr(dep))
        lo, hi = P.poly(ops[0]), P.poly(dps[0])
        out.append(z3.Implies(lo == hi, P.map[i1] == 0))
        q = fresh('x', RL)
        st = CTX.push()
        try:
            CTX.pc += [q > zr(pexpr(ops[0]))]
            pos = smt(z3.substitute(g, (x, q)) > 0, [], (), depth + 1, 1500).status == 'proved'
        finally:
            CTX.pop(st)
        if not pos:
            continue
        out.append(z3.Implies(lo < hi, P.map[i1] > 0))
        for i2, a2 in items[n + 1:]:
            _, ks2, dps2, dep2, ops2 = a2.data
            g2 = z3.substitute(zr(sym.mono_expr(dep2)), (ks2[0], x))
            if not (z3.eq(g, g2) or equal_canon(g, g2) == (True, [])) or sym.pkey(ops[0]) != sym.pkey(ops2[0]):
                continue
            h2 = P.poly(dps2[0])
            out += [z3.Implies(z3.And(hi < h2, hi >= lo), P.map[i1] < P.map[i2]), z3.Implies(z3.And(h2 < hi, h2 >= lo), P.map[i2] < P.map[i1]), z3.Implies(hi == h2, P.map[i1] == P.map[i2])]
    return out


ATTAINED = {}


def attained(aid, which, be, ks, dz, h):
    """is the extremum attained at index h: no entry lies beyond the entry at h (proved for a fresh index)"""
    key = (aid, tuple(x.get_id() for x in h), tuple(c.get_id() for c in CTX.pc))
    if key in ATTAINED:
        return ATTAINED[key][0]
    ATTAINED[key] = (False,)        # not recursively
    rng = z3.And(*[z3.And(x >= 0, x < d) for x, d in zip(h, dz)])
    ok = smt(rng, (), (), 3, 1500, quick=True).status == 'proved'
    if ok:
        fs = [fresh('k', I) for _ in ks]
        st = CTX.push()
        try:
            for q, d in zip(fs, dz):
                for c in (q >= 0, q < d):
                    CTX.pc.append(c)
                    CTX.solver.add(c)
            a, b = z3.substitute(be, *zip(ks, fs)), z3.substitute(be, *zip(ks, h))
            ok = prove(a <= b if which == 'Max' else a >= b, fs, (), 3, 4000).status == 'proved'
        finally:
            CTX.pop(st)
    ATTAINED[key] = (ok, list(CTX.pc), h)
    return ok


def ext_lemmas(P, exprs, skolems):
    """a maximum is attained and not below any entry"""
    out = []
    if not P.exts:
        return out
    terms = list(skolems)
    have = {t.get_id() for t in terms if is_z3(t)}
    for t in inst_terms(exprs):
        if t.get_id() not in have:
            have.add(t.get_id())
            terms.append(t)
    for aid, a in list(P.exts.items())[:5]:
        which, ks, dps, body, _ = a.data
        be = zr(pexpr(body))
        dz = [toint(pexpr(d)) for d in dps]
        ws = [fresh('w', I) for _ in ks]
        try:
            for h in CTX.hints:
                if len(h) == len(ks) and attained(aid, which, be, ks, dz, h):
                    out.append(P.map[aid] == P.term(z3.substitute(be, *zip(ks, h))))
            out.append(z3.Implies(z3.And(*[P.term(d) >= 1 for d in dz]), z3.And(P.term(z3.substitute(be, *zip(ks, ws))) == P.map[aid], *[z3.And(w >= 0, w < P.term(d)) for w, d in zip(ws, dz)])))
            for n, idx in enumerate(itertools.product(terms[:8], repeat=len(ks))):
                if n > 80:
                    break
                v = P.term(z3.substitute(be, *zip(ks, idx)))
                rng = z3.And(*[z3.And(P.term(i) >= 0, P.term(i) < P.term(d)) for i, d in zip(idx, dz)])
                out.append(z3.Implies(rng, P.map[aid] >= v if which == 'Max' else P.map[aid] <= v))
        except Unsupported:
            pass
    return out
