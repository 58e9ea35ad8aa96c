"""Symbolic driver: runs a contract over all paths of the interpreted source and discharges its obligations."""
import itertools, time, traceback
from fractions import Fraction
import z3
from . import vals, files, interp, prove as prover, npm
from .sym import FQ, op_app, Unsupported, fn, fresh, is_z3, z, zr, zb, num, I, RL, B, PI, to_frac
from .vals import *
from .kit import Absent, Stop, Discard


class SMod:
    def __init__(self, w, m):
        object.__setattr__(self, '_w', w)
        object.__setattr__(self, '_mm', m)

    def __getattr__(self, n):
        v = self._w.mod_attr(self._mm, n)
        return FQ(v) if type(v) is Fraction else v

    def __setattr__(self, n, v):
        self._mm.ns[n] = v


class NPX:
    """numpy model usable as T.np.x(...) from native contract code"""
    def __init__(self, w, ns):
        self._w, self._ns = w, ns

    def __getattr__(self, n):
        v = self._w.mod_attr(self._ns, n)
        if isinstance(v, npm.NS):
            return NPX(self._w, v)
        if isinstance(v, (int, Fraction, float, Sc)) or isinstance(v, npm.DT if hasattr(npm, 'DT') else ()):
            return v
        if isinstance(v, interp.WithWorld) or callable(v):
            return lambda *a, **k: self._w.call(v, list(a), k)
        return v


def sraw(x):
    return raw(x) if not isinstance(x, bool) else x


class LoopSpec:
    pass


class SymT:
    sym = True

    def __init__(self, drv, overrides=None, frame=False):
        self.drv = drv
        self.w = interp.World(overrides)
        self.np = NPX(self.w, self.w.np)
        self.w.T = self
        self.frame = frame
        self._uniq = {}
        files.ON[0] = False
        self.arrs = []
        self.tracked = []
        self.skol = []
        self.known = None
        self.findings = drv.findings

    def _nm(self, name):
        k = self._uniq.get(name, 0)
        self._uniq[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    def _reg(self, name, d):
        CTX.inputs[name] = d

    # ---- inputs
    def int(self, name, lo=None, hi=None, gen=None):
        name = self._nm(name)
        c = z3.Int(name)
        self._reg(name, dict(kind='int', const=c, gen=gen, lo=lo, hi=hi))
        if lo is not None and hi is not None and lo == hi:
            return int(lo)
        if lo is not None:
            CTX.assume(c >= z(sraw(lo)))
        if hi is not None:
            CTX.assume(c <= z(sraw(hi)))
        return Sc(c)

    def real(self, name, lo=None, hi=None, gen=None, gt=None, lt=None):
        name = self._nm(name)
        c = z3.Real(name)
        self._reg(name, dict(kind='real', const=c, gen=gen, lo=lo if lo is not None else gt, hi=hi if hi is not None else lt))
        for v, f in ((lo, lambda a: c >= a), (hi, lambda a: c <= a), (gt, lambda a: c > a), (lt, lambda a: c < a)):
            if v is not None:
                CTX.assume(f(zr(sraw(v))))
        return Sc(c)

    def bool(self, name):
        name = self._nm(name)
        c = z3.Bool(name)
        self._reg(name, dict(kind='bool', const=c))
        return CTX.decide(c)

    def choice(self, name, opts):
        name = self._nm(name)
        opts = list(opts)
        c = z3.Int(name)
        self._reg(name, dict(kind='choice', const=c, n=len(opts)))
        CTX.assume(z3.And(c >= 0, c < len(opts)))
        for k in range(len(opts) - 1):
            if CTX.decide(c == k):
                return opts[k]
        CTX.assume(c == len(opts) - 1)
        return opts[-1]

    def array(self, name, shape, kind='f', lo=None, hi=None, gen=None, dtype=None, gt=None, fill=None, vals=None, plain=False):
        name = self._nm(name)
        shape = tuple(sraw(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        nd = len(shape)
        CTX.dimnames |= {d.decl().name() for d in shape if is_z3(d) and z3.is_const(d)}
        sorts = [I] * nd
        out = {'f': RL, 'i': I, 'b': B, 'c': RL}[kind]
        if kind == 'c':
            fr, fi = fn(name + '.re', *(sorts + [RL])), fn(name + '.im', *(sorts + [RL]))
            a = Arr(shape, lambda idx: Cx(fr(*[z(i) for i in idx]), fi(*[z(i) for i in idx])), 'c', name)
            fs = [name + '.re', name + '.im']
        else:
            f = fn(name, *(sorts + [out]))
            a = Arr(shape, lambda idx: f(*[z(i) for i in idx]), kind, name)
            fs = [name]
        g = a.frozen()
        if any(v is not None for v in (lo, hi, gt)):
            def bound(*idx):
                x = g(idx)
                cs = []
                if lo is not None:
                    cs.append(r_cmp('>=', x, sraw(lo)))
                if hi is not None:
                    cs.append(r_cmp('<=', x, sraw(hi)))
                if gt is not None:
                    cs.append(r_cmp('>', x, sraw(gt)))
                return r_and(*cs)
            CTX.ghosts.append((shape, bound))
        self._reg(name, dict(kind='array', fns=fs, shape=shape, akind=kind))
        if dtype is not None:
            a = npm.astype(a, dtype)
        self.arrs.append((name, a, a.frozen()))
        return a

    def alist(self, name, n, shape, **k):
        n = sraw(n)
        a = self.array(name, (n,) + tuple(shape), **k)
        g = a.frozen()
        self.arrs.pop()
        cache = {}
        shp = a.shape[1:]

        def at(i):
            i = sraw(i)
            key = rkey(i)
            if key not in cache:
                x = Arr(shp, lambda idx: g((i,) + tuple(idx)), a.kind, '%s[%s]' % (name, i))
                cache[key] = x
                self.arrs.append(('%s[%s]' % (name, i), x, x.frozen()))
            return cache[key]
        if isinstance(n, int):
            return [at(i) for i in range(n)]
        return SymSeq(n, at)

    def track(self, name, obj):
        self.tracked.append((name, obj, list(obj) if isinstance(obj, list) else dict(obj) if isinstance(obj, dict) else obj))
        return obj

    def seed(self, name='seed'):
        return self.int(name, 0, 2 ** 31 - 1, gen=(0, 2 ** 20))

    # ---- files
    def folder(self):
        files.ON[0] = True
        return '/scratch'

    def write_file(self, path, segs):
        f = files.b_open(self.w, path, 'wb')
        for v, d in segs:
            a = npm.astype(npm.array(v), d)
            files.tofile(self.w, npm.flatten(a, order='F') if a.ndim > 1 else a, f)

    def single(self, x):
        """nearest 32-bit number"""
        return elementwise(files.single, lambda *k: 'f', x)

    # ---- annotations
    def loop(self, func, inv, k=0, held=None, facts=None):
        """invariant of the k-th loop of a function: inv(i, pre) -> {variable: value at the start of iteration i}"""
        s = LoopSpec()
        s.func, s.inv, s.k, s.held, s.facts = func, inv, k, held, facts
        self.w.loops.setdefault(func, {})[k] = s

    def seq(self, n, f):
        return SymSeq(sraw(n), lambda i: f(wrap(i)))

    def ghost(self, name, *dims, kind='i'):
        """specification-only function of integers"""
        f = fn('ghost.' + name, *([I] * len(dims) + [{'i': I, 'f': RL, 'b': B}[kind]]))
        return lambda *ix: wrap(f(*[z(sraw(i)) for i in ix]))

    def given(self, dims, f):
        """precondition: f(*idx) for every index in range"""
        CTX.ghosts.append((tuple(None if d is None else sraw(d) for d in dims), lambda *ix: truth(sraw(f(*[wrap(i) for i in ix])))))

    def hint(self, *ix):
        """name an index at which quantified facts (extrema) are worth instantiating"""
        CTX.hints.append(tuple(z(sraw(i)) for i in ix))

    def split(self, c):
        return CTX.decide(truth(sraw(c)))

    # ---- state
    def mod(self, name):
        try:
            m = self.w.getmod(name)
        except PyExc as e:
            raise Absent(str(e))
        return SMod(self.w, m)

    def setmod(self, name, **vals_):
        m = self.w.getmod(name)
        for k, v in vals_.items():
            m.ns[k] = v

    def restore(self):
        pass

    def snapshot(self):
        out = {}
        for nm in ('const', 'conv'):
            m = self.w.mods.get('tools21cm.' + nm)
            if m is not None:
                out[nm] = {k: v for k, v in m.ns.items() if isinstance(v, (int, float, str, bool, Fraction, Sc)) and not k.startswith('__')}
        return out

    # ---- calls
    def resolve(self, path):
        parts = path.split('.')
        try:
            o = self.w.getmod(parts[0])
            for p in parts[1:]:
                o = self.w.mod_attr(o, p) if isinstance(o, interp.Module) else self.w.getattr(o, p)
        except PyExc as e:
            raise Absent(str(e))
        return o

    def call(self, path, *a, **k):
        f = self.resolve(path) if isinstance(path, str) else path
        nm = path if isinstance(path, str) else 'call'
        st = self.snapshot() if self.frame else None
        try:
            r = self.w.call(f, list(a), dict(k))
        except PyExc as e:
            if not self.frame:
                self.drv.obligation('returns(%s)' % nm, lambda: z3.BoolVal(False), detail='raises %s: %s' % (e.etype, e.msg))
            raise Stop()
        if not self.frame:
            self.drv.note_ok('returns(%s)' % nm)
        else:
            self.check_frame(nm, st)
        return r

    def try_call(self, path, *a, **k):
        f = self.resolve(path) if isinstance(path, str) else path
        try:
            return True, self.w.call(f, list(a), dict(k))
        except PyExc as e:
            return False, e.etype

    def method(self, obj, name, *a, **k):
        try:
            f = self.w.getattr(obj, name)
        except PyExc as e:
            raise Absent(str(e))
        return self.call(f, *a, **k)

    def attr(self, obj, name):
        try:
            return self.w.getattr(obj, name)
        except PyExc as e:
            raise Absent(str(e))

    def check_frame(self, nm, st):
        for name, a, old in list(self.arrs):
            if a.buf.writes == 0:
                self.drv.note_ok('frame(%s, %s)' % (nm, name))
            else:
                b = Arr(a.shape, old, a.kind)
                self._eq('frame(%s, %s)' % (nm, name), a, b, force=True)
        for name, cur, old in self.tracked:
            same = self.py_same(cur, old)
            self.drv.obligation('frame(%s, %s)' % (nm, name), lambda: same)
        if st is not None:
            now = self.snapshot()
            for m in st:
                for k, v in st[m].items():
                    w = now[m].get(k)
                    if w is v or (type(w) is type(v) and not isinstance(v, Sc) and w == v):
                        continue
                    self.drv.obligation('frame(%s, %s.%s)' % (nm, m, k), lambda v=v, w=w: r_cmp('==', sraw(v), sraw(w)))
            self.drv.note_ok('frame(%s, globals)' % nm)

    def py_same(self, a, b):
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b):
                return False
            return r_and(*[self.py_same(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return r_and(*[self.py_same(a[k], b[k]) for k in a])
        if a is b:
            return True
        if is_scalar(a) and is_scalar(b):
            return r_cmp('==', sraw(a), sraw(b))
        return a == b if isinstance(a, str) else False

    # ---- logic
    def assume(self, c):
        CTX.assume(zb(truth(sraw(c))) if not isinstance(c, bool) else c)

    def finding(self, fid, c):
        if fid in self.findings:
            c = truth(sraw(c))
            if CTX.decide(c if isinstance(c, bool) else zb(c)):
                self.known = fid
                self.drv.known(fid)
                raise Stop()

    def ensure(self, name, c, detail=''):
        if self.frame:
            return

        def goal():
            v = c() if callable(c) else c
            if isinstance(v, Arr):
                v = self._all(v)
                return v
            return truth(sraw(v))
        self.drv.obligation(name, goal, detail=detail)

    def lemma(self, name, c):
        """an obligation that later ones may use"""
        if self.frame:
            return
        self.ensure(name, c)
        if self.drv.obl[-1]['status'] == 'proved':
            CTX.assume(truth(sraw(c)))

    def _all(self, a):
        ks = []
        for d in a.shape:
            k = fresh('k', I)
            CTX.assume(z3.And(k >= 0, k < z(d)))
            ks.append(k)
        self.skol += ks
        return truth(a.get(tuple(ks)))

    def ensure_eq(self, name, a, b, rtol=None, atol=None):
        if self.frame:
            return
        self._eq(name, a, b)

    def _eq(self, name, a, b, force=False):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            self.drv.obligation(name, lambda: (type(a) == type(b) and a == b))
            return
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
                self.drv.obligation(name, lambda: False)
                return
            for k in a:
                self._eq('%s[%s]' % (name, k), a[k], b[k], force)
            return
        for p, q in ((a, b), (b, a)):
            if isinstance(p, (list, tuple)) and len(p) == 0 and isinstance(q, SymSeq):
                n = q.n
                self.drv.obligation(name, lambda: n == 0 if isinstance(n, int) else z(n) == 0)
                return
        try:
            x, y = as_arr(a), as_arr(b)
        except PyExc as e:
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
                for k, (p, q) in enumerate(zip(a, b)):
                    self._eq('%s[%d]' % (name, k), p, q, force)
                return
            raise Unsupported('comparison of ragged values')
        if x.sel is not None or y.sel is not None:
            if x.sel is not None and y.sel is not None and x.sel.mkey == y.sel.mkey:
                s1, s2 = x.sel, y.sel

                def goal():
                    ks = self._skolems(s1.shape)
                    m = s1.mask(ks)
                    return r_or(r_not(truth(m)), r_cmp('==', s1.val(ks), s2.val(ks)))
                self.drv.obligation(name, goal)
                return
            raise Unsupported('comparison of selections')
        if x.ndim != y.ndim:
            self.drv.obligation(name + ':ndim', lambda: False, detail='ndim %d expected %d' % (x.ndim, y.ndim))
            raise Stop()
        for k, (p, q) in enumerate(zip(x.shape, y.shape)):
            if not (isinstance(p, int) and isinstance(q, int) and p == q) and not (is_z3(p) and is_z3(q) and z3.eq(p, q)):
                r = self.drv.obligation('%s:shape%d' % (name, k), lambda: r_cmp('==', p, q))
                if not r:
                    return
        fx, fy = x.frozen(), y.frozen()

        def goal_part(part):
            def goal():
                ks = self._skolems(y.shape)
                u, v = fx(ks), fy(ks)
                if part is not None:
                    u, v = part(u), part(v)
                return r_cmp('==', u, v)
            return goal
        if x.kind == 'c' or y.kind == 'c':
            self.drv.obligation(name + '.re', goal_part(cre))
            self.drv.obligation(name + '.im', goal_part(cim))
        elif x.kind == 'S' or y.kind == 'S' or x.kind == 'O' or y.kind == 'O':
            if all_int(x.shape):
                ok = True
                for ix in itertools.product(*[range(d) for d in x.shape]):
                    p, q = fx(ix), fy(ix)
                    if isinstance(p, (str, type(None))) or isinstance(q, (str, type(None))):
                        ok = r_and(ok, p == q)
                    else:
                        self._eq('%s%s' % (name, list(ix)), wrap(p) if not isinstance(p, (Arr, list, tuple)) else p, wrap(q) if not isinstance(q, (Arr, list, tuple)) else q, force)
                self.drv.obligation(name, lambda: ok)
            else:
                raise Unsupported('object arrays')
        else:
            self.drv.obligation(name, goal_part(None))

    def _skolems(self, shape):
        ks = []
        for d in shape:
            k = fresh('k', I)
            CTX.assume(z3.And(k >= 0, k < z(d)))
            ks.append(k)
        self.skol += ks
        return tuple(ks)

    def ensure_le(self, name, a, b, rtol=None, atol=None):
        if self.frame:
            return
        c = (a <= b) if isinstance(a, (Arr, Sc)) else (b >= a) if isinstance(b, (Arr, Sc)) else None
        if c is None:
            c = npm_le(self, a, b)
        self.ensure(name, c)

    def forall(self, name, dims, f, limit=None):
        if self.frame:
            return

        def goal():
            ks = self._skolems([sraw(d) for d in dims])
            r = f(*[wrap(k) for k in ks])
            if isinstance(r, tuple):
                u, v = sraw(r[1]), sraw(r[2])
                if r[0] == 'eq':
                    if isinstance(u, Cx) or isinstance(v, Cx):
                        return r_and(r_cmp('==', cre(u), cre(v)), r_cmp('==', cim(u), cim(v)))
                    return r_cmp('==', u, v)
                return r_cmp('<=', u, v)
            return truth(sraw(r))
        self.drv.obligation(name, goal)

    # ---- spec language
    def ite(self, c, a, b):
        return wrap(r_ite(truth(sraw(c)), sraw(a), sraw(b)))

    def land(self, *xs):
        return wrap(r_and(*[truth(sraw(x)) for x in xs]))

    def lor(self, *xs):
        return wrap(r_or(*[truth(sraw(x)) for x in xs]))

    def lnot(self, x):
        return wrap(r_not(truth(sraw(x))))

    def imp(self, a, b):
        return wrap(r_or(r_not(truth(sraw(a))), truth(sraw(b() if callable(b) and not isinstance(b, (Sc, Arr)) else b))))

    def sum(self, dims, f):
        return wrap(npm.raw_sum(lambda *k: sraw(f(*[wrap(q) for q in k])), [sraw(d) for d in dims]))

    def exists(self, dims, f):
        return wrap(npm.raw_any(lambda *k: truth(sraw(f(*[wrap(q) for q in k]))), [sraw(d) for d in dims]))

    def integral(self, f, a, b):
        from . import models
        x = fresh('x', RL)
        return wrap(op_app('Quad', [x], zr(sraw(f(wrap(x)))), [zr(sraw(b))], (zr(sraw(a)),)))

    def build(self, shape, f, kind='f'):
        return Arr(tuple(sraw(s) for s in shape), lambda idx: cast(kind, sraw(f(*[wrap(q) for q in idx]))), kind)

    def shape(self, a):
        return tuple(wrap(d) for d in as_arr(a).shape)

    def kind(self, a):
        return as_arr(a).kind

    def at(self, a, *ix):
        if isinstance(a, SymSeq):
            r = a.at(sraw(ix[0]))
            if len(ix) > 1:
                return self.at(r, *ix[1:])
            return r if not is_scalar(r) else wrap(sraw(r))
        if isinstance(a, (list, tuple)) and len(ix) == 1 and isinstance(sraw(ix[0]), int):
            return a[sraw(ix[0])]
        a = as_arr(a)
        ix = tuple(sraw(i) for i in ix)
        if len(ix) < a.ndim:
            return getitem(a, tuple(wrap(i) for i in ix)) if True else None
        return wrap(a.get(ix))

    def is_scalar(self, x):
        return is_scalar(x)

    def floor(self, x):
        return wrap(r_floor(sraw(x)))

    def const_eq(self, a, b):
        return wrap(r_cmp('==', sraw(a), sraw(b)))

    def clear(self, x, eps=None):
        pass

    def apart(self, a, b, eps=None):
        pass

    def concrete(self, f):
        return None


def npm_le(T, a, b):
    return arr_binop('<=', as_arr(a), as_arr(b)) if not (is_scalar(a) and is_scalar(b)) else wrap(r_cmp('<=', sraw(a), sraw(b)))


# ======================================================================= driver
class Driver:
    def __init__(self, c, frame=False, findings=(), budget=60, paths=200, timeout=None):
        self.c, self.frame, self.findings = c, frame, findings
        self.budget, self.maxpaths = budget, paths
        self.obl = []           # dicts
        self.seeds = []
        self.unsupported = []
        self.absent = None
        self.npaths = 0
        self.live = 0
        self.knowns = set()
        self.truncated = False
        self.assumed = []
        self.timeout = timeout

    def known(self, fid):
        self.knowns.add(fid)

    def note_ok(self, name):
        self.obl.append(dict(name=name, path=self.npaths, status='proved', how='trivial'))

    def obligation(self, name, goal, detail=''):
        t0 = time.time()
        T = self.T
        if time.time() > self.deadline:
            self.obl.append(dict(name=name, path=self.npaths, status='unknown', how='budget', detail='time budget'))
            return False
        st = CTX.push()
        sk0 = list(T.skol)
        T.skol = []
        try:
            try:
                g = goal()
                r = prover.prove(g, [k for k in T.skol], timeout=self.timeout)
            except Unsupported as e:
                r = prover.Result('unknown', 'unsupported', None, str(e))
            except PyExc as e:
                r = prover.Result('unknown', 'spec raised', None, str(e))
            except Infeasible:
                r = prover.Result('proved', 'vacuous range')
            o = dict(name=name, path=self.npaths, status=r.status, how=r.how, s=round(time.time() - t0, 3))
            if r.status != 'proved':
                o['detail'] = (detail + ' ' + str(r.detail or ''))[:400]
                if r.status == 'refuted' and r.model is not None:
                    for m in [r.model] + (getattr(r, 'models', None) or []):
                        sd = self.concretise(m, getattr(r, 'fapps', None))
                        if sd is not None:
                            sd['__why__'] = '%s: counter-model of the failed obligation' % name
                            self.seeds.append(sd)
                            o.setdefault('cex', summarise(sd))
                else:
                    self.path_seed(name)
        finally:
            CTX.pop(st)
            T.skol = sk0
        self.obl.append(o)
        return r.status == 'proved'

    def path_seed(self, why):
        if len(self.seeds) > 60:
            return
        s = CTX.solver
        softs = soft_constraints()
        got = None
        for lvl in softs:
            s.push()
            for c in lvl:
                s.add(c)
            r = s.check()
            if r == z3.sat:
                got = s.model()
            s.pop()
            if got is not None:
                break
        if got is None and s.check() == z3.sat:
            got = s.model()
        if got is not None:
            sd = self.concretise(got, None)
            if sd is not None:
                sd['__why__'] = 'model of the path condition at: %s' % why
                self.seeds.append(sd)

    def concretise(self, m, fapps):
        out = {}
        for name, d in CTX.inputs.items():
            try:
                if d['kind'] in ('int', 'choice'):
                    out[name] = m.eval(d['const'], model_completion=True).as_long()
                elif d['kind'] == 'bool':
                    out[name] = z3.is_true(m.eval(d['const'], model_completion=True))
                elif d['kind'] == 'real':
                    v = m.eval(d['const'])
                    if z3.is_const(v) and not z3.is_rational_value(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        continue      # free
                    out[name] = fval(v)
                elif d['kind'] == 'array':
                    pts, els = {}, None
                    for k, f in enumerate(d['fns']):
                        ent = []
                        if fapps is not None:
                            for args, v in fapps.get(f, []):
                                ent.append((args, v))
                        else:
                            for dec in m.decls():
                                if dec.name() == f and dec.arity() > 0:
                                    fi = m[dec]
                                    for i in range(fi.num_entries()):
                                        e = fi.entry(i)
                                        ent.append((tuple(e.arg_value(j).as_long() for j in range(e.num_args())), vval(e.value())))
                        for args, v in ent[:300]:
                            p = pts.setdefault(tuple(args), [0.0, 0.0])
                            p[k] = v
                    P = []
                    for ix, v in pts.items():
                        P.append([list(ix), v if len(d['fns']) == 2 else v[0]])
                    out[name] = {'__pts__': P}
            except Exception as e:
                continue
        return out

    def run(self):
        t0 = time.time()
        self.deadline = t0 + self.budget
        todo = [[]]
        while todo:
            if self.npaths >= self.maxpaths or time.time() > self.deadline:
                self.truncated = True
                break
            prefix = todo.pop()
            CTX.reset(prefix)
            T = self.T = SymT(self, self.c.opts.get('overrides', lambda: None)() if callable(self.c.opts.get('overrides')) else None, self.frame)
            self.npaths += 1
            try:
                self.c.fn(T)
                self.finish('end')
            except Stop:
                self.finish('stop')
            except Infeasible:
                pass
            except Absent as e:
                self.absent = str(e)
                break
            except PyExc as e:
                self.unsupported.append('path %d: uncaught %s' % (self.npaths, e))
                self.path_seed(str(e))
            except Unsupported as e:
                self.unsupported.append('path %d: %s' % (self.npaths, str(e)[:200]))
                self.path_seed(str(e)[:120])
            except z3.Z3Exception as e:
                self.unsupported.append('path %d: z3 %s at %s' % (self.npaths, str(e)[:150], where()))
                self.path_seed('z3')
            except (RecursionError, AttributeError, TypeError, ValueError, KeyError, IndexError, AssertionError, NotImplementedError, ZeroDivisionError, OverflowError) as e:
                self.unsupported.append('path %d: engine %s: %s at %s' % (self.npaths, type(e).__name__, str(e)[:150], where()))
                self.path_seed('engine')
            tr = CTX.trace
            for k in range(len(tr) - 1, len(prefix) - 1, -1):
                v, forced = tr[k]
                if v and not forced:
                    todo.append([(a, b) for a, b in tr[:k]] + [(False, True)])
        self.wall = time.time() - t0
        return self

    def finish(self, how):
        """vacuity: the path condition (preconditions included) must be satisfiable"""
        r = CTX.solver.check()
        if r == z3.sat:
            self.live += 1
            if len(self.seeds) < 40:
                self.path_seed('path %d' % self.npaths)
        for n in CTX.notes:
            if n not in self.assumed:
                self.assumed.append(n)


def where():
    import sys
    tb = traceback.extract_tb(sys.exc_info()[2])
    return ' < '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-4:]))


def fval(v):
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    return float(v.as_long())


def vval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    return fval(v)


def soft_constraints():
    """levels of preferences for counter-models: small dimensions, parameters in their usual range"""
    l1, l2, l3 = [], [], []
    for name, d in CTX.inputs.items():
        if d['kind'] == 'int':
            c = d['const']
            lo = sraw(d['lo']) if d.get('lo') is not None else None
            base = lo if isinstance(lo, int) else 0
            g = d.get('gen')
            if g is not None and all(isinstance(x, int) for x in g):
                l1.append(z3.And(c >= g[0], c <= g[1]))
                l2.append(c <= max(40, 4 * g[1]))
                l3.append(c <= max(400, 100 * g[1]))
            else:
                l1.append(c <= base + 6)
                l2.append(c <= base + 40)
                l3.append(c <= base + 400)
        elif d['kind'] == 'real':
            c = d['const']
            g = d.get('gen')
            if g is not None:
                l1.append(z3.And(c >= zr(to_frac(g[0])), c <= zr(to_frac(g[1]))))
                l2.append(z3.And(c >= zr(to_frac(g[0] - 10 * abs(g[0]) - 1)), c <= zr(to_frac(g[1] * 10 + 1))))
    return [l1 + l2, l2 + l3, l3]


def summarise(sd):
    out = {}
    for k, v in sd.items():
        out[k] = v if not isinstance(v, dict) else {'pts': v.get('__pts__', [])[:6]}
    return out


prover.SOFT = soft_constraints


def _native_getitem(a, ix):
    r = getitem(a, ix)
    return unwrap0(r) if isinstance(r, Arr) and r.ndim == 0 else r


Arr.__getitem__ = _native_getitem
Arr.__setitem__ = lambda a, ix, v: setitem(a, ix, v)
SymSeq.__getitem__ = lambda s, i: s.at(norm_index(i, s.n))
Arr.astype = lambda a, d: npm.astype(a, d)
Arr.copy_ = Arr.copy
