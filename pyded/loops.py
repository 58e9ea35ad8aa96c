"""Loop rules: one symbolic iteration from a havocked state, then an inductively justified closed form."""
import ast, itertools
import z3
from .sym import Unsupported, fn, fresh, is_z3, z, zr, zb, num, canon, pexpr, I, RL, B, sum_term, BYKEY, ATOMS
from . import sym, npm
from .vals import *
from .vals import _conc
from .interp import Env, Poison, _Break, _Continue, _Return


def mentions(e, names):
    """does a raw value mention any symbol (const or function) whose name is in names"""
    if isinstance(e, Cx):
        return mentions(e.re, names) or mentions(e.im, names)
    if not is_z3(e):
        return False
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                return True
            st.extend(x.children())
    return False


def fn_apps(e, name):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == name:
                out.append(x)
            st.extend(x.children())
    return out


class Repl:
    """substitution for havoc symbols: constants and functions"""
    def __init__(self):
        self.consts, self.funs = [], []

    def add_const(self, c, e):
        self.consts.append((c, e))

    def add_fun(self, f, dims_n, body):
        """body: python function of z3 args"""
        js = [fresh('a', I) for _ in range(dims_n)]
        b = z(body(tuple(js)))
        if b.sort() != f.range():
            b = zr(b) if f.range() == RL else zb(b) if f.range() == B else b
        b = z3.substitute(b, *[(j, z3.Var(k, I)) for k, j in enumerate(js)]) if js else b
        self.funs.append((f, b))

    def __call__(self, e):
        if isinstance(e, Cx):
            return Cx(self(e.re), self(e.im))
        if not is_z3(e):
            return e
        for _ in range(3):
            o = e
            if self.funs:
                e = z3.substitute_funs(e, *self.funs)
            if self.consts:
                e = z3.substitute(e, *self.consts)
            if o.get_id() == e.get_id():
                break
        return simp(e)


def tv(v, f):
    """transform the raws inside an interpreter value"""
    if isinstance(v, Sc):
        return wrap(f(v.e))
    if isinstance(v, Arr):
        if v.sel is not None:
            return Poison('selection')
        fr = v.frozen()
        r = Arr([dsimp(f(d)) if is_z3(d) else d for d in v.shape], lambda idx: f(fr(idx)), v.kind)
        r.unit = v.unit
        return r
    if isinstance(v, tuple):
        return tuple(tv(x, f) for x in v)
    if isinstance(v, list):
        return [tv(x, f) for x in v]
    if isinstance(v, SymSeq):
        return SymSeq(f(v.n) if is_z3(v.n) else v.n, lambda i: tv(v.at(i), f), v.what)
    return v


class Outcome:
    pass


def merged_call(w, f, args, rng):
    """value of the pure call f(*args), its internal branches merged into if-then-else terms, under the assumption rng"""
    def run(o):
        o.v = w.call(f, list(args), {})
    outs = explore_body(None, None, run, rng=rng)
    for o in outs:
        if o.exc is not None:
            raise Unsupported('exception inside a merged call: %s' % o.exc)
        if any(tag is None or tag[0] in ('list', 'symlist') for u, tag in o.trail):
            raise Unsupported('side effects inside a merged call')
    if not outs:
        raise Infeasible()
    v = merge_vals(outs, lambda o: o.v)
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    return v


def explore_body(i, n, run, limit=40, rng=None):
    """run() under every feasible decision sequence with 0<=i<n; yields Outcomes"""
    outs = []
    pending = [[]]
    outer_trail = CTX.trail
    while pending:
        pre = pending.pop()
        st = CTX.push()
        gl = len(CTX.ghosts)
        CTX.prefix, CTX.trace = pre, []
        CTX.trail = []
        o = Outcome()
        o.exc = None
        xb = CTX.xbase
        if xb is None:
            CTX.xbase = len(CTX.pc)
        try:
            CTX.assume(z3.And(i >= 0, i < z(n)) if rng is None else rng)
            base = len(CTX.pc)
            try:
                run(o)
            except PyExc as e:
                o.exc = e
            o.cond = list(CTX.pc[base:])
            o.trace = list(CTX.trace)
            o.trail = CTX.trail
            ok = True
        except Infeasible:
            ok = False
            o.trace = list(CTX.trace)
        finally:
            tr = CTX.trail
            for u, tag in reversed(tr):
                CTX.trail = None
                u()
            CTX.trail = outer_trail
            CTX.xbase = xb
            CTX.pop(st)
        if ok:
            outs.append(o)
        if len(outs) > limit:
            raise Unsupported('too many paths through a loop body')
        k = len(pre)
        for q in range(len(o.trace) - 1, k - 1, -1):
            v, forced = o.trace[q]
            if not forced:
                pending.append(o.trace[:q] + [(not v, True)])
    return outs


def cond_of(o):
    return z3.And(*o.cond) if o.cond else z3.BoolVal(True)


def merge_raw(outs, get):
    r = None
    for o in reversed(outs):
        v = get(o)
        r = v if r is None else r if same_term(v, r) else r_ite(cond_of(o), v, r)
    return r


def same_term(a, b):
    """equal terms up to the names of bound variables"""
    if not is_z3(a) or not is_z3(b) or isinstance(a, Cx) or isinstance(b, Cx):
        return False
    seen, st = set(), [(a, b)]
    while st:
        x, y = st.pop()
        if z3.eq(x, y) or (x.get_id(), y.get_id()) in seen:
            continue
        seen.add((x.get_id(), y.get_id()))
        if z3.is_quantifier(x):
            if not z3.is_quantifier(y) or x.num_vars() != y.num_vars() or x.is_lambda() != y.is_lambda() or x.is_forall() != y.is_forall() \
                    or any(x.var_sort(k) != y.var_sort(k) for k in range(x.num_vars())):
                return False
            st.append((x.body(), y.body()))
        elif z3.is_app(x) and z3.is_app(y) and x.num_args() and x.num_args() == y.num_args() and x.decl().eq(y.decl()):
            st.extend(zip(x.children(), y.children()))
        else:
            return False
    return True


def merge_vals(outs, get):
    vs = [get(o) for o in outs]
    v0 = vs[0]
    if len(vs) == 1:
        return v0
    if all(v is v0 for v in vs):
        return v0
    if all(isinstance(v, Arr) for v in vs):
        k = kmax(*[v.kind for v in vs])
        if any(v.sel is not None for v in vs) or any(v.ndim != v0.ndim for v in vs):
            return Poison('merge of arrays')
        for v in vs[1:]:
            for a, b in zip(v.shape, v0.shape):
                if not dim_same(a, b):
                    return Poison('merge of arrays with different shapes')
        fs = [v.frozen() for v in vs]
        return Arr(v0.shape, lambda idx: merge_raw(list(enumerate_outs(outs, fs)), lambda p: cast(k, p.f(idx))), k)
    if all(is_scalar(v) for v in vs):
        try:
            return wrap(merge_raw(outs, lambda o: raw(get(o))))
        except Unsupported:
            return Poison('merge')
    if all(isinstance(v, tuple) and len(v) == len(v0) for v in vs):
        return tuple(merge_vals(outs, lambda o, k=k: get(o)[k]) for k in range(len(v0)))
    try:
        if all(type(v) is type(v0) and not isinstance(v, (Arr, Sc)) and v == v0 for v in vs):
            return v0
    except Exception:
        pass
    return Poison('merge of %s' % type(v0).__name__)


class _PO:
    def __init__(self, cond, f):
        self.cond, self.f = cond, f


def enumerate_outs(outs, fs):
    return [_PO(o.cond, f) for o, f in zip(outs, fs)]


def handle_excs(outs, i, n):
    good = []
    bad = {}
    for o in outs:
        if o.exc is not None:
            bad.setdefault(o.exc.etype, (o.exc, []))[1].append(o)
        else:
            good.append(o)
    for et, (exc, os_) in bad.items():
        c = z3.Or(*[cond_of(o) for o in os_])
        a = npm.raw_any(lambda k: subst_raw(c, [(i, z(k))]), [n])
        if CTX.decide(truth(a)):
            raise exc
    if not good:
        raise Unsupported('every iteration raises')
    return good


def for_rule(w, st, env, seq):
    n = seq.n
    if not CTX.decide(z(n) >= 1):
        w.exec_block(st.orelse, env)
        return
    i = fresh('i', I)
    pre_vars = dict(env.vars)
    hav = {}            # name -> (value, symbol names)
    bufh = {}           # Buf -> (fn, names)
    kinds = {}
    bufkinds = {}
    for attempt in range(6):
        def run(o):
            o.var0 = dict(env.vars)
            saved = dict(env.vars)
            for nm, (v, _, _) in hav.items():
                env.vars[nm] = v
            for b, (f, _, _) in bufh.items():
                b.set(f, 'havoc')
            mark = len(CTX.trail)
            try:
                w.assign(st.target, seq.at(i), env)
                try:
                    w.exec_block(st.body, env)
                except _Continue:
                    pass
                except _Break:
                    raise Unsupported('break in a symbolic loop')
                except _Return:
                    raise Unsupported('return inside a symbolic loop')
                o.vars = dict(env.vars)
                o.bufs = {}
                o.writes = {}
                o.lists = {}
                for u, tag in CTX.trail[mark:]:
                    if tag is None or tag[0] == 'symlist':
                        raise Unsupported('loop body mutates a container or global')
                    if tag[0] == 'buf':
                        o.bufs[tag[1]] = None
                        o.writes.setdefault(tag[1], []).append(tag[2])
                    elif tag[0] == 'list':
                        if tag[2] != 'append':
                            raise Unsupported('list.%s in a symbolic loop' % tag[2])
                        o.lists.setdefault(id(tag[1]), (tag[1], []))[1].append(tag[3][0])
                for b in o.bufs:
                    nb = Buf(b.shape, b.f, b.kind)
                    nb.cache = b.cache
                    o.bufs[b] = nb.get
            finally:
                env.vars.clear()
                env.vars.update(saved)
        # buffers that exist before the loop = those reachable; new ones have larger ids
        idmark = next(Buf._ids)
        outs = handle_excs(explore_body(i, n, run), i, n)
        changed = set()
        for o in outs:
            for nm, v in o.vars.items():
                if nm in pre_vars and v is not (hav[nm][0] if nm in hav else pre_vars[nm]):
                    changed.add(nm)
        changed = {c for c in changed if not isinstance(pre_vars[c], Poison)}
        bufs = set()
        for o in outs:
            bufs |= {b for b in o.bufs if b.id < idmark}
        new = False
        for nm in changed - set(hav):
            new = True
        for nm in changed:
            pv = pre_vars[nm]
            av = [o.vars.get(nm) for o in outs]
            if isinstance(pv, Arr):
                if not all(isinstance(a, Arr) for a in av):
                    # overwritten by something else before use: treat as a temporary
                    hav[nm] = (Poison('loop-carried'), None, None)
                    continue
                k = kmax(pv.kind, *[a.kind for a in av])
                if nm in hav and hav[nm][1] is not None and kinds[nm] == k:
                    continue
                kinds[nm] = k
                if any(len(a.shape) != len(pv.shape) or not all(dim_same(p, q) for p, q in zip(a.shape, pv.shape)) for a in av) or pv.sel is not None:
                    if nm not in hav:
                        hav[nm] = (Poison('loop-carried array of changing shape'), None, None)
                    continue
                h = npm.fresh_arr('hv_' + nm, pv.shape, k)
                hav[nm] = (h, sym_names(h), pv)
                new = True
            elif is_scalar(pv):
                if not all(is_scalar(a) for a in av):
                    if nm not in hav:
                        hav[nm] = (Poison('loop-carried'), None, None)
                    continue
                k = kmax(kind_of(raw(pv)), *[kind_of(raw(a)) for a in av])
                if nm in hav and hav[nm][1] is not None and kinds[nm] == k:
                    continue
                kinds[nm] = k
                h = npm.fresh_arr('hv_' + nm, (), k)
                hav[nm] = (wrap(h.get(())), sym_names(h), pv)
                new = True
            else:
                if nm not in hav:
                    hav[nm] = (Poison('loop-carried %s' % type(pv).__name__), None, None)
        for b in bufs:
            if b not in bufh:
                h = npm.fresh_arr('hb', b.shape, b.kind)
                old = Buf(b.shape, b.f, b.kind)
                bufh[b] = (h.buf.f, sym_names(h), old)
                new = True
        if not new:
            break
    else:
        raise Unsupported('loop state does not stabilise')
    solve(w, st, env, n, i, outs, hav, bufh, pre_vars)
    w.exec_block(st.orelse, env)


def sym_names(h):
    nm = h.buf.name
    return (nm, nm + '_re', nm + '_im')


def solve(w, st, env, n, i, outs, hav, bufh, pre_vars):
    R = Repl()
    unresolved = {}
    for nm, (v, names, pv) in hav.items():
        if names is not None:
            unresolved[('v', nm)] = names
    for b, (f, names, old) in bufh.items():
        unresolved[('b', b)] = names
    posts = {}
    starts = {}
    zn = z(n)
    ids = {('b', b): k for k, b in enumerate(bufh)}

    def ctx_entails(c):
        st_ = CTX.push()
        try:
            CTX.assume(z3.And(i >= 0, i < zn))
            return CTX.entails(c)
        except Infeasible:
            return True
        finally:
            CTX.pop(st_)

    def all_names(keys):
        s = set()
        for k in keys:
            s |= set(unresolved[k])
        return s

    progress = True
    why = {}
    while unresolved and progress:
        progress = False
        for key in list(unresolved):
            own = set(unresolved[key])
            others = all_names(k for k in unresolved if k != key)
            try:
                r = resolve(w, key, i, n, outs, hav, bufh, R, own, others, pre_vars, ctx_entails)
            except Unsupported as e:
                why[key] = str(e)
                continue
            if r is None:
                continue
            start, post = r
            del unresolved[key]
            progress = True
            posts[key] = post
            # substitution for the havoc symbols: value at the start of iteration i
            if key[0] == 'v' and not isinstance(hav[key[1]][0], Arr):
                hv = raw(hav[key[1]][0])
                s = start
                if isinstance(hv, Cx):
                    R.add_const(hv.re, zr(cre(s)))
                    R.add_const(hv.im, zr(cim(s)))
                else:
                    s = z(s)
                    if hv.sort() == RL:
                        s = zr(s)
                    elif hv.sort() == B:
                        s = zb(s)
                    R.add_const(hv, s)
            else:
                if key[0] == 'v':
                    h = hav[key[1]][0]
                    kind, nd, nm = h.kind, h.ndim, h.buf.name
                else:
                    b = key[1]
                    kind, nd, nm = b.kind, len(b.shape), bufh[b][1][0]
                add_fun(R, nm, kind, nd, start)
    if unresolved:
        # loop-carried state without an inductive rule: poison variables; buffers are fatal
        for key in unresolved:
            if key[0] == 'b':
                raise Unsupported('no loop rule applies (%s)' % why.get(key, 'array recurrence'))
    bad = all_names(unresolved)
    # list appends
    lists = {}
    for o in outs:
        for k, (lst, vs) in o.lists.items():
            lists.setdefault(k, lst)
    # final iteration values of temporaries
    last = [(i, dsimp(zn - 1))]
    lastz = [(i, z(dsimp(zn - 1)))]

    def fin(x):
        y = R(x)
        if bad and mentions(y, bad):
            raise Unsupported('depends on an unresolved loop variable')
        return y
    names = set()
    for o in outs:
        names |= set(o.vars)
    tmpvals = {}
    for nm in names:
        if nm in hav and hav[nm][1] is not None:
            continue
        if nm in pre_vars and nm not in hav:
            continue
        if not all(nm in o.vars for o in outs):
            tmpvals[nm] = Poison('assigned on some iterations only')
            continue
        v = merge_vals(outs, lambda o: o.vars[nm])
        if isinstance(v, (list, dict)) or isinstance(v, Poison):
            tmpvals[nm] = v if isinstance(v, Poison) else Poison('container temporary')
            continue
        tmpvals[nm] = tv(v, lambda x: subst_raw(fin(x), lastz))
    for key, post in posts.items():
        if key[0] == 'v':
            pv = pre_vars[key[1]]
            if isinstance(hav[key[1]][0], Arr):
                h = hav[key[1]][0]
                env.vars[key[1]] = Arr(pv.shape, lambda idx, post=post, h=h: cast(h.kind, post(idx)), h.kind)
            else:
                env.vars[key[1]] = wrap(post)
        else:
            b = key[1]
            b.set(lambda idx, post=post, b=b: cast(b.kind, post(idx)), 'loop')
    for key in unresolved:
        env.vars[key[1]] = Poison(why.get(key, 'loop-carried'))
    for nm, v in tmpvals.items():
        env.vars[nm] = v
    for nm, (v, nms, pv) in hav.items():
        if nms is None and nm not in tmpvals:
            env.vars[nm] = Poison('loop-carried')
    for k, lst in lists.items():
        if not all(k in o.lists and len(o.lists[k][1]) == 1 for o in outs):
            raise Unsupported('conditional append')
        v = merge_vals(outs, lambda o: o.lists[k][1][0])
        pref = list(lst)

        def at(j, v=v, pref=pref):
            if isinstance(j, int) and j < len(pref):
                return pref[j]
            e = tv(v, lambda x: subst_raw(fin(x), [(i, z(simp(r_sub(j, len(pref)))))]))
            if pref and not isinstance(j, int):
                for q in reversed(range(len(pref))):
                    if is_scalar(e):
                        e = wrap(r_ite(r_cmp('==', j, q), raw(pref[q]), raw(e)))
                    elif not CTX.entails(z(j) >= len(pref)):
                        raise Unsupported('list with a concrete prefix of arrays')
            return e
        ss = SymSeq(dsimp(zn + len(pref)), at)
        hit = False
        e = env
        while e is not None:
            for nm, x in list(e.vars.items()):
                if x is lst:
                    e.vars[nm] = ss
                    hit = True
            e = e.parent
        if not hit:
            raise Unsupported('append to a list that is not a variable')


def add_fun(R, nm, kind, nd, start):
    dom = [I] * nd
    if kind == 'c':
        R.add_fun(fn(nm + '_re', *(dom + [RL])), nd, lambda a: zr(cre(start(a))))
        R.add_fun(fn(nm + '_im', *(dom + [RL])), nd, lambda a: zr(cim(start(a))))
    else:
        s = {'b': B, 'i': I, 'f': RL}[kind]
        R.add_fun(fn(nm, *(dom + [s])), nd, lambda a: start(a))


def lam_sum(g, i, upto):
    """sum_{k<upto} g[i:=k]"""
    if isinstance(g, Cx):
        return Cx(lam_sum(g.re, i, upto), lam_sum(g.im, i, upto))
    g = num(g)
    if not is_z3(g) or not mentions(g, {i.decl().name()}):
        return r_mul(g, upto)
    integer = g.sort() == I
    s = npm.raw_sum(lambda k: subst_raw(g, [(i, z(k))]), [upto])
    return s


def sub_i(e, i, k):
    return subst_raw(e, [(i, z(k))])


def diff_free(F, h, own, others):
    """F - h when it does not mention the havoc symbols, else None"""
    if isinstance(F, Cx) or isinstance(h, Cx):
        a = diff_free(cre(F), cre(h), own, others)
        b = diff_free(cim(F), cim(h), own, others)
        return None if a is None or b is None else Cx(a, b)
    d = r_sub(F, h)
    if not is_z3(d):
        return d
    names = own | others
    if not mentions(d, names):
        return d
    n0 = len(sym.COND)
    p = canon(d)
    del sym.COND[n0:]
    e = simp(pexpr(p))
    if is_z3(e) and mentions(e, names):
        return None
    if is_z3(d) and d.sort() == I and is_z3(e) and e.sort() == RL:
        e = simp(z3.simplify(z3.ToInt(e)))
    if not is_z3(e) and isint(F) and isint(h):
        e = int(e)
    return e


def cell_map(F, h, i, n, js, shape, own):
    """(p, V) when iteration i changes only the cells with index i along axis p and gives them the value V, whatever they held"""
    if isinstance(F, Cx) and isinstance(h, Cx):
        a, b = (cell_map(zr(x) if is_z3(x) or not isinstance(x, (int, float, Fraction)) else z3.RealVal(x), zr(y), i, n, js, shape, own) for x, y in ((F.re, h.re), (F.im, h.im)))
        return None if a is None or b is None or a[0] != b[0] else (a[0], Cx(a[1], b[1]))
    if not is_z3(F) or isinstance(F, Cx) or isinstance(h, Cx):
        return None
    from . import prove
    st = CTX.push()
    try:
        CTX.assume(z3.And(i >= 0, i < z(n)))
        for j, d in zip(js, shape):
            CTX.assume(z3.And(j >= 0, j < z(d)))
        for p in range(len(js)):
            V = z3.simplify(z3.substitute(F, (js[p], i)))
            V = simp(prove.simp_under_pc(V)) if mentions(V, own) else V
            if is_z3(V) and mentions(V, own):
                continue
            s2 = CTX.push()
            try:
                CTX.assume(js[p] != i)
                g = prove.simp_under_pc(z3.simplify(F))
                if z3.eq(z3.simplify(g), z3.simplify(h)):
                    return p, V
            except Infeasible:
                pass
            finally:
                CTX.pop(s2)
    except Infeasible:
        pass
    finally:
        CTX.pop(st)
    return None


def interleaved(F, Hf, i, n, js, shape, writes, own, A0, hname, kind):
    """a[i::S] = value in iteration i of range(S): cell j is written once, in iteration j mod S"""
    from . import prove
    for p in range(len(shape)):
        S = None
        for x in writes:
            s = x[0][p] if isinstance(x, tuple) else None
            if s is None or s[0] != 'a' or not is_z3(s[3]) or not z3.eq(z3.simplify(z(s[2]) - i), z3.IntVal(0)) or S is not None and not z3.eq(S, s[3]):
                break
            S = s[3]
        else:
            if S is None or mentions(S, own | {i.decl().name()}) or not CTX.entails(z(n) == S):
                continue
            t = fresh('t', I)
            st = CTX.push()
            try:
                for c in [i >= 0, i < z(n), t >= 0, i + S * t < z(shape[p])] + [z3.And(j >= 0, j < z(d)) for k, (j, d) in enumerate(zip(js, shape)) if k != p]:
                    CTX.assume(c)
                m = z3.simplify(S * t)
                V = z3.simplify(z3.substitute(F, (js[p], i + S * t)))
                V = z3.substitute(V, (m % S, z3.IntVal(0)), (m / S, t))
                V = prove.simp_under_pc(z3.simplify(V))
            except Infeasible:
                return None
            finally:
                CTX.pop(st)
            if mentions(V, own):
                return None

            def at(idx, up):
                k = z(r_mod(idx[p], S))
                v = subst_raw(V, [(i, k), (t, z(r_fdiv(idx[p], S)))] + [(js[q], z(idx[q])) for q in range(len(shape)) if q != p])
                return v if up is None else r_ite(r_cmp('<', k, up), v, A0(idx))
            return (lambda idx: at(idx, i)), (lambda idx: at(idx, None))
    return None


def resolve(w, key, i, n, outs, hav, bufh, R, own, others, pre_vars, ent):
    iname = i.decl().name()
    if key[0] == 'v' and not isinstance(hav[key[1]][0], Arr):
        nm = key[1]
        h = raw(hav[nm][0])
        F = R(raw(merge_vals(outs, lambda o: o.vars[nm])) if len(outs) > 1 else raw(outs[0].vars[nm]))
        if isinstance(F, Poison):
            raise Unsupported('merge')
        x0 = raw(pre_vars[nm])
        if mentions(F, others):
            return None
        if not mentions(F, own):
            start = r_ite(r_cmp('==', i, 0), x0, sub_i(F, i, i - 1))
            return start, sub_i(F, i, dsimp(z(n) - 1))
        if kind_of(h) == 'b':
            ft = simp(z3.simplify(z(subst_raw(F, [(h, z3.BoolVal(True))]))))
            ff = simp(z3.simplify(z(subst_raw(F, [(h, z3.BoolVal(False))]))))
            if ft is True:
                mk = lambda up: r_or(x0, npm.raw_any(lambda k: sub_i(ff, i, k), [up]))
            elif ff is False:
                mk = lambda up: r_and(x0, r_not(npm.raw_any(lambda k: r_not(sub_i(ft, i, k)), [up])))
            else:
                raise Unsupported('boolean recurrence')
            return mk(i), mk(n)
        g = diff_free(F, h, own, others)
        if g is None:
            raise Unsupported('scalar recurrence %s' % nm)
        return r_add(x0, lam_sum(g, i, i)), r_add(x0, lam_sum(g, i, n))
    # arrays
    if key[0] == 'v':
        nm = key[1]
        H = hav[nm][0]
        kind, shape, hname = H.kind, H.shape, H.buf.name
        pre = pre_vars[nm]
        A0 = (lambda f, k: lambda idx: cast(k, f(idx)))(pre.frozen(), kind)
        mv = merge_vals(outs, lambda o: o.vars[nm])
        if isinstance(mv, Poison):
            raise Unsupported(mv.why)
        fm = mv.frozen()
        G = lambda idx: R(cast(kind, fm(idx)))
        Hf = H.get
        writes = None
    else:
        b = key[1]
        kind, shape, hname = b.kind, b.shape, bufh[b][1][0]
        old = bufh[b][2]
        A0 = old.get
        hf = bufh[b][0]
        G = lambda idx: R(merge_raw(outs, lambda o: cast(kind, o.bufs[b](idx)) if b in o.bufs else hf(idx)))
        Hf = hf
        writes = [wr for o in outs for wr in o.writes.get(b, [])]
        writes = [x for x in writes if x != 'havoc']
        # a branch not writing keeps the old value: fine
    nd = len(shape)
    js = tuple(fresh('j', I) for _ in range(nd))
    # map rule: every write fixes axis p at i + c
    cand = None
    if writes and all(isinstance(x, tuple) and x is not None for x in writes):
        for p in range(nd):
            cs = []
            for axes, vshape in writes:
                s = axes[p]
                if s[0] != 'f' or not is_z3(s[1]) or not mentions(s[1], {iname}):
                    break
                c = dsimp(z3.simplify(z(s[1]) - i))
                sgn = 1
                if mentions(c, {iname}):
                    c = dsimp(z3.simplify(z(s[1]) + i))
                    sgn = -1
                    if mentions(c, {iname}):
                        break
                if mentions(c, own | others):
                    break
                cs.append((c, sgn))
            else:
                if cs and all(sg == cs[0][1] and (dim_same(c, cs[0][0])) for c, sg in cs):
                    cand = (p, cs[0][0], cs[0][1])
                    break
    if cand is not None:
        p, c, sgn = cand
        pos = dsimp(r_add(c, i)) if sgn > 0 else dsimp(r_sub(c, i))
        jp = js[:p] + (pos,) + js[p + 1:]
        V = G(jp)
        rec = False
        zpos = z(pos)
        for part in ((V.re, V.im) if isinstance(V, Cx) else (V,)):
            if not is_z3(part):
                continue
            for nm_ in own:
                for app in fn_apps(part, nm_):
                    a = app.arg(p)
                    if z3.eq(z3.simplify(a - zpos), z3.IntVal(0)):
                        continue
                    if has_var(a):
                        raise Unsupported('read of the written array at a bound index')
                    d = dsimp(z3.simplify(a - zpos))
                    if d == -1 and sgn > 0:
                        rec = True
                    elif sgn > 0 and ent(a > zpos):
                        continue
                    elif sgn < 0 and ent(a < zpos):
                        continue
                    else:
                        raise Unsupported('read of another slice of the written array')
        if mentions(V, others):
            return None
        if not rec:
            R0 = Repl()
            add_fun(R0, hname, kind, nd, A0)
            V0 = R0(V)
            full = isinstance(c, int) and ((sgn > 0 and c == 0) or False) and dim_same(n, shape[p])
            if sgn < 0 and dim_same(r_sub(n, 1), c) and dim_same(n, shape[p]):
                full = True

            def at(idx, upto, full_):
                k = simp(r_sub(idx[p], c)) if sgn > 0 else simp(r_sub(c, idx[p]))
                v = subst_raw(V0, [(i, z(k))] + [(js[q], z(idx[q])) for q in range(nd) if q != p])
                if full_:
                    return v
                return r_ite(r_and(r_cmp('<=', 0, k), r_cmp('<', k, upto)), v, A0(idx))
            return (lambda idx: at(idx, i, False)), (lambda idx: at(idx, n, full))
        # recurrence along p
        prev = js[:p] + (dsimp(z(pos) - 1),) + js[p + 1:]
        g = diff_free(V, R(Hf(prev)), own, others)
        if g is None:
            raise Unsupported('non-additive array recurrence')

        def at(idx, upto):
            k = simp(r_sub(idx[p], c))
            gg = subst_raw(g, [(js[q], z(idx[q])) for q in range(nd) if q != p])
            first = A0(idx[:p] + (dsimp(r_sub(c, 1)),) + idx[p + 1:])
            s = lam_sum(gg, i, simp(r_add(k, 1)))
            return r_ite(r_and(r_cmp('<=', 0, k), r_cmp('<', k, upto)), r_add(first, s), A0(idx))
        return (lambda idx: at(idx, i)), (lambda idx: at(idx, n))
    F = G(js)
    if mentions(F, others):
        return None
    if not mentions(F, own):
        def at(idx, k):
            return subst_raw(F, [(i, z(k))] + [(js[q], z(idx[q])) for q in range(nd)])
        return (lambda idx: r_ite(r_cmp('==', i, 0), A0(idx), at(idx, i - 1))), (lambda idx: at(idx, dsimp(z(n) - 1)))
    cell = cell_map(F, R(Hf(js)), i, n, js, shape, own)
    if cell is not None:
        p, V = cell

        def at(idx, up):
            v = subst_raw(V, [(i, z(idx[p]))] + [(js[q], z(idx[q])) for q in range(nd) if q != p])
            return r_ite(r_and(r_cmp('<=', 0, idx[p]), r_cmp('<', idx[p], up)), v, A0(idx))
        return (lambda idx: at(idx, i)), (lambda idx: at(idx, n))
    if writes and is_z3(F):
        r = interleaved(F, Hf, i, n, js, shape, writes, own, A0, hname, kind)
        if r is not None:
            return r
    g = diff_free(F, R(Hf(js)), own, others)
    if g is None:
        raise Unsupported('array recurrence')

    def at(idx, up):
        gg = subst_raw(g, [(js[q], z(idx[q])) for q in range(nd)])
        return r_add(A0(idx), lam_sum(gg, i, up))
    return (lambda idx: at(idx, i)), (lambda idx: at(idx, n))


def has_var(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if z3.is_var(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    return False


def comp_rule(w, g, env, seq, leaf):
    i = fresh('i', I)
    n = seq.n

    def run(o):
        e2 = Env(env.mod, env)
        w.assign(g.target, seq.at(i), e2)
        m = len(CTX.trail)
        o.v = leaf(e2)
        for u, tag in CTX.trail[m:]:
            if tag is None or tag[0] in ('list', 'symlist') or (tag[0] == 'buf' and tag[1].id < mark):
                raise Unsupported('comprehension with side effects')
    mark = next(Buf._ids)
    if not CTX.feasible(z(n) >= 1):
        return []
    outs = handle_excs(explore_body(i, n, run), i, n)
    v = merge_vals(outs, lambda o: o.v)
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    return SymSeq(n, lambda k: tv(v, lambda x: subst_raw(x, [(i, z(k))])))


def while_rule(w, st, env):
    return False


# ------------------------------------------------------------------ annotated loops (Hoare rule with the contract's invariant)
def annotated(w, st, env, spec, seq=None):
    """spec.inv(i, pre) gives the state at the start of iteration i (variable -> value); spec.facts(i, pre) further facts.
    Phase 'body': from that state one iteration must reach the state i+1. Phase 'after': the state at the last i."""
    from .kit import Stop
    outer = CTX.trail
    if outer is not None and getattr(CTX, 'hoare', None) is not outer:
        raise Unsupported('annotated loop inside a summarised one')
    T = w.T
    label = 'loop %s#%d' % (spec.func, spec.k)
    stored = {t.id for b in ([st.target] if seq is not None else []) + st.body for t in ast.walk(b) if isinstance(t, ast.Name) and isinstance(t.ctx, (ast.Store, ast.Del))}
    pre = {}
    for nm, v in env.vars.items():
        pre[nm] = Arr(v.shape, v.frozen(), v.kind) if isinstance(v, Arr) and v.sel is None else list(v) if isinstance(v, list) else v
    cur = dict(env.vars)

    def install(i):
        s = spec.inv(wrap(i), pre)
        for nm in stored:
            if nm not in s:
                env.vars[nm] = Poison('loop variable outside the invariant: ' + nm)
        for nm, v in s.items():
            old = cur.get(nm)
            if nm not in cur:
                raise Unsupported('invariant names %s, which does not exist before the loop' % nm)
            if isinstance(v, Arr) and isinstance(old, Arr) and nm not in stored_plain:
                fr = v.frozen()
                setitem(old, Ellipsis, Arr(v.shape, fr, v.kind))
                env.vars[nm] = old
            else:
                env.vars[nm] = v
        for c in (spec.facts(wrap(i), pre) if spec.facts else []):
            T.assume(c)
        return s

    def check(i, what):
        s = spec.inv(wrap(i), pre)
        for nm, v in s.items():
            a = env.vars.get(nm)
            if isinstance(a, Poison):
                raise Unsupported('loop variable lost: ' + nm)
            nmx = '%s %s(%s)' % (label, what, nm)
            if v is None or a is None:
                T.drv.obligation(nmx, lambda a=a, v=v: a is v)
            else:
                T._eq(nmx, a, v, force=True)
                if T.drv.obl[-1]['status'] == 'proved' and is_scalar(a) and is_scalar(v):
                    CTX.assume(r_cmp('==', raw(a), raw(v)))
        for k, c in enumerate(spec.facts(wrap(i), pre) if spec.facts else []):
            T.drv.obligation('%s %s fact %d' % (label, what, k), lambda c=c: truth(raw(c)) if not isinstance(c, bool) else c)
    # plain rebinding of a name in the body (x = ...) as opposed to writes into the array it names
    stored_plain = stored
    check(0, 'establishes')
    phase = fresh('phase', B)
    if CTX.decide(phase):
        i = fresh('it', I)
        if seq is not None:
            CTX.assume(z3.And(i >= 0, i < z(seq.n)))
        else:
            CTX.assume(i >= 0)
        install(i)
        if seq is None:
            t = truth(raw(w.ev(st.test, env)))
            if spec.held is not None:
                h = truth(raw(spec.held(wrap(i), pre)))
                T.drv.obligation(label + ' condition', lambda: r_and(r_or(r_not(t), h), r_or(r_not(h), t)))
            CTX.assume(zb(t)) if is_z3(t) else None
            if t is False:
                raise Infeasible()
        CTX.trail = CTX.hoare = []
        try:
            if seq is not None:
                w.assign(st.target, seq.at(i), env)
            try:
                w.exec_block(st.body, env)
            except _Continue:
                pass
            except (_Break, _Return):
                raise Unsupported('break or return in an annotated loop')
            tags = [tag for u, tag in CTX.trail]
        finally:
            CTX.trail = CTX.hoare = outer
        okb = {v.buf for v in cur.values() if isinstance(v, Arr)} & {cur[nm].buf for nm in spec.inv(wrap(i), pre) if isinstance(cur.get(nm), Arr)}
        known = {v.buf for v in cur.values() if isinstance(v, Arr)}
        for tag in tags:
            if tag is None:
                raise Unsupported('loop body mutates a container or global')
            if tag[0] == 'buf' and tag[1] in known and tag[1] not in okb:
                raise Unsupported('loop body writes an array outside the invariant')
            if tag[0] == 'list' and any(tag[1] is v for v in cur.values()):
                raise Unsupported('loop body mutates a list outside the invariant')
        check(simp(i + 1), 'preserves')
        raise Stop()
    if seq is not None:
        n = seq.n
    else:
        n = fresh('nit', I)
        CTX.assume(n >= 0)
    install(n)
    if seq is None:
        t = truth(raw(w.ev(st.test, env)))
        if t is True:
            raise Infeasible()
        if is_z3(t):
            CTX.assume(z3.Not(t))
        if spec.held is not None:
            CTX.ghosts.append(((n,), lambda k: spec.held(wrap(k), pre).e if isinstance(spec.held(wrap(k), pre), Sc) else spec.held(wrap(k), pre)))
        CTX.notes.append('termination of the loop in %s is assumed' % spec.func)
    w.exec_block(st.orelse, env)
