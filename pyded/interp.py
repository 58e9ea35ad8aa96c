"""Symbolic interpreter for the Python source under contract (parsed from /repo on every run)."""
import ast, os, itertools, importlib.util, math
from fractions import Fraction
import z3
from . import vals, npm
from .sym import Unsupported, fn, fresh, is_z3, z, zr, zb, num, I, RL, B, PI
from .vals import *
from .vals import _conc

ROOT = os.environ.get('PYDED_SRC', '/repo/src')


# ------------------------------------------------------------------ object model
class Env:
    __slots__ = ('vars', 'parent', 'mod', 'globs', 'locs', 'nonloc')

    def __init__(self, mod, parent=None, locs=None):
        self.vars, self.parent, self.mod = {}, parent, mod
        self.globs, self.locs, self.nonloc = set(), locs or set(), set()


class Module:
    def __init__(self, name, path=None):
        self.name, self.path, self.ns = name, path, {}


class ExtModule:
    def __init__(self, name):
        self.name = name


class ExtFn:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ExtFn(%s)' % self.name


class FuncV:
    def __init__(self, node, mod, env, defaults, kwdefaults, name, cls=None):
        self.node, self.mod, self.env, self.defaults, self.kwdefaults, self.name, self.cls = node, mod, env, defaults, kwdefaults, name, cls
        self.attrs = {}
        self.is_gen = False
        self.locs = None
        self.kind = None     # 'static' 'class' 'property'


class ClassV:
    def __init__(self, name, ns, bases):
        self.name, self.ns, self.bases = name, ns, bases

    def lookup(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None


class ObjV:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class TypeB:
    """builtin type usable as callable + isinstance"""
    def __init__(self, tname, call, test):
        self.tname, self.call, self.test = tname, call, test

    def __repr__(self):
        return '<class %s>' % self.tname


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Poison:
    def __init__(self, why=''):
        self.why = why


# ------------------------------------------------------------------ loader
class World:
    """interpreter state of one path: loaded modules"""
    def __init__(self, overrides=None):
        self.mods = {}
        self.np = npm.make_np()
        self.models = {}
        self.overrides = overrides or {}
        self.loops, self.fstack, self.T = {}, [], None
        self.shm = {}
        self.fuel = 0
        from . import models
        models.install(self)
        files.install(self)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.models:
            return self.models[name]
        if name == 'numpy':
            return self.np
        path = None
        if name.split('.')[0] == 'tools21cm':
            parts = name.split('.')
            base = os.path.join(ROOT, *parts)
            if os.path.isfile(base + '.py'):
                path = base + '.py'
            elif os.path.isfile(base + '.pyx'):
                path = base + '.pyx'
            elif os.path.isdir(base):
                m = Module(name, None)       # package: submodules on demand
                self.mods[name] = m
                return m
        if path is None:
            if importlib.util.find_spec(name.split('.')[0]) is None:
                raise PyExc('ModuleNotFoundError', name)
            return ExtModule(name)
        m = Module(name, path)
        self.mods[name] = m
        tree = parse(path)
        m.ns['__name__'] = name
        m.ns['__file__'] = path
        env = Env(m)
        env.vars = m.ns
        for st in tree.body:
            try:
                self.exec_stmt(st, env)
            except Unsupported as e:
                # a module-level statement outside the subset: names it would bind stay unbound
                for t in ast.walk(st):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        m.ns.setdefault(t.id, ExtFn('unsupported:' + t.id))
        return m

    def getmod(self, short):
        name = 'tools21cm.' + short
        if name in self.mods:
            return self.mods[name]
        before = dict(self.mods)
        try:
            return self.load(name)
        except PyExc:
            # circular imports: load in the package's own order
            self.mods.clear()
            self.mods.update(before)
            for st in parse(os.path.join(ROOT, 'tools21cm', '__init__.py')).body:
                if isinstance(st, ast.ImportFrom) and st.level == 1 and st.module:
                    if 'tools21cm.' + st.module not in self.mods:
                        try:
                            self.load('tools21cm.' + st.module)
                        except (PyExc, Unsupported):
                            self.mods.pop('tools21cm.' + st.module, None)
                    if st.module == short:
                        break
            return self.load(name)

    # -------------------------------------------------------------- statements
    def exec_block(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        self.fuel += 1
        if self.fuel > 300000:
            raise Unsupported('interpreter fuel exhausted')
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(st).__name__)
        try:
            return m(st, env)
        except Unsupported as e:
            if not getattr(e, 'where', None):
                e.where = '%s:%s' % (env.mod.name, getattr(st, 'lineno', '?'))
            raise
        except PyExc as e:
            if not getattr(e, 'where', None):
                e.where = '%s:%s' % (env.mod.name, getattr(st, 'lineno', '?'))
            raise
        except RecursionError:
            raise Unsupported('recursion limit')

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        op = OPS[type(st.op)]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.ev(st.value, env)
            self.assign(t, self.iop(op, cur, v), env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            ix = self.ev_index(t.slice, env)
            cur = self.subscript(o, ix)
            v = self.ev(st.value, env)
            if isinstance(o, Arr) or hasattr(o, 'setitem'):
                new = binop(op, cur, v)
            else:
                new = self.iop(op, cur, v)
            self.set_subscript(o, ix, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value, env)
            self.setattr(o, t.attr, self.iop(op, cur, v))
        else:
            raise Unsupported('augmented target')

    def iop(self, op, cur, v):
        if isinstance(cur, Arr) and cur.ndim > 0:
            r = binop(op, cur, v)
            if isinstance(r, Arr) and r.sel is None and cur.sel is None:
                if cur.kind in 'bi' and r.kind in 'fc' or (cur.kind == 'f' and r.kind == 'c'):
                    raise PyExc('UFuncTypeError', 'Cannot cast ufunc output')
                if r.ndim != cur.ndim:
                    raise PyExc('ValueError', 'non-broadcastable output operand')
                for a, b in zip(r.shape, cur.shape):
                    if not dim_same(a, b):
                        raise PyExc('ValueError', 'non-broadcastable output operand')
                if cur.snap:
                    raise Unsupported('in-place operation on a reshaped view')
                assign_view(cur, r)
                cur.meta = None
                return cur
            if cur.sel is not None and isinstance(r, Arr):
                return r
            return r
        if isinstance(cur, list) and op == '+':
            old = list(cur)
            log_undo(lambda: cur.__setitem__(slice(None), old))
            cur.extend(self.iter_concrete(v))
            return cur
        return binop(op, cur, v)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                ix = self.ev_index(t.slice, env)
                if isinstance(o, dict):
                    if ix not in o:
                        raise PyExc('KeyError', ix)
                    v = o[ix]
                    log_undo(lambda: o.__setitem__(ix, v))
                    del o[ix]
                elif isinstance(o, list):
                    old = list(o)
                    log_undo(lambda: o.__setitem__(slice(None), old))
                    del o[ix]
                else:
                    raise Unsupported('del')

    def s_If(self, st, env):
        if self.truth(self.ev(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def s_Return(self, st, env):
        raise _Return(None if st.value is None else self.ev(st.value, env))

    def s_Break(self, st, env):
        raise _Break()

    def s_Continue(self, st, env):
        raise _Continue()

    def s_Global(self, st, env):
        env.globs |= set(st.names)

    def s_Nonlocal(self, st, env):
        env.nonloc |= set(st.names)

    def s_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env)):
            raise PyExc('AssertionError')

    def s_Raise(self, st, env):
        if st.exc is None:
            raise PyExc('Exception', 're-raise')
        v = self.ev(st.exc, env)
        if isinstance(v, ExcV):
            raise PyExc(v.name, v.msg)
        if isinstance(v, ExcT):
            raise PyExc(v.name)
        raise Unsupported('raise of %r' % (v,))

    def s_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if self.matches(h.type, e, env):
                        if h.name:
                            env.vars[h.name] = ExcV(e.etype, e.msg)
                        self.exec_block(h.body, env)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env)

    def matches(self, t, e, env):
        if t is None:
            return True
        v = self.ev(t, env)
        ts = v if isinstance(v, tuple) else (v,)
        for x in ts:
            if isinstance(x, ExcT) and exc_sub(e.etype, x.name):
                return True
        return False

    def s_With(self, st, env):
        for it in st.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(st.body, env)

    def s_Import(self, st, env):
        for a in st.names:
            m = self.load(a.name)
            if a.asname:
                env.vars[a.asname] = m
            else:
                env.vars[a.name.split('.')[0]] = self.load(a.name.split('.')[0]) if '.' in a.name else m

    def s_ImportFrom(self, st, env):
        name = st.module or ''
        if st.level:
            pk = env.mod.name.split('.')[:-st.level] if not (env.mod.path or '').endswith('__init__.py') else env.mod.name.split('.')
            name = '.'.join(pk + ([name] if name else []))
        m = self.load(name)
        for a in st.names:
            if a.name == '*':
                for k, v in self.mod_items(m):
                    if not k.startswith('_'):
                        env.vars[k] = v
                continue
            env.vars[a.asname or a.name] = self.mod_attr(m, a.name)

    def mod_items(self, m):
        if isinstance(m, Module):
            return list(m.ns.items())
        if isinstance(m, npm.NS):
            return list(m.d.items())
        return []

    def mod_attr(self, m, n):
        if isinstance(m, Module):
            if n in m.ns:
                return m.ns[n]
            if m.path is None:
                try:
                    return self.load(m.name + '.' + n)
                except PyExc:
                    pass
                # package level name: search the submodules exported by __init__
                v = self.pkg_lookup(n)
                if v is not None:
                    return v
            raise PyExc('AttributeError', "module %s has no attribute %s" % (m.name, n))
        if isinstance(m, npm.NS):
            if n in m.d:
                return m.d[n]
            return ExtFn(m.name + '.' + n)
        if isinstance(m, ExtModule):
            full = m.name + '.' + n
            if full in self.models:
                return self.models[full]
            return ExtFn(full)
        raise Unsupported('attribute of module')

    def pkg_lookup(self, n):
        init = os.path.join(ROOT, 'tools21cm', '__init__.py')
        for st in parse(init).body:
            if isinstance(st, ast.ImportFrom) and st.level == 1:
                for a in st.names:
                    if a.name == '*' and st.module:
                        mod = self.load('tools21cm.' + st.module)
                        if isinstance(mod, Module) and n in mod.ns:
                            return mod.ns[n]
                    elif (a.asname or a.name) == n and st.module:
                        return self.mod_attr(self.load('tools21cm.' + st.module), a.name)
        return None

    def s_FunctionDef(self, st, env):
        f = self.mkfunc(st, env)
        for d in reversed(st.decorator_list):
            dv = self.ev(d, env)
            if dv is STATIC:
                f.kind = 'static'
            elif dv is CLASSM:
                f.kind = 'class'
            elif dv is PROPERTY:
                f.kind = 'property'
            elif isinstance(dv, ExtFn) or callable(dv) or isinstance(dv, FuncV):
                f = self.call(dv, [f], {})
            else:
                raise Unsupported('decorator')
        env.vars[st.name] = f

    def mkfunc(self, node, env):
        a = node.args
        defaults = [self.ev(x, env) for x in a.defaults]
        kwd = [None if x is None else self.ev(x, env) for x in a.kw_defaults]
        return FuncV(node, env.mod, env, defaults, kwd, getattr(node, 'name', '<lambda>'))

    def s_ClassDef(self, st, env):
        ce = Env(env.mod, env)
        self.exec_block(st.body, ce)
        env.vars[st.name] = ClassV(st.name, ce.vars, [self.ev(b, env) for b in st.bases])

    # -------------------------------------------------------------- loops
    def annotation(self, st):
        if not self.loops or not self.fstack:
            return None
        q, node = self.fstack[-1]
        sp = self.loops.get(q)
        if not sp:
            return None
        ls = sorted([x for x in walk_own(node) if isinstance(x, (ast.For, ast.While))], key=lambda x: (x.lineno, x.col_offset))
        return sp.get([id(x) for x in ls].index(id(st))) if any(x is st for x in ls) else None

    def s_While(self, st, env):
        n = 0
        an = self.annotation(st)
        if an is not None:
            from . import loops
            loops.annotated(self, st, env, an)
            return
        while True:
            t = self.ev(st.test, env)
            if isinstance(t, (Sc,)) and is_z3(truth(t.e)):
                from . import loops
                if loops.while_rule(self, st, env):
                    return
            if not self.truth(t):
                break
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                pass
            n += 1
            if n > 200:
                raise Unsupported('while loop not bounded')
        self.exec_block(st.orelse, env)

    def s_For(self, st, env):
        it = self.ev(st.iter, env)
        seq = self.iter_any(it)
        if isinstance(seq, SymSeq):
            from . import loops
            an = self.annotation(st)
            if an is not None:
                loops.annotated(self, st, env, an, seq)
            else:
                loops.for_rule(self, st, env, seq)
            return
        cnt = 0
        for x in seq:
            cnt += 1
            if cnt > 3000:
                raise Unsupported('loop too long to unroll')
            self.assign(st.target, x, env)
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(st.orelse, env)

    def iter_any(self, it):
        """python iterator (concrete) or SymSeq"""
        if isinstance(it, (list, tuple, range, str)):
            return it
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, SymSeq):
            if isinstance(it.n, int):
                return [it.at(i) for i in range(it.n)]
            return it
        if isinstance(it, Arr):
            if it.sel is not None:
                raise Unsupported('iteration over a selection')
            if it.ndim == 0:
                raise PyExc('TypeError', 'iteration over a 0-d array')
            n = it.shape[0]
            if isinstance(n, int):
                return [getitem(it, i) for i in range(n)]
            return SymSeq(n, lambda i: getitem(it, wrap(i)), 'arr')
        if isinstance(it, (set, frozenset)):
            return list(it)
        if hasattr(it, '__next__') or isinstance(it, (zip, enumerate, map)):
            return list(it)
        if hasattr(it, 'iter_model'):
            return it.iter_model()
        raise Unsupported('iteration over %s' % type(it).__name__)

    def iter_concrete(self, it):
        s = self.iter_any(it)
        if isinstance(s, SymSeq):
            raise Unsupported('symbolic iteration where a concrete one is needed')
        return list(s)

    # -------------------------------------------------------------- names
    def lookup(self, n, env):
        e = env
        first = True
        while e is not None:
            if n in e.globs:
                break
            if n in e.vars:
                v = e.vars[n]
                if isinstance(v, Poison):
                    raise Unsupported('value of %s after the loop is not derivable (%s)' % (n, v.why))
                return v
            if n in e.locs and e.parent is not None or (n in e.locs and first):
                raise PyExc('UnboundLocalError', n)
            e = e.parent
            first = False
        if n in env.mod.ns:
            return env.mod.ns[n]
        if n in BUILTINS:
            return BUILTINS[n]
        raise PyExc('NameError', n)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globs:
                ns = env.mod.ns
                had, old = t.id in ns, ns.get(t.id)

                def undo():
                    if had:
                        ns[t.id] = old
                    else:
                        ns.pop(t.id, None)
                log_undo(undo)
                ns[t.id] = v
            elif t.id in env.nonloc:
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
                if e is None:
                    raise Unsupported('nonlocal')
                old = e.vars[t.id]
                log_undo(lambda: e.vars.__setitem__(t.id, old))
                e.vars[t.id] = v
            else:
                env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                xs = self.iter_concrete(v)
                k = [j for j, x in enumerate(t.elts) if isinstance(x, ast.Starred)][0]
                m = len(t.elts) - k - 1
                for j in range(k):
                    self.assign(t.elts[j], xs[j], env)
                self.assign(t.elts[k].value, xs[k:len(xs) - m], env)
                for j in range(m):
                    self.assign(t.elts[k + 1 + j], xs[len(xs) - m + j], env)
                return
            xs = self.iter_concrete(v)
            if len(xs) != len(t.elts):
                raise PyExc('ValueError', 'unpack')
            for a, b in zip(t.elts, xs):
                self.assign(a, b, env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            ix = self.ev_index(t.slice, env)
            self.set_subscript(o, ix, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def set_subscript(self, o, ix, v):
        if isinstance(o, Arr):
            if isinstance(v, OpaqueStr):
                raise Unsupported('string store')
            return setitem(o, ix, v)
        if isinstance(o, dict):
            k = dkey(ix)
            had, old = k in o, o.get(k)

            def undo():
                if had:
                    o[k] = old
                else:
                    o.pop(k, None)
            log_undo(undo)
            o[k] = v
            return
        if isinstance(o, list):
            i = raw(ix)
            if isinstance(ix, SliceV):
                raise Unsupported('list slice store')
            if not isinstance(i, int):
                i = dsimp(i)
                if not isinstance(i, int):
                    n = len(o)
                    for k in range(n):
                        if CTX.decide(z(i) == k):
                            i = k
                            break
                    else:
                        raise Unsupported('list store at symbolic index')
            if not -len(o) <= i < len(o):
                raise PyExc('IndexError', 'list')
            old = o[i]
            log_undo(lambda: o.__setitem__(i, old))
            o[i] = v
            return
        if hasattr(o, 'setitem'):
            return o.setitem(ix, v)
        if isinstance(o, tuple):
            raise PyExc('TypeError', 'tuple item assignment')
        raise Unsupported('item assignment on %s' % type(o).__name__)

    def setattr(self, o, n, v):
        if isinstance(o, ObjV):
            had, old = n in o.attrs, o.attrs.get(n)

            def undo():
                if had:
                    o.attrs[n] = old
                else:
                    o.attrs.pop(n, None)
            log_undo(undo)
            o.attrs[n] = v
        elif isinstance(o, Module):
            had, old = n in o.ns, o.ns.get(n)

            def undo():
                if had:
                    o.ns[n] = old
                else:
                    o.ns.pop(n, None)
            log_undo(undo)
            o.ns[n] = v
        elif isinstance(o, FuncV):
            o.attrs[n] = v
        elif isinstance(o, Arr) and n == 'shape':
            r = npm.reshape(o, v)
            raise Unsupported('shape assignment')
        else:
            raise Unsupported('setattr on %s' % type(o).__name__)

    # -------------------------------------------------------------- expressions
    def ev(self, e, env):
        self.fuel += 1
        return getattr(self, 'e_' + type(e).__name__, self.e_unsupported)(e, env)

    def e_unsupported(self, e, env):
        raise Unsupported('expression ' + type(e).__name__)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (math.inf, -math.inf):
                return npm.INF if v == math.inf else npm.NAN
            return to_frac(v)
        if isinstance(v, complex):
            return Sc(Cx(to_frac(v.real), to_frac(v.imag)))
        return v

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_concrete(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[dkey(self.ev(k, env))] = self.ev(v, env)
        return d

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return binop(OPS[type(e.op)], a, b)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Sc):
                return wrap(r_not(v.e))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, npm.Special):
                return npm.Special('-' + v.name)
            if isinstance(v, Sc):
                return wrap(r_neg(v.e))
            if isinstance(v, Arr):
                return arr_binop('*', -1, v)
            if hasattr(v, 'neg_model'):
                return v.neg_model()
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, Arr):
            if v.kind != 'b':
                raise Unsupported('~ on non-bool')
            return elementwise(r_not, kf_bool, v)
        if isinstance(v, Sc):
            if kind_of(v.e) == 'b':
                return wrap(r_not(v.e))
            return wrap(r_sub(r_neg(v.e), 1))
        if isinstance(v, bool):
            return not v      # numpy bool semantics
        return ~v

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Sc) else False
            if not isand and t:
                return v if not isinstance(v, Sc) else (True if kind_of(v.e) == 'b' else v)
        return v if not (isinstance(v, Sc) and kind_of(v.e) == 'b') else (isand)

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        res = None
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, env)
            r = self.compare(type(op), a, b)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return False
            res = r
            a = b
        return True

    def compare(self, op, a, b):
        if op is ast.Is:
            return self.same(a, b)
        if op is ast.IsNot:
            return not self.same(a, b)
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if op is ast.In else (not r)
        return binop(CMPS[op], a, b)

    def same(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Sc) and isinstance(b, bool) or isinstance(b, Sc) and isinstance(a, bool):
            sc, bb = (a, b) if isinstance(a, Sc) else (b, a)
            if kind_of(sc.e) == 'b':
                return CTX.decide(sc.e) == bb
            return False
        if isinstance(a, (int, Fraction, str)) and isinstance(b, (int, Fraction, str)):
            return type(a) is type(b) and a == b
        if isinstance(a, (npm.DT, TypeB)) and isinstance(b, (npm.DT, TypeB)):
            return a is b
        return a is b

    def contains(self, c, x):
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, OpaqueStr):
                raise Unsupported('opaque string test')
        if isinstance(c, dict):
            return dkey(x) in c
        if isinstance(c, (list, tuple, set, range)):
            for y in c:
                if isinstance(y, (str, type(None))) or isinstance(x, (str, type(None))):
                    if isinstance(y, OpaqueStr) or isinstance(x, OpaqueStr):
                        raise Unsupported('opaque string test')
                    if type(y) is type(x) and y == x:
                        return True
                    continue
                r = binop('==', y, x)
                if self.truth(r):
                    return True
            return False
        if isinstance(c, Arr):
            return self.truth(npm.np_any(binop('==', c, x)))
        if hasattr(c, 'contains_model'):
            return c.contains_model(x)
        raise Unsupported('in %s' % type(c).__name__)

    def truth(self, v):
        if isinstance(v, Sc):
            return CTX.decide(truth(v.e))
        if isinstance(v, Arr):
            return bool(v)
        if isinstance(v, SymSeq):
            return CTX.decide(r_cmp('>', v.n, 0))
        if isinstance(v, OpaqueStr):
            return True
        if isinstance(v, (ObjV, FuncV, ClassV, Module, ExtFn, ExtModule, npm.NS, npm.Special)):
            return True
        return bool(v)

    def e_IfExp(self, e, env):
        t = self.ev(e.test, env)
        return self.ev(e.body if self.truth(t) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env)

    def e_JoinedStr(self, e, env):
        parts = []
        opaque = False
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = ''
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env)
                p = fmt_value(x, spec, v.conversion)
                if not isinstance(p, str):
                    opaque = True
                parts.append(p)
        if opaque:
            return OpaqueStr(parts)
        return ''.join(parts)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def getattr(self, o, n):
        if isinstance(o, (Module, npm.NS, ExtModule)):
            return self.mod_attr(o, n)
        if isinstance(o, ObjV):
            if n in o.attrs:
                return o.attrs[n]
            v = o.cls.lookup(n)
            if v is None:
                if n == '__class__':
                    return o.cls
                raise PyExc('AttributeError', n)
            if isinstance(v, FuncV):
                if v.kind == 'static':
                    return v
                if v.kind == 'property':
                    return self.call(v, [o], {})
                return Bound(v, o)
            return v
        if isinstance(o, ClassV):
            v = o.lookup(n)
            if v is None:
                if n == '__name__':
                    return o.name
                raise PyExc('AttributeError', n)
            return v
        if isinstance(o, FuncV):
            if n in o.attrs:
                return o.attrs[n]
            if n == '__name__':
                return o.name
            raise PyExc('AttributeError', n)
        if isinstance(o, Arr):
            return arr_attr(self, o, n)
        if isinstance(o, (Sc, int, Fraction)) and not isinstance(o, bool):
            return sc_attr(self, o, n)
        if isinstance(o, (str, list, dict, tuple, set)):
            return NativeM(self, o, n)
        if isinstance(o, SymSeq):
            return NativeM(self, o, n)
        if hasattr(o, 'attr_model'):
            return o.attr_model(self, n)
        if isinstance(o, ExtFn):
            full = o.name + '.' + n
            return self.models.get(full, ExtFn(full))
        if isinstance(o, OpaqueStr):
            return lambda *a, **k: OpaqueStr([])
        if isinstance(o, TypeB) or isinstance(o, npm.DT) or isinstance(o, npm.TypeV):
            if n == '__name__':
                return getattr(o, 'tname', None) or o.name
            if n == 'itemsize' and isinstance(o, npm.DT):
                return o.bits // 8
            if n == 'kind' and isinstance(o, npm.DT):
                return o.kind
            if n == 'type' and isinstance(o, npm.DT):
                return o
            if isinstance(o, TypeB) and o.tname == 'str' and n == 'join':
                raise Unsupported('str.join')
            if isinstance(o, TypeB) and o.tname == 'dict' and n == 'fromkeys':
                return lambda ks, v=None: {dkey(k): v for k in self.iter_concrete(ks)}
        if isinstance(o, bool):
            return sc_attr(self, o, n)
        if o is None:
            raise PyExc('AttributeError', 'NoneType.' + n)
        if isinstance(o, ExcV):
            if n == 'args':
                return (o.msg,)
        if isinstance(o, Bound):
            return self.getattr(o.f, n)
        raise Unsupported('attribute %s of %s' % (n, type(o).__name__))

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        ix = self.ev_index(e.slice, env)
        return self.subscript(o, ix)

    def ev_index(self, s, env):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env) for x in s.elts)
        if isinstance(s, ast.Slice):
            return SliceV(*[None if x is None else unwrap0(self.ev(x, env)) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, env)

    def e_Slice(self, e, env):
        return self.ev_index(e, env)

    def subscript(self, o, ix):
        if isinstance(o, Arr):
            return getitem(o, ix)
        if hasattr(o, 'getitem_model'):
            return o.getitem_model(ix)
        if isinstance(o, dict):
            k = dkey(ix)
            if k not in o:
                raise PyExc('KeyError', str(k))
            return o[k]
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(ix, SliceV):
                a, b, c = [None if q is None else raw(q) for q in (ix.a, ix.b, ix.c)]
                a, b, c = [dsimp(q) if is_z3(q) else q for q in (a, b, c)]
                if any(isinstance(q, Fraction) for q in (a, b, c)):
                    raise PyExc('TypeError', 'slice indices must be integers')
                if any(is_z3(q) for q in (a, b, c)):
                    raise Unsupported('symbolic slice of a list')
                return o[a:b:c]
            i = raw(ix)
            if isinstance(i, bool):
                i = int(i)
            if isinstance(i, Arr) or isinstance(ix, (list, tuple)):
                raise PyExc('TypeError', 'list indices must be integers')
            if isinstance(i, Fraction):
                raise PyExc('TypeError', 'list indices must be integers or slices, not float')
            if is_z3(i):
                if i.sort() == RL:
                    raise PyExc('TypeError', 'list indices must be integers or slices, not float')
                i = dsimp(i)
            if is_z3(i):
                n = len(o)
                i = norm_index(wrap(i), n)
                if all(is_scalar(x) for x in o) and n <= 64:
                    r = raw(o[0])
                    for k in range(1, n):
                        r = r_ite(r_cmp('==', i, k), raw(o[k]), r)
                    return wrap(r)
                for k in range(n):
                    if CTX.decide(z(i) == k):
                        return o[k]
                raise Infeasible()
            if not isinstance(i, int):
                raise PyExc('TypeError', 'list indices')
            if not -len(o) <= i < len(o):
                raise PyExc('IndexError', 'index out of range')
            return o[i]
        if isinstance(o, SymSeq):
            if isinstance(ix, SliceV):
                a, n, sp = slice_bounds((ix.a, ix.b, ix.c), o.n)
                return SymSeq(n, lambda i: o.at(simp(r_add(a, r_mul(sp, i)))), o.what)
            i = norm_index(ix, o.n)
            return o.at(i)
        if isinstance(o, npm.MGrid):
            return o.getitem(ix if not isinstance(ix, list) else tuple(ix))
        if hasattr(o, 'getitem'):
            return o.getitem(ix)
        if isinstance(o, (Sc, int, Fraction)):
            raise PyExc('TypeError', 'scalar is not subscriptable')
        if o is None:
            raise PyExc('TypeError', 'NoneType is not subscriptable')
        raise Unsupported('subscript of %s' % type(o).__name__)

    def comp(self, gens, env, leaf):
        """list of results or SymSeq"""
        def rec(k, e):
            if k == len(gens):
                return [leaf(e)]
            g = gens[k]
            seq = self.iter_any(self.ev(g.iter, e))
            if isinstance(seq, SymSeq):
                if k != len(gens) - 1 or g.ifs or k != 0:
                    raise Unsupported('symbolic comprehension shape')
                from . import loops
                return loops.comp_rule(self, g, e, seq, leaf)
            out = []
            for x in seq:
                e2 = Env(e.mod, e)
                self.assign(g.target, x, e2)
                if all(self.truth(self.ev(c, e2)) for c in g.ifs):
                    r = rec(k + 1, e2)
                    if isinstance(r, SymSeq):
                        raise Unsupported('nested symbolic comprehension')
                    out.extend(r)
            return out
        return rec(0, env)

    def e_ListComp(self, e, env):
        return self.comp(e.generators, env, lambda en: self.ev(e.elt, en))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        r = self.comp(e.generators, env, lambda en: self.ev(e.elt, en))
        return set(r)

    def e_DictComp(self, e, env):
        r = self.comp(e.generators, env, lambda en: (dkey(self.ev(e.key, en)), self.ev(e.value, en)))
        return dict(r)

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter_concrete(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, env)
        if f is LOCALS:
            return dict(env.vars)
        if f is SUPER:
            raise Unsupported('super()')
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, ClassV):
            o = ObjV(f)
            init = f.lookup('__init__')
            if init is not None:
                self.call(init, [o] + list(args), kw)
            return o
        if isinstance(f, ObjV):
            c = f.cls.lookup('__call__')
            if c is not None:
                return self.call(c, [f] + list(args), kw)
        if isinstance(f, TypeB):
            return f.call(self, *args, **kw)
        if isinstance(f, ExcT):
            return ExcV(f.name, args[0] if args else '')
        if isinstance(f, ExtFn):
            key = f.name
            if key in self.models:
                return self.call(self.models[key], args, kw)
            raise Unsupported('call of external %s' % f.name)
        if isinstance(f, WithWorld):
            return f.f(self, *args, **kw)
        if f is npm.NDARRAY:
            from .models import ndarray
            return ndarray(self, *args, **kw)
        if isinstance(f, npm.NS):
            raise PyExc('TypeError', 'module is not callable')
        if f is None or isinstance(f, (int, str, Fraction, list, dict, tuple, Arr, Sc, Module)):
            raise PyExc('TypeError', 'object is not callable')
        if callable(f):
            try:
                return f(*args, **kw)
            except TypeError as ex:
                raise Unsupported('model call %s: %s' % (getattr(f, '__name__', f), ex))
        raise Unsupported('call of %s' % type(f).__name__)

    def call_func(self, f, args, kw):
        node = f.node
        a = node.args
        key = (f.mod.name, f.name)
        ov = self.overrides.get('%s.%s' % (f.mod.name.split('.')[-1], f.name))
        if ov is not None:
            return ov(self, f, args, kw)
        if f.locs is None:
            f.locs = local_names(node)
        env = Env(f.mod, f.env if f.env.vars is not f.mod.ns else None, f.locs)
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc('TypeError', 'too many positional arguments')
            env.vars[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env.vars[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env.vars[n] = v
        nd = len(f.defaults)
        for k, n in enumerate(names):
            if n in env.vars:
                if n in kw:
                    raise PyExc('TypeError', 'multiple values for ' + n)
                continue
            if n in kw:
                env.vars[n] = kw.pop(n)
            elif k >= len(names) - nd:
                env.vars[n] = f.defaults[k - (len(names) - nd)]
            else:
                raise PyExc('TypeError', '%s() missing argument %s' % (f.name, n))
        for x, d, dn in zip(a.kwonlyargs, f.kwdefaults, a.kw_defaults):
            if x.arg in kw:
                env.vars[x.arg] = kw.pop(x.arg)
            elif dn is not None:
                env.vars[x.arg] = d
            else:
                raise PyExc('TypeError', 'missing keyword-only ' + x.arg)
        if kw:
            if a.kwarg is None:
                raise PyExc('TypeError', 'unexpected keyword argument ' + str(list(kw)[0]))
            env.vars[a.kwarg.arg] = kw
        elif a.kwarg is not None:
            env.vars[a.kwarg.arg] = {}
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env)
        if f.is_gen or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(node)):
            raise Unsupported('generator function')
        self.depth = getattr(self, 'depth', 0) + 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported('call depth')
        self.fstack.append(('%s.%s' % (f.mod.name.split('.')[-1], f.name), node))
        try:
            self.exec_block(node.body, env)
        except _Return as r:
            return r.v
        finally:
            self.depth -= 1
            self.fstack.pop()
        return None


class WithWorld:
    def __init__(self, f):
        self.f = f


_parsed = {}


def parse(path):
    if path not in _parsed:
        with open(path) as f:
            src = f.read()
        if path.endswith('.pyx'):
            src = from_cython(src)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                _parsed[path] = ast.parse(src)
            except SyntaxError as e:
                raise Unsupported('cannot parse %s: %s' % (os.path.basename(path), e))
    return _parsed[path]


def from_cython(src):
    """Python text of a Cython source: C type declarations, cimports and the types of arguments are dropped; what is
    left is the same statements (C integers become mathematical integers, % and // keep Python's meaning: cdivision is off)"""
    import re
    if re.search(r'cdivision\s*[=(]\s*True|wraparound\s*[=(]\s*False', src):
        raise Unsupported('Cython directives that change the meaning of the statements')
    out = []
    for ln in src.split('\n'):
        ind = ln[:len(ln) - len(ln.lstrip())]
        t = ln.strip()
        if re.match(r'(from\s+\S+\s+)?cimport\b', t):
            ln = ind + 'pass'
        elif t.startswith('cdef '):
            d = re.sub(r'(?<=\w)\[[^\]]*\]', '', t[5:], count=1)
            if '=' in d.split('#')[0]:
                m = re.match(r'[\w.\[\], =]*?(\w+)\s*=\s*([^=].*)$', d)
                if not m or ',' in re.sub(r'\[[^\]]*\]|\([^)]*\)', '', d):
                    raise Unsupported('Cython declaration: ' + t)
                ln = ind + m.group(1) + ' = ' + m.group(2)
            elif '(' in d:
                raise Unsupported('Cython declaration: ' + t)
            else:
                ln = ind + 'pass'
        elif re.match(r'c?p?def\s+\w+\s*\(.*\)\s*:\s*(#.*)?$', t):
            m = re.match(r'def\s+(\w+)\s*\((.*)\)\s*:', t)
            if not m:
                raise Unsupported('Cython declaration: ' + t)
            ps, depth, cur = [], 0, ''
            for ch in re.sub(r'(?<=\w)\[[^\]]*\]', '', m.group(2)):
                if ch == ',' and depth == 0:
                    ps.append(cur)
                    cur = ''
                    continue
                depth += ch in '[('
                depth -= ch in '])'
                cur += ch
            ps.append(cur)
            ps = [(p.split('=')[0].split()[-1] + ('=' + p[p.rindex('=') + 1:] if re.search(r'=[^=\]]*$', p) else '')) for p in ps if p.strip()]
            ln = ind + 'def %s(%s):' % (m.group(1), ', '.join(ps))
        out.append(ln)
    return '\n'.join(out)


def walk_own(node):
    """nodes of a function body, not descending into nested functions"""
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def local_names(node):
    out, glob = set(), set()
    if isinstance(node, ast.Lambda):
        return {x.arg for x in node.args.args}
    for n in walk_own(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    # comprehension targets are not function locals
    comp = set()
    other = set()
    for n in walk_own(node):
        if isinstance(n, ast.comprehension):
            for t in ast.walk(n.target):
                if isinstance(t, ast.Name):
                    comp.add(id(t))
    for n in walk_own(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in comp:
            other.add(n.id)
    names = set()
    for nm in out:
        if nm in other or not any(isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Store) for n in walk_own(node)):
            names.add(nm)
    a = node.args
    names |= {x.arg for x in a.args + a.posonlyargs + a.kwonlyargs}
    return names - glob


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@', ast.LShift: '<<', ast.RShift: '>>'}
CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}


def dkey(k):
    if isinstance(k, Sc):
        e = dsimp(k.e)
        if is_z3(e) or isinstance(e, Cx):
            return ('sym', rkey(k.e))
        return e
    if isinstance(k, OpaqueStr):
        raise Unsupported('opaque string as a dictionary key')
    if isinstance(k, tuple):
        return tuple(dkey(x) for x in k)
    return k


def binop(op, a, b):
    for x, y, r in ((a, b, False), (b, a, True)):
        h = getattr(x, 'binop_model', None)
        if h is not None:
            return h(op, y, r)
    if isinstance(a, npm.Special) or isinstance(b, npm.Special):
        return special_op(op, a, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if op in ('==', '!=') and (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
            if isinstance(a, Arr) and a.kind in 'SO' or isinstance(b, Arr) and b.kind in 'SO':
                return arr_binop(op, a, b)
            o = a if isinstance(a, Arr) else b
            r = (op == '!=')
            return Arr(o.shape, lambda idx: r, 'b')
        if op == '@':
            return npm.dot(a, b)
        if op in ('<<', '>>'):
            raise Unsupported('shift')
        if a is None or b is None:
            raise PyExc('TypeError', 'operand None')
        return arr_binop(op, a, b)
    if isinstance(a, (SymSeq,)) or isinstance(b, SymSeq):
        if isinstance(a, (Sc, Fraction)) or isinstance(b, (Sc, Fraction)):
            raise PyExc('TypeError', 'list arithmetic')
        raise Unsupported('operator on symbolic list')
    if isinstance(a, Sc) or isinstance(b, Sc):
        if a is None or b is None:
            if op == '==':
                return False
            if op == '!=':
                return True
            raise PyExc('TypeError', 'None operand')
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if op == '*':
                l, s = (a, b) if isinstance(a, (list, tuple)) else (b, a)
                n = dsimp(s.e)
                if isinstance(n, int):
                    return l * n
                if len(l) == 1 and is_z3(n) and n.sort() == I:
                    v = l[0]
                    return SymSeq(n, lambda i: v)
                raise Unsupported('list repetition')
            if op == '==':
                return False
            if op == '!=':
                return True
            # numpy scalar op list would broadcast; python float op list raises
            raise Unsupported('scalar op list')
        if isinstance(a, str) or isinstance(b, str):
            if op == '==':
                return False
            if op == '!=':
                return True
            if op == '%' and isinstance(a, str):
                return OpaqueStr([a, b])
            raise PyExc('TypeError', 'str op number')
        if isinstance(a, (OpaqueStr,)) or isinstance(b, OpaqueStr):
            return OpaqueStr([a, b])
        for x in (a, b):
            if not isinstance(x, (Sc, int, Fraction, float, complex)):
                if op == '==':
                    return False
                if op == '!=':
                    return True
                raise PyExc('TypeError', 'bad operand %s' % type(x).__name__)
        return sc_binop(op, a, b)
    num_ = (int, Fraction, float)
    if isinstance(a, num_) and isinstance(b, num_):
        if op in BINOPS and op not in '&|^':
            ra, rb = raw(a), raw(b)
            if op in ('/', '//', '%') and rb == 0:
                raise PyExc('ZeroDivisionError', 'division by zero')
            r = BINOPS[op][0](ra, rb)
            return wrap(r)
        return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
    if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
        if op in ('+', '%'):
            return OpaqueStr([a, b])
        raise Unsupported('opaque string comparison')
    if isinstance(a, str) and op == '%':
        return fmt_percent(a, b)
    if op in ('==', '!='):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return op == '!='
            r = True
            for x, y in zip(a, b):
                t = binop('==', x, y)
                r = r and (CTX.decide(truth(raw(t))) if isinstance(t, Sc) else bool(t))
            return r if op == '==' else not r
        if type(a) in (str, list, tuple, dict, bool, int, Fraction, type(None), set) and type(b) in (str, list, tuple, dict, bool, int, Fraction, type(None), set):
            return (a == b) if op == '==' else (a != b)
        e = (a is b) or (isinstance(a, npm.DT) and a == b) or (isinstance(b, npm.DT) and b == a)
        if isinstance(a, TypeB) and isinstance(b, npm.DT) or isinstance(b, TypeB) and isinstance(a, npm.DT):
            t, d = (a, b) if isinstance(a, TypeB) else (b, a)
            try:
                e = npm.dt(t.tname) == d
            except Unsupported:
                e = False
        return e if op == '==' else not e
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == '+':
        if type(a) is not type(b):
            raise PyExc('TypeError', 'concatenate')
        return a + b
    if isinstance(a, (list, tuple, str)) and isinstance(b, int) and op == '*':
        return a * b
    if isinstance(b, (list, tuple, str)) and isinstance(a, int) and op == '*':
        return a * b
    if isinstance(a, str) and isinstance(b, str):
        if op == '+':
            return a + b
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if isinstance(a, set) and isinstance(b, set):
        return {'-': lambda: a - b, '&': lambda: a & b, '|': lambda: a | b}[op]()
    raise PyExc('TypeError', 'unsupported operand %s: %s and %s' % (op, type(a).__name__, type(b).__name__))


def special_op(op, a, b):
    if op in ('<', '<=', '>', '>=', '==', '!='):
        if isinstance(a, npm.Special):
            flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
            return special_op(flip[op], b, a)
        if isinstance(a, npm.Special):
            return a.name == b.name
        r = {'inf': {'<': True, '<=': True, '>': False, '>=': False, '==': False, '!=': True},
             '-inf': {'<': False, '<=': False, '>': True, '>=': True, '==': False, '!=': True},
             'nan': {'<': False, '<=': False, '>': False, '>=': False, '==': False, '!=': True}}[b.name][op]
        if isinstance(a, Arr):
            return Arr(a.shape, lambda idx: r, 'b')
        return r
    raise Unsupported('arithmetic with inf/nan')


def fmt_value(x, spec='', conv=-1):
    x = unwrap0(x)
    if isinstance(x, (str, int, bool, type(None))) and not (isinstance(x, int) and any(c in spec for c in 'feg')):
        if isinstance(spec, str):
            return format(x, spec) if conv == -1 else format(repr(x) if conv == 114 else str(x), spec)
    if isinstance(x, (Fraction, int)) and isinstance(spec, str):
        return format(float(x), spec)
    if isinstance(x, (list, tuple, dict)):
        return OpaqueStr([x])
    return OpaqueStr([x])


def fmt_percent(s, args):
    a = args if isinstance(args, tuple) else (args,)
    vals_ = []
    for x in a:
        x = unwrap0(x)
        if isinstance(x, Fraction):
            vals_.append(float(x))
        elif isinstance(x, (int, str)):
            vals_.append(x)
        else:
            return OpaqueStr([s, args])
    try:
        return s % tuple(vals_)
    except (TypeError, ValueError) as e:
        raise PyExc('TypeError', str(e))


class ExcT:
    def __init__(self, name):
        self.name = name


class ExcV:
    def __init__(self, name, msg=''):
        self.name, self.msg = name, msg


EXC = {'ValueError': 'Exception', 'TypeError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
       'AttributeError': 'Exception', 'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'ImportError': 'Exception',
       'ModuleNotFoundError': 'ImportError', 'AssertionError': 'Exception', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
       'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'IOError': 'Exception', 'OSError': 'Exception', 'FileNotFoundError': 'OSError',
       'Exception': 'BaseException', 'BaseException': None, 'KeyboardInterrupt': 'BaseException', 'AxisError': 'ValueError', 'UFuncTypeError': 'TypeError',
       'StopIteration': 'Exception', 'EOFError': 'Exception', 'Warning': 'Exception', 'UserWarning': 'Warning', 'DeprecationWarning': 'Warning', 'SystemExit': 'BaseException'}


def exc_sub(a, b):
    while a is not None:
        if a == b:
            return True
        a = EXC.get(a)
    return False


# ------------------------------------------------------------------ attributes
def arr_attr(w, a, n):
    if n == 'shape':
        return tuple(wrap(d) for d in a.shape)
    if n == 'ndim':
        return a.ndim
    if n == 'size':
        if a.sel is not None:
            return npm.count(a)
        return wrap(prod(a.shape))
    if n == 'T':
        return npm.transpose(a)
    if n == 'dtype':
        return npm.kdt(a)
    if n == 'real':
        return npm.real(a)
    if n == 'imag':
        return npm.imag(a)
    if n == 'flat':
        return npm.ravel(a)
    if n in ('value', 'unit', 'to', 'si', 'cgs', 'to_value'):
        from . import models
        if a.unit is not None:
            return models.q_attr(w, a, n)
        raise PyExc('AttributeError', n)
    if n == 'tofile':
        from . import files
        return lambda *x, **k: files.tofile(w, a, *x, **k)
    m = ARRM.get(n)
    if m is not None:
        return lambda *x, **k: m(a, *x, **k)
    if n in ('data', 'base', 'strides', 'nbytes', 'itemsize'):
        raise Unsupported('ndarray.' + n)
    raise PyExc('AttributeError', "'numpy.ndarray' object has no attribute '%s'" % n)


def _tolist(a):
    if all_int(a.shape):
        def rec(ix):
            if len(ix) == a.ndim:
                return wrap(a.get(ix))
            return [rec(ix + (i,)) for i in range(a.shape[len(ix)])]
        return rec(())
    if a.ndim == 1:
        f = a.frozen()
        return SymSeq(a.shape[0], lambda i: wrap(f((i,))))
    raise Unsupported('tolist')


def _fillm(a, v):
    setitem(a, Ellipsis, v)


def _sortm(a, axis=-1):
    assign_view(a, npm.np_sort(a))


def _astype(a, d, copy=True, **k):
    return npm.astype(a, d)


ARRM = {'sum': npm.np_sum, 'mean': npm.np_mean, 'std': npm.np_std, 'var': npm.np_var, 'max': npm.np_max, 'min': npm.np_min,
        'any': npm.np_any, 'all': npm.np_all, 'prod': npm.np_prod, 'cumsum': npm.cumsum, 'copy': lambda a, order='C': a.copy(), 'astype': _astype,
        'flatten': npm.flatten, 'ravel': npm.ravel, 'reshape': lambda a, *s, **k: npm.reshape(a, *s, **k), 'squeeze': npm.squeeze,
        'swapaxes': npm.swapaxes, 'transpose': npm.transpose, 'tolist': _tolist, 'fill': _fillm, 'argmin': npm.argmin, 'argmax': npm.argmax,
        'sort': _sortm, 'argsort': npm.argsort, 'round': npm.np_round, 'clip': npm.clip, 'conj': npm.conj, 'conjugate': npm.conj, 'dot': npm.dot,
        'item': lambda a, *i: getitem(a, i) if i else wrap(a.get(tuple(0 for _ in a.shape))), 'repeat': npm.repeat,
        'diagonal': lambda a: Unsupported, 'nonzero': lambda a: npm.where(a)}


def sc_attr(w, o, n):
    if n == 'real':
        return wrap(cre(raw(o)))
    if n == 'imag':
        return wrap(cim(raw(o)))
    if n == 'shape':
        return ()
    if n == 'ndim':
        return 0
    if n == 'size':
        return 1
    if n == 'dtype':
        return {'b': npm.BOOL, 'i': npm.I64, 'f': npm.F64, 'c': npm.C128}[kind_of(raw(o))]
    if n in ARRM:
        if isinstance(o, (int, Fraction)) and n not in ('conjugate',) and not isinstance(o, bool):
            # python scalars lack ndarray methods; numpy scalars have them -- treated as numpy scalars
            pass
        return lambda *x, **k: unwrap0(ARRM[n](as_arr(o), *x, **k))
    if n == 'is_integer':
        return lambda: wrap(r_cmp('==', r_floor(raw(o)), raw(o)))
    raise PyExc('AttributeError', n)


class NativeM:
    """method of a native container / string"""
    def __init__(self, w, o, n):
        self.w, self.o, self.n = w, o, n
        if isinstance(o, SymSeq):
            return
        if not hasattr(o, n):
            raise PyExc('AttributeError', '%s.%s' % (type(o).__name__, n))

    def __call__(self, *a, **k):
        o, n, w = self.o, self.n, self.w
        if isinstance(o, SymSeq):
            if n == 'append' and o.what == 'list':
                on, oat, v = o.n, o.at, a[0]

                def undo():
                    o.n, o.at = on, oat
                log_undo(undo, ('symlist', o))
                if is_scalar(v):
                    rv = raw(v)
                    o.at = lambda i: wrap(r_ite(r_cmp('==', i, on), rv, raw(oat(i))))
                elif isinstance(v, Arr) and v.sel is None:
                    fv, sv, kv = v.frozen(), v.shape, v.kind

                    def at(i):
                        if not is_z3(i) and not is_z3(on) and i == on:
                            return v
                        e = as_arr(oat(i))
                        fe = e.frozen()
                        return Arr(sv, lambda idx: r_ite(r_cmp('==', i, on), fv(idx), fe(idx)), kmax(kv, e.kind))
                    o.at = at
                else:
                    raise Unsupported('append of this value to a symbolic list')
                o.n = dsimp(r_add(on, 1))
                return None
            raise Unsupported('method %s of symbolic list' % n)
        if isinstance(o, list):
            old = list(o)
            if n in ('append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'clear', 'sort'):
                log_undo(lambda: o.__setitem__(slice(None), old), ('list', o, n, a))
            if n == 'sort':
                r = sort_list(o, w, **k)
                o[:] = r
                return None
            if n == 'extend':
                o.extend(w.iter_concrete(a[0]))
                return None
            if n == 'index':
                for j, x in enumerate(o):
                    if w.truth(binop('==', x, a[0])):
                        return j
                raise PyExc('ValueError', 'not in list')
            if n == 'count':
                return sum(1 for x in o if w.truth(binop('==', x, a[0])))
            if n == 'copy':
                return list(o)
            if n == 'pop':
                if not o:
                    raise PyExc('IndexError', 'pop from empty list')
            return getattr(o, n)(*a, **k)
        if isinstance(o, dict):
            if n in ('update', 'pop', 'clear', 'setdefault'):
                old = dict(o)

                def undo():
                    o.clear()
                    o.update(old)
                log_undo(undo)
            if n in ('get', 'pop', 'setdefault'):
                a = (dkey(a[0]),) + tuple(a[1:])
            if n in ('keys', 'values', 'items'):
                return [tuple(x) if n == 'items' else x for x in getattr(o, n)()]
            try:
                return getattr(o, n)(*a, **k)
            except KeyError as e:
                raise PyExc('KeyError', str(e))
        if isinstance(o, str):
            if n == 'format':
                outs = [fmt_arg(x) for x in a]
                if any(x is None for x in outs) or any(fmt_arg(v) is None for v in k.values()):
                    return OpaqueStr([o] + list(a))
                return o.format(*outs, **{q: fmt_arg(v) for q, v in k.items()})
            if n == 'join':
                xs = w.iter_concrete(a[0])
                if any(isinstance(x, OpaqueStr) for x in xs):
                    return OpaqueStr(xs)
                return o.join(xs)
            if any(isinstance(x, OpaqueStr) for x in a):
                raise Unsupported('opaque string method')
            try:
                return getattr(o, n)(*a, **k)
            except ValueError as e:
                raise PyExc('ValueError', str(e))
        try:
            return getattr(o, n)(*a, **k)
        except KeyError as e:
            raise PyExc('KeyError', str(e))


class ListRef:
    def __init__(self, o):
        self.o = o

    def __hash__(self):
        return id(self.o)

    def __eq__(self, b):
        return isinstance(b, ListRef) and b.o is self.o


def fmt_arg(x):
    x = unwrap0(x)
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return None


def sort_list(xs, w, key=None, reverse=False):
    ks = [w.call(key, [x], {}) if key is not None else x for x in xs]
    if all(isinstance(k, (int, Fraction, str)) for k in ks):
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
        return [xs[i] for i in order]
    order = []
    for i in range(len(xs)):
        p = len(order)
        while p > 0 and w.truth(binop('>' if reverse else '<', ks[i], ks[order[p - 1]])):
            p -= 1
        order.insert(p, i)
    return [xs[i] for i in order]


# ------------------------------------------------------------------ builtins
def b_len(w, x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise PyExc('TypeError', 'len() of unsized object')
        return wrap(x.shape[0])
    if isinstance(x, SymSeq):
        return wrap(x.n)
    if hasattr(x, 'len_model'):
        return x.len_model()
    if isinstance(x, (Sc, int, Fraction)) or x is None:
        raise PyExc('TypeError', 'object has no len()')
    if isinstance(x, ObjV):
        return w.call(w.getattr(x, '__len__'), [], {})
    return len(x)


def b_range(w, *a):
    rs = [num(raw(x)) for x in a]
    for r in rs:
        if isinstance(r, Fraction) or (is_z3(r) and r.sort() != I):
            raise PyExc('TypeError', "'float' object cannot be interpreted as an integer")
    rs = [dsimp(r) for r in rs]
    if all(isinstance(r, int) for r in rs):
        return range(*rs)
    st, en, sp = (0, rs[0], 1) if len(rs) == 1 else (rs[0], rs[1], 1) if len(rs) == 2 else rs
    if not isinstance(sp, int):
        if not CTX.decide(sp > 0):
            raise Unsupported('range with symbolic step')
    elif sp == 0:
        raise PyExc('ValueError', 'range step')
    if isinstance(sp, int) and sp < 0:
        n = r_fdiv(r_add(r_sub(st, en), -sp - 1), -sp)
    else:
        n = r_sub(en, st)
        if not (isinstance(sp, int) and sp == 1):
            n = r_fdiv(r_add(n, r_sub(sp, 1)), sp)
    n = dsimp(n)
    if not isinstance(n, int) and not CTX.decide(z(n) >= 0):
        n = 0
    return SymSeq(max(n, 0) if isinstance(n, int) else n, lambda i: wrap(r_add(st, r_mul(sp, i))), 'range')


def b_isinstance(w, v, t):
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if type_test(x, v):
            return True
    return False


def type_test(t, v):
    if isinstance(t, TypeB):
        return t.test(v)
    if isinstance(t, npm.TypeV):
        return t.test(v)
    if isinstance(t, npm.DT):
        if isinstance(v, Arr):
            return False
        return is_scalar(v) and not isinstance(v, str) and kind_of(raw(v)) == t.kind and t.bits == 64
    if isinstance(t, ClassV):
        if not isinstance(v, ObjV):
            return False

        def sub(c):
            return c is t or any(sub(b) for b in c.bases if isinstance(b, ClassV))
        return sub(v.cls)
    if isinstance(t, ExcT):
        return isinstance(v, ExcV) and exc_sub(v.name, t.name)
    if isinstance(t, ExtFn):
        tn = t.name
        if isinstance(v, Arr):
            return v.unit is not None and tn.endswith('Quantity')
        h = getattr(v, 'ext_type', None)
        return h is not None and tn.endswith(h)
    if getattr(t, 'istype', None):
        return t.istype(v)
    raise Unsupported('isinstance against %r' % (t,))


def b_type(w, v):
    if isinstance(v, Arr):
        if v.unit is not None:
            return ExtFn('astropy.units.Quantity')
        return npm.NDARRAY
    if isinstance(v, ObjV):
        return v.cls
    if isinstance(v, bool):
        return T_BOOL
    if isinstance(v, (Sc, int, Fraction)):
        return {'b': T_BOOL, 'i': T_INT, 'f': T_FLOAT, 'c': T_COMPLEX}[kind_of(raw(v))]
    if isinstance(v, (str, OpaqueStr)):
        return T_STR
    if isinstance(v, (list, SymSeq)):
        return T_LIST
    if isinstance(v, tuple):
        return T_TUPLE
    if isinstance(v, dict):
        return T_DICT
    if v is None:
        return T_NONE
    raise Unsupported('type()')


def b_int(w, x=0, base=10):
    x = unwrap0(x)
    if isinstance(x, str):
        try:
            return int(x, base)
        except ValueError as e:
            raise PyExc('ValueError', str(e))
    if isinstance(x, Arr):
        if all_int(x.shape) and prod(x.shape) == 1:
            return wrap(cast('i', x.get(tuple(0 for _ in x.shape))))
        raise PyExc('TypeError', 'only length-1 arrays can be converted')
    if x is None or isinstance(x, (list, dict, tuple)):
        raise PyExc('TypeError', 'int()')
    if isinstance(x, OpaqueStr):
        raise Unsupported('int of opaque string')
    r = raw(x)
    if isinstance(r, Cx):
        raise PyExc('TypeError', 'int(complex)')
    return wrap(cast('i', r))


def b_float(w, x=0):
    x = unwrap0(x)
    if isinstance(x, str):
        try:
            f = float(x)
        except ValueError as e:
            raise PyExc('ValueError', str(e))
        return to_frac(f)
    if isinstance(x, Arr):
        if all_int(x.shape) and prod(x.shape) == 1:
            return wrap(cast('f', x.get(tuple(0 for _ in x.shape))))
        raise PyExc('TypeError', 'only length-1 arrays can be converted')
    if x is None or isinstance(x, (list, dict, tuple)):
        raise PyExc('TypeError', 'float()')
    if isinstance(x, OpaqueStr):
        raise Unsupported('float of opaque string')
    if isinstance(x, npm.Special):
        return x
    return wrap(cast('f', raw(x)))


def b_str(w, x=''):
    p = fmt_value(x)
    return p


def b_list(w, x=()):
    if isinstance(x, Arr):
        s = w.iter_any(x)
        return list(s) if not isinstance(s, SymSeq) else s
    if isinstance(x, SymSeq):
        return SymSeq(x.n, x.at)
    return list(w.iter_any(x))


def b_tuple(w, x=()):
    r = b_list(w, x)
    return tuple(r) if isinstance(r, list) else r


class CountMap:
    """the dictionary value -> number of occurrences made from np.unique(..., return_counts=True)"""
    def __init__(self, cnt):
        self.cnt = cnt

    def get(self, k, d=None):
        c = self.cnt(raw(k))
        if is_scalar(d) and not isinstance(d, str):
            return wrap(c if raw(d) == 0 and not is_z3(raw(d)) else r_ite(r_cmp('==', c, 0), raw(d), c))
        if CTX.decide(zb(r_cmp('==', c, 0))):
            return d
        return wrap(c)

    def attr_model(self, w, n):
        if n == 'get':
            return self.get
        raise Unsupported('dict.' + n)

    def contains_model(self, k):
        return wrap(r_cmp('>', self.cnt(raw(k)), 0))


def b_dict(w, x=None, **k):
    if getattr(x, 'counts', None) is not None and not k:
        return CountMap(x.counts)
    d = {}
    if isinstance(x, dict):
        d.update(x)
    elif x is not None:
        for q, v in w.iter_concrete(x):
            d[dkey(q)] = v
    d.update(k)
    return d


def b_abs(w, x):
    return npm.np_abs(x)


def b_sum(w, x, start=0):
    s = w.iter_any(x)
    if isinstance(s, SymSeq):
        e = s.at(fresh('p', I))
        if is_scalar(e):
            return wrap(r_add(raw(start), npm.raw_sum(lambda i: raw(s.at(i)), [s.n])))
        return npm.np_sum(as_arr(s), axis=0)
    t = start
    for v in s:
        t = binop('+', t, v)
    return t


def _mm(which):
    def f(w, *a, key=None, default=None):
        xs = a[0] if len(a) == 1 else list(a)
        if key is not None:
            raise Unsupported('min/max key')
        if isinstance(xs, Arr):
            return (npm.np_max if which == 'max' else npm.np_min)(xs)
        s = w.iter_any(xs)
        if isinstance(s, SymSeq):
            return (npm.np_max if which == 'max' else npm.np_min)(as_arr(s))
        s = list(s)
        if not s:
            raise PyExc('ValueError', 'empty sequence')
        if all(isinstance(x, str) for x in s):
            return max(s) if which == 'max' else min(s)
        r = raw(s[0])
        for x in s[1:]:
            r = (r_max if which == 'max' else r_min)(r, raw(x))
        return wrap(r)
    return f


def b_enumerate(w, x, start=0):
    s = w.iter_any(x)
    st = raw(start)
    if isinstance(s, SymSeq):
        return SymSeq(s.n, lambda i: (wrap(r_add(st, i)), s.at(i)))
    return list(enumerate(s, st))


def b_zip(w, *xs):
    ss = [w.iter_any(x) for x in xs]
    if any(isinstance(s, SymSeq) for s in ss):
        n = None
        for s in ss:
            m = s.n if isinstance(s, SymSeq) else len(s)
            if n is None:
                n = m
            elif not dim_same(n, m):
                if CTX.decide(z(m) < z(n)):
                    n = m

        def at(i):
            return tuple(s.at(i) if isinstance(s, SymSeq) else w.subscript(list(s), wrap(i)) for s in ss)
        r = SymSeq(n, at)
        if len(xs) == 2 and all(isinstance(x, Arr) and x.meta for x in xs) and xs[0].meta[0] == 'unique' and xs[1].meta[0] == 'counts' and xs[0].meta[1] == xs[1].meta[1]:
            r.counts = xs[1].meta[2]
        return r
    return list(zip(*ss))


def b_map(w, f, *xs):
    ss = [w.iter_any(x) for x in xs]
    if any(isinstance(s, SymSeq) for s in ss):
        raise Unsupported('map over symbolic sequence')
    return [w.call(f, list(t), {}) for t in zip(*ss)]


def b_filter(w, f, xs):
    return [x for x in w.iter_concrete(xs) if w.truth(x if f is None else w.call(f, [x], {}))]


def b_sorted(w, x, key=None, reverse=False):
    if isinstance(x, Arr) and x.ndim == 1 and key is None and not isinstance(x.shape[0], int):
        raise Unsupported('sorted symbolic')
    return sort_list(list(w.iter_concrete(x)), w, key, reverse)


def b_reversed(w, x):
    s = w.iter_any(x)
    if isinstance(s, SymSeq):
        return SymSeq(s.n, lambda i: s.at(simp(r_sub(r_sub(s.n, 1), i))))
    return list(reversed(list(s)))


def b_any(w, x):
    s = w.iter_any(x)
    if isinstance(s, SymSeq):
        return npm.np_any(as_arr(s))
    r = False
    for v in s:
        if w.truth(v):
            return True
    return False


def b_all(w, x):
    s = w.iter_any(x)
    if isinstance(s, SymSeq):
        return npm.np_all(as_arr(s))
    for v in s:
        if not w.truth(v):
            return False
    return True


def b_round(w, x, n=None):
    x = unwrap0(x)
    if n is None:
        return wrap(r_round(raw(x)))
    return npm.np_round(x, n)


def b_getattr(w, o, n, *d):
    try:
        return w.getattr(o, n)
    except PyExc:
        if d:
            return d[0]
        raise


def b_hasattr(w, o, n):
    if n in ('__iter__', '__len__', '__getitem__', '__next__'):
        if isinstance(o, Arr):
            return o.ndim > 0 if n == '__iter__' else n != '__next__'
        if isinstance(o, (list, tuple, dict, set, str, SymSeq, range)):
            return n != '__next__'
        if o is None or is_scalar(o):
            return False
    try:
        w.getattr(o, n)
        return True
    except PyExc:
        return False


def b_callable(w, x):
    return isinstance(x, (FuncV, Bound, ClassV, ExtFn, TypeB, WithWorld)) or (callable(x) and not isinstance(x, (Arr, Sc)))


def b_print(w, *a, **k):
    return None


def b_pow(w, a, b):
    return binop('**', a, b)


def b_complex(w, a=0, b=0):
    return wrap(Cx(raw(a), raw(b)))


def b_divmod(w, a, b):
    return (binop('//', a, b), binop('%', a, b))


def tk(k):
    return lambda v: (not isinstance(v, (Arr, str)) and is_scalar(v) and kind_of(raw(v)) == k)


T_INT = TypeB('int', b_int, lambda v: not isinstance(v, (Arr, str)) and is_scalar(v) and kind_of(raw(v)) in 'bi')
T_FLOAT = TypeB('float', b_float, tk('f'))
T_COMPLEX = TypeB('complex', b_complex, tk('c'))
T_BOOL = TypeB('bool', lambda w, x=False: w.truth(x), tk('b'))
T_STR = TypeB('str', b_str, lambda v: isinstance(v, (str, OpaqueStr)))
T_LIST = TypeB('list', b_list, lambda v: isinstance(v, list) or (isinstance(v, SymSeq)))
T_TUPLE = TypeB('tuple', b_tuple, lambda v: isinstance(v, tuple))
T_DICT = TypeB('dict', b_dict, lambda v: isinstance(v, dict))
T_SET = TypeB('set', lambda w, x=(): set(w.iter_concrete(x)), lambda v: isinstance(v, set))
T_NONE = TypeB('NoneType', lambda w: None, lambda v: v is None)
T_OBJECT = TypeB('object', lambda w: ObjV(ClassV('object', {}, [])), lambda v: True)
STATIC, CLASSM, PROPERTY, LOCALS, SUPER = (ExcT('staticmethod'), ExcT('classmethod'), ExcT('property'), ExcT('locals'), ExcT('super'))

BUILTINS = {'int': T_INT, 'float': T_FLOAT, 'bool': T_BOOL, 'str': T_STR, 'list': T_LIST, 'tuple': T_TUPLE, 'dict': T_DICT, 'set': T_SET,
            'complex': T_COMPLEX, 'object': T_OBJECT, 'staticmethod': STATIC, 'classmethod': CLASSM, 'property': PROPERTY, 'locals': LOCALS, 'super': SUPER,
            'True': True, 'False': False, 'None': None, 'NotImplemented': None, 'Ellipsis': Ellipsis, '__name__': '__mod__'}
for _n, _f in dict(len=b_len, range=b_range, isinstance=b_isinstance, type=b_type, abs=b_abs, sum=b_sum, min=_mm('min'), max=_mm('max'),
                   enumerate=b_enumerate, zip=b_zip, map=b_map, filter=b_filter, sorted=b_sorted, reversed=b_reversed, any=b_any, all=b_all,
                   round=b_round, getattr=b_getattr, hasattr=b_hasattr, callable=b_callable, print=b_print, pow=b_pow, divmod=b_divmod).items():
    BUILTINS[_n] = WithWorld(_f)
for _n in EXC:
    BUILTINS[_n] = ExcT(_n)

from . import files
BUILTINS['open'] = WithWorld(files.b_open)
