"""Abstract interpreter for the package: path-sensitive, context-sensitive
(calls are inlined), with joins at loop heads until a fixpoint is reached."""
import ast
import builtins as _bi
import os
import sys

from oesa.values import *  # noqa
from oesa.heap import Obj, State, Joiner, UNBOUND
from oesa import model
from oesa import ext as ext_

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """the analysis cannot answer"""


class Budget(AnalysisError):
    pass


class Flow:
    __slots__ = ('nxt', 'brk', 'cnt', 'ret')

    def __init__(self, nxt=None):
        self.nxt = nxt or []
        self.brk = []
        self.cnt = []
        self.ret = []

    def absorb(self, o):
        self.brk += o.brk
        self.cnt += o.cnt
        self.ret += o.ret


class Fn:
    """syntax of a function"""

    def __init__(self, node, module, qual, cls):
        self.node = node
        self.module = module
        self.qual = qual
        self.cls = cls      # name of the class for name mangling
        self.name = getattr(node, 'name', '<lambda>')
        self.isgen = False
        if not isinstance(node, ast.Lambda):
            self.isgen = _has_yield(node)
            self.locals, self.nonlocals = _locals(node)
        else:
            self.locals, self.nonlocals = set(), set()

    def __repr__(self):
        return '<%s.%s>' % (self.module, self.qual)


def _has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


def _locals(node):
    names, nonl = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension variables live in their own scope, := does not
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    names.add(c.target.id)
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            nonl.update(n.names)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        if isinstance(n, ast.MatchMapping) and n.rest:
            names.add(n.rest)
        todo += list(ast.iter_child_nodes(n))
    return names - nonl, nonl


def parse_package(root):
    """module name -> (path, ast)"""
    mods = {}
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if d != '__pycache__')
        for f in sorted(fn):
            if not f.endswith('.py'):
                continue
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, os.path.dirname(root))[:-3].replace(os.sep, '.')
            if rel.endswith('.__init__'):
                rel = rel[:-9]
            with open(p, encoding='utf-8') as i:
                mods[rel] = (p, ast.parse(i.read(), p))
    return mods


PRELUDE = os.path.join(os.path.dirname(__file__), 'prelude_src.py')


class Interp(ext_.Ext, model.Model):
    def __init__(self, mods, **opts):
        self.mods = dict(mods)
        with open(PRELUDE) as i:
            self.mods['oesa_prelude'] = (PRELUDE, ast.parse(i.read(), PRELUDE))
        self.pkgs = {m.split('.')[0] for m in mods}
        self.opts = dict(maxstates=48, maxret=32, unroll=80, wunroll=3, maxdepth=60, steps=4000000, faults=True, peel=True, recursion=1)
        self.opts.update(opts)
        self.next_oid = 1
        self.captured = set()
        self.joiner = Joiner()
        self.hooks = []
        self.stubs = {}
        self.exc = [[]]
        self.handlers = []
        self.want_exc = None
        self.stack = []      # (Fn, call node)
        self.node = None
        self.steps = 0
        self.depth_uord = 0
        self.fn_cache = {}
        self.desugar = {}
        self.functions_seen = set()
        self.base = {}
        self.module_oid = {}
        self.class_oid = {}
        st = State(self.base)
        self.boot = True
        for m in sorted(self.mods, key=lambda m: (m != 'oesa_prelude', m)):
            st = self.import_module(m, st)
        self.boot = False
        # the heap after importing is the base of every scenario
        for oid, o in st.heap.items():
            self.base[oid] = o
        self.base_mark = self.next_oid
        self.exc = [[]]

    # -- helpers ---------------------------------------------------------------

    def fresh(self):
        return State(self.base)

    def site(self, node=None, tag=''):
        n = node if node is not None else self.node
        return (self.stack[-1][0].qual if self.stack else '', getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0), tag)

    def alloc(self, st, kind, node=None, tag='', **kw):
        oid = self.next_oid
        self.next_oid += 1
        o = Obj(kind, self.site(node, tag), **kw)
        o.bump()
        st.heap[oid] = o
        return oid

    def new(self, st, kind, node=None, tag='', **kw):
        return ref(self.alloc(st, kind, node, tag, **kw))

    def newlist(self, st, vals, node=None, kind='list'):
        return self.new(st, kind, node, seq=tuple(vals))

    def where(self, node=None):
        n = node if node is not None else self.node
        fn = self.stack[-1][0] if self.stack else None
        return '%s:%s %s' % (fn.module.replace('.', '/') + '.py' if fn else '?', getattr(n, 'lineno', '?'), fn.qual if fn else '<module>')

    def emit(self, what, st, **kw):
        for h in self.hooks:
            f = getattr(h, 'on_' + what, None)
            if f:
                f(self, st, **kw)

    def tick(self):
        self.steps += 1
        if self.steps > self.opts['steps']:
            raise Budget('analysis budget exceeded at %s' % self.where())

    # -- exceptions ------------------------------------------------------------

    def canon_exc(self, a):
        if a[0] == 'x':
            n = a[1]
            return model.EXC_ALIAS.get(n, n[9:] if n.startswith('builtins.') else n)
        if a[0] == 'r':
            return ('cls', a[1])
        return 'Exception'

    def exc_mro(self, name, st=None):
        if isinstance(name, tuple):
            out = []
            for c in self.mro(name[1], st or self.fresh()):
                if c[0] == 'r':
                    out.append(('cls', c[1]))
                else:
                    out += self.exc_mro(self.canon_exc(c))
            return out
        if name in model.EXC_PARENTS:
            return [name] + self.exc_mro(model.EXC_PARENTS[name])
        c = getattr(_bi, name, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return [k.__name__ for k in c.__mro__ if k is not object]
        return [name, 'Exception', 'BaseException']

    def catchable(self, name):
        m = None
        for hs in self.handlers:
            if '*' in hs:
                return True
            if m is None:
                m = set(self.exc_mro(name))
            if m & hs:
                return True
        return False

    def raise_(self, st, name, node=None, msg='', val=None, force=False):
        if not force and not self.catchable(name) and not (self.want_exc and self.want_exc(name)):
            return
        v = val if val is not None else frozenset([T('exc', ('exc', name))])
        self.exc[-1].append((st, name, v, node if node is not None else self.node, msg, self.where(node), tuple(f.qual for f, _ in self.stack)))

    # -- modules ---------------------------------------------------------------

    def import_module(self, name, st):
        if name in self.module_oid:
            return st
        path, tree = self.mods[name]
        oid = self.alloc(st, 'module', None, name, x=name)
        self.module_oid[name] = oid
        o = st.w(oid)
        o.d['__name__'] = const(name)
        o.d['__file__'] = const(path)
        fn = Fn.__new__(Fn)
        fn.node, fn.module, fn.qual, fn.cls, fn.name, fn.isgen = tree, name, '<module>', None, '<module>', False
        fn.locals, fn.nonlocals = set(), set()
        self.stack.append((fn, None))
        frames = st.frames
        st.frames = frames + (oid,)
        fl = self.block(tree.body, [st])
        self.stack.pop()
        if not fl.nxt:
            raise AnalysisError('module %s never finishes importing' % name)
        st = fl.nxt[0]
        for o in fl.nxt[1:]:
            st, _, _ = self.joiner.join2(st, o, oid)
        st.frames = frames
        st.facts = {}
        return st

    # -- statements --------------------------------------------------------------

    def block(self, stmts, sts):
        fl = Flow(list(sts))
        for s in stmts:
            if not fl.nxt:
                break
            if len(fl.nxt) > self.opts['maxstates']:
                fl.nxt = self.reduce(fl.nxt)
            nxt = []
            for st in fl.nxt:
                f = self.stmt(s, st)
                fl.absorb(f)
                nxt += f.nxt
            fl.nxt = nxt
        return fl

    def key(self, st):
        """partition key of a state: constants of the current frame"""
        o = st.get(st.frames[-1]) if st.frames else None
        out = []
        if o:
            for k in sorted(o.d):
                a = one(o.d[k])
                if a is not None and a[0] == 'c' and (a[2] is None or isinstance(a[2], bool)):
                    out.append((k, a[2]))
                elif a is not None and a[0] in ('c', 't', 'm'):
                    out.append((k, 'v'))
        return tuple(out)

    def reduce(self, sts, mark=0, extra=None):
        """merge states, similar ones first"""
        mark = mark or self.region
        groups = {}
        for i, st in enumerate(sts):
            k = self.key(st)
            if extra is not None:
                a = one(extra[i])
                k = (k, a if a is not None and a[0] == 'c' else None)
            groups.setdefault(k, []).append(i)
        lim = max(4, self.opts['maxstates'] // 2)
        if len(groups) > lim:
            ks = order(groups)
            for k in ks[lim:]:
                groups[ks[lim - 1]] += groups.pop(k)
        out, oute = [], []
        for k, idx in groups.items():
            st = sts[idx[0]]
            e = extra[idx[0]] if extra is not None else None
            for i in idx[1:]:
                if extra is not None:
                    st, _, (e,) = self.joiner.join2(st, sts[i], mark, extra=[(e, extra[i])])
                else:
                    st, _, _ = self.joiner.join2(st, sts[i], mark)
            out.append(st)
            oute.append(e)
        return out if extra is None else (out, oute)

    region = 0

    def stmt(self, s, st):
        self.tick()
        self.node = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError('unsupported statement %s at %s' % (type(s).__name__, self.where(s)))
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return Flow([st])
        return Flow([x for x, _ in self.ev(s.value, st)])

    def s_Pass(self, s, st):
        return Flow([st])

    def s_Global(self, s, st):
        return Flow([st])

    s_Nonlocal = s_Global

    def s_Assign(self, s, st):
        out = []
        for x, v in self.ev(s.value, st):
            xs = [x]
            for t in s.targets:
                xs = [z for y in xs for z in self.assign(t, y, v)]
            out += xs
        return Flow(out)

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return Flow([st])
        return Flow([z for x, v in self.ev(s.value, st) for z in self.assign(s.target, x, v)])

    def s_AugAssign(self, s, st):
        out = []
        load = self.as_load(s.target)
        for x, cur in self.ev(load, st):
            for y, v in self.ev(s.value, x):
                for z, r in self.augop(y, cur, s.op, v, s):
                    out += self.assign(s.target, z, r, aug=True)
        return Flow(out)

    def as_load(self, t):
        k = ('load', id(t))
        if k not in self.desugar:
            if isinstance(t, ast.Name):
                n = ast.Name(t.id, ast.Load())
            elif isinstance(t, ast.Attribute):
                n = ast.Attribute(t.value, t.attr, ast.Load())
            else:
                n = ast.Subscript(t.value, t.slice, ast.Load())
            self.desugar[k] = (ast.copy_location(n, t), t)
        return self.desugar[k][0]

    def s_Return(self, s, st):
        fl = Flow()
        if s.value is None:
            fl.ret = [(st, NONE)]
        else:
            fl.ret = self.ev(s.value, st)
        if self.depth_uord:
            fl.ret = [(x, self.unord_value(x, v)) for x, v in fl.ret]
        return fl

    def s_Delete(self, s, st):
        sts = [st]
        for t in s.targets:
            nxt = []
            for x in sts:
                if isinstance(t, ast.Name):
                    self.set_name(x, t.id, frozenset([UNBOUND]))
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for y, c in self.ev(t.value, x):
                        for z, k in self.ev_slice(t.slice, y):
                            nxt += self.del_item(z, c, k, t)
                elif isinstance(t, ast.Attribute):
                    for y, c in self.ev(t.value, x):
                        for a in c:
                            if a[0] == 'r':
                                self.write(y, a[1], 'delattr', t.attr, t)
                                y.w(a[1]).d.pop(self.mangle(t.attr), None)
                        nxt.append(y)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    f = self.s_Delete(ast.copy_location(ast.Delete(t.elts), s), x)
                    nxt += f.nxt
            sts = nxt
        return Flow(sts)

    def s_If(self, s, st):
        t, f = self.cond(s.test, st)
        fl = Flow()
        a = self.block(s.body, t) if t else Flow()
        b = self.block(s.orelse, f) if f else Flow()
        fl.absorb(a)
        fl.absorb(b)
        fl.nxt = self.dedupe(a.nxt + b.nxt)
        return fl

    def dedupe(self, sts):
        """drop states that are the same object graph"""
        if len(sts) < 2:
            return sts
        out = []
        for st in sts:
            for o in out:
                if o.frames == st.frames and o.heap == st.heap and o.mon == st.mon and o.trace is st.trace:
                    # only the facts differ: keep what both know
                    if o.facts != st.facts:
                        o.facts = {k: v for k, v in o.facts.items() if st.facts.get(k) == v}
                    break
            else:
                out.append(st)
        return out

    def s_Assert(self, s, st):
        t, f = self.cond(s.test, st)
        for x in f:
            self.raise_(x, 'AssertionError', s, 'assert fails')
        return Flow(t)

    def s_Break(self, s, st):
        fl = Flow()
        fl.brk = [st]
        return fl

    def s_Continue(self, s, st):
        fl = Flow()
        fl.cnt = [st]
        return fl

    def s_Raise(self, s, st):
        if s.exc is None:
            cur = st.mon.get('exc')
            name, v = cur if cur else ('Exception', None)
            self.raise_(st, name, s, 're-raised', val=v, force=True)
            return Flow()
        for x, v in self.ev(s.exc, st):
            for a in v:
                name = self.exc_name(x, a)
                self.raise_(x, name, s, 'raised here', val=frozenset([a]), force=True)
        return Flow()

    def exc_name(self, st, a):
        if a[0] == 'x':
            return self.canon_exc(a)
        if a[0] == 't' and isinstance(a[2], tuple) and a[2][0] == 'exc':
            return a[2][1]
        if a[0] == 'r':
            o = st.get(a[1])
            if o.kind == 'class':
                return ('cls', a[1])
            if o.kind == 'inst':
                return ('cls', o.cls)
        return 'Exception'

    def s_Try(self, s, st):
        fl = Flow()
        names = []
        n0 = self.hdepth(st)
        frames = st.frames
        caught = set()
        for h in s.handlers:
            ns = self.handler_names(h, st)
            names.append(ns)
            caught |= ns
        if s.finalbody:
            caught = caught | {'*'}
        self.handlers.append(caught)
        self.exc.append([])
        body = self.block(s.body, [st])
        raised = self.exc.pop()
        self.handlers.pop()
        pend = []    # exceptions leaving
        self.exc.append([])
        if s.finalbody:
            self.handlers.append({'*'})
        if s.orelse:
            b2 = self.block(s.orelse, body.nxt)
            body.nxt = b2.nxt
            body.absorb(b2)
        for r in raised:
            xst, name = r[0], r[1]
            mro = self.exc_mro(name, xst)
            for h, ns in zip(s.handlers, names):
                if '*' in ns or any(n in ns for n in mro):
                    xs = xst.copy()
                    xs.frames = frames
                    self.trunc(xs, n0)
                    old = xs.mon.get('exc')
                    xs.mon['exc'] = (name, r[2])
                    self.emit('caught', xs, name=name, node=h, raised=r)
                    if h.name:
                        self.set_name(xs, h.name, r[2])
                    hf = self.block(h.body, [xs])
                    for q in hf.nxt + hf.brk + hf.cnt + [z for z, _ in hf.ret]:
                        if old is None:
                            q.mon.pop('exc', None)
                        else:
                            q.mon['exc'] = old
                    body.absorb(hf)
                    body.nxt += hf.nxt
                    break
            else:
                pend.append(r)
        body.nxt = self.dedupe(body.nxt)
        if s.finalbody:
            self.handlers.pop()
        pend += self.exc.pop()
        if not s.finalbody:
            self.exc[-1] += pend
            return body
        # finally runs on every way out
        for kind, sts in (('nxt', body.nxt), ('brk', body.brk), ('cnt', body.cnt)):
            if sts:
                f = self.block(s.finalbody, sts)
                getattr(fl, kind).extend(f.nxt)
                fl.absorb(f)
        for x, v in body.ret:
            f = self.block(s.finalbody, [self.hold(x, v)])
            fl.ret += [self.release(y) for y in f.nxt]
            fl.absorb(f)
        for r in pend:
            xs = r[0].copy()
            xs.frames = frames
            self.trunc(xs, n0)
            f = self.block(s.finalbody, [xs])
            for y in f.nxt:
                if self.catchable(r[1]) or (self.want_exc and self.want_exc(r[1])) or r[4] == 'raised here':
                    self.exc[-1].append((y,) + tuple(r[1:]))
            fl.absorb(f)
        return fl

    s_TryStar = s_Try

    # values that must survive joins are kept in the frame
    def hold(self, st, v):
        if not st.frames:
            st.mon['held'] = (v,)
            return st
        o = st.wf(st.frames[-1])
        n = 0
        while '$h%d' % n in o.d:
            n += 1
        o.d['$h%d' % n] = v
        return st

    def release(self, st):
        o = st.wf(st.frames[-1])
        n = 0
        while '$h%d' % (n + 1) in o.d:
            n += 1
        v = o.d.pop('$h%d' % n)
        return st, v

    def hdepth(self, st):
        o = st.get(st.frames[-1]) if st.frames else None
        n = 0
        while o is not None and '$h%d' % n in o.d:
            n += 1
        return n

    def trunc(self, st, n):
        """forget temporaries above level n"""
        if not st.frames:
            return st
        o = st.get(st.frames[-1])
        if '$h%d' % n in o.d:
            o = st.w(st.frames[-1])
            while '$h%d' % n in o.d:
                o.d.pop('$h%d' % n)
                n += 1
        return st

    def handler_names(self, h, st):
        if h.type is None:
            return {'*'}
        out = set()
        for x, v in self.ev(h.type, st.copy()):
            for a in v:
                if a[0] == 'r' and x.get(a[1]).kind in ('tuple', 'list'):
                    for b in x.get(a[1]).contents():
                        out.add(self.canon_exc(b))
                else:
                    out.add(self.canon_exc(a))
            break
        if 'BaseException' in out:
            out.add('*')
        out = {model.EXC_ALIAS2.get(n, n) if not isinstance(n, tuple) else n for n in out}
        return out

    def s_With(self, s, st):
        return self.with_items(list(s.items), s, st)

    def with_items(self, items, s, st):
        if not items:
            return self.block(s.body, [st])
        it = items[0]
        fl = Flow()
        frames = st.frames
        for x, cm in self.ev(it.context_expr, st):
            for y, v in self.enter(x, cm, s):
                ys = self.assign(it.optional_vars, y, v) if it.optional_vars is not None else [y]
                for z in ys:
                    n0 = self.hdepth(z)
                    z = self.hold(z, cm)
                    supp = self.suppressed(z, cm)
                    self.handlers.append({'*'} if not supp else supp | {'*'})
                    self.exc.append([])
                    b = self.with_items(items[1:], s, z)
                    raised = self.exc.pop()
                    self.handlers.pop()

                    def leave(sts):
                        out = []
                        for q in sts:
                            q, c = self.release(q)
                            self.leave_cm(q, c, s)
                            out.append(q)
                        return out
                    fl.nxt += leave(b.nxt)
                    fl.brk += leave(b.brk)
                    fl.cnt += leave(b.cnt)
                    for q, v2 in b.ret:
                        c = q.get(q.frames[-1]).d['$h%d' % n0]
                        self.leave_cm(q, c, s)
                        fl.ret.append((q, v2))
                    for r in raised:
                        q = r[0].copy()
                        q.frames = frames
                        self.leave_cm(q, q.get(q.frames[-1]).d.get('$h%d' % n0, cm), s)
                        self.trunc(q, n0)
                        mro = self.exc_mro(r[1], q)
                        if supp and any(n in supp for n in mro):
                            fl.nxt.append(q)
                        elif r[4] in ('raised here', 're-raised') or self.catchable(r[1]) or (self.want_exc and self.want_exc(r[1])):
                            self.exc[-1].append((q,) + tuple(r[1:]))
        fl.nxt = self.dedupe(fl.nxt)
        return fl

    def s_While(self, s, st):
        fl = Flow()
        cur = [st]
        mark = self.next_oid
        # precise rounds
        i = -1
        left = self.opts['wunroll']
        while cur and left > 0 and i < self.opts['unroll']:
            i += 1
            nxt = []
            forked = False
            for x in cur:
                self.emit('loop', x, node=s, round=i)
                t, f = self.cond(s.test, x)
                fl.nxt += f
                n = len(f)
                if t:
                    b = self.block(s.body, t)
                    fl.ret += b.ret
                    fl.brk += b.brk
                    nxt += b.nxt + b.cnt
                    n += len(b.ret) + len(b.brk) + len(b.nxt) + len(b.cnt)
                forked = forked or n > 1
            cur = self.dedupe(nxt)
            if forked:
                left -= 1
            if len(cur) > self.opts['maxstates']:
                cur = self.reduce(cur, mark)
        brk = fl.brk
        fl.brk = []
        if cur:
            exits, brks = self.fix(s, cur, mark, lambda x: self.while_round(s, x), fl)
            fl.nxt += exits
            brk += brks
        if s.orelse:
            e = self.block(s.orelse, fl.nxt)
            fl.nxt = e.nxt
            fl.absorb(e)
        fl.nxt = self.dedupe(fl.nxt + brk)
        return fl

    def while_round(self, s, x):
        self.emit('loop', x, node=s, round=-1)
        t, f = self.cond(s.test, x)
        b = self.block(s.body, t) if t else Flow()
        return f, b

    def fix(self, s, sts, mark, round_, fl):
        """fixpoint over partitioned loop heads"""
        heads = {}
        order = []

        def put(x):
            x = x.copy()
            k = self.key(x)
            if k not in heads and len(heads) >= self.opts.get('heads', 6):
                k = order[0]
            if k not in heads:
                heads[k] = [x, 0, True]
                order.append(k)
            else:
                h = heads[k]
                h[1] += 1
                n, ch, _ = self.joiner.join2(h[0], x, mark, hard=h[1] >= 4)
                if ch:
                    h[0] = n
                    h[2] = True
        for x in sts:
            put(x)
        old_region = self.region
        self.region = mark
        results = {}
        guard = 0
        while any(h[2] for h in heads.values()):
            guard += 1
            if guard > 60:
                raise AnalysisError('no fixpoint for the loop at %s' % self.where(s))
            for k in list(order):
                h = heads[k]
                if not h[2]:
                    continue
                h[2] = False
                nexc = len(self.exc[-1])
                ex_, b = round_(h[0].copy())
                results[k] = (ex_, b, self.exc[-1][nexc:])
                del self.exc[-1][nexc:]
                nxt = b.nxt + b.cnt
                if len(nxt) > self.opts['maxstates']:
                    nxt = self.reduce(nxt, mark)
                for y in nxt:
                    put(y)
        self.region = old_region
        exits, brks = [], []
        for k in order:
            ex_, b, rs = results[k]
            exits += ex_
            brks += b.brk
            fl.ret += b.ret
            self.exc[-1] += rs
        return exits, brks

    def s_For(self, s, st):
        fl = Flow()
        for x, v in self.ev(s.iter, st):
            for a in order(v):
                y = x.copy() if len(v) > 1 else x
                self.for_atom(s, y, a, fl)
        brk = fl.brk
        fl.brk = []
        if s.orelse:
            e = self.block(s.orelse, fl.nxt)
            fl.nxt = e.nxt
            fl.absorb(e)
        fl.nxt = self.dedupe(fl.nxt + brk)
        return fl

    s_AsyncFor = s_For

    def for_atom(self, s, st, a, fl):
        """run a loop over one iterable; leaves exits in fl.nxt and breaks in fl.brk"""
        its = self.iterate(st, a, s)
        for x, it in its:
            # it: oid of an iterator object
            self.emit('loop', x, node=s, round=0, it=it)
            self.for_iter(s, x, it, fl)

    def for_iter(self, s, st, it, fl):
        mark = self.next_oid
        st = self.hold(st, ref(it))
        cur = [st]
        rounds = 0
        uord = st.get(it).unord
        old_mark = self.uord_mark
        if uord:
            # lists that exist already get their order from this loop
            self.uord_mark = max(mark, old_mark)
        self.depth_uord += 1 if uord else 0
        try:
            while cur:
                nxt = []
                pend = []
                for x in cur:
                    o = self.iter_source(x, it)
                    if o is None or rounds > self.opts['unroll']:
                        pend.append(x)
                        continue
                    for y, v in self.iter_next(x, it, s):
                        if v is None:
                            y, _ = self.release(y)
                            fl.nxt.append(y)
                            continue
                        b = self.body(s, y, v, uord)
                        fl.ret += [(self.drop_held(z), w) for z, w in b.ret]
                        fl.brk += [self.release(z)[0] for z in b.brk]
                        nxt += b.nxt + b.cnt
                if pend:
                    self.summary_loop(s, pend, it, mark, fl, uord)
                cur = self.dedupe(nxt)
                if len(cur) > self.opts['maxstates']:
                    cur = self.reduce(cur, mark)
                rounds += 1
                if rounds > 50:
                    self.emit('loop', st, node=s, round=rounds, it=it)
                if rounds > self.opts.get('rounds', 400):
                    raise AnalysisError('loop at %s does not end' % self.where(s))
        finally:
            self.depth_uord -= 1 if uord else 0
            self.uord_mark = old_mark

    def drop_held(self, st):
        return st

    def body(self, s, st, v, uord):
        xs = self.assign(s.target, st, v)
        return self.block(s.body, xs)

    def summary_loop(self, s, sts, it, mark, fl, uord):
        """unknown number of rounds"""
        cur = []
        for x in sts:
            o = x.get(it)
            if self.opts['peel'] and self.iter_minlen(x, it) > 0:
                # at least one round
                for y, v in self.iter_elem(x, it, s):
                    b = self.body(s, y, v, uord)
                    fl.ret += b.ret
                    fl.brk += [self.release(z)[0] for z in b.brk]
                    cur += b.nxt + b.cnt
            elif self.opts['peel']:
                z = x.copy()
                z = self.iter_empty(z, it)
                z, _ = self.release(z)
                fl.nxt.append(z)
                for y, v in self.iter_elem(x, it, s):
                    b = self.body(s, y, v, uord)
                    fl.ret += b.ret
                    fl.brk += [self.release(q)[0] for q in b.brk]
                    cur += b.nxt + b.cnt
            else:
                cur.append(x)
        cur = self.dedupe(cur)
        if not cur:
            return
        if len(cur) > self.opts['maxstates']:
            cur = self.reduce(cur, mark)

        def round_(x):
            ex_ = [self.release(self.iter_done(x.copy(), it))[0]]
            b = Flow()
            for y, v in self.iter_elem(x, it, s):
                c = self.body(s, y, v, uord)
                b.absorb(c)
                b.nxt += c.nxt
            return ex_, b
        exits, brks = self.fix(s, cur, mark, round_, fl)
        fl.nxt += exits
        fl.brk += [self.release(z)[0] for z in brks]

    def s_FunctionDef(self, s, st):
        return Flow([y for x, v in self.make_function(s, st) for y in self.assign_name(x, s.name, v)])

    s_AsyncFunctionDef = s_FunctionDef

    def fn(self, node):
        f = self.fn_cache.get(id(node))
        if f is None:
            cur = self.stack[-1][0]
            name = getattr(node, 'name', '<lambda>')
            qual = name if cur.qual == '<module>' else cur.qual + '.' + name
            f = Fn(node, cur.module, qual, cur.cls)
            self.fn_cache[id(node)] = f
        return f

    def make_function(self, s, st):
        fn = self.fn(s)
        a = s.args
        exprs = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        out = []
        for x, vs in self.ev_many(exprs, st):
            oid = self.alloc(x, 'func', s, x=fn)
            o = x.get(oid)
            o.site = ('func', fn.module, fn.qual)
            nd = len(a.defaults)
            pos = a.posonlyargs + a.args
            for p, v in zip(pos[len(pos) - nd:], vs[:nd]):
                o.d['$def:' + p.arg] = v
            kwd = [p for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for p, v in zip(kwd, vs[nd:]):
                o.d['$def:' + p.arg] = v
            o.d['$closure'] = ref(x.frames[-1]) if x.frames else frozenset()
            self.captured.update(x.frames)
            o.d['__name__'] = const(fn.name)
            o.d['__qualname__'] = const(fn.qual)
            o.d['__module__'] = const(fn.module)
            v = ref(oid)
            cur = [(x, v)]
            for d in reversed(getattr(s, 'decorator_list', [])):
                nxt = []
                for y, w in cur:
                    y = self.hold(y, w)
                    for z, dv in self.ev(d, y):
                        z, w2 = self.release(z)
                        nxt += self.call(z, dv, [w2], {}, d)
                cur = nxt
            out += cur
        return out

    def s_ClassDef(self, s, st):
        out = []
        cur = self.stack[-1][0]
        for x, bases in self.ev_many(s.bases, st):
            qual = s.name if cur.qual == '<module>' else cur.qual + '.' + s.name
            coid = self.alloc(x, 'class', s, x=(cur.module, qual))
            o = x.get(coid)
            o.site = ('class', cur.module, qual)
            o.d['__name__'] = const(s.name)
            o.d['__qualname__'] = const(qual)
            o.d['$bases'] = frozenset()
            o.seq = tuple(bases)     # bases
            o.pre = False
            self.class_oid[(cur.module, qual)] = coid
            foid = self.alloc(x, 'frame', s, 'class')
            fo = x.w(foid)
            fo.d['$parent'] = ref(x.frames[-1])
            fo.x = 'class'
            fn = Fn.__new__(Fn)
            fn.node, fn.module, fn.qual, fn.cls, fn.name, fn.isgen = s, cur.module, qual, s.name, s.name, False
            fn.locals, fn.nonlocals = set(), set()
            self.stack.append((fn, s))
            fr = x.frames
            x.frames = fr + (foid,)
            f = self.block(s.body, [x])
            self.stack.pop()
            for y in f.nxt:
                y.frames = fr
                co = y.w(coid)
                for k, v in y.get(foid).d.items():
                    if not k.startswith('$'):
                        co.d[k] = v
                v = ref(coid)
                cur2 = [(y, v)]
                for d in reversed(s.decorator_list):
                    cur2 = [r for z, w in cur2 for q, dv in self.ev(d, z) for r in self.call(q, dv, [w], {}, d)]
                for z, w in cur2:
                    out += self.assign_name(z, s.name, w)
        return Flow(out)

    def s_Import(self, s, st):
        for al in s.names:
            root = al.name.split('.')[0]
            if root in self.pkgs:
                st = self.import_module(al.name, st)
                name = al.name if al.asname else root
                v = ref(self.module_oid[name]) if name in self.module_oid else ext(name)
            else:
                v = ext(al.name if al.asname else root)
            self.set_name(st, al.asname or root, v)
        return Flow([st])

    def s_ImportFrom(self, s, st):
        mod = s.module or ''
        cur = self.stack[-1][0].module
        if s.level:
            base = cur.split('.')
            if not self.mods[cur][0].endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        if mod in self.mods and mod in self.pkgs or mod.split('.')[0] in self.pkgs and mod in self.mods:
            st = self.import_module(mod, st)
            for al in s.names:
                sub = mod + '.' + al.name
                o = st.get(self.module_oid[mod])
                if al.name == '*':
                    for k, v in o.d.items():
                        if not k.startswith('_'):
                            self.set_name(st, k, v)
                elif al.name in o.d:
                    self.set_name(st, al.asname or al.name, o.d[al.name])
                elif sub in self.mods:
                    st = self.import_module(sub, st)
                    self.set_name(st, al.asname or al.name, ref(self.module_oid[sub]))
                else:
                    self.set_name(st, al.asname or al.name, TOP)
        else:
            for al in s.names:
                self.set_name(st, al.asname or al.name, self.ext_name(mod + '.' + al.name, st))
        return Flow([st])

    def ext_name(self, dotted, st):
        dotted = model.canon(dotted)
        n = model.PRELUDE_MAP.get(dotted)
        if n and 'oesa_prelude' in self.module_oid:
            v = st.get(self.module_oid['oesa_prelude']).d.get(n)
            if v:
                return v
        if n and not self.module_oid.get('oesa_prelude'):
            pass
        return model.ext_value(dotted)

    def s_Match(self, s, st):
        fl = Flow()
        for x, subj in self.ev(s.subject, st):
            cur = [self.hold(x, subj)]
            for case in s.cases:
                rest = []
                for y in cur:
                    sv = self.peek(y)
                    good, bad = self.pattern(case.pattern, y, sv)
                    for g in good:
                        if case.guard is not None:
                            t, f = self.cond(case.guard, g)
                        else:
                            t, f = [g], []
                        for q in t:
                            q, _ = self.release(q)
                            b = self.block(case.body, [q])
                            fl.absorb(b)
                            fl.nxt += b.nxt
                        rest += f
                    rest += bad
                cur = rest
            fl.nxt += [self.release(y)[0] for y in cur]
        fl.nxt = self.dedupe(fl.nxt)
        return fl

    def peek(self, st):
        o = st.get(st.frames[-1])
        n = 0
        while '$h%d' % (n + 1) in o.d:
            n += 1
        return o.d['$h%d' % n]

    def pattern(self, p, st, v):
        """(matching states, other states)"""
        if isinstance(p, ast.MatchValue):
            out = ([], [])
            for x, w in self.ev(p.value, st):
                t, f = self.compare(x, v, ast.Eq(), w, p)
                out[0].extend(t)
                out[1].extend(f)
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.compare(st, v, ast.Is(), const(p.value), p)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.set_name(st, p.name, v)
                return [st], []
            g, b = self.pattern(p.pattern, st, v)
            for x in g:
                if p.name:
                    self.set_name(x, p.name, v)
            return g, b
        if isinstance(p, ast.MatchOr):
            good, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for x in cur:
                    g, b = self.pattern(q, x, v)
                    good += g
                    nxt += b
                cur = nxt
            return good, cur
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            good, bad = [], []
            for x, c in self.ev(p.cls, st):
                t, f = self.isinstance_split(x, v, c, p)
                good += t
                bad += f
            return good, bad
        if isinstance(p, ast.MatchSequence):
            good, bad = [], []
            a = one(v)
            o = st.obj(a) if a else None
            if o is not None and o.kind in ('list', 'tuple') and o.seq is not None and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(o.seq) != len(p.patterns):
                    return [], [st]
                cur = [st]
                for q, w in zip(p.patterns, o.seq):
                    nxt = []
                    for x in cur:
                        g, b = self.pattern(q, x, w)
                        nxt += g
                        bad += b
                    cur = nxt
                return cur, bad
        # unknown: both
        g = st.copy()
        for n in ast.walk(p):
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                self.set_name(g, n.name, TOP)
        return [g], [st]

    # -- names and targets -------------------------------------------------------

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__') and self.stack:
            c = self.stack[-1][0].cls
            if c:
                return '_%s%s' % (c.lstrip('_'), name)
        return name

    def frame_of(self, st, name):
        """oid of the frame or module holding a name for writing"""
        fn = self.stack[-1][0] if self.stack else None
        fr = st.frames[-1]
        o = st.get(fr)
        if o.kind == 'module':
            return fr
        while True:
            o = st.get(fr)
            if o.kind == 'module':
                return fr
            if o.x == 'comp' and name not in o.must:
                fr = one(o.d['$parent'])[1]
                continue
            if fn is not None and name in fn.nonlocals and fr == st.frames[-1]:
                # nonlocal or global
                p = one(o.d['$parent'])[1]
                while True:
                    po = st.get(p)
                    if po.kind == 'module' or name in po.d:
                        return p
                    p = one(po.d['$parent'])[1]
            return fr

    def set_name(self, st, name, v):
        fr = self.frame_of(st, self.mangle(name))
        o = st.w(fr)
        o.d[self.mangle(name)] = v

    def assign_name(self, st, name, v):
        self.set_name(st, name, v)
        return [st]

    def assign(self, t, st, v, aug=False):
        """assign to a target, returns states"""
        if isinstance(t, ast.Name):
            if self.depth_uord:
                v = self.unord_assign(st, t.id, v)
            self.set_name(st, t.id, v)
            return [st]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, st, v)
        if isinstance(t, ast.Attribute):
            st = self.hold(st, v)
            out = []
            for x, c in self.ev(t.value, st):
                x, w = self.release(x)
                out += self.set_attr(x, c, t.attr, w, t)
            return out
        if isinstance(t, ast.Subscript):
            st = self.hold(st, v)
            out = []
            for x, c in self.ev(t.value, st):
                x = self.hold(x, c)
                for y, k in self.ev_slice(t.slice, x):
                    y, c2 = self.release(y)
                    y, w = self.release(y)
                    out += self.set_item(y, c2, k, w, t)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for a in order(v):
                x = st.copy() if len(v) > 1 else st
                for y, vals in self.unpack(x, a, t.elts, t):
                    cur = [y]
                    for e, w in zip(t.elts, vals):
                        cur = [z for q in cur for z in self.assign(e, q, w)]
                    out += cur
            return out
        raise AnalysisError('unsupported target at %s' % self.where(t))

    def unpack(self, st, a, elts, node):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        n = len(elts)
        seqs = self.sequence_of(st, a, node)
        out = []
        for x, seq, elem, minlen in seqs:
            if seq is not None:
                if not star:
                    if len(seq) != n:
                        self.raise_(x, 'ValueError', node, 'unpacking %d values into %d' % (len(seq), n))
                        continue
                    out.append((x, list(seq)))
                else:
                    i = star[0]
                    after = n - i - 1
                    if len(seq) < n - 1:
                        self.raise_(x, 'ValueError', node, 'not enough values to unpack')
                        continue
                    mid = seq[i:len(seq) - after]
                    vals = list(seq[:i]) + [self.newlist(x, mid, node)] + list(seq[len(seq) - after:])
                    out.append((x, vals))
            else:
                need = n - len(star)
                if elem is None:
                    elem = TOP
                elif not star or minlen < need:
                    if not (minlen == -1):
                        self.raise_(x.copy(), 'ValueError', node, 'wrong number of values to unpack')
                vals = []
                for e in elts:
                    if isinstance(e, ast.Starred):
                        vals.append(self.new(x, 'list', node, elem=elem, minlen=max(0, minlen - need)))
                    else:
                        vals.append(elem)
                out.append((x, vals))
        return out

    # -- expressions ---------------------------------------------------------------

    def ev(self, e, st):
        """evaluate: list of (state, value)"""
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError('unsupported expression %s at %s' % (type(e).__name__, self.where(e)))
        old = self.node
        self.node = e
        r = m(e, st)
        self.node = old
        return r

    def ev_many(self, exprs, st):
        """evaluate in order: list of (state, [values])"""
        if not exprs:
            return [(st, [])]
        if len(exprs) == 1:
            return [(x, [v]) for x, v in self.ev(exprs[0], st)]
        # values are held in the frame: evaluation may join states
        sts = [st]
        last = len(exprs)
        while last > 0 and isinstance(exprs[last - 1], (ast.Constant, ast.Name)):
            last -= 1
        last = max(last, 1)
        # plain names behind the last expression that does something
        tail = exprs[last:]
        exprs = exprs[:last]
        if len(exprs) == 1:
            return self.ev_tail([(x, [v]) for x, v in self.ev(exprs[0], st)], tail)
        for e in exprs:
            nxt = []
            for x in sts:
                if isinstance(e, ast.Constant):
                    nxt.append(self.hold(x, const(e.value)) if x.frames else x)
                    continue
                for y, v in self.ev(e, x):
                    nxt.append(self.hold(y, v))
            sts = nxt
        out = []
        for x in sts:
            vals = []
            for _ in exprs:
                x, v = self.release(x)
                vals.append(v)
            vals.reverse()
            out.append((x, vals))
        return self.ev_tail(out, tail)

    def ev_tail(self, res, tail):
        for e in tail:
            res = [(y, vals + [v]) for x, vals in res for y, v in self.ev(e, x)]
        return res

    def e_Constant(self, e, st):
        return [(st, const(e.value))]

    def e_Name(self, e, st):
        name = self.mangle(e.id)
        fr = st.frames[-1]
        first = True
        while True:
            o = st.get(fr)
            if name in o.d and not (o.x == 'class' and not first):
                v = o.d[name]
                if UNBOUND in v:
                    self.raise_(st.copy(), 'UnboundLocalError', e, 'variable %s may be unassigned' % e.id)
                    v = v - {UNBOUND}
                    if not v:
                        return []
                    st.w(fr).d[name] = v
                return [(st, v)]
            if o.kind == 'module':
                break
            if first and o.kind == 'frame' and o.x is None and self.stack and name in self.stack[-1][0].locals and name not in o.d:
                self.raise_(st.copy(), 'UnboundLocalError', e, 'variable %s is unassigned' % e.id)
                return []
            p = one(o.d['$parent'])
            if o.x != 'comp':
                first = False
            fr = p[1]
        if hasattr(_bi, name):
            return [(st, ext('builtins.' + name))]
        if name == '__file__':
            return [(st, term('str', 'src', '__file__'))]
        self.raise_(st, 'NameError', e, 'name %s is not defined' % name)
        return []

    def e_NamedExpr(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            self.set_name(x, e.target.id, v)
            out.append((x, v))
        return out

    def e_Attribute(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            out += self.get_attr(x, v, e.attr, e, refine=e.value)
        return out

    def e_Subscript(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            x = self.hold(x, v)
            if isinstance(e.slice, ast.Slice):
                s = e.slice
                es = [z if z is not None else ast.copy_location(ast.Constant(None), e) for z in (s.lower, s.upper, s.step)]
                for y, (lo, hi, step) in self.ev_many(es, x):
                    y, c = self.release(y)
                    out += self.get_slice(y, c, lo, hi, step, e)
            else:
                for y, k in self.ev(e.slice, x):
                    y, c = self.release(y)
                    out += self.get_item(y, c, k, e)
        return out

    def ev_slice(self, s, st):
        if isinstance(s, ast.Slice):
            es = [z if z is not None else ast.copy_location(ast.Constant(None), s) for z in (s.lower, s.upper, s.step)]
            return [(y, self.new(y, 'tuple', s, 'slice', seq=tuple(vs), x={'slice': True})) for y, vs in self.ev_many(es, st)]
        return self.ev(s, st)

    def e_Tuple(self, e, st):
        return self.display(e, st, 'tuple')

    def e_List(self, e, st):
        return self.display(e, st, 'list')

    def e_Set(self, e, st):
        return [(x, self.make_set(x, vs, e)) for x, vs in self.ev_elts(e.elts, st)]

    def display(self, e, st, kind):
        return [(x, self.from_parts(x, vs, e, kind)) for x, vs in self.ev_elts(e.elts, st)]

    def ev_elts(self, elts, st):
        """values, starred ones as ('*', value)"""
        out = []
        for x, vs in self.ev_many([z.value if isinstance(z, ast.Starred) else z for z in elts], st):
            out.append((x, [('*', v) if isinstance(z, ast.Starred) else v for z, v in zip(elts, vs)]))
        return out

    def from_parts(self, st, vs, node, kind):
        seq = []
        elem = frozenset()
        exact = True
        minlen = 0
        must = frozenset()
        unord = False
        for v in vs:
            if isinstance(v, tuple):
                v = v[1]
                for a in v:
                    for x, s, el, ml in self.sequence_of(st, a, node)[:1]:
                        o = st.obj(a)
                        if o is not None and o.unord:
                            unord = True
                        if s is not None and len(v) == 1:
                            seq += list(s)
                            minlen += len(s)
                        else:
                            exact = False
                            elem |= el if el is not None else TOP
                            if s is not None:
                                for z in s:
                                    elem |= z
                            elif len(v) == 1:
                                minlen += max(0, ml)
            else:
                seq.append(v)
                minlen += 1
        if exact:
            return self.new(st, kind, node, seq=tuple(seq), unord=unord)
        m = set()
        for v in seq:
            elem |= v
            if one(v):
                m.add(one(v))
        return self.new(st, kind, node, elem=elem, minlen=minlen, must=frozenset(m), unord=unord)

    def e_Dict(self, e, st):
        keys = [k if k is not None else ast.copy_location(ast.Constant(None), e) for k in e.keys]
        exprs = [z for p in zip(keys, e.values) for z in p]
        out = []
        for x, vs in self.ev_many(exprs, st):
            oid = self.alloc(x, 'dict', e)
            d = ref(oid)
            sts = [x]
            for i, k in enumerate(e.keys):
                nxt = []
                for y in sts:
                    if k is None:
                        nxt += [z for z, _ in self.dict_update(y, d, vs[2 * i + 1], e)]
                    else:
                        nxt += self.set_item(y, d, vs[2 * i], vs[2 * i + 1], e, init=True)
                sts = nxt
            out += [(y, d) for y in sts]
        return out

    def e_JoinedStr(self, e, st):
        exprs = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                exprs.append(p)
            else:
                exprs.append(p.value)
        out = []
        for x, vs in self.ev_many(exprs, st):
            cur = [(x, EMPTY)]
            for p, v in zip(e.values, vs):
                nxt = []
                for y, acc in cur:
                    if isinstance(p, ast.FormattedValue):
                        if p.format_spec is not None or p.conversion == 114:
                            ss = [(y, self.repr_of(y, v, e))]
                        else:
                            ss = self.to_str(y, v, e)
                    else:
                        ss = [(y, v)]
                    for z, sv in ss:
                        nxt.append((z, self.cat(acc, sv)))
                cur = nxt
            out += cur
        return out

    def e_FormattedValue(self, e, st):
        return [(z, s) for x, v in self.ev(e.value, st) for z, s in self.to_str(x, v, e)]

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st)
            return [(x, FALSE) for x in t] + [(x, TRUE) for x in f]
        out = []
        for x, v in self.ev(e.operand, st):
            a = one(v)
            if a and a[0] == 'c' and isinstance(a[2], (int, float)):
                w = {'USub': lambda z: -z, 'UAdd': lambda z: +z, 'Invert': lambda z: ~z}[type(e.op).__name__](a[2])
                out.append((x, const(w)))
            elif a and a[0] == 't' and a[1] == 'int' and isinstance(e.op, ast.USub):
                r = linadd(('k', 'int', 0), ex(a), -1)
                out.append((x, frozenset([r]) if r else term('int', 'neg', exv(v))))
            else:
                out.append((x, term('int', 'un', type(e.op).__name__, exv(v))))
        return out

    def e_BinOp(self, e, st):
        out = []
        for x, (l, r) in self.ev_many([e.left, e.right], st):
            out += self.binop(x, l, e.op, r, e)
        return out

    def e_BoolOp(self, e, st):
        cur = [st]
        out = []
        isand = isinstance(e.op, ast.And)
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for x in cur:
                if last:
                    out += self.ev(v, x)
                    continue
                for y, w in self.ev(v, x):
                    t, f = self.truth(y, w, v)
                    if isand:
                        out += [(z, q) for z, q in f]
                        nxt += [z for z, _ in t]
                    else:
                        out += [(z, q) for z, q in t]
                        nxt += [z for z, _ in f]
            cur = nxt
        return out

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            # values of overloaded operators are not needed
            t, f = self.cond(e, st)
            return [(x, TRUE) for x in t] + [(x, FALSE) for x in f]
        t, f = self.cond(e, st)
        return [(x, TRUE) for x in t] + [(x, FALSE) for x in f]

    def e_IfExp(self, e, st):
        t, f = self.cond(e.test, st)
        out = []
        for x in t:
            out += self.ev(e.body, x)
        for x in f:
            out += self.ev(e.orelse, x)
        return out

    def e_Lambda(self, e, st):
        return self.make_function(e, st)

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        out = []
        for x, v in (self.ev(e.value, st) if e.value is not None else [(st, NONE)]):
            self.gen_append(x, v, e)
            out.append((x, NONE))
        return out

    def e_YieldFrom(self, e, st):
        fl = self.s_For(self.yield_from(e), st)
        return [(x, NONE) for x in fl.nxt]

    def yield_from(self, e):
        k = ('yf', id(e))
        if k not in self.desugar:
            n = ast.For(ast.Name('$yf', ast.Store()), e.value, [ast.Expr(ast.Yield(ast.Name('$yf', ast.Load())))], [])
            ast.copy_location(n, e)
            ast.fix_missing_locations(n)
            self.desugar[k] = (n, e)
        return self.desugar[k][0]

    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list')

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'set')

    def e_GeneratorExp(self, e, st):
        return [(x, self.iter_of_list(x, v, e)) for x, v in self.comp(e, st, 'list')]

    def e_DictComp(self, e, st):
        return self.comp(e, st, 'dict')

    def comp(self, e, st, kind):
        """comprehension: a loop filling a fresh container"""
        k = ('comp', id(e), kind)
        if k not in self.desugar:
            if kind == 'dict':
                inner = ast.Assign([ast.Subscript(ast.Name('$acc', ast.Load()), e.key, ast.Store())], e.value)
            elif kind in ('any', 'all'):
                test = e.elt if kind == 'any' else ast.UnaryOp(ast.Not(), e.elt)
                inner = ast.If(test, [ast.Assign([ast.Name('$acc', ast.Store())], ast.Constant(kind == 'any')), ast.Break()], [])
            else:
                inner = ast.Expr(ast.Call(ast.Attribute(ast.Name('$acc', ast.Load()), 'add' if kind == 'set' else 'append', ast.Load()), [e.elt], []))
            body = [inner]
            names = set()
            for g in reversed(e.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                loop = ast.For(g.target, g.iter, body, [])
                body = [loop]
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        names.add(n.id)
            for n in ast.walk(body[0]):
                if not hasattr(n, 'lineno') and isinstance(n, (ast.expr, ast.stmt)):
                    ast.copy_location(n, e)
            # the first iterable belongs to the enclosing scope
            self.desugar[k] = (body[0], e, frozenset(names) | {'$acc'})
        loop, _, names = self.desugar[k]
        foid = self.alloc(st, 'frame', e, 'comp')
        fo = st.w(foid)
        fo.x = 'comp'
        fo.must = frozenset(self.mangle(n) for n in names)
        fo.d['$parent'] = ref(st.frames[-1])
        acc = const(kind == 'all') if kind in ('any', 'all') else self.new(st, kind, e, seq=None if kind == 'dict' else ())
        fo.d['$acc'] = acc
        fr = st.frames
        st.frames = fr + (foid,)
        fl = self.s_For(loop, st)
        out = []
        for x in fl.nxt:
            v = x.get(foid).d['$acc']
            x.frames = fr
            out.append((x, v))
        for r in self.exc[-1]:
            pass
        if len(out) > 1:
            out = self.merge_results(out, foid)
        return out

    # -- conditions -----------------------------------------------------------------

    def cond(self, e, st):
        """(states where e holds, states where it does not)"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, out = [st], []
            for v in e.values:
                nxt = []
                for x in cur:
                    t, f = self.cond(v, x)
                    if isand:
                        out += f
                        nxt += t
                    else:
                        out += t
                        nxt += f
                cur = nxt
            return (cur, out) if isand else (out, cur)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st)
            return f, t
        if isinstance(e, ast.Compare):
            self.node = e
            ops = list(zip(e.ops, e.comparators))
            good, bad = [], []
            exprs = [e.left] + list(e.comparators)
            if len(ops) == 1:
                for x, (l, r) in self.ev_many(exprs, st):
                    t, f = self.compare(x, l, e.ops[0], r, e, le=e.left, re_=e.comparators[0])
                    good += t
                    bad += f
                return good, bad
            for x, vs in self.ev_many(exprs, st):
                cur = [x]
                for i, op in enumerate(e.ops):
                    nxt = []
                    for y in cur:
                        t, f = self.compare(y, vs[i], op, vs[i + 1], e)
                        nxt += t
                        bad += f
                    cur = nxt
                good += cur
            return good, bad
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('isinstance', 'issubclass') and len(e.args) == 2 and not e.keywords:
            good, bad = [], []
            for x, (v, c) in self.ev_many(e.args, st):
                t, f = self.isinstance_split(x, v, c, e, refine=e.args[0])
                good += t
                bad += f
            return good, bad
        good, bad = [], []
        for x, v in self.ev(e, st):
            t, f = self.truth(x, v, e)
            good += [y for y, _ in t]
            bad += [y for y, _ in f]
        return good, bad

    def refine(self, st, e, v):
        """the expression is known to have value v now"""
        if isinstance(e, ast.NamedExpr):
            e = e.target
        if isinstance(e, ast.Name):
            name = self.mangle(e.id)
            fr = st.frames[-1]
            while True:
                o = st.get(fr)
                if name in o.d:
                    if o.kind != 'module' and o.d[name] != v:
                        st.w(fr).d[name] = v
                    return
                if o.kind == 'module' or '$parent' not in o.d:
                    return
                fr = one(o.d['$parent'])[1]

    forks = None

    def forked(self, why):
        if self.forks is not None and len(self.forks) < 30:
            self.forks.append('%s: %s' % (self.where(), why))

    def truth(self, st, v, e=None):
        r = self.truth_(st, v, e)
        if r[0] and r[1] or len(r[0]) + len(r[1]) > 1:
            self.forked('truth of ' + showv(v)[:200])
        return r

    def truth_(self, st, v, e=None):
        """([(state, value)] when true, [(state, value)] when false)"""
        t, f, unk = [], [], []
        for a in v:
            r = self.truth_atom(st, a)
            (t if r is True else f if r is False else unk).append(a)
        good, bad = [], []
        if unk and len(unk) == 1 and not t and not f:
            a = unk[0]
            y, n = st.copy(), st
            va, vn = self.assume_truth(y, a, True), self.assume_truth(n, a, False)
            self.refine(y, e, va) if e is not None and va != frozenset([a]) else None
            self.refine(n, e, vn) if e is not None and vn != frozenset([a]) else None
            return [(y, va)], [(n, vn)]
        if not unk:
            if t and not f:
                return [(st, v)], []
            if f and not t:
                return [], [(st, v)]
        tv, fv = frozenset(t), frozenset(f)
        if len(unk) <= 3:
            for a in unk:
                y = st.copy()
                va = self.assume_truth(y, a, True)
                if e is not None:
                    self.refine(y, e, va)
                good.append((y, va))
                n = st.copy()
                vn = self.assume_truth(n, a, False)
                if e is not None:
                    self.refine(n, e, vn)
                bad.append((n, vn))
        else:
            tv |= frozenset(unk)
            fv |= frozenset(unk)
        if tv:
            y = st.copy()
            if e is not None:
                self.refine(y, e, tv)
            good.append((y, tv))
        if fv:
            n = st.copy()
            if e is not None:
                self.refine(n, e, fv)
            bad.append((n, fv))
        return good, bad

    # -- calls ------------------------------------------------------------------------

    def e_Call(self, e, st):
        out = []
        # zero-argument super
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.super_(e, st)
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and len(e.args) == 1 and not e.keywords and \
                isinstance(e.args[0], ast.GeneratorExp) and len(e.args[0].generators) == 1:
            return self.comp(e.args[0], st, e.func.id)
        for x, fv in self.ev(e.func, st):
            argx = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
            kwx = [k.value for k in e.keywords]
            held = not all(isinstance(a, (ast.Constant, ast.Name)) for a in argx + kwx)
            if held:
                x = self.hold(x, fv)
            for y, vs in self.ev_many(argx + kwx, x):
                fv2 = fv
                if held:
                    y, fv2 = self.release(y)
                args = []
                star = None
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        sa = one(v)
                        sq = self.sequence_of(y, sa, e) if sa is not None else []
                        if len(sq) == 1 and sq[0][1] is not None:
                            args += list(sq[0][1])
                        else:
                            el = frozenset()
                            for b in v:
                                for _, s_, el_, _ in self.sequence_of(y, b, e):
                                    if s_ is not None:
                                        for z in s_:
                                            el |= z
                                    else:
                                        el |= el_ if el_ is not None else TOP
                            star = el or TOP
                    else:
                        args.append(v)
                kw = {}
                kwrest = None
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is not None:
                        kw[k.arg] = v
                        continue
                    for a in v:
                        o = y.obj(a)
                        if o is None or o.kind != 'dict':
                            kwrest = TOP
                            continue
                        for ka, (kv, m) in o.ent.items():
                            if ka[0] == 'c':
                                if ka[2] in kw and k.arg is None and ka[2] in [q.arg for q in e.keywords]:
                                    self.raise_(y.copy(), 'TypeError', e, 'argument %s given twice' % ka[2])
                                kw[ka[2]] = kv if m else kv | frozenset([UNBOUND])
                        if o.rest:
                            kwrest = o.rest[1]
                if star is not None or kwrest is not None:
                    out += self.call(y, fv2, args, kw, e, star=star, kwrest=kwrest)
                else:
                    out += self.call(y, fv2, args, kw, e)
        if len(out) > self.opts['maxstates']:
            out = self.merge_results(out, self.region)
        return out

    def super_(self, e, st):
        # find the function frame with self
        fr = st.frames[-1]
        while True:
            o = st.get(fr)
            if o.x == 'comp':
                fr = one(o.d['$parent'])[1]
                continue
            break
        fn = self.stack[-1][0]
        slf = o.d.get('$self')
        cls = o.d.get('$class')
        if slf is None or cls is None:
            return [(st, TOP)]
        return [(st, self.new(st, 'super', e, x=(one(cls)[1],), d={'self': slf}))]

    def call(self, st, fv, args, kw, node, star=None, kwrest=None):
        out = []
        many = len(fv) > 1
        for a in order(fv):
            x = st.copy() if many else st
            out += self.call_atom(x, a, args, kw, node, star, kwrest)
        return out

    def call_atom(self, st, a, args, kw, node, star=None, kwrest=None):
        self.tick()
        t = a[0]
        if t == 'x':
            self.emit('call', st, callee=a[1], args=args, kw=kw, node=node, recv=None)
            return self.call_ext(st, a[1], args, kw, node, star, kwrest)
        if t == 'b':
            return self.call_method(st, a[1], a[2], args, kw, node, star, kwrest)
        if t == 'bm':
            return self.call_func(st, a[2], [frozenset([a[1]])] + list(args), kw, node, star, kwrest, recv=a[1])
        if t == 'r':
            o = st.get(a[1])
            if o.kind in ('func', 'cached'):
                return self.call_func(st, a[1], list(args), kw, node, star, kwrest)
            if o.kind == 'class':
                return self.instantiate(st, a[1], args, kw, node, star, kwrest)
            if o.kind in ('static', 'classm'):
                return self.call(st, o.d['f'], args, kw, node, star, kwrest)
            if o.kind == 'partial':
                pk = dict(o.x or {})
                k2 = {k[3:]: v for k, v in o.d.items() if k.startswith('kw:')}
                k2.update(kw)
                return self.call(st, o.d['f'], list(o.seq) + list(args), k2, node, star, kwrest)
            if o.kind == 'inst':
                r = self.find_attr(st, o.cls, '__call__')
                if r is not None:
                    return self.call(st, self.bind(st, r, a), args, kw, node, star, kwrest)
            if o.kind == 'getter':
                return self.call_getter(st, o, args, node)
            self.raise_(st.copy(), 'TypeError', node, '%s is not callable' % o.kind)
            return [(st, TOP)]
        if t == 'c':
            self.raise_(st, 'TypeError', node, '%r is not callable' % (a[2],))
            return []
        if t == 'unbound':
            return []
        # unknown callee
        self.emit('unknowncall', st, fn=a, args=args, kw=kw, node=node)
        return [(st, term('any', 'call', show(ex(a)), *[exv(v) for v in args]))]

    def cache_key(self, st, args, kw, node):
        """what functools.cache compares; None when an argument is not hashable, False when that is not known"""
        ks = []
        for v in list(args) + [w for k, w in kw.items()]:
            k = self.value_key(st, v)
            if k is None:
                self.raise_(st, 'TypeError', node, 'unhashable argument of a cached function')
                return None
            if k is False:
                return False
            ks.append(k)
        return ('k', tuple(ks), tuple(kw))

    def value_key(self, st, v):
        a = one(v) if len(v) == 1 else None
        if a is None:
            return False
        if a[0] == 'c':
            return ('c', a[2])
        if a[0] == 't':
            return ('t', a[2])
        o = st.obj(a)
        if o is None:
            return a
        if o.kind == 'tuple':
            if o.seq is None:
                return False
            ks = [self.value_key(st, x) for x in o.seq]
            return None if None in ks else False if False in ks else ('tuple', tuple(ks))
        if o.kind == 'set':
            ks = [self.value_key(st, x) for x in o.seq] if o.seq is not None else [False]
            return False if False in ks or None in ks else ('set', frozenset(ks))
        if o.kind in ('list', 'dict'):
            return None
        if o.kind == 'inst':
            if self.find_attr(st, o.cls, '__eq__') is not None:
                return False if self.find_attr(st, o.cls, '__hash__') is not None else None
        return a

    def call_func(self, st, oid, args, kw, node, star=None, kwrest=None, recv=None):
        o = st.get(oid)
        if o.kind == 'cached':
            self.emit('cached_call', st, oid=oid, fn=self.underlying(st, oid), args=args, kw=kw, node=node)
            if 'cached' in self.stubs:
                r = self.stubs['cached'](self, st, oid, args, kw, node)
                if r is not None:
                    return r
            inner = o.d['f']
            key = None
            if self.opts.get('cache'):
                key = self.cache_key(st, args, kw, node) if star is None and kwrest is None else False
                if key is False:
                    raise AnalysisError('arguments of a cached call cannot be compared')
                if key is None:
                    return []
                if key in o.ent:
                    self.emit('cached_hit', st, oid=oid, node=node)
                    return [(st, o.ent[key][0])]
            self.emit('cached_enter', st, oid=oid, node=node)
            out = []
            for x, v in self.call(st, inner, args, kw, node, star, kwrest):
                self.emit('cached_return', x, oid=oid, value=v, node=node)
                if key is not None:
                    x.w(oid).ent[key] = (v, True)
                out.append((x, v))
            return out
        fn = o.x
        qual = fn.module + ':' + fn.qual
        self.functions_seen.add(qual)
        self.emit('call', st, callee=qual, args=args, kw=kw, node=node, recv=recv, fn=fn)
        stub = self.stubs.get(fn.qual) or self.stubs.get(qual)
        if stub is not None:
            bound = self.bind_args(st, oid, fn, args, kw, node, star, kwrest)
            if bound is None:
                return []
            r = stub(self, st, bound, node)
            if r is not None:
                return r
        depth = sum(1 for f, _ in self.stack if f is fn)
        if depth > self.opts['recursion'] or len(self.stack) > self.opts['maxdepth']:
            return self.recursive_call(st, fn, args, kw, node)
        bound = self.bind_args(st, oid, fn, args, kw, node, star, kwrest)
        if bound is None:
            return []
        foid = self.alloc(st, 'frame', node, fn.qual)
        fo = st.w(foid)
        fo.d.update(bound)
        clo = o.d['$closure']
        fo.d['$parent'] = clo
        if fn.cls is not None:
            co = self.class_oid.get((fn.module, fn.qual.rsplit('.', 1)[0]))
            pos = fn.node.args.posonlyargs + fn.node.args.args
            if co is not None and pos:
                fo.d['$self'] = bound.get(self.mangle_for(fn, pos[0].arg), TOP)
                fo.d['$class'] = ref(co)
        if fn.isgen:
            fo.d['$gen'] = self.new(st, 'list', node, 'gen', seq=())
            fo = st.w(foid)
        fr = st.frames
        st.frames = fr + (foid,)
        self.stack.append((fn, node))
        old_node = self.node
        mark = self.next_oid
        nexc = len(self.exc[-1])
        self.emit('enter', st, fn=fn, frame=foid, node=node)
        if isinstance(fn.node, ast.Lambda):
            res = self.ev(fn.node.body, st)
        else:
            fl = self.block(fn.node.body, [st])
            res = fl.ret + [(x, NONE) for x in fl.nxt]
        if fn.isgen:
            res = [(x, self.iter_of_list(x, x.get(foid).d['$gen'], node)) for x, _ in res]
        out = []
        for x, v in res:
            self.emit('leave', x, fn=fn, frame=foid, value=v, node=node)
        if len(res) > 1:
            res = self.merge_results(res, foid)
        self.stack.pop()
        self.node = old_node
        for x, v in res:
            x.frames = fr
            if foid not in self.captured:
                x.heap.pop(foid, None)
            out.append((x, v))
        # exception states leave with the frames of the caller
        for i in range(nexc, len(self.exc[-1])):
            self.exc[-1][i][0].frames = fr
        return out

    def merge_results(self, res, mark, lim=None):
        """merge results that agree on the kind of value when there are many"""
        lim = self.opts['maxret'] if lim is None else lim
        # identical heaps and values first
        out = []
        for x, v in res:
            for i, (y, w) in enumerate(out):
                if v == w and y.frames == x.frames and y.mon == x.mon and y.trace is x.trace and (y.heap == x.heap or self.same_live(x, y)):
                    if y.facts != x.facts:
                        y.facts = {k: z for k, z in y.facts.items() if x.facts.get(k) == z}
                    break
            else:
                out.append((x, v))
        res = out
        if len(res) <= lim:
            return res
        groups = {}
        for x, v in res:
            a = one(v)
            k = a if a is not None and a[0] == 'c' else None if a is None else a[0]
            groups.setdefault((k, self.mon_key(x)), []).append((x, v))
        if len(groups) > lim:
            groups2 = {}
            for (k, m), l in groups.items():
                groups2.setdefault(m, []).extend(l)
            groups = groups2
        out = []
        for k, l in groups.items():
            x, v = l[0]
            for y, w in l[1:]:
                x, _, (v,) = self.joiner.join2(x, y, mark, extra=[(v, w)])
            out.append((x, v))
        return out

    def mon_key(self, st):
        return tuple(sorted((k, st.mon[k]) for k in self.opts.get('monkeys', ()) if k in st.mon))

    def same_live(self, x, y):
        return False

    def bind_args(self, st, oid, fn, args, kw, node, star, kwrest):
        o = st.get(oid)
        a = fn.node.args
        pos = a.posonlyargs + a.args
        d = {}
        args = list(args)
        kw = dict(kw)
        for i, p in enumerate(pos):
            if i < len(args):
                d[self.mangle_for(fn, p.arg)] = args[i]
        extra = args[len(pos):]
        if extra and not a.vararg:
            self.raise_(st, 'TypeError', node, '%s() takes %d positional arguments but %d were given' % (fn.name, len(pos), len(args)))
            return None
        if a.vararg:
            if star is not None:
                el = star
                for v in extra:
                    el |= v
                d[self.mangle_for(fn, a.vararg.arg)] = self.new(st, 'tuple', node, 'varargs', elem=el, minlen=len(extra))
            else:
                d[self.mangle_for(fn, a.vararg.arg)] = self.new(st, 'tuple', node, 'varargs', seq=tuple(extra))
        names = {self.mangle_for(fn, p.arg) for p in a.args + a.kwonlyargs}
        rest = {}
        for k, v in kw.items():
            if k in names:
                if k in d:
                    self.raise_(st, 'TypeError', node, '%s() got multiple values for argument %r' % (fn.name, k))
                    return None
                d[k] = v
            else:
                rest[k] = v
        if rest and not a.kwarg:
            sure = [k for k in rest if UNBOUND not in rest[k]]
            self.raise_(st.copy(), 'TypeError', node, '%s() got an unexpected keyword argument %r' % (fn.name, sorted(rest)[0]))
            if sure:
                return None
        if a.kwarg:
            od = self.alloc(st, 'dict', node, 'kwargs')
            do = st.w(od)
            for k, v in rest.items():
                do.ent[C(k)] = (v - {UNBOUND}, UNBOUND not in v)
            if kwrest is not None:
                do.rest = (frozenset([T('str', ('kwname',))]), kwrest)
            d[self.mangle_for(fn, a.kwarg.arg)] = ref(od)
        for p in pos + a.kwonlyargs:
            n = self.mangle_for(fn, p.arg)
            if n in d and UNBOUND in d[n]:
                v = d[n] - {UNBOUND}
                dv = o.d.get('$def:' + p.arg)
                if dv is None:
                    self.raise_(st.copy(), 'TypeError', node, '%s() may miss argument %r' % (fn.name, n))
                else:
                    v |= dv
                d[n] = v
            if n not in d:
                dv = o.d.get('$def:' + p.arg)
                if dv is not None:
                    d[n] = dv
                    if kwrest is not None or star is not None:
                        d[n] = dv | (kwrest or star or frozenset())
                elif star is not None or kwrest is not None:
                    d[n] = star if star is not None else kwrest
                else:
                    self.raise_(st, 'TypeError', node, '%s() misses argument %r' % (fn.name, n))
                    return None
        return d

    def mangle_for(self, fn, n):
        if fn.cls and n.startswith('__') and not n.endswith('__'):
            return '_%s%s' % (fn.cls.lstrip('_'), n)
        return n

    def recursive_call(self, st, fn, args, kw, node):
        self.emit('recursion', st, fn=fn, args=args, kw=kw, node=node)
        ret = self.annotation_value(st, fn, node)
        return [(st, ret)]

    def annotation_value(self, st, fn, node):
        r = getattr(fn.node, 'returns', None)
        s = ast.unparse(r) if r is not None else ''
        e = ('call', fn.qual)
        if s == 'str':
            return term('str', *e)
        if s == 'bool':
            return term('bool', *e)
        if s == 'int':
            return term('int', *e)
        if s.startswith('List') or s.startswith('list'):
            return self.new(st, 'list', node, 'rec', elem=term('any', 'el', fn.qual))
        if s == 'None':
            return NONE
        return term('any', *e)
