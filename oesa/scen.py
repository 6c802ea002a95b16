"""Driving the interpreter: an artificial caller of the analysed code."""
import ast
import os

from oesa.values import *  # noqa
from oesa.heap import State
from oesa.interp import Interp, Fn, parse_package, AnalysisError

REPO = os.environ.get('OESA_REPO', '/repo')
PKG = 'oelint_parser'


def load(**opts):
    return Interp(parse_package(os.path.join(REPO, PKG)), **opts)


class Anchor(AnalysisError):
    """a construct the rules refer to is gone"""


class Driver:
    def __init__(self, I=None, **opts):
        self.I = I or load(**opts)
        fn = Fn.__new__(Fn)
        fn.node, fn.module, fn.qual, fn.cls, fn.name, fn.isgen = ast.parse(''), 'oesa', '<caller>', None, '<caller>', False
        fn.locals, fn.nonlocals = set(), set()
        self.fn = fn
        self.node = ast.copy_location(ast.Pass(), ast.parse('pass').body[0])
        self.I.stack.append((fn, None))
        self.I.node = self.node

    def state(self):
        I = self.I
        st = I.fresh()
        mod = I.module_oid[PKG]
        foid = I.alloc(st, 'frame', self.node, '<caller>')
        o = st.w(foid)
        o.d['$parent'] = ref(mod)
        st.frames = (foid,)
        I.captured.add(foid)
        return st

    def cls(self, name, module=None):
        c = [o for (m, q), o in self.I.class_oid.items() if q == name and (module is None or m == module)]
        if len(c) != 1:
            raise Anchor('class %s: %d definitions' % (name, len(c)))
        return ref(c[0])

    def modattr(self, module, name):
        oid = self.I.module_oid.get(module)
        if oid is None or name not in self.I.base[oid].d:
            raise Anchor('%s.%s does not exist' % (module, name))
        return self.I.base[oid].d[name]

    def call(self, st, fv, *args, **kw):
        args = [a if isinstance(a, frozenset) else const(a) for a in args]
        kw = {k: a if isinstance(a, frozenset) else const(a) for k, a in kw.items()}
        return self.I.call(st, fv, args, kw, self.node)

    def attr(self, st, v, name):
        return self.I.get_attr(st, v, name, self.node)

    def setattr(self, st, v, name, val):
        return self.I.set_attr(st, v, name, val if isinstance(val, frozenset) else const(val), self.node)

    def meth(self, st, v, name, *args, **kw):
        """call a method; returns [(state, value)]"""
        out = []
        self.keep(st, '$recv', v)
        for i, a in enumerate(args):
            if isinstance(a, frozenset):
                self.keep(st, '$arg%d' % i, a)
        for x, f in self.attr(st, v, name):
            out += self.call(x, f, *args, **kw)
        return out

    def keep(self, st, name, v):
        """bind a value to a name of the caller, so joins rename it"""
        st.w(st.frames[-1]).d[name] = v

    def kept(self, st, name):
        return st.get(st.frames[-1]).d[name]

    def lst(self, st, vals, kind='list'):
        return self.I.newlist(st, [v if isinstance(v, frozenset) else const(v) for v in vals], self.node, kind)

    def dct(self, st, d):
        oid = self.I.alloc(st, 'dict', self.node)
        o = st.w(oid)
        for k, v in d.items():
            if isinstance(v, dict):
                v = self.dct(st, v)
                o = st.w(oid)
            elif isinstance(v, list):
                v = self.lst(st, v)
                o = st.w(oid)
            elif not isinstance(v, frozenset):
                v = const(v)
            o.ent[C(k) if isinstance(k, str) else k] = (v, True)
        return ref(oid)

    def show(self, st, v, depth=0):
        """readable contents"""
        out = []
        for a in v:
            o = st.obj(a)
            if o is None:
                out.append(show(a))
            elif depth > 4:
                out.append('...')
            elif o.kind in ('list', 'tuple', 'set', 'iter'):
                if o.seq is not None:
                    out.append('%s[%s]' % (o.kind[0], ', '.join(self.show(st, x, depth + 1) for x in o.seq)))
                else:
                    out.append('%s[%s...]' % (o.kind[0], self.show(st, o.elem, depth + 1)))
            elif o.kind == 'dict':
                out.append('{%s%s}' % (', '.join('%s%s: %s' % (show(k), '' if m else '?', self.show(st, x, depth + 1)) for k, (x, m) in o.ent.items()),
                                       ', *%s: %s' % (self.show(st, o.rest[0], depth + 1), self.show(st, o.rest[1], depth + 1)) if o.rest else ''))
            elif o.kind == 'inst':
                out.append('%s(%s)' % (self.I.clsname(st, o.cls), ', '.join('%s=%s' % (k, self.show(st, x, depth + 1)) for k, x in sorted(o.d.items()))))
            else:
                out.append('<%s %s>' % (o.kind, a[1]))
        return ' | '.join(sorted(out))


def dump(I):
    """where the interpreter stands (for debugging)"""
    for f, n in I.stack:
        print('   ', f.qual, getattr(n, 'lineno', '?'))
