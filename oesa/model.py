"""Semantics of objects, operators and of everything outside the package."""
import ast
import builtins as _bi
import fnmatch
import glob
import html
import itertools
import os
import re
import zlib
import textwrap
import warnings

try:
    import re._parser as _sre
except ImportError:      # pragma: no cover
    import sre_parse as _sre

from oesa.values import *  # noqa
from oesa.heap import Obj, UNBOUND, widen
from oesa import seg

EXC_ALIAS = {'builtins.IOError': 'OSError', 'builtins.EnvironmentError': 'OSError', 'json.JSONDecodeError': 'JSONDecodeError',
             'json.decoder.JSONDecodeError': 'JSONDecodeError', 'regex.error': 'RegexError', 're.error': 'RegexError',
             'regex.regex.error': 'RegexError', 're.PatternError': 'RegexError', 'regex._regex_core.error': 'RegexError',
             'subprocess.CalledProcessError': 'SubprocessError'}
EXC_ALIAS2 = {'IOError': 'OSError', 'EnvironmentError': 'OSError'}
EXC_PARENTS = {'JSONDecodeError': 'ValueError', 'RegexError': 'Exception', 'SubprocessError': 'Exception'}

CANON = {
    'regex.regex': 'regex', 'regex._regex': 'regex', 'posixpath': 'os.path', 'ntpath': 'os.path', 'io.open': 'builtins.open',
    'codecs.open': 'codecs.open', 're': 're',
}


_invalid = {}


def invalid(text):
    """is this no regular expression, in any dialect"""
    r = _invalid.get(text)
    if r is None:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                re.compile(text)
            r = False
        except (re.error, OverflowError) as x:
            m = str(x)
            r = 'unknown extension' not in m and any(y in m for y in ('nothing to repeat', 'missing )', 'unterminated', 'unbalanced', 'end of pattern', 'bad character range'))
        _invalid[text] = r
    return r


class Inexact(Exception):
    pass


def canon(dotted):
    for k, v in CANON.items():
        if dotted == k:
            return v
        if dotted.startswith(k + '.'):
            return v + dotted[len(k):]
    return dotted


PRELUDE_MAP = {'collections.UserList': 'UserList'}

EXT_CONST = {'os.sep': '/', 'os.path.sep': '/', 'os.linesep': '\n', 'os.extsep': '.', 'os.curdir': '.', 'os.pardir': '..', 'os.altsep': None,
             'builtins.True': True, 'builtins.False': False, 'builtins.None': None, 'builtins.__debug__': True}


def ext_value(dotted):
    if dotted in EXT_CONST:
        return const(EXT_CONST[dotted])
    m = re.match(r'^(regex|re)\.([A-Z][A-Z0-9]*)$', dotted)
    if m:
        return term('int', 'ext', dotted)
    return ext(dotted)


STR_STR = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'format', 'join', 'title', 'capitalize', 'removeprefix', 'removesuffix',
           'zfill', 'ljust', 'rjust', 'center', 'expandtabs', 'casefold', 'swapcase', 'translate', 'format_map'}
STR_BOOL = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isidentifier', 'isupper', 'islower', 'isalnum', 'isnumeric', 'isdecimal',
            'istitle', 'isascii', 'isprintable'}
STR_INT = {'find', 'rfind', 'count', 'index', 'rindex'}
STR_LIST = {'split', 'rsplit', 'splitlines'}
STR_TUPLE = {'partition', 'rpartition'}
LIST_MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse'}
DICT_MUT = {'update', 'pop', 'popitem', 'clear', 'setdefault'}
SET_MUT = {'add', 'discard', 'remove', 'update', 'pop', 'clear', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
TYPE_NAMES = {'str': 'str', 'int': 'int', 'bool': 'bool', 'float': 'float', 'bytes': 'bytes', 'NoneType': 'NoneType', 'list': 'list', 'tuple': 'tuple',
              'dict': 'dict', 'set': 'set', 'frozenset': 'set'}
SEQ = ('list', 'tuple')
DATA = ('list', 'tuple', 'set', 'dict')


def uel(a):
    """mark an element taken in an arbitrary order"""
    if a[0] in ('c', 't') and a[1] in ('str', 'any'):
        e = ex(a)
        if isinstance(e, tuple) and e and e[0] == 'uel':
            return a
        return T(a[1], ('uel', e))
    return a


def has_uel(e):
    return any(x and x[0] == 'uel' for x in walk(e))


def strip_uel(e):
    if isinstance(e, tuple):
        if e and e[0] == 'uel':
            r = strip_uel(e[1])
            return ('el', r) if not (isinstance(r, tuple) and r and r[0] == 'el') else r
        if has_uel(e):
            return tuple(strip_uel(x) if isinstance(x, (tuple, frozenset)) else x for x in e)
        return e
    if isinstance(e, frozenset):
        return frozenset(strip_uel(x) for x in e)
    return e


def ordered(v):
    """values whose order does not matter any more"""
    out = set()
    for a in v:
        if a[0] == 't' and has_uel(a[2]):
            e = a[2]
            if e[0] == 'uel' and is_k(e[1]):
                out.add(('c', e[1][1], e[1][2]))
            else:
                out.add(T(a[1], strip_uel(e)))
        else:
            out.add(a)
    return frozenset(out)


def tyof(st, a):
    """type name of an atom or None"""
    if a[0] == 'c':
        return a[1]
    if a[0] == 't':
        return a[1] if a[1] != 'any' else None
    if a[0] == 'r':
        k = st.get(a[1]).kind
        return {'iter': 'iterator', 'func': 'function', 'cached': 'function', 'class': 'type', 'prop': 'property'}.get(k, k)
    if a[0] in ('b', 'bm', 'x'):
        return 'callable'
    if a[0] == 'p':
        return 'Pattern'
    if a[0] == 'm':
        return 'Match'
    return None


class Model:
    # ---------------------------------------------------------------- classes

    def mro(self, coid, st):
        o = st.get(coid)
        out = [('r', coid)]
        for b in o.seq or ():
            for a in b:
                if a[0] == 'r' and st.get(a[1]).kind == 'class':
                    for c in self.mro(a[1], st):
                        if c in out:
                            out.remove(c)
                        out.append(c)
                elif a[0] == 'x':
                    if a in out:
                        out.remove(a)
                    out.append(a)
        return out

    def find_attr(self, st, coid, name, after=None):
        if not isinstance(coid, int):
            return None
        seen = after is None
        for c in self.mro(coid, st):
            if not seen:
                seen = c == ('r', after)
                continue
            if c[0] == 'r':
                d = st.get(c[1]).d
                if name in d and not name.startswith('$'):
                    return d[name]
            else:
                if c[1] == 'typing.Generic' or c[1] == 'builtins.object':
                    continue
                if hasattr(_bi, c[1].split('.')[-1]) and hasattr(getattr(_bi, c[1].split('.')[-1]), name):
                    return ext(c[1] + '.' + name)
        return None

    def bind(self, st, v, selfatom, clsoid=None):
        out = set()
        for a in v:
            if a[0] == 'r':
                o = st.get(a[1])
                if o.kind in ('func', 'cached'):
                    out.add(('bm', selfatom, a[1]))
                elif o.kind == 'static':
                    out |= o.d['f']
                elif o.kind == 'classm':
                    for f in o.d['f']:
                        if f[0] == 'r':
                            out.add(('bm', ('r', clsoid) if clsoid is not None else selfatom, f[1]))
                        else:
                            out.add(f)
                else:
                    out.add(a)
            elif a[0] == 'x' and a[1].startswith('builtins.object.'):
                out.add(('b', selfatom, a[1].rsplit('.', 1)[1]))
            else:
                out.add(a)
        return frozenset(out)

    def underlying(self, st, oid):
        """function behind caches and wrappers"""
        seen = set()
        while oid not in seen:
            seen.add(oid)
            o = st.get(oid)
            if o.kind == 'cached':
                a = one(o.d['f'])
            elif o.kind == 'func' and '__wrapped__' in o.d:
                a = one(o.d['__wrapped__'])
            else:
                return o.x if o.kind == 'func' else None
            if a is None or a[0] != 'r':
                return None
            oid = a[1]
        return None

    def instantiate(self, st, coid, args, kw, node, star=None, kwrest=None):
        names = [c[1] for c in self.mro(coid, st) if c[0] == 'x']
        if any(n.endswith(('Error', 'Exception', 'Warning')) for n in names):
            oid = self.alloc(st, 'inst', node, 'exc', cls=coid)
            st.w(oid).d['args'] = self.new(st, 'tuple', node, 'excargs', seq=tuple(args))
            return [(st, ref(oid))]
        if any(n.startswith('enum.') for n in names):
            return [(st, term('any', 'enum', coid))]
        oid = self.alloc(st, 'inst', node, 'inst', cls=coid)
        o = st.get(oid)
        o.site = ('inst', o.site, coid)
        self.emit('new', st, oid=oid, cls=coid, node=node, args=args, kw=kw)
        init = self.find_attr(st, coid, '__init__')
        v = ref(oid)
        out = []
        if init is not None and one(init) and one(init)[0] == 'r':
            for x, _ in self.call(st, self.bind(st, init, ('r', oid)), args, kw, node, star, kwrest):
                self.emit('created', x, oid=oid, cls=coid, node=node)
                out.append((x, v))
            return out
        dc = st.get(coid).d.get('$dataclass')
        if dc is not None:
            w = st.w(oid)
            fields = dc
            for i, (f, dflt) in enumerate(fields):
                w.d[f] = args[i] if i < len(args) else kw.get(f, dflt if dflt is not None else TOP)
        return [(st, v)]

    # ------------------------------------------------------------- attributes

    def get_attr(self, st, v, name, node, refine=None):
        mname = self.mangle(name)
        if len(v) == 1:
            return self.attr1(st, one(v), mname, node)
        pure = frozenset()
        out = []
        good = set()
        for a in order(v):
            nexc = len(self.exc[-1])
            x = st.copy()
            rs = self.attr1(x, a, mname, node)
            if rs:
                good.add(a)
            for y, w in rs:
                if self.unchanged(st, y):
                    pure |= w
                else:
                    out.append((y, w))
        if pure:
            out.append((st, pure))
        if len(good) < len(v) and refine is not None and good:
            for y, _ in out:
                self.refine(y, refine, frozenset(good))
        if len(out) > 2:
            out = self.merge_results(out, self.region, lim=2)
        return out

    def unchanged(self, st, y):
        if y.frames != st.frames or y.mon != st.mon:
            return False
        a, b = st.heap, y.heap
        if len(a) != len(b):
            return False
        for k, o in b.items():
            if a.get(k) is not o:
                return False
        return True

    def attr1(self, st, a, name, node):
        t = a[0]
        if t == 'r':
            return self.attr_obj(st, a, name, node)
        if t == 'x':
            r = self.ext_attr(st, a[1], name)
            return [(st, r)]
        if t == 'c':
            if a[2] is None:
                if name in ('__class__', '__doc__'):
                    return [(st, TOP)]
                self.raise_(st, 'AttributeError', node, "None has no attribute %s" % name)
                return []
            if not hasattr(a[2], name):
                self.raise_(st, 'AttributeError', node, "%s has no attribute %s" % (a[1], name))
                return []
            return [(st, frozenset([('b', a, name)]))]
        if t == 't':
            ty = a[1]
            if ty == 'any':
                if a[2] and a[2][0] == 'item' and self.item_attr is not None:
                    return self.item_attr(st, a, name, node)
                return [(st, term('any', 'attr', a[2], name))]
            if ty == 'exc':
                return [(st, term('any', 'attr', a[2], name))]
            c = getattr(_bi, ty, None)
            if c is not None and not hasattr(c, name):
                self.raise_(st, 'AttributeError', node, "%s has no attribute %s" % (ty, name))
                return []
            return [(st, frozenset([('b', a, name)]))]
        if t in ('b', 'bm'):
            if t == 'bm':
                o = st.get(a[2])
                if name in o.d:
                    return [(st, o.d[name])]
                if o.kind == 'cached':
                    return [(st, frozenset([('b', ('r', a[2]), name)]))]
                if name == '__func__':
                    return [(st, ref(a[2]))]
                if name == '__self__':
                    return [(st, frozenset([a[1]]))]
            if name in ('__name__', '__qualname__', '__doc__', '__module__'):
                return [(st, term('str', 'attr', a, name))]
            self.raise_(st.copy(), 'AttributeError', node, 'no attribute %s' % name)
            return [(st, TOP)]
        if t in ('m', 'p'):
            if t == 'p' and name == 'pattern':
                return [(st, const(a[1]) if a[1] is not None else term('str', 'pattern', a))]
            if t == 'm' and name == 'string':
                return [(st, term('str', a[2]))]
            if t == 'm' and name in ('lastgroup', 'lastindex', 're', 'pos', 'endpos'):
                return [(st, term('any', 'attr', a, name))]
            return [(st, frozenset([('b', a, name)]))]
        if t == 'unbound':
            return []
        return [(st, term('any', 'attr', a, name))]

    item_attr = None

    def ext_attr(self, st, dotted, name):
        full = canon(dotted + '.' + name)
        n = PRELUDE_MAP.get(full)
        if n and 'oesa_prelude' in self.module_oid:
            v = st.get(self.module_oid['oesa_prelude']).d.get(n)
            if v:
                return v
        # submodule of the package imported as a whole
        return ext_value(full)

    def attr_obj(self, st, a, name, node):
        o = st.get(a[1])
        k = o.kind
        if k == 'inst':
            return self.attr_inst(st, a, o, name, node)
        if k == 'module':
            if name in o.d:
                v = o.d[name]
                return [(st, v - {UNBOUND} if len(v) > 1 else v)]
            sub = o.x + '.' + name
            if sub in self.mods:
                st = self.import_module(sub, st)
                return [(st, ref(self.module_oid[sub]))]
            self.raise_(st, 'AttributeError', node, 'module %s has no attribute %s' % (o.x, name))
            return []
        if k == 'class':
            if name == '__mro__':
                return [(st, self.new(st, 'tuple', node, 'mro', seq=tuple(frozenset([c]) for c in self.mro(a[1], st))))]
            if name == '__dict__':
                return [(st, self.class_dict(st, a[1], node))]
            if name == '__bases__':
                return [(st, self.new(st, 'tuple', node, 'bases', seq=tuple(o.seq)))]
            if name in ('__doc__',):
                return [(st, term('str', 'attr', a, name))]
            v = self.find_attr(st, a[1], name)
            if v is not None:
                out = set()
                for b in v:
                    if b[0] == 'r' and st.get(b[1]).kind in ('static', 'classm'):
                        out |= self.bind(st, frozenset([b]), a, a[1])
                    else:
                        out.add(b)
                return [(st, frozenset(out))]
            if name in ('__subclasses__', 'mro'):
                return [(st, frozenset([('b', a, name)]))]
            self.raise_(st, 'AttributeError', node, 'class %s has no attribute %s' % (self.clsname(st, a[1]), name))
            return []
        if k == 'super':
            slf = one(o.d['self'])
            clsoid = slf[1] if slf and slf[0] == 'r' and st.get(slf[1]).kind == 'class' else (st.get(slf[1]).cls if slf and slf[0] == 'r' else None)
            if clsoid is None:
                return [(st, TOP)]
            v = self.find_attr(st, clsoid, name, after=o.x[0])
            if v is None:
                if name in ('__init__', '__setattr__', '__init_subclass__', '__eq__', '__hash__', '__repr__', '__str__', '__dir__', '__getattribute__'):
                    return [(st, frozenset([('b', slf, name)]))]
                self.raise_(st, 'AttributeError', node, 'super has no attribute %s' % name)
                return []
            x = one(v)
            if x and x[0] == 'r' and st.get(x[1]).kind == 'prop':
                return self.call(st, st.get(x[1]).d['fget'], [frozenset([slf])], {}, node)
            return [(st, self.bind(st, v, slf, clsoid))]
        if k in ('func', 'cached'):
            if name in o.d:
                return [(st, o.d[name])]
            if k == 'cached':
                return [(st, frozenset([('b', a, name)]))]
            if name in ('__doc__', '__annotations__', '__defaults__', '__dict__'):
                return [(st, term('any', 'attr', a, name))]
            self.raise_(st, 'AttributeError', node, 'function has no attribute %s' % name)
            return []
        if k == 'prop':
            if name in ('fget', 'fset', 'fdel'):
                return [(st, o.d.get(name, NONE))]
            return [(st, frozenset([('b', a, name)]))]
        if k in DATA or k in ('iter', 'file', 'hash'):
            if k == 'dict' and o.x == {'ns': True}:
                pass
            c = {'list': list, 'tuple': tuple, 'set': set, 'dict': dict}.get(k)
            if k == 'dict' and isinstance(o.x, dict) and o.x.get('factory') is not None and name in ('move_to_end', 'most_common', 'default_factory'):
                return [(st, frozenset([('b', a, name)]))]
            if c is not None and not hasattr(c, name):
                if k == 'dict' and name in ('move_to_end', 'most_common', 'elements', 'total'):
                    return [(st, frozenset([('b', a, name)]))]
                if k == 'list' and name in ('popleft', 'appendleft', 'rotate', 'extendleft'):
                    return [(st, frozenset([('b', a, name)]))]
                self.raise_(st, 'AttributeError', node, '%s has no attribute %s' % (k, name))
                return []
            if k == 'file' and name in ('closed',):
                return [(st, term('bool', 'closed', a))]
            if k == 'file' and name == 'name':
                return [(st, o.d['path'])]
            return [(st, frozenset([('b', a, name)]))]
        if k == 'frame' and name in o.d:
            return [(st, o.d[name])]
        if k == 'static' or k == 'classm':
            if name == '__func__':
                return [(st, o.d['f'])]
        return [(st, TOP)]

    def clsname(self, st, coid):
        o = st.get(coid)
        return o.x[1] if o is not None and o.x else '?'

    def class_dict(self, st, coid, node):
        oid = self.alloc(st, 'dict', node, 'classdict')
        w = st.w(oid)
        for k, v in st.get(coid).d.items():
            if not k.startswith('$'):
                w.ent[C(k)] = (v, True)
        return ref(oid)

    def attr_inst(self, st, a, o, name, node):
        cv = self.find_attr(st, o.cls, name)
        if cv is not None:
            ca = one(cv)
            if ca and ca[0] == 'r' and st.get(ca[1]).kind == 'prop':
                p = st.get(ca[1])
                if 'fget' not in p.d:
                    self.raise_(st, 'AttributeError', node, 'attribute %s cannot be read' % name)
                    return []
                self.emit('getprop', st, oid=a[1], name=name, node=node)
                return self.call(st, p.d['fget'], [frozenset([a])], {}, node)
            if ca and ca[0] == 'r' and st.get(ca[1]).kind == 'cprop':
                if name in o.d:
                    return [(st, o.d[name])]
                out = []
                for x, v in self.call(st, st.get(ca[1]).d['f'], [frozenset([a])], {}, node):
                    x.w(a[1]).d[name] = v
                    out.append((x, v))
                return out
        if name in o.d:
            v = o.d[name]
            if UNBOUND in v:
                v2 = v - {UNBOUND}
                if cv is not None:
                    v2 |= self.bind(st, cv, a, o.cls)
                else:
                    self.raise_(st.copy(), 'AttributeError', node, 'attribute %s of %s may be missing' % (name, self.clsname(st, o.cls)))
                v = v2
                if not v:
                    return []
            self.emit('getattr', st, oid=a[1], name=name, node=node)
            return [(st, v)]
        if cv is not None:
            return [(st, self.bind(st, cv, a, o.cls))]
        if name == '__class__':
            return [(st, ref(o.cls))]
        if name == '__dict__':
            oid = self.alloc(st, 'dict', node, 'instdict', x={'of': a[1]})
            w = st.w(oid)
            for k, v in o.d.items():
                if not k.startswith('$'):
                    w.ent[C(k)] = (v - {UNBOUND}, UNBOUND not in v)
            return [(st, ref(oid))]
        if name in ('__dir__', '__init__', '__repr__', '__str__', '__eq__', '__hash__', '__setattr__', '__getattribute__', '__ne__', '__format__'):
            return [(st, frozenset([('b', a, name)]))]
        if name in ('__doc__', '__module__'):
            return [(st, term('str', 'attr', a, name))]
        g = self.find_attr(st, o.cls, '__getattr__')
        if g is not None:
            return self.call(st, self.bind(st, g, a), [const(name)], {}, node)
        self.raise_(st, 'AttributeError', node, '%s has no attribute %s' % (self.clsname(st, o.cls), name))
        return []

    def set_attr(self, st, v, name, val, node):
        name = self.mangle(name)
        out = []
        many = len(v) > 1
        for a in order(v):
            x = st.copy() if many else st
            if a[0] == 'r':
                o = x.get(a[1])
                if o.kind == 'inst':
                    cv = self.find_attr(x, o.cls, name)
                    ca = one(cv) if cv is not None else None
                    if ca and ca[0] == 'r' and x.get(ca[1]).kind == 'prop':
                        p = x.get(ca[1])
                        if 'fset' not in p.d:
                            self.raise_(x, 'AttributeError', node, 'attribute %s of %s cannot be set' % (name, self.clsname(x, o.cls)))
                            continue
                        self.emit('setprop', x, oid=a[1], name=name, value=val, node=node)
                        out += [y for y, _ in self.call(x, p.d['fset'], [frozenset([a]), val], {}, node)]
                        continue
                self.write(x, a[1], 'setattr', name, node, val)
                w = x.w(a[1])
                if w.multi and name in w.d:
                    w.d[name] = w.d[name] | val
                elif w.multi:
                    w.d[name] = val | {UNBOUND}
                else:
                    w.d[name] = val
                out.append(x)
            elif a[0] == 'c' and a[2] is None:
                self.raise_(x, 'AttributeError', node, 'None has no attribute %s' % name)
            elif a[0] == 'x':
                self.emit('extwrite', x, target=a[1] + '.' + name, node=node)
                out.append(x)
            else:
                out.append(x)
        if many and len(out) > 3:
            out = self.reduce_many(out)
        return out

    def reduce_many(self, sts):
        if len(sts) < 2:
            return sts
        st = sts[0]
        for o in sts[1:]:
            st, _, _ = self.joiner.join2(st, o, self.region)
        return [st]

    def write(self, st, oid, kind, detail, node, val=None):
        """every modification of an object passes here"""
        o = st.get(oid)
        self.emit('write', st, oid=oid, obj=o, kind=kind, detail=detail, node=node, val=val)

    # ------------------------------------------------------------- sequences

    def in_any_order(self, o):
        return bool(self.opts.get('order') is None and o is not None and (o.unord or o.kind == 'set') and not (o.seq is not None and len(o.seq) < 2))

    def permuted(self, seq):
        """the contents of a set or a directory in the order of the environment"""
        n = self.opts.get('order')
        if not n or len(seq) < 2:
            return seq
        if n == 1:
            return list(reversed(seq))
        return sorted(seq, key=lambda v: self.arbitrary('order', v))

    def arbitrary(self, what, a):
        return zlib.crc32(('%s %s %r' % (self.opts['order'], what, sorted(a) if isinstance(a, frozenset) else a)).encode('utf-8', 'replace'))

    def sequence_of(self, st, a, node):
        if a[0] == 'r':
            o = st.get(a[1])
            if o.kind in SEQ or o.kind == 'set':
                if o.seq is not None:
                    return [(st, o.seq if o.kind != 'set' else tuple(self.permuted(o.seq)), None, len(o.seq))]
                return [(st, None, o.elem or TOP, o.minlen)]
            if o.kind == 'dict':
                if self.exact_dict(o):
                    return [(st, tuple(frozenset([k]) for k in o.ent), None, len(o.ent))]
                el = frozenset(o.ent)
                if o.rest:
                    el |= o.rest[0]
                return [(st, None, el, sum(1 for _, m in o.ent.values() if m))]
            if o.kind == 'iter':
                if isinstance(o.x, dict) and o.x.get('slow'):
                    self.raise_(st.copy(), 'TimeoutError', node, 'the operation may take too long')
                    if o.x['slow'] == 2:
                        return []
                src = self.iter_source(st, a[1])
                if src is not None:
                    w = st.w(a[1])
                    i = w.x.get('i', 0)
                    w.x = dict(w.x, i=10 ** 6)
                    return [(st, tuple(src[i:]), None, max(0, len(src) - i))]
                o = st.get(a[1])
                el, ml = self.iter_contents(st, a[1])
                self.exhaust(st, a[1])
                return [(st, None, el or TOP, ml)]
            if o.kind == 'inst':
                out = []
                for x, it in self.iterate(st, a, node):
                    for r in self.sequence_of(x, ('r', it), node):
                        out.append(r)
                return out
            if o.kind == 'file':
                el = self.file_lines(st, a, node)
                out = []
                for x, v in el:
                    out += self.sequence_of(x, one(v), node)
                return out
            return [(st, None, None, 0)]
        if a[0] == 'c' and isinstance(a[2], (str, tuple, bytes)):
            return [(st, tuple(const(c) for c in a[2]), None, len(a[2]))]
        if a[0] == 't' and a[1] == 'str':
            s = seg.chars(a[2])
            if s is not None:
                return [(st, s, None, len(s))]
            return [(st, None, term('str', 'el', a[2]), 0)]
        if a[0] == 't' and a[1] in ('int', 'float', 'bool') or a[0] == 'c':
            self.raise_(st, 'TypeError', node, '%s is not iterable' % a[1])
            return []
        return [(st, None, frozenset([T('any', norm(('el', ex(a))))]), -1)]

    def exact_dict(self, o):
        return o.rest is None and all(m for _, m in o.ent.values())

    def iterate(self, st, a, node):
        """list of (state, oid of an iterator)"""
        if a[0] == 'r':
            o = st.get(a[1])
            if o.kind == 'iter':
                if isinstance(o.x, dict) and o.x.get('slow'):
                    self.raise_(st.copy(), 'TimeoutError', node, 'the operation may take too long')
                    if o.x['slow'] == 2:
                        return []
                return [(st, a[1])]
            if o.kind in SEQ:
                return [(st, self.alloc(st, 'iter', node, 'it', x={'k': 'list', 'i': 0}, d={'src': frozenset([a])}, unord=o.unord))]
            if o.kind == 'set' and self.opts.get('order') is not None and o.seq is not None:
                return [(st, self.alloc(st, 'iter', node, 'it', x={'k': 'seq', 'i': 0}, seq=tuple(self.permuted(o.seq)), d={'src': frozenset([a])}))]
            if o.kind == 'set':
                return [(st, self.alloc(st, 'iter', node, 'it', x={'k': 'list', 'i': 0}, d={'src': frozenset([a])}, unord=True))]
            if o.kind == 'dict':
                if self.exact_dict(o):
                    return [(st, self.alloc(st, 'iter', node, 'it', x={'k': 'seq', 'i': 0}, seq=tuple(frozenset([k]) for k in o.ent), d={'src': frozenset([a])}, unord=o.unord))]
                el = frozenset(o.ent)
                if o.rest:
                    el |= o.rest[0]
                return [(st, self.alloc(st, 'iter', node, 'it', x={'k': 'keys'}, elem=el, minlen=sum(1 for _, m in o.ent.values() if m), d={'src': frozenset([a])}, unord=o.unord))]
            if o.kind == 'inst':
                f = self.find_attr(st, o.cls, '__iter__')
                if f is not None:
                    out = []
                    for x, v in self.call(st, self.bind(st, f, a), [], {}, node):
                        for b in v:
                            out += self.iterate(x, b, node)
                    return out
                if any(n.startswith('enum.') for n in []):
                    pass
                self.raise_(st, 'TypeError', node, '%s is not iterable' % self.clsname(st, o.cls))
                return []
            if o.kind == 'file':
                out = []
                for x, v in self.file_lines(st, a, node):
                    out += self.iterate(x, one(v), node)
                return out
            if o.kind == 'class':
                return [(st, self.alloc(st, 'iter', node, 'it', x={'k': 'elem'}, elem=TOP))]
            self.raise_(st, 'TypeError', node, '%s is not iterable' % o.kind)
            return []
        if a[0] == 'c':
            if isinstance(a[2], (str, bytes, tuple)):
                return [(st, self.alloc(st, 'iter', node, 'it', x={'k': 'seq', 'i': 0}, seq=tuple(const(c) for c in a[2])))]
            self.raise_(st, 'TypeError', node, '%r is not iterable' % (a[2],))
            return []
        if a[0] == 't' and a[1] in ('int', 'float', 'bool'):
            self.raise_(st, 'TypeError', node, '%s is not iterable' % a[1])
            return []
        if a[0] == 't' and a[1] == 'str':
            s = seg.chars(a[2])
            if s is not None:
                return [(st, self.alloc(st, 'iter', node, 'it', x={'k': 'seq', 'i': 0}, seq=s))]
            return [(st, self.alloc(st, 'iter', node, 'it', x={'k': 'elem'}, elem=term('str', 'el', a[2])))]
        if a[0] == 'unbound':
            return []
        e = ex(a)
        return [(st, self.alloc(st, 'iter', node, 'it', x={'k': 'elem'}, elem=term('any', 'el', e), unord=has_uel(e) if isinstance(e, tuple) else False))]

    def iter_source(self, st, it):
        """exact sequence behind an iterator or None"""
        o = st.get(it)
        x = o.x or {}
        if x.get('k') == 'seq':
            return o.seq if 'i' in x else None
        if x.get('k') == 'list':
            s = st.obj(one(o.d['src'])) if one(o.d['src']) else None
            return s.seq if s is not None and 'i' in x and not x.get('started') else None
        if x.get('k') == 'enum':
            s = self.iter_source(st, one(o.d['src'])[1])
            return s
        return None

    def iter_next(self, st, it, node):
        """exact step: [(state, value or None at the end)]"""
        o = st.get(it)
        if o.x['k'] == 'enum':
            out = []
            for y, v in self.iter_next(st, one(o.d['src'])[1], node):
                if v is None:
                    out.append((y, None))
                    continue
                w = y.w(it)
                n = w.x.get('i', -1)
                if n >= 0:
                    w.x = dict(w.x, i=n + 1)
                    out.append((y, self.new(y, 'tuple', node, 'enum', seq=(const(n), v))))
                else:
                    out.append((y, self.new(y, 'tuple', node, 'enum', seq=(frozenset([T('int', ('idx', it))]), v))))
            return out
        src = self.iter_source(st, it)
        i = o.x['i']
        if i >= len(src):
            return [(st, None)]
        w = st.w(it)
        w.x = dict(w.x, i=i + 1)
        return [(st, src[i])]

    def iter_contents(self, st, it):
        """(element value, least number of elements)"""
        o = st.get(it)
        k = o.x.get('k')
        if k == 'list':
            el, ml = frozenset(), None
            for a in o.d['src']:
                s = st.obj(a)
                el |= s.contents()
                n = len(s.seq) if s.seq is not None else s.minlen
                ml = n if ml is None else min(ml, n)
            if isinstance(o.x.get('i'), int):
                ml = max(0, ml - o.x['i'])
            else:
                ml = 0
            if o.x.get('started'):
                ml = 0
            return el, ml
        if k == 'seq' and 'i' not in o.x:
            r = o.elem
            for v in o.seq or ():
                r |= v
            return r, 0
        if k == 'seq':
            r = frozenset()
            for v in o.seq[o.x['i']:]:
                r |= v
            return r, max(0, len(o.seq) - o.x['i'])
        if k == 'enum':
            el, ml = self.iter_contents(st, one(o.d['src'])[1])
            return el, ml
        return o.elem, o.minlen

    def iter_minlen(self, st, it):
        return self.iter_contents(st, it)[1]

    def iter_elem(self, st, it, node):
        """an arbitrary next element: [(state, value)]"""
        o = st.get(it)
        el, _ = self.iter_contents(st, it)
        if not el:
            return []
        if o.unord:
            el = frozenset(uel(a) for a in el)
        w = st.w(it)
        if w.x.get('k') == 'list':
            w.x = dict(w.x, started=True)
        else:
            w.minlen = 0
        if o.x.get('k') == 'enum':
            w.x = dict(w.x, i=-1)
            ia = T('int', ('idx', it))
            return [(st, self.new(st, 'tuple', node, 'enum', seq=(frozenset([ia]), el)))]
        if o.x.get('k') == 'keys':
            src = one(o.d.get('src', frozenset()))
            if src:
                # the key is in the dictionary
                for a in el:
                    st.facts[('in', a, src, st.get(src[1]).ver)] = True
        self.fresh_iter(st, el)
        return [(st, el)]

    def fresh_iter(self, st, el):
        """facts about the element of the previous round do not hold for this one"""
        bad = {a[2] for a in el if a[0] == 't' and isinstance(a[2], tuple)}
        if not bad or not st.facts:
            return
        drop = []
        for k in st.facts:
            if k[0] == 'in' and len(k) == 4 and k[1] in el and st.facts[k] is True:
                continue
            for e in walk(k):
                if e in bad:
                    drop.append(k)
                    break
        for k in drop:
            st.facts.pop(k, None)

    def iter_empty(self, st, it):
        """the iterator has no element"""
        o = st.get(it)
        if o.x.get('k') == 'list':
            a = one(o.d['src'])
            s = st.get(a[1])
            if not s.multi and s.seq is None and not o.x.get('started'):
                st.w(a[1]).seq = ()
        return st

    def iter_done(self, st, it):
        self.exhaust(st, it)
        return st

    def exhaust(self, st, it):
        w = st.w(it)
        w.x = {'k': 'seq', 'i': 0}
        w.seq = ()
        w.elem = frozenset()
        w.minlen = 0

    def iter_of_list(self, st, v, node):
        a = one(v)
        o = st.get(a[1])
        return self.new(st, 'iter', node, 'gen', x={'k': 'list', 'i': 0}, d={'src': v}, unord=o.unord)

    def gen_append(self, st, v, node):
        fr = st.frames[-1]
        while True:
            o = st.get(fr)
            if '$gen' in o.d:
                break
            fr = one(o.d['$parent'])[1]
        self.list_append(st, one(o.d['$gen'])[1], v)

    def list_append(self, st, oid, v):
        w = st.w(oid)
        if self.depth_uord and oid < self.uord_mark:
            w.unord = True
        if w.seq is not None and not w.multi and len(w.seq) < 400:
            w.seq = w.seq + (v,)
        else:
            w.elem = w.contents() | v if len(w.contents() | v) <= 24 else widen(w.contents(), v, True)
            w.minlen = (len(w.seq) if w.seq is not None else w.minlen) + (0 if w.multi else 1)
            a = one(v)
            m = w.must
            w.seq = None
            if a is not None and not w.multi:
                w.must = m | {a}

    uord_mark = 0

    # --------------------------------------------------------------- truth

    def truth_atom(self, st, a):
        t = a[0]
        if t == 'c':
            return bool(a[2])
        if t == 'r':
            o = st.get(a[1])
            if o.kind in DATA:
                if o.kind == 'dict':
                    if any(m for _, m in o.ent.values()):
                        return True
                    if not o.ent and o.rest is None:
                        return False
                    return st.facts.get(('t', a, o.ver))
                if o.seq is not None:
                    return len(o.seq) > 0
                if o.minlen > 0 or o.must:
                    return True
                return st.facts.get(('t', a, o.ver))
            return True
        if t in ('x', 'b', 'bm', 'p', 'm'):
            return True
        if t == 't':
            e = a[2]
            ty = a[1]
            r = st.facts.get(('t', a))
            if r is not None:
                return r
            if isinstance(e, tuple) and e:
                if ty == 'str':
                    s = seg.enc(e)
                    if s is not None:
                        return bool(s)
                    if e[0] == 'cat' and any((is_k(x) and x[2]) or is_clean(x) for x in e[1:]):
                        return True
                if ty == 'int' and e[0] == 'len':
                    pass
                if e[0] == 'meth' and e[1] in ('endswith', 'startswith') and len(e) == 4 and is_k(e[3]) and isinstance(e[3][2], str):
                    for k, v in st.facts.items():
                        if k[0] != 't' or not v:
                            continue
                        f = k[1][2] if k[1][0] == 't' else None
                        if isinstance(f, tuple) and len(f) == 4 and f[:3] == e[:3] and is_k(f[3]) and isinstance(f[3][2], str):
                            x, y = e[3][2], f[3][2]
                            if e[1] == 'endswith':
                                if y.endswith(x):
                                    return True
                                if not x.endswith(y):
                                    return False
                            else:
                                if y.startswith(x):
                                    return True
                                if not x.startswith(y):
                                    return False
            if ty == 'exc':
                return True
            return None
        return None

    def assume_truth(self, st, a, val):
        """refined value, recording what is known now"""
        if a[0] == 't':
            if a[1] == 'bool' and not val:
                st.facts[('t', a)] = False
                return FALSE
            if a[1] == 'bool':
                st.facts[('t', a)] = True
                return TRUE
            st.facts[('t', a)] = val
            if not val and a[1] == 'str':
                return EMPTY
            if not val and a[1] == 'int':
                return const(0)
            return frozenset([a])
        if a[0] == 'r':
            o = st.get(a[1])
            if o.kind in DATA and not o.multi:
                self.assume_len(st, a[1], val)
            elif o.kind in DATA:
                st.facts[('t', a, o.ver)] = val
            return frozenset([a])
        return frozenset([a])

    def assume_len(self, st, oid, nonempty):
        ver = st.get(oid).ver
        w = st.w(oid)
        w.ver = ver
        if w.kind == 'dict':
            if nonempty:
                st.facts[('t', ('r', oid), w.ver)] = True
            else:
                w.ent = {}
                w.rest = None
        elif nonempty:
            w.minlen = max(1, w.minlen)
        else:
            w.seq = ()
            w.elem = frozenset()

    # ------------------------------------------------------------- compare

    def compare(self, st, l, op, r, node, *a, **kw):
        x = self.compare_(st, l, op, r, node, *a, **kw)
        if len(x[0]) + len(x[1]) > 1:
            self.forked('%s of %s and %s' % (type(op).__name__, showv(l)[:100], showv(r)[:100]))
        return x

    def compare_(self, st, l, op, r, node, le=None, re_=None):
        """(states where it holds, states where not)"""
        name = type(op).__name__
        if name in ('NotEq', 'IsNot', 'NotIn'):
            f, t = self.compare(st, l, {'NotEq': ast.Eq, 'IsNot': ast.Is, 'NotIn': ast.In}[name](), r, node, le, re_)
            return t, f
        # overloaded operators of package classes
        la, ra = one(l), one(r)
        if name == 'In' and ra is not None and ra[0] == 'r' and st.get(ra[1]).kind == 'inst':
            f = self.find_attr(st, st.get(ra[1]).cls, '__contains__')
            if f is not None:
                return self.split_bool(self.call(st, self.bind(st, f, ra), [l], {}, node))
            out = ([], [])
            for x, it in self.iterate(st, ra, node):
                for y, seq, elem, ml in self.sequence_of(x, ('r', it), node):
                    lst = self.new(y, 'list', node, 'contains', seq=seq, elem=elem or frozenset(), minlen=max(0, ml))
                    g, b = self.compare(y, l, op, lst, node, le)
                    out[0].extend(g)
                    out[1].extend(b)
            return out
        if name in ('Eq', 'Lt', 'LtE', 'Gt', 'GtE') and la is not None and la[0] == 'r' and st.get(la[1]).kind == 'inst':
            f = self.find_attr(st, st.get(la[1]).cls, {'Eq': '__eq__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[name])
            if f is not None:
                return self.split_bool(self.call(st, self.bind(st, f, la), [r], {}, node))
        pairs = [(a, b) for a in order(l) for b in order(r)]
        if len(pairs) == 1:
            return self.cmp1(st, la, name, ra, node, le, re_, len(l), len(r))
        yes, no, unk = [], [], []
        if len(pairs) <= 64:
            for a, b in pairs:
                d = self.decide(st, a, name, b)
                (yes if d is True else no if d is False else unk).append((a, b))
        else:
            unk = pairs
        good, bad = [], []
        if not unk:
            if not no:
                return [st], []
            if not yes:
                return [], [st]
        for want, sure, outl in ((True, yes, good), (False, no, bad)):
            if len(unk) <= 4:
                for a, b in unk:
                    x = st.copy()
                    t, f = self.cmp1(x, a, name, b, node, None, None)
                    for y in (t if want else f):
                        va = y.mon.pop('$cmp', None)
                        if le is not None and len(l) > 1:
                            self.refine(y, le, frozenset([a]))
                        outl.append(y)
                if sure:
                    x = st.copy()
                    if le is not None and len(l) > 1:
                        self.refine(x, le, frozenset(a for a, _ in sure))
                    if re_ is not None and len(r) > 1:
                        self.refine(x, re_, frozenset(b for _, b in sure))
                    outl.append(x)
            else:
                x = st.copy()
                poss = sure + unk
                if le is not None and len(l) > 1:
                    self.refine(x, le, frozenset(a for a, _ in poss))
                outl.append(x)
        return good, bad

    def split_bool(self, rs):
        good, bad = [], []
        for x, v in rs:
            t, f = self.truth(x, v)
            good += [y for y, _ in t]
            bad += [y for y, _ in f]
        return good, bad

    def cmp1(self, st, a, name, b, node, le, re_, ln=1, rn=1):
        d = self.decide(st, a, name, b)
        if d is True:
            return [st], []
        if d is False:
            return [], [st]
        if name in ('Lt', 'LtE', 'Gt', 'GtE'):
            for z in (a, b):
                if z == C(None):
                    self.raise_(st, 'TypeError', node, 'None is not ordered')
                    return [], []
        if name == 'In' and b == C(None):
            self.raise_(st, 'TypeError', node, 'None is not a container')
            return [], []
        g, f = st.copy(), st
        k = self.fact_key(st, a, name, b)
        if k is not None:
            g.facts[k] = True
            f.facts[k] = False
        if name in ('Eq', 'Is'):
            # refine to the constant
            for p, q, e in ((a, b, le), (b, a, re_)):
                if q[0] == 'c' and p[0] == 't':
                    self.refine(g, e, frozenset([q])) if e is not None else None
                    if q[2] is None and e is not None:
                        pass
            for p, q in ((a, b), (b, a)):
                if p[0] == 't' and isinstance(p[2], tuple) and p[2] and p[2][0] == 'len' and q == C(0):
                    self.len_known(g, p, False)
                    self.len_known(f, p, True)
        if name in ('Gt', 'GtE', 'Lt', 'LtE'):
            for p, q, n in ((a, b, name), (b, a, {'Gt': 'Lt', 'Lt': 'Gt', 'GtE': 'LtE', 'LtE': 'GtE'}[name])):
                if p[0] == 't' and isinstance(p[2], tuple) and p[2] and p[2][0] == 'len' and q[0] == 'c' and isinstance(q[2], int):
                    lo = {'Gt': q[2] + 1, 'GtE': q[2]}.get(n)
                    if lo is not None and lo >= 1:
                        self.len_known(g, p, True, lo)
                        if lo == 1:
                            self.len_known(f, p, False)
                    if n == 'Lt' and q[2] == 1:
                        self.len_known(g, p, False)
                        self.len_known(f, p, True)
                    if n == 'LtE' and q[2] == 0:
                        self.len_known(g, p, False)
                        self.len_known(f, p, True)
        if name == 'In' and b[0] == 'r':
            o = st.get(b[1])
            if o.kind == 'dict' and not o.multi:
                self.dict_has(g, b[1], a)
                wf = f.get(b[1])
                if a in wf.ent:
                    ver = wf.ver
                    w = f.w(b[1])
                    w.ent.pop(a)
                    w.ver = ver
                    if k is not None:
                        f.facts[k] = False
            elif o.kind in SEQ + ('set',) and o.seq is None and not o.multi:
                ver = o.ver
                w = g.w(b[1])
                w.must = w.must | {a}
                w.minlen = max(1, w.minlen)
                w.ver = ver
            elif o.kind in SEQ and o.seq is not None and a[0] == 't' and le is not None:
                cs = [one(v) for v in o.seq]
                if all(c is not None and c[0] == 'c' for c in cs):
                    cand = [c for c in cs if self.decide(st, a, 'Eq', c) is not False]
                    if len(cand) == 1:
                        self.refine(g, le, frozenset(cand))
                        g.facts[('Eq',) + self.eqkey(a, cand[0])] = True
        return [g], [f]

    def len_known(self, st, p, nonempty, lo=1):
        e = p[2]
        if e[1] and e[1][0] == 'r':
            o = st.get(e[1][1])
            if o is not None and o.ver == e[2] and o.kind in DATA and not o.multi:
                self.assume_len(st, e[1][1], nonempty)
                if nonempty and o.kind != 'dict':
                    w = st.w(e[1][1])
                    w.minlen = max(w.minlen, lo)
                    w.ver = e[2]

    def eqkey(self, a, b):
        return tuple(sorted((a, b), key=repr))

    def fact_key(self, st, a, name, b):
        if name in ('Eq', 'Is'):
            return (name,) + self.eqkey(a, b)
        if name == 'In':
            if b[0] == 'r':
                o = st.get(b[1])
                if o.kind in SEQ + ('set',) and o.seq is not None and all(is_const(v) for v in o.seq):
                    return ('incs', a, tuple(sorted((one(v) for v in o.seq), key=repr)))
                return ('in', a, b, o.ver)
            return ('in', a, b)
        return (name, a, b)

    def decide(self, st, a, name, b):
        """True, False or None"""
        if name in ('Eq', 'Is'):
            if a == b:
                if a[0] == 'r' and st.get(a[1]).multi:
                    return None
                if a[0] in ('top',):
                    return None
                return True
            r = st.facts.get((name,) + self.eqkey(a, b))
            if r is not None:
                return r
            if a[0] == 'c' and b[0] == 'c':
                return a[2] == b[2] if name == 'Eq' else (a[2] is b[2] or (a[2] == b[2] and a[1] == b[1]))
            ta, tb = tyof(st, a), tyof(st, b)
            for p, q in ((a, b), (b, a)):
                if p[0] == 'c' and p[2] is None and q[0] == 't' and q[1] == 'any' and st.facts.get(('t', q)) is True:
                    return False
            if ta is not None and tb is not None:
                num = ('int', 'bool', 'float')
                if ta != tb and not (ta in num and tb in num):
                    if a[0] == 'r' and b[0] == 'r' and name == 'Eq' and 'inst' in (ta, tb):
                        return None
                    return False
            if a[0] == 'r' and b[0] == 'r':
                oa, ob = st.get(a[1]), st.get(b[1])
                if oa.kind in DATA and ob.kind in DATA and name == 'Eq':
                    if oa.kind in SEQ and oa.seq is not None and ob.seq is not None:
                        if len(oa.seq) != len(ob.seq):
                            return False
                        rs = []
                        for x, y in zip(oa.seq, ob.seq):
                            rs.append(self.decide(st, one(x), 'Eq', one(y)) if one(x) and one(y) else None)
                        if all(z is True for z in rs):
                            return True
                        if any(z is False for z in rs):
                            return False
                    if oa.kind == ob.kind == 'set' and oa.seq is not None and ob.seq is not None:
                        return self.both3(self.subset(st, oa, ob), self.subset(st, ob, oa))
                    if oa.kind == ob.kind == 'dict' and not oa.rest and not ob.rest and all(m for _, m in list(oa.ent.values()) + list(ob.ent.values())):
                        if set(oa.ent) != set(ob.ent):
                            return False if all(k[0] == 'c' for k in list(oa.ent) + list(ob.ent)) else None
                        rs = [self.decide(st, one(v), 'Eq', one(ob.ent[k][0])) if one(v) and one(ob.ent[k][0]) else None for k, (v, _) in oa.ent.items()]
                        return True if all(z is True for z in rs) else False if any(z is False for z in rs) else None
                    return None
                if name == 'Is' or (oa.kind == 'inst' and ob.kind == 'inst' and self.find_attr(st, oa.cls, '__eq__') is None):
                    if oa.multi and ob.multi and oa.site == ob.site:
                        return None
                    return False
                return False if oa.kind in ('class', 'func') and ob.kind in ('class', 'func') else None
            if a[0] == 'x' and b[0] == 'x':
                return False
            if (a[0] == 'x' and b[0] == 'r') or (a[0] == 'r' and b[0] == 'x'):
                return False
            if {ta, tb} == {'str'}:
                ea, eb = ex(a), ex(b)
                return seg.eqdec(ea, eb, st.facts)
            if a[0] == 't' and b[0] == 'c' and b[2] == '' or b[0] == 't' and a[0] == 'c' and a[2] == '':
                p = a if a[0] == 't' else b
                r = self.truth_atom(st, p)
                if r is not None and p[1] == 'str':
                    return not r
            if ta in ('int', 'bool') and tb in ('int', 'bool'):
                d = linadd(ex(a), ex(b), -1)
                if d is not None and d[0] == 'c':
                    return d[2] == 0
                return None
            return None
        if name == 'In':
            return self.decide_in(st, a, b)
        if name in ('Lt', 'LtE', 'Gt', 'GtE'):
            if a[0] == 'r' and b[0] == 'r' and name in ('LtE', 'GtE', 'Lt', 'Gt'):
                oa, ob = st.get(a[1]), st.get(b[1])
                if oa.kind == ob.kind == 'set' and oa.seq is not None and ob.seq is not None:
                    if name[0] == 'G':
                        oa, ob = ob, oa
                    r = self.subset(st, oa, ob)
                    if len(name) == 2 and r is not False:
                        q = self.subset(st, ob, oa)
                        r = self.both3(r, None if q is None else not q)
                    return r
                if oa.kind == ob.kind and oa.kind in ('list', 'tuple') and oa.seq is not None and ob.seq is not None:
                    for v, w in zip(oa.seq, ob.seq):
                        x, y = one(v), one(w)
                        e = self.decide(st, x, 'Eq', y) if x is not None and y is not None else None
                        if e is None:
                            return None
                        if e is False:
                            return self.decide(st, x, name[:2], y)
                    n, m = len(oa.seq), len(ob.seq)
                    return {'Lt': n < m, 'LtE': n <= m, 'Gt': n > m, 'GtE': n >= m}[name]
                return None
            if a[0] == 'c' and b[0] == 'c':
                try:
                    return {'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y}[name](a[2], b[2])
                except TypeError:
                    return None
            r = st.facts.get((name, a, b))
            if r is not None:
                return r
            d = linadd(ex(a), ex(b), -1) if tyof(st, a) in ('int', 'bool') and tyof(st, b) in ('int', 'bool') else None
            if d is not None and d[0] == 'c':
                return {'Lt': d[2] < 0, 'LtE': d[2] <= 0, 'Gt': d[2] > 0, 'GtE': d[2] >= 0}[name]
            for p, q, n in ((a, b, name), (b, a, {'Gt': 'Lt', 'Lt': 'Gt', 'GtE': 'LtE', 'LtE': 'GtE'}[name])):
                if p[0] == 't' and isinstance(p[2], tuple) and p[2] and p[2][0] in ('len', 'count') and q[0] == 'c' and isinstance(q[2], int):
                    lo = 0
                    if p[2][0] == 'len' and p[2][1][0] == 'r':
                        o = st.get(p[2][1][1])
                        if o is not None and o.ver == p[2][2]:
                            lo = len(o.seq) if o.seq is not None else o.minlen
                    if n == 'GtE' and lo >= q[2] or n == 'Gt' and lo > q[2]:
                        return True
                    if n == 'Lt' and lo >= q[2] or n == 'LtE' and lo > q[2]:
                        return False
        return None

    @staticmethod
    def both3(p, q):
        return False if p is False or q is False else True if p and q else None

    def subset(self, st, oa, ob):
        """every element of one exact set is in the other"""
        out = True
        for v in oa.seq:
            x = one(v)
            ds = [self.decide(st, x, 'Eq', one(w)) if x is not None and one(w) is not None else None for w in ob.seq]
            if any(d is True for d in ds):
                continue
            if all(d is False for d in ds):
                return False
            out = None
        return out

    def decide_in(self, st, a, b):
        if b[0] == 'r':
            o = st.get(b[1])
            if o.kind in SEQ + ('set',):
                k = self.fact_key(st, a, 'In', b)
                r = st.facts.get(k)
                if r is not None:
                    return r
                if o.seq is not None:
                    rs = []
                    for v in o.seq:
                        y = one(v)
                        d = self.decide(st, a, 'Eq', y) if y is not None else None
                        if d is True:
                            return True
                        rs.append(d)
                    if k[0] == 'incs':
                        for f, val in st.facts.items():
                            if f[0] == 'incs' and f[1] == a and val and not set(f[2]) & set(k[2]):
                                return False
                            if f[0] == 'incs' and f[1] == a and val and set(f[2]) <= set(k[2]):
                                return True
                            if f[0] == 'incs' and f[1] == a and not val and set(k[2]) <= set(f[2]):
                                return False
                    return False if all(x is False for x in rs) else None
                if a in o.must and not (a[0] == 'r' and st.get(a[1]).multi):
                    return True
                rs = [self.decide(st, a, 'Eq', y) for y in o.elem]
                if rs and all(x is False for x in rs):
                    return False
                return None
            if o.kind == 'dict':
                e = o.ent.get(a)
                if e is not None and e[1]:
                    return True
                r = st.facts.get(('in', a, b, o.ver))
                if r is not None:
                    return r
                if e is None and o.rest is None:
                    rs = [self.decide(st, a, 'Eq', y) for y in o.ent]
                    if all(x is False for x in rs):
                        return False
                    for y, x in zip(o.ent, rs):
                        if x is True and o.ent[y][1]:
                            return True
                return None
            return None
        r = st.facts.get(('in', a, b))
        if r is not None:
            return r
        ta, tb = tyof(st, a), tyof(st, b)
        if ta == 'str' and tb == 'str':
            r = seg.contains(ex(b), ex(a))
            if r is not None:
                return r
            # one needle contains another one
            if a[0] == 'c':
                for f, val in st.facts.items():
                    if f[0] == 'in' and len(f) == 3 and f[2] == b and f[1][0] == 'c' and isinstance(f[1][2], str):
                        if val and a[2] in f[1][2]:
                            return True
                        if not val and f[1][2] in a[2]:
                            return False
        return None

    def isinstance_split(self, st, v, c, node, refine=None):
        classes = []
        for a in c:
            if a[0] == 'r' and st.get(a[1]).kind in SEQ and st.get(a[1]).seq is not None:
                todo = list(st.get(a[1]).seq)
                while todo:
                    w = todo.pop(0)
                    for b in w:
                        if b[0] == 'r' and st.get(b[1]).kind in SEQ and st.get(b[1]).seq is not None:
                            todo += list(st.get(b[1]).seq)
                        else:
                            classes.append(b)
            else:
                classes.append(a)
        t, f, unk = [], [], []
        for a in order(v):
            r = self.is_instance(st, a, classes)
            (t if r is True else f if r is False else unk).append(a)
        good, bad = [], []
        for a in unk:
            k = ('isinst', a, tuple(order(classes)))
            r = st.facts.get(k)
            if r is not False:
                g = st.copy()
                g.facts[k] = True
                w = self.narrow(g, a, classes, node)
                if refine is not None:
                    self.refine(g, refine, w)
                good.append(g)
            if r is not True:
                b = st.copy()
                b.facts[k] = False
                if refine is not None and len(v) > 1:
                    self.refine(b, refine, frozenset([a]))
                bad.append(b)
        if t:
            g = st.copy() if (f or unk) else st
            if refine is not None and len(t) < len(v):
                self.refine(g, refine, frozenset(t))
            good.append(g)
        if f:
            b = st.copy() if (t or unk) else st
            if refine is not None and len(f) < len(v):
                self.refine(b, refine, frozenset(f))
            bad.append(b)
        return good, bad

    def narrow(self, st, a, classes, node):
        names = [c[1].split('.')[-1] for c in classes if c[0] == 'x']
        if a[0] == 't' and len(names) == len(classes) == 1 and a[1] == 'any':
            n = names[0]
            if n in ('str', 'int', 'bool'):
                return frozenset([T(n, a[2])])
            if n in ('dict', 'list', 'tuple', 'set'):
                if n == 'dict':
                    return self.new(st, 'dict', node, 'narrow', rest=(term('any', 'key', a[2]), term('any', 'el', a[2])), pre=True)
                return self.new(st, n, node, 'narrow', elem=term('any', 'el', a[2]), pre=True)
        return frozenset([a])

    def is_instance(self, st, a, classes):
        res = False
        for c in classes:
            r = self.is_inst1(st, a, c)
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def is_inst1(self, st, a, c):
        if c[0] == 'x':
            n = c[1].split('.')[-1]
            if n == 'object':
                return True
            ty = tyof(st, a)
            if a[0] == 'r':
                o = st.get(a[1])
                if o.kind == 'inst':
                    if any(m == c for m in self.mro(o.cls, st)):
                        return True
                    if n in ('Iterable', 'Sequence', 'Collection', 'Sized', 'Container', 'MutableSequence'):
                        return self.find_attr(st, o.cls, '__iter__') is not None
                    return False
                if n in ('Iterable', 'Collection', 'Sized', 'Container'):
                    return o.kind in DATA or (n == 'Iterable' and o.kind == 'iter')
                if n in ('Sequence',):
                    return o.kind in SEQ
                if n in ('Mapping', 'MutableMapping', 'OrderedDict'):
                    return o.kind == 'dict'
                if n in ('Set', 'AbstractSet', 'MutableSet', 'frozenset'):
                    return o.kind == 'set'
                if n == 'MutableSequence':
                    return o.kind == 'list'
                if n == 'type':
                    return o.kind == 'class'
                if n == 'property':
                    return o.kind == 'prop'
                if n == 'Callable':
                    return o.kind in ('func', 'cached', 'class')
                if n in ('Iterator', 'Generator'):
                    return o.kind == 'iter'
                return o.kind == n
            if ty is None:
                return None
            if n == 'int' and ty == 'bool':
                return True
            if n in ('Iterable', 'Collection', 'Sequence', 'Sized', 'Container'):
                return ty in ('str', 'bytes', 'tuple')
            if n in ('Number', 'Integral', 'Real'):
                return ty in ('int', 'float', 'bool')
            if n == 'Pattern' or n == 'Match':
                return ty == n
            if n == 'Hashable':
                return True
            return ty == n
        if c[0] == 'r':
            o = st.get(c[1])
            if o.kind != 'class':
                return None
            if a[0] == 'r':
                p = st.get(a[1])
                if p.kind != 'inst':
                    return False
                return any(m == c for m in self.mro(p.cls, st))
            if a[0] == 't' and a[1] == 'any':
                if a[2] and a[2][0] == 'item':
                    return self.item_isinst(st, a, c)
                return None
            if a[0] == 'top':
                return None
            return False
        return None

    def item_isinst(self, st, a, c):
        return None

    # ------------------------------------------------------------ arithmetic

    def cat(self, a, b):
        """concatenation of two string values"""
        out = set()
        for x in a:
            for y in b:
                ex_, ey = ex(x), ex(y)
                px, py = parts(ex_), parts(ey)
                if px is None or py is None:
                    out.add(T('str', norm(('cat', ex_, ey))))
                else:
                    out.add(mkcat(px + py))
        if len(out) > 24:
            return widen(frozenset(), frozenset(out), True)
        return frozenset(out)

    def binop(self, st, l, op, r, node):
        name = type(op).__name__
        out = []
        res = frozenset()
        for a in order(l):
            for b in order(r):
                x = st
                v = self.binop1(x, a, name, b, node)
                if v is None:
                    continue
                if isinstance(v, list):
                    out += v
                else:
                    res |= v
        if res:
            out.append((st, res))
        return out

    def binop1(self, st, a, name, b, node):
        if a[0] == 'c' and b[0] == 'c':
            fn = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y, 'Mod': lambda x, y: x % y, 'FloorDiv': lambda x, y: x // y,
                  'Div': lambda x, y: x / y, 'BitOr': lambda x, y: x | y, 'BitAnd': lambda x, y: x & y, 'BitXor': lambda x, y: x ^ y,
                  'Pow': lambda x, y: x ** y if abs(y) < 64 else 0, 'LShift': lambda x, y: x << min(y, 64), 'RShift': lambda x, y: x >> y}.get(name)
            try:
                return const(fn(a[2], b[2])) if fn else TOP
            except Exception as e:   # noqa
                self.raise_(st.copy(), type(e).__name__, node, str(e))
                return None
        ta, tb = tyof(st, a), tyof(st, b)
        for p, q in ((a, b), (b, a)):
            if p == C(None) and name != 'Mod':
                self.raise_(st.copy(), 'TypeError', node, 'operand is None')
                return None
        if name == 'Add':
            if ta == 'str' and tb == 'str':
                return self.cat(frozenset([a]), frozenset([b]))
            if {ta, tb} == {'str', None}:
                return self.cat(frozenset([a]), frozenset([b]))
            if ta in ('int', 'bool') and tb in ('int', 'bool'):
                r = linadd(ex(a), ex(b))
                return frozenset([r]) if r else term('int', 'add', ex(a), ex(b))
            if a[0] == 'r' and b[0] == 'r':
                oa, ob = st.get(a[1]), st.get(b[1])
                if oa.kind in SEQ and ob.kind == oa.kind:
                    v = self.concat(st, oa, ob, node)
                    return v
                if oa.kind == 'inst':
                    f = self.find_attr(st, oa.cls, '__add__')
                    if f is not None:
                        return self.call(st.copy(), self.bind(st, f, a), [frozenset([b])], {}, node)
                if ob.kind == 'inst':
                    f = self.find_attr(st, ob.cls, '__radd__')
                    if f is not None:
                        return self.call(st.copy(), self.bind(st, f, b), [frozenset([a])], {}, node)
                self.raise_(st.copy(), 'TypeError', node, 'cannot add %s and %s' % (oa.kind, ob.kind))
                return None
            if a[0] == 'r' and st.get(a[1]).kind in SEQ and b[0] == 't' and b[1] == 'any':
                o = st.get(a[1])
                return self.new(st, o.kind, node, 'add', elem=o.contents() | term('any', 'el', ex(b)), minlen=o.minlen, unord=o.unord)
            if ta is not None and tb is not None and 'inst' not in (ta, tb):
                self.raise_(st.copy(), 'TypeError', node, 'cannot add %s and %s' % (ta, tb))
                return None
            return term('any', 'add', ex(a), ex(b))
        if name == 'Sub':
            if ta in ('int', 'bool') and tb in ('int', 'bool'):
                r = linadd(ex(a), ex(b), -1)
                return frozenset([r]) if r else term('int', 'sub', ex(a), ex(b))
            if a[0] == 'r' and st.get(a[1]).kind in ('set', 'dict'):
                return self.set_op(st, 'difference', a, [frozenset([b])], node)
        if name in ('BitOr', 'BitAnd', 'BitXor'):
            if a[0] == 'r' and st.get(a[1]).kind == 'set':
                return self.set_op(st, {'BitOr': 'union', 'BitAnd': 'intersection', 'BitXor': 'symmetric_difference'}[name], a, [frozenset([b])], node)
            if a[0] == 'r' and st.get(a[1]).kind == 'dict' and name == 'BitOr':
                v = self.copy_obj(st, a[1], node)
                return [(y, v) for y, _ in self.dict_update(st, v, frozenset([b]), node)]
            if a[0] == 'r' and st.get(a[1]).kind == 'class' or a[0] == 'x':
                return TOP      # type unions
            if ta == 'bool' and tb == 'bool':
                for p, q in ((a, b), (b, a)):
                    t = self.truth_atom(st, p)
                    if t is not None:
                        if name == 'BitOr':
                            return TRUE if t else frozenset([q])
                        if name == 'BitAnd':
                            return frozenset([q]) if t else FALSE
                return frozenset([T('bool', norm((name.lower(), ex(a), ex(b))))])
            return term('int' if ta == 'int' else 'any', name.lower(), ex(a), ex(b))
        if name == 'Mult':
            if a[0] == 'r' and st.get(a[1]).kind in SEQ or b[0] == 'r' and st.get(b[1]).kind in SEQ:
                p, q = (a, b) if a[0] == 'r' else (b, a)
                o = st.get(p[1])
                if q[0] == 'c' and isinstance(q[2], int) and o.seq is not None and q[2] < 20:
                    return self.new(st, o.kind, node, 'mul', seq=tuple(o.seq) * q[2])
                return self.new(st, o.kind, node, 'mul', elem=o.contents())
            if ta == 'int' and tb == 'int':
                for p, q in ((a, b), (b, a)):
                    if p[0] == 'c':
                        k, d = lin(ex(q))
                        return frozenset([mklin(k * p[2], {z: c * p[2] for z, c in d.items()})])
            ty = 'str' if 'str' in (ta, tb) else 'int'
            return term(ty, 'mul', ex(a), ex(b))
        if name == 'Mod' and ta == 'str':
            return self.percent(st, a, b, node)
        if name == 'Div' and ta != 'int':
            return term('any', 'div', ex(a), ex(b))
        if name in ('FloorDiv', 'Mod', 'Div'):
            if b == C(0):
                self.raise_(st.copy(), 'ZeroDivisionError', node, 'division by zero')
                return None
            if b[0] != 'c':
                self.raise_(st.copy(), 'ZeroDivisionError', node, 'division by zero')
        return term('int' if ta == 'int' and tb == 'int' else 'any', name.lower(), ex(a), ex(b))

    def percent(self, st, a, b, node):
        if a[0] != 'c':
            return term('str', 'percent', ex(a), ex(b))
        fmt = a[2]
        if b[0] == 'r' and st.get(b[1]).kind == 'tuple' and st.get(b[1]).seq is not None:
            args = list(st.get(b[1]).seq)
        elif b[0] == 'r' and st.get(b[1]).kind == 'dict':
            o = st.get(b[1])
            acc = EMPTY
            pos = 0
            for m in re.finditer(r'%\((\w+)\)s|%%', fmt):
                acc = self.cat(acc, const(fmt[pos:m.start()]))
                if m.group(0) == '%%':
                    acc = self.cat(acc, const('%'))
                else:
                    e = o.ent.get(C(m.group(1)))
                    acc = self.cat(acc, self.str_value(st, e[0]) if e else term('str', 'percent', ex(a), ex(b)))
                pos = m.end()
            return self.cat(acc, const(fmt[pos:]))
        else:
            args = [frozenset([b])]
        acc = EMPTY
        pos = 0
        i = 0
        for m in re.finditer(r'%(?:%|[#0 +-]*\d*(?:\.\d+)?([sdr]))', fmt):
            acc = self.cat(acc, const(fmt[pos:m.start()]))
            if m.group(0) == '%%':
                acc = self.cat(acc, const('%'))
            else:
                if i >= len(args):
                    return term('str', 'percent', ex(a), ex(b))
                acc = self.cat(acc, self.str_value(st, args[i]) if m.group(1) != 'r' else self.repr_of(st, args[i], node))
                i += 1
            pos = m.end()
        return self.cat(acc, const(fmt[pos:]))

    def concat(self, st, oa, ob, node):
        if oa.seq is not None and ob.seq is not None:
            return self.new(st, oa.kind, node, 'add', seq=tuple(oa.seq) + tuple(ob.seq), unord=oa.unord or ob.unord)
        from oesa.heap import musts
        la = len(oa.seq) if oa.seq is not None else oa.minlen
        lb = len(ob.seq) if ob.seq is not None else ob.minlen
        return self.new(st, oa.kind, node, 'add', elem=oa.contents() | ob.contents(), minlen=la + lb, must=musts(oa) | musts(ob), unord=oa.unord or ob.unord,
                        x=None)

    def augop(self, st, cur, op, v, node):
        name = type(op).__name__
        out = []
        many = len(cur) > 1
        pure = frozenset()
        for a in order(cur):
            if a[0] == 'r':
                x = st.copy() if many else st
                o = x.get(a[1])
                if o.kind == 'list' and name == 'Add':
                    out += [(y, frozenset([a])) for y, _ in self.m_list(x, a, 'extend', [v], {}, node)]
                    continue
                if o.kind == 'set' and name in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
                    m = {'BitOr': 'update', 'BitAnd': 'intersection_update', 'Sub': 'difference_update', 'BitXor': 'symmetric_difference_update'}[name]
                    out += [(y, frozenset([a])) for y, _ in self.m_set(x, a, m, [v], {}, node)]
                    continue
                if o.kind == 'dict' and name == 'BitOr':
                    out += [(y, frozenset([a])) for y, _ in self.dict_update(x, frozenset([a]), v, node)]
                    continue
                if o.kind == 'inst':
                    f = self.find_attr(x, o.cls, {'Add': '__iadd__', 'BitOr': '__ior__', 'Sub': '__isub__'}.get(name, '__none__'))
                    if f is None:
                        f = self.find_attr(x, o.cls, {'Add': '__add__', 'BitOr': '__or__', 'Sub': '__sub__'}.get(name, '__none__'))
                    if f is not None:
                        out += self.call(x, self.bind(x, f, a), [v], {}, node)
                        continue
                out += self.binop(x, frozenset([a]), op, v, node)
            else:
                pure |= frozenset([a])
        if pure:
            out += self.binop(st, pure, op, v, node)
        return out

    # ------------------------------------------------------------- text forms

    def str_value(self, st, v):
        out = frozenset()
        for a in v:
            if tyof(st, a) == 'str':
                out |= frozenset([a])
            elif a[0] == 'c':
                out |= const(str(a[2]))
            else:
                e = ex(a)
                if a[0] == 'r':
                    t = self.exact_repr(st, a)
                    if t is not None:
                        out |= frozenset([t])
                        continue
                    o = st.get(a[1])
                    u = self.unord_contents(st, a)
                    e = ('repr', a, o.ver)
                    if u:
                        e = ('uel', e)
                out |= frozenset([T('str', norm(('str', e)))])
        return out

    def exact_repr(self, st, a):
        """textual form of a container of constants and of texts of clean tokens"""
        try:
            return seg.dec(repr(self.as_python(st, a)))
        except Inexact:
            return None

    def as_python(self, st, a, depth=0):
        if a[0] == 'c':
            return a[2]
        if a[0] == 't':
            t = seg.enc(a[2]) if a[1] == 'str' else None
            if t is None:
                raise Inexact
            return t
        o = st.obj(a)
        if o is None or depth > 6 or o.unord or o.kind not in ('list', 'tuple', 'set', 'dict'):
            raise Inexact
        if o.kind == 'dict':
            if o.rest or (o.x or {}).get('default') or not all(m for _, m in o.ent.values()):
                raise Inexact
            return {self.as_python(st, k, depth + 1): self.as_python1(st, v, depth + 1) for k, (v, _) in o.ent.items()}
        if o.seq is None or o.kind == 'set' and len(o.seq) > 1:
            raise Inexact
        r = [self.as_python1(st, v, depth + 1) for v in o.seq]
        return r if o.kind == 'list' else set(r) if o.kind == 'set' else tuple(r)

    def as_python1(self, st, v, depth):
        a = one(v)
        if a is None:
            raise Inexact
        return self.as_python(st, a, depth)

    def unord_contents(self, st, a, depth=0):
        """does the textual form depend on hashing"""
        o = st.obj(a)
        if o is None:
            return a[0] == 't' and has_uel(a[2])
        if depth > 3:
            return False
        if o.kind == 'set':
            return not (o.seq is not None and len(o.seq) < 2)
        if o.unord:
            return True
        if o.kind in SEQ:
            return any(self.unord_contents(st, b, depth + 1) for b in o.contents())
        if o.kind == 'dict':
            vals = [v for v, _ in o.ent.values()] + ([o.rest[1]] if o.rest else [])
            return any(self.unord_contents(st, b, depth + 1) for v in vals for b in v)
        if o.kind == 'inst':
            return self.find_attr(st, o.cls, '__repr__') is None and self.find_attr(st, o.cls, '__str__') is None
        return False

    def to_str(self, st, v, node):
        """str(): list of (state, value)"""
        insts = [a for a in v if a[0] == 'r' and st.get(a[1]).kind == 'inst']
        rest = v - frozenset(insts)
        out = []
        for a in order(insts):
            f = self.find_attr(st, st.get(a[1]).cls, '__str__')
            if f is None:
                f = self.find_attr(st, st.get(a[1]).cls, '__repr__')
            if f is not None:
                out += self.call(st.copy(), self.bind(st, f, a), [], {}, node)
            else:
                out.append((st.copy(), term('str', 'uel', ('repr', a, 0))))
        if rest:
            out.append((st, self.str_value(st, rest)))
        if len(out) > 3:
            out = self.merge_results(out, self.region, lim=2)
        return out

    def repr_of(self, st, v, node):
        out = frozenset()
        for a in v:
            if a[0] == 'c':
                out |= const(repr(a[2]))
            else:
                t = self.exact_repr(st, a)
                if t is not None:
                    out |= frozenset([t])
                    continue
                e = ex(a)
                if a[0] == 'r':
                    e = ('repr', a, st.get(a[1]).ver)
                    if self.unord_contents(st, a):
                        e = ('uel', e)
                out |= frozenset([T('str', norm(('reprof', e)))])
        return out

    def unord_value(self, st, v):
        """value chosen by a loop in arbitrary order"""
        return v

    def unord_assign(self, st, name, v):
        return v

    # -------------------------------------------------------------- dictionaries

    def dict_has(self, st, oid, key):
        """the key is known to be present now; give it its own entry"""
        o = st.get(oid)
        e = o.ent.get(key)
        if e is not None and e[1]:
            return e[0]
        v = e[0] if e is not None else frozenset()
        if e is None:
            for k, (w, m) in o.ent.items():
                if self.decide(st, key, 'Eq', k) is not False:
                    v |= w
        if o.rest and e is None:
            v |= o.rest[1]
        v = self.focus(st, v)
        ver = o.ver
        w = st.w(oid)
        if not w.multi:
            w.ent[key] = (v, True)
        w.ver = ver
        return v

    def focus(self, st, v):
        """give a summarised container its own identity"""
        a = one(v)
        if a is not None and a[0] == 'r':
            o = st.get(a[1])
            if o.multi and o.kind in ('list', 'set', 'dict') and not o.x:
                n = o.copy()
                n.multi = False
                n.x = {'focus': a[1]}
                oid = self.next_oid
                self.next_oid += 1
                st.heap[oid] = n
                return ref(oid)
        return v

    def get_item(self, st, c, k, node):
        out = []
        many = len(c) > 1
        for a in order(c):
            x = st.copy() if many else st
            out += self.item1(x, a, k, node)
        return self.pure_union(st, out) if many else out

    def pure_union(self, st, out):
        pure = frozenset()
        rest = []
        for y, w in out:
            if self.unchanged(st, y) and y.facts == st.facts:
                pure |= w
            else:
                rest.append((y, w))
        if pure:
            rest.append((st, pure))
        return rest

    def item1(self, st, a, k, node):
        ka = one(k)
        if a[0] == 'r':
            o = st.get(a[1])
            if o.kind == 'dict':
                return self.dict_get(st, a, k, node)
            if o.kind in SEQ:
                if ka is not None and ka[0] == 'r' and st.get(ka[1]).x == {'slice': True}:
                    lo, hi, step = st.get(ka[1]).seq
                    return self.get_slice(st, frozenset([a]), lo, hi, step, node)
                if ka is not None and ka[0] == 'c' and isinstance(ka[2], int):
                    i = ka[2]
                    if o.seq is not None:
                        if -len(o.seq) <= i < len(o.seq):
                            return [(st, o.seq[i])]
                        self.raise_(st, 'IndexError', node, 'index %d of %d values' % (i, len(o.seq)))
                        return []
                    if not o.elem:
                        self.raise_(st, 'IndexError', node, 'empty list')
                        return []
                    need = i + 1 if i >= 0 else -i
                    if o.minlen < need:
                        b = st.copy()
                        self.raise_(b, 'IndexError', node, 'list may have less than %d elements' % need)
                        if not o.multi:
                            ver = o.ver
                            w = st.w(a[1])
                            w.minlen = need
                            w.ver = ver
                    if o.unord:
                        return [(st, frozenset(uel(z) for z in o.elem))]
                    return [(st, o.elem)]
                self.raise_(st.copy(), 'IndexError', node, 'index may be out of range')
                v = o.contents()
                return [(st, v)] if v else []
            if o.kind == 'inst':
                f = self.find_attr(st, o.cls, '__getitem__')
                if f is not None:
                    return self.call(st, self.bind(st, f, a), [k], {}, node)
                self.raise_(st, 'TypeError', node, '%s is not subscriptable' % self.clsname(st, o.cls))
                return []
            if o.kind == 'class':
                return [(st, frozenset([a]))]
            self.raise_(st, 'TypeError', node, '%s is not subscriptable' % o.kind)
            return []
        if a[0] == 'x':
            if a[1] == 'sys.modules' and ka is not None and ka[0] == 'c' and ka[2] in self.module_oid:
                return [(st, ref(self.module_oid[ka[2]]))]
            if a[1].startswith(('typing.', 'builtins.', 'collections.abc.')):
                return [(st, frozenset([a]))]
            if a[1] == 'os.environ':
                self.raise_(st.copy(), 'KeyError', node, 'environment variable may be missing')
                return [(st, term('str', 'env', exv(k)))]
            return [(st, term('any', 'item', a, exv(k)))]
        if a[0] == 'c':
            if a[2] is None:
                self.raise_(st, 'TypeError', node, 'None is not subscriptable')
                return []
            if ka is not None and ka[0] == 'c':
                try:
                    return [(st, const(a[2][ka[2]]))]
                except Exception as e:   # noqa
                    self.raise_(st, type(e).__name__, node, str(e))
                    return []
            self.raise_(st.copy(), 'IndexError', node, 'index may be out of range')
            return [(st, term('str', 'idx', ex(a), exv(k)))]
        if a[0] == 'm':
            return self.m_match(st, a, 'group', [k], {}, node)
        if a[0] == 't':
            if a[1] == 'str':
                s = seg.enc(a[2])
                if s is not None and ka is not None and ka[0] == 'c' and isinstance(ka[2], int):
                    try:
                        return [(st, frozenset([seg.dec(s[ka[2]])]))]
                    except IndexError:
                        self.raise_(st, 'IndexError', node, 'string index out of range')
                        return []
                if self.truth_atom(st, a) is not True or not (ka is not None and ka[0] == 'c' and ka[2] in (0, -1)):
                    self.raise_(st.copy(), 'IndexError', node, 'string index may be out of range')
                return [(st, term('str', 'idx', a[2], exv(k)))]
            return [(st, term('any', 'item', a[2], exv(k)))]
        return [(st, term('any', 'item', a, exv(k)))]

    def dict_get(self, st, a, k, node, default=None):
        """default None: KeyError when missing"""
        o = st.get(a[1])
        fac = (o.x or {}).get('factory') if isinstance(o.x, dict) else None
        out = []
        for ka in order(k):
            x = st.copy() if len(k) > 1 else st
            g, b = self.cmp1(x, ka, 'In', a, node, None, None)
            for y in g:
                yo = y.get(a[1])
                e = yo.ent.get(ka)
                if e is not None:
                    v = e[0]
                else:
                    v = frozenset()
                    for k2, (w, m) in yo.ent.items():
                        if self.decide(y, ka, 'Eq', k2) is not False:
                            v |= w
                    if yo.rest:
                        v |= yo.rest[1]
                if not v:
                    v = TOP
                out.append((y, v))
            for y in b:
                if default is not None:
                    out.append((y, default))
                elif fac is not None:
                    for z, v in self.call(y, fac, [], {}, node):
                        for q in self.set_item(z, frozenset([a]), frozenset([ka]), v, node):
                            out.append((q, v))
                else:
                    self.raise_(y, 'KeyError', node, 'key %s may be missing' % show(ex(ka)))
        return out

    def set_item(self, st, c, k, v, node, init=False):
        out = []
        many = len(c) > 1
        for a in order(c):
            x = st.copy() if many else st
            if a[0] != 'r':
                if a[0] == 'x':
                    self.emit('extwrite', x, target=a[1] + '[]', node=node)
                elif a[0] == 'c':
                    self.raise_(x, 'TypeError', node, '%s does not support item assignment' % a[1])
                    continue
                out.append(x)
                continue
            o = x.get(a[1])
            if o.kind == 'inst':
                f = self.find_attr(x, o.cls, '__setitem__')
                if f is not None:
                    out += [y for y, _ in self.call(x, self.bind(x, f, a), [k, v], {}, node)]
                else:
                    self.raise_(x, 'TypeError', node, 'item assignment')
                continue
            if o.kind in ('tuple', 'set'):
                self.raise_(x, 'TypeError', node, '%s does not support item assignment' % o.kind)
                continue
            if o.kind == 'dict':
                if not init:
                    self.write(x, a[1], 'setitem', k, node, v)
                w = x.w(a[1])
                if self.depth_uord and a[1] < self.uord_mark:
                    if not all(z in w.ent for z in k):
                        w.unord = True
                ka = one(k)
                if ka is not None and not w.multi:
                    if ka not in w.ent:
                        # entries that may be the same key
                        for k2 in list(w.ent):
                            if self.decide(x, ka, 'Eq', k2) is not False:
                                w.ent[k2] = (w.ent[k2][0] | v, w.ent[k2][1])
                    w.ent[ka] = (v, True)
                    if isinstance(w.x, dict) and 'of' in w.x:
                        io = x.w(w.x['of'])
                        if ka[0] == 'c':
                            io.d[ka[2]] = v
                else:
                    ks, vs = w.rest or (frozenset(), frozenset())
                    w.rest = (ks | k, vs | v)
                    for k2, (w2, m) in list(w.ent.items()):
                        if any(self.decide(x, z, 'Eq', k2) is not False for z in k):
                            w.ent[k2] = (w2 | v, m)
                out.append(x)
                continue
            if o.kind == 'list':
                self.write(x, a[1], 'setitem', k, node, v)
                ka = one(k)
                if ka is not None and ka[0] == 'r' and x.get(ka[1]).x == {'slice': True}:
                    lo, hi, step = x.get(ka[1]).seq
                    w = x.w(a[1])
                    va = one(v)
                    sq = self.sequence_of(x, va, node)[0] if va else (x, None, TOP, 0)
                    full = cval(lo, 0) in (None, 0) and is_const(hi) and cval(hi) is None
                    w = x.w(a[1])
                    if full and sq[1] is not None:
                        w.seq = tuple(sq[1])
                    elif full:
                        w.seq = None
                        w.elem = sq[2]
                        w.minlen = max(0, sq[3])
                    elif w.seq is not None and sq[1] is not None and all(is_const(z) for z in (lo, hi, step)):
                        l_ = list(w.seq)
                        try:
                            l_[slice(cval(lo), cval(hi), cval(step))] = list(sq[1])
                        except ValueError:
                            pass
                        w.seq = tuple(l_)
                    else:
                        el = sq[2] if sq[2] is not None else frozenset()
                        if sq[1] is not None:
                            for z in sq[1]:
                                el |= z
                        w.elem = w.contents() | el
                        w.seq = None
                        w.minlen = 0
                    ov = x.obj(va) if va else None
                    if ov is not None and (ov.unord or ov.kind == 'set'):
                        w.unord = True
                    out.append(x)
                    continue
                if o.seq is not None and ka is not None and ka[0] == 'c' and isinstance(ka[2], int) and not o.multi:
                    i = ka[2]
                    if not -len(o.seq) <= i < len(o.seq):
                        self.raise_(x, 'IndexError', node, 'assignment index out of range')
                        continue
                    w = x.w(a[1])
                    l_ = list(w.seq)
                    l_[i] = v
                    w.seq = tuple(l_)
                else:
                    self.raise_(x.copy(), 'IndexError', node, 'assignment index may be out of range')
                    w = x.w(a[1])
                    w.minlen = len(w.seq) if w.seq is not None else w.minlen
                    w.elem = w.contents() | v
                    w.seq = None
                    w.must = frozenset()
                out.append(x)
                continue
            out.append(x)
        return out

    def del_item(self, st, c, k, node):
        out = []
        for a in order(c):
            x = st.copy() if len(c) > 1 else st
            o = x.obj(a)
            if o is None:
                out.append(x)
                continue
            if o.kind == 'inst':
                f = self.find_attr(x, o.cls, '__delitem__')
                if f is not None:
                    out += [y for y, _ in self.call(x, self.bind(x, f, a), [k], {}, node)]
                continue
            if o.kind == 'dict':
                for y, _ in self.dict_get(x, a, k, node):
                    self.write(y, a[1], 'delitem', k, node)
                    self.dict_del(y, a[1], k)
                    out.append(y)
                continue
            if o.kind == 'list':
                out += [y for y, _ in self.m_list(x, a, 'pop', [k], {}, node)]
                continue
            self.raise_(x, 'TypeError', node, 'cannot delete items')
        return out

    def dict_del(self, st, oid, k):
        w = st.w(oid)
        ka = one(k)
        if ka is not None and ka in w.ent and not w.multi:
            w.ent.pop(ka)
            if w.rest is None:
                return
            st.facts[('in', ka, ('r', oid), w.ver)] = False
        else:
            for k2 in list(w.ent):
                if any(self.decide(st, z, 'Eq', k2) is not False for z in k):
                    w.ent[k2] = (w.ent[k2][0], False)

    def dict_update(self, st, d, v, node):
        """[(state, d)]"""
        da = one(d)
        out = []
        for a in order(v):
            x = st.copy() if len(v) > 1 else st
            o = x.obj(a)
            w = x.w(da[1])
            if o is not None and o.kind == 'dict':
                ents = list(o.ent.items())
                if o.rest:
                    w.rest = (w.rest[0] | o.rest[0], w.rest[1] | o.rest[1]) if w.rest else o.rest
                    for k2, (w2, m) in list(w.ent.items()):
                        if k2 not in o.ent:
                            w.ent[k2] = (w2 | o.rest[1], m)
                for k, (val, m) in ents:
                    if m:
                        w.ent[k] = (val, True)
                    else:
                        old = w.ent.get(k)
                        w.ent[k] = (old[0] | val, old[1]) if old else (val, False)
                w.unord = w.unord or o.unord
            elif a[0] == 'c' and a[2] is None:
                self.raise_(x, 'TypeError', node, 'None is not a mapping')
                continue
            elif o is not None and o.kind in SEQ + ('set', 'iter'):
                for y, s, el, ml in self.sequence_of(x, a, node):
                    if s is not None:
                        for p in s:
                            pa = one(p)
                            po = y.obj(pa) if pa else None
                            if po is not None and po.seq is not None and len(po.seq) == 2:
                                self.set_item(y, d, po.seq[0], po.seq[1], node, init=True)
                    else:
                        ks, vs = self.pair_parts(y, el)
                        w = y.w(da[1])
                        w.rest = (w.rest[0] | ks, w.rest[1] | vs) if w.rest else (ks, vs)
                    out.append((y, d))
                continue
            else:
                e = ex(a)
                ks, vs = term('any', 'key', e), term('any', 'el', e)
                if isinstance(e, tuple) and e and e[0] in ('constants',):
                    ks, vs = term('str', 'key', e), term('str', 'el', e)
                w.rest = (w.rest[0] | ks, w.rest[1] | vs) if w.rest else (ks, vs)
                for k2, (w2, m) in list(w.ent.items()):
                    w.ent[k2] = (w2 | vs, m)
            out.append((x, d))
        return out

    def pair_parts(self, st, el):
        ks, vs = frozenset(), frozenset()
        for p in el or TOP:
            po = st.obj(p)
            if po is not None and po.seq is not None and len(po.seq) == 2:
                ks |= po.seq[0]
                vs |= po.seq[1]
            else:
                ks |= TOP
                vs |= TOP
        return ks, vs

    def get_slice(self, st, c, lo, hi, step, node):
        out = []
        for a in order(c):
            x = st.copy() if len(c) > 1 else st
            cs = all(is_const(z) for z in (lo, hi, step))
            if a[0] == 'r':
                o = x.get(a[1])
                if o.kind in SEQ:
                    if o.seq is not None and cs:
                        out.append((x, self.new(x, o.kind, node, 'slice', seq=tuple(o.seq[cval(lo):cval(hi):cval(step)]), unord=o.unord)))
                    elif cs and cval(lo) in (None, 0) and cval(hi) is None and cval(step) is None:
                        out.append((x, self.copy_obj(x, a[1], node)))
                    else:
                        ml = 0
                        if cs and cval(hi) is None and isinstance(cval(lo), int) and cval(lo) >= 0 and cval(step) is None:
                            ml = max(0, (len(o.seq) if o.seq is not None else o.minlen) - cval(lo))
                        out.append((x, self.new(x, o.kind, node, 'slice', elem=o.contents(), minlen=ml, unord=o.unord)))
                    continue
                if o.kind == 'inst':
                    f = self.find_attr(x, o.cls, '__getitem__')
                    if f is not None:
                        s = self.new(x, 'tuple', node, 'slice', seq=(lo, hi, step), x={'slice': True})
                        out += self.call(x, self.bind(x, f, a), [s], {}, node)
                        continue
                self.raise_(x, 'TypeError', node, '%s cannot be sliced' % o.kind)
                continue
            if a[0] == 'c' and a[2] is None:
                self.raise_(x, 'TypeError', node, 'None is not subscriptable')
                continue
            if a[0] in ('c', 't') and tyof(x, a) == 'str':
                s = seg.enc(ex(a))
                if s is not None and cs:
                    out.append((x, frozenset([seg.dec(s[cval(lo):cval(hi):cval(step)])])))
                elif cs and cval(lo) in (None, 0) and cval(hi) is None and cval(step) is None:
                    out.append((x, frozenset([a])))
                else:
                    e = ex(a)
                    out.append((x, frozenset([T('str', norm(('slice', e, exv(lo), exv(hi), exv(step))))])))
                continue
            out.append((x, term('any', 'slice', ex(a), exv(lo), exv(hi), exv(step))))
        return self.pure_union(st, out) if len(c) > 1 else out

    def copy_obj(self, st, oid, node, kind=None):
        o = st.get(oid).copy()
        if kind:
            o.kind = kind
        n = self.next_oid
        self.next_oid += 1
        o.site = self.site(node, 'copy')
        o.multi = False
        o.pre = False
        o.x = o.x if isinstance(o.x, dict) and 'factory' in o.x else None
        o.bump()
        st.heap[n] = o
        return ref(n)

    def make_set(self, st, vs, node):
        v = self.from_parts(st, vs, node, 'set')
        w = st.w(one(v)[1])
        w.unord = False
        if w.seq is not None:
            seen = []
            for z in w.seq:
                z = ordered(z)
                if z not in seen or not one(z):
                    seen.append(z)
            w.seq = tuple(seen)
        else:
            w.elem = ordered(w.elem)
        return v

    # ------------------------------------------------------------- context managers

    def enter(self, st, cm, node):
        out = []
        for a in order(cm):
            x = st.copy() if len(cm) > 1 else st
            o = x.obj(a)
            if o is not None and o.kind == 'inst':
                f = self.find_attr(x, o.cls, '__enter__')
                if f is not None:
                    out += self.call(x, self.bind(x, f, a), [], {}, node)
                    continue
            if o is not None and o.kind == 'file':
                out.append((x, frozenset([a])))
                continue
            if o is not None and o.kind == 'cm':
                out.append((x, o.d.get('value', NONE)))
                continue
            if a[0] == 'c':
                self.raise_(x, 'TypeError', node, 'not a context manager')
                continue
            out.append((x, term('any', 'enter', ex(a))))
        return out

    def leave_cm(self, st, cm, node):
        for a in cm:
            o = st.obj(a)
            if o is None:
                continue
            if o.kind == 'file':
                self.close_file(st, a[1])
            elif o.kind == 'cm' and 'close' in o.d:
                for b in o.d['close']:
                    p = st.obj(b)
                    if p is not None and p.kind == 'file':
                        self.close_file(st, b[1])
            elif o.kind == 'inst':
                f = self.find_attr(st, o.cls, '__exit__')
                if f is not None:
                    self.call(st, self.bind(st, f, a), [NONE, NONE, NONE], {}, node)

    def suppressed(self, st, cm):
        for a in cm:
            o = st.obj(a)
            if o is not None and o.kind == 'cm' and o.x and o.x.get('suppress'):
                return set(o.x['suppress'])
        return None

    # ------------------------------------------------------------- methods

    def call_method(self, st, recv, name, args, kw, node, star=None, kwrest=None):
        t = recv[0]
        if t == 'r':
            o = st.get(recv[1])
            self.emit('method', st, recv=recv, name=name, args=args, kw=kw, node=node)
            f = {'list': self.m_list, 'tuple': self.m_list, 'set': self.m_set, 'dict': self.m_dict, 'iter': self.m_iter, 'file': self.m_file,
                 'inst': self.m_inst, 'hash': self.m_hash, 'prop': self.m_prop, 'cached': self.m_cached, 'class': self.m_class}.get(o.kind)
            if f is not None:
                if star is not None:
                    args = list(args) + [star]
                return f(st, recv, name, args, kw, node)
            return [(st, TOP)]
        if t == 'm':
            return self.m_match(st, recv, name, args, kw, node)
        if t == 'p':
            return self.m_pattern(st, recv, name, args, kw, node)
        if t in ('c', 't') and (tyof(st, recv) == 'str' or (t == 't' and recv[1] == 'any' and hasattr(str, name) and not hasattr(list, name))):
            return self.m_str(st, recv, name, args, kw, node)
        if t == 't' and recv[1] == 'any':
            return self.m_any(st, recv, name, args, kw, node)
        self.emit('method', st, recv=recv, name=name, args=args, kw=kw, node=node)
        return [(st, frozenset([T('any', norm(('meth', name, ex(recv)) + tuple(exv(v) for v in args)))]))]

    def m_any(self, st, recv, name, args, kw, node):
        self.emit('method', st, recv=recv, name=name, args=args, kw=kw, node=node)
        e = recv[2]
        if name in ('keys', 'values', 'items') and not args:
            k, v = term('any', 'key', e), term('any', 'el', e)
            if name == 'items':
                el = self.new(st, 'tuple', node, 'pair', seq=(k, v))
            else:
                el = k if name == 'keys' else v
            return [(st, self.new(st, 'list', node, 'view', elem=el))]
        if name == 'get' and args:
            return [(st, term('any', 'item', e, exv(args[0])) | (args[1] if len(args) > 1 else NONE))]
        return [(st, frozenset([T('any', norm(('meth', name, e) + tuple(exv(v) for v in args)))]))]

    def m_class(self, st, recv, name, args, kw, node):
        if name == '__subclasses__':
            subs = [ref(c) for c in sorted(self.class_oid.values()) if any(one(b) == recv for b in st.get(c).seq)]
            return [(st, self.newlist(st, subs, node))]
        if name == 'mro':
            return [(st, self.newlist(st, [frozenset([c]) for c in self.mro(recv[1], st)], node))]
        return [(st, TOP)]

    def m_cached(self, st, recv, name, args, kw, node):
        if name == 'cache_clear':
            self.emit('cache_clear', st, oid=recv[1], node=node)
            if st.get(recv[1]).ent:
                st.w(recv[1]).ent = {}
            return [(st, NONE)]
        return [(st, TOP)]

    def m_prop(self, st, recv, name, args, kw, node):
        n = {'setter': 'fset', 'getter': 'fget', 'deleter': 'fdel'}.get(name)
        if n:
            o = st.get(recv[1])
            d = dict(o.d)
            d[n] = args[0]
            oid = self.alloc(st, 'prop', node, 'prop', d=d)
            return [(st, ref(oid))]
        return [(st, TOP)]

    def m_inst(self, st, recv, name, args, kw, node):
        o = st.get(recv[1])
        if name == '__dir__':
            names = []
            for n in o.d:
                if not n.startswith('$') and n not in names:
                    names.append(n)
            for c in self.mro(o.cls, st):
                if c[0] == 'r':
                    for n in st.get(c[1]).d:
                        if not n.startswith('$') and n not in names:
                            names.append(n)
            names += ['__class__', '__repr__'] if '__repr__' not in names else ['__class__']
            return [(st, self.newlist(st, [const(n) for n in names], node))]
        if name == '__setattr__' and len(args) == 2 and is_const(args[0]):
            return [(y, NONE) for y in self.set_attr(st, frozenset([recv]), cval(args[0]), args[1], node)]
        if name == '__init__':
            return [(st, NONE)]
        if name in ('__repr__', '__str__'):
            return self.to_str(st, frozenset([recv]), node) if self.find_attr(st, o.cls, '__repr__') is not None else [(st, term('str', 'uel', ('repr', recv, 0)))]
        if name == '__eq__':
            return [(st, term('bool', 'eq', recv, exv(args[0]) if args else ()))]
        if name == '__hash__':
            return [(st, term('int', 'uel', ('hash', recv)))]
        return [(st, TOP)]

    # -- strings -----------------------------------------------------------

    def m_str(self, st, recv, name, args, kw, node):
        # several possible arguments: one after the other
        for i, v in enumerate(args):
            if len(v) > 1 and len(v) <= 6 and name != 'join' and name != 'format':
                out = []
                for a in order(v):
                    out += self.m_str(st.copy(), recv, name, args[:i] + [frozenset([a])] + args[i + 1:], kw, node)
                return self.pure_union(st, out)
        self.emit('strmeth', st, recv=recv, name=name, args=args, node=node)
        e = ex(recv)
        for v in args:
            if v == NONE and name in ('startswith', 'endswith', 'replace', 'join', 'find', 'count', 'index', 'removeprefix', 'removesuffix', 'partition', 'rpartition'):
                self.raise_(st, 'TypeError', node, '%s() of None' % name)
                return []
        if name == 'join':
            return self.str_join(st, recv, args, node)
        if name in ('format', 'format_map'):
            return self.str_format(st, recv, args, kw, node)
        if kw:
            order = {'split': ['sep', 'maxsplit'], 'rsplit': ['sep', 'maxsplit'], 'splitlines': ['keepends'], 'replace': ['old', 'new', 'count'],
                     'encode': ['encoding', 'errors'], 'expandtabs': ['tabsize']}.get(name)
            if order:
                args = list(args)
                for n in order[len(args):]:
                    if n in kw:
                        args.append(kw[n])
                    elif any(m in kw for m in order[order.index(n) + 1:]):
                        args.append(const({'sep': None, 'maxsplit': -1, 'keepends': False, 'count': -1, 'encoding': 'utf-8'}.get(n)))
        cargs = []
        ok = True
        for v in args:
            a = one(v)
            if a is not None and a[0] == 'c':
                cargs.append(a[2])
            elif a is not None and a[0] == 't' and a[1] == 'str' and seg.enc(a[2]) is not None:
                cargs.append(seg.enc(a[2]))
            elif a is not None and a[0] == 'r' and st.get(a[1]).kind == 'tuple' and st.get(a[1]).seq is not None and all(is_const(z) for z in st.get(a[1]).seq):
                cargs.append(tuple(cval(z) for z in st.get(a[1]).seq))
            else:
                ok = False
        if ok:
            s = seg.enc(e)
            if s is None:
                s = seg.enc_weak(e, name, cargs)
            if s is not None and not (name == 'encode' and seg.has_tok(e)):
                try:
                    r = getattr(s, name)(*cargs)
                except (TypeError, ValueError, LookupError) as x:
                    self.raise_(st, type(x).__name__, node, str(x))
                    return []
                return [(st, self.lift(st, r, node))]
            r = seg.partial(e, name, cargs)
            if r is not None:
                return [(st, frozenset([r]))]
        ae = tuple(exv(v) for v in args)
        te = norm(('meth', name, e) + ae)
        if name in STR_STR:
            if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace') and te[0] == 'meth':
                # idempotent: do not grow
                if isinstance(e, tuple) and e[:2] == ('meth', name) and tuple(e[3:]) == ae and name != 'replace':
                    return [(st, frozenset([recv]))]
            return [(st, frozenset([T('str', te)]))]
        if name in STR_BOOL:
            # tuple of suffixes
            a = one(args[0]) if args else None
            if a is not None and a[0] == 'r' and st.get(a[1]).seq is not None and name in ('startswith', 'endswith'):
                cs = tuple(exv(z) for z in st.get(a[1]).seq)
                te = ('meth', name, e) + ((('tuple',) + cs),)
                if len(cs) == 1:
                    te = ('meth', name, e, cs[0])
            return [(st, frozenset([T('bool', te)]))]
        if name in STR_INT:
            if name in ('index', 'rindex'):
                n = one(args[0]) if args else None
                if not (n is not None and st.facts.get(('in', n, recv)) is True):
                    self.raise_(st.copy(), 'ValueError', node, 'substring may be missing')
            return [(st, frozenset([T('int', te)]))]
        if name in STR_LIST:
            minlen = 0
            if name != 'splitlines' and args and args[0] != NONE:
                sep = one(args[0])
                minlen = 1
                if sep == C(''):
                    self.raise_(st, 'ValueError', node, 'empty separator')
                    return []
                if sep is not None and self.decide_in(st, sep, recv) is True:
                    minlen = 2
                if sep is not None and sep[0] != 'c':
                    if self.truth_atom(st, sep) is not True:
                        self.raise_(st.copy(), 'ValueError', node, 'empty separator')
                        st.facts[('t', sep)] = True
            m = cval(args[1]) if len(args) > 1 else None
            return [(st, self.new(st, 'list', node, name, elem=frozenset([T('str', norm(('el', te)))]), minlen=minlen))]
        if name in STR_TUPLE:
            return [(st, self.new(st, 'tuple', node, name, seq=tuple(frozenset([T('str', norm(('part', i, te)))]) for i in range(3))))]
        if name == 'encode':
            return [(st, frozenset([T('bytes', te)]))]
        if name == '__len__':
            return self.x_builtins_len(st, [frozenset([recv])], {}, node)
        return [(st, frozenset([T('any', te)]))]

    def lift(self, st, r, node):
        """python value with tokens to an abstract value"""
        if isinstance(r, str):
            return frozenset([seg.dec(r)])
        if isinstance(r, list):
            return self.new(st, 'list', node, 'lift', seq=tuple(self.lift(st, x, node) for x in r))
        if isinstance(r, tuple):
            return self.new(st, 'tuple', node, 'lift', seq=tuple(self.lift(st, x, node) for x in r))
        if isinstance(r, dict):
            return self.new(st, 'dict', node, 'lift', ent={C(k): (self.lift(st, v, node), True) for k, v in r.items()})
        if isinstance(r, bytes):
            return term('bytes', 'k', 'bytes', r) if r else const(r)
        return const(r)

    def str_join(self, st, recv, args, node):
        out = []
        for a in order(args[0]):
            x0 = st.copy() if len(args[0]) > 1 else st
            o0 = x0.obj(a)
            un = self.in_any_order(o0)
            if a == C(None):
                self.raise_(x0, 'TypeError', node, 'join of None')
                continue
            for x, s, el, ml in self.sequence_of(x0, a, node):
                if s is not None and not un:
                    acc = EMPTY
                    bad = False
                    for i, v in enumerate(s):
                        if NONE <= v:
                            self.raise_(x.copy(), 'TypeError', node, 'join of a list with None')
                            v = v - NONE
                            if not v:
                                bad = True
                                break
                        if i:
                            acc = self.cat(acc, frozenset([recv]))
                        acc = self.cat(acc, v)
                    if not bad:
                        out.append((x, acc))
                    continue
                lst = el if el is not None else frozenset().union(*s) if s else frozenset()
                if C(None) in lst:
                    self.raise_(x.copy(), 'TypeError', node, 'join of a list with None')
                e = ('join', ex(recv), frozenset(ex(b) for b in lst))
                if a[0] == 'r':
                    e = ('join', ex(recv), ('r', a[1], x.get(a[1]).ver if x.get(a[1]) else 0), frozenset(ex(b) for b in lst))
                if un:
                    e = ('uel', e)
                out.append((x, frozenset([T('str', norm(e))])))
        return out

    def str_format(self, st, recv, args, kw, node):
        if recv[0] != 'c':
            self.raise_(st.copy(), 'KeyError', node, 'format of an unknown text')
            return [(st, frozenset([T('str', norm(('meth', 'format', ex(recv)) + tuple(exv(v) for v in args)))]))]
        import string
        accs = [(st, EMPTY)]
        n = 0
        try:
            fields = list(string.Formatter().parse(recv[2]))
        except ValueError as x:
            self.raise_(st, 'ValueError', node, str(x))
            return []
        for lit, name, spec, conv in fields:
            nxt = []
            for x, acc in accs:
                acc = self.cat(acc, const(lit))
                if name is None:
                    nxt.append((x, acc))
                    continue
                base = re.split(r'[.\[]', name)[0]
                if base == '':
                    i = n
                elif base.isdigit():
                    i = int(base)
                else:
                    i = base
                if isinstance(i, int):
                    v = args[i] if i < len(args) else None
                else:
                    v = kw.get(i)
                if v is None:
                    self.raise_(x, 'KeyError' if not isinstance(i, int) else 'IndexError', node, 'format field %s is missing' % name)
                    continue
                if base != name or spec:
                    nxt.append((x, self.cat(acc, frozenset([T('str', norm(('fmt', exv(v), name, spec)))]))))
                elif conv == 'r':
                    nxt.append((x, self.cat(acc, self.repr_of(x, v, node))))
                else:
                    for y, s in self.to_str(x, v, node):
                        nxt.append((y, self.cat(acc, s)))
            if name == '':
                n += 1
            accs = nxt
        return accs

    # -- lists ---------------------------------------------------------------

    def m_list(self, st, recv, name, args, kw, node):
        o = st.get(recv[1])
        if name in LIST_MUT or name in ('popleft', 'appendleft', 'extendleft'):
            if o.kind == 'tuple':
                self.raise_(st, 'AttributeError', node, 'tuple has no attribute %s' % name)
                return []
            self.write(st, recv[1], name, None, node, args[0] if args else None)
        if name == 'append':
            self.list_append(st, recv[1], args[0])
            return [(st, NONE)]
        if name == 'extend':
            out = []
            for a in order(args[0]):
                x = st.copy() if len(args[0]) > 1 else st
                if a == C(None):
                    self.raise_(x, 'TypeError', node, 'extend by None')
                    continue
                ao = x.obj(a)
                un = ao is not None and (ao.unord or ao.kind == 'set')
                for y, s, el, ml in self.sequence_of(x, a, node):
                    w = y.w(recv[1])
                    if un and not (s is not None and len(s) < 2):
                        w.unord = True
                    if s is not None and w.seq is not None and not w.multi:
                        w.seq = w.seq + tuple(s)
                        if self.depth_uord and recv[1] < self.uord_mark and s:
                            w.unord = True
                    elif s is not None:
                        for v in s:
                            self.list_append(y, recv[1], v)
                    else:
                        if self.depth_uord and recv[1] < self.uord_mark:
                            w.unord = True
                        from oesa.heap import musts
                        m = musts(w)
                        if ao is not None and not w.multi:
                            m = m | ao.must
                        n = len(w.seq) if w.seq is not None else w.minlen
                        cur = w.contents()
                        w.elem = cur | (el or frozenset()) if len(cur | (el or frozenset())) <= 24 else widen(cur, el, True)
                        w.minlen = n + (max(0, ml) if not w.multi else 0)
                        w.must = m if not w.multi else w.must
                        w.seq = None
                    out.append((y, NONE))
            return out
        if name == 'insert' and len(args) == 2:
            w = st.w(recv[1])
            i = cval(args[0])
            if w.seq is not None and isinstance(i, int) and not w.multi:
                l_ = list(w.seq)
                l_.insert(i, args[1])
                w.seq = tuple(l_)
            else:
                from oesa.heap import musts
                m = musts(w)
                w.minlen = (len(w.seq) if w.seq is not None else w.minlen) + (0 if w.multi else 1)
                w.elem = w.contents() | args[1]
                w.seq = None
                w.must = m | ({one(args[1])} if one(args[1]) and not w.multi else set())
            if self.depth_uord and recv[1] < self.uord_mark:
                w.unord = True
            return [(st, NONE)]
        if name == 'remove':
            return self.list_remove(st, recv, args[0], node)
        if name == 'pop':
            w = st.w(recv[1])
            i = cval(args[0], None) if args else -1
            if w.seq is not None and isinstance(i, int) and not w.multi:
                if not -len(w.seq) <= i < len(w.seq):
                    self.raise_(st, 'IndexError', node, 'pop from a list of %d' % len(w.seq))
                    return []
                l_ = list(w.seq)
                v = l_.pop(i)
                w.seq = tuple(l_)
                return [(st, v)]
            v = w.contents()
            if (len(w.seq) if w.seq is not None else w.minlen) < 1 or args:
                self.raise_(st.copy(), 'IndexError', node, 'pop from a list that may be empty')
            w.minlen = max(0, (len(w.seq) if w.seq is not None else w.minlen) - 1)
            w.elem = v
            w.seq = None
            w.must = frozenset()
            if w.unord:
                v = frozenset(uel(z) for z in v)
            return [(st, v)] if v else []
        if name == 'popleft':
            return self.m_list(st, recv, 'pop', [const(0)], {}, node)
        if name == 'appendleft':
            return self.m_list(st, recv, 'insert', [const(0)] + args, {}, node)
        if name == 'clear':
            w = st.w(recv[1])
            if not w.multi:
                w.seq, w.elem, w.minlen, w.must, w.unord = (), frozenset(), 0, frozenset(), False
            return [(st, NONE)]
        if name == 'reverse':
            w = st.w(recv[1])
            if w.seq is not None:
                w.seq = tuple(reversed(w.seq))
            return [(st, NONE)]
        if name == 'sort':
            out = []
            for x, v in self.sort_list(st, frozenset([recv]), kw, node):
                a = one(v)
                n = x.get(a[1])
                w = x.w(recv[1])
                w.seq, w.elem, w.minlen, w.must, w.unord = n.seq, n.elem, n.minlen, n.must, n.unord
                out.append((x, NONE))
            return out
        if name == 'copy':
            return [(st, self.copy_obj(st, recv[1], node))]
        if name == 'count':
            if o.seq is not None:
                ds = [self.decide(st, one(v), 'Eq', one(args[0])) if one(v) and one(args[0]) else None for v in o.seq]
                if None not in ds:
                    return [(st, const(sum(ds)))]
            return [(st, frozenset([T('int', norm(('count', recv, o.ver, exv(args[0]))))]))]
        if name == 'index':
            if o.seq is not None:
                for i, v in enumerate(o.seq):
                    d = self.decide(st, one(v), 'Eq', one(args[0])) if one(v) and one(args[0]) else None
                    if d is True and i >= 0:
                        return [(st, const(i))]
                    if d is None:
                        break
                else:
                    self.raise_(st, 'ValueError', node, 'value is not in the list')
                    return []
            good, bad = self.compare(st, args[0], ast.In(), frozenset([recv]), node)
            for x in bad:
                self.raise_(x, 'ValueError', node, 'value may not be in the list')
            return [(x, frozenset([T('int', norm(('index', recv, o.ver, exv(args[0]))))])) for x in good]
        if name == '__iter__':
            return [(x, ref(i)) for x, i in self.iterate(st, recv, node)]
        if name == '__len__':
            return self.x_builtins_len(st, [frozenset([recv])], {}, node)
        if name == '__contains__':
            g, b = self.compare(st, args[0], ast.In(), frozenset([recv]), node)
            return [(x, TRUE) for x in g] + [(x, FALSE) for x in b]
        if name == '__getitem__':
            return self.get_item(st, frozenset([recv]), args[0], node)
        if name == '__setitem__':
            return [(x, NONE) for x in self.set_item(st, frozenset([recv]), args[0], args[1], node)]
        return [(st, TOP)]

    def list_remove(self, st, recv, v, node):
        o = st.get(recv[1])
        va = one(v)
        if o.seq is not None and va is not None and not o.multi:
            for i, w in enumerate(o.seq):
                d = self.decide(st, one(w), 'Eq', va) if one(w) else None
                if d is True:
                    x = st.w(recv[1])
                    x.seq = o.seq[:i] + o.seq[i + 1:]
                    return [(st, NONE)]
                if d is None:
                    break
            else:
                self.raise_(st, 'ValueError', node, 'list.remove(x): x not in list')
                return []
        if not (va is not None and self.decide_in(st, va, recv) is True):
            self.raise_(st.copy(), 'ValueError', node, 'list.remove(x): x may not be in list')
        w = st.w(recv[1])
        w.minlen = max(0, (len(w.seq) if w.seq is not None else w.minlen) - 1)
        w.elem = w.contents()
        w.seq = None
        w.must = w.must - v
        return [(st, NONE)]

    def sort_list(self, st, v, kw, node):
        """sorted(): fresh list"""
        out = []
        for a in order(v):
            x0 = st.copy() if len(v) > 1 else st
            if a == C(None):
                self.raise_(x0, 'TypeError', node, 'None is not iterable')
                continue
            o = x0.obj(a)
            un = o is not None and (o.unord or o.kind == 'set')
            if o is not None and o.kind == 'inst':
                for x, it in self.iterate(x0, a, node):
                    out += self.sort_list(x, ref(it), kw, node)
                continue
            key = kw.get('key', NONE)
            for x, s, el, ml in self.sequence_of(x0, a, node):
                keyed = key != NONE
                if s is not None and len(s) <= 1:
                    out.append((x, self.new(x, 'list', node, 'sorted', seq=tuple(s))))
                    continue
                rev = kw.get('reverse', FALSE)
                if s is not None and is_const(rev):
                    xs = [(x, [])]
                    if keyed:
                        for v_ in s:
                            nx = []
                            for y, ks in xs:
                                for z, k in self.call(self.holds(y, list(s) + [ref(0)] * 0), key, [v_], {}, node):
                                    self.unholds(z, len(s))
                                    nx.append((z, ks + [k]))
                            xs = nx
                            if len(xs) > 4:
                                break
                    else:
                        xs = [(x, list(s))]
                    for y, ks in xs:
                        cs = [one(k) for k in ks]
                        ok = len(ks) == len(s) and all(c is not None for c in cs)
                        srt = None
                        if ok:
                            es = [self.sort_key(y, c) for c in cs]
                            if all(e is not None for e in es):
                                try:
                                    srt = [s[i] for i in sorted(range(len(s)), key=lambda i: es[i], reverse=bool(cval(rev)))]
                                    ties = len(set(es)) < len(es)
                                except TypeError:
                                    srt = None
                        if srt is not None:
                            out.append((y, self.new(y, 'list', node, 'sorted', seq=tuple(srt), unord=un and keyed and ties)))
                        else:
                            el2 = frozenset().union(*s)
                            from oesa.heap import musts
                            out.append((y, self.new(y, 'list', node, 'sorted', elem=ordered(el2), minlen=len(s), unord=un and keyed,
                                                    must=frozenset(one(q) for q in s if one(q)))))
                    continue
                el2 = el if s is None else frozenset().union(*s)
                if keyed:
                    probe = x.copy()
                    rs = []
                    for y, kv in self.call(probe, key, [el2], {}, node):
                        rs.append((y, kv))
                    if C(None) in frozenset().union(*[kv for _, kv in rs] or [frozenset()]):
                        self.raise_(x.copy(), 'TypeError', node, 'sorting by None')
                    ident = rs and all(kv == el2 for _, kv in rs)
                else:
                    ident = True
                    if C(None) in el2 and len(el2) > 1:
                        self.raise_(x.copy(), 'TypeError', node, 'sorting None')
                must = o.must if o is not None else frozenset()
                out.append((x, self.new(x, 'list', node, 'sorted', elem=ordered(el2), minlen=max(0, ml), unord=bool(un and not ident), must=must)))
        return out

    def sort_key(self, st, a):
        if a[0] == 'c' and isinstance(a[2], (str, int)):
            return a[2]
        if a[0] == 't' and a[1] == 'str':
            return seg.enc(a[2])
        if a[0] == 'r' and st.get(a[1]).kind == 'tuple' and st.get(a[1]).seq is not None:
            r = [self.sort_key(st, one(v)) if one(v) else None for v in st.get(a[1]).seq]
            return tuple(r) if None not in r else None
        return None

    def holds(self, st, vs):
        for v in vs:
            st = self.hold(st, v)
        return st

    def unholds(self, st, n):
        for _ in range(n):
            self.release(st)

    # -- sets ------------------------------------------------------------------

    def m_set(self, st, recv, name, args, kw, node):
        o = st.get(recv[1])
        if name in SET_MUT:
            self.write(st, recv[1], name, None, node, args[0] if args else None)
        if name == 'add':
            self.set_add(st, recv[1], args[0])
            return [(st, NONE)]
        if name == 'update':
            sts = [st]
            for v in args:
                nxt = []
                for x0 in sts:
                    for a in order(v):
                        x1 = x0.copy() if len(v) > 1 else x0
                        if a == C(None):
                            self.raise_(x1, 'TypeError', node, 'None is not iterable')
                            continue
                        ao = x1.obj(a)
                        for x, s, el, ml in self.sequence_of(x1, a, node):
                            if s is not None:
                                for q in s:
                                    self.set_add(x, recv[1], q)
                            else:
                                w = x.w(recv[1])
                                if w.seq is not None:
                                    from oesa.heap import musts
                                    w.must = musts(w)
                                    w.elem = w.contents()
                                    w.minlen = 1 if w.seq else 0
                                    w.seq = None
                                w.elem = widen(w.elem, ordered(el or frozenset()), False)
                                if ao is not None and not w.multi:
                                    w.must = w.must | ao.must
                                if ml > 0 and not w.multi:
                                    w.minlen = max(1, w.minlen)
                            nxt.append(x)
                sts = nxt
            return [(x, NONE) for x in sts]
        if name in ('discard', 'remove'):
            va = one(args[0])
            w = st.w(recv[1])
            if name == 'remove' and not (va is not None and self.decide_in(st, va, recv) is True):
                self.raise_(st.copy(), 'KeyError', node, 'value may not be in the set')
            if w.seq is not None and va is not None and not w.multi:
                ds = [self.decide(st, one(z), 'Eq', va) if one(z) else None for z in w.seq]
                if None not in ds:
                    w.seq = tuple(z for z, d in zip(w.seq, ds) if not d)
                    return [(st, NONE)]
            w.must = (frozenset(one(z) for z in w.seq if one(z)) if w.seq is not None else w.must) - args[0]
            w.must = frozenset(m for m in w.must if all(self.decide(st, m, 'Eq', z) is False for z in args[0]))
            w.elem = w.contents()
            if va is not None and not w.multi and not (va[0] == 'r' and st.get(va[1]).multi):
                w.elem = w.elem - {va}
            w.seq = None
            w.minlen = 0
            if va is not None:
                st.facts[('in', va, recv, w.ver)] = False
            return [(st, NONE)]
        if name == 'pop':
            v = o.contents()
            if not (o.seq or o.minlen):
                self.raise_(st.copy(), 'KeyError', node, 'pop from a set that may be empty')
            w = st.w(recv[1])
            if self.opts.get('order') is not None and o.seq:
                v = self.permuted(o.seq)[0]
                w.seq = tuple(z for z in o.seq if z != v)
                return [(st, v)]
            w.elem, w.seq, w.minlen, w.must = v, None, 0, frozenset()
            return [(st, frozenset(uel(a) for a in v))] if v else []
        if name == 'clear':
            w = st.w(recv[1])
            if not w.multi:
                w.seq, w.elem, w.minlen, w.must = (), frozenset(), 0, frozenset()
            return [(st, NONE)]
        if name == 'copy':
            return [(st, self.copy_obj(st, recv[1], node))]
        if name in ('union', 'difference', 'intersection', 'symmetric_difference'):
            r = self.set_op(st, name, recv, args, node)
            return [(st, r)]
        if name in ('difference_update', 'intersection_update', 'symmetric_difference_update'):
            r = self.set_op(st, name[:-7], recv, args, node)
            n = st.get(one(r)[1])
            w = st.w(recv[1])
            w.seq, w.elem, w.minlen, w.must = n.seq, n.elem, n.minlen, n.must
            return [(st, NONE)]
        if name in ('issubset', 'issuperset', 'isdisjoint') and len(args) == 1 and o.seq is not None and one(args[0]) is not None:
            b = st.obj(one(args[0]))
            if b is not None and b.kind in ('set', 'list', 'tuple') and b.seq is not None:
                if name == 'isdisjoint':
                    ds = [self.decide(st, one(v), 'Eq', one(w)) if one(v) and one(w) else None for v in o.seq for w in b.seq]
                    r = False if any(d is True for d in ds) else True if all(d is False for d in ds) else None
                else:
                    r = self.subset(st, o, b) if name == 'issubset' else self.subset(st, b, o)
                if r is not None:
                    return [(st, const(r))]
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            return [(st, term('bool', 'meth', name, recv, o.ver, *[exv(v) for v in args]))]
        if name == '__contains__':
            g, b = self.compare(st, args[0], ast.In(), frozenset([recv]), node)
            return [(x, TRUE) for x in g] + [(x, FALSE) for x in b]
        if name == '__iter__':
            return [(x, ref(i)) for x, i in self.iterate(st, recv, node)]
        return [(st, TOP)]

    def set_add(self, st, oid, v):
        v = ordered(v)
        w = st.w(oid)
        if w.seq is not None and not w.multi and len(w.seq) < 300:
            va = one(v)
            ds = [self.decide(st, one(z), 'Eq', va) if one(z) and va else None for z in w.seq]
            if True in ds:
                return
            if None not in ds:
                w.seq = w.seq + (v,)
                return
        from oesa.heap import musts
        m = musts(w)
        w.elem = widen(w.contents(), v, len(w.contents()) > 24)
        w.minlen = 1 if not w.multi else w.minlen
        w.seq = None
        if one(v) is not None and not w.multi:
            m = m | v
        w.must = m

    def set_op(self, st, name, recv, args, node):
        o = st.get(recv[1])
        els = frozenset()
        exact = True
        other = []
        for v in args:
            a = one(v)
            if a is None:
                exact = False
                continue
            for x, s, el, ml in self.sequence_of(st, a, node):
                if s is not None:
                    other += list(s)
                    for q in s:
                        els |= q
                else:
                    exact = False
                    els |= el or frozenset()
        mine = list(o.seq) if o.seq is not None else None
        if o.kind == 'dict':
            mine = [frozenset([k]) for k in o.ent] if self.exact_dict(o) else None
        cont = o.contents() if o.kind != 'dict' else frozenset(o.ent) | (o.rest[0] if o.rest else frozenset())
        if name == 'union':
            return self.make_set(st, [('*', frozenset([recv]))] + [('*', v) for v in args], node)
        if exact and mine is not None:
            def inn(v, lst):
                ds = [self.decide(st, one(v), 'Eq', one(z)) if one(v) and one(z) else None for z in lst]
                return True if True in ds else None if None in ds else False
            r = [(v, inn(v, other)) for v in mine]
            if all(d is not None for _, d in r):
                if name == 'difference':
                    return self.new(st, 'set', node, name, seq=tuple(v for v, d in r if not d))
                if name == 'intersection':
                    return self.new(st, 'set', node, name, seq=tuple(v for v, d in r if d))
        if name == 'intersection':
            return self.new(st, 'set', node, name, elem=ordered(cont))
        if name == 'difference':
            return self.new(st, 'set', node, name, elem=ordered(cont))
        return self.new(st, 'set', node, name, elem=ordered(cont | els))

    # -- dictionaries -----------------------------------------------------------

    def m_dict(self, st, recv, name, args, kw, node):
        o = st.get(recv[1])
        if name in DICT_MUT:
            self.write(st, recv[1], name, None, node, args[0] if args else None)
        if name == 'get':
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            return self.dict_get(st, recv, args[0], node, default=d)
        if name in ('keys', 'items', 'values'):
            # a view: a fresh tuple like list of the current contents
            if self.exact_dict(o):
                if name == 'keys':
                    seq = [frozenset([k]) for k in o.ent]
                elif name == 'values':
                    seq = [v for v, _ in o.ent.values()]
                else:
                    seq = [self.new(st, 'tuple', node, 'pair', seq=(frozenset([k]), v)) for k, (v, _) in list(o.ent.items())]
                return [(st, self.new(st, 'tuple', node, 'view' + name, seq=tuple(seq), unord=o.unord))]
            ks = frozenset(o.ent) | (o.rest[0] if o.rest else frozenset())
            vs = frozenset()
            for v, _ in o.ent.values():
                vs |= v
            if o.rest:
                vs |= o.rest[1]
            ml = sum(1 for _, m in o.ent.values() if m)
            if name == 'keys':
                return [(st, self.new(st, 'tuple', node, 'viewkeys', elem=ks, minlen=ml, unord=o.unord, must=frozenset(k for k, (_, m) in o.ent.items() if m)))]
            if name == 'values':
                return [(st, self.new(st, 'tuple', node, 'viewvalues', elem=vs, minlen=ml, unord=o.unord))]
            pairs = set()
            for k, (v, _) in list(o.ent.items()):
                pairs |= self.new(st, 'tuple', node, 'pair', seq=(frozenset([k]), v))
            if o.rest:
                pairs |= self.new(st, 'tuple', node, 'pair', seq=(o.rest[0], o.rest[1]), multi=True)
            return [(st, self.new(st, 'tuple', node, 'viewitems', elem=frozenset(pairs), minlen=ml, unord=o.unord))]
        if name == 'setdefault':
            d = args[1] if len(args) > 1 else NONE
            out = []
            for ka in order(args[0]):
                x = st.copy() if len(args[0]) > 1 else st
                g, b = self.cmp1(x, ka, 'In', recv, node, None, None)
                for y in g:
                    out += self.dict_get(y, recv, frozenset([ka]), node, default=d)
                for y in b:
                    for z in self.set_item(y, frozenset([recv]), frozenset([ka]), d, node, init=True):
                        out.append((z, d))
            return out
        if name == 'update':
            sts = [st]
            for v in args:
                sts = [y for x in sts for y, _ in self.dict_update(x, frozenset([recv]), v, node)]
            for k, v in kw.items():
                sts = [y for x in sts for y in self.set_item(x, frozenset([recv]), const(k), v, node, init=True)]
            if self.depth_uord and recv[1] < self.uord_mark:
                for x in sts:
                    x.w(recv[1]).unord = True
            return [(x, NONE) for x in sts]
        if name == 'pop':
            out = []
            for x, v in self.dict_get(st, recv, args[0], node, default=args[1] if len(args) > 1 else None):
                self.dict_del(x, recv[1], args[0])
                out.append((x, v))
            return out
        if name == 'clear':
            w = st.w(recv[1])
            if not w.multi:
                w.ent, w.rest = {}, None
            return [(st, NONE)]
        if name == 'copy':
            return [(st, self.copy_obj(st, recv[1], node))]
        if name == 'popitem':
            self.raise_(st.copy(), 'KeyError', node, 'popitem of a dictionary that may be empty')
            return [(st, TOP)]
        if name == '__contains__':
            g, b = self.compare(st, args[0], ast.In(), frozenset([recv]), node)
            return [(x, TRUE) for x in g] + [(x, FALSE) for x in b]
        if name == '__getitem__':
            return self.get_item(st, frozenset([recv]), args[0], node)
        if name == '__setitem__':
            return [(x, NONE) for x in self.set_item(st, frozenset([recv]), args[0], args[1], node)]
        if name == '__iter__':
            return [(x, ref(i)) for x, i in self.iterate(st, recv, node)]
        if name == 'move_to_end':
            return [(st, NONE)]
        return [(st, TOP)]

    def m_iter(self, st, recv, name, args, kw, node):
        if name in ('__next__', 'next'):
            return self.next_(st, recv, None, node)
        if name == '__iter__':
            return [(st, frozenset([recv]))]
        if name == 'close':
            return [(st, NONE)]
        return [(st, TOP)]

    def next_(self, st, recv, default, node):
        src = self.iter_source(st, recv[1])
        o = st.get(recv[1])
        if isinstance(o.x, dict) and o.x.get('slow'):
            self.raise_(st.copy(), 'TimeoutError', node, 'the operation may take too long')
            if o.x['slow'] == 2:
                return []
        if src is not None:
            out = []
            for x, v in self.iter_next(st, recv[1], node):
                if v is None:
                    if default is None:
                        self.raise_(x, 'StopIteration', node, 'the iterator has ended')
                    else:
                        out.append((x, default))
                else:
                    out.append((x, v))
            return out
        el, ml = self.iter_contents(st, recv[1])
        out = []
        if ml <= 0:
            b = st.copy()
            self.exhaust(b, recv[1])
            if default is None:
                self.raise_(b, 'StopIteration', node, 'the iterator may have ended')
            else:
                out.append((b, default))
        if el:
            for x, v in self.iter_elem(st, recv[1], node):
                out.append((x, v))
        return out

    # -- files ----------------------------------------------------------------

    def x_builtins_open(self, st, args, kw, node, fn='open'):
        names = ['file', 'mode', 'buffering', 'encoding', 'errors', 'newline']
        p = {n: v for n, v in zip(names, args)}
        p.update(kw)
        path = p.get('file', TOP)
        self.emit('open', st, path=path, p=p, node=node)
        pa = one(path)
        ps = seg.enc(ex(pa)) if self.fs is not None and pa is not None and pa[0] in ('c', 't') else None
        if ps is not None and ps.startswith('/') and ps not in self.fs and self.pkg_file(ps):
            ps = None
        if ps is not None:
            e = self.fs_entry(ps) if ps.startswith('/') else None
            if e != 'file' or self.fs[os.path.normpath(ps)] == 'unreadable':
                self.raise_(st, 'OSError', node, 'no such file')
                return []
            if callable(self.opts['faults']):
                f = self.fault('open', node)
                if f:
                    self.raise_(st.copy(), 'OSError', node, 'the file may be unreadable')
                if f == 2:
                    return []
        else:
            f = self.fault('open', node)
            if f:
                self.raise_(st.copy(), 'OSError', node, 'the file may be missing or unreadable')
            if f == 2:
                return []
        if ps is None and not self.safe_path(st, path):
            self.raise_(st.copy(), 'ValueError', node, 'the file name may contain a null character')
        oid = self.alloc(st, 'file', node, 'file', d={'path': path, 'mode': p.get('mode', const('r')), 'errors': p.get('errors', NONE), 'newline': p.get('newline', NONE)}, x={'closed': False, 'ghost': self.next_oid})
        if self.opts.get('handles'):
            st.mon['handles'] = st.mon.get('handles', frozenset()) | {(st.get(oid).x['ghost'], self.where(node))}
        self.emit('opened', st, oid=oid, node=node)
        return [(st, ref(oid))]

    def fault(self, kind, node):
        """0: does not happen, 1: may happen, 2: happens"""
        f = self.opts['faults']
        return int(f(kind, node, self)) if callable(f) else int(bool(f))

    def safe_path(self, st, v):
        return all(a[0] == 'c' for a in v)

    def m_file(self, st, recv, name, args, kw, node):
        o = st.get(recv[1])
        if name == 'close':
            self.close_file(st, recv[1])
            return [(st, NONE)]
        if name in ('read', 'readline', 'readlines', '__iter__', '__next__'):
            if self.read_errors(st, o, node) == 2:
                return []
        if name == 'readlines':
            return self.file_lines(st, recv, node, chk=False)
        if name == '__iter__':
            out = []
            for x, v in self.file_lines(st, recv, node, chk=False):
                for y, it in self.iterate(x, one(v), node):
                    out.append((y, ref(it)))
            return out
        if name == 'read':
            r = self.fs_lines(st, recv, node)
            if r is not None:
                v = self.newlist(st, r, node)
                return self.str_join(st, C(''), [v], node)
            return [(st, frozenset([T('str', norm(('content', exv(o.d['path']))))]))]
        if name == 'readline':
            return [(st, frozenset([T('str', norm(('el', ('line', exv(o.d['path'])))))]) | EMPTY)]
        if name in ('write', 'writelines', 'truncate'):
            self.emit('filewrite', st, oid=recv[1], node=node)
            return [(st, TOP)]
        return [(st, TOP)]

    def close_file(self, st, oid):
        o = st.w(oid)
        if 'handles' in st.mon:
            st.mon['handles'] = frozenset(h for h in st.mon['handles'] if h[0] != o.x.get('ghost'))
        o.x = dict(o.x, closed=True)

    def read_errors(self, st, o, node):
        """1: may fail, 2: fails, 3: is not decodable; returns 2 when there is no result"""
        f = self.fault('read', node)
        if not f:
            return 0
        err = o.d['errors']
        strict = C(None) in err or C('strict') in err or (one(err) and one(err)[0] != 'c')
        if f in (1, 3) and strict and 'b' not in (cval(o.d['mode'], 'r') or 'r'):
            self.raise_(st.copy(), 'UnicodeDecodeError', node, 'the content of the file may not be decodable')
            if f == 3:
                return 2
        if f in (1, 2):
            self.raise_(st.copy(), 'OSError', node, 'the file may be unreadable')
        return 2 if f == 2 else 0

    lines_hook = None

    def fs_lines(self, st, recv, node):
        if self.lines_hook is not None:
            return self.lines_hook(self, st, recv, node)
        if self.fs is None:
            return None
        a = one(st.get(recv[1]).d['path'])
        s = seg.enc(ex(a)) if a is not None and a[0] in ('c', 't') else None
        return self.fs.get(s) if s is not None else None

    def file_lines(self, st, recv, node, chk=True):
        o = st.get(recv[1])
        if chk:
            if self.read_errors(st, o, node) == 2:
                return []
        r = self.fs_lines(st, recv, node)
        if r is not None:
            return [(st, self.newlist(st, r, node))]
        el = frozenset([T('str', norm(('el', ('line', exv(o.d['path'])))))])
        st.facts[('t', one(el))] = True
        return [(st, self.new(st, 'list', node, 'lines', elem=el))]

    # -- regular expressions -----------------------------------------------------

    def pattern_atom(self, st, v):
        a = one(v)
        if a is None:
            return ('p', None, exv(v))
        if a[0] == 'p':
            return a
        if a[0] == 'c' and isinstance(a[2], str):
            return ('p', a[2], ex(a))
        return ('p', None, ex(a))

    def x_regex_compile(self, st, args, kw, node):
        pa = self.pattern_atom(st, args[0])
        fl = args[1] if len(args) > 1 else kw.get('flags')
        if pa[1] is None:
            if not self.safe_pattern(pa[2]):
                self.raise_(st.copy(), 'RegexError', node, 'the pattern may be invalid')
        elif invalid(pa[1]):
            self.raise_(st, 'RegexError', node, 'the pattern `%s` is invalid' % pa[1][:60])
            return []
        e = pa[2] if fl is None or cval(fl, 1) == 0 else ('flags', pa[2], exv(fl))
        return [(st, frozenset([('p', pa[1], e)]))]

    def safe_pattern(self, e):
        """pattern text built from constants and escaped texts only"""
        if is_k(e):
            return True
        if isinstance(e, tuple) and e:
            if e[0] == 'cat':
                return all(self.safe_pattern(x) for x in e[1:])
            if e[0] == 'call' and e[1] in ('regex.escape', 're.escape'):
                return True
            if e[0] == 'join':
                return all(self.safe_pattern(x) for x in (e[1],)) and all(self.safe_pattern(x) for x in (e[-1] if isinstance(e[-1], frozenset) else ()))
            if e[0] == 'tok':
                return is_clean(e)
            if e[0] == 'el':
                return self.safe_pattern(e[1])
        return False

    def regex_op(self, st, op, pat, subj, rest, kw, node, dotted):
        """rest: further positional values by name"""
        self.emit('regex', st, op=op, pat=pat, subj=subj, p=dict(rest, **kw), node=node, dotted=dotted)
        pa = self.pattern_atom(st, pat)
        if pa[1] is None and not self.safe_pattern(pa[2]) and not (one(pat) and one(pat)[0] == 'p'):
            self.raise_(st.copy(), 'RegexError', node, 'the pattern may be invalid')
        slow = self.fault('timeout', node) if 'timeout' in kw or 'timeout' in rest else 0
        lazy = op in ('finditer', 'splititer', 'scanner')
        if slow and not lazy:
            self.raise_(st.copy(), 'TimeoutError', node, 'the operation may take too long')
            if slow == 2:
                return []
        if C(None) in subj:
            self.raise_(st.copy(), 'TypeError', node, 'matching None')
            subj = subj - NONE
            if not subj:
                return []
        fl = kw.get('flags', rest.get('flags'))
        plain = fl is None or cval(fl, 1) == 0
        if pa[1] is None and isinstance(pa[2], tuple):
            # pattern made of constants and tokens
            s = seg.enc(pa[2])
            if s is not None:
                pa = ('p', s, pa[2])
        if pa[1] is not None and invalid(pa[1]):
            self.raise_(st, 'RegexError', node, 'the pattern `%s` is invalid' % pa[1][:60])
            return []
        out = []
        for sa in order(subj) if len(subj) <= 6 else [None]:
            x = st.copy() if len(subj) > 1 and sa is not None else st
            e = ex(sa) if sa is not None else exv(subj)
            s = seg.enc(e) if isinstance(e, tuple) else None
            if s is not None and pa[1] is not None and plain and not (isinstance(pa[2], tuple) and pa[2] and pa[2][0] == 'flags'):
                r = self.regex_exact(x, op, pa, s, e, rest, kw, node)
                if r is not None:
                    out += r
                    continue
            out += self.regex_abs(x, op, pa, e, rest, kw, node)
        if slow and lazy:
            # the time runs while the result is consumed
            for y, v in out:
                a = one(v)
                if a is not None and a[0] == 'r':
                    w = y.w(a[1])
                    w.x = dict(w.x or {}, slow=slow)
        return out

    regex_oracle = None

    def regex_exact(self, st, op, pa, s, e, rest, kw, node):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                p = re.compile(pa[1])
        except re.error:
            return None
        if op in ('match', 'search', 'fullmatch'):
            m = getattr(p, op)(s)
            if m is None:
                return [(st, NONE)]
            groups = tuple([m.group(0)] + list(m.groups()))
            return [(st, frozenset([('m', pa, ('exact', e, groups, tuple(sorted(p.groupindex.items()))), op)]))]
        if op == 'split':
            n = cval(rest.get('maxsplit', kw.get('maxsplit', const(0))), None)
            if n is None:
                return None
            return [(st, self.lift(st, p.split(s, maxsplit=n), node))]
        if op == 'findall':
            return [(st, self.lift(st, p.findall(s), node))]
        if op == 'finditer':
            ms = []
            for m in p.finditer(s):
                groups = tuple([m.group(0)] + list(m.groups()))
                ms.append(frozenset([('m', pa, ('exact', e, groups, tuple(sorted(p.groupindex.items()))), op)]))
            oid = self.alloc(st, 'iter', node, 'finditer', x={'k': 'seq', 'i': 0, 'lazyre': True}, seq=tuple(ms))
            return [(st, ref(oid))]
        if op in ('sub', 'subn'):
            r = one(rest.get('repl', kw.get('repl', TOP)))
            n = cval(rest.get('count', kw.get('count', const(0))), None)
            if r is None or n is None or r[0] not in ('c', 't') or seg.enc(ex(r)) is None:
                return None
            try:
                return [(st, self.lift(st, p.sub(seg.enc(ex(r)), s, count=n), node))]
            except (re.error, IndexError):
                return None
        return None

    def regex_abs(self, st, op, pa, e, rest, kw, node):
        pk = pa[1] if pa[1] is not None else pa[2]
        fl = rest.get('flags', kw.get('flags'))
        if fl is not None and cval(fl, 1) != 0:
            pa = ('p', pa[1], ('flags', pa[2], exv(fl)))
        if op in ('match', 'search', 'fullmatch'):
            key = ('match', op, pa, e)
            m = frozenset([('m', pa, e, op)])
            r = st.facts.get(key)
            if r is None and self.regex_oracle is not None:
                r = self.regex_oracle(self, st, op, pa, e, node)
            if r is not None:
                return [(st, m if r else NONE)]
            b = st.copy()
            st.facts[key] = True
            b.facts[key] = False
            return [(st, m), (b, NONE)]
        if op in ('sub', 'subn'):
            r = rest.get('repl', kw.get('repl', TOP))
            out = []
            for a in r:
                if a[0] in ('bm', 'r', 'b'):
                    # a function computes the replacement
                    self.call(st.copy(), frozenset([a]), [frozenset([('m', pa, e, op)])], {}, node)
            v = frozenset([T('str', norm(('resub', pk, exv(r), e)))])
            if op == 'subn':
                v = self.new(st, 'tuple', node, 'subn', seq=(v, term('int', 'subn', e)))
            return [(st, v)]
        if op in ('split', 'findall', 'splititer'):
            return [(st, self.new(st, 'list', node, op, elem=frozenset([T('str', norm(('el', ('re' + op, pk, e))))]), minlen=1 if op == 'split' else 0))]
        if op in ('finditer',):
            return [(st, ref(self.alloc(st, 'iter', node, 'finditer', x={'k': 'elem', 'lazyre': True}, elem=frozenset([('m', pa, ('el', e), op)]))))]
        return [(st, TOP)]

    RE_POS = {'search': ['pattern', 'string', 'flags', 'pos', 'endpos', 'partial', 'concurrent', 'timeout'], 'match': ['pattern', 'string', 'flags', 'pos', 'endpos', 'partial', 'concurrent', 'timeout'],
              'fullmatch': ['pattern', 'string', 'flags', 'pos', 'endpos', 'partial', 'concurrent', 'timeout'],
              'split': ['pattern', 'string', 'maxsplit', 'flags', 'concurrent', 'timeout'], 'findall': ['pattern', 'string', 'flags', 'pos', 'endpos', 'overlapped', 'concurrent', 'timeout'],
              'finditer': ['pattern', 'string', 'flags', 'pos', 'endpos', 'overlapped', 'partial', 'concurrent', 'timeout'],
              'sub': ['pattern', 'repl', 'string', 'count', 'flags'], 'subn': ['pattern', 'repl', 'string', 'count', 'flags'],
              'splititer': ['pattern', 'string', 'maxsplit', 'flags']}

    def re_call(self, st, op, args, kw, node, dotted, pat=None):
        names = self.RE_POS[op]
        if pat is not None:
            names = [n for n in names if n not in ('pattern', 'flags')]
        p = {}
        for n, v in zip(names, args):
            p[n] = v
        for k, v in kw.items():
            p[k] = v
        pv = pat if pat is not None else p.pop('pattern', TOP)
        p.pop('pattern', None)
        sv = p.pop('string', TOP)
        return self.regex_op(st, op, pv, sv, p, {}, node, dotted)

    def m_pattern(self, st, recv, name, args, kw, node):
        if name in self.RE_POS:
            return self.re_call(st, name, args, kw, node, 'pattern.' + name, pat=frozenset([recv]))
        return [(st, TOP)]

    def group_info(self, pa):
        """(names -> index, optional indexes) or None"""
        if pa[1] is None:
            return None
        return group_info(pa[1])

    def m_match(self, st, recv, name, args, kw, node):
        _, pa, e, how = recv
        exact = e[0] == 'exact' if isinstance(e, tuple) and e else False
        gi = self.group_info(pa)
        if name == 'group' or name == '__getitem__':
            if not args:
                args = [const(0)]
            if len(args) > 1:
                vals = []
                for g in args:
                    r = self.m_match(st, recv, 'group', [g], {}, node)
                    if not r:
                        return []
                    vals.append(r[0][1])
                return [(st, self.new(st, 'tuple', node, 'groups', seq=tuple(vals)))]
            g = cval(args[0], '?')
            if exact:
                idx = dict(e[3]).get(g, g)
                if not isinstance(idx, int) or idx >= len(e[2]):
                    self.raise_(st, 'IndexError', node, 'no such group %r' % (g,))
                    return []
                v = e[2][idx]
                return [(st, frozenset([seg.dec(v)]) if v is not None else NONE)]
            return self.group_value(st, recv, g, gi, node)
        if name in ('groupdict', 'groups'):
            d = args[0] if args else kw.get('default', NONE)
            if exact:
                names = dict(e[3])
                if name == 'groups':
                    return [(st, self.new(st, 'tuple', node, 'groups', seq=tuple(frozenset([seg.dec(z)]) if z is not None else d for z in e[2][1:])))]
                return [(st, self.new(st, 'dict', node, 'groupdict', ent={C(n): (frozenset([seg.dec(e[2][i])]) if e[2][i] is not None else d, True) for n, i in names.items()}))]
            if gi is None:
                if name == 'groups':
                    return [(st, self.new(st, 'tuple', node, 'groups', elem=term('str', 'grp', pa, e, '?') | d))]
                return [(st, self.new(st, 'dict', node, 'groupdict', rest=(term('str', 'key', e), term('str', 'grp', pa, e, '?') | d)))]
            names, opt, count = gi
            if name == 'groups':
                sts = []
                seq = []
                for i in range(1, count + 1):
                    (_, v), = self.group_value(st, recv, i, gi, node)
                    seq.append(frozenset(z if z != C(None) else one(d) or z for z in v))
                return [(st, self.new(st, 'tuple', node, 'groups', seq=tuple(seq)))]
            ent = {}
            for n in names:
                (_, v), = self.group_value(st, recv, n, gi, node)
                if C(None) in v:
                    v = (v - NONE) | d
                ent[C(n)] = (v, True)
            return [(st, self.new(st, 'dict', node, 'groupdict', ent=ent))]
        if name in ('start', 'end'):
            return [(st, term('int', name, pa[1] or pa[2], e, exv(args[0]) if args else 0))]
        if name == 'span':
            return [(st, self.new(st, 'tuple', node, 'span', seq=(term('int', 'start', pa[1] or pa[2], e), term('int', 'end', pa[1] or pa[2], e))))]
        if name == 'expand':
            return [(st, term('str', 'expand', e))]
        return [(st, TOP)]

    def group_value(self, st, recv, g, gi, node):
        _, pa, e, how = recv
        key = ('grpnone', recv, g)
        t = T('str', ('grp', pa[1] or pa[2], e, g))
        if gi is None or g == '?':
            return [(st, frozenset([t, C(None)]) if g != 0 and gi is None and False else frozenset([t]))]
        names, opt, count = gi
        idx = names.get(g, g)
        if not isinstance(idx, int) or idx > count:
            self.raise_(st, 'IndexError', node, 'no such group %r' % (g,))
            return []
        if idx in opt:
            return [(st, frozenset([t, C(None)]))]
        return [(st, frozenset([t]))]

    # -- reflection ---------------------------------------------------------------

    def call_getter(self, st, o, args, node):
        return [(st, TOP)]

    # -- everything outside the package -------------------------------------------

    def call_ext(self, st, dotted, args, kw, node, star=None, kwrest=None):
        dotted = canon(dotted)
        self.emit('ext', st, dotted=dotted, args=args, kw=kw, node=node)
        f = getattr(self, 'x_' + dotted.replace('.', '_'), None)
        if star is not None:
            args = list(args) + [star]
        if f is not None:
            return f(st, list(args), dict(kw), node)
        m = re.match(r'^(regex|re)\.(\w+)$', dotted)
        if m and m.group(2) in self.RE_POS:
            return self.re_call(st, m.group(2), args, kw, node, dotted)
        if dotted.startswith('builtins.'):
            n = dotted[9:]
            c = getattr(_bi, n, None)
            if isinstance(c, type) and issubclass(c, BaseException):
                return [(st, frozenset([T('exc', ('exc', n))]))]
            # str.lower and the like, called on the class
            if '.' in n and args:
                cls, meth = n.split('.', 1)
                if cls in ('str', 'list', 'dict', 'set'):
                    out = []
                    for a in order(args[0]):
                        x = st.copy() if len(args[0]) > 1 else st
                        out += self.call_method(x, a, meth, args[1:], kw, node)
                    return out
                if n.startswith('object.'):
                    return [(st, NONE)]
                if n == 'dict.fromkeys':
                    return self.x_builtins_dict_fromkeys(st, args, kw, node)
        if dotted in EXC_ALIAS:
            return [(st, frozenset([T('exc', ('exc', EXC_ALIAS[dotted]))]))]
        pure = PURE_STR.get(dotted)
        if dotted in FOLD and not kw:
            r = self.fold(st, FOLD[dotted], args, node, dotted)
            if r is not None:
                return r
        es = tuple(exv(v) for v in args) + tuple(('kw', k, exv(v)) for k, v in sorted(kw.items()))
        es = tuple(self.content_expr(st, v, e) for v, e in zip(args, es)) + es[len(args):]
        if pure:
            return [(st, frozenset([T(pure, norm(('call', dotted) + es))]))]
        self.emit('extcall', st, dotted=dotted, args=args, kw=kw, node=node)
        un = dotted in UNORDERED
        if un:
            o = self.new(st, 'list', node, 'fs', elem=frozenset([T('str', norm(('el', ('fs', dotted) + es)))]), unord=True)
            return [(st, o)]
        return [(st, frozenset([T('any', norm(('call', dotted) + es))]))]

    def content_expr(self, st, v, e):
        a = one(v)
        if a is not None and a[0] == 'r' and self.unord_contents(st, a):
            return ('uel', e)
        return e


PURE_STR = {'os.path.basename': 'str', 'os.path.dirname': 'str', 'os.path.abspath': 'str', 'os.path.realpath': 'str', 'os.path.normpath': 'str',
            'os.path.expanduser': 'str', 'os.path.expandvars': 'str', 'os.path.relpath': 'str', 'os.path.exists': 'bool', 'os.path.isfile': 'bool',
            'os.path.isdir': 'bool', 'os.path.isabs': 'bool', 'os.path.islink': 'bool', 'os.path.lexists': 'bool', 'os.path.getsize': 'int', 'os.getcwd': 'str',
            'textwrap.dedent': 'str', 'textwrap.indent': 'str', 'textwrap.shorten': 'str', 'regex.escape': 'str', 're.escape': 'str', 'html.escape': 'str',
            'os.fspath': 'str', 'os.access': 'bool', 'fnmatch.fnmatch': 'bool', 'fnmatch.fnmatchcase': 'bool', 'fnmatch.translate': 'str',
            'builtins.ord': 'int', 'builtins.chr': 'str', 'builtins.abs': 'int', 'builtins.round': 'int', 'builtins.hex': 'str', 'builtins.bin': 'str',
            'builtins.oct': 'str', 'builtins.ascii': 'str', 'builtins.callable': 'bool', 'builtins.format': 'str', 'json.dumps': 'str',
            'urllib.parse.quote': 'str', 'urllib.parse.unquote': 'str', 'os.path.commonprefix': 'str', 'os.path.commonpath': 'str', 'glob.escape': 'str',
            'os.path.samefile': 'bool', 'os.path.getmtime': 'float', 'operator.eq': 'bool', 'sys.intern': 'str'}
FOLD = {'fnmatch.fnmatchcase': fnmatch.fnmatchcase, 'fnmatch.fnmatch': fnmatch.fnmatchcase, 'fnmatch.translate': fnmatch.translate, 'glob.escape': glob.escape,
        'operator.eq': lambda a, b: a == b, 'sys.intern': lambda a: a, 'html.escape': html.escape, 'os.fspath': lambda a: a, 'posixpath.basename': os.path.basename,
        'posixpath.dirname': os.path.dirname, 'posixpath.join': os.path.join, 'posixpath.normpath': os.path.normpath, 'textwrap.indent': textwrap.indent}
UNORDERED = {'os.listdir', 'glob.glob', 'os.scandir', 'os.walk', 'glob.iglob', 'os.fwalk'}

_gi_cache = {}


def group_info(pat):
    """(names -> index, optional group indexes, count) or None"""
    if pat in _gi_cache:
        return _gi_cache[pat]
    r = None
    try:
        p = _sre.parse(pat)
        opt = set()
        names = dict(p.state.groupdict)
        count = p.state.groups - 1
        must = set()

        def walk_(items, optional):
            for op, av in items:
                o = str(op)
                if o == 'SUBPATTERN':
                    g, _, _, sub = av
                    if g is not None and optional:
                        opt.add(g)
                    walk_(sub, optional)
                elif o in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                    lo, hi, sub = av
                    walk_(sub, optional or lo == 0)
                elif o == 'BRANCH':
                    for b in av[1]:
                        walk_(b, True)
                elif o in ('ASSERT', 'ASSERT_NOT'):
                    walk_(av[1], optional or o == 'ASSERT_NOT')
                elif o == 'ATOMIC_GROUP':
                    walk_(av, optional)
                elif o == 'GROUPREF_EXISTS':
                    walk_(av[1], True)
                    if av[2]:
                        walk_(av[2], True)
        walk_(p, False)
        r = (names, opt, count)
    except Exception:    # noqa: a pattern of the regex module only
        r = None
    _gi_cache[pat] = r
    return r
