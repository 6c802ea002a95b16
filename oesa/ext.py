"""Functions of the standard library and of the builtins."""
import ast
import json as _json
import os
import re
import os.path
import textwrap
import urllib.parse

from oesa.values import *  # noqa
from oesa.heap import UNBOUND, musts, widen
from oesa import seg
from oesa.model import DATA, SEQ, ordered, uel, tyof, has_uel


def _names(st, v):
    return v


SNAP = {}     # hashed texts: equal numbers stand for equal texts


def hashed(seq):
    """the text that was hashed, if all of it is known"""
    out = []
    for v in seq:
        a = one(v)
        if a is None:
            return None
        e = ex(a)
        if is_k(e) and isinstance(e[2], bytes):
            out.append(e[2].decode('latin-1'))
            continue
        if not (isinstance(e, tuple) and e[:2] == ('meth', 'encode') and len(e) == 3):
            return None
        ps = clean_parts(e[2])
        if ps is None:
            return None
        out += ps
    return ex(mkcat(out))


class Ext:
    # -- helpers ---------------------------------------------------------------

    def atoms(self, st, v):
        """one state for every atom"""
        many = len(v) > 1
        for a in order(v):
            yield (st.copy() if many else st), a

    def drain(self, st, v, node):
        """all elements: list of (state, seq, elem, minlen, unord, must)"""
        out = []
        for x, a in self.atoms(st, v):
            o = x.obj(a)
            un = self.in_any_order(o)
            must = o.must if o is not None else frozenset()
            if a == C(None):
                self.raise_(x, 'TypeError', node, 'None is not iterable')
                continue
            for y, s, el, ml in self.sequence_of(x, a, node):
                if s is None and el is None:
                    el = TOP
                if un:
                    if s is not None:
                        s = tuple(frozenset(uel(z) for z in q) for q in s)
                    if el is not None:
                        el = frozenset(uel(z) for z in el)
                out.append((y, s, el, ml, un, must))
        return out

    def genlist(self, st, node, seq=None, elem=frozenset(), minlen=0, unord=False, kind='iter'):
        v = self.new(st, 'list', node, 'gl', seq=seq, elem=elem, minlen=max(0, minlen), unord=unord)
        return self.iter_of_list(st, v, node) if kind == 'iter' else v

    def fold(self, st, fn, args, node, dotted):
        """a pure function of texts made of known pieces"""
        ss = []
        for v in args:
            a = one(v)
            if a is None or a[0] not in ('c', 't'):
                return None
            if a[0] == 'c':
                ss.append(a[2])
                continue
            s = seg.enc(a[2]) if a[1] == 'str' else None
            if s is None:
                return None
            ss.append(s)
        try:
            return [(st, self.lift(st, fn(*ss), node))]
        except TypeError as x:
            self.raise_(st, 'TypeError', node, str(x))
            return []
        except ValueError as x:
            self.raise_(st, 'ValueError', node, str(x))
            return []

    def pure(self, st, ty, dotted, args, kw=None):
        es = tuple(self.content_expr(st, v, exv(v)) for v in args) + tuple(('kw', k, exv(v)) for k, v in sorted((kw or {}).items()))
        return [(st, frozenset([T(ty, norm(('call', dotted) + es))]))]

    def path_fn(self, st, args, node, dotted, fn):
        out = []
        if len(args) == 1 and len(args[0]) > 1:
            for x, a in self.atoms(st, args[0]):
                out += self.path_fn(x, [frozenset([a])], node, dotted, fn)
            return self.pure_union(st, out)
        for v in args:
            if v == NONE:
                self.raise_(st, 'TypeError', node, 'a path is None')
                return []
        r = self.fold(st, fn, args, node, dotted)
        if r is not None:
            return r
        return self.pure(st, 'str', dotted, args)

    def x_os_path_basename(self, st, args, kw, node):
        return self.path_fn(st, args, node, 'os.path.basename', os.path.basename)

    def x_os_path_dirname(self, st, args, kw, node):
        return self.path_fn(st, args, node, 'os.path.dirname', os.path.dirname)

    def x_os_path_normpath(self, st, args, kw, node):
        return self.path_fn(st, args, node, 'os.path.normpath', os.path.normpath)

    def x_os_path_abspath(self, st, args, kw, node):
        def f(s):
            if not s.startswith('/'):
                raise LookupError
            return os.path.abspath(s)
        try:
            return self.path_fn(st, args, node, 'os.path.abspath', f)
        except LookupError:
            return self.pure(st, 'str', 'os.path.abspath', args)

    def x_os_path_join(self, st, args, kw, node):
        return self.path_fn(st, args, node, 'os.path.join', os.path.join)

    def x_regex_escape(self, st, args, kw, node):
        r = self.fold(st, re.escape, args, node, '') if len(args) == 1 and not kw else None
        return r if r is not None else self.pure(st, 'str', 'regex.escape', args)

    x_re_escape = x_regex_escape

    def x_os_path_isabs(self, st, args, kw, node):
        r = self.fold(st, os.path.isabs, args, node, '')
        return r if r is not None else self.pure(st, 'bool', 'os.path.isabs', args)

    # -- model file system: path -> lines, or None for a directory

    fs = None

    def fs_entry(self, path):
        path = os.path.normpath(path)
        if path in self.fs:
            return 'dir' if self.fs[path] is None else 'file'
        pre = path.rstrip('/') + '/'
        if any(p.startswith(pre) for p in self.fs):
            return 'dir'
        return None

    def fs_test(self, st, args, node, dotted, want):
        out = []
        for x, a in self.atoms(st, args[0]):
            s = a[2] if a[0] == 'c' else seg.enc(a[2]) if a[0] == 't' and a[1] == 'str' else None
            if self.fs is None or not isinstance(s, str):
                out += self.pure(x, 'bool', dotted, [frozenset([a])])
                continue
            e = self.fs_entry(s) if s.startswith('/') else None
            out.append((x, const(e is not None and (want is None or e == want))))
        return out

    def x_os_path_exists(self, st, args, kw, node):
        return self.fs_test(st, args, node, 'os.path.exists', None)

    def x_os_path_lexists(self, st, args, kw, node):
        return self.fs_test(st, args, node, 'os.path.lexists', None)

    def x_os_path_isfile(self, st, args, kw, node):
        return self.fs_test(st, args, node, 'os.path.isfile', 'file')

    def x_os_path_isdir(self, st, args, kw, node):
        return self.fs_test(st, args, node, 'os.path.isdir', 'dir')

    def x_os_path_getsize(self, st, args, kw, node):
        a = one(args[0]) if args else None
        s = a[2] if a is not None and a[0] == 'c' else seg.enc(a[2]) if a is not None and a[0] == 't' and a[1] == 'str' else None
        if self.fs is None or not isinstance(s, str):
            return self.call_unknown_ext(st, 'os.path.getsize', args, kw, node) if hasattr(self, 'call_unknown_ext') else [(st, term('int', 'size', exv(args[0])))]
        if self.fs_entry(s) != 'file':
            self.raise_(st, 'OSError', node, 'no such file')
            return []
        ls = self.fs[s]
        if ls == 'unreadable':
            return [(st, term('int', 'size', exv(args[0])))]
        n = 0
        for v in ls or ():
            cs = seg.chars(exv(v)) if one(v) is not None else None
            if cs is None:
                return [(st, term('int', 'size', exv(args[0])))]
            n += len(cs)
        return [(st, const(n))]

    def x_glob_glob(self, st, args, kw, node):
        a = one(args[0]) if args else None
        if self.fs is None or a is None or a[0] not in ('c', 't'):
            return self.fs_unknown(st, 'glob.glob', args, kw, node)
        s = seg.enc(ex(a))
        if s is None:
            return self.fs_unknown(st, 'glob.glob', args, kw, node)
        import fnmatch
        names = set()
        for p in self.fs:
            q = p
            while q not in ('/', ''):
                names.add(q)
                q = os.path.dirname(q)
        hit = [n for n in sorted(names) if n.count('/') == s.count('/') and all(fnmatch.fnmatchcase(x, y) for x, y in zip(n.split('/'), s.split('/')))]
        return [(st, self.new(st, 'list', node, 'fs', seq=tuple(frozenset([seg.dec(h)]) for h in self.permuted(hit)), unord=len(hit) > 1))]

    def x_glob_iglob(self, st, args, kw, node):
        return [(x, self.iter_of_list(x, v, node)) for x, v in self.x_glob_glob(st, args, kw, node)]

    def x_os_listdir(self, st, args, kw, node):
        a = one(args[0]) if args else None
        s = seg.enc(ex(a)) if a is not None and a[0] in ('c', 't') else None
        if self.fs is None or s is None:
            self.raise_(st.copy(), 'OSError', node, 'the directory may be missing')
            return self.fs_unknown(st, 'os.listdir', args, kw, node)
        pre = s.rstrip('/') + '/'
        if self.fs_entry(s) != 'dir':
            self.raise_(st, 'OSError', node, 'no such directory')
            return []
        hit = sorted({p[len(pre):].split('/')[0] for p in self.fs if p.startswith(pre)})
        return [(st, self.new(st, 'list', node, 'fs', seq=tuple(frozenset([seg.dec(h)]) for h in self.permuted(hit)), unord=len(hit) > 1))]

    def fs_unknown(self, st, dotted, args, kw, node):
        self.emit('extcall', st, dotted=dotted, args=args, kw=kw, node=node)
        es = tuple(self.content_expr(st, v, exv(v)) for v in args)
        return [(st, self.new(st, 'list', node, 'fs', elem=frozenset([T('str', norm(('el', ('fs', dotted) + es)))]), unord=True))]

    def x_textwrap_dedent(self, st, args, kw, node):
        return self.path_fn(st, args, node, 'textwrap.dedent', textwrap.dedent)

    def pair_fn(self, st, args, node, dotted, fn, n=2):
        out = []
        for x, a in self.atoms(st, args[0]):
            if a == C(None):
                self.raise_(x, 'TypeError', node, 'a path is None')
                continue
            r = self.fold(x, fn, [frozenset([a])], node, dotted)
            if r is not None:
                out += r
                continue
            e = ('call', dotted, ex(a))
            out.append((x, self.new(x, 'tuple', node, dotted, seq=tuple(frozenset([T('str', norm(('part', i, e)))]) for i in range(n)))))
        return out

    def x_os_path_splitext(self, st, args, kw, node):
        return self.pair_fn(st, args, node, 'os.path.splitext', os.path.splitext)

    def x_os_path_split(self, st, args, kw, node):
        return self.pair_fn(st, args, node, 'os.path.split', os.path.split)

    # -- builtins ---------------------------------------------------------------

    def x_builtins_len(self, st, args, kw, node):
        out = []
        for x, a in self.atoms(st, args[0]):
            o = x.obj(a)
            if o is not None:
                if o.kind == 'inst':
                    f = self.find_attr(x, o.cls, '__len__')
                    if f is not None:
                        out += self.call(x, self.bind(x, f, a), [], {}, node)
                        continue
                    self.raise_(x, 'TypeError', node, 'object has no len()')
                    continue
                if o.kind in SEQ + ('set',):
                    if o.seq is not None and not o.multi:
                        out.append((x, const(len(o.seq))))
                        continue
                elif o.kind == 'dict':
                    if self.exact_dict(o) and not o.multi:
                        out.append((x, const(len(o.ent))))
                        continue
                else:
                    self.raise_(x, 'TypeError', node, '%s has no len()' % o.kind)
                    continue
                out.append((x, frozenset([T('int', ('len', a, o.ver))])))
                continue
            if a[0] == 'c':
                if not hasattr(a[2], '__len__'):
                    self.raise_(x, 'TypeError', node, '%r has no len()' % (a[2],))
                    continue
                out.append((x, const(len(a[2]))))
                continue
            s = seg.enc(ex(a)) if a[0] == 't' and a[1] == 'str' else None
            if s is not None:
                out.append((x, const(len(s))))
                continue
            out.append((x, frozenset([T('int', norm(('len', ex(a))))])))
        return self.pure_union(st, out) if len(args[0]) > 1 else out

    def x_builtins_str(self, st, args, kw, node):
        if not args:
            return [(st, EMPTY)]
        return self.to_str(st, args[0], node)

    def x_builtins_repr(self, st, args, kw, node):
        out = []
        for x, a in self.atoms(st, args[0]):
            o = x.obj(a)
            if o is not None and o.kind == 'inst':
                f = self.find_attr(x, o.cls, '__repr__')
                if f is not None:
                    out += self.call(x, self.bind(x, f, a), [], {}, node)
                else:
                    out.append((x, term('str', 'uel', ('repr', a, 0))))
                continue
            out.append((x, self.repr_of(x, frozenset([a]), node)))
        return out

    def x_builtins_int(self, st, args, kw, node):
        if not args:
            return [(st, const(0))]
        a = one(args[0])
        if a is not None and a[0] == 'c':
            try:
                return [(st, const(int(a[2], *[cval(v) for v in args[1:]]) if args[1:] else int(a[2])))]
            except ValueError as x:
                self.raise_(st, 'ValueError', node, str(x))
                return []
            except TypeError as x:
                self.raise_(st, 'TypeError', node, str(x))
                return []
        if a is not None and a[0] == 't' and a[1] in ('int', 'bool'):
            return [(st, frozenset([T('int', a[2])]))]
        self.raise_(st.copy(), 'ValueError', node, 'the text may not be a number')
        return [(st, term('int', 'int', exv(args[0])))]

    def x_builtins_float(self, st, args, kw, node):
        self.raise_(st.copy(), 'ValueError', node, 'the text may not be a number')
        return [(st, term('float', 'float', exv(args[0]) if args else ()))]

    def x_builtins_bool(self, st, args, kw, node):
        if not args:
            return [(st, FALSE)]
        t, f = self.truth(st, args[0])
        return [(x, TRUE) for x, _ in t] + [(x, FALSE) for x, _ in f]

    def seq_ctor(self, st, args, kw, node, kind):
        if not args:
            return [(st, self.new(st, kind, node, kind, seq=()))]
        out = []
        for x, a in self.atoms(st, args[0]):
            if a == C(None):
                self.raise_(x, 'TypeError', node, 'None is not iterable')
                continue
            o = x.obj(a)
            un = self.in_any_order(o)
            must = musts(o) if o is not None and o.kind in SEQ + ('set',) else frozenset()
            for y, s, el, ml in self.sequence_of(x, a, node):
                if s is None and el is None:
                    el = TOP
                if kind == 'set':
                    v = self.new(y, 'set', node, 'set', seq=())
                    if s is not None:
                        for q in s:
                            self.set_add(y, one(v)[1], q)
                    else:
                        w = y.w(one(v)[1])
                        w.seq, w.elem, w.minlen, w.must = None, ordered(el), 1 if ml > 0 else 0, ordered(must)
                else:
                    v = self.new(y, kind, node, kind, seq=tuple(s) if s is not None else None, elem=el if s is None else frozenset(),
                                 minlen=0 if s is not None else max(0, ml), must=must if s is None else frozenset(), unord=un)
                out.append((y, v))
        return out

    def x_builtins_list(self, st, args, kw, node):
        return self.seq_ctor(st, args, kw, node, 'list')

    def x_builtins_tuple(self, st, args, kw, node):
        return self.seq_ctor(st, args, kw, node, 'tuple')

    def x_builtins_set(self, st, args, kw, node):
        return self.seq_ctor(st, args, kw, node, 'set')

    x_builtins_frozenset = x_builtins_set
    x_collections_deque = x_builtins_list

    def x_builtins_dict(self, st, args, kw, node):
        d = self.new(st, 'dict', node, 'dict')
        sts = [st]
        for v in args[:1]:
            sts = [y for x in sts for y, _ in self.dict_update(x, d, v, node)]
        for k, v in kw.items():
            sts = [y for x in sts for y in self.set_item(x, d, const(k), v, node, init=True)]
        return [(x, d) for x in sts]

    x_collections_OrderedDict = x_builtins_dict

    def x_collections_defaultdict(self, st, args, kw, node):
        out = []
        for x, d in self.x_builtins_dict(st, args[1:], kw, node):
            if args and args[0] != NONE:
                x.w(one(d)[1]).x = {'factory': args[0]}
            out.append((x, d))
        return out

    def x_collections_Counter(self, st, args, kw, node):
        d = self.new(st, 'dict', node, 'counter', x={'factory': ext('builtins.int')})
        if args:
            for x, s, el, ml, un, must in self.drain(st, args[0], node):
                pass
            ks = el if s is None else frozenset().union(*s) if s else frozenset()
            st.w(one(d)[1]).rest = (ks, term('int', 'counter'))
        return [(st, d)]

    def x_builtins_dict_fromkeys(self, st, args, kw, node):
        val = args[1] if len(args) > 1 else NONE
        out = []
        for x, s, el, ml, un, must in self.drain(st, args[0], node):
            d = self.new(x, 'dict', node, 'fromkeys', unord=un)
            w = x.w(one(d)[1])
            if s is not None and all(one(q) for q in s):
                for q in s:
                    ka = one(q)
                    if ka not in w.ent:
                        ds = [self.decide(x, ka, 'Eq', k) for k in w.ent]
                        if True in ds:
                            continue
                        if None in ds:
                            w.rest = ((w.rest[0] if w.rest else frozenset()) | q, (w.rest[1] if w.rest else frozenset()) | val)
                            continue
                        w.ent[ka] = (val, True)
            else:
                ks = el if s is None else frozenset().union(*s)
                if ks:
                    w.rest = (ks, val)
                    w.x = {'keysof': args[0]}
                for m in must:
                    w.ent[m] = (val, True)
            out.append((x, d))
        return out

    x_dict_fromkeys = x_builtins_dict_fromkeys

    def x_builtins_sorted(self, st, args, kw, node):
        return self.sort_list(st, args[0], kw, node)

    def x_builtins_reversed(self, st, args, kw, node):
        out = []
        for x, s, el, ml, un, must in self.drain(st, args[0], node):
            out.append((x, self.genlist(x, node, tuple(reversed(s)) if s is not None else None, el or frozenset(), ml, un)))
        return out

    def x_builtins_iter(self, st, args, kw, node):
        if len(args) > 1:
            return [(st, self.genlist(st, node, None, TOP))]
        out = []
        for x, a in self.atoms(st, args[0]):
            out += [(y, ref(i)) for y, i in self.iterate(x, a, node)]
        return out

    def x_builtins_next(self, st, args, kw, node):
        out = []
        for x, a in self.atoms(st, args[0]):
            o = x.obj(a)
            if o is None or o.kind != 'iter':
                if o is not None and o.kind == 'inst':
                    f = self.find_attr(x, o.cls, '__next__')
                    if f is not None:
                        out += self.call(x, self.bind(x, f, a), [], {}, node)
                        continue
                b = x.copy()
                if len(args) > 1:
                    out.append((b, args[1]))
                else:
                    self.raise_(b, 'StopIteration', node, 'the iterator may have ended')
                out.append((x, term('any', 'next', ex(a))))
                continue
            out += self.next_(x, a, args[1] if len(args) > 1 else None, node)
        return out

    def x_builtins_enumerate(self, st, args, kw, node):
        start = cval(args[1] if len(args) > 1 else kw.get('start', const(0)))
        out = []
        for x, a in self.atoms(st, args[0]):
            for y, it in self.iterate(x, a, node):
                o = y.get(it)
                out.append((y, ref(self.alloc(y, 'iter', node, 'enum', x={'k': 'enum', 'i': start if isinstance(start, int) else 0}, d={'src': ref(it)}, unord=o.unord))))
        return out

    def x_builtins_range(self, st, args, kw, node):
        if all(is_const(v) for v in args):
            try:
                r = range(*[cval(v) for v in args])
            except TypeError as x:
                self.raise_(st, 'TypeError', node, str(x))
                return []
            if len(r) <= 64:
                return [(st, self.newlist(st, [const(i) for i in r], node, 'tuple'))]
        return [(st, self.new(st, 'tuple', node, 'range', elem=frozenset([T('int', norm(('el', ('range',) + tuple(exv(v) for v in args))))])))]

    def x_builtins_zip(self, st, args, kw, node):
        cur = [(st, [])]
        for v in args:
            cur = [(y, acc + [(s, el, ml, un)]) for x, acc in cur for y, s, el, ml, un, must in self.drain(x, v, node)]
        out = []
        for x, cols in cur:
            un = any(c[3] for c in cols)
            if all(c[0] is not None for c in cols):
                n = min([len(c[0]) for c in cols] or [0])
                seq = tuple(self.new(x, 'tuple', node, 'zip', seq=tuple(c[0][i] for c in cols)) for i in range(n))
                out.append((x, self.genlist(x, node, seq, unord=un)))
            else:
                vals = tuple((frozenset().union(*c[0]) if c[0] is not None else c[1]) or TOP for c in cols)
                el = self.new(x, 'tuple', node, 'zip', seq=vals, multi=True)
                out.append((x, self.genlist(x, node, None, el, min(max(0, c[2]) for c in cols), un)))
        return out

    def apply_each(self, st, fv, v, node, take):
        """loop over v calling fv: list of (state, list oid)"""
        out = []
        for x, s, el, ml, un, must in self.drain(st, v, node):
            acc = self.new(x, 'list', node, 'map', seq=() if s is not None else None, unord=un)
            x = self.hold(x, acc)
            x = self.hold(x, fv)
            if s is not None:
                cur = [x]
                for q in s:
                    nxt = []
                    for y in cur:
                        for z, r in self.call(y, fv, [q], {}, node) if fv != NONE else [(y, q)]:
                            nxt += take(z, one(acc)[1], q, r)
                    cur = nxt
                    if len(cur) > self.opts['maxstates']:
                        cur = self.reduce(cur)
            else:
                cur = [x.copy()]
                ys = [x]
                for _ in range(2):
                    nxt = []
                    for y in ys:
                        if el:
                            for z, r in self.call(y, fv, [el], {}, node) if fv != NONE else [(y, el)]:
                                nxt += take(z, one(acc)[1], el, r)
                    cur += nxt
                    ys = [z.copy() for z in nxt]
                if len(cur) > 1:
                    z = cur[0]
                    for y in cur[1:]:
                        z, _, _ = self.joiner.join2(z, y, one(acc)[1])
                    cur = [z]
            for y in cur:
                self.release(y)
                y, w = self.release(y)
                out.append((y, w))
        return out

    def x_builtins_map(self, st, args, kw, node):
        if len(args) > 2:
            return [(st, self.genlist(st, node, None, TOP))]

        def take(z, acc, q, r):
            self.list_append(z, acc, r)
            return [z]
        return [(x, self.iter_of_list(x, v, node)) for x, v in self.apply_each(st, args[0], args[1], node, take)]

    def x_builtins_filter(self, st, args, kw, node):
        def take(z, acc, q, r):
            t, f = self.truth(z, r)
            out = []
            for y, w in t:
                self.list_append(y, acc, q if args[0] != NONE else w)
                out.append(y)
            return out + [y for y, _ in f]
        return [(x, self.iter_of_list(x, v, node)) for x, v in self.apply_each(st, args[0], args[1], node, take)]

    def x_functools_reduce(self, st, args, kw, node):
        out = []
        for x, s, el, ml, un, must in self.drain(st, args[1], node):
            if s is None:
                out.append((x, term('any', 'reduce', exv(args[1]))))
                continue
            s = list(s)
            if len(args) > 2:
                s.insert(0, args[2])
            if not s:
                self.raise_(x, 'TypeError', node, 'reduce of an empty list')
                continue
            cur = [(x, s[0])]
            for q in s[1:]:
                cur = [r for y, acc in cur for r in self.call(y, args[0], [acc, q], {}, node)]
            out += cur
        return out

    def quant(self, st, args, node, isany):
        out = []
        for x, s, el, ml, un, must in self.drain(st, args[0], node):
            if s is not None:
                cur = [x]
                for q in s:
                    nxt = []
                    for y in cur:
                        t, f = self.truth(y, q)
                        if isany:
                            out += [(z, TRUE) for z, _ in t]
                            nxt += [z for z, _ in f]
                        else:
                            out += [(z, FALSE) for z, _ in f]
                            nxt += [z for z, _ in t]
                    cur = nxt
                out += [(z, FALSE if isany else TRUE) for z in cur]
                continue
            ts = {self.truth_atom(x, a) for a in el or ()}
            if isany and ts <= {False} or not isany and ts <= {True}:
                out.append((x, FALSE if isany else TRUE))
            elif ml > 0 and (isany and ts == {True} or not isany and ts == {False}):
                out.append((x, TRUE if isany else FALSE))
            else:
                out.append((x, frozenset([T('bool', norm(('anyof' if isany else 'allof', frozenset(ex(a) for a in el))))])))
        return out

    def x_builtins_any(self, st, args, kw, node):
        return self.quant(st, args, node, True)

    def x_builtins_all(self, st, args, kw, node):
        return self.quant(st, args, node, False)

    def minmax(self, st, args, kw, node, name):
        out = []
        if len(args) == 1:
            rows = [(x, s, el, ml) for x, s, el, ml, un, must in self.drain(st, args[0], node)]
        else:
            rows = [(st, tuple(args), None, len(args))]
        key = kw.get('key')
        for x, s, el, ml in rows:
            if s is not None and not s or s is None and ml <= 0:
                b = x.copy()
                if 'default' in kw:
                    out.append((b, kw['default']))
                else:
                    self.raise_(b, 'ValueError', node, '%s() of an empty sequence' % name)
                if s is not None:
                    continue
            vals = frozenset().union(*s) if s is not None else el
            if not vals:
                continue
            if C(None) in vals and len(vals) > 1 and key is None:
                self.raise_(x.copy(), 'TypeError', node, '%s() of None' % name)
            if key is not None:
                rs = self.call(x, key, [vals], {}, node)
                for y, _ in rs[:1]:
                    out.append((y, vals))
                continue
            if s is not None and len(s) == 1:
                out.append((x, s[0]))
                continue
            if s is not None and all(is_const(v) for v in s):
                try:
                    out.append((x, const((max if name == 'max' else min)(cval(v) for v in s))))
                    continue
                except TypeError:
                    self.raise_(x, 'TypeError', node, 'values of different types')
                    continue
            if s is not None and len(s) == 2 and one(s[0]) and one(s[1]):
                d = self.decide(x, one(s[0]), 'LtE', one(s[1]))
                if d is not None:
                    out.append((x, s[1] if d == (name == 'max') else s[0]))
                    continue
            tys = {tyof(x, a) for a in vals}
            if tys <= {'int', 'bool'}:
                out.append((x, frozenset([T('int', norm((name, frozenset(ex(a) for a in vals))))])))
            else:
                out.append((x, ordered(vals)))
        return out

    def x_builtins_max(self, st, args, kw, node):
        return self.minmax(st, args, kw, node, 'max')

    def x_builtins_min(self, st, args, kw, node):
        return self.minmax(st, args, kw, node, 'min')

    def x_builtins_sum(self, st, args, kw, node):
        out = []
        for x, s, el, ml, un, must in self.drain(st, args[0], node):
            if s is not None:
                acc = [(x, args[1] if len(args) > 1 else kw.get('start', const(0)))]
                for q in s:
                    acc = [r for y, v in acc for r in self.binop(y, v, ast.Add(), q, node)]
                out += acc
            else:
                if any(x.obj(a) is not None and x.obj(a).kind in SEQ for a in el):
                    e2 = frozenset()
                    for a in el:
                        if x.obj(a) is not None:
                            e2 |= x.obj(a).contents()
                    out.append((x, self.new(x, 'list', node, 'sum', elem=e2)))
                else:
                    out.append((x, frozenset([T('int', norm(('sum', frozenset(ex(a) for a in el))))])))
        return out

    def x_builtins___import__(self, st, args, kw, node):
        n = cval(args[0]) if args and len(args[0]) == 1 else None
        if isinstance(n, str) and n.split('.')[0] not in self.pkgs:
            return [(st, ext(n.split('.')[0]))]
        return [(st, TOP)]

    def x_importlib_import_module(self, st, args, kw, node):
        n = cval(args[0]) if args and len(args[0]) == 1 else None
        if isinstance(n, str) and n.split('.')[0] not in self.pkgs:
            return [(st, ext(n))]
        return [(st, TOP)]

    def x_builtins_isinstance(self, st, args, kw, node):
        t, f = self.isinstance_split(st, args[0], args[1], node)
        return [(x, TRUE) for x in t] + [(x, FALSE) for x in f]

    def x_builtins_issubclass(self, st, args, kw, node):
        a, c = one(args[0]), one(args[1])
        if a and c and a[0] == 'r' and c[0] == 'r' and st.get(a[1]).kind == 'class' and st.get(c[1]).kind == 'class':
            return [(st, const(c in self.mro(a[1], st)))]
        return [(st, term('bool', 'issubclass', exv(args[0]), exv(args[1])))]

    def try_attr(self, st, v, name, node):
        """(results, states in which the attribute is missing)"""
        self.handlers.append({'AttributeError'})
        self.exc.append([])
        frames = st.frames
        rs = self.get_attr(st, v, name, node)
        raised = self.exc.pop()
        self.handlers.pop()
        miss = []
        for r in raised:
            if r[1] == 'AttributeError':
                q = r[0].copy()
                q.frames = frames
                miss.append(q)
            else:
                self.exc[-1].append(r)
        return rs, miss

    def x_builtins_getattr(self, st, args, kw, node):
        n = cval(args[1])
        if not isinstance(n, str):
            out = []
            names = [a for a in args[1]]
            if all(a[0] == 'c' for a in names) and len(names) <= 80:
                for x, a in self.atoms(st, args[1]):
                    out += self.x_builtins_getattr(x, [args[0], frozenset([a])] + args[2:], kw, node)
                return self.merge_results(out, self.region, lim=4)
            for a in args[0]:
                o = st.obj(a)
                self.emit('dynattr', st, obj=a, name=args[1], node=node)
            if len(args) > 2:
                return [(st, frozenset([T('any', norm(('getattr', exv(args[0]), exv(args[1]))))]) | args[2])]
            self.raise_(st.copy(), 'AttributeError', node, 'the attribute may be missing')
            return [(st, frozenset([T('any', norm(('getattr', exv(args[0]), exv(args[1]))))]))]
        if len(args) > 2:
            rs, miss = self.try_attr(st, args[0], n, node)
            return rs + [(x, args[2]) for x in miss]
        return self.get_attr(st, args[0], n, node)

    def x_builtins_hasattr(self, st, args, kw, node):
        n = cval(args[1])
        if isinstance(n, str):
            rs, miss = self.try_attr(st, args[0], n, node)
            return [(x, TRUE) for x, _ in rs] + [(x, FALSE) for x in miss]
        return [(st, term('bool', 'hasattr', exv(args[0]), exv(args[1])))]

    def x_builtins_setattr(self, st, args, kw, node):
        n = cval(args[1])
        if isinstance(n, str):
            return [(x, NONE) for x in self.set_attr(st, args[0], n, args[2], node)]
        for a in args[0]:
            if a[0] == 'r':
                self.write(st, a[1], 'setattr', None, node, args[2])
        return [(st, NONE)]

    def x_builtins_type(self, st, args, kw, node):
        if len(args) != 1:
            return [(st, TOP)]
        r = frozenset()
        for a in args[0]:
            o = st.obj(a)
            if o is not None and o.kind == 'inst':
                r |= ref(o.cls)
            else:
                t = tyof(st, a)
                r |= ext('builtins.' + t) if t else term('any', 'type', ex(a))
        return [(st, r)]

    def x_builtins_id(self, st, args, kw, node):
        if self.opts.get('order') is not None and len(args[0]) == 1:
            return [(st, const(self.arbitrary('id', one(args[0]))))]
        return [(st, term('int', 'uel', ('id', exv(args[0]))))]

    def x_builtins_hash(self, st, args, kw, node):
        if self.opts.get('order') is not None and len(args[0]) == 1:
            a = one(args[0])
            if a[0] == 'c' and isinstance(a[2], (int, float)):
                return [(st, const(hash(a[2])))]
            o = st.obj(a)
            if o is not None and o.kind == 'inst' and self.find_attr(st, o.cls, '__hash__') is not None:
                out = []
                for x, f in self.get_attr(st, args[0], '__hash__', node):
                    out += self.call(x, f, [], {}, node)
                return out
            return [(st, const(self.arbitrary('hash', self.value_key(st, args[0]) or a)))]
        return [(st, term('int', 'uel', ('hash', exv(args[0]))))]

    def x_builtins_callable(self, st, args, kw, node):
        a = one(args[0])
        if a is not None:
            o = st.obj(a)
            if a[0] in ('b', 'bm', 'x') or o is not None and o.kind in ('func', 'cached', 'class', 'partial'):
                return [(st, TRUE)]
            if a[0] == 'c' or o is not None and o.kind in DATA:
                return [(st, FALSE)]
        return [(st, term('bool', 'callable', exv(args[0])))]

    def fold_builtin(self, st, args, kw, node, fn, ty, name):
        if all(is_const(v) for v in args):
            try:
                return [(st, const(fn(*[cval(v) for v in args])))]
            except (TypeError, ValueError) as x:
                self.raise_(st, type(x).__name__, node, str(x))
                return []
        return self.pure(st, ty, 'builtins.' + name, args, kw)

    def x_builtins_chr(self, st, args, kw, node):
        return self.fold_builtin(st, args, kw, node, chr, 'str', 'chr')

    def x_builtins_ord(self, st, args, kw, node):
        return self.fold_builtin(st, args, kw, node, ord, 'int', 'ord')

    def x_builtins_abs(self, st, args, kw, node):
        return self.fold_builtin(st, args, kw, node, abs, 'int', 'abs')

    def x_builtins_print(self, st, args, kw, node):
        self.emit('print', st, args=args, kw=kw, node=node)
        return [(st, NONE)]

    def x_builtins_object(self, st, args, kw, node):
        return [(st, self.new(st, 'inst', node, 'object'))]

    def x_builtins_vars(self, st, args, kw, node):
        return self.get_attr(st, args[0], '__dict__', node) if args else [(st, TOP)]

    def x_builtins_dir(self, st, args, kw, node):
        out = []
        a = one(args[0]) if args and len(args[0]) == 1 else None
        if a is not None and a[0] == 'r' and st.get(a[1]).kind == 'class':
            names = set()
            for c in self.mro(a[1], st):
                if c[0] == 'r':
                    names.update(n for n in st.get(c[1]).d if not n.startswith('$'))
            return [(st, self.newlist(st, [const(n) for n in sorted(names)], node))]
        for x, v in self.get_attr(st, args[0], '__dir__', node):
            for y, w in self.call(x, v, [], {}, node):
                out += self.sort_list(y, w, {}, node)
        return out

    def x_builtins_property(self, st, args, kw, node):
        d = {}
        for n, v in zip(('fget', 'fset', 'fdel'), args):
            if v != NONE:
                d[n] = v
        for n in ('fget', 'fset', 'fdel'):
            if n in kw and kw[n] != NONE:
                d[n] = kw[n]
        return [(st, self.new(st, 'prop', node, 'prop', d=d))]

    def x_builtins_staticmethod(self, st, args, kw, node):
        return [(st, self.new(st, 'static', node, 'static', d={'f': args[0]}))]

    def x_builtins_classmethod(self, st, args, kw, node):
        return [(st, self.new(st, 'classm', node, 'classm', d={'f': args[0]}))]

    def x_abc_abstractmethod(self, st, args, kw, node):
        return [(st, args[0])]

    x_typing_overload = x_abc_abstractmethod
    x_typing_final = x_abc_abstractmethod
    x_contextlib_contextmanager = x_abc_abstractmethod

    def x_typing_cast(self, st, args, kw, node):
        return [(st, args[1])]

    # -- functools, copy, ... ----------------------------------------------------

    def x_functools_cache(self, st, args, kw, node):
        return [(st, self.new(st, 'cached', node, 'cached', d={'f': args[0]}))]

    def x_functools_lru_cache(self, st, args, kw, node):
        a = one(args[0]) if args else None
        if a is not None and a[0] in ('r', 'bm'):
            return self.x_functools_cache(st, args, kw, node)
        return [(st, ext('functools.cache'))]

    def x_functools_cached_property(self, st, args, kw, node):
        return [(st, self.new(st, 'cprop', node, 'cprop', d={'f': args[0]}))]

    def x_functools_wraps(self, st, args, kw, node):
        return [(st, self.new(st, 'partial', node, 'wraps', d={'f': ext('oesa.wraps')}, seq=(args[0],)))]

    def x_functools_update_wrapper(self, st, args, kw, node):
        return self.x_oesa_wraps(st, [args[1], args[0]], kw, node)

    def x_oesa_wraps(self, st, args, kw, node):
        src, new = one(args[0]), one(args[1])
        if src and new and new[0] == 'r':
            w = st.w(new[1])
            o = st.obj(src)
            w.d['__wrapped__'] = args[0]
            if o is not None:
                for k, v in o.d.items():
                    if not k.startswith('$') and k not in ('f', '__wrapped__'):
                        w.d[k] = v
        return [(st, args[1])]

    def x_functools_partial(self, st, args, kw, node):
        d = {'f': args[0]}
        for k, v in kw.items():
            d['kw:' + k] = v
        return [(st, self.new(st, 'partial', node, 'partial', d=d, seq=tuple(args[1:])))]

    def x_functools_total_ordering(self, st, args, kw, node):
        return [(st, args[0])]

    x_dataclasses_dataclass = x_functools_total_ordering

    def x_copy_copy(self, st, args, kw, node):
        out = []
        for x, a in self.atoms(st, args[0]):
            o = x.obj(a)
            if o is not None and o.kind in DATA + ('inst',):
                f = self.find_attr(x, o.cls, '__copy__') if o.kind == 'inst' else None
                if f is not None:
                    out += self.call(x, self.bind(x, f, a), [], {}, node)
                else:
                    out.append((x, self.copy_obj(x, a[1], node)))
            elif a[0] == 't' and a[1] == 'any':
                out.append((x, frozenset([T('any', norm(('copy', a[2])))])))
            else:
                out.append((x, frozenset([a])))
        return out

    def x_copy_deepcopy(self, st, args, kw, node):
        memo = {}
        return [(st, self.deep(st, args[0], node, memo))]

    def deep(self, st, v, node, memo):
        out = set()
        for a in v:
            if a[0] == 'r':
                o = st.get(a[1])
                if o.kind in DATA + ('inst',) and not (o.kind == 'inst' and self.find_attr(st, o.cls, '__deepcopy__') is not None and False):
                    if a[1] in memo:
                        out |= memo[a[1]]
                        continue
                    n = self.copy_obj(st, a[1], node)
                    st.get(one(n)[1]).site = ('deep', self.site(node), o.site)
                    memo[a[1]] = n
                    w = st.w(one(n)[1])
                    w.multi = o.multi
                    d = {k: self.deep(st, x, node, memo) for k, x in o.d.items()}
                    seq = tuple(self.deep(st, x, node, memo) for x in o.seq) if o.seq is not None else None
                    elem = self.deep(st, o.elem, node, memo)
                    ent = {k: (self.deep(st, x, node, memo), m) for k, (x, m) in o.ent.items()}
                    rest = (o.rest[0], self.deep(st, o.rest[1], node, memo)) if o.rest else None
                    w = st.w(one(n)[1])
                    w.d, w.seq, w.elem, w.ent, w.rest = d, seq, elem, ent, rest
                    w.must = frozenset(m for m in o.must if m[0] != 'r')
                    out |= n
                    continue
                out.add(a)
            elif a[0] == 't' and a[1] == 'any':
                out.add(T('any', norm(('deepcopy', a[2]))) if not (isinstance(a[2], tuple) and a[2] and a[2][0] == 'deepcopy') else a)
            else:
                out.add(a)
        return frozenset(out)

    def x_contextlib_suppress(self, st, args, kw, node):
        names = set()
        for v in args:
            for a in v:
                names.add(self.canon_exc(a))
        return [(st, self.new(st, 'cm', node, 'suppress', x={'suppress': frozenset(names)}))]

    def x_contextlib_closing(self, st, args, kw, node):
        return [(st, self.new(st, 'cm', node, 'closing', x={}, d={'value': args[0], 'close': args[0]}))]

    def x_contextlib_nullcontext(self, st, args, kw, node):
        return [(st, self.new(st, 'cm', node, 'null', x={}, d={'value': args[0] if args else NONE}))]

    # -- hashes -------------------------------------------------------------------

    def call_ext(self, st, dotted, args, kw, node, star=None, kwrest=None):
        if dotted.startswith('hashlib.') and dotted != 'hashlib.algorithms_available':
            data = tuple(args[1:] if dotted == 'hashlib.new' else args)
            return [(st, self.new(st, 'hash', node, 'hash', x={'algo': dotted}, seq=data))]
        return super().call_ext(st, dotted, args, kw, node, star, kwrest)

    def m_hash(self, st, recv, name, args, kw, node):
        o = st.get(recv[1])
        if name == 'update':
            self.emit('hash_update', st, oid=recv[1], value=args[0], node=node)
            w = st.w(recv[1])
            if w.seq is not None and len(w.seq) < 2000:
                w.seq = w.seq + (args[0],)
            else:
                w.elem = widen(w.contents(), args[0], True)
                w.seq = None
            return [(st, NONE)]
        if name in ('hexdigest', 'digest'):
            e = tuple(exv(v) for v in o.seq) if o.seq is not None else ('many', frozenset(ex(a) for a in o.elem))
            t = None if o.unord or o.seq is None else hashed(o.seq)
            if t is not None:
                e = (('snap', SNAP.setdefault(t, len(SNAP))),)
            r = T('str' if name == 'hexdigest' else 'bytes', norm(('hash', o.x['algo'] if o.x else '') + (e,)))
            if o.unord:
                r = uel(r)
            return [(st, frozenset([r]))]
        if name == 'copy':
            return [(st, self.copy_obj(st, recv[1], node))]
        return [(st, TOP)]

    # -- other modules ---------------------------------------------------------------

    def x_urllib_parse_urlparse(self, st, args, kw, node, split=False):
        a = one(args[0]) if len(args) == 1 and not kw else None
        t = seg.enc(ex(a)) if a is not None and (a[0] == 't' and a[1] == 'str' or a[0] == 'c' and isinstance(a[2], str)) else None
        if t is not None:
            try:
                r = (urllib.parse.urlsplit if split else urllib.parse.urlparse)(t)
            except ValueError as x:
                self.raise_(st, 'ValueError', node, 'the text is not a valid URL')
                return []
            c = st.get(self.module_oid['oesa_prelude']).d['SplitResult' if split else 'ParseResult']
            return self.call(st, c, [frozenset([seg.dec(z)]) for z in r], {}, node)
        if not all(is_const(v) for v in args):
            self.raise_(st.copy(), 'ValueError', node, 'the text may not be a valid URL')
        return [(st, frozenset([T('any', norm(('call', 'urllib.parse.urlparse') + tuple(exv(v) for v in args)))]))]

    def x_urllib_parse_urlsplit(self, st, args, kw, node):
        return self.x_urllib_parse_urlparse(st, args, kw, node, True)

    def x_json_load(self, st, args, kw, node):
        for a in args[0]:
            o = st.obj(a)
            if o is not None and o.kind == 'file':
                if self.read_errors(st, o, node) == 2:
                    return []
        f = self.fault('json', node)
        if f:
            self.raise_(st.copy(), 'JSONDecodeError', node, 'the file may not be valid JSON')
        if f == 2:
            return []
        a = one(args[0])
        o = st.obj(a) if a is not None else None
        p = cval(o.d['path']) if o is not None and o.kind == 'file' else None
        if isinstance(p, str) and self.pkg_file(p):
            # a database that is part of the analysed package
            if self.opts.get('db') is not None:
                return [(st, self.from_json(st, self.opts['db'], node))]
            with open(p, encoding='utf-8') as i:
                return [(st, self.from_json(st, _json.load(i), node))]
        return [(st, frozenset([T('any', norm(('json', exv(args[0]))))]))]

    def pkg_file(self, p):
        return any(os.path.realpath(p).startswith(os.path.realpath(os.path.dirname(f)) + os.sep) for f, _ in self.mods.values() if f.endswith('__init__.py')) and os.path.isfile(p)

    def from_json(self, st, v, node):
        if isinstance(v, dict):
            oid = self.alloc(st, 'dict', node, 'json')
            for k, w in v.items():
                st.heap[oid].ent[C(k)] = (self.from_json(st, w, node), True)
            return ref(oid)
        if isinstance(v, list):
            return self.new(st, 'list', node, 'json', seq=tuple(self.from_json(st, w, node) for w in v))
        return const(v)

    def x_json_loads(self, st, args, kw, node):
        self.raise_(st.copy(), 'JSONDecodeError', node, 'the text may not be valid JSON')
        return [(st, frozenset([T('any', norm(('json', exv(args[0]))))]))]

    def x_itertools_chain(self, st, args, kw, node):
        cur = [(st, [], frozenset(), True, 0, False)]
        for v in args:
            nxt = []
            for x, seq, el, exact, ml, un in cur:
                for y, s, e, m, u, must in self.drain(x, v, node):
                    nxt.append((y, seq + list(s or ()), el | (e or frozenset()), exact and s is not None, ml + max(0, m), un or u))
            cur = nxt
        out = []
        for x, seq, el, exact, ml, un in cur:
            if exact:
                out.append((x, self.genlist(x, node, tuple(seq), unord=un)))
            else:
                out.append((x, self.genlist(x, node, None, el | frozenset().union(*seq) if seq else el, ml, un)))
        return out

    def x_itertools_chain_from_iterable(self, st, args, kw, node):
        out = []
        for x, s, el, ml, un, must in self.drain(st, args[0], node):
            if s is not None:
                out += self.x_itertools_chain(x, list(s), {}, node)
            else:
                e = frozenset()
                for a in el or TOP:
                    for y, s2, e2, m2 in self.sequence_of(x, a, node):
                        e |= frozenset().union(*s2) if s2 else (e2 or (frozenset() if s2 is not None else TOP))
                out.append((x, self.genlist(x, node, None, e, 0, un)))
        return out

    def x_itertools_islice(self, st, args, kw, node):
        out = []
        for x, s, el, ml, un, must in self.drain(st, args[0], node):
            if s is not None and all(is_const(v) for v in args[1:]):
                out.append((x, self.genlist(x, node, tuple(s[slice(*[cval(v) for v in args[1:]])]), unord=un)))
            else:
                out.append((x, self.genlist(x, node, None, el if s is None else frozenset().union(*s), 0, un)))
        return out

    def x_itertools_takewhile(self, st, args, kw, node):
        out = []
        for x, s, el, ml, un, must in self.drain(st, args[1], node):
            e = el if s is None else frozenset().union(*s)
            if e:
                self.call(x.copy(), args[0], [e], {}, node)
            out.append((x, self.genlist(x, node, None, e, 0, un)))
        return out

    x_itertools_dropwhile = x_itertools_takewhile

    def x_itertools_filterfalse(self, st, args, kw, node):
        def take(z, acc, q, r):
            t, f = self.truth(z, r)
            out = []
            for y, w in f:
                self.list_append(y, acc, q)
                out.append(y)
            return out + [y for y, _ in t]
        return [(x, self.iter_of_list(x, v, node)) for x, v in self.apply_each(st, args[0], args[1], node, take)]

    def x_itertools_count(self, st, args, kw, node):
        return [(st, self.genlist(st, node, None, term('int', 'count'), 1))]

    def x_itertools_repeat(self, st, args, kw, node):
        return [(st, self.genlist(st, node, None, args[0], 1))]

    def x_operator_attrgetter(self, st, args, kw, node):
        return [(st, self.new(st, 'getter', node, 'attrgetter', x={'kind': 'attr', 'names': tuple(cval(v) for v in args)}))]

    def x_operator_itemgetter(self, st, args, kw, node):
        return [(st, self.new(st, 'getter', node, 'itemgetter', x={'kind': 'item', 'names': tuple(cval(v) for v in args)}))]

    def call_getter(self, st, o, args, node):
        cur = [(st, [])]
        for n in o.x['names']:
            nxt = []
            for x, acc in cur:
                v = args[0]
                if o.x['kind'] == 'item':
                    rs = self.get_item(x, v, const(n), node)
                else:
                    rs = [(x, v)]
                    for p in str(n).split('.'):
                        rs = [r for y, w in rs for r in self.get_attr(y, w, p, node)]
                nxt += [(y, acc + [w]) for y, w in rs]
            cur = nxt
        if len(o.x['names']) == 1:
            return [(x, acc[0]) for x, acc in cur]
        return [(x, self.newlist(x, acc, node, 'tuple')) for x, acc in cur]
