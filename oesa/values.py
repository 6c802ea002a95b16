"""Abstract values.

An abstract value is a frozenset of atoms (a may-set).  Atoms are tuples:

  ('c', type, value)      constant
  ('t', type, expr)       unknown value of a type, with its provenance
  ('r', oid)              reference to a heap object
  ('x', dotted)           something outside the analysed package
  ('b', atom, name)       method of a non-package value, bound
  ('bm', atom, oid)       package function bound to a receiver
  ('p', text, expr)       compiled pattern (text is None when unknown)
  ('m', patatom, expr, how)   match object
  ('top',)                anything
  ('unbound',)            variable not assigned on some path
"""
import re

TOPA = ('top',)
TOP = frozenset([TOPA])
UNBOUND = ('unbound',)


def C(v):
    return ('c', type(v).__name__, v)


def const(v):
    return frozenset([C(v)])


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
EMPTY = const('')


def T(ty, expr):
    return ('t', ty, expr)


def term(ty, *expr):
    return frozenset([T(ty, norm(expr))])


def ref(oid):
    return frozenset([('r', oid)])


def ext(name):
    return frozenset([('x', name)])


def order(v):
    """atoms in a fixed order"""
    if len(v) < 2:
        return v
    return sorted(v, key=repr)


def one(v):
    """the only atom of a value, or None"""
    if len(v) == 1:
        for a in v:
            return a
    return None


def cval(v, default=None):
    a = one(v)
    if a is not None and a[0] == 'c':
        return a[2]
    return default


def is_const(v):
    a = one(v)
    return a is not None and a[0] == 'c'


# --- expressions -----------------------------------------------------------

def ex(a):
    """expression of an atom"""
    if a[0] == 't':
        return a[2]
    if a[0] == 'c':
        return ('k', a[1], a[2])
    return a


def exv(v):
    """expression of a value"""
    a = one(v)
    if a is not None:
        return ex(a)
    return ('join', frozenset(ex(x) for x in v))


def is_k(e):
    return isinstance(e, tuple) and len(e) == 3 and e[0] == 'k'


def walk(e, seen=None):
    """all sub expressions"""
    if isinstance(e, tuple):
        yield e
        for x in e:
            if isinstance(x, (tuple, frozenset)):
                yield from walk(x)
    elif isinstance(e, frozenset):
        for x in e:
            if isinstance(x, (tuple, frozenset)):
                yield from walk(x)


LEAF_TAGS = {'k', 'tok', 'attr', 'grp', 'param', 'src', 'el', 'uel', 'r', 'idx', 'fs'}


def leaves(e, out=None):
    if out is None:
        out = set()
    if isinstance(e, tuple):
        if e and e[0] in LEAF_TAGS:
            if e[0] == 'grp':
                out.add(('grp', e[1], None, e[3]))
                leaves(e[2], out)
            else:
                out.add(e)
            return out
        if e and e[0] == 'wide':
            out.update(e[1])
            return out
        for x in e:
            if isinstance(x, (tuple, frozenset)):
                leaves(x, out)
    elif isinstance(e, frozenset):
        for x in e:
            leaves(x, out)
    return out


_size_cache = {}


def size(e):
    if not isinstance(e, (tuple, frozenset)):
        return 1
    try:
        return _size_cache[e]
    except KeyError:
        pass
    n = 1
    for x in e:
        n += size(x)
    if len(_size_cache) > 200000:
        _size_cache.clear()
    _size_cache[e] = n
    return n


MAXSIZE = 400


def wide(e):
    lv = leaves(e)
    if len(lv) > 40:
        lv = sorted(lv, key=repr)[:40]
    return ('wide', frozenset(lv))


def norm(e):
    if size(e) > MAXSIZE:
        return wide(e)
    return e


# --- segmented strings --------------------------------------------------------
# ('tok', name, props): props is a frozenset; 'clean' means: a non empty run of
# letters and digits that is different from every other text; 'line' means: a
# text whose only line break is its last character; 'noeol': no line break.

def tok(name, *props):
    return ('tok', name, frozenset(props))


def parts(e):
    """list of str and non-constant expressions"""
    if is_k(e):
        return [e[2]] if isinstance(e[2], str) and e[2] else ([] if e[2] == '' else None)
    if isinstance(e, tuple) and e and e[0] == 'cat':
        return [x[2] if is_k(x) else x for x in e[1:]]
    return [e]


def mkcat(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        elif isinstance(p, tuple) and p and p[0] == 'cat':
            for q in p[1:]:
                q = q[2] if is_k(q) else q
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q:
                    out.append(q)
        else:
            out.append(p)
            if type(p) is tuple and p[0] == 'tok' and type(p[1]) is tuple and p[1][1] == p[1][2] - 1:
                k = p[1][2]
                if out[-k:] == [tokch(p[1][0], i, k) for i in range(k)]:
                    out[-k:] = [p[1][0]]
    if not out:
        return C('')
    if len(out) == 1:
        if isinstance(out[0], str):
            return C(out[0])
        return T('str', out[0])
    e = ('cat',) + tuple(('k', 'str', p) if isinstance(p, str) else p for p in out)
    if len(out) < 8000 and all(isinstance(p, str) or p[0] == 'tok' for p in out):
        return T('str', e)
    return T('str', norm(e))


def tokch(t, i, n):
    """one character of a clean token"""
    return ('tok', (t, i, n), t[2])


def is_clean(p):
    return isinstance(p, tuple) and p[0] == 'tok' and 'clean' in p[2]


def clean_parts(e):
    """parts if every non constant part is a clean token, else None"""
    ps = parts(e)
    if ps is None:
        return None
    for p in ps:
        if not isinstance(p, str) and not is_clean(p):
            return None
    return ps


def is_line(p):
    return isinstance(p, tuple) and p[0] == 'tok' and ('line' in p[2] or 'noeol' in p[2])


# --- linear integers ------------------------------------------------------------

def lin(e):
    """(const, {expr: coef})"""
    if is_k(e):
        return (int(e[2]), {}) if isinstance(e[2], (int, bool)) else None
    if isinstance(e, tuple) and e and e[0] == 'lin':
        return e[1], dict(e[2])
    return 0, {e: 1}


def mklin(k, d):
    d = {x: c for x, c in d.items() if c}
    if not d:
        return C(k)
    if k == 0 and len(d) == 1:
        (x, c), = d.items()
        if c == 1:
            return T('int', x)
    return T('int', ('lin', k, tuple(sorted(d.items(), key=repr))))


def linadd(e1, e2, sign=1):
    a, b = lin(e1), lin(e2)
    if a is None or b is None:
        return None
    d = dict(a[1])
    for x, c in b[1].items():
        d[x] = d.get(x, 0) + sign * c
    return mklin(a[0] + sign * b[0], d)


# --- printing ---------------------------------------------------------------------

def show(e, depth=0):
    if isinstance(e, frozenset):
        return '{' + ' | '.join(sorted(show(x, depth + 1) for x in e)) + '}'
    if not isinstance(e, tuple) or not e:
        return repr(e)
    if depth > 6:
        return '...'
    t = e[0]
    if t == 'c' or t == 'k':
        return repr(e[2])
    if t == 't':
        return show(e[2], depth + 1)
    if t == 'r':
        return '<object %s>' % (e[1],)
    if t == 'x':
        return e[1]
    if t == 'b':
        return show(e[1], depth + 1) + '.' + e[2]
    if t == 'tok':
        if isinstance(e[1], tuple):
            return '<%s>[%d]' % (e[1][0][1], e[1][1])
        return '<%s>' % e[1]
    if t == 'cat':
        return ' + '.join(show(x, depth + 1) for x in e[1:])
    if t == 'grp':
        return 'group(%s)' % (e[3],)
    if t == 'attr':
        return '%s.%s' % (e[1] if isinstance(e[1], str) else show(e[1], depth + 1), e[2])
    if t == 'meth':
        return '%s.%s(%s)' % (show(e[2], depth + 1), e[1], ', '.join(show(x, depth + 1) for x in e[3:]))
    if t == 'call':
        return '%s(%s)' % (e[1], ', '.join(show(x, depth + 1) for x in e[2:]))
    if t == 'lin':
        return ' + '.join([str(e[1])] + ['%s*%s' % (c, show(x, depth + 1)) for x, c in e[2]])
    if t == 'top':
        return '?'
    return '%s(%s)' % (t, ', '.join(show(x, depth + 1) for x in e[1:]))


def showv(v):
    return show(v) if len(v) != 1 else show(one(v))
