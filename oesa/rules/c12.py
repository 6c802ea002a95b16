"""C12: append files match recipes by name only, in either order"""
import itertools
import re

from oesa.rule import *  # noqa

RULE = ('append-match: for every pair of name shapes and both orders of addition, the recipe is linked to the append exactly if the names without '
        'extension agree, % standing for any text; order-free: both orders give the same answer')
EXPLAIN = ('AddFile and the link queries are interpreted abstractly from the current source on a model file system holding one recipe and one append '
           'file whose names are built from named unknown texts and literal characters (including all characters special to regular expressions and '
           'to globbing). Every pair of the name shapes is decided in both orders, together with bystander files that must stay unlinked.')
EXPECT = {'rule append-match': 200, 'rule order-free': 100}

A, B, V, W = (clean(x) for x in ('a', 'b', 'v', 'w'))

# shapes of names without extension
APPENDS = [(A, '_', V), (A, '_%'), (A, '%'), ('%'), (A,), (A, '_', V, '%'), (A, '_', V, '.%'), ('%_', V), (A, '%', V), (A, '-%_', V), (A, '_', V, '.', W), (A, '+', B, '_%'), (A, '.', B), (A, '*_', V),
           (A, '?_', V), (A, '[', V, ']'), (A, '(', V, ')'), (A, '|', B), ('^', A, '$'), (A, '{2}'), (A, '_%', W, '%'), (A, '\\d'), ('%', A, '%'), (A, '_', '%%'), (A, '.*'), (A, '_git'), (A, '_git%'),
           (A, '_1.%'), (A, '_1.2'), (A, '++_%'), (A, ' ', B), (A, '_%.', V)]
RECIPES = [(A, '_', V), (A,), (B, '_', V), (A, '_', W), (A, '_', V, '.', W), (A, '-', B, '_', V), (A, '_', V, W), (A, B), (B, A), (A, '+', B, '_', V), (A, '.', B), (A, 'x', B), (A, A, B), (A, '_git'), (A, '_git1'),
           (A, '_1.2'), (A, '_1x2'), (A, '_1.2.3'), (A, '_12'), (A, '++_', V), ('x', A, '_', V), (A, '[', V, ']'), (A, V), (A, '*_', V), (A, '(', V, ')'), (A, '_'), (A, A), (A, ' ', B), (A, '\\d'), (A, '{2}'), ('^', A, '$'),
           (A, '|', B), (A, '_', V, '_', W), (A.__class__(A), '.', V)]


def flat(shape):
    """characters and tokens"""
    out = []
    for p in ([shape] if isinstance(shape, str) else shape):
        out += list(p) if isinstance(p, str) else [p]
    return out


def spec(app, rec):
    """% stands for any text, all others for themselves"""
    a, r = flat(app), flat(rec)

    def m(i, j):
        if i == len(a):
            return j == len(r)
        if a[i] == '%':
            return any(m(i + 1, k) for k in range(j, len(r) + 1))
        return j < len(r) and a[i] == r[j] and m(i + 1, j + 1)
    return m(0, 0)


def name(shape):
    return ''.join('<%s>' % p[1] if isinstance(p, tuple) else p for p in ([shape] if isinstance(shape, str) else shape))


def full(d, shape, ext):
    return (d,) + ((shape,) if isinstance(shape, str) else tuple(shape)) + (ext,)


def run(ctx):
    ctx.spread(pairs, [(k,) for k in range(8)])


def pairs(ctx, part):
    D = ctx.driver()
    st0, s = D.stash(quiet=True)
    OTHER = [('/l/other/', clean('zz'), '_', clean('yy'), '.bb'), ('/l/other/', clean('zz'), '_', clean('yy'), '.bbappend')]
    line = ['#x\n']

    def key(p):
        return D.text(*p)

    def answers(order, app, rec):
        st = st0.copy()
        for p in order:
            st, _ = D.do(st, s, 'AddFile', key(p))
        out = []
        for final in (False, True):
            if final:
                st, _ = D.do(st, s, 'Finalize')
            x, v = D.do(st.copy(), s, 'GetItemsFor', filename=key(rec))
            o = set()
            for i in D.py(x, v):
                _, w = D.get(x.copy(), ref(i.oid), 'Origin')
                o.add(D.py(x, w))
            y, l = D.do(st.copy(), s, 'GetLoneAppends')
            out.append((txt(*app) in o, txt(*app) not in D.py(y, l), txt(*OTHER[1]) in o))
            if final:
                x, v = D.do(st.copy(), s, 'GetLinksForFile', key(rec))
                out.append((txt(*app) in D.py(x, v),) * 2 + (txt(*OTHER[1]) in D.py(x, v),))
        return out

    recs = RECIPES
    fs = {full('/l/a/', a, '.bbappend'): line for a in APPENDS}
    fs.update({full('/l/r/', r, '.bb'): line for r in RECIPES})
    fs.update({p: line for p in OTHER})
    D.files(fs)
    n = 0
    for a, r in itertools.product(APPENDS, recs):
        app, rec = full('/l/a/', a, '.bbappend'), full('/l/r/', r, '.bb')
        want = spec(a, r)
        if not ctx.thorough and not want and n % 4:
            n += 1
            continue
        n += 1
        if n % 8 != part:
            continue
        what = '%s.bbappend / %s.bb' % (name(a), name(r))
        def body():
            got = {}
            for order, lab in (((app, rec), 'append first'), ((rec, app), 'recipe first')) + ((((app, OTHER[0], rec, OTHER[1]), 'append first, others between'), ((OTHER[1], rec, OTHER[0], app), 'recipe first, others between')) if ctx.thorough or want and n // 8 % 2 else ()):
                try:
                    res = answers(order, app, rec)
                except Raised as x:
                    ctx.check(False, 'append-match', what + ', ' + lab, str(x))
                    continue
                got[lab.split(',')[0]] = res
                for k, (linked, notlone, other) in zip(('before Finalize', 'after Finalize', 'GetLinksForFile'), res):
                    ctx.check(linked == want, 'append-match', '%s, %s' % (what, lab), '%s, %s, %s: the append is %s linked although the names do %s match' % (
                        what, lab, k, '' if linked else 'not', '' if want else 'not'))
                    ctx.check(notlone == want, 'append-match', '%s, %s, lone' % (what, lab), '%s, %s, %s: GetLoneAppends says %s' % (what, lab, k, 'attached' if notlone else 'lone'))
                    ctx.check(not other, 'append-match', '%s, %s, bystander' % (what, lab), '%s: an append of another name is linked' % what)
            if len(got) == 2:
                x, y = got.values()
                ctx.check(x == y, 'order-free', what, 'the answer depends on the order of addition')
        D.explore(body)
        if want and n % 3 == 0:
            ctx.sample('%s: linked in both orders' % what)
