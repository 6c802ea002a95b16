"""C20: file lookup is local first and never leaves the layer"""
import itertools
import os.path

from oesa.rule import *  # noqa

RULE = ('lookup: for every placement of the file and of layer roots along the directory chain, the looked up path is the local one, else the one at the nearest '
        'enclosing layer root, else empty; layer-root: the nearest enclosing layer root or empty; statement-lookup: include, require and inherit use that path')
EXPLAIN = ('FindLocalOrLayer and GetLayerRoot are interpreted abstractly from the current source on model file systems: all combinations of which directories of a chain of four '
           'nested ones (with named unknown names) are layer roots and which hold the file, asked from every directory of the chain and with several shapes of names. '
           'The statements that include and inherit are interpreted on the same trees and the recorded paths are compared.')
EXPECT = {'rule lookup': 300, 'rule layer-root': 60, 'rule statement-lookup': 40}

W, M, R, P = (clean(n) for n in ('w', 'm', 'r', 'p'))
N = clean('n')
CHAIN = [('/', W), ('/', W, '/', M), ('/', W, '/', M, '/', R), ('/', W, '/', M, '/', R, '/', P)]
OTHER = [('/', W, '/', clean('o')), ('/', W, '/', M, '/', clean('q')), ('/', W, '/', M, '/conf')]


def run(ctx):
    ctx.spread(part, [(k,) for k in range(8)])
    ctx.spread(statements, [(k,) for k in range(4)])


def tree(D, roots, having, extra=()):
    fs = {}
    for d in CHAIN:
        fs[d + ('/', clean('z'), '.txt')] = ['\n']
    for d in roots:
        fs[d + ('/conf/layer.conf',)] = ['\n']
    for d in having:
        fs[d] = ['#\n']
    for d in extra:
        fs[d] = ['\n']
    D.files(fs)


def spec(local, rel, roots, files):
    if local + rel in files:
        return txt(*(local + rel))
    for i in range(CHAIN.index(local), -1, -1):
        if CHAIN[i] in roots:
            return txt(*(CHAIN[i] + rel)) if CHAIN[i] + rel in files else ''
    return ''


def part(ctx, k):
    n = 0
    rels = [('/', N, '.inc'), ('/sub/', N, '.inc'), ('/classes/', N, '.bbclass'), ('/', N)]
    for roots in subsets(CHAIN):
        for have in subsets(CHAIN):
            n += 1
            if n % 8 != k:
                continue
            D = ctx.driver()
            st, s = D.stash(quiet=True)
            for rel in rels if ctx.thorough else rels[n // 8 % 4:n // 8 % 4 + 1]:
                files = [d + rel for d in have]
                # the same name elsewhere must not matter
                tree(D, roots, files + [OTHER[0] + rel, OTHER[1] + rel], [OTHER[0] + ('/conf/layer.conf',)])
                st, s = D.stash(quiet=True)
                for local in CHAIN:
                    st, v = D.do(st, s, 'FindLocalOrLayer', D.text(*rel_(rel)), D.text(*local))
                    got = D.py(st, v)
                    want = spec(local, rel, roots, files)
                    what = 'FindLocalOrLayer(%s, %s) with layers %s and files %s' % (show_(rel_(rel)), show_(local), [show_(r) for r in roots], [show_(f) for f in files])
                    ctx.check((got or '') == want, 'lookup', what, '%s returns %r instead of %r' % (what, got, want))
            if not have:
                layer_root(ctx, D, roots)
        if k == 0:
            ctx.sample('layers %s: all lookups agree' % [show_(r) for r in roots])


def layer_root(ctx, D, roots):
    f = ('/', N, '.bb')
    tree(D, roots, [d + f for d in CHAIN] + [OTHER[0] + f, OTHER[1] + f])
    st, s = D.stash(quiet=True)
    for d in CHAIN:
        for asked in (d + f, d, d + ('/conf/layer.conf',)):
            if asked[-1] == '/conf/layer.conf' and d not in roots:
                continue
            st, v = D.do(st, s, 'GetLayerRoot', D.text(*asked))
            got = D.py(st, v)
            want = ''
            for i in range(CHAIN.index(d), -1, -1):
                if CHAIN[i] in roots:
                    want = txt(*CHAIN[i])
                    break
            what = 'GetLayerRoot(%s) with layers %s' % (show_(asked), [show_(r) for r in roots])
            ctx.check(got == want, 'layer-root', what, '%s returns %r instead of %r' % (what, got, want))
    for asked in (('/', N, '/none.bb'), CHAIN[2] + ('/none/none.bb',)):
        st, v = D.do(st, s, 'GetLayerRoot', D.text(*asked))
        got = D.py(st, v)
        ctx.check(got in [''] + [txt(*d) for d in roots if d in CHAIN[:3]], 'layer-root', 'GetLayerRoot(%s)' % show_(asked), 'GetLayerRoot(%s) returns %r' % (show_(asked), got))


def statements(ctx, k):
    n = 0
    for roots in subsets(CHAIN[:3]):
        for have in subsets(CHAIN[:3]):
            for local in CHAIN[1:3]:
                n += 1
                if n % 4 != k or not ctx.thorough and n // 4 % 2:
                    continue
                D = ctx.driver()
                inc, cls = ('/', N, '.inc'), ('/classes/', N, '.bbclass')
                files = [d + inc for d in have] + [d + cls for d in have]
                main = local + ('/', clean('f'), '_1.bb')
                tree(D, roots, files)
                D.I.fs[D.path(main)] = [D.text('require ', N, '.inc\n'), D.text('include ', N, '.inc\n'), D.text('inherit ', N, '\n'), D.text('INHERIT += "', N, '"\n')]
                st, s = D.stash(quiet=True)
                st, items = D.do(st, s, 'AddFile', D.text(*main))
                items = D.py(st, items)
                wi, wc = spec(local, inc, roots, files), spec(local, cls, roots, files)
                what = 'in %s with layers %s and files in %s' % (show_(local), [show_(r) for r in roots], [show_(h) for h in have])
                if not ctx.check(len(items) == 4, 'statement-lookup', what, '%s: %d items' % (what, len(items))):
                    continue
                for i, attr, want in ((0, 'FileIncluded', wi), (1, 'FileIncluded', wi), (2, 'FilePaths', wc), (3, 'FilePaths', wc)):
                    _, v = D.get(st.copy(), ref(items[i].oid), attr)
                    got = D.py(st, v)
                    if attr == 'FilePaths':
                        want = {want} if want else set()
                        got = set(got) if isinstance(got, (list, tuple, frozenset)) else got
                    ctx.check(got == want, 'statement-lookup', what + ', ' + 'require include inherit INHERIT'.split()[i], '%s: %s of %s is %r instead of %r' % (
                        what, attr, 'require include inherit INHERIT'.split()[i], got, want))


def subsets(xs):
    return [c for r in range(len(xs) + 1) for c in itertools.combinations(xs, r)]


def rel_(rel):
    """the name without the leading slash"""
    return (rel[0][1:],) + rel[1:] if rel[0] != '/' else rel[1:]


def show_(ps):
    return ''.join('<%s>' % p[1] if isinstance(p, tuple) else p for p in ps)
