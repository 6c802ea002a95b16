"""C13: every resolved include or inherit is linked to its includer"""
import itertools
import os.path

from oesa.rule import *  # noqa

RULE = ('linked: a file that a statement resolves to is among the files linked to the including one, before and after finalization; parsed: the items of that file are '
        'in the collection; attribute: the path(s) the statement\'s item reports name the linked file(s)')
EXPLAIN = ('All kinds of including statements (require, include, inherit, inherit_defer, INHERIT, several names, names behind references and inline helpers) are combined with '
           'all situations the target can be in (new, already parsed directly or for another file, being parsed, empty, unreadable, near an ignored name) and all kinds of '
           'including files; each combination is parsed by abstract interpretation of the current source on a model file system with unknown contents.')
EXPECT = {'rule linked': 600, 'rule parsed': 250, 'rule attribute': 250}

L = '/l/'
T1, T2, T3 = clean('a'), clean('b'), clean('c')
INCS = ('require', 'include')
INHS = ('inherit', 'inherit_defer', 'INHERIT +=', 'INHERIT =', 'INHERIT ?=', 'INHERIT:+=')
CONTENT = [['T = "', T2, '"\n'], ['# ', T3, '\n']]


def stmt(kind, name):
    """the statement and how the name is written in it"""
    if kind.startswith('INHERIT'):
        return ['INHERIT' + kind[7:].replace(':', '') + ('"' if ':' in kind else ' "'), name, '"\n']
    return [kind + ' ', name, '\n']


def targets(kind):
    """(written name, path of the target) relative to the includer in /l/r"""
    if kind in INCS:
        return [('g.inc', L + 'r/g.inc'), ('conf/g.conf', L + 'conf/g.conf'), ('sub/h_1.bb', L + 'r/sub/h_1.bb'), ('g.txt', L + 'r/g.txt'), ('g', L + 'g'), ('../q/g-x_y.inc', L + 'q/g-x_y.inc'),
                ('classes/k.bbclass', L + 'classes/k.bbclass'), ('g.bbappend', L + 'r/g.bbappend'), ('gtk+.inc', L + 'r/gtk+.inc'), ('/l/o/g.inc', L + 'o/g.inc')]
    t = [('k', L + 'classes/k.bbclass'), ('k.bbclass', L + 'classes/k.bbclass'), ('k', L + 'r/classes/k.bbclass'), ('k-m_n+o', L + 'classes-global/k-m_n+o.bbclass')]
    if not kind.startswith('INHERIT'):
        t.append(('k', L + 'classes-recipe/k.bbclass'))
    return t


MAINS = [L + 'r/f_1.bb', L + 'r/f_%.bbappend', L + 'r/m.inc', L + 'r/c.conf', L + 'r/classes/z.bbclass']
STATES = ['new', 'added before', 'added for another', 'empty', 'unreadable', 'twice', 'added before by class', 'blank']


def run(ctx):
    jobs = [('grid', k) for k in range(12)] + [('graphs', k) for k in range(4)] + [('names', k) for k in range(2)] + [('direct', 0), ('ignored', 0)]
    ctx.spread(dispatch, jobs)


def dispatch(ctx, what, k):
    globals()[what](ctx, k)


class Case:
    def __init__(self, ctx, files, order, db=None, **opts):
        self.ctx = ctx
        self.D = D = shared(ctx, db)
        D.files({p: c for p, c in files.items()})
        self.files = files
        st, s = D.stash(quiet=True, **opts)
        D.keep(st, '$s', s)
        for f in order:
            if isinstance(f, tuple):
                st, _ = D.do(st, s, 'AddFile', f[0], forcedLink=f[1])
            else:
                st, _ = D.do(st, s, 'AddFile', f)
        self.st, self.s = st, s

    def origins(self, f=None):
        D = self.D
        st, r = D.do(self.st, self.s, 'GetItemsFor', **({'filename': f} if f else {}))
        self.st = st
        out = set()
        for it in D.py(st, r):
            _, v = D.get(st.copy(), ref(it.oid), 'Origin')
            out.add(D.py(st, v))
        return out

    def attr(self, f, cls, name):
        """values of an attribute of the items of a kind from a file"""
        D = self.D
        st, r = D.do(self.st, self.s, 'GetItemsFor', filename=f, nolink=True)
        self.st = st
        out = []
        for it in D.py(st, r):
            if it.cls.rsplit('.', 1)[-1] in cls:
                y, v = D.get(st.copy(), ref(it.oid), name)
                out.append(D.py(y, v))
        return out

    def check(self, what, links, attrs=()):
        ctx = self.ctx
        for final in (False, True):
            if final:
                self.st, _ = self.D.do(self.st, self.s, 'Finalize')
            there = self.origins()
            for inc, tgt in links:
                seen = self.origins(inc)
                has = self.files.get(tgt) not in (None, 'unreadable', [], '')
                where = what + (', after Finalize' if final else '')
                if has:
                    ctx.check(tgt in there, 'parsed', '%s: %s' % (where, tgt), '%s: no item of %s is in the collection' % (where, tgt))
                    ctx.check(tgt in seen, 'linked', '%s: %s to %s' % (where, tgt, inc), '%s: %s is not linked to %s: the items for it come from %s' % (where, tgt, inc, sorted(map(repr, seen))))
                if final:
                    inf = self.attr(inc, KINDS, 'IncludedFrom')
                    ctx.check(not inf or all(tgt in x for x in inf), 'linked', '%s: %s to %s, its items' % (where, tgt, inc),
                              '%s: after Finalize %s is not recorded with the items of %s: %s' % (where, tgt, inc, inf[:1]))
                if has and inc != tgt:
                    st, v = self.D.do(self.st, self.s, 'GetLinksForFile', inc)
                    self.st = st
                    got = self.D.py(st, v)
                    ctx.check(tgt in got, 'linked', '%s: links of %s' % (where, inc), '%s: GetLinksForFile(%s) is %s without %s' % (where, inc, sorted(set(map(repr, got))), tgt))
        for inc, cls, name, want in attrs:
            got = self.attr(inc, (cls,), name)
            norm = [frozenset(os.path.normpath(y) if isinstance(y, str) and y else y for y in (x if isinstance(x, (frozenset, list, tuple)) else [x])) for x in got]
            ctx.check(frozenset(want) in norm, 'attribute', '%s: %s.%s' % (what, cls, name), '%s: %s.%s is %s instead of %s' % (what, cls, name, got, sorted(want)))


KINDS = ('Variable', 'Comment', 'Include', 'Inherit', 'Item', 'Function')


def shared(ctx, db):
    key = repr(db)
    if getattr(ctx, 'shared', None) is None:
        ctx.shared = {}
    if key not in ctx.shared:
        ctx.shared[key] = ctx.driver(db=db or {})
    return ctx.shared[key]


def base(**more):
    fs = {L + 'conf/layer.conf': [['\n']], '/l/conf/zzz.conf': [['\n']], '/l/r/zz.txt': [['\n']]}
    return fs


def case_attr(kind, main, path):
    if kind in INCS:
        return (main, 'Include', 'FileIncluded', [path])
    return (main, 'Inherit', 'FilePaths', [path])


def grid(ctx, k):
    n = 0
    for kind in INCS + INHS:
        for ti, (name, path) in enumerate(targets(kind)):
            for main in MAINS:
                for state in STATES:
                    n += 1
                    if n % 12 != k:
                        continue
                    if not ctx.thorough and (n // 12) % 3 and not (main == MAINS[0] and (ti < 2 or state == 'new')):
                        continue
                    if main.startswith(L + 'r/classes') and not name.startswith('/') and kind in INCS and path.startswith(L + 'r/'):
                        path_ = L + 'r/classes/' + name
                    elif main.startswith(L + 'r/classes') and name.startswith('..'):
                        path_ = L + 'r/q/g-x_y.inc'
                    elif main.startswith(L + 'r/classes') and path.startswith(L + 'r/classes/'):
                        path_ = L + 'r/classes/classes/' + path.rsplit('/', 1)[1]
                    else:
                        path_ = path
                    files = base()
                    files[path_] = {'empty': [], 'unreadable': 'unreadable', 'blank': [['\n']]}.get(state, CONTENT)
                    files[main] = [['# ', T1, '\n'], stmt(kind, name)]
                    if state == 'twice':
                        files[main] = files[main] + [['\n'], stmt(kind, name)]
                    order = [main]
                    links = [(main, path_)]
                    other = main.replace('/r/', '/r/').replace(os.path.basename(main), 'other_1.bb')
                    if state == 'added before':
                        order = [path_, main]
                    elif state == 'added for another':
                        files[other] = [['# ', T3, '\n'], stmt(kind, name)]
                        order = [other, main]
                        links = [(main, path_), (other, path_)]
                    elif state == 'added before by class':
                        files[L + 'classes/viaclass.bbclass'] = [['require ', path_, '\n']]
                        files[other] = [['# ', T3, '\n'], ['inherit viaclass\n']]
                        order = [other, main]
                        links = [(main, path_), (L + 'classes/viaclass.bbclass', path_), (other, L + 'classes/viaclass.bbclass')]
                    what = '%s in %s, %s %s' % (''.join(stmt(kind, name)).strip(), main, path_, state)
                    try:
                        c = Case(ctx, files, order)
                        c.check(what, links, [case_attr(kind, main, path_)])
                    except Raised as e:
                        ctx.check(False, 'linked', what, '%s: %s' % (what, e))
                    if n % 160 == k:
                        ctx.sample(what + ': linked')


def graphs(ctx, k):
    """files that include each other"""
    a, b, c = L + 'r/a.inc', L + 'r/b.inc', L + 'r/c.inc'
    r, p, q = L + 'r/f_1.bb', L + 'r/f_%.bbappend', L + 'r/q_1.bb'
    K, M = L + 'classes/k.bbclass', L + 'classes/m.bbclass'
    cf = L + 'r/x.conf'

    def t(n):
        return ['T' + n.upper().replace('.', '') + ' = "', clean(n), '"\n']
    S = [
        ('two includes in a cycle', {r: ['require a.inc'], a: ['require b.inc'], b: ['require a.inc']}, [r], [(r, a), (a, b), (b, a)]),
        ('include cycle entered at both ends', {r: ['require a.inc'], q: ['require b.inc'], a: ['require b.inc'], b: ['include a.inc']}, [r, q], [(r, a), (a, b), (b, a), (q, b)]),
        ('three in a cycle', {r: ['require a.inc'], a: ['require b.inc'], b: ['require c.inc'], c: ['require a.inc']}, [r], [(r, a), (a, b), (b, c), (c, a)]),
        ('classes in a cycle', {r: ['inherit k'], K: ['inherit m'], M: ['inherit k']}, [r], [(r, K), (K, M), (M, K)]),
        ('class includes the recipe', {r: ['inherit k'], K: ['require /l/r/f_1.bb']}, [r], [(r, K), (K, r)]),
        ('class inherited by two recipes', {r: ['inherit k'], q: ['inherit k']}, [r, q], [(r, K), (q, K)]),
        ('class inherited by recipe and class', {r: ['inherit k m'], M: ['inherit k']}, [r], [(r, K), (r, M), (M, K)]),
        ('class inherited by class first', {r: ['inherit m k'], M: ['inherit k']}, [r], [(r, K), (r, M), (M, K)]),
        ('class inherited globally and locally', {cf: ['INHERIT += "k"'], r: ['inherit k']}, [cf, r], [(cf, K), (r, K)]),
        ('diamond', {r: ['require a.inc', 'require b.inc'], a: ['require c.inc'], b: ['require c.inc']}, [r], [(r, a), (r, b), (a, c), (b, c)]),
        ('empty class of two recipes', {r: ['inherit k'], q: ['inherit k'], K: None}, [r, q], [(r, K), (q, K)]),
        ('empty include of two recipes', {r: ['require a.inc'], q: ['require a.inc'], a: None}, [r, q], [(r, a), (q, a)]),
        ('append and recipe include the same', {r: ['require a.inc', 'inherit k'], p: ['require a.inc', 'inherit k']}, [r, p], [(r, a), (p, a), (r, K), (p, K)]),
        ('append first', {r: ['require a.inc', 'inherit k'], p: ['require a.inc', 'inherit k']}, [p, r], [(r, a), (p, a), (r, K), (p, K)]),
        ('recipe added twice', {r: ['require a.inc', 'inherit k']}, [r, r], [(r, a), (r, K)]),
        ('append added twice', {r: [], p: ['require a.inc', 'inherit k']}, [p, r, p], [(p, a), (p, K)]),
        ('append includes append', {p: ['require /l/r/z.bbappend'], r: ['require /l/r/z.bbappend'], L + 'r/z.bbappend': []}, [p, r], [(p, L + 'r/z.bbappend'), (r, L + 'r/z.bbappend')]),
        ('text file of two', {r: ['require g.txt'], q: ['require g.txt'], L + 'r/g.txt': []}, [r, q, L + 'r/g.txt'], [(r, L + 'r/g.txt'), (q, L + 'r/g.txt')]),
        ('includes itself', {r: ['require f_1.bb', 'require a.inc'], a: ['require a.inc', 'inherit k']}, [r], [(r, a), (a, K)]),
        ('class inherits itself', {r: ['inherit k'], K: ['inherit k', 'inherit m']}, [r, q], [(r, K), (K, M)]),
        ('recipes include each other', {r: ['require q_1.bb'], q: ['require f_1.bb']}, [r, q], [(r, q), (q, r)]),
        ('class reached from an include', {r: ['require a.inc'], a: ['inherit k'], q: ['require a.inc', 'inherit k']}, [r, q], [(a, K), (q, K), (q, a), (r, a)]),
        ('several classes, one missing', {r: ['inherit k none m']}, [r], [(r, K), (r, M)]),
        ('same class twice in a row', {r: ['inherit k', 'inherit k m']}, [r], [(r, K), (r, M)]),
        ('classes over two lines', {r: ['inherit k \\', '    m']}, [r], [(r, K), (r, M)]),
        ('global classes over two lines', {cf: ['INHERIT += "k \\', '    m"']}, [cf], [(cf, K), (cf, M)]),
        ('class in progress inherited again below', {r: ['inherit k'], K: ['require /l/r/a.inc'], a: ['inherit k m']}, [r], [(r, K), (K, a), (a, K), (a, M)]),
        ('class added directly, then inherited', {r: ['inherit k']}, [K, r], [(r, K)]),
        ('class added directly twice, then inherited', {r: ['inherit k']}, [K, K, r, q], [(r, K)]),
        ('include added directly, then included by two', {r: ['include a.inc'], q: ['include a.inc']}, [a, r, a, q], [(r, a), (q, a)]),
        ('link given by the caller', {r: []}, [r, (a, r), (K, r)], [(r, a), (r, K)]),
        ('link given by the caller before', {r: []}, [(a, r), (K, r), (K, q), (a, q), r, q], [(r, a), (r, K), (q, K), (q, a)]),
        ('link given for an append', {r: []}, [r, (p, r), (p, q), q], [(r, p), (q, p)]),
        ('reference to the recipe name', {r: ['require ${PN}.inc'], L + 'r/f.inc': []}, [r], [(r, L + 'r/f.inc')]),
        ('reference to a variable of an include', {r: ['require a.inc', 'inherit ${WHICH}', 'require ${NAME}'], a: ['WHICH = "k"', 'NAME = "b.inc"']}, [r], [(r, a), (r, K), (r, b)]),
        ('reference that names two classes', {r: ['require a.inc', 'inherit ${WHICH}'], a: ['WHICH = "k m"']}, [r], [(r, K), (r, M)]),
        ('helper names the class', {r: ["inherit ${@bb.utils.contains('A', 'b', 'k', 'm', d)}"]}, [r], [(r, K)]),
        ('helper among classes', {r: ["inherit m ${@bb.utils.contains('A', 'b', 'k', 'none', d)}"]}, [r], [(r, K), (r, M)]),
    ]
    for n, (what, files, order, links) in enumerate(S):
        if n % 4 != k:
            continue
        fs = base()
        for f in (a, b, c, r, p, q, K, M, cf):
            if f not in files and any(f in x for x in links) or f in order:
                files.setdefault(f, [])
        for f, ls in files.items():
            fs[f] = [] if ls is None else [t(os.path.basename(f))] + [[l + '\n'] for l in ls]
        try:
            Case(ctx, fs, order).check(what, links)
        except Raised as e:
            ctx.check(False, 'linked', what, '%s: %s' % (what, e))
        if what.startswith('helper names'):
            Case(ctx, fs, order, negative_inline=True).check(what + ' (negative)', [])
            x = Case(ctx, dict(fs, **{M: CONTENT}), order, negative_inline=True)
            x.check(what + ' (negative)', [(r, M)])
        ctx.sample('%s: %d links' % (what, len(links)))


def names(ctx, k):
    """unknown names, and every character a name can have"""
    chars = '-_.+@~%,=' if not ctx.thorough else '-_.+@~%,=0Z'
    for n, (kind, pat) in enumerate(itertools.product(INCS + INHS[:3], [[T1]] + [[T1, ch, T2] for ch in chars] + [[ch, T1] for ch in chars if ch in '_0Z'] + [['d/', T1], [T1, '/', T2]])):
        if n % 2 != k:
            continue
        pat = list(pat)
        if kind in INCS:
            name, path = pat + ['.inc'], [L + 'r/'] + pat + ['.inc']
        else:
            name, path = pat, [L + 'classes/'] + pat + ['.bbclass']
        D = shared(ctx, None)
        fs = base()
        main = L + 'r/f_1.bb'
        fs[main] = [['# ', T3, '\n'], stmt(kind, '\0')[:1] + name + stmt(kind, '\0')[2:]]
        fs[tuple(path)] = CONTENT
        D.files(fs)
        st, s = D.stash(quiet=True)
        D.keep(st, '$s', s)
        st, _ = D.do(st, s, 'AddFile', main)
        st, r = D.do(st, s, 'GetItemsFor', filename=main)
        want = txt(*path)
        got, at = set(), []
        for it in D.py(st, r):
            _, v = D.get(st.copy(), ref(it.oid), 'Origin')
            got.add(D.py(st, v))
            if it.cls.rsplit('.')[-1] in ('Include', 'Inherit'):
                y, v = D.get(st.copy(), ref(it.oid), 'FileIncluded' if kind in INCS else 'FilePaths')
                v = D.py(y, v)
                at.append(set(v) if isinstance(v, (frozenset, list, tuple)) else {v})
        what = '%s %s' % (kind, showp(name))
        ctx.check(want in got, 'linked', what, '%s: %s is not linked, the items come from %s' % (what, showp(path), sorted(map(repr, got))))
        ctx.check(at == [{want}], 'attribute', what, '%s: the reported path is %s instead of %s' % (what, at, showp(path)))


def direct(ctx, k):
    """a link named by the caller, for all kinds of files and before or after either is known"""
    names_ = ['g.inc', 'h_1.bb', 'k.bbclass', 'c.conf', 'z.bbappend', 't.txt']
    for a, b in itertools.product(names_, names_):
        if a == b:
            continue
        fs = base()
        x, y = L + 'r/' + a, L + 'r/' + b
        fs[x], fs[y] = [['X = "', T1, '"\n']], [['Y = "', T2, '"\n']]
        for order in ([x, (y, x)], [(y, x), x], [y, x, (y, x)], [(y, x), (y, x), x]):
            what = 'AddFile calls %s' % ', '.join('(%s, forcedLink=%s)' % o if isinstance(o, tuple) else o for o in order)
            Case(ctx, fs, order).check(what, [(x, y)])


def ignored(ctx, k):
    """only the names on the ignore list are left out"""
    db = {'ignore': {'classes': ['kk', 'other'], 'include': ['gg.inc', 'd/hh.inc']}}
    r = L + 'r/f_1.bb'
    for name in ('k', 'kkk', 'akk', 'KK', 'kk-native', 'oth', 'others', 'ignore', 'classes', 'gg', 'inc'):
        for kind in INHS[:3]:
            fs = base()
            p = L + 'classes/%s.bbclass' % name
            fs[p] = CONTENT
            fs[L + 'classes/kk.bbclass'] = CONTENT
            for ns in (name, 'kk ' + name, name + ' other kk', 'none ' + name + ' kk'):
                fs[r] = [['# ', T1, '\n'], stmt(kind, ns)]
                what = '%s with kk and other ignored' % ''.join(stmt(kind, ns)).strip()
                Case(ctx, fs, [r], db=db).check(what, [(r, p)], [(r, 'Inherit', 'FilePaths', [p])])
    for name in ('g.inc', 'hh.inc', 'gg.in', 'agg.inc', 'GG.inc', 'd/gg.inc', 'd/h.inc', 'e/d/hh.inc', 'gg.inc.inc', 'kk'):
        for kind in INCS:
            fs = base()
            p = L + 'r/' + name
            fs[p] = CONTENT
            fs[r] = [['# ', T1, '\n'], stmt(kind, name)]
            what = '%s with gg.inc and d/hh.inc ignored' % ''.join(stmt(kind, name)).strip()
            Case(ctx, fs, [r], db=db).check(what, [(r, p)], [(r, 'Include', 'FileIncluded', [p])])


def showp(ps):
    return ''.join('<%s>' % p[1] if isinstance(p, tuple) else p for p in ps)
