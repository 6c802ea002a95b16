"""A model layer, histories of changes to a collection, and all queries on it; shared by several rules."""
from oesa.rule import *  # noqa

L = '/l/'
R, G, H, K, P, Q, CF, LC = (L + x for x in ('r/p_1.bb', 'r/g.inc', 'r/h.inc', 'classes/k.bbclass', 'r/p_%.bbappend', 'r/q_2.bb', 'conf/machine/m.conf', 'conf/layer.conf'))
K2, IMG, LONE = L + 'classes/image.bbclass', L + 'r/img.bb', L + 'r/lone_%.bbappend'


def t(n):
    return clean(n)


FILES = {
    R: [['require g.inc\n'], ['inherit k\n'], ['A = "', t('a'), ' ${G}"\n'], ['SRC_URI = "file://', t('s'), ';name=', t('sn'), '"\n'],
        ['PACKAGES += "${PN}-', t('pk'), '"\n'], ['PACKAGES_DYNAMIC = "^${PN}-dyn.*"\n'], ['B = "${A} ${KV}"\n'], ['A[', t('fl'), '] = "', t('fv'), '"\n']],
    G: [['G = "', t('g'), '"\n'], ['PACKAGE_BEFORE_PN = "${PN}-', t('bp'), '"\n']],
    H: [['G_append = " ', t('h'), '"\n'], ['SRC_URI += "http://', t('u'), '/x;name=', t('un'), '"\n']],
    K: [['KV = "h"\n'], ['inherit packagegroup\n'], ['k_', t('f'), '() {\n'], ['    :\n'], ['}\n']],
    K2: [['IMAGE_FEATURES = "', t('if'), '"\n']],
    P: [['A_append = " ', t('p'), '"\n'], ['SRC_URI += "file://', t('ps'), ';name=', t('pn'), '"\n'], ['inherit image\n'], ['PACKAGES_DYNAMIC += "', t('dy'), '"\n']],
    LONE: [['A = "', t('l'), '"\n']],
    Q: [['require ${KV}.inc\n'], ['inherit k\n'], ['require ${KV}.inc\n'], ['A = "${G} ${KV}"\n'], ['unset G\n']],
    IMG: [['inherit image\n'], ['IMAGE_INSTALL = "', t('ii'), '"\n']],
    CF: [['MACHINE_X = "', t('m'), '"\n']],
    LC: [['BBPATH = "', t('bb'), '"\n']],
    L + 'r/files/x.patch': [['\n']], L + 'r/p/y.patch': [['\n']], L + 'r/q/z.patch': [['\n']], L + 'r/p/w.txt': [['\n']],
    L + 'classes/files/c.patch': [['\n']],
}
DB = {'images': {'known-classes': ['image'], 'known-variables': ['IMAGE_INSTALL', 'IMAGE_FEATURES']}}

# histories: sequences of changes
ADD, LINK, APPEND, REMOVE, FIN = 'AddFile', 'AddFile linked', 'Append', 'Remove', 'Finalize'
HISTORIES = {
    'recipe first': [(ADD, R), (ADD, P), (ADD, Q), (FIN,), (ADD, LONE), (ADD, CF), (FIN,)],
    'append first': [(ADD, P), (ADD, LONE), (ADD, R), (FIN,), (ADD, IMG)],
    'includes alone': [(ADD, G), (ADD, H), (ADD, K), (ADD, R), (LINK, H, R), (FIN,), (ADD, Q)],
    'class links': [(ADD, Q), (LINK, K2, Q), (ADD, R), (LINK, K2, R), (LINK, K2, IMG), (FIN,)],
    'class first': [(ADD, K), (ADD, Q), (LINK, K, R), (ADD, R), (LINK, P, Q), (ADD, P), (LINK, P, Q), (FIN,)],
    'remove': [(ADD, R), (ADD, P), (REMOVE, 0, 'one'), (REMOVE, 1, 'all'), (FIN,), (APPEND, 1, 'all'), (APPEND, 0, 'one'), (REMOVE, 0, 'tail')],
    'move': [(ADD, R), (ADD, CF), (ADD, LONE), (FIN,), (REMOVE, 1, 'all'), (REMOVE, 2, 'tuple'), (APPEND, 1, 'tuple'), (REMOVE, 0, 'result'), (APPEND, 0, 'result'), (FIN,)],
}

ASK = [R, Q, P]


def queries(files=ASK, more=False):
    """(method, args, kw)"""
    for n in ('GetRecipes', 'GetLoneAppends', 'GetConfFiles', 'GetBBClasses'):
        yield n, (), {}
    yield 'GetItemsFor', (), {}
    yield 'GetItemsFor', (), dict(classifier='Inherit')
    yield 'GetItemsFor', (), dict(attribute='VarName', attributeValue='A')
    yield 'ExpandVar', (), {}
    for f in files:
        yield 'GetLinksForFile', (f,), {}
        yield 'GetItemsFor', (), dict(filename=f)
        yield 'GetItemsFor', (), dict(filename=f, nolink=True)
        yield 'GetItemsFor', (), dict(filename=f, classifier='Variable', attribute='VarName', attributeValue='SRC_URI')
        yield 'ExpandVar', (), dict(filename=f)
        yield 'ExpandTerm', (f, '${A} ${B} ${KV}'), {}
        yield 'GetFiles', (f, '*.patch'), {}
        yield 'GetValidPackageNames', (f,), {}
        yield 'GetValidPackageNames', (f,), dict(strippn=True)
        yield 'GetValidNamedResources', (f,), {}
        yield 'IsImage', (f,), {}
        yield 'IsPackageGroup', (f,), {}
        yield 'GetPackagesDynamic', (f,), {}
        yield 'IsDynamicPackage', (f, 'p-dynx'), {}
        if more:
            yield 'GetItemsFor', (), dict(filename=f, classifier=('Include', 'Inherit'))
            yield 'GetItemsFor', (), dict(filename=f, attribute=('VarName', 'FuncName'))
            yield 'ExpandVar', (), dict(filename=f, attribute='VarName', attributeValue='A')
            yield 'ExpandVar', (), dict(filename=f, nolink=True)
    if more:
        yield 'GetLayerRoot', (R,), {}
        yield 'FindLocalOrLayer', ('g.inc', L + 'r'), {}
        yield 'FindLocalOrLayer', ('classes/k.bbclass', L + 'r'), {}
        yield 'GetScrComponents', ('git://a.b/c;name=x;branch=y',), {}
        yield 'SafeLineSplit', ('a b  c',), {}
        yield 'GuessRecipeName', (R,), {}
        yield 'GuessBaseRecipeName', (R,), {}
        yield 'GuessRecipeVersion', (R,), {}
        yield 'AddDistroMachineFromLayer', (R,), {}


def change(D, st, s, added, step):
    """apply one change; added holds the lists returned by AddFile"""
    what = step[0]
    if what == ADD:
        st, r = D.do(st, s, 'AddFile', step[1])
        D.keep(st, '$added%d' % len(added), r)
        added.append(list(st.obj(one(r)).seq))
        return st
    if what == LINK:
        st, r = D.do(st, s, 'AddFile', step[1], forcedLink=step[2])
        return st
    if what == FIN:
        return D.do(st, s, 'Finalize')[0]
    vals, how = added[step[1]], step[2]
    if how == 'one':
        arg = vals[0]
    elif how == 'result':
        st, arg = D.single(D.call(st, D.cls('Stash.StashList'), s, D.lst(st, vals[1:])), 'StashList()')
    else:
        arg = D.lst(st, vals[1:] if how == 'tail' else vals if not (what == REMOVE and how == 'all' and False) else vals, 'tuple' if how == 'tuple' else 'list')
    D.keep(st, '$arg', arg)
    return D.do(st, s, what, arg)[0]


class Describe:
    """results in terms that do not depend on the evaluation"""

    def __init__(self, D):
        self.D = D
        self.names = {}

    def item(self, st, oid):
        n = self.names.get(oid)
        if n is None:
            D = self.D
            r = []
            for a in ('Origin', 'InFileLine', 'CLASSIFIER', 'RealRaw'):
                _, v = D.get(st.copy(), ref(oid), a)
                r.append(str(D.py(st, v)))
            n = self.names[oid] = '%s of line %s in %s `%s`' % (r[2], r[1], r[0], r[3].replace('\n', '\\n'))
        return n

    def value(self, st, x):
        """result of D.py with items replaced by their descriptions"""
        if isinstance(x, Ins):
            return Thing(self.item(st, x.oid))
        if isinstance(x, list):
            return [self.value(st, y) for y in x]
        if isinstance(x, tuple):
            return tuple(self.value(st, y) for y in x)
        if isinstance(x, dict):
            return {k: self.value(st, v) for k, v in x.items()}
        return x

    def answer(self, st, v):
        return self.value(st, self.D.py(st, v))

    def content(self, st, s):
        """lines and links of all items (on a state that is thrown away)"""
        D = self.D
        st = st.copy()
        st, v = D.do(st, s, 'GetItemsFor')
        out = []
        for it in D.py(st, v):
            r = []
            for a in ('Line', 'IncludedFrom'):
                x, w = D.get(st, ref(it.oid), a)
                p = D.py(x, w)
                r.append(sorted(map(str, p)) if isinstance(p, (list, tuple, set, frozenset)) else p)
            out.append((self.item(st, it.oid), r[0], tuple(r[1]) if isinstance(r[1], list) else r[1]))
        return out


class Thing(str):
    def __repr__(self):
        return '<%s>' % self


def ask(D, st, s, q):
    n, args, kw = q
    kk = {}
    for k, v in kw.items():
        if isinstance(v, tuple):
            v = D.lst(st, list(v))
        kk[k] = v
    return D.do(st, s, n, *args, **kk)


def qname(q):
    return '%s(%s)' % (q[0], ', '.join([repr(a) for a in q[1]] + ['%s=%r' % k for k in sorted(q[2].items())]))


def sname(step):
    return '%s(%s)' % (step[0], ', '.join(str(x) for x in step[1:]))


# a recipe with every kind of statement
Z, ZI, ZK, ZA = L + 'r/z_3.bb', L + 'r/zi.inc', L + 'classes/zk.bbclass', L + 'r/z_%.bbappend'
EVERY = [
    ['# ', t('c'), '\n'], ['# ', t('c2'), '\n'], ['A = "', t('x'), '"\n'], ['A[', t('fl'), '] = "', t('fx'), '"\n'], ['require zi.inc\n'], ['include none-', t('no'), '.inc\n'], ['inherit zk ', t('nok'), '\n'],
    ['inherit_defer ', t('nod'), '\n'], ['INHERIT += "zk"\n'], ['do_', t('fn'), '() {\n'], ['  ', t('body'), '\n'], ['}\n'], ['fakeroot python do_x', t('fn2'), '() {\n'], ['    ', t('body2'), '\n'], ['}\n'],
    ['addtask ', t('tk'), ' before do_', t('tb'), ' after do_', t('ta'), ' # ', t('tc'), '\n'], ['deltask ', t('dk'), ' # ', t('dc'), '\n'],
    ['export ', t('en'), ' = "', t('ev'), '"\n'], ['export ', t('e2'), '\n'], ['EXPORT_FUNCTIONS ', t('ef'), ' ', t('eg'), '\n'], ['unset ', t('un'), '[', t('uf'), ']\n'], ['unset ', t('un2'), '\n'],
    ['def pyf(d):\n'], ['    ', t('py'), '\n'], ['addpylib ${LAYERDIR}/', t('lp'), ' ', t('ln'), '\n'], ['include_all ', t('ia'), '\n'],
    ['addfragments ', t('f1'), ' ', t('f2'), ' ', t('f3'), '\n'], [t('plain'), ' ', t('plain2'), '\n'], ['\n'], ['A:append:', t('ov'), ' = " ', t('z'), '"\n'], ['A:remove = "', t('z'), '"\n'],
    ['I = "a ${@bb.utils.contains(\'V\', \'', t('i1'), '\', \'', t('i2'), '\', \'', t('i3'), '\', d)} b"\n'], ['J = "${@', t('call'), '(d)} ${@oe.utils.conditional(\'A\', \'b\', \'', t('i4'), '\', \'\', d)}"\n'],
    ['F = "${@oe.utils.read_file(\'/l/r/data.txt\')}"\n'], ['F2 = "${@oe.utils.read_file(\'/l/none\')}"\n'], ['GV = "${@d.getVar(\'A\')}"\n'],
    ['M = "', t('m1'), ' \\\n'], [t('m2'), '"\n'], ['M .= "${M} ${PN} ${A} ${I} ${FILE} ${THISDIR} ${PV} ${BPN}"\n'], ['M =. "x"\n'], ['M =+ "y"\n'], ['M ?= "w"\n'], ['M ??= "w"\n'], ['M := "w"\n'], ['M:prepend = "p"\n'],
    ['SRC_URI = "git://', t('h'), '/r;branch=', t('br'), ';name=', t('nm'), ' file://a.patch"\n'], ['PACKAGES =+ "${PN}-', t('pk'), '"\n'], ['PACKAGES_DYNAMIC = "^${PN}-[ab].*"\n'],
    ['IMAGE_FEATURES += "', t('if'), '"\n'], ['COMPATIBLE_MACHINE:machine-', t('mm'), ' = "1"\n'], ['B_class-native = "', t('bn'), '"\n'],
]
TOUR = dict(FILES)
TOUR.update({Z: EVERY, ZI: [['ZI = "', t('zi'), '"\n'], ['require zi.inc\n']], ZK: [['ZK = "', t('zk'), '"\n'], ['inherit zk k\n'], ['zk_do() {\n'], ['}\n']], ZA: [['A += "', t('za'), '"\n'], ['inherit packagegroup\n']],
             L + 'r/data.txt': [[t('data'), '\n']], L + 'r/unreadable.inc': 'unreadable'})


def public(D, cls):
    """public attributes and accessors without arguments of a class: (name, is it an attribute)"""
    out = {}
    st = D.state()
    for c in reversed(D.I.mro(one(cls)[1], st)):
        o = st.obj(c)
        if o is None or o.kind != 'class':
            continue
        for n, v in o.d.items():
            m = st.obj(one(v)) if one(v) and one(v)[0] == 'r' else None
            if n.startswith('_') or m is None:
                continue
            if m.kind in ('prop', 'cprop'):
                out[n] = True
            elif m.kind == 'func':
                a = m.x.node.args
                if len(a.posonlyargs + a.args) - len(a.defaults) <= 1 and not [d for d in a.kw_defaults if d is None]:
                    out[n] = False
    return sorted(out.items())


def expansions(f):
    yield 'ExpandTerm', (f, '${A} ${M} ${I} ${J} ${F} ${F2} ${none} ${PN} ${PV} ${BPN} ${FILE} ${THISDIR} ${GV} ${@d.getVar("A")}'), {}
    yield 'ExpandTerm', (f, "{@ oe.utils.read_file('/l/r/data.txt')}"), {}
    yield 'ExpandTerm', (f, "{@ oe.utils.read_file('/l/none')}"), {}
    yield 'ExpandVar', (), dict(filename=f)


def tour(D, files, add, asked=(Z,), options={}, attrs=True, qs=None, stash=None):
    """everything a caller may do with a collection: steps (label, function of a state)"""
    box = {}

    def begin(st):
        D.files(files)
        st, _ = D.stash(st, quiet=True, **options)
        return st

    def adder(f):
        def go(st):
            st, r = D.do(st, D.kept(st, '$s'), 'AddFile', f)
            old = st.get(st.frames[-1]).d.get('$all')
            both = (D.lst_of(st, old) if old else []) + D.lst_of(st, r)
            box['n'] = len(both)
            D.keep(st, '$all', D.lst(st, both))
            return st
        return go
    yield 'Stash()', begin
    for f in add:
        yield 'AddFile(%s)' % f, adder(f)
    yield 'Finalize()', lambda st: D.do(st, D.kept(st, '$s'), 'Finalize')[0]
    for q in qs if qs is not None else [q for q in queries(asked, True) if q[0] != 'AddDistroMachineFromLayer'] + [q for f in asked for q in expansions(f)]:
        yield qname(q), lambda st, q=q: ask(D, st, D.kept(st, '$s'), q)[0]
    if not attrs:
        return
    box['public'] = {}

    def reader(i):
        def go(st):
            v = st.obj(one(D.kept(st, '$all'))).seq[i]
            c = st.obj(one(v)).cls
            if c not in box['public']:
                box['public'][c] = public(D, ref(c))
            for n, isattr in box['public'][c]:
                x = D.get(st, v, n) if isattr else D.do(st, v, n)
                st = x[0]
            for n in ('__repr__',):
                st, _ = D.func(st, ext('builtins.str'), v)
            return st
        return go
    for i in range(box.get('n', 0)):
        yield 'attributes of item %d' % i, reader(i)


class Ways:
    """a driver whose operations on files and patterns fail at chosen places"""

    KINDS = {'open': (2,), 'read': (2, 3), 'json': (2,), 'timeout': (2,)}

    def __init__(self, ctx, kinds=('open', 'read', 'json'), **opts):
        self.now = None
        self.met = set()
        self.kinds = kinds
        self.D = ctx.driver(faults=self.fault, **opts)

    def fault(self, kind, node, I):
        if kind not in self.kinds:
            return 0
        pl = (kind, I.stack[-1][0].qual, getattr(node, 'lineno', 0))
        self.met.add(pl)
        return self.now[1] if self.now is not None and self.now[0] == pl else 0

    def go(self, steps, k=0, n=1, before=None):
        """yields (label, state or None, exception or None) for each step as it is and with each failure it can meet"""
        done = []
        st = self.D.state()
        for label, f in steps:
            self.met.clear()
            old = st.copy()
            if before:
                before(label)
            try:
                st = f(st)
                yield label, st, None
            except Raised as x:
                yield label, None, x
                st = old
            done.append((label, f, old, sorted(self.met)))
        i = 0
        for label, f, old, met in done:
            for pl in met:
                for m in self.KINDS[pl[0]]:
                    i += 1
                    if i % n != k:
                        continue
                    self.now = (pl, m)
                    if before:
                        before(label)
                    what = '%s with failing %s in %s' % (label, pl[0], pl[1])
                    try:
                        yield what, f(old.copy()), None
                    except Raised as x:
                        yield what, None, x
                    finally:
                        self.now = None


def constants(D):
    """steps: use of the constants"""
    C_ = D.cls('Constants')

    def load(st):
        st, v = D.func(st, C_)
        D.keep(st, '$c', v)
        return st

    def change(name):
        def go(st):
            return D.do(st, D.kept(st, '$c'), name, D.dct(st, {'functions': {'known': ['a'], 'order': ['b']}, 'x': {'y': 'z'}}))[0]
        return go

    def read(st):
        v = D.kept(st, '$c')
        for n, isattr in public(D, C_):
            st, _ = D.get(st, v, n) if isattr else D.do(st, v, n)
        for p in ('functions/known', 'none/none', '', 'x'):
            st, _ = D.do(st, v, 'GetByPath', p)
        return st

    def fromdict(st):
        st, v = D.func(st, C_, D.dct(st, {'functions': {'known': ['a']}}))
        return st
    yield 'Constants()', load
    for n in ('AddConstants', 'RemoveConstants', 'OverrideConstants'):
        yield n, change(n)
    yield 'reading constants', read
    yield 'Constants(dict)', fromdict
