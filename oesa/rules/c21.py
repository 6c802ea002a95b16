"""C21: the fingerprint covers every parsed item and every parser option"""
from oesa.rule import *  # noqa

RULE = ('covered: changing one option, one unknown part of one statement, adding, dropping or moving one statement, or changing what an attribute reports makes the '
        'fingerprint differ; stable: the same files with the same options in the same order give the same fingerprint, whatever is queried in between')
EXPLAIN = ('A set of files (recipe, included files, inherited class, append, layer configuration) with every kind of statement and named unknown texts is parsed by abstract '
           'interpretation of the current source, and the text that enters the hash is compared between variants. Two fingerprints count as equal exactly if the hashed '
           'texts over the named unknowns are equal.')
EXPECT = {'rule covered': 120, 'rule stable': 16}

L = '/l/'
R, G, H, C_, P, CONF, Q = L + 'r/f_1.bb', L + 'r/g.inc', L + 'r/h.inc', L + 'classes/k.bbclass', L + 'r/f_%.bbappend', L + 'conf/layer.conf', L + 'r/q_1.bb'


def t(n):
    return clean(n)


BASE = {
    R: [['# ', t('c'), '\n'], ['A', t('v'), ' = "', t('x'), '"\n'], ['A', t('v'), '[', t('fl'), '] = "', t('fx'), '"\n'], ['require g.inc\n'], ['inherit k\n'], ['INHERIT += "k2"\n'],
        ['do_', t('fn'), '() {\n'], ['  ', t('body'), '\n'], ['}\n'], ['addtask ', t('tk'), ' before do_', t('tb'), ' after do_', t('ta'), '\n'], ['deltask ', t('dk'), '\n'],
        ['export ', t('en'), ' = "', t('ev'), '"\n'], ['export ', t('e2'), '\n'], ['EXPORT_FUNCTIONS ', t('ef'), '\n'], ['unset ', t('un'), '[', t('uf'), ']\n'],
        ['def ', 'pyf', '(d):\n'], ['    ', t('py'), '\n'], ['addpylib ${LAYERDIR}/', t('lp'), ' ', t('ln'), '\n'], ['include_all ', t('ia'), '\n'],
        ['addfragments ', t('f1'), ' ', t('f2'), ' ', t('f3'), '\n'], [t('plain'), ' ', t('plain2'), '\n'], ['\n'], ['D', t('v'), ':append = "', t('z'), '"\n'],
        ['I = "${@', t('call'), '(d)}"\n'], ['S = "', t('s'), '"\n'], ['S = "', t('s'), '"\n'], ['M = "', t('m1'), ' \\\n'], [t('m2'), '"\n']],
    G: [['include h.inc\n'], ['G = "', t('g'), '"\n']],
    H: [['H = "', t('h'), '"\n'], ['# ', t('hc'), '\n']],
    C_: [['K = "', t('k'), '"\n'], ['k_', t('kf'), '() {\n'], ['}\n']],
    P: [['P_append = "', t('p'), '"\n'], ['# ', t('pc'), '\n']],
    Q: [['Q = "', t('q'), '"\n']],
    CONF: [['BB = "', t('lc'), '"\n']],
    L + 'conf/distro/d.conf': [['DD = "', t('dd'), '"\n']],
}
ORDER = [R, P, CONF, Q]


def run(ctx):
    ctx.spread(part, [(k,) for k in range(8)])


def variants():
    """(name, files, order, options)"""
    for i, o in enumerate([{'negative_inline': True}, {'new_style_override_syntax': True}, {'negative_inline': True, 'new_style_override_syntax': True}]):
        yield 'options %s' % ', '.join(sorted(o)), BASE, ORDER, o
    seen = set()
    for f, ls in BASE.items():
        if f.endswith('d.conf'):
            continue
        for li, l in enumerate(ls):
            for pi, p in enumerate(l):
                if not isinstance(p, tuple):
                    continue
                # every occurrence of every unknown, alone
                new = list(l)
                new[pi] = t('changed')
                yield '%s line %d: <%s> changed' % (f, li + 1, p[1]), dict(BASE, **{f: ls[:li] + [new] + ls[li + 1:]}), ORDER, {}
            if f != R or li not in (8,) and 'require' not in l[0]:
                yield '%s line %d dropped' % (f, li + 1), dict(BASE, **{f: ls[:li] + ls[li + 1:]}), ORDER, {}
            if (f, li) in ((R, 0), (R, 1), (R, 12), (R, 21), (G, 0), (H, 0), (P, 0)):
                yield '%s lines %d and %d swapped' % (f, li + 1, li + 2), dict(BASE, **{f: ls[:li] + [ls[li + 1], ls[li]] + ls[li + 2:]}), ORDER, {}
            seen.add(f)
        yield '%s: a comment more at the end' % f, dict(BASE, **{f: ls + [['\n'], ['# ', t('more'), '\n']]}), ORDER, {}
        yield '%s: a plain line more at the end' % f, dict(BASE, **{f: ls + [[t('more'), '\n']]}), ORDER, {}
        yield '%s: an empty line more at the end' % f, dict(BASE, **{f: ls + [['\n']]}), ORDER, {}
    for i in range(len(ORDER) - 1):
        o = list(ORDER)
        o[i], o[i + 1] = o[i + 1], o[i]
        yield 'order %s' % ', '.join(o), BASE, o, {}
    for i in range(len(ORDER)):
        yield 'without %s' % ORDER[i], BASE, ORDER[:i] + ORDER[i + 1:], {}
    # only what an attribute reports differs
    yield 'the include resolves to nothing', {f: ls for f, ls in BASE.items() if f != H}, ORDER, {}
    yield 'the include resolves to an empty file', dict(BASE, **{H: []}), ORDER, {}
    yield 'the empty include is at the layer root', dict({f: ls for f, ls in BASE.items() if f != H}, **{L + 'h.inc': []}), ORDER, {}
    yield 'the class resolves to nothing', {f: ls for f, ls in BASE.items() if f != C_}, ORDER, {}
    yield 'the class is empty', dict(BASE, **{C_: []}), ORDER, {}
    yield 'the empty class is elsewhere', dict({f: ls for f, ls in BASE.items() if f != C_}, **{L + 'classes-recipe/k.bbclass': []}), ORDER, {}
    yield 'the other class exists too', dict(BASE, **{L + 'classes/k2.bbclass': []}), ORDER, {}
    yield 'the append has another name', dict({f: ls for f, ls in BASE.items() if f != P}, **{L + 'r/f%.bbappend': BASE[P]}), [R, L + 'r/f%.bbappend', CONF, Q], {}
    yield 'the append is for another recipe', dict({f: ls for f, ls in BASE.items() if f != P}, **{L + 'r/z_%.bbappend': BASE[P]}), [R, L + 'r/z_%.bbappend', CONF, Q], {}
    yield 'the last recipe has another name', dict({f: ls for f, ls in BASE.items() if f != Q}, **{L + 'r/q_2.bb': BASE[Q]}), [R, P, CONF, L + 'r/q_2.bb'], {}
    yield 'other directory', {f.replace('/l/r/', '/l/s/'): ls for f, ls in BASE.items()}, [f.replace('/l/r/', '/l/s/') for f in ORDER], {}


def part(ctx, k):
    ctx_driver = ctx.driver()
    D = ctx_driver
    base = fingerprint(D, BASE, ORDER, {})
    seen = {}
    for n, (name, files, order, opts) in enumerate(variants()):
        if n % 8 != k:
            continue
        got = fingerprint(D, files, order, opts)
        ctx.check(got != base, 'covered', name, '%s: the fingerprint is the same as without that change' % name)
        other = seen.setdefault(got, name)
        ctx.check(other == name, 'covered', name + ' vs others', '%s: the fingerprint is the same as with %s' % (name, other))
        if n % 40 == k:
            ctx.sample('%s: fingerprint differs' % name)
    if k == 7:
        for files, order, what in (({}, [], 'no file'), ({Q: [['Q = "', t('q'), '"\n']]}, [Q], 'a file without inline code'), ({Q: []}, [Q], 'an empty file')):
            opts = [(a, b) for a in (False, True) for b in (False, True)]
            fps = [fingerprint(D, files, order, dict(negative_inline=a, new_style_override_syntax=b)) for a, b in opts]
            for i in range(4):
                for j in range(i):
                    ctx.check(fps[i] != fps[j], 'covered', 'options with %s' % what, 'with %s the fingerprint is the same for (negative_inline, new_style_override_syntax) = %s and %s' % (
                        what, opts[i], opts[j]))
    again = fingerprint(D, BASE, ORDER, {})
    ctx.check(again == base, 'stable', 'again', 'parsing the same files a second time gives another fingerprint')
    if k < 4:
        queries(ctx, D, base, k)


def fingerprint(D, files, order, opts, st=None):
    D.files(files)
    st, s = D.stash(st, quiet=True, **opts)
    for f in order:
        st, _ = D.do(st, s, 'AddFile', f)
    st, v = D.get(st, s, 'FingerPrint')
    return repr(D.py(st, v))


def queries(ctx, D, base, k):
    # queries, Finalize and other collections in between make no difference
    D.files(BASE)
    st, s = D.stash(quiet=True)
    D.keep(st, '$mine', s)
    if k == 1:
        st, o = D.stash(st, quiet=True, negative_inline=True)
        D.keep(st, '$other', o)
    for f in ORDER:
        st, _ = D.do(st, s, 'AddFile', f)
        if k == 0:
            st, _ = D.do(st, s, 'GetItemsFor', f)
            st, _ = D.get(st, s, 'FingerPrint')
            st, _ = D.do(st, s, 'GetRecipes')
            st, _ = D.do(st, s, 'ExpandVar', f)
        elif k == 1:
            st, _ = D.do(st, o, 'AddFile', f)
    st, a = D.get(st, s, 'FingerPrint')
    a = repr(D.py(st, a))
    ctx.check(a == base, 'stable', 'queries while adding' if k == 0 else 'another collection', 'the fingerprint differs after %s in between' % (
        'queries' if k == 0 else 'nothing' if k > 1 else 'filling another collection'))
    if k == 2:
        for name, args in (('GetItemsFor', ()), ('GetRecipes', ()), ('GetFiles', (R, '*.patch')), ('GetBBClasses', ()), ('GetLoneAppends', ()), ('GetLinksForFile', (R,)), ('GetLayerRoot', (R,)), ('FindLocalOrLayer', ('g.inc', L + 'r')), ('GetConfFiles', ()),
                           ('GetScrComponents', ('http://x/y;z=1',)), ('SafeLineSplit', ('a b',)), ('GuessRecipeName', (R,)), ('GuessBaseRecipeName', (R,)), ('GuessRecipeVersion', (R,)),
                           ('ExpandVar', (R,)), ('ExpandTerm', (R, '${A} ${PN}')), ('GetValidPackageNames', (R,)), ('GetValidNamedResources', (R,)), ('IsImage', (R,)), ('IsPackageGroup', (R,))):
            try:
                st, _ = D.do(st, s, name, *args)
            except scen.Anchor:
                continue
            x, b = D.get(st.copy(), s, 'FingerPrint')
            ctx.check(repr(D.py(x, b)) == base, 'stable', name, 'the fingerprint differs after %s' % name)
    if k == 3:
        for i in range(3):
            x, b = D.get(st.copy(), s, 'FingerPrint')
            ctx.check(repr(D.py(x, b)) == base, 'stable', 'reading %d' % i, 'reading the fingerprint or finalizing changes it')
            st, _ = D.do(st, s, 'Finalize')
            x, r = D.do(st.copy(), s, 'GetItemsFor')
            items = D.py(x, r)
            for it in items[:12]:
                for a in ('InFileLine', 'GetAttributes'):
                    st, _ = D.get(st, ref(it.oid), a) if a != 'GetAttributes' else D.do(st, ref(it.oid), a)
