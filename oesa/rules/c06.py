"""C06: parsing and expansion always end"""
import itertools

from oesa.interp import Budget
from oesa.world import *  # noqa

RULE = ('ends: for every reference graph between four files (each requiring, including or inheriting up to one other, and the graphs with all references), every reference graph between four variables through several kinds of references, '
        'nested inline expressions and blocks cut off anywhere, adding, finalizing, expanding and querying reach an end within the bounds on calls of one function within itself, rounds of one loop and steps')
EXPLAIN = ('The library is interpreted abstractly on recipes, includes and classes that refer to each other in every way four files can, by names spelled in several ways, on variables that refer to each other in every way four variables can '
           '(by expansion, inline helper, override, database of base variables), on nested and unclosed inline expressions and blocks, and on directories without a layer up to the root. A function entered more often within itself, a loop '
           'with more rounds, or an operation with more steps than such inputs can need is reported.')
EXPECT = {'rule ends': 500}

DEEP, ROUNDS, STEPS = 60, 700, 6000000
ZJ, ZC, ZD = L + 'r/zj.inc', L + 'classes/zc.bbclass', L + 'classes/zd.bbclass'
NODES = [(Z, 'require ../r/z_3.bb\n'), (ZI, 'require zi.inc\n'), (ZJ, 'include zj.inc\n'), (ZC, 'inherit zc\n')]
SPELL = ['require zi.inc\n', 'require ./zi.inc\n', 'require ../r/zi.inc\n', 'require ${THISDIR}/zi.inc\n', 'include /l/r/zi.inc\n', 'include /l/r/../r/zi.inc\n', 'require r/zi.inc\n', 'require ${ZN}.inc\n', 'require //l/r/zi.inc\n', 'require /l//r/zi.inc\n',
         'inherit zc\n', 'inherit zc zd zc\n', 'inherit_defer zc\n', 'INHERIT += "zc"\n', 'INHERIT = "zd zc"\n', 'inherit ${ZN}\n', 'inherit zc.bbclass\n', 'require ../classes/zc.bbclass\n', 'require classes/zc.bbclass\n', 'inherit ../classes/zc\n',
         'require ${FILE}\n', 'require ${@d.getVar(\'FILE\')}\n', 'require ../r/z_3.bb\n', 'require z_%.bbappend\n', 'require ../conf/layer.conf\n']
EXPANDS = ['${%s}', "${@d.getVar('%s')}", "${@bb.utils.contains('V', 'x', '${%s}', '', d)}", "x ${%s} ${%s} y", "{@ oe.utils.read_file('${%s}')}", "${@oe.utils.read_file('${%s}')}", "${@x('${%s}')}", '${@${%s}}', "a ${@bb.utils.contains('V', '${%s}', '${%s}', '', d)}"]
OPS = [' = ', ' += ', ' .= ', ' ?= ', ' := ', ':append = ', '_append = ', ':prepend:x = ', ' =. ', ' ??= ']
BLOCKS = ['${@', '${@${@', '${@a ${@b', '${@a ${@b}', '${@a ${@b} c}', "${@bb.utils.contains('V', 'x', '${@', '', d)}", "${@bb.utils.contains('V', 'x', '${@y', '${@z}', d)}", "${@d.getVar('@d.getVar(\\'X\\')')}", "${@d.getVar('@x')}", "${@d.getVar('@d.getVar(A)')}", '${@}', '${@}}', '{@}', '${@ "}" }', '${@ {',
          "${@bb.utils.filter('${@x', 'a', d)}", '${@${@${@${@x}}}}', '${${@x}}', '${${${A}}}', '${A${A}}', '${${A}', '${', '${}', '${A', '!!!inlineblock!!!', "${@oe.utils.read_file('${A}')}", "${@oe.utils.read_file(d.getVar('A'))}",
          "{@ oe.utils.read_file('{@ oe.utils.read_file(${A})}')}", "${@oe.utils.conditional('A', '${@', '${@', '${@', d)}", "${@oe.utils.vartrue('A', '${A}', '${@', d)}"]
OPEN = [['do_x() {\n', '  a\n', '}\n'], ['do_x() {\n', '  { {\n', '}\n'], ['python () {\n', '    x = {\n', '    }\n', '}\n'], ['def x():\n', '    y\n', '\n', 'A = "b"\n'], ['# a\n', '# b\n', 'def y():\n', '# c\n', 'A = "b"\n'], ['A = "a \\\n', ' b \\\n', ' c"\n', 'B = "\\\n'], ['# a \\\n', '# b \\\n'],
        ['do_x() { \\\n', 'a \\\n', '}\n'], ['def x():\n', 'def y():\n', 'def z():\n', '# a\n', 'def x():\n'], ['addhandler x\n', 'python x () {\n', '}\n', 'def x():\n', '  a\n', '# y\n', 'def z():\n'], ['A = "${@x( \\\n', ' { \\\n', '"\n'], ['\\\n', '\\\n', '\\\n'], ['A = \'${@bb.utils.contains(\\\n', '"a", "b"\\\n', ')}\'\n'],
        ['fakeroot python do_x:append() {\n', '\n', '\n'], ['\n', '\n', '\\\n', '\n'], ['}\n', '{\n', '}\n'], ['python () { }\n', '}\n', 'A = "b"\n']]
CYCLES = [{'A1': '${A1}'}, {'A1': '${B1}', 'B1': '${A1}'}, {'A1': '${B1}', 'B1': '${C1} ${A}', 'C1': '${A1}'}, {'A1': 'a ${A1}${A1} {@ oe.utils.read_file("${A1}")}'}, {'PN': '${BPN}', 'BPN': '${PN}'}, {'FILE': '${FILE}', 'PV': '${PV}', 'THISDIR': '${FILE}'}]


class Endless(Exception):
    pass


class Watch:
    """stops an evaluation that exceeds the bounds"""

    def __init__(self, I):
        self.I, self.from_ = I, 0

    def reset(self):
        self.from_ = self.I.steps

    def on_loop(self, I, st, node, round, **_):
        if round < 0 or round > ROUNDS:
            raise Endless('the loop at %s does not end after %d rounds' % (I.where(node), ROUNDS))
        self.budget(I)

    def on_call(self, I, st, callee, node, fn=None, **_):
        if fn is None:
            return
        n = sum(1 for f, _ in I.stack if f is fn)
        if n > DEEP:
            raise Endless('%s is entered again within itself, %d deep, from %s' % (fn.qual, n, I.where(node)))
        self.budget(I)

    def on_recursion(self, I, st, fn, node, **_):
        raise Endless('%s is entered again within itself from %s' % (fn.qual, I.where(node)))

    def budget(self, I):
        if I.steps - self.from_ > STEPS:
            f, n = I.stack[0] if I.stack else (None, None)
            chain = ' > '.join(x.qual for x, _ in I.stack[-6:])
            raise Endless('%d steps at %s (%s) without an end' % (STEPS, I.where(), chain))


def run(ctx):
    ctx.spread(part, [(k, 24) for k in range(24)])


class Case:
    def __init__(self, ctx, **opts):
        self.ctx, self.opts, self.bad = ctx, opts, 0
        self.fresh()

    def fresh(self):
        self.D = self.ctx.driver(cache=True, recursion=DEEP + 20, maxdepth=2000, unroll=ROUNDS + 100, rounds=ROUNDS + 200, steps=10**12, **self.opts)
        self.w = Watch(self.D.I)
        self.D.I.hooks.append(self.w)
        self.D.files({Z: [['\n']]})
        self.base, s = self.D.stash(quiet=True)
        self.D.keep(self.base, '$s', s)

    def go(self, what, files, steps):
        if self.bad > 1:
            return
        D = self.D
        D.files(files)
        ends = True

        def body():
            st = self.base.copy()
            for label, f in steps:
                self.w.reset()
                try:
                    st = f(D, st)
                except Raised as x:
                    if x.exc and all(e[0] not in ('NotModelled',) for e in x.exc):
                        if any(e[0] in ('RecursionError', 'MemoryError') for e in x.exc):
                            raise Endless(str(x))
                        # C04 is about exceptions
                        break
                    raise
        try:
            D.explore(body, 24)
        except Endless as x:
            ends = False
            self.bad += 1
            self.ctx.check(False, 'ends', str(x).split(' steps at ')[-1], '%s: %s' % (what, x), ['%s: %s' % (f, ' '.join(text(l) for l in ls)[:600]) for f, ls in sorted(files.items()) if isinstance(ls, list)][:8])
            self.fresh()
        except (RecursionError, Budget) as x:
            ends = False
            self.bad += 1
            self.ctx.check(False, 'ends', what, '%s: %s' % (what, str(x)[:200]), [])
            self.fresh()
        except AnalysisError as x:
            raise AnalysisError('%s: %s' % (what, x))
        if ends:
            self.ctx.check(True, 'ends', what, '')


def text(parts):
    return ''.join(p if isinstance(p, str) else '<%s>' % p[1] for p in parts).replace('\n', '\\n')


def add(f):
    return 'AddFile(%s)' % f, lambda D, st: D.do(st, D.kept(st, '$s'), 'AddFile', f)[0]


def call(n, *args, **kw):
    return '%s%r' % (n, args), lambda D, st: ask(D, st, D.kept(st, '$s'), (n, args, kw))[0]


FINAL = ('Finalize()', lambda D, st: D.do(st, D.kept(st, '$s'), 'Finalize')[0])


def part(ctx, k, m):
    n = [0]

    def mine():
        n[0] += 1
        return n[0] % m == k
    C = Case(ctx, db=DB)
    includes(ctx, C, mine)
    variables(ctx, C, mine)
    blocks(ctx, C, mine)
    roots(ctx, C, mine)
    for cy in CYCLES:
        if mine():
            E = Case(ctx, db=dict(DB, sets={'base': cy}))
            for v in ('${A}', '${A1} ${B1} ${PN} ${BPN} ${FILE} ${PV} ${THISDIR}', '${B1}'):
                E.go('base variables %s' % cy, {Z: [['A = "${B} ${A1}"\n'], ['B = "${B1}"\n'], ['require ${A1}\n']]}, [add(Z), call('ExpandTerm', Z, v), FINAL, call('ExpandTerm', Z, v), call('ExpandVar', filename=Z)])
    if k == 0:
        ctx.sample('reference graphs of %s' % ', '.join(f for f, _ in NODES))
        ctx.sample('bounds: %d nested calls of a function, %d rounds of a loop, %d steps of an operation' % (DEEP, ROUNDS, STEPS))


def includes(ctx, C, mine):
    asked = [FINAL, call('ExpandVar', filename=Z), call('GetValidPackageNames', Z)]
    targets = [None] + [s for _, s in NODES]
    every = list(itertools.product(range(5), repeat=4))
    for i, g in enumerate(every):
        # one reference in each file
        if not ctx.thorough and (g[2] or 3 in g) and sorted(g) != [1, 2, 3, 4]:
            continue
        if mine():
            fs = dict(FILES)
            for (f, _), x in zip(NODES, g):
                fs[f] = [['A += "', t('a'), '"\n']] + ([[targets[x]]] if x else []) + [['B += "x"\n']]
            start = next((j for j, x in enumerate(g) if x), 0)
            C.go('files refer to each other: %s' % ', '.join('%s: %s' % (os.path.basename(f), (targets[x] or '-').strip()) for (f, _), x in zip(NODES, g)), fs, [add(NODES[start][0])] + asked)
    alls = [[x] for _, x in NODES]
    if mine():
        C.go('all four files refer to all', dict(FILES, **{f: alls for f, _ in NODES}), [add(Z), add(ZC)])
    if mine():
        C.go('three files refer to all', dict(FILES, **{f: alls[:3] for f, _ in NODES[:3]}), [add(ZI), FINAL])
    if mine():
        C.go('two files refer to both', dict(FILES, **{f: alls[:2] for f, _ in NODES[:2]}), [add(Z), add(ZI)] + asked)
    for s in SPELL:
        for where in (Z, ZI, ZC, ZA, LC):
            if mine():
                fs = dict(FILES)
                fs.update({Z: [['require zi.inc\n']], ZI: [['inherit zc\n']], ZC: [['ZV = "x"\n']], ZD: [['inherit zc\n'], [s]], ZA: [['require zi.inc\n']]})
                fs[where] = [['ZN = "z', 'i' if 'inc' in s else 'c', '"\n'], [s], ['A = "b"\n']]
                if where == LC:
                    fs[ZC] = [['require conf/layer.conf\n']]
                C.go('%s has `%s`' % (where, s.strip()), fs, [add(where), add(Z), add(ZA)] + asked)


def variables(ctx, C, mine):
    names = ['VA', 'VB', 'PN', 'VC']
    for i, g in enumerate(itertools.product(range(5), repeat=4)):
        kinds = range(len(EXPANDS)) if ctx.thorough or len(set(g)) == 1 else [(i + x) % len(EXPANDS) for x in range(4)] if not g[3] else [i % len(EXPANDS)]
        if not ctx.thorough and (g[3] or 4 in g) and sorted(g) != [1, 2, 3, 4] and i % 7:
            continue
        for kd in kinds:
            if not mine():
                continue
            ls = []
            for j, x in enumerate(g):
                e = EXPANDS[(kd + (j if i % 3 == 0 else 0)) % len(EXPANDS)]
                ls.append(['%s%s"%s"\n' % (names[j], OPS[(i + j) % len(OPS)] if i % 2 else ' = ', e.replace('%s', names[x - 1]) if x else 'x')])
            qs = [call('ExpandTerm', Z, '${%s} a ${%s}' % (names[0], names[i % 4]))] if i % 5 else [call('ExpandTerm', Z, "{@ oe.utils.read_file('${VA}')} ${PN} ${BPN} ${VB}")]
            C.go('variables refer to each other: %s' % '; '.join(text(l)[:-2] for l in ls), {Z: ls}, [add(Z), FINAL] + qs + [call('ExpandVar', filename=Z)] + ([call('GetValidPackageNames', Z)] if i % 4 == 0 else []))
    alls = '${VA} ${VB} ${VC} ${PN}'
    if mine():
        C.go('all four variables refer to all', {Z: [['%s = "%s"\n' % (v, alls)] for v in names]}, [add(Z), FINAL, call('ExpandTerm', Z, alls), call('ExpandVar', filename=Z), call('GetValidPackageNames', Z)])
    for q in (call('GetValidNamedResources', Z), call('GetPackagesDynamic', Z), call('IsDynamicPackage', Z, '${VA}'), call('GetFiles', Z, '*'), call('IsImage', Z), call('GetValidPackageNames', Z, strippn=True)):
        if mine():
            C.go('lists that contain themselves', {Z: [['%s += "${%s} ${VA}-x ${@x} ${PACKAGES}"\n' % (v, v)] for v in ('PACKAGES', 'PN', 'PACKAGES_DYNAMIC', 'SRC_URI', 'VA', 'PACKAGE_BEFORE_PN', 'IMAGE_INSTALL')] + [['inherit ${PN} ${VA}\n'], ['require ${VA}.inc\n']]}, [add(Z), FINAL, q])


def blocks(ctx, C, mine):
    for i, b in enumerate(BLOCKS):
        for j, form in enumerate(['A = "%s"\n', 'A = "%s\n', 'A = "x %s \\\n', 'A[f] = "%s"\n', 'inherit %s\n', 'require %s.inc\n', 'export A = "%s"\n', 'unset %s\n', '# %s\n', 'do_x() {\n  %s\n}\n', '%s\n', 'SRC_URI += "%s;name=%s"\n', 'A:append = " %s %s"\n', 'addtask %s\n', 'INHERIT += "%s"\n', 'def x():\n %s\n']):
            if mine():
                C.go('`%s`' % text([form.replace('%s', b)]), {Z: [[l] for l in form.replace('%s', b).splitlines(True)]}, [add(Z), FINAL, call('ExpandTerm', Z, b), call('ExpandTerm', Z, '${A}'), call('ExpandVar', filename=Z)])
    for o in OPEN:
        whole = ''.join(o)
        for i in range(1, len(whole) + 1):
            if (ctx.thorough or i % 2 or whole[i - 1] in '\n\\{}' or whole[i:i + 1] == '\n') and mine():
                C.go('`%s`, not closed' % text([whole[:i]]), {Z: [[l] for l in whole[:i].splitlines(True)]}, [add(Z), FINAL])
    for a, b in itertools.product(OPEN, OPEN):
        if mine():
            C.go('`%s` and `%s`' % (text(a[:-1]), text(b)), {Z: [[x] for x in a[:-1] + b]}, [add(Z)])


def roots(ctx, C, mine):
    for d in ('/', '//', '/a/', '//a/', '/a/b/c/', '/a/../', '/l/r/', '/l/classes/r/'):
        for s in ('require none.inc\n', 'inherit none\n', 'INHERIT += "none"\n', 'require ../../../../none.inc\n', 'require /none.inc\n'):
            if mine():
                f = d + 'y_1.bb'
                C.go('%s with `%s`' % (f, s.strip()), dict(FILES, **{os.path.normpath(f): [[s]], '/a/b/c/x': [['\n']], '/l/classes/r/x': [['\n']], '/l/r/x': [['\n']]}), [add(f), FINAL, call('GetLayerRoot', f), call('GetLayerRoot', d), call('FindLocalOrLayer', 'none', d), call('GetFiles', f, '*.patch')])
    for p in ('', '.', '..', '/', '//', '///', '/none', 'a', 'a/b', '../a', '/none/none', '/l', '/l/', '/l/r/p_1.bb', '//l', '/l//r', '/a/..', '/l/r/../..'):
        if mine():
            C.go('layer of %r' % p, FILES, [call('GetLayerRoot', p), call('FindLocalOrLayer', 'x', p), call('FindLocalOrLayer', p, '/l/r')])
