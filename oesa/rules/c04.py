"""C04: malformed content never raises"""
from oesa.world import *  # noqa

RULE = ('no-exception: no public operation on a collection raises because of the content of a file: truncated at any place, with a character missing, doubled or replaced, with unusual values in any slot, undecodable, or naming missing, '
        'unreadable or directory paths; the same when an operation on a file fails')
EXPLAIN = ('The library is interpreted abstractly on damaged variants of every kind of statement: cut off at every place (end of file included), single characters left out, doubled or replaced, each slot filled with each of a list of '
           'unusual texts, and references to missing, unreadable and directory paths. Each variant is added, finalized, queried, expanded, and all attributes of its items are read; an exception that leaves a public operation is a finding.')
EXPECT = {'rule no-exception': 1500}

STATEMENTS, WORLD = None, dict(TOUR)
WORLD.update({L + 'r/sub/x': [['\n']], L + 'classes/bad.bbclass': 'unreadable', L + 'r/bad.inc': 'unreadable', L + 'classes/dir.bbclass/x': [['\n']], L + 'r/dir.inc/x': [['\n']]})
EXTRA = [
    [['python () {\n'], ['    ', t('b'), '\n'], ['}\n']], [['do_', t('g'), ':append() {\n'], ['}\n']], [['def ', t('d'), '(a, b=[]):\n'], ['    return ', t('r'), '\n'], ['\n']],
    [['A = "', t('a'), ' ${B} \\\n'], ['   ', t('c'), ' \\\n'], ['"\n']], [["A = '", t('q'), "'\n"]], [['A:append:', t('o'), ':', t('o2'), ' = "', t('x'), '"\n']], [['A[', t('f'), '] += "', t('x'), '"\n']],
    [['I = "${@bb.utils.contains(\'V\', \'', t('i1'), '\', \'', t('i2'), '\', \'', t('i3'), '\', d)}"\n']], [['I = "${@bb.utils.filter(\'V\', \'', t('i1'), '\', d)}"\n']], [['I = "${@oe.utils.any_distro_features(d, \'', t('i1'), '\', \'', t('i2'), '\', \'', t('i3'), '\')}"\n']],
    [['I = "${@oe.utils.vartrue(\'V\', \'', t('i1'), '\', \'', t('i2'), '\', d)}"\n']], [['I = "${@oe.utils.less_or_equal(\'V\', \'', t('i1'), '\', \'', t('i2'), '\', \'', t('i3'), '\', d)}"\n']], [['I = "${@d.getVar(\'X\')}"\n']],
    [['I = "${@bb.utils.contains_any(\'V\', \'', t('i1'), '\', \'', t('i2'), '\', \'', t('i3'), '\', d)}"\n']], [['I = "${@oe.utils.both_contain(\'V\', \'W\', \'', t('i1'), '\', d)}"\n']], [['F = "${@oe.utils.read_file(\'', t('rf'), '\')}"\n']],
    [['unset ', t('u'), '[', t('uf'), ']\n']], [['addtask ', t('t1'), ' after do_', t('t2'), ' before do_', t('t3'), '\n']], [['inherit ', t('i1'), ' ${@bb.utils.contains(\'V\', \'', t('i2'), '\', \'', t('i3'), '\', \'\', d)}\n']],
    [['SRC_URI = "http://', t('h'), ':80/a;name=', t('n'), ';x file://', t('f'), '"\n']], [['PACKAGES_DYNAMIC = "^${PN}-.* ', t('pd'), '"\n']], [['PACKAGES =+ "${PN}-', t('pk'), '"\n']], [['LICENSE:${PN}-', t('pk'), ' = "', t('li'), '"\n']],
]
REFS = ['require bad.inc\n', 'include bad.inc\n', 'require dir.inc\n', 'require none.inc\n', 'require /\n', 'require ${X}\n', 'require ${@x}\n', 'require\n', 'require  \n', 'include ../\n', 'require "x.inc"\n', 'require a b c\n', 'require \0.inc\n',
        'inherit bad\n', 'inherit dir\n', 'inherit none\n', 'inherit ${X}\n', 'inherit ${@x}\n', 'inherit\n', 'inherit /\n', 'inherit ../classes/bad\n', 'inherit \0\n', 'INHERIT += "bad dir none"\n', 'INHERIT = ""\n', 'inherit_defer bad none\n', 'inherit k bad dir k none k\n',
        'require ${FILE}\n', 'require z_3.bb\n', 'inherit ${PN} ${BPN} ${PV}\n', 'require sub\n', 'include_all none\n', 'require ${THISDIR}/bad.inc\n',
        "F = \"${@oe.utils.read_file('/l/r')}\"\n", "F = \"${@oe.utils.read_file('')}\"\n", "F = \"${@oe.utils.read_file('/l/r/bad.inc')}\"\n", "F = \"${@oe.utils.read_file('${X}')}\"\n", "F = \"${@oe.utils.read_file('\0')}\"\n", "F = \"${@oe.utils.read_file(d.getVar('X'))}\"\n"]
VALUES = ['', ' ', '\t', '\\', '\\\\', '"', "'", '""', '${', '}', '${}', '${@', '${@}', '${@x', '${A}', '${${A}}', '[', ']', '[]', '(', ')', '()', '{', '{}', '{0}', '%', '%s', '*', '+', '?', '^+', '(?P<', '|', '$', '^', '.', '..', '/', '//', ':', '::',
          '_', '__', '-', '=', '==', ';', ';=', ';x', ';=;', 'a;b=c=d', '://', 'git://[::1', 'http://[', 'git://h:port/x', '#', '@', '~', ',', '\x00', '\x0b', '\x0c', '\x1b', '\x1bx', '\x1d', '\x85', '\xa0', '\u2028', '\ufffd', '\r', 'é', '1', '0', '-1', 'append', '_append', ':append', ':remove', 'do_',
          'x' * 300, '${A', 'A}', '${@d.getVar("A")}', "${@d.getVar('A')", '\\n', '\\"', '\'"', '\ud800']
CORE = {'', ' ', '"', "'", '${', '${@', '${A}', '\\', '[', '(', '*', '://', 'git://[::1', 'http://[', 'git://h:port/x', ';', ';x', ':', '/', '_', '\x00', '{', '{0}', '^+', '%', '#'}
CHARS = '"\'[]{}()$@\\:;=#%^*+?. \t_/'


def statements():
    """all statements as lists of parts"""
    out, cur = [], []
    for l in EVERY:
        cur.append(l)
        text = ''.join(p if isinstance(p, str) else 'x' for p in l)
        head = cur[0][0] if isinstance(cur[0][0], str) else ''
        opened = head.startswith(('do_', 'fakeroot', 'python'))
        if text.endswith('\\\n') or opened and not text.startswith('}') or head.startswith('def ') and len(cur) < 2:
            continue
        out.append([p for x in cur for p in x])
        cur = []
    if cur:
        out.append([p for x in cur for p in x])
    seen, res = set(), []
    for s in out + [[p for x in e for p in x] for e in EXTRA]:
        k = repr(s)
        if k not in seen:
            seen.add(k)
            res.append(s)
    return res


def cut(parts):
    """all beginnings"""
    for i, p in enumerate(parts):
        if isinstance(p, str):
            for j in range(len(p)):
                yield parts[:i] + [p[:j]] if j else parts[:i]
        elif i:
            yield parts[:i] + [p]


def damaged(parts):
    """one character left out, doubled or replaced"""
    n = 0
    for i, p in enumerate(parts):
        if isinstance(p, str):
            for j in range(len(p)):
                yield parts[:i] + [p[:j] + p[j + 1:]] + parts[i + 1:]
                yield parts[:i] + [p[:j] + p[j] + p[j:]] + parts[i + 1:]
                for c in CHARS:
                    n += 1
                    yield parts[:i] + [p[:j] + c + p[j:]] + parts[i + 1:]
                    yield parts[:i] + [p[:j] + c + p[j + 1:]] + parts[i + 1:]


def filled(parts):
    for i, p in enumerate(parts):
        if not isinstance(p, str):
            for v in VALUES:
                yield parts[:i] + [v] + parts[i + 1:]


def run(ctx):
    ctx.spread(part, [(k,) for k in range(8)])


def tidy(parts):
    return [p for p in parts if p != '']


def part(ctx, k):
    D = ctx.driver(db=DB, cache=True)
    D.files(WORLD)
    base, s = D.stash(quiet=True)
    D.keep(base, '$s', s)
    n = 0
    ss = statements()
    for i, x in enumerate(ss):
        cuts = list(cut(x))
        for j, c in enumerate(cuts):
            n += 1
            if n % 8 == k:
                one_file(ctx, D, base, [tidy(c)], 'statement %d cut off after `%s`' % (i, text(c)), j % 8 == 0)
        for kind, gen, size in (('damaged', damaged(x), 24), ('filled', filled(x), 22)):
            # a part of the variants, a different one for each statement
            vs = list(gen)
            if kind == 'damaged':
                vs = [v for m, v in enumerate(vs) if (m % 52 < 2 and (m // 52 + i) % 5 == 0 or (m + i) % 73 == 0 if not ctx.thorough else m % 52 < 2 or (m + i) % 4 == 0)]
            elif not ctx.thorough:
                vs = [v for m, v in enumerate(vs) if VALUES[m % len(VALUES)] in CORE or (m + i) % 6 == 0]
            for m in range(0, len(vs), size):
                n += 1
                if n % 8 == k:
                    group = [tidy(v) + ([] if v and isinstance(v[-1], str) and v[-1].endswith('\n') else ['\n']) for v in vs[m:m + size]]
                    one_file(ctx, D, base, group, 'statement %d `%s` %s, variants %d-%d' % (i, text(x), kind, m, m + size), m % 3 == 0)
    for i, r in enumerate(REFS):
        n += 1
        if n % 8 == k:
            for y in (r, r.rstrip('\n'), r.rstrip('\n') + ' # x\n', r.rstrip('\n') + ' \\\n'):
                one_file(ctx, D, base, [[y]], 'reference `%s`' % y.strip(), True)
    failing(ctx, k)
    if k == 0:
        ctx.sample('%d statements' % len(ss))
        ctx.sample('unusual values: %s' % ' '.join(repr(v)[:12] for v in VALUES))


def failing(ctx, k):
    """each operation on a file fails in turn"""
    W = Ways(ctx, db=DB, cache=True)
    for label, st, x in W.go(tour(W.D, WORLD, [Z, ZA, R, P, LC, CF, Q]), k, 8):
        if x is not None:
            e = x.exc[0]
            if e[0] in ('NotModelled', 'RecursionError'):
                raise x
            ctx.check(False, 'no-exception', '%s in %s' % (e[0], e[2]), '%s raises %s at %s (%s)' % (label, e[0], e[2], e[1]))
        else:
            ctx.check(True, 'no-exception', label, '')


def text(parts):
    return ''.join(p if isinstance(p, str) else '<%s>' % p[1] for p in parts).replace('\n', '\\n')[:80]


def one_file(ctx, D, base, lines_, what, ask_all):
    fs = dict(WORLD)
    fs[Z] = lines_
    D.files(fs)
    st = base.copy()

    def attempt(label, f, st):
        old = st.copy()
        try:
            st = f(st)
            ctx.check(True, 'no-exception', what, '')
            return st
        except Raised as x:
            if not x.exc or any(e[0] in ('NotModelled', 'RecursionError') for e in x.exc):
                raise
            e = x.exc[0]
            ctx.check(False, 'no-exception', '%s in %s' % (e[0], e[2]), '%s: %s raises %s at %s (%s)' % (what, label, e[0], e[2], e[1]), ['content: %s' % ' '.join(text(l) for l in lines_)[:1500]])
            return old

    def add(st):
        st, r = D.do(st, D.kept(st, '$s'), 'AddFile', Z)
        D.keep(st, '$all', r)
        return st
    try:
        D.explore(lambda: explore(ctx, D, st.copy(), attempt, add, ask_all), 24)
    except AnalysisError as x:
        if isinstance(x, Raised):
            raise
        raise AnalysisError('%s: %s' % (what, x))


QS = [('ExpandVar', (), dict(filename=Z)), ('GetValidPackageNames', (Z,), {}), ('GetValidNamedResources', (Z,), {}), ('GetPackagesDynamic', (Z,), {}), ('IsDynamicPackage', (Z, 'other'), {}), ('IsImage', (Z,), {}),
      ('IsPackageGroup', (Z,), {}), ('GetFiles', (Z, '*.patch'), {}), ('ExpandTerm', (Z, '${A} ${I} ${F} ${SRC_URI}'), {})]


def explore(ctx, D, st, attempt, add, ask_all):
    st = attempt('AddFile', add, st)
    if '$all' not in st.get(st.frames[-1]).d:
        return
    st = attempt('Finalize()', lambda x: D.do(x, D.kept(x, '$s'), 'Finalize')[0], st)
    for q in QS if ask_all else QS[:2]:
        st = attempt(qname(q), lambda x: ask(D, x, D.kept(x, '$s'), q)[0], st)
    for i in range(len(D.lst_of(st, D.kept(st, '$all')))):
        v = D.lst_of(st, D.kept(st, '$all'))[i]
        c = st.obj(one(v)).cls
        pub = D.__dict__.setdefault('pub', {})
        if c not in pub:
            pub[c] = public(D, ref(c))

        def read(x):
            v = D.lst_of(x, D.kept(x, '$all'))[i]
            for n, isattr in pub[c]:
                x = (D.get(x, v, n) if isattr else D.do(x, v, n))[0]
            return D.func(x, ext('builtins.str'), v)[0]
        st = attempt('reading the attributes of a %s' % D.I.clsname(st, c), read, st)
