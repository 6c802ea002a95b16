"""C09: parser options govern every file and every line"""
import itertools

from oesa.rule import *  # noqa

RULE = ('negative: every inline helper in every chunk of every file takes the branch asked for; enforced-style: with the option every item of every file is in the new '
        'style; switched-style: an item in the new style makes all later ones of that file new style, no earlier one and none of another file')
EXPLAIN = ('Files with every kind of chunk, holding unknown texts, are reached in every way (added, required, included, nested, inherited, INHERITed, as append, after another '
           'file) in collections with every combination of options; all are parsed by abstract interpretation of the current source and the resolved inline blocks and the '
           'style each item reports, and the split of its name, are compared with the options.')
EXPECT = {'rule negative': 300, 'rule enforced-style': 300, 'rule switched-style': 600}

K, V, T, F = (clean(n) for n in 'kvtf')
L = '/l/'


def helper(n):
    return ["${@bb.utils.contains('", K, "', '", clean('v%d' % n), "', '", clean('t%d' % n), "', '", clean('f%d' % n), "', d)}"]


def value(n, neg):
    return txt(clean(('f%d' if neg else 't%d') % n))


def chunks(n):
    """chunks holding an inline helper each: (name, lines)"""
    h = helper(n)
    return [
        ('variable', [['A = "'] + h + ['"\n']]), ('appended variable', [['A_append = " '] + h + ['"\n']]), ('continued variable', [['A = "x \\\n'], ['  '] + h + [' \\\n'], ['"\n']]),
        ('comment', [['# '] + h + ['\n']]), ('two line comment', [['# x\n'], ['# '] + h + ['\n']]),
        ('function', [['do_x() {\n'], ['  '] + h + ['\n'], ['}\n']]), ('function name', [['do_x_'] + h + ['() {\n'], ['}\n']]),
        ('python function', [['python do_y() {\n'], ['  '] + h + ['\n'], ['}\n']]), ('def', [['def pyf(d):\n'], ['    '] + h + ['\n'], ['\n']]),
        ('flag', [['A[x] = "'] + h + ['"\n']]), ('export', [['export A = "'] + h + ['"\n']]), ('inherit', [['inherit '] + h + ['\n']]), ('include', [['include '] + h + ['.inc\n']]),
        ('addtask', [['addtask '] + h + [' after do_x\n']]), ('plain', [['zzz '] + h + ['\n']]), ('variable name', [['A_'] + h + [' = "1"\n']]), ('INHERIT', [['INHERIT += "'] + h + ['"\n']]),
        ('unset', [['unset '] + h + ['\n']]), ('EXPORT_FUNCTIONS', [['EXPORT_FUNCTIONS '] + h + ['\n']]), ('include_all', [['include_all '] + h + ['\n']]),
        ('comment then def', [['# x\n'], ['def pyf(d):\n'], ['    '] + h + ['\n']]), ('variable behind def', [['def pyf(d):\n'], ['    pass\n'], ['A = "'] + h + ['"\n']]),
        ('variable behind comment', [['# x\n'], ['A = "'] + h + ['"\n']]), ('function behind comment', [['# x\n'], ['do_x() {\n'], ['  '] + h + ['\n'], ['}\n']]),
        ('comment behind def', [['def pyf(d):\n'], ['    pass\n'], ['# '] + h + ['\n'], ['\n']]), ('deltask', [['deltask '] + h + ['\n']]),
        ('continued inherit', [['inherit x \\\n'], ['  '] + h + ['\n']]),
    ]


def ways():
    """(name, files without the text, path of the text, files to add)"""
    r, q, p = L + 'r/f_1.bb', L + 'r/q_1.bb', L + 'r/f_%.bbappend'
    top = {L + 'conf/layer.conf': [['\n']]}
    yield 'added recipe', dict(top), r, [r]
    yield 'second file', dict(top, **{q: [['Q:x = "1"\n'], ['Q = "1"\n']]}), r, [q, r]
    yield 'append', dict(top, **{r: [['Q = "1"\n']]}), p, [r, p]
    yield 'append first', dict(top, **{r: [['Q = "1"\n']]}), p, [p, r]
    yield 'configuration', dict(top), L + 'r/c.conf', [L + 'r/c.conf']
    yield 'class itself', dict(top), L + 'classes/k.bbclass', [L + 'classes/k.bbclass']
    yield 'required', dict(top, **{r: [['Q = "1"\n'], ['require g.inc\n'], ['Q = "2"\n']]}), L + 'r/g.inc', [r]
    yield 'included behind new style', dict(top, **{r: [['Q:x = "1"\n'], ['include g.inc\n']]}), L + 'r/g.inc', [r]
    yield 'nested include', dict(top, **{r: [['require g.inc\n']], L + 'r/g.inc': [['G:x = "1"\n'], ['require h.inc\n']]}), L + 'r/h.inc', [r]
    yield 'inherited', dict(top, **{r: [['inherit k\n'], ['Q = "2"\n']]}), L + 'classes/k.bbclass', [r]
    yield 'inherit_defer', dict(top, **{r: [['inherit_defer k\n']]}), L + 'classes-recipe/k.bbclass', [r]
    yield 'second inherited', dict(top, **{r: [['inherit m k\n']], L + 'classes/m.bbclass': [['M:x = "1"\n']]}), L + 'classes/k.bbclass', [r]
    yield 'INHERIT', dict(top, **{L + 'r/c.conf': [['INHERIT += "k"\n']]}), L + 'classes/k.bbclass', [L + 'r/c.conf']
    yield 'include of a class of an append', dict(top, **{r: [['Q = "1"\n']], p: [['inherit m\n']], L + 'classes/m.bbclass': [['require h.inc\n']]}), L + 'classes/h.inc', [r, p]
    yield 'parsed a second time', dict(top, **{r: [['require g.inc\n']], q: [['Q:x = "1"\n'], ['require g.inc\n']]}), L + 'r/g.inc', [r, q]
    yield 'with forced link and offset', dict(top, **{r: [['Q = "1"\n']]}), L + 'r/g.inc', [r, (L + 'r/g.inc', r)]


OPTS = [dict(a, **b) for a in ({}, {'negative_inline': True}) for b in ({}, {'new_style_override_syntax': True})]


def run(ctx):
    n = len(list(ways()))
    ctx.spread(dispatch, [('negative', i) for i in range(n)] + [('switched', i) for i in range(n)])


def dispatch(ctx, what, i):
    w = list(ways())[i]
    {'negative': negative, 'switched': switched}[what](ctx, i, *w)


def shown(o):
    return ', '.join(sorted(o)) or 'no option'


def load(D, files, order, opts):
    D.files(files)
    st, s = D.stash(quiet=True, **opts)
    D.keep(st, '$s', s)
    for f in order:
        if isinstance(f, tuple):
            st, _ = D.do(st, s, 'AddFile', f[0], forcedLink=f[1], lineOffset=7)
        else:
            st, _ = D.do(st, s, 'AddFile', f)
    st, r = D.do(st, s, 'GetItemsFor')
    return st, s, [ref(i.oid) for i in D.py(st, r)]


def val(D, st, it, name):
    y, v = D.get(st.copy(), it, name)
    return D.py(y, v)


def negative(ctx, i, way, files, path, order):
    D = ctx.driver()
    for oi, opts in enumerate(OPTS):
        neg = 'negative_inline' in opts
        for size in ('all', 'one'):
            text, blocks = [], {}
            cs = chunks(0)
            if size == 'one':
                # alone, and as the last line without a line break
                cs = [c for j, c in enumerate(cs) if ctx.thorough or j % 4 == (i + oi) % 4]
            for j in range(len(cs)):
                name, ls = chunks(j)[[c[0] for c in chunks(0)].index(cs[j][0])]
                if size == 'all':
                    text = text + ls + [['\n']]
                    blocks[j] = name
                else:
                    single(ctx, D, i, way, files, path, order, opts, neg, name, ls, j)
            if size == 'all':
                st, s, its = load(D, dict(files, **{path: text}), order, opts)
                seen = {}
                for it in its:
                    if val(D, st, it, 'Origin') != path:
                        continue
                    for b in val(D, st, it, 'InlineBlocks'):
                        seen.setdefault(b[0], set()).add(b[1])
                for j, name in blocks.items():
                    what = '%s in a file %s with %s' % (name, way, shown(opts))
                    got = seen.get(txt(*helper(j)))
                    ctx.check(got == {value(j, neg)}, 'negative', what, '%s: the helper becomes %s instead of %s' % (what, got, value(j, neg)))
                style(ctx, D, st, its, path, opts, way)
        if oi == 1:
            ctx.sample('%s with %s: %d chunks' % (way, shown(opts), len(blocks) if blocks else 0))


def single(ctx, D, i, way, files, path, order, opts, neg, name, ls, j):
    last = ls[:-1] + [ls[-1][:-1] + [ls[-1][-1][:-1]]] if isinstance(ls[-1][-1], str) and ls[-1][-1].endswith('\n') and len(ls[-1][-1]) > 1 else ls[:-1] + [ls[-1][:-1]]
    last = [l for l in last if l and l != ['']]
    st, s, its = load(D, dict(files, **{path: last}), order, opts)
    seen = set()
    for it in its:
        if val(D, st, it, 'Origin') == path:
            for b in val(D, st, it, 'InlineBlocks'):
                if b[0] == txt(*helper(j)):
                    seen.add(b[1])
    what = '%s alone, at the end of a file %s with %s' % (name, way, shown(opts))
    ctx.check(seen == {value(j, neg)}, 'negative', what, '%s: the helper becomes %s instead of %s' % (what, seen, value(j, neg)))


def style(ctx, D, st, its, path, opts, way):
    """every item is in the new style if that is enforced"""
    if 'new_style_override_syntax' not in opts:
        return
    for it in its:
        f, l = val(D, st, it, 'Origin'), val(D, st, it, 'InFileLine')
        what = 'line %s of %s, the text is %s, with %s' % (l, f, way, shown(opts))
        ctx.check(val(D, st, it, 'IsNewStyleOverrideSyntax') is True and val(D, st, it, 'OverrideDelimiter') == ':', 'enforced-style', what, '%s: the item is not in the new style' % what)


PLAIN = [
    ('variable', [['B_append = "', T, '"\n']], ('VarName', 'B'), ('VarName', 'B_append')), ('comment', [['# ', T, '\n']], None, None), ('function', [['do_y_append() {\n'], ['}\n']], ('FuncName', 'do_y'), ('FuncName', 'do_y_append')),
    ('python', [['def pyf(d):\n'], ['    pass\n']], None, None), ('plain', [[T, ' ', F, '\n']], None, None), ('blank', [['\n']], None, None), ('flag', [['B[', T, '] = "1"\n']], None, None),
    ('export', [['export ', T, '\n']], None, None), ('inherit', [['inherit ', T, '\n']], None, None), ('include', [['include ', T, '.inc\n']], None, None), ('addtask', [['addtask ', T, '\n']], None, None),
    ('deltask', [['deltask ', T, '\n']], None, None), ('unset', [['unset ', T, '\n']], None, None), ('functions', [['EXPORT_FUNCTIONS ', T, '\n']], None, None), ('library', [['addpylib ${LAYERDIR}/', T, ' ', F, '\n']], None, None),
    ('fragments', [['addfragments ', T, ' ', F, ' ', V, '\n']], None, None), ('include_all', [['include_all ', T, '\n']], None, None), ('nested include', [['require inner.inc\n']], None, None),
    ('variable later', [['C_prepend = "', T, '"\n']], ('SubItems', ['prepend']), ('SubItems', [])), ('override', [['C_', T, ' = "', T, '"\n']], ('VarName', 'C'), ('VarName', txt('C_', T))),
    ('continued', [['C_append = "', T, ' \\\n'], ['  ', F, '"\n']], ('VarName', 'C'), ('VarName', 'C_append')), ('anonymous', [['python () {\n'], ['}\n']], None, None),
    ('function behind', [['pkg_y_', T, '() {\n'], ['}\n']], None, None),
]
TRIGGERS = [('variable', [['N:append = "', T, '"\n']]), ('override', [['N:', T, ' = "', T, '"\n']]), ('function', [['do_n:append() {\n'], ['  ', T, '\n'], ['}\n']]),
            ('python function', [['python do_n:', T, '() {\n'], ['}\n']]), ('continued', [['N:remove = "', T, ' \\\n'], ['"\n']]), ('two', [['N:append:', T, ' = "', T, '"\n']]),
            ('assigned', [['N:', T, ' ?= "', T, '"\n']])]


def switched(ctx, i, way, files, path, order):
    D = ctx.driver()
    inner = path.rsplit('/', 1)[0] + '/inner.inc'
    for ti, (tname, trigger) in enumerate(TRIGGERS):
        if not ctx.thorough and (ti + i) % 3 and ti > 1:
            continue
        for oi, opts in enumerate(OPTS[:1] if not ctx.thorough else OPTS):
            forced = 'new_style_override_syntax' in opts
            before, after = PLAIN, PLAIN[::-1] if ti % 2 else PLAIN
            text, lines, line = [], [], 1
            for part, new in ((before, False), (None, True), (after, True)):
                for name, ls, old_, new_ in part or [(tname + ' itself', trigger, None, None)]:
                    sep = [['\n']]
                    lines.append((line, name, new or forced, new_ if new or forced else old_))
                    line += len(ls)
                    text = text + ls
                    if ls != [['\n']]:
                        lines.append((line, 'separator', new or forced, None))
                        line += 1
                        text = text + sep
            inn = [['I_append = "', T, '"\n'], ['# ', T, '\n']]
            st, s, its = load(D, dict(files, **{path: text, inner: inn}), order, opts)
            by = {}
            for it in its:
                f = val(D, st, it, 'Origin')
                if f == path:
                    by.setdefault(val(D, st, it, 'InFileLine'), []).append(it)
                elif f == inner:
                    what = 'file included before and behind a %s in a file %s with %s' % (tname, way, shown(opts))
                    got = val(D, st, it, 'IsNewStyleOverrideSyntax')
                    ctx.check(got is forced, 'switched-style', what, '%s: the items of the included file are %s style' % (what, 'new' if got else 'old'))
            for l, name, new, attr in lines:
                for it in by.get(l, []):
                    what = '%s in line %d, with a %s in the new style in line %d of a file %s with %s' % (name, l, tname, [x[0] for x in lines if x[1] == tname + ' itself'][0], way, shown(opts))
                    got = val(D, st, it, 'IsNewStyleOverrideSyntax')
                    ctx.check(got is new, 'switched-style', what, '%s: the item is in the %s style' % (what, 'new' if got else 'old'))
                    if attr:
                        g = val(D, st, it, attr[0])
                        ctx.check(g == attr[1], 'switched-style', what + ', its ' + attr[0], '%s: %s is %r instead of %r' % (what, attr[0], g, attr[1]))
            ctx.check(set(by) >= {x[0] for x in lines if x[1] not in ('separator', 'python')} - {0}, 'switched-style', 'lines of a file %s' % way, 'in a file %s the items of lines %s are missing' % (way, sorted({x[0] for x in lines} - set(by))))
            if ti == 0:
                ctx.sample('%s, %s in the new style: %d items' % (way, tname, sum(map(len, by.values()))))
