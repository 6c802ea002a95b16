"""C14: filters return exactly the matching items"""
import itertools

from oesa.rule import *  # noqa

RULE = ('filter-truth-table: for every combination of given and absent criteria each entry point returns exactly the items that satisfy all given ones, each once, '
        'ordered by line; forwarding: every entry point applies the criteria unchanged')
EXPLAIN = ('A collection of items of several kinds from a recipe, a file it includes and an unrelated recipe is built by abstract interpretation of the current '
           'source, with named unknown values, items out of line order and items contained twice. GetItemsFor, Reduce, the in-place reduce of result lists and '
           'ExpandVar are interpreted for the combinations of file, kind, attribute and value criteria (single, list, tuple, set, absent) and the outcome is compared '
           'with a filter over the attributes of the items.')
EXPECT = {'rule filter-truth-table': 300, 'rule forwarding': 60}

A, B, C_, X, Y, Z, E = (clean(n) for n in ('A', 'B', 'C', 'x', 'y', 'z', 'E'))
F, G, H, P, Q = '/l/r/f_1.bb', '/l/r/g.inc', '/l/r/h_1.bb', '/l/r/f_1.bbappend', '/l/a/f_%.bbappend'
FILES = {
    F: [['require g.inc\n'], [A, ' = "', X, '"\n'], ['# ', Y, '\n'], [B, ' = "', Y, '"\n'], [A, '_append = "', Y, '"\n'], ['do_', Z, '() {\n'], ['  ', X, '\n'], ['}\n'], ['unset ', C_, '\n'],
        ['export ', C_, '\n'], [A, '[', X, '] = "', Y, '"\n'], ['do_', Z, '[', X, '] = "', X, '"\n'], [E, ' = "', X, '"\n'],
        [A, B, ' = "', X, Y, '"\n']],
    G: [['unset ', E, '\n'], [A, ' ?= "', Y, '"\n'], [C_, ' = "', X, '"\n'], ['# ', X, '\n'], ['python () {\n'], ['}\n']],
    P: [[B, ' = "', X, '"\n']],
    Q: [[C_, ' = "', Z, '"\n'], ['# ', X, '\n']],
    H: [[A, ' = "', X, '"\n'], [C_, ' += "', Z, '"\n'], ['# ', X, '\n'], ['inherit ', A, '\n']],
}

KINDS = [None, 'Variable', 'Comment', 'nope', ['Variable'], ['Comment', 'Function'], ('Variable', 'Unset'), {'Variable', 'Export'}, 'Item', 'Var', ['Variables', 'variable']]
ATTRS = [(None, None), ('VarName', None), ('VarName', A), ('VarName', X), ('VarName', [A, C_]), ('VarName', (B,)), ('VarName', {A}), (['VarName', 'Flag'], None), (['VarName', 'VarValueStripped'], A),
         (['VarName', 'VarValueStripped'], [A, X]), (('VarValueStripped', 'VarName'), Y), ('nope', None), ('nope', X), ('Origin', F), ('Origin', [G, H]), ('VarOp', ' = '), ('FuncName', None),
         (['nope', 'VarName'], [X, C_]), (['Line', 'nope'], None), ('IsFromClass', None), ('RealRaw', ('# ', X, '\n')), ({'VarName', 'FuncName'}, None), ('_Item__Origin', None), ('GetAttributes', None), ('VarOp', '='), ('Origin', 'f_1.bb'), (['VarName', 'VarValueStripped'], (X, Y)), ('VarNam', None)]
NAMES = [None, F, G, H, '/l/r/none.bb', '/l/r/f_1.bb.x', 'f_1.bb']


def run(ctx):
    ctx.spread(part, [(fin, k) for fin in (False, True) for k in range(4)])


def part(ctx, final, k):
    D = ctx.driver()
    D.files(FILES)
    st, s = D.stash(quiet=True)
    D.keep(st, '$s', s)
    for f in (P, F, H, Q):
        st, _ = D.do(st, s, 'AddFile', f)
    if final:
        st, _ = D.do(st, s, 'Finalize')
    st, r = D.do(st, s, 'GetItemsFor')
    D.keep(st, '$r', r)
    items = D.py(st, r)
    if not ctx.check(len(items) == 24, 'filter-truth-table', 'GetItemsFor()', 'all criteria absent: %d of %d items are returned' % (len(items), 24)):
        return
    # line order differs from the order of addition; one item is contained twice
    n = len(items)
    for i, it in enumerate(items):
        D.setattr(st, ref(it.oid), 'Line', (i * 7) % n + 100)
    for it in items:
        x, v = D.get(st.copy(), ref(it.oid), 'RealRaw')
        if D.py(x, v) == txt('unset ', E, '\n'):
            D.setattr(st, ref(it.oid), 'Line', 999)
    st, _ = D.do(st, s, 'Append', ref(items[3].oid))
    st, _ = D.do(st, s, 'Append', D.lst(st, [ref(items[5].oid), ref(items[0].oid)]))
    # what the items are
    facts = {}
    for it in items:
        d = {'kind': it.cls.rsplit('.', 1)[-1]}
        for a in ('Line', 'Origin', 'VarName', 'VarValueStripped', 'VarOp', 'Flag', 'FuncName', 'RealRaw', 'IsFromClass', 'IncludedFrom'):
            try:
                x, v = D.get(st.copy(), ref(it.oid), a)
                d[a] = D.py(x, v)
            except Raised:
                D.exceptions()
        _, v = D.get(st.copy(), ref(it.oid), 'CLASSIFIER')
        d['CLASSIFIER'] = D.py(st, v)
        facts[it] = d
    links = {F: {F, G, P, Q}}

    def lst(v):
        if v is None:
            return None
        return list(v) if isinstance(v, (list, set)) or isinstance(v, tuple) and (not v or v[0] != 'tok' and not any(x in ('# ', '\n') for x in v) and v != (X, Y)) else [v]

    def norm_(v):
        return txt(*v) if isinstance(v, tuple) and v and v[0] != 'tok' else txt(v)

    def want(its, filename, kind, attr, value, nolink):
        out = []
        for it in dict.fromkeys(its):
            d = facts[it]
            if filename is not None and d['Origin'] not in (links.get(filename, {filename}) if not nolink else {filename}):
                continue
            if kind is not None and d['CLASSIFIER'] not in lst(kind):
                continue
            if attr is not None:
                names = [a for a in lst(attr) if a in d and a != 'kind']
                if not names or value is not None and not any(d[a] in [norm_(v) for v in lst(value)] for a in names):
                    continue
            out.append(it)
        return sorted(out, key=lambda i: facts[i]['Line'])

    def up(v):
        """an argument"""
        if v is None or isinstance(v, str):
            return const(v)
        if isinstance(v, tuple) and v and (v[0] == 'tok' or '\n' in v or v == (X, Y)):
            return D.text(*(v if v[0] != 'tok' else (v,)))
        vals = [up(x) for x in v]
        if isinstance(v, set):
            st.w(st.frames[-1])
            y, r = D.func(st, ext('builtins.set'), D.lst(st, vals))
            return r
        return D.lst(st, vals, 'tuple' if isinstance(v, tuple) else 'list')

    n = -1
    for fn, kind, (attr, value), nolink in itertools.product(NAMES, KINDS, ATTRS, (False, True)):
        n += 1
        if fn is None and nolink and n % 3:
            continue
        single = sum(x is not None for x in (fn, kind, attr)) <= 1
        if n % 4 != k:
            continue
        kw = {}
        for key, v in (('filename', fn), ('classifier', kind), ('attribute', attr), ('attributeValue', value)):
            if v is not None:
                kw[key] = up(v)
        if nolink:
            kw['nolink'] = const(True)
        shown = ', '.join('%s=%s' % (a, shownv(v)) for a, v in (('filename', fn), ('classifier', kind), ('attribute', attr), ('attributeValue', value), ('nolink', nolink)) if v is not None)

        def full(v):
            return kw[v] if v in kw else const(False if v == 'nolink' else None)
        pos = [full(a) for a in ('filename', 'classifier', 'attribute', 'attributeValue', 'nolink')]
        if kind is None and attr is not None and n % 4 == k:
            # expansion takes the same criteria
            for a, b in (((), kw), ((full('filename'), full('attribute'), full('attributeValue'), full('nolink')), {})):
                y, r = D.do(st.copy(), s, 'ExpandVar', *a, **b)
                got = {x_ for x_ in D.py(y, r) if x_ not in ('PN', 'PV', 'BPN')}
                w2 = [i for i in want(items, fn, 'Variable', attr, value, nolink)]
                # an unset discards what is set before it
                exp = {facts[i]['VarName'] for i in w2}
                un = [facts[i]['VarName'] for i in want(items, fn, 'Unset', None, None, nolink)]
                ctx.check(got - set(un) == exp - set(un), 'forwarding', 'ExpandVar(%s)' % shown, 'ExpandVar(%s) expands %s instead of %s' % (shown, sorted(map(repr, got)), sorted(map(repr, exp))))

        if not ctx.thorough and not single and (n // 4 + (1 if final else 0)) % 2:
            continue
        how = (n // 8) % 5
        x = st
        try:
            if how == 0:
                label = 'GetItemsFor'
                x, r = D.do(st, s, 'GetItemsFor', **kw)
                its = items
            elif how == 1:
                label = 'GetItemsFor with positions'
                x, r = D.do(st, s, 'GetItemsFor', *pos)
                its = items
            elif how == 2:
                label = 'Reduce of a list'
                its = items[1:] + items[2:6]
                x, r = D.do(st, s, 'Reduce', D.lst(st, [ref(i.oid) for i in its]), **kw)
            elif how == 3:
                label = 'Reduce of a tuple with positions'
                its = items[:12] + items[9:]
                x, r = D.do(st, s, 'Reduce', D.lst(st, [ref(i.oid) for i in its], 'tuple'), *pos)
            else:
                label = 'reduce of a result'
                its = items
                st, l = D.do(st, s, 'GetItemsFor')
                D.keep(st, '$l', l)
                x, r = D.do(st, l, 'reduce', *(pos if n % 2 else ()), **({} if n % 2 else kw))
        except Raised as e:
            ctx.check(False, 'filter-truth-table', '%s(%s)' % (label, shown), str(e))
            continue
        st = x
        got = D.py(st, r)
        w = want(its, fn, kind, attr, value, nolink)
        what = '%s(%s)%s' % (label, shown, ' after Finalize' if final else '')
        ctx.check(got == w, 'filter-truth-table', what, '%s returns %s instead of %s' % (what, names(got, facts), names(w, facts)))
        if how == 4:
            inplace = D.py(st, l)
            ctx.check(inplace == w, 'filter-truth-table', what + ', the list', '%s leaves %s in the list instead of %s' % (what, names(inplace, facts), names(w, facts)))
        if n % 90 == 7:
            ctx.sample('%s: %d items' % (what, len(w)))


def shownv(v):
    if isinstance(v, tuple) and v and v[0] == 'tok':
        return '<%s>' % v[1]
    if isinstance(v, (list, tuple)):
        return '[%s]' % ', '.join(shownv(x) for x in v)
    if isinstance(v, set):
        return '{%s}' % ', '.join(sorted(shownv(x) for x in v))
    return repr(v)


def names(its, facts):
    if not isinstance(its, (list, tuple)):
        return repr(its)
    return '[%s]' % ', '.join('%s@%s' % (facts[i]['kind'], facts[i]['Line']) if i in facts else repr(i) for i in its)
