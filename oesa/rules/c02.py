"""C02: queries do not modify anything, results belong to the caller"""
from oesa.world import *  # noqa

RULE = ('no-effect: after a query whose result the caller then overwrites, the collection, its items, the constants and all later answers are as before; '
        'argument-kept: a query does not change the lists it is given; own-result: results handed out earlier and arguments do not change when the caller overwrites a result; '
        'in-place-filter: the filter of a result list changes that list only')
EXPLAIN = ('The current source is interpreted abstractly on collections built by several histories, with caches that keep what they were given. Every query is evaluated, everything mutable in its result '
           'is overwritten, and the abstract heap is compared with the one before: if no object that existed before differs and no cache holds an overwritten object the query is discharged; '
           'otherwise all queries, the attributes of all items and the constants are evaluated again and compared with the answers before.')
EXPECT = {'rule no-effect': 150, 'rule argument-kept': 30, 'rule own-result': 100, 'rule in-place-filter': 10}

SETUPS = {
    'finalized': [(ADD, R), (ADD, P), (ADD, Q), (ADD, LONE), (ADD, CF), (ADD, IMG), (FIN,)],
    'not finalized': [(ADD, P), (ADD, Q), (ADD, R), (LINK, K2, Q)],
    'changed': [(ADD, R), (ADD, P), (FIN,), (REMOVE, 0, 'tail'), (APPEND, 0, 'tail')],
}
CONST = ('FunctionsKnown', 'FunctionsOrder', 'MirrorsKnown', 'VariablesKnown', 'DistrosKnown', 'MachinesKnown', 'ImagesClasses', 'ImagesVariables', 'SetsBase')
DB2 = dict(DB, replacements={'mirrors': {'${M}': 'http://m'}, 'distros': ['d'], 'machines': ['x']}, sets={'base': {'BASE': 'b/${PN}', 'OTHER': '${BASE}'}},
           functions={'known': ['f'], 'order': ['do_a']}, variables={'known': ['V'], 'order': ['V']})
N = 8


def asked():
    qs = list(queries([R, Q], True)) + list(queries([P], False))
    qs += [('GetItemsFor', (), dict(filename=R, classifier=('Variable', 'Inherit'), attribute=('VarName', 'Class'), attributeValue=('A', 'k'))),
           ('ExpandVar', (), dict(filename=R, attribute=('VarName',), attributeValue=('A', 'G'))),
           ('ExpandTerm', (R, '${A} ${PN} ${BASE} ${FILE} ${THISDIR}'), dict(spare=('A', 'PN'))),
           ('ExpandTerm', (R, '${OTHER} ${BPN} ${PV}'), {}),
           ('GetScrComponents', ('${M}/c;name=x;branch=y',), {}),
           ('IsDynamicPackage', (R, 'other'), {}), ('GetLinksForFile', ('',), {}), ('GetLinksForFile', ('/none',), {}), ('ExpandVar', (), dict(filename='/none/x_1.bb')),
           ('GetFiles', ('/none', '*'), {}), ('GuessRecipeVersion', ('/x/y.bb',), {})]
    return [q for q in qs if q[0] != 'AddDistroMachineFromLayer']


def run(ctx):
    ctx.spread(part, [(n, k) for n in SETUPS for k in range(N if ctx.thorough else 4)])


def build(ctx, name):
    D = ctx.driver(db=DB2, cache=True)
    D.files(FILES)
    st, s = D.stash(quiet=True)
    added = []
    for step in SETUPS[name]:
        st = change(D, st, s, added, step)
    D.keep(st, '$items', D.lst(st, [x for l in added for x in l]))
    return D, st, s


def part(ctx, name, k):
    D, st, s = build(ctx, name)
    desc = Describe(D)
    qs = asked()
    before = observe(D, st, s, desc, qs)
    n = N if ctx.thorough else 4
    for i, q in enumerate(qs):
        if i % n == k:
            one_query(ctx, D, st, s, desc, qs, before, name, q)
    if k == 0:
        ctx.sample('%s: %d queries, each followed by overwriting its result' % (name, len(qs)))
    if k == n - 1:
        reduce(ctx, D, st, s, desc, qs, before, name)
        filters(ctx, D, st, s, desc, qs, before, name)


def evaluate(D, st, s, q):
    n, args, kw = q
    kk, lists = {}, []
    for a, v in kw.items():
        if isinstance(v, tuple):
            v = D.lst(st, list(v))
            lists.append((a, v, D.py(st, v)))
        kk[a] = v
    for a, v, _ in lists:
        D.keep(st, '$l' + a, v)
    st, v = D.do(st, s, n, *args, **kk)
    return st, v, lists


def one_query(ctx, D, st, s, desc, qs, before, name, q):
    what = '%s: %s' % (name, qname(q))
    x, first, _ = evaluate(D, st.copy(), s, q)
    D.keep(x, '$first', first)
    x, v, lists = evaluate(D, x, s, q)
    D.keep(x, '$r', v)
    held = D.py(x, first)
    for a, l, old in lists:
        ctx.check(D.py(x, l) == old, 'argument-kept', '%s %s' % (what, a), '%s changes its argument %s from %r to %r' % (what, a, old, D.py(x, l)))
    y = x.copy()
    done = spoil(D, y, v)
    if first != v and done:
        ctx.check(D.py(y, first) == held, 'own-result', what, '%s: a result handed out earlier changes when the caller changes a later one' % what)
    for a, l, old in lists:
        ctx.check(D.py(y, l) == old, 'own-result', '%s %s' % (what, a), '%s: changing the result changes the argument %s' % (what, a))
    verdict(ctx, D, st, y, x, s, desc, qs, before, what, done)


def verdict(ctx, D, st, y, x, s, desc, qs, before, what, done):
    """y: state after the query and the caller's changes; x: before these changes"""
    if not touched(D, st, y, done):
        ctx.count('discharged on the heap')
        ctx.check(True, 'no-effect', what, '')
        return
    after = observe(D, y, s, desc, qs)
    diff = [n for n in before if before[n] != after[n]]
    if diff:
        own = observe(D, x, s, desc, qs)
        how = 'the query itself' if any(before[n] != own[n] for n in diff) else 'changing its result'
    ctx.check(not diff, 'no-effect', what, '%s: %s changes later answers, such as %s: %s before, %s after' % (
        what, how if diff else '', diff[0] if diff else '', repr(before[diff[0]])[:200] if diff else '', repr(after[diff[0]])[:200] if diff else ''))


def touched(D, st, y, done):
    """objects that existed before and differ"""
    out = []
    for oid, o in y.heap.items():
        p = st.get(oid)
        if p is None or p is o:
            continue
        if o.kind == 'frame' and oid in st.frames:
            continue
        if o.kind == 'cached':
            if any(reaches(y, v, done) for v, _ in o.ent.values()):
                out.append(oid)
            elif any(o.ent.get(k, (None,))[0] != w[0] for k, w in p.ent.items()):
                out.append(oid)
            elif o.d != p.d:
                out.append(oid)
            continue
        if not p.same(o):
            out.append(oid)
    return out


def reaches(st, v, oids):
    work, seen = list(v), set()
    while work:
        a = work.pop()
        if a[0] != 'r' or a[1] in seen:
            continue
        seen.add(a[1])
        if a[1] in oids:
            return True
        o = st.get(a[1])
        if o.kind in ('list', 'tuple', 'set', 'iter'):
            work += o.contents()
        elif o.kind == 'dict':
            for w, _ in o.ent.values():
                work += w
        elif o.kind == 'inst' and 'data' in o.d:
            work += o.d['data']
    return False


def spoil(D, st, v, depth=0):
    """the caller overwrites what it was given"""
    done = set()
    for a in v:
        o = st.obj(a)
        if o is None or depth > 4:
            continue
        inner = []
        if o.kind == 'inst' and D.I.clsname(st, o.cls).split('.')[-1] == 'StashList':
            inner = [o.d['data']]
        elif o.kind in ('list', 'set', 'tuple'):
            inner = list(o.seq or ())
            if o.kind != 'tuple':
                w = st.w(a[1])
                w.seq = (const('spoiled'),) + tuple(reversed(o.seq or ()))[:-1]
                done.add(a[1])
        elif o.kind == 'dict':
            inner = [x for x, _ in o.ent.values()]
            w = st.w(a[1])
            w.ent = {C('spoiled'): (const('spoiled'), True)}
            done.add(a[1])
        for x in inner:
            done |= spoil(D, st, x, depth + 1)
    return done


def observe(D, st, s, desc, qs):
    out = {}
    x = st.copy()
    for i, a in enumerate(D.lst_of(x, D.kept(x, '$items'))):
        for n in ('Line', 'IncludedFrom'):
            x, v = D.get(x, a, n)
            out['%s of %s (%d)' % (n, desc.item(x, one(a)[1]), i)] = plain(D.py(x, v))
        for n in ('GetAttributes', 'get_items'):
            x, v = D.do(x, a, n)
            out['%s of %s' % (n, desc.item(x, one(a)[1]))] = D.py(x, v)
    k = D.modattr('oelint_parser.constants', 'CONSTANTS')
    for n in CONST:
        x, v = D.get(x, k, n)
        out['CONSTANTS.' + n] = D.py(x, v)
    for q in qs:
        # each for itself, so that no query hides what another one changes
        x, v, _ = evaluate(D, st.copy(), s, q)
        out[qname(q)] = desc.answer(x, v)
    return out


def plain(x):
    return sorted(map(str, x)) if isinstance(x, (list, tuple, set, frozenset)) else x


def reduce(ctx, D, st, s, desc, qs, before, name):
    """the filter on a list of the caller"""
    for kw in ({}, dict(filename=R), dict(classifier='Variable'), dict(classifier=('Variable', 'Inherit')), dict(attribute='VarName', attributeValue='A'), dict(filename=R, nolink=True),
               dict(attribute=('VarName', 'Class')), dict(filename='/none'), dict(filename=R, classifier=('Variable',), attribute=('VarName',), attributeValue=('SRC_URI', 'A'))):
        x = st.copy()
        mine = D.lst(x, list(reversed(D.lst_of(x, D.kept(x, '$items')))))
        D.keep(x, '$mine', mine)
        old = D.py(x, mine)
        q = ('Reduce', (mine,), kw)
        what = '%s: Reduce(list, %s)' % (name, ', '.join('%s=%r' % z for z in sorted(kw.items())))
        x, v, lists = evaluate(D, x, s, q)
        D.keep(x, '$r', v)
        for a, l, o in lists + [('list', mine, old)]:
            ctx.check(D.py(x, l) == o, 'argument-kept', what + ' ' + a, '%s changes its argument %s' % (what, a))
        y = x.copy()
        done = spoil(D, y, v)
        for a, l, o in lists + [('list', mine, old)]:
            ctx.check(D.py(y, l) == o, 'own-result', what + ' ' + a, '%s: changing the result changes the argument %s' % (what, a))
        verdict(ctx, D, st, y, x, s, desc, qs, before, what, done)


def filters(ctx, D, st, s, desc, qs, before, name):
    """the filter of a result list, and other changes of a result list"""
    st, a = D.do(st, s, 'GetItemsFor', filename=R)
    D.keep(st, '$a', a)
    st, b = D.do(st, s, 'GetItemsFor', filename=R)
    D.keep(st, '$b', b)
    held = D.py(st, b)
    for kw in (dict(classifier='Variable'), dict(filename=G), dict(attribute='VarName', attributeValue='A'), dict(classifier='Nothing'), {}):
        what = '%s: result.reduce(%s)' % (name, ', '.join('%s=%r' % z for z in sorted(kw.items())))
        x, r = D.do(st.copy(), a, 'reduce', **kw)
        D.keep(x, '$r', r)
        ctx.check(D.py(x, b) == held, 'in-place-filter', what, '%s changes another result list' % what)
        verdict_list(ctx, D, st, x, s, desc, qs, before, what, a)
        x, more = D.do(x, a, 'reduce', classifier='Inherit')
        ctx.check(D.py(x, b) == held, 'in-place-filter', what + ' twice', '%s and another filter change another result list' % what)
    for op in ('append', 'extend', 'remove', 'insert', 'clear', 'pop', 'reverse'):
        x = st.copy()
        it = D.lst_of(x, D.kept(x, '$items'))[0]
        args = {'append': [it], 'extend': [b], 'remove': [D.lst_of(x, a)[0]], 'insert': [0, it]}.get(op, [])
        what = '%s: result.%s' % (name, op)
        x, _ = D.do(x, a, op, *args)
        ctx.check(D.py(x, b) == held, 'in-place-filter', what, '%s changes another result list' % what)
        verdict_list(ctx, D, st, x, s, desc, qs, before, what, a)


def verdict_list(ctx, D, st, x, s, desc, qs, before, what, a):
    own = {one(a)[1]} | {z[1] for z in st.get(one(a)[1]).d['data'] if z[0] == 'r'}
    if not [o for o in touched(D, st, x, own) if o not in own]:
        ctx.count('discharged on the heap')
        ctx.check(True, 'no-effect', what, '')
        return
    after = observe(D, x, s, desc, qs)
    diff = [n for n in before if before[n] != after[n]]
    ctx.check(not diff, 'no-effect', what, '%s changes later answers, such as %s' % (what, diff[0] if diff else ''))
