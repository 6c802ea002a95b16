"""C11: declared attribute names and kinds are usable as filters"""
from oesa.world import *  # noqa

RULE = ('constant-names-attribute: each attribute name a kind declares names a public attribute every item of that kind has and can be read; constant-filters: a filter by that name, alone and together with the value '
        'an item has, finds the items; kind-declared: each kind declares an identifier of its own; kind-selects: the identifier selects exactly the items of that kind')
EXPLAIN = ('All classes of items and the constants they declare are enumerated in the current source. A recipe with every kind of statement is parsed by abstract interpretation (kinds no statement leads to are constructed), '
           'then each constant is compared with the attributes of the items of its kind and used as a filter with and without a value, and each identifier is used as a filter.')
EXPECT = {'rule constant-names-attribute': 80, 'rule constant-filters': 80, 'rule kind-declared': 15, 'rule kind-selects': 15}


# statements with parts left out
MORE = [['addtask ', t('mt'), '\n'], ['deltask ', t('mt'), '\n'], ['A[', t('mf'), '] = ""\n'], ['A = ""\n'], ['unset ', t('mu'), '\n'], ['inherit\n'], ['require ""\n'], ['export ', t('me'), ' = ""\n'],
        ['python () {\n'], ['}\n'], ['python __anonymous() {\n'], ['    ', t('mb'), '\n'], ['}\n'], ['do_', t('mg'), '_append() {\n'], ['}\n'], ['def ', t('md'), '():\n'], ['    pass\n'], ['#\n'], ['addpylib ', t('ml'), ' ', t('mn'), '\n'],
        ['include_all ', t('mi'), '/', t('mj'), '\n'], ['addfragments ', t('m1'), ' ', t('m2'), ' ', t('m3'), ' ', t('m4'), '\n'], ['EXPORT_FUNCTIONS ', t('mx'), '\n'], ['inherit_defer\n'], ['INHERIT = ""\n'],
        ['do_', t('mh'), '[', t('mf2'), '] += "', t('mv'), '"\n'], ['unset ', t('mu'), '[', t('mw'), ']\n'], [t('mq'), '\n']]


def run(ctx):
    ctx.spread(part, [(s, n) for s in (False, True) for n in range(4)])


def kinds(D, st):
    base = one(D.cls('Item', 'oelint_parser.cls_item'))[1]
    out = []
    for (m, q), o in sorted(D.I.class_oid.items()):
        if m != 'oesa_prelude' and o in D.I.base and ('r', base) in D.I.mro(o, st):
            out.append((q, o))
    return base, out


def constants(D, st, oid):
    """declared in the class itself: name, text"""
    out = []
    for n, v in sorted(st.get(oid).d.items()):
        a = one(v) if len(v) == 1 else None
        if n.startswith('ATTR_'):
            out.append((n, a[2] if a is not None and a[0] == 'c' else None))
    return out


def part(ctx, built, k):
    D = ctx.driver(db=DB)
    D.files(dict(TOUR, **{Q: MORE}) if built else TOUR)
    st, s = D.stash(quiet=True)
    for f in (Q, P) if built else (Z, P):
        st, _ = D.do(st, s, 'AddFile', f)
    st, _ = D.do(st, s, 'Finalize')
    base, ks = kinds(D, st)
    st, r = D.do(st, s, 'GetItemsFor')
    D.keep(st, '$r', r)
    have = {st.obj(one(v)).cls for v in D.lst_of(st, D.kept(st, '$r'))}
    for q, o in ks:
        if o not in have:
            x = construct(D, st, o, s, q)
            if x is not None:
                st = x
    st, r = D.do(st, s, 'GetItemsFor')
    D.keep(st, '$r', r)
    items = [one(v)[1] for v in D.lst_of(st, r)]
    of = {}
    for i in items:
        of.setdefault(st.get(i).cls, []).append(i)
    attrs = {}
    for i in items:
        x, v = D.do(st.copy(), ref(i), 'GetAttributes')
        attrs[i] = {(y[2] if y[0] == 'c' else y): w for y, (w, _) in x.obj(one(v)).ent.items()}, x
    for n, (q, o) in enumerate(ks):
        mine = of.get(o, [])
        if n % 4 == k:
            identifier(ctx, D, st, s, q, o, ks, base, mine, items)
        if not mine:
            ctx.count('kinds without items')
        for const_, name in constants(D, st, o):
            if n % 4 != k:
                continue
            what = '%s.%s' % (q, const_)
            if not ctx.check(isinstance(name, str) and name and not name.startswith('_'), 'constant-names-attribute', what, '%s is %s, not the name of a public attribute' % (what, name)):
                continue
            # what the common base declares is for all kinds or for some of them
            those = mine if o != base else [i for i in items if name in attrs[i][0]]
            if o == base and name in {a for a in ('Line', 'Raw', 'Origin')}:
                those = items
            if not those:
                if o == base or o in of:
                    ctx.check(False, 'constant-names-attribute', what, '%s = %r: no kind of item has the attribute' % (what, name))
                continue
            reps, keys = [], set()
            for i in those:
                ok = name in attrs[i][0]
                ctx.check(ok, 'constant-names-attribute', what, '%s = %r: items of kind %s have no public attribute %s' % (what, name, D.I.clsname(st, st.get(i).cls), name))
                if ok:
                    v = attrs[i][0][name]
                    if (st.get(i).cls, repr(D.py(attrs[i][1], v))) not in keys:
                        keys.add((st.get(i).cls, repr(D.py(attrs[i][1], v))))
                        reps.append((i, v))
                    try:
                        x, w = D.get(st.copy(), ref(i), name)
                    except Raised as e:
                        ctx.check(False, 'constant-names-attribute', what, '%s = %r: reading it from an item of kind %s: %s' % (what, name, D.I.clsname(st, st.get(i).cls), e))
            if not [i for i in those if name in attrs[i][0]]:
                continue
            x, v = D.do(st.copy(), s, 'GetItemsFor', attribute=name)
            got = {one(y)[1] for y in D.lst_of(x, v)}
            ctx.check(set(those) <= got, 'constant-filters', what, 'GetItemsFor(attribute=%r) leaves out items of kind %s that have the attribute' % (name, q))
            for i, v in reps[:6]:
                a = one(v) if len(v) == 1 else None
                if a is None or a[0] not in 'ct' or a[0] == 'c' and not isinstance(a[2], str) or a == C(''):
                    continue
                x, w = D.do(st.copy(), s, 'GetItemsFor', attribute=name, attributeValue=v)
                ctx.check(i in {one(y)[1] for y in D.lst_of(x, w)}, 'constant-filters', what, 'GetItemsFor(attribute=%r, attributeValue=%s) does not find the item of kind %s with that value' % (name, show(a), q))
    if k == 0 and not built:
        ctx.sample('kinds: %s' % ', '.join('%s (%d items)' % (q, len(of.get(o, []))) for q, o in ks))


def identifier(ctx, D, st, s, q, o, ks, base, mine, items):
    v = st.get(o).d.get('CLASSIFIER')
    a = one(v) if v and len(v) == 1 else None
    ok = a is not None and a[0] == 'c' and isinstance(a[2], str) and a[2]
    ctx.check(ok, 'kind-declared', q, 'the kind %s declares no identifier of its own' % q)
    if not ok:
        return
    for q2, o2 in ks:
        if o2 != o:
            w = st.get(o2).d.get('CLASSIFIER')
            ctx.check(not w or one(w) != a, 'kind-declared', '%s and %s' % tuple(sorted((q, q2))), 'the kinds %s and %s share the identifier %s' % (q, q2, show(a)))
    for how in (a[2], [a[2]]):
        arg = how if isinstance(how, str) else D.lst(st, how)
        x, r = D.do(st.copy(), s, 'GetItemsFor', classifier=arg)
        got = {one(y)[1] for y in D.lst_of(x, r)}
        ctx.check(got == set(mine), 'kind-selects', q, 'GetItemsFor(classifier=%r) returns %s' % (
            how, ', '.join(sorted({'items of kind ' + D.I.clsname(st, st.get(i).cls) for i in got - set(mine)} | {'not all items of the kind' for i in set(mine) - got}))))


def construct(D, st, oid, s, q):
    """an item of a kind no statement leads to, with a name for each parameter"""
    kw = {}
    for c in D.I.mro(oid, st):
        o = st.obj(c)
        if o is None or o.kind != 'class' or '__init__' not in o.d:
            continue
        m = st.obj(one(o.d['__init__']))
        a = m.x.node.args
        pos = a.posonlyargs + a.args
        for p in pos[1:len(pos) - len(a.defaults)] + [p for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]:
            kw.setdefault(p.arg, clean('arg' + p.arg))
        if not a.kwarg:
            break
    kw = {n: const(3) if n.lower().endswith('line') else D.text(v) for n, v in kw.items()}
    for drop in ([], ['rawtext', 'realraw']):
        try:
            st2, v = D.func(st.copy(), ref(oid), **{n: v for n, v in kw.items() if n not in drop})
            D.keep(st2, '$c', v)
            return D.do(st2, s, 'Append', D.kept(st2, '$c'))[0]
        except Raised:
            continue
    return None
