"""C03: results do not depend on the hash seed, addresses or the order of directories"""
from oesa import heap, model, ext as extmod
from oesa.world import *  # noqa

RULE = ('order-independent: every result is the same when sets and directory listings are visited in another order and hash values and addresses differ; no-address: no result contains an address, a hash value or the '
        'textual form of a set')
EXPLAIN = ('The library is interpreted abstractly on several histories of a layer in which files, links, names and patterns occur several times, with every kind of statement. The iteration order of sets, the order of '
           'directory listings, the values of hash() and id() are parameters of the evaluation; each history is evaluated with three choices and all results (queries, expansions, fingerprint, attributes, textual forms, '
           'constants, links) are compared position by position.')
EXPECT = {'rule order-independent': 800, 'rule no-address': 800}

MORE = dict(FILES)
MORE.update({Z: EVERY + [['inherit k zk k2\n'], ['require g.inc\n'], ['require h.inc\n'], ['SRC_URI += "file://', t('o1'), ';name=', t('o1'), ' file://', t('o2'), ';name=', t('o2'), '"\n'],
                         ['PACKAGES += "', t('o1'), ' ${PN}-', t('o2'), ' ', t('o3'), '"\n'], ['PACKAGES_DYNAMIC += "^', t('o1'), '.* ', t('o2'), '-.*"\n'], ['A[', t('fl2'), '] = "', t('fx'), '"\n'],
                         ['unset A\n'], ['inherit ${@d.getVar("KV")} ${KV}\n']],
             ZI: TOUR[ZI], ZK: TOUR[ZK], ZA: TOUR[ZA], L + 'r/data.txt': TOUR[L + 'r/data.txt'], L + 'r/z_3.bbappend': [['A += "', t('zb'), '"\n'], ['B = "', t('zc'), '"\n']],
             L + 'b/z_%.bbappend': [['A = "', t('zd'), '"\n'], ['SRC_URI += "file://b.patch"\n'], ['PACKAGES += "', t('pb'), '"\n'], ['PACKAGES_DYNAMIC += "', t('pd'), '"\n']],
             L + 'b/lone2_%.bbappend': [['A = "1"\n']], L + 'b/alone_%.bbappend': [['A = "1"\n']],
             L + 'conf/machine/n.conf': [['N = "1"\n']], L + 'conf/machine/a.conf': [['N = "1"\n']], L + 'conf/distro/e.conf': [['N = "1"\n']], L + 'conf/distro/d.conf': [['N = "1"\n']],
             L + 'r/k.bbclass': [['KX = "1"\n']], L + 'r/classes-recipe/k.bbclass': [['KY = "1"\n']], L + 'classes-global/k.bbclass': [['KZ = "1"\n']], L + 'classes-recipe/k.bbclass': [['KW = "1"\n']],
             L + 'r/files/y.patch': [['\n']], L + 'r/files/a.patch': [['\n']], L + 'r/z/y.patch': [['\n']], L + 'r/z/a.patch': [['\n']], L + 'b/z/b.patch': [['\n']], L + 'b/z/a.patch': [['\n']]})
LOADS = {
    'everything': [(ADD, Z), (ADD, ZA), (ADD, L + 'r/z_3.bbappend'), (ADD, L + 'b/z_%.bbappend'), (ADD, P), (ADD, R), (ADD, Q), (ADD, LONE), (ADD, L + 'b/lone2_%.bbappend'), (ADD, L + 'b/alone_%.bbappend'), (ADD, CF), (ADD, LC), (ADD, IMG), (FIN,)],
    'backwards': [(ADD, IMG), (ADD, LC), (ADD, LONE), (ADD, R), (ADD, P), (ADD, L + 'b/z_%.bbappend'), (ADD, L + 'r/z_3.bbappend'), (ADD, ZA), (ADD, Z), (FIN,)],
    'not finalized': [(ADD, P), (ADD, R), (ADD, ZA), (ADD, L + 'b/z_%.bbappend'), (ADD, Z), (LINK, H, Q), (LINK, H, R), (LINK, K, Q), (ADD, Q)],
    'links': [(ADD, R), (LINK, G, Z), (LINK, G, Q), (LINK, K, Q), (LINK, K, R), (LINK, K2, R), (LINK, K2, IMG), (ADD, Q), (ADD, Z), (FIN,), (ADD, P), (FIN,)],
    'moves': HISTORIES['move'],
    'removes': HISTORIES['remove'],
}


SPLIT = {'everything': 4, 'backwards': 2, 'not finalized': 3}


def run(ctx):
    ctx.spread(part, [(n, k) for n in LOADS for k in range(SPLIT.get(n, 1))])


def part(ctx, name, k):
    # orders are part of the evaluation, not of the values
    heap.Obj.unord = property(lambda s: False, lambda s, v: None)
    model.uel = extmod.uel = lambda a: a
    base = None
    for order in (0, 1, 2) if ctx.thorough or name == 'links' else (0, 1):
        got = evaluate(ctx, name, order, k)
        if base is None:
            base = got
            for label, v in got.items():
                ctx.check(not address(v), 'no-address', label, '%s: the result of %s contains an address, a hash value or the text of a set: %s' % (name, label, repr(v)[:200]))
            continue
        for label in list(base) + [x for x in got if x not in base]:
            a, b = base.get(label, 'nothing'), got.get(label, 'nothing')
            ctx.check(a == b, 'order-independent', label, '%s: the result of %s depends on hashing or on the order of a directory: %s' % (name, label, difference(a, b)))


def difference(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return 'at position %d %s or %s' % (i, repr(x)[:150], repr(y)[:150])
        return '%d or %d elements' % (len(a), len(b))
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) == list(b):
            for n in a:
                if a[n] != b[n]:
                    return '%s: %s or %s' % (n, repr(a[n])[:150], repr(b[n])[:150])
    return '%s or %s' % (repr(a)[:200], repr(b)[:200])


def address(v):
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(address(x) for x in v)
    if isinstance(v, dict):
        return any(address(x) for x in v) or any(address(x) for x in v.values())
    return isinstance(v, Txt) and model.has_uel(v.e) or isinstance(v, Odd)


class Odd(str):
    pass


def plain(D, d, st, v):
    """results that can be compared between evaluations; the order of dicts counts"""
    x = d.answer(st, v)

    def f(x):
        if isinstance(x, dict):
            return [(f(k), f(v)) for k, v in x.items()]
        if isinstance(x, list):
            return [f(y) for y in x]
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] in ('r', 'b') and isinstance(x[1], int):
                o = st.get(x[1])
                return 'an object of kind %s' % (o.kind if o else '?')
            return tuple(f(y) for y in x)
        return x
    return f(x)


def evaluate(ctx, name, order, k):
    D = ctx.driver(db=dict(DB, replacements={'distros': ['z'], 'machines': ['y']}), cache=True, order=order)
    D.files(MORE)
    st, s = D.stash(quiet=True, new_style_override_syntax=False)
    added, out = [], {}
    d = Describe(D)
    for i, step in enumerate(LOADS[name]):
        st = change(D, st, s, added, step)
        if step[0] in (ADD, LINK) and step[0] == ADD:
            v = D.kept(st, '$added%d' % (len(added) - 1))
            out['%s (step %d)' % (sname(step), i + 1)] = plain(D, d, st, v)
    files = [f for f in (Z, R, Q, P) if any(f in x for x in LOADS[name])]
    D.files(MORE)
    qs = list(queries(files, True)) + [q for f in files[:2] for q in expansions(f)]
    for f in files:
        for pat in ('*.patch', '*', '?.patch'):
            qs.append(('GetFiles', (f, pat), {}))
        qs.append(('GetItemsFor', (), dict(filename=f, attribute=('VarName', 'FuncName'), attributeValue=('A', 'B', 'SRC_URI'))))
        qs.append(('GetValidPackageNames', (f,), dict(strippn=True)))
        qs.append(('IsDynamicPackage', (f, 'p-dyn'), {}))
    try:
        x, v = D.get(st.copy(), s, 'FingerPrint')
        out['FingerPrint'] = plain(D, d, x, v)
    except Raised as e:
        out['FingerPrint'] = 'raises %s' % (e.exc[0][0] if e.exc else '')
    for i, q in enumerate(qs):
        if name in SPLIT and i % SPLIT[name] != k:
            continue
        old = st.copy()
        try:
            x, v = ask(D, st.copy() if q[0] == 'AddDistroMachineFromLayer' else st, s, q)
            out[qname(q)] = plain(D, d, x, v)
            if q[0] != 'AddDistroMachineFromLayer':
                st = x
            else:
                y = x.copy()
                for n in ('DistrosKnown', 'MachinesKnown'):
                    z, v = D.get(y, D.modattr('oelint_parser.constants', 'CONSTANTS'), n)
                    out['%s after %s' % (n, qname(q))] = plain(D, d, z, v)
        except Raised as e:
            st = old
            out[qname(q)] = 'raises %s' % (e.exc[0][0] if e.exc else '')
    if name not in ('everything', 'not finalized') and not ctx.thorough:
        return out
    pub = {}
    st, v = D.do(st, s, 'GetItemsFor')
    D.keep(st, '$all', v)
    for i, v in enumerate(D.lst_of(st, D.kept(st, '$all'))):
        if name in SPLIT and i % SPLIT[name] != k:
            continue
        c = st.obj(one(v)).cls
        if c not in pub:
            pub[c] = public(D, ref(c))
        for n, isattr in pub[c] + [('str()', None)]:
            what = '%s of item %d, %s' % (n, i, d.item(st, one(v)[1]).split(' `')[0])
            try:
                x, w = D.func(st.copy(), ext('builtins.str'), v) if isattr is None else D.get(st.copy(), v, n) if isattr else D.do(st.copy(), v, n)
                out[what] = plain(D, d, x, w)
            except Raised as e:
                out[what] = 'raises %s' % (e.exc[0][0] if e.exc else '')
    ctx.sample('%s: %d results' % (name, len(out)))
    return out
