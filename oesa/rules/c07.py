"""C07: pattern matching is time-limited and honours its options"""
import ast
import os

from oesa.world import *  # noqa

RULE = ('time-limit: every operation of a regular expression engine gets a finite positive time limit; option-forwarded: each option given to a matching function reaches the engine operation of that name; '
        'fallback: a matching function answers an expired limit with its fallback; expired: no public operation raises when the limit expires at any place where the library matches; '
        'reached: engine operations no analysed entry point reaches carry a time limit in the source')
EXPLAIN = ('Each matching function of the wrapper class is interpreted abstractly with opaque values for all its parameters (positional and by keyword) and the operation that reaches the engine is compared parameter by '
           'parameter; then with an expiring limit. The whole library is interpreted on a layer with every kind of statement, all queries and all item attributes; every engine operation met is checked for its '
           'limit, and the evaluation is repeated with the limit expiring at each place in turn. Call sites in the syntax tree that were not met are checked there.')
EXPECT = {'rule time-limit': 20, 'rule option-forwarded': 25, 'rule fallback': 10, 'rule expired': 30, 'rule reached': 1}

OPS = {'match', 'search', 'fullmatch', 'split', 'sub', 'subn', 'subf', 'subfn', 'findall', 'finditer', 'splititer'}
EMPTY_ = {'search': None, 'match': None, 'fullmatch': None, 'split': [], 'sub': '', 'finditer': [], 'findall': [], 'splititer': []}


class Watch:
    def __init__(self):
        self.events = []

    def on_regex(self, I, st, op, pat, subj, p, node, dotted):
        self.events.append((op, pat, subj, p, node, dotted, place(I), I.where(node), I.stack[-1][0].module))


def place(I):
    """where the library asks for the match"""
    for f, n in reversed(I.stack):
        if not (f.cls is not None and f.qual.startswith('RegexRpl.')):
            break
        last = n
    else:
        return None
    return (f.qual, getattr(last, 'lineno', 0)) if I.stack[-1][0].qual.startswith('RegexRpl.') else (f.qual, getattr(I.node, 'lineno', 0))


def run(ctx):
    wrapper(ctx)
    sites(ctx, ctx.driver())
    ctx.spread(library, [(k,) for k in range(8)])


# -- the matching functions

def wrapper(ctx):
    D = ctx.driver(faults=False)
    W = D.cls('RegexRpl')
    st0 = D.state()
    cls = st0.obj(one(W))
    for n, v in sorted(cls.d.items()):
        m = st0.obj(one(v)) if one(v) and one(v)[0] == 'r' else None
        if n.startswith('_') or m is None:
            continue
        fn = m
        while fn is not None and fn.kind != 'func':
            fn = st0.obj(one(fn.d['f']))
        if n not in OPS:
            continue
        a = fn.x.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        opts = [x for x in names if x not in ('pattern', 'string', 'repl', 'default')]
        base = [x for x in ('pattern', 'repl', 'string') if x in names]
        extra = ['pos', 'endpos', 'partial', 'concurrent'] if a.kwarg else []
        vals = {x: frozenset([T('int', tok('o' + x, 'int'))]) for x in opts + extra}
        fixed = {'pattern': D.text('a', clean('pat')), 'string': D.text(clean('txt'), ' ', clean('more')), 'repl': D.text(clean('rep'))}
        for how in ('keywords', 'positions', 'each', 'none'):
            for only in (opts + extra if how == 'each' else [None]):
                st = D.state()
                w = Watch()
                D.I.hooks.append(w)
                given = {} if how == 'none' else {only: vals[only]} if how == 'each' else dict(vals)
                if how == 'positions':
                    args = [fixed[x] if x in fixed else vals[x] for x in names if x != 'default' and names.index(x) < (names.index('default') if 'default' in names else 99)]
                    given = {x: v for x, v in vals.items() if x in names and names.index(x) < len(args)}
                    kw = {}
                else:
                    args, kw = [fixed[x] for x in base], given
                what = 'RegexRpl.%s(%s)' % (n, {'keywords': 'all options by keyword', 'positions': 'all options by position', 'each': only, 'none': 'no option'}[how])
                rs = D.call(st, D.I.get_attr(st, W, n, D.node)[0][1], *args, **kw)
                D.exceptions()
                D.I.hooks.remove(w)
                del D.I.forks[:]
                if not ctx.check(len({id(e[4]) for e in w.events}) == 1, 'option-forwarded', what, '%s starts %d engine operations' % (what, len(w.events))):
                    continue
                op, pat, subj, p, node, dotted, _, where, _ = w.events[0]
                ctx.check(op == n, 'option-forwarded', what + ' operation', '%s: the engine operation is %s at %s' % (what, op, where))
                ctx.check(pat == fixed['pattern'] and subj == fixed['string'] and ('repl' not in names or p.get('repl') == fixed['repl']), 'option-forwarded', what + ' texts',
                          '%s: pattern, text or replacement do not reach the engine at %s' % (what, where))
                for x in opts + extra:
                    got = p.get(x)
                    if x in given:
                        ctx.check(got == given[x], 'option-forwarded', '%s %s' % (what, x), '%s: %s does not reach the engine operation at %s' % (what, x, where))
                    elif x == 'timeout':
                        ctx.check(finite(got), 'time-limit', what, '%s: the limit of the engine operation at %s is %s' % (what, where, show_v(got)))
                    else:
                        ctx.check(got is None or one(got) in (C(0), C(None), C(False)), 'option-forwarded', '%s %s' % (what, x), '%s: %s is %s without being given at %s' % (what, x, show_v(got), where))
        fallback(ctx, n, names, base, fixed)
    ctx.sample('matching functions: %s' % ', '.join(sorted(n for n in cls.d if n in OPS)))


def fallback(ctx, n, names, base, fixed):
    D = ctx.driver(faults=lambda kind, node, I: 2 if kind == 'timeout' else 0)
    W = D.cls('RegexRpl')
    for how in ('text', 'list', 'none', 'object'):
        st = D.state()
        kw = {}
        if how == 'text':
            kw['default'] = D.text(clean('fall'))
        elif how == 'list':
            kw['default'] = D.lst(st, [D.text(clean('fall'))])
        elif how == 'object':
            kw['default'] = D.modattr('oelint_parser.constants', 'CONSTANTS')
        if kw and 'default' not in names:
            continue
        what = 'RegexRpl.%s with an expired limit and %s' % (n, 'default %s' % how if kw else 'no default')
        if kw:
            D.keep(st, '$d', kw['default'])
        fixed = {'pattern': D.text('a', clean('pat')), 'string': D.text(clean('txt'), ' ', clean('more')), 'repl': D.text(clean('rep'))}
        try:
            st, v = D.func(st, D.I.get_attr(st, W, n, D.node)[0][1], *[fixed[x] for x in base], **kw)
        except Raised as x:
            ctx.check(False, 'fallback', what, '%s: %s' % (what, x))
            continue
        if kw:
            ok = v == kw['default']
        else:
            got = D.py(st, v)
            ok = got == EMPTY_.get(n)
        ctx.check(ok, 'fallback', what, '%s returns %s' % (what, D.show(st, v)[:200]))
        # using the result must not raise either
        if not kw and n in ('finditer', 'splititer'):
            try:
                D.func(st, ext('builtins.list'), v)
            except Raised as x:
                ctx.check(False, 'fallback', what + ', consumed', '%s: consuming the result: %s' % (what, x))


def finite(v):
    a = one(v) if v else None
    return a is not None and a[0] == 'c' and isinstance(a[2], (int, float)) and not isinstance(a[2], bool) and 0 < a[2] < 1e6


def show_v(v):
    return 'missing' if v is None else ' or '.join(show(a) for a in v)


# -- the library

def library(ctx, k):
    cur = {'place': None, 'on': False}

    def faults(kind, node, I):
        return 2 if kind == 'timeout' and cur['on'] and (cur['place'] == 'all' or place(I) == cur['place']) else 0
    D = ctx.driver(db=DB, cache=True, faults=faults)
    w = Watch()
    D.I.hooks.append(w)
    st = D.state()
    steps, seen = [], {}
    qs = [('IsDynamicPackage', (Z, 'z-abc'), {}), ('GetLinksForFile', (Z,), {}), ('GetValidPackageNames', (Z,), {}), ('GetValidNamedResources', (Z,), {}), ('IsImage', (Z,), {}), ('GetPackagesDynamic', (Z,), {}),
          ('GetScrComponents', ('git://a.b/c;name=x;branch=y',), {}), ('SafeLineSplit', ('a b  c',), {}), ('GuessBaseRecipeName', (Z,), {}), ('GuessRecipeVersion', (Z,), {}), ('GetLoneAppends', (), {}),
          ('ExpandVar', (), dict(filename=Z)), ('GetFiles', (Z, '*'), {})] + list(expansions(Z))[:3]
    for label, f in tour(D, TOUR, [Z, ZA, R, P, LC, CF], qs=qs):
        del w.events[:]
        before = st.copy()
        try:
            st = f(st)
        except Raised:
            # decided by C04
            continue
        places = {}
        for e in w.events:
            seen.setdefault(e[6], []).append(e)
            places[e[6]] = True
        steps.append((label, f, before, set(places)))
    D.I.hooks.remove(w)
    if k == 0:
        done = set()
        for es in seen.values():
            for op, pat, subj, p, node, dotted, pl, where, mod in es:
                key = (where, show_v(p.get('timeout')))
                if key in done:
                    continue
                done.add(key)
                t_ = p.get('timeout')
                ctx.check(finite(t_), 'time-limit', where + ' ' + op, '%s: the engine operation %s has the time limit %s' % (where, dotted, show_v(t_)))
    order_ = sorted((p for p in seen if p is not None), key=repr) + ['all']
    for i, pl in enumerate(order_):
        if i % 8 != k:
            continue
        cur['place'] = pl
        full = False
        for j, (label, f, before, places) in enumerate(steps):
            if pl != 'all' and pl not in places:
                continue
            cur['on'] = True
            what = 'limit expires %s: %s' % ('everywhere' if pl == 'all' else 'in %s' % pl[0], label)
            try:
                x = f(before.copy())
                ctx.check(True, 'expired', what, '')
                if label.startswith('AddFile') and not full:
                    # what was parsed in that way can be queried and read
                    full = True
                    follow(ctx, D, x, what, qs, label)
            except Raised as e:
                if not ctx.check(False, 'expired', '%s %s' % (what, e.exc[0][0] if e.exc else ''), '%s: %s' % (what, e)):
                    continue
            finally:
                cur['on'] = False
    if k == 0:
        ctx.sample('%d places where the library matches: %s' % (len(order_) - 1, ', '.join(sorted({p[0] for p in order_ if p != 'all'}))[:400]))


def follow(ctx, D, st, what, qs, label):
    s = D.kept(st, '$s')
    for q in qs[:8]:
        try:
            st, _ = ask(D, st, s, q)
            ctx.check(True, 'expired', what, '')
        except Raised as e:
            ctx.check(False, 'expired', '%s, then %s' % (what, q[0]), '%s, then %s: %s' % (what, qname(q), e))
    pub = {}
    for v in D.lst_of(st, D.kept(st, '$all')) if '$all' in st.get(st.frames[-1]).d else []:
        c = st.obj(one(v)).cls
        if c not in pub:
            pub[c] = public(D, ref(c))
        for n, isattr in pub[c]:
            try:
                st, _ = D.get(st, v, n) if isattr else D.do(st, v, n)
            except Raised as e:
                ctx.check(False, 'expired', '%s, then %s.%s' % (what, D.I.clsname(st, c), n), '%s, then attribute %s of %s: %s' % (what, n, D.I.clsname(st, c), e))


def sites(ctx, D):
    """engine operations in the syntax tree"""
    for mod, (path, tree) in sorted(D.I.mods.items()):
        if mod == 'oesa_prelude':
            continue
        alias, compiled = {}, set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name in ('re', 'regex', 'sre_compile'):
                        alias[a.asname or a.name] = a.name
            elif isinstance(n, ast.ImportFrom) and n.module in ('re', 'regex'):
                for a in n.names:
                    alias[a.asname or a.name] = n.module if a.name in ('regex', 're', '_regex_core') else n.module + '.' + a.name
        for n in ast.walk(tree):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'compile' \
                    and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id in alias:
                for t_ in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t_, ast.Name):
                        compiled.add(t_.id)
        for n in ast.walk(tree):
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            what = None
            if isinstance(f, ast.Attribute) and f.attr in OPS and isinstance(f.value, ast.Name):
                if f.value.id in alias:
                    what = alias[f.value.id] + '.' + f.attr
                elif f.value.id in compiled:
                    what = 'pattern.' + f.attr
            elif isinstance(f, ast.Name) and alias.get(f.id, '').split('.')[-1] in OPS:
                what = alias[f.id]
            elif isinstance(f, ast.Attribute) and f.attr in OPS and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Attribute) and f.value.func.attr == 'compile':
                what = 'pattern.' + f.attr
            if what is None:
                continue
            ok = what.split('.')[0] != 're' and any(k.arg == 'timeout' and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in n.keywords) or any(k.arg is None for k in n.keywords) and what.split('.')[0] != 're'
            ctx.check(ok, 'reached', '%s %s' % (mod, what), '%s:%d: %s without a time limit' % (os.path.basename(path), n.lineno, what))
