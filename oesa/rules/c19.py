"""C19: constants change only through the interface and only where named"""
import copy
import itertools

from oesa.rule import *  # noqa

RULE = ('constants-operation: abstract evaluation of every change operation over all combinations of entry shapes, compared with its definition; '
        'no-alias: the argument, the database and results share no mutable object; getter-path: each getter reads its documented path; '
        'load-failure: every failing read of the database is answered by an empty database')
EXPLAIN = ('AddConstants, RemoveConstants and OverrideConstants are interpreted abstractly from the current source on databases whose values are '
           'named unknowns, for every combination of entry kind (missing, list, dictionary, text) and of nesting depth; the database is then read '
           'back through GetByPath at every path and compared with the operation\'s definition. Aliasing is decided by writing to every mutable '
           'object reachable from the argument and from earlier answers and reading the database again.')
EXPECT = {'rule constants-operation': 60, 'rule no-alias': 30, 'rule getter-path': 11, 'rule load-failure': 4}

GETTERS = {'FunctionsKnown': 'functions/known', 'FunctionsOrder': 'functions/order', 'MirrorsKnown': 'replacements/mirrors',
           'VariablesKnown': 'variables/known', 'DistrosKnown': 'replacements/distros', 'MachinesKnown': 'replacements/machines',
           'ImagesClasses': 'images/known-classes', 'ImagesVariables': 'images/known-variables', 'SetsBase': 'sets/base',
           'ClassIgnore': 'ignore/classes', 'IncludeIgnore': 'ignore/include'}


def up(D, st, v):
    """python structure -> abstract one; texts starting with $ are unknowns"""
    if isinstance(v, dict):
        oid = D.I.alloc(st, 'dict', D.node)
        for k, w in v.items():
            x = up(D, st, w)
            st.heap[oid].ent[C(k)] = (x, True)
        return ref(oid)
    if isinstance(v, list):
        return D.lst(st, [up(D, st, w) for w in v])
    if isinstance(v, str) and v.startswith('$'):
        return D.text(clean(v[1:]))
    return const(v)


def down(v):
    """expected structure in the form py() returns"""
    if isinstance(v, dict):
        return {k: down(w) for k, w in v.items()}
    if isinstance(v, list):
        return [down(w) for w in v]
    if isinstance(v, str) and v.startswith('$'):
        return txt(clean(v[1:]))
    return v


def add(a, b):
    for k, v in b.items():
        if k in a and isinstance(v, dict) and isinstance(a[k], dict):
            add(a[k], v)
        elif k in a and isinstance(a[k], list):
            a[k] = a[k] + v
        else:
            a[k] = copy.deepcopy(v)
    return a


def remove(a, b):
    for k, v in b.items():
        if k not in a:
            continue
        if isinstance(v, dict):
            if isinstance(a[k], dict):
                remove(a[k], v)
        elif isinstance(a[k], list):
            a[k] = [x for x in a[k] if x not in v]
        elif isinstance(a[k], dict):
            a[k] = {x: y for x, y in a[k].items() if x not in v}
        elif a[k] == v:
            del a[k]
    return a


def override(a, b):
    for k, v in b.items():
        if k in a and isinstance(v, dict) and isinstance(a[k], dict):
            override(a[k], v)
        else:
            a[k] = copy.deepcopy(v)
    return a


DB = {'l': ['$a', '$b', '$a'], 'm': {'k': '$v', 'n': '$w'}, 't': '$t', 'o': {'p': {'q': ['$c', '$d'], 'r': {'s': '$u'}}, 'x': ['$e'], 'z': []}, 'e': {}}

CHANGES = {
    'AddConstants': (add, [
        {'l': ['$n']}, {'l': ['$a']}, {'l': []}, {'l': ['$n', '$b']}, {'new': ['$n']}, {'new': {'a': {'b': ['$n']}}}, {'new': '$n'}, {'m': {'k2': '$n'}}, {'m': {'k': '$n'}}, {'m': {}},
        {'o': {'p': {'q': ['$n']}}}, {'o': {'p': {'r': {'s2': '$n'}}}}, {'o': {'x': ['$n'], 'y': ['$n']}}, {'o': {'z': ['$n']}}, {'t': '$n'}, {'e': {'f': ['$n']}}, {},
        {'l': ['$n'], 'm': {'k2': '$o'}, 'o': {'p': {'q': ['$n2']}}}, {'o': {'p': {'q': ['$c', '$d']}}}]),
    'RemoveConstants': (remove, [
        {'l': ['$a']}, {'l': ['$b']}, {'l': ['$n']}, {'l': []}, {'l': ['$a', '$b']}, {'new': ['$a']}, {'new': {'a': ['$b']}}, {'m': ['k']}, {'m': ['k', 'n']}, {'m': ['zz']}, {'m': {'k': '$v'}},
        {'m': {'k': '$n'}}, {'o': {'p': {'q': ['$c']}}}, {'o': {'p': {'r': {'s': '$u'}}}}, {'o': {'x': ['$e']}}, {'o': {'p': ['q']}}, {'t': '$t'}, {'t': '$n'}, {}, {'e': {'f': ['$a']}}, {'e': ['f']},
        {'l': ['$b'], 'o': {'x': ['$e']}}, {'l': ['$n', '$b']}]),
    'OverrideConstants': (override, [
        {'l': ['$n']}, {'l': []}, {'l': ['$a']}, {'new': ['$n']}, {'new': {'a': {'b': '$n'}}}, {'m': {'k': '$n'}}, {'m': {'k2': '$n'}}, {'m': {}}, {'t': '$n'}, {'o': {'p': {'q': ['$n']}}},
        {'o': {'p': {'r': {'s': '$n'}}}}, {'o': {'x': []}}, {'o': {'z': ['$n']}}, {}, {'e': {'f': '$n'}}, {'l': ['$n'], 'm': {'n': '$n'}, 'o': {'x': ['$n']}}]),
}


def paths(db, pre=''):
    for k, v in db.items():
        p = pre + k
        yield p, v
        if isinstance(v, dict):
            yield from paths(v, p + '/')


def run(ctx):
    D = ctx.driver()
    I = D.I
    K = D.cls('Constants')
    missing = ['nope', 'o/nope', 'o/p/q/deeper', 't/deeper', 'l/deeper', 'o/p/nope/deeper/still', '']

    def make(db):
        st = D.state()
        d = up(D, st, db)
        D.keep(st, '$d', d)
        st, c = D.single(D.call(st, K, d), 'Constants()')
        D.keep(st, '$c', c)
        return st, c, d

    def read_back(st, c, db, what, rule='constants-operation'):
        allp = {p for p, _ in paths(DB)} | {p for p, _ in paths(db)} | {'new', 'new/a', 'new/a/b', 'm/k2'}
        want = dict(paths(db))
        for p in sorted(allp) + missing:
            for q in (p, p + '/') if p and ctx.thorough else (p,):
                try:
                    y, v = D.do(st.copy(), c, 'GetByPath', q)
                    got = D.py(y, v)
                except Raised as x:
                    return ctx.check(False, rule, what, 'reading %r afterwards: %s' % (q, x))
                exp = down(want[p]) if p in want else {}
                if got != exp:
                    return ctx.check(False, rule, what, '%s: %r is %r, expected %r' % (what, q, got, exp))
        return ctx.check(True, rule, what, '')

    st, c, d = make(DB)
    read_back(st, c, DB, 'Constants(dict)')
    ctx.sample('AddConstants({"l": ["n"]}) on {"l": ["a", "b", "a"]} reads back ["a", "b", "a", "n"] and leaves every other path as it was')

    def mutables(st, v, out):
        for a in v:
            o = st.obj(a)
            if o is None or o.kind not in ('dict', 'list', 'set') or a in out:
                continue
            out.append(a)
            for w in ([x for x, _ in o.ent.values()] if o.kind == 'dict' else list(o.seq or ())):
                mutables(st, w, out)
        return out

    def spoil(st, v):
        """change every mutable object reachable from a value"""
        for a in mutables(st, v, []):
            o = st.obj(a)
            w = st.w(a[1])
            if o.kind == 'dict':
                w.ent = {C('spoiled'): (const('spoiled'), True)}
            else:
                w.seq = (const('spoiled'),)
        return st

    for op, (spec, changes) in CHANGES.items():
        for ch in changes:
            what = '%s(%s)' % (op, str(ch).replace("'", ''))
            st, c, d = make(DB)
            a = up(D, st, ch)
            D.keep(st, '$a', a)
            try:
                st, _ = D.do(st, c, op, a)
            except Raised as x:
                ctx.check(False, 'constants-operation', what, str(x))
                continue
            want = spec(copy.deepcopy(DB), ch)
            read_back(st, c, want, what)
            ctx.check(D.py(st, a) == down(ch), 'no-alias', what, '%s changes the dictionary it was given to %r' % (what, D.py(st, a)))
            ctx.check(D.py(st, d) == down(DB), 'no-alias', what, '%s changes the dictionary the database was made from' % what)
            read_back(spoil(st.copy(), a), c, want, what + ' then changing the argument', 'no-alias')
            read_back(spoil(st.copy(), d), c, want, what + ' then changing the initial dictionary', 'no-alias')
            # a second operation must not reach the argument of the first one
            if op == 'AddConstants' and ch:
                for op2 in CHANGES:
                    y = st.copy()
                    b = up(D, y, ch)
                    D.keep(y, '$b', b)
                    try:
                        y, _ = D.do(y, c, op2, b)
                    except Raised as x:
                        ctx.check(False, 'constants-operation', what + ' then ' + op2, str(x))
                        continue
                    read_back(y, c, CHANGES[op2][0](copy.deepcopy(want), ch), what + ' then ' + op2)
                    ctx.check(D.py(y, a) == down(ch), 'no-alias', what + ' then ' + op2, 'the dictionary given to the first operation is changed by the second one')
    # one list object given at two places stays two entries
    for op in CHANGES:
        st, c, d = make({'p': {}})
        l = D.lst(st, [D.text(clean('a'))])
        inner = D.I.alloc(st, 'dict', D.node)
        st.heap[inner].ent = {C('k'): (l, True), C('j'): (l, True)}
        outer = D.I.alloc(st, 'dict', D.node)
        st.heap[outer].ent = {C('p'): (ref(inner), True)}
        D.keep(st, '$a', ref(outer))
        st, _ = D.do(st, c, 'AddConstants', ref(outer))
        ch = {'p': {'k': ['$n'] if op != 'RemoveConstants' else ['$a']}}
        b = up(D, st, ch)
        D.keep(st, '$b', b)
        st, _ = D.do(st, c, op, b)
        y, v = D.do(st.copy(), c, 'GetByPath', 'p/j')
        ctx.check(D.py(y, v) == down(['$a']), 'no-alias', op + ' with a shared list', 'changing one entry changes another one that was added from the same list object')
    # answers
    for p, v in list(paths(DB)):
        st, c, d = make(DB)
        st, r = D.do(st, c, 'GetByPath', p)
        D.keep(st, '$r', r)
        read_back(spoil(st, r), c, DB, 'changing the answer to %s' % p, 'no-alias')
    # getters
    full = {}
    for g, p in GETTERS.items():
        x = full
        ps = p.split('/')
        for k in ps[:-1]:
            x = x.setdefault(k, {})
        x[ps[-1]] = {'$'[:0] + 'key-of-' + g: '$v' + g} if g in ('MirrorsKnown', 'SetsBase') else ['$v' + g]
    st, c, d = make(full)
    empty, ce, _ = make({})
    for g, p in GETTERS.items():
        want = full
        for k in p.split('/'):
            want = want[k]
        try:
            y, v = D.get(st.copy(), c, g)
            ctx.check(D.py(y, v) == down(want), 'getter-path', g, '%s returns %r instead of the entry at %s' % (g, D.py(y, v), p))
            D.keep(y, '$r', v)
            z, w = D.get(spoil(y, v), c, g)
            ctx.check(D.py(z, w) == down(want), 'no-alias', g, 'changing the answer of %s changes the database' % g)
            y, v = D.get(empty.copy(), ce, g)
            ctx.check(D.py(y, v) == {}, 'getter-path', g, '%s of an empty database is %r' % (g, D.py(y, v)))
        except Raised as x:
            ctx.check(False, 'getter-path', g, str(x))
    # loading
    for content in ({'l': ['x']}, [], ['x'], 'text', None, 5):
        F = ctx.driver(db=content, faults=True)
        F.exceptions()
        st = F.state()
        rs = F.call(st, F.cls('Constants'))
        exc = F.exceptions()
        ctx.check(not exc, 'load-failure', 'database holding %r' % (content,), 'loading a database raises %s' % (exc[:2],))
        ctx.check(bool(rs), 'load-failure', 'database holding %r' % (content,), 'loading a database never succeeds')
        for x, c in rs:
            F.keep(x, '$c', c)
            for y, v in F.meth(x, c, 'GetByPath', 'l'):
                got = F.py(y, v)
                ctx.check(got in ({}, content.get('l') if isinstance(content, dict) else {}), 'load-failure', 'database holding %r' % (content,),
                          'a database that cannot be used answers %r' % (got,))
            for e in F.exceptions():
                ctx.check(False, 'load-failure', 'database holding %r' % (content,), 'reading it raises %s at %s' % (e[0], e[2]))
