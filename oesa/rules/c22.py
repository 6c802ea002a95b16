"""C22: bulk changes add and remove exactly the given items"""
from oesa.rule import *  # noqa

RULE = 'collection-operation: abstract evaluation of each operation on representative contents; the resulting contents are compared with the operation\'s definition'
EXPLAIN = ('Each bulk operation of the result list and of the collection is interpreted abstractly from the current source on symbolic items '
           '(opaque objects of which nothing but identity is known) for every kind of argument (item, list, tuple, result list, the list itself) and '
           'every position; the resulting contents are compared element by element with the definition of the operation.')
EXPECT = {'rule list-operation': 60, 'rule collection-operation': 12}


def run(ctx):
    D = ctx.driver()
    I = D.I
    base = D.state()
    base, s = D.stash(base, quiet=True)
    names = 'abcdef'
    items = {}
    Item = D.cls('Variable')
    for n in names:
        t = {'d': 'a', 'e': 'b'}.get(n, n)      # different items may have the same text
        base, it = D.single(D.call(base, Item, name=D.text(clean('v' + t)), value=D.text('"', clean('w' + t), '"'), operator=' = ', origin='/x/a.bb', line=1,
                                   infileline=1, rawtext=D.text(clean('r' + t)), realraw=D.text(clean('r' + t)), new_style_override_syntax=False,
                                   inline_blocks=D.lst(base, [])), 'Variable()')
        items[n] = it
        D.keep(base, '$it' + n, it)
    SL = D.cls('Stash.StashList')

    def word(st, v):
        inv = {one(x): n for n, x in items.items()}
        a = one(v)
        o = st.obj(a)
        if o.kind == 'inst':
            st, v = D.get(st, v, 'data')
            o = st.obj(one(v))
        if o.seq is None:
            return '?'
        return ''.join(inv.get(one(x), '?') for x in o.seq)

    def mk(st, kind, w):
        vals = [items[n] for n in w]
        if kind == 'item':
            return st, vals[0]
        if kind in ('list', 'tuple'):
            return st, D.lst(st, vals, kind)
        if kind == 'iterator':
            st, v = D.single(D.call(st, ext('builtins.iter'), D.lst(st, vals)), 'iter')
            return st, v
        return D.single(D.call(st, SL, s, D.lst(st, vals)), 'StashList()')

    def islist(st, v):
        o = st.obj(one(v))
        return o is not None and o.kind == 'inst' and any(c == one(SL) for c in I.mro(o.cls, st))

    # result lists
    ops = []
    for kind, w in [('item', 'd'), ('list', 'd'), ('list', 'de'), ('list', 'ed'), ('list', ''), ('tuple', 'de'), ('tuple', ''), ('StashList', 'de'), ('StashList', ''), ('self', '')]:
        ops.append(('append', kind, w, lambda c, w: c + w))
    for kind, w in [('list', 'd'), ('list', 'ed'), ('list', ''), ('tuple', 'de'), ('StashList', 'de'), ('iterator', 'de'), ('self', '')]:
        ops.append(('extend', kind, w, lambda c, w: c + w))
        ops.append(('__iadd__', kind, w, lambda c, w: c + w))
    for c in 'abc':
        ops.append(('remove', 'item', c, lambda c, w: drop(c, w)))
    for kind in ('list', 'tuple', 'StashList'):
        for w in ('a', 'c', 'ab', 'ba', 'ac', 'ca', 'bc', 'abc', 'cba', ''):
            ops.append(('remove', kind, w, lambda c, w: drop(c, w)))
    ops.append(('remove', 'self', '', lambda c, w: ''))

    def drop(c, w):
        for x in w:
            i = c.index(x)
            c = c[:i] + c[i + 1:]
        return c

    def attempt(rule, what, st, f, expect, arg=None):
        """f(st) -> (state, collection, result)"""
        try:
            st, coll, res = f(st)
            got = word(st, coll)
        except Raised as x:
            ctx.check(False, rule, what, '%s raises: %s' % (what, x))
            return None
        ctx.check(got == expect, rule, what, '%s leaves [%s], expected [%s]' % (what, got, expect))
        return st, res

    starts = ['abc', 'abab', ''] if ctx.thorough else ['abc']
    for start in starts:
        for op, kind, w, spec in ops:
            if kind in ('item',) and not w:
                continue
            if op == 'remove' and (any(start.count(x) < w.count(x) for x in w)):
                continue
            st = base.copy()
            st, l = mk(st, 'StashList', start)
            D.keep(st, '$l', l)
            if kind == 'self':
                arg, ww = l, start
            else:
                st, arg = mk(st, kind, w)
                ww = w
            D.keep(st, '$a', arg)
            before = word(st, arg) if kind not in ('item', 'iterator', 'self') else None
            what = 'StashList[%s].%s(%s %s)' % (start, op, kind, ww)

            def f(st):
                if op == '__iadd__':
                    rs = I.augop(st, l, __import__('ast').Add(), arg, D.node)
                    st, v = D.single(rs, '+=')
                    return st, v, v
                st, v = D.do(st, l, op, arg)
                return st, l, v
            r = attempt('list-operation', what, st, f, spec(start, ww))
            if r and before is not None:
                ctx.check(word(r[0], arg) == before, 'argument-kept', what, '%s changes its argument from [%s] to [%s]' % (what, before, word(r[0], arg)))
            if r and op == '__iadd__':
                ctx.check(islist(r[0], r[1]), 'stays-result-list', what, '%s yields %s instead of a result list' % (what, D.show(*r)[:60]))
                ctx.check(r[1] == l, 'in-place', what, '%s builds a new object instead of changing the list in place' % what)
        # insert and item assignment
        for i in range(-1, len(start) + 1):
            st = base.copy()
            st, l = mk(st, 'StashList', start)
            D.keep(st, '$l', l)
            ref_ = list(start)
            ref_.insert(i, 'd')
            attempt('list-operation', 'StashList[%s].insert(%d, d)' % (start, i), st.copy(), lambda st: (D.do(st, l, 'insert', i, items['d'])[0], l, None), ''.join(ref_))
            if 0 <= i < len(start):
                ref_ = list(start)
                ref_[i] = 'd'
                attempt('list-operation', 'StashList[%s][%d] = d' % (start, i), st.copy(), lambda st: (D.do(st, l, '__setitem__', i, items['d'])[0], l, None), ''.join(ref_))
    # construction owns its contents
    for kind in ('list', 'tuple', 'StashList', 'iterator'):
        st = base.copy()
        st, src = mk(st, kind, 'abc')
        D.keep(st, '$src', src)
        st, l = D.single(D.call(st, SL, s, src), 'StashList()')
        D.keep(st, '$l', l)
        what = 'StashList(%s)' % kind
        ctx.check(word(st.copy(), l) == 'abc', 'list-operation', what, 'holds [%s] instead of the given items' % word(st.copy(), l))
        if kind != 'iterator':
            before = word(st.copy(), src)
            r = attempt('list-operation', what + '.append', st, lambda st: (D.do(st, l, 'append', items['d'])[0], l, None), 'abcd')
            if r:
                ctx.check(word(r[0], src) == before, 'argument-kept', what, 'the result list shares its contents with the list it was made from')
        # still a result list that can be filtered
    for op in ('append', 'extend', 'insert', '__iadd__'):
        st = base.copy()
        st, l = mk(st, 'StashList', 'ab')
        D.keep(st, '$l', l)
        st, arg = mk(st, 'list', 'cd')
        D.keep(st, '$a', arg)
        what = 'StashList.%s then reduce' % op
        try:
            if op == 'insert':
                st, _ = D.do(st, l, 'insert', 0, items['c'])
                want = 'abc'
            elif op == '__iadd__':
                st, l2 = D.single(I.augop(st, l, __import__('ast').Add(), arg, D.node), '+=')
                D.keep(st, '$l', l2)
                l = l2
                want = 'abcd'
            else:
                st, _ = D.do(st, l, op, arg)
                want = 'abcd'
            st, r = D.do(st, l, 'reduce', classifier='Variable')
            got = word(st.copy(), r)
            ctx.check(sorted(got) == sorted(want) and islist(st, r), 'list-operation', what, 'gives [%s], expected the items of [%s] in a result list' % (got, want))
        except Raised as x:
            ctx.check(False, 'list-operation', what, str(x))
    # the collection itself
    for kind, w in [('item', 'd'), ('list', 'de'), ('list', ''), ('tuple', 'de'), ('StashList', 'de')]:
        for op in ('Append', 'Remove'):
            st = base.copy()
            for n in ('abcde' if op == 'Remove' else 'abc'):
                st, _ = D.do(st, s, 'Append', items[n])
            st, arg = mk(st, kind, w)
            D.keep(st, '$a', arg)
            before = word(st.copy(), arg) if kind != 'item' else None
            want = 'abc' if op == 'Remove' and w == 'de' else 'abce' if op == 'Remove' and w == 'd' else 'abcde' if op == 'Remove' else 'abc' + w

            def f(st):
                st, _ = D.do(st, s, op, arg)
                st, q = D.do(st, s, 'GetItemsFor')
                D.keep(st, '$q', q)
                return st, q, None
            r = attempt('collection-operation', 'Stash.%s(%s %s)' % (op, kind, w), st, f, want)
            if r and before is not None:
                ctx.check(word(r[0], arg) == before, 'argument-kept', 'Stash.%s(%s)' % (op, kind), 'the argument is changed')
    # removing a query result of the collection from the collection
    st = base.copy()
    for n in 'abcd':
        st, _ = D.do(st, s, 'Append', items[n])
    st, q = D.do(st, s, 'GetItemsFor', classifier='Variable')
    D.keep(st, '$q', q)

    def f(st):
        st, _ = D.do(st, s, 'Remove', q)
        st, r = D.do(st, s, 'GetItemsFor')
        return st, r, None
    attempt('collection-operation', 'Stash.Remove(its own query result)', st, f, '')
    st2 = base.copy()
    st2, _ = D.do(st2, s, 'Append', D.lst(st2, [items[n] for n in 'abc']))
    st2, q = D.do(st2, s, 'GetItemsFor')
    D.keep(st2, '$q', q)

    def g(st):
        st, _ = D.do(st, s, 'Append', items['d'])
        return st, q, None
    attempt('collection-operation', 'a query result after Stash.Append', st2, g, 'abc')
    for sub in ('ab', 'ba', 'c', 'cb'):
        st = base.copy()
        for n in 'abc':
            st, _ = D.do(st, s, 'Append', items[n])

        def f(st):
            st, arg = mk(st, 'list', sub)
            D.keep(st, '$a', arg)
            st, _ = D.do(st, s, 'Remove', arg)
            st, r = D.do(st, s, 'GetItemsFor')
            return st, r, None
        attempt('collection-operation', 'Stash.Remove(list %s)' % sub, st, f, drop('abc', sub))
    ctx.sample('StashList[abc].remove(list ba) leaves [c]')
