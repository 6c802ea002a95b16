"""C01: answers are never stale"""
from oesa.world import *  # noqa

RULE = ('fresh: after every change of a history, every query answers as if nothing had ever been cached or asked before; '
        'content: the lines and links of all items are those computed without any cached answer')
EXPLAIN = ('The current source is interpreted abstractly over histories of changes to a collection (adding recipes, includes, classes, appends and configurations in several orders, linking files '
           'again, removing and appending items, finalizing) on a model layer with named unknown texts. Each history is evaluated twice: once with every cached function evaluated anew at each call and '
           'the queries asked on a copy of the abstract state that is thrown away, once with caches that keep what they were given until they are cleared and all queries asked after every change. The answers, '
           'over the named unknowns, must be the same after every change.')
EXPECT = {'rule fresh': 1500, 'rule content': 40}


def run(ctx):
    jobs = [(n, h) for n in HISTORIES for h in (range(len(ASK)) if ctx.thorough else (0, 1))]
    ctx.spread(history, jobs)


def history(ctx, name, h):
    qs = list(queries([ASK[h]] if h else [R], ctx.thorough))
    steps = HISTORIES[name]
    plain = evaluate(ctx, steps, qs, False)
    real = evaluate(ctx, steps, qs, True)
    for i, step in enumerate(steps):
        p, r = plain[i], real[i]
        what = 'history "%s" up to %s' % (name, sname(step))
        for q in qs:
            ctx.check(p[0][qname(q)] == r[0][qname(q)], 'fresh', '%s: %s' % (what, qname(q)), '%s: after %s, %s answers %s; computed anew it is %s' % (
                name, ', '.join(sname(x) for x in steps[:i + 1]), qname(q), cut(r[0][qname(q)]), cut(p[0][qname(q)])))
        d = [(a, b) for a, b in zip(p[1], r[1]) if a != b]
        ctx.check(p[1] == r[1], 'content', what, '%s: after %s, %s' % (name, ', '.join(sname(x) for x in steps[:i + 1]), 'with cached answers %s, without %s' % (
            cut(d[0][1]), cut(d[0][0])) if d else '%d items with cached answers, %d without' % (len(r[1]), len(p[1]))))
    ctx.sample('%s: %d queries after each of %d changes' % (name, len(qs), len(steps)))


def evaluate(ctx, steps, qs, cached):
    D = ctx.driver(db=DB, cache=cached)
    D.files(FILES)
    st, s = D.stash(quiet=True)
    desc = Describe(D)
    added, out = [], []
    for step in steps:
        st = change(D, st, s, added, step)
        ans = {}
        x = st if cached else st.copy()
        for q in qs:
            x, v = ask(D, x, s, q)
            ans[qname(q)] = desc.answer(x, v)
        out.append((ans, desc.content(st, s)))
        if cached:
            st = x
    return out


def cut(x):
    return repr(x)[:300]
