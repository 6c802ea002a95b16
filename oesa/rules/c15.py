"""C15: variable expansion honours every assignment operator"""
import itertools

from oesa.rule import *  # noqa

RULE = ('operator-sequence: for every sequence of assignments to one variable the expansion equals the operators applied in line order, additions after them, '
        'removals last; operator-parsing: spacing around the operator does not matter')
EXPLAIN = ('Assignments with named unknown values are parsed by abstract interpretation of the current source; every sequence of them is put into a collection '
           '(by their line, in two orders of addition) and ExpandVar is interpreted on it. The resulting word list, over the named unknowns, is compared with the '
           'definition of the operators. Sequences cover all operators, override style additions and removals in both syntaxes, and unset.')
EXPECT = {'rule operator-sequence': 300, 'rule operator-parsing': 40}

OPS = ['=', ':=', '?=', '??=', '+=', '=+', '.=', '=.']
MODS = ['append', 'prepend', 'remove']
V = [clean('a'), clean('b'), clean('c'), clean('e')]


def words(ps):
    """text -> list of words"""
    out, cur = [], []
    for p in ps:
        if isinstance(p, str):
            for i, w in enumerate(p.replace('\\\n', ' ').split(' ')):
                if i:
                    if cur:
                        out.append(cur)
                    cur = []
                if w:
                    cur = cur + [w]
        else:
            cur = cur + [p]
    if cur:
        out.append(cur)
    return [txt(*w) for w in out]


def remove(cur, val):
    """text without a value; None when it depends on what a removal means"""
    n = len(val)
    if not n:
        return cur
    ws = words(cur)
    tgt = words(val)
    if len(tgt) != 1:
        return None
    # only whole words are removed without doubt
    flat = [p for p in cur if not isinstance(p, str)]
    for w in ws:
        if w != tgt[0] and isinstance(w, Txt) and any(p in (val if isinstance(val, list) else [val]) for p in walk(w.e) if isinstance(p, tuple) and p and p[0] == 'tok'):
            return None
    out = []
    for w in ws:
        if w != tgt[0]:
            out += [' ', w.e if isinstance(w, Txt) else w]
    return out


def spec(seq, initial=None):
    """seq: (op, value parts); None: not defined by the property"""
    cur = initial
    for i, (op, val) in enumerate(seq):
        if op in ('=', ':='):
            cur = val
        elif op in ('?=', '??='):
            cur = val if cur is None else cur
        elif op == '+=':
            cur = (cur or []) + [' '] + val
        elif op == '=+':
            cur = val + [' '] + (cur or [])
        elif op == '.=':
            cur = (cur or []) + val
        elif op == '=.':
            cur = val + (cur or [])
        elif op == 'unset':
            if any(o in MODS for o, _ in seq[:i]):
                return None
            cur = None
    add = cur
    for op, val in seq:
        if op == 'append':
            add = (add or []) + val
        elif op == 'prepend':
            add = val + (add or [])
    for op, val in seq:
        if op == 'remove':
            add = remove(add or [], val)
            if add is None:
                return None
    return [] if add is None else add


def describe(seq):
    return '; '.join(op if op.startswith('unset') else '%s %s' % (op, ''.join('<%s>' % p[1] if isinstance(p, tuple) else p for p in val)) for op, val in seq)


def run(ctx):
    ctx.spread(job, [('_', k) for k in range(4)] + [(':', k) for k in range(4)] + [('p', 0)])


def job(ctx, style, part):
    if style == 'p':
        parsing(ctx)
    else:
        sequences(ctx, style, part)


def sequences(ctx, style, part):
    D = ctx.driver()
    name = clean('NAME')
    path = '/l/r/n_1.bb'
    lines, index = [], {}

    def line(key, *ps):
        index[key] = len(lines)
        lines.append(list(ps) + ['\n'])
    vals = {}
    for k in (0, 1, 2, 3, '1b'):
        vals[k] = [V[1 if k == '1b' else k]]
        for op in OPS:
            line((op, k), name, ' %s "' % op, *vals[k], '"')
        for m in MODS:
            line((m, k), name, '%s%s = "' % (style, m), *vals[k], '"')
    line(('unset', 0), 'unset ', name)
    line(('unset flag', 0), 'unset ', name, '[', clean('flag'), ']')
    inl = ['${@', clean('fn'), '(d)}']
    vals['i'] = inl
    vals['s'] = ['x ', clean('d'), ' y']
    vals['m'] = [' ', clean('d'), ' \\\n ', clean('g'), ' ']
    vals['z'] = []
    for k in 'ismz':
        for op in OPS:
            line((op, k), name, ' %s "' % op, *vals[k], '"')
        for m in MODS:
            line((m, k), name, '%s%s = "' % (style, m), *vals[k], '"')
    other = clean('OTHER')
    line(('other', 0), other, ' = "', clean('o'), '"')
    line(('other', 1), other, style + 'append = "', clean('p'), '"')
    line(('other', 2), 'unset ', other)
    D.files({path: lines})
    st, s0 = D.stash(quiet=True, new_style_override_syntax=style == ':')
    D.keep(st, '$s0', s0)
    st, items = D.do(st, s0, 'AddFile', path)
    items = D.py(st, items)
    if len(items) != len(lines):
        ctx.check(False, 'operator-parsing', 'file of assignments', '%d lines yield %d items' % (len(lines), len(items)))
        return

    def evaluate(seq, order, others=(), how='name'):
        x = st.copy()
        x, s = D.stash(x, quiet=True)
        D.keep(x, '$s2', s)
        its = [items[index[k]] for k in list(seq)] + [items[index[k]] for k in others]
        for n, i in enumerate(its):
            (x, _), = [(y, None) for y in D.setattr(x, ref(i.oid), 'Line', 10 + n)]
        for i in (reversed(its) if order else its):
            x, _ = D.do(x, s, 'Append', ref(i.oid))
        kw = {}
        if how != 'any':
            kw['filename'] = path
        if how == 'name':
            kw.update(attribute='VarName', attributeValue=D.text(name))
        x, r = D.do(x, s, 'ExpandVar', **kw)
        return D.py(x, r)

    allops = OPS + MODS + ['unset', 'unset flag']

    def keyed(ops, kinds=None):
        out, n = [], 0
        for i, o in enumerate(ops):
            if o.startswith('unset'):
                out.append((o, 0))
            else:
                out.append((o, (kinds or range(4))[i]))
        return tuple(out)
    seqs = [keyed(c) for c in itertools.product(allops, repeat=1)] + [keyed(c) for c in itertools.product(allops, repeat=2)]
    trip = [keyed(c) for c in itertools.product(allops, repeat=3)]
    seqs += trip if ctx.thorough else [t for n, t in enumerate(trip) if n % 23 == (0 if style == '_' else 3)]
    # kinds of values
    for k in 'ismz':
        for c in itertools.product(allops[:-2], repeat=2):
            if ctx.thorough or (c[0] in ('=', '?=', 'append', '=+') or c[1] in ('+=', 'remove', '.=')) == (k in 'im') and (k != 's' or style == ':'):
                seqs.append(keyed(c, (0, k)))
                if k != 'm':
                    seqs.append(keyed(c, (k, 1)))
    # the same value again
    for c in itertools.product(OPS[4:] + MODS, repeat=2):
        seqs.append((('=', 0),) + keyed(c, (1, '1b')))
    # longer ones
    longs = [('?=', '+=', '=.', 'append', 'prepend', 'remove'), ('append', '=', '+='), ('remove', '=', 'append', '+='), ('prepend', 'append', '=', '?='), ('+=', 'unset', '?=', '??='),
             ('=', 'unset', '+=', 'append'), ('=', 'append', 'append', 'prepend', 'prepend'), ('=+', '=+', '+=', '.='), ('remove', 'append', '='), ('=', 'unset flag', '?='), ('unset', '=', 'remove')]
    for c in longs:
        seqs.append(keyed(c, (0, 1, 2, 3, 0, 1)))
        seqs.append(keyed(c, (3, 0, 1, 2, 3, 0)))
    done = 0
    for n, seq in enumerate(dict.fromkeys(seqs)):
        want = spec([(o.split()[0] if o == 'unset' else o, vals[k] if not o.startswith('unset') else []) for o, k in seq])
        if want is None or n % 4 != part:
            continue
        exp = words(want)
        done += 1
        what = '%s (%s style)' % (describe([(o, vals[k] if not o.startswith('unset') else []) for o, k in seq]), 'old' if style == '_' else 'new')
        for order in (0, 1) if ctx.thorough or n % 5 == 0 else (n // 4 % 2,):
            others = (('other', 0), ('other', 1)) if n % 3 else (('other', 0), ('other', 2))
            how = ('name', 'all', 'any')[n % 3]
            try:
                got = evaluate(seq, order, others, how)
            except Raised as x:
                ctx.check(False, 'operator-sequence', what, str(x))
                continue
            key = txt(name)
            g = got.get(key, [])
            ctx.check(g == exp, 'operator-sequence', what, '%s expands to %s instead of %s' % (what, g, exp))
            if how != 'name':
                o = got.get(txt(other), [])
                e = words([clean('o'), clean('p')]) if others[1][1] == 1 else []
                ctx.check(o == e, 'operator-sequence', what + ', other variable', '%s: another variable expands to %s instead of %s' % (what, o, e))
        if done % 30 == 3:
            ctx.sample('%s -> %s' % (what, exp))


def parsing(ctx):
    """operators in all spacings, read from a file"""
    D = ctx.driver()
    lines, want = [], {}
    n = 0
    for op in OPS:
        for l, r in ((' ', ' '), ('', ''), (' ', ''), ('', ' '), ('  ', '   '), ('\t', '\t'), (' \t', ' ')):
            for q in '"\'' if ctx.thorough else '"':
                v = 'V%d' % n
                n += 1
                lines.append([v, ' = "', V[0], '"\n'])
                lines.append([v, l, op, r, q, V[1], q, '\n'])
                want[v] = (spec([('=', [V[0]]), (op, [V[1]])]), '%r %s %r' % (l, op, r))
    for st_ in ('_', ':'):
        for m in MODS:
            for l, r in ((' ', ' '), ('', ''), ('\t', '  ')):
                v = 'W%d' % n
                n += 1
                base = spec([('=', [V[0], ' ', V[1]]), (m, [V[1]])])
                lines.append([v + st_ + m, l, '=', r, '"', V[1], '"\n'])
                lines.append([v, ' = "', V[0], ' ', V[1], '"\n'])
                want[v] = (base, '%s%s %r = %r' % (st_, m, l, r))
    size = 24
    for k in range(0, len(lines), size):
        path = '/l/r/p_%d.bb' % k
        D.files({path: lines[k:k + size]})
        st, s = D.stash(quiet=True)
        st, _ = D.do(st, s, 'AddFile', path)
        st, r = D.do(st, s, 'ExpandVar', filename=path)
        got = D.py(st, r)
        for l in lines[k:k + size:2]:
            v = l[0] if l[0] in want else l[0].replace(':', '_').split('_')[0]
            w, what = want[v]
            ctx.check(got.get(v, []) == words(w), 'operator-parsing', what, 'an assignment written %s: the variable expands to %s instead of %s' % (what, got.get(v), words(w)))
