"""C16: the placeholder for inline code never leaks into expansions"""
import re

from oesa.rule import *  # noqa

RULE = ('no-marker: the text the parser puts in place of unresolvable inline code occurs in no expansion; original-code: at its place stands the original inline code, '
        'all of it, in order')
EXPLAIN = ('Recipes whose variables hold unresolvable inline code (alone, repeated, next to resolved helpers, in every assignment form, behind references, in '
           'included files) are parsed by abstract interpretation of the current source. Every expansion entry point is interpreted on them and its result over '
           'the named unknowns is compared with the text in which the code stands unchanged. The marker itself is read from what the parser stores.')
EXPECT = {'rule no-marker': 300, 'rule original-code': 200}

F, G, H, K, A, B, X = (clean(x) for x in ('f', 'g', 'h', 'k', 'a', 'b', 'x'))
U1 = ['${@', F, '(d)}']
U2 = ['${@', G, "('", K, "')}"]
U3 = ['${@', H, '[', K, "] if {'", A, "':1} else {}}"]
SP = ['${@', F, ' + ', G, '(d)}']
NEST = ['${@', F, "('${", K, "}')}"]
EMPTYB = ['${@}']


def R(neg=False):
    """a call the parser resolves, and its value"""
    return ["${@bb.utils.contains('", K, "','", A, "','", A, "','", B, "',d)}"], [B if neg else A]


def shapes(neg):
    r, v = R(neg)
    return [
        ('one block', U1, U1), ('two blocks', U1 + U2, U1 + U2), ('the same block twice', U1 + ['-'] + U1, None), ('around', ['x'] + U1 + ['y'], None),
        ('words', ['x '] + U1 + [' y '] + U2, None), ('with braces', U3, None), ('blocks and braces', U3 + U1 + U3, None), ('resolved first', r + U1, v + U1), ('resolved last', U2 + r, U2 + v),
        ('resolved between', U1 + ['.'] + r + ['.'] + U2, U1 + ['.'] + v + ['.'] + U2), ('unresolved between', r + ['/'] + U1 + ['/'] + r, v + ['/'] + U1 + ['/'] + v),
        ('three blocks', U1 + U2 + U1, None), ('blank in code', SP, None), ('empty code', U1 + EMPTYB, None), ('leading blank', [' '] + U1 + [' '], U1), ('only text', [A], None),
    ]


def name(ps):
    return ''.join('<%s>' % p[1] if isinstance(p, tuple) else p for p in ps)


def words(ps):
    out, cur = [], []
    for p in ps:
        if isinstance(p, str):
            for i, w in enumerate(re.split(r'[ \t]', p)):
                if i:
                    if cur:
                        out.append(cur)
                    cur = []
                if w:
                    cur = cur + [w]
        else:
            cur = cur + [p]
    if cur:
        out.append(cur)
    return [txt(*w) for w in out]


def run(ctx):
    ctx.spread(part, [(neg, k) for neg in (False, True) for k in range(4)])


class File:
    def __init__(self, ctx, neg):
        self.ctx, self.neg = ctx, neg
        self.D = ctx.driver()
        self.mark = None

    def load(self, main, inc=()):
        D = self.D
        probe = ['ZPROBE = "${@', clean('probe'), '(d)}"\n']
        files = {'/l/r/m_1.bb': [probe] + list(main)}
        if inc:
            files['/l/r/i.inc'] = list(inc)
            files['/l/r/m_1.bb'].append('require i.inc\n')
        D.files(files)
        self.st, self.s = D.stash(quiet=True, negative_inline=self.neg)
        self.st, items = D.do(self.st, self.s, 'AddFile', '/l/r/m_1.bb')
        self.items = D.py(self.st, items)
        _, v = D.get(self.st.copy(), ref(self.items[0].oid), 'VarValue')
        p = parts(ex(one(v))) if len(v) == 1 else None
        if not p or len(p) != 1 or not isinstance(p[0], str) or len(p[0]) < 3:
            # nothing is put in place of the code, so nothing can leak
            self.mark = None
        else:
            self.mark = p[0].strip('"')
        self.st, _ = D.do(self.st, self.s, 'Finalize')
        return self

    def leaks(self, res):
        return self.mark is not None and self.mark in repr(res)

    def check(self, what, res, want):
        ctx = self.ctx
        what = what + (' (negative)' if self.neg else '')
        ctx.check(not self.leaks(res), 'no-marker', what, '%s contains the placeholder: %r' % (what, res))
        if want is not None and not self.leaks(res):
            ctx.check(res == want, 'original-code', what, '%s is %r instead of %r' % (what, res, want))

    def query(self, fn, *args, **kw):
        x, v = self.D.do(self.st.copy(), self.s, fn, *args, **kw)
        return self.D.py(x, v)


OPS = ['=', ':=', '?=', '??=', '+=', '=+', '.=', '=.']
MODS = ['_append', '_prepend', ':append', ':prepend']
M = '/l/r/m_1.bb'


def part(ctx, neg, k):
    n = 0
    for label, src, want in shapes(neg):
        want = src if want is None else want
        q = '"' if '"' not in name(src) else "'"
        n += 1
        if n % 4 != k or neg and not ctx.thorough and 'resolved' not in label and n > 2:
            continue
        # the value itself, in every form of assignment
        f = File(ctx, neg)
        lines = []
        ops = list(enumerate(OPS))
        if not ctx.thorough:
            ops = [ops[0]] + [o for o in ops[1:] if (o[0] + n) % 3 == 0]
        for i, op in ops:
            lines.append(['V%d %s ' % (i, op), q] + src + [q, '\n'])
        for i, m in enumerate(MODS[:2]):
            lines.append(['W%d%s = ' % (i, m), q] + src + [q, '\n'])
        lines.append(['S = ', "'" if "'" not in name(src) else q] + src + ["'" if "'" not in name(src) else q, '\n'])
        lines.append(['R1 = "${V0}"\n'])
        lines.append(['R2 = "p ${R1} q"\n'])
        lines.append(['R3 = "${V0}${V0}${S}"\n'])
        f.load(lines)
        res = f.query('ExpandVar', filename=M)
        for i, op in ops:
            f.check('ExpandVar of %s %s' % (op, name(src)), res.get('V%d' % i), words(want))
        for i, m in enumerate(MODS[:2]):
            f.check('ExpandVar of %s %s' % (m, name(src)), res.get('W%d' % i), words(want))
        f.check('ExpandVar of a single quoted %s' % name(src), res.get('S'), words(want) if "'" in name(src) else None)
        core = list(want)
        for v, w in (('R1', core), ('R2', ['p '] + core + [' q']), ('R3', core * 2 if "'" not in name(src) else core * 3)):
            if label == 'leading blank':
                w = None
            single = v == 'R3' and "'" not in name(src)
            f.check('ExpandVar of a reference (%s) to %s' % (v, name(src)), res.get(v), words(w) if w and not single else None)
            for t in ('${%s}' % v, 'z/${%s}.z' % v):
                g = f.query('ExpandTerm', M, t)
                exp = None
                if w and not single:
                    exp = txt(*(['z/'] + w + ['.z'] if t[0] == 'z' else w))
                f.check('ExpandTerm(%s) to %s' % (t, name(src)), g, exp)
        for v in ('V0', 'S'):
            g = f.query('ExpandTerm', M, '${%s}' % v)
            f.check('ExpandTerm(${%s}) of %s' % (v, name(src)), g, txt(*want) if v == 'V0' and label != 'leading blank' else None)
        # with the item given
        for i in range(1, 1 + len(lines) - 3):
            it = f.items[i]
            for attr in ('VarValue', 'VarValueStripped'):
                _, val = f.D.get(f.st.copy(), ref(it.oid), attr)
                g = f.query('ExpandTerm', M, val, objref=ref(it.oid))
                plain = name(src).count('${@') and f.mark and f.mark in repr(f.D.py(f.st, val))
                f.check('ExpandTerm of the %s of item %s with the item given' % (attr, name(lines[i - 1]).strip()), g,
                        txt(*want) if plain and i <= len(ops) and label != 'leading blank' else None)
        # several items of one variable
        f = File(ctx, neg)
        f.load([['V = "s"\n'], ['V += ', q] + src + [q, '\n'], ['V_append = " ', '"\n'], ['V_append = ', q, ' '] + src + [q, '\n'], ['V =+ ', q] + U2 + [q, '\n'], ['V_prepend = ', q] + U1 + [' ', q, '\n'],
                ['Z = "${Q} ${V}"\n']])
        exp = words(U1 + [' '] + U2 + [' s '] + list(want) + ['  '] + list(want))
        f.check('ExpandVar of several assignments of %s' % name(src), f.query('ExpandVar', filename=M, attribute='VarName', attributeValue='V').get('V'), exp)
        f.check('ExpandVar without a file of several assignments of %s' % name(src), f.query('ExpandVar', attribute='VarName', attributeValue='V').get('V'), exp)
        # the code is removed again
        f = File(ctx, neg)
        f.load([['V = ', q] + src + [q, '\n'], ['V_remove = ', q] + U2 + [q, '\n'], ['C := "${V}"\n'], ['D[', X, '] = ', q] + src + [q, '\n']])
        f.check('ExpandVar after a removal from %s' % name(src), f.query('ExpandVar', filename=M), None)
        if 'code' not in label and not any(U2[1] == p for p in src):
            f = File(ctx, neg)
            f.load([['V = ', q] + src + [' '] + U2 + [q, '\n'], ['V_remove = ', q] + U2 + [q, '\n']])
            f.check('ExpandVar after %s is removed from %s' % (name(U2), name(src)), f.query('ExpandVar', filename=M).get('V'), words(want))
        # assigned more than once, referenced
        f = File(ctx, neg)
        f.load([['V = ', q] + src + [q, '\n'], ['V = ', q, B, ' '] + src + [q, '\n'], ['C = "x ${V} y"\n']])
        for t in ('${V}', '${C}', '${C} ${V}'):
            f.check('ExpandTerm(%s) with two assignments of %s' % (t, name(src)), f.query('ExpandTerm', M, t), None)
        r = f.query('ExpandVar', filename=M)
        f.check('ExpandVar with two assignments of %s' % name(src), r, None)
        f.check('ExpandVar with a second assignment of %s' % name(src), r.get('V'), words([B, ' '] + list(want)))
        # from an included file
        f = File(ctx, neg)
        f.load([['T = "a ${V} b"\n']], [['V = ', q] + src + [q, '\n']])
        f.check('ExpandTerm of a variable of an included file with %s' % name(src), f.query('ExpandTerm', M, '${T}'), txt(*(['a '] + list(want) + [' b'])) if label != 'leading blank' else None)
        f.check('ExpandVar of a variable of an included file with %s' % name(src), f.query('ExpandVar', filename=M).get('V'), words(want))
        # names derived from variables
        f = File(ctx, neg)
        f.load([['PACKAGES = ', q, '${PN}-', A, ' '] + src + [q, '\n'], ['PACKAGE_BEFORE_PN = ', q] + U1 + ['-', B, q, '\n'], ['PACKAGES_DYNAMIC = ', q, '^'] + src + [q, '\n'],
                ['PACKAGES_DYNAMIC += ', q] + U1 + [q, '\n'], ['SRC_URI = ', q, 'git://', A, '/', B, ';name='] + U1 + [' file://', X, q, '\n'],
                ['SRC_URI += ', q] + src + [' git://', A, ';name=', K, '-'] + U1 + [q, '\n']])
        for strip in (False, True):
            g = f.query('GetValidPackageNames', M, strippn=strip)
            f.check('GetValidPackageNames(strippn=%s) of %s' % (strip, name(src)), g, None)
            for w in words(list(want)) + [txt(*(U1 + ['-', B]))]:
                ctx.check(w in g, 'original-code', 'GetValidPackageNames(%s) %s %s' % (strip, name(src), neg), 'GetValidPackageNames of a recipe listing %s has no %r' % (name(src), w))
        g = f.query('GetPackagesDynamic', M)
        f.check('GetPackagesDynamic of %s' % name(src), g, frozenset(words(['^'] + list(want) + [' '] + U1)) if label != 'leading blank' else None)
        g = f.query('GetValidNamedResources', M)
        f.check('GetValidNamedResources of %s' % name(src), g, None)
        for w in (txt(*U1), txt(K, '-', *U1)):
            ctx.check(w in g, 'original-code', 'GetValidNamedResources %s %s' % (name(src), neg), 'GetValidNamedResources of a recipe with %r and %s yields %r' % (w, name(src), g))
        ctx.sample('%s: all expansions keep the code' % name(src))
