"""C08: inline helpers select the right branch"""
from oesa.rule import *  # noqa

RULE = ('helper-branch: for every helper, mode, quoting, spacing and shape of the arguments the substitute is the selected argument without quotes; '
        'helper-name: only the exact name of a helper is replaced, everything else stays unresolved and unchanged')
EXPLAIN = ('Files whose variables hold inline calls with named unknown arguments are parsed by abstract interpretation of the current source (chunking, '
           'block scan, helper dispatch, helper pattern and substitution), in the default and in the negative mode; the value of every resulting '
           'variable is compared with the selected argument.')
EXPECT = {'rule helper-branch': 300, 'rule helper-name': 60}

T1, F1, N1, N2, N3, W1 = (clean(x) for x in ('t', 'f', 'n', 'm', 'k', 'w'))
D0 = 'd'

# helper -> (arguments, position of the true argument, of the false one); None: the default of the helper
HELPERS = {
    'bb.utils.contains': (['q', 'q', 'T', 'F', 'd'], 'T', 'F'),
    'bb.utils.contains_any': (['q', 'q', 'T', 'F', 'd'], 'T', 'F'),
    'bb.utils.filter': (['T', 'q', 'd'], 'T', ''),
    'oe.utils.conditional': (['q', 'q', 'T', 'F', 'd'], 'T', 'F'),
    'oe.utils.ifelse': (['c', 'T', 'F'], 'T', 'F'),
    'oe.utils.any_distro_features': (['d', 'q', 'T', 'F'], 'T', 'F'),
    'oe.utils.all_distro_features': (['d', 'q', 'T', 'F'], 'T', 'F'),
    'oe.utils.vartrue': (['q', 'T', 'F', 'd'], 'T', 'F'),
    'oe.utils.less_or_equal': (['q', 'q', 'T', 'F', 'd'], 'T', 'F'),
    'oe.utils.version_less_or_equal': (['q', 'q', 'T', 'F', 'd'], 'T', 'F'),
    'oe.utils.both_contain': (['q', 'q', 'T', 'd'], 'T', ''),
}
SHORT = {
    'oe.utils.any_distro_features': [(['d', 'q'], '1', ''), (['d', 'q', 'T'], 'T', '')],
    'oe.utils.all_distro_features': [(['d', 'q'], '1', ''), (['d', 'q', 'T'], 'T', '')],
}

# contents of the two selectable arguments
VALUES = [([T1], [F1]), ([T1, ' ', W1], [F1]), ([T1], []), ([], [F1]), (['-', T1, '=', W1], ['--', F1, '/', W1]), (['1'], ['0']), (['${', T1, '}'], ['${', F1, '}/x']),
          (['-', T1, ',-', W1, ',', N1], [F1, ',', W1]), ([T1, '(', W1, ')'], [F1, '(', W1, ')']), ([F1], [T1]), ([T1, '; ', W1], ['#', F1])]


def call(name, args, val, quote, sep, lead=''):
    out = [lead, name, '(']
    n = 0
    for i, a in enumerate(args):
        if i:
            out.append(sep)
        if a == 'd':
            out.append('d')
        elif a == 'c':
            out += ["d.getVar(", quote, N3, quote, ") == ", quote, N1, quote]
        elif a == 'q':
            out += [quote, (N1, N2)[n % 2], quote]
            n += 1
        else:
            out += [quote] + list(val[0 if a == 'T' else 1]) + [quote]
    return out + [')']


def name(parts_):
    return ''.join('<%s>' % p[1] if isinstance(p, tuple) else p for p in parts_)


def run(ctx):
    jobs = []
    for neg in (False, True):
        cases = []

        def add(rule, expr, want, before=(), after=()):
            cases.append((rule, list(before) + ['${@'] + list(expr) + ['}'] + list(after), want))

        forms = [("'", ', '), ("'", ','), ('"', ', '), ("'", ',  ')] if not ctx.thorough else [(q, s) for q in '\'"' for s in (', ', ',', ',  ', ' , ')]
        for h, (args, t, f) in HELPERS.items():
            for vi, val in enumerate(VALUES):
                for fi, (q, sep) in enumerate(forms):
                    if vi and fi and not ctx.thorough and (vi + fi) % 3:
                        continue
                    for args_, t_, f_ in [(args, t, f)] + SHORT.get(h, []):
                        sel = f_ if neg else t_
                        if sel in ('T', 'F'):
                            sub = list(val[0 if sel == 'T' else 1])
                        else:
                            sub = [sel]
                        if not any(sub) and h == 'bb.utils.filter' and not neg:
                            continue
                        add('helper-branch', call(h, args_, val, q, sep), sub)
                        if vi == 0 and fi == 0 or ctx.thorough:
                            # anywhere in a value, with other blocks around
                            add('helper-branch', call(h, args_, val, q, sep), [N1, '-'] + sub + ['.', N2], [N1, '-'], ['.', N2])
                            add('helper-branch', call(h, args_, val, q, sep, ' '), sub)
                            oth = call('bb.utils.vercmp', ['q', 'T', 'F', 'd'], VALUES[1], q, sep)
                            add('helper-branch', call(h, args_, val, q, sep), ['MARK', '/'] + sub, ['${@'] + oth + ['}/'])
                            add('helper-branch', call(h, args_, val, q, sep), sub + sub, (), ['${@'] + call(h, args_, val, q, sep) + ['}'])
                            add('helper-branch', call(h, args_, val, q, sep), sub + [' '] + list(VALUES[1][1 if neg else 0]), (),
                                [' ${@'] + call('oe.utils.ifelse', ['c', 'T', 'F'], VALUES[1], q, ', ') + ['}'])
        names = set(HELPERS)
        for h, (args, t, f) in HELPERS.items():
            base, last = h.rsplit('.', 1)
            near = [h + 'x', h + '_' + 'any', h[:-1], base + '_' + last, h + '.x', base + '.x' + last, h.replace('utils', 'util'), h.replace('.utils', ''), h.upper(), h.replace('utils.', 'utilsx'), last]
            for n in near if ctx.thorough else near[:6]:
                if n in names:
                    continue
                add('helper-name', call(n, args, VALUES[0], "'", ', '), ['MARK'])
            add('helper-name', [h], ['MARK'])
        for x in ([N1, '(d)'], [N1], ["'", N1, "'"], [N1, '(d, ', "'", N2, "')"], ['d.', N1, '(', "'", N2, "')"], ['1 if ', N1, ' else 0'], ['{', N1, ': 1}'], ['True']):
            add('helper-name', x, ['MARK'])
        add('helper-name', ["d.getVar('", N1, "')"], ['${', N1, '}'])
        add('helper-name', ['d.getVar("', N1, '")'], ['${', N1, '}'])
        add('helper-name', ["d.getVarFlag('", N1, "', '", N2, "')"], ['MARK'])

        size = 24
        for k in range(0, len(cases), size):
            jobs.append((neg, cases[k:k + size], k))
    ctx.spread(check, jobs)


def check(ctx, neg, cases, k):
    D = ctx.driver()
    probe = [clean('probe'), '(d)']
    lines = [['A = "${@'] + probe + ['}"\n']]
    used = []
    for n, (rule, text, want) in enumerate(cases):
        q = "'" if any(isinstance(p, str) and '"' in p for p in text) else '"'
        lines.append(['V%d = ' % n, q] + text + [q, '\n'])
        used.append(q)
    path = '/l/r/x_1.bb'
    D.files({path: lines})
    st, s = D.stash(quiet=True, negative_inline=neg)
    st, items = D.do(st, s, 'AddFile', path)
    items = D.py(st, items)
    if len(items) != len(lines):
        ctx.check(False, 'helper-branch', 'negative' if neg else 'default', 'a file of %d assignments yields %d items' % (len(lines), len(items)))
        return

    def value(i, attr='VarValue'):
        _, v = D.get(st.copy(), ref(items[i].oid), attr)
        return v
    mark = one(value(0)) if len(value(0)) == 1 else None
    mp = parts(ex(mark)) if mark is not None else []
    if k == 0 or not mp:
        ctx.check(mp and isinstance(mp[0], str) and mp[0].startswith('"') and mp[-1].endswith('"') and len(mp) == 1, 'helper-name', 'unknown call',
                  'an unknown inline call is not left unresolved but becomes %s' % (show(mark) if mark else mark))
    M = mp[0][1:-1] if mp and isinstance(mp[0], str) else '?'
    for n, (rule, text, want) in enumerate(cases):
        got = value(n + 1)
        exp = mkcat([used[n]] + [M if w == 'MARK' else w for w in want] + [used[n]])
        what = '%s%s' % (name(text), ' (negative)' if neg else '')
        ctx.check(got == frozenset([exp]), rule, what, '%s becomes %s instead of %s' % (what, showv(got), show(exp)))
        rw = value(n + 1, 'RealRaw')
        ctx.check(rw == frozenset([mkcat(lines[n + 1])]), rule, what + ' source', '%s: the unprocessed text is %s' % (what, showv(rw)))
        if (k + n) % 37 == 5:
            ctx.sample('%s -> %s' % (what, show(exp)))
