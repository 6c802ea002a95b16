"""C05: source text is conserved and line numbers are exact"""
import itertools

from oesa.rule import *  # noqa

RULE = ('conserved: the unprocessed texts of the items of a file, one after the other, are the text of the file; line: the line number of an item within its file is one '
        'plus the number of line breaks in front of its text; nonempty: no item is without text')
EXPLAIN = ('Files are made of all sequences of kinds of lines (starts, continuations, insides and ends of every kind of block, statements, blank lines, inline code), each line '
           'holding an unknown text, with and without a line break at the end of the file. They are parsed by abstract interpretation of the current source, directly, '
           'as an included file and as an append with a line offset; the texts of the items over the unknowns are compared with the file.')
EXPECT = {'rule conserved': 1500, 'rule line': 3000}

L = '/l/'
KINDS = [
    ('variable', ['A = "', None, '"']), ('continued', ['A = "', None, ' \\']), ('continued with blanks', ['A += "', None, ' \\  ']), ('closing quote', ['"']), ('indented', ['    ', None]), ('indented continued', ['    ', None, ' \\']),
    ('blank', ['']), ('white', ['  ']), ('comment', ['# ', None]), ('continued comment', ['# ', None, ' \\']), ('comment with code', ['# ${@', None, '(d)}']), ('indented comment', ['  # ', None]), ('def', ['def ', None, '(d):']), ('def indented', ['  def ', None, '(d):']),
    ('function', ['do_', None, '() {']), ('python function', ['python ', None, '() {']), ('closing', ['}']), ('indented closing', ['  }']), ('opening', ['  ', None, ' {']), ('one line function', ['do_', None, '() { ', 'x', ' }']),
    ('inherit', ['inherit ', None]), ('plain', [None]), ('code', ['B = "${@', None, '(d)}"']), ('open code', ['B = "${@', None, '(', ' \\']), ('helper', ["B = \"${@bb.utils.contains('A', 'b', '", None, "', '', d)}\""]), ('flag', ['A[x] = "', None, '"']), ('backslash inside', ['A = "', None, '\\', 'n"']),
    ('require', ['require ', None, '.inc']), ('found', ['require found.inc']), ('handler', ['addhandler ', None]), ('value with a head', ['A = "', 'x() {', None, '"']), ('tab', ['\t', None]), ('special', ['%', None]), ('closing and more', ['} ', None]),
]
NAMES = [k[0] for k in KINDS]
# the kinds that start, go on or end a block
EDGY = ['continued', 'closing quote', 'indented', 'blank', 'white', 'comment', 'def', 'function', 'closing', 'plain', 'found']
P = L + 'r/x_1.bb'


def line(kind, n):
    return [clean('t%d' % n) if p is None else p for p in dict(KINDS)[kind]]


def ways():
    yield 'added', P, [(P, {})], {}
    yield 'required', L + 'r/g.inc', [(P, {})], {P: [['Z = "1"\n'], ['require g.inc\n'], ['Z = "2"\n']]}
    yield 'inherited', L + 'classes/g.bbclass', [(P, {})], {P: [['Z = "1"\n'], ['Z = "3"\n'], ['inherit g\n'], ['Z = "2"\n']]}
    yield 'append with an offset', L + 'r/x_%.bbappend', [(P, {}), (L + 'r/x_%.bbappend', {'lineOffset': 13})], {P: [['Z = "1"\n']]}


def run(ctx):
    one_ = [(k,) for k in NAMES]
    two = list(itertools.product(NAMES, repeat=2))
    three = list(itertools.product(EDGY, repeat=3)) if not ctx.thorough else list(itertools.product(NAMES, repeat=3))
    start = ['comment', 'def'] if not ctx.thorough else ['comment', 'def', 'function', 'closing', 'continued', 'indented', 'blank', 'plain']
    rest = ['comment', 'def', 'function', 'closing', 'continued', 'indented', 'blank', 'plain']
    four = [s for i, s in enumerate(itertools.product(start, rest, rest, rest)) if ctx.thorough or s[1] in ('comment', 'def', 'function', 'continued')] + [('def', 'handler', 'python function', 'closing'), ('handler', 'python function', 'indented', 'closing'), ('function', 'opening', 'closing', 'closing'), ('function', 'opening', 'indented closing', 'plain')]
    n = 120
    jobs = []
    for seqs, end in ((one_ + two, '\n'), (one_ + two, ''), (three, '\n'), (three if ctx.thorough else three[::9], ''), (four, '\n'), (four if ctx.thorough else four[::9], '')):
        m = n if not end else 3 * n
        jobs += [('part', seqs[i:i + m], 0, end) for i in range(0, len(seqs), m)]
    for w in (1, 2, 3):
        for seqs, end in ((one_ + two[::1 if ctx.thorough else 4] + four[::9], '\n'), (one_ + two[w::11], '')):
            m = n if not end else 3 * n
            jobs += [('part', seqs[i:i + m], w, end) for i in range(0, len(seqs), m)]
    done = list(itertools.product(sorted(DONE), repeat=2)) + [s for i, s in enumerate(itertools.product(sorted(DONE), repeat=3)) if ctx.thorough or i % 8 == 0]
    jobs += [('whole', done[i:i + n], 0, '\n') for i in range(0, len(done), n)]
    ctx.spread(dispatch, jobs + [('special', None, 0, '')])


def dispatch(ctx, what, seqs, way, end):
    {'part': part, 'whole': whole, 'special': special}[what](ctx, seqs, list(ways())[way], end)


# ends every block
RESET = [['"\n'], ['}\n'], ['}\n'], ['RESET = "1"\n']]
BATCH = 12


def lines_of(s, n=0):
    return [line(k, n + i) + ['\n'] for i, k in enumerate(s)]


def part(ctx, seqs, w, end):
    D = ctx.driver()
    ctx.sample('%s%s: %d sequences such as %s' % (w[0], '' if end else ', without line break at the end', len(seqs), ', '.join(seqs[-1])))
    if not end:
        for s in seqs:
            text = lines_of(s)
            text[-1] = [p for p in text[-1][:-1] if p]
            check(ctx, D, '%s at the end of the file, %s' % (', '.join(s), w[0]), [l for l in text if l], w)
        return
    for i in range(0, len(seqs), BATCH):
        some = seqs[i:i + BATCH]
        text = []
        for s in some:
            text = text + lines_of(s) + RESET
        trial = Ctx(ctx.pid, ctx.tier)
        check(trial, D, 'a file', text, w)
        if trial.findings:
            # which one is it
            n = len(ctx.findings)
            for s in some:
                check(ctx, D, '%s, %s' % (', '.join(s), w[0]), lines_of(s) + RESET, w)
            if len(ctx.findings) > n:
                continue
            check(ctx, D, 'many blocks from %s on, %s' % (', '.join(some[0]), w[0]), text, w)
            continue
        ctx.obligations += trial.obligations
        ctx.held += trial.held
        for k, v in trial.counts.items():
            ctx.count(k, v)


T0, T1 = clean('t0'), clean('t1')
# complete statements: none of them goes on in the next
DONE = {
    'variable': [['A = "', T0, '"\n']], 'continued variable': [['A = "', T0, ' \\\n'], ['  ', T1, ' \\\n'], ['"\n']], 'comment': [['# ', T0, '\n'], ['# ', T1, '\n']], 'python function': [['python ', T0, '() {\n'], ['    ', T1, '\n'], ['}\n']],
    'function': [['do_', T0, '() {\n'], ['    ', T1, ' {\n'], ['    }\n'], ['}\n']], 'inherit': [['inherit ', T0, '\n']], 'require': [['require ', T0, '.inc\n']], 'def': [['def f_x(d):\n'], ['    ', T1, '\n'], ['\n'], ['    ', T0, '\n']], 'handler': [['addhandler ', T0, '\n']],
    'flag': [['A[x] = "', T0, '"\n']], 'export': [['export ', T0, '\n']], 'addtask': [['addtask ', T0, '\n']], 'continued inherit': [['inherit ', T0, ' \\\n'], ['  ', T1, '\n']], 'code': [['A = "${@', T0, '(d)}"\n']], 'value with a head': [['A = "x() {', T0, '"\n']],
    'comment with a head': [['# x() {', T0, '\n']],
}


def whole(ctx, seqs, w, end):
    """each complete statement is one item"""
    D = ctx.driver()
    name, path, adds, files = w
    for i in range(0, len(seqs), BATCH):
        text, starts = [], {}
        for s in seqs[i:i + BATCH]:
            for j, k in enumerate(s):
                if not (j and 'comment' in k and 'comment' in s[j - 1]):
                    starts[len(text) + 1] = '%s%s' % (k, ' behind %s' % ' and '.join(s[:j]) if j else '')
                text = text + DONE[k]
            starts[len(text) + 1] = 'reset behind %s' % ', '.join(s)
            text = text + RESET[-1:]
        D.files(dict({L + 'conf/layer.conf': [['\n']]}, **{path: text}))
        st, s = D.stash(quiet=True)
        st, r = D.do(st, s, 'AddFile', path)
        got = [D.py(*D.get(st.copy(), ref(x.oid), 'InFileLine')) for x in D.py(st, r)]
        for n, what in starts.items():
            ctx.check(got.count(n) == 1, 'chunk', what, '%s: %d items start in its line' % (what, got.count(n)))
        for n in got:
            ctx.check(n in starts, 'chunk', 'line behind %s' % starts[max(x for x in starts if x <= n)] if isinstance(n, int) else 'line', 'an item starts in the middle of: %s' % starts[max(x for x in starts if x <= n)] if isinstance(n, int) else repr(n))


def special(ctx, seqs, w, end):
    D = ctx.driver()
    t = clean('t0')
    for name, text in [
            ('empty file', []), ('one line break', [['\n']]), ('many line breaks', [['\n']] * 5), ('only a blank', [[' ']]), ('only a backslash', [['\\']]), ('only backslashes', [['\\\n'], ['\\\n'], ['\\']]), ('only a comment', [['#']]),
            ('only an opening', [['{']]), ('only closings', [['}\n'], ['}\n'], ['}']]), ('unbalanced inline code', [['A = "${@', t, '(d)"\n'], ['B = "1"\n']]), ('unbalanced inline code at the end', [['A = "${@', t]]), ('two code blocks', [['A = "${@', t, '(d)} ${@', t, '(d)}"\n'], ['B = "1"\n']]),
            ('code over lines', [['A = "${@', t, '(d, \\\n'], ['   ', t, ')}"\n'], ['B = "1"\n']]), ('code in a function', [['do_x() {\n'], ['  ${@', t, '(d)}\n'], ['  ${@', t, '(d)} {\n'], ['  }\n'], ['}\n'], ['B = "1"\n']]), ('helper over lines', [["A = \"${@bb.utils.contains('A', 'b', \\\n"], ["  '", t, "', '', d)}\"\n"], ['B = "1"\n']]),
            ('the marker', [['A = "!!!inlineblock!!! ${@', t, '(d)}"\n'], ['B = "1"\n']]), ('code with line break in a helper', [['do_x() {\n'], ["  ${@bb.utils.contains('A', 'b',\n"], ["   '", t, "', '', d)}\n"], ['}\n'], ['B = "1"\n']])] + \
            [('escape %r' % c, [['A = "', t, c, t, '"\n'], ['# ', c, '\n'], [c, '\n'], ['B = "1"', c, '\n'], [c]]) for c in ('\x1b', '\t', '\x0b', '\x0c', '\x1c', '\x85', '\u2028', '\xa0', '\\', '\ufffd', '\x00', '\xe4')]:
        check(ctx, D, name, text, w)


def check(ctx, D, what, text, w):
    name, path, adds, files = w
    D.files(dict({L + 'conf/layer.conf': [['\n']], L + 'r/found.inc': [['F = "1"\n'], ['F = "2"']]}, **dict(files, **{path: text})))
    st, s = D.stash(quiet=True)
    for f, kw in adds:
        st, r = D.do(st, s, 'AddFile', f, **kw)
    if path == adds[-1][0]:
        its = D.py(st, r)
    else:
        st, r = D.do(st, s, 'GetItemsFor')
        its = D.py(st, r)
    D.keep(st, '$r', r)
    got, nums = [], []
    for i in its:
        y, o = D.get(st.copy(), ref(i.oid), 'Origin')
        if D.py(y, o) != path:
            continue
        y, v = D.get(st.copy(), ref(i.oid), 'RealRaw')
        got.append(list(parts(ex(one(v)))) if len(v) == 1 and parts(ex(one(v))) is not None else [v])
        y, v = D.get(st.copy(), ref(i.oid), 'InFileLine')
        nums.append(D.py(y, v))
    whole = txt(*[p for l in text for p in l]) if text else ''
    res = txt(*[p for g in got for p in g]) if got else ''
    ok = ctx.check(res == whole, 'conserved', what, '%s: the items hold %r, the file %r' % (what, res, whole))
    before = 1
    for i, (g, n) in enumerate(zip(got, nums)):
        ctx.check(bool(g) and g != [''], 'nonempty', '%s, item %d' % (what, i), '%s: item %d has no text' % (what, i))
        if ok:
            ctx.check(n == before, 'line', '%s, item %d' % (what, i), '%s: item %d starts in line %d, its number is %r' % (what, i, before, n))
        before += sum(p.count('\n') for p in g if isinstance(p, str))
