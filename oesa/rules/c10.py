"""C10: every item attribute carries its own part of the statement"""
import re
import string

from oesa.rule import *  # noqa

RULE = ('kind: a statement yields an item of its kind; part: every public attribute and accessor is the part of the statement it documents; setter: setting an attribute '
        'changes it and what derives from it, nothing else')
EXPLAIN = ('Statements of every kind are built from named unknown parts, with all separators, optional parts, orders and special characters each part may hold; they are parsed '
           'by abstract interpretation of the current source, every public attribute and accessor is evaluated over the unknown parts and compared with the part it documents. '
           'Statements that only resemble a kind are checked not to be of it. Every writable attribute is set to a further unknown and all attributes are compared again.')
EXPECT = {'rule kind': 600, 'rule part': 6000, 'rule setter': 60}

A, B, K, V, W, N, M, T, X, Y, Z = (clean(n) for n in 'abkvwnmtxyz')
L = '/l/'
ESC = '\x1b'
PUNCT = [c for c in string.printable[:95] if not c.isalnum() and c not in '\\"']
LAYER = {L + 'conf/layer.conf': [['\n']]}


def spelled(d, words):
    """statements whose parts are the words the source knows"""
    special = {'append', 'prepend', 'remove', 'class-native', 'class-nativesdk', 'class-cross', 'class-target', 'machine'}
    keywords = {'export', 'include', 'inherit', 'include_all', 'require', 'unset', 'inherit_defer', 'addtask', 'deltask', 'addpylib', 'addfragments', 'EXPORT_FUNCTIONS', 'INHERIT', 'pkg', 'def'}
    for w in words:
        if not (w[0].isalnum() and w[-1].isalnum()):
            continue
        low = w[0].islower() or w[0].isdigit()
        if d not in w and w not in keywords:
            yield variable('of %s' % w, [w], w, [], d, [' := ', ' =. ', ' ??= ', '.='][len(w) % 4], ['"', w, '"'])
        yield variable('holding %s' % w, ['B'], 'B', [], d, ' += ', ['" ', w, ' ', V, ' ', w, '"'])
        yield variable('holding x%sx' % w, ['B'], 'B', [], d, ' ?= ', ['"', X, '/', w, '/', Y, '-', w, '"'])
        if low and d not in w and w not in special:
            yield variable('override %s' % w, ['B', d, w], 'B', [[w]], d, ' = ', ['"', V, '"'])
            yield variable('overrides %s' % w, ['B', d, 'append', d, w, d, T], 'B', [['append'], [w], [T]], d, ' = ', ['"', V, '"'])
        yield flag('of %s' % w, ['B'], [w], ' .= ', ['"', w, '"'])
        yield flag('at %s' % w, [w], [X], ' = ', ['"', V, ' ', w, '"'])
        yield export('of %s' % w, ['export ', w, ' = "', w, '"\n'], [w], [w])
        yield export('only %s' % w, ['export ', w, '\n'], [w], [])
        if not any(c in special or c == 'do' or c == 'install' for c in w.split('_')):
            yield function('do_x%s' % w, d, '', ['do_', A, w], '() {', ['do_', A, w], [], False, False, [['  ', w, ' ', V, '\n']])
            if w not in ('python', 'fakeroot'):
                yield function(w, d, 'python ', [w], '() {', [w], [], True, False, [['  ', V, ' ', w, '\n']])
        if re.fullmatch('[a-z0-9_-]+', w):
            yield Case('python block, %s' % w, 'PythonBlock', [['def ', w, '(d):\n'], ['    ', w, '\n']], FuncName=w, calls={('get_items',): ['def %s(d):' % w, '    %s' % w, '']})
        yield Case('comment, %s' % w, 'Comment', [['# ', w, ' ', V, '\n']])
        if re.fullmatch(r'[\w-]+', w) and not w.startswith('pkg_'):
            yield Case('addtask, %s' % w, 'TaskAdd', [['addtask ', w, ' after do_', X, w, ' before do_', w, X, ' # ', w, '\n']], FuncName=w, Before=[txt('do_', w, X)], After=[txt('do_', X, w)], Comment=txt('# ', w))
            yield Case('deltask, %s' % w, 'TaskDel', [['deltask ', w, '\n']], FuncName=w, Comment='')
        yield Case('inherit, %s' % w, 'Inherit', [['inherit ', K, ' ', w, '\n']], Statement='inherit', Class=txt(K, ' ', w), FilePaths=frozenset(), calls={('get_items',): [txt(K), w]})
        yield Case('include, %s' % w, 'Include', [['include ', w, '.inc\n']], Statement='include', IncName=w + '.inc', FileIncluded='', calls={('get_items',): [w + '.inc', 'include']})
        yield Case('include_all, %s' % w, 'IncludeAll', [['include_all ', w, '\n']], File=w)
        yield Case('addpylib, %s' % w, 'AddPylib', [['addpylib ${LAYERDIR}/', w, ' ', w, '\n']], Path='${LAYERDIR}/' + w, Namespace=w)
        yield Case('addfragments, %s' % w, 'AddFragements', [['addfragments ', w, ' ', w, ' ', w, '\n']], Path=w, Variable=w, Flagged=w)
        yield Case('unset, %s' % w, 'Unset', [['unset ', w, '\n']], VarName=w, Flag='')
        yield Case('unset flag, %s' % w, 'Unset', [['unset B[', w, ']\n']], VarName='B', Flag=w)
        yield Case('EXPORT_FUNCTIONS, %s' % w, 'FunctionExports', [['EXPORT_FUNCTIONS ', w, ' ', A, '\n']], FuncNames=txt(w, ' ', A), calls={('get_items',): [w, txt(A)]})


class Case:
    def __init__(self, name, kind, lines_, **want):
        self.name = name
        self.kind = kind
        self.lines = lines_
        self.attrs = {k: v for k, v in want.items() if not k.endswith('_') and k != 'calls'}
        self.calls = want.get('calls', {})


def E(*ps):
    return txt(*ps) if ps else ''


def variables(d, thorough):
    """all statements assigning a variable, in one override style (delimiter d)"""
    names = [('name', ['B'], 'B', []), ('unknown name', ['B', A], txt('B', A), []), ('dots', ['B.C-D'], 'B.C-D', []), ('reference', ['${', A, '}'], txt('${', A, '}'), []), ('word', [A], txt(A), [])]
    for mods in (['append'], ['prepend'], ['remove'], ['append', T], [T], ['${PN}'], ['${PN}-dev'], ['class-native'], ['class-target', 'append'], [T, 'append'], [T, X], ['append', T, 'class-nativesdk'],
                 ['machine', T], ['${', A, '}'], ['prepend', 'class-cross'], ['1'], ['qemu-arm']):
        if mods == ['${', A, '}']:
            names.append(('reference override', ['B', d, '${', A, '}'], 'B', [['${', A, '}']]))
            continue
        ps = ['B']
        for m in mods:
            ps += [d, m]
        names.append(('overrides %s' % ','.join(m if isinstance(m, str) else 'word' for m in mods), ps, 'B', [[m] for m in mods]))
    names.append(('dashed override', ['B', d, T, '-', X, '-', Y], 'B', [[T, '-', X, '-', Y]]))
    names.append(('dashed overrides', ['B', d, '${PN}-', X, '-', Y, d, 'append'], 'B', [['${PN}-', X, '-', Y], ['append']]))
    names.append(('the same override twice', ['B', d, T, d, T], 'B', [[T], [T]]))
    names.append(('capital part', ['B_C', d, 'append'], 'B_C', [['append']]))
    names.append(('two capital parts', ['B_', 'C_D', d, T], 'B_C_D', [[T]]))
    names.append(('package function', ['pkg_postinst' if d == '_' else 'pkg', d, T], None, None))
    names = [n for n in names if n[2] is not None]
    ops = ['=', '?=', '??=', ':=', '+=', '=+', '.=', '=.']
    blanks = [('', ''), (' ', ' '), ('\t', '\t'), ('  ', '  '), ('', ' '), (' ', '')]
    for i, (nn, ps, var, mods) in enumerate(names):
        for j, op in enumerate(ops):
            for k, (b, a) in enumerate(blanks):
                if not thorough and (i and j and k != (i + j) % 6 or (i and not j and k != 1) or (not i and j and k > 2 and k != j % 6)):
                    continue
                yield variable('%s %s %r' % (nn, op, b + op + a), ps, var, mods, d, b + op + a, ['"', V, '"'])
    # values
    vals = [('unknown', [V]), ('empty', []), ('words', [V, ' ', W]), ('the same word twice', [V, ' ', W, ' ', V]), ('outer blanks', [' ', V, ' ']), ('tabs', ['\t', V, '\t', W]), ('path', ['/', V, '/', W, '.bb']), ('reference', ['${', V, '}/', W]),
            ('assignment', [V, ' = ', W]), ('add', [V, ' += ', W]), ('plain equal sign', [V, '=', W]), ('inner quotes', [V, " '", W, "' "]), ('inner double quotes', [V, '"', W, '"', X]), ('statement', ['inherit ', V]), ('require', ['require ', V, '.inc']),
            ('comment like', [V, ' # ', W]), ('braces', ['{', V, '} (', W, ')']), ('function like', ['do_x() {', V, '}']), ('flag like', ['B[', V, '] = ', W]), ('addtask', ['addtask ', V, ' after ', W]), ('def', ['def ', V, '(d):']),
            ('export', ['export ', V, ' = ', W]), ('unset', ['unset ', V]), ('INHERIT', ['INHERIT += ', V])] + [('character %s' % c, [V, c, W]) for c in PUNCT] + [('starting with %s' % c, [c, V]) for c in PUNCT if c != '#'] + [('ending with %s' % c, [V, c]) for c in PUNCT]
    for i, (nn, ps) in enumerate(vals):
        if nn in ('inner double quotes',):
            yield variable('value %s' % nn, ['B'], 'B', [], d, ' = ', ['"'] + ps + ['"'], words=False)
            continue
        yield variable('value %s' % nn, ['B'], 'B', [], d, [' = ', ' += ', '?=', ' .= '][i % 4], ['"'] + ps + ['"'])
    yield variable('unquoted value', ['B'], 'B', [], d, ' = ', [V])
    yield variable('single quoted value', ['B'], 'B', [], d, ' = ', ["'", V, "'"])
    yield variable('no value', ['B'], 'B', [], d, ' =', [])
    # continued lines
    yield variable('continued', ['B'], 'B', [], d, ' = ', [], lines_=[['B = "', V, ' \\\n'], ['    ', W, ' \\\n'], ['"\n']], value=['"', V, ' ', ESC, '    ', W, ' ', ESC, '"'], items=[txt(V), txt(W)], multi=True)
    yield variable('continued at once', ['B'], 'B', [], d, ' = ', [], lines_=[['B = "\\\n'], ['/', V, '\\\n'], ['/', W, '"\n']], value=['"', ESC, '/', V, ESC, '/', W, '"'], items=[txt('/', V), txt('/', W)], multi=True)
    yield variable('continued with statements', ['B'], 'B', [], d, ' = ', [], lines_=[['B = " \\\n'], ['inherit ', V, ' \\\n'], ['# ', W, ' \\\n'], ['"\n']], value=['" ', ESC, 'inherit ', V, ' ', ESC, '# ', W, ' ', ESC, '"'],
                   items=['inherit', txt(V), '#', txt(W)], multi=True)


def wordlist(ps):
    """white space separated words of a text"""
    out, cur = [], []
    for p in ps:
        if isinstance(p, str):
            for c in p:
                if c in ' \t' + ESC:
                    if cur:
                        out.append(cur)
                    cur = []
                else:
                    cur = cur + [c]
        else:
            cur = cur + [p]
    if cur:
        out.append(cur)
    return [txt(*w) for w in out]


def strip(ps, chars):
    ps = [p for p in ps if p != '']
    while ps and isinstance(ps[0], str) and ps[0][0] in chars:
        ps = [x for x in [ps[0][1:]] if x] + ps[1:]
    while ps and isinstance(ps[-1], str) and ps[-1][-1] in chars:
        ps = ps[:-1] + [x for x in [ps[-1][:-1]] if x]
    return ps


def join(d, parts_):
    out = []
    for i, p in enumerate(parts_):
        out += ([d] if i else []) + list(p)
    return out


def variable(name, ps, var, mods, d, op, val, lines_=None, value=None, items=None, multi=False, words=True):
    value = val if value is None else value
    vn = ps if not mods else None
    base = [x for x in (ps if not mods else [p for p in ps])]
    if mods:
        base = [var]
    ms = [txt(*m) for m in mods]
    flat = [m[0] if len(m) == 1 else None for m in mods]
    add = op.strip() in ('+=', '=+', '.=', '=.')
    classes = [m for m in flat if m in ('class-native', 'class-nativesdk', 'class-cross', 'class-target')]
    machine = [txt(*m) for m in mods if not (len(m) == 1 and m[0] in ('append', 'prepend', 'class-native', 'class-nativesdk', 'class-cross', 'class-target', 'remove', 'machine'))]
    calls = {
        ('IsAppend',): add or 'append' in flat or 'prepend' in flat,
        ('AppendOperation',): ([op] if add else []) + [m for m in ('append', 'prepend', 'remove') if m in flat],
        ('IsImmediateModify',): not any(m in flat for m in ('append', 'prepend', 'remove')),
        ('IsMultiLine',): multi,
        ('GetClassOverride',): classes[0] if classes else '',
        ('GetMachineEntry',): machine[0] if machine else '',
        ('GetDistroEntry',): '',
        ('IsFromAppend',): False,
    }
    if words:
        calls[('get_items',)] = items if items is not None else wordlist(strip(value, '"'))
    stripped = strip(strip(value, ' \t\n' + ''), '"')
    return Case('variable, %s' % name, 'Variable', lines_ or [ps + [op] + val + ['\n']], VarName=txt(*base), SubItem=txt(*join(d, mods)) if mods else '', SubItems=ms, VarValue=txt(*value) if value else '', VarOp=op,
                RawVarName=txt(*base), VarNameComplete=txt(*join(d, [base] + mods)), VarNameCompleteNoModifiers=txt(*join(d, [base] + [m for m, f in zip(mods, flat) if f not in ('append', 'prepend', 'remove')])),
                VarValueStripped=txt(*stripped) if stripped else '', calls=calls)


def flags():
    ops = ['=', '?=', ':=', '+=', '=+', '.=', '=.', '??=']
    for i, op in enumerate(ops):
        for j, (b, a) in enumerate([('', ''), (' ', ' '), ('\t', '\t'), ('  ', '  ')]):
            yield flag('%r' % (b + op + a), ['B'], ['doc'], b + op + a, ['"', V, '"'])
    for n, ps in [('unknown', [N]), ('task', ['do_', N]), ('dots', ['a.b-', N]), ('reference', ['${', N, '}'])]:
        yield flag('name %s' % n, ps, ['doc'], ' = ', ['"', V, '"'])
    for n, ps in [('unknown', [M])] + [('with %s' % c, [M, c, X]) for c in '-./@_'] + [('starting with %s' % c, [c, X]) for c in '-./@_'] + [('ending with %s' % c, [X, c]) for c in '-./@_']:
        yield flag('flag %s' % n, ['B'], ps, ' = ', ['"', V, '"'])
    for n, ps in [('words', [V, ' ', W]), ('empty', []), ('outer blanks', [' ', V, ' ']), ('assignment', [V, ' = ', W]), ('flag', ['B[x] = ', W]), ('brackets', ['[', V, ']'])] + [('character %s' % c, [V, c, W]) for c in PUNCT] + \
            [('starting with %s' % c, [c, V]) for c in PUNCT] + [('ending with %s' % c, [V, c]) for c in PUNCT]:
        yield flag('value %s' % n, ['B'], ['x'], ' = ', ['"'] + ps + ['"'])
    yield flag('unquoted', ['B'], ['x'], ' = ', [V])
    yield flag('behind blanks', ['B'], ['x'], ' = ', ['"', V, '"'], pre='  ')
    yield flag('continued', ['B'], ['x'], ' = ', ['"', V, ' ', ESC, '  ', W, '"'], lines_=[['B[x] = "', V, ' \\\n'], ['  ', W, '"\n']])


def flag(name, ps, fl, op, val, pre='', lines_=None):
    st = strip(val, '"')
    st = txt(*st) if st else ''
    return Case('flag, %s' % name, 'FlagAssignment', lines_ or [[pre] + ps + ['['] + fl + [']', op] + val + ['\n']], VarName=txt(*ps), Flag=txt(*fl), VarOp=op, Value=txt(*val), ValueStripped=st,
                calls={('get_items',): [txt(*ps), txt(*fl), op, st]})


def exports():
    for b, a in [(' ', ' '), ('', ''), ('  ', '\t'), ('\t', '  ')]:
        for q in '"\'':
            yield export('%r %s' % (b + '=' + a, q), ['export ', A, b, '=', a, q, V, q, '\n'], [A], [V])
    for n, ps in [('empty', []), ('words', [V, ' ', W]), ('equal sign', [V, '=', W]), ('assignment', [V, ' = ', W]), ('other quotes', [V, " '", W, "'"]), ('assigned other quotes', ['-D', V, "='", W, "'"]), ('outer blanks', [' ', V, ' ']), ('export', ['export ', V])] + \
            [('character %s' % c, [V, c, W]) for c in PUNCT if c != "'"] + [('starting with %s' % c, [c, V]) for c in PUNCT if c != "'"] + [('ending with %s' % c, [V, c]) for c in PUNCT if c != "'"]:
        yield export('value %s' % n, ['export ', A, ' = "'] + ps + ['"\n'], [A], ps)
    yield export('no value', ['export ', A, '\n'], [A], [])
    yield export('no value, blanks', ['export  ', A, ' \n'], [A], [])
    yield export('tabs', ['\texport\t', A, ' = "', V, '"\n'], [A], [V])
    for n, ps in [('underscore', ['B_', A]), ('dot', ['B.', A]), ('dash', ['b-', A]), ('capital', ['B'])]:
        yield export('name with %s' % n, ['export '] + ps + [' = "', V, '"\n'], ps, [V])
        yield export('only name with %s' % n, ['export '] + ps + ['\n'], ps, [])
    yield Case('export, continued', 'Export', [['export ', A, ' = "', V, ' \\\n'], ['  ', W, '"\n']], Name=txt(A), Value=txt(V, ' ', ESC, '  ', W))


def export(name, line, n, v):
    v = txt(*v) if v else ''
    return Case('export, %s' % name, 'Export', [line], Name=txt(*n), Value=v, calls={('get_items',): [txt(*n), v]})


def functions(d):
    names = [('word', ['do_', A], ['do_', A], []), ('plain', [A], [A], []), ('dash', ['do_', A, '-', B], ['do_', A, '-', B], []), ('plus', [A, '+', B], [A, '+', B], []), ('reference', ['do_${', A, '}'], ['do_${', A, '}'], []),
             ('starting like python', ['python_', A], ['python_', A], []), ('starting like python at once', ['pythonx'], ['pythonx'], []), ('starting like fakeroot', ['fakeroot_', A], ['fakeroot_', A], []), ('starting like fakeroot at once', ['fakerootx'], ['fakerootx'], []), ('dot', ['do_', A, '.', B], ['do_', A, '.', B], []),
             ('ending like python', [A, 'python'], [A, 'python'], [])]
    for mods in (['append'], ['prepend'], ['append', T], ['class-native'], ['remove'], ['class-target'], ['class-cross'], ['append', 'class-native'], ['append', '${PN}']):
        ps = ['do_', A]
        for m in mods:
            ps += [d, m]
        names.append(('overrides %s' % ','.join(m if isinstance(m, str) else 'word' for m in mods), ps, ['do_', A], [[m] for m in mods]))
    known = ['do_install', d, T]
    names.append(('known function', known, ['do_install'], [[T]]))
    for nn, ps, base, mods in names:
        for pre, py, fr in [('', False, False), ('python ', True, False), ('fakeroot ', False, True), ('python  fakeroot ', True, True), ('fakeroot python\t', True, True), ('python\t', True, False), ('fakeroot\t', False, True)]:
            for paren in ('() {', '( ) {', ' () {', '(){', '()\t{'):
                if nn not in ('word', 'starting like python') and (pre, paren) not in (('', '() {'), ('python ', '() {'), ('fakeroot ', ' () {'), ('fakeroot python\t', '(){')):
                    continue
                yield function('%s %s%s' % (nn, pre, paren), d, pre, ps, paren, base, mods, py, fr, [['    ', V, ' ', W, '\n'], ['    ', X, '\n']])
    for pre, py, fr in [('python ', True, False), ('python', True, False), ('fakeroot ', False, True), ('fakeroot python ', True, True), ('fakeroot python', True, True)]:
        yield function('anonymous %s' % pre, d, pre, [], '() {', [], [], py, fr, [['    ', V, '\n']])
    yield function('named anonymous', d, 'python ', ['__anonymous'], '() {', ['__anonymous'], [], True, False, [['    ', V, '\n']])
    bodies = [('empty', []), ('blank line', [['\n'], ['  ', V, '\n'], ['\n']]), ('nested braces', [['  ', V, '() {\n'], ['    ', W, '\n'], ['  }\n']]), ('reference', [['  ${', V, '}/', W, '\n']]), ('comment', [['  # ', V, '\n'], ['  ', W, '\n']]),
              ('comment at the margin', [['# ', V, '\n'], ['  ', W, '\n']]), ('statements', [['inherit ', V, '\n'], ['B = "', W, '"\n'], ['def ', X, '(d):\n']]), ('deeper', [['    ', V, '\n'], ['        ', W, '\n'], ['    ', X, '\n']]),
              ('tabs', [['\t', V, '\n'], ['\t', W, '\n']]), ('continued', [['    ', V, ' \\\n'], ['        ', W, '\n']]), ('assignments', [['    A="', V, '"\n'], ["    B='", W, "'\n"]])] + [('character %s' % c, [['    ', V, ' ', c, ' ', W, '\n']]) for c in PUNCT if c not in '{}']
    for nn, body in bodies:
        yield function('body %s' % nn, d, '', ['do_', A], '() {', ['do_', A], [], False, False, body)


def function(name, d, pre, ps, paren, base, mods, py, fr, body):
    ls = [[pre] + ps + [paren, '\n']] + body + [['}\n']]
    flat = [m[0] if len(m) == 1 else None for m in mods]
    text = [p for l in body for p in l]
    one_ = [p.replace('\n', '').replace('\\', ESC) if isinstance(p, str) else p for p in text]
    one_ = [p for p in one_ if p != '']
    # the pattern leaves out the white space in front of the closing brace, or not
    machine = [txt(*m) for m in mods if not (len(m) == 1 and m[0] in ('append', 'prepend', 'class-native', 'class-cross', 'class-target', 'remove', 'machine'))]
    calls = {
        ('IsAppend',): 'append' in flat or 'prepend' in flat,
        ('GetMachineEntry',): machine[0] if machine else '',
        ('GetDistroEntry',): '',
        ('IsFromAppend',): False,
        ('get_items',): [txt(*l) if l else '' for l in dedent(body)],
    }
    raw = [p for i, l in enumerate(dedent(body)) for p in (['\n'] if i else []) + l]
    b = txt(*one_) if one_ else ''
    s = strip([p.replace('{', '').replace('}', '') if isinstance(p, str) else p for p in one_], ' \t')
    c = Case('function, %s' % name, 'Function', ls, FuncName=txt(*base) if base else '', IsPython=py, IsFakeroot=fr, FuncNameComplete=txt(*join(d, [base] + mods)) if base else '', SubItem=txt(*join(d, mods)) if mods else '', SubItems=[txt(*m) for m in mods],
             FuncBody=b, FuncBodyStripped=txt(*s) if s else '', FuncBodyRaw=txt(*raw) if raw else '', calls=calls)
    return c


def dedent(body):
    """lines of a body, without the common margin, the first break and the trailing white space"""
    ls = [[]] + [strip_nl(l) for l in body] + [[]]
    margins = []
    for l in ls:
        if l and not (all(isinstance(p, str) for p in l) and not ''.join(l).strip()):
            margins.append(len(l[0]) - len(l[0].lstrip(' \t')) if isinstance(l[0], str) else 0)
    m = min(margins) if margins else 0
    out = []
    for l in ls:
        l = list(l)
        if l and isinstance(l[0], str) and m:
            l[0] = l[0][m:]
        out.append([p for p in l if p != ''])
    return out


def strip_nl(l):
    l = list(l)
    if isinstance(l[-1], str):
        l[-1] = l[-1][:-1] if l[-1].endswith('\n') else l[-1]
    return [p for p in l if p != '']


def others():
    # python functions
    for n, ps in [('word', ['def f_x(d):\n']), ('blank', ['def  f_x (d) :\n']), ('more arguments', ['def f_x(d, ', A, '):\n']), ('dash', ['def f-x(d):\n'])]:
        if n == 'blank':
            ps = ['def  f_x (d):\n']
        yield Case('python block, %s' % n, 'PythonBlock', [ps, ['    ', V, '\n'], ['\n'], ['    ', W, '\n']], FuncName='f-x' if n == 'dash' else 'f_x', calls={('get_items',): [txt(*(ps[:-1] + [ps[-1][:-1]])), txt('    ', V), '', txt('    ', W), '']})
    # comments
    for n, ls in [('one', [['# ', V, '\n']]), ('two', [['# ', V, '\n'], ['# ', W, '\n']]), ('no blank', [['#', V, '\n']]), ('empty', [['#\n']]), ('double', [['## ', V, ' #', W, '\n']])] + \
            [('of %s' % n, [['# '] + s + ['\n']]) for n, s in [('variable', ['A = "', V, '"']), ('inherit', ['inherit ', V]), ('require', ['require ', V, '.inc']), ('function', ['do_', V, '() {']), ('def', ['def ', V, '(d):']), ('flag', ['A[', V, '] = "x"']), ('export', ['export ', V]),
                                                               ('addtask', ['addtask ', V]), ('unset', ['unset ', V]), ('fragments', ['addfragments ', V, ' ', W, ' ', X]), ('include_all', ['include_all ', V])]] + [('with %s' % c, [['# ', V, c, W, '\n']]) for c in PUNCT]:
        yield Case('comment, %s' % n, 'Comment', ls, calls={('get_items',): [txt(*strip_nl(l)) if strip_nl(l) else '' for l in ls] + ['']})
    yield Case('comment, indented', 'Comment', [['  # ', V, '\n']])
    # tasks
    for n, ps in [('plain', ['do_', N]), ('word', [N]), ('dash', ['do_', N, '-', M]), ('holding after', ['do_after_', N]), ('holding before', ['do_before_', N])]:
        for m, rest, before, after in [
                ('only', [], [], []), ('after', [' after do_', X], [], [['do_', X]]), ('before', [' before do_', X], [['do_', X]], []), ('after and before', [' after do_', X, ' before do_', Y], [['do_', Y]], [['do_', X]]),
                ('before and after', [' before do_', X, ' after do_', Y], [['do_', X]], [['do_', Y]]), ('many after', [' after do_', X, ' do_', Y, ' ', Z], [], [['do_', X], ['do_', Y], [Z]]),
                ('many before', [' before do_', X, '  do_', Y], [['do_', X], ['do_', Y]], []), ('again', [' after do_', X, ' do_', Y, ' do_', X, ' before ', Y, ' ', Z, ' ', Y], [[Y], [Z], [Y]], [['do_', X], ['do_', Y], ['do_', X]]), ('many both', [' after do_', X, ' do_', Y, ' before ', Z, ' do_', V], [[Z], ['do_', V]], [['do_', X], ['do_', Y]]),
                ('names holding the words', [' after do_before_', X, ' before do_after_', Y], [['do_after_', Y]], [['do_before_', X]]), ('names ending in the words', [' after do_', X, '_before', ' before do_', Y, '_after'], [['do_', Y, '_after']], [['do_', X, '_before']]),
                ('names starting with the words', [' before beforehand after afterwards'], [['beforehand']], [['afterwards']]),
                ('only a name holding before', [' after do_before_', X], [], [['do_before_', X]]), ('only a name holding after', [' before do_after_', X], [['do_after_', X]], [])]:
            for cn, comment in [('', []), ('comment', ['# ', W, ' after ', V]), ('comment at once', ['#', W])]:
                if cn == 'comment at once' and n != 'plain':
                    continue
                b, a = [txt(*x) for x in before], [txt(*x) for x in after]
                yield Case('addtask %s, %s, %s' % (n, m, cn or 'no comment'), 'TaskAdd', [['addtask '] + ps + rest + ([' '] if comment else []) + comment + ['\n']], FuncName=txt(*ps), Before=b, After=a, Comment=txt(*comment) if comment else '', calls={('get_items',): [txt(*ps)] + b + a})
    yield Case('addtask, blanks', 'TaskAdd', [['\taddtask\t', N, '  after  do_', X, '  before  ', Y, '\n']], FuncName=txt(N), Before=[txt(Y)], After=[txt('do_', X)], Comment='')
    for cn, comment in [('', []), ('comment', ['# ', W, ' ', V])]:
        for n, ps in [('plain', ['do_', N]), ('word', [N]), ('dash', ['do-', N])]:
            yield Case('deltask %s %s' % (n, cn), 'TaskDel', [['deltask '] + ps + ([' '] if comment else []) + comment + ['\n']], FuncName=txt(*ps), Comment=txt(*comment) if comment else '', calls={('get_items',): [txt(*ps)]})
    # inheriting
    for stm in ('inherit', 'inherit_defer'):
        for n, ps in [('one', [K]), ('two', [K, ' ', M]), ('many', [K, '  ', M, '\t', N]), ('again', [M, ' ', K, ' ', M]), ('found', ['found']), ('found and not', ['found ', K]), ('reference', ['${', K, '}']), ('path', [K, '/', M]), ('dash', [K, '-', M])]:
            for b in (' ', '\t', '  '):
                if b != ' ' and n not in ('one', 'many'):
                    continue
                yield Case('%s %s %r' % (stm, n, b), 'Inherit', [[stm + b] + ps + ['\n']], Statement=stm, Class=txt(*ps), FilePaths=frozenset([L + 'classes/found.bbclass']) if 'found' in n else frozenset(), calls={('get_items',): wordlist(ps)})
        yield Case('%s continued' % stm, 'Inherit', [[stm + ' ', K, ' \\\n'], ['  ', M, '\n']], Statement=stm, Class=txt(K, ' ', ESC, '  ', M), FilePaths=frozenset(), calls={('get_items',): [txt(K), txt(M)]})
    for op in ('=', '+=', ' += ', ' = ', '?=', ' ?= ', ' .= ', ' =+ ', ' =. ', ' ??= ', ' := '):
        for n, ps in [('one', [K]), ('two', [K, ' ', M]), ('found', ['found'])]:
            for q in '"\'':
                yield Case('INHERIT %r %s %s' % (op, n, q), 'Inherit', [['INHERIT', op, q] + ps + [q, '\n']], Statement='INHERIT', Class=txt(*ps), FilePaths=frozenset([L + 'classes/found.bbclass']) if n == 'found' else frozenset(), calls={('get_items',): wordlist(ps)})
    # including
    for stm in ('include', 'require'):
        for n, ps in [('unknown', [K, '.inc']), ('path', ['r/', K, '.inc']), ('found', ['found.inc']), ('reference', ['${', K, '}/', M, '.inc'])] + [('character %s' % c, [K, c, M, '.inc']) for c in '-./_+@~%,=']:
            for b in (' ', '\t', '  '):
                if b != ' ' and n not in ('unknown', 'found'):
                    continue
                yield Case('%s %s %r' % (stm, n, b), 'Include', [[stm + b] + ps + ['\n']], Statement=stm, IncName=txt(*ps), FileIncluded=L + 'r/found.inc' if n == 'found' else '', calls={('get_items',): [txt(*ps), stm]})
    for n, ps in [('unknown', [K, '.inc']), ('path', ['conf/', K, '.inc']), ('reference', ['${', K, '}'])]:
        yield Case('include_all %s' % n, 'IncludeAll', [['include_all '] + ps + ['\n']], File=txt(*ps), calls={('get_items',): [txt(*ps)]})
    for b in (' ', '\t', '  '):
        yield Case('addpylib %r' % b, 'AddPylib', [['addpylib', b, '${LAYERDIR}/', K, b, M, '\n']], Path=txt('${LAYERDIR}/', K), Namespace=txt(M), calls={('get_items',): [txt('${LAYERDIR}/', K), txt(M)]})
    yield Case('addpylib, path', 'AddPylib', [['addpylib ${LAYERDIR}/', K, '/', N, '-', X, ' ', M, '\n']], Path=txt('${LAYERDIR}/', K, '/', N, '-', X), Namespace=txt(M))
    for b in (' ', '\t', '  '):
        yield Case('addfragments %r' % b, 'AddFragements', [['addfragments', b, 'conf/', K, b, 'OE_', M, b, N, '\n']], Path=txt('conf/', K), Variable=txt('OE_', M), Flagged=txt(N), calls={('get_items',): [txt('conf/', K), txt('OE_', M), txt(N)]})
    # unset
    for n, ps in [('word', [A]), ('capital', ['B']), ('underscore', ['B_', A]), ('colon', ['B:', A]), ('reference', ['B_${', A, '}']), ('dash', ['b-', A]), ('dot', ['b.', A])]:
        for f, fl in [('variable', []), ('flag', [X]), ('dashed flag', [X, '-', Y]), ('underscored flag', [X, '_', Y]), ('flag with a dot', [X, '.', Y]), ('flag with a slash', [X, '/', Y]), ('flag with an at', [X, '@', Y])]:
            yield Case('unset %s, %s' % (n, f), 'Unset', [['unset '] + ps + (['['] + fl + [']'] if fl else []) + ['\n']], VarName=txt(*ps), Flag=txt(*fl) if fl else '', calls={('get_items',): [txt(*ps), txt(*fl) if fl else '']})
    # exported functions
    for n, ps in [('one', ['do_', A]), ('two', ['do_', A, ' do_', B]), ('many', ['do_', A, '  ', B, ' do_', X]), ('again', [B, ' ', A, ' ', B])]:
        ws = wordlist(ps)
        yield Case('EXPORT_FUNCTIONS %s' % n, 'FunctionExports', [['EXPORT_FUNCTIONS '] + ps + ['\n']], FuncNames=txt(*ps), calls={('get_items',): ws, ('get_items_unaliased',): [txt('x_1-', *splice(w)) for w in ws]})


def splice(w):
    return [w] if isinstance(w, str) else list(parts(w.e))


def strangers():
    """statements that only look like others: (name, line, kinds it may be)"""
    for word, kind in [('inherit', 'Inherit'), ('include', 'Include'), ('require', 'Include'), ('export', 'Export'), ('addtask', 'TaskAdd'), ('deltask', 'TaskDel'), ('unset', 'Unset'), ('addpylib', 'AddPylib'), ('def', 'PythonBlock'), ('INHERIT', 'Inherit'),
                       ('EXPORT_FUNCTIONS', 'FunctionExports'), ('include_all', 'IncludeAll'), ('addfragments', 'AddFragements'), ('inherit_defer', 'Inherit'), ('python', 'Function'), ('fakeroot', 'Function')]:
        yield '%s as a prefix of a variable' % word, [word + '_x', ' = "', V, '"\n'], 'Variable', kind
        yield '%s as the end of a variable' % word, ['x_' + word, ' = "', V, '"\n'], 'Variable', kind
        yield '%s as a value' % word, ['B = "', word, ' ', V, ' ', W, ' ', X, '"\n'], 'Variable', kind
        yield '%s as a single quoted value' % word, ["B = '", word, ' ', V, " = x'\n"], 'Variable', kind
        yield '%s as a flag' % word, ['B[', word, '] = "', V, '"\n'], 'FlagAssignment', kind
        yield '%s as name with flag' % word, [word, '[', X, '] = "', V, '"\n'], 'FlagAssignment', kind
        yield '%s behind other words' % word, [A, ' ', word, ' ', V, '\n'], 'Item', kind
        if word not in ('INHERIT',):
            yield '%s as a variable' % word, [word, ' = "', V, '"\n'], None, kind if word not in ('export', 'unset', 'inherit', 'inherit_defer', 'include', 'require', 'addtask', 'deltask', 'addpylib', 'include_all', 'addfragments', 'EXPORT_FUNCTIONS') else None
        yield '%s with more letters' % word, [word + 'x ', V, ' ', W, '\n'], 'Item', kind
        yield '%s alone' % word, [word, '\n'], 'Item', kind
    yield 'words', [V, ' ', W, '\n'], 'Item', None
    yield 'blank', [' \n'], 'Item', None
    yield 'call', [V, '()\n'], 'Item', 'Function'
    yield 'braces', ['{', V, '}\n'], 'Item', 'Function'
    yield 'INHERIT with more letters', ['INHERITX += "', V, '"\n'], 'Variable', 'Inherit'
    yield 'INHERIT with override', ['INHERIT_', A, ' += "', V, '"\n'], 'Variable', 'Inherit'


KINDS = ['Item', 'Variable', 'Comment', 'Include', 'Export', 'Function', 'PythonBlock', 'FlagAssignment', 'FunctionExports', 'TaskAdd', 'TaskDel', 'AddPylib', 'AddFragements', 'IncludeAll', 'Inherit', 'Unset']


def groups(thorough):
    for d in '_:':
        yield 'variables %s' % d, d, list(variables(d, thorough))
        yield 'functions %s' % d, d, list(functions(d))
    for d in '_:':
        yield 'flags %s' % d, d, list(flags())
        yield 'exports %s' % d, d, list(exports())
        yield 'others %s' % d, d, list(others())
    for d in '_:':
        yield 'words of the source %s' % d, d, list(spelled(d, literals() if thorough else [w for i, w in enumerate(literals()) if len(w) > 1 and (d == ':') == bool(i % 2) or special(w)]))


def special(w):
    return len(w) < 2


SIZE = 40


def run(ctx):
    jobs = []
    for i, (n, d, cs) in enumerate(groups(ctx.thorough)):
        for k in range(0, len(cs), SIZE * 3):
            jobs.append(('cases', i, k))
    ctx.spread(dispatch, jobs + [('strange', 0, 0), ('strange', 1, 0), ('setters', 0, 0), ('setters', 1, 0)])


def dispatch(ctx, what, i, k):
    if what == 'cases':
        n, d, cs = list(groups(ctx.thorough))[i]
        cs = cs[k:k + SIZE * 3]
        if k == 0:
            ctx.sample('%s: %s' % (n, cs[0].name))
        for p in range(0, len(cs), SIZE):
            block(ctx, n, d, cs[p:p + SIZE])
    else:
        {'strange': strange, 'setters': setters}[what](ctx, '_:'[i])


P = L + 'r/x_1.bb'


def load(D, d, text):
    D.files(dict(LAYER, **{P: text, L + 'r/found.inc': [['Q = "1"\n']], L + 'classes/found.bbclass': [['Q = "1"\n']]}))
    st, s = D.stash(quiet=True, new_style_override_syntax=d == ':')
    st, r = D.do(st, s, 'AddFile', P)
    D.keep(st, '$items', r)
    by = {}
    for i in D.py(st, r):
        by.setdefault(D.py(*D.get(st.copy(), ref(i.oid), 'InFileLine')), []).append(i)
    return st, by


def block(ctx, group, d, cases):
    D = ctx.driver(db={'functions': {'known': ['do_install']}})
    text, at, line = [], [], 1
    for c in cases:
        at.append(line)
        text = text + c.lines + [['SEP = "1"\n']]
        line += len(c.lines) + 1
    st, by = load(D, d, text)
    for c, l in zip(cases, at):
        its = by.get(l, [])
        what = '%s (%s)' % (c.name, 'new style' if d == ':' else 'old style')
        ok = ctx.check([i.cls.split('.')[-1] for i in its] == [c.kind], 'kind', what, '%s: parsed into %s instead of one %s' % (what, [i.cls for i in its], c.kind))
        if not ok:
            continue
        it = its[0]
        full = txt(*[p for ln in c.lines for p in ln])
        want = dict(c.attrs, Origin=P, Raw=full, RealRaw=full, InlineBlocks=[], IsFromClass=False, OverrideDelimiter=d, IsNewStyleOverrideSyntax=d == ':')
        for k, v in want.items():
            y, r = D.get(st.copy(), ref(it.oid), k)
            got = D.py(y, r)
            ctx.check(got == v, 'part', '%s of %s' % (k, what), '%s of %s is %r instead of %r' % (k, what, got, v))
        for k, v in c.calls.items():
            y, r = D.do(st.copy(), ref(it.oid), *k)
            got = D.py(y, r)
            ctx.check(list(got) == list(v) if isinstance(v, (list, tuple)) and isinstance(got, (list, tuple)) else got == v, 'part', '%s of %s' % (k[0], what), '%s() of %s is %r instead of %r' % (k[0], what, got, v))


def strange(ctx, d):
    D = ctx.driver(db={'functions': {'known': ['do_install']}})
    cases = list(strangers())
    text, at, line = [], [], 1
    for n, l, kind, never in cases:
        at.append(line)
        text = text + [l, ['SEP = "1"\n']]
        line += 2
    st, by = load(D, d, text)
    for (n, l, kind, never), ln in zip(cases, at):
        its = by.get(ln, [])
        got = [i.cls.split('.')[-1] for i in its]
        what = '%s (%s)' % (n, 'new style' if d == ':' else 'old style')
        if never:
            ctx.check(never not in got, 'kind', '%s is no %s' % (what, never), '%s is parsed into %s' % (what, got))
        if kind:
            ctx.check(got == [kind], 'kind', what, '%s is parsed into %s instead of %s' % (what, got, kind))


DERIVED = {
    ('Variable', 'VarValue'): {'VarValueStripped'}, ('Function', 'FuncBody'): {'FuncBodyStripped'},
}


def setters(ctx, d):
    D = ctx.driver(db={'functions': {'known': ['do_install']}})
    # one statement of every kind
    chosen, seen = [], set()
    for n, dd, cs in groups(False):
        for c in cs:
            if dd == d and c.kind not in seen:
                seen.add(c.kind)
                chosen.append(c)
    chosen.append(Case('words', 'Item', [[V, ' ', W, '\n']]))
    text, at, line = [], [], 1
    for c in chosen:
        at.append(line)
        text = text + c.lines + [['SEP = "1"\n']]
        line += len(c.lines) + 1
    st, by = load(D, d, text)
    new = clean('new')
    for c, l in zip(chosen, at):
        it = [i for i in by.get(l, []) if i.cls.split('.')[-1] == c.kind]
        if len(it) != 1:
            ctx.check(False, 'kind', '%s for setting' % c.name, '%s is not parsed into a %s' % (c.name, c.kind))
            continue
        it = it[0]
        names = ['Line', 'Raw', 'Origin', 'InFileLine', 'RealRaw', 'IsFromClass', 'OverrideDelimiter', 'IsNewStyleOverrideSyntax', 'InlineBlocks', 'IncludedFrom'] + list(c.attrs)
        before = values(D, st, it, names)
        for attr, val, want in [('Line', const(4711), 4711), ('Raw', frozenset([mkcat(['"', new, '" x'])]), txt('"', new, '" x')), ('RealRaw', frozenset([mkcat([new, ' y'])]), txt(new, ' y'))] + \
                ([('VarValue', frozenset([mkcat([' "', new, ' ', W, '" '])]), txt(' "', new, ' ', W, '" '))] if c.kind == 'Variable' else []) + ([('FuncBody', frozenset([mkcat(['{ ', new, ' }'])]), txt('{ ', new, ' }'))] if c.kind == 'Function' else []):
            y = st.copy()
            rs = D.setattr(y, ref(it.oid), attr, val)
            y = rs[0] if isinstance(rs, list) else rs
            y = y[0] if isinstance(y, tuple) else y
            after = values(D, y, it, names)
            what = 'setting %s of a %s (%s)' % (attr, c.kind, 'new style' if d == ':' else 'old style')
            ctx.check(after[attr] == want, 'setter', what, '%s: it is %r then instead of %r' % (what, after[attr], want))
            allowed = {attr} | DERIVED.get((c.kind, attr), set())
            changed = {n for n in names if after[n] != before[n]}
            ctx.check(changed <= allowed, 'setter', '%s changes more' % what, '%s changes %s too' % (what, ', '.join(sorted(changed - allowed))))
            if attr == 'VarValue':
                w = txt(new, ' ', W)
                ctx.check(after['VarValueStripped'] == w, 'setter', '%s, stripped' % what, '%s: the stripped value is %r then instead of %r' % (what, after['VarValueStripped'], w))
            if attr == 'FuncBody':
                ctx.check(after['FuncBodyStripped'] == txt(new), 'setter', '%s, stripped' % what, '%s: the stripped body is %r then instead of %r' % (what, after['FuncBodyStripped'], txt(new)))
            others_ = values(D, y, [i for i in by[l + len(c.lines)]][0], ['VarName', 'VarValue', 'Line', 'Raw', 'RealRaw'])
            plain = values(D, st, [i for i in by[l + len(c.lines)]][0], ['VarName', 'VarValue', 'Line', 'Raw', 'RealRaw'])
            ctx.check(others_ == plain, 'setter', '%s, other items' % what, '%s changes another item' % what)


def values(D, st, it, names):
    out = {}
    for n in names:
        y, r = D.get(st.copy(), ref(it.oid), n)
        out[n] = D.py(y, r)
    return out
