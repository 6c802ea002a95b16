#!/usr/bin/env python3
"""writes MANIFEST.json from the rules present in oesa/rules"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C30': 'The links are a relation over file names computed at run time, of unbounded depth; the statement fails on the pinned tree by design (the existing tests pin direct, non-transitive links), '
           'and deciding closure for arbitrary chains would need a relational invariant of the link map that no static domain in reach expresses.',
    'C31': 'The overall line of an item is arithmetic over the sizes of all files merged before it; the reference order (how bitbake would read them) is not in this repository, so no static oracle exists.',
    'C32': 'The reference is bitbake\'s own parser, which is not available here; the set of texts it accepts cannot be bounded from this repository\'s source.',
    'C33': 'The reference is bitbake\'s evaluation (Python code and datastore included), which is not available here; a static argument cannot bound the values.',
    'C34': 'The decomposition is heuristic (file names and URIs of any shape); bitbake\'s definition is not in this repository and the results are pinned only by examples.',
}
NOTE = 'Exact within the token-abstract domain: the statement is decided for the analysed entry points on the enumerated shapes, with unknown names standing for all names; trusts the models of the Python builtins, the regex library and os/glob in oesa/.'


def main():
    checks, na = [], []
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    for i in ids:
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
            continue
        p = os.path.join(HERE, 'oesa', 'rules', i.lower() + '.py')
        if not os.path.exists(p):
            na.append({'property': i, 'reason': 'not built yet'})
            continue
        import sys
        sys.path.insert(0, HERE)
        m = __import__('oesa.rules.' + i.lower(), fromlist=['x'])
        checks.append({'property': i, 'quick_cmd': 'python3 -m oesa %s --tier quick' % i, 'thorough_cmd': 'python3 -m oesa %s --tier thorough' % i,
                       'technique': getattr(m, 'TECHNIQUE', 'abstract interpretation of the current source (whole-program, token-abstract strings)'), 'level': 'other',
                       'level_note': getattr(m, 'NOTE', NOTE)})
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
