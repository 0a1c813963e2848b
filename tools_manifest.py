"""Writes MANIFEST.json from the check modules in mc/ (run after adding a check)."""
import ast, json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = json.load(open(os.path.join(here, 'not_applicable.json'))) if os.path.exists(os.path.join(here, 'not_applicable.json')) else {}


def consts(path):
    out = {}
    for st in ast.parse(open(path).read()).body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            try:
                v = st.value
                out[st.targets[0].id] = ({k.arg: ast.literal_eval(k.value) for k in v.keywords}
                                         if isinstance(v, ast.Call) and getattr(v.func, 'id', '') == 'dict' else ast.literal_eval(v))
            except ValueError:
                pass
    return out




def main():
    checks, na = [], []
    for p in props:
        f = os.path.join(here, 'mc', p['id'].lower() + '.py')
        if os.path.exists(f) and p['id'] not in NA:
            c = consts(f)
            b = c.get('BOUND', '')
            checks.append(dict(
                property=p['id'],
                quick_cmd='python3 check.py %s' % p['id'],
                thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                technique=c.get('TECHNIQUE', 'bounded exhaustive exploration of the real code'),
                level=c['LEVEL'],
                level_note='%s. Bound (quick): %s' % (c['RULE'], b['quick'] if isinstance(b, dict) else b)))
        else:
            na.append(dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')))
    man = dict(version=1,
               setup_cmd='python3 check.py --selftest',
               hooks=dict(guard='BAYESPY_VERIF (unused: no hooks were needed)', enable='nothing to enable; the checks import /repo as it is', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='Every check runs the real code from /repo (imported by path) over a finite, fully enumerated case space.')
    json.dump(man, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
