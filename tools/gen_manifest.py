"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import ast, glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}


def constants(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def main():
    props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, missing = [], []
    for prop in props:
        name = prop['id']
        files = glob.glob(os.path.join(ROOT, 'mc', name.lower() + '_*.py'))
        if not files:
            missing.append({'property': name, 'reason': NOT_APPLICABLE.get(name, 'check not built yet')})
            continue
        c = constants(files[0])
        checks.append({
            'property': name,
            'level': 'model_checking',
            'technique': c.get('TECHNIQUE', 'explicit-state model checking of the implementation: exhaustive bounded '
                               'enumeration of executions of the real code, each compared with a reference model'),
            'quick_cmd': './run.sh {} quick'.format(name),
            'thorough_cmd': './run.sh {} thorough'.format(name),
            'level_note': ('Exhaustive within bounds. Quick: ' + c['BOUNDS']['quick'] + '. Thorough: ' +
                           c['BOUNDS']['thorough'] + '. Assumptions: ' + ('; '.join(c.get('ASSUMPTIONS', [])) or 'none')),
        })
    manifest = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': missing}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as handle:
        json.dump(manifest, handle, indent=1)
        handle.write('\n')
    print(len(checks), 'claimed', len(missing), 'not')


main()
