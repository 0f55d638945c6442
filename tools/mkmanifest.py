"""Regenerates MANIFEST.json from properties.jsonl and checks/."""
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    checks, na = [], []
    with open(os.path.join(ROOT, 'properties.jsonl')) as f:
        properties = [json.loads(l) for l in f]
    for p in properties:
        path = os.path.join(ROOT, 'checks', p['id'].lower() + '.py')
        if not os.path.exists(path):
            na.append({'property': p['id'],
                'reason': 'no check has been built for it yet'})
            continue
        text = open(path).read()
        technique = re.search(r"^TECHNIQUE = \(?((?:\s*'[^\n]*'\n?)+)\)?",
            text, re.M)
        note = re.search(r"^NOTE = \(?((?:\s*'[^\n]*'\n?)+)\)?", text, re.M)
        join = lambda m: ''.join(re.findall(r"'([^\n]*)'", m.group(1)))
        checks.append({
            'property': p['id'],
            'quick_cmd': './check %s --tier quick' % p['id'],
            'thorough_cmd': './check %s --tier thorough' % p['id'],
            'technique': join(technique),
            'level': 'exploration',
            'level_note': join(note),
        })
    manifest = {'version': 1, 'setup_cmd': 'true', 'checks': checks}
    if na:
        manifest['not_applicable'] = na
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed', len(na), 'not')


if __name__ == '__main__':
    main()
