"""Regenerates the per-property part of DESIGN.md from the check modules."""
import ast
import json
import os
import re
import textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLANTED = ('<!-- planted -->\n', '<!-- end of planted -->\n')
BEGIN, END = '<!-- properties -->\n', '<!-- end of properties -->\n'


def literal(node):
    try:
        return ast.literal_eval(node)
    except Exception:
        return None


def subs(tree):
    out = []

    def visit(call, fn):
        if isinstance(call, ast.Call) and isinstance(call.func,
                ast.Attribute) and call.func.attr == 'sub':
            name = literal(call.args[0])
            kw = {k.arg: literal(k.value) for k in call.keywords}
            doc = ast.get_docstring(fn) if fn is not None else None
            out.append((name, kw.get('quick'), doc))
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            for d in node.decorator_list:
                visit(d, node)
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            visit(node.value.func, None)
    return out


def section(p):
    path = os.path.join(ROOT, 'checks', p['id'].lower() + '.py')
    tree = ast.parse(open(path).read())
    const = {}
    prop = None
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0],
                ast.Name):
            const[node.targets[0].id] = literal(node.value)
            if node.targets[0].id == 'PROP':
                prop = node.value
    args = [literal(a) for a in prop.args]
    lines = ['### %s %s' % (p['id'], p['title']), '']
    w = lambda head, text: lines.append(textwrap.fill('- **%s** %s' % (head,
        re.sub(r'\s+', ' ', text).strip()), 79, subsequent_indent='  ',
        break_long_words=False, break_on_hyphens=False))
    w('Specified.', p['statement'])
    w('Method.', const['TECHNIQUE'][0].upper() + const['TECHNIQUE'][1:] +
        '.')
    names = []
    for name, quick, doc in subs(tree):
        if not name:
            continue
        doc = doc.split('\n\n')[0].strip().rstrip('.') if doc else ''
        names.append('`%s`%s%s' % (name, ' (%d)' % quick if quick else '',
            ': ' + doc if doc else ''))
    if names:
        w('Sub-checks (quick cases; thorough runs 20 times as many).',
            '; '.join(names) + '.')
    w('Cases.', args[1])
    if len(args) > 2 and args[2]:
        w('Assumptions.', '; '.join(args[2]) + '.')
    w('Strength.', const['NOTE'])
    w('Beyond the tests.', p['why_tests_cant'])
    return '\n'.join(lines) + '\n'


def main():
    with open(os.path.join(ROOT, 'properties.jsonl')) as f:
        ps = [json.loads(l) for l in f]
    path = os.path.join(ROOT, 'DESIGN.md')
    text = open(path).read()
    a, b = text.index(BEGIN) + len(BEGIN), text.index(END)
    text = text[:a] + '\n' + '\n'.join(section(p) for p in ps) + '\n' + \
        text[b:]
    rows = {}
    folder = os.path.join(ROOT, 'seeded')
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name, 'meta.json')) as f:
            m = json.load(f)
        rows.setdefault(m['property'], []).append((name, m))
    out = []
    for pid in sorted(rows):
        for name, m in rows[pid]:
            out.append(textwrap.fill('- %s `%s`: %s. Needs %s.' % (pid, name,
                m['what_it_breaks'].strip().rstrip('.'),
                m['needs'].strip().rstrip('.')), 79, subsequent_indent='  ',
                break_long_words=False, break_on_hyphens=False))
    a, b = text.index(PLANTED[0]) + len(PLANTED[0]), text.index(PLANTED[1])
    text = text[:a] + '\n'.join(out) + '\n' + text[b:]
    open(path, 'w').write(text)


if __name__ == '__main__':
    main()
