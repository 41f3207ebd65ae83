"""Appends the generated sections (findings, planted bugs) to DESIGN.md."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated by tools/mkdesign.py -->'


def main():
    path = os.path.join(ROOT, 'DESIGN.md')
    with open(path) as f:
        text = f.read().split(MARK)[0].rstrip() + '\n\n' + MARK + '\n'
    with open(os.path.join(ROOT, 'known-findings.json')) as f:
        known = json.load(f)
    text += '\n## 4. Defects found in dsch\n\n### Repaired ("fix:" commits)\n\n'
    by_commit = {}
    for line in known['fixed']:
        _, prop, commit, what = line.split(' ', 3)
        by_commit.setdefault((commit, what), []).append(
            prop.replace('property=', ''))
    for (commit, what), props in by_commit.items():
        text += '* %s (%s): %s\n' % (commit, ', '.join(props), what)
    text += '\n### Known findings (not repaired)\n\n'
    for entry in known['findings']:
        text += '* %s `%s`: %s. %s\n' % (
            entry['property'], entry['mechanism'], entry['what'],
            entry.get('why', ''))
    text += ('\n## 5. Planted bugs and the checks that catch them\n\n'
             'Each was written from a property and the code alone. All are '
             'caught by the quick check of their property; those marked * '
             'were missed at first and led to a stronger check.\n\n'
             '| id | property | needs |\n|---|---|---|\n')
    with open(os.path.join(ROOT, 'tools', 'missed.txt')) as f:
        missed = set(f.read().split())
    base = os.path.join(ROOT, 'seeded')
    for name in sorted(os.listdir(base)):
        with open(os.path.join(base, name, 'meta.json')) as f:
            meta = json.load(f)
        text += '| %s%s | %s | %s |\n' % (
            name, ' *' if name in missed else '', meta['property'],
            meta['needs'].replace('|', '/'))
    with open(path, 'w') as f:
        f.write(text)


main()
