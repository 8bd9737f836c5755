"""Refresh the generated tables of DESIGN.md (findings, planted changes)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table():
    out = ['### Defects found and repaired (known_findings.jsonl)', '']
    n = {}
    for l in open(os.path.join(V, 'known_findings.jsonl')):
        r = json.loads(l)
        what = re.sub(r'^fixed: property=\S+ \S+ ', '', r['what'])
        out.append('- %s `%s` %s' % (r['property'], r.get('commit', r['kind']), what.split(';')[0][:200]))
    out += ['', '### Planted changes and the clauses that catch them', '']
    caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
    for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
        out.append('- **%s**: %s. Needs: %s. *%s*' % (s, m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'), ', '.join(caught.get(s, ['not run']))))
    return '\n'.join(out) + '\n'


if __name__ == '__main__':
    p = os.path.join(V, 'DESIGN.md')
    s = open(p).read()
    mark = '<!-- generated by tools/design.py from here on -->\n'
    s = s.split(mark)[0] + mark + '\n' + table()
    open(p, 'w').write(s)
