#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from one table (so that they stay in step)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                  why=' '.join(why.split()), files=files, mech=mech, technique=technique,
                  note=' '.join(note.split())))


REAL = 'pyHalo/single_realization.py'
exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps({
            'id': q['id'], 'title': q['title'], 'statement': q['statement'],
            'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'],
            'anchors': {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']]}}) + '\n')

TECH = 'TLA+ specification checked with TLC; traces of the real code validated against it: '
json.dump({
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python tools/selftest.py',
    'checks': [{
        'property': q['id'], 'quick_cmd': './check.py %s --tier quick' % q['id'],
        'thorough_cmd': './check.py %s --tier thorough' % q['id'],
        'technique': TECH + q['technique'], 'level': 'model_checking', 'level_note': q['note']} for q in P],
    'not_applicable': NOT_APPLICABLE,
    'notes': 'No hooks: everything is observed through the public API. lenstronomy, which is not installed, is '
             'replaced by stubs/lenstronomy.'},
    open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties')
