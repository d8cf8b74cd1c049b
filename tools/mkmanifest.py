#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below; a property is claimed when checks/pNN.py exists."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=(), na=None):
    T.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state, na=na))


exec(open(os.path.join(V, 'tools', 'table.py'), encoding='utf-8').read())

with open(os.path.join(V, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in T:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'state': [{'name': a, 'meaning': b, 'where': w} for a, b, w in p['state']],
                         'observe_at': p['observe'], 'hook_needed': None}}
        f.write(json.dumps(d, ensure_ascii=False) + '\n')

claimed = [p for p in T if not p['na'] and os.path.exists(os.path.join(V, 'checks', p['pid'].lower() + '.py'))]
man = {
    'version': 1,
    'setup_cmd': 'python3 -m vlib.build setup',
    'checks': [{'property': p['pid'], 'quick_cmd': 'python3 check.py ' + p['pid'],
                'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['pid'],
                'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in claimed],
    'not_applicable': [{'property': p['pid'], 'reason': p['na'] or 'no check has been built for it yet'}
                       for p in T if p not in claimed],
    'hooks': {'guard': 'CG3_VERIF_POISON_POOLS', 'enable': 'vlib/build.py passes -DCG3_VERIF_POISON_POOLS to the sanitizer build (kind san); '
              'everything else is observed from outside (output, trace, profile database, exit status, sanitizer reports, the C API).', 'source_commits': ['09d7a78']},
}
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
print('%d properties, %d claimed' % (len(T), len(claimed)))
