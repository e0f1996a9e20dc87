#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, tech=None, note=None,
      na=None):
    assert len(title) <= 80, title
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files,
                 'mechanism': [{'name': n, 'where': w} for n, w in mech]},
        tech=tech, note=note, na=na))


from props_table import *      # noqa


def main():
    import props_table
    props_table.define(P)
    with open(f'{V}/properties.jsonl', 'w') as f:
        for p in PROPS:
            d = {k: v for k, v in p.items() if k not in ('tech', 'note', 'na')}
            f.write(json.dumps(d) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'python3 tools/setup.py',
        'checks': [
            {'property': p['id'],
             'quick_cmd': f'python3 check.py {p["id"]}',
             'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p["id"]}',
             'technique': p['tech'], 'level': 'other',
             'level_note': p['note']} for p in PROPS if p['tech']],
        'not_applicable': [{'property': p['id'], 'reason': p['na']}
                           for p in PROPS if not p['tech']],
    }
    with open(f'{V}/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
    print(len(man['checks']), 'claimed,', len(man['not_applicable']), 'not')


if __name__ == '__main__':
    main()
