#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in props.py"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
import props
def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in props.PROPS:
            fh.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    man = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': [], 'not_applicable': []}
    for p in props.PROPS:
        if 'na' in p: man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        else: man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                                    'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__': main()
