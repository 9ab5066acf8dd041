#!/usr/bin/env python3
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
import sys
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS
ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(root + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        assert bool(p['technique']) != bool(p['na']), p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
m = dict(version=1, setup_cmd='./check.sh --build-only',
         checks=[dict(property=p['id'], quick_cmd='./check.sh ' + p['id'], thorough_cmd='./check.sh ' + p['id'] + ' thorough',
                      evidence_file='evidence/' + p['id'] + '.json', technique=p['technique'], level='other', level_note=p['note'])
                 for p in PROPS if p['technique']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in PROPS if p['na']],
         notes='All checks are static: tool/ loads /repo with go/packages, builds SSA and decides rules on it; nothing of /repo is run.')
with open(root + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
head = open(here + '/design_head.md').read()
tail = open(here + '/design_tail.md').read().rstrip() + '\n' + open(here + '/seed_table.md').read()
out = [head.rstrip(), '', '## Properties decided', '']
for p in PROPS:
    if p['technique']:
        out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '', '*How it is decided.* ' + p['design'], '',
                '*Reach and limits.* ' + p['note'], '']
out += ['## Properties this family cannot decide here', '']
for p in PROPS:
    if p['na']:
        out += ['- **%s %s**: %s' % (p['id'], p['title'], p['na'])]
out += ['', tail.rstrip(), '']
open(root + '/DESIGN.md', 'w').write('\n'.join(out))
