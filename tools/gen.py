#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vlib/spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import spec, props
out, checks, na = [], [], []
for k in sorted(spec.SPEC):
    s = spec.SPEC[k]
    assert len(s['title']) <= 80, k
    a = {'files': s['files'], 'mechanism': [{'name': n, 'where': w} for n, w in s['mech']]}
    if s['state']:
        a['state'] = [dict(zip(('name', 'meaning', 'where'), x)) for x in s['state']]
    out.append({'id': k, 'title': s['title'], 'statement': s['statement'], 'quantifier': {'over': s['over'], 'text': s['text']}, 'why_tests_cant': s['why'], 'anchors': a})
    if k in props.PROPS:
        assert props.PROPS[k].title == s['title'], k
        checks.append({'property': k, 'quick_cmd': 'python3 check.py %s quick' % k, 'thorough_cmd': 'python3 check.py %s thorough' % k,
                       'technique': 'symbolic execution of the LLVM IR with Z3, bounded', 'level': 'model_checking', 'level_note': (s['note'] + ' ' if s['note'] else '') + spec.LEVEL_NOTE})
    else:
        na.append({'property': k, 'reason': spec.NOT_CLAIMED[k]})
assert set(props.PROPS) <= set(spec.SPEC)
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in out))
m = {'version': 1, 'setup_cmd': 'make -s -j4 -C engine', 'checks': checks, 'not_applicable': na}
open(V + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1, ensure_ascii=False) + '\n')
