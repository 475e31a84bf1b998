import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the real code (obligations generated from its LLVM IR, discharged by z3/cvc5), with a bounded executable stand-in for replay'
ps = sorted(PROPS, key=lambda p: p['id'])
with open(R + '/properties.jsonl', 'w') as f:
    for p in ps:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
        if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt vc/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'], 'technique': p.get('tech', TECH), 'level': p['level'], 'level_note': p['note']} for p in ps if not p['na']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in ps if p['na']]}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(R + '/properties.jsonl'): jsonschema.validate(json.loads(l), sc)
    print('valid', len(ps))
except ImportError: print('no jsonschema')
