#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the META of props/*.py (the
claimed properties) and tools/table.py (the ones that are not applicable)."""
import glob, importlib.util, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'tools'), os.path.join(V, 'lib')]
import vf
from table import NA
out = []; checks = []; na = []
def prop(pid, p):
    assert len(p['title']) <= 80, (pid, len(p['title']))
    return {'id': pid, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
for f in sorted(glob.glob(os.path.join(V, 'props', 'C*.py'))):
    pid = os.path.basename(f)[:-3]
    spec = importlib.util.spec_from_file_location(pid, f)
    m = importlib.util.module_from_spec(spec); m.Unit = vf.Unit; spec.loader.exec_module(m)
    p = m.META
    out.append(prop(pid, p))
    c = 'python3 check.py %s' % pid
    checks.append({'property': pid, 'quick_cmd': c + ' quick', 'thorough_cmd': c + ' thorough',
                   'technique': p.get('tech', 'contract-based deductive verification of the real C code (function contracts discharged by CBMC)'),
                   'level': m.LEVEL, 'level_note': p['note']})
for p in NA:
    out.append(prop(p['id'], p)); na.append({'property': p['id'], 'reason': p['reason']})
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d in out:
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
try:
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
    for d in out: jsonschema.validate(d, ps)
    jsonschema.validate(m, ms)
except ImportError:
    pass
print(len(out), 'properties,', len(checks), 'claimed')

# DESIGN.md
S = []
for f in sorted(glob.glob(os.path.join(V, 'props', 'C*.py'))):
    pid = os.path.basename(f)[:-3]
    spec = importlib.util.spec_from_file_location(pid, f)
    m = importlib.util.module_from_spec(spec); m.Unit = vf.Unit; spec.loader.exec_module(m); p = m.META
    S.append('### %s. %s (level: %s)\n\n%s\n' % (pid, p['title'], m.LEVEL, p['statement']))
    S.append('*Decided by* %s %s' % ((m.__doc__ or '').strip(), p['note']))
    S.append('*Why tests cannot:* %s *Quantified over* %s.\n' % (p['why'], p['quant']))
    S.append('Functions: %s.\n' % '; '.join('%s (%s)' % a for a in p['mech']))
    un = [u for u in m.UNITS]
    full = [u.name for u in un if not u.bounded]; b = {}
    for u in un:
        if u.bounded: b.setdefault(u.bounded, []).append(u.name)
    if full: S.append('- unbounded units (counted as discharged): ' + ', '.join(full))
    for k, v in b.items(): S.append('- bounded (%s): %s' % (k, ', '.join(v)))
    for t in m.TRUSTED: S.append('- trusted: ' + t)
    for t in m.ASSUME: S.append('- assumed: ' + t)
    S.append('')
N = '\n'.join('- **%s %s** — %s' % (p['id'], p['title'], p['reason']) for p in NA) + '\n'
F = '\n'.join('- ' + l[7:].strip() for l in open(os.path.join(V, 'known-findings.txt')) if l.startswith('fixed: ')) + '\n'
c = dict(l.rstrip('\n').split('\t') for l in open(os.path.join(V, 'tools', 'catches.txt')) if '\t' in l)
T = ['| planted bug | property | needs | caught by unit |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    j = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    T.append('| %s | %s | %s | %s |' % (i, j['property'], j['needs'], c.get(i, 'missed')))
t = open(os.path.join(V, 'tools', 'design.md')).read()
for k, v in (('PROPERTIES', '\n'.join(S)), ('NA', N), ('FIXED', F), ('SEEDED', '\n'.join(T) + '\n')):
    t = t.replace('@@%s@@\n' % k, v + '\n')
if os.path.isdir(os.path.join(V, 'seeded')):
    open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
