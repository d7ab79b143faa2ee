"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'default': 'explicit-state enumeration of bounded inputs on the real code against a reference model',
 'P14': 'exhaustive enumeration of small comparison datasets and of reader histories on the real code',
 'P16': 'exhaustive enumeration of datasets and of random-generator answers (controlled nondeterminism)',
 'P20': 'exhaustive enumeration of reader configurations and of random-generator answers',
 'P21': 'stateless model checking: all operation sequences up to a depth, compared with fresh executions',
 'P22': 'stateless model checking: all load/rewrite histories up to a depth on real files',
 'P23': 'exhaustive crash-point and fault enumeration over call histories on real files',
 'P24': 'stateless model checking: all completion orders of real worker processes under a controlled scheduler',
 'P29': 'exhaustive enumeration of panels and resampling draws against a reference model',
}
NOTE = ('Exhaustive within the bounds in the evidence file and DESIGN.md, executed on the code in /repo; the reference '
        'model (mc/ref.py, mc/like.py or the one in the check) and its numeric tolerance are trusted; nothing is claimed beyond the bounds.')
def main():
    checks, na = [], []
    for l in open(os.path.join(V, 'properties.jsonl')):
        d = json.loads(l)
        p = d['id']
        if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
            checks.append({'property': p, 'quick_cmd': 'bin/check %s quick' % p, 'thorough_cmd': 'bin/check %s thorough' % p,
                           'evidence_file': 'evidence/%s.json' % p, 'technique': TECH.get(p, TECH['default']),
                           'level': 'fault_enumeration' if p == 'P23' else 'model_checking', 'level_note': NOTE})
        else:
            na.append({'property': p, 'reason': 'check not built yet'})
    m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: every check drives the public code of /repo as it is; nondeterminism is controlled by replacing library functions in the check process.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
main()
