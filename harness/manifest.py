"""Writes MANIFEST.json from the list of properties and the check modules."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {
    'C13': 'metamorphic property-based testing (batch vs elements)',
    'C18': 'property-based testing with statistical oracle',
    'C21': 'stateful property-based testing against a model',
    'C22': 'property-based testing of layers and training histories',
    'C23': 'differential property-based testing (graph vs eager)',
    'C25': 'stateful random programs against a dense model',
    'C26': 'fault-injecting generation of invalid calls',
    'C29': 'property-based testing against derivatives of the dense form',
    'C31': 'differential property-based testing (sessions vs eager)',
    'C32': 'metamorphic property-based testing (other cores, same tensor)',
    'C33': 'metamorphic property-based testing (renamed dimensions)',
    'C34': 'differential property-based testing (contexts vs eager)',
}
NOTE = ('Generated cases, each judged by an independent dense NumPy oracle; '
        'no violation means none among the cases generated for this seed. '
        'Trusted: NumPy, TensorFlow kernels, the oracle in harness/. Bounds: '
        'dense size up to a few thousand entries, 1-7 cores, TT-ranks up to 9, '
        'batches up to 6 unless the check says otherwise.')


def main():
  with open(os.path.join(ROOT, 'properties.jsonl')) as f:
    props = [json.loads(line) for line in f]
  checks, missing = [], []
  for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'harness/checks/%s.py' % i.lower())):
      checks.append({
          'property': i,
          'quick_cmd': './check %s' % i,
          'thorough_cmd': './check %s' % i,
          'evidence_file': 'evidence/%s.json' % i,
          'technique': TECHNIQUE.get(i, 'property-based testing against a '
                                     'dense NumPy oracle'),
          'level': 'exploration',
          'level_note': NOTE,
      })
    else:
      missing.append({'property': i, 'reason': 'the check is not built yet'})
  doc = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
         'not_applicable': missing,
         'notes': 'All checks go through ./check ID; ./check ID --replay FILE '
                  'replays a case. No hooks are needed in the repository.'}
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')


if __name__ == '__main__':
  main()
