"""Writes MANIFEST.json from properties.jsonl, checks/ and the notes below."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PIPE = ('symbolic execution of the real TensorFlow Transform pipeline code '
        '(graph construction, DoFns, combiners, traced graphs), obligations '
        'decided by z3')
UNIT = ('symbolic execution of the real implementation functions, obligations '
        'decided by z3')
TECH = {p: UNIT for p in ('A11', 'A12', 'A17', 'A18', 'A19', 'A20', 'A22',
                          'A23', 'A24', 'A25', 'A26', 'A27', 'A31')}
NOT = {
}
PENDING = 'No solver-based check has been built for this property yet.'


def main():
  props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
  checks, na = [], []
  for p in props:
    pid = p['id']
    f = os.path.join(ROOT, 'checks', pid + '.py')
    if not os.path.exists(f):
      na.append({'property': pid, 'reason': NOT.get(pid, PENDING)})
      continue
    m = re.search(r'NOTE = \((.*?)\)\n', open(f).read(), re.S)
    note = ' '.join(re.findall(r"'([^']*)'", m.group(1))) if m else ''
    note = re.sub(' +', ' ', note)
    checks.append({
        'property': pid,
        'quick_cmd': f'bin/check {pid}',
        'thorough_cmd': f'bin/check {pid} --tier thorough',
        'technique': TECH.get(pid, PIPE),
        'level': 'other',
        'level_note': (note + ' ' if note else '') +
        'Bounded: every explored path is decided by the solver for all values '
        'of its symbolic inputs; row counts, value counts and schedules are '
        'bounded as listed in the evidence, exact reals replace floating '
        'point, and paths beyond the time budget are reported as truncated.',
    })
  json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
             'not_applicable': na},
            open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
  print(len(checks), 'claimed', len(na), 'not applicable')


main()
