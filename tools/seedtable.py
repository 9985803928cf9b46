"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the notes below."""
import json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# caught only after the check had been strengthened
MISSED = {'p20-same-token': 'several converted variables in one computation',
  'p23-constant-point': 'points that never vary', 'p18-start-seconds': 'start dates with minutes and seconds',
  'p27-scalar-var': 'operands without axes',
  'p05-thin-air': 'axes whose values differ by orders of magnitude', 'p11-delta-tol': 'nearly regular time axes', 'p12-complex-nan': 'complex data with gaps', 'p30-other-names': 'variables that lie in only some of the files', 'p03-wvar-chunk': 'weights that vary along a reduced axis, in pieces', 'p07-plotorder': 'drawing order of axes built from others', 'p18-aux-prefix': 'names of which one begins the other',
          'p20-two-lists': 'selections by two lists', 'p20-packed-twice': 'packed arrays that xarray has not decoded', 'p09-station-order': 'axes of names', 'p23-tiny-units': 'fields in any units', 'p25-offsets-inplace': 'every kind of argument', 'p29-view-on-tick': 'views that begin exactly at a tick', 'p22-zero-weight': 'weights of zero (which also led to a defect)'}
NOTE = {}
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for id in sorted(os.listdir(D + '/seeded')):
  m = json.load(open('%s/seeded/%s/meta.json' % (D, id)))
  c = NOTE.get(id, m['property'])
  if id in MISSED: c += ' (missed at first; added: %s)' % MISSED[id]
  rows.append('| %s | %s | %s | %s |' % (id, m['property'], m['needs'].replace('|', '/'), c))
p = D + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- end -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
