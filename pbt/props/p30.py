"""P30: collections of files put together in every way their data allow."""
import os, gzip, pickle, random, shutil, tempfile, itertools, types
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g

RULE = ('A case is a set of up to 7 files, each of which holds blocks (any points of each axis) of up to 4 variables that share the axes of one universe or have a part of them, scanned as a list or a pattern with any kind of interface; '
        'a history of scans of such files with one manifest, between which files are rewritten (later, or back to an older copy), the manifest is removed, damaged or cut short; a list of datasets to search; or a list of axes to register. '
        'Non-trivial: two files or more (datasets, axes) with two values or more. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['an axis is known by its name, and has one origin and unit in all files', 'a value found in two files is the same in both', 'values are retrieved as floating-point numbers',
               'a rewritten file has another modification time than the one that was scanned']

KINDS = ['Lat', 'Lon', 'Pres', 'NamedAxis', 'Freq', 'StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless', 'Height', 'Hybrid']
_n = itertools.count()


@st.composite
def universe(draw, nc=False):
  axs = draw(g.axes(1, 3, 1, 5, kinds=['Lat', 'Lon', 'Pres', 'StandardTime', 'ModelTime365'] if nc else KINDS, style=draw(st.sampled_from(['asc', 'asc', 'desc'])), aux=not nc))
  if draw(st.integers(0, 3)) == 0 and not nc and len(axs) < 3:  # axes of one kind, and the same values
    n = draw(st.integers(1, 4)); axs = [a for a in axs if a['k'] != 'NamedAxis'] + [dict(k='NamedAxis', name=x, v=[float(i) for i in range(n)]) for x in ('x', 'y')]
  seen = set(); out = []
  for a in axs:
    x = (g.build_axis(a)).name
    if x not in seen: out.append(a); seen.add(x)
  axs = out
  nd = len(axs)
  vs = [dict(name='A', axes=list(range(nd)))]
  for x in 'BC'[:draw(st.integers(0, 2))]:
    o = list(range(nd))
    if draw(st.integers(0, 4)) == 0: o = list(draw(st.permutations(o)))
    vs.append(dict(name=x, axes=o))
  if nd > 1 and draw(st.integers(0, 2)) == 0: 
    for x in 'PQ': vs.append(dict(name=x, axes=sorted(draw(st.permutations(list(range(nd))))[:draw(st.integers(1, nd-1))])))
    if draw(st.booleans()): vs = vs[-2:]
  for v in vs:
    v['seed'] = draw(st.integers(0, 99)); v['dtype'] = draw(st.sampled_from(['float64', 'float64', 'float32', 'int32'])); v['nan'] = draw(st.sampled_from([0, 0, 0, .3]))
  return dict(axes=axs, vars=vs)


@st.composite
def block(draw, n):
  """Points of an axis of length n."""
  how = draw(st.sampled_from(['all', 'all', 'range', 'range', 'part', 'any']))
  if how == 'all' or n == 1: return list(range(n))
  if how == 'range':
    a = draw(st.integers(0, n-1)); return list(range(a, draw(st.integers(a+1, n))))
  if how == 'part':
    m = draw(st.integers(1, n-1)); return list(range(m)) if draw(st.booleans()) else list(range(m, n))
  return sorted(draw(st.sets(st.integers(0, n-1), min_size=1)))


@st.composite
def contents(draw, u, nc=False):
  """What one file holds: name -> a block of each axis."""
  names = [v['name'] for v in u['vars']]
  names = [x for x in names if draw(st.integers(0, 3))] or [draw(st.sampled_from(names))]
  one = [draw(block(len(a['v']))) for a in u['axes']]
  out = {}
  for x in names:
    out[x] = one if nc or draw(st.integers(0, 3)) else [draw(block(len(a['v']))) for a in u['axes']]
  return dict(blocks=out, atts={x: dict(q=draw(st.sampled_from([1, 1, 2])), long_name=x) for x in names})


@st.composite
def pieces(draw, u):
  """The contents of files that divide the universe along one axis, as files usually do."""
  i = draw(st.integers(0, len(u['axes'])-1)); n = len(u['axes'][i]['v'])
  cuts = sorted(draw(st.sets(st.integers(1, n-1), max_size=3))) if n > 1 else []
  out = []
  for a, b in zip([0] + cuts, cuts + [n]):
    bl = [list(range(a, b)) if j == i else list(range(len(x['v']))) for j, x in enumerate(u['axes'])]
    out.append(dict(blocks={v['name']: bl for v in u['vars']}, atts={v['name']: dict(q=1, long_name=v['name']) for v in u['vars']}))
  return out


@st.composite
def case(draw, nc=False):
  u = draw(universe(nc))
  files = draw(pieces(u)) if draw(st.booleans()) else []
  files += [draw(contents(u, nc)) for _ in range(draw(st.integers(0 if files else 1, 3)))]
  files = list(draw(st.permutations(files)))
  return dict(u=u, files=files, how=draw(st.sampled_from(['str', 'module', 'function', 'object'] if nc else ['function', 'object', 'open', 'args'])), glob=draw(st.booleans()),
              sub=draw(g.subspec()), manifest=draw(st.integers(0, 2)) == 0, nc=nc, seed=draw(st.integers(0, 999)))


# ------------------------------------------------------------------ the real objects

class World:
  def __init__(self, u):
    self.u = u
    self.axes = [g.build_axis(a) for a in u['axes']]
    self.full = {v['name']: g.build_data(tuple(len(self.axes[i]) for i in v['axes']), v['dtype'], v['seed'], 'perm', v['nan'] if v['dtype'][0] == 'f' else 0) for v in u['vars']}
    self.vax = {v['name']: v['axes'] for v in u['vars']}
    self.store = {}          # base name -> contents
    self.opened = []

  def variables(self, f):
    import pygeode as pyg
    out = []
    for x, bl in f['blocks'].items():
      o = self.vax[x]
      arr = g.subset(self.full[x], [bl[i] for i in o])
      out.append(pyg.Var(tuple(self.axes[i].slice[bl[i]] for i in o), values=arr, name=x, atts=dict(f['atts'][x])))
    return out

  def open(self, fn, scale=1):
    self.opened.append(os.path.basename(fn))
    return self.variables(self.store[os.path.basename(fn)])

  def put(self, d, name, f, t=None, nc=False):
    import pygeode as pyg
    self.store[name] = f
    p = os.path.join(d, name)
    if nc: pyg.save(p, pyg.Dataset(self.variables(f)), format='netcdf')
    else:
      with open(p, 'w') as h: h.write(name)
    if t is not None: os.utime(p, (t, t))
    return p

  # what one can expect
  def cover(self, names):
    """variable -> array telling what the files hold (in the order of its own axes)."""
    c = {x: np.zeros(self.full[x].shape, bool) for x in self.full}
    for f in names:
      for x, bl in self.store[f]['blocks'].items(): c[x][np.ix_(*[bl[i] for i in self.vax[x]])] = True
    return c

  def box(self, d):
    """(variables, {axis: points}) of a dataset, checking its axes."""
    pts = {}
    for v in d.vars:
      for a in v.axes:
        i = [q.name for q in self.axes].index(a.name)
        full = self.axes[i]
        assert type(a) is type(full), '%s: an axis of class %s, expected %s' % (a.name, type(a).__name__, type(full).__name__)
        p = [list(full.values).index(x) if x in full.values else -1 for x in a.values]
        assert -1 not in p and len(set(p)) == len(p), 'points %s of axis %s are not among %s' % (a.values, a.name, full.values)
        assert p == sorted(p) or p == sorted(p)[::-1], 'the points of axis %s are in no order: %s' % (a.name, a.values)
        for k in full.auxarrays: assert k in a.auxarrays and list(a.auxarrays[k]) == list(full.auxarrays[k][p]), 'auxiliary array %s of axis %s: %s' % (k, a.name, a.auxarrays.get(k))
        assert getattr(a, 'startdate', None) == getattr(full, 'startdate', None) and getattr(a, 'units', None) == getattr(full, 'units', None), 'axis %s: start %s, units %s' % (a.name, getattr(a, 'startdate', None), getattr(a, 'units', None))
        assert pts.setdefault(i, p) == p, 'the variables of a dataset have different axes'
    return [v.name for v in d.vars], pts

  def check(self, dss, names, sub=None, rnd=None, order=False):
    c = self.cover(names)
    seen = {x: np.zeros(self.full[x].shape, bool) for x in self.full}
    boxes = []
    for d in dss:
      vs, pts = self.box(d)
      assert vs and len(set(vs)) == len(vs), vs
      boxes.append((set(vs), {i: set(p) for i, p in pts.items()}))
      for v in d.vars:
        o = [[q.name for q in self.axes].index(a.name) for a in v.axes]
        assert sorted(o) == sorted(self.vax[v.name]), '%s has axes %s' % (v.name, o)
        perm = [self.vax[v.name].index(i) for i in o]
        sel = lambda arr: g.subset(arr.transpose(perm), [pts[i] for i in o])
        cc = sel(c[v.name])
        assert cc.all(), 'a dataset holds points of %s that are in no file' % v.name
        e = sel(self.full[v.name]).astype('d')
        g.assert_close(np.asarray(v.get(), 'd'), e, 1e-12, 0, 'values of %s' % v.name)
        if sub is not None: g.check_part(v, e, sub, 'part of %s' % v.name)
        seen[v.name][np.ix_(*[sorted(pts[i]) for i in self.vax[v.name]])] = True
        fs = [self.store[f]['atts'][v.name] for f in names if v.name in self.store[f]['blocks']]
        ea = {k: x for k, x in fs[0].items() if all(k in q and q[k] == x for q in fs)}
        assert dict(v.atts) == ea, 'attributes of %s are %s, expected %s' % (v.name, v.atts, ea)
    for x in seen: assert (seen[x] == c[x]).all(), '%d values of %s are in the files but in no dataset' % ((c[x] & ~seen[x]).sum(), x)
    # none is a part of another (if all variables have the same axes, in one order)
    one = all(v['axes'] == list(range(len(self.axes))) for v in self.u['vars'])
    for i, (v1, p1) in enumerate(boxes if one else []):
      for j, (v2, p2) in enumerate(boxes):
        if i != j and p1.keys() == p2.keys() and v1 <= v2 and all(p1[k] <= p2[k] for k in p1):
          raise AssertionError('dataset %d is a part of dataset %d: %s %s' % (i, j, boxes[i], boxes[j]))
    # every block of points at which some variables (of all axes) are known together is in some dataset
    if rnd is not None and one:
      fullv = [x for x in self.full if len(self.vax[x]) == len(self.axes) and c[x].any()]
      cs = {x: c[x].transpose(np.argsort(self.vax[x])) for x in fullv}
      for _ in range(30):
        if not fullv: break
        x = rnd.choice(fullv)
        cell = rnd.choice(np.argwhere(cs[x]).tolist())
        vs = {x}; b = [{k} for k in cell]
        moves = [('v', y) for y in fullv if y != x] + [(i, k) for i in range(len(self.axes)) for k in range(len(self.axes[i])) if k not in b[i]]
        rnd.shuffle(moves)
        for m, k in moves:
          v2 = vs | {k} if m == 'v' else vs
          b2 = [q | {k} if i == m else q for i, q in enumerate(b)]
          if all(cs[y][np.ix_(*[sorted(q) for q in b2])].all() for y in v2): vs, b = v2, b2
        if not any(vs <= v and len(p) == len(b) and all(q <= p[i] for i, q in enumerate(b)) for v, p in boxes):
          raise AssertionError('%s are known together at %s but no dataset holds that (only %s)' % (sorted(vs), b, boxes))
    return boxes


def interface(w, how, nc):
  if nc:
    import pygeode.formats.netcdf as f
    return {'str': 'netcdf', 'module': f, 'function': f.open, 'object': types.SimpleNamespace(open_file=f.open)}[how]
  return {'function': w.open, 'object': types.SimpleNamespace(open_file=w.open), 'open': types.SimpleNamespace(open=w.open), 'args': lambda fn, k: w.open(fn) if k == 3 else None}[how]


def check(c, ctx):
  from pygeode.formats.data_scanner import from_files
  w = World(c['u'])
  d = tempfile.mkdtemp(prefix='p30-')
  try:
    names = ['f%d.nc' % i for i in range(len(c['files']))]
    ps = [w.put(d, n, f, nc=c['nc']) for n, f in zip(names, c['files'])]
    ctx.nontrivial(len(ps) > 1 and sum(a.size for a in w.full.values()) > 1); ctx.label(c['how'], 'glob' if c['glob'] else 'list', 'netcdf' if c['nc'] else '')
    kw = dict(opener_args=dict(k=3)) if c['how'] == 'args' else {}
    if c['manifest']: kw['manifest'] = os.path.join(d, 'manifest')
    dss = from_files(os.path.join(d, '*.nc') if c['glob'] else ps, interface(w, c['how'], c['nc']), **kw)
    boxes = w.check(dss, names, c['sub'], random.Random(c['seed']))
    ctx.label('datasets: %s' % (len(boxes) if len(boxes) < 4 else '4 or more'))
  finally: shutil.rmtree(d)


# ------------------------------------------------------------------ histories of one manifest

@st.composite
def hcase(draw):
  u = draw(universe())
  for v in u['vars']: v['nan'] = 0
  n = draw(st.integers(1, 4))
  ops = [('scan', sorted(draw(st.sets(st.integers(0, n-1), min_size=1))), draw(st.integers(0, 3)), draw(st.integers(0, 4)) > 0)]
  for _ in range(draw(st.sampled_from([1, 2, 4, 6, 8]))):
    k = draw(st.sampled_from(['scan', 'scan', 'scan', 'write', 'write', 'back', 'touch', 'remove', 'cut', 'junk', 'old']))
    if k == 'scan': ops.append(('scan', list(draw(st.permutations(sorted(draw(st.sets(st.integers(0, n-1), min_size=1)))))), draw(st.integers(0, 3)), draw(st.integers(0, 4)) > 0))
    elif k in ('write', 'back'): ops.append((k, draw(st.integers(0, n-1)), draw(contents(u))))
    elif k == 'touch': ops.append((k, draw(st.integers(0, n-1))))
    elif k == 'cut': ops.append((k, draw(st.floats(0, 1))))
    else: ops.append((k,))
  ops.append(('scan', list(range(n)), 0, True))
  return dict(u=u, files=[draw(contents(u)) for _ in range(n)], ops=[list(o) for o in ops], frac=draw(st.sampled_from([0, 0, .25])))


def spell(p, how):
  d, b = os.path.split(p)
  return [p, d + '//' + b, d + '/./' + b, d + '/../' + os.path.basename(d) + '/' + b][how]


def signature(boxes): return sorted((sorted(v), sorted((i, sorted(p)) for i, p in b.items())) for v, b in boxes)


def check_history(c, ctx):
  from pygeode.formats.data_scanner import from_files
  w = World(c['u'])
  d = tempfile.mkdtemp(prefix='p30-')
  man = os.path.join(d, 'manifest')
  try:
    t = 10**9 + c['frac']; back = t - 10**6
    names = ['f%d' % i for i in range(len(c['files']))]
    for n, f in zip(names, c['files']): t += 10; w.put(d, n, f, t)
    known = {}              # file -> the time at which it was scanned last
    nscan = 0
    for op in c['ops']:
      ctx.label(op[0])
      if op[0] == 'scan':
        fs = [names[i] for i in op[1]]
        w.opened = []
        dss = from_files([spell(os.path.join(d, n), op[2]) for n in fs], w.open, manifest=man, save_manifest=op[3])
        opened = list(w.opened)
        boxes = w.check(dss, fs)
        w.opened = []
        fresh = w.check(from_files([os.path.join(d, n) for n in fs], w.open), fs)
        assert signature(boxes) == signature(fresh), 'with the manifest %s, without %s' % (signature(boxes), signature(fresh))
        now = {n: os.path.getmtime(os.path.join(d, n)) for n in fs}
        again = [n for n in fs if known.get(n) == now[n] and n in opened]
        assert not again, '%s have not changed since they were last scanned, but were scanned again' % again
        if op[3]: known.update(now)
        nscan += 1
      elif op[0] in ('write', 'back'):
        if op[0] == 'write': t += 10; tt = t
        else: back += 10; tt = back
        w.put(d, names[op[1]], op[2], tt)
      elif op[0] == 'touch': t += 10; os.utime(os.path.join(d, names[op[1]]), (t, t))
      else:
        known = {}
        if not os.path.exists(man): continue
        if op[0] == 'remove': os.remove(man)
        elif op[0] == 'cut':
          b = open(man, 'rb').read()
          with open(man, 'wb') as h: h.write(b[:int(op[1]*max(len(b)-1, 0))])
        elif op[0] == 'junk':
          with open(man, 'wb') as h: h.write(b'no manifest')
        elif op[0] == 'old':
          with gzip.open(man, 'w') as h: pickle.dump('0', h); h.write(pickle.dumps({'x': 1}))
    ctx.nontrivial(nscan > 1)
  finally: shutil.rmtree(d)


# ------------------------------------------------------------------ searching

@st.composite
def icase(draw):
  n = draw(st.integers(1, 5))
  ds = [dict(names=sorted(draw(st.sets(st.sampled_from(['T', 'u', 'q', 'ps']), min_size=1))), nt=draw(st.integers(1, 4)), nz=draw(st.integers(1, 3))) for _ in range(n)]
  return dict(ds=ds, want=list(draw(st.permutations(['T', 'u', 'q', 'ps'])))[:draw(st.integers(1, 2))], req=draw(st.sampled_from([None, None, ['nt', 2], ['nz', 2]])),
              rank=draw(st.sampled_from([None, ['max', 'nt'], ['max', 'nz'], ['min', 'nt'], ['max', 'nt', 'nz'], ['min', 'nz', 'nt']])), one=draw(st.booleans()), gen=draw(st.booleans()))


def check_search(c, ctx):
  import pygeode as pyg
  from pygeode.formats.data_scanner import DataInterface
  dss = []
  for i, s in enumerate(c['ds']):
    axs = (pyg.ModelTime365(np.arange(float(s['nt'])), units='days', startdate=dict(year=1, month=1, day=1)), pyg.Pres(1000. - 100*np.arange(s['nz'])))
    dss.append(pyg.Dataset([pyg.Var(axs, values=np.full((s['nt'], s['nz']), 10.*i + k), name=x) for k, x in enumerate(s['names'])]))
  I = DataInterface([list(d.vars) if c['one'] else d for d in dss] if not c['gen'] else iter(dss))
  ctx.nontrivial(len(dss) > 1); ctx.label('rank' if c['rank'] else '', 'requirement' if c['req'] else '')
  assert [[v.name for v in d] for d in I] == [[v.name for v in d] for d in dss]
  n = lambda d, k: len(d.getaxis('time') if k == 'nt' else d.getaxis('pres')) if hasattr(d, 'getaxis') else len(d.time if k == 'nt' else d.pres)
  for x in ['T', 'u', 'q', 'ps', 'nothing']: assert bool(I.have(x)) == any(x in s['names'] for s in c['ds']), x
  req = (lambda d: n(d, c['req'][0]) >= c['req'][1]) if c['req'] else None
  ok = [i for i, s in enumerate(c['ds']) if set(c['want']) <= set(s['names']) and (not c['req'] or s[c['req'][0]] >= c['req'][1])]
  idx = lambda v: int(v.get().flat[0]) // 10
  got = list(I.find(*c['want'], **(dict(requirement=req) if req else {})))
  assert len(got) == len(ok), 'found %d, expected %d' % (len(got), len(ok))
  for r, i in zip(got, ok):
    r = [r] if len(c['want']) == 1 else list(r)
    assert [v.name for v in r] == c['want'] and all(idx(v) == i for v in r), (r, i)
  kw = dict(requirement=req) if req else {}
  if c['rank']:
    first = lambda x: x[0] if isinstance(x, (list, tuple)) else x
    fs = [(lambda x, k=k: n(first(x), k)) for k in c['rank'][1:]]
    kw['maximize' if c['rank'][0] == 'max' else 'minimize'] = fs[0] if len(fs) == 1 else tuple(fs)
  single = len(c['want']) == 1 and c['one']
  try: r = I.find_best(c['want'][0] if single else list(c['want']), **kw)
  except KeyError:
    assert not ok, 'nothing found, expected one of %s' % ok
    return
  assert ok, 'found something, expected nothing'
  r = [r] if single else list(r)
  assert [v.name for v in r] == c['want'], r
  i = idx(r[0]); assert all(idx(v) == i for v in r), 'variables of different datasets'
  assert i in ok
  if c['rank']:
    key = lambda j: [c['ds'][j][k] * (-1 if c['rank'][0] == 'max' else 1) for k in c['rank'][1:]]
    assert key(i) == min(map(key, ok)), 'found %s, the best is %s' % (c['ds'][i], min(map(key, ok)))


@st.composite
def acase(draw):
  base = [draw(g.axis(n=draw(st.integers(1, 4)), kinds=KINDS, style='asc')) for _ in range(draw(st.integers(1, 3)))]
  out = []
  for _ in range(draw(st.integers(2, 7))):
    a = dict(draw(st.sampled_from(base)))
    k = draw(st.sampled_from(['same', 'same', 'same', 'name', 'value', 'start', 'units', 'aux', 'more']))
    if k == 'name' and a['k'] != 'NamedAxis': a['name'] = 'other'
    elif k == 'value': a['v'] = [x + 1 for x in a['v']]
    elif k == 'start' and 'start' in a: a['start'] = dict(a['start'], day=3 if a['start']['day'] != 3 else 4)
    elif k == 'aux' and 'start' not in a and a['k'] != 'Hybrid': a['aux'] = dict(ax1=[i + 7 for i in range(len(a['v']))])
    elif k == 'more': a['v'] = a['v'] + [max(a['v']) + 5]; a['aux'] = None
    out.append(a)
  return dict(axes=out)


def check_axes(c, ctx):
  from pygeode.formats.data_scanner import AxisManager
  m = AxisManager()
  axs = [g.build_axis(a) for a in c['axes']]
  key = lambda a: repr((type(a), a.name, tuple(a.values), sorted((k, tuple(v)) for k, v in a.auxarrays.items()), sorted((k, str(v)) for k, v in a.auxatts.items())))
  ctx.nontrivial(len(axs) > 1)
  m.register_axis(axs[0]); m.register_axes(axs[1:2])
  got = [m.lookup_axis(a) for a in axs]
  assert tuple(map(id, m.lookup_axes(tuple(axs)))) == tuple(map(id, got))
  for a, r in zip(axs, got): assert key(a) == key(r), 'looked up %s, found %s' % (key(a), key(r))
  for i, a in enumerate(axs):
    for j, b in enumerate(axs):
      if key(a) == key(b): assert got[i] is got[j], 'two objects for one axis'
  again = [m.lookup_axis(g.build_axis(a)) for a in c['axes']]
  assert [id(x) for x in again] == [id(x) for x in got]


TESTS = [
  Test('scan', case(), check, quick=1500),
  Test('netcdf', case(nc=True), check, quick=300),
  Test('manifest', hcase(), check_history, quick=800),
  Test('search', icase(), check_search, quick=800),
  Test('axes', acase(), check_axes, quick=800),
]
