"""P21: datasets act on each member alike."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g

RULE = ('A case is a list of variables on axes drawn from a small pool (equal copies, and different axes under one name), with repeated and missing names, and a sequence of dataset operations: '
        'selection by keyword, renaming, adding (variables, lists, datasets), removing, replacing, mapping functions and Var methods, copying, loading, concatenating. After every operation the dataset is '
        'compared with an ordered list of variables to which the same operation was applied one at a time. Non-trivial: the dataset has two variables or more at some operation. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['the single-variable operations are those of the library (checked by P01-P17)']

# name -> alternatives: the first two are equal coordinates
POOL = {
  'lat': [dict(k='Lat', v=[-45., 0., 45.]), dict(k='Lat', v=[-60., -20., 20., 60.]), dict(k='Lat', v=[45., 0., -45.])],
  'lon': [dict(k='Lon', v=[0., 90., 180., 270.]), dict(k='Lon', v=[10., 20.])],
  'time': [dict(k='StandardTime', v=[0, 1, 2, 3, 4], units='days', start=dict(year=2000, month=2, day=27)), dict(k='StandardTime', v=[0, 24, 48], units='hours', start=dict(year=1999, month=2, day=27)),
           dict(k='ModelTime365', v=[0, 1, 2], units='days', start=dict(year=2001, month=2, day=27))],
  'time0': [dict(k='StandardTime', v=[0, 24, 48, 72, 96], units='hours', start=dict(year=2000, month=2, day=27))],     # the first time axis in other words
  'pres': [dict(k='Pres', v=[1000., 500., 100.]), dict(k='Pres', v=[1000., 850.])],
  'aa': [dict(k='NamedAxis', v=[1., 2., 3.], name='aa'), dict(k='NamedAxis', v=[1., 2.], name='aa'), dict(k='NamedAxis', v=[3., 4.], name='aa')],
  'lat01': [dict(k='Lat', v=[10., 11.], name='lat01')],
  'one': [dict(k='NamedAxis', v=[5.], name='one')],
}
GROUPS = ['lat', 'lon', 'time', 'pres', 'aa', 'lat01', 'one']
NAMES = ['u', 'v', 'T', 'u01', 'var', '', 'q', 'w', 'z', 'ps', 'slp', 'uv']


@st.composite
def vdesc(draw):
  ks = draw(st.lists(st.sampled_from(['lat', 'lon', 'time', 'pres', 'aa', 'one']), min_size=0, max_size=3, unique=True)) if draw(st.integers(0, 5)) else draw(st.sampled_from([['lat01'], ['lon', 'lat01'], []]))
  ax = []
  for k in ks:
    # the first alternative most of the time
    j = draw(st.integers(0, 2*len(POOL[k])))
    j = j if j < len(POOL[k]) else 0
    ax.append(POOL['time0'][0] if k == 'time' and j == 0 and draw(st.integers(0, 2)) == 0 else POOL[k][j])
  return dict(axes=ax, dtype=draw(st.sampled_from(['float64', 'float32', 'int32'])), seed=draw(g.data_seed), kind='perm', name=draw(st.sampled_from(NAMES)), units=draw(st.sampled_from(['', 'K'])),
              atts=draw(st.sampled_from([{}, {'long_name': 'x'}])), lazy=draw(st.sampled_from(['mem', 'mem', 'lazy'])))


KEYS = ['i_lat', 'lat', 'l_lat', 'n_lat', 'm_lat', 'lon', 'i_lon', 'i_time', 'time', 'year', 'pres', 'i_pres', 'aa', 'i_aa', 's_aa', 'lat01', 'lat02', 'i_lat01', 'one', 'm_lon', 'm_pres', 'nothere', 'm_time', 'month', 'day']
VALS = {'lat': [0., [-30., 50.], [50., -30.], [0., 90.]], 'lon': [90., [0., 100.], [15., 200.]], 'time': ['28 Feb 2000', ['27 Feb 2000', '29 Feb 2000']], 'year': [2000], 'month': [2], 'day': [27, [27, 29]], 'pres': [500., [1000., 300.]],
        'aa': [2., [2., 3.]], 'lat01': [[-10., 50.], 0.], 'lat02': [0., [-30., 30.]], 'one': [5.], 'nothere': [1]}

METHODS = [['squeeze'], ['load'], ['sin'], ['mean'], ['sum'], ['max'], ['exp'], ['sqrt'], ['as_type', 'float32'], ['as_type', 'int16'], ['fill', -1.], ['unfill', 3.], ['rename', 'w'], ['extend', 0, 'NEW'],
           ['extend', 'NEW'], ['sign'], ['absolute'], ['nansum'], ['stdev'], ['cumsum', 0], ['diff', 0], ['mean', 'lat'], ['sum', 0], ['argmax', 0], ['nan_to_num'], ['climatology'], ['smooth', 0, 1],
           ['transpose', 'lon', 'lat'], ['transpose'], ['sorted'], ['sorted', 'lat'], ['deriv', 0], ['integrate', 0], ['real'], ['conj'], ['monthlymean'], ['squeeze', 'one'],
           ['rename_axes', dict(lat='phi')], ['rename_axes', dict(lon='lat', aa='bb')], ['replace_axes', dict(aa='NEW3')], ['lag', 'time', [0, 1]], ['from_trend', 'time'], ['tanh'], ['arctan']]

FUNCS = ['double', 'drop', 'partial', 'object', 'extra', 'kw', 'same']


@st.composite
def case(draw):
  n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
  vs = [draw(vdesc()) for _ in range(n)]
  ops = []
  for _ in range(draw(st.sampled_from([1, 2, 3, 4]))):
    k = draw(st.sampled_from(['call', 'call', 'method', 'method', 'rename', 'remove', 'minus', 'add', 'plus', 'replace', 'map', 'copy', 'asdataset', 'concat', 'atts', 'methmap', 'look']))
    o = [k]
    if k == 'call':
      kw = {}
      for key in draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique=True)):
        p, b = key.split('_', 1) if '_' in key else ('', key)
        if p == 'i': kw[key] = draw(st.sampled_from([0, 1, -1, [0, 2], [1, 3]]))
        elif p == 'l': kw[key] = [0., 45.]
        elif p in ('m', 's') : kw[key] = draw(st.sampled_from(VALS[b]))
        else: kw[key] = draw(st.sampled_from(VALS[b])) if b in VALS else 0
      o.append(kw)
    elif k == 'method': o.append(draw(st.sampled_from(METHODS)))
    elif k == 'methmap': o.append(draw(st.sampled_from(METHODS)))
    elif k == 'rename': o += [[[draw(st.integers(0, 4)), draw(st.sampled_from(['a', 'b', 'u', 'v', 'u01', '']))] for _ in range(draw(st.integers(1, 3)))], draw(st.booleans())]
    elif k in ('remove', 'minus'): o += [draw(st.lists(st.integers(0, 4), min_size=1, max_size=2)), draw(st.booleans())]
    elif k in ('add', 'plus', 'asdataset'):
      o += [[['ds' if draw(st.integers(0, 3)) == 0 else 'v', draw(st.lists(vdesc(), min_size=1, max_size=2))] for _ in range(draw(st.integers(1, 3)))], draw(st.integers(0, 3))]
    elif k == 'replace': o += [[[draw(st.integers(0, 4)), draw(vdesc())] for _ in range(draw(st.integers(1, 2)))], draw(st.booleans())]
    elif k == 'map': o += [draw(st.sampled_from(FUNCS)), draw(st.integers(0, 4))]
    elif k == 'concat': o += [draw(st.sampled_from(['time', 'lat', 'lon', 'pres', 'aa'])), draw(st.integers(1, 3)), draw(st.booleans())]
    elif k == 'atts': o += [draw(st.sampled_from([{}, {'title': 'x'}, {'title': 'y', 'n': 3}]))]
    ops.append(o)
  return dict(vars=vs, atts=draw(st.sampled_from([{}, {'title': 'run 1', 'source': 'model'}])), how=draw(st.sampled_from(['list', 'tuple', 'gen', 'as', 'list'])), ops=ops)


def mk(d):
  return g.lazify(g.build_var(d), d['lazy'])


def sig(a):
  """What makes two axes the same (exact values: the pool has no nearly equal ones)."""
  vals = np.asarray(a.values, 'd')
  if hasattr(a, 'startdate'):
    from .. import cal
    s = a.startdate
    try: base = cal.secs(type(a).__name__, s)
    except Exception: base = repr(sorted(s.items()))
    if isinstance(base, (int, float)): vals, base = vals*float(cal.UNIT[a.units]) + base, None
    return (type(a).__name__, a.name, tuple(np.round(vals, 3)), base)
  return (type(a).__name__, a.name, tuple(np.round(vals, 9)), tuple((k, tuple(np.asarray(x).tolist())) for k, x in sorted(a.auxarrays.items())))


def normalise(vs):
  """The documented naming rules. vs: list of Vars -> list of (name, var, axis names)."""
  fam = {}
  for v in vs:
    for a in v.axes:
      l = fam.setdefault(a.name, [])
      s = sig(a)
      if s not in l: l.append(s)
  axname = {}
  for n, l in fam.items():
    for i, s in enumerate(l):
      if len(l) == 1: axname[s] = n
      else:
        m = '%s%02d' % (n, i + 1)
        while m in fam: m += 'x'
        axname[s] = m
  names = [v.name or 'var' for v in vs]
  out = []; cnt = {}
  for n in names:
    if names.count(n) > 1:
      cnt[n] = cnt.get(n, 0) + 1
      m = '%s%02d' % (n, cnt[n])
      while m in names: m += 'x'
      out.append(m)
    else: out.append(n)
  return [(n, v, [axname[sig(a)] for a in v.axes]) for n, v in zip(out, vs)]


def compare(ds, M, atts, msg, data=True):
  """M: normalised list."""
  assert [v.name for v in ds.vars] == [n for n, v, a in M], '%s: variables %s, expected %s' % (msg, [v.name for v in ds.vars], [n for n, v, a in M])
  assert list(ds) == list(ds.vars) and len(set(n for n, v, a in M)) == len(M)
  assert sorted(ds.vardict) == sorted(n for n, v, a in M), '%s: variables by name: %s' % (msg, sorted(ds.vardict))
  assert dict(ds.atts) == dict(atts), '%s: attributes %s, expected %s' % (msg, ds.atts, atts)
  axs = []
  for (n, v, an), w in zip(M, ds.vars):
    m = '%s: variable %s' % (msg, n)
    assert ds[n] is w and ds.vardict[n] is w and n in ds, m
    assert w.dtype == v.dtype and w.shape == v.shape, '%s: %s %s, expected %s %s' % (m, w.dtype, w.shape, v.dtype, v.shape)
    assert [a.name for a in w.axes] == an, '%s: axes named %s, expected %s' % (m, [a.name for a in w.axes], an)
    for a, b in zip(w.axes, v.axes):
      assert sig(a)[0] == sig(b)[0] and sig(a)[2:] == sig(b)[2:], '%s: axis %s, expected %s' % (m, a, b)
      assert [q.name for q in axs].count(a.name) == 0 or any(q is a for q in axs), '%s: two axes named %s' % (m, a.name)
      if not any(q is a for q in axs): axs.append(a)
    assert w.units == v.units and dict(w.atts) == dict(v.atts), '%s: %r %s, expected %r %s' % (m, w.units, w.atts, v.units, v.atts)
    if data: g.assert_eq(w.get(), v.get(), m + ': data')
  assert len(ds.axes) == len(axs) and all(any(a is b for b in axs) for a in ds.axes), '%s: axes %s, those of the variables are %s' % (msg, ds.axes, axs)
  assert [a.name for a in ds.axes] == [a.name for a in axs], '%s: order of the axes %s' % (msg, [a.name for a in ds.axes])
  for a in axs:
    assert ds.axisdict[a.name] is a and a.name in ds and ds.hasaxis(a.name)
    # (the names of kinds of axes are names too: the first axis of the kind is the one meant)
    if not any(b is not a and b.has_alias(a.name) for b in axs): assert ds.getaxis(a.name) is a
    if a.name not in ds.vardict: assert ds[a.name] is a
  assert set(ds.axisdict) == set(a.name for a in axs)
  assert 'no such' not in ds and not ds.hasaxis('no_such')


def snapshot(ds):
  return (list(map(id, ds.vars)), [v.name for v in ds.vars], list(map(id, ds.axes)), [a.name for a in ds.axes], dict(ds.atts), sorted(ds.vardict), sorted(ds.axisdict), [v.get().tobytes() for v in ds.vars if v.values is not None] if False else None)


class Callable:
  def __init__(self, k): self.k = k
  def __call__(self, v): return (v + self.k).rename(v.name)


def double(v): return (v*2).rename(v.name + '2')
def addk(v, k, m=1): return (v + k*m).rename(v.name)


def method(m, v, new):
  """Applies the method to one variable (or to a dataset)."""
  name, args = m[0], list(m[1:])
  args = [new[0] if isinstance(x, str) and x == 'NEW' else x for x in args]
  kw = {}
  if args and isinstance(args[-1], dict):
    kw = {k: (new[1] if x == 'NEW3' else x) for k, x in args.pop().items()}
  return getattr(v, name)(*args, **kw)


def attempt(f):
  try: return f(), None
  except Exception as e: return None, e


def check(c, ctx):
  import pygeode as pyg
  from pygeode.dataset import Dataset, asdataset
  import pygeode.dataset as D
  import functools
  vs = [mk(d) for d in c['vars']]
  new = (pyg.NamedAxis(np.array([7., 8.]), 'fresh'), pyg.NamedAxis(np.array([10., 20., 30.]), 'tri'))
  atts = dict(c['atts'])
  keep = dict(atts)
  h = c['how']
  before = [(v.name, [a.name for a in v.axes]) for v in vs]
  if h == 'as': ds = asdataset(vs, print_warnings=False) if len(vs) > 1 or c['vars'][0]['seed'] % 2 else asdataset(vs[0], print_warnings=False); atts = {}
  else: ds = Dataset({'list': list, 'tuple': tuple, 'gen': iter}[h](vs), atts=atts, print_warnings=False)
  assert before == [(v.name, [a.name for a in v.axes]) for v in vs], 'the variables put into a dataset changed'
  M = normalise(vs)
  if any(n.startswith('__') for n, v, a in M): return
  compare(ds, M, atts, 'new dataset')
  assert ds.atts is not atts
  ctx.label('shared axis names' if any(an != [a.name for a in v.axes] for n, v, an in M) else '', 'shared names' if any(n != v.name for n, v, an in M) else '')

  for step, o in enumerate(c['ops']):
    k = o[0]
    members = list(ds.vars)
    if len(members) > 1: ctx.nontrivial()
    if not members: break
    names = [v.name for v in members]
    snap = snapshot(ds)
    ratts = dict(atts)
    msg = 'step %d %s' % (step, o)
    exp = r = err = e2 = None
    if k == 'call':
      kw = {q: (tuple(x) if isinstance(x, list) and q.split('_')[0] not in ('l', 'i') else x) for q, x in o[1].items()}
      exp, e2 = attempt(lambda: [v(**{q: x for q, x in kw.items() if applies(v, q)}) for v in members])
      r, err = attempt(lambda: ds(**kw))
    elif k in ('method', 'methmap'):
      nm = o[1][0]
      exp, e2 = attempt(lambda: [method1(o[1], v, new) for v in members])
      if k == 'method' or nm in ('rename_axes', 'replace_axes'): r, err = attempt(lambda: method(o[1], ds, new))
      else: r, err = attempt(lambda: ds.map(nm, *[new[0] if isinstance(x, str) and x == 'NEW' else x for x in o[1][1:]]))
    elif k == 'rename':
      d = {}
      for i, n in o[1]: d[names[i % len(names)]] = n
      exp = [v.rename(d[v.name]) if v.name in d else v for v in members]
      r, err = attempt(lambda: ds.rename_vars(**d) if o[2] else ds.rename_vars(d))
    elif k in ('remove', 'minus'):
      rm = [names[i % len(names)] for i in o[1]]
      exp = [v for v in members if v.name not in rm]
      if k == 'remove': r, err = attempt(lambda: ds.remove(*rm))
      elif len(rm) == 1 and o[2]: r, err = attempt(lambda: ds - rm[0])
      else: r, err = attempt(lambda: ds - (rm if o[2] else tuple(rm)))
    elif k in ('add', 'plus', 'asdataset'):
      items = []
      for t, dd in o[1]:
        if t == 'ds': items.append(Dataset([mk(d) for d in dd], print_warnings=False))
        else: items += [mk(d) for d in dd]
      hasds = any(isinstance(x, Dataset) for x in items)
      if k == 'plus' and o[2] in (0, 1) and not hasds or k == 'plus' and len(items) > 1 and o[2] < 3:
        r, err = attempt(lambda: ds + items) if o[2] else attempt(lambda: items + ds)
      elif k == 'plus':
        items = items[:1]; hasds = isinstance(items[0], Dataset)
        r, err = attempt(lambda: ds + items[0])
      elif k == 'add': r, err = attempt(lambda: ds.add(*items))
      else: r, err = attempt(lambda: asdataset([ds] + items, print_warnings=False))
      # variables first, then those of the datasets
      exp = members + [x for x in items if not isinstance(x, Dataset)] + sum([list(x.vars) for x in items if isinstance(x, Dataset)], [])
      if hasds: ratts = None
      if k == 'asdataset':
        # datasets in a list are merged: the same variables, whichever comes first
        exp = members + sum([[x] for x in items if not isinstance(x, Dataset)], []) + sum([list(x.vars) for x in items if isinstance(x, Dataset)], [])
    elif k == 'replace':
      d = {}
      for i, x in o[1]: d[names[i % len(names)]] = mk(x)
      exp = [d.get(v.name, v) for v in members]
      r, err = attempt(lambda: ds.replace_vars(**d) if o[2] and '' not in d else ds.replace_vars(d))
    elif k == 'map':
      f = o[1]; w = names[o[2] % len(names)]
      if f == 'double': exp = [double(v) for v in members]; r, err = attempt(lambda: ds.map(double))
      elif f == 'drop':
        fn = lambda v: None if v.name == w else v
        exp = [v for v in members if v.name != w]; r, err = attempt(lambda: ds.map(fn))
      elif f == 'partial': exp = [addk(v, 3) for v in members]; r, err = attempt(lambda: ds.map(functools.partial(addk, k=3)))
      elif f == 'object': exp = [addk(v, 2) for v in members]; r, err = attempt(lambda: ds.map(Callable(2)))
      elif f == 'extra': exp = [addk(v, 2, 3) for v in members]; r, err = attempt(lambda: ds.map(addk, 2, 3))
      elif f == 'kw': exp = [addk(v, 2, 5) for v in members]; r, err = attempt(lambda: ds.map(addk, 2, m=5))
      else: exp = [v.rename('same') for v in members]; r, err = attempt(lambda: ds.map(lambda v: v.rename('same')))
    elif k == 'copy':
      exp = members; r = ds.copy()
      compare(r, normalise(members), atts, msg)
      # a copy is independent of the original
      r.vars.append(members[0]); r.vardict['zz'] = members[0]; r.axes.append(new[0]); r.axisdict['fresh'] = new[0]; r.atts['added'] = 1
      assert snapshot(ds) == snap, '%s: changing the copy changed the dataset' % msg
      r = ds.copy()
    elif k == 'concat':
      exp, r, err, ratts = concat_case(o, ds, members, atts, new)
      if exp is None: continue
    elif k == 'atts':
      r = Dataset(members, atts=o[1]); exp = members; ratts = dict(o[1])
    elif k == 'look':
      s = str(ds)
      for v in members: assert v.name in s, '%s: %s not shown' % (msg, v.name)
      for v in members:
        if v.name.isidentifier() and not hasattr(Dataset, v.name): assert getattr(ds, v.name) is v
      for bad in ('no_such_thing',):
        try: ds[bad]
        except KeyError: pass
        else: raise AssertionError('ds[%r] did not raise' % bad)
        try: getattr(ds, bad)
        except AttributeError: pass
        else: raise AssertionError('ds.%s did not raise' % bad)
        try: ds.remove(bad)
        except Exception: pass
        else: raise AssertionError('removing %r did not raise' % bad)
      exp = members; r = ds
    assert snapshot(ds) == snap, '%s: the dataset it was applied to changed' % msg
    if e2 is None and not all(isinstance(x, pyg.Var) for x in exp): e2 = 'a number, not a variable'
    if e2 is not None:
      if err is None: raise AssertionError('%s: fails for one of the variables (%r) but not for the dataset' % (msg, e2))
      ctx.label('error'); continue
    if err is not None: raise AssertionError('%s: fails for the dataset (%r) but not for the variables' % (msg, err)) from err
    ctx.label(k)
    if ratts is None: ratts = dict(r.atts)
    M = normalise(exp)
    compare(r, M, ratts, msg)
    if k != 'look' and k not in ('copy',): assert r is not ds
    compare(ds, normalise(members), atts, msg + ': the dataset it was applied to', data=False)
    ds, atts = r, ratts
  assert keep == c['atts']


def applies(v, key):
  """Does the keyword name something of this variable?"""
  p, b = key.split('_', 1) if '_' in key and key.split('_')[0] in ('i', 'l', 'n', 'm', 's') else ('', key)
  for a in v.axes:
    if b == a.name or any(b == cl.__name__.lower() for cl in type(a).__mro__) or b in a.auxarrays: return True
  return False


def method1(m, v, new):
  name = m[0]
  if name in ('rename_axes', 'replace_axes'):
    kw = {k: (new[1] if x == 'NEW3' else x) for k, x in m[1].items() if v.hasaxis(k)}
    return getattr(v, name)(**kw)
  return method(m, v, new)


def concat_case(o, ds, members, atts, new):
  import pygeode.dataset as D
  ax, cut, lst = o[1:]
  if not all(v.hasaxis(ax) and len(v.getaxis(ax)) > cut for v in members): return None, None, None, None
  if len(set(v.getaxis(ax).name for v in members)) > 1: return None, None, None, None
  a = ds(**{'i_' + ax: (0, cut)}); b = ds(**{'i_' + ax: (cut, len(members[0].getaxis(ax)))})
  b.atts = dict(atts, extra=2)
  a.atts = dict(atts, other=3)
  r, err = attempt(lambda: D.concat([a, b]) if lst else D.concat(a, b))
  return members, r, err, dict(atts)


@st.composite
def ccase(draw):
  k = draw(st.sampled_from(['time', 'lat', 'lon', 'pres', 'aa']))
  n = draw(st.sampled_from([4, 5, 7]))
  v = list(range(1, n + 1))
  main = {'time': dict(k='ModelTime365', v=v, units='days', start=dict(year=2001, month=2, day=27)), 'lat': dict(k='Lat', v=[10.*x for x in v]), 'lon': dict(k='Lon', v=[20.*x for x in v]),
          'pres': dict(k='Pres', v=[1000. - 100*x for x in v]), 'aa': dict(k='NamedAxis', v=[float(x) for x in v], name='aa')}[k]
  vs = []
  for i in range(draw(st.integers(1, 3))):
    d = draw(vdesc())
    if d['axes'] and any('lat01' == a.get('name') for a in d['axes']): d['axes'] = []
    axs = [a for a in d['axes'] if not (a['k'] == main['k'] or (k == 'time' and a['k'] in g.TIMES))]
    p = draw(st.integers(0, len(axs)))
    d['axes'] = axs[:p] + [main] + axs[p:]
    d['name'] = 'v%d' % i
    vs.append(d)
  cuts = sorted(set(draw(st.lists(st.integers(1, n-1), min_size=1, max_size=3))))
  atts = [draw(st.dictionaries(st.sampled_from(['a', 'b', 'c']), st.sampled_from([1, 2, 'x']), max_size=3)) for _ in range(len(cuts) + 1)]
  return dict(vars=vs, k=k, cuts=cuts, atts=atts, extra=draw(st.one_of(st.none(), st.integers(0, len(cuts)))), miss=draw(st.one_of(st.none(), st.none(), st.integers(0, len(cuts)))),
              how=draw(st.sampled_from(['args', 'list', 'top'])), order=draw(st.permutations(list(range(len(vs))))), chunk=draw(st.sampled_from(g.MAXSIZES)), sub=draw(g.subspec()))


def check_concat(c, ctx):
  """Datasets cut along an axis and put together again."""
  import pygeode as pyg
  import pygeode.dataset as D
  g.set_chunk(c['chunk'])
  vs = [mk(d) for d in c['vars']]
  ds = D.Dataset(vs, print_warnings=False)
  vs = list(ds.vars)
  whole = {v.name: v.get() for v in vs}
  ax = c['k']
  n = len(ds.getaxis(ax))
  b = [0] + c['cuts'] + [n]
  pieces = []
  for i, (p, q) in enumerate(zip(b[:-1], b[1:])):
    d = ds(**{'i_' + ax: (p, q)})
    l = list(d.vars)
    if i == 1: l = [l[j] for j in c['order']]           # the order of the variables is that of the first dataset
    if c['extra'] == i: l = l + [pyg.Var([pyg.NamedAxis(np.array([1., 2.]), 'own')], values=np.array([5., 6.]), name='own')]
    if c['miss'] == i and len(l) > 1: l = [v for v in l if v.name != 'v0']
    pieces.append(D.Dataset(l, atts=c['atts'][i]))
  ctx.nontrivial(len(vs) > 1 and len(pieces) > 1); ctx.label(ax, '%d pieces' % len(pieces), 'extra' if c['extra'] is not None else '')
  snap = [snapshot(d) for d in pieces]
  r = D.concat(*pieces) if c['how'] == 'args' else D.concat(pieces) if c['how'] == 'list' else D.concat(tuple(pieces))
  assert snap == [snapshot(d) for d in pieces], 'the pieces changed'
  common = {k: x for k, x in c['atts'][0].items() if all(k in a and a[k] == x and type(a[k]) == type(x) for a in c['atts'])}
  assert dict(r.atts) == common, 'attributes %s, expected %s' % (r.atts, common)
  names = []
  for d in pieces: names += [v.name for v in d.vars if v.name not in names]
  assert [v.name for v in r.vars] == names, 'variables %s, expected %s' % ([v.name for v in r.vars], names)
  missed = c['miss'] is not None and (len(vs) > 1 or c['extra'] == c['miss'])
  for v in vs:
    w = r[v.name]
    keep = np.ones(n, bool)
    if missed and v.name == 'v0': keep[b[c['miss']]:b[c['miss']+1]] = False
    i = v.whichaxis(ax)
    if not missed: assert w.axes == v.axes, '%s: axes %s, expected %s' % (v.name, [(a, a.values, a.auxarrays, a.auxatts) for a in w.axes], [(a, a.values, a.auxatts, a.auxarrays) for a in v.axes])
    assert w.dtype == v.dtype and dict(w.atts) == dict(v.atts)
    g.check_result(w, np.compress(keep, whole[v.name], axis=i), c['sub'], exact=True, msg='%s put together' % v.name)
  if c['extra'] is not None: g.assert_eq(r['own'].get(), np.array([5., 6.]))


TESTS = [
  Test('concat', ccase(), check_concat, quick=800),
  Test('operations', case(), check, quick=1600),
]
