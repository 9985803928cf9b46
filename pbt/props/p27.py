"""P27: names, units, attributes and plotting attributes of results, and their independence."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import ops
from .p25 import fp_globals, diff

RULE = ('A case of the histories is a pool that starts with one variable and metadata drawn for it, and three to ten steps, each an operation applied to a member of the pool (its result joins the pool) or a change of the metadata of one member: a key set, '
        'replaced or deleted, the name or units assigned. A dictionary model per member says what its metadata must be, and after every step every member is compared with its model. The other cases are two to four operands with metadata drawn independently and one way of '
        'combining them; axes with metadata and operations on them; datasets with global attributes. Non-trivial: at least one change of metadata after a result was made from (or into) what was changed (histories), operands that agree on some and '
        'disagree on other metadata (combining), metadata present (the others). Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['attribute values are strings, numbers, lists and arrays of one length, never missing values', 'values held inside an attribute are not changed in place', 'axes themselves may be shared between a variable and its results']

KEEP = ['sliced', 'keyed', 'calendar', 'transposed', 'squeezed', 'extended', 'sorting', 'rename_axis', 'replaced', 'cast', 'filled', 'unfilled', 'loaded', 'flat', 'noleap', 'splittime', 'jointime', 'rejoined']
SAME_NAME = ['mkeyed', 'reduced', 'spread', 'extremum', 'smoothed', 'spectral', 'interpolated', 'lagged', 'composites']
VALUEWISE = ['neg', 'absolute', 'scale', 'shift', 'quotient', 'sine', 'root', 'expo', 'square', 'compare', 'floors', 'mapped', 'with_itself']
SLOPES = ['derivative', 'differenced']
CLIM = ['climate', 'climspread']
COMMON = ['binary', 'ratio', 'partial', 'newaxis_operand', 'vsums', 'appended']
ANY = object()      # not said


def val(x):
  """An attribute value from its JSON description."""
  if isinstance(x, dict): return np.array(x['array'], dtype=x['dtype'])
  return x


def same(a, b):
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray): return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and bool(np.all(a == b))
  return type(a) == type(b) and a == b


def agree(a, b):
  """Equal in value (1 and 1.0 agree)."""
  r = a == b
  return bool(np.all(r)) if hasattr(r, '__len__') else bool(r)


def common(*ds):
  return {k: x for k, x in ds[0].items() if all(k in d and agree(x, d[k]) for d in ds[1:])}


def compare(got, exp, what, value=same):
  if set(got) != set(exp) or not all(value(got[k], exp[k]) for k in exp):
    raise AssertionError('%s are %r and should be %r' % (what, dict(got), dict(exp)))


def meta(v): return dict(name=v.name, units=v.units, atts=dict(v.atts), plotatts=dict(v.plotatts))


def check_meta(v, m, what, value=same, new=False):
  for k in ('name', 'units'):
    if m[k] is not ANY: assert getattr(v, k) == m[k], '%s of %s is %r and should be %r' % (k, what, getattr(v, k), m[k])
  if m['atts'] is not ANY: compare(v.atts, m['atts'], 'attributes of %s' % what, value)
  if m['plotatts'] is not ANY:
    # (those every variable or axis of the kind has by default come back where they were removed)
    d = type(v).plotatts if new else {}
    compare(dict(d, **v.plotatts), dict(d, **m['plotatts']), 'plotting attributes of %s' % what, value)


def copy(m): return dict(m, atts=dict(m['atts']), plotatts=dict(m['plotatts']))


# ---------------------------------------------------------------- values

def values():
  return st.one_of(st.sampled_from(['x', 'one', '', 'K']), st.integers(-3, 3), st.sampled_from([0.5, -2., 1e20]), st.sampled_from([[1, 2], ['a', 'b'], dict(array=[1., 2., 3.], dtype='float64'), dict(array=[1, 2, 3], dtype='int32')]))

KEYS = ['long_name', 'a', 'units', 'b', 'standard_name', 'history']
PKEYS = ['plottitle', 'scalefactor', 'plotunits', 'formatstr', 'offset', 'plotscale', 'mine']
def dicts(keys, n=3): return st.lists(st.tuples(st.sampled_from(keys), values()), max_size=n).map(lambda l: [list(x) for x in dict((k, (k, v)) for k, v in l).values()])


@st.composite
def metadata(draw):
  return dict(name=draw(st.sampled_from(['T', 'u', 'speed', 'T2'])), units=draw(st.sampled_from(['K', '', 'm s-1'])), atts=draw(dicts(KEYS)), plotatts=draw(dicts(PKEYS)))


def with_meta(v, m):
  """A variable like v with this metadata."""
  import pygeode as pyg
  w = pyg.Var(v.axes, values=np.array(v.get()), name=m['name'], atts={k: val(x) for k, x in m['atts']}, plotatts={k: val(x) for k, x in m['plotatts']} if m['plotatts'] else None)
  w.units = m['units']
  return w


# ---------------------------------------------------------------- histories

@st.composite
def case(draw, calm=False):
  n = draw(st.sampled_from([5, 3, 4, 7, 10]))
  hist = []
  for _ in range(n):
    k = draw(st.integers(0, 9))
    if k < (8 if calm else 6): hist.append([draw(st.sampled_from(ops.NAMES)), draw(st.integers(0, 99999)), draw(st.integers(0, 7))])
    else: hist.append([draw(st.sampled_from(['set', 'set', 'delete', 'name', 'units', 'plotset', 'plotdelete', 'clear', 'update', 'call'])), draw(st.integers(0, 99999)), draw(st.integers(0, 7))])
  return dict(v=draw(ops.start(nan=False)), m=draw(metadata()), lazy=draw(st.sampled_from(g.LAZY)), other=draw(st.sampled_from(['mem', 'lazy'])), hist=hist, given=draw(st.booleans()))


class M:
  def __init__(self, v, m, how): self.v = v; self.m = m; self.how = how; self.clim = None


def expected(name, x, r, e):
  """What is required of the metadata of a result of this operation on x."""
  m = copy(x.m)
  if name in KEEP: return m
  if name == 'renamed': return dict(m, name=ANY if r.name not in ('one', 'two') else r.name)
  if name in SAME_NAME: return dict(m, units=ANY)
  if name in VALUEWISE:
    if name not in ('scale', 'shift') or '(' in m['name'] or ')' in m['name']: m['name'] = ANY
    return m
  if name in SLOPES: return dict(m, name=ANY, units=ANY)
  if name in CLIM: return dict(m, name=ANY, units=ANY, plotatts=ANY)
  if name in COMMON:
    w = e['operands'][0]
    return dict(name=ANY, units=m['units'] if w.units == m['units'] else '', atts=common(m['atts'], w.atts), plotatts=common(m['plotatts'], w.plotatts))
  if name == 'ensembles': return dict(m, name=ANY)
  if name == 'anomaly': return dict(m, name=ANY, units=ANY)
  return dict(name=ANY, units=ANY, atts=ANY, plotatts=ANY)


def check(c, ctx):
  base = g.build_var(c['v'])
  v = with_meta(base, c['m'])
  md = dict(name=c['m']['name'], units=c['m']['units'], atts={k: val(x) for k, x in c['m']['atts']}, plotatts=meta(v)['plotatts'])
  for k, x in c['m']['plotatts']: assert same(v.plotatts[k], val(x)), 'plotting attribute %s given is %r' % (k, v.plotatts.get(k))
  pool = [M(v, md, 'start')]
  fp0 = fp_globals()
  l = g.lazify(v, c['lazy'])
  if l is not v: pool.append(M(l, copy(md), 'start, ' + c['lazy']))
  changed = took = 0; sel = []
  env = dict(other=c['other'])
  for name, q, w in c['hist']:
    x = pool[w % len(pool)] if w < 5 else pool[-1]
    P = ops.Draws([q])
    if name in ops.OPS:
      o = ops.OPS[name]
      e = dict(env, clim=x.clim); e['operands'] = []
      r = ops.apply(o, x.v, [q], e)
      if r is None: continue
      ctx.label(name); took += 1
      if any(r is y.v for y in pool): ctx.label('the very object'); continue       # (nothing to do)
      m = expected(name, x, r, e)
      y = M(r, meta(r), x.how + ' > ' + name); y.clim = e.get('clim')
      check_meta(r, m, '%s of %s' % (name, x.how), new=True); m = meta(r)
      if name in ('renamed',): assert r.name in ('one', 'two') or r.name == x.m['name']
      if len(pool) < 9: pool.append(y)
      if r.size > 3000: pool.remove(y)
    else:
      a, pa = x.v.atts, x.v.plotatts
      k = P.pick(KEYS); pk = P.pick(PKEYS); z = P.pick(['changed', 7, 2.5, [5]])
      if name == 'set': a[k] = z; x.m['atts'][k] = z
      elif name == 'delete':
        if not a: continue
        k = P.pick(sorted(a)); del a[k]; del x.m['atts'][k]
      elif name == 'update': a.update(long_name='L', extra=1); x.m['atts'].update(long_name='L', extra=1)
      elif name == 'clear': a.clear(); x.m['atts'] = {}
      elif name == 'name': x.v.name = 'N%d' % P(3); x.m['name'] = x.v.name
      elif name == 'units': x.v.units = P.pick(['m', 'K', 'Pa']); x.m['units'] = x.v.units
      elif name == 'plotset': pa[pk] = z; x.m['plotatts'][pk] = z
      elif name == 'plotdelete':
        if not pa: continue
        k = P.pick(sorted(pa)); del pa[k]; del x.m['plotatts'][k]
      elif name == 'call': x.v.get(); str(x.v)
      if name != 'call' and len(pool) > 1: changed += 1; ctx.label('changed ' + name)
    for y in pool: check_meta(y.v, y.m, '[%s] (after %s of [%s])' % (y.how, name, x.how))
    fp1 = fp_globals()
    assert fp1 == fp0, 'defaults of classes changed by %s: %s -> %s' % (name, diff(fp0, fp1), diff(fp1, fp0))
  ctx.nontrivial(changed >= 1 and took >= 1)


# ---------------------------------------------------------------- combining

WAYS = ['+', '*', '-', '<', 'arctan2', 'vsum', 'vprod', 'concat', 'concatenate', 'ensemble', 'ensemble']

@st.composite
def combined(draw):
  n = draw(st.sampled_from([2, 2, 3, 4]))
  ms = [draw(metadata())]
  for _ in range(n - 1):
    m = draw(metadata())
    # (sharing much with the first)
    f = ms[0]
    if draw(st.booleans()): m['atts'] = [list(x) for x in dict([(k, (k, v)) for k, v in m['atts'][:1]] + [(k, (k, v)) for k, v in f['atts'][:2]]).values()]
    if draw(st.booleans()): m['plotatts'] = [list(x) for x in dict([(k, (k, v)) for k, v in m['plotatts'][:1]] + [(k, (k, v)) for k, v in f['plotatts'][:2]]).values()]
    if draw(st.booleans()): m['units'] = f['units']
    if draw(st.booleans()): m['name'] = f['name']
    ms.append(m)
  return dict(ms=ms, way=draw(st.sampled_from(WAYS)), lazy=[draw(st.sampled_from(g.LAZY)) for _ in range(n)], mutate=draw(st.integers(0, n)),
              shape=[draw(st.sampled_from(['xl', 'xl', 'x', 'l', '', 'p'])) for _ in range(n)])


def comparable(ms, k):
  """Values under one key that compare plainly: (an array next to a number or one of another length is left alone)."""
  def kind(x): return ('seq', len(x['array'])) if isinstance(x, dict) else ('list', len(x), ) if isinstance(x, list) else 'plain'
  for key in set(q for m in ms for q, _ in m[k]):
    t = [kind(x) for m in ms for q, x in m[k] if q == key]
    if len(set(map(repr, t))) > 1: return False
  return True


def check_combined(c, ctx):
  import pygeode as pyg
  from pygeode.axis import NamedAxis
  way = c['way']; ms = c['ms']
  if not comparable(ms, 'atts') or not comparable(ms, 'plotatts'): return
  n = len(ms)
  if way in ('+', '*', '-', '<', 'arctan2'): ms = ms[:2]; n = 2
  vs = []
  for i, m in enumerate(ms):
    x0 = 10.*i if way.startswith('concat') else 0.
    axs = (NamedAxis(x0 + np.arange(3.), 'x'), pyg.Lat([10., 20.]))
    # (operands of element-wise functions need not have the same axes, or any)
    if way not in ('concat', 'concatenate', 'ensemble') and 'shape' in c: axs = dict(xl=axs, x=axs[:1], l=axs[1:], p=(NamedAxis(np.arange(4.), 'p'),)).get(c['shape'][i], ())
    sh = tuple(len(a) for a in axs)
    b = pyg.Var(axs, values=np.arange(float(np.prod(sh))).reshape(sh) + i + 1, name='b')
    vs.append(g.lazify(with_meta(b, m), c['lazy'][i]))
  before = [meta(v) for v in vs]
  fns = {'+': lambda: vs[0] + vs[1], '*': lambda: vs[0]*vs[1], '-': lambda: vs[0] - vs[1], '<': lambda: vs[0] < vs[1], 'arctan2': lambda: pyg.arctan2(vs[0], vs[1]), 'vsum': lambda: pyg.ufunc.vsum(*vs), 'vprod': lambda: pyg.ufunc.vprod(*vs),
         'concat': lambda: pyg.concat.concat(vs, iaxis='x'), 'concatenate': lambda: pyg.concatenate(*vs), 'ensemble': lambda: pyg.ensemble(*[v.rename('T') for v in vs])}
  r = fns[way]()
  names = set(b['name'] for b in before); units = set(b['units'] for b in before)
  exp = dict(name=ANY, units=before[0]['units'] if len(units) == 1 else '', atts=common(*[b['atts'] for b in before]), plotatts=common(*[b['plotatts'] for b in before]))
  if way.startswith('concat'): exp['name'] = before[0]['name'] if len(names) == 1 else ''
  elif way == 'ensemble': exp['name'] = 'T'
  check_meta(r, exp, '%s of %d' % (way, n), agree, new=True)
  for v, b in zip(vs, before): check_meta(v, b, 'an operand of %s' % way)
  # changing one leaves the others
  al = vs + [r]; state = [meta(v) for v in al]; k = c['mutate'] % len(al)
  al[k].atts['changed'] = 1; al[k].plotatts['changed'] = 1; al[k].atts.pop('a', None); al[k].name = 'CH'; al[k].units = 'CH'
  for i, (v, s) in enumerate(zip(al, state)):
    if i != k and al[i] is not al[k]: check_meta(v, s, 'number %d after changing number %d (%s)' % (i, k, way))
  ctx.label(way, '%d operands' % n, 'operand without axes' if any(not v.axes for v in vs) else 'operands with axes')
  ctx.nontrivial(any(len(b['atts']) > len(exp['atts']) for b in before) and len(exp['atts']) > 0 or len(units) > 1)


# ---------------------------------------------------------------- axes

@st.composite
def an_axis(draw):
  a = draw(g.axis(minn=2, kinds=['Lat', 'Lon', 'Pres', 'NamedAxis', 'Freq', 'Height', 'Index', 'StandardTime', 'ModelTime365', 'ModelTime360', 'XAxis', 'Hybrid', 'Yearless']))
  return dict(a=a, atts=draw(dicts(KEYS)), plotatts=draw(dicts(PKEYS + ['plotname', 'plotfmt'])), name=draw(st.sampled_from([None, 'other', 'X1'])), hist=[[draw(st.sampled_from(['slice', 'list', 'reverse', 'sorted', 'rename', 'values', 'select', 'var', 'set', 'plotset', 'delete'])), draw(st.integers(0, 9999)), draw(st.integers(0, 5))] for _ in range(draw(st.sampled_from([4, 3, 6, 2])))])


def check_axis(c, ctx):
  import pygeode as pyg
  a = g.build_axis(c['a'])
  if c['name']: a = a.rename(c['name'])
  fp0 = fp_globals()
  for k, x in c['atts']: a.atts[k] = val(x)
  for k, x in c['plotatts']: a.plotatts[k] = val(x)
  def am(b): return dict(name=b.name, units=b.units, atts=dict(b.atts), plotatts=dict(b.plotatts))
  pool = [[a, am(a), 'start']]
  took = 0
  for name, q, w in c['hist']:
    x, m, how = pool[w % len(pool)]
    P = ops.Draws([q]); n = len(x); r = None; e = copy(m)
    if name == 'slice': r = x.slice[P(n):]
    elif name == 'list': r = x.slice[P.sub(n)]
    elif name == 'reverse': r = x.slice[::-1]
    elif name == 'sorted': r = x.sorted(P.pick([1, -1]))
    elif name == 'rename':
      if hasattr(x, 'startdate'): continue
      r = x.rename('renamed'); e['name'] = 'renamed'
    elif name == 'values':
      if hasattr(x, 'startdate') or type(x).__name__ in ('Hybrid', 'Index') or x.auxarrays: continue
      r = x.withnewvalues(np.asarray(x.values)[:1 + P(n)] + 1)
    elif name == 'select': r = x(**{'i_' + x.name: (0, 1 + P(n))})
    elif name == 'var':
      v = pyg.Var([x], values=np.zeros(n), name='v')
      r = P.pick([lambda: v(**{'i_' + x.name: (0, 1 + P(n))}), lambda: v.slice[::-1], lambda: v.sorted(x.name), lambda: v.load(), lambda: (v + 1).slice[:1]])().axes[0]
    elif name == 'set': x.atts[P.pick(KEYS)] = 'changed'
    elif name == 'plotset': x.plotatts[P.pick(PKEYS)] = 'changed'
    elif name == 'delete': x.plotatts.pop(P.pick(PKEYS), None); x.atts.pop(P.pick(KEYS), None)
    if r is None:
      for y in pool:
        if y[0] is x: y[1] = am(x)
    else:
      took += 1
      ctx.label(name)
      if not any(r is y[0] for y in pool):
        check_meta(r, e, '%s of axis %s (%s)' % (name, type(a).__name__, how), new=True)
        if len(r): pool.append([r, am(r), how + ' > ' + name])
    for b, m, how in pool: check_meta(b, m, 'axis %s (%s) after %s' % (type(b).__name__, how, name))
    assert fp_globals() == fp0, 'defaults of classes changed by %s of %s' % (name, type(a).__name__)
  ctx.label(type(a).__name__)
  ctx.nontrivial(took >= 1 and (c['atts'] or c['plotatts']) != [])


# ---------------------------------------------------------------- things made anew do not share

MADE = ['gausslat', 'ensemble', 'freq', 'freq plain', 'lat', 'lon', 'pres', 'named', 'time', 'yearless', 'var', 'concat', 'dataset', 'regularlat', 'regularlon', 'hybrid', 'height', 'index', 'station', 'logpres', 'tgrid', 'climatology', 'lag', 'event', 'interp']

def made(kind, n):
  import pygeode as pyg
  from pygeode import axis as axm
  t = pyg.ModelTime365(values=np.arange(24)*31., units='days', startdate=dict(year=1, month=1, day=1))
  v = lambda: pyg.Var((t, pyg.Lat([1., 2., 3.])), values=np.arange(72.).reshape(24, 3), name='v')
  return {'gausslat': lambda: pyg.gausslat(4*n), 'ensemble': lambda: pyg.ensemble(*[v()]*n).axes[0], 'freq': lambda: axm.Freq(np.arange(n)*1., inv_units='day'), 'freq plain': lambda: axm.Freq(np.arange(n)*1.), 'lat': lambda: pyg.Lat(n + 1), 'lon': lambda: pyg.Lon(n + 1),
          'pres': lambda: pyg.Pres([10.]*n), 'named': lambda: pyg.NamedAxis(n + 1, 'nm'), 'time': lambda: pyg.StandardTime(values=np.arange(n), units='days', startdate=dict(year=2000)), 'yearless': lambda: pyg.Yearless(np.arange(n)*1., units='days', startdate=dict(month=1, day=1)),
          'var': lambda: pyg.Var([pyg.Lat([1., 2.])], values=[0., 1.]), 'concat': lambda: pyg.concat.concat([v()(i_time=(0, 4)), v()(i_time=(4, 9))]), 'dataset': lambda: pyg.Dataset([v()]), 'regularlat': lambda: pyg.regularlat(4*n), 'regularlon': lambda: pyg.regularlon(4*n),
          'hybrid': lambda: pyg.Hybrid([1.]*n, A=[1.]*n, B=[0.]*n), 'height': lambda: pyg.Height([1.]*n), 'index': lambda: pyg.Index(n), 'station': lambda: axm.Station(station=['s%d' % i for i in range(n)]),
          'logpres': lambda: pyg.Pres([1000., 500.]).logPAxis(), 'tgrid': lambda: pyg.ModelTime365(values=np.arange(n), units='days', startdate=dict(year=1)), 'climatology': lambda: v().climatology(), 'lag': lambda: v().lag('time', [0, 1]).axes[1],
          'event': lambda: v().composite(i_time=(0, 2), evlen=2).axes[0], 'interp': lambda: v().interpolate('lat', pyg.Lat([1.5]))}[kind]()


@st.composite
def making(draw):
  return dict(kind=draw(st.sampled_from(MADE)), n=draw(st.integers(1, 4)), k=draw(st.sampled_from(KEYS + PKEYS)), plot=draw(st.booleans()), extra=draw(st.sampled_from([None] + MADE)))


def check_made(c, ctx):
  fp0 = fp_globals()
  f = lambda: made(c['kind'], c['n'])
  x = f()
  e = made(c['extra'], c['n']) if c['extra'] else None
  def mm(v): return dict(name=v.name, units=v.units, atts=dict(v.atts), plotatts=dict(v.plotatts)) if hasattr(v, 'plotatts') else dict(name='', units='', atts=dict(v.atts), plotatts={})
  def setk(v):
    v.atts[c['k']] = 'changed'
    if hasattr(v, 'plotatts'): v.plotatts[c['k']] = 'changed'; v.name = 'changed'; v.units = 'changed'
  m = mm(x); me = mm(e) if e is not None else None
  setk(x)
  y = f()
  assert mm(y) == m, '%s made after one like it was changed has %s and should have %s' % (c['kind'], mm(y), m)
  if e is not None: assert mm(e) == me, '%s has %s after changing %s, and had %s' % (c['extra'], mm(e), c['kind'], me)
  assert fp_globals() == fp0, 'defaults of classes changed by making or changing %s' % c['kind']
  ctx.label(c['kind']); ctx.nontrivial()


# ---------------------------------------------------------------- datasets

DOPS = ['select', 'map', 'rename_vars', 'rename_axes', 'remove', 'copy', 'replace_vars', 'squeeze', 'method', 'same', 'set', 'delete', 'varset']

@st.composite
def dset(draw):
  return dict(atts=draw(dicts(KEYS)), vm=[draw(metadata()) for _ in range(2)], hist=[[draw(st.sampled_from(DOPS)), draw(st.integers(0, 9999)), draw(st.integers(0, 5))] for _ in range(draw(st.sampled_from([4, 2, 3, 6])))])


def check_dset(c, ctx):
  import pygeode as pyg
  ax = (pyg.Lat([10., 20., 30.]), pyg.Pres([1000., 500.]))
  vs = [with_meta(pyg.Var(ax, values=np.arange(6.).reshape(3, 2) + i, name='b'), dict(m, name='v%d' % i)) for i, m in enumerate(c['vm'])]
  given = {k: val(x) for k, x in c['atts']}
  pool = [[pyg.Dataset(vs, atts=given), dict(given), 'start']]
  vstate = [meta(v) for v in vs]
  assert dict(given) == pool[0][1]
  changed = 0
  for name, q, w in c['hist']:
    x, m, how = pool[w % len(pool)]
    P = ops.Draws([q]); r = None
    n = [v.name for v in x.vars]
    keepv = {}
    if not n: continue
    if name == 'select': r = x(**P.pick([dict(i_lat=(0, 2)), dict(lat=(15, 40)), dict(l_lat=[10., 20.]), dict(i_pres=0)])) if x.hasaxis('lat') else None
    elif name == 'map': r = x.map(P.pick([lambda v: v*2, lambda v: v, lambda v: v.sorted()]))
    elif name == 'rename_vars': r = x.rename_vars({n[0]: 'w%d' % P(99)})
    elif name == 'rename_axes': r = x.rename_axes(lat='y%d' % P(9)) if x.hasaxis('lat') else None
    elif name == 'remove': r = x.remove(n[0]) if len(n) > 1 else None
    elif name == 'copy': r = x.copy()
    elif name == 'replace_vars': r = x.replace_vars({n[0]: x.vars[0]*3})
    elif name == 'squeeze': r = x.squeeze() if hasattr(x, 'squeeze') else None
    elif name == 'method': r = x.map(lambda v: v.load())
    elif name == 'same': r = pyg.Dataset(list(x.vars), atts=x.atts)
    elif name == 'set': x.atts['a'] = 'changed'; x.atts['new'] = len(pool); m['a'] = 'changed'; m['new'] = len(pool); changed += len(pool) > 1
    elif name == 'delete':
      if x.atts: k = P.pick(sorted(x.atts)); del x.atts[k]; del m[k]; changed += len(pool) > 1
    elif name == 'varset':
      # (variables of a result of the operations other than renaming and copying may be those of the input)
      v = P.pick(vs); k = [y is v for y in vs].index(True); v.atts['q'] = 'changed'; vstate[k]['atts']['q'] = 'changed'
    if r is not None:
      if isinstance(r, pyg.Dataset) and r is not x:
        compare(r.atts, m, 'global attributes of %s (%s)' % (name, how))
        pool.append([r, dict(r.atts), how + ' > ' + name])
      ctx.label(name)
    for d, mm, h in pool: compare(d.atts, mm, 'global attributes of dataset (%s) after %s' % (h, name))
    for v, s in zip(vs, vstate): check_meta(v, s, 'a variable put in a dataset, after %s' % name)
  assert set(given) == set(k for k, _ in c['atts']), 'the dictionary of attributes given was changed'
  ctx.nontrivial(len(pool) > 1 and changed >= 1)


TESTS = [
  Test('history', case(), check, quick=2500),
  Test('results', case(calm=True), check, quick=1500),
  Test('combining', combined(), check_combined, quick=2500),
  Test('axes', an_axis(), check_axis, quick=1500),
  Test('made anew', making(), check_made, quick=400),
  Test('datasets', dset(), check_dset, quick=1500),
]
