"""P12: climatologies, time averages, trends."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import cal

RULE = ('A case is a variable with a time axis (regular, gappy, or dates sharing days, months or hours across years; ascending, descending or shuffled; '
        'any calendar, unit and reference date) at any position, data of small integers with or without missing values, a grouping and a statistic, '
        'chunk size and a part of the result. Non-trivial: some group has two samples and there are two groups. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['data are small integers, so that sums are exact whatever the order of summation', 'seasons are defined for the standard and 365-day calendars only']

GROUPS = dict(clim=cal.F[1:], daily=cal.F[:3], monthly=cal.F[:2], yearly=cal.F[:1], diurnal=cal.F[3:], seasonal=['year', 'season'])
NAMES = {('clim', 'mean'): 'climatology', ('clim', 'nanmean'): 'nanclimatology'}
OTHER = ['Lat', 'Lon', 'Pres', 'NamedAxis', 'Index', 'Freq']


@st.composite
def tvar(draw, minother=0, maxother=2, kinds_other=OTHER, series=None, dtypes=('float64', 'float64', 'float32', 'int32', 'int64'), kind='small', nan=True, maxn=4, **kw):
  t = draw(series if series is not None else cal.series(**kw))
  axs = draw(g.axes(minother, maxother, 1, maxn, kinds=kinds_other)) if maxother else []
  i = draw(st.integers(0, len(axs)))
  c = dict(axes=axs[:i] + [t] + axs[i:], ti=i, dtype=draw(st.sampled_from(list(dtypes))), seed=draw(g.data_seed), kind=kind, name=draw(st.sampled_from(['u', 'temp', ''])),
           atts=draw(st.sampled_from([{}, {'long_name': 'wind'}])), units='K')
  if nan and c['dtype'].startswith('float'): c['nan'] = draw(st.sampled_from([0, 0, 0.2, 0.6]))
  lay = draw(st.sampled_from(g.LAYOUTS))
  if lay != 'C': c['lay'] = lay
  return c


def build(c, lazy='mem'):
  v = g.build_var(c)
  return g.lazify(v, lazy), g.var_data(c)


def key(t, fields):
  if 'season' in fields:
    y, m = t[:2]
    return (y + (m == 12), (m % 12)//3 + 1)[-len(fields):]
  return tuple(t[cal.F.index(f)] for f in fields)


def stat(x, how):
  """Statistic of the samples x along their first axis, in double precision."""
  x = np.asarray(x, 'd')
  if how == 'count': return np.sum(~np.isnan(x), 0)
  if how.startswith('nan'):
    ok = ~np.isnan(x); n = ok.sum(0).astype('d'); z = np.where(ok, x, 0)
  else: n = np.full(x.shape[1:], float(len(x))); ok = np.ones(x.shape, bool); z = x
  mean = np.where(n > 0, z.sum(0)/n, np.nan)
  if how.endswith('mean'): return mean
  return np.where(n > 1, np.sqrt((np.where(ok, x - mean, 0)**2).sum(0)/(n - 1)), np.nan)


@st.composite
def case(draw):
  gr = draw(st.sampled_from(list(GROUPS)))
  ks = cal.CALS if gr in ('clim', 'daily', 'diurnal') else cal.CALS[:3] if gr != 'seasonal' else cal.CALS[:2]
  return dict(v=draw(tvar(kinds=ks)), g=gr, how=draw(st.sampled_from(['mean', 'mean', 'nanmean', 'stdev', 'nanstdev', 'count'])), chunk=draw(st.sampled_from(g.MAXSIZES)),
              lazy=draw(st.sampled_from(g.LAZY)), sub=draw(g.subspec()), drop=draw(st.sampled_from([None, None, None, 'second', 'hour+', 'year'])))


def group(c, T, fields):
  """-> sorted keys, members of each"""
  d = {}
  for i, t in enumerate(T): d.setdefault(key(t, fields), []).append(i)
  ks = sorted(d)
  return ks, [d[q] for q in ks]


def check(c, ctx):
  import pygeode as pyg
  vd = c['v']; ti = vd['ti']; t = vd['axes'][ti]; k = t['k']
  T = cal.dates(t)
  fields = [f for f in GROUPS[c['g']] if f in cal.fields(k) or f == 'season']
  v, data = build(vd, 'mem')
  have = cal.fields(k)
  if c['drop'] and (c['g'] != 'seasonal' or c['drop'] == 'year'):
    # an axis without some of its fields
    keep = {'second': have[:-1], 'hour+': [f for f in have if f not in cal.F[3:]], 'year': [f for f in have if f != 'year']}[c['drop']]
    fields = [f for f in fields if f in keep]
    if c['g'] == 'seasonal': fields = ['season']
    need = dict(clim=None, daily='day', monthly='month', yearly='year', diurnal=None, seasonal=None)[c['g']]
    rows = [tuple(x[cal.F.index(f)] for f in keep) for x in T]
    if not fields or (need and need not in keep) or len(set(rows)) < len(rows): return
    v = v.replace_axes({v.axes[ti].name: pyg.timeutils.modify(v.axes[ti], include=keep)})
    ctx.label('without ' + c['drop'])
  v = g.lazify(v, c['lazy'])
  fn = NAMES.get((c['g'], c['how']), c['g'] + c['how'])
  keys, members = group(c, T, fields)
  ctx.label(k, c['g'], c['how'], vd['dtype']); ctx.nontrivial(len(keys) > 1 and max(map(len, members)) > 1)
  g.set_chunk(c['chunk'])
  r = getattr(pyg, fn)(v)
  x = np.moveaxis(data, ti, 0)
  exp = np.moveaxis(np.array([stat(x[m], c['how']) for m in members]), 0, ti)
  # the new time axis: one point per group, in time order, with those fields
  assert len(r.axes) == len(v.axes) and all(a is b or a == b for i, (a, b) in enumerate(zip(r.axes, v.axes)) if i != ti), 'axes %s from %s' % (r.axes, v.axes)
  a = r.axes[ti]
  assert set(a.auxarrays) == set(fields), 'fields of the result: %s, expected %s' % (sorted(a.auxarrays), fields)
  for i, f in enumerate(fields): g.assert_eq(a.auxarrays[f], [q[i] for q in keys], '%s: %s of the groups' % (fn, f))
  assert type(a).__name__ == ('Seasonal' if c['g'] == 'seasonal' else '') + k
  tol = 1e-9 if vd['dtype'] != 'float32' else 2e-4
  g.check_result(r, exp, c['sub'], tol, tol, msg=fn)
  sfx = {'clim': 'clim', 'daily': 'daily', 'monthly': 'monthly', 'yearly': 'yearly', 'diurnal': 'diurnal', 'seasonal': 'seasonal'}[c['g']]
  if vd['name']: assert r.name.startswith(vd['name'] + '_' + sfx), 'name %r' % r.name
  assert dict(r.atts) == vd['atts']
  assert r.dtype.kind == 'f', 'dtype %s' % r.dtype
  # removing it
  if c['how'] in ('mean', 'nanmean') and c['g'] != 'seasonal' and not c['drop']:
    pos = [keys.index(key(x_, fields)) for x_ in T]
    d = (v - r).transpose(*[a_.name for a_ in v.axes])
    b = d.axes[ti]
    order = [T.index(tuple(int(b.auxarrays[f][i]) if f in b.auxarrays else (0, 1)[f == 'month'] for f in cal.F)) for i in range(len(b))]
    assert sorted(order) == list(range(len(T))), 'times of the anomaly'
    g.assert_close(d.get(), np.take(np.asarray(data, 'd') - np.take(exp, pos, ti), order, ti), tol, tol, 'anomaly from ' + fn)
    ctx.label('anomaly')


# ---- numbers of any type and magnitude

@st.composite
def mcase(draw):
  gr = draw(st.sampled_from(list(GROUPS)))
  ks = cal.CALS if gr in ('clim', 'daily', 'diurnal') else cal.CALS[:3] if gr != 'seasonal' else cal.CALS[:2]
  return dict(v=draw(tvar(kinds=ks, maxother=1, nan=False, kind=draw(st.sampled_from(g.MAGNITUDES + ['offset', 'tight', 'tight'])), dtypes=g.INTS + ['float16'] + ['float32']*4 + ['float64'])), g=gr,
              how=draw(st.sampled_from(['mean', 'nanmean', 'stdev', 'stdev', 'nanstdev', 'nanstdev'])), chunk=draw(st.sampled_from(g.MAXSIZES)))


def check_m(c, ctx):
  import pygeode as pyg
  vd = c['v']; ti = vd['ti']; t = vd['axes'][ti]; k = t['k']
  if vd['dtype'] == 'float16': vd = dict(vd, kind='small')
  fields = [f for f in GROUPS[c['g']] if f in cal.fields(k) or f == 'season']
  v, data = build(vd, 'mem')
  fn = NAMES.get((c['g'], c['how']), c['g'] + c['how'])
  keys, members = group(c, cal.dates(t), fields)
  ctx.label(c['how'], vd['dtype'], vd['kind']); ctx.nontrivial(max(map(len, members)) > 1)
  g.set_chunk(c['chunk'])
  got = getattr(pyg, fn)(v).get()
  assert got.dtype.kind == 'f', 'the %s of %s is of type %s' % (fn, vd['dtype'], got.dtype)
  x = np.moveaxis(data, ti, 0).astype('longdouble')
  scale = float(np.abs(x).max())
  eps = {'float16': 1e-3, 'float32': 1.2e-7}.get(vd['dtype'], 2.3e-16)
  for q, m in enumerate(members):
    y = x[m]; n = len(m)
    w = np.asarray(np.moveaxis(got, ti, 0)[q], 'd')
    mean = y.sum(0)/n
    if c['how'].endswith('mean'):
      assert np.all(np.abs(w - mean) <= eps*scale*(n + 4)), '%s of %s: %s, expected %s' % (fn, y, w, mean)
    elif n < 2: assert np.all(np.isnan(w))
    else:
      # in double precision, and however large the mean is
      e = ((y - mean)**2).sum(0)/(n - 1); R = y.max(0) - y.min(0)
      tol = 2.3e-16*R**2*(n + 8)*4*n + (2.3e-16*scale)**2*n*9 + 8*eps*np.abs(e)
      assert np.all(np.abs(w**2 - e) <= tol), '%s of %s: %s, expected %s' % (fn, y, w, np.sqrt(e))


# ---- complex data

@st.composite
def zcase(draw):
  gr = draw(st.sampled_from(list(GROUPS)))
  ks = cal.CALS if gr in ('clim', 'daily', 'diurnal') else cal.CALS[:3] if gr != 'seasonal' else cal.CALS[:2]
  return dict(v=draw(tvar(kinds=ks, nan=False, dtypes=('float64', 'float32'))), g=gr, how=draw(st.sampled_from(['mean', 'nanmean', 'nanmean'])), chunk=draw(st.sampled_from(g.MAXSIZES)),
              lazy=draw(st.sampled_from(g.LAZY)), sub=draw(g.subspec()), nre=draw(st.sampled_from([0, 0, .3])), nim=draw(st.sampled_from([0, .3, .6])))


def check_z(c, ctx):
  import pygeode as pyg
  vd = c['v']; ti = vd['ti']; t = vd['axes'][ti]; k = t['k']
  T = cal.dates(t)
  fields = [f for f in GROUPS[c['g']] if f in cal.fields(k) or f == 'season']
  v0, re = build(vd, 'mem')
  rng = np.random.default_rng(vd['seed'] + 1)
  data = np.empty(re.shape, 'complex128' if vd['dtype'] == 'float64' else 'complex64')
  data.real = np.where(rng.random(re.shape) < c['nre'], np.nan, re); data.imag = np.where(rng.random(re.shape) < c['nim'], np.nan, rng.integers(-9, 10, re.shape))
  v = g.lazify(pyg.Var(v0.axes, values=data.copy(), name='z'), c['lazy'])
  fn = NAMES.get((c['g'], c['how']), c['g'] + c['how'])
  keys, members = group(c, T, fields)
  ctx.label(k, c['g'], c['how'], data.dtype); ctx.nontrivial(len(keys) > 1 and max(map(len, members)) > 1)
  g.set_chunk(c['chunk'])
  x = np.moveaxis(data, ti, 0)
  def one(y):
    ok = ~np.isnan(y) if c['how'] == 'nanmean' else np.ones(y.shape, bool)
    n = ok.sum(0); s = np.where(ok, y, 0).sum(0)
    return np.where(n > 0, s/np.maximum(n, 1), np.nan)
  exp = np.moveaxis(np.array([one(x[m]) for m in members]), 0, ti)
  r = getattr(pyg, fn)(v)
  got = r.get()
  assert got.dtype.kind == 'c', 'the result is of type %s' % got.dtype
  bad = np.isnan(exp)
  assert (np.isnan(got) == bad).all(), 'NaNs of %s: %s, expected %s' % (fn, np.isnan(got), bad)
  g.assert_close(np.where(bad, 0, got), np.where(bad, 0, exp), 1e-5, 1e-5, fn)
  e, pos = g.resolve_sub(c['sub'], r.shape)
  part = r.slice[e].get(); ok = ~g.subset(bad, pos)
  g.assert_close(np.where(ok, part, 0), np.where(ok, g.subset(exp, pos), 0), 1e-5, 1e-5, 'part of ' + fn)


# ---- trends

@st.composite
def rcase(draw):
  k = draw(st.sampled_from(cal.CALS[:3]))
  n = draw(st.sampled_from([2, 4, 8, 12]))
  days = draw(st.lists(st.tuples(st.sampled_from([1, 2, 3, 12]), st.sampled_from([1, 15, 28]), st.sampled_from([0, 12])), min_size=1, max_size=3, unique=True))
  y0 = draw(st.sampled_from([1899, 1950, 1999, 2003]))
  sel = draw(st.lists(st.booleans(), min_size=40, max_size=40))
  S = [cal.secs(k, (y0 + y, m, d, H, 0, 0)) for y in range(n) for m, d, H in sorted(days)]
  S = [s for s, b in zip(S, sel + [True]*len(S)) if b] if draw(st.booleans()) else S
  if len(S) < 2: S = [cal.secs(k, (y0 + y, 1, 1, 0, 0, 0)) for y in range(2)]
  u = draw(st.sampled_from(['days', 'hours', 'seconds']))
  t = dict(k=k, v=[(s - S[0])/cal.UNIT[u] for s in S], units=u, start=cal.asdict(k, cal.date(k, S[0])), secs=S)
  return dict(v=draw(tvar(series=st.just(t), nan=False, kinds_other=OTHER[:4], kind=draw(st.sampled_from(['small', 'small', 'offset', 'constant'])))), chunk=draw(st.sampled_from(g.MAXSIZES)), lazy=draw(st.sampled_from(g.LAZY)), sub=draw(g.subspec()))


def check_r(c, ctx):
  import pygeode as pyg
  from pygeode import climat
  vd = c['v']; ti = vd['ti']; t = vd['axes'][ti]; k = t['k']
  T = cal.dates(t); fields = cal.F[1:]
  v, data = build(vd, c['lazy'])
  keys, members = group(c, T, fields)
  ctx.label(k, vd['dtype']); ctx.nontrivial(max(map(len, members)) > 2)
  secs = np.array(t['secs'], 'd') - cal.secs(k, t['start'])
  x = np.moveaxis(np.asarray(data, 'd'), ti, 0)
  A = np.full((len(keys),) + x.shape[1:], np.nan); B = A.copy(); fit = np.full(x.shape, np.nan)
  for q, m in enumerate(members):
    if len(m) < 2: continue
    s = secs[m]; d = s - s.mean(); y = x[m]
    A[q] = np.tensordot(d, y - y.mean(0), (0, 0))/np.sum(d**2)
    B[q] = y.mean(0) - A[q]*s.mean()
    fit[m] = A[q]*s.reshape((-1,) + (1,)*(x.ndim-1)) + B[q]
  g.set_chunk(c['chunk'])
  r = pyg.climtrend(v)
  assert r.axes[-1].name == 'coef' and len(r.axes[-1]) == 2 and r.naxes == v.naxes + 1, 'axes of the trend %s' % (r.axes,)
  a = r.axes[ti]
  for i, f in enumerate(fields): g.assert_eq(a.auxarrays[f], [q[i] for q in keys], 'trend: %s of the groups' % f)
  got = r.get()
  assert got.shape == r.shape
  tol = 1e-5; scale = max(1., float(np.abs(x).max())); at = 1e-8*scale
  ok = np.moveaxis(np.isfinite(A), 0, ti)
  if True:
    year = 3.15e7
    g.assert_close(np.where(ok, got[..., 1], 0)*year, np.where(ok, np.moveaxis(A, 0, ti), 0)*year, tol, at, 'slope per year')
    g.assert_close(np.where(ok, got[..., 0], 0), np.where(ok, np.moveaxis(B, 0, ti), 0), tol, at, 'intercept')
    e, pos = g.resolve_sub(c['sub'], r.shape)
    part = r.slice[e].get(); whole = g.subset(got, pos)
    okp = g.subset(np.broadcast_to(ok[..., None], got.shape), pos)
    g.assert_close(np.where(okp, part, 0), np.where(okp, whole, 0), 1e-6, 1e-9, 'part %s of the trend' % (e,))
    if np.all(ok) and vd['dtype'] != 'float32' and scale < 1e6:
      f = pyg.from_trend(v.axes[ti], r.load())
      names = [x_.name for x_ in v.axes]
      full = np.moveaxis(fit, 0, ti)
      g.assert_close(f.transpose(*names).get(), full, 1e-4, 1e-4, 'reconstructed trend')
      g.check_part(f.transpose(*names), f.transpose(*names).get(), c['sub'], 'reconstructed trend', 1e-9, 1e-9)
      f2 = pyg.from_trend(v.axes[ti], A=r(i_coef=1).squeeze('coef'), B=r(i_coef=0).squeeze('coef'))
      g.assert_close(f2.transpose(*names).get(), full, 1e-4, 1e-4, 'trend from its two coefficients')
      # coefficients from a file, whose time axis was given a constant year
      y = type(a)(units=a.units, startdate=dict(year=1, month=1, day=1), year=np.zeros(len(a), 'i') + 1, **a.auxarrays)
      f3 = pyg.from_trend(v.axes[ti], r.replace_axes({a.name: y}))
      g.assert_close(f3.transpose(*names).get(), full, 1e-4, 1e-4, 'trend whose coefficients have a constant year')
      d, cl = climat.detrend(v, return_clim=True)
      g.assert_close(d.transpose(*names).get(), np.asarray(data, 'd') - full, 1e-4, 1e-4, 'detrended data')
      ctx.label('detrend')


TESTS = [
  Test('groups', case(), check, quick=3500),
  Test('magnitudes', mcase(), check_m, quick=1200),
  Test('complex', zcase(), check_z, quick=800),
  Test('trend', rcase(), check_r, quick=500),
]
