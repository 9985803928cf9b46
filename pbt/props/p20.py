"""P20: exchange with xarray."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import cal
from . import p18

RULE = ('A case is a dataset of one to three variables over a shared pool of axes (every kind), in memory or computed, converted to xarray at a generated piece size, looked at there, cut there, and converted back; or an xarray dataset made directly. '
        'Non-trivial: some variable has at least two elements. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['times are in calendars xarray knows: no day-only calendar and no climatologies', 'variables do not share a name with an axis', 'times are between the years 1700 and 2200 and whole seconds']


@st.composite
def case(draw):
  d = draw(p18.dset(['float64', 'float64', 'float32', 'int16', 'int32', 'int64', 'uint8', 'bool']))
  for a in d['pool']:
    if a['k'] in ('Yearless', 'Clim', 'TAxis'): a.clear(); a.update(draw(g.axis(kind='StandardTime', n=3)))
    if a['k'] in g.TIMES and a['start']['year'] < 1700: a['start']['year'] = 1999
  return dict(d=d, chunk=draw(st.sampled_from(g.MAXSIZES)), chunk2=draw(st.sampled_from(g.MAXSIZES)), sub=draw(g.subspec()), op=draw(st.sampled_from([None, None, 'add', 'mean', 'sort', 'fill'])), single=draw(st.booleans()), isel=draw(st.integers(0, 5)))


def xtimes(x, n):
  """Fields of the times of an xarray coordinate."""
  import pandas as pd
  out = []
  for t in np.asarray(x.values):
    if isinstance(t, np.datetime64):
      t = pd.Timestamp(t)
    out.append((t.year, t.month, t.day, t.hour, t.minute, t.second))
  return out


def check_x(x, vs, arrs, d, pool):
  for v, arr, vd in zip(vs, arrs, d['vars']):
    xv = x[v.name]
    assert xv.dims == tuple(a.name for a in v.axes), '%s in xarray: dimensions %s' % (v.name, xv.dims)
    assert xv.dtype == arr.dtype, '%s in xarray: type %s, was %s' % (v.name, xv.dtype, arr.dtype)
    g.assert_close(np.asarray(xv.values, 'd'), np.asarray(arr, 'd'), 1e-12, 1e-12, '%s in xarray' % v.name)
    exp = dict(vd['atts'])
    if vd['units']: exp['units'] = vd['units']
    p18.check_atts(xv.attrs, exp, v.name + ' in xarray', exact=False)
    for a, q in zip(v.axes, vd['ax']):
      ad = d['pool'][q]
      if ad['k'] in ('NonCoord', 'Station', 'Dummy'): continue
      xc = x[a.name]
      if ad['k'] in g.TIMES:
        st_ = ad['start']; s0 = cal.secs(ad['k'], (st_['year'], st_['month'], st_['day'], st_['hour'], st_['minute'], st_['second']))
        exp = [cal.date(ad['k'], s0 + int(round(z*cal.UNIT[ad['units']]))) for z in ad['v']]
        assert xtimes(xc, len(a)) == exp, 'times in xarray %s, expected %s' % (xtimes(xc, len(a)), exp)
      else: g.assert_eq(np.asarray(xc.values), np.asarray(a.values), 'coordinate %s in xarray' % a.name)


def opvar(v, op):
  if op == 'add': return v + 1
  if op == 'fill': return v.fill(0) if v.dtype.kind == 'f' else v
  if op == 'sort' and v.axes: return v
  return v


def check(c, ctx):
  import pygeode as pyg
  from pygeode.dataset import asdataset
  from pygeode.ext_xarray import to_xarray, from_xarray
  d = c['d']
  vs, arrs, pool = p18.build(d)
  ctx.label(*[a['k'] for a in d['pool']] + ['op %s' % c['op']]); ctx.nontrivial(any(a.size > 1 for a in arrs))
  g.set_chunk(c['chunk'])
  if c['op'] == 'add':
    vs2 = []
    for i, v in enumerate(vs):
      if v.dtype.kind == 'f':
        w = v + 1; w.atts = dict(v.atts); w.units = v.units; w.name = v.name; arrs[i] = (arrs[i] + 1).astype(w.dtype)
      else: w = v
      vs2.append(w)
    vs = vs2
  if c['op'] == 'fill':
    vs2 = []
    for i, v in enumerate(vs):
      if v.dtype.kind == 'f': v = v.fill(-1); arrs[i] = np.where(np.isnan(arrs[i]), -1, arrs[i]).astype(arrs[i].dtype)
      vs2.append(v)
    vs = vs2
  if c['op'] == 'mean' and vs[0].axes and len(vs) == 1:
    # a reduction is computed by a progress-reporting method of its own
    v = vs[0].mean(0); 
    w = pyg.Var(vs[0].axes, values=arrs[0]); exp = w.mean(0).get()
    if v.axes and v.dtype.kind == 'f':
      xa = to_xarray(asdataset([v.rename('m')])); g.assert_close(np.asarray(xa['m'].values), exp, 1e-6, 1e-9, 'mean in xarray')
  ds = asdataset(vs); ds.atts = dict(d['gatts'])
  if c['single'] and len(vs) == 1: x = to_xarray(vs[0])
  else:
    x = to_xarray(ds)
    p18.check_atts(x.attrs, d['gatts'], 'dataset in xarray', exact=False)
  check_x(x, vs, arrs, d, pool)
  g.set_chunk(c['chunk2'])
  r = from_xarray(x)
  cc = dict(mode='plain', single=c['single'] and len(vs) == 1, version=4, compress=False, sub=c['sub'])
  dd = dict(d, pool=[dict(a) for a in d['pool']])
  p18.check_back(r, cc, dd, vs, arrs, pool)
  # cut on the other side
  v = vs[0]
  if v.axes:
    q = c['isel'] % len(v.axes); n = len(v.axes[q])
    if d['pool'][d['vars'][0]['ax'][q]]['k'] not in ('NonCoord', 'Station'):
      pos = [list(range(n))[::-1], list(range(0, n, 2)), [n-1], list(range(n))[1:] or [0], [0, n-1] if n > 1 else [0], list(range(n))][c['isel']]
      y = x.isel({v.axes[q].name: pos})
      g.assert_close(np.asarray(y[v.name].values, 'd'), np.take(arrs[0], pos, q).astype('d'), 1e-12, 1e-12, 'part of xarray')
      b = from_xarray(y)[v.name]
      g.assert_close(np.asarray(b.get(), 'd'), np.take(arrs[0], pos, q).astype('d'), 1e-12, 1e-12, 'part of xarray, converted back')
      if d['pool'][d['vars'][0]['ax'][q]]['k'] != 'Dummy':
        bb = r[v.name].slice[tuple([slice(None)]*q + [pos])]
        assert b.axes[q] == bb.axes[q], 'axis %s after selection before and after conversion: %s, %s' % (b.axes[q].name, b.axes[q].values, bb.axes[q].values)


# ---- from xarray itself

@st.composite
def xcase(draw):
  dims = []
  for nm, kinds in [('x', ['none', 'num', 'lat']), ('t', ['none', 'dt64', 'cft', 'num']), ('p', ['none', 'num', 'pres'])]:
    if draw(st.integers(0, 3)): dims.append(dict(name=nm, kind=draw(st.sampled_from(kinds)), v=draw(g.coord_values(draw(st.sampled_from([1, 2, 3, 5, 7, 5]))))))
  if not dims: dims = [dict(name='x', kind='num', v=draw(g.coord_values(3)))]
  for d in dims:
    if d['kind'] in ('dt64', 'cft'):
      k = d['k'] = 'StandardTime' if d['kind'] == 'dt64' else draw(st.sampled_from(['StandardTime', 'ModelTime365', 'ModelTime360']))
      d['secs'] = draw(cal.series(k=k, sizes=(len(d['v']),)))['secs']; d['v'] = [0]*len(d['secs'])
  vs = []
  for nm in ['a', 'b'][:draw(st.sampled_from([1, 2]))]:
    order = list(draw(st.permutations(list(range(len(dims))))))
    vs.append(dict(name=nm, ax=order[:draw(st.integers(0, len(order)))], dtype=draw(st.sampled_from(['f8', 'f4', 'i4', 'i8', 'u1'])), seed=draw(g.data_seed), dask=draw(st.booleans()), nan=draw(st.sampled_from([0, 0, .3])), atts=draw(p18.atts)))
  return dict(dims=dims, vars=vs, gatts=draw(p18.atts), sub=draw(g.subspec()), chunk=draw(st.sampled_from(g.MAXSIZES)), back=draw(st.booleans()))


def xcheck(c, ctx):
  import xarray as xr, cftime, dask.array as da
  from pygeode.ext_xarray import to_xarray, from_xarray
  dims, vs = c['dims'], c['vars']
  coords = {}
  for d in dims:
    if d['kind'] == 'none': continue
    at = {}
    if d['kind'] == 'lat': at = dict(standard_name='latitude')
    if d['kind'] == 'pres': at = dict(units='hPa')
    if d['kind'] == 'dt64': x = np.array(['%04d-%02d-%02dT%02d:%02d:%02d' % tuple(cal.date(d['k'], s)) for s in d['secs']], 'M8[ns]')
    elif d['kind'] == 'cft': x = [cftime.datetime(*cal.date(d['k'], s), calendar=dict(StandardTime='standard', ModelTime365='noleap', ModelTime360='360_day')[d['k']]) for s in d['secs']]
    else: x = np.array(d['v'], 'd')
    coords[d['name']] = ((d['name'],), x, at)
  arrs = [g.build_data(tuple(len(dims[q]['v']) for q in v['ax']), v['dtype'], v['seed'], 'perm' if v['dtype'] != 'u1' else 'small', v['nan']) if v['dtype'] != 'u1' else
          np.random.RandomState(v['seed'] % 2**31).randint(0, 200, tuple(len(dims[q]['v']) for q in v['ax'])).astype('u1') for v in vs]
  ctx.label(*[d['kind'] for d in dims]); ctx.nontrivial(any(a.size > 1 for a in arrs))
  x = xr.Dataset({v['name']: (tuple(dims[q]['name'] for q in v['ax']), da.from_array(a.copy(), chunks=2) if v['dask'] else a.copy(), dict(v['atts'])) for v, a in zip(vs, arrs)}, coords=coords, attrs=dict(c['gatts']))
  g.set_chunk(c['chunk'])
  r = from_xarray(x)
  assert [v.name for v in r.vars] == [v['name'] for v in vs], 'variables %s' % r.vars
  p18.check_atts(r.atts, c['gatts'], 'dataset')
  for v, a in zip(vs, arrs):
    p = r[v['name']]
    assert [b.name for b in p.axes] == [dims[q]['name'] for q in v['ax']], '%s: axes %s' % (v['name'], p.axes)
    for b, q in zip(p.axes, v['ax']):
      d = dims[q]
      assert len(b) == len(d['v'])
      if d['kind'] in ('dt64', 'cft'):
        assert type(b).__name__ == d['k'], 'times read as %s' % type(b).__name__
        for f in cal.F: g.assert_eq(b.auxarrays[f], [cal.date(d['k'], s)[cal.F.index(f)] for s in d['secs']], 'times: ' + f)
      elif d['kind'] != 'none':
        assert type(b).__name__ == dict(num='NamedAxis', lat='Lat', pres='Pres')[d['kind']], '%s is %s' % (d['name'], type(b).__name__)
        g.assert_eq(np.asarray(b.values), np.array(d['v'], 'd'), d['name'])
    assert p.dtype == a.dtype, 'type %s, was %s' % (p.dtype, a.dtype)
    full = p.get()
    g.assert_eq(full, a, v['name'])
    assert full.dtype == p.dtype
    p18.check_atts(p.atts, v['atts'], v['name'])
    g.check_part(p, full, c['sub'], v['name'], exact=True)
  if c['back']:
    y = to_xarray(r)
    for v, a in zip(vs, arrs):
      assert y[v['name']].dims == tuple(dims[q]['name'] for q in v['ax'])
      g.assert_eq(np.asarray(y[v['name']].values), a, 'back in xarray')
      for q in v['ax']:
        if dims[q]['kind'] in ('dt64', 'cft'): assert xtimes(y[dims[q]['name']], 0) == [tuple(cal.date(dims[q]['k'], s)) for s in dims[q]['secs']], 'times back in xarray'


# ---- lazily from a file: dask asks for the pieces from several threads

@st.composite
def tcase(draw):
  return dict(n=draw(st.lists(st.sampled_from([1, 3, 8, 20]), min_size=1, max_size=3)), lib=draw(st.sampled_from([['netcdf4', 3], ['netcdf4', 4], ['netcdf', 3]])), chunk=draw(st.sampled_from([3, 5, 11, 40])), op=draw(st.sampled_from([None, 'add', 'mean', 'smooth'])), seed=draw(g.data_seed), nv=draw(st.integers(1, 2)))


def tcheck(c, ctx):
  import os, pygeode as pyg
  from pygeode.ext_xarray import to_xarray
  fn = 't%d_%d.nc' % (os.getpid(), next(p18._n))
  axs = [pyg.NamedAxis(np.arange(n)*1., 'abc'[i]) for i, n in enumerate(c['n'])]
  arrs = [g.build_data(tuple(c['n']), 'float64', c['seed'] + i, 'real') for i in range(c['nv'])]
  ctx.label(*c['lib'] + ['op %s' % c['op']]); ctx.nontrivial(int(np.prod(c['n'])) > c['chunk'])
  try:
    pyg.save(fn, [pyg.Var(axs, values=a, name='v%d' % i) for i, a in enumerate(arrs)], format=c['lib'][0], version=c['lib'][1])
    ds = pyg.open(fn, format=c['lib'][0])
    vs = [ds['v%d' % i] for i in range(c['nv'])]
    exp = arrs
    if c['op'] == 'add': vs = [v*2 for v in vs]; exp = [a*2 for a in arrs]
    if c['op'] == 'mean' and len(c['n']) > 1: vs = [v.mean('a') for v in vs]; exp = [a.mean(0) for a in arrs]
    if c['op'] == 'smooth': vs = [v + v.sorted('a') for v in vs]; exp = [a + a for a in arrs]
    vs = [v.rename('v%d' % i) for i, v in enumerate(vs)]
    g.set_chunk(c['chunk'])
    x = to_xarray(vs)
    for i, e in enumerate(exp): g.assert_close(np.asarray(x[vs[i].name].values), e, 1e-12, 1e-12, 'data of a file through xarray')
  finally:
    if os.path.exists(fn): os.unlink(fn)


# ---- packed arrays that xarray has not decoded

@st.composite
def pcase(draw):
  n = [draw(st.sampled_from([1, 2, 3, 5])) for _ in range(draw(st.integers(1, 3)))]
  return dict(n=n, dtype=draw(st.sampled_from(['float64', 'float32', 'int16', 'int32', 'float64'])), scale=draw(st.sampled_from([None, 2., 0.25, -4.])), offset=draw(st.sampled_from([None, 100., -0.5])),
              fill=draw(st.sampled_from([None, None, 3, -99])), fname=draw(st.sampled_from(['_FillValue', 'missing_value'])), seed=draw(g.data_seed), dask=draw(st.booleans()),
              sub=[draw(g.index(m)) for m in n], op=draw(st.sampled_from([None, 'add', 'mean'])))


def pcheck(c, ctx):
  import xarray as xr
  from pygeode.ext_xarray import from_xarray
  arr = np.random.default_rng(c['seed']).integers(-5, 6, c['n']).astype(c['dtype'])
  att = {}
  if c['scale'] is not None: att['scale_factor'] = c['scale']
  if c['offset'] is not None: att['add_offset'] = c['offset']
  if c['fill'] is not None: att[c['fname']] = arr.dtype.type(c['fill'])
  ctx.label('packed ' + c['dtype'], *att); ctx.nontrivial(bool(att) and arr.size > 1)
  x = xr.Dataset({'v': (tuple('abc'[:arr.ndim]), arr.copy(), att)}, coords={d: (d, np.arange(m)*1.) for d, m in zip('abc', c['n'])})
  if c['dask']: x = x.chunk(2)
  keep = x.copy(deep=True)
  exp = arr.astype(np.result_type(arr.dtype, 'float32') if att else arr.dtype)
  if c['scale'] is not None: exp = (exp*c['scale']).astype(exp.dtype)
  if c['offset'] is not None: exp = (exp + c['offset']).astype(exp.dtype)
  if c['fill'] is not None: exp[arr == c['fill']] = np.nan
  ds = from_xarray(x)
  v = ds.v
  for k in range(2):
    got = v.get()
    assert v.dtype == got.dtype == exp.dtype, 'type %s, %s, expected %s' % (v.dtype, got.dtype, exp.dtype)
    g.assert_close(got, exp, 1e-6, 1e-6, 'packed data of an xarray object (look %d)' % (k+1))
    sl = tuple(g.ix(s) for s in c['sub'])
    g.assert_close(v.slice[sl].get(), g.subset(exp, [g.ixarr(s, m) for s, m in zip(c['sub'], c['n'])]), 1e-6, 1e-6, 'part of packed data (look %d)' % (k+1))
    if c['op'] == 'add': g.assert_close((v + v).get(), exp + exp, 1e-6, 1e-6, 'packed data added')
    if c['op'] == 'mean' and arr.ndim > 1: g.assert_close(v.mean('a').get(), exp.mean(0), 1e-5, 1e-5, 'packed data averaged')
  assert x.identical(keep), 'the xarray object has been changed'


# ---- several converted variables used in one computation of dask's

@st.composite
def mcase(draw):
  k = draw(st.sampled_from([2, 2, 3]))
  return dict(n=draw(st.lists(st.sampled_from([3, 1, 5, 8]), min_size=1, max_size=3)), seed=draw(g.data_seed), k=k, how=[draw(st.sampled_from(['mul', 'lazy', 'slice', 'trans', 'part', 'sort', 'name', 'units'])) for _ in range(k)],
              same=draw(st.sampled_from([True, True, False])), chunk=[draw(st.sampled_from([10**7, 3, 7, 40, 1])) for _ in range(k)], samechunk=draw(st.booleans()), use=draw(st.sampled_from(['sub', 'sum', 'compute', 'concat', 'merge', 'stack', 'back'])))


def mcheck(c, ctx):
  import pygeode as pyg, xarray as xr, dask
  from pygeode.ext_xarray import to_xarray, from_xarray
  axs = [pyg.NamedAxis(np.arange(n)*1., 'abc'[i]) for i, n in enumerate(c['n'])]
  xs, arrs = [], []
  for i, h in enumerate(c['how']):
    if c['same']: h = c['how'][0]
    a = g.build_data(tuple(c['n']), 'float64', c['seed'] + i, 'real')
    v = pyg.Var(axs, values=a.copy(), name='v')
    if h == 'mul': v = v*(i + 2.); a = a*(i + 2.)
    elif h in ('lazy', 'slice', 'trans'): v = g.lazify(v, h)
    elif h == 'part':
      # pieces of one larger variable
      big = [pyg.NamedAxis(np.arange(n + 4)*1., 'abc'[j]) for j, n in enumerate(c['n'])]
      A = g.build_data(tuple(n + 4 for n in c['n']), 'float64', c['seed'], 'real')
      sl = tuple(slice(i, i + n) for n in c['n'])
      v = pyg.Var(big, values=A.copy(), name='v').slice[sl]; a = A[sl]
      v = v.replace_axes(**{x.name: x for x in axs})
    elif h == 'sort': v = v.sorted(a=-1) if i % 2 else v.sorted(a=1); a = a[::-1] if i % 2 else a
    elif h == 'name': v = g.lazify(v, 'lazy').rename('w').rename('v')
    elif h == 'units': v = v + i; a = a + i
    v.name = 'v'
    if h == 'sort':  v = v.replace_axes(a=axs[0])
    g.set_chunk(c['chunk'][0 if c['samechunk'] else i])
    x = to_xarray(v) if i % 2 else to_xarray([v])
    xs.append(x['v']); arrs.append(a)
  ctx.label('use ' + c['use'], 'how ' + c['how'][0]); ctx.nontrivial(arrs[0].size > 1)
  g.set_chunk(10**7)
  u = c['use']; dims = tuple('abc'[:len(c['n'])])
  if u == 'sub': got = (xs[0] - xs[1]).transpose(*dims).values; exp = arrs[0] - arrs[1]
  elif u == 'sum': got = sum(xs[1:], xs[0]).transpose(*dims).values; exp = sum(arrs)
  elif u == 'compute': got = np.array([y.values for y in dask.compute(*xs)]); exp = np.array(arrs)
  elif u == 'concat': got = xr.concat(xs, 'm').transpose('m', *dims).values; exp = np.array(arrs)
  elif u == 'merge':
    y = xr.Dataset({'v%d' % i: x for i, x in enumerate(xs)}).compute(); got = np.array([y['v%d' % i].values for i in range(c['k'])]); exp = np.array(arrs)
  elif u == 'stack':
    import dask.array as da
    got = da.stack([x.data for x in xs]).compute(); exp = np.array(arrs)
  else:
    vs = [from_xarray(xr.Dataset({'v': x})).v for x in xs]
    got = (vs[0] - vs[1]).get(); exp = arrs[0] - arrs[1]
  g.assert_close(got, exp, 1e-12, 1e-12, 'variables of one name, converted one by one and used together')


TESTS = [Test('several', mcase(), mcheck, quick=300), Test('roundtrip', case(), check, quick=800), Test('from', xcase(), xcheck, quick=600), Test('threads', tcase(), tcheck, quick=160), Test('packed', pcase(), pcheck, quick=400)]
