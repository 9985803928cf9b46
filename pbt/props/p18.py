"""P18: netCDF files give back what was saved."""
import os, itertools
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import cal

RULE = ('A case is a dataset of one to three variables over a shared pool of axes (every kind), with missing values and attributes of every type, saved with a generated choice of library, file version, compression, '
        'unlimited dimension, packing, groups, conventions and chunk size, read back with either library and with the plain netCDF4 module. Non-trivial: some variable has at least two elements. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['station coordinates and a latitude axis are not in one file (refused with an error: both are named lat)', "the classic format via the netCDF4 library has no 64-bit integers (refused with an error): none there", 'types and attributes are ones the chosen file version and library can store', 'variable names are plain ASCII (others are replaced, with a warning)', 'axes have different names']

_n = itertools.count()

ATT = st.one_of(st.sampled_from(['text', 'm s-1', ' x ', 'a,b', '2000-01-01', '%d {} \\n', 'Größe 東', '']), st.integers(-10**6, 10**6), st.sampled_from([0, -1, 2**31-1, -2**31]),
                st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from([0.1, 1e300, -0.0]), st.lists(st.integers(-5, 5), min_size=2, max_size=4), st.lists(st.sampled_from([0.5, 0.1, -3.]), min_size=2, max_size=4))
NAMES = ['long_name', 'comment', 'valid_min', 'x_y', 'note', 'history', 'level', 'größe']
atts = st.dictionaries(st.sampled_from(NAMES), ATT, max_size=3)


def build_ax(a):
  import pygeode as pyg
  from pygeode import axis as axm
  k = a['k']
  if k == 'NonCoord':
    return axm.NonCoordinateAxis(name=a['name'], **{q: np.array(x, 'i4' if q == 'code' else 'd') for q, x in a['arr'].items()})
  if k == 'Dummy': return axm.DummyAxis(len(a['v']), name=a['name'])
  if k == 'Station': return axm.Station(station=a['station'], **{q: np.array(x) for q, x in a['arr'].items()})
  if k == 'Clim':
    cls = getattr(pyg, a['cls'])
    return cls(units=a['units'], **{f: np.array(x, 'i') for f, x in a['f'].items()})
  if k in ('TAxis',): return axm.TAxis(np.array(a['v'], 'd'))
  x = g.build_axis({q: y for q, y in a.items() if q != 'aux'})
  if a.get('aux'): x = type(x)(x.values, name=x.name, **dict(x.auxarrays, **{q.replace('%', x.name): np.array(y, 'i4') for q, y in a['aux'].items()}))
  x.atts.update(a.get('fatts', {}))
  return x


@st.composite
def axis(draw, kind):
  n = draw(st.sampled_from([1, 2, 3, 4, 6]))
  if kind == 'NonCoord':
    arr = {'code': draw(st.permutations(list(range(10, 10+n))))}
    if draw(st.booleans()): arr['a'] = [q/2. for q in range(n)]
    return dict(k=kind, v=list(range(n)), name='site', arr=arr)
  if kind == 'Dummy': return dict(k=kind, v=list(range(n)), name='dum')
  if kind == 'Station':
    arr = {}
    if draw(st.booleans()): arr = {'lat': draw(g.coord_values(n)), 'lon': draw(g.coord_values(n))}
    return dict(k=kind, v=list(range(n)), station=draw(st.lists(st.sampled_from(['a', 'bb', 'Eureka', 'St. John', 'x1', 'q-r', 'Zürich', 'Ny-Ålesund', '東京', '']), min_size=n, max_size=n, unique=True)), arr=arr)
  if kind == 'Clim':
    ms = sorted(draw(st.lists(st.integers(1, 12), min_size=n, max_size=n, unique=True)))
    f = dict(month=ms)
    if draw(st.booleans()): f['day'] = draw(st.lists(st.integers(1, 28), min_size=n, max_size=n))
    return dict(k=kind, v=ms, f=f, cls=draw(st.sampled_from(['StandardTime', 'ModelTime365', 'ModelTime360'])), units='days')
  if kind == 'TAxis': return dict(k=kind, v=draw(g.coord_values(n)))
  if kind in g.TIMES: return draw(g.axis(kind=kind, n=n))
  a = draw(g.axis(kind=kind, n=n))
  # (auxiliary arrays whose names have that of the axis in them)
  if a.get('aux'): a['aux'] = {draw(st.sampled_from(['ax1', 'sub_%_i', '%_x', '%', 'my_%_%_', 'ax1'])): x for x in a['aux'].values()}
  if kind not in ('Index', 'Hybrid'): a['dtype'] = draw(st.sampled_from(['d', 'd', 'd', 'f', 'i']))
  if a.get('dtype') == 'i': a['v'] = [x*4 for x in a['v']]
  a['fatts'] = {q: x for q, x in draw(atts).items() if q != 'long_name'}
  if kind == 'NamedAxis' and draw(st.booleans()): a['fatts']['units'] = 'm'
  if kind == 'NamedAxis' and not a.get('aux') and draw(st.integers(0, 3)) == 0: a['name'] = 'höhe'
  return a


GROUPS = [['Lat', 'YAxis', 'Lat'], ['Lon', 'XAxis', 'Lon'], ['Pres', 'Hybrid', 'Height', 'ZAxis'], ['NamedAxis'], ['Index'], ['Freq'],
          ['StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless', 'Clim', 'TAxis'], ['StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless', 'Clim', 'TAxis'], ['Station', 'NonCoord', 'Dummy']]


@st.composite
def dset(draw, dtypes, classic=False, raw=False):
  gs = draw(st.lists(st.sampled_from(list(range(len(GROUPS)))), min_size=1, max_size=4, unique=True))
  if 6 in gs and 7 in gs: gs.remove(7)
  if raw and 8 in gs: gs = [q for q in gs if q != 8] or [0]
  if classic and 4 in gs: gs[gs.index(4)] = 3 if 3 not in gs else 5 if 5 not in gs else 4
  pool = [draw(axis(draw(st.sampled_from(GROUPS[q])))) for q in gs if not (classic and q == 4)]
  if any(a['k'] in ('Lat', 'Lon') for a in pool):
    for a in pool:
      if a['k'] == 'Station': a['arr'] = {}       # both would be named lat
  nv = draw(st.sampled_from([1, 1, 2, 3]))
  vs = []
  for i in range(nv):
    order = list(draw(st.permutations(list(range(len(pool))))))
    m = draw(st.integers(1 if nv == 1 else 0, len(order)))
    vs.append(dict(name=['T', 'u_wind', 'Q2'][i], ax=order[:m], dtype=draw(st.sampled_from(dtypes)), seed=draw(g.data_seed), kind=draw(st.sampled_from(['perm', 'real', 'small'])),
                   nan=draw(st.sampled_from([0, 0, 0.3, 1.0])), units=draw(st.sampled_from(['', 'K', 'm s-1'])), atts=draw(atts), lazy=draw(st.sampled_from(g.LAZY))))
  # (a variable may have the name of an auxiliary array of an axis)
  clash = ['A'] if any(a['k'] == 'Hybrid' for a in pool) else ['ax1', 'x'] if any(a.get('aux') for a in pool) else []
  if clash and draw(st.booleans()): draw(st.sampled_from(vs))['name'] = draw(st.sampled_from(clash))
  return dict(pool=pool, vars=vs, gatts=draw(atts))


@st.composite
def case(draw, mode=None):
  fmt = draw(st.sampled_from(['netcdf', 'netcdf4']))
  version = draw(st.sampled_from([3, 4, 4]))
  mode = mode or draw(st.sampled_from(['plain', 'plain', 'plain', 'raw', 'pack', 'pack1', 'group']))
  if mode == 'group': fmt, version = 'netcdf4', 4
  compress = draw(st.sampled_from([False, False, True]))
  v4 = version == 4 or compress
  dts = ['float64', 'float64', 'float32', 'int16', 'int32', 'int8']
  if fmt == 'netcdf' or v4: dts = dts + ['int64']
  if v4: dts = dts + ['uint8', 'uint16', 'uint32', 'uint64']
  if mode.startswith('pack'): dts = ['float64', 'float32', 'int32']
  ds = [draw(dset(dts, fmt == 'netcdf4' and not v4, mode == 'raw')) for _ in range(2 if mode == 'group' else 1)]
  return dict(fmt=fmt, ofmt='netcdf4' if mode == 'group' else draw(st.sampled_from(['netcdf', 'netcdf4'])), version=version, compress=compress, mode=mode, ds=ds, chunk=draw(st.sampled_from(g.MAXSIZES)), ochunk=draw(st.sampled_from(g.MAXSIZES)),
              unlim=draw(st.sampled_from([None, None, 0, 1])), sub=draw(g.subspec()), single=draw(st.booleans()), plotatts=draw(st.booleans()), file=draw(st.sampled_from(['f', 'f', 'a b', 'Größe 東'])))


def build(d):
  import pygeode as pyg
  pool = [build_ax(a) for a in d['pool']]
  vs, arrs = [], []
  for v in d['vars']:
    axs = [pool[q] for q in v['ax']]
    shape = tuple(len(a) for a in axs)
    kind = 'perm' if v['dtype'][0] in 'iu' and v['kind'] == 'real' else v['kind']
    if v['dtype'][0] == 'u' and kind == 'small': kind = 'perm'
    arr = g.build_data(shape, v['dtype'], v['seed'], kind, v['nan'])
    if v['dtype'] in ('int8',): arr = (arr % 100).astype('int8')
    x = pyg.Var(axs, values=arr.copy(), name=v['name'], atts=dict(v['atts']))
    x.units = v['units']
    vs.append(g.lazify(x, v['lazy'] if axs else 'mem')); arrs.append(arr)
  return vs, arrs, pool


BACK = {'Height': 'ZAxis', 'Index': 'NamedAxis', 'Freq': 'NamedAxis'}


def att_eq(a, b):
  if isinstance(b, str) or isinstance(a, str): return isinstance(a, str) and isinstance(b, str) and a == b
  a, b = np.asarray(a), np.asarray(b)
  return a.shape == b.shape and bool(np.all(a == b))


def check_atts(got, exp, msg, extra=(), exact=True):
  for q, x in exp.items():
    assert q in got, '%s: attribute %s lost (%s)' % (msg, q, dict(got))
    assert att_eq(got[q], x), '%s: attribute %s is %r, expected %r' % (msg, q, got[q], x)
  if exact:
    more = set(got) - set(exp) - set(extra)
    assert not more, '%s: attributes that were not there: %s' % (msg, sorted(more))


def check_axis(b, a, d, cf):
  """b was read back, a was saved (description d)."""
  k = d['k']; msg = 'axis %s (%s)' % (a.name, k)
  assert b.name == a.name, '%s: name %s' % (msg, b.name)
  assert len(b) == len(a)
  if not cf:
    if k in ('Station', 'NonCoord', 'Dummy'): return
    assert type(b).__name__ == 'NamedAxis', '%s: read as %s without conventions' % (msg, type(b).__name__)
    g.assert_eq(np.asarray(b.values), np.asarray(a.values), msg)
    return
  want = BACK.get(type(a).__name__, type(a).__name__)
  if k == 'Dummy':
    # a mere dimension
    assert 'Dim' in type(b).__name__ or type(b).__name__ == 'DummyAxis', '%s: read as %s' % (msg, type(b).__name__)
    return
  assert type(b).__name__ == want, '%s: read as %s' % (msg, type(b).__name__)
  if k in ('Station', 'NonCoord'):
    g.same_aux(b, a, msg); return
  if k in g.TIMES or k == 'Clim':
    assert b.units == a.units, '%s: units %s' % (msg, b.units)
    assert set(b.auxarrays) >= set(a.auxarrays) and ('year' in b.auxarrays) == ('year' in a.auxarrays), '%s: fields %s, expected %s' % (msg, sorted(b.auxarrays), sorted(a.auxarrays))
    for f in b.auxarrays:
      x = a.auxarrays.get(f, np.full(len(a), 1 if f in ('month', 'day') else 0))
      assert list(b.auxarrays[f]) == list(x), '%s: %s is %s, expected %s' % (msg, f, b.auxarrays[f], x)
    return
  g.assert_eq(np.asarray(b.values), np.asarray(a.values), msg)
  g.same_aux(b, a, msg)
  check_atts(b.atts, d.get('fatts', {}), msg, exact=False)


def check_raw(path, c, d, vs, arrs, pool, group=None):
  """The file seen with the plain netCDF4 module."""
  import netCDF4, cftime
  cf = c['mode'] != 'raw'
  with netCDF4.Dataset(path) as f:
    if group: f = f.groups[group]
    f.set_auto_maskandscale(False)
    used = sorted(set(q for v in d['vars'] for q in v['ax']))
    for q in used:
      a, ad = pool[q], d['pool'][q]
      dim = f.dimensions[a.name]
      assert len(dim) == len(a), 'dimension %s has length %d' % (a.name, len(dim))
      assert dim.isunlimited() == (a.name == c.get('unlname')), 'dimension %s %s unlimited' % (a.name, 'is' if dim.isunlimited() else 'is not')
      if ad['k'] in ('Dummy',) or (ad['k'] in ('Station', 'NonCoord') and cf): continue
      x = f.variables[a.name]
      assert x.dimensions == (a.name,)
      if cf and ad['k'] in g.TIMES[:3]:
        # independent reading of the times
        u = 'seconds since %s' % x.units.split(' since ')[1]
        secs = np.round(x[:]*cal.UNIT[x.units.split(' since ')[0]]).astype('i8')
        if ad['start']['year'] >= 1600:
          ts = cftime.num2date(secs, u, x.calendar)
          st = ad['start']; k = ad['k']
          s0 = cal.secs(k, (st['year'], st['month'], st['day'], st['hour'], st['minute'], st['second']))
          for t, val in zip(ts, ad['v']):
            e = cal.date(k, s0 + int(round(val*cal.UNIT[ad['units']])))
            assert (t.year, t.month, t.day, t.hour, t.minute, t.second) == tuple(e), 'time in the file %s, expected %s' % (t, e)
      if cf: assert getattr(x, 'axis', None) == {'Lat': 'Y', 'YAxis': 'Y', 'Lon': 'X', 'XAxis': 'X', 'Pres': 'Z', 'Hybrid': 'Z', 'Height': 'Z', 'ZAxis': 'Z', 'TAxis': 'T', 'Clim': 'T'}.get(ad['k'], 'T' if ad['k'] in g.TIMES else None), 'axis attribute of %s' % a.name
      if cf: assert getattr(x, 'standard_name', None) == {'Lat': 'latitude', 'Lon': 'longitude', 'Pres': 'air_pressure', 'Clim': 'time', 'Hybrid': 'atmosphere_hybrid_sigma_pressure_coordinate'}.get(ad['k'], 'time' if ad['k'] in g.TIMES else None), 'standard name of %s' % a.name
    for v, arr, vd in zip(vs, arrs, d['vars']):
      x = f.variables[v.name]
      assert x.dimensions == tuple(pool[q].name for q in vd['ax']), 'dimensions of %s: %s' % (v.name, x.dimensions)
      if packed(c, vd):
        assert x.dtype == np.int16; continue
      if c['version'] == 3 and not c['compress'] and arr.dtype == 'int64': assert x.dtype == 'float64'
      else: assert x.dtype == arr.dtype, 'type of %s in the file is %s' % (v.name, x.dtype)
      g.assert_eq(x[...], arr, 'data of %s in the file' % v.name)
      if cf and vd['units']: assert x.units == vd['units'], 'units in the file'
    if cf: assert f.Conventions.startswith('CF')


def packed(c, vd):
  return c['mode'] == 'pack' or (c['mode'] == 'pack1' and vd['name'] == 'T')


def check_back(ds, c, d, vs, arrs, pool):
  cf = c['mode'] != 'raw'
  names = set(v.name for v in vs)
  extra = set(v.name for v in ds.vars) - names
  assert names <= set(v.name for v in ds.vars), 'variables read back: %s' % [v.name for v in ds.vars]
  if cf: assert not extra, 'variables read back that were not saved: %s' % extra
  gone = {'Conventions', 'featureType'}
  check_atts(ds.atts, d['gatts'] if not c['single'] or c['mode'] == 'group' else {}, 'dataset', gone)
  for v, arr, vd in zip(vs, arrs, d['vars']):
    r = ds[v.name]
    assert len(r.axes) == len(v.axes), '%s: axes %s' % (v.name, r.axes)
    for b, a, q in zip(r.axes, v.axes, vd['ax']): check_axis(b, a, d['pool'][q], cf)
    data = r.get()
    assert data.dtype == r.dtype
    if packed(c, vd):
      ok = np.isfinite(arr)
      assert data.shape == arr.shape and np.array_equal(np.isfinite(data), ok), 'packed %s: missing values %s, expected %s' % (v.name, data, arr)
      if ok.any():
        lo, hi = float(np.min(arr[ok])), float(np.max(arr[ok]))
        tol = (hi - lo)/65534.*0.502 + 1e-6*max(abs(lo), abs(hi))
        worst = np.max(np.abs(data[ok].astype('d') - arr[ok]))
        assert worst <= tol, 'packed %s: off by %g, one step is %g' % (v.name, worst, (hi - lo)/65534.)
    else:
      if c['version'] == 3 and not c['compress'] and arr.dtype == 'int64': assert r.dtype == 'float64'
      else: assert r.dtype == arr.dtype, '%s: type %s, saved as %s' % (v.name, r.dtype, arr.dtype)
      g.assert_eq(data, arr, 'data of %s' % v.name)
    g.check_part(r, data, c['sub'], v.name, exact=True)
    exp = dict(vd['atts'])
    if cf and vd['units']:
      exp['units'] = vd['units']
      assert r.units == vd['units'], '%s: units %r' % (v.name, r.units)
    more = ['coordinates', 'ancillary_variables']
    if packed(c, vd): more.append('packing_convention')
    check_atts(r.atts, exp, v.name, more)
    assert not set(r.plotatts) & set(exp), '%s: attributes among the plot attributes: %s' % (v.name, r.plotatts)


def check(c, ctx):
  import pygeode as pyg
  from pygeode.dataset import asdataset
  from pygeode.formats import netcdf, netcdf4
  path = c.get('file', 'f') + '%d_%d.nc' % (os.getpid(), next(_n))
  built = [build(d) for d in c['ds']]
  ctx.label(c['fmt'] + ' v%d' % (4 if c['compress'] else c['version']), c['mode'], 'open ' + c['ofmt'], *[a['k'] for a in c['ds'][0]['pool']])
  ctx.nontrivial(any(a.size > 1 for _, arrs, _ in built for a in arrs))
  dss = []
  for (vs, arrs, pool), d in zip(built, c['ds']):
    if c['single'] and c['mode'] != 'group': dss.append(vs[0] if len(vs) == 1 else list(vs))
    else:
      ds = asdataset(vs); ds.atts = dict(d['gatts']); dss.append(ds)
  kw = dict(version=c['version'])
  if c['compress']: kw['compress'] = True
  if c['mode'] == 'raw': kw['cfmeta'] = False
  if c['mode'] == 'pack': kw['pack'] = True
  if c['mode'] == 'pack1': kw['pack'] = ['T']
  if c['mode'] == 'group': arg = {'g%d' % i: ds for i, ds in enumerate(dss)}
  else: arg = dss[0]
  c = dict(c)
  if c['unlim'] is not None and c['mode'] != 'group':
    used = [q for v in c['ds'][0]['vars'] for q in v['ax']]
    # classic files have one unlimited dimension, the first one of every variable that has it
    if used:
      q = used[c['unlim'] % len(used)]
      if c['version'] == 4 or c['compress'] or all(v['ax'].index(q) == 0 for v in c['ds'][0]['vars'] if q in v['ax']):
        c['unlname'] = kw['unlimited'] = built[0][2][q].name
  g.set_chunk(c['chunk'])
  try:
    pyg.save(path, arg, format=c['fmt'], **kw)
    for i, (d, (vs, arrs, pool)) in enumerate(zip(c['ds'], built)):
      check_raw(path, c, d, vs, arrs, pool, 'g%d' % i if c['mode'] == 'group' else None)
    g.set_chunk(c['ochunk'])
    okw = dict(cfmeta=False) if c['mode'] == 'raw' else {}
    r = pyg.open(path, format=c['ofmt'], **okw)
    if c['mode'] == 'group': assert sorted(r) == sorted(arg), 'groups %s' % sorted(r)
    for i, (d, (vs, arrs, pool)) in enumerate(zip(c['ds'], built)):
      check_back(r['g%d' % i] if c['mode'] == 'group' else r, c, d, vs, arrs, pool)
      # saving does not alter what is saved
      for v, arr, vd in zip(vs, arrs, d['vars']):
        assert dict(v.atts) == vd['atts'] and v.units == vd['units'], 'saving changed attributes of %s: %s' % (v.name, v.atts)
  finally:
    if os.path.exists(path): os.unlink(path)


TESTS = [Test('roundtrip', case(), check, quick=3000)]
