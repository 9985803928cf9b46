"""P19: what files mean, and many files as one."""
import os, itertools
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import cal

RULE = ('A case is a netCDF file written with the netCDF4 library (dimensions of every recognisable kind, times in any calendar and unit, packed and filled data, auxiliary coordinates) and a set of options to open it with, '
        'or a set of such files that divide one dataset, with possibly something wrong in one of them. Non-trivial: some variable has at least two elements (divided data: at least two files). Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['pressure coordinates are in hPa (mbar)', 'time units are seconds, minutes, hours or days since a date in UTC', 'files opened with one file per date have equal steps, or one step each',
               'a time axis that starts in year 0 stays within that year (a climatology)', 'the values put in place of others are the ones the file would have stored']

_n = itertools.count()
CALATT = dict(StandardTime=['standard', 'gregorian', 'proleptic_gregorian', None], ModelTime365=['365_day', 'noleap'], ModelTime360=['360_day'], Yearless=['none'])
GEN = ['long_name', 'comment', 'valid_min', 'positive', 'n']


@st.composite
def gatts(draw, names=('comment', 'n', 'history')):
  return draw(st.dictionaries(st.sampled_from(list(names)), st.sampled_from(['abc', 'x y', 'größe 東', '', 3, 2.5, [1, 2, 3]]), max_size=2))


@st.composite
def tdim(draw, n, name='time', order=None):
  k = draw(st.sampled_from(cal.CALS))
  s = draw(cal.series(k=k, sizes=(n,), order=order))
  n = len(s['secs'])                          # dates that coincide are dropped
  u = s['units']
  base = [s['start'].get(f, d) for f, d in zip(cal.F, (0, 1, 1, 0, 0, 0))]
  clim = k != 'Yearless' and draw(st.integers(0, 6)) == 0
  if clim:
    S = sorted(set(draw(st.lists(st.integers(0, 359), min_size=n, max_size=n))))
    base = [0, 1, 1, 0, 0, 0]
    S = [cal.secs(k, base) + q*86400 for q in S]
    s = dict(v=[(x - cal.secs(k, base))/cal.UNIT[u] for x in S], secs=S)
  # the unit string, in any of the usual notations
  y, m, d, H, M, Sx = base
  f = draw(st.sampled_from(['%04d-%02d-%02d', '%d-%d-%d', '%04d-%d-%02d'])) % (y, m, d)
  sep = draw(st.sampled_from([' ', ' ', 'T', '  ']))
  hms = ['', '%d' % H, '%02d:%02d' % (H, M), '%02d:%02d:%02d' % (H, M, Sx), '%d:%d:%d' % (H, M, Sx), '%02d:%02d:%02d.0' % (H, M, Sx)]
  need = 3 if Sx else 2 if M else 1 if H else 0
  t = draw(st.sampled_from(hms[need:]))
  us = f + (sep + t if t else '') + (draw(st.sampled_from(['', '', ' UTC', 'Z', ' 0:00'])) if t.count(':') == 2 else '')
  word = u if draw(st.integers(0, 3)) or name != 'time' else draw(st.sampled_from([u[:-1], u.capitalize()]))
  v = s['v']
  dt = draw(st.sampled_from(['f8', 'f8', 'i4', 'i8', 'f4']))
  if dt[0] == 'i' and any(x != int(x) or abs(x) > 2e9 for x in v): dt = 'f8'
  if dt == 'f4' and any(float(np.float32(x)) != x for x in v): dt = 'f8'
  at = {'units': '%s since %s' % (word, us)}
  ca = draw(st.sampled_from(CALATT[k]))
  if ca: at['calendar'] = ca
  if draw(st.booleans()): at['standard_name'] = 'time'
  if draw(st.booleans()): at['axis'] = 'T'
  return dict(role='time', name=name, v=list(v), dtype=dt, atts=at, k=k, secs=s['secs'], clim=clim, u=u)


@st.composite
def dim(draw, role):
  n = draw(st.sampled_from([1, 2, 3, 4, 6]))
  if role == 'time': return draw(tdim(n, draw(st.sampled_from(['time', 'time', 't', 'T2']))))
  v = draw(g.coord_values(n)); dt = draw(st.sampled_from(['f8', 'f8', 'f4', 'i4']))
  if dt == 'i4': v = [int(round(x*16)) for x in v]
  at = draw(gatts(('comment', 'n', 'history')))
  d = dict(role=role, name=role, v=v, dtype=dt, cls='NamedAxis')
  if role in ('lat', 'lon'):
    full = dict(lat='latitude', lon='longitude')[role]
    how = draw(st.sampled_from(['std', 'std', 'units', 'long', 'name', 'STD']))
    d['name'] = full if how == 'name' else draw(st.sampled_from([role, 'q' + role, full[:5]]))
    if how == 'std': at['standard_name'] = full
    if how == 'STD': at['standard_name'] = full.capitalize(); at['long_name'] = 'position'
    if how == 'units': at['units'] = 'degrees_' + dict(lat='north', lon='east')[role]
    if how == 'long': at['long_name'] = full.capitalize()
    if draw(st.booleans()): at['axis'] = dict(lat='Y', lon='X')[role]
    d['cls'] = role.capitalize()
  elif role == 'pres':
    if draw(st.booleans()): at['standard_name'] = 'air_pressure'
    if 'standard_name' not in at or draw(st.booleans()): at['units'] = draw(st.sampled_from(['hPa', 'mbar']))
    if draw(st.booleans()): at['positive'] = 'down'
    if draw(st.booleans()): at['axis'] = 'Z'
    d['name'] = draw(st.sampled_from(['plev', 'level', 'pres'])); d['cls'] = 'Pres'
  elif role in ('X', 'Y', 'Z', 'T'):
    at['axis'] = role; d['cls'] = role + 'Axis'; d['name'] = 'ax' + role.lower()
    if draw(st.booleans()): at['units'] = draw(st.sampled_from(['m', '1', 'days']))
  elif role == 'gen':
    d['name'] = draw(st.sampled_from(['member', 'q', 'wave']))
    if draw(st.booleans()): at['units'] = 'm'
    if draw(st.booleans()): at['long_name'] = 'a name'
    if draw(st.booleans()): d['aux'] = {'code': draw(st.permutations(list(range(len(v)))))}
  elif role == 'hybrid':
    at['standard_name'] = 'atmosphere_hybrid_sigma_pressure_coordinate'
    d['aux'] = {'A': [2.*i for i in range(len(v))], 'B': [i/8. for i in range(len(v))]}; d['cls'] = 'Hybrid'; d['name'] = 'eta'
    if draw(st.booleans()): at['axis'] = 'Z'
  elif role == 'none':
    d['name'] = 'site'; d['cls'] = 'NCDim'
    if draw(st.booleans()):
      d['cls'] = 'NonCoordinateAxis'; d['dep'] = {'xlat': draw(st.permutations(list(range(len(v)))))}
      if draw(st.booleans()): d['dep']['stn'] = [i*i for i in range(len(v))]
  if d.get('aux'):
    pre = draw(st.booleans())
    d['auxname'] = {q: d['name'] + '_' + q if pre else q for q in d['aux']}
    at['ancillary_variables'] = ' '.join(d['auxname'].values())
  d['atts'] = at
  return d


ROLES = [['lat', 'Y'], ['lon', 'X'], ['pres', 'hybrid', 'Z'], ['gen'], ['none'], ['time', 'time', 'time', 'T']]
DT = ['f8', 'f4', 'i1', 'i2', 'i4', 'i2']


@st.composite
def dvar(draw, name, dims):
  order = list(draw(st.permutations(list(range(len(dims))))))
  m = draw(st.integers(1, len(order)))
  v = dict(name=name, ax=order[:m], dtype=draw(st.sampled_from(DT)), seed=draw(g.data_seed), atts=draw(gatts(('long_name', 'comment', 'units'))), fills={})
  if 'units' in v['atts']: v['atts']['units'] = 'K'
  if draw(st.booleans()):
    for f in draw(st.lists(st.sampled_from(['FillValue', '_FillValue', 'missing_value']), max_size=3, unique=True)):
      v['fills'][f] = draw(st.sampled_from([0, 1, 3, 5, -99])) if f == '_FillValue' or draw(st.integers(0, 3)) else [2, 4]
    if not v['fills'] and draw(st.integers(0, 3)) == 0: v['atts']['missing_value'] = 'none'
  if draw(st.booleans()):
    v['scale'] = draw(st.sampled_from([0.5, 0.01, 2, -3.5, 1e-6]))
  if draw(st.integers(0, 2)) == 0: v['offset'] = draw(st.sampled_from([0, 273.15, -5, 1e5]))
  return v


@st.composite
def case(draw):
  rs = draw(st.lists(st.sampled_from(list(range(len(ROLES)))), min_size=1, max_size=4, unique=True))
  dims = [draw(dim(draw(st.sampled_from(ROLES[q])))) for q in rs]
  vs = [draw(dvar(n, dims)) for n in ['T', 'u_wind', 'Q2'][:draw(st.sampled_from([1, 1, 2, 3]))]]
  for i, d in enumerate(dims):
    if d.get('dep') and not any(i in v['ax'] for v in vs): vs[0]['ax'].append(i)
  opts = draw(st.lists(st.sampled_from(['override', 'dimtypes', 'namemap', 'varlist', 'raw']), max_size=2, unique=True))
  return dict(dims=dims, vars=vs, gatts=draw(gatts()), strs=draw(st.integers(0, 2)) == 0, fmt=draw(st.sampled_from(['NETCDF3_CLASSIC', 'NETCDF4', 'NETCDF3_64BIT_OFFSET', 'NETCDF4_CLASSIC'])), lib=draw(st.sampled_from(['netcdf', 'netcdf4'])),
              opts=opts, pick=draw(st.integers(0, 11)), how=draw(st.sampled_from(['class', 'inst', 'tuple', 'tuple2', 'func'])), unlim=draw(st.integers(-3, 3)), sub=draw(g.subspec()), chunk=draw(st.sampled_from(g.MAXSIZES)), first=draw(st.booleans()), d2=draw(st.booleans()))


def raw(v, dims):
  shape = tuple(len(dims[q]['v']) for q in v['ax'])
  return np.random.RandomState(v['seed'] % 2**31).randint(-6 if v['seed'] % 2 else 0, 7, shape).astype(v['dtype'])


def decode(v, a):
  """The meaning of stored data a, in double precision, and its type."""
  fl = [q for f in v['fills'].values() for q in np.ravel(f)]
  r = a.astype('f8')
  if not fl and 'scale' not in v and 'offset' not in v: return a, a.dtype
  if 'scale' in v: r = r*v['scale']
  if 'offset' in v: r = r + v['offset']
  r[np.isin(a, np.array(fl, 'f8'))] = np.nan
  return r, np.result_type(a.dtype, 'f4')


def write(path, dims, vs, arrs, gat, fmt='NETCDF4', unlim=None, first=True, d2=False, strs=False):
  import netCDF4
  with netCDF4.Dataset(path, 'w', format=fmt) as f:
    for i, d in enumerate(dims): f.createDimension(d['name'], None if i == unlim else len(d['v']))
    def att(x, q, y):
      # text can be stored as characters or as a string; both occur
      if isinstance(y, str) and strs and fmt == 'NETCDF4': x.setncattr_string(q, y)
      else: x.setncattr(q, y)
    def coords():
      for d in dims:
        if d['role'] == 'none': continue
        dt = d['dtype'] if not (d['dtype'] == 'i8' and fmt != 'NETCDF4') else 'f8'
        x = f.createVariable(d['name'], dt, (d['name'],)); x[:] = np.array(d['v'])
        for q, y in d['atts'].items(): att(x, q, y)
    def data():
      for v, a in zip(vs, arrs):
        x = f.createVariable(v['name'], v['dtype'], tuple(dims[q]['name'] for q in v['ax']), fill_value=v['fills'].get('_FillValue'))
        x.set_auto_maskandscale(False)
        for q, y in v['atts'].items(): att(x, q, y)
        for q, y in v['fills'].items():
          if q != '_FillValue': x.setncattr(q, np.array(y, v['dtype']))
        if 'scale' in v: x.scale_factor = float(v['scale'])
        if 'offset' in v: x.add_offset = float(v['offset'])
        dep = [q for i in v['ax'] for q in dims[i].get('dep', {})]
        if dep: x.coordinates = ' '.join(dep + (['c2d'] if d2 else []))
        x[...] = a
      for d in dims:
        for q, y in d.get('aux', {}).items():
          x = f.createVariable(d['auxname'][q], 'f8' if d['role'] == 'hybrid' else 'i4', (d['name'],)); x[:] = y
        for q, y in d.get('dep', {}).items():
          x = f.createVariable(q, 'i4', (d['name'],)); x[:] = y
      if d2:
        x = f.createVariable('c2d', 'f8', tuple(d['name'] for d in dims)); x[...] = np.arange(np.prod([len(d['v']) for d in dims])).reshape([len(d['v']) for d in dims])
    if first: coords(); data()
    else: data(); coords()
    for q, y in gat.items(): att(f, q, y)


def check_dim(b, d, msg=''):
  msg += 'dimension %s (%s %s): ' % (d['name'], d['role'], d['atts'] if 'atts' in d else '')
  assert len(b) == len(d['v']), msg + 'length %d' % len(b)
  if d['role'] == 'time':
    assert type(b).__name__ == d['k'], msg + 'read as %s' % type(b).__name__
    assert b.units == d['u'], msg + 'units %s' % b.units
    exp = [cal.date(d['k'], s) for s in d['secs']]
    fs = [f for f in cal.fields(d['k']) if not (d['clim'] and f == 'year')]
    assert ('year' in b.auxarrays) == ('year' in fs), msg + 'fields %s' % sorted(b.auxarrays)
    for f in fs:
      g.assert_eq(b.auxarrays[f] if f in b.auxarrays or not d.get('short') else np.zeros(len(b), int), [t[cal.F.index(f)] for t in exp], msg + f)
    return
  assert type(b).__name__ == d['cls'], msg + 'read as %s' % type(b).__name__
  if d['role'] == 'none':
    for q, y in d.get('dep', {}).items(): g.assert_eq(np.asarray(b.auxarrays[q]), np.array(y), msg + q)
    return
  g.assert_eq(np.asarray(b.values), np.array(d['v'], d['dtype']), msg)
  for q, y in d.get('aux', {}).items(): g.assert_eq(np.asarray(b.auxarrays[q]), np.array(y), msg + q)
  for q, y in d['atts'].items():
    if q in ('comment', 'n', 'history') or (q in ('units', 'long_name') and d['role'] in 'XYZT gen'.split()):
      assert q in b.atts and np.all(b.atts[q] == y), msg + 'attribute %s is %r' % (q, b.atts.get(q))


def check(c, ctx):
  import pygeode as pyg
  from pygeode import axis as axm
  dims, vs = c['dims'], c['vars']
  path = 'p%d_%d.nc' % (os.getpid(), next(_n))
  arrs = [raw(v, dims) for v in vs]
  d2 = c['d2'] and len(dims) >= 2
  ctx.label(c['lib'], c['fmt'], *(c['opts'] + [d['role'] for d in dims])); ctx.nontrivial(any(a.size > 1 for a in arrs))
  g.set_chunk(c['chunk'])
  kw = {}; names = {}; only = None; cls = {}
  eff = [dict(d) for d in dims]          # what is expected of the dimensions
  keep = {}
  rawmode = 'raw' in c['opts']
  used = sorted(set(q for v in vs for q in v['ax']))
  try:
    write(path, dims, vs, arrs, c['gatts'], c['fmt'], c['unlim'] if 0 <= c['unlim'] < len(dims) and (c['fmt'].startswith('NETCDF4') and 'CLASSIC' not in c['fmt']) else None, c['first'], d2, c['strs'])
    if rawmode: kw['cfmeta'] = False
    if 'varlist' in c['opts']:
      only = [v['name'] for v in vs][::-1][:1 + c['pick'] % len(vs)]
      kw['varlist'] = only
      used = sorted(set(q for v in vs if v['name'] in only for q in v['ax']))
    if 'override' in c['opts']:
      i = used[c['pick'] % len(used)]; d = eff[i]
      if d['role'] in ('time', 'none'):
        v = vs[0]
        if not v['fills'] and 'scale' not in v and 'offset' not in v:
          arrs[0] = arrs[0][::-1] + 1
          kw['value_override'] = {v['name']: arrs[0].copy() if c['pick'] % 2 else arrs[0].tolist()}
          if not c['pick'] % 2: arrs[0] = np.asarray(arrs[0].tolist())
      else:
        d['v'] = [x + 0.5 for x in d['v']]; d['dtype'] = 'f8'
        kw['value_override'] = {d['name']: d['v']}
    if 'dimtypes' in c['opts']:
      i = used[(c['pick'] + 1) % len(used)]; d = eff[i]
      if not d.get('dep') and not d.get('aux') and not (d['role'] == 'none' and c['how'] in ('class', 'tuple')) and not ('override' in c['opts'] and d['v'] is not dims[i]['v']):
        n = len(d['v'])
        H = axm.Height if not any(q['role'] == 'Z' for q in dims) else axm.Freq     # of no related kind
        if c['how'] == 'class': t = H; exp = dict(name=d['name'], cls=H, v=d['v'])
        elif c['how'] == 'inst': t = H(np.arange(n)*3., name='hgt'); exp = dict(name='hgt', cls=H, v=np.arange(n)*3.)
        elif c['how'] == 'tuple': t = (H, dict(name='zz')); exp = dict(name='zz', cls=H, v=d['v'])
        elif c['how'] == 'tuple2' and not any(q['role'] in ('time', 'T') for j, q in enumerate(dims) if j != i): t = [pyg.ModelTime365, dict(values=np.arange(n), units='hours', startdate=dict(year=7), name='tt')]; exp = dict(name='tt', cls=pyg.ModelTime365, v=np.arange(n))
        else: t = lambda a: H(np.arange(len(a)) + 2., name='f'); exp = dict(name='f', cls=H, v=np.arange(n) + 2.)
        kw['dimtypes'] = {d['name']: t}; keep[i] = exp
    if 'namemap' in c['opts']:
      nm = {}
      for v in vs:
        if (c['pick'] + len(v['name'])) % 3 and (only is None or v['name'] in only): nm[v['name']] = names[v['name']] = 'new_' + v['name']
      for i in used:
        if (c['pick'] + i) % 2 and i not in keep: nm[eff[i]['name']] = eff[i]['name'] = 'new_' + eff[i]['name']
      kw['namemap'] = nm
    before = repr(kw) if 'dimtypes' not in kw else None
    ds = pyg.open(path, format=c['lib'], **kw)
    assert before is None or repr(kw) == before, 'the options were modified: %s' % kw
    want = [names.get(v['name'], v['name']) for v in vs if only is None or v['name'] in only]
    if only is not None: want = [names.get(q, q) for q in only]
    gotn = [v.name for v in ds.vars]
    if only is not None: assert gotn == want, 'variables %s, expected %s' % (gotn, want)
    else:
      more = ['c2d'] if d2 else []
      if rawmode: more += [q for d in dims for q in list(d.get('auxname', {}).values()) + list(d.get('dep', {}))]
      assert sorted(gotn) == sorted(want + more) and [q for q in gotn if q in want] == want, 'variables %s, expected %s' % (gotn, want + more)
    for q, y in c['gatts'].items(): assert q in ds.atts and np.all(ds.atts[q] == y), 'global attribute %s is %r' % (q, ds.atts.get(q))
    for v, a in zip(vs, arrs):
      if only is not None and v['name'] not in only: continue
      r = ds[names.get(v['name'], v['name'])]
      assert len(r.axes) == len(v['ax']), '%s: axes %s' % (v['name'], r.axes)
      for b, q in zip(r.axes, v['ax']):
        if q in keep:
          e = keep[q]
          assert b.name == e['name'] and type(b) is e['cls'], 'dimension %s given as %s is %r' % (dims[q]['name'], c['how'], b)
          g.assert_eq(np.asarray(b.values, 'd'), np.asarray(e['v'], 'd'), 'dimension %s given as %s' % (dims[q]['name'], c['how']))
          continue
        assert b.name == eff[q]['name'], 'dimension is called %s, expected %s' % (b.name, eff[q]['name'])
        if rawmode:
          assert len(b) == len(eff[q]['v'])
          if dims[q]['role'] == 'none': continue
          assert type(b).__name__ == 'NamedAxis', 'without conventions %s is read as %s' % (b.name, type(b).__name__)
          dt = eff[q]['dtype'] if eff[q]['dtype'] != 'i8' or c['fmt'] == 'NETCDF4' else 'f8'
          g.assert_eq(np.asarray(b.values), np.array(eff[q]['v'], dt), 'without conventions')
          for k2, y in dims[q]['atts'].items(): assert k2 in b.atts and np.all(b.atts[k2] == y), 'without conventions: attribute %s is %r' % (k2, b.atts.get(k2))
        else: check_dim(b, eff[q])
      full = r.get()
      assert full.dtype == r.dtype, 'announced %s, data %s' % (r.dtype, full.dtype)
      if rawmode:
        g.assert_eq(full, a, 'without conventions'); exact = True
        for q in ('scale', 'offset'):
          if q in v: assert r.atts[dict(scale='scale_factor', offset='add_offset')[q]] == v[q]
      else:
        e, dt = decode(v, a)
        assert r.dtype == dt, '%s: type %s, expected %s' % (v['name'], r.dtype, dt)
        tol = 1e-12 if dt == 'f8' else 3e-7
        g.assert_close(full.astype('d'), e, tol, tol*(abs(v.get('offset', 0)) + 10*abs(v.get('scale', 1))), 'data of %s (fill %s scale %s offset %s)' % (v['name'], v['fills'], v.get('scale'), v.get('offset')))
        for q in ('scale_factor', 'add_offset', '_FillValue', 'FillValue'): assert q not in r.atts, 'attribute %s kept' % q
      for q, y in v['atts'].items():
        if q == 'missing_value': continue
        assert q in r.atts and np.all(r.atts[q] == y), '%s: attribute %s is %r, expected %r' % (v['name'], q, r.atts.get(q), y)
      if not rawmode and 'units' in v['atts']: assert r.units == v['atts']['units']
      g.check_part(r, full, c['sub'], v['name'], exact=True)
  finally:
    if os.path.exists(path): os.unlink(path)


# ---- many files

def cut(draw, n, m):
  """m non-empty pieces of range(n)"""
  b = sorted(draw(st.lists(st.integers(1, n-1), min_size=m-1, max_size=m-1, unique=True))) if m > 1 else []
  return [list(range(i, j)) for i, j in zip([0] + b, b + [n])]


@st.composite
def acase(draw):
  n = draw(st.sampled_from([2, 3, 5, 8]))
  t = draw(tdim(n, order='asc')); n = len(t['secs'])
  others = []
  if draw(st.booleans()): others.append(draw(dim(draw(st.sampled_from(['lat', 'Y'])))))
  if draw(st.booleans()): others.append(draw(dim(draw(st.sampled_from(['gen', 'pres', 'lon'])))))
  dims = [t] + others
  along = 0 if draw(st.integers(0, 3)) or not others or len(others[0]['v']) < 2 else 1
  n = len(dims[along]['v'])
  pieces = cut(draw, n, draw(st.integers(1, min(4, n)))) if n > 1 else [[0]]
  if draw(st.booleans()): pieces = list(draw(st.permutations(pieces)))
  vs = []
  for nm in ['T', 'u_wind'][:draw(st.sampled_from([1, 2]))]:
    v = draw(dvar(nm, dims))
    if along not in v['ax']: v['ax'].insert(0, along)
    if v['fills'].get('_FillValue') is None: pass
    vs.append(v)
  return dict(dims=dims, vars=vs, along=along, pieces=pieces, base=[draw(st.sampled_from(['same', 'own', 'unit'])) for _ in pieces], names=draw(st.permutations(list(range(len(pieces))))), sorted=draw(st.sampled_from([None, True, True, False])),
              glob=draw(st.booleans()), lib=draw(st.sampled_from(['netcdf', 'netcdf4'])), extra=draw(st.booleans()), gatts=draw(gatts()), strs=draw(st.integers(0, 3)) == 0, gdiff=draw(st.booleans()), sub=draw(g.subspec()), chunk=draw(st.sampled_from(g.MAXSIZES)), opener=draw(st.booleans()))


def piece(d, pos, how):
  """The part of a dimension at pos, times possibly from their own start date or in their own unit."""
  d = dict(d, v=[d['v'][q] for q in pos])
  for q in ('aux', 'dep'):
    if q in d: d[q] = {w: [x[p] for p in pos] for w, x in d[q].items()}
  if d['role'] == 'time':
    d['secs'] = [d['secs'][q] for q in pos]
    if how != 'same' and not d['clim']:
      k = d['k']; base = list(cal.date(k, d['secs'][0])); base[3:] = [0, 0, 0]
      u = d['u'] if how == 'own' else {'days': 'hours', 'hours': 'minutes', 'minutes': 'days', 'seconds': 'hours'}[d['u']]
      d['u'] = u; d['v'] = [(s - cal.secs(k, base))/cal.UNIT[u] for s in d['secs']]; d['dtype'] = 'f8'
      d['atts'] = dict(d['atts'], units='%s since %04d-%02d-%02d' % (u, base[0], base[1], base[2]))
  return d


def acheck(c, ctx):
  import pygeode as pyg
  dims, vs = c['dims'], c['vars']
  ax = c['along']
  stem = 'a%d_%d_' % (os.getpid(), next(_n))
  arrs = [raw(v, dims) for v in vs]
  ctx.label('sorted %s' % c['sorted'], '%d files' % len(c['pieces']), 'along ' + dims[ax]['role'], *c['base']); ctx.nontrivial(len(c['pieces']) > 1)
  g.set_chunk(c['chunk'])
  files = []
  try:
    for i, (pos, how, nm) in enumerate(zip(c['pieces'], c['base'], c['names'])):
      dd = [piece(d, pos, how) if q == ax else d for q, d in enumerate(dims)]
      f = stem + '%d.nc' % nm
      files.append(f)
      gat = dict(c['gatts'])
      if c['gdiff']: gat['piece'] = i
      write(f, dd, vs, [np.take(a, pos, v['ax'].index(ax)) for v, a in zip(vs, arrs)], gat, strs=c['strs'])
    # (axes that differ before they are sorted are given different names)
    ordered = [q for _, p in sorted(zip(files, c['pieces'])) for q in p] if c['sorted'] is not False else [q for p in c['pieces'] for q in p]
    c = dict(c, extra=c['extra'] and ordered == list(range(len(ordered))))
    if c['extra']:
      f = stem + 'x.nc'; files.append(f)
      ev = dict(name='orog', ax=list(range(len(dims)))[::-1], dtype='f4', seed=3, atts={}, fills={})
      write(f, dims, [ev], [raw(ev, dims)], c['gatts'])
    srt = c['sorted'] is not False
    kw = {} if c['sorted'] is None else dict(sorted=c['sorted'])
    arg = stem + '*.nc' if c['glob'] and srt else files[0] if len(files) == 1 else list(files)
    if c['opener']: kw['opener'] = lambda fn: pyg.open(fn, format=c['lib'])
    elif c['lib'] == 'netcdf': kw['format'] = 'netcdf'
    ds = pyg.openall(arg, **kw)
    full = [list(range(len(d['v']))) for d in dims]
    full[ax] = [q for p in c['pieces'] for q in p]
    if srt:
      for q, d in enumerate(dims):
        key = d['secs'] if d['role'] == 'time' else d['v']
        full[q] = sorted(range(len(d['v'])), key=lambda i: key[i], reverse=d.get('cls') in ('Pres', 'Hybrid'))     # the natural order
    assert sorted(v.name for v in ds.vars) == sorted([v['name'] for v in vs] + ['orog']*c['extra']), 'variables %s' % ds.vars
    for q, y in c['gatts'].items(): assert q in ds.atts and np.all(ds.atts[q] == y), 'global attribute %s is %r' % (q, ds.atts.get(q))
    if c['gdiff'] and len(c['pieces']) > 1: assert 'piece' not in ds.atts, 'global attribute on which the files differ is %r' % ds.atts['piece']
    for v, a in zip(vs + ([ev] if c['extra'] else []), arrs + ([raw(ev, dims)] if c['extra'] else [])):
      r = ds[v['name']]
      pos = [list(full[q]) for q in v['ax']]
      if v['name'] == 'orog' and not srt: pos = [list(range(len(dims[q]['v']))) for q in v['ax']]
      exp, dt = decode(v, a[np.ix_(*pos)])
      assert [b.name for b in r.axes] == [dims[q]['name'] for q in v['ax']], '%s: axes %s' % (v['name'], r.axes)
      for b, q, p in zip(r.axes, v['ax'], pos):
        d = piece(dims[q], p, 'same')
        if d['role'] == 'time': d['u'] = b.units
        check_dim(b, d, '%s: ' % v['name'])
      assert r.dtype == dt, '%s: type %s, expected %s' % (v['name'], r.dtype, dt)
      data = r.get()
      assert data.dtype == r.dtype
      tol = 1e-12 if dt == 'f8' else 3e-7
      g.assert_close(data.astype('d'), exp.astype('d'), tol, tol*(abs(v.get('offset', 0)) + 10*abs(v.get('scale', 1))), 'data of %s' % v['name'])
      g.check_part(r, data, c['sub'], v['name'], exact=True)
  finally:
    for f in files:
      if os.path.exists(f): os.unlink(f)


# ---- one file per date

@st.composite
def mcase(draw):
  k = draw(st.sampled_from(cal.CALS[:3]))
  mode = draw(st.sampled_from(['steps', 'steps', 'one', 'none']))
  m = draw(st.sampled_from([1, 2, 3, 4]))
  hourly = draw(st.booleans())           # hours in the names
  start = draw(cal.moment(k, 1900, 2100, sub=False))
  s0 = cal.secs(k, start)
  res = 3600 if hourly else 86400
  step = draw(st.sampled_from([1, 2, 3, 6] if hourly else [6, 12, 24, 48, 120]))*3600
  off = draw(st.sampled_from([0, 0, res//2, res//4]))
  if mode == 'steps' and off >= step: off = 0     # (every time lies between the date of its file and that of the next)
  files = []
  if mode == 'steps':
    # the files start at a date of the resolution of the names, at most one offset before their first time
    if hourly: per = [draw(st.integers(2, 5)) for _ in range(m)]; unit = 1
    else: unit = max(1, 86400//step); per = [unit*draw(st.integers(1 if unit > 1 else 2, 4)) for _ in range(m)]
    t = s0
    for q in per:
      files.append(dict(date=list(cal.date(k, t)), secs=[t + off + i*step for i in range(q)])); t += q*step
  else:
    t = s0
    for i in range(m):
      files.append(dict(date=list(cal.date(k, t)), secs=[t + (off if mode == 'one' else 0)])); t += res*draw(st.integers(1, 40 if draw(st.booleans()) else 1))
  dims = []
  if draw(st.booleans()): dims.append(draw(dim(draw(st.sampled_from(['lat', 'Y', 'lon', 'gen'])))))
  if draw(st.booleans()): dims.append(draw(dim(draw(st.sampled_from(['pres', 'none'])))))
  if mode == 'none' and not dims: dims.append(draw(dim('lat')))
  for d in dims: d.pop('dep', None); d['cls'] = 'NCDim' if d['role'] == 'none' else d['cls']
  tpos = draw(st.integers(0, len(dims)))
  vs = []
  for nm in ['T', 'u_wind'][:draw(st.sampled_from([1, 2]))]:
    v = draw(dvar(nm, dims)) if dims else dict(name=nm, ax=[], dtype=draw(st.sampled_from(DT)), seed=draw(g.data_seed), atts={}, fills={})
    v['tpos'] = draw(st.integers(0, len(v['ax']))) if mode != 'none' else 0
    vs.append(v)
  return dict(k=k, mode=mode, hourly=hourly, files=files, dims=dims, vars=vs, units=draw(st.sampled_from(['days', 'hours', 'minutes', 'seconds'])), own=draw(st.booleans()), order=draw(st.permutations(list(range(m)))), how=draw(st.sampled_from(['pattern', 'regex', 'func'])),
              lib=draw(st.sampled_from(['netcdf', 'netcdf4'])), gatts=draw(gatts()), sub=draw(g.subspec()), chunk=draw(st.sampled_from(g.MAXSIZES)), opener=draw(st.booleans()), cal=draw(st.sampled_from(CALATT[k])), damage=draw(st.sampled_from([None, 'none', 'lost', 'short', 'early', 'novar', 'newvar', 'broken'])), dpick=draw(st.integers(0, 20)))


def mcheck(c, ctx):
  import pygeode as pyg, re
  k, dims, vs = c['k'], c['dims'], c['vars']
  stem = 'm%d_%d_' % (os.getpid(), next(_n))
  if c['mode'] == 'none' and k != 'StandardTime': k = 'StandardTime'; good = all(1 <= f['date'][2] <= cal.mlen(k, f['date'][0], f['date'][1]) for f in c['files'])
  else: good = True
  if not good: return
  secs = [cal.secs(k, f['date']) for f in c['files']] if c['mode'] == 'none' else [s for f in c['files'] for s in f['secs']]
  n = len(secs)
  td = dict(role='time', name='time', v=[0]*n, secs=secs, k=k, clim=False, u=None, short=True)
  alld = dims + [td]
  full = []
  for v in vs:
    w = dict(v, ax=list(v['ax'])); w['ax'].insert(v['tpos'], len(dims)); full.append(w)
  arrs = [raw(w, alld) for w in full]
  ctx.label(c['mode'], '%d files' % len(c['files']), k, 'hourly' if c['hourly'] else 'daily', c['how']); ctx.nontrivial(len(c['files']) > 1)
  g.set_chunk(c['chunk'])
  paths = []
  try:
    p = 0
    for f in c['files']:
      q = len(f['secs']); pos = list(range(p, p + q)); p += q
      y, m, d, H = f['date'][:4]
      fn = stem + ('%04d%02d%02d' % (y, m, d) + ('_%02d' % H if c['hourly'] else '') + '.nc'); paths.append(fn)
      parts = [np.take(a, pos, w['ax'].index(len(dims))) for w, a in zip(full, arrs)]
      if c['mode'] == 'none':
        write(fn, dims, vs, [np.squeeze(a, 0) for a in parts], c['gatts'])
      else:
        base = f['date'] if c['own'] else c['files'][0]['date']
        b0 = cal.secs(k, base); at = {'units': '%s since %04d-%02d-%02d %02d:00' % (c['units'], base[0], base[1], base[2], base[3])}
        if c['cal']: at['calendar'] = c['cal']
        t = dict(role='time', name='time', v=[(s - b0)/cal.UNIT[c['units']] for s in f['secs']], dtype='f8', atts=at)
        write(fn, dims + [t], full, parts, c['gatts'])
    kw = {}
    if c['how'] == 'pattern': kw['pattern'] = r'%s$Y$m$d%s\.nc' % (stem, '_$H' if c['hourly'] else '')
    elif c['how'] == 'regex': kw['pattern'] = r'(?P<year>\d\d\d\d)(?P<month>\d\d)(?P<day>\d\d)%s\.nc$' % (r'_(?P<hour>\d+)' if c['hourly'] else '')
    else:
      rx = re.compile(stem + r'(....)(..)(..)_?(..)?\.nc')
      kw['file2date'] = lambda fn: dict(zip(['year', 'month', 'day', 'hour'], [int(q or 0) for q in rx.search(fn).groups()]))
    if c['opener']: kw['opener'] = lambda fn: pyg.open(fn, format=c['lib'])
    else: kw['format'] = c['lib']
    files = [paths[q] for q in c['order']]
    ds = pyg.open_multi(files if len(files) > 1 or c['hourly'] else stem + '*.nc', **kw)
    assert [v.name for v in ds.vars] == [v['name'] for v in vs], 'variables %s' % ds.vars
    for q, y in c['gatts'].items(): assert q in ds.atts and np.all(ds.atts[q] == y), 'global attribute %s is %r' % (q, ds.atts.get(q))
    if len(files) == 1 and c['mode'] == 'none': return     # the file as it is
    for v, w, a in zip(vs, full, arrs):
      r = ds[v['name']]
      exp, dt = decode(v, a)
      assert [b.name for b in r.axes] == [alld[q]['name'] for q in w['ax']], '%s: axes %s' % (v['name'], r.axes)
      for b, q in zip(r.axes, w['ax']): check_dim(b, dict(alld[q], u=getattr(b, 'units', None)) if alld[q] is td else alld[q], '%s: ' % v['name'])
      assert r.dtype == dt, '%s: type %s, expected %s' % (v['name'], r.dtype, dt)
      data = r.get()
      assert data.dtype == r.dtype, 'announced %s, data %s' % (r.dtype, data.dtype)
      tol = 1e-12 if dt == 'f8' else 3e-7
      g.assert_close(data.astype('d'), exp.astype('d'), tol, tol*(abs(v.get('offset', 0)) + 10*abs(v.get('scale', 1))), 'data of %s' % v['name'])
      for q, y in v['atts'].items():
        if q != 'missing_value': assert q in r.atts and np.all(r.atts[q] == y), '%s: attribute %s is %r, expected %r' % (v['name'], q, r.atts.get(q), y)
      g.check_part(r, data, c['sub'], v['name'], exact=True)
    if c['mode'] == 'steps' and len(files) > 1 and c.get('damage'): integrity(c, ctx, stem, paths, full, files, kw, dims)
  finally:
    for f in paths:
      if os.path.exists(f): os.unlink(f)


def scan(*args, **kw):
  ''' What the integrity check finds: is everything fine? '''
  import io, contextlib
  from pygeode.formats.multifile import check_multi
  out = io.StringIO()
  with contextlib.redirect_stdout(out): check_multi(*args, **kw)
  out = out.getvalue()
  assert ('completed without any errors' in out) != ('errors occurred' in out), out
  return 'completed without any errors' in out, out


def integrity(c, ctx, stem, paths, full, files, kw, dims):
  ''' A complete collection passes the integrity check; one with something wrong in it does not. '''
  import netCDF4
  ok, out = scan(list(files), **kw)
  assert ok, 'a complete collection does not pass: ' + out
  ctx.label('integrity ' + c['damage'])
  if c['damage'] == 'none': return
  # something wrong with a file which is neither the first nor the last
  if len(paths) < 3: return
  i = 1 + c['dpick'] % (len(paths) - 2)
  f = c['files'][i]; fn = paths[i]
  def again(vs, t, name=None):
    base = c['files'][0]['date']; b0 = cal.secs(c['k'], base)
    at = {'units': '%s since %04d-%02d-%02d %02d:00' % (c['units'], base[0], base[1], base[2], base[3])}
    if c['cal']: at['calendar'] = c['cal']
    td = dict(role='time', name='time', v=[(s - b0)/cal.UNIT[c['units']] for s in t], dtype='f8', atts=at)
    os.unlink(fn)
    write(fn, dims + [td], vs, [raw(w, dims + [td]) for w in vs], c['gatts'])
  if c['damage'] == 'lost': os.unlink(fn); files = [q for q in files if q != fn]
  elif c['damage'] == 'short':
    if len(f['secs']) < 2: return
    again(full, f['secs'][:-1])
  elif c['damage'] == 'early': again(full, [s - 10*(f['secs'][-1] - f['secs'][0] + 86400) for s in f['secs']])
  elif c['damage'] == 'novar':
    if len(full) < 2: return
    again(full[:-1], f['secs'])
  elif c['damage'] == 'newvar': again(full + [dict(full[0], name='more')], f['secs'])
  elif c['damage'] == 'broken': os.unlink(fn); open(fn, 'w').write('no such thing')
  ctx.label('found ' + c['damage'])
  ok, out = scan(list(files), **kw)
  assert not ok, '%s file %s was not found: %s' % (c['damage'], fn, out)


TESTS = [Test('decode', case(), check, quick=2000), Test('openall', acase(), acheck, quick=800), Test('multi', mcase(), mcheck, quick=700)]
