"""P17: interpolation."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g

RULE = ('A case is a variable on one to three axes (with or without missing values), an axis to interpolate from, an output axis (between, on or outside the input coordinates, any order), '
        'input and output coordinates (those of the axes, one-dimensional fields, or fields varying along the other axes, some missing), a method, extrapolation slopes, laziness and a part of the result. '
        'Non-trivial: at least three input points. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['output coordinates are finite', 'periodic methods get data that is periodic, of three points or more']

METHODS = ['linear', 'linear', 'cspline', 'cspline', None, 'polynomial', 'akima', 'cspline_periodic', 'akima_periodic']


@st.composite
def case(draw):
  meth = draw(st.sampled_from(METHODS))
  kind = 'real' if meth and meth.startswith('akima') else 'quarter'
  v = draw(g.var(1, 3, 1, 4, kind=kind, dtypes=['float64', 'float64', 'float32', 'int32'] if kind == 'quarter' else ['float64'], kinds=g.SAFE[:6]))
  d = draw(st.integers(0, len(v['axes']) - 1))
  big = 6 if meth == 'polynomial' else 12
  n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 9, 12]))
  n = min(n, big)
  if meth == 'cspline_periodic': n = max(n, 3)
  v['axes'][d] = draw(g.axis(kind=v['axes'][d]['k'], n=n, name=v['axes'][d].get('name'), style=draw(st.sampled_from(['asc', 'asc', 'desc']))))
  if 'periodic' not in (meth or '') and v['dtype'].startswith('float'): v['nan'] = draw(st.sampled_from([0, 0, 0.2, 0.5]))
  m = draw(st.sampled_from([1, 2, 3, 5, 8]))
  return dict(v=v, d=d, method=meth, ref=draw(st.sampled_from(g.AXIS_REF)), m=m,
              q=draw(st.lists(st.integers(-12, 112) if draw(st.booleans()) else st.integers(0, 100), min_size=m, max_size=m, unique=True)),
              nodes=draw(st.sampled_from(['no', 'no', 'some', 'all'])), new=draw(st.sampled_from(['same', 'named', 'named'])),
              inx=draw(st.sampled_from(['none', 'none', '1d', 'nd', 'nd' if 'periodic' in (meth or '') else 'ndnan', 'nddir'])), outx=draw(st.sampled_from(['none', 'none', '1d', 'nd'])),
              xaxes=draw(st.lists(st.booleans(), min_size=6, max_size=6)), perm=draw(st.booleans()), xseed=draw(g.data_seed),
              below=draw(st.sampled_from([None, None, 0., 2.5, -1.])), above=draw(st.sampled_from([None, None, 0., 1.5])), transpose=draw(st.sampled_from([None, True, False])),
              lazy=draw(st.sampled_from(g.LAZY)), chunk=draw(st.sampled_from(g.MAXSIZES)), sub=draw(g.subspec()))


MIN = dict(linear=2, polynomial=3, cspline=3, cspline_periodic=2, akima=5, akima_periodic=5)


def akima(x, y, X, periodic):
  n = len(x)
  m = np.diff(y)/np.diff(x)
  if periodic: e = np.concatenate([m[-2:], m, m[:2]])
  else:
    a = 2*m[0] - m[1]; z = 2*m[-1] - m[-2]
    e = np.concatenate([[2*a - m[0], a], m, [z, 2*z - m[-1]]])
  t = np.empty(n)
  for i in range(n):
    w1 = abs(e[i+3] - e[i+2]); w2 = abs(e[i+1] - e[i])
    if w1 + w2 < 1e-6*(abs(e).max() + 1e-300): return None     # degenerate: not specified
    t[i] = (w1*e[i+1] + w2*e[i+2])/(w1 + w2)
  out = []
  for p in X:
    i = min(max(np.searchsorted(x, p, side='right') - 1, 0), n - 2)
    h = x[i+1] - x[i]; s = (p - x[i])/h
    out.append(y[i]*(1 + 2*s)*(1 - s)**2 + t[i]*h*s*(1 - s)**2 + y[i+1]*s*s*(3 - 2*s) + t[i+1]*h*s*s*(s - 1))
  return np.array(out)


def column(method, x, y, X, below, above):
  """Interpolates one column; None where the method leaves the result open."""
  ok = np.isfinite(x) & np.isfinite(y)
  x, y = x[ok], y[ok]
  if len(x) < MIN[method]: return np.full(len(X), np.nan)
  o = np.argsort(x); x, y = x[o], y[o]
  inside = (X >= x[0]) & (X <= x[-1])
  Z = np.clip(X, x[0], x[-1])
  if method == 'linear': r = np.interp(Z, x, y)
  elif method == 'polynomial':
    r = np.zeros(len(Z))
    for i in range(len(x)):
      L = np.ones(len(Z))
      for j in range(len(x)):
        if j != i: L *= (Z - x[j])/(x[i] - x[j])
      r += y[i]*L
  elif method == 'cspline':
    from scipy.interpolate import CubicSpline
    r = CubicSpline(x, y, bc_type='natural')(Z) if len(x) > 2 else np.interp(Z, x, y)
  elif method == 'cspline_periodic':
    from scipy.interpolate import CubicSpline
    if len(x) == 2: r = np.interp(Z, x, y)
    else: r = CubicSpline(x, y, bc_type='periodic')(Z)
  else:
    r = akima(x, y, Z, method.endswith('periodic'))
    if r is None: return None
  lo = np.nan if below is None else below
  hi = np.nan if above is None else above
  r = np.where(X < x[0], r + lo*(X - x[0]), r)
  return np.where(X > x[-1], r + hi*(X - x[-1]), r)


def build(c):
  import pygeode as pyg
  vd = c['v']; d = c['d']
  data = g.var_data(vd)
  method = c['method'] or 'cspline'
  if 'periodic' in method:
    D = np.moveaxis(data, d, 0); D[-1] = D[0]
  v = g.lazify(g.build_var(vd, data=data), c['lazy'])
  n = v.shape[d]; a = v.axes[d]
  rng = np.random.default_rng(c['xseed'])
  others = [i for i in range(v.naxes) if i != d]
  shape = [v.shape[i] for i in others] + [n]

  # input coordinates, other axes first
  inx = None
  if c['inx'] == 'none': X = np.broadcast_to(a.values.astype('d'), shape).copy()
  elif c['inx'] == '1d':
    x = np.cumsum(rng.integers(1, 9, n)/4.)[::rng.choice([-1, 1])] - 3
    inx = pyg.Var((a,), values=x, name='x'); X = np.broadcast_to(x, shape).copy()
  else:
    keep = [i for i in range(v.naxes) if i == d or c['xaxes'][i]]
    x = np.cumsum(rng.integers(1, 9, [v.shape[i] for i in keep])/4., axis=keep.index(d)) - 3
    k = keep.index(d)
    if rng.integers(2): x = np.flip(x, k).copy()
    if c['inx'] == 'nddir' and len(keep) > 1:
      # directions differ between columns
      f = np.moveaxis(x, k, -1).reshape(-1, n).copy()
      for row in f:
        if rng.integers(2): row[:] = row[::-1].copy()
      x = np.moveaxis(f.reshape([v.shape[i] for i in keep if i != d] + [n]), -1, k).copy()
    if c['inx'] == 'ndnan': x[rng.random(x.shape) < .3] = np.nan
    axs = [v.axes[i] for i in keep]; val = x
    if c['perm']: axs = axs[::-1]; val = x.transpose()
    inx = pyg.Var(tuple(axs), values=np.ascontiguousarray(val), name='x')
    xl = np.moveaxis(x, k, -1).reshape([v.shape[i] if i in keep else 1 for i in others] + [n])
    X = np.broadcast_to(xl, shape).copy()

  # output axis: values relative to the range of the (first) input coordinates
  fin = X[np.isfinite(X)]
  lo, hi = (fin.min(), fin.max()) if len(fin) else (0., 1.)
  w = max(hi - lo, 1.)
  ov = np.array([round((lo + w*q/100.)*64)/64 for q in c['q']])
  if c['nodes'] != 'no' and len(fin):
    pick = fin[rng.permutation(len(fin))]
    k = len(ov) if c['nodes'] == 'all' else (len(ov) + 1)//2
    ov[:min(k, len(pick))] = pick[:k][:len(ov)]
  ov = np.array(sorted(set(ov.tolist())))
  if rng.integers(2): ov = ov[::-1].copy()
  m = len(ov)
  # (an axis compares with a tolerance: coordinates that are too close are not distinct points of it)
  close = np.any(np.abs(np.diff(ov)) < 2e-3*np.abs(ov).max()) if m > 1 else False
  coords = c['outx'] != 'none'
  if coords or close: oa = pyg.NamedAxis(np.arange(m)*2. + 1, 'newx'); coords = True
  elif c['new'] == 'same' and type(a).__name__ not in ('Index', 'Hybrid', 'NamedAxis', 'Lat', 'Lon'): oa = type(a)(ov)
  else: oa = pyg.NamedAxis(ov, 'newx')
  outx = None
  Y = np.broadcast_to(ov, shape[:-1] + [m]).copy()
  if coords:
    if c['outx'] != 'nd': outx = pyg.Var((oa,), values=ov, name='y')
    else:
      keep = [i for i in others if c['xaxes'][3 + i]]
      y = ov + rng.integers(-4, 5, [v.shape[i] for i in keep] + [m])*w/64.
      Y = np.broadcast_to(y.reshape([v.shape[i] if i in keep else 1 for i in others] + [m]), shape[:-1] + [m]).copy()
      axs = [v.axes[i] for i in keep] + [oa]; val = y
      if c['perm']: axs = axs[::-1]; val = y.transpose()
      outx = pyg.Var(tuple(axs), values=np.ascontiguousarray(val), name='y')
  return v, data, X, oa, ov, Y, inx, outx


def check(c, ctx):
  import pygeode as pyg
  v, data, X, oa, ov, Y, inx, outx = build(c)
  d = c['d']; n = v.shape[d]; method = c['method'] or 'cspline'; m = len(ov)
  ctx.label(method, c['v']['axes'][d]['k'], c['v']['dtype'], 'inx ' + c['inx'], 'outx ' + c['outx'], 'nan' if c['v'].get('nan') else '', 'transpose %s' % c['transpose'])
  ctx.nontrivial(n > 2)
  kw = {}
  if c['method']: kw['interp_type'] = c['method']
  if inx is not None: kw['inx'] = inx
  if outx is not None: kw['outx'] = outx
  if c['below'] is not None: kw['d_below'] = c['below']
  if c['above'] is not None: kw['d_above'] = c['above']
  if c['transpose'] is not None: kw['transpose'] = c['transpose']
  g.set_chunk(c['chunk'])
  ref = g.axis_ref(v, d, c['ref'])
  r = v.interpolate(ref, oa, **kw) if c['xseed'] % 2 else pyg.interp.interpolate(v, ref, oa, **kw)
  D = np.moveaxis(data.astype('d'), d, -1)
  cols = D.reshape(-1, n); Xc = X.reshape(-1, n); Yc = Y.reshape(-1, m)
  out = np.full((len(cols), m), np.nan); known = np.ones((len(cols), m), bool)
  for i in range(len(cols)):
    o = column(method, Xc[i], cols[i], Yc[i], c['below'], c['above'])
    if o is None: known[i] = False
    else: out[i] = o
  out = out.reshape(D.shape[:-1] + (m,)); known = known.reshape(out.shape)
  pos = d if c['transpose'] in (None, True) else v.naxes - 1
  out = np.moveaxis(out, -1, pos); known = np.moveaxis(known, -1, pos)
  exp_axes = [v.axes[i] for i in range(v.naxes) if i != d]; exp_axes.insert(pos, oa)
  assert list(r.axes) == exp_axes and r.axes[pos] is oa, 'axes %s, expected %s' % (r.axes, exp_axes)
  assert r.name == c['v']['name'] and dict(r.atts) == c['v']['atts']
  got = r.get()
  assert g.same_dtype(got.dtype, r.dtype) and got.shape == r.shape
  scale = max(1., np.nanmax(np.abs(out)) if np.isfinite(out).any() else 1.)
  g.assert_close(np.where(known, got, 0), np.where(known, out, 0), 1e-7, 1e-8*scale, 'interpolate %s' % method)
  if known.all(): g.check_part(r, got, c['sub'], 'interpolate', 1e-12, 1e-12*scale)


@st.composite
def ncase(draw):
  v = draw(g.var(1, 2, 1, 3, kind='quarter', dtypes=['float64'], kinds=g.SAFE[:6]))
  d = draw(st.integers(0, len(v['axes']) - 1))
  v['axes'][d] = draw(g.axis(kind=v['axes'][d]['k'], n=draw(st.integers(3, 6)), name=v['axes'][d].get('name')))
  return dict(v=v, d=d, x=draw(st.permutations(list(range(len(v['axes'][d]['v']))))), dup=draw(st.booleans()), method=draw(st.sampled_from(['linear', 'cspline'])))


def check_nm(c, ctx):
  """Coordinates that are not monotonic are refused."""
  import pygeode as pyg
  v = g.build_var(c['v']); a = v.axes[c['d']]
  x = np.array(c['x'], 'd')
  if c['dup']: x[1] = x[0]
  s = np.sign(np.diff(x))
  mono = np.all(s > 0) or np.all(s < 0)
  ctx.label('monotonic' if mono else 'not monotonic', c['method']); ctx.nontrivial(not mono)
  r = v.interpolate(a.name, pyg.NamedAxis([1.25, 1.5], 'new'), inx=pyg.Var((a,), values=x, name='x'), interp_type=c['method'])
  try:
    r.get()
  except ValueError:
    assert not mono, 'monotonic coordinates %s were refused' % x
  else:
    assert mono, 'coordinates %s are not monotonic, but were accepted' % x


TESTS = [
  Test('interpolate', case(), check, quick=3200),
  Test('monotonic', ncase(), check_nm, quick=300),
]
