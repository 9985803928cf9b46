"""P14: derivatives, differences, integrals."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import cal

RULE = ('A case is a variable on one to three axes (equally or unequally spaced, ascending, descending or shuffled coordinates, time axes included), an axis named in any way, '
        'a scheme or order, a coordinate (none, one-dimensional, or varying along other axes), chunk size, laziness and a part of the result. '
        'Non-trivial: at least three points along the axis. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['coordinates are distinct along the axis', 'a second derivative needs three points']


@st.composite
def case(draw, minn=2, **extra):
  v = draw(g.var(1, 3, 1, 6, kind='quarter', dtypes=['float64', 'float64', 'float32', 'int32', 'int64'], kinds=g.SAFE))
  d = draw(st.integers(0, len(v['axes']) - 1))
  if len(v['axes'][d]['v']) < minn:
    a = draw(g.axis(kind=v['axes'][d]['k'], n=draw(st.sampled_from([minn, minn + 1, minn + 3, 9])), name=v['axes'][d].get('name')))
    v['axes'][d] = a
  v['name'] = draw(st.sampled_from(['T', 'u', '']))
  dx = draw(st.sampled_from(['none', 'none', '1d', '1dother', 'nd']))
  c = dict(v=v, d=d, dx=dx, dxseed=draw(g.data_seed), dxaxes=draw(st.lists(st.booleans(), min_size=3, max_size=3)), dxperm=draw(st.booleans()),
           ref=draw(st.sampled_from(g.AXIS_REF)), lazy=draw(st.sampled_from(g.LAZY)), chunk=draw(st.sampled_from(g.MAXSIZES)), sub=draw(g.subspec()))
  for k, s in extra.items(): c[k] = draw(s)
  how = draw(st.sampled_from(['', '', '', 'range', 'top', 'offset', 'complex']))
  if how == 'complex': c['cplx'] = True
  elif how: v['kind'] = how; v['dtype'] = draw(st.sampled_from(g.INTS))
  a = v['axes'][d]
  if a['k'] in ('NamedAxis', 'Pres', 'Height', 'ZAxis', 'Freq') and draw(st.integers(0, 2)) == 0 and min(a['v']) >= 0:
    # integer coordinates, up to near the largest value of their type
    t = a['dtype'] = draw(st.sampled_from(['uint8', 'int16', 'int32', 'uint16', 'uint32']))
    f = max(1, int(np.iinfo(t).max//max(1, max(a['v']))))
    x = [int(x*f) for x in a['v']]
    if max(x) <= np.iinfo(t).max and len(set(x)) == len(x): a['v'] = x
    else: del a['dtype']
  return c


def values(c):
  arr = g.var_data(c['v'])
  if c.get('cplx'):
    z = np.empty(arr.shape, 'complex64' if c['v']['dtype'] == 'float32' else 'complex128')
    z.real = arr; z.imag = g.build_data(arr.shape, 'float64', c['v']['seed'] + 7, 'quarter')
    arr = z
  return arr


def coordinate(c, v):
  """The dx argument, and its values broadcast against the data."""
  import pygeode as pyg
  d = c['d']; n = v.shape[d]; nd = v.naxes
  if c['dx'] == 'none':
    return None, np.asarray(v.axes[d].values, 'd').reshape([n if i == d else 1 for i in range(nd)])
  rng = np.random.default_rng(c['dxseed'])
  if c['dx'].startswith('1d'):
    x = np.cumsum(rng.integers(1, 9, n)/4.)*rng.choice([-1, 1])
    ax = v.axes[d] if c['dx'] == '1d' else pyg.NamedAxis(np.arange(n)*3., 'other')
    return pyg.Var((ax,), values=x, name='x'), x.reshape([n if i == d else 1 for i in range(nd)])
  keep = [i for i in range(nd) if i == d or c['dxaxes'][i]]
  full = np.cumsum(rng.integers(1, 9, [v.shape[i] for i in keep])/4., axis=keep.index(d))
  shape = [v.shape[i] if i in keep else 1 for i in range(nd)]
  axs = [v.axes[i] for i in keep]; val = full
  if c['dxperm']: axs = axs[::-1]; val = full.transpose()
  return pyg.Var(tuple(axs), values=np.ascontiguousarray(val), name='x'), full.reshape(shape)


def prep(c, ctx):
  data = values(c); v = g.lazify(g.build_var(c['v'], data=data), c['lazy'])
  dx, X = coordinate(c, v)
  ctx.label(c['v']['axes'][c['d']]['k'], c['v']['dtype'], 'dx ' + c['dx'], 'ref ' + c['ref'], c['v'].get('kind') if c['v']['kind'] in g.MAGNITUDES else 'complex' if 'cplx' in c else None, c['v']['axes'][c['d']].get('dtype'))
  ctx.nontrivial(v.shape[c['d']] > 2)
  g.set_chunk(c['chunk'])
  return v, data, dx, X, g.axis_ref(v, c['d'], c['ref'])


def tol(c, scale=1):
  ''' relative and absolute tolerance; scale: magnitude of the terms added up '''
  return (1e-4, 1e-3) if c['v']['dtype'] == 'float32' else (1e-9, 1e-7 + 1e-14*scale)


def wide(data):
  ''' In double precision. '''
  return np.asarray(data, 'complex128' if data.dtype.kind == 'c' else 'd')


def biggest(a): return float(np.abs(wide(np.asarray(a))).max())


def onaxis(r, v, c, ctx):
  assert r.axes == v.axes, 'axes %s expected %s' % (r.axes, v.axes)


def check_deriv(c, ctx):
  v, data, dx, X, ref = prep(c, ctx)
  d = c['d']; n = v.shape[d]
  if c['df'] == '2' and n < 3: return
  ctx.label('df ' + c['df'])
  r = v.deriv(ref, dx=dx, df=c['df']) if c['method'] else __import__('pygeode').deriv.deriv(v, ref, dx, c['df'])
  onaxis(r, v, c, ctx)
  D = np.moveaxis(wide(data), d, 0)
  Y = np.moveaxis(np.broadcast_to(X, data.shape), d, 0)
  out = np.empty(D.shape, D.dtype)
  for i in range(n):
    if c['df'] == '2':
      a, b, e = (i-1, i, i+1) if 0 < i < n-1 else (0, 1, 2) if i == 0 else (n-3, n-2, n-1)
      # twice the second divided difference
      out[i] = 2*((D[e] - D[b])/(Y[e] - Y[b]) - (D[b] - D[a])/(Y[b] - Y[a]))/(Y[e] - Y[a])
    else:
      a, b = dict(centre=(i-1, i+1), left=(i-1, i), right=(i, i+1))[c['df']]
      if a < 0: a, b = 0, 1
      if b > n-1: a, b = n-2, n-1
      out[i] = (D[b] - D[a])/(Y[b] - Y[a])
  out = np.moveaxis(out, 0, d)
  h = np.abs(np.diff(X, axis=d)).min()
  rt, at = tol(c, biggest(data)*max(1, 1/h)**2)
  if c['v']['dtype'] == 'float32': at = max(at, 1e-5*np.abs(data).max()/min(1, np.abs(np.diff(X, axis=d)).min())**2)
  g.check_result(r, out, c['sub'], rt, at, msg='deriv df=%s' % c['df'])
  # together with the variable it is a derivative of (one view serves both)
  both = r + v
  g.check_result(both, out + wide(data), c['sub'], rt, at, msg='derivative + variable (%s)' % c['df'])
  both = v - r
  g.check_part(both, wide(data) - out, c['sub'], 'variable - derivative', rt, at)


def check_diff(c, ctx):
  v, data, dx, X, ref = prep(c, ctx)
  d = c['d']; k = c['n']
  n = v.shape[d]
  if n <= k: return
  ctx.label('order %d' % k)
  r = v.diff(ref, k) if k > 1 or c['method'] else v.diff(ref)
  exp = data.astype(data.dtype)
  for _ in range(k):
    lo = [slice(None)]*v.naxes; hi = list(lo); lo[d] = slice(None, -1); hi[d] = slice(1, None)
    exp = exp[tuple(hi)] - exp[tuple(lo)]
  assert g.same_dtype(r.dtype, v.dtype)
  for i, a in enumerate(r.axes):
    if i == d: g.assert_sub_axis(a, v.axes[i], list(range(n - k)), 'axis of the difference')
    else: assert a == v.axes[i]
  g.check_result(r, exp, c['sub'], *(tol(c, biggest(data))), msg='diff order %d' % k)


def check_int(c, ctx):
  import pygeode as pyg
  v, data, dx, X, ref = prep(c, ctx)
  d = c['d']; n = v.shape[d]; o = c['order']; ty = c['type']
  ctx.label('type ' + ty, 'order %d' % o, 'v0 ' + c['v0'])
  if c['v0'] == 'none': v0, V0 = None, 0.
  elif c['v0'] == 'num': v0 = V0 = 2.5
  else:
    keep = [i for i in range(v.naxes) if i != d and c['v0axes'][i]]
    V0 = g.build_data([v.shape[i] for i in keep], 'float64', c['dxseed'] + 1, 'quarter')
    axs = [v.axes[i] for i in keep]; val = V0
    if c['dxperm']: axs = axs[::-1]; val = V0.transpose()
    if not keep: v0 = V0 = float(V0)
    else:
      v0 = pyg.Var(tuple(axs), values=np.ascontiguousarray(val), name='v0')
      V0 = V0.reshape([v.shape[i] if i in keep else 1 for i in range(v.naxes)])
  if ty == 'cumsum': r = v.cumsum(ref, v0=v0, order=o)
  else: r = v.integrate(ref, dx=dx, v0=v0, order=o, type=ty)
  onaxis(r, v, c, ctx)
  D = np.moveaxis(wide(data), d, 0)
  Y = np.moveaxis(np.broadcast_to(X, data.shape), d, 0)
  out = np.zeros(D.shape, D.dtype)
  V = np.moveaxis(np.broadcast_to(V0, [1 if i == d else s for i, s in enumerate(data.shape)]).astype(D.dtype), d, 0)[0]
  # contribution of the interval between points i and i+1
  def piece(i):
    h = Y[i+1] - Y[i]
    return dict(trapz=(D[i] + D[i+1])*h/2, rectl=D[i]*h, rectr=D[i+1]*h)[ty]
  if ty == 'cumsum':
    s = V.copy()
    for i in (range(n) if o == 1 else range(n-1, -1, -1)):
      s = s + D[i]; out[i] = s
  elif o == 1:
    out[0] = V
    for i in range(1, n): out[i] = out[i-1] + piece(i-1)
  else:
    out[n-1] = V
    for i in range(n-2, -1, -1): out[i] = out[i+1] + piece(i)
  out = np.moveaxis(out, 0, d)
  rt, at = tol(c, (biggest(data)*max(1, biggest(X)) + biggest(V0))*n)
  if c['v']['dtype'] == 'float32': at = 1e-4*max(1, np.abs(data).max()*n*max(1, biggest(X)/100))
  g.check_result(r, out, c['sub'], rt, at, msg='%s order %d' % (ty, o))
  if ty == 'cumsum' and n > 1 and o == 1:
    lo = [slice(None)]*v.naxes; lo[d] = slice(1, None)
    g.assert_close(r.diff(ref).get(), wide(data)[tuple(lo)], rt, at, 'difference of a cumulative sum')


TESTS = [
  Test('deriv', case(2, df=st.sampled_from(['centre', 'left', 'right', '2']), method=st.booleans()), check_deriv, quick=2000),
  Test('diff', case(2, n=st.sampled_from([1, 1, 2, 3]), method=st.booleans()), check_diff, quick=1200),
  Test('integrate', case(2, type=st.sampled_from(['trapz', 'rectl', 'rectr', 'cumsum']), order=st.sampled_from([1, 1, -1]), v0=st.sampled_from(['none', 'num', 'var', 'var']),
                         v0axes=st.lists(st.booleans(), min_size=3, max_size=3)), check_int, quick=2000),
]
