"""P06: reductions against explicit float64 definitions."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g

RULE = ('A case is a variable (1-4 axes, any integer or float type, in any memory layout and byte order, numbers of any magnitude, optional NaN fraction, in memory or lazy), a '
        'reduction, a non-empty set of axes (named by name/class/number/object, possibly unordered or twice) or the '
        'whole domain, a weighting choice and a chunk size. Non-trivial: more than one element is reduced. '
        'Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['variance is compared with the precision of sums, in double precision, of squares of differences between data',
               'custom weights are positive; weights with zero sum are not generated']

OPS = ['min', 'max', 'nanmin', 'nanmax', 'sum', 'nansum', 'mean', 'nanmean', 'variance', 'nanvariance', 'stdev', 'nanstdev']
WT = {'sum': False, 'nansum': False, 'mean': True, 'nanmean': True, 'variance': False}


@st.composite
def case(draw):
  v = draw(g.var(1, 4, 1, 5, nan=True, kind=draw(st.sampled_from(['perm', 'quarter', 'quarter', 'small']))))
  nd = len(v['axes'])
  ax = draw(st.permutations(list(range(nd))))
  ax = ax[:draw(st.integers(0, nd))]
  if ax and draw(st.integers(0, 9)) == 0: ax = ax + [ax[0]]
  op = draw(st.sampled_from(OPS))
  c = dict(v=v, op=op, ax=ax, refs=[draw(st.sampled_from(g.AXIS_REF)) for _ in ax],
           lazy=draw(st.sampled_from(g.LAZY)), chunk=draw(st.sampled_from(g.MAXSIZES)), via=draw(st.sampled_from(['method', 'func'])))
  if op in WT: c['w'] = draw(st.sampled_from(['default', 'default', 'true', 'false', 'none', 'custom']))
  else: c['w'] = 'default'
  c['wax'] = draw(st.permutations(sorted(set(ax)) or list(range(nd))))
  c['wax'] = c['wax'][:draw(st.integers(1, len(c['wax'])))]
  c['wseed'] = draw(st.integers(0, 999))
  c['big'] = draw(st.sampled_from([0, 0, 0, 1]))
  return c


def weights_array(c, v, red):
  """Weights broadcast to the full shape, or None."""
  mode = c['w']
  if mode == 'default': mode = 'true' if WT.get(c['op'], False) else 'false'
  if mode in ('false', 'none'): return None
  if mode == 'custom':
    w = g.build_data(tuple(len(v.axes[i]) for i in c['wax']), 'float64', c['wseed'], 'pos')
    # bring to full shape
    order = np.argsort(c['wax'])
    w = w.transpose(order)
    full = [1]*v.naxes
    for i in c['wax']: full[i] = len(v.axes[i])
    return np.broadcast_to(w.reshape(full), v.shape)
  w = np.ones(v.shape); any_ = False
  for i in red:
    a = v.axes[i]
    if 'weights' in a.auxarrays:
      any_ = True
      sh = [1]*v.naxes; sh[i] = len(a)
      w = w * np.asarray(a.auxarrays['weights'], 'd').reshape(sh)
  return w if any_ else None


def expected(op, arr, red, w):
  """By definition, one output element at a time."""
  keep = [i for i in range(arr.ndim) if i not in red]
  order = keep + list(red)
  n = int(np.prod([arr.shape[i] for i in keep])) if keep else 1
  a = arr.astype('d').transpose(order).reshape(n, -1)
  ww = None if w is None else np.array(w).transpose(order).reshape(n, -1)
  out = np.zeros(n)
  for k in range(n):
    x = a[k]; q = None if ww is None else ww[k]
    if op.startswith('nan'):
      m = ~np.isnan(x); x = x[m]; q = None if q is None else q[m]
    o = op[3:] if op.startswith('nan') else op
    if o in ('min', 'max') : out[k] = np.nan if len(x) == 0 or np.isnan(x).any() else (min if o == 'min' else max)(x)
    elif o == 'sum': out[k] = sum(x if q is None else x*q)
    elif o == 'mean': out[k] = np.nan if len(x) == 0 else (sum(x)/len(x) if q is None else sum(x*q)/sum(q))
    elif o in ('variance', 'stdev'):
      if q is None:
        if len(x) < 2: out[k] = np.nan; continue
        m = sum(x)/len(x); out[k] = sum((x - m)**2)/(len(x) - 1)
      else:
        W = sum(q); m = sum(x*q)/W; out[k] = sum(q*(x - m)**2)/(W - 1)
      if o == 'stdev': out[k] = np.sqrt(out[k])
  return out.reshape([arr.shape[i] for i in keep])


def check(c, ctx):
  import pygeode as pyg
  axs = [g.build_axis(a) for a in c['v']['axes']]
  arr = g.var_data(c['v'])
  v0 = g.build_var(c['v'], axs, arr)
  v = g.lazify(v0, c['lazy'])
  red = sorted(set(c['ax'])) or list(range(arr.ndim))
  op = c['op']
  w = weights_array(c, v0, red)
  refs = [g.axis_ref(v, i, how) for i, how in zip(c['ax'], c['refs'])]
  kw = {}
  if c['w'] == 'true': kw['weights'] = True
  elif c['w'] == 'false': kw['weights'] = False
  elif c['w'] == 'none': kw['weights'] = None
  elif c['w'] == 'custom':
    wd = g.build_data(tuple(len(axs[i]) for i in c['wax']), 'float64', c['wseed'], 'pos')
    kw['weights'] = pyg.Var([axs[i] for i in c['wax']], values=wd)
  if w is not None and op == 'variance':
    # the weighted form normalises by (sum of weights - 1)
    keep = [i for i in range(arr.ndim) if i not in red]
    W = np.asarray(w).sum(tuple(red))
    if np.any(np.abs(W - 1) < 1e-3): return
  if w is not None and np.any(np.abs(np.asarray(w).sum(tuple(red))) < 1e-6): return
  ctx.label(op, 'w:' + c['w'] if op in WT else None, c['v']['dtype'], 'lazy:' + c['lazy'], 'nred%d of %d' % (len(red), arr.ndim),
            'nan' if c['v'].get('nan') else None, *['ref:' + r for r in c['refs']])
  N = int(np.prod([arr.shape[i] for i in red]))
  ctx.nontrivial(N > 1)
  exp = expected(op, arr, red, w)
  g.set_chunk(c['chunk'])
  f = getattr(v, op) if c['via'] == 'method' else (lambda *a, **k: getattr(pyg.reduce, op)(v, *a, **k))
  r = f(*refs, **kw)
  keep = [i for i in range(arr.ndim) if i not in red]
  if not c['ax']:
    assert not isinstance(r, pyg.Var), 'a reduction over everything returns a number'
    got = np.asarray(r)
    assert got.shape == (), got.shape
  else:
    assert isinstance(r, pyg.Var), type(r)
    assert [a.name for a in r.axes] == [axs[i].name for i in keep], 'axes %s' % (r.axes,)
    for a, i in zip(r.axes, keep): g.same_axis(a, axs[i], 'axes kept')
    assert r.name == v0.name and r.atts == v0.atts, 'metadata %r %r' % (r.name, r.atts)
    got = r.get()
    assert g.same_dtype(r.dtype, got.dtype), 'announced dtype %s, data %s' % (r.dtype, got.dtype)
    assert r.shape == got.shape, 'announced shape %s, data %s' % (r.shape, got.shape)
  f32 = c['v']['dtype'] == 'float32'
  scale = float(np.nanmax(np.abs(arr.astype('d')))) if np.any(~np.isnan(arr.astype('d'))) else 1.
  wsc = 1. if w is None else float(np.max(np.abs(w)))
  eps = 3e-6 if f32 else 1e-12
  o = op.replace('nan', '')
  tol = dict(min=0, max=0, sum=eps*scale*N*max(wsc, 1), mean=eps*scale*10, variance=eps*scale**2*20*max(1, wsc)*(1 if w is None else 50), stdev=None)[o]
  if o == 'stdev': g.assert_close(got.astype('d')**2, exp**2, 1e-5 if f32 else 1e-9, eps*scale**2*20, msg='%s' % op)
  else: g.assert_close(got.astype('d'), exp, 1e-5 if f32 else 1e-9, tol, msg='%s over axes %s' % (op, red))
  if o == 'stdev': assert not np.any(got < 0), 'negative standard deviation'


@st.composite
def argcase(draw):
  v = draw(g.var(1, 4, 1, 6, kind=draw(st.sampled_from(['perm', 'perm', 'small']))))
  nd = len(v['axes'])
  return dict(v=v, ax=draw(st.integers(0, nd-1)), op=draw(st.sampled_from(['argmax', 'argmin'])), ref=draw(st.sampled_from(g.AXIS_REF)),
              lazy=draw(st.sampled_from(g.LAZY)), chunk=draw(st.sampled_from(g.MAXSIZES)))


def check_arg(c, ctx):
  arr = g.var_data(c['v']); v0 = g.build_var(c['v']); v = g.lazify(v0, c['lazy'])
  ctx.label(c['op'], c['v']['dtype'], 'lazy:' + c['lazy']); ctx.nontrivial(arr.shape[c['ax']] > 1)
  g.set_chunk(c['chunk'])
  r = getattr(v, c['op'])(g.axis_ref(v, c['ax'], c['ref']))
  got = r.get()
  assert got.dtype.kind == 'i' and got.shape == r.shape
  keep = [i for i in range(arr.ndim) if i != c['ax']]
  for a, i in zip(r.axes, keep): g.same_axis(a, v0.axes[i], 'axes kept')
  moved = np.moveaxis(arr, c['ax'], -1)
  if moved.ndim == 1: pairs = [((), moved)]
  else: pairs = [(ix, moved[ix]) for ix in np.ndindex(*moved.shape[:-1])]
  for ix, line in pairs:
    best = 0
    for k in range(1, len(line)):
      if (line[k] > line[best]) if c['op'] == 'argmax' else (line[k] < line[best]): best = k
    assert got[ix] == best, '%s at %s: %s, expected %s' % (c['op'], ix, got[ix], best)


@st.composite
def boolcase(draw):
  return dict(v=draw(g.var(1, 3, 1, 5, dtypes=['float64', 'int32'])), t=draw(st.integers(0, 60)), ax=draw(st.integers(0, 2)),
              chunk=draw(st.sampled_from(g.MAXSIZES)), op=draw(st.sampled_from(['sum', 'mean', 'min', 'max'])), load=draw(st.booleans()))


def check_bool(c, ctx):
  """Counting and testing the points where a condition holds."""
  v = g.build_var(c['v']); arr = g.var_data(c['v'])
  m = v > c['t']
  if c['load']: m = m.load(pbar=None)
  i = c['ax'] % arr.ndim
  b = (arr > c['t']).astype('d')
  ctx.nontrivial(arr.shape[i] > 1 and 0 < b.sum() < b.size); ctx.label(c['op'])
  g.set_chunk(c['chunk'])
  kw = {'weights': False} if c['op'] == 'mean' else {}
  got = getattr(m, c['op'])(i, **kw).get().astype('d')
  g.assert_close(got, getattr(np, c['op'])(b, axis=i), 1e-12, 1e-12, c['op'] + ' of a condition')


# ---- numbers of any magnitude

@st.composite
def magcase(draw):
  nd = draw(st.integers(1, 3))
  c = dict(axes=draw(g.axes(nd, nd, 2, 6)), kind=draw(st.sampled_from(g.MAGNITUDES + ['range', 'offset', 'tight', 'tight'])), seed=draw(g.data_seed),
           dtype=draw(st.sampled_from(['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'float32', 'float32', 'float32', 'float64'])))
  c.update(op=draw(st.sampled_from(OPS)), chunk=draw(st.sampled_from(g.MAXSIZES)), lay=draw(st.sampled_from(g.LAYOUTS)),
           ax=draw(st.lists(st.integers(0, nd-1), min_size=0, max_size=nd, unique=True)), w=draw(st.booleans()))
  return c


def check_mag(c, ctx):
  """ Reductions of numbers of any magnitude, against exact integers or two passes in extended precision. """
  import pygeode as pyg
  axs = [g.build_axis(a) for a in c['axes']]
  arr = g.magnitudes(tuple(len(a) for a in axs), c['dtype'], c['kind'], c['seed'])
  v = pyg.Var(axs, values=g.layout(arr, c['lay']), name='v')
  op = c['op']; o = op.replace('nan', '')
  red = sorted(c['ax']) or list(range(arr.ndim)); keep = [i for i in range(arr.ndim) if i not in red]
  N = int(np.prod([arr.shape[i] for i in red]))
  kw = {}; w = None
  if op in WT:
    if c['w']:
      kw = dict(weights=True); w = weights_array(dict(op=op, w='true'), v, red)
    else: kw = dict(weights=False)
  if w is not None:
    W = np.asarray(w).sum(tuple(red))
    if np.any(np.abs(W) < 1e-6) or op == 'variance' and np.any(np.abs(W - 1) < 1e-2): return
  ctx.label(op, c['dtype'], c['kind'], 'weighted' if w is not None else None); ctx.nontrivial(N > 1)
  g.set_chunk(c['chunk'])
  r = getattr(v, op)(*c['ax'], **kw)
  got = np.asarray(r.get() if c['ax'] else r)
  isint = arr.dtype.kind in 'iu'
  flat = arr.transpose(keep + red).reshape((-1, N))
  wf = None if w is None else np.array(w).transpose(keep + red).reshape((-1, N)).astype('longdouble')
  shape = tuple(arr.shape[i] for i in keep)
  if o in ('min', 'max'):
    e = getattr(np, o)(flat, axis=1).reshape(shape)
    assert np.array_equal(got, e), '%s of %s: %s, expected %s' % (op, c['dtype'], got, e)
    return
  if o == 'sum' and isint and w is None:
    e = np.array([sum(int(x) for x in line) for line in flat]).reshape(shape)
    assert np.array_equal(got, e), 'sum of %s: %s, expected %s' % (c['dtype'], got, e)
    return
  x = flat.astype('longdouble'); q = np.ones_like(x) if wf is None else wf
  S = q.sum(1); m = (x*q).sum(1)/S
  scale = float(np.abs(x).max()); wmax = float(np.abs(q).max()); single = arr.dtype == np.float32
  eps = 1.2e-7 if single else 2.3e-16
  if o in ('sum', 'mean'):
    # added up in the precision of the data
    e = m*S if o == 'sum' else m
    tol = eps*scale*(N + 8)*(wmax*N if o == 'sum' else wmax*N/float(np.abs(S).min()))
  else:
    den = (N if wf is None else S) - 1
    e = (q*(x - m[:, None])**2).sum(1)/den
    # in double precision, and however large the mean is
    R = (x.max(1) - x.min(1)).astype('d').reshape(shape); den = np.broadcast_to(np.abs(den).astype('d'), x.shape[:1]).reshape(shape)
    tol = 2.3e-16*R**2*(N + 8)*wmax*N*4/den
    if c['dtype'] == 'int64': tol = tol + wmax*N*(2.3e-16*scale*R*8 + (2.3e-16*scale)**2)/den
    if w is None: assert np.all(got >= 0), '%s of %s: %s' % (op, c['dtype'], got)
  e = e.astype('d').reshape(shape)
  got = got.astype('d')
  if o == 'stdev':
    assert not np.any(np.isnan(got)) and np.all(got >= 0), 'standard deviation %s' % got
    got = got**2
  err = np.abs(got - e)
  assert np.all(err <= tol + eps*8*np.abs(e)), '%s of %s over %s: %s, expected %s (tolerance %s)' % (op, c['dtype'], red, got, e, tol)


TESTS = [
  Test('magnitudes', magcase(), check_mag, quick=1500),
  Test('reduce', case(), check, quick=4000),
  Test('argextrema', argcase(), check_arg, quick=1200),
  Test('condition', boolcase(), check_bool, quick=500),
]
