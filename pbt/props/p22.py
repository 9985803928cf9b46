"""P22: EOF analysis."""
import io, contextlib
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g

RULE = ('A case is a data matrix of a chosen rank and spectrum (random orthogonal factors) on one or two record axes and one or two space axes in any order, a way of naming the record axes, weights (internal, '
        'explicit, none), a solver, a number of modes, a list of outputs, and the limit on the size of a piece. Non-trivial: two modes or more and weights or more than one piece. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['the singular values asked for are distinct, and above the noise (ratios of neighbours at most 0.75)', 'weights are positive, or zero at some places, and do not vary along the record axes', 'one spatial pattern fits into a piece']

TK = ['StandardTime', 'ModelTime365', 'ModelTime360']


@st.composite
def layout(draw, nrec=None, kinds=('Lat', 'Lon', 'Pres', 'NamedAxis', 'Index', 'Freq')):
  """record axes, space axes and the order they are stored in"""
  kinds = list(kinds)
  sp = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=2, unique=True))
  nr = nrec or draw(st.sampled_from([1, 1, 1, 2]))
  rest = [k for k in kinds if k not in sp and k != 'Lat']
  rec = [draw(st.sampled_from(TK))] if draw(st.integers(0, 3)) else [draw(st.sampled_from(rest))]
  if nr == 2: rec.append(draw(st.sampled_from([k for k in rest if k not in rec])))
  sizes = [draw(st.sampled_from([3, 2, 4, 1, 5])) for _ in sp]
  if len(sp) == 1 and sizes[0] == 1: sizes = [3]
  rsizes = [draw(st.sampled_from([5, 3, 2, 8, 12]))] if nr == 1 else [draw(st.sampled_from([2, 3, 4])), draw(st.sampled_from([1, 2, 3]))]
  lats = lambda n: draw(st.lists(st.integers(-80, 80), min_size=n, max_size=n, unique=True))
  def mk(k, n):
    a = draw(g.axis(kind=k, n=n, name='rec' if k == 'NamedAxis' else None, aux=False))
    if k == 'Lat': a['v'] = [float(x) for x in lats(n)]
    return a
  sp = [mk(k, n) for k, n in zip(sp, sizes)]; rec = [mk(k, n) for k, n in zip(rec, rsizes)]
  order = draw(st.permutations(list(range(len(rec) + len(sp)))))
  if draw(st.booleans()): order = list(range(len(rec) + len(sp)))
  # the space axes keep the order they are stored in
  k = len(rec); it = iter(range(k, k + len(sp)))
  order = [i if i < k else next(it) for i in order]
  return rec, sp, order


@st.composite
def case(draw):
  rec, sp, order = draw(layout())
  nt = int(np.prod(g.axes_shape(rec))); nx = int(np.prod(g.axes_shape(sp)))
  r = draw(st.integers(1, min(nt, nx)))
  if draw(st.integers(0, 3)): r = min(nt, nx)
  num = min(r, draw(st.sampled_from([2, 1, 2, 3, 4, 9])))
  f = draw(st.sampled_from(['EOF', 'EOF', 'EOF_svd', 'EOF_cov', 'EOF_iter', 'EOF_guess']))
  out = draw(st.sampled_from([None, 'EOF,EIG,PC', 'eof,pc', 'pc,eig2,frac,var,eof,eig', ['timeseries', 'eofs', 'eigenvalues'], 'frac', ['var', 'eig2'], 'varfrac,variance']))
  w = draw(st.sampled_from([True, True, False, None, 'lat', 'space', 'one']))
  return dict(rec=rec, sp=sp, order=order, rank=r, num=num, f=f, out=out, w=w, decay=draw(st.sampled_from([0.3, 0.5, 0.75])), scale=draw(st.sampled_from([1e-3, 1., 1e4, 1e-10, 1e9])), seed=draw(g.data_seed),
              dtype=draw(st.sampled_from(['float64', 'float64', 'float32'])), iaxis=draw(st.sampled_from(['none', 'name', 'class', 'int', 'axis', 'list'])), name=draw(st.sampled_from(['u', 'T'])),
              chunk=draw(st.sampled_from([0, 1, 2, 3, 7, 10**6])), lazy=draw(st.sampled_from(g.LAZY)), wneg=draw(st.booleans()), sub=draw(st.integers(-1, 4)), pos=draw(st.booleans()), unit=draw(st.integers(0, 4)) == 0)


def quiet(f, *a, **k):
  with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)


def weights(c, rec, sp, seed):
  """-> (what to pass, weights as an array of the shape of the space axes)"""
  import pygeode as pyg
  shape = tuple(len(a) for a in sp)
  W = np.ones(shape)
  w = c['w']
  rng = np.random.default_rng(seed + 1)
  il = [i for i, a in enumerate(sp) if isinstance(a, pyg.Lat)]
  if w is True:
    if il: W = W*np.expand_dims(np.cos(np.deg2rad(sp[il[0]].values)), tuple(i for i in range(len(sp)) if i != il[0]))
    return True, W
  if w in (False, None): return w, W
  if w == 'one' or w == 'lat':
    i = il[0] if il and w == 'lat' else 0
    x = rng.uniform(0.3, 3., shape[i])
    return pyg.Var([sp[i]], values=x, name='w'), W*np.expand_dims(x, tuple(j for j in range(len(sp)) if j != i))
  x = rng.uniform(0.3, 3., shape)
  if c['wneg'] and len(sp) > 1: return pyg.Var(sp[::-1], values=x.T.copy(), name='w'), x
  return pyg.Var(sp, values=x, name='w'), x


def matrix(c, nt, nx, seed):
  rng = np.random.default_rng(seed)
  r = c['rank']
  A = np.linalg.qr(rng.normal(size=(nt, r)))[0]; B = np.linalg.qr(rng.normal(size=(nx, r)))[0]
  # places that do not vary together
  if c.get('unit'): B = np.eye(nx)[:, rng.permutation(nx)[:r]]
  s = c['scale']*c['decay']**np.arange(r)
  return A, s, B


def record(c, rec, order, v):
  h = c['iaxis']
  names = [a.name for a in rec]
  if len(rec) > 1:
    ids = [v.whichaxis(a) for a in rec]
    return {'none': tuple(names), 'name': names, 'class': tuple(type(a) for a in rec), 'int': ids, 'axis': tuple(rec), 'list': [names[0], ids[1]]}[h]
  i = v.whichaxis(rec[0])
  return {'none': None, 'name': names[0], 'class': type(rec[0]), 'int': i, 'axis': rec[0], 'list': [names[0]]}[h]


def check(c, ctx):
  import pygeode as pyg
  import pygeode.eof as E
  from pygeode.timeaxis import Time
  rec = [g.build_axis(a) for a in c['rec']]; sp = [g.build_axis(a) for a in c['sp']]
  nt = int(np.prod([len(a) for a in rec])); nx = int(np.prod([len(a) for a in sp]))
  wpass, W = weights(c, rec, sp, c['seed'])
  sw = np.sqrt(W/W.mean()).ravel()
  A, s, B = matrix(c, nt, nx, c['seed'])
  X = (A*s) @ B.T / sw
  axs = rec + sp
  X = X.reshape([len(a) for a in axs]).astype(c['dtype'])
  f32 = c['dtype'] == 'float32'
  Xw = X.astype('d').reshape(nt, nx)*sw
  v = pyg.Var([axs[i] for i in c['order']], values=X.transpose(c['order']).copy(), name=c['name'])
  keep = v.values.copy()
  v = g.lazify(v, c['lazy'])
  ia = record(c, rec, c['order'], v)
  if ia is None and not isinstance(rec[0], Time) and v.whichaxis(rec[0]) != 0: ia = rec[0].name
  g.set_chunk(10**7 if not c['chunk'] else min(10**7, nx*c['chunk']))
  n = c['num']
  kw = {}
  f = c['f']
  if f == 'EOF_iter' and c['sub'] > 0: kw['subspace'] = min(n + c['sub'], c['rank'])
  r = quiet(getattr(E, f), v, num=n, iaxis=ia, weight=wpass, out=c['out'], **kw)
  ctx.label(f, 'weights %s' % (c['w'],), c['dtype'], '%d record axes' % len(rec), 'record axis first' if c['order'] == sorted(c['order']) else 'moved', 'pieces' if c['chunk'] else '')
  ctx.nontrivial(n > 1 and (np.ptp(W) > 0 or c['chunk'] > 0))
  names = c['out'] if isinstance(c['out'], list) else (c['out'] or 'eof,eig,pc').lower().split(',')
  assert len(r) == len(names), '%d outputs, asked for %s' % (len(r), names)
  key = {'eofs': 'eof', 'eigenvalues': 'eig', 'timeseries': 'pc', 'variance': 'var', 'varfrac': 'frac'}
  o = {key.get(k, k): x for k, x in zip(names, r)}
  tol = 3e-3 if f32 else 1e-5
  S = np.linalg.svd(Xw, compute_uv=False)
  guess = f == 'EOF_guess'
  for k, x in o.items():
    if k == 'var': continue
    assert isinstance(x, pyg.Var) and len(x.axes[0]) == n and x.axes[0].name == 'order', '%s: axes %s' % (k, x.axes)
    want = {'eof': sp, 'pc': rec}.get(k, [])
    assert list(x.axes[1:]) == list(want), '%s: axes %s, expected %s' % (k, x.axes, want)
    assert x.name == c['name'] + {'eof': '_EOF', 'pc': '_timeseries', 'eig': '_eigenvalues', 'eig2': '_eigenvalues', 'frac': '_fraction_of_variance'}[k], x.name
    if not (guess and c['rank'] < min(nt, nx)): assert np.all(np.isfinite(x.get())), '%s: %s' % (k, x.get())
  I = np.eye(n)
  tot = (Xw**2).sum()
  if guess:
    # only an approximation: of the right kind, and no mode explains more than the true leading ones do
    if 'eig' in o:
      e = o['eig'].get()
      if np.all(np.isfinite(e)):
        assert np.all(e >= 0) and np.all(np.diff(e) <= tol*S[0]), 'guess: eigenvalues %s' % e
        assert e[0] <= S[0]*(1 + tol) and (e**2).sum() <= (S[:n]**2).sum()*(1 + tol), 'guess: eigenvalues %s, true ones %s' % (e, S)
        if n >= nx and nt >= nx: g.assert_close(e, S[:n], 0, tol*S[0], 'guess with all modes')
  else:
    if 'eig' in o: g.assert_close(o['eig'].get(), S[:n], tol, tol*S[0], 'eigenvalues')
    if 'eig2' in o: g.assert_close(o['eig2'].get(), S[:n]**2, 2*tol, tol*S[0]**2, 'eigenvalues of the covariance matrix')
    if 'frac' in o: g.assert_close(o['frac'].get(), S[:n]**2/tot, 2*tol, tol, 'fraction of variance')
  if 'var' in o: g.assert_close(float(o['var']), tot, tol, 0, 'total variance')
  if 'eof' in o:
    e = o['eof'].get().reshape(n, nx)*sw
    if not (guess and not np.all(np.isfinite(e))):
      vt = 100*tol if f == 'EOF_iter' else 30*tol
      g.assert_close(e @ e.T, I, 0, vt, 'EOFs not orthonormal')
      if not guess: assert np.all(e[:, 0] > -vt), 'sign convention'
  if 'pc' in o:
    p = o['pc'].get().reshape(n, nt)
    if not (guess and not np.all(np.isfinite(p))): g.assert_close(p @ p.T, I, 0, 100*tol*((S[0]/S[n-1])**2 if guess else S[0]/S[n-1] if f32 or f == 'EOF_cov' else 1.), 'time series not uncorrelated')
  if 'pc' in o and 'eof' in o and 'eig' in o and not guess:
    lam = o['eig'].get()
    vt = 100*tol*S[0]
    g.assert_close(Xw @ e.T, p.T*lam, 0, vt, 'the time series are not the projections of the data')
    g.assert_close(Xw.T @ p.T, e.T*lam, 0, vt, 'the patterns are not the regressions of the data')
    if n == c['rank']: g.assert_close((p.T*lam) @ e, Xw, 0, vt, 'all modes do not add up to the data')
    back = (o['eof']*o['eig']*o['pc']).sum('order') if n > 1 else (o['eof']*o['eig']*o['pc']).squeeze('order')
    if n == c['rank']:
      bk = back.transpose(*[a.name for a in v.axes]).get()
      g.assert_close(bk, keep.astype('d'), 0, vt*np.max(1/sw), 'the sum over all modes is not the data')
  g.assert_eq(v.get(), keep, 'input changed')
  if isinstance(wpass, pyg.Var): g.assert_close(wpass.get(), wpass.values, 0, 0)


@st.composite
def pcase(draw):
  c = draw(case())
  c['f'] = draw(st.sampled_from(['EOF_svd', 'EOF_cov', 'EOF_iter']))
  c['g'] = draw(st.sampled_from(['EOF', 'EOF_svd', 'EOF_cov', 'EOF_iter']))
  c['chunk2'] = draw(st.sampled_from([0, 1, 2, 5]))
  return c


def check_pair(c, ctx):
  """Two solvers, or the same one on pieces of other sizes, agree."""
  import pygeode as pyg
  import pygeode.eof as E
  rec = [g.build_axis(a) for a in c['rec']]; sp = [g.build_axis(a) for a in c['sp']]
  nt = int(np.prod([len(a) for a in rec])); nx = int(np.prod([len(a) for a in sp]))
  wpass, W = weights(c, rec, sp, c['seed'])
  rng = np.random.default_rng(c['seed'])
  sw = np.sqrt(W/W.mean()).ravel()
  A, s, B = matrix(c, nt, nx, c['seed'])
  axs = rec + sp
  X = ((A*s) @ B.T / sw).reshape([len(a) for a in axs])
  v = pyg.Var([axs[i] for i in c['order']], values=X.transpose(c['order']).copy(), name=c['name'])
  ia = [a.name for a in rec]
  ctx.label(c['f'] + '/' + c['g']); ctx.nontrivial(c['num'] > 1)
  res = []
  for f, k in ((c['f'], c['chunk']), (c['g'], c['chunk2'])):
    g.set_chunk(10**7 if not k else nx*k)
    e, l, p = quiet(getattr(E, f), v, num=c['num'], iaxis=ia, weight=wpass)
    e = e.get().reshape(c['num'], nx)*sw; p = p.get().reshape(c['num'], nt)
    res.append((l.get(), e, p))
  (l1, e1, p1), (l2, e2, p2) = res
  g.assert_close(l1, l2, 1e-5, 1e-5*s[0], 'eigenvalues of %s and %s' % (c['f'], c['g']))
  for i in range(c['num']):
    g.assert_close(np.outer(p1[i], e1[i])*l1[i], np.outer(p2[i], e2[i])*l2[i], 0, 1e-3*s[0], 'mode %d of %s and %s' % (i, c['f'], c['g']))
    # the sign is settled where the first value of the pattern is well away from zero
    if abs(e1[i][0]) > 0.05: g.assert_close(e1[i], e2[i], 0, 2e-2, 'pattern %d of %s and %s' % (i, c['f'], c['g']))


@st.composite
def zcase(draw):
  c = draw(case())
  nx = int(np.prod(g.axes_shape(c['sp'])))
  c['w'] = draw(st.sampled_from(['space', 'space', 'lat', 'one']))
  c['f'] = draw(st.sampled_from(['EOF', 'EOF_svd', 'EOF_cov', 'EOF_iter', 'EOF_iter']))
  c['zero'] = draw(st.lists(st.integers(0, nx - 1), min_size=1, max_size=2))
  c['sub'] = 0
  return c


def check_zero(c, ctx):
  """Places of zero weight take no part in the modes."""
  import pygeode as pyg
  import pygeode.eof as E
  rec = [g.build_axis(a) for a in c['rec']]; sp = [g.build_axis(a) for a in c['sp']]
  nt = int(np.prod([len(a) for a in rec])); nx = int(np.prod([len(a) for a in sp]))
  wpass, W = weights(c, rec, sp, c['seed'])
  wv = wpass.values.copy().ravel(); wv[[z % wv.size for z in c['zero']]] = 0.
  wpass = pyg.Var(wpass.axes, values=wv.reshape(wpass.shape), name='w')
  W = wpass.values
  for i, a in enumerate(sp):
    if not wpass.hasaxis(a): W = np.expand_dims(W, i)
  if len(wpass.axes) > 1 and wpass.axes[0] != sp[0]: W = wpass.values.T
  W = (np.ones([len(a) for a in sp])*W).ravel()
  on = W > 0
  if on.sum() < 2: return
  ctx.label(c['f'], '%d of zero weight' % min((~on).sum(), 3)); ctx.nontrivial(c['num'] > 1)
  sw = np.sqrt(W/W.mean())
  c = dict(c, rank=min(nt, int(on.sum())))
  n = min(c['num'], c['rank'])
  A, s, B = matrix(c, nt, int(on.sum()), c['seed'])
  X = np.random.default_rng(c['seed'] + 2).normal(size=(nt, nx))*c['scale']
  X[:, on] = (A*s) @ B.T / sw[on]
  axs = rec + sp
  v = pyg.Var([axs[i] for i in c['order']], values=X.reshape([len(a) for a in axs]).transpose(c['order']).copy(), name=c['name'])
  g.set_chunk(10**7 if not c['chunk'] else min(10**7, nx*c['chunk']))
  e, l, p = quiet(getattr(E, c['f']), g.lazify(v, c['lazy']), num=n, iaxis=[a.name for a in rec], weight=wpass)
  g.assert_close(l.get(), s[:n], 1e-5, 1e-5*s[0], 'eigenvalues')
  e = e.get().reshape(n, nx)[:, on]*sw[on]; p = p.get().reshape(n, nt)
  g.assert_close(e @ e.T, np.eye(n), 0, 1e-3, 'EOFs not orthonormal')
  g.assert_close(X[:, on]*sw[on] @ e.T, p.T*l.get(), 0, 1e-3*s[0], 'the time series are not the projections of the data')


TESTS = [
  Test('modes', case(), check, quick=1500),
  Test('solvers', pcase(), check_pair, quick=500),
  Test('zero_weights', zcase(), check_zero, quick=400),
]
