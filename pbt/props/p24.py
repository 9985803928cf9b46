"""P24: statistics of samples along axes (correlation, regression, tests of means)."""
import itertools
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .p22 import quiet

RULE = ('A case is one or more fields with one or two sampled axes in common, and axes of their own, each in its own order, with missing values, a function with the axes sampled over (named, by class, all common ones), outputs asked for, '
        'scaling of the degrees of freedom, and the limit on the size of a piece. Non-trivial: more than one result point or missing values, with at least four samples. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['points whose variance, or whose unexplained variance, is less than 1e-5 of the typical one are not compared',
               'a factor scaling the number of samples may be applied by division with or without remainder', 'regressors have a condition number below 100']

KINDS = ['Lat', 'Lon', 'Pres', 'NamedAxis', 'Freq', 'StandardTime', 'ModelTime365']


@st.composite
def fields(draw, multi=False, nan=True):
  ks = draw(st.permutations(['Lat', 'Lon', 'Pres', 'NamedAxis', 'Freq', 'T']))
  ks = [draw(st.sampled_from(['StandardTime', 'ModelTime365'])) if k == 'T' else k for k in ks]
  ns = [draw(st.sampled_from([7, 5, 12, 4, 3, 2])), draw(st.sampled_from([3, 2, 1, 5])), draw(st.sampled_from([2, 3, 1])), draw(st.sampled_from([3, 2, 1])), draw(st.sampled_from([2, 3]))]
  pool = [draw(g.axis(kind=k, n=n, aux=False, name='zz' if k == 'NamedAxis' else None)) for k, n in zip(ks, ns)]
  c = dict(pool=pool, two=draw(st.booleans()))
  nv = draw(st.sampled_from([2, 1, 3])) + 1 if multi else 2
  c['vars'] = []
  for i in range(nv):
    # 0 (and 1) are common to all; the others any variable may have or not
    own = [j for j in (2, 3, 4) if draw(st.sampled_from([False, False, True]))]
    if multi and c['two'] and i < nv - 1 and draw(st.booleans()): base = [draw(st.sampled_from([0, 0, 1]))]
    else: base = [0, 1] if c['two'] else [0]
    v = dict(axes=draw(st.permutations(base + own)), seed=draw(g.data_seed), lazy=draw(st.sampled_from(g.LAZY)), name=draw(st.sampled_from(['T', 'u', ''])),
             dtype=draw(st.sampled_from(['float64', 'float64', 'float32', 'int32'])), scale=draw(st.sampled_from([1., 100., 30.])), shift=draw(st.sampled_from([0., 0., 1., -2., 5.] + ([] if multi else [300., -2e4]))))
    v['nan'] = draw(st.sampled_from([0, 0, 0.15, 0.5])) if nan and v['dtype'][0] == 'f' else 0
    v['const'] = draw(st.sampled_from([None]*9 + [3., 0.1, 273.15, 101325.3, -7.7e-8, 0.])) if not multi else None
    c['vars'].append(v)
  c['red'] = draw(st.sampled_from([[0], [0], None, [0, 1], [1, 0], [1]]))
  if not c['two'] and c['red'] is not None: c['red'] = [0]
  c['how'] = draw(st.sampled_from(['name', 'class', 'axis', 'NAME'])); c['chunk'] = draw(st.sampled_from(g.MAXSIZES)); c['corr'] = draw(st.sampled_from([0., 0.5, 2.]))
  return c


def build(c):
  import pygeode as pyg
  pool = [g.build_axis(a) for a in c['pool']]
  out = []
  base = None
  for i, v in enumerate(c['vars']):
    rng = np.random.default_rng(v['seed'])
    axs = [pool[j] for j in v['axes']]
    x = rng.normal(size=[len(a) for a in axs]) + v['shift']
    # something in common, so that the numbers are not all noise
    com = np.random.default_rng(c['vars'][0]['seed'] + 1).normal(size=len(pool[0]))
    if 0 in v['axes']:
      sh = [1]*len(axs); sh[list(v['axes']).index(0)] = -1
      x = x + c['corr']*com.reshape(sh)
    x = (x*v['scale']).astype(v['dtype'])
    if v.get('const') is not None: x[...] = v['const']
    if v['nan']: x[rng.random(x.shape) < v['nan']] = np.nan
    out.append((g.lazify(pyg.Var(axs, values=x.copy(), name=v['name']), v['lazy']), x.astype('d'), list(v['axes'])))
  return pool, out


def labelled(x, have, order):
  """x with dimensions in the given order (length 1 where it has none)."""
  p = [have.index(j) for j in order if j in have]
  x = x.transpose(p)
  k = 0; sh = []
  for j in order:
    if j in have: sh.append(x.shape[k]); k += 1
    else: sh.append(1)
  return x.reshape(sh)


def samples(c, pool, data):
  """Arrays (points, samples) for each field, the axes of the points, and the numbers of the reduced axes."""
  common = [j for j in range(5) if all(j in a for _, _, a in data)]
  red = common if c['red'] is None else sorted(c['red'])
  have = [j for j in range(5) if any(j in a for _, _, a in data)]
  out = [j for j in have if j not in red]
  shape = [len(pool[j]) for j in out]; n = int(np.prod([len(pool[j]) for j in red]))
  arr = []
  for _, x, a in data:
    y = labelled(x, a, out + red)
    y = np.broadcast_to(y, shape + [len(pool[j]) for j in red])
    arr.append(y.reshape(shape + [n]))
  return arr, out, red


def refs(v, c, pool, red):
  if c['red'] is None: return None
  r = []
  for j in c['red']:
    a = pool[j]
    r.append({'name': a.name, 'class': type(a), 'axis': a, 'NAME': a.name.upper()}[c['how']])
  return r


def result(ds, name, pool, out, extra=()):
  v = ds[name]
  x = v.get()
  axs = list(v.axes)
  n = len(axs) - len(extra)
  assert n == len(out), '%s has axes %s, expected %s' % (name, v.axes, [pool[j] for j in out])
  assert [a.name for a in axs[n:]] == list(extra), '%s has axes %s' % (name, v.axes)
  p = []
  for j in out:
    w = [i for i in range(n) if axs[i] == pool[j]]
    assert len(w) == 1, '%s has axes %s, expected %s' % (name, v.axes, pool[j])
    p.append(w[0])
  return x.transpose(p + list(range(n, len(axs))))


def asked(output, default, ds):
  names = default if output is None else output
  assert sorted(v.name for v in ds) == sorted(set(names)), 'results %s, asked for %s' % ([v.name for v in ds], names)
  return set(names)


def outputs(draw, names):
  return draw(st.one_of(st.none(), st.just(list(names)), st.lists(st.sampled_from(names), min_size=1, max_size=4)))


def tsf2(t, df):
  from scipy.stats import t as T
  return 2*T.sf(t, df)


def compare(name, got, exp, scale, ok=True, alt=None, rtol=1e-6, atol=1e-7):
  """exp NaN: undefined; where ok is false nothing is said."""
  got = np.asarray(got); exp = np.asarray(exp)
  assert got.shape == exp.shape, '%s: shape %s, expected %s' % (name, got.shape, exp.shape)
  ok = np.broadcast_to(ok, exp.shape)
  if alt is not None and g.close(got[ok], np.asarray(alt)[ok], rtol, atol*scale): return
  g.assert_close(got[ok], exp[ok], rtol, atol*scale, name)


# ---------------------------------------------------------------- two fields, pairs of samples

@st.composite
def paircase(draw):
  c = draw(fields())
  c['f'] = draw(st.sampled_from(['correlate', 'regress', 'paired', 'difference']))
  c['out'] = outputs(draw, dict(correlate=['r', 'r2', 'p'], regress=['m', 'b', 'r2', 'p', 'sm', 'se'], paired=['d', 'df', 'p', 'ci'], difference=['d', 'df', 'p', 'ci'])[c['f']])
  c['fac'] = [draw(st.sampled_from([None, None, 1, 2, 3])) for _ in range(2)]; c['alpha'] = draw(st.sampled_from([None, 0.05, 0.01, 0.32]))
  c['bad'] = draw(st.integers(0, 15)) == 0
  return c


def checkpair(c, ctx):
  import pygeode as pyg
  S = pyg.stats
  pool, data = build(c)
  (X, xa), (Y, ya) = [(d[0], d[2]) for d in data]
  (x, y), out, red = samples(c, pool, data)
  n = x.shape[-1]
  f = c['f']
  if f in ('paired', 'difference') and n < 2: return
  kw = {}
  if c['out'] is not None: kw['output'] = ','.join(c['out'])
  r = refs(X, c, pool, red)
  if r is not None: kw['axes'] = r
  alpha = 0.05
  if f in ('paired', 'difference') and c['alpha'] is not None: kw['alpha'] = alpha = c['alpha']
  fac = c['fac']
  if f == 'regress' or f == 'paired':
    if fac[0] is not None: kw['N_fac'] = fac[0]
  if f == 'difference':
    if fac[0] is not None: kw['Nx_fac'] = fac[0]
    if fac[1] is not None: kw['Ny_fac'] = fac[1]
  fn = dict(correlate=S.correlate, regress=S.regress, paired=S.paired_difference, difference=S.difference)[f]
  g.set_chunk(c['chunk'])
  if c['bad']:
    own = [j for j in out if not (j in xa and j in ya)]
    if own:
      try: quiet(fn, X, Y, **dict(kw, axes=[pool[own[0]].name]))
      except KeyError: pass
      else: raise AssertionError('sampling over an axis of one field only is not refused')
    try: quiet(fn, X, Y, **dict(kw, output='nothing'))
    except ValueError: pass
    else: raise AssertionError('unknown outputs are not refused')
  ds = quiet(fn, X, Y, **kw)
  dflt = dict(correlate=['r', 'p'], regress=['m', 'b', 'p'], paired=['d', 'p', 'ci'], difference=['d', 'p', 'ci'])[f]
  names = asked(c['out'], dflt, ds)
  ctx.label(f, 'axes %s' % ('all' if c['red'] is None else len(red)), 'missing' if np.isnan(x).any() or np.isnan(y).any() else '', 'own axes' if set(xa) != set(ya) else 'same axes', 'permuted' if [j for j in xa if j in ya] != [j for j in ya if j in xa] else '',
            'scaled' if any(fac) else '', 'points' if x[..., 0].size > 1 else 'one point', 'constant' if any(v['const'] is not None for v in c['vars']) else '', 'large mean' if any(abs(v['shift']) > 10 for v in c['vars']) else '')
  ctx.nontrivial(n >= 4 and (x[..., 0].size > 1 or np.isnan(x).any()))
  get = lambda k: result(ds, k, pool, out)
  sx, sy = c['vars'][0]['scale'], c['vars'][1]['scale']
  cx, cy = [v['const'] is not None for v in c['vars']]
  und = dict(difference='df p ci' if cx and cy else '', paired='p ci' if cx and cy else '', correlate='r r2 p' if cx or cy else '', regress='m b r2 p sm se' if cx else 'r2' if cy else '')[f].split()
  for k in sorted(set(und) & names): assert np.isnan(get(k)).all(), '%s: %s of values that do not vary is %s' % (f, k, get(k))
  def mean(a, m):
    k = m.sum(-1); return np.where(k > 0, np.where(m, a, 0).sum(-1)/np.maximum(k, 1), np.nan)
  if f == 'difference':
    vx, vy = ~np.isnan(x), ~np.isnan(y)
    nx, ny = vx.sum(-1), vy.sum(-1)
    mx, my = mean(x, vx), mean(y, vy)
    ssx = np.where(vx, (x - mx[..., None])**2, 0).sum(-1); ssy = np.where(vy, (y - my[..., None])**2, 0).sum(-1)
    ex = {}
    for how in (0, 1):
      enx = (nx//fac[0] if not how else nx/fac[0]) if fac[0] else nx*1.
      eny = (ny//fac[1] if not how else ny/fac[1]) if fac[1] else ny*1.
      with np.errstate(all='ignore'):
        a = ssx/(nx - 1)/enx; b = ssy/(ny - 1)/eny
        df = (a + b)**2/(a**2/(enx - 1) + b**2/(eny - 1)); se = np.sqrt(a + b)
        bad = ~((enx > 1) & (eny > 1))
        from scipy.stats import t as T
        p = tsf2(np.abs(mx - my)/se, df); ci = T.ppf(1 - alpha/2, df)*se
        df, p, ci = [np.where(bad, np.nan, z) for z in (df, p, ci)]
      ex[how] = dict(d=mx - my, df=df, p=p, ci=ci)
    with np.errstate(all='ignore'): ok = (ssx > 1e-5*sx**2*nx) & (ssy > 1e-5*sy**2*ny) | (nx < 2) | (ny < 2)
    for k in sorted(names):
      compare('difference: ' + k, get(k), ex[0][k], max(sx, sy) if k in ('d', 'ci') else 1., ok if k != 'd' else True, ex[1][k])
    return
  v = ~np.isnan(x) & ~np.isnan(y)
  N = v.sum(-1)
  if f == 'paired':
    z = x - y
    m = mean(z, v); ss = np.where(v, (z - m[..., None])**2, 0).sum(-1)
    ex = {}
    from scipy.stats import t as T
    for how in (0, 1):
      eN = (N//fac[0] if not how else N/fac[0]) if fac[0] else N*1.
      with np.errstate(all='ignore'):
        se = np.sqrt(ss/(N - 1)/eN); p = tsf2(np.abs(m)/se, eN - 1); ci = T.ppf(1 - alpha/2, eN - 1)*se
        p, ci = [np.where(eN > 1, z_, np.nan) for z_ in (p, ci)]
      ex[how] = dict(d=m, df=eN - 1., p=p, ci=ci)
    ok = (ss > 1e-5*(sx + sy)**2*N) | (N < 2)
    for k in sorted(names):
      o = dict(d=True, df=N > 1).get(k, ok)
      compare('paired: ' + k, get(k), ex[0][k], max(sx, sy) if k in ('d', 'ci') else 1., o, ex[1][k])
    return
  mx, my = mean(x, v), mean(y, v)
  with np.errstate(all='ignore'):
    dx = np.where(v, x - mx[..., None], 0); dy = np.where(v, y - my[..., None], 0)
    xx, yy, xy = (dx**2).sum(-1), (dy**2).sum(-1), (dx*dy).sum(-1)
    r = xy/np.sqrt(xx*yy); un = 1 - r**2
    if f == 'correlate':
      p = tsf2(np.abs(r)*np.sqrt((N - 2)/un), N - 2.)
      ok0 = (xx > 1e-5*sx**2*N) & (yy > 1e-5*sy**2*N) & (N > 1) | (N == 0)
      r = np.where(N > 0, r, np.nan)
      ex = dict(r=r, r2=r**2, p=p)
      okp = ok0 & ((un > 1e-5) | (N == 0)) & (N != 2)
      for k in sorted(names): compare('correlate: ' + k, get(k), ex[k], 1., okp if k == 'p' else ok0)
      one = N == 1
      for k in sorted(names):
        if one.any(): assert np.isnan(np.asarray(get(k))[one]).all(), 'correlation of one sample is %s' % get(k)
      return
    ne = N - 2. if fac[0] is None else N/fac[0] - 2.
    ne2 = N - 2. if fac[0] is None else N//fac[0] - 2.
    m = xy/xx; b = my - m*mx
    sse = yy - m*xy
    ex = {}
    for how, e in enumerate([ne, ne2]):
      q = dict(m=m, b=b, r2=r**2, se=np.sqrt(sse/e)); q['sm'] = q['se']/np.sqrt(xx); q['p'] = tsf2(np.abs(m)/q['sm'], e)
      for k in q: q[k] = np.where(e > 0, q[k], np.nan)
      ex[how] = q
    ok0 = (xx > 1e-5*sx**2*N) & (yy > 1e-5*sy**2*N) | ~(ne > 0)
    okp = ok0 & ((un > 1e-5) | ~(ne > 0))
    for k in sorted(names):
      sc = dict(m=sy/sx, b=sy, se=sy, sm=sy/sx).get(k, 1.)
      compare('regress: ' + k, get(k), ex[0][k], sc*(10 if k in 'mb' else 1), okp if k in ('p', 'sm', 'se') else ok0, ex[1][k])


# ---------------------------------------------------------------- one field

@st.composite
def onecase(draw):
  c = draw(fields())
  c['vars'] = c['vars'][:1]
  c['out'] = outputs(draw, ['m', 'p', 'ci']); c['fac'] = draw(st.sampled_from([None, None, 1, 2, 3])); c['alpha'] = draw(st.sampled_from([None, 0.05, 0.01, 0.32]))
  return c


def checkone(c, ctx):
  import pygeode as pyg
  from scipy.stats import t as T
  pool, data = build(c)
  X = data[0][0]
  (x,), out, red = samples(c, pool, data)
  n = x.shape[-1]
  if n < 2: return
  kw = {}
  if c['out'] is not None: kw['output'] = ','.join(c['out'])
  r = refs(X, c, pool, red)
  if r is not None: kw['axes'] = r
  alpha = 0.05
  if c['alpha'] is not None: kw['alpha'] = alpha = c['alpha']
  if c['fac'] is not None: kw['N_fac'] = c['fac']
  g.set_chunk(c['chunk'])
  ds = quiet(pyg.stats.isnonzero, X, **kw)
  if isinstance(ds, tuple): return      # the documented form for a single result
  names = asked(c['out'], ['m', 'p'], ds)
  ctx.label('missing' if np.isnan(x).any() else '', 'scaled' if c['fac'] else '', 'all axes' if not out else '')
  ctx.nontrivial(n >= 4 and (x[..., 0].size > 1 or np.isnan(x).any()))
  v = ~np.isnan(x); N = v.sum(-1); sc = c['vars'][0]['scale']
  with np.errstate(all='ignore'):
    m = np.where(v, x, 0).sum(-1)/N
    ss = np.where(v, (x - m[..., None])**2, 0).sum(-1)
    ex = {}
    for how in (0, 1):
      e = (N//c['fac'] if not how else N/c['fac']) if c['fac'] else N*1.
      se = np.sqrt(ss/(N - 1)/e)
      p = tsf2(np.abs(m)/se, e - 1); ci = T.ppf(1 - alpha/2, e - 1)*se
      p, ci = [np.where(e > 1, z, np.nan) for z in (p, ci)]
      ex[how] = dict(m=m, p=p, ci=ci)
  ok = (ss > 1e-5*sc**2*N) | (N < 2)
  if c['vars'][0]['const'] is not None:
    for k in sorted(names & {'p', 'ci'}): assert np.isnan(result(ds, k, pool, out)).all(), '%s of values that do not vary' % k
  for k in sorted(names): compare('isnonzero: ' + k, result(ds, k, pool, out), ex[0][k], sc if k != 'p' else 1., ok if k != 'm' else True, ex[1][k])


# ---------------------------------------------------------------- several regressors

@st.composite
def multicase(draw):
  c = draw(fields(multi=True, nan=False))
  c['out'] = outputs(draw, ['B', 'r2', 'p', 'sb', 'covb', 'se']); c['fac'] = draw(st.sampled_from([None, None, 1, 2]))
  return c


def checkmulti(c, ctx):
  import pygeode as pyg
  pool, data = build(c)
  Xs = [d[0] for d in data[:-1]]; Y = data[-1][0]
  # every regressor varies along an axis sampled over
  common = [j for j in range(5) if any(j in a for _, _, a in data[:-1]) and j in data[-1][2]]
  red = common if c['red'] is None else sorted(c['red'])
  if any(not set(red) & set(a) for _, _, a in data): return
  if not all(j in data[-1][2] and any(j in a for _, _, a in data[:-1]) for j in red): return
  # the regressors have an axis in common with each other
  if not all(set(a) & set(b) for _, _, a in data for _, _, b in data): return
  cc = dict(c, red=red)
  arr, out, _ = samples(cc, pool, data)
  n = arr[0].shape[-1]; nr = len(Xs)
  if n < nr + 2: return
  X = np.stack(arr[:-1], -1); y = arr[-1]         # points, samples, regressors
  Xf = X.reshape(-1, n, nr); yf = y.reshape(-1, n)
  for i in range(len(Xf)):
    if np.linalg.cond(Xf[i]/[v['scale'] for v in c['vars'][:-1]]) > 100: return
  kw = {}
  if c['out'] is not None: kw['output'] = ','.join(c['out'])
  if c['red'] is not None: kw['axes'] = refs(None, c, pool, red)
  if c['fac'] is not None: kw['N_fac'] = c['fac']
  g.set_chunk(c['chunk'])
  ds = quiet(pyg.stats.multiple_regress, Xs, Y, **kw)
  names = asked(c['out'], ['B', 'p'], ds)
  ctx.label('%d regressors' % nr, '%d points' % min(3, len(Xf)), 'partial' if any(not set(red) <= set(a) for _, _, a in data[:-1]) else '')
  ctx.nontrivial(nr > 1)
  sh = list(y.shape[:-1])
  ne = [n if c['fac'] is None else n//c['fac'], n if c['fac'] is None else n/c['fac']]
  B = np.empty((len(Xf), nr)); inv = np.empty((len(Xf), nr, nr)); sse = np.empty(len(Xf))
  for i in range(len(Xf)):
    B[i] = np.linalg.lstsq(Xf[i], yf[i], rcond=None)[0]
    q, R = np.linalg.qr(Xf[i]); Ri = np.linalg.inv(R); inv[i] = Ri @ Ri.T
    sse[i] = ((yf[i] - Xf[i] @ B[i])**2).sum()
  syy = ((yf - yf.mean(-1)[:, None])**2).sum(-1)
  tot = (yf**2).sum(-1)
  ex = {}
  sx = np.array([v['scale'] for v in c['vars'][:-1]]); sy = c['vars'][-1]['scale']
  for how, e in enumerate(ne):
    df = e - nr
    with np.errstate(all='ignore'):
      s2 = sse/df if df > 0 else sse*np.nan
      cov = s2[:, None, None]*inv; sb = np.sqrt(np.diagonal(cov, axis1=1, axis2=2))
      ex[how] = dict(B=B*sx/sy, r2=1 - sse/syy, se=np.sqrt(s2)/sy, sb=sb*sx/sy, covb=cov*np.outer(sx, sx)/sy**2, p=tsf2(np.abs(B)/sb, df))
  ok = sse > 1e-5*tot
  if ne[0] - nr <= 0: names -= {'se', 'sb', 'covb', 'p'}
  for k in sorted(names):
    extra = dict(B=['regressor'], p=['regressor'], sb=['regressor'], covb=['regressor', 'regressor2']).get(k, [])
    got = result(ds, k, pool, out, extra)
    if k in ('B', 'sb'): got = got*sx/sy
    if k == 'covb': got = got*np.outer(sx, sx)/sy**2
    if k == 'se': got = got/sy
    tail = [nr]*len(extra)
    o = (syy > 1e-5*tot) & ok if k == 'r2' else ok
    o = np.broadcast_to(o.reshape(sh + [1]*len(tail)), sh + tail)
    compare('multiple_regress: ' + k, got, ex[0][k].reshape(sh + tail), 10., o, ex[1][k].reshape(sh + tail), rtol=1e-5)


TESTS = [
  Test('pairs', paircase(), checkpair, quick=3000),
  Test('one', onecase(), checkone, quick=800),
  Test('multiple', multicase(), checkmulti, quick=1200),
]
