"""P26: grids, weights, rotation of longitudes."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g

RULE = ('A case is (i) the number of points of a Gaussian grid, its order and a polynomial, (ii) the arguments of a regular grid, (iii) a variable whose axes carry weights (Gaussian, cosine, given) and a sequence of operations (selection, '
        'sorting, transposition, dropping axes, joining pieces) on it, or (iv) a field over longitudes in any order, span and position, with an origin. Non-trivial: three points or more, at least one operation, an origin that splits the longitudes. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['Gaussian grids of at most 600 latitudes', 'longitudes rotated are distinct modulo 360']


# ---------------------------------------------------------------- Gaussian grids

@st.composite
def gausscase(draw):
  return dict(n=draw(st.one_of(st.integers(1, 40), st.integers(1, 200), st.sampled_from([1, 2, 3, 31, 32, 64, 97, 128, 160, 256, 320, 321, 512, 600]))), order=draw(st.sampled_from([None, 1, -1])),
              coef=draw(st.lists(st.integers(-9, 9), min_size=1, max_size=6)), deg=draw(st.integers(0, 10**4)), again=draw(st.booleans()))


def checkgauss(c, ctx):
  import pygeode as pyg
  n = c['n']
  a = pyg.gausslat(n) if c['order'] is None else pyg.gausslat(n, c['order'])
  x, w = np.polynomial.legendre.leggauss(n)
  if c['order'] == -1: x, w = x[::-1], w[::-1]
  ctx.label('order %s' % c['order'], 'large' if n > 100 else 'odd' if n % 2 else 'even'); ctx.nontrivial(n > 2)
  assert isinstance(a, pyg.Lat) and a.name == 'lat' and len(a) == n, repr(a)
  g.assert_close(a.values, np.degrees(np.arcsin(x)), 1e-9, 1e-9, 'latitudes of the Gaussian grid')
  g.assert_close(a.weights, w, 1e-8, 1e-12, 'weights of the Gaussian grid')
  # exactness: polynomials in the sine of latitude up to degree 2n-1
  s = np.sin(np.radians(a.values))
  tot = 0.; ex = 0.
  for i, q in enumerate(c['coef']):
    k = (c['deg']*(i + 1)) % (2*n)
    tot += q*np.sum(a.weights*s**k); ex += q*(2./(k + 1) if k % 2 == 0 else 0.)
  assert abs(tot - ex) < 1e-9*sum(abs(q) for q in c['coef']) + 1e-12, 'integral of a polynomial of degree < 2n: %r, exact %r' % (tot, ex)
  v = pyg.Var((a,), values=s**((c['deg'] % n)*2))
  m = v.mean('lat').get(); k = (c['deg'] % n)*2
  assert abs(float(m) - 1./(k + 1)) < 1e-9, 'weighted mean over the sphere %r, exact %r' % (m, 1./(k + 1))
  b = pyg.gausslat(n) if c['order'] is None else pyg.gausslat(n, c['order'])
  assert a == b and g.eq(a.values, b.values) and g.eq(a.weights, b.weights), 'the same grid asked for twice'


# ---------------------------------------------------------------- regular grids

@st.composite
def regcase(draw):
  return dict(lon=draw(st.booleans()), n=draw(st.one_of(st.integers(2, 12), st.integers(2, 400))), order=draw(st.sampled_from([None, 1, -1])), flag=draw(st.sampled_from([None, True, False])),
              origin=draw(st.sampled_from([None, 0., -180., 180., 10., -27.5, 360., 0.25])))


def checkreg(c, ctx):
  import pygeode as pyg
  n = c['n']; kw = {}
  if c['order'] is not None: kw['order'] = c['order']
  ctx.label('lon' if c['lon'] else 'lat', 'flag %s' % c['flag'], 'order %s' % c['order']); ctx.nontrivial(n > 2)
  if c['lon']:
    if c['origin'] is not None: kw['origin'] = c['origin']
    if c['flag'] is not None: kw['repeat_origin'] = c['flag']
    a = pyg.regularlon(n, **kw)
    d = 360./(n - 1 if c['flag'] else n)
    exp = (c['origin'] or 0.) + d*np.arange(n)
    assert isinstance(a, pyg.Lon) and a.name == 'lon', repr(a)
  else:
    if c['flag'] is not None: kw['inc_poles'] = c['flag']
    a = pyg.regularlat(n, **kw)
    if c['flag'] is False: d = 180./(n + 1); exp = -90 + d*(np.arange(n) + 1)
    else: d = 180./(n - 1); exp = -90 + d*np.arange(n)
    assert isinstance(a, pyg.Lat) and a.name == 'lat', repr(a)
  if c['order'] == -1: exp = exp[::-1]
  assert len(a) == n, '%d points, asked for %d' % (len(a), n)
  g.assert_close(a.values, exp, 1e-12, 1e-9, 'coordinates of the regular grid')
  if not c['lon']: g.assert_close(a.weights, np.cos(np.radians(exp)), 1e-9, 1e-9, 'weights of the regular grid')


# ---------------------------------------------------------------- weights follow their axis

@st.composite
def wcase(draw):
  axs = []
  kinds = draw(st.lists(st.sampled_from(['lat', 'lon', 'pres', 'time', 'aa']), min_size=1, max_size=3, unique=True))
  if 'lat' not in kinds and draw(st.booleans()): kinds[0] = 'lat'
  for k in kinds:
    n = draw(st.sampled_from([4, 3, 6, 2, 1]))
    if k == 'lat':
      h = draw(st.sampled_from(['gauss', 'regular', 'values', 'given', 'nopoles', 'gaussrev']))
      a = dict(h=h, n=n)
      if h in ('values', 'given'): a['v'] = draw(g.axis(kind='Lat', n=n, aux=False))['v']
    else:
      a = dict(h='given' if draw(st.booleans()) else 'values', n=n)
      a['d'] = draw(g.axis(kind=dict(lon='Lon', pres='Pres', time='ModelTime365', aa='NamedAxis')[k], n=n, aux=False, name='aa' if k == 'aa' else None))
    a['k'] = k; a['w'] = draw(st.permutations([i + 1 for i in range(n)]))
    axs.append(a)
  ops = draw(st.lists(st.tuples(st.sampled_from(['sel', 'slice', 'sort', 'transpose', 'drop', 'concat', 'extend', 'load', 'arith', 'index', 'mean']), st.integers(0, 10**6)), min_size=0, max_size=4))
  return dict(axes=axs, seed=draw(g.data_seed), ops=[list(o) for o in ops], iaxes=draw(st.sampled_from([None, None, 'one', 'all', 'two'])), lazy=draw(st.sampled_from(g.LAZY)), chunk=draw(st.sampled_from(g.MAXSIZES)))


def waxis(a):
  import pygeode as pyg
  n = a['n']
  if a['k'] == 'lat':
    h = a['h']
    if h == 'gauss': x = pyg.gausslat(n); w = np.polynomial.legendre.leggauss(n)[1]
    elif h == 'gaussrev': x = pyg.gausslat(n, order=-1); w = np.polynomial.legendre.leggauss(n)[1][::-1]
    elif h in ('regular', 'nopoles'): x = pyg.regularlat(n, inc_poles=h == 'regular'); w = np.cos(np.radians(x.values))
    elif h == 'values': x = pyg.Lat(a['v']); w = np.cos(np.radians(a['v']))
    else: x = pyg.Lat(a['v'], weights=np.array(a['w'], 'd')); w = np.array(a['w'], 'd')
    return x, w
  d = dict(a['d'])
  if a['h'] == 'given': d['aux'] = dict(weights=[float(i) for i in a['w']])
  return g.build_axis(d), np.array(a['w'], 'd') if a['h'] == 'given' else None


def checkw(c, ctx):
  import pygeode as pyg
  A = [waxis(a) for a in c['axes']]
  axs = [x for x, _ in A]; names = [x.name for x in axs]
  data = g.build_data([len(a) for a in axs], 'float64', c['seed'], 'real')
  v = g.lazify(pyg.Var(axs, values=data.copy(), name='T'), c['lazy'])
  ws = {x.name: w for x, w in A}                      # name -> expected weights (None: none)
  vals = {x.name: np.asarray(x.values, 'd') for x in axs}
  nops = 0
  for o, s in c['ops']:
    if not v.naxes: break
    rng = np.random.default_rng(s)
    ax = v.axes[s % v.naxes]; nm = ax.name; n = len(ax)
    if o in ('sel', 'slice', 'index'):
      if o == 'sel':
        p = np.sort(rng.permutation(n)[:rng.integers(1, n + 1)]); v = v(**{'il_' + nm: [int(i) for i in p]})
      elif o == 'index':
        p = rng.permutation(n)[:rng.integers(1, n + 1)]
        v = v.slice[tuple([slice(None)]*v.whichaxis(nm) + [[int(i) for i in p]])]
      else:
        q = [slice(None, None, -1), slice(0, None, 2), slice(0, (n + 1)//2), slice(n//2, None)][s % 4]; p = np.arange(n)[q]
        v = v.slice[tuple([slice(None)]*v.whichaxis(nm) + [q])]
      if len(v.axes) and nm in [a.name for a in v.axes]:
        if ws[nm] is not None: ws[nm] = ws[nm][p]
        vals[nm] = vals[nm][p]
    elif o == 'sort':
      v = v.sorted(**{nm: [1, -1][s % 2]}) if s % 3 else v.sorted(nm)
      # where each value went
      new = np.asarray(v.getaxis(nm).values, 'd')
      p = [int(np.argmin(np.abs(vals[nm] - y))) for y in new]
      if ws[nm] is not None: ws[nm] = ws[nm][p]
      vals[nm] = vals[nm][p]
    elif o == 'transpose':
      v = v.transpose(*[v.axes[i].name for i in rng.permutation(v.naxes)])
    elif o == 'drop':
      v = v.slice[tuple([slice(None)]*v.whichaxis(nm) + [int(s % n)])] if n > 1 else v.squeeze(nm)
      if any(a.name == nm for a in v.axes): v = v.squeeze(nm)
    elif o == 'mean':
      if v.naxes < 2: continue
      v = v.mean(nm)
    elif o == 'concat':
      if n < 2: continue
      k = 1 + s % (n - 1)
      i = v.whichaxis(nm)
      q = [v.slice[tuple([slice(None)]*i + [slice(0, k)])], v.slice[tuple([slice(None)]*i + [slice(k, None)])]]
      v = pyg.concat.concat(q)
      new = np.asarray(v.getaxis(nm).values, 'd')
      p = [int(np.argmin(np.abs(vals[nm] - y))) for y in new]
      if ws[nm] is not None: ws[nm] = ws[nm][p]
      vals[nm] = vals[nm][p]
    elif o == 'extend':
      if v.naxes > 4 or v.hasaxis('ext'): continue
      v = v.extend(s % (v.naxes + 1), pyg.NamedAxis(np.arange(2.), 'ext', weights=np.array([1., 3.]))); ws['ext'] = np.array([1., 3.]); vals['ext'] = np.arange(2.)
    elif o == 'load': v = v.load()
    elif o == 'arith': v = (v*2 + 1)
    nops += 1
  have = [a.name for a in v.axes]
  ctx.label('%d operations' % nops, '%d weighted' % sum(ws[h] is not None for h in have), *[o for o, _ in c['ops']])
  ctx.nontrivial(nops > 0 and any(ws[h] is not None for h in have))
  for h in have:
    a = v.getaxis(h)
    g.assert_close(np.asarray(a.values, 'd'), vals[h], 1e-9, 1e-9, 'coordinates of ' + h)
    if ws[h] is None: assert not hasattr(a, 'weights'), '%s has got weights' % h
    else:
      assert hasattr(a, 'weights'), '%s has lost its weights' % h
      g.assert_close(a.weights, ws[h], 1e-12, 1e-12, 'weights of ' + h)
  pick = have
  args = ()
  if c['iaxes'] == 'one' and have: pick = have[:1]; args = (pick,)
  elif c['iaxes'] == 'two': pick = have[1:3] or have; args = (pick[::-1],)
  elif c['iaxes'] == 'all' and have: args = (have,)
  g.set_chunk(c['chunk'])
  W = v.getweights(*args)
  wt = [h for h in pick if ws[h] is not None]
  assert sorted(a.name for a in W.axes) == sorted(wt), 'weights over %s, expected %s' % ([a.name for a in W.axes], wt)
  for a in W.axes: assert a == v.getaxis(a.name), 'axis of the weights'
  exp = np.ones(())
  for a in W.axes: exp = np.multiply.outer(exp, ws[a.name])
  g.assert_close(W.get(), exp, 1e-12, 1e-12, 'weights')
  # and they are the weights of the mean
  if have:
    full = v.get()
    ww = np.ones(())
    for a in v.axes: ww = np.multiply.outer(ww, ws[a.name] if ws[a.name] is not None and a.name in pick else np.ones(len(a)))
    red = tuple(have.index(h) for h in pick)
    with np.errstate(all='ignore'):
      den = ww.sum(red)
      exp = (full*ww).sum(red)/den
    if np.all(np.abs(den) > 1e-9):
      m = v.mean(*pick)
      m = m.get() if hasattr(m, 'get') else np.asarray(m)
      big = np.abs(full).max()*np.abs(ww).sum()/np.abs(den).min()
      g.assert_close(m, exp, 1e-9, 1e-9*(1 + big), 'weighted mean over %s' % pick)


# ---------------------------------------------------------------- longitudes

@st.composite
def rotcase(draw):
  n = draw(st.sampled_from([8, 6, 12, 5, 3, 2, 1]))
  regular = draw(st.booleans())
  start = draw(st.sampled_from([0., 0., -180., 100., -27.5, 0.25]))
  if regular: lon = [start + i*360./n for i in range(n)]
  else:
    steps = sorted(draw(st.lists(st.integers(0, 1439), min_size=n, max_size=n, unique=True)))
    lon = [start + s/4. for s in steps]
  how = draw(st.sampled_from(['asc', 'asc', 'desc', 'shuf', 'wrap']))
  if how == 'desc': lon = lon[::-1]
  elif how == 'shuf': lon = draw(st.permutations(lon))
  elif how == 'wrap': lon = [x - 360*draw(st.integers(-1, 1)) for x in lon]
  others = draw(g.axes(0, 2, 1, 3, kinds=['Lat', 'Pres', 'NamedAxis', 'StandardTime'], aux=False)) if draw(st.booleans()) else []
  return dict(lon=lon, others=others, at=draw(st.integers(0, 2)), origin=draw(st.one_of(st.sampled_from([0., -180., 180., 90., 360., -360., 27.5, 720.]), st.integers(-1600, 1600).map(lambda k: k/4.), st.integers(0, 11).map(lambda i: ['at', i]))),
              dup=draw(st.booleans()), name=draw(st.sampled_from([None, None, 'longitude'])), seed=draw(g.data_seed), lazy=draw(st.sampled_from(g.LAZY)), chunk=draw(st.sampled_from(g.MAXSIZES)),
              sub=draw(g.subspec()), dtype=draw(st.sampled_from(['float64', 'float32', 'int32'])), nolon=draw(st.integers(0, 15)) == 0)


def checkrot(c, ctx):
  import pygeode as pyg
  kw = {} if c['name'] is None else dict(name=c['name'])
  lon = pyg.Lon(np.array(c['lon']), **kw)
  axs = [g.build_axis(a) for a in c['others']]
  if c['nolon']:
    if not axs: return
    v = pyg.Var(axs, values=g.build_data([len(a) for a in axs], c['dtype'], c['seed']))
    r = pyg.rotatelon(v, 10.)
    assert list(r.axes) == list(v.axes); g.assert_eq(r.get(), v.get(), 'variable without longitudes')
    return
  at = c['at'] % (len(axs) + 1)
  axs.insert(at, lon)
  data = g.build_data([len(a) for a in axs], c['dtype'], c['seed'])
  v = pyg.Var(axs, values=data.copy(), name='T'); v.units = 'K'
  v = g.lazify(v, c['lazy'])
  o = c['origin']
  if isinstance(o, list): o = c['lon'][o[1] % len(c['lon'])]
  # where each longitude goes (values near a whole turn from the origin could go to either end)
  d = np.mod(np.array(c['lon']) - o, 360.)
  if np.any(np.abs(d - 360) < 1e-6) or np.any((d > 0) & (d < 1e-6)): return
  if len(set(np.round(d, 6))) < len(d): return
  p = np.argsort(d, kind='stable')
  exp = np.take(data, p, axis=at); lons = o + d[p]
  if c['dup']:
    exp = np.concatenate([exp, np.take(exp, [0], axis=at)], axis=at); lons = np.append(lons, lons[0] + 360.)
  ctx.label('repeated' if c['dup'] else '', 'split' if list(p) != list(range(len(p))) else 'in place', c['name'] or ''); ctx.nontrivial(list(p) != list(range(len(p))) and len(p) > 2)
  r = pyg.rotatelon(v, o, duplicate=c['dup']) if c['dup'] else pyg.rotatelon(v, o)
  assert r.naxes == len(axs) and isinstance(r.axes[at], pyg.Lon), r.axes
  for i, a in enumerate(axs):
    if i != at: assert r.axes[i] == a, r.axes
  g.assert_close(r.axes[at].values, lons, 1e-12, 1e-9, 'longitudes')
  assert r.name == 'T', r.name
  g.set_chunk(c['chunk'])
  g.check_result(r, exp, c['sub'], exact=True, msg='rotated')
  g.assert_eq(v.get(), data, 'the field rotated has changed')


TESTS = [
  Test('gauss', gausscase(), checkgauss, quick=500),
  Test('regular', regcase(), checkreg, quick=500),
  Test('weights', wcase(), checkw, quick=4000),
  Test('rotate', rotcase(), checkrot, quick=2500),
]
