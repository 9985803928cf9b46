"""Strategies producing JSON descriptions of axes, arrays, index expressions, and the
builders that turn a description into the pygeode / numpy objects it stands for."""
import math
import numpy as np
from hypothesis import strategies as st

# ------------------------------------------------------------------ axes

# kind -> (class name, value style)
PLAIN = ['Lat', 'Lon', 'Pres', 'ZAxis', 'Height', 'Hybrid', 'XAxis', 'YAxis', 'NamedAxis', 'Axis', 'Index', 'Freq']
TIMES = ['StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless']


@st.composite
def coord_values(draw, n, lo=-80, step_max=5, style=None, ints=False):
  """n distinct, well separated coordinate values; ascending, descending or shuffled."""
  style = style or draw(st.sampled_from(['asc', 'asc', 'asc', 'desc', 'shuf']))
  start = draw(st.integers(lo, lo + 60))
  regular = draw(st.booleans())
  q = 1 if ints else 4
  if regular:
    d = draw(st.integers(1, step_max*q))
    v = [start*q + d*i for i in range(n)]
  else:
    v = [start*q]
    for i in range(n-1): v.append(v[-1] + draw(st.integers(1, step_max*q)))
  v = v[:n]
  if style == 'desc': v = v[::-1]
  elif style == 'shuf': v = draw(st.permutations(v))
  return [int(x) if ints else x/q for x in v]


@st.composite
def axis(draw, kind=None, n=None, minn=1, maxn=6, name=None, style=None, aux=True, kinds=None):
  kind = kind or draw(st.sampled_from(kinds or (PLAIN + ['StandardTime', 'ModelTime365'])))
  if n is None: n = draw(st.integers(minn, maxn))
  a = dict(k=kind)
  if kind in TIMES:
    a.update(draw(time_axis(kind, n, style=style)))
  elif kind in ('Index', 'Station'):
    a['v'] = list(range(n))
  else:
    lo = {'Lat': -80, 'Lon': 0, 'Pres': 10, 'Height': 1, 'Hybrid': 1, 'Freq': 1}.get(kind, -50)
    step = {'Lat': 5}.get(kind, 20)
    if kind == 'Lat': step = max(1, min(20, 100//max(n, 1)))
    a['v'] = draw(coord_values(n, lo=lo, step_max=step, style=style))
  if kind in ('NamedAxis', 'Axis') or name: a['name'] = name or draw(st.sampled_from(['aa', 'bb', 'cc', 'dd']))
  if kind == 'Station': a['aux'] = {'station': ['st%d' % i for i in draw(st.permutations(list(range(n))))]}
  if aux and kind not in TIMES and kind not in ('Hybrid', 'Station') and draw(st.integers(0, 3)) == 0:
    a['aux'] = {'ax1': draw(st.permutations(list(range(100, 100 + n))))}
  return a


@st.composite
def time_axis(draw, kind, n, style=None, units=None, maxgap=40):
  units = units or draw(st.sampled_from(['days', 'days', 'hours', 'minutes', 'seconds']))
  step = draw(st.integers(1, {'days': 20, 'hours': 30, 'minutes': 700, 'seconds': 50000}[units]))
  style = style or draw(st.sampled_from(['asc', 'asc', 'asc', 'desc', 'shuf']))
  if draw(st.booleans()):
    v = [i*step for i in range(n)]
  else:
    v = [0]
    for i in range(n-1): v.append(v[-1] + draw(st.integers(1, maxgap)))
    v = v[:n]
  o = draw(st.integers(0, 400))
  v = [x + o for x in v]
  if style == 'desc': v = v[::-1]
  elif style == 'shuf': v = list(draw(st.permutations(v)))
  start = dict(day=draw(st.integers(1, 28)), hour=draw(st.sampled_from([0, 0, 6, 23])), minute=draw(st.sampled_from([0, 0, 0, 30])), second=draw(st.sampled_from([0, 0, 0, 45])))
  if kind != 'Yearless':
    start['year'] = draw(st.sampled_from([1, 1896, 1899, 1900, 1979, 1999, 2000, 2004, 2100]))
    start['month'] = draw(st.integers(1, 12))
  return dict(v=v, units=units, start=start)


def distinct_kinds(draw, n, kinds):
  return draw(st.lists(st.sampled_from(kinds), min_size=n, max_size=n, unique=True))


# kinds none of which is a parent class of another: an unambiguous set of axes
SAFE = ['Lat', 'Lon', 'Pres', 'NamedAxis', 'Index', 'Freq', 'StandardTime', 'ModelTime365']
VERT = ['Pres', 'Height', 'Hybrid']


@st.composite
def axes(draw, minnd=1, maxnd=3, minn=1, maxn=6, style=None, aux=True, kinds=None, need=None):
  """A list of axis descriptions, with no two of related classes."""
  kinds = list(kinds or SAFE)
  nd = draw(st.integers(minnd, maxnd))
  ks = distinct_kinds(draw, nd, kinds)
  if need and need not in ks:
    if ks: ks[draw(st.integers(0, len(ks)-1))] = need
    else: ks = [need]
  # at most one of the time axis classes
  out = []
  seent = False
  for k in ks:
    if k in TIMES:
      if seent: continue
      seent = True
    if k == 'Pres' and 'Height' not in ks and 'Hybrid' not in ks:
      k = draw(st.sampled_from(VERT + ['Pres', 'ZAxis'])) if kinds == SAFE else k
    out.append(draw(axis(kind=k, minn=minn, maxn=maxn, style=style, aux=aux)))
  while len(out) < minnd:
    out.append(draw(axis(kind='NamedAxis', minn=minn, maxn=maxn, style=style, aux=aux, name='zz%d' % len(out))))
  return out


def build_axis(a):
  import pygeode as pyg
  from pygeode import axis as axm
  k = a['k']
  kw = {}
  for n, v in (a.get('aux') or {}).items(): kw[n] = np.array(v)
  for n, v in (a.get('auxatts') or {}).items(): kw[n] = v
  if a.get('name') and k not in ('NamedAxis',): kw['name'] = a['name']
  if a.get('atts'): kw['atts'] = dict(a['atts'])
  if a.get('order'): kw['plotatts'] = dict(plotorder=a['order'])
  dt = a.get('dtype', 'd')
  if k in TIMES:
    cls = getattr(pyg, k)
    return cls(np.array(a['v'], dtype='d'), units=a['units'], startdate=dict(a['start']), **kw)
  if k == 'NamedAxis': return pyg.NamedAxis(np.array(a['v'], dt), a['name'], **kw)
  if k == 'Index': return pyg.Index(len(a['v']), **kw)
  if k == 'Station': return axm.Station(**kw)
  if k == 'Hybrid':
    v = np.array(a['v'], dt)
    return pyg.Hybrid(v, A=v*10., B=v*0.5 + 1., **kw)
  return getattr(pyg if hasattr(pyg, k) else axm, k)(np.array(a['v'], dt), **kw)


def axes_shape(axs): return tuple(len(a['v']) for a in axs)

# ------------------------------------------------------------------ data

DTYPES = ['float64', 'float64', 'float64', 'float32', 'float32', 'int32', 'int64', 'int16', 'uint8']

data_seed = st.integers(0, 10**6)


MAGNITUDES = ['range', 'top', 'offset', 'constant', 'zeros']
INTS = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64']


def magnitudes(shape, dtype, kind, seed):
  """ Numbers over the whole range of their type; scatter about a large value; all the same. """
  rng = np.random.default_rng(seed); d = np.dtype(dtype)
  if d.kind in 'iu':
    ii = np.iinfo(d); lo, hi = max(int(ii.min), -2**44), min(int(ii.max), 2**44)
    if kind == 'range': v = rng.integers(lo, hi + 1, shape)
    elif kind == 'top': v = hi - rng.integers(0, 3, shape)
    elif kind in ('offset', 'tight'): v = (hi//2 if seed % 2 else lo//2) + rng.integers(-20, 21, shape)
    elif kind == 'constant': v = np.full(shape, rng.integers(lo, hi + 1))
    else: v = np.zeros(shape)
    return np.asarray(v).astype(d)
  if kind == 'range': v = rng.normal(0, 1, shape) * 10.**rng.integers(-12, 13)
  elif kind == 'tight': v = float(rng.choice([273., 1e5, -2e5])) + rng.normal(0, 1, shape)*1e-3
  elif kind in ('offset', 'top'): v = float(rng.choice([273., 1000., 1e5, -2e5])) + rng.normal(0, 1, shape)*float(rng.choice([2., 20.]))
  elif kind == 'constant': v = np.full(shape, float(rng.choice([0.1, 273.15, 101325., -7.7e-8])))
  else: v = np.zeros(shape)
  return np.asarray(v).astype(d)


def build_data(shape, dtype='float64', seed=0, kind='perm', nan=0.):
  """Deterministic array from a seed.
  perm: a permutation of 0..N-1 (every element distinct, so that misplacement shows);
  small: small integers (exact sums);  real: smooth random reals."""
  if kind in MAGNITUDES + ['tight']: return magnitudes(shape, dtype, kind, seed)
  rng = np.random.default_rng(seed)
  n = int(np.prod(shape)) if len(shape) else 1
  if kind == 'perm': v = rng.permutation(n) + 1
  elif kind == 'small': v = rng.integers(-9, 10, n)
  elif kind == 'pos': v = rng.uniform(0.5, 3., n)
  elif kind == 'real': v = rng.normal(0, 3, n) + rng.choice([0., 0., 10.])
  elif kind == 'quarter': v = rng.integers(-400, 400, n)/4.
  else: raise ValueError(kind)
  v = np.asarray(v).reshape(shape)
  d = np.dtype(dtype)
  if d.kind == 'b': v = (np.asarray(v, 'i8') % 2).astype(bool)
  v = v.astype(d)
  if nan and d.kind == 'f':
    m = rng.random(v.shape) < nan
    v = np.where(m, np.array(np.nan, d), v)
  return v


def same_dtype(*ds):
  """The same type, whatever the order of the bytes."""
  return len({np.dtype(d).newbyteorder('=') for d in ds}) == 1


# how the values lie in memory: in row order, in column order, in the other byte order, backwards, with gaps, read-only
LAYOUTS = ['C', 'C', 'C', 'C', 'C', 'F', 'be', 'neg', 'gaps', 'ro']


def layout(a, how=None):
  """A copy of an array with the same values, laid out in memory as asked."""
  a = np.array(a, order='C')
  if how == 'F': return np.array(a, order='F')
  if how == 'be': return a.astype(a.dtype.newbyteorder('>'))
  if how == 'neg':
    r = (slice(None, None, -1),)*a.ndim
    return a[r].copy()[r]
  if how == 'gaps':
    b = np.zeros([2*n for n in a.shape], a.dtype); r = (slice(None, None, 2),)*a.ndim
    b[r] = a
    return b[r] if a.ndim else a
  if how == 'ro': a.flags.writeable = False
  return a


@st.composite
def var(draw, minnd=1, maxnd=3, minn=1, maxn=6, kind=None, dtypes=None, nan=False, style=None, aux=True,
        kinds=None, need=None, meta=True):
  c = dict(axes=draw(axes(minnd, maxnd, minn, maxn, style=style, aux=aux, kinds=kinds, need=need)),
           dtype=draw(st.sampled_from(dtypes or DTYPES)), seed=draw(data_seed), kind=kind or 'perm')
  if nan and c['dtype'].startswith('float'): c['nan'] = draw(st.sampled_from([0, 0, 0.2, 0.6]))
  c['name'] = draw(st.sampled_from(['T', 'u', 'q']))
  lay = draw(st.sampled_from(LAYOUTS))
  if lay != 'C': c['lay'] = lay
  if meta:
    c['units'] = draw(st.sampled_from(['K', '', 'm s-1']))
    c['atts'] = draw(st.sampled_from([{}, {'long_name': 'thing'}, {'x': 1, 'y': 'why'}]))
  return c


def var_data(c): return build_data(axes_shape(c['axes']), c['dtype'], c['seed'], c['kind'], c.get('nan', 0))


def build_var(c, axs=None, data=None):
  import pygeode as pyg
  axs = axs if axs is not None else [build_axis(a) for a in c['axes']]
  data = var_data(c) if data is None else data
  v = pyg.Var(axs, values=layout(data, c.get('lay')), name=c.get('name', 'v'), atts=dict(c.get('atts', {})))
  v.units = c.get('units', '')
  return v


# ------------------------------------------------------------------ index expressions

@st.composite
def index(draw, n, ints=True, lists=True, empty=False, beyond=True):
  """One index into an axis of length n, as JSON: ['s',a,b,c] | ['i',k] | ['l',[...]]."""
  opts = ['full', 'slice', 'slice']
  if ints: opts.append('int')
  if lists: opts += ['list', 'ulist']
  o = draw(st.sampled_from(opts))
  if o == 'full': return ['s', None, None, None]
  if o == 'int': return ['i', draw(st.integers(-n, n-1))]
  if o == 'list': return ['l', draw(st.lists(st.integers(0, n-1), min_size=1, max_size=n+2))]
  if o == 'ulist':
    p = draw(st.permutations(list(range(n))))
    return ['l', list(p[:draw(st.integers(1, n))])]
  x = 3 if beyond else 0
  a = draw(st.one_of(st.none(), st.integers(-n-x, n-1+x)))
  b = draw(st.one_of(st.none(), st.integers(-n-x, n+x)))
  c = draw(st.sampled_from([None, 1, 1, 2, 3, -1, -1, -2]))
  s = ['s', a, b, c]
  if len(range(*slice(a, b, c).indices(n))) == 0 and not empty:
    # turn it into a non-empty one
    s = ['s', None, None, c] if n else s
  return s


def ix(e):
  """JSON index -> python index."""
  if e[0] == 's': return slice(e[1], e[2], e[3])
  if e[0] == 'i': return e[1]
  return list(e[1])


def ixarr(e, n):
  """JSON index -> explicit integer positions."""
  if e[0] == 's': return list(range(*slice(e[1], e[2], e[3]).indices(n)))
  if e[0] == 'i': return [e[1] % n]
  return [k % n for k in e[1]]


def subset(arr, idx):
  """Orthogonal indexing: idx is a list of position lists."""
  for d, p in enumerate(idx):
    arr = np.take(arr, np.array(p, dtype='i8'), axis=d)
  return arr


# ------------------------------------------------------------------ comparisons

def eq(a, b):
  """Exactly equal, NaN equal to NaN, shapes equal."""
  a = np.asarray(a); b = np.asarray(b)
  if a.shape != b.shape: return False
  if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
    return bool(np.all((a == b) | ((a != a) & (b != b))))
  return bool(np.all(a == b))


def close(a, b, rtol=1e-9, atol=1e-9):
  a = np.asarray(a); b = np.asarray(b)
  if a.shape != b.shape: return False
  return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def assert_eq(a, b, msg=''):
  if not eq(a, b):
    raise AssertionError('%s\n  got      %s %s\n  expected %s %s' % (msg, np.shape(a), short(a), np.shape(b), short(b)))


def assert_close(a, b, rtol=1e-9, atol=1e-9, msg=''):
  if not close(a, b, rtol, atol):
    a_, b_ = np.asarray(a), np.asarray(b)
    extra = ''
    if a_.shape == b_.shape and a_.dtype.kind in 'fiub' and b_.dtype.kind in 'fiub':
      d = np.abs(a_.astype('d') - b_.astype('d')); extra = '\n  max diff %s' % (np.nanmax(d) if d.size and not np.all(np.isnan(d)) else None)
    raise AssertionError('%s\n  got      %s %s\n  expected %s %s%s' % (msg, np.shape(a), short(a), np.shape(b), short(b), extra))


def short(a):
  s = np.array2string(np.asarray(a), threshold=60, precision=10).replace('\n', ' ')
  return s if len(s) < 700 else s[:700] + '...'


def same_axis(a, b, msg='', rtol=1e-12, atol=1e-9):
  """Two pygeode axes describe the same thing: class, name, values, auxiliary arrays."""
  assert type(a).__name__ == type(b).__name__, '%s: axis class %s, expected %s' % (msg, type(a).__name__, type(b).__name__)
  assert a.name == b.name, '%s: axis name %r, expected %r' % (msg, a.name, b.name)
  assert_close(np.asarray(a.values, 'd'), np.asarray(b.values, 'd'), rtol, atol, msg + ': axis values (%s)' % a.name)
  same_aux(a, b, msg)


def same_aux(a, b, msg=''):
  assert set(a.auxarrays) == set(b.auxarrays), '%s: auxiliary arrays %s, expected %s' % (msg, sorted(a.auxarrays), sorted(b.auxarrays))
  for k in a.auxarrays:
    x, y = np.asarray(a.auxarrays[k]), np.asarray(b.auxarrays[k])
    if x.dtype.kind in 'fiu': assert_close(x, y, 1e-12, 1e-12, '%s: auxiliary array %s' % (msg, k))
    else: assert list(x) == list(y), '%s: auxiliary array %s: %s, expected %s' % (msg, k, x, y)


def axis_after(a, pos, name=None):
  """What selecting positions `pos` of axis description `a` must leave: (values, aux arrays)."""
  full = build_axis(a)
  p = np.array(pos, 'i8')
  return full, p


def assert_sub_axis(got, full, pos, msg=''):
  """`got` is the axis `full` restricted to the positions pos."""
  p = np.array(pos, 'i8')
  assert type(got).__name__ == type(full).__name__, '%s: class %s, expected %s' % (msg, type(got), type(full))
  assert got.name == full.name, '%s: name %r, expected %r' % (msg, got.name, full.name)
  assert len(got) == len(p), '%s: %d points on %s, expected %d' % (msg, len(got), full.name, len(p))
  if hasattr(full, 'startdate') and 'startdate' in full.auxatts:
    # relative times: same instants
    assert_close(np.asarray(got.values, 'd'), np.asarray(full.values, 'd')[p], 1e-9, 1e-9, msg + ': time values')
  elif type(full).__name__ not in ('Station', 'NonCoordinateAxis'):
    assert_eq(got.values, full.values[p], msg + ': axis values (%s)' % full.name)
  assert set(got.auxarrays) == set(full.auxarrays), '%s: aux arrays %s expected %s' % (msg, sorted(got.auxarrays), sorted(full.auxarrays))
  for k in full.auxarrays:
    x, y = np.asarray(got.auxarrays[k]), np.asarray(full.auxarrays[k])[p]
    assert list(x) == list(y) or (x.dtype.kind == 'f' and close(x, y)), '%s: aux array %s: %s expected %s' % (msg, k, x, y)
  for k in full.auxatts:
    assert k in got.auxatts, '%s: auxiliary attribute %s lost' % (msg, k)
    if k != 'startdate': assert got.auxatts[k] == full.auxatts[k], '%s: auxiliary attribute %s' % (msg, k)
  assert dict(got.atts) == dict(full.atts), '%s: axis attributes %s expected %s' % (msg, got.atts, full.atts)


# ------------------------------------------------------------------ laziness, chunk size, naming axes

LAZY = ['mem', 'lazy', 'lazy', 'slice', 'trans']


def lazify(v, how):
  """The same variable, not held in memory (or held in memory for 'mem')."""
  if how == 'mem': return v
  if how == 'lazy':
    import pygeode as pyg
    from pygeode.var import Var, copy_meta
    class LazyVar(Var):
      def __init__(self, src):
        Var.__init__(self, src.axes, dtype=src.dtype)
        self.src = src
        copy_meta(src, self)
      def getview(self, view, pbar): return view.get(self.src, pbar=pbar)
    return LazyVar(v)
  if how == 'slice': return v.slice[tuple(slice(None) for _ in v.axes)] if v.naxes else v
  if how == 'trans':
    if v.naxes < 2: return lazify(v, 'lazy')
    names = list(range(v.naxes))
    return v.transpose(*names[::-1]).transpose(*names[::-1])
  raise ValueError(how)


MAXSIZES = [1, 2, 3, 5, 7, 11, 16, 40, 100, 10**7]


def set_chunk(n):
  import pygeode
  pygeode.MAX_ARRAY_SIZE = n


AXIS_REF = ['name', 'name', 'class', 'int', 'axis', 'NAME']


def axis_ref(v, i, how):
  """One way of naming axis i of v."""
  a = v.axes[i]
  if how == 'class':
    cls = type(a)
    if [isinstance(b, cls) for b in v.axes].count(True) == 1: return cls
    return a.name
  if how == 'int': return i
  if how == 'axis': return a
  if how == 'NAME': return a.name
  return a.name


# ------------------------------------------------------------------ sub-selections of results of unknown shape

@st.composite
def subspec(draw, lists=True):
  """One entry per axis (used cyclically): how to select from an axis whose length is not known yet."""
  out = []
  for _ in range(draw(st.integers(1, 4))):
    k = draw(st.sampled_from(['all', 'all', 'part', 'part', 'step', 'rev', 'pick', 'one', 'irr', 'irr'] if lists else ['all', 'part', 'step', 'rev', 'one']))
    if k == 'all': out.append(['all'])
    elif k in ('part', 'step', 'rev'):
      out.append([k, draw(st.integers(0, 100)), draw(st.integers(0, 100)), draw(st.integers(1, 3))])
    elif k == 'one': out.append(['one', draw(st.integers(0, 50))])
    elif k == 'irr': out.append(['irr', draw(st.integers(0, 999)), draw(st.booleans())])
    else: out.append(['pick', draw(st.lists(st.integers(0, 50), min_size=1, max_size=5))])
  return out


def resolve_sub(spec, shape):
  """-> python index expressions (all lists or slices: no axis is dropped) and explicit positions."""
  e, pos = [], []
  for d, n in enumerate(shape):
    s = spec[d % len(spec)]
    if n == 0 or s[0] == 'all': x = slice(None)
    elif s[0] == 'one': k = s[1] % n; x = slice(k, k+1)
    elif s[0] == 'pick': x = [k % n for k in s[1]]
    elif s[0] == 'irr':
      # distinct positions, unevenly spaced where there are enough of them
      rng = np.random.default_rng(s[1] + d)
      p = rng.permutation(n)[:max(min(n, 3), rng.integers(0, n + 1))]
      x = [int(q) for q in (np.sort(p) if s[2] else p)]
    else:
      a, b = sorted((s[1] % n, s[2] % n))
      b += 1
      if s[0] == 'part': x = slice(a, b)
      elif s[0] == 'step': x = slice(a, b, s[3])
      else: x = slice(b-1, a-1 if a > 0 else None, -s[3])
    e.append(x)
    pos.append(list(range(*x.indices(n))) if isinstance(x, slice) else x)
  return tuple(e), pos


def check_part(r, full, spec, msg='', rtol=1e-9, atol=1e-9, exact=False):
  """Retrieving a part of r gives that part of the array `full`."""
  if not r.shape: return
  e, pos = resolve_sub(spec, r.shape)
  got = r.slice[e].get()
  exp = subset(full, pos)
  m = '%s: part %s of the result' % (msg, e)
  if exact: assert_eq(got, exp, m)
  else: assert_close(got, exp, rtol, atol, m)


def check_result(r, exp, spec=None, rtol=1e-9, atol=1e-9, exact=False, msg='', dtype=True):
  """Whole result, announced shape and dtype, and one part of it."""
  got = r.get()
  assert r.shape == tuple(len(a) for a in r.axes), '%s: shape %s but axes %s' % (msg, r.shape, r.axes)
  assert got.shape == r.shape, '%s: announced shape %s, data %s' % (msg, r.shape, got.shape)
  if dtype: assert same_dtype(got.dtype, r.dtype), '%s: announced dtype %s, data %s' % (msg, r.dtype, got.dtype)
  if exact: assert_eq(got, exp, msg)
  else: assert_close(got, exp, rtol, atol, msg)
  if spec is not None: check_part(r, got, spec, msg, rtol, atol, exact)
  return got
