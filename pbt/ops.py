"""Operations of pygeode that take a variable and give a variable, for generated pipelines and histories.

An operation is applied as fn(v, P, E): P(n) gives the next of the drawn integers modulo n, E holds settings of
the case (how further operands are held).  It returns None where the operation does not apply to v.
"""
import numpy as np
from hypothesis import strategies as st
from . import gens as g
from . import cal

OPS = {}
INEXACT, JUMP, AMP, MEM = 'inexact', 'jump', 'amp', 'mem'


class Op:
  def __init__(self, name, group, fn, flags, weight):
    self.name = name; self.group = group; self.fn = fn; self.flags = set(flags); self.weight = weight
    self.meta = None


def op(group, *flags, weight=1, name=None):
  def deco(fn):
    n = name or fn.__name__.strip('_')
    OPS[n] = Op(n, group, fn, flags, weight)
    return fn
  return deco


class Draws:
  """The drawn integers of one step."""
  def __init__(self, q):
    # (a seed, so that the choices of one step are not all alike)
    q = list(q)
    self.q = q if len(q) > 1 else [int(i) for i in np.random.default_rng(q[0]).integers(0, 1000, 30)]
    self.i = 0
  def __call__(self, n):
    x = self.q[self.i % len(self.q)] + self.i//len(self.q)
    self.i += 1
    return x % n
  def sub(self, n, lo=1):
    """A subset of range(n) of at least lo members, in order."""
    out = [i for i in range(n) if self(2)]
    k = 0
    while len(out) < lo and len(out) < n:
      j = (self(n) + k) % n; k += 1
      if j not in out: out.append(j)
    return sorted(out)
  def pick(self, seq): return seq[self(len(seq))]
  def perm(self, n):
    r = list(range(n)); out = []
    while r: out.append(r.pop(self(len(r))))
    return out


def isfloat(v): return v.dtype.kind in 'fc'


def ref(v, i, P):
  """Some way of naming axis i."""
  return g.axis_ref(v, i, P.pick(['name', 'class', 'int', 'axis', 'NAME']))


def distinct(a):
  x = np.asarray(a.values)
  if x.dtype.kind not in 'fiu': return True
  x = np.sort(x.astype('d'))
  return len(x) < 2 or bool(np.all(np.diff(x) > 0.02*np.abs(x).max()/max(10, len(x))) or np.all(np.diff(x) >= 0.2))


def mono(a):
  d = np.diff(np.asarray(a.values, 'd'))
  return bool(np.all(d > 0) or np.all(d < 0))


def ok_axes(v, limit=4000):
  """Axes that identify every element: distinct names, unrelated kinds, no repeated coordinates."""
  from pygeode.axis import NamedAxis
  n = [a.name.lower() for a in v.axes]
  if len(set(n)) != len(n) or any(len(a) == 0 for a in v.axes): return False
  if v.size > limit: return False
  t = [type(a) for a in v.axes]
  for i, a in enumerate(t):
    for b in t[:i]:
      if (issubclass(a, b) or issubclass(b, a)) and not (a is b is NamedAxis): return False
  return all(distinct(a) for a in v.axes)


def timeaxis(v, year=True):
  """Index of the calendar time axis, or None."""
  from pygeode.timeaxis import CalendarTime
  for i, a in enumerate(v.axes):
    if isinstance(a, CalendarTime) and a.name == 'time' and (not year or 'year' in a.auxarrays) and 'day' in a.auxarrays: return i
  return None


def other(v, P, E, axs=None, kind='quarter', dtype=None):
  """A further variable on some of the axes of v, in some order."""
  import pygeode as pyg
  if axs is None:
    axs = [v.axes[i] for i in P.sub(v.naxes)]
    axs = [axs[i] for i in P.perm(len(axs))]
  d = dtype or P.pick(['float64', 'float64', 'int32'])
  x = g.build_data([len(a) for a in axs], d, P(1000)*7 + P(1000), kind)
  w = pyg.Var(list(axs), values=x, name=P.pick([v.name or 'w', 'w', 'z']), atts=dict(P.pick([{}, dict(v.atts), {'from': 'other'}])))
  w.units = P.pick([v.units, '', 'K'])
  how = E.get('other', 'lazy')
  E.setdefault('operands', []).append(w)
  return g.lazify(w, how)


# ------------------------------------------------------------------ element-wise

@op('arith')
def neg(v, P, E): return -v

@op('arith')
def absolute(v, P, E): return abs(v)

@op('arith')
def scale(v, P, E): return v*P.pick([2, 0.5, -1.5])

@op('arith')
def shift(v, P, E):
  c = P.pick([1, 0.25, -3])
  return P.pick([lambda: v + c, lambda: c + v, lambda: v - c, lambda: c - v])()

@op('arith', INEXACT)
def quotient(v, P, E): return P.pick([lambda: v/3, lambda: 1./(abs(v) + 1)])()

@op('arith', INEXACT)
def sine(v, P, E):
  import pygeode as pyg
  f = P.pick(['sin', 'cosd', 'arctan', 'tanh'])
  return getattr(pyg, f)(v/16) if P(2) else getattr(v/16, f)()

@op('arith', INEXACT)
def root(v, P, E): return (abs(v) + 1).sqrt()

@op('arith', INEXACT)
def expo(v, P, E):
  import pygeode as pyg
  return pyg.exp(-abs(v)*0.125)

@op('arith')
def square(v, P, E):
  if not isfloat(v): return None
  return v**2 if P(2) else v*v

@op('arith', JUMP)
def compare(v, P, E):
  c = P.pick([0, 5])
  return P.pick([lambda: v > c, lambda: v <= c, lambda: v == c])()*1.

@op('arith', JUMP)
def floors(v, P, E):
  import pygeode as pyg
  return P.pick([lambda: v % 7, lambda: pyg.sign(v), lambda: v.map(np.floor)])()

@op('arith')
def mapped(v, P, E): return v.map(lambda x: x*2 + 1)

@op('combine', weight=3)
def binary(v, P, E):
  w = other(v, P, E)
  return P.pick([lambda: v + w, lambda: w - v, lambda: v*w, lambda: v - w])()

@op('combine', INEXACT)
def ratio(v, P, E): return v/(abs(other(v, P, E)) + 1)

@op('combine', weight=2)
def partial(v, P, E):
  """An operand covering part of one axis, in the same order or another one."""
  i = P(v.naxes); a = v.axes[i]; n = len(a)
  keep = P.sub(n)
  if P(3) == 0: keep = keep[::-1]
  axs = [v.axes[j] for j in P.sub(v.naxes) if j != i]
  axs.insert(P(len(axs) + 1), a.slice[keep])
  w = other(v, P, E, axs)
  return v + w if P(2) else w*v

@op('combine')
def newaxis_operand(v, P, E):
  import pygeode as pyg
  if 'extra' in [a.name for a in v.axes] or v.naxes > 3: return None
  b = pyg.NamedAxis(np.arange(2 + P(2))*1., 'extra')
  axs = [v.axes[j] for j in P.sub(v.naxes)]; axs.insert(P(len(axs) + 1), b)
  w = other(v, P, E, axs)
  return v + w if P(2) else w - v

@op('combine')
def with_axis(v, P, E):
  i = P(v.naxes); a = v.axes[i]
  if np.asarray(a.values).dtype.kind not in 'fiu' or np.abs(np.asarray(a.values, 'd')).max() > 1e5: return None
  return v + a if P(2) else v*0.5 - a

@op('combine', INEXACT)
def anomaly(v, P, E):
  i = P(v.naxes)
  return v - v.mean(ref(v, i, P))

@op('combine')
def with_itself(v, P, E):
  if v.naxes < 2: return v + v
  return v + v.transpose(*[v.axes[i].name for i in P.perm(v.naxes)])

@op('combine')
def vsums(v, P, E):
  import pygeode as pyg
  return pyg.ufunc.vsum(v, other(v, P, E), v)


# ------------------------------------------------------------------ selection

@op('select', weight=3)
def sliced(v, P, E):
  e = []
  for n in v.shape:
    k = P(6); a, b = sorted((P(n), P(n)))
    if k in (0, 1): e.append(slice(None))
    elif k == 2: e.append(slice(a, b + 1))
    elif k == 3: e.append(slice(None, None, 2))
    elif k == 4: e.append(slice(None, None, -1))
    else: e.append(P.sub(n))
  return v.slice[tuple(e)]

@op('select', weight=2)
def keyed(v, P, E):
  i = P(v.naxes); a = v.axes[i]; n = len(a)
  j, k = sorted((P(n), P(n)))
  x = np.asarray(a.values)
  if x.dtype.kind not in 'fiu': return None
  p = P.pick(['i', 'range', 'l', 'n', 's', 'il', 'single'])
  if a.name.lower() in ('year', 'month', 'day', 'event', 'lag', 'offset'): p = P.pick(['i', 'il'])
  if p == 'i': return v(**{'i_' + a.name: (j, k + 1)})
  if p == 'il': return v(**{'il_' + a.name: P.sub(n)})
  if p == 'range':
    return v(**{a.name: (float(min(x[j], x[k])), float(max(x[j], x[k])))})
  if p == 'l': return v(**{'l_' + a.name: [float(q) for q in x[P.sub(n)]]})
  if p == 'n':
    if n < 2: return None
    return v(**{'n_' + a.name: float(x[j])})
  if p == 'single': return v(**{a.name: float(x[j])})
  if v.naxes < 2: return None
  return v(**{'s_' + a.name: float(x[j])})

@op('select', INEXACT)
def mkeyed(v, P, E):
  if v.naxes < 2: return None
  i = P(v.naxes); a = v.axes[i]; n = len(a)
  x = np.asarray(a.values)
  if x.dtype.kind not in 'fiu' or a.name.lower() in ('year', 'month', 'day', 'event', 'lag', 'offset'): return None
  j, k = sorted((P(n), P(n)))
  return v(**{'m_' + a.name: (float(min(x[j], x[k])), float(max(x[j], x[k])))})

@op('select')
def calendar(v, P, E):
  i = timeaxis(v)
  if i is None: return None
  a = v.axes[i]
  f = P.pick(['year', 'month', 'day', 'hour'])
  if f not in a.auxarrays or f in [b.name for b in v.axes]: return None
  u = sorted(set(int(q) for q in a.auxarrays[f]))
  k = u[P(len(u))]
  return v(**{('l_' if P(2) else '') + f: [k, u[0]]}) if P(2) else v(**{f: k})


# ------------------------------------------------------------------ shape

@op('shape', weight=2)
def transposed(v, P, E):
  if v.naxes < 2: return None
  p = P.perm(v.naxes)
  return v.transpose(*[ref(v, i, P) for i in p])

@op('shape')
def squeezed(v, P, E):
  if all(n == 1 for n in v.shape): return None
  one = [i for i, n in enumerate(v.shape) if n == 1]
  return v.squeeze() if not one or P(2) else v.squeeze(v.axes[one[0]].name)

@op('shape')
def extended(v, P, E):
  import pygeode as pyg
  if v.naxes > 3 or 'ext' in [a.name for a in v.axes]: return None
  return v.extend(P(v.naxes + 1), pyg.NamedAxis(np.arange(1 + P(3))*2., 'ext'))

@op('shape', weight=2)
def sorting(v, P, E):
  if P(2): return v.sorted(*[ref(v, i, P) for i in P.sub(v.naxes)])
  return v.sorted(**{v.axes[P(v.naxes)].name: P.pick([1, -1])})

@op('shape')
def renamed(v, P, E): return v.rename(P.pick(['one', 'two']))

@op('shape')
def rename_axis(v, P, E):
  i = P(v.naxes)
  if 'ren' in [a.name for a in v.axes] or v.axes[i].name in ('time', 'year', 'day'): return None
  return v.rename_axes(**{v.axes[i].name: 'ren'})

@op('shape')
def replaced(v, P, E):
  import pygeode as pyg
  i = P(v.naxes); n = v.shape[i]
  if 'rep' in [a.name for a in v.axes]: return None
  b = pyg.NamedAxis(np.arange(n)*3. + 1, 'rep')
  return v.replace_axes(**{v.axes[i].name: b}, keep_old_name=False)

@op('shape')
def cast(v, P, E):
  # (of whole numbers only to integers)
  return v.as_type(P.pick(['float64', 'float64', 'float32']))

@op('shape')
def filled(v, P, E): return v.fill(P.pick([-999, 0.5]))

@op('shape')
def unfilled(v, P, E):
  if not isfloat(v): return None
  return v.unfill(P.pick([1., -2.]))

@op('shape', MEM)
def loaded(v, P, E): return v.load()

@op('shape')
def flat(v, P, E):
  import pygeode as pyg
  if v.naxes < 2 or 'flat' in [a.name for a in v.axes]: return None
  i = 1 + P(v.naxes - 1)
  return v.flatten(i, pyg.NamedAxis(np.arange(v.shape[i]*v.shape[i-1])*2., 'flat'))


# ------------------------------------------------------------------ joining

@op('join', weight=2)
def rejoined(v, P, E):
  """Cut along an axis and concatenated again, in another order."""
  import pygeode as pyg
  i = P(v.naxes); n = v.shape[i]; a = v.axes[i]
  if type(a).__name__ in ('Index', 'Event', 'Ensemble', 'Coef') or hasattr(a, 'indices'): return None
  k = P(n + 1)
  cut = [slice(0, k), slice(k, n)]
  if P(2): cut = cut[::-1]
  pieces = [v.slice[(slice(None),)*i + (s,)] for s in cut if s.stop > s.start]
  if len(pieces) == 1: return None
  return pyg.concat.concat(pieces, iaxis=a.name) if P(2) else pyg.concatenate(*pieces)

@op('join')
def ensembles(v, P, E):
  import pygeode as pyg
  if v.naxes > 3 or any(isinstance(a, pyg.Index) for a in v.axes): return None
  return pyg.ensemble(*[x.rename(v.name or 'm') for x in [v, v*2, v + 1][:1 + P(3)]])

@op('join')
def appended(v, P, E):
  """Something else further along one of the axes."""
  import pygeode as pyg
  i = P(v.naxes); a = v.axes[i]
  if type(a).__name__ not in ('NamedAxis', 'Freq', 'Pres', 'Height', 'ZAxis') or a.auxarrays: return None
  x = np.asarray(a.values, 'd')
  kw = dict(name=a.name)
  b = type(a)(x.max() + np.arange(1, 2 + P(3))*(1 + abs(x).max()/4.), **kw)
  axs = list(v.axes); axs[i] = b
  w = other(v, P, E, axs)
  return pyg.concat.concat([v, w], iaxis=a.name)


# ------------------------------------------------------------------ reductions

@op('reduce', INEXACT, weight=3)
def reduced(v, P, E):
  if v.naxes < 2: return None
  ax = P.sub(v.naxes)
  if len(ax) == v.naxes: ax = ax[:-1]
  f = P.pick(['sum', 'mean', 'min', 'max', 'nansum', 'nanmean', 'nanmin', 'nanmax'])
  kw = dict(weights=False) if f in ('sum', 'mean', 'nansum', 'nanmean') and P(2) else {}
  return getattr(v, f)(*[ref(v, i, P) for i in ax], **kw)

@op('reduce', INEXACT, AMP, weight=2)
def spread(v, P, E):
  if v.naxes < 2: return None
  ax = P.sub(v.naxes)
  if len(ax) == v.naxes: ax = ax[1:]
  f = P.pick(['variance', 'stdev', 'nanvariance', 'nanstdev'])
  if f == 'variance' and P(2):
    # (weights large enough not to leave the sum of weights, less one, near nothing)
    import pygeode as pyg
    i = P.pick(ax)
    return v.variance(*[ref(v, j, P) for j in ax], weights=pyg.Var((v.axes[i],), values=2. + np.arange(v.shape[i]) % 3, name='w'))
  return getattr(v, f)(*[ref(v, i, P) for i in ax])

@op('reduce', JUMP)
def extremum(v, P, E):
  if v.naxes < 2: return None
  i = P(v.naxes)
  if isfloat(v) and np.isnan(v.get()).any(): return None
  return getattr(v, P.pick(['argmax', 'argmin']))(ref(v, i, P))


# ------------------------------------------------------------------ filters, calculus

def along(v, P, n=2, numeric=True):
  c = [i for i in range(v.naxes) if v.shape[i] >= n and np.asarray(v.axes[i].values).dtype.kind in 'fiu']
  return c[P(len(c))] if c else None

@op('filter', INEXACT, weight=2)
def smoothed(v, P, E):
  i = along(v, P, 3)
  if i is None or v.dtype.kind == 'c': return None
  n = v.shape[i]
  kw = P.pick([{}, dict(fft=False), dict(fft=True)])
  # (transforms spread missing values over whatever is transformed together)
  if isfloat(v) and np.isnan(v.get()).any(): kw = dict(fft=False)
  return v.smooth(ref(v, i, P), 3 + P(n - 2), **kw)

@op('filter', INEXACT)
def spectral(v, P, E):
  i = along(v, P, 2)
  if i is None: return None
  return v.fft_smooth(ref(v, i, P), 1 + P(v.shape[i]//2 + 1))

@op('calculus', INEXACT, weight=2)
def derivative(v, P, E):
  i = along(v, P, 3)
  if i is None: return None
  kw = {}
  if P(3) == 0:
    w = other(v, P, E, [v.axes[i]], kind='pos', dtype='float64')
    kw['dx'] = w.cumsum(v.axes[i].name)
  return v.deriv(ref(v, i, P), df=P.pick(['centre', 'left', 'right', '2']), **kw)

@op('calculus')
def differenced(v, P, E):
  i = along(v, P, 2)
  if i is None: return None
  return v.diff(ref(v, i, P), 1 + P(min(2, v.shape[i] - 1)))

@op('calculus', INEXACT, weight=2)
def integral(v, P, E):
  i = along(v, P, 2)
  if i is None: return None
  kw = {}
  k = P(4)
  if k == 1: kw['v0'] = 2.5
  if k == 2:
    axs = [a for j, a in enumerate(v.axes) if j != i]
    if axs: kw['v0'] = other(v, P, E, axs)
  if P(3) == 0: return v.cumsum(ref(v, i, P), order=P.pick([1, -1]), **kw)
  return v.integrate(ref(v, i, P), type=P.pick(['trapz', 'rectl', 'rectr']), order=P.pick([1, -1]), **kw)

@op('calculus', INEXACT, weight=2)
def interpolated(v, P, E):
  import pygeode as pyg
  i = along(v, P, 3)
  if i is None or v.dtype.kind == 'c' or type(v.axes[i]).__name__ in ('Hybrid',) or hasattr(v.axes[i], 'startdate'): return None
  if not mono(v.axes[i]) or 'itp' in [a.name for a in v.axes]: return None
  x = np.asarray(v.axes[i].values, 'd'); m = 1 + P(4)
  # (coordinates that are not those of the axis: there values would depend on rounding)
  y = x.min() + (x.max() - x.min())*(np.arange(m) + 0.37 + 0.01*P(20))/m*1.1
  b = pyg.NamedAxis(y, 'itp')
  kw = dict(interp_type=P.pick(['linear', 'cspline']))
  if P(2): kw.update(d_above=0.5, d_below=-1.)
  return v.interpolate(ref(v, i, P), b, transpose=bool(P(2)), **kw)


# ------------------------------------------------------------------ time series

@op('time', INEXACT, weight=4)
def climate(v, P, E):
  import pygeode as pyg
  i = timeaxis(v)
  if i is None or E.get('clim') or v.dtype.kind == 'c': return None
  n = P.pick(['climatology', 'dailymean', 'monthlymean', 'yearlymean', 'diurnalmean', 'nanclimatology', 'dailynanmean', 'monthlynanmean', 'yearlynanmean', 'seasonalmean', 'monthlycount'])
  if n.startswith('seasonal') and type(v.axes[i]).__name__ not in ('StandardTime', 'ModelTime365'): return None
  E['clim'] = 1
  return getattr(v, n)() if P(2) else getattr(pyg, n)(v)

@op('time', INEXACT, AMP)
def climspread(v, P, E):
  import pygeode as pyg
  i = timeaxis(v)
  if i is None or E.get('clim') or v.dtype.kind == 'c': return None
  E['clim'] = 1
  return getattr(pyg, P.pick(['climstdev', 'dailystdev', 'monthlystdev', 'climnanstdev', 'yearlynanstdev']))(v)

@op('time', weight=2)
def lagged(v, P, E):
  i = timeaxis(v, False)
  if i is None or v.shape[i] < 2 or E.get('clim') or any(type(a).__name__ in ('Lag', 'Yearless') for a in v.axes): return None
  return v.lag('time', [P(5) - 2, 3] if P(2) else [P(5) - 2])

@op('time')
def splittime(v, P, E):
  from pygeode import timeutils as tu
  i = timeaxis(v)
  if i is None or E.get('clim') or 'year' in [a.name for a in v.axes] or 'day' in [a.name for a in v.axes]: return None
  return tu.splittimeaxis(v)

@op('time')
def jointime(v, P, E):
  from pygeode import timeutils as tu
  n = [a.name for a in v.axes]
  if 'year' not in n or 'day' not in n or n.index('year') > n.index('day'): return None
  if type(v.axes[n.index('day')]).__name__ not in ('ModelTime365', 'ModelTime360'): return None
  return tu.jointimeaxes(v)

@op('time')
def noleap(v, P, E):
  from pygeode import timeutils as tu
  i = timeaxis(v)
  if i is None or type(v.axes[i]).__name__ != 'StandardTime' or E.get('clim'): return None
  a = v.axes[i]
  if np.all((np.asarray(a.month) == 2) & (np.asarray(a.day) == 29)): return None
  return tu.removeleapyears(v)

@op('time', weight=2)
def composites(v, P, E):
  i = along(v, P, 1)
  if i is None: return None
  a = v.axes[i]; n = len(a)
  if any(x.name in ('event', 'offset') for x in v.axes) or any(type(x).__name__ in ('Lag', 'Yearless') for x in v.axes): return None
  if hasattr(a, 'startdate') and (n < 2 or not np.all(np.diff(np.asarray(a.values, 'd')) > 0) or E.get('clim')): return None
  if a.name in ('year', 'day'): return None
  ev = [P(n) for _ in range(1 + P(3))]
  ev = sorted(set(ev))
  return v.composite(**{'il_' + a.name: ev}, evlen=1 + P(4), evoff=P(3))


# ------------------------------------------------------------------ pipelines

NAMES = [n for n, o in sorted(OPS.items()) for _ in range(o.weight)]
NAMES = [NAMES[i] for i in np.random.default_rng(5).permutation(len(NAMES))]      # (the first alternative is drawn most often)
NAMES.insert(0, 'partial')
GROUPS = sorted(set(o.group for o in OPS.values()))


@st.composite
def steps(draw, minn=1, maxn=4, groups=None):
  n = draw(st.sampled_from([k for k in (3, 2, 4, 1, 5, 6) if minn <= k <= maxn]))
  out = []
  for _ in range(n):
    if groups is None: name = draw(st.sampled_from(NAMES))
    else: name = draw(st.sampled_from([m for m in NAMES if OPS[m].group in groups]))
    out.append([name, draw(st.integers(0, 99999))])
  return out


@st.composite
def start(draw, nan=True, maxn=5, timep=True):
  """A variable to start from; a time axis in many of them."""
  lens = draw(st.sampled_from([(3, 5), (2, 4), (4, 7), (1, 5)]))
  if timep and draw(st.booleans()):
    lo = draw(st.sampled_from([1, 1, 0, 2]))
    c = draw(g.var(lo, 2, *lens, kind='quarter', nan=nan, kinds=['Lat', 'Lon', 'Pres', 'NamedAxis', 'Freq', 'Index'][:5 + draw(st.integers(0, 1))]))
    t = draw(cal.series(kinds=['StandardTime', 'ModelTime365', 'ModelTime360'], sizes=(4, 8, 12, 3, 20)))
    i = draw(st.integers(0, len(c['axes'])))
    c['axes'].insert(i, t)
  else:
    c = draw(g.var(draw(st.sampled_from([2, 2, 1, 3])), 3, *lens, kind='quarter', nan=nan, kinds=['Lat', 'Lon', 'Pres', 'NamedAxis', 'Freq', 'Index'], aux=True))
  return c


class State:
  """Follows a pipeline: which operations apply, whether values are still exact."""
  def __init__(self): self.exact = True; self.amp = False; self.single = False; self.done = []; self.scale = 1.
  def allows(self, o): return self.exact or JUMP not in o.flags
  def took(self, o, v):
    if INEXACT in o.flags or (v.dtype.kind == 'f' and v.dtype.itemsize < 8): self.exact = False
    if AMP in o.flags: self.amp = True
    if v.dtype in (np.dtype('float32'), np.dtype('complex64')): self.single = True
    self.done.append(o.name)
  def see(self, x):
    x = np.abs(np.asarray(x, 'd' if np.asarray(x).dtype.kind != 'c' else complex))
    x = x[np.isfinite(x)]
    if x.size: self.scale = max(self.scale, float(x.max()))
  def tol(self):
    a = 1e-9 if not self.single else 3e-4
    if self.amp: a = 1e-6 if not self.single else 2e-2
    return (a, a*self.scale)


def isvar(r):
  from pygeode.var import Var
  return isinstance(r, Var)


def apply(o, v, q, env):
  """The result, or None where it does not apply or leaves the domain of pipelines."""
  r = o.fn(v, Draws(q), env)
  if r is None or not isvar(r) or r.naxes == 0: return None
  if not ok_axes(r): return None
  return r
