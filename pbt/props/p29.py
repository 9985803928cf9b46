"""P29: labels of coordinates, ticks of time axes, descriptions."""
import math
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import cal
from .p11 import expected, mk

RULE = ('A case is an axis (of any kind, with metadata) with values and formats, or a calendar with a start date, a unit and a sequence of views (sometimes reversed) '
        'of a plotted time axis, or variables and datasets with metadata. Non-trivial: the value is not zero, or there are two ticks or more, or the variable has an axis. '
        'Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['the default configuration is in place', 'years are positive and have at most four digits', 'views of a time axis are of five seconds or longer']

# ------------------------------------------------------------------ labels

CONV = ['%g', '%d', '%.1f', '%.3g', '%6.2f', '%.4g', '%+.2f', '%e']
ZERO = dict(Lat=('%.2g ', 'N'), Lon=('%.3g ', 'E<360'), Pres=('%.2g', '<100'))


@st.composite
def label_case(draw):
  k = draw(st.sampled_from(['Lat', 'Lat', 'Lon', 'Lon', 'Lon', 'Pres', 'Pres', 'ZAxis', 'Height', 'Hybrid', 'NamedAxis', 'XAxis', 'Index', 'Freq', 'Var']))
  sign = draw(st.sampled_from([1, 1, -1]))
  big = dict(Lat=90*8, Lon=1080*8, Pres=1200*8).get(k, 4000)
  v = draw(st.one_of(st.integers(0, big), st.sampled_from([0, 8*90, 8*100, 8*180, 8*360, 8*359])))/8.
  if k != 'Pres': v = v*sign
  conv = draw(st.sampled_from(CONV))
  c = dict(k=k, v=v, conv=conv, int=draw(st.booleans()) and v == int(v), units=draw(st.sampled_from([None, True, False])), unitstr=draw(st.sampled_from([None, 'km', ''])), attu=draw(st.sampled_from([None, 'stuff'])))
  if k == 'Lon': c['suffix'] = draw(st.sampled_from([None, '', 'E', ' E', 'E<360', 'E<90', 'E<0', 'E<270.5']))
  elif k == 'Lat': c['suffix'] = draw(st.sampled_from([None, '', 'N', ' N']))
  elif k == 'Pres': c['suffix'] = draw(st.sampled_from([None, '', '<10', '<100', '<0.5']))
  else: c['suffix'] = draw(st.sampled_from([None, '']))
  c['plot'] = draw(st.sampled_from([None, None, 'fmt', 'arg', 'units']))
  return c


def label(k, conv, suffix, v):
  if k == 'Lat' and suffix.endswith('N'):
    if v == 0: return 'EQ'
    return (conv + suffix[:-1]) % abs(v) + ('N' if v > 0 else 'S')
  if k == 'Lon' and 'E' in suffix:
    pre, b = suffix.split('E')
    b = float(b[1:]) if b else 180.
    w = v % 360.
    return (conv + pre) % w + 'E' if w < b else (conv + pre) % (360. - w) + 'W'
  if k == 'Pres' and '<' in suffix:
    return '%d' % v if v >= float(suffix[1:]) else conv % v
  return (conv + suffix) % v


def check_label(c, ctx):
  import pygeode as pyg
  k, v, conv = c['k'], c['v'], c['conv']
  if k == 'Var': a = pyg.Var((pyg.Lat([1., 2.]),), values=np.zeros(2), name='T')
  else: a = g.build_axis(dict(k=k, v=[1., 2., 3.] if k != 'Index' else [0, 1, 2], name='nn' if k == 'NamedAxis' else None))
  if c['attu']: a.units = c['attu']
  if c['int']: v = int(v)
  kw = {}
  if c['suffix'] is None:
    conv, suffix = ZERO.get(k, (None, ''))
    if k == 'Lat': conv, suffix = '%.2g', ' N'
    if k == 'Lon': conv, suffix = '%.3g', ' E<360'
    if conv is None: conv = {'Height': '%d', 'ZAxis': '%3g'}.get(k, '%g')
  else:
    suffix = c['suffix']; kw['fmt'] = conv + suffix
  if c['units'] is not None: kw['units'] = c['units']
  if c['unitstr'] is not None: kw['unitstr'] = c['unitstr']
  e = label(k, conv, suffix, v)
  show = c['units'] if c['units'] is not None else k not in ('Lat', 'Lon')
  units = c['attu'] or dict(Pres='hPa', Height='m').get(k, '')
  exp = e + (' ' + (units if c['unitstr'] is None else c['unitstr']) if show else '')
  got = a.formatvalue(v, **kw)
  assert got == exp, '%s value %r with %r is %r and should be %r' % (k, v, kw, got, exp)
  # as a tick label
  if k != 'Var' and c['plot']:
    x, y = conv, suffix
    if c['plot'] == 'fmt':
      a.plotatts['plotfmt'] = conv + suffix
    elif c['suffix'] is None or c['plot'] == 'arg':
      if k == 'Lon': x, y = '%.3g', ' E'            # (the default of a plot differs from that of a listing)
      else: x, y = ({'Lat': '%.2g', 'Pres': '%.2g', 'Height': '%d', 'ZAxis': '%3g'}.get(k, '%g'), {'Lat': ' N', 'Pres': '<100'}.get(k, ''))
    else:
      a.plotatts['plotunits'] = 'zz'
      if k == 'Lon': x, y = '%.3g', ' E'
      else: x, y = ({'Lat': '%.2g', 'Pres': '%.2g', 'Height': '%d', 'ZAxis': '%3g'}.get(k, '%g'), {'Lat': ' N', 'Pres': '<100'}.get(k, ''))
    q = label(k, x, y, v)
    r = a.formatter()(v)
    assert r == q, 'the tick label of %s %r is %r and should be %r' % (k, v, r, q)
  ctx.label(k, 'hemisphere' if k in ('Lat', 'Lon') and suffix.strip() else 'break' if '<' in suffix else '', 'default' if c['suffix'] is None else '', 'tick label' if c['plot'] else '')
  ctx.nontrivial(v != 0)


@st.composite
def names_case(draw):
  n = draw(st.sampled_from([1, 2, 4]))
  return dict(n=n, own=draw(st.booleans()), aux=draw(st.booleans()), order=draw(st.permutations(list(range(n)))))


def check_names(c, ctx):
  """Axes of names."""
  from pygeode.axis import Station
  n = c['n']; names = ['st%d' % i for i in c['order']]
  kw = {}
  if c['own']: kw['station'] = names
  if c['aux'] or not c['own']: kw['code'] = [100 + i for i in c['order']]
  a = Station(**kw)
  for i in range(n):
    exp = names[i] if c['own'] else '(code=%d)' % (100 + c['order'][i])
    got = a.formatvalue(i)
    assert got == exp, 'label %d is %r and should be %r' % (i, got, exp)
    if c['own']: assert a.str_as_val('station', names[i]) == i
  assert a.formatvalue(n) == '?%d?' % n
  ctx.label('%d names' % n, 'own' if c['own'] else 'other'); ctx.nontrivial(n > 1)

# ------------------------------------------------------------------ seasons

SEAS = ['DJF', 'MAM', 'JJA', 'SON']


@st.composite
def season_case(draw):
  k = draw(st.sampled_from(['StandardTime', 'ModelTime365']))
  start = draw(cal.moment(k, ylo=2, yhi=3000))
  return dict(k=k, start=start[:3] + [0, 0, 0], v=draw(st.lists(st.integers(0, 20000), min_size=1, max_size=6, unique=True).map(sorted)), codes=draw(st.lists(st.sampled_from(['s', 'y', 'Y', 'v']), min_size=1, max_size=4)))


def check_season(c, ctx):
  import pygeode as pyg
  from pygeode import timeaxis
  cls = getattr(timeaxis, 'Seasonal' + c['k'])
  a = cls(values=np.array(c['v'], 'd'), units='days', startdate=cal.asdict(c['k'], c['start']))
  ys, ss = [], []
  s0 = cal.secs(c['k'], c['start'])
  for v in c['v']:
    y, m, d, *_ = cal.date(c['k'], s0 + int(v)*86400)
    ys.append(y + (m == 12)); ss.append((m % 12)//3)
  assert list(a.year) == ys and list(a.season) == [s + 1 for s in ss], 'seasons of %s are %s %s and should be %s %s' % (c['v'], list(a.year), list(a.season), ys, ss)
  for i, v in enumerate(np.asarray(a.values)):
    X = dict(s=SEAS[ss[i]], y='%02d' % (ys[i] % 100), Y='%d' % ys[i], v='%d' % v)
    got = a.formatvalue(v, ' '.join('$' + q for q in c['codes'])); exp = ' '.join(X[q] for q in c['codes'])
    assert got == exp, 'the season %d is %r and should be %r' % (i, got, exp)
    assert a.formatvalue(v) == X['s'] + ' ' + X['y']
  ctx.label(c['k'], *[SEAS[s] for s in set(ss)]); ctx.nontrivial()


@st.composite
def season_ticks_case(draw):
  c = draw(season_case()); c['v'] = c['v'][:1] + [c['v'][0] + q for q in (91, 182)]
  c['mult'] = draw(st.sampled_from([1, 2, 4])); c['lo'] = draw(st.integers(0, 3000)); c['span'] = draw(st.sampled_from([0, 90, 180, 360, 365, 1000, 2000])) + draw(st.integers(0, 90))
  return c


def check_season_ticks(c, ctx):
  from pygeode import timeaxis
  k, mult = c['k'], c['mult']
  a = getattr(timeaxis, 'Seasonal' + k)(values=np.array(c['v'], 'd'), units='days', startdate=cal.asdict(k, c['start']))
  tk, = [t for t in a.tick_generators if type(t).__name__ == 'SeasonTickGen']
  s0 = cal.secs(k, c['start'])
  lo, hi = float(c['lo']), float(c['lo'] + c['span'])
  T = [float(np.asarray(t).ravel()[0]) for t in tk.ticks(lo, hi, mult)]
  y0 = cal.date(k, s0 + int(lo)*86400)[0]
  S = [(cal.secs(k, (y, m, d, 0, 0, 0)) - s0)/86400. for y in range(y0 - 1, y0 + 10) for m, d in [(1, 16), (4, 15), (7, 16), (10, 16)][::mult]]
  msg = 'every %d seasons from %s to %s after %s' % (mult, lo, hi, c['start'])
  near_set([t*86400 for t in T], [s*86400 for s in S if lo < s < hi], [s*86400 for s in S if lo <= s <= hi], msg)
  assert tk.nticks(lo, hi, mult) == len(T), msg + ': miscounted'
  ctx.label('multiple %d' % mult); ctx.nontrivial(len(T) > 1)

# ------------------------------------------------------------------ ticks

GEN = dict(Year=[500, 300, 200, 100, 50, 30, 20, 10, 5, 3, 2, 1], Month=[6, 3, 2, 1], DayOfMonth=[15, 10, 5, 3, 2, 1], Day=[10000, 5000, 3000, 2000, 1000, 500, 300, 200, 100, 50, 30, 10, 5, 3, 2, 1],
           Hour=[12, 6, 3, 2, 1], Minute=[30, 15, 10, 5, 3, 2, 1], Second=[30, 15, 10, 5, 3, 2, 1])
SIZE = dict(Year=365*86400, Month=30*86400, DayOfMonth=86400, Day=86400, Hour=3600, Minute=60, Second=1)


def kinds(k): return ['Day', 'Hour', 'Minute', 'Second'] if k == 'Yearless' else ['Year', 'Month', 'DayOfMonth', 'Hour', 'Minute', 'Second']


def regular_times(k, kind, mult, lo, hi):
  """The times (in seconds) at the given multiple of years, months ..., from lo to hi."""
  out = []
  lo -= 2; hi += 2
  y, m, d, H, M, S = cal.date(k, math.floor(lo))
  if kind == 'Year':
    y = y//mult*mult
    while True:
      s = cal.secs(k, (y, 1, 1, 0, 0, 0))
      if s > hi: break
      out.append(s); y += mult
  elif kind == 'Month':
    while True:
      s = cal.secs(k, (y, m, 1, 0, 0, 0))
      if s > hi: break
      if (m - 1) % mult == 0: out.append(s)
      m += 1
      if m > 12: y, m = y + 1, 1
  elif kind == 'Day':
    d = d//mult*mult
    while d*86400 <= hi: out.append(d*86400); d += mult
  elif kind == 'DayOfMonth':
    while True:
      first = cal.secs(k, (y, m, 1, 0, 0, 0)); n = cal.mlen(k, y, m)
      if first > hi: break
      out += [first + 86400*q for q in range(0, n, mult) if q == 0 or 2*(n - q) >= mult]
      m += 1
      if m > 12: y, m = y + 1, 1
  else:
    # multiples within the larger unit
    unit = SIZE[kind]; whole = dict(Hour=24, Minute=60, Second=60)[kind]
    t = math.floor(lo)//(unit*whole)*unit*whole
    while t <= hi:
      out += [t + q*unit for q in range(0, whole, mult) if q == 0 or 2*(whole - q) >= mult]
      t += unit*whole
  return [s for s in out if lo <= s <= hi]


@st.composite
def calendar(draw):
  k = draw(st.sampled_from(cal.CALS))
  return dict(k=k, start=draw(cal.moment(k, ylo=1, yhi=3000)), units=draw(st.sampled_from(list(cal.UNIT))))


@st.composite
def ticks_case(draw):
  c = draw(calendar())
  kind = draw(st.sampled_from(kinds(c['k'])))
  c['kind'] = kind
  c['mult'] = draw(st.sampled_from(GEN[kind]) if draw(st.integers(0, 2)) else st.sampled_from([4, 7, 8] if kind != 'Month' else [4]))
  # not beyond the year 9000
  c['at'] = draw(cal.moment(c['k'], ylo=1, yhi=6000)); c['eighths'] = draw(st.integers(0, 7))
  c['n'] = draw(st.integers(0, 12*8))/8.
  c['on'] = draw(st.sampled_from(['', 'any', 'tick', 'tick']))
  return c


def near_set(got, need, may, msg):
  """every time of need, and nothing but times of may, to a second"""
  got = sorted(got)
  for s in need: assert any(abs(s - q) < 1.5 for q in got), '%s: no tick at %s' % (msg, s)
  for q in got: assert any(abs(s - q) < 1.5 for s in may), '%s: a tick at %s' % (msg, q)
  assert all(b - a > 0.5 for a, b in zip(got, got[1:])), '%s: two ticks at one time' % msg


def check_ticks(c, ctx):
  k, kind, mult = c['k'], c['kind'], c['mult']
  a = mk(k, c['start'], c['units'], (0, 1, 2))
  s0 = cal.secs(k, c['start']); U = cal.UNIT[c['units']]
  lo = cal.secs(k, c['at']); size = SIZE[kind]*mult
  if not c['on']: lo += c['eighths']/8.*size
  if k == 'Yearless' and lo < 0: lo = -lo
  if c['on'] == 'tick': lo = ([t for t in regular_times(k, kind, mult, lo, lo + 3*size) if t >= lo] + [lo])[0]   # the view begins at a tick
  hi = lo + c['n']*size
  if c['on'] == 'tick': hi = ([t for t in regular_times(k, kind, mult, hi, hi + 3*size) if t >= hi] + [hi])[0] if c['eighths'] else hi
  tk, = [t for t in a.tick_generators if type(t).__name__ == kind + 'TickGen']
  val = lambda s: (s - s0)/U
  T = [float(np.asarray(t).ravel()[0])*U + s0 for t in tk.ticks(val(lo), val(hi), mult)]
  S = regular_times(k, kind, mult, lo, hi)
  msg = 'every %d %s from %s to %s' % (mult, kind, cal.date(k, math.floor(lo)), cal.date(k, math.floor(hi)))
  near_set([t for t in T if t < hi + 1], [s for s in S if lo + 1 <= s <= hi - 1 or hi > lo and s == lo and (s - s0) % U == 0], [s for s in S if lo - 1 <= s <= hi + 1], msg)
  # (a tick outside the view is not drawn)
  over = [t for t in T if t >= hi + 1]
  assert not over or (kind == 'DayOfMonth' or mult not in GEN[kind]) and len(over) == 1 and over[0] - hi <= 1.5*size + 1, '%s: ticks beyond the end: %s' % (msg, over)
  n = tk.nticks(val(lo), val(hi), mult)
  if kind != 'DayOfMonth' and mult in GEN[kind]: assert abs(n - len(T)) <= 1.01, '%s: counted as %s and there are %d' % (msg, n, len(T))
  ctx.label(k, kind, 'multiple %d' % mult if mult in (1, 7) else '', '%d ticks' % len(T) if len(T) < 3 else 'more ticks'); ctx.nontrivial(len(T) > 1)

# ------------------------------------------------------------------ views of a plot

AUTO = [(365., '$Y', ''), (30., '$d $b $Y', ''), (1., '$d $b', '$Y'), (1/24., '$H:$M', '$d $b $Y'), (0., '$H:$M:$S', '$d $b $Y')]
AUTO360 = [(360., '$Y', ''), (30., '$b $Y', '')] + AUTO[2:]
AUTO0 = [(1., '$d', ''), (1/24., '$H:$M', 'day $d'), (0., '$H:$M:$S', 'day $d')]


@st.composite
def view_case(draw):
  c = draw(calendar())
  log = [draw(st.integers(-33, 48))/10.]          # (of the number of days)
  for i in range(draw(st.integers(0, 3))): log.append(min(35, max(-33, int(log[-1]*10) + draw(st.integers(-15, 15))))/10.)
  c['views'] = [dict(log=q, at=draw(st.integers(0, 10000)), rev=draw(st.integers(0, 3)) == 0) for q in log]
  c['moved'] = draw(st.booleans())
  return c


class Viewed:
  """Stands for the axis of a plot."""
  def get_view_interval(self): return self.v


def text(k, fmt, s):
  t = cal.date(k, s)
  out = ''; i = 0
  while i < len(fmt):
    if fmt[i] == '$': out += expected(k, fmt[i+1], t, 0); i += 2
    else: out += fmt[i]; i += 1
  return out


def check_view(c, ctx):
  k = c['k']
  a = mk(k, c['start'], c['units'], (0, 1, 2))
  s0 = cal.secs(k, c['start']); U = cal.UNIT[c['units']]
  L = a.locator(); f = a.formatter(); L.axis = Viewed()
  for w in c['views']:
    lo = s0 + w['at']*U if c['moved'] else s0
    span = 10.**w['log']*86400
    if cal.UNIT[c['units']] == 1: span = math.ceil(span)
    hi = lo + span
    v = [(lo - s0)/U, (hi - s0)/U]
    L.axis.v = v[::-1] if w['rev'] else v
    ticks = [float(np.asarray(t).ravel()[0]) for t in L()]
    T = sorted(t*U + s0 for t in ticks)
    msg = 'view of %g days from %s' % (span/86400., cal.date(k, math.floor(lo)))
    inside = [t for t in T if lo + 1.5 < t < hi - 1.5]
    # which multiple of which unit are they?
    found = None
    for kind in kinds(k):
      for mult in GEN[kind]:
        n = span/(SIZE[kind]*mult)
        if not 0.7 < n < 13: continue
        S = [s for s in regular_times(k, kind, mult, lo, hi) if lo + 1.5 < s < hi - 1.5]
        if len(S) == len(inside) and all(abs(p - q) < 0.5 for p, q in zip(S, inside)): found = kind, mult
    assert found, '%s: the ticks %s are at no multiple of a unit' % (msg, [cal.date(k, round(t)) for t in T])
    n = len([t for t in T if lo - 0.5 < t < hi + 0.5])
    assert 2 <= n <= 9, '%s: %d ticks' % (msg, n)
    # labels
    if len(T) > 1:
      f.set_locs(ticks)
      lab = [f(t, i) for i, t in enumerate(ticks)]
      delt = (T[-1] - T[0])/86400./(len(T) - 1)
      cands = [(fm, o) for d, fm, o in dict(Yearless=AUTO0, ModelTime360=AUTO360).get(k, AUTO) if delt*1.1001 >= d][:1] + [(fm, o) for d, fm, o in dict(Yearless=AUTO0, ModelTime360=AUTO360).get(k, AUTO) if delt*1.0999 >= d][:1]
      secs = [round(t*U + s0) for t in ticks]
      exp = [([text(k, fm, s) for s in secs], text(k, o, secs[0])) for fm, o in cands]
      assert (lab, f.get_offset()) in exp, '%s: ticks at %s have labels %s (%r) and should have %s' % (msg, [cal.date(k, s) for s in secs], lab, f.get_offset(), exp[0])
      assert all(p != q for p, q in zip(lab, lab[1:])), '%s: neighbouring ticks have the same label: %s' % (msg, lab)
    ctx.label('%s, every %s' % ('no years' if k == 'Yearless' else 'years', found[0]), 'reversed' if w['rev'] else '')
  ctx.label(k, '%d views' % len(c['views'])); ctx.nontrivial()

# ------------------------------------------------------------------ descriptions

@st.composite
def text_case(draw):
  c = draw(g.var(minnd=0, maxnd=3, minn=1, maxn=5))
  if draw(st.booleans()): c['units'] = draw(st.sampled_from(['K', 'm s**-1', '']))
  c['atts'] = draw(st.dictionaries(st.sampled_from(['title', 'long_name', 'n', 'x y']), st.one_of(st.integers(-5, 5), st.sampled_from(['abc', 'some words', ''])), max_size=3))
  c['how'] = draw(st.sampled_from(['mem', 'lazy', 'slice']))
  c['name'] = draw(st.sampled_from(['T', 'temp', '']))
  c['more'] = draw(st.integers(0, 2)); c['glob'] = draw(st.dictionaries(st.sampled_from(['history', 'source', 'n']), st.sampled_from(['abc', 'some words']), max_size=2))
  return c


def axis_text(a):
  lab = a.formatvalue(a.values[0]) + (' to %s (%d values)' % (a.formatvalue(a.values[-1]), len(a)) if len(a) > 1 else '')
  return lab


def check_text(c, ctx):
  import pygeode as pyg
  v = g.build_var(c)
  v.name = c['name']; v.atts.update(c['atts'])
  if c.get('units') is not None: v.units = c['units']
  lv = g.lazify(v, c['how']) if len(v.axes) else v
  lv.name = c['name']; lv.atts = dict(c['atts']); lv.units = v.units
  s = str(lv); lines = s.splitlines()
  assert c['name'] in lines[0] and 'Var' in lines[0], 'no name in %r' % lines[0]
  if v.units: assert any(v.units in l for l in lines[1:2]), 'no units in %r' % s
  shape = '(%s)' % ','.join(a.name for a in v.axes), '(%s)' % ','.join(str(len(a)) for a in v.axes)
  assert any(shape[0] in l and shape[1] in l for l in lines), 'no shape %s in %r' % (shape, s)
  pos = -1
  for a in v.axes:
    at = [i for i, l in enumerate(lines) if l.strip() == str(a).strip()]
    assert at and at[0] > pos, 'axis %s is not listed in %r' % (a.name, s); pos = at[0]
    t = str(a); assert a.name in t and type(a).__name__ in t and t.endswith(axis_text(a)), 'axis is described as %r, and should be by %r' % (t, axis_text(a))
  for k, x in c['atts'].items():
    assert any(l.strip().startswith(k) and l.rstrip().endswith((': ' + str(x)).rstrip()) for l in lines), 'attribute %s=%r is not listed in %r' % (k, x, s)
  assert v.dtype.name in lines[-1], 'no type in %r' % s
  assert repr(lv) == ("<Var '%s'>" % c['name'] if c['name'] else '<Var>')
  # several
  vs = [lv.rename(q) for q in ('one', 'two_of_them', 'x')[:c['more'] + 1]]
  if len(v.axes): vs[-1] = pyg.Var(v.axes[:1], values=np.zeros(len(v.axes[0])), name=vs[-1].name)
  ds = pyg.Dataset(vs, atts=c['glob'])
  s = str(ds); lines = [l.strip() for l in s.splitlines()]
  i, j, l = [[n for n, x in enumerate(lines) if x.startswith(h)][0] for h in ('Vars:', 'Axes:', 'Global Attributes:')]
  assert [x.split()[0] for x in lines[i+1:j]] == [w.name for w in vs], 'variables in %r' % s
  for w, x in zip(vs, lines[i+1:j]):
    assert '(%s)' % ','.join(a.name for a in w.axes) in x and x.endswith('(%s)' % ','.join(str(len(a)) for a in w.axes)), 'variable %s in %r' % (w.name, s)
  assert sorted(x for x in lines[j+1:l] if x) == sorted(str(a).strip() for a in ds.axes), 'axes in %r' % s
  for k, x in c['glob'].items():
    assert any(q.startswith(k) and q.endswith(': ' + x) for q in lines[l+1:]), 'attribute %s=%r is not listed in %r' % (k, x, s)
  ctx.label('%d axes' % len(v.axes), '%d variables' % len(vs), c['how']); ctx.nontrivial(len(v.axes) > 0)


TESTS = [
  Test('labels', label_case(), check_label, quick=6000, thorough=60000),
  Test('names', names_case(), check_names, quick=300, thorough=2000),
  Test('seasons', season_case(), check_season, quick=1500, thorough=15000),
  Test('season_ticks', season_ticks_case(), check_season_ticks, quick=1500, thorough=15000),
  Test('ticks', ticks_case(), check_ticks, quick=4000, thorough=40000),
  Test('views', view_case(), check_view, quick=3000, thorough=30000),
  Test('descriptions', text_case(), check_text, quick=1500, thorough=15000),
]
