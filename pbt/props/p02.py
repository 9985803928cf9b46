"""P02: keyword selection by coordinate value, index, list, complement, mean, squeeze."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g

RULE = ('A case is a variable with 1-3 axes (integer, float, time, station axes, with auxiliary arrays) and one to four '
        'keyword selections combining the documented prefixes i_, l_, n_, m_, s_, addressed by axis name, class name or '
        'parent class name in any letter case, by auxiliary array or by calendar field, with numbers, (lower,upper) '
        'pairs in either order, lists, slices and date strings. Non-trivial: the expected selection is a proper, '
        'non-empty subset, or a mean/squeeze is applied.')
ASSUMPTIONS = ['two keywords that name the same axis and differ only in the m_/s_ prefixes are not combined',
               'selections that leave no point on an axis are generated but only required not to return wrong data',
               'nearest-value requests are never exactly half way between two coordinates',
               'pairs given to i_ are half-open index ranges (as implemented and tested upstream)']

MONTHS = ['', 'Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
ALIASES = {'Lat': ['lat', 'Lat', 'YAxis', 'yaxis', 'LAT'], 'Lon': ['lon', 'LON', 'XAxis', 'xaxis'],
           'Pres': ['pres', 'Pres', 'ZAxis', 'zaxis', 'lev'], 'Height': ['z', 'height', 'Height', 'zaxis'],
           'Hybrid': ['eta', 'hybrid', 'Hybrid', 'zaxis'], 'ZAxis': ['lev', 'zaxis'],
           'StandardTime': ['time', 'Time', 'TAxis', 'standardtime', 'calendartime'],
           'ModelTime365': ['time', 'taxis', 'ModelTime365'], 'ModelTime360': ['time', 'taxis'],
           'Freq': ['freq', 'Freq'], 'Index': ['index', 'Index'], 'Station': ['station']}


def names_of(a):
  if a.get('name'): return [a['name'], a['name'].upper()] if '_' not in a['name'] else [a['name']]
  return ALIASES[a['k']]


@st.composite
def value_near(draw, vals, isf):
  """A request value, not ambiguous between two coordinates."""
  k = draw(st.integers(0, len(vals)-1))
  if not isf: return vals[k]
  s = sorted(vals)
  gap = min([b - a for a, b in zip(s, s[1:])] or [1.])
  off = draw(st.sampled_from([0., 0., 0.2, -0.2, 0.45, -0.45]))
  return vals[k] + off*gap


@st.composite
def bound(draw, vals):
  s = sorted(vals)
  o = draw(st.sampled_from(['on', 'between', 'below', 'above']))
  k = draw(st.integers(0, len(s)-1))
  if o == 'on' or len(s) < 2: return s[k]
  if o == 'below': return s[0] - 1
  if o == 'above': return s[-1] + 1
  k = min(k, len(s)-2)
  return (s[k] + s[k+1])/2.


@st.composite
def selection(draw, i, a):
  """One keyword for axis i: dict(key, pre, kind, val)."""
  n = len(a['v'])
  pre = ''
  what = draw(st.sampled_from(['val', 'val', 'idx', 'aux', 'field', 'str']))
  if what == 'aux' and not (a.get('aux') and a['k'] != 'Station'): what = 'val'
  if what in ('field', 'str') and a['k'] not in ('StandardTime', 'ModelTime365', 'ModelTime360'): what = 'val'
  if a['k'] == 'Station' and what == 'val': what = draw(st.sampled_from(['stn', 'idx']))
  name = draw(st.sampled_from(names_of(a)))
  c = dict(ax=i, what=what, name=name)
  neg = draw(st.integers(0, 4)) == 0
  c['neg'] = neg
  if what == 'idx':
    f = draw(st.sampled_from(['one', 'range', 'range3', 'list', 'long']))
    if f == 'one': c.update(f='one', val=draw(st.integers(-n, n-1)))
    elif f == 'range':
      lo = draw(st.integers(0, n-1)); c.update(f='range', val=[lo, draw(st.integers(lo+1, n))])
    elif f == 'range3':
      lo = draw(st.integers(0, n-1)); c.update(f='range', val=[lo, draw(st.integers(lo+1, n)), draw(st.integers(1, 3))])
    elif f == 'list': c.update(f='list', l=True, val=draw(st.lists(st.integers(-n, n-1), min_size=1, max_size=4)))
    else: c.update(f='list', l=False, val=draw(st.lists(st.integers(-n, n-1), min_size=4, max_size=6)))
    return c
  if what == 'stn':
    names = a['aux']['station']
    f = draw(st.sampled_from(['one', 'list']))
    c.update(f=f, val=draw(st.sampled_from(names)) if f == 'one' else draw(st.lists(st.sampled_from(names), min_size=1, max_size=3)))
    return c
  if what == 'aux':
    c['name'] = 'ax1'; vals = a['aux']['ax1']; isf = False
  elif what == 'field':
    c['name'] = draw(st.sampled_from(['year', 'month', 'day', 'hour'])); c['fieldk'] = draw(st.integers(0, n-1))
    c['f'] = draw(st.sampled_from(['one', 'pair', 'list'])); c['d'] = [draw(st.integers(-2, 3)), draw(st.integers(0, 3))]
    return c
  elif what == 'str':
    c['f'] = draw(st.sampled_from(['one', 'pair', 'list', 'pairsp']))
    c['k'] = [draw(st.integers(0, n-1)), draw(st.integers(0, n-1))]; c['sod'] = draw(st.sampled_from([0, 0, 1, 60, 3600]))
    return c
  else:
    vals = a['v']; isf = a['k'] not in ('Index', 'Station')
  f = draw(st.sampled_from(['one', 'pair', 'pair', 'list']))
  c['f'] = f
  if f == 'one': c['val'] = draw(value_near(vals, isf))
  elif f == 'pair':
    c['val'] = [draw(bound(vals)), draw(bound(vals))]
    c['rev'] = draw(st.booleans())
  else: c['val'] = [draw(value_near(vals, isf)) for _ in range(draw(st.integers(1, 4)))]
  return c


@st.composite
def case(draw):
  v = draw(g.var(1, 3, 1, 7, kinds=g.SAFE + ['Station'], dtypes=['float64']))
  # axis names containing an underscore are legal
  for a in v['axes']:
    if a['k'] == 'NamedAxis' and draw(st.booleans()): a['name'] = draw(st.sampled_from(['my_ax', 's_x', 'i_n'] + ['m_lat']*(not any(b['k'] == 'Lat' for b in v['axes']))))
  nk = draw(st.integers(1, 4))
  sel = []
  for _ in range(nk):
    i = draw(st.integers(0, len(v['axes'])-1))
    sel.append(draw(selection(i, v['axes'][i])))
  for s in sel: s['op'] = draw(st.sampled_from(['', '', '', 'm', 's']))
  # averaging and squeezing one axis at once is contradictory
  mean = [s['ax'] for s in sel if s['op'] == 'm']
  for s in sel:
    if s['ax'] in mean and s['op'] == 's': s['op'] = 'm'
  return dict(v=v, sel=sel, order=draw(st.booleans()))


def datestr(ax, k, sec):
  y, mo, d = (int(ax.auxarrays[f][k]) for f in ('year', 'month', 'day'))
  h, mi, s = (int(ax.auxarrays[f][k]) for f in ('hour', 'minute', 'second'))
  return '%02d:%02d:%02d %d %s %d' % (h, mi, s, d, MONTHS[mo], y)


def mask_of(s, a, ax, vals_override=None):
  """(mask, keyword value) for one selection; the model is written over plain lists."""
  n = len(ax)
  m = np.zeros(n, bool)
  w = s['what']
  if w == 'idx':
    if s['f'] == 'one': m[s['val']] = True; kv = s['val']
    elif s['f'] == 'range':
      for i in range(*slice(*s['val']).indices(n)): m[i] = True
      kv = tuple(s['val'])
    else:
      for i in s['val']: m[i] = True
      kv = list(s['val'])
    return m, kv
  if w == 'stn':
    st_ = list(a['aux']['station'])
    for x in ([s['val']] if s['f'] == 'one' else s['val']): m[st_.index(x)] = True
    return m, s['val']
  if w == 'aux': vals = [float(x) for x in a['aux']['ax1']]; isf = False
  elif w == 'field':
    vals = [int(x) for x in ax.auxarrays[s['name']]]; isf = False
    base = vals[s['fieldk']]
    if s['f'] == 'one': kv = base
    elif s['f'] == 'pair': kv = (base + s['d'][0], base + s['d'][0] + s['d'][1])
    else: kv = [base, base + s['d'][0]]
    return model(vals, isf, s['f'], kv), kv
  else:
    vals = [float(x) for x in ax.values]; isf = np.asarray(ax.values).dtype.kind == 'f'
  if w == 'str':
    ks = s['k']
    if s['f'] == 'one':
      kv = datestr(ax, ks[0], 0); return model(vals, isf, 'one', vals[ks[0]]), kv
    if s['f'] == 'list':
      kv = [datestr(ax, k, 0) for k in ks]; return model(vals, isf, 'list', [vals[k] for k in ks]), kv
    kv = tuple(datestr(ax, k, 0) for k in ks)
    return model(vals, isf, 'pair', [vals[k] for k in ks]), kv
  if s['f'] == 'pair':
    kv = tuple(s['val'][::-1] if s.get('rev') else s['val'])
  else: kv = s['val']
  return model(vals, isf, s['f'], s['val']), kv


def model(vals, isf, f, val):
  n = len(vals)
  m = np.zeros(n, bool)
  if f == 'pair':
    lo, hi = min(val), max(val)
    for i, x in enumerate(vals): m[i] = lo <= x <= hi
    return m
  for q in ([val] if f == 'one' else val):
    if isf:
      d = [abs(q - x) for x in vals]; m[d.index(min(d))] = True
    else:
      for i, x in enumerate(vals):
        if x == q: m[i] = True
  return m


def prefix(s):
  p = s['op']
  if s['what'] == 'idx': p += 'i'
  if s['f'] == 'list' and (s['what'] != 'idx' or s.get('l')): p += 'l'
  if s['neg']: p += 'n'
  return p


def expected(c, axs):
  """-> (keywords, positions per axis, mean axes, squeeze axes) or None when two keywords coincide."""
  masks = [np.ones(len(a), bool) for a in axs]
  kw = {}; means = []; sq = []; seen = set()
  for s in c['sel']:
    a, ax = c['v']['axes'][s['ax']], axs[s['ax']]
    m, kv = mask_of(s, a, ax)
    if s['neg']: m = ~m
    p = prefix(s)
    if s['what'] in ('field', 'aux'): p = p.replace('m', '').replace('s', '')   # these prefixes need the axis itself
    key = (p + '_' if p else '') + s['name']
    # 'lat' and 'm_lat' are one request: only one selection of each kind per axis name
    red = (''.join(ch for ch in p if ch not in 'ms'), s['name'])
    if red in seen: continue
    seen.add(red)
    kw[key] = kv
    masks[s['ax']] &= m
    if 'm' in p: means.append(s['ax'])
    elif 's' in p: sq.append(s['ax'])
  return kw, [list(np.flatnonzero(m)) for m in masks], set(means), set(sq) - set(means)


def check(c, ctx):
  axs = [g.build_axis(a) for a in c['v']['axes']]
  # a field keyword needs a single axis carrying it: only one time axis is ever generated
  if sum('ax1' in a.auxarrays for a in axs) > 1 and any(s['what'] == 'aux' for s in c['sel']):
    # an auxiliary array present on several axes selects on each of them: keep the case unambiguous
    for j, a in enumerate(c['v']['axes']):
      if j != [s['ax'] for s in c['sel'] if s['what'] == 'aux'][0]: a.pop('aux', None) if a['k'] != 'Station' else None
    c['sel'] = [s for s in c['sel'] if s['what'] != 'aux' or 'aux' in c['v']['axes'][s['ax']]]
    axs = [g.build_axis(a) for a in c['v']['axes']]
  v = g.build_var(c['v'], axs); arr = g.var_data(c['v'])
  kw, pos, means, sq = expected(c, axs)
  for s in c['sel']: ctx.label('what:' + s['what'], 'pre:' + (prefix(s) or '-'), 'form:' + s['f'])
  if any(len(p) == 0 for p in pos): ctx.label('empty'); return
  if c['order']: kw = dict(reversed(list(kw.items())))
  sub = g.subset(arr, pos)
  ctx.nontrivial(means or sq or any(len(p) < n for p, n in zip(pos, arr.shape)))
  # squeeze only removes axes left with a single point
  drop = set(i for i in sq if len(pos[i]) == 1)
  exp = sub
  for i in sorted(means, reverse=True):
    wt = getattr(axs[i], 'weights', None) if 'weights' in axs[i].auxarrays else None
    if wt is not None: wt = np.asarray(wt)[pos[i]]
    exp = np.average(exp, axis=i, weights=wt) if wt is None or wt.sum() != 0 else exp.mean(i)*np.nan
  left = [i for i in range(arr.ndim) if i not in means]
  exp = exp.reshape([exp.shape[k] for k, i in enumerate(left) if i not in drop])
  left = [i for i in left if i not in drop]
  if means and len(left) == 0 and len(means) == arr.ndim: ctx.label('scalar')
  r = v(**kw)
  if hasattr(r, 'axes'):
    assert r.shape == exp.shape, '%s: shape %s, expected %s' % (kw, r.shape, exp.shape)
    for ga, i in zip(r.axes, left): g.assert_sub_axis(ga, axs[i], pos[i], 'axes after %s' % kw)
    got = r.get()
  else: got = r
  if means: g.assert_close(got, exp, 1e-9, 1e-9, 'v(%s)' % kw)
  else: g.assert_eq(got, exp, 'v(%s)' % kw)
  # the same through get() and the axis
  if not means and not sq:
    g.assert_eq(v.get(**kw), exp, 'v.get(%s)' % kw)
    k1 = {k: x for k, x in kw.items()}
    for i, ax in enumerate(axs):
      mine = {}
      for s in c['sel']:
        p = prefix(s)
        if s['what'] in ('field', 'aux'): p = p.replace('m', '').replace('s', '')
        key = (p + '_' if p else '') + s['name']
        if s['ax'] == i and key in kw: mine[key] = kw[key]
      if mine: g.assert_sub_axis(ax(**mine), ax, pos[i], 'axis(%s)' % mine)


@st.composite
def strcase(draw):
  """Date strings in the accepted forms, against times given as a number."""
  kind = draw(st.sampled_from(['StandardTime', 'ModelTime365', 'ModelTime360']))
  n = draw(st.integers(2, 40))
  a = dict(k=kind, units='days', v=list(range(n)),
           start=dict(year=draw(st.integers(100, 2500)), month=draw(st.integers(1, 12)), day=draw(st.integers(1, 28)), hour=0, minute=0, second=0))
  return dict(a=a, k=[draw(st.integers(0, n-1)), draw(st.integers(0, n-1))], form=draw(st.sampled_from(['d', 'dl', 'hm', 'hms'])),
              case=draw(st.sampled_from(['t', 'l', 'u'])))


def check_str(c, ctx):
  ax = g.build_axis(c['a'])
  def s(k):
    mo = MONTHS[int(ax.month[k])]
    mo = {'t': mo, 'l': mo.lower(), 'u': mo.upper()}[c['case']]
    d = '%d %s %d' % (ax.day[k], mo, ax.year[k])
    if c['form'] == 'hm': return '00:00 ' + d
    if c['form'] == 'hms': return '00:00:00 ' + d
    if c['form'] == 'dl': return '%02d %s %d' % (ax.day[k], mo, ax.year[k])
    return d
  k0, k1 = sorted(c['k'])
  ctx.label(c['a']['k'], c['form']); ctx.nontrivial(k1 - k0 < len(ax) - 1)
  one = ax(time=s(k0))
  g.assert_sub_axis(one, ax, [k0], 'time=%r' % s(k0))
  rng = ax(time=(s(k0), s(k1)))
  g.assert_sub_axis(rng, ax, list(range(k0, k1+1)), 'time=%r' % ((s(k0), s(k1)),))


@st.composite
def badcase(draw):
  v = draw(g.var(1, 3, 1, 4, dtypes=['float64'], aux=False))
  return dict(v=v, key=draw(st.sampled_from(['nosuch', 'i_nosuch', 'l_nosuch', 'm_nosuch', 's_nosuch', 'n_nosuch'])),
              ok=draw(st.integers(0, len(v['axes'])-1)))


def check_bad(c, ctx):
  """An unknown axis is an error, or ignored on request."""
  v = g.build_var(c['v']); arr = g.var_data(c['v'])
  ctx.nontrivial()
  val = (0, 1) if c['key'] != 'l_nosuch' else [0, 1]
  try:
    v(**{c['key']: val})
  except Exception: pass
  else: raise AssertionError('v(%s=...) did not complain' % c['key'])
  i = c['ok']
  kw = {c['key']: val, 'i_' + v.axes[i].name: 0}
  r = v(ignore_mismatch=True, **kw)
  pos = [list(range(n)) for n in arr.shape]; pos[i] = [0]
  g.assert_eq(r.get(), g.subset(arr, pos), 'ignore_mismatch=True with %s' % kw)


TESTS = [
  Test('select', case(), check, quick=3500),
  Test('datestring', strcase(), check_str, quick=500),
  Test('unknown', badcase(), check_bad, quick=200),
]
