"""P13: removing leap days, splitting and joining time axes, lags."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import cal
from .p12 import tvar, build, OTHER

RULE = ('A case is a variable with a time axis (regular or gappy over several years, any calendar, unit and reference date, ascending, descending or '
        'shuffled) at any position, each sample distinct, and the arguments of a time-series utility, chunk size and a part of the result. '
        'Non-trivial: at least three times. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['times are distinct', 'a lag axis counts steps of the first interval of the time axis']


def tcase(draw, kinds, **kw):
  return dict(v=draw(tvar(kinds=kinds, kind='perm', nan=False, kinds_other=OTHER[:4] + ['Freq'], **kw)), chunk=draw(st.sampled_from(g.MAXSIZES)), lazy=draw(st.sampled_from(g.LAZY)), sub=draw(g.subspec()))


def times(a):
  """Field tuples of a time axis."""
  n = len(a)
  return [tuple(int(a.auxarrays[f][i]) if f in a.auxarrays else None for f in cal.F) for i in range(n)]


# ---- lags

@st.composite
def lcase(draw):
  c = tcase(draw, cal.CALS, sizes=(2, 3, 5, 9, 16))
  c['lags'] = draw(st.lists(st.integers(-12, 12) if draw(st.integers(0, 3)) == 0 else st.integers(-3, 3), min_size=1, max_size=5, unique=True))
  c['rev'] = draw(st.booleans()); c['how'] = draw(st.sampled_from(['list', 'array', 'method']))
  return c


def check_l(c, ctx):
  import pygeode as pyg
  from pygeode import timeutils as tu
  vd = c['v']; ti = vd['ti']; t = vd['axes'][ti]
  n = len(t['v'])
  if n < 2: return
  v, data = build(vd, c['lazy'])
  ctx.label(t['k'], vd['dtype'], 'reverse' if c['rev'] else ''); ctx.nontrivial(n > 2)
  lags = list(c['lags']); arg = np.array(lags) if c['how'] == 'array' else lags
  ref = [v.axes[ti].name, pyg.timeaxis.Time, ti][c['chunk'] % 3]
  g.set_chunk(c['chunk'])
  if c['how'] == 'method': r = v.lag(ref, arg, reverse=c['rev'])
  else: r = tu.lag(v, ref, arg, c['rev'])
  L = lags[::-1] if c['rev'] else lags
  exp = np.full(data.shape[:ti+1] + (len(L),) + data.shape[ti+1:], np.nan)
  E = np.moveaxis(exp, (ti, ti+1), (0, 1)); D = np.moveaxis(data, ti, 0)
  for q, l in enumerate(L):
    for i in range(n):
      if 0 <= i + l < n: E[i, q] = D[i + l]
  assert r.axes[:ti+1] == v.axes[:ti+1] and r.axes[ti+2:] == v.axes[ti+1:], 'axes %s' % (r.axes,)
  a = r.axes[ti+1]
  assert a.name == 'lag' and type(a).__name__ == 'Lag'
  step = (t['secs'][1] - t['secs'][0])*(-1 if c['rev'] else 1)
  g.assert_close(np.asarray(a.values)*cal.UNIT[a.units], np.array(L)*float(step), 1e-9, 1e-6, 'lags')
  g.check_result(r, exp, c['sub'], msg='lag %s' % lags)
  assert r.name == vd['name'] and dict(r.atts) == vd['atts']
  # selecting a lag is a shift
  l = L[-1]; m = [i for i in range(n) if 0 <= i + l < n]
  one = r.slice[(slice(None),)*(ti+1) + (slice(len(L)-1, None),)].squeeze('lag')
  if m: g.assert_eq(np.take(one.get().reshape(data.shape), m, ti), np.take(np.asarray(data, 'd'), np.array(m) + l, ti), 'lag %d as a shift' % l)


# ---- splitting and joining

@st.composite
def scase(draw):
  c = tcase(draw, cal.CALS[:3], sizes=(2, 5, 9, 16, 30, 60))
  c['perm'] = draw(st.integers(0, 100)); c['tail'] = draw(st.integers(0, 2)); c['sub2'] = draw(g.subspec())
  return c


def check_s(c, ctx):
  import pygeode as pyg
  from pygeode import timeutils as tu
  vd = c['v']; ti = vd['ti']; t = vd['axes'][ti]; k = t['k']
  T = cal.dates(t)
  v, data = build(vd, c['lazy'])
  data = np.asarray(data, 'd')
  ys = sorted(set(x[0] for x in T)); ds = sorted(set(x[1:] for x in T))
  ctx.label(k, vd['dtype'], '%d years' % min(len(ys), 3)); ctx.nontrivial(len(ys) > 1 and len(ds) > 1)
  g.set_chunk(c['chunk'])
  r = tu.splittimeaxis(v) if c['perm'] % 2 else tu.splittimeaxis(v, v.axes[ti].name)
  assert [a.name for a in r.axes] == [a.name for a in v.axes[:ti]] + ['year', 'day'] + [a.name for a in v.axes[ti+1:]], 'axes %s' % (r.axes,)
  g.assert_eq(r.axes[ti].values, ys, 'years')
  assert [x[1:] for x in times(r.axes[ti+1])] == ds, 'days %s, expected %s' % (times(r.axes[ti+1]), ds)
  assert type(r.axes[ti+1]).__name__ == k
  exp = np.full(data.shape[:ti] + (len(ys), len(ds)) + data.shape[ti+1:], np.nan)
  E = np.moveaxis(exp, (ti, ti+1), (0, 1)); D = np.moveaxis(data, ti, 0)
  for i, x in enumerate(T): E[ys.index(x[0]), ds.index(x[1:])] = D[i]
  g.check_result(r, exp, c['sub'], msg='splittimeaxis')
  # joining: from the split variable, or from a loaded one with the axes elsewhere
  w = r; names = [a.name for a in r.axes]
  if c['tail']:
    w = r.load() if c['tail'] == 1 else r
    others = [q for q in names if q not in ('year', 'day')]
    slots = sorted([c['perm'] % (len(others) + 1), (c['perm']//7) % (len(others) + 1)])
    names = others[:slots[0]] + ['year'] + others[slots[0]:slots[1]] + ['day'] + others[slots[1]:]
    w = w.transpose(*names)
  j = tu.jointimeaxes(w)
  yi = names.index('year')
  assert j.naxes == r.naxes - 1 and j.axes[yi].name == 'time' and type(j.axes[yi]).__name__ == k, 'axes of the joined variable: %s' % (j.axes,)
  assert [a.name for a in j.axes if a.name != 'time'] == [q for q in names if q not in ('year', 'day')]
  TJ = times(j.axes[yi])
  assert TJ == [(y,) + d for y in ys for d in ds], 'times of the joined axis'
  full = np.moveaxis(E.reshape((len(ys)*len(ds),) + E.shape[2:]), 0, yi)
  order = [a.name for a in v.axes if a.name != 'time']; jn = [a.name for a in j.axes if a.name != 'time']
  assert order == jn
  g.check_result(j, full, c['sub2'], msg='jointimeaxes (%s)' % names)
  g.assert_eq(np.take(j.get(), [TJ.index(x) for x in T], yi), np.moveaxis(D, 0, yi), 'split and joined')
  if c['tail']: ctx.label('apart' if abs(names.index('day') - yi) > 1 else 'adjacent')


# ---- leap days

@st.composite
def rcase(draw):
  c = tcase(draw, ['StandardTime', 'StandardTime', 'StandardTime', 'ModelTime365'], sizes=(2, 5, 9, 16, 30, 60, 400, 800), maxother=1, maxn=2, order=draw(st.sampled_from(['asc', 'asc', 'desc', 'shuf'])))
  c['args'] = draw(st.sampled_from([None, None, None, '366', '360', 'first', 'last']))
  return c


OMIT = {None: (dict(), [60], [], 'ModelTime365'), '366': (dict(omitdoy_leap=[366]), [366], [], 'ModelTime365'),
        '360': (dict(omitdoy_leap=[31, 60, 152, 213, 244, 366], omitdoy_noleap=[31, 151, 212, 243, 365], new_axis_type='ModelTime360'), [31, 60, 152, 213, 244, 366], [31, 151, 212, 243, 365], 'ModelTime360'),
        'first': (dict(omitdoy_leap=[1, 2], omitdoy_noleap=[1]), [1, 2], [1], 'ModelTime365'),
        'last': (dict(omitdoy_leap=[366, 100], omitdoy_noleap=[365]), [366, 100], [365], 'ModelTime365')}


def check_r(c, ctx):
  import pygeode as pyg
  from pygeode import timeutils as tu
  vd = c['v']; ti = vd['ti']; t = vd['axes'][ti]; k = t['k']
  T = cal.dates(t)
  v, data = build(vd, c['lazy'])
  kw, leapd, noleapd, newk = OMIT[c['args']]
  kw = dict(kw)
  if 'new_axis_type' in kw: kw['new_axis_type'] = getattr(pyg, newk)
  ctx.label(k, str(c['args'])); ctx.nontrivial(len(T) > 2)
  keep, new = [], []
  for i, x in enumerate(T):
    y = x[0]; doy = cal.daynum(k, *x[:3]) - cal.daynum(k, y, 1, 1) + 1
    om = leapd if k == 'StandardTime' and cal.leap(y) else noleapd
    if doy in om: continue
    nd = doy - sum(1 for d in om if d < doy)
    keep.append(i); new.append(cal.date(newk, cal.secs(newk, (y, 1, nd) + x[3:])))
  if not keep: return
  if len(keep) < len(T): ctx.label('removed')
  g.set_chunk(c['chunk'])
  r = tu.removeleapyears(v, **kw)
  a = r.axes[ti]
  assert type(a).__name__ == newk, 'calendar %s' % type(a)
  assert times(a) == new, 'times %s, expected %s' % (times(a), new)
  g.check_result(r, np.take(data, keep, ti), c['sub'], exact=True, msg='removeleapyears')
  assert r.name == vd['name'] and dict(r.atts) == vd['atts'] and r.axes[:ti] == v.axes[:ti] and r.axes[ti+1:] == v.axes[ti+1:]


# ---- the interval of a time axis

@st.composite
def dcase(draw):
  k = draw(st.sampled_from(cal.CALS))
  a = draw(cal.series(k, sizes=(1, 2, 3, 4, 6, 9), order='asc'))
  if draw(st.booleans()):
    # all steps equal but for the ones listed here
    n = draw(st.sampled_from([2, 3, 4, 5, 6, 9])); step = draw(st.sampled_from([3600, 21600, 86400, 86400*30]))
    odd = draw(st.lists(st.integers(0, n-2), max_size=2, unique=True)) if draw(st.booleans()) else []
    S = [a['secs'][0]]
    for i in range(n-1): S.append(S[-1] + step*(draw(st.sampled_from([2, 3, 5])) if i in odd else 1))
    if draw(st.integers(0, 3)) == 0: S = S[::-1]
    base = cal.date(k, a['secs'][0])
    a = dict(a, secs=S, v=[(s - a['secs'][0])/cal.UNIT[a['units']] for s in S], start=cal.asdict(k, base))
  return dict(t=a, units=draw(st.sampled_from([None, 'days', 'hours', 'minutes', 'seconds'])), allow=draw(st.booleans()))


def check_d(c, ctx):
  from pygeode import timeutils as tu
  t = c['t']; a = g.build_axis(dict(t, name='time'))
  steps = sorted(set(np.diff(t['secs']).tolist()))
  kw = {}
  if c['units']: kw['units'] = c['units']
  if c['allow']: kw['allow_multiple'] = True
  u = c['units'] or t['units']
  ctx.label(t['k'], 'steps %d' % min(len(steps), 3)); ctx.nontrivial(len(t['secs']) > 2)
  # steps that differ by less than one part in 10^5 may be taken for equal
  if len(steps) > 1 and max(steps) - min(steps) <= 2e-5*max(abs(q) for q in steps): return
  if len(steps) > 1 and not c['allow']:
    try: d = tu.delta(a, **kw)
    except ValueError: return
    raise AssertionError('delta of an axis with steps of %s seconds is %s %s' % (steps, d, u))
  d = tu.delta(a, **kw)*cal.UNIT[u]
  e = steps[0] if steps else 0
  assert abs(d - e) <= 1e-5*abs(e) + 1e-6, 'delta is %s seconds, expected %s' % (d, e)


TESTS = [
  Test('delta', dcase(), check_d, quick=1500),
  Test('lag', lcase(), check_l, quick=1500),
  Test('split', scase(), check_s, quick=1200),
  Test('leap', rcase(), check_r, quick=1000),
]
