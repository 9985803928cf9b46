"""P11: formatting, parsing and arithmetic of times."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import cal
from .p10 import spell

RULE = ('A case is a calendar with a start date and unit, dates (biased to ends of months, leap years and centuries), and format strings, date strings or '
        'arguments of the time arithmetic functions. Non-trivial: the date is not the first of a year at midnight, or there are two dates. '
        'Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['years are positive and have at most four digits', 'the default configuration is in place']

UNITS = ['days', 'days', 'hours', 'minutes', 'seconds']


def mk(k, start, units, vals=(0,)):
  import pygeode as pyg
  return getattr(pyg, k)(values=list(vals), units=units, startdate=cal.asdict(k, start))


# ---- formatting

CODES = ['b', 'B', 'd', 'D', 'H', 'I', 'j', 'm', 'M', 'p', 'P', 'S', 'y', 'a', 'Y', 'v', 'V', '$']


@st.composite
def case(draw):
  k = draw(st.sampled_from(cal.CALS))
  codes = [q for q in CODES if k != 'Yearless' or q in 'dDHIMpPSvV$']
  return dict(k=k, start=draw(cal.moment(k)), units=draw(st.sampled_from(UNITS)), t=draw(cal.moment(k)),
              codes=draw(st.lists(st.sampled_from(codes), min_size=1, max_size=6)), sep=draw(st.sampled_from([' ', '-', ': ', '/', ''])))


def expected(k, code, t, v):
  y, m, d, H, M, S = t
  return {'b': lambda: cal.MONTHS[m-1], 'B': lambda: cal.FULL[m-1], 'd': lambda: str(d), 'D': lambda: '%02d' % d, 'H': lambda: '%02d' % H,
          'I': lambda: '%02d' % ((H + 11) % 12 + 1), 'j': lambda: str(cal.daynum(k, y, m, d) - cal.daynum(k, y, 1, 1) + 1), 'm': lambda: str(m),
          'M': lambda: '%02d' % M, 'p': lambda: 'am' if H < 12 else 'pm', 'P': lambda: 'AM' if H < 12 else 'PM', 'S': lambda: '%02d' % S,
          'y': lambda: '%02d' % (y % 100), 'a': lambda: str(y), 'Y': lambda: str(y) if y >= 100 else 'y%d' % y,
          'v': lambda: '%d' % v, 'V': lambda: str(v), '$': lambda: '$'}[code]()


def check(c, ctx):
  k, t = c['k'], c['t']
  a = mk(k, c['start'], c['units'])
  v = (cal.secs(k, t) - cal.secs(k, c['start']))/cal.UNIT[c['units']]
  ctx.label(k, *c['codes']); ctx.nontrivial(t[1:] != [1, 1, 0, 0, 0])
  fmt = c['sep'].join('$$' if q == '$' else '${%s}' % q if c['sep'] == '' else '$' + q for q in c['codes'])
  exp = c['sep'].join(expected(k, q, t, v) for q in c['codes'])
  got = a.formatvalue(v, fmt)
  assert got == exp, 'format %r of %s: %r, expected %r' % (fmt, t, got, exp)
  X = lambda q: expected(k, q, t, v)
  dflt = 'day %s, %s:%s:%s' % (X('d'), X('H'), X('M'), X('S')) if k == 'Yearless' else '%s %s, %s %s:%s:%s' % tuple(map(X, 'bdYHMS'))
  assert a.formatvalue(v) == dflt, 'default format of %s: %r' % (t, a.formatvalue(v))
  # there and back
  if k == 'Yearless': s = a.formatvalue(v, '$H:$M:$S $d') if t[2] >= 0 else None
  else: s = a.formatvalue(v, '$H:$M:$S $d $b $a')
  if s is not None:
    w = a.str_as_val('time', s)
    assert abs(w - v) <= 1e-9 + 1e-13*abs(v), '%r, the format of %r, means %r' % (s, v, w)


# ---- parsing

@st.composite
def pcase(draw):
  k = draw(st.sampled_from(cal.CALS))
  return dict(k=k, start=draw(cal.moment(k)), units=draw(st.sampled_from(UNITS)), t=draw(cal.moment(k)), form=draw(st.integers(0, 11)),
              cs=draw(st.sampled_from(['', 'upper', 'lower'])), bad=draw(st.sampled_from(['', 'yesterday', '12 Dec', '2001/01/01', '12 Foo 2001', 'Dec 12, 2001', '12:00', '2001-1-1', '25:x 1 Jan 2000'])))


def check_p(c, ctx):
  import pygeode as pyg
  k = c['k']; y, m, d, H, M, S = c['t']; f = c['form']
  a = mk(k, c['start'], c['units'])
  if k == 'Yearless':
    d = abs(d); f = f % 6
    s = ['%d' % d, '%02d:%02d %d' % (H, M, d), '%d:%02d:%02d %d' % (H, M, S, d), '%dT%02d:%02d' % (d, H, M), '%dT%02d:%02d:%02d' % (d, H, M, S), '%d' % d][f]
    keep = [3, 5, 6, 5, 6, 3][f]
  else:
    doy = cal.daynum(k, y, m, d) - cal.daynum(k, y, 1, 1) + 1
    mon = cal.MONTHS[m-1]
    if c['cs']: mon = getattr(mon, c['cs'])()
    s = ['%d %s %d' % (d, mon, y), '%02d:%02d %d %s %d' % (H, M, d, mon, y), '%d:%02d:%02d %d %s %d' % (H, M, S, d, mon, y), '%04d' % y, '%d-%02d' % (y, m), '%d-%02d-%02d' % (y, m, d),
         '%d-%02d-%02dT%02d:%02d' % (y, m, d, H, M), '%d-%02d-%02dT%02d:%02d:%02d' % (y, m, d, H, M, S), '%d-%03d' % (y, doy), '%d-%03dT%02d:%02d' % (y, doy, H, M),
         '%d-%03dT%02d:%02d:%02d' % (y, doy, H, M, S), '%02d %s %d' % (d, mon, y)][f]
    keep = [3, 5, 6, 1, 2, 3, 5, 6, 3, 5, 6, 3][f]
  ctx.label(k, 'form %d' % f); ctx.nontrivial((m, d) != (1, 1))
  t = [y, m, d, H, M, S][:keep] + [0, 1, 1, 0, 0, 0][keep:]
  e = (cal.secs(k, t) - cal.secs(k, c['start']))/cal.UNIT[c['units']]
  v = a.str_as_val('time', s)
  assert abs(v - e) <= 1e-9 + 1e-13*abs(e), '%r in %s since %s is %r, expected %r' % (s, c['units'], c['start'], v, e)
  dt = a.str_as_date('time', s)
  assert cal.secs(k, dt) == cal.secs(k, t), '%r is %s, expected %s' % (s, dt, t)
  # the same string selects
  b = mk(k, t, 'hours', [-48, -24, 0, 24, 48])
  if k == 'Yearless' and False: return
  w = pyg.Var((b,), values=np.arange(5.))
  assert list(w(time=s).get().ravel()) == [2.], 'selecting %r from %s: %s' % (s, b, w(time=s))
  if c['bad'] == '12:00' and k == 'Yearless': return
  try: q = a.str_as_date('time', c['bad'])
  except ValueError: return
  raise AssertionError('%r is taken for a date: %s' % (c['bad'], q))


# ---- arithmetic

@st.composite
def acase(draw):
  k = draw(st.sampled_from(cal.CALS))
  n = draw(st.sampled_from([1, 2, 3, 4, 6, 9]))
  reg = draw(st.booleans())
  if reg:
    step = draw(st.sampled_from([1, 2, 5, 30, -1, -3])); offs = [i*step for i in range(n)]
    if n > 2 and draw(st.integers(0, 3)) == 0:  # nearly regular
      step = draw(st.sampled_from([50, 365, 720, 2000, -365])); offs = [i*step for i in range(n)]; offs[draw(st.integers(0, n-1))] += draw(st.sampled_from([1, -1]))
  else: offs = [draw(st.integers(-500, 500)) for _ in range(n)]
  return dict(k=k, start=draw(cal.moment(k, 4, 9900)), units=draw(st.sampled_from(UNITS)), offs=offs, u2=draw(st.sampled_from(UNITS)), s2=draw(cal.moment(k)),
              d1=draw(cal.moment(k)), d2=draw(cal.moment(k)), res=draw(st.sampled_from([None] + cal.F)), exc=draw(st.sampled_from([[], [], 'year', ['year'], ['hour', 'minute'], ['second']])),
              inc=draw(st.sampled_from([[], [], 'day', ['year', 'month'], ['month', 'day', 'hour']])), uniq=draw(st.booleans()), y=draw(st.integers(1, 3000)))


def check_a(c, ctx):
  import pygeode as pyg
  from pygeode import timeutils as tu
  k = c['k']; U = cal.UNIT[c['units']]; U2 = cal.UNIT[c['u2']]
  a = mk(k, c['start'], c['units'], c['offs'])
  n = len(c['offs']); s0 = cal.secs(k, c['start'])
  S = [s0 + o*U for o in c['offs']]
  T = [cal.date(k, s) for s in S]
  ctx.label(k); ctx.nontrivial(n > 1)
  # differences
  d1, d2 = cal.asdict(k, c['d1']), cal.asdict(k, c['d2'])
  e = cal.secs(k, c['d2']) - cal.secs(k, c['d1'])
  for kw, f in ((dict(), U), (dict(units=c['u2']), U2)):
    got = tu.date_diff(a, d1, d2, **kw)
    assert abs(got - e/f) <= 1e-9 + 1e-13*abs(e/f), 'date_diff(%s, %s, %s) = %r, expected %r' % (d1, d2, kw, got, e/f)
    assert a.date_diff(d1, d2, **kw) == got
  # spacing
  d = np.diff(S)
  if n == 1: assert tu.delta(a) == 0
  elif len(set(d)) == 1:
    for kw, f in ((dict(), U), (dict(units=c['u2']), U2)):
      g.assert_close(tu.delta(a, **kw), d[0]/f, 1e-12, 1e-12, 'delta %s' % kw)
      assert a.delta(**kw) == tu.delta(a, **kw)
    ctx.label('regular')
  else:
    try: q = tu.delta(a, c['u2'])
    except ValueError: q = None
    assert q is None, 'spacing %s of an irregular axis %s' % (q, c['offs'])
    g.assert_close(tu.delta(a, c['u2'], allow_multiple=True), min(d)/U2, 1e-12, 1e-12, 'smallest spacing')
  # from elsewhere
  sd = cal.asdict(k, c['s2']); z = cal.secs(k, c['s2'])
  g.assert_close(tu.reltime(a, startdate=sd), [(s - z)/U for s in S], 1e-13, 1e-9, 'reltime')
  g.assert_close(tu.reltime(a, units=c['u2']), [(s - s0)/U2 for s in S], 1e-13, 1e-9, 'reltime in %s' % c['u2'])
  g.assert_close(a.reltime(sd, c['u2']), [(s - z)/U2 for s in S], 1e-13, 1e-9, 'reltime method')
  b = mk(k, c['s2'], c['u2'], [0, 1])
  x, y = tu.conform_values(a, b)
  g.assert_close(x.values, [(s - z)/U2 for s in S], 1e-13, 1e-9, 'conformed values'); assert x == a and y is b and x.units == c['u2']
  # restricting the fields
  fs = cal.fields(k); keep = list(fs)
  aslist = lambda q: [q] if isinstance(q, str) else q
  if aslist(c['inc']): keep = [f for f in keep if f in aslist(c['inc'])]
  keep = [f for f in keep if f not in aslist(c['exc'])]
  res = c['res'] if c['res'] in fs else None
  if res: keep = [f for f in keep if fs.index(f) <= fs.index(res)]
  if keep:
    m = tu.modify(a, resolution=res, exclude=c['exc'], include=c['inc'], uniquify=c['uniq'])
    rows = [tuple(t[cal.F.index(f)] for f in keep) for t in T]
    if c['uniq']: rows = sorted(set(rows))
    assert set(m.auxarrays) == set(keep), 'fields %s, expected %s' % (sorted(m.auxarrays), keep)
    for i, f in enumerate(keep): g.assert_eq(m.auxarrays[f], [r[i] for r in rows], 'modify %s: %s' % (keep, f))
    sd2 = {f: v for f, v in cal.asdict(k, c['start']).items() if f in keep}
    assert {f: int(v) for f, v in m.startdate.items()} == sd2, 'start date of the modified axis: %s, expected %s' % (m.startdate, sd2)
    g.assert_close(m.values, [(cal.secs(k, dict(zip(keep, r))) - cal.secs(k, sd2))/U for r in rows], 1e-13, 1e-9, 'values of the modified axis')
    assert type(m) is type(a) and m.units == c['units']
    ctx.label('modify %d' % len(keep))
  # months
  if k != 'Yearless':
    for mth in range(1, 13):
      assert a.days_in_month(c['y'], mth) == cal.mlen(k, c['y'], mth), 'days in month %d of %d' % (mth, c['y'])


TESTS = [
  Test('format', case(), check, quick=2500),
  Test('parse', pcase(), check_p, quick=2500),
  Test('arith', acase(), check_a, quick=2000),
]
