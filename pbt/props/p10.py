"""P10: calendar conversion."""
import datetime
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import cal

RULE = ('A case is a calendar, a start date, a unit and a set of dates (years 1 to 9999, biased to the ends of months, leap years and centuries, '
        'before and after the start date, in any order), or the arguments of an axis constructor. Non-trivial: some date differs from the start '
        'date. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['times are whole seconds; fractional values are rounded to the nearest second',
               'the start date itself has a month between 1 and 12']

UNITS = ['days', 'days', 'hours', 'minutes', 'seconds']


def mk(k, **kw):
  import pygeode as pyg
  return getattr(pyg, k)(**kw)


def check_fields(a, k, dates, only=None, msg=''):
  for f in cal.fields(k):
    if only is not None and f not in only:
      assert f not in a.auxarrays, '%s: unexpected field %s' % (msg, f); continue
    g.assert_eq(a.auxarrays[f], [t[cal.F.index(f)] for t in dates], '%s: %s of %s' % (msg, f, dates))
    assert getattr(a, f) is a.auxarrays[f] or g.eq(getattr(a, f), a.auxarrays[f])


@st.composite
def case(draw):
  k = draw(st.sampled_from(cal.CALS))
  near = draw(st.integers(0, 2))
  start = draw(cal.moment(k))
  n = draw(st.sampled_from([1, 2, 3, 5, 8]))
  if near: offs = [draw(st.integers(-800*86400, 800*86400)) if near == 1 else 86400*draw(st.integers(-800, 800)) for _ in range(n)]
  else: offs = [cal.secs(k, draw(cal.moment(k))) - cal.secs(k, start) for _ in range(n)]
  return dict(k=k, start=start, offs=offs, units=draw(st.sampled_from(UNITS)), u2=draw(st.sampled_from(UNITS)), s2=draw(cal.moment(k)),
              frac=draw(st.sampled_from([0, 0, 1])), dt=draw(st.sampled_from(['d', 'd', 'i8', 'list'])), short=draw(st.booleans()))


def check(c, ctx):
  import pygeode as pyg
  k = c['k']; start = c['start']; U = cal.UNIT[c['units']]
  s0 = cal.secs(k, start)
  offs = [o for o in c['offs'] if k == 'Yearless' or 1 <= cal.date(k, s0 + o)[0] <= 9999]
  if not offs: return
  dates = [cal.date(k, s0 + o) for o in offs]
  if k == 'StandardTime':      # the model itself
    for t, o in zip(dates, offs):
      d = (datetime.datetime(*t) - datetime.datetime(*start)) if 1 <= t[0] <= 9999 else None
      assert d is None or d.days*86400 + d.seconds == o, 'calendar model'
  ctx.label(k, c['units'], 'before' if min(offs) < 0 else 'after'); ctx.nontrivial(any(offs))
  vals = np.array(offs, 'd')/U
  if c['frac']: vals = vals + 0.3/U
  if c['dt'] == 'i8' and np.all(vals == np.round(vals)): vals = vals.astype('i8')
  elif c['dt'] == 'list': vals = list(vals)
  sd = cal.asdict(k, start)
  if c['short']:
    # zero times of day in the start date may be left out, and still make their fields
    sd = {f: v for f, v in sd.items() if f not in ('hour', 'minute', 'second') or v}
  a = mk(k, values=vals, units=c['units'], startdate=sd)
  check_fields(a, k, dates, msg='%s %s since %s' % (list(vals), c['units'], start))
  exp = np.array(offs, 'd')/U
  g.assert_close(a.values, exp, 1e-14, 1e-12, 'values')
  assert a.units == c['units'] and {f: int(v) for f, v in a.startdate.items()} == cal.asdict(k, start), 'start date %s' % a.startdate
  assert len(a) == len(offs)
  # explicit conversions, whole arrays and single values, from any start date in any unit
  d2 = cal.asdict(k, c['s2']); U2 = cal.UNIT[c['u2']]
  rel = np.array([cal.secs(k, t) - cal.secs(k, c['s2']) for t in dates], 'd')/U2
  got = a.date_as_val(startdate=d2, units=c['u2'])
  g.assert_close(got, rel, 1e-14, 1e-12, 'date_as_val from %s in %s' % (c['s2'], c['u2']))
  g.assert_close(pyg.timeutils.reltime(a, startdate=d2, units=c['u2']), rel, 1e-14, 1e-12, 'reltime')
  back = a.val_as_date(got, startdate=d2, units=c['u2'])
  for f in cal.fields(k): g.assert_eq(back[f], [t[cal.F.index(f)] for t in dates], 'val_as_date: ' + f)
  one = cal.asdict(k, dates[0])
  v = a.date_as_val(one)
  assert np.ndim(v) == 0 and abs(v - exp[0]) <= 1e-9 + 1e-14*abs(exp[0]), 'date_as_val(%s) = %r, expected %r' % (one, v, exp[0])
  assert {f: int(q) for f, q in a.val_as_date(exp[0]).items()} == one, 'val_as_date(%r) = %s, expected %s' % (exp[0], a.val_as_date(exp[0]), one)
  b = mk(k, values=got, units=c['u2'], startdate=d2)
  assert a == b, 'the same times from another start date'


# ---- from fields

@st.composite
def fcase(draw):
  k = draw(st.sampled_from(cal.CALS))
  n = draw(st.sampled_from([1, 2, 3, 5, 8]))
  fs = cal.fields(k)
  keep = draw(st.sampled_from([fs, fs, fs, fs[:-1], fs[:1], fs[1:], fs[:3], fs[1:3], fs[:2]]))
  return dict(k=k, dates=[draw(cal.moment(k, 1, 3000)) for _ in range(n)], keep=keep, units=draw(st.sampled_from(UNITS)),
              start=draw(st.one_of(st.none(), cal.moment(k, 1, 3000))), dt=draw(st.sampled_from(['i4', 'i8', 'd', 'list'])),
              over=draw(st.one_of(st.none(), st.tuples(st.integers(-30, 30), st.integers(-400, 400), st.integers(-30, 50), st.integers(-70, 130), st.integers(-70, 130)))))


def check_f(c, ctx):
  import pygeode as pyg
  k = c['k']; keep = c['keep']; U = cal.UNIT[c['units']]
  dates = c['dates']; n = len(dates)
  mkarr = (lambda x: list(x)) if c['dt'] == 'list' else (lambda x: np.array(x, c['dt']))
  kw = {f: mkarr([t[cal.F.index(f)] for t in dates]) for f in keep}
  sd = None
  if c['start'] is not None: sd = cal.asdict(k, c['start']); kw['startdate'] = dict(sd)
  a = mk(k, units=c['units'], **kw)
  ctx.label(k, '%d fields' % len(keep), 'start' if sd else 'no start'); ctx.nontrivial(n > 1)
  check_fields(a, k, dates, only=keep, msg='axis from fields')
  part = [{f: t[cal.F.index(f)] for f in keep} for t in dates]
  s = {f: v for f, v in sd.items() if f in keep} if sd else part[0]
  exp = np.array([cal.secs(k, t) - cal.secs(k, s) for t in part], 'd')/U
  g.assert_close(a.values, exp, 1e-14, 1e-12, 'values from fields %s relative to %s' % (part, s))
  assert {f: int(v) for f, v in a.startdate.items()} == s, 'start date %s, expected %s' % (a.startdate, s)
  if set(keep) == set(cal.fields(k)):
    b = mk(k, values=exp, units=c['units'], startdate=s)
    assert a == b, 'the same dates from fields and from values'
    # concatenated pieces keep their dates
    if n > 1:
      pieces = [mk(k, values=[0], units=c['units'], startdate=p) for p in part]
      j = type(a).concat(pieces)
      check_fields(j, k, dates, msg='concatenated axes')
      g.assert_close(j.values, exp if not sd else [(cal.secs(k, t) - cal.secs(k, part[0]))/U for t in part], 1e-14, 1e-12, 'values of concatenated axes')
  # fields outside their range are carried over
  if c['over'] is not None:
    dm, dd, dh, dmi, ds = c['over']
    y, m, d, H, M, S = dates[0]
    if k == 'Yearless': dm = 0
    q = [y, m + dm, d + dd, H + dh, M + dmi, S + ds]
    if k != 'Yearless' and q[0] < 100: q[0] += 100
    dt = cal.asdict(k, q)
    ref = cal.asdict(k, c['start'] or dates[-1])
    full = mk(k, values=[0], units=c['units'], startdate=ref)
    e = cal.secs(k, q) - cal.secs(k, ref)
    v = full.date_as_val(dt)
    assert abs(v - e/U) <= 1e-9 + 1e-14*abs(e), 'date_as_val(%s) since %s = %r, expected %r' % (dt, ref, v, e/U)
    w = pyg.timeutils.wrapdate(full, dict(dt))
    assert {f: int(x) for f, x in w.items()} == cal.asdict(k, cal.date(k, cal.secs(k, q))), 'wrapdate(%s) = %s' % (dt, w)
    ctx.label('carried over')


# ---- constructors

@st.composite
def rcase(draw):
  k = draw(st.sampled_from(cal.CALS))
  return dict(k=k, start=draw(cal.moment(k, 1, 9990)), ref=draw(st.one_of(st.none(), cal.moment(k, 1, 9990))), units=draw(st.sampled_from(UNITS)),
              n=draw(st.integers(1, 40)), step=draw(st.sampled_from([1, 1, 2, 3, 7, 0.5, 1.5, 24, 30])), rest=draw(st.integers(0, 5)), inc=draw(st.integers(0, 3)),
              form=draw(st.integers(0, 3)), f2=draw(st.integers(0, 3)))


def spell(k, t, form):
  y, m, d, H, M, S = t
  hms = '%02d:%02d:%02d' % (H, M, S)
  if form == 0: return '%s %d %s %d' % (hms, d, cal.MONTHS[m-1], y)
  if form == 1: return '%d-%02d-%02dT%s' % (y, m, d, hms)
  if form == 2: return '%d-%03dT%s' % (y, cal.daynum(k, y, m, d) - cal.daynum(k, y, 1, 1) + 1, hms)
  if H == M == S == 0: return '%d %s %d' % (d, cal.MONTHS[m-1].upper(), y)
  if S == 0: return '%02d:%02d %d %s %d' % (H, M, d, cal.MONTHS[m-1].lower(), y)
  return spell(k, t, 1)


def check_r(c, ctx):
  import pygeode as pyg
  k = c['k']; u = c['units']; U = cal.UNIT[u]; n = c['n']; step = c['step']
  st_ = step*U
  if st_ != int(st_): step = 1; st_ = U
  st_ = int(st_)
  s0 = cal.secs(k, c['start'])
  if k != 'Yearless' and cal.date(k, s0 + (n+1)*st_)[0] > 9999: return
  exp = [cal.date(k, s0 + i*st_) for i in range(n)]
  ctx.label(k, u); ctx.nontrivial(n > 1)
  if k == 'Yearless':
    d = c['start'][2]
    a = pyg.yearlessn(n, start=d, step=step, units=u)
    exp = [cal.date(k, d*86400 + i*st_) for i in range(n)]
    check_fields(a, k, exp, msg='yearlessn'); assert a.units == u
    return
  nm = {'StandardTime': 'standardtime', 'ModelTime365': 'modeltime365', 'ModelTime360': 'modeltime360'}[k]
  ref = c['ref']
  kw = dict(step=step, units=u)
  if ref is not None: kw['ref'] = spell(k, ref, c['f2'])
  a = getattr(pyg, nm + 'n')(spell(k, c['start'], c['form']), n, **kw)
  check_fields(a, k, exp, msg=nm + 'n(%s, %d, %s)' % (spell(k, c['start'], c['form']), n, kw))
  r0 = cal.secs(k, ref) if ref is not None else s0
  g.assert_close(a.values, [(s0 + i*st_ - r0)/U for i in range(n)], 1e-13, 1e-9, 'values relative to the reference date')
  assert a.units == u and type(a).__name__ == k
  # range: from start up to, not including, the end; or including it
  inc = c['inc'] == 0
  end = s0 + (n - 1)*st_ + (0 if inc else (1 + (c['rest']*st_)//6 if c['rest'] else st_))
  e = cal.date(k, end)
  kw2 = dict(kw, inc=True) if inc else kw
  b = getattr(pyg, nm + 'range')(spell(k, c['start'], c['form']), spell(k, e, c['f2']), **kw2)
  check_fields(b, k, exp, msg=nm + 'range(%s, %s, %s)' % (c['start'], e, kw2))
  assert a == b
  # packed dates
  if all(t[3:] == (0, 0, 0) for t in exp):
    d = mk(k, values=[t[0]*10000 + t[1]*100 + t[2] for t in exp], datefmt='yyyymmdd', units=u)
    check_fields(d, k, exp, msg='yyyymmdd')
    g.assert_close(d.values, [i*st_/U for i in range(n)], 1e-13, 1e-9, 'values of packed dates')
  if all(t[4:] == (0, 0) for t in exp):
    d = mk(k, values=[((t[0]*100 + t[1])*100 + t[2])*100 + t[3] for t in exp], datefmt='yyyymmddhh', units=u)
    check_fields(d, k, exp, msg='yyyymmddhh'); ctx.label('packed')


TESTS = [
  Test('convert', case(), check, quick=3000),
  Test('fields', fcase(), check_f, quick=2500),
  Test('construct', rcase(), check_r, quick=2000),
]
