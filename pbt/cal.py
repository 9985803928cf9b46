"""An independent model of the calendars: day counting with integers, no pygeode code."""
from hypothesis import strategies as st

CALS = ['StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless']
UNIT = dict(seconds=1, minutes=60, hours=3600, days=86400)
ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
FULL = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
F = ['year', 'month', 'day', 'hour', 'minute', 'second']


def fields(k): return F[2:] if k == 'Yearless' else F


def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(k, y, m):
  if k == 'ModelTime360': return 30
  if k == 'StandardTime' and m == 2 and leap(y): return 29
  return ML[m-1]


def ylen(k, y):
  return 360 if k == 'ModelTime360' else 366 if k == 'StandardTime' and leap(y) else 365


def year_start(k, y):
  """Days from the start of year 0 to the start of year y."""
  if k == 'ModelTime360': return 360*y
  if k == 'ModelTime365': return 365*y
  q = y - 1            # last complete year after year 0 (which is a leap year)
  return 365*y + (q//4 - q//100 + q//400 + 1)


def daynum(k, y, m, d):
  if k == 'Yearless': return d
  y += (m - 1)//12; m = (m - 1) % 12 + 1
  return year_start(k, y) + sum(mlen(k, y, q) for q in range(1, m)) + d - 1


def secs(k, t):
  """Seconds from the epoch of the calendar; t: dict or 6-tuple, fields missing from a dict have their defaults."""
  if isinstance(t, dict): t = [t.get(f, dflt) for f, dflt in zip(F, (0, 1, 1, 0, 0, 0))]
  y, m, d, H, M, S = [int(x) for x in t]
  return daynum(k, y, m, d)*86400 + H*3600 + M*60 + S


def date(k, s):
  """Inverse of secs -> (year, month, day, hour, minute, second)."""
  n, r = divmod(int(s), 86400)
  H, r = divmod(r, 3600); M, S = divmod(r, 60)
  if k == 'Yearless': return (0, 1, n, H, M, S)
  y = n//366 - 1 if n >= 0 else n//360 - 1
  while year_start(k, y + 1) <= n:
    y += max(1, (n - year_start(k, y))//367)
  n -= year_start(k, y)
  m = 1
  while n >= mlen(k, y, m): n -= mlen(k, y, m); m += 1
  return (y, m, n + 1, H, M, S)


def asdict(k, t): return {f: v for f, v in zip(F, t) if f in fields(k)}


@st.composite
def moment(draw, k, ylo=1, yhi=9999, sub=True):
  """A valid date, biased to the ends of months, years and centuries."""
  if k == 'Yearless':
    y, m = 0, 1; d = draw(st.sampled_from([0, 1, 2, 100, 365, 5000]) if draw(st.booleans()) else st.integers(-400, 4000))
  else:
    y = draw(st.one_of(st.integers(ylo, yhi), st.sampled_from([q for q in (1, 4, 100, 400, 1599, 1600, 1700, 1899, 1900, 1904, 1970, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 9996, 9999) if ylo <= q <= yhi])))
    m = draw(st.one_of(st.integers(1, 12), st.sampled_from([1, 2, 2, 3, 12])))
    n = mlen(k, y, m)
    d = draw(st.one_of(st.integers(1, n), st.sampled_from([1, 2, n-1, n])))
  t = [0, 0, 0]
  if sub and draw(st.integers(0, 3)): t = [draw(st.sampled_from([0, 1, 6, 11, 12, 13, 23])), draw(st.sampled_from([0, 1, 30, 59])), draw(st.sampled_from([0, 1, 30, 59]))]
  return [y, m, d] + t


@st.composite
def series(draw, k=None, sizes=(1, 2, 4, 8, 16, 30), order=None, dup=False, groups=True, kinds=CALS):
  """A time axis meant to be grouped: dates that share days, months, hours and so on across years."""
  k = k or draw(st.sampled_from(kinds))
  n = draw(st.sampled_from(sizes))
  style = draw(st.sampled_from(['grid', 'grid', 'step', 'hours', 'gaps']))
  start = draw(moment(k, 1950, 2050, sub=draw(st.booleans())))
  if k == 'Yearless': start[2] = abs(start[2]) % 100
  s0 = secs(k, start)
  if style == 'step':
    step = draw(st.sampled_from([1, 3, 7, 10, 15, 30, 73]))*86400
    S = [s0 + i*step for i in range(n)]
  elif style == 'hours':
    step = draw(st.sampled_from([1, 3, 6, 7, 12]))*3600
    S = [s0 + i*step for i in range(n)]
  elif style == 'gaps' or k == 'Yearless':
    S = [s0]
    for g_ in draw(st.lists(st.integers(1, 2400), min_size=n-1, max_size=n-1)): S.append(S[-1] + g_*3600)
  else:
    ys = draw(st.sampled_from([(1999, 2000), (2000, 2001, 2004), (1899, 1900, 1901), (2003,)]))
    ms = draw(st.sampled_from([(1, 2, 3), (2,), (12, 1), (11, 12, 1, 2, 3), (5, 6, 8, 9), tuple(range(1, 13))]))
    S = set()
    raw = draw(st.lists(st.tuples(st.sampled_from(ys), st.sampled_from(ms), st.sampled_from([1, 2, 15, 28, -1]), st.sampled_from([0, 0, 6, 18])), min_size=n, max_size=n))
    for y, m, d, H in raw: S.add(secs(k, (y, m, d if d > 0 else mlen(k, y, m), H, 0, 0)))
    S = sorted(S)
  order = order or draw(st.sampled_from(['asc', 'asc', 'asc', 'desc', 'shuf']))
  if order == 'desc': S = S[::-1]
  elif order == 'shuf': S = list(draw(st.permutations(S)))
  u = draw(st.sampled_from(['days', 'hours', 'minutes', 'seconds']))
  ref = draw(st.sampled_from(['first', 'start', 'other']))
  base = list(date(k, S[0])) if ref == 'first' else start if ref == 'start' else [2 if k != 'Yearless' else 0, 1, 1, 0, 0, 0]
  return dict(k=k, v=[(s - secs(k, base))/UNIT[u] for s in S], units=u, start=asdict(k, base), secs=S)


def dates(a):
  return [date(a['k'], s) for s in a['secs']]
