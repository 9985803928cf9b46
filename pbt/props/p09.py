"""P09: axis comparison and mapping."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .p05 import UNIT, PARENT

RULE = ('A case is a pair of axes whose correspondence is known by construction: the second has some of the points of the first '
        '(permuted, repeated), extra points, a perturbation within or beyond the tolerance, another class, name, unit or start date. '
        'Non-trivial: both axes have at least two points. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['coordinates are separated by much more than the tolerance', 'time axes are compared through whole seconds']

KINDS = ['Lat', 'Lon', 'Pres', 'Height', 'ZAxis', 'XAxis', 'YAxis', 'NamedAxis', 'Index', 'Freq', 'Hybrid']


@st.composite
def case(draw):
  k = draw(st.sampled_from(KINDS))
  a = draw(g.axis(kind=k, minn=1, maxn=7, aux=False, name='aa' if k == 'NamedAxis' else None))
  c = dict(a=a, big=draw(st.sampled_from([0, 0, 0, 1000, 100000])), rtol=draw(st.sampled_from([None, None, 1e-3, 1e-7])))
  n = len(a['v'])
  c['how'] = draw(st.sampled_from(['same', 'same', 'perm', 'near', 'far', 'shorter', 'class', 'name', 'aux', 'parent', 'sub', 'sub', 'extra', 'repeat']))
  c['perm'] = list(draw(st.permutations(list(range(n)))))
  c['m'] = draw(st.integers(1, n)); c['j'] = draw(st.integers(0, n-1)); c['extra'] = draw(st.lists(st.integers(0, n), max_size=3, unique=True))
  c['e'] = draw(st.lists(st.sampled_from([0, 0, 1, -1, .5]), min_size=n, max_size=n))
  return c


def tolerance(v, rtol):
  """The documented default tolerance, or a finer one if the spacing calls for it."""
  if rtol is not None: return rtol
  return 1e-5


def mk(a, v, rtol=None, **kw):
  import pygeode as pyg
  d = dict(a, v=list(v), **kw)
  ax = g.build_axis(d)
  if rtol is not None:
    aux = dict(ax.auxarrays); aux.update(ax.auxatts)
    args = (ax.values,) + ((ax.name,) if d['k'] == 'NamedAxis' else ())
    ax = type(ax)(*args, **dict(aux, rtol=rtol)) if d['k'] != 'Index' else type(ax)(ax.values, rtol=rtol, **aux)
  return ax


def check(c, ctx):
  import pygeode as pyg
  a0 = c['a']; k = a0['k']
  v = np.array(a0['v'], 'd')
  if k != 'Index': v = v + (c['big'] if k not in ('Lat', 'Lon') else 0)
  how = c['how']; n = len(v)
  if k == 'Index' and how not in ('same', 'class', 'aux'): how = 'same'
  A = mk(a0, v, c['rtol'])
  tol = c['rtol'] or (A.rtol if k == 'Lon' else 1e-5)
  # the spacing is far larger than the tolerance
  if n > 1 and np.min(np.diff(np.sort(v))) < 20*max(tol, A.rtol)*np.max(np.abs(v)): return
  ctx.label(k, how); ctx.nontrivial(n > 1)
  idx = list(range(n)); equal = True; mappable = True; b = dict(a0); kw = {}
  small = min(tol, A.rtol)
  w = v.copy()
  if how == 'perm': idx = c['perm']; equal = idx == list(range(n))
  elif how == 'near':
    w = v*(1 + 0.2*small*np.array(c['e']))
    if k in ('Lat', 'Hybrid'): equal = None      # their derived arrays (weights, A, B) have a fixed tolerance
  elif how == 'far':
    j = c['j']; sp = np.min(np.diff(np.sort(v))) if n > 1 else max(1., abs(v[0]))
    w[j] += sp*0.4; equal = False
  elif how in ('shorter', 'sub'): idx = c['perm'][:c['m']]; equal = idx == list(range(n))
  elif how == 'repeat': idx = [c['perm'][q % n] for q in range(c['m'] + 1)] + [c['j']]; equal = idx == list(range(n))
  elif how == 'parent':
    if k not in PARENT: return
    b = dict(k=PARENT[k]); equal = not A.auxarrays
  elif how == 'class':
    b = dict(k='NamedAxis' if k != 'NamedAxis' else 'Lat', name='other'); equal = mappable = False
  elif how == 'name':
    if k == 'NamedAxis': b = dict(a0, name='bb'); equal = mappable = False
    else: b = dict(a0, name='other')
    if k == 'Index': return
  elif how == 'aux': kw = dict(aux={'extra': list(range(n))}); equal = False
  vals = list(w[idx]); where = list(idx)
  if how == 'far': where[c['j']] = None
  if how == 'extra':
    sp = np.min(np.diff(np.sort(v))) if n > 1 else max(1., abs(v[0]))
    for e in sorted(c['extra'], reverse=True):
      vals.insert(e, np.max(v) + sp*(1 + e)); where.insert(e, None)
    equal = not c['extra']
  if how == 'class' and b['k'] == 'Lat': kw = {}
  B = mk(b, vals, c['rtol'] if how != 'class' else None, **kw)
  if k == 'Index' and how in ('far',): return
  # comparison
  assert (A == A) and not (A != A), 'an axis differs from itself'
  if type(A) is type(B): assert (A == B) == (B == A), 'comparison is not symmetric: %s %s' % (A, B)
  assert (A == B) != (A != B), '== and != agree'
  if equal is None: pass
  elif how == 'parent' and type(B).__name__ == PARENT[k]: assert (A == B) == equal and (B == A) == equal, 'parent class comparison'
  else: assert (A == B) == equal, '%s == %s is %s (%s)' % (list(A.values), list(B.values), A == B, how)
  if equal is not None: assert A.alleq(A, B) == equal
  # mapping: for each point of B, in the order of B, the point of A with that coordinate
  m = A.map_to(B)
  if not mappable:
    assert m is None, 'axes of different identity are mapped: %s' % m
    return
  exp = [q for q in where if q is not None]
  assert m is not None and list(m) == exp, 'map of %s onto %s: %s, expected %s' % (list(B.values), list(A.values), m, exp)
  m = B.map_to(A)
  if how != 'repeat':
    exp = [where.index(q) for q in range(n) if q in where]
    assert m is not None and list(m) == exp, 'map of %s onto %s: %s, expected %s' % (list(A.values), list(B.values), m, exp)


# ---- sorting

@st.composite
def scase(draw):
  return dict(a=draw(g.axis(minn=1, maxn=8, kinds=KINDS + ['StandardTime', 'ModelTime360', 'ModelTime365', 'Yearless', 'Axis'])), rev=draw(st.sampled_from([None, True, False])), order=draw(st.sampled_from([None, None, -1, 1])))


def check_s(c, ctx):
  a = g.build_axis(dict(c['a'], order=c['order'])); v = np.asarray(a.values, 'd'); n = len(v)
  ctx.label(c['a']['k'], str(c['rev'])); ctx.nontrivial(n > 1)
  o = c['rev']
  want = list(np.argsort(v, kind='stable'))
  down = o if o is not None else a.plotatts.get('plotorder', 1) < 0
  if o is None: assert down == (c['order'] < 0 if c['order'] else c['a']['k'] in ('Pres', 'Hybrid')), 'natural order'
  if down: want = want[::-1]
  got = list(a.argsort(reverse=o))
  assert got == want, 'argsort %s, expected %s' % (got, want)
  s = a.sorted(reverse=o)
  g.assert_sub_axis(s, a, want, 'sorted axis')
  m = a.map_to(s)
  assert list(m) == want, 'map onto the sorted axis: %s, expected %s' % (m, want)
  assert list(a.sorted(reverse=o).argsort(reverse=o)) == list(range(n)), 'sorted axis is not sorted'


# ---- times

CAL = ['StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless']


@st.composite
def tcase(draw):
  k = draw(st.sampled_from(CAL))
  n = draw(st.integers(1, 8))
  a = dict(k=k, **draw(g.time_axis(k, n, maxgap=400)))
  return dict(a=a, how=draw(st.sampled_from(['unit', 'unit', 'sub', 'sub', 'extra', 'far', 'perm', 'cal', 'fields', 'fields'])), o=draw(st.integers(0, 20)),
              perm=list(draw(st.permutations(list(range(n))))), m=draw(st.integers(1, n)), j=draw(st.integers(0, n-1)),
              drop=draw(st.sampled_from(['year', 'second', 'hour+', 'day+', 'year,hour+'])))


def other(d, o, vals):
  """The same instants in another unit and from another start date."""
  u = ['seconds', 'minutes', 'hours', 'days'][o % 4]; f = UNIT[d['units']]/float(UNIT[u]); day = 1 + o % 7
  return dict(d, v=[x*f - (day - d['start']['day'])*86400./UNIT[u] for x in vals], units=u, start=dict(d['start'], day=day))


ORDER = ['year', 'month', 'day', 'hour', 'minute', 'second']


def tup(ax, fields=None):
  f = fields or [q for q in ORDER if q in ax.auxarrays]
  return [tuple(int(ax.auxarrays[q][i]) for q in f) for i in range(len(ax))]


def check_t(c, ctx):
  import pygeode as pyg
  d = c['a']; n = len(d['v']); how = c['how']
  A = g.build_axis(d); ctx.label(d['k'], how); ctx.nontrivial(n > 1)
  tA = tup(A)
  assert len(set(tA)) == n, 'distinct times have equal fields: %s' % tA
  unit = UNIT[d['units']]
  vals = list(d['v']); idx = list(range(n))
  if how in ('perm',): idx = c['perm']
  elif how == 'sub': idx = c['perm'][:c['m']]
  vals = [vals[q] for q in idx]
  if how == 'extra': vals = vals + [max(d['v']) + 5, max(d['v']) + 9]; idx = idx + [None, None]
  if how == 'far': vals[c['j']] += 10000; idx[c['j']] = None
  if how == 'cal':
    k2 = CAL[(CAL.index(d['k']) + 1 + c['o'] % 3) % 4]
    st_ = dict(d['start'])
    if k2 == 'Yearless': st_ = {q: st_[q] for q in ('day', 'hour', 'minute', 'second')}
    elif d['k'] == 'Yearless': st_.update(year=2000, month=1)
    B = g.build_axis(dict(d, k=k2, start=st_))
    assert not (A == B) and A != B, 'axes of different calendars are equal'
    assert A.map_to(B) is None and B.map_to(A) is None, 'axes of different calendars are mapped'
    return
  if how == 'fields':
    # the axis without some of its fields (a climatological axis)
    keep = {'year': ORDER[1:], 'second': ORDER[:5], 'hour+': ORDER[:3], 'day+': ORDER[:2], 'year,hour+': ORDER[1:3]}[c['drop']]
    keep = [f for f in keep if f in A.auxarrays]
    if not keep: return
    seen = {}
    for i, t in enumerate(tup(A, keep)): seen.setdefault(t, i)
    u = sorted(seen)
    if c['o'] % 2: u = u[::-1]
    C = type(A)(units=d['units'], **{f: np.array([t[q] for t in u], 'int32') for q, f in enumerate(keep)})
    exp = [u.index(t) for t in tup(A, keep)]
    m = C.map_to(A)
    assert m is not None and list(m) == exp, 'map of the climatological axis %s: %s, expected %s' % (u, m, exp)
    if len(keep) < len(A.auxarrays):
      assert A.map_to(C) is None, 'a full date is found on an axis without %s' % c['drop']
      assert not A == C
    ia, ic = A.common_map(C)
    got = sorted(zip([int(x) for x in ia], [int(x) for x in ic]))
    want = sorted((i, e) for i, e in enumerate(exp))
    assert got == want, 'common map %s, expected %s' % (got, want)
    return
  B = g.build_axis(other(d, c['o'], vals))
  g.assert_close((np.asarray(B.values)*UNIT[B.units] + B.startdate['day']*86400), np.array(vals)*unit + d['start']['day']*86400., 1e-12, 0.51, 'seconds')
  tB = tup(B)
  equal = idx == list(range(n))
  assert (A == B) == equal and (B == A) == equal and (A != B) == (not equal), '%s == %s is %s' % (tA, tB, A == B)
  exp = [q for q in idx if q is not None]
  m = A.map_to(B)
  assert list(m) == exp, 'map of %s onto %s: %s, expected %s' % (tB, tA, m, exp)
  m = B.map_to(A); exp = [idx.index(q) for q in range(n) if q in idx]
  assert list(m) == exp, 'map of %s onto %s: %s, expected %s' % (tA, tB, m, exp)
  ia, ib = A.common_map(B)
  got = sorted(zip([int(x) for x in ia], [int(x) for x in ib]))
  want = sorted((q, i) for i, q in enumerate(idx) if q is not None)
  assert got == want, 'common map %s, expected %s' % (got, want)


@st.composite
def rcase(draw):
  k = draw(st.sampled_from(CAL))
  n = draw(st.sampled_from([2, 3, 1, 5]))
  a = dict(k=k, **draw(g.time_axis(k, n, maxgap=400)))
  return dict(a=a, o=draw(st.integers(0, 20)), i=draw(st.lists(st.integers(0, n-1), min_size=1, max_size=9)), j=draw(st.lists(st.integers(0, n-1), min_size=1, max_size=9)))


def check_r(c, ctx):
  """Axes in which dates recur."""
  d = c['a']
  A = g.build_axis(dict(d, v=[d['v'][q] for q in c['i']])); B = g.build_axis(other(d, c['o'], [d['v'][q] for q in c['j']]))
  ctx.nontrivial(len(set(c['i'])) < len(c['i']) and len(set(c['j'])) < len(c['j'])); ctx.label(d['k'], 'repeated in both' if any(c['i'].count(q) > 1 and c['j'].count(q) > 1 for q in c['i']) else '')
  ia, ib = [[int(q) for q in w] for w in A.common_map(B)]
  m = 'common map of %s and %s: %s, %s' % (c['i'], c['j'], ia, ib)
  assert len(ia) == len(ib) and all(0 <= q < len(A) for q in ia) and all(0 <= q < len(B) for q in ib), m
  assert all(c['i'][p] == c['j'][q] for p, q in zip(ia, ib)), m
  # every date both axes have is found, each time it occurs
  assert set(ia) == set(p for p, q in enumerate(c['i']) if q in c['j']) and set(ib) == set(p for p, q in enumerate(c['j']) if q in c['i']), m
  m = [int(q) for q in A.map_to(B)]
  assert [c['i'][q] for q in m] == [q for q in c['j'] if q in c['i']], 'map of %s onto %s: %s' % (c['j'], c['i'], m)


# ---- finding an axis

@st.composite
def fcase(draw):
  return dict(v=draw(g.var(1, 4, 1, 4)), i=draw(st.integers(0, 3)), case=draw(st.sampled_from(['same', 'upper', 'lower'])))


def check_f(c, ctx):
  import pygeode as pyg
  v = g.build_var(c['v']); nd = len(v.axes); i = c['i'] % nd; a = v.axes[i]
  ctx.nontrivial(nd > 1); ctx.label(type(a).__name__)
  s = dict(same=str, upper=str.upper, lower=str.lower)[c['case']]
  for ref in (s(a.name), s(type(a).__name__) if type(a) is not pyg.NamedAxis else a.name, i, a):
    assert v.whichaxis(ref) == i, 'whichaxis(%r)' % (ref,)
    assert v.hasaxis(ref) and v.getaxis(ref) is a
  if type(a) is not pyg.NamedAxis: assert v.whichaxis(type(a)) == i
  assert getattr(v, a.name) is a
  present = [type(x) for x in v.axes]
  for cls in (pyg.Lat, pyg.Lon, pyg.Pres, pyg.Height, pyg.Freq, pyg.StandardTime, pyg.ModelTime365, pyg.SpectralM):
    want = any(issubclass(t, cls) for t in present)
    assert v.hasaxis(cls) == want, '%s in %s' % (cls, present)
    if not want:
      try: v.whichaxis(cls); raise RuntimeError('found an axis that is not there')
      except KeyError: pass
  for cls in (pyg.timeaxis.Time, pyg.axis.XAxis, pyg.axis.YAxis, pyg.axis.ZAxis):
    w = [q for q, t in enumerate(present) if issubclass(t, cls)]
    assert v.hasaxis(cls) == bool(w)
    if w: assert v.whichaxis(cls) == w[0] and v.whichaxis(cls.__name__.lower()) == w[0]
  assert not v.hasaxis('nosuchaxis')


# ---- axes of names

@st.composite
def ncase(draw):
  n = draw(st.integers(1, 6))
  names = draw(st.permutations(['aa', 'b', 'c c', 'dd', 'e', 'f1', 'g']))[:n]
  c = dict(k=draw(st.sampled_from(['Station', 'Station', 'NonCoordinateAxis'])), names=list(names), num=draw(st.booleans()), form=draw(st.sampled_from(['list', 'array', 'tuple'])))
  c['how'] = draw(st.sampled_from(['same', 'perm', 'perm', 'sub', 'extra', 'other', 'less', 'number', 'kind']))
  c['perm'] = list(draw(st.permutations(list(range(n))))); c['m'] = draw(st.integers(1, n)); c['at'] = draw(st.integers(0, n))
  c['lazy'] = [draw(st.sampled_from(g.LAZY)) for _ in range(2)]
  return c


def check_n(c, ctx):
  import pygeode as pyg
  from pygeode import axis as axm
  names = c['names']; n = len(names); how = c['how']
  def mk(names, num, kind=c['k'], key='station'):
    f = dict(list=list, array=np.array, tuple=tuple)[c['form']]
    kw = {key: f(names)}
    if num: kw['height'] = f([float(10*('abcdefghij'.index(x[0]) + q)) for x, q in zip(names, num)])
    return getattr(axm, kind)(name='station', **kw)
  zero = [0]*10
  A = mk(names, zero if c['num'] else None)
  idx = list(range(n)); num = zero if c['num'] else None; kind = c['k']; key = 'station'; nm = list(names)
  if how == 'perm': idx = c['perm']
  elif how == 'sub': idx = c['perm'][:c['m']]
  nm = [names[i] for i in idx]; where = list(idx); equal = idx == list(range(n)); mapped = True
  if how == 'extra': nm.insert(c['at'], 'h9'); where.insert(c['at'], None); equal = False
  elif how == 'other': nm[c['perm'][0]] = 'i7'; where[c['perm'][0]] = None; equal = False
  elif how == 'less': num = None if c['num'] else zero; equal = False
  elif how == 'number' and c['num']: num = [0]*10; num[c['perm'][0]] = 500; where[c['perm'][0]] = None; equal = False
  elif how == 'kind': kind = dict(Station='NonCoordinateAxis', NonCoordinateAxis='Station')[kind]; equal = False; mapped = kind == 'Station'
  B = mk(nm, num, kind, key)
  ctx.label(how, c['k'], 'numbers' if c['num'] else ''); ctx.nontrivial(n > 1)
  assert A == A and not (A != A)
  assert (A == B) == equal and (B == A) == equal and (A != B) != equal, '%s and %s: %s' % (A.auxarrays, B.auxarrays, A == B)
  m = A.map_to(B)
  if not mapped: assert m is None, m; return
  assert list(m) == [q for q in where if q is not None], 'map of %s onto %s is %s' % (B.auxarrays, A.auxarrays, m)
  if how != 'kind':
    m = B.map_to(A)
    assert list(m) == [where.index(q) for q in range(n) if q in where], 'map of %s onto %s is %s' % (A.auxarrays, B.auxarrays, m)
  for i, x in enumerate(names): assert A.str_as_val('station', x) == i and A.formatvalue(i) == x
  assert A.str_as_val('station', 'zz') == -1
  # variables at these places
  x = g.lazify(pyg.Var((A,), values=10.*(1 + np.arange(n)), name='x'), c['lazy'][0])
  y = g.lazify(pyg.Var((B,), values=np.array([1000.*(1 + names.index(q)) if q in names else 7e7 for q in nm]), name='y'), c['lazy'][1])
  if how == 'kind': return
  part = [q for q in where if q is not None]
  if len(part) == n or len(part) == len(nm):          # one has all places of the other
    r = x + y
    a = r.axes[0]
    assert r.naxes == 1, r.axes
    got = dict(zip([str(q) for q in a.auxarrays['station']], r.get()))
    assert got == {names[q]: 10.*(1 + q) + 1000.*(1 + q) for q in part}, 'sum at the places %s and %s: %s' % (names, nm, got)
    if len(part) == len(nm): g.assert_eq(x(l_station=tuple(nm)).get() if len(nm) > 1 else x(s_station=nm[0]).get(), np.array([10.*(1 + q) for q in sorted(part)]) if len(nm) > 1 else np.array(10.*(1 + part[0])), 'selection by name')


TESTS = [
  Test('pairs', case(), check, quick=3500),
  Test('sorting', scase(), check_s, quick=1200),
  Test('times', tcase(), check_t, quick=3000),
  Test('recurring', rcase(), check_r, quick=600),
  Test('names', ncase(), check_n, quick=1200),
  Test('find', fcase(), check_f, quick=500),
]
