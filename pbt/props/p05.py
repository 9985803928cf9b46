"""P05: element-wise operations line variables up by axis."""
import random
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g

RULE = ('A case is 1-3 operands over a pool of 1-4 axes (each operand a subset of the pool in any order; a shared axis may be a '
        'subset or a permutation of the points in one of them, of a parent class, or in other time units), an operator or '
        'function, chunk size and laziness. Non-trivial: two variables sharing an axis but differing in axis lists or points, '
        'or a variable with a number. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['axes of the generic Axis class and axes with repeated coordinates are not combined',
               'division and remainder are generated with positive data; functions of floats are compared to 1e-12 relative']

UNIT = dict(seconds=1, minutes=60, hours=3600, days=86400)
WIDE = ['Pres', 'Height', 'Hybrid', 'NamedAxis', 'ZAxis', 'Freq']
CLUSTERS = [[4e-6, 4.5e-6, 5e-6], [1e-4, 1.1e-4, 3e-4], [1e-3, 1.01e-3], [.02, .02001], [.5, 1., 1.001], [7.], [100., 100.01], [850., 1000.]]
PARENT = {'Lat': 'YAxis', 'Lon': 'XAxis', 'Pres': 'ZAxis', 'Height': 'ZAxis', 'Hybrid': 'ZAxis'}
OPS = ['+', '-', '*', '/', '**', '%', '<', '<=', '>', '>=', '==', '!=']
FN2 = ['arctan2', 'arctand2', 'minimum', 'maximum']


@st.composite
def operand(draw, pool, sub=True, minax=0):
  n = len(pool)
  which = draw(st.permutations(list(range(n))))[:draw(st.integers(min(minax, n), n))]
  axs = []
  for i in which:
    m = len(pool[i]['v'])
    o = dict(i=i)
    if sub:
      how = draw(st.sampled_from(['all', 'all', 'all', 'sub', 'perm', 'other', 'seq']))
      if how == 'sub':
        p = draw(st.permutations(list(range(m))))[:draw(st.integers(1, m))]
        o['p'] = sorted(p) if draw(st.integers(0, 2)) else list(p)
      elif how == 'seq':
        a = draw(st.integers(0, m-1)); o['p'] = list(range(a, draw(st.integers(a+1, m))))
      elif how == 'perm': o['p'] = list(draw(st.permutations(list(range(m)))))
      elif how == 'other': o['other'] = draw(st.integers(0, 20))
    axs.append(o)
  return dict(axes=axs, dtype=draw(st.sampled_from(g.DTYPES)), seed=draw(g.data_seed), lazy=draw(st.sampled_from(g.LAZY)),
              name=draw(st.sampled_from(['u', 'v', 'w'])))


@st.composite
def case(draw):
  pool = draw(g.axes(1, 4, 1, 5, aux=False))
  if draw(st.integers(0, 3)) == 0:
    # values of many magnitudes, some close to each other
    for a in pool:
      if a['k'] in WIDE: a['v'] = list(draw(st.permutations([x for q in draw(st.permutations(CLUSTERS))[:draw(st.integers(1, 3))] for x in q])))
      if a['k'] in WIDE and draw(st.booleans()): a['v'].sort(reverse=draw(st.booleans()))
  nop = draw(st.sampled_from([2, 2, 2, 3]))
  c = dict(pool=pool, ops=[draw(operand(pool, sub=True)) for _ in range(nop)])
  if draw(st.integers(0, 2)) == 0:
    # two operands with parts of one axis, drawn apart
    i = draw(st.integers(0, len(pool)-1)); m = len(pool[i]['v'])
    for o in c['ops'][:2]:
      e = [x for x in o['axes'] if x['i'] == i] or [dict(i=i)]
      if not any(x['i'] == i for x in o['axes']): o['axes'].insert(draw(st.integers(0, len(o['axes']))), e[0])
      e[0].pop('other', None)
      p = random.Random(draw(st.integers(0, 10**6))).sample(range(m), draw(st.sampled_from([m, max(m-1, 1), (m+1)//2, 1])))
      e[0]['p'] = sorted(p) if draw(st.booleans()) else p
  if nop == 3: c['f'] = draw(st.sampled_from(['vsum', 'vprod', '+*', '-+', 'max-']))
  else: c['f'] = draw(st.sampled_from(OPS + FN2 + ['vsum', 'vprod']))
  c['chunk'] = draw(st.sampled_from(g.MAXSIZES)); c['sub'] = draw(g.subspec())
  return c


def build_operand(o, pool, kind, axcache=None):
  """-> (var, array over its axes, list of (pool index, positions))"""
  import pygeode as pyg
  axs, keys, scale = [], [], []
  for a in o['axes']:
    d = dict(pool[a['i']]); m = len(d['v'])
    p = a.get('p', list(range(m)))
    if a.get('other') is not None:
      if d['k'] in g.TIMES:
        u = ['seconds', 'minutes', 'hours', 'days'][a['other'] % 4]
        f = UNIT[d['units']]/float(UNIT[u])
        day = 1 + a['other'] % 5
        v = [x*f - (day - d['start']['day'])*86400./UNIT[u] for x in d['v']]
        d = dict(d, v=v, units=u, start=dict(d['start'], day=day))
      elif d['k'] in PARENT:
        d = dict(k=PARENT[d['k']], v=d['v'])
    ax = g.build_axis(d)
    if 'p' in a: ax = ax.slice[list(p)]
    axs.append(ax); keys.append((a['i'], list(p)))
  sh = tuple(len(k[1]) for k in keys)
  data = g.build_data(sh, o['dtype'], o['seed'], kind)
  v = pyg.Var(axs, values=data.copy(), name=o['name'])
  return g.lazify(v, o['lazy']), data, keys


def seconds(ax): return np.asarray(ax.values, 'd')*UNIT[ax.units] + ax.startdate['day']*86400.


def locate(ax, pool, used):
  """Which pool axis a result axis is, and the positions its points have in it."""
  for i, d in enumerate(pool):
    if i not in used: continue
    b = g.build_axis(d)
    if d['k'] in g.TIMES:
      if not hasattr(ax, 'startdate'): continue
      x, y = seconds(ax), seconds(b)
    else:
      if hasattr(ax, 'startdate'): continue
      cls = type(b)
      ok = type(ax) is cls or (d['k'] in PARENT and type(ax).__name__ == PARENT[d['k']])
      if not ok or (d['k'] == 'NamedAxis' and ax.name != b.name): continue
      x, y = np.asarray(ax.values, 'd'), np.asarray(b.values, 'd')
    pos = [int(np.argmin(np.abs(y - t))) for t in x]
    assert np.allclose(y[pos], x, rtol=1e-9, atol=1e-6 if d['k'] in g.TIMES else 0), 'axis %s of the result has points %s not among %s' % (ax, x, y)
    return i, pos
  raise AssertionError('result axis %r is none of the axes of the operands' % (ax,))


def align(data, keys, rk):
  """The operand as an array over the result axes rk = [(pool index, positions)] (size 1 where it lacks the axis)."""
  own = [k[0] for k in keys]
  have = [q for q in rk if q[0] in own]
  a = data.transpose([own.index(q[0]) for q in have])
  for d, q in enumerate(have):
    pos = keys[own.index(q[0])][1]
    a = np.take(a, np.array([pos.index(t) for t in q[1]], 'i8'), axis=d)
  return a.reshape([len(q[1]) if q[0] in own else 1 for q in rk])


def fold(sets):
  """Combined points of a shared axis, or None if a step is refused."""
  cur = set(sets[0])
  for s in sets[1:]:
    s = set(s)
    if s <= cur: cur = s
    elif cur <= s: pass
    else: return None
  return cur


PY = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a*b, '/': lambda a, b: a/b, '**': lambda a, b: a**b,
      '%': lambda a, b: a % b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
      '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def apply_(f, args, lib):
  if f in PY: return PY[f](*args)
  if f == '+*': return (args[0] + args[1])*args[2]
  if f == '-+': return (args[0] - args[1]) + args[2]
  if f == 'max-': return lib['maximum'](args[0], args[1]) - args[2]
  return lib[f](*args)


NP = dict(arctan2=np.arctan2, arctand2=lambda a, b: np.arctan2(a, b)*180./np.pi, minimum=np.minimum, maximum=np.maximum,
          vsum=lambda *a: sum(a[1:], a[0]), vprod=lambda *a: a[0]*a[1]*(a[2] if len(a) == 3 else 1))


class Lib:
  def __getitem__(self, k):
    import pygeode
    return getattr(pygeode.ufunc, k)


def check(c, ctx):
  import pygeode as pyg
  f = c['f']; pool = c['pool']
  kind = 'pos' if f in ('**', '%', '/') else 'small' if f in ('==', '!=') else 'quarter'
  if f == '**': c = dict(c, ops=[dict(o, dtype=o['dtype'] if o['dtype'].startswith('f') else 'float64') for o in c['ops']])
  if f == '%' or f == '/': kind = 'perm'
  vs, datas, keys = zip(*[build_operand(o, pool, kind) for o in c['ops']])
  used = {}
  for k in keys:
    for i, p in k: used.setdefault(i, []).append(p)
  shared = [i for i in used if len(used[i]) > 1]
  refused = [i for i in used if fold(used[i]) is None]
  ctx.label('f:' + f, '%d operands' % len(vs), 'refused' if refused else None)
  for i in shared:
    s = used[i]
    ctx.label('shared:' + ('same' if all(p == s[0] for p in s) else 'perm' if all(set(p) == set(s[0]) for p in s) else 'subset'))
  g.set_chunk(c['chunk'])
  if refused:
    try: apply_(f, vs, Lib())
    except ValueError: return
    raise AssertionError('axes covering partly different points were combined: %s' % [pool[i] for i in refused])
  ctx.nontrivial(bool(shared) and len(set(map(str, keys))) > 1)
  r = apply_(f, vs, Lib())
  assert isinstance(r, pyg.Var)
  rk = [locate(a, pool, used) for a in r.axes]
  assert sorted(q[0] for q in rk) == sorted(used), 'result has axes %s, expected one each of %s' % (r.axes, [pool[i] for i in used])
  for i, pos in rk:
    assert sorted(pos) == sorted(fold(used[i])), 'result covers points %s of axis %d, expected %s' % (pos, i, sorted(fold(used[i])))
  # a documented convenience: an operand which has every axis decides the order
  full = [[k[0] for k in kk] for kk in keys if len(kk) == len(used)]
  if full and all(p == s[0] for s in used.values() for p in s) and not any('other' in a for o in c['ops'] for a in o['axes']):
    assert [q[0] for q in rk] == full[0] or len(vs) == 3 or f in PY, 'order of axes %s, expected %s' % (rk, full[0])
  args = [align(d, k, rk) for d, k in zip(datas, keys)]
  exp = np.broadcast_to(apply_(f, args, NP), tuple(len(q[1]) for q in rk))
  f32 = any(low(d) for d in datas)
  rt = 2e-5 if f32 and f in ('vsum', 'vprod', '**', '%', '+*', '-+', 'arctan2', 'arctand2', 'max-') else 1e-12
  if f in ('%', '**') and f32: rt = 1e-4
  g.check_result(r, exp, c['sub'], rtol=rt, atol=1e-4 if f32 and f == '-+' else 0, msg='%s of %s' % (f, [[a.name for a in v.axes] for v in vs]))


def low(a):
  ''' Are functions of these data computed in less than double precision? (so for small integers too) '''
  return a.dtype.name in ('float16', 'float32', 'int16', 'uint8', 'int8', 'uint16')


# ---- variables and numbers

@st.composite
def scase(draw):
  v = draw(g.var(0, 3, 1, 5))
  f = draw(st.sampled_from(OPS + FN2 + ['neg', 'abs', 'pos', 'clip', 'map', 'vsum']))
  return dict(v=v, f=f, s=draw(st.sampled_from([2, 3, -1, 0.5, 2.5, -7.25, 4, 1])), side=draw(st.sampled_from(['l', 'r'])),
              lazy=draw(st.sampled_from(g.LAZY)), chunk=draw(st.sampled_from(g.MAXSIZES)), sub=draw(g.subspec()),
              np=draw(st.sampled_from([None, None, 'float64', 'int64', 'float32'])))


def check_s(c, ctx):
  import pygeode as pyg
  arr = g.var_data(c['v']); v0 = g.build_var(c['v']); v = g.lazify(v0, c['lazy'])
  f, s = c['f'], c['s']
  if f == '**': s = abs(s)
  if f == '%': s = abs(s)
  if c['np'] and c['side'] == 'r' and f in PY:
    s = np.dtype(c['np']).type(s)
    if s == 0: s = s + s.dtype.type(2)
  ctx.label('f:' + f, 'side:' + c['side'], type(s).__name__, c['v']['dtype'], '%dd' % arr.ndim); ctx.nontrivial(arr.size > 1)
  g.set_chunk(c['chunk'])
  L = Lib()
  if f == '**':
    # keep within range
    arr = (arr % 7 + 1).astype(arr.dtype); v0 = g.build_var(c['v'], data=arr); v = g.lazify(v0, c['lazy'])
  if f == 'neg': r, e = -v, -arr
  elif f == 'abs': r, e = abs(v - 5), abs(arr - 5)
  elif f == 'pos': r, e = +v, +arr
  elif f == 'clip': lo, hi = sorted([s, 4]); r, e = L['clip'](v, lo, hi), np.clip(arr, lo, hi)
  elif f == 'map': r, e = v.map(lambda x, q: x*2 + q, s), arr*2 + s
  elif f == 'vsum': r, e = L['vsum'](s, v, 1), arr + s + 1
  else:
    a, b = (v, s) if c['side'] == 'r' else (s, v)
    x, y = (arr, s) if c['side'] == 'r' else (s, arr)
    r = apply_(f, (a, b), L); e = apply_(f, (x, y), NP)
  assert isinstance(r, pyg.Var), 'result is a %s' % type(r)
  assert len(r.axes) == len(v0.axes)
  for p, q in zip(r.axes, v0.axes): g.same_axis(p, q, 'axes')
  f32 = c['np'] == 'float32' or low(arr)
  rt = 1e-4 if f32 and f in ('**', '%', 'arctan2', 'arctand2') else 2e-6 if f32 else 1e-12
  if f in ('<', '<=', '>', '>=', '==', '!='): rt = 0
  g.check_result(r, e, c['sub'], rtol=rt, atol=0 if not f32 else 1e-4 if f == '%' else 2e-6, msg='%s with %r' % (f, s))


# ---- functions of one variable

UN = dict(abs=np.abs, sign=np.sign, exp=np.exp, log=np.log, log10=np.log10, cos=np.cos, sin=np.sin, tan=np.tan,
          cosd=lambda x: np.cos(x*np.pi/180.), sind=lambda x: np.sin(x*np.pi/180.), tand=lambda x: np.tan(x*np.pi/180.),
          cosh=np.cosh, sinh=np.sinh, tanh=np.tanh, arccos=np.arccos, arcsin=np.arcsin, arctan=np.arctan,
          arccosd=lambda x: np.arccos(x)*180/np.pi, arcsind=lambda x: np.arcsin(x)*180/np.pi, arctand=lambda x: np.arctan(x)*180/np.pi,
          arccosh=np.arccosh, arcsinh=np.arcsinh, arctanh=np.arctanh, sqrt=np.sqrt, nan_to_num=np.nan_to_num,
          real=np.real, imag=np.imag, conj=np.conj, angle=np.angle, deg2rad=np.deg2rad, rad2deg=np.rad2deg)
UNIT_DOM = ('arccos', 'arcsin', 'arccosd', 'arcsind', 'arctanh')


@st.composite
def ucase(draw):
  return dict(v=draw(g.var(0, 3, 1, 5, nan=True)), f=draw(st.sampled_from(sorted(UN))), via=draw(st.sampled_from(['m', 'f'])),
              lazy=draw(st.sampled_from(g.LAZY)), chunk=draw(st.sampled_from(g.MAXSIZES)), sub=draw(g.subspec()), cplx=draw(st.integers(0, 3)) == 0)


def check_u(c, ctx):
  import pygeode as pyg
  f = c['f']
  arr = g.var_data(c['v'])
  if c['cplx'] and f in ('real', 'imag', 'conj', 'angle', 'abs', 'exp', 'sqrt'): arr = arr.astype('d') + 1j*(arr[::-1] if arr.ndim else arr)
  elif arr.dtype.kind == 'f':
    arr = arr/arr.dtype.type(50.)
    if f in UNIT_DOM: arr = (arr % 2) - 1
    elif f in ('arccosh',): arr = arr + 1
  elif arr.dtype.kind in 'iu' and f in UNIT_DOM: arr = arr % 2
  elif f in ('exp', 'cosh', 'sinh', 'tan', 'tand'): arr = arr % 9
  arr = np.asarray(arr)
  v0 = g.build_var(c['v'], data=arr); v = g.lazify(v0, c['lazy'])
  ctx.label('f:' + f, arr.dtype); ctx.nontrivial(arr.size > 1)
  g.set_chunk(c['chunk'])
  r = getattr(v, f)() if c['via'] == 'm' and f not in ('deg2rad', 'rad2deg', 'abs') else getattr(pyg.ufunc, f)(v)
  e = UN[f](arr)
  for p, q in zip(r.axes, v0.axes): g.same_axis(p, q, 'axes')
  rt, at = {'float16': (4e-3, 4e-3), 'float32': (1e-5, 1e-5)}.get(np.asarray(e).dtype.name, (1e-12, 1e-14))
  g.check_result(r, e, c['sub'], rtol=rt, atol=at, msg=f)


TESTS = [
  Test('operands', case(), check, quick=5000),
  Test('numbers', scase(), check_s, quick=1500),
  Test('functions', ucase(), check_u, quick=1200),
]
