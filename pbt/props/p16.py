"""P16: composites and flattening."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import cal
from .p12 import tvar, build, OTHER

RULE = ('A case is a variable on one to three axes, an axis to composite along (time or not), key points given by index, index list, coordinate values or a range, '
        'window lengths and offsets (one for all or one per event, leaving the axis at either end or overlapping), chunk size, laziness and a part of the result; or a composite or two '
        'adjacent axes to flatten. Non-trivial: two events or more (or two rows to flatten). Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['a window has at least one point', 'for a time axis the offsets are multiples of its (regular) step']


@st.composite
def ccase(draw, lens=(2, 3, 5, 8, 12)):
  n = draw(st.sampled_from(list(lens)))
  if draw(st.booleans()):
    k = draw(st.sampled_from(['StandardTime', 'ModelTime365', 'ModelTime360']))
    t = draw(cal.series(kinds=[k], sizes=[n], order='asc')) if False else dict(k=k, **draw(g.time_axis(k, n, style='asc')))
    other = OTHER
  else:
    k = draw(st.sampled_from(['Lat', 'Lon', 'Pres', 'NamedAxis', 'Index', 'Freq']))
    t = draw(g.axis(kind=k, n=n, name='comp' if k == 'NamedAxis' else None))
    other = [o for o in OTHER if o != k]
  axs = draw(g.axes(0, 2, 1, 3, kinds=other)) if draw(st.integers(0, 3)) else []
  i = draw(st.integers(0, len(axs)))
  v = dict(axes=axs[:i] + [t] + axs[i:], dtype=draw(st.sampled_from(g.DTYPES)), seed=draw(g.data_seed), kind='perm', name=draw(st.sampled_from(['u', 'temp', ''])),
           atts=draw(st.sampled_from([{}, {'long_name': 'wind'}])), units='K')
  n = len(t['v'])
  how = draw(st.sampled_from(['i_list', 'i_list', 'l_vals', 'range', 'i_one', 'class']))
  ev = draw(st.lists(st.integers(0, n-1), min_size=1, max_size=5))
  ev = sorted(set(ev))
  if how == 'range':
    a, b = min(ev), max(ev); ev = list(range(a, b+1))
  if how == 'i_one': ev = ev[:1]
  ln = st.integers(1, 6); of = st.sampled_from([0, 0, 1, 2, 3, 5, -1, -2])
  c = dict(v=v, ti=i, how=how, ev=ev, chunk=draw(st.sampled_from(g.MAXSIZES)), lazy=draw(st.sampled_from(g.LAZY)), sub=draw(g.subspec()))
  c['len'] = draw(ln) if draw(st.booleans()) else draw(st.lists(ln, min_size=len(ev), max_size=len(ev)))
  c['off'] = draw(of) if draw(st.integers(0, 2)) else draw(st.lists(of, min_size=len(ev), max_size=len(ev)))
  if c['off'] == 0 and draw(st.booleans()): c['off'] = None
  c['arr'] = draw(st.booleans())
  c['flat'] = draw(st.booleans())
  return c


def make(c):
  vd = c['v']; i = c['ti']
  v = g.lazify(g.build_var(vd), c['lazy']); data = g.var_data(vd)
  a = v.axes[i]; ev = c['ev']
  h = c['how']
  if h == 'i_list': kw = {'il_' + a.name: list(ev)}
  elif h == 'class': kw = {'il_' + type(a).__name__.lower(): list(ev)}
  elif h == 'i_one': kw = {'i_' + a.name: ev[0]}
  elif h == 'l_vals': kw = {'l_' + a.name: [a.values[q] for q in ev]}
  else:
    # a range, widened a little
    w = np.sort(a.values)
    if np.any(np.diff(a.values) < 0) and np.any(np.diff(a.values) > 0): kw = {'il_' + a.name: list(ev)}
    else: kw = {a.name: (a.values[ev[0]], a.values[ev[-1]])}
  cv = lambda x: np.array(x) if c['arr'] and isinstance(x, list) else x
  args = dict(evlen=cv(c['len']))
  if c['off'] is not None: args['evoff'] = cv(c['off'])
  keep = {k: np.array(x) for k, x in args.items()}
  r = v.composite(**kw, **args)
  for k, x in args.items(): g.assert_eq(x, keep[k], 'argument %s changed' % k)
  n = len(a)
  m = len(ev)
  L = c['len'] if isinstance(c['len'], list) else [c['len']]*m
  O = c['off'] if isinstance(c['off'], list) else [c['off'] or 0]*m
  lo = min(-o for o in O); hi = max(l - o for l, o in zip(L, O))
  offs = list(range(lo, hi))
  D = np.moveaxis(data.astype('d'), i, 0)
  exp = np.full((m, len(offs)) + D.shape[1:], np.nan)
  for q in range(m):
    for p, o in enumerate(offs):
      if -O[q] <= o < L[q] - O[q] and 0 <= ev[q] + o < n: exp[q, p] = D[ev[q] + o]
  exp = np.moveaxis(exp, (0, 1), (i, i+1))
  return v, data, r, exp, offs


def check_comp(c, ctx):
  vd = c['v']; i = c['ti']; a = vd['axes'][i]
  g.set_chunk(c['chunk'])
  v, data, r, exp, offs = make(c)
  ctx.label(a['k'], vd['dtype'], c['how'], 'missing' if np.isnan(exp).any() else 'complete', 'lengths' if isinstance(c['len'], list) else '', 'offsets' if isinstance(c['off'], list) else '')
  ctx.nontrivial(len(c['ev']) > 1)
  ea, oa = r.axes[i], r.axes[i+1]
  assert r.axes[:i] == v.axes[:i] and r.axes[i+2:] == v.axes[i+1:], 'axes %s' % (r.axes,)
  assert ea.name == 'event' and list(ea.values) == list(range(1, len(c['ev'])+1)) and list(ea.indices) == c['ev'], 'event axis %s' % (ea,)
  if a['k'] in g.TIMES:
    step = min(np.diff(np.array(a['v'])*cal.UNIT[a['units']]))
    assert type(oa).__name__ == 'Yearless'
    g.assert_close(np.asarray(oa.values, 'd')*cal.UNIT[oa.units], np.array(offs)*float(step), 1e-9, 1e-6, 'offset axis')
  else:
    assert oa.name == 'offset' and list(oa.values) == offs, 'offset axis %s, expected %s' % (oa, offs)
  assert r.name == vd['name'] and dict(r.atts) == vd['atts']
  g.check_result(r, exp, c['sub'], exact=True, msg='composite of %s' % c['ev'])
  if c['flat']:
    import pygeode as pyg
    flat = exp.reshape(exp.shape[:i] + (-1,) + exp.shape[i+2:])
    g.check_result(r.flatten(), flat, None, exact=True, msg='flattened composite')
    f = r.flatten(naxis=pyg.NamedAxis(np.arange(flat.shape[i])*1., 'both'))
    g.check_result(f, flat, c['sub'], exact=True, msg='flattened composite')


@st.composite
def fcase(draw):
  axs = draw(g.axes(2, 4, 1, 4, kinds=['Lat', 'Lon', 'Pres', 'NamedAxis', 'Index', 'Freq', 'Height2'][:6]))
  v = dict(axes=axs, dtype=draw(st.sampled_from(g.DTYPES)), seed=draw(g.data_seed), kind='perm', name='u', atts={}, units='')
  return dict(v=v, inner=draw(st.integers(1, len(axs)-1)), new=draw(st.booleans()), chunk=draw(st.sampled_from(g.MAXSIZES)), lazy=draw(st.sampled_from(g.LAZY)), sub=draw(g.subspec()))


def check_flat(c, ctx):
  import pygeode as pyg
  vd = c['v']
  v = g.lazify(g.build_var(vd), c['lazy']); data = g.var_data(vd)
  i = c['inner']; o = i - 1
  n = v.shape[o]*v.shape[i]
  new = c['new'] or vd['axes'][o].get('k') in ('Index', 'Hybrid') or bool(v.axes[o].auxarrays)
  ctx.label('new axis' if new else type(v.axes[o]).__name__, vd['dtype']); ctx.nontrivial(v.shape[o] > 1 and v.shape[i] > 1)
  g.set_chunk(c['chunk'])
  if new:
    na = pyg.NamedAxis(np.arange(n)*2., 'both')
    r = v.flatten(i, na)
    assert r.axes[o] == na
  else:
    r = v.flatten(inner=i)
    assert type(r.axes[o]) is type(v.axes[o]) and len(r.axes[o]) == n
  assert r.axes[:o] == v.axes[:o] and r.axes[o+1:] == v.axes[i+1:]
  # parts of the result are found by coordinate: where the values made up for the new axis repeat, there is only the whole
  w = np.sort(np.asarray(r.axes[o].values, 'd'))
  sub = c['sub'] if new or np.all(np.diff(w) > 0.01*np.abs(w).max()) else None
  g.check_result(r, data.reshape(data.shape[:o] + (n,) + data.shape[i+1:]), sub, exact=True, msg='flatten')


TESTS = [
  Test('composite', ccase(), check_comp, quick=2500),
  Test('flatten', fcase(), check_flat, quick=1200),
]
