"""P25: operations leave their inputs alone; evaluating again gives the same; returned arrays are the caller's own."""
import os
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import ops
from .p22 import quiet

RULE = ('A case is a history: a pool that starts with one or two variables, a dataset and their axes, and three to twelve steps, each one of: one of %d operations applied to a member of the pool (its result joins the pool), a full or partial evaluation, '
        'an attempt to write into the array that was returned, an operation on an axis, on the dataset, a statistic, a decomposition, a file written, a conversion, printing, comparing. Before and after every step all data in memory, coordinates, '
        'auxiliary arrays, metadata, arguments passed and defaults of classes are compared; at the end every member of the pool is evaluated again. Non-trivial: three or more steps took place, at least one on a result of an earlier one. Distinct: by the JSON text of the case.' % len(ops.OPS))
ASSUMPTIONS = ['write protection of a returned array is not removed by force', 'attributes of the objects themselves (axes, dictionaries) are not assigned to in between', 'the same limit on the size of pieces during the history (evaluations of one variable are then compared exactly)']


# ---------------------------------------------------------------- fingerprints

def arr(x):
  x = np.asarray(x)
  if x.dtype.kind == 'O': return (str(x.dtype), x.shape, repr(x.tolist()))
  return (str(x.dtype), x.shape, x.tobytes())


def deep(d):
  if isinstance(d, dict): return tuple((repr(k), deep(x)) for k, x in d.items())
  if isinstance(d, (list, tuple)): return (type(d).__name__,) + tuple(deep(x) for x in d)
  if isinstance(d, np.ndarray): return arr(d)
  if type(d).__module__.startswith('pygeode') or callable(d): return ('object', id(d))
  return repr(d)


def fp_axis(a):
  d = {k: x for k, x in a.__dict__.items() if k not in ('values', 'auxarrays', 'slice', 'axes')}
  return (type(a), arr(a.values), tuple(sorted((k, arr(x)) for k, x in a.auxarrays.items())), deep(d))


def fp_var(v):
  d = dict(name=v.name, units=v.units, atts=v.atts, plotatts=v.plotatts)
  x = arr(v.values) if 'values' in v.__dict__ else None
  return (type(v), str(v.dtype), v.shape, tuple(id(a) for a in v.axes), tuple(fp_axis(a) for a in v.axes), deep(d), x)


def fp_ds(d): return (deep(d.atts), tuple(id(v) for v in d.vars), tuple(v.name for v in d.vars), tuple(id(a) for a in d.axes), tuple(d.vardict), tuple(d.axisdict))


def classes(root):
  out = [root]
  for c in out:
    for s in c.__subclasses__():
      if s not in out and s.__module__.startswith('pygeode'): out.append(s)
  return out


def fp_globals():
  import pygeode as pyg
  out = []
  for c in classes(pyg.Var):
    for k in ('atts', 'plotatts', 'auxarrays', 'auxatts', 'name', 'units', 'formatstr', 'rtol', 'autofmts', 'aliases', 'parents'):
      if k in c.__dict__: out.append((c.__name__, k, deep(c.__dict__[k])))
  return sorted(out, key=repr)


# ---------------------------------------------------------------- steps that are not operations on a variable

def s_get(W, P):
  m = P.pick(W.pool); x = m.v.get(); m.check(x, 'evaluated again')

def s_index(W, P):
  m = P.pick(W.pool)
  e = tuple(P.pick([slice(None), slice(0, 1 + P(n)), slice(None, None, -1), slice(None, None, 2), slice(-1, None)]) for n in m.v.shape)
  x = m.v[e]
  if m.exp is not None: g.assert_close(x, m.exp[e], *m.tol, 'part %s of %s' % (e, m))

def s_part(W, P):
  m = P.pick(W.pool)
  a = P.pick(m.v.axes); i = m.v.axes.index(a); k = [P(len(a)) for _ in range(1 + P(3))]
  keep = list(k); kw = {'il_' + a.name: k}
  x = m.v.get(**kw)
  assert k == keep and kw == {'il_' + a.name: k}, 'a list of indices passed for a selection became %s' % k
  if m.exp is not None: g.assert_close(x, np.take(m.exp, sorted(set(k)), i), *m.tol, 'part of %s' % m)

def s_scribble(W, P):
  """Writing into what was returned."""
  m = P.pick(W.pool)
  x = P.pick([lambda: m.v.get(), lambda: m.v[...] if m.v.naxes == 0 else m.v[tuple(slice(None) for _ in m.v.axes)], lambda: np.asarray(m.v.load().get()), lambda: m.v.get(**{'i_' + m.v.axes[0].name: (0, len(m.v.axes[0]))})])()
  try: x[...] = 77 if x.dtype != bool else True
  except ValueError: pass       # (not to be written to)
  W.label('written' if x.size and x.flags.writeable else 'read-only')

def s_print(W, P):
  m = P.pick(W.pool); str(m.v); repr(m.v)
  for a in m.v.axes: str(a); repr(a)
  str(W.ds)

def s_numpy(W, P):
  m = P.pick(W.pool); m.v.size; len(m.v.axes); np.asarray(m.v.get()).sum()
  m.v.hasaxis(m.v.axes[0].name); m.v.whichaxis(m.v.axes[-1].name); m.v.getaxis(type(m.v.axes[0]))

def s_slice_axis(W, P):
  a = P.pick(W.axes()); n = len(a)
  P.pick([lambda: a.slice[::-1], lambda: a.slice[P.sub(n)], lambda: a.slice[P(n):], lambda: a.sorted(), lambda: a.argsort(reverse=True), lambda: a.rename('other'), lambda: a.withnewvalues(np.asarray(a.values)[:1]) if not hasattr(a, 'startdate') else None,
          lambda: a(**{'i_' + a.name: (0, n)})])()

def s_map_axis(W, P):
  a = P.pick(W.axes()); n = len(a)
  b = P.pick([a.slice[::-1], a.slice[P.sub(n)], P.pick(W.axes())])
  P.pick([lambda: a == b, lambda: a.map_to(b), lambda: b.map_to(a), lambda: a != b, lambda: a.alleq(b, a)])()

def s_aux(W, P):
  a = P.pick(W.axes())
  for k in list(a.auxarrays): a.auxasvar(k).get()
  list(a); len(a)
  if hasattr(a, 'formatvalue'):
    try: a.formatvalue(a.values[0])
    except (TypeError, NotImplementedError): pass

def s_concat_axis(W, P):
  a = P.pick(W.axes())
  if hasattr(a, 'indices') or type(a).__name__ in ('Index', 'Event', 'Ensemble', 'Coef'): return
  k = P(len(a) + 1); parts = [x for x in (a.slice[:k], a.slice[k:]) if len(x)] if 0 < k < len(a) else [a]
  keep = list(parts)
  type(a).concat(parts)
  assert len(keep) == len(parts) and all(x is y for x, y in zip(keep, parts))

def s_time(W, P):
  t = [a for a in W.axes() if hasattr(a, 'startdate') and a.name == 'time' and 'year' in a.auxarrays and 'day' in a.auxarrays]
  if not t: return
  a = P.pick(t)
  d = dict(year=2001, month=2, day=3); keep = dict(d)
  P.pick([lambda: a.val_as_date(), lambda: a.val_as_date(np.asarray(a.values)[:1], allfields=True), lambda: a.date_as_val(), lambda: a.date_as_val(d), lambda: a.reltime(units='hours'), lambda: a.reltime(startdate=d), lambda: a.wrapdate(d, allfields=True),
          lambda: a.date_diff(d, dict(year=2002, month=5, day=6), units='days'), lambda: a.str_as_val('time', '3 Feb 2001'), lambda: a.formatter(), lambda: [a.formatvalue(x) for x in a.values[:3]],
          lambda: a.modify(exclude='hour'), lambda: a.modify(resolution='month'), lambda: a.delta() if len(set(np.diff(a.values))) == 1 else None, lambda: a.days_in_month(2001, 2)])()
  assert d == keep, 'a date passed became %s' % d

def s_ds(W, P):
  import pygeode as pyg
  d = W.ds; n = [v.name for v in d.vars]
  if not n: return
  m = P.pick(W.pool)
  a = P.pick(d.axes)
  lst = [n[0]]
  def f(v): return v*2
  fns = [lambda: d(**{'i_' + a.name: (0, 1)}), lambda: d.rename_vars({n[0]: 'renamed'}), lambda: d.rename_axes(**{a.name: 'ax9'}) if a.name not in ('time', 'year', 'day') else None, lambda: d.remove(n[0]), lambda: d.map(f),
         lambda: d + m.v.rename('joined') if W.fits(d, m.v) else None, lambda: d.copy(), lambda: d.sorted(), lambda: [v.get() for v in d.mean(a.name)] if all(v.naxes > 1 or not v.hasaxis(a.name) for v in d.vars) else None,
         lambda: d.subset(n[0]), lambda: pyg.asdataset(lst_vars), lambda: pyg.Dataset(lst_vars), lambda: pyg.Dataset(lst_vars, atts=at), lambda: d.squeeze(), lambda: d*2, lambda: d + d, lambda: -d, lambda: d.load(), lambda: [v for v in d], lambda: d[n[0]],
         lambda: pyg.dataset.concat([d, d(**{'i_' + a.name: (0, 1)})]) if False else None, lambda: d.replace_vars({n[0]: d.vars[0]*3})]
  lst_vars = list(d.vars); at = dict(title='t', n=1); kl = list(lst_vars); ka = dict(at)
  fn = P.pick(fns)
  try: r = fn()
  except (AttributeError, TypeError): W.label('not offered'); return
  assert at == ka and len(lst_vars) == len(kl) and all(x is y for x, y in zip(lst_vars, kl)), 'arguments of a dataset changed'
  if isinstance(r, pyg.Dataset):
    for v in r.vars: v.get()

def s_stats(W, P):
  import pygeode as pyg
  c = [m for m in W.pool if m.v.dtype.kind == 'f' and m.v.size > 3]
  if not c: return
  a, b = P.pick(c).v, P.pick(c).v
  b = P.pick([lambda: b, lambda: a*0.5 + 1, lambda: a])()
  lst = [a.axes[0].name]; keep = list(lst)
  f = P.pick(['correlate', 'regress', 'difference', 'paired_difference', 'isnonzero', 'multiple_regress'])
  try:
    if f == 'isnonzero': r = quiet(pyg.stats.isnonzero, a, axes=lst)
    elif f == 'multiple_regress':
      xs = [b, b*b]; r = quiet(pyg.stats.multiple_regress, xs, a, axes=lst); assert len(xs) == 2
    else: r = quiet(getattr(pyg.stats, f), a, b, axes=lst)
  except (AssertionError, ValueError, TypeError, KeyError, np.linalg.LinAlgError): W.label('statistic refused')
  assert lst == keep, 'the list of axes passed to %s became %s' % (f, lst)
  W.label(f)

def s_eof(W, P):
  import pygeode as pyg
  c = [m for m in W.pool if m.v.dtype.kind == 'f' and m.v.naxes == 2 and min(m.v.shape) > 1 and m.exp is not None and np.isfinite(m.exp).all() and not any(isinstance(a, pyg.Index) for a in m.v.axes)]
  if not c: return
  v = P.pick(c).v
  try:
    if P(2): quiet(pyg.EOF, v, num=1, iaxis=v.axes[1].name)
    else: quiet(pyg.SVD, v, v*2 + 1, num=1, iaxis=v.axes[1].name)
  except (np.linalg.LinAlgError, ValueError, AssertionError): W.label('decomposition refused')   # (fields that do not vary, pieces too small)
  W.label('decomposition')

_n = [0]
def s_save(W, P):
  import pygeode as pyg
  c = [m for m in W.pool if m.v.name and 'b' not in m.v.atts and m.v.dtype.kind in 'fi' and all(type(a).__name__ in ('Lat', 'Lon', 'Pres', 'NamedAxis', 'StandardTime', 'ModelTime365', 'ModelTime360') for a in m.v.axes) and m.v.name.isidentifier()
       and not any(type(a).__name__ == 'NamedAxis' and a.auxarrays for a in m.v.axes) and not any(a.name == m.v.name for a in m.v.axes)]
  if not c: return
  m = P.pick(c)
  _n[0] += 1; fn = 'p25_%d.nc' % _n[0]
  pyg.save(fn, P.pick([lambda: m.v, lambda: [m.v], lambda: pyg.Dataset([m.v], atts=dict(a=1))])(), cfmeta=bool(P(4)))
  if P(2): pyg.open(fn).vars[0].get()
  os.unlink(fn); W.label('saved')

def s_xarray(W, P):
  m = P.pick(W.pool)
  if any(a.auxarrays and not hasattr(a, 'startdate') for a in m.v.axes) or any(type(a).__name__ not in ('Lat', 'Lon', 'Pres', 'NamedAxis', 'StandardTime', 'ModelTime365', 'ModelTime360') for a in m.v.axes): return
  from pygeode import ext_xarray
  try: x = ext_xarray.to_xarray(m.v)
  except ValueError: W.label('refused by xarray'); return      # (dates of a climatology)
  y = np.asarray(x.values)
  if y.flags.writeable and P(2): y[...] = 9
  x.attrs['mine'] = 1
  W.label('xarray')

def s_reuse(W, P):
  """Arguments that are lists, dictionaries, axes."""
  m = P.pick(W.pool); v = m.v
  import pygeode as pyg
  names = [a.name for a in v.axes]; keep = list(names)
  new = [pyg.NamedAxis(np.arange(len(v.axes[0]))*5., 'q0')] + list(v.axes[1:]); kn = list(new)
  d = {v.axes[0].name: 'q1'}; kd = dict(d)
  ex = [pyg.NamedAxis([1., 2.], 'q2')]; ke = list(ex)
  ev = [0]; kev = list(ev)
  vs = [v, v*2]; kv = list(vs)
  fns = [lambda: v.transpose(*names), lambda: v.replace_axes(newaxes=new), lambda: v.replace_axes({v.axes[0].name: pyg.NamedAxis(np.arange(len(v.axes[0]))*7., 'q3')}, newaxes=new), lambda: v.replace_axes({v.axes[0].name: new[0]}), lambda: v.rename_axes(**d), lambda: pyg.ensemble(*[x.rename('m') for x in vs]) if v.naxes < 4 and not any(isinstance(a, pyg.Index) for a in v.axes) else None,
         lambda: pyg.ufunc.vsum(*vs), lambda: v.sorted(*names), lambda: v.mean(*names), lambda: pyg.reduce.mean(v, names) if False else None, lambda: v.composite(**{'il_' + names[0]: ev}, evlen=1) if 'event' not in names and 'offset' not in names and not hasattr(v.axes[0], 'startdate') else None,
         lambda: v.extend(0, *ex) if v.naxes < 4 and 'q2' not in names else None]
  try: r = P.pick(fns)()
  except (AttributeError,): return
  if ops.isvar(r): r.get()
  same = lambda p, q: len(p) == len(q) and all(x is y or x == y for x, y in zip(p, q))
  assert names == keep and d == kd and len(new) == len(kn) and all(x is y for x, y in zip(new, kn)) and len(ex) == 1 and ex[0] is ke[0] and ev == kev and len(vs) == 2 and vs[0] is kv[0], 'arguments became %s %s %s %s %s' % (names, d, new, ex, ev)


STEPS = dict(get=s_get, index=s_index, part=s_part, scribble=s_scribble, printing=s_print, asking=s_numpy, axis=s_slice_axis, mapaxis=s_map_axis, aux=s_aux, concat=s_concat_axis, time=s_time, dataset=s_ds, stats=s_stats, eof=s_eof, save=s_save, xarray=s_xarray, arguments=s_reuse)


# ---------------------------------------------------------------- histories

class Member:
  def __init__(self, v, how, state, evaluate=True):
    self.v = v; self.how = how; self.exp = None; self.tol = state
    self.fp = fp_var(v)
    if evaluate: self.exp = np.array(v.get())
  def __str__(self): return '%s [%s]' % (self.v.name, self.how)
  def check(self, x, what):
    if self.exp is None: self.exp = np.array(x)
    else: g.assert_eq(np.asarray(x), self.exp, '%s %s' % (self, what))


class World:
  def __init__(self, c, ctx): self.pool = []; self.arrays = []; self.ctx = ctx; self.ds = None
  def label(self, *l): self.ctx.label(*l)
  def axes(self): return [a for m in self.pool for a in m.v.axes]
  def fits(self, d, v): return all(all(a == b for b in d.axes if b.name == a.name) for a in v.axes) and not d.hasvar('joined')
  def prints(self):
    p = [('pool', m, fp_var(m.v)) for m in self.pool] + [('array', i, arr(x)) for i, x in enumerate(self.arrays)]
    p.append(('dataset', 0, fp_ds(self.ds) if self.ds is not None else None)); p.append(('defaults of classes', 0, fp_globals()))
    return p


def same(before, after, what):
  for (k, m, a), (k2, m2, b) in zip(before, after):
    assert k == k2
    if a != b: raise AssertionError('%s changed %s %s:\n  before %s\n  after  %s' % (what, k, m, diff(a, b), diff(b, a)))


def diff(a, b):
  if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
    d = [diff(x, y) for x, y in zip(a, b) if x != y]
    return d[0] if len(d) == 1 else d
  return repr(a)[:400]


@st.composite
def case(draw, plain=False):
  n = draw(st.sampled_from([6, 4, 3, 9, 12]))
  kinds = sorted(STEPS)
  hist = []
  for _ in range(n):
    if draw(st.integers(0, 9)) < (3 if plain else 6): hist.append([draw(st.sampled_from(ops.NAMES)), draw(st.integers(0, 99999))])
    else: hist.append([draw(st.sampled_from(kinds)), draw(st.integers(0, 99999))])
  return dict(v=draw(ops.start()), two=draw(st.booleans()), lazy=draw(st.sampled_from(g.LAZY)), other=draw(st.sampled_from(g.LAZY)), hist=hist, which=[draw(st.integers(0, 7)) for _ in range(n)],
              chunk=draw(st.sampled_from([10**7, 10**7, 20, 5])), eager=draw(st.booleans()), plot=draw(st.booleans()), atts=draw(st.sampled_from([{}, {'a': [1, 2, 3]}, {'a': [1, 2, 3], 'b': {'c': 1}}])))


def check(c, ctx):
  import pygeode as pyg
  g.set_chunk(c['chunk'])
  W = World(c, ctx)
  v = g.build_var(c['v'])
  if c['atts']: v = pyg.Var(v.axes, values=np.array(v.values), name=v.name, atts=dict(v.atts, **c['atts']), plotatts=dict(plottitle='title', scalefactor=2.) if c['plot'] else None); v.units = 'K'
  src = np.array(v.values); W.arrays.append(src)
  base = pyg.Var(v.axes, values=src, name=v.name, atts=v.atts, plotatts=v.plotatts); base.units = v.units
  S = ops.State(); S.see(src)
  if base.dtype.name == 'float32': S.single = True; S.exact = False
  W.pool.append(Member(base, 'start', S.tol()))
  l = g.lazify(base, c['lazy'])
  if l is not base: W.pool.append(Member(l, 'start, ' + c['lazy'], S.tol()))
  if c['two']: W.pool.append(Member(base.transpose(*[a.name for a in base.axes[::-1]]).rename('U') if base.naxes > 1 else base*2, 'second', S.tol()))
  W.ds = pyg.Dataset([base] + ([W.pool[-1].v.rename('U')] if c['two'] else []), atts={'history': 'x'})
  states = {id(m): S for m in W.pool}
  env = dict(other=c['other'])
  took = 0; deep_ = 0
  fp0 = fp_globals()
  for (name, q), w in zip(c['hist'], c['which']):
    before = W.prints()
    P = ops.Draws([q])
    what = name
    if name in STEPS:
      STEPS[name](W, P); ctx.label('step ' + name)
    else:
      o = ops.OPS[name]
      m = W.pool[-1 - w % len(W.pool)] if w < 6 else W.pool[0]
      s = states[id(m)]
      if o.flags and not s.allows(o): continue
      e = dict(env, clim=getattr(m, 'clim', None)); e['operands'] = []
      r = ops.apply(o, m.v, [q], e)
      if r is None: continue
      ctx.label(name)
      # the further operands too
      fo = [fp_var(x) for x in e['operands']]
      what = '%s of %s' % (name, m)
      if ' > ' in m.how: deep_ += 1
      n = ops.State(); n.__dict__.update(s.__dict__); n.done = list(s.done); n.took(o, r)
      f = None
      if c['eager'] or len(W.pool) > 6:
        x = np.array(r.get()); n.see(x)
      for x, y in zip(e['operands'], fo): assert fp_var(x) == y, '%s changed the other operand:\n  before %s\n  after  %s' % (what, diff(y, fp_var(x)), diff(fp_var(x), y))
      M = Member(r, '%s > %s' % (m.how, name), n.tol(), evaluate=bool(c['eager']))
      M.clim = e.get('clim')
      same(before, W.prints(), what)
      if len(W.pool) < 9 and r.size < 3000: W.pool.append(M); states[id(M)] = n
      took += 1
      continue
    took += 1
    same(before, W.prints(), what)
  before = W.prints()
  # everything once more, the last first
  for m in W.pool[::-1]:
    x = m.v.get(); m.check(x, 'evaluated at the end')
    y = m.v.load().get()
    g.assert_eq(np.asarray(y), np.asarray(x), '%s loaded' % m)
  for m in W.pool: m.check(m.v.get(), 'evaluated twice at the end')
  same(before, W.prints(), 'evaluating everything')
  ctx.nontrivial(took >= 3 and deep_ >= 1)
  ctx.label('%d in the pool' % len(W.pool))


TESTS = [
  Test('operations', case(), check, quick=1500),
  Test('steps', case(plain=True), check, quick=1500),
]


# ---------------------------------------------------------------- arguments

def _args():
  """name -> (arguments made from draws, what is done with them)"""
  import pygeode as pyg
  from pygeode import timeutils as tu, view
  R = {}
  def arg(make):
    def deco(f): R[f.__name__] = (make, f); return f
    return deco
  n = lambda v, k: len(v.axes[k])
  ints = lambda q, m, k: [q(m) for _ in range(k)]

  def events(v, q):
    ev = sorted(set(ints(q, n(v, 0), 1 + q(4))))
    return dict(il_time=ev, evlen=[1 + q(6) for _ in ev], evoff=[q(5) for _ in ev])
  @arg(events)
  def composite(v, a): return v.composite(**a)
  @arg(lambda v, q: dict(a=ints(q, n(v, 0), 1 + q(4)), b=ints(q, n(v, 1), 1 + q(3))))
  def two_lists(v, a): return v.slice[a['a'], a['b']]
  @arg(lambda v, q: dict(a=ints(q, n(v, 0), 1 + q(4)), b=ints(q, n(v, 1), 1 + q(3))))
  def index(v, a): return v[a['a'], a['b']]
  @arg(lambda v, q: dict(li_lat=ints(q, n(v, 1), 1 + q(3))))
  def integer_selection(v, a): return v(**a)
  @arg(lambda v, q: dict(l_lat=[float(v.axes[1].values[i]) + q(3)*.25 for i in ints(q, n(v, 1), 1 + q(3))]))
  def value_selection(v, a): return v(**a)
  @arg(lambda v, q: dict(lat=sorted(float(x) for x in ints(q, 60, 2))))
  def range_selection(v, a): return v(lat=tuple(a['lat']))
  @arg(lambda v, q: dict(kernel=[1. + q(4) for _ in range(1 + 2*q(2))], fft=[q(2)]))
  def smooth(v, a): return v.smooth('time', a['kernel'], fft=bool(a['fft'][0]))
  @arg(lambda v, q: dict(inx=[float(i)*2 + 1 for i in range(n(v, 1))], outx=sorted([q(50)/5. for _ in range(3)])))
  def interpolate(v, a):
    ax = pyg.NamedAxis(np.arange(3.), 'z')
    inx = pyg.Var((v.axes[1],), values=np.array(a['inx']), name='i'); outx = pyg.Var((ax,), values=np.array(a['outx']), name='o')
    return v.interpolate('lat', ax, inx=inx, outx=outx, interp_type='linear')
  @arg(lambda v, q: dict(lags=sorted(set(ints(q, 4, 1 + q(3))))))
  def lag(v, a): return v.lag('time', a['lags'])
  @arg(lambda v, q: dict(values=[float(q(100)) for _ in range(6)], axes=[pyg.Lat([0., 10., 20.]), pyg.Lon([0., 5.])], atts=dict(a=[1, 2], b='x'), plotatts=dict(plottitle='x')))
  def variable(v, a): return (pyg.Var(a['axes'], values=np.array(a['values']).reshape(3, 2), name='x', atts=a['atts'], plotatts=a['plotatts'])*2 + 1).sorted('lat').mean('lon')
  @arg(lambda v, q: dict(values=[float(i)*10 + q(9) for i in range(4)][::-1 if q(2) else 1], weights=[1. + q(5) for _ in range(4)], atts=dict(units='deg'), plotatts=dict(plotorder=-1)))
  def axis(v, a):
    x = pyg.Lat(a['values'], weights=a['weights'], atts=a['atts'], plotatts=a['plotatts'])
    x.sorted(); x.sorted(-1); x.argsort(); x.slice[::-1]; x.map_to(x); x.str_as_val; x == x.slice[1:]; x.withnewvalues(a['values']); x.rename('lat2')
    return pyg.Var((x,), values=np.arange(4.), name='x').sorted('lat')
  def dates(v, q):
    m = sorted(set(ints(q, 12, 2 + q(3))))
    return dict(year=[2000 + q(3) for _ in m], month=[1 + x for x in m], day=[1 + q(28) for _ in m], startdate=dict(year=1999, month=2, day=1 + q(5)))
  @arg(dates)
  def time_axis(v, a):
    t = pyg.StandardTime(units='days', **a)
    tu.reltime(t, startdate=a['startdate'], units='hours'); tu.reltime(t, startdate=a['startdate'])
    return pyg.Var((t,), values=np.arange(float(len(t))), name='x').sorted('time')
  @arg(dates)
  def time_axis_of_dates(v, a):
    t = pyg.StandardTime(units='days', startdate=a['startdate'], values=a['day'])
    t.date_as_val(dict(year=2001, month=a['month'][0])); t.val_as_date(a['day'][0], startdate=a['startdate'])
    return pyg.Var((t,), values=np.arange(float(len(t))), name='x').slice[::-1]
  @arg(lambda v, q: dict(a=dict(year=2000, month=1 + q(14), day=1 + q(40), hour=q(30)), b=dict(year=2001, month=1 + q(12), day=1 + q(28))))
  def date_arithmetic(v, a):
    t = v.axes[0]
    tu.wrapdate(t, a['a']); tu.wrapdate(t, a['a'], allfields=True); tu.date_diff(t, a['b'], a['b'], 'hours'); t.date_as_val(a['a']); t.date_as_val(a['b'], startdate=a['b'])
  @arg(lambda v, q: dict(year=[1], month=sorted(set(1 + x for x in ints(q, 4, 2)))))
  def calendar_selection(v, a): return v(l_month=a['month'], l_year=a['year'])
  @arg(lambda v, q: dict(names=['lat', 'time'], ax=dict(lat=pyg.NamedAxis(np.arange(float(n(v, 1))), 'q')), new=[pyg.NamedAxis([1., 2.], 'k')]))
  def axes(v, a):
    v.replace_axes(a['ax']).get(); v.rename_axes(axisdict={'lat': 'y'}); v.extend(1, *a['new']).get(); v.mean(*a['names'])
    return v.transpose(*a['names'])
  @arg(lambda v, q: dict(vars=[v, (v*2).rename('w')], atts=dict(a=1), names={v.name: 'k'}))
  def dataset(v, a):
    d = pyg.Dataset(a['vars'], atts=a['atts']); d2 = d.rename_vars(a['names']); d.replace_vars({v.name: v + 1}); d.remove('w'); d + (v*3).rename('r')
    return d2.vars[0]
  @arg(lambda v, q: dict(X=[v, (v*v + 1).rename('w')], Y=[v.slice[:2], v.slice[2:]]))
  def lists_of_variables(v, a):
    from pygeode.stats import multiple_regress
    try: multiple_regress(a['X'], (v**3).rename('y'), ['time'])
    except (np.linalg.LinAlgError, AssertionError, ValueError): pass
    pyg.ensemble(*[x.rename('m') for x in a['X']])
    return pyg.concat.concat(a['Y'])
  @arg(lambda v, q: dict(a=ints(q, 9, 3), b=ints(q, 5, 2), x=sorted(float(x) for x in ints(q, 50, 4)), y=sorted(float(x) for x in ints(q, 50, 5))))
  def helpers(v, a):
    from pygeode import tools
    view.expand(a['a'], 9); view.simplify(np.asarray(a['a']))
    tools.map_to(np.asarray(a['x']), np.asarray(a['y']))
    tools.common_dict([dict(a=1, b=2), dict(a=1, b=3)])
  return R


ARGS = ['composite', 'two_lists', 'index', 'integer_selection', 'value_selection', 'range_selection', 'smooth', 'interpolate', 'lag', 'variable', 'axis', 'time_axis', 'time_axis_of_dates', 'date_arithmetic', 'calendar_selection', 'axes', 'dataset', 'lists_of_variables', 'helpers']


@st.composite
def acase(draw):
  return dict(what=draw(st.sampled_from(ARGS)), nt=draw(st.integers(3, 8)), nlat=draw(st.integers(2, 5)), desc=draw(st.booleans()), form=draw(st.sampled_from(['array', 'list', 'mixed'])),
              seed=draw(st.integers(0, 99999)), lazy=draw(st.sampled_from(g.LAZY)))


def check_args(c, ctx):
  import pygeode as pyg, random
  rnd = random.Random(c['seed']); q = lambda k: rnd.randrange(k)
  t = pyg.ModelTime365(np.arange(float(c['nt'])), units='days', startdate=dict(year=1, month=1, day=1))
  lat = pyg.Lat(np.arange(float(c['nlat']))[::-1 if c['desc'] else 1]*10.)
  v = g.lazify(pyg.Var((t, lat), values=g.build_data((c['nt'], c['nlat']), 'float64', c['seed'], 'perm'), name='v'), c['lazy'])
  R = _args()
  assert set(R) == set(ARGS), sorted(R)
  make, f = R[c['what']]
  def form(x):
    if isinstance(x, list) and x and all(isinstance(y, (int, float)) for y in x) and (c['form'] == 'array' or c['form'] == 'mixed' and q(2)): return np.array(x)
    return x
  a = {k: form(x) for k, x in make(v, q).items()}
  fp = lambda x: (type(x).__name__, {k: fp(y) for k, y in x.items()} if isinstance(x, dict) else [fp(y) for y in x] if isinstance(x, (list, tuple)) else fp_axis(x) if ops_axis(x) else fp_var(x) if ops.isvar(x) else arr(x) if isinstance(x, np.ndarray) else repr(x))
  before = {k: fp(x) for k, x in a.items()}; objs = {k: [id(y) for y in x] for k, x in a.items() if isinstance(x, (list, dict))}
  def same_args(when):
    for k, x in a.items():
      assert fp(x) == before[k], '%s: argument %s changed %s:\n  before %s\n  after  %s' % (c['what'], k, when, before[k], fp(x))
      if k in objs and isinstance(x, list): assert [id(y) for y in x] == objs[k], '%s: items of argument %s were exchanged' % (c['what'], k)
  try: r = f(v, a)
  except Exception: same_args('when it was refused'); raise
  same_args('when it was called')
  ctx.label(c['what'], c['form']); ctx.nontrivial()
  if ops.isvar(r):
    x = np.array(r.get()); same_args('when the result was computed')
    if r.naxes and min(r.shape): r.slice[tuple(slice(q(k), None) for k in r.shape)].get(); same_args('when part of the result was computed')
    g.assert_eq(np.asarray(r.get()), x, '%s computed again' % c['what'])
    r2 = f(v, a)
    g.assert_eq(np.asarray(r2.get()), x, '%s, done again' % c['what'])
  same_args('in the end')


def ops_axis(x):
  import pygeode as pyg
  return isinstance(x, pyg.Axis)


TESTS.append(Test('arguments', acase(), check_args, quick=2500))
