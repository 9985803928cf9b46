"""P03: the limit on the size of a piece does not change results."""
import os
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import ops
from .p04 import describe
from .p22 import quiet

RULE = ('A case is a computation (a pipeline of one to four operations, a reduction of a field of up to a few thousand points, a statistic of two fields, or writing a file) evaluated with a limit on the size of a piece '
        'between one element and more than the size of the field, and with no limit. Non-trivial: the limit is smaller than the field the computation walks over. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['rounding of up to 1e-9 of the largest value in the pipeline (3e-4 in single precision) is allowed', 'operations whose result jumps are only applied to exact values']

SMALL = [1, 2, 3, 5, 7, 13, 30, 64, 200]


@st.composite
def case(draw, groups=None, maxn=4):
  return dict(v=draw(ops.start()), lazy=draw(st.sampled_from(['lazy', 'slice', 'trans', 'lazy', 'mem'])), steps=draw(ops.steps(1, maxn, groups)), other=draw(st.sampled_from(g.LAZY)),
              chunks=draw(st.lists(st.sampled_from(SMALL), min_size=2, max_size=2, unique=True)), sub=draw(g.subspec()), load=draw(st.booleans()))


def pipeline(c, chunk, ctx=None):
  """The result with pieces of at most so many elements, from operands of its own."""
  g.set_chunk(chunk)
  S = ops.State()
  v = g.lazify(g.build_var(c['v']), c['lazy'])
  S.see(v.get())
  if v.dtype.name == 'float32': S.single = True; S.exact = False
  env = dict(other=c['other'])
  big = v.size
  for s in c['steps']:
    o = ops.OPS[s[0]]
    if not S.allows(o) or o.name == 'loaded': continue
    r = ops.apply(o, v, s[1:], env)
    if r is None: continue
    if ctx is not None: ctx.label(o.name)
    S.took(o, r); v = r; big = max(big, v.size)
    S.see(v.get())
  return v, S, big


def pieces(S):
  # each operation that goes over a whole axis may go over it again for every piece of the next
  n = sum(ops.OPS[d].group in ('reduce', 'time') or d == 'anomaly' for d in S.done)
  return {0: 80, 1: 60, 2: 20, 3: 8}.get(n, 5)


def check(c, ctx):
  ref, S, big = pipeline(c, 10**7, ctx)
  exp = ref.get()
  rt, at = S.tol()
  e, pos = g.resolve_sub(c['sub'], ref.shape)
  few = pieces(S)
  for k in c['chunks']:
    k = max(k, big//few)
    r, S2, _ = pipeline(c, k)
    m = 'pipeline %s in pieces of %d' % (S.done, k)
    assert S2.done == S.done
    assert describe(r) == describe(ref) and g.same_dtype(r.dtype, ref.dtype), '%s: %s, expected %s' % (m, describe(r), describe(ref))
    x = (r.load() if c['load'] else r).get()
    assert g.same_dtype(x.dtype, r.dtype), '%s: dtype %s, announced %s' % (m, x.dtype, r.dtype)
    g.assert_close(x, exp, rt, at, m)
    g.assert_close(r.slice[e].get(), g.subset(exp, pos), rt, at, '%s: part %s' % (m, e))
    # (set up with one limit, evaluated with another)
    g.set_chunk(k)
    g.assert_close(ref.get(), exp, rt, at, m + ' only when evaluated')
    ctx.nontrivial(k < big and len(S.done) > 0)
    ctx.label('pieces of %d' % k)
  ctx.label('%d operations' % len(S.done))


# ---------------------------------------------------------------- larger fields

REDS = ['sum', 'mean', 'min', 'max', 'nansum', 'nanmean', 'nanmin', 'nanmax', 'variance', 'stdev', 'nanvariance', 'nanstdev', 'argmax', 'argmin']


@st.composite
def big(draw):
  ks = draw(st.permutations(['Lat', 'Lon', 'Pres', 'NamedAxis']))[:draw(st.sampled_from([3, 2, 4, 1]))]
  ns = [draw(st.sampled_from([7, 12, 3, 1, 9, 20])) for _ in ks]
  axs = [draw(g.axis(kind=k, n=n, aux=False, name='zz' if k == 'NamedAxis' else None)) for k, n in zip(ks, ns)]
  return dict(axes=axs, dtype=draw(st.sampled_from(['float64', 'float32', 'int32', 'float64', 'complex128'])), seed=draw(g.data_seed), nan=draw(st.sampled_from([0, 0.1, 0.7])), lazy=draw(st.sampled_from(['lazy', 'slice', 'trans', 'mem'])),
              f=draw(st.sampled_from(REDS)), red=draw(st.integers(1, 15)), w=draw(st.sampled_from([None, 'var', False, 'var'])), wred=draw(st.sampled_from([7, 1, 2, 15, 4, 3])), wseed=draw(g.data_seed), chunks=draw(st.lists(st.sampled_from(SMALL + [500, 1000]), min_size=2, max_size=3, unique=True)))


def check_big(c, ctx):
  import pygeode as pyg
  shape = g.axes_shape(c['axes']); nd = len(shape)
  rng = np.random.default_rng(c['seed'])
  x = rng.integers(-400, 400, shape)/4.
  d = np.dtype(c['dtype'])
  if d.kind == 'c': x = x + 1j*rng.integers(-9, 9, shape)
  x = x.astype(d)
  if c['nan'] and d.kind in 'fc': x = np.where(rng.random(shape) < c['nan'], np.array(np.nan, d), x)
  f = c['f']
  if d.kind == 'c' and not f.endswith(('sum', 'mean')): return
  red = [i for i in range(nd) if c['red'] >> i & 1] or [0]
  if f.startswith('arg'):
    red = red[:1]
    if nd == 1 or np.isnan(x).any(): return
  axs = [g.build_axis(a) for a in c['axes']]
  kw = {}
  if f.endswith(('sum', 'mean', 'variance')) and f != 'nanvariance' and c['w'] is not None:
    if c['w'] is False: kw['weights'] = False
    else:
      # (the weights may leave some of the reduced axes out)
      wax = [i for j, i in enumerate(red) if c['wred'] >> j & 1] or red
      w = np.random.default_rng(c['wseed']).integers(1, 9, [shape[i] for i in wax])/4. + (1 if f == 'variance' else 0)
      kw['weights'] = pyg.Var([axs[i] for i in wax], values=w, name='w')
  v = g.lazify(pyg.Var(axs, values=x, name='T'), c['lazy'])
  def run():
    r = getattr(v, f)(*[axs[i].name for i in red], **kw)
    return np.asarray(r.get() if ops.isvar(r) else r)
  g.set_chunk(10**7)
  exp = run()
  s = max(1., float(np.abs(x[np.isfinite(x)]).max()) if np.isfinite(x).any() else 1.)
  if f.endswith('sum'): s *= np.prod([shape[i] for i in red])
  single = d.name == 'float32'
  t = 1e-10 if not single else 1e-5
  if 'var' in f: s *= s
  if f.endswith('stdev'): t = 1e-6 if not single else 1e-2
  if 'variance' in f and single: t = 1e-4
  for k in c['chunks']:
    # (at most so many pieces)
    k = max(k, x.size//150)
    g.set_chunk(k)
    got = run()
    assert g.same_dtype(got.dtype, exp.dtype)
    g.assert_close(got, exp, t, t*s, '%s over %s of %s in pieces of %d' % (f, red, shape, k))
    ctx.nontrivial(k < x.size); ctx.label('pieces of %d' % k)
  # order in which the pieces come does not matter either: the axes the other way round
  if nd > 1 and not c['w']:
    vt = v.transpose(*[a.name for a in axs[::-1]])
    r = getattr(vt, f)(*[axs[i].name for i in red], **kw)
    got = np.asarray(r.get() if ops.isvar(r) else r)
    g.assert_close(got.T, exp, t, t*s, '%s over %s of the transposed variable in pieces of %d' % (f, red, c['chunks'][-1]))
  ctx.label(f, c['dtype'], 'missing' if c['nan'] and d.kind in 'fc' else '', 'all axes' if len(red) == nd else '')


# ---------------------------------------------------------------- statistics

@st.composite
def scase(draw):
  from .p24 import fields
  c = draw(fields())
  c['f'] = draw(st.sampled_from(['correlate', 'regress', 'difference', 'paired_difference', 'isnonzero']))
  c['chunks'] = draw(st.lists(st.sampled_from(SMALL), min_size=2, max_size=2, unique=True))
  return c


def check_stats(c, ctx):
  import pygeode as pyg
  from .p24 import build, samples, refs
  pool, data = build(c)
  (X, xa), (Y, ya) = [(d[0], d[2]) for d in data]
  arr, out, red = samples(c, pool, data)
  if arr[0].shape[-1] < 3: return
  # (fields that do not vary leave nothing but rounding)
  for a in arr:
    if not np.all(np.nanstd(a, -1) > 1e-3*(1 + np.nanmax(np.abs(a)))): return
  f = c['f']
  # (nor does an exact fit)
  if f in ('correlate', 'regress', 'paired_difference'):
    a, b = [np.where(np.isnan(arr[0] + arr[1]), np.nan, q) for q in arr[:2]]
    if f == 'paired_difference': res = a - b
    else:
      a, b = [q - np.nanmean(q, -1, keepdims=True) for q in (a, b)]
      res = b - a*np.nansum(a*b, -1, keepdims=True)/np.nansum(a*a, -1, keepdims=True)
    if not np.all(np.nanstd(res, -1) > 1e-3*(1 + np.nanmax(np.abs(b)))): return
  kw = {}
  r = refs(X, c, pool, red)
  def run():
    if f == 'isnonzero':
      ds = quiet(pyg.stats.isnonzero, X, axes=r, output='m,p,ci') if r is not None else quiet(pyg.stats.isnonzero, X, output='m,p,ci')
    else:
      k2 = {} if r is None else dict(axes=r)
      ds = quiet(getattr(pyg.stats, f), X, Y, **k2)
    return {v.name: np.asarray(v.get()) for v in ds}
  g.set_chunk(10**7)
  try: exp = run()
  except Exception as e:
    # (what is refused is refused in pieces too)
    for k in c['chunks']:
      g.set_chunk(k)
      try: run()
      except type(e): continue
      raise AssertionError('%s of a whole field raises %r, in pieces of %d it does not' % (f, e, k))
    return
  s = max(v['scale'] for v in c['vars'][:2])
  single = any(v['dtype'] == 'float32' for v in c['vars'][:2])
  for k in c['chunks']:
    g.set_chunk(k)
    got = run()
    assert sorted(got) == sorted(exp)
    for n in exp: g.assert_close(got[n], exp[n], 1e-5, 1e-5, '%s: %s in pieces of %d' % (f, n, k)) if not single else g.assert_close(got[n], exp[n], 5e-2, 5e-2*s, '%s: %s in pieces of %d' % (f, n, k))
    ctx.nontrivial(bool(exp) and k < X.size); ctx.label('pieces of %d' % k)
  ctx.label(f)


# ---------------------------------------------------------------- files, datasets

@st.composite
def fcase(draw):
  c = draw(case(None, 2))
  c['fmt'] = draw(st.sampled_from([4, 3])); c['more'] = draw(st.booleans())
  return c


_n = [0]


def check_file(c, ctx):
  import pygeode as pyg
  import netCDF4
  out = {}
  want = None
  for k in [10**7] + c['chunks']:
    if k < 10**6: k = max(k, wbig//few)
    v, S, big = pipeline(c, k, ctx if k > 10**6 else None)
    if v.dtype.kind == 'c' or v.dtype == bool: return
    v = v.rename('res')
    if any(type(a).__name__ in ('Lag', 'Yearless', 'Event', 'Offset', 'Ensemble') for a in v.axes): return
    if any(len(a.auxarrays) and not hasattr(a, 'startdate') for a in v.axes): return
    if len(set(n for a in v.axes for n in [a.name])) != v.naxes: return
    _n[0] += 1
    fn = 'f%d.nc' % _n[0]
    g.set_chunk(k)
    if k > 10**6: want = v.get(); rt, at = S.tol(); dt = v.dtype; done = S.done; few = pieces(S); wbig = big
    ds = pyg.Dataset([v] + ([v.rename('twice')*2] if c['more'] else []))
    pyg.save(fn, ds, version=4 if any(x.dtype == np.int64 for x in list(ds.vars) + list(v.axes)) else c['fmt'])
    with netCDF4.Dataset(fn) as f:
      f.set_auto_mask(False)
      x = f['res'][...]
    os.unlink(fn)
    assert x.shape == want.shape and x.dtype.kind == dt.kind, '%s: %s %s in the file, %s %s expected' % (done, x.shape, x.dtype, want.shape, dt)
    if x.dtype.kind == 'f':
      ok = ~np.isnan(want)
      g.assert_close(x[ok], want[ok], rt, at, 'pipeline %s written in pieces of %d' % (done, k))
    else: g.assert_eq(x, want, 'pipeline %s written in pieces of %d' % (done, k))
    if k < 10**6: ctx.nontrivial(k < want.size); ctx.label('pieces of %d' % k)


# ---------------------------------------------------------------- the pieces themselves

@st.composite
def vcase(draw):
  v = draw(g.var(1, 4, 1, 7))
  return dict(v=v, sub=draw(g.subspec()), keep=draw(st.integers(0, 15)), k=draw(st.sampled_from(SMALL)))


def check_view(c, ctx):
  from pygeode.view import View
  v = g.build_var(c['v']); nd = v.naxes
  e, pos = g.resolve_sub([s if s[0] != 'pick' else ['pick', list(dict.fromkeys(q % 7 for q in s[1]))] for s in c['sub']], v.shape)
  pos = [list(dict.fromkeys(p)) for p in pos]
  keep = [i for i in range(nd) if c['keep'] >> i & 1]
  g.set_chunk(c['k'])
  x = g.var_data(c['v'])
  seen = np.zeros(x.shape, int)
  whole = View(v.axes, force_integer_indices=[np.array(p) for p in pos])
  n = 0
  import warnings
  for piece in whole.loop_mem(preserve=keep or None):
    n += 1
    ind = piece.integer_indices
    for i in keep: assert list(ind[i]) == pos[i], 'axis %d is cut to %s' % (i, ind[i])
    size = int(np.prod([len(q) for q in ind]))
    must = int(np.prod([len(pos[i]) for i in keep])) if keep else 1
    assert size <= max(c['k'], must), 'a piece of %d elements, limit %d' % (size, c['k'])
    g.assert_eq(piece.get(v), g.subset(x, [list(q) for q in ind]), 'data of a piece')
    seen[np.ix_(*ind)] += 1
  want = np.zeros(x.shape, int); want[np.ix_(*pos)] = 1
  assert np.array_equal(seen, want), 'pieces do not cover the view once: %s' % seen
  ctx.nontrivial(n > 1); ctx.label('%d pieces' % min(n, 5), 'preserve' if keep else '')


TESTS = [
  Test('pipelines', case(), check, quick=1200),
  Test('reducing', case(['reduce', 'time', 'combine', 'join']), check, quick=1000),
  Test('filters', case(['filter', 'calculus', 'shape', 'select']), check, quick=700),
  Test('fields', big(), check_big, quick=1500),
  Test('stats', scase(), check_stats, quick=700),
  Test('files', fcase(), check_file, quick=400),
  Test('pieces', vcase(), check_view, quick=500),
]
