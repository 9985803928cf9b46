"""P08: concatenation and ensembles."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .p05 import UNIT

RULE = ('A case is a variable (or 2-3 variables of a dataset) cut along one axis into 2-4 pieces (contiguous in any order, or interleaved; '
        'times re-expressed in other units; pieces of different number types), joined again and read in parts; or members of an '
        'ensemble. Non-trivial: at least two pieces with more than two points in total. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['ensemble members have no index axis (the ensemble axis is one)', 'where coordinates of the pieces recur, the joined variable is used as a whole', 'ensemble members are required to have equal axes (anything else is refused)']


@st.composite
def case(draw, k=None):
  v = draw(g.var(1, 4, 1, 6, nan=True, kinds=g.SAFE + ['Station', 'ModelTime360']))
  i = draw(st.integers(0, len(v['axes'])-1))
  a = v['axes'][i]; n = len(a['v'])
  if n < 2:
    v['axes'][i] = draw(g.axis(kind=a['k'], n=draw(st.integers(2, 6)), name=a.get('name')))
    n = len(v['axes'][i]['v'])
  how = draw(st.sampled_from(['contig', 'contig', 'order', 'mix']))
  m = draw(st.integers(2, min(4, n)))
  if how == 'mix':
    lab = draw(st.permutations([q % m for q in range(n)]))
    parts = [[q for q in range(n) if lab[q] == j] for j in range(m)]
  else:
    cuts = sorted(draw(st.permutations(list(range(1, n))))[:m-1])
    parts = [list(range(x, y)) for x, y in zip([0] + cuts, cuts + [n])]
    if how == 'order': parts = list(draw(st.permutations(parts)))
  return dict(v=v, i=i, parts=parts, lazy=[draw(st.sampled_from(g.LAZY)) for _ in parts], dt=[draw(st.sampled_from([None, None, 'float32', 'int32', 'float64'])) for _ in parts],
              other=[draw(st.integers(0, 8)) for _ in parts], ref=draw(st.sampled_from([None, None] + g.AXIS_REF)), chunk=draw(st.sampled_from(g.MAXSIZES)),
              aslist=draw(st.booleans()), sub=draw(g.subspec()), nvars=draw(st.integers(1, 3)))


def pieces(c, v, arr):
  out, arrs = [], []
  i = c['i']
  for p, lazy, dt, oth in zip(c['parts'], c['lazy'], c['dt'], c['other']):
    s = v.slice[tuple([slice(None)]*i + [p])]
    a = np.take(arr, p, axis=i)
    d = c['v']['axes'][i]
    if d['k'] in g.TIMES and oth:
      u = ['seconds', 'minutes', 'hours', 'days'][oth % 4]; f = UNIT[d['units']]/float(UNIT[u]); day = 1 + oth % 5
      vals = [d['v'][q]*f - (day - d['start']['day'])*86400./UNIT[u] for q in p]
      ax = g.build_axis(dict(d, v=vals, units=u, start=dict(d['start'], day=day)))
      s = s.replace_axes(newaxes=[ax if j == i else b for j, b in enumerate(s.axes)])
    if dt and not (dt.startswith('i') and a.dtype.kind == 'f' and np.isnan(a).any()):
      s = s.as_type(dt); a = a.astype(dt)
    out.append(g.lazify(s.load(pbar=None) if lazy == 'mem' else s, lazy)); arrs.append(a)
  return out, arrs


def check(c, ctx):
  import pygeode as pyg
  g.set_chunk(c['chunk'])
  arr = g.var_data(c['v']); v = g.build_var(c['v']); i = c['i']
  ps, arrs = pieces(c, v, arr)
  ctx.label('%d pieces' % len(ps), c['v']['axes'][i]['k'], 'axis %d of %d' % (i, arr.ndim), 'types differ' if len(set(a.dtype for a in arrs)) > 1 else None)
  ctx.nontrivial(arr.shape[i] > 2)
  kw = {}
  if c['ref']: kw['iaxis'] = g.axis_ref(ps[0], i, c['ref'])
  r = pyg.concat.concat(ps, **kw) if c['aslist'] else pyg.concat.concat(*ps, **kw)
  full = [q for p in c['parts'] for q in p]
  exp = np.concatenate(arrs, axis=i)
  assert g.same_dtype(r.dtype, exp.dtype), 'type %s, expected %s (pieces are %s)' % (r.dtype, exp.dtype, [str(a.dtype) for a in arrs])
  assert len(r.axes) == arr.ndim, r.axes
  for j, a in enumerate(r.axes):
    if j != i: g.same_axis(a, v.axes[j], 'other axes')
    else:
      b = v.axes[i]
      assert type(a) is type(b) and a.name == b.name, 'class or name of the joined axis: %r' % a
      if not hasattr(b, 'startdate') and type(b).__name__ != 'Station':
        g.assert_eq(np.asarray(a.values), np.asarray(b.values)[full], 'coordinates of the joined axis')
      for k in b.auxarrays:
        assert k in a.auxarrays, 'auxiliary array %s lost' % k
        x, y = np.asarray(a.auxarrays[k]), np.asarray(b.auxarrays[k])[full]
        assert list(x) == list(y) or g.close(x, y), 'auxiliary array %s: %s, expected %s' % (k, x, y)
  # round of joining: selecting in the original order gives the variable back
  g.check_result(r, exp, c['sub'], exact=True, msg='concatenation of %s along axis %d' % (c['parts'], i))
  inv = np.argsort(full)
  g.assert_eq(r.slice[tuple([slice(None)]*i + [list(inv)])].get(), np.take(exp, inv, axis=i), 'joined, in the original order')


def check_ds(c, ctx):
  """Concatenating datasets joins each variable."""
  import pygeode as pyg
  from pygeode.dataset import concat as dconcat
  g.set_chunk(c['chunk'])
  i = c['i']; c = dict(c, dt=[None]*len(c['parts']))
  ds = [[] for _ in c['parts']]; exps = []
  for n in range(c['nvars']):
    cv = dict(c['v'], seed=c['v']['seed'] + n, name='v%d' % n)
    arr = g.var_data(cv); v = g.build_var(cv)
    ps, arrs = pieces(dict(c, v=cv), v, arr)
    for d, s in zip(ds, ps): d.append(s)
    exps.append(np.concatenate(arrs, axis=i))
  # one more variable in one dataset only
  extra = pyg.Var([pyg.NamedAxis(np.arange(3.), 'own')], values=np.arange(3.), name='own1')
  ds[-1].append(extra)
  sets = [pyg.Dataset(d, atts=dict(same=1, diff=k)) for k, d in enumerate(ds)]
  r = dconcat(sets) if c['aslist'] else dconcat(*sets)
  ctx.nontrivial(exps[0].shape[i] > 2); ctx.label('%d variables' % c['nvars'])
  assert [v.name for v in r.vars] == ['v%d' % n for n in range(c['nvars'])] + ['own1'], [v.name for v in r.vars]
  for n, e in enumerate(exps): g.check_result(r['v%d' % n], e, c['sub'], exact=True, msg='v%d' % n)
  g.assert_eq(r['own1'].get(), np.arange(3.), 'variable in one dataset only')
  assert r.atts == {'same': 1}, r.atts


# ---- no axis to join along, or more than one

def check_deg(c, ctx):
  import pygeode as pyg
  g.set_chunk(c['chunk'])
  arrs = [g.build_data(g.axes_shape(c['v']['axes']), c['v']['dtype'], c['v']['seed'] + k) for k in range(len(c['parts']))]
  axs = [g.build_axis(a) for a in c['v']['axes']]
  vs = [g.lazify(g.build_var(c['v'], axs, a), l) for a, l in zip(arrs, c['lazy'])]
  ctx.nontrivial(arrs[0].size > 1)
  if c['nvars'] == 1 and len(axs) >= 2:
    # the pieces differ along two axes: refused
    two = sorted([c['i'], (c['i'] + 1) % len(axs)])
    if all(len(axs[t]) >= 2 for t in two):
      a = vs[0].slice[tuple(slice(0, 1) if j in two else slice(None) for j in range(len(axs)))]
      b = vs[0].slice[tuple(slice(1, None) if j in two else slice(None) for j in range(len(axs)))]
      ctx.label('two axes vary')
      try: pyg.concat.concat(a, b)
      except ValueError: return
      raise AssertionError('pieces that differ along two axes were joined')
  ctx.label('identical axes')
  r = pyg.concat.concat(vs)
  assert [a.name for a in r.axes] == [a.name for a in axs] + ['concat'], r.axes
  g.check_result(r, np.stack(arrs, axis=-1), c['sub'], exact=True, msg='identical axes')


# ---- coordinates that recur in several pieces, or are within each other's tolerance

@st.composite
def ocase(draw):
  kind = draw(st.sampled_from(['Lon', 'Lat', 'Pres', 'NamedAxis', 'StandardTime', 'ModelTime365', 'Lon']))
  n = draw(st.sampled_from([5, 4, 3, 7, 2]))
  if kind == 'Lon' and draw(st.booleans()):
    a = dict(k='Lon', v=[draw(st.integers(0, 358)) + 0.0625*(i + 1) for i in range(n)])
    a['v'] = [a['v'][0] + 0.0625*i for i in range(n)]
  else: a = draw(g.axis(kind=kind, n=n, aux=False, name='nn' if kind == 'NamedAxis' else None))
  m = draw(st.sampled_from([2, 3, 2, 4]))
  parts = [sorted(draw(st.lists(st.integers(0, n-1), min_size=1, max_size=n, unique=True))) for _ in range(m)]
  return dict(ax=a, parts=parts, others=draw(g.axes(0, 2, 1, 3, kinds=['YAxis', 'Freq', 'ZAxis'], aux=False)) if draw(st.booleans()) else [], at=draw(st.integers(0, 2)), seed=draw(g.data_seed),
              lazy=[draw(st.sampled_from(g.LAZY)) for _ in parts], chunk=draw(st.sampled_from(g.MAXSIZES)), op=draw(st.sampled_from(['', 'arith', 'mean', 'load', 'trans'])))


def check_over(c, ctx):
  import pygeode as pyg
  x = g.build_axis(c['ax'])
  axs = [g.build_axis(a) for a in c['others'] if not (a['k'] == 'YAxis' and c['ax']['k'] == 'Lat' or a['k'] == 'ZAxis' and c['ax']['k'] == 'Pres')]
  i = c['at'] % (len(axs) + 1)
  axs.insert(i, x)
  full = g.build_data([len(a) for a in axs], 'float64', c['seed'])
  ps, arrs = [], []
  for k, (p, l) in enumerate(zip(c['parts'], c['lazy'])):
    w = pyg.Var(axs, values=full + 1000*k).slice[tuple([slice(None)]*i + [p])].load(pbar=None)
    ps.append(g.lazify(w, l)); arrs.append(np.take(full + 1000*k, p, axis=i))
  every = [q for p in c['parts'] for q in p]
  ctx.label('recurring' if len(set(every)) < len(every) else 'close', '%d pieces' % len(ps), c['op']); ctx.nontrivial(len(every) > 2)
  g.set_chunk(c['chunk'])
  r = pyg.concat.concat(ps, iaxis=x.name)
  exp = np.concatenate(arrs, axis=i)
  assert [a.name for a in r.axes] == [a.name for a in axs] and len(r.axes[i]) == len(every), r.axes
  if hasattr(x, 'startdate'):
    for k in x.auxarrays: assert list(r.axes[i].auxarrays[k]) == list(np.asarray(x.auxarrays[k])[every]), 'dates'
  else: g.assert_eq(r.axes[i].values, x.values[every], 'coordinates of the joined axis')
  o = c['op']
  if o == 'arith': r = r + 1; exp = exp + 1
  elif o == 'load': r = r.load(pbar=None)
  elif o == 'mean': r = r.sum(i); exp = exp.sum(i)
  elif o == 'trans' and r.naxes > 1: r = r.transpose(*range(r.naxes)[::-1]); exp = exp.T
  g.assert_close(r.get(), exp, 1e-12, 1e-12, 'pieces %s joined' % c['parts'])


# ---- ensembles

@st.composite
def ecase(draw):
  v = draw(g.var(0, 3, 1, 5, nan=True, kinds=[k for k in g.SAFE if k != 'Index']))
  n = draw(st.integers(1, 4))
  return dict(v=v, n=n, lazy=[draw(st.sampled_from(g.LAZY)) for _ in range(n)], dt=[draw(st.sampled_from([None, None, None, 'float32', 'int32', 'float64'])) for _ in range(n)],
              chunk=draw(st.sampled_from(g.MAXSIZES)), sub=draw(g.subspec()), ds=draw(st.integers(0, 3)), perm=draw(st.permutations([0, 1, 2])))


def check_ens(c, ctx):
  import pygeode as pyg
  from pygeode.ensemble import ensemble
  g.set_chunk(c['chunk'])
  axs = [g.build_axis(a) for a in c['v']['axes']]; sh = g.axes_shape(c['v']['axes'])
  def member(name, k, off):
    dt = c['dt'][k] or c['v']['dtype']
    arr = g.build_data(sh, dt, c['v']['seed'] + 10*k + off, 'quarter' if dt.startswith('f') else 'perm', c['v'].get('nan', 0))
    return g.lazify(g.build_var(dict(c['v'], name=name), [g.build_axis(a) for a in c['v']['axes']], arr), c['lazy'][k]), arr
  ctx.label('%d members' % c['n'], 'dataset' if c['ds'] else 'variables', 'types differ' if len(set(d or c['v']['dtype'] for d in c['dt'])) > 1 else None)
  ctx.nontrivial(c['n'] > 1)
  if c['ds'] == 0:
    ms, arrs = zip(*[member('T', k, 0) for k in range(c['n'])])
    res = {'T': (ensemble(*ms), arrs)}
    if c['n'] > 1 and len(axs) and len(axs[0]) > 1:
      try: ensemble(ms[0], ms[1].slice[:-1]); raise RuntimeError
      except AssertionError: pass
  else:
    names = ['T', 'u', 'q'][:c['ds']]
    all_ = {nm: [member(nm, k, o) for k in range(c['n'])] for o, nm in enumerate(names)}
    sets = []
    for k in range(c['n']):
      order = [names[p] for p in c['perm'] if p < len(names)] if k else names
      sets.append(pyg.Dataset([all_[nm][k][0] for nm in order], atts=dict(a=1, k=k)))
    r = ensemble(*sets)
    assert [v.name for v in r.vars] == names, r.vars
    assert r.atts == ({'a': 1} if c['n'] > 1 else {'a': 1, 'k': 0}), r.atts
    res = {nm: (r[nm], [m[1] for m in all_[nm]]) for nm in names}
  for nm, (r, arrs) in res.items():
    assert len(r.axes) == len(axs) + 1 and len(r.axes[0]) == c['n'], r.axes
    for a, b in zip(r.axes[1:], axs): g.same_axis(a, b, 'axes of the members')
    e = np.stack(arrs, axis=0)
    got = g.check_result(r, e, c['sub'], exact=True, msg='ensemble of %s' % nm)
    for k in range(c['n']): g.assert_eq(r.slice[k:k+1].get()[0], arrs[k], 'member %d' % k)


TESTS = [
  Test('overlap', ocase(), check_over, quick=800),
  Test('pieces', case(), check, quick=2500),
  Test('datasets', case(), check_ds, quick=700),
  Test('degenerate', case(), check_deg, quick=500),
  Test('ensemble', ecase(), check_ens, quick=1500),
]
