"""P01: positional subsetting is numpy's orthogonal indexing."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g

RULE = ('A case is a variable (0-4 axes of mixed kinds, permutation data so that every element is distinct) and one '
        'or several successive index expressions (slices with negative bounds/steps, integers, integer lists with '
        'repeats or out of order, Ellipsis, omitted trailing axes). Non-trivial: the selection drops, repeats or '
        'reorders at least one element of at least one axis. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['indices are in range and slice bounds lie within [-n, n]; selections are non-empty',
               'one index list per axis; boolean masks are not indices here']


@st.composite
def indexing(draw, shape, lists=True, ints=True):
  nd = len(shape)
  e = [draw(g.index(n, lists=lists, ints=ints)) for n in shape]
  form = draw(st.sampled_from(['full', 'full', 'trunc', 'ell']))
  if form == 'trunc' and nd > 1:
    k = draw(st.integers(1, nd))
    e = e[:k] + [['s', None, None, None]]*(nd-k)
    return dict(form='trunc', k=k, e=e)
  if form == 'ell' and nd > 0:
    i = draw(st.integers(0, nd)); j = draw(st.integers(i, nd))
    e = e[:i] + [['s', None, None, None]]*(j-i) + e[j:]
    return dict(form='ell', i=i, j=j, e=e)
  return dict(form='full', e=e)


def expr(ix):
  e = [g.ix(x) for x in ix['e']]
  if ix['form'] == 'trunc':
    e = e[:ix['k']]
    if len(e) == 1 and not isinstance(e[0], list): return e[0]
  elif ix['form'] == 'ell':
    e = e[:ix['i']] + [Ellipsis] + e[ix['j']:]
  return tuple(e)


@st.composite
def case(draw, depth=1):
  v = draw(g.var(1, 4, 1, 5, kinds=g.SAFE + ['Station']))
  shape = g.axes_shape(v['axes'])
  idx = []
  for d in range(depth):
    i = draw(indexing(shape))
    idx.append(i)
    pos = [g.ixarr(e, n) for e, n in zip(i['e'], shape)]
    shape = tuple(len(p) for p in pos)
  return dict(v=v, idx=idx)


def distinct_positions(pos):
  return all(len(set(p)) == len(p) for p in pos)


def check_one(c, ctx):
  v = g.build_var(c['v']); arr = g.var_data(c['v'])
  ix = c['idx'][0]
  shape = arr.shape
  pos = [g.ixarr(e, n) for e, n in zip(ix['e'], shape)]
  exp = g.subset(arr, pos)
  ctx.nontrivial(any(p != list(range(n)) for p, n in zip(pos, shape)))
  ctx.label('form:' + ix['form'], 'nd%d' % len(shape), *['ix:' + e[0] for e in ix['e']])
  dup = not distinct_positions(pos)
  ctx.label('repeats' if dup else None, 'reversed' if any(len(p) > 1 and p[0] > p[-1] for p in pos) else None)
  e = expr(ix)
  # 1. the lazy form
  s = v.slice[e]
  assert s.shape == exp.shape, 'shape %s, expected %s' % (s.shape, exp.shape)
  assert g.same_dtype(s.dtype, arr.dtype), 'dtype %s' % s.dtype
  assert s.name == v.name and s.units == v.units and s.atts == v.atts, 'metadata of a slice'
  for a, b, p in zip(s.axes, v.axes, pos): g.assert_sub_axis(a, b, p, 'slice axes')
  got = s.get()
  assert g.same_dtype(got.dtype, arr.dtype), 'dtype of data %s' % got.dtype
  g.assert_eq(got, exp, 'v.slice[...] data')
  # 2. the numpy form drops axes indexed by an integer
  raw = v[e]
  el = tuple(0 if x[0] == 'i' else slice(None) for x in ix['e'])
  g.assert_eq(raw, exp[el], 'v[...] data')
  # 3. nothing happened to the source
  g.assert_eq(v.get(), arr, 'source variable changed')


def check_axis(c, ctx):
  """Slicing an axis object itself."""
  a = g.build_axis(c['a'])
  p = g.ixarr(c['e'], len(a))
  if c['e'][0] == 'i':
    ctx.label('int')
  s = a.slice[g.ix(c['e'])]
  ctx.label(c['a']['k'], c['e'][0]); ctx.nontrivial(p != list(range(len(a))))
  g.assert_sub_axis(s, a, p, 'axis.slice')
  raw = a[g.ix(c['e'])]
  exp = np.asarray(a.values)[np.array(p)]
  g.assert_eq(raw, exp[0] if c['e'][0] == 'i' else exp, 'axis[...]')


def check_chain(c, ctx):
  """Slices of slices (and of results of arithmetic) compose."""
  v = g.build_var(c['v']); arr = g.var_data(c['v'])
  cur = v; cexp = arr
  tot = [list(range(n)) for n in arr.shape]
  for i in c['idx']:
    pos = [g.ixarr(e, n) for e, n in zip(i['e'], cexp.shape)]
    cexp = g.subset(cexp, pos)
    tot = [[t[k] for k in p] for t, p in zip(tot, pos)]
    cur = cur.slice[expr(i)]
  ctx.nontrivial(sum(p != list(range(n)) for p, n in zip(tot, arr.shape)) > 0)
  ctx.label('depth%d' % len(c['idx']))
  for a, b, p in zip(cur.axes, v.axes, tot): g.assert_sub_axis(a, b, p, 'chained slice axes')
  g.assert_eq(cur.get(), cexp, 'chained slices')


@st.composite
def chain_case(draw):
  """Chains, with repeated points too."""
  v = draw(g.var(1, 3, 2, 7))
  shape = g.axes_shape(v['axes'])
  n = draw(st.integers(2, 4))
  idx = []
  for d in range(n):
    e = []
    for m in shape:
      x = draw(g.index(m, ints=True, lists=True))
      e.append(x)
    idx.append(dict(form='full', e=e))
    shape = tuple(len(g.ixarr(x, m)) for x, m in zip(e, shape))
  return dict(v=v, idx=idx)


@st.composite
def axis_case(draw):
  a = draw(g.axis(kinds=g.PLAIN + g.TIMES, minn=1, maxn=8))
  e = draw(g.index(len(a['v'])))
  return dict(a=a, e=e)


@st.composite
def scalar_case(draw):
  v = draw(g.var(1, 3, 1, 5))
  return dict(v=v, pos=[draw(st.integers(0, n-1)) for n in g.axes_shape(v['axes'])], neg=draw(st.booleans()))


def check_scalar(c, ctx):
  """Indexing every axis by an integer gives the element."""
  v = g.build_var(c['v']); arr = g.var_data(c['v'])
  p = tuple(k - n if c['neg'] else k for k, n in zip(c['pos'], arr.shape))
  r = v[p]
  ctx.nontrivial(arr.size > 1)
  assert np.shape(r) == (), 'shape %s' % (np.shape(r),)
  assert r == arr[tuple(c['pos'])], '%r != %r' % (r, arr[tuple(c['pos'])])
  s = v.slice[p]
  assert s.shape == (1,)*arr.ndim and s.get().ravel()[0] == arr[tuple(c['pos'])]


TESTS = [
  Test('slice', case(), check_one, quick=3000),
  Test('axis', axis_case(), check_axis, quick=1500),
  Test('chain', chain_case(), check_chain, quick=1500),
  Test('element', scalar_case(), check_scalar, quick=400),
]
