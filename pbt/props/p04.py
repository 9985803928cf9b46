"""P04: a part of the result of a pipeline of operations is that part of the whole; what is announced is what is delivered."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .. import ops

RULE = ('A case is a variable (one to three axes, a calendar time axis in many), one to four operations out of %d with drawn arguments, how the operands are held (in memory, lazily, as slices, transposed), '
        'sub-selections of the result, and whether parts or the whole are asked for first. Non-trivial: an operation applies and a part of more than one element differs from the whole. '
        'Distinct: by the JSON text of the case.' % len(ops.OPS))
ASSUMPTIONS = ['axes of one variable have distinct names, unrelated kinds and no repeated coordinates', 'operations whose result jumps (comparisons, remainders, positions of extrema) are only applied to exact values',
               'rounding of up to 1e-9 of the largest value in the pipeline (3e-4 in single precision) is allowed']


@st.composite
def case(draw, groups=None, maxn=4):
  return dict(v=draw(ops.start()), lazy=draw(st.sampled_from(g.LAZY)), steps=draw(ops.steps(1, maxn, groups)), other=draw(st.sampled_from(g.LAZY)), subs=draw(st.lists(g.subspec(), min_size=1, max_size=3)),
              first=draw(st.sampled_from(['part', 'whole', 'part'])), chunk=draw(st.sampled_from([10**7, 10**7, 10**7, 30, 7])), how=draw(st.sampled_from(['slice', 'slice', 'kw', 'index'])))


def describe(v): return [(type(a).__name__, a.name, len(a)) for a in v.axes]


def run(c, ctx, stage=True):
  """-> lazy result, in-memory result computed one operation at a time, state"""
  S = ops.State()
  mem = g.build_var(c['v']); lazy = g.lazify(g.build_var(c['v']), c['lazy'])
  S.see(mem.get())
  if mem.dtype.name == 'float32': S.single = True; S.exact = False
  e1 = dict(other='mem'); e2 = dict(other=c['other'])
  for s in c['steps']:
    o = ops.OPS[s[0]]
    if not S.allows(o): continue
    r1 = ops.apply(o, mem, s[1:], e1)
    if r1 is None:
      ctx.label('not applied'); continue
    r2 = o.fn(lazy, ops.Draws(s[1:]), e2)
    ctx.label(o.name)
    S.took(o, r1)
    m = '%s' % S.done
    assert ops.isvar(r2), '%s: %r' % (m, r2)
    assert describe(r1) == describe(r2), '%s: axes %s of a lazy operand, %s in memory' % (m, r2.axes, r1.axes)
    for a, b in zip(r2.axes, r1.axes): g.same_axis(a, b, m, rtol=1e-9)
    assert g.same_dtype(r1.dtype, r2.dtype), '%s: dtype %s of a lazy operand, %s in memory' % (m, r2.dtype, r1.dtype)
    assert (r1.name, r1.units, r1.atts) == (r2.name, r2.units, r2.atts), '%s: metadata %s of a lazy operand, %s in memory' % (m, (r2.name, r2.units, r2.atts), (r1.name, r1.units, r1.atts))
    mem = r1.load(); lazy = r2
    x = mem.get()
    assert g.same_dtype(x.dtype, r1.dtype) and x.shape == r1.shape, '%s: announced %s %s, data %s %s' % (m, r1.dtype, r1.shape, x.dtype, x.shape)
    S.see(x)
  return lazy, mem, S


def check(c, ctx):
  g.set_chunk(c['chunk'])
  r, mem, S = run(c, ctx)
  exp = mem.get()
  rt, at = S.tol()
  m = 'pipeline %s' % S.done
  def parts():
    for spec in c['subs']:
      e, pos = g.resolve_sub(spec, r.shape)
      q = r.slice[e]
      x = q.get()
      want = g.subset(exp, pos)
      assert q.shape == want.shape == x.shape, '%s: part %s has shape %s, data %s' % (m, e, q.shape, x.shape)
      assert g.same_dtype(x.dtype, r.dtype), '%s: part %s has dtype %s, announced %s' % (m, e, x.dtype, r.dtype)
      g.assert_close(x, want, rt, at, '%s: part %s' % (m, e))
      for a, b, p in zip(q.axes, r.axes, pos): g.assert_sub_axis(a, b, p, '%s: part %s' % (m, e))
      ctx.nontrivial(len(S.done) > 0 and x.size > 1 and (x.size != exp.size or any(p != sorted(p) for p in pos)))
      if c['how'] == 'kw':
        kw = {}
        for a, p in zip(r.axes, pos): kw['il_' + a.name] = sorted(set(p))
        g.assert_close(r.get(**kw), g.subset(exp, [sorted(set(p)) for p in pos]), rt, at, '%s: part %s by keyword' % (m, kw))
      if c['how'] == 'index':
        # (one index at a time; the rest by further indexing of the part)
        y = r.slice[e]
        for d in range(y.naxes):
          k = y.shape[d]//2
          y = y.slice[(slice(None),)*d + (slice(k, k+1),)]
        g.assert_close(y.get(), want[tuple(slice(n//2, n//2 + 1) for n in want.shape)], rt, at, '%s: one element of the part %s' % (m, e))
  if c['first'] == 'part': parts()
  x = r.get()
  assert x.shape == r.shape == tuple(len(a) for a in r.axes), '%s: announced shape %s, data %s' % (m, r.shape, x.shape)
  assert g.same_dtype(x.dtype, r.dtype), '%s: announced dtype %s, data %s' % (m, r.dtype, x.dtype)
  g.assert_close(x, exp, rt, at, '%s evaluated at once, and one operation at a time' % m)
  if c['first'] == 'whole': parts()
  # data in memory
  l = r.load()
  assert g.same_dtype(l.dtype, r.dtype) and l.shape == r.shape
  g.assert_close(l.get(), exp, rt, at, '%s loaded' % m)
  if S.single: ctx.label('single precision')
  ctx.label('%d operations' % len(S.done), 'missing' if exp.dtype.kind == 'f' and np.isnan(exp).any() else '')


def only(groups): return case(groups)


TESTS = [
  Test('pipelines', case(), check, quick=2500),
  Test('time', only(['time', 'combine', 'select']), check, quick=1000),
  Test('calculus', only(['calculus', 'filter', 'join', 'shape']), check, quick=1000),
  Test('single', case(maxn=1), check, quick=1500),
]
