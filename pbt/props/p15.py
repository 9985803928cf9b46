"""P15: smoothing and spectral filtering."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g

RULE = ('A case is a variable on one to three axes (floating or integer data), an axis named in any way, a kernel (length, weights or Hanning window, direct or by FFT) or a number of '
        'harmonics, chunk size, laziness and a part of the result. Non-trivial: more points than the kernel is long / than harmonics are kept. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['a kernel has at least three weights, of non-zero sum, and is not longer than the axis', 'the data have no missing values']


@st.composite
def case(draw, lens, dtypes, **extra):
  v = draw(g.var(1, 3, 1, 4, kind='quarter', dtypes=dtypes, kinds=g.SAFE))
  d = draw(st.integers(0, len(v['axes']) - 1))
  n = draw(st.sampled_from(lens))
  v['axes'][d] = draw(g.axis(kind=v['axes'][d]['k'], n=n, name=v['axes'][d].get('name')))
  c = dict(v=v, d=d, ref=draw(st.sampled_from(g.AXIS_REF)), lazy=draw(st.sampled_from(g.LAZY)), chunk=draw(st.sampled_from(g.MAXSIZES)), sub=draw(g.subspec()))
  for k, s in extra.items(): c[k] = draw(s)
  return c


def prep(c, ctx):
  v = g.lazify(g.build_var(c['v']), c['lazy']); data = g.var_data(c['v'])
  ctx.label(c['v']['axes'][c['d']]['k'], c['v']['dtype'], 'ref ' + c['ref'])
  g.set_chunk(c['chunk'])
  return v, data, g.axis_ref(v, c['d'], c['ref'])


def tol(c):
  return (1e-4, 1e-2) if c['v']['dtype'] in ('float32', 'complex64') else (1e-9, 1e-8)


@st.composite
def scase(draw):
  c = draw(case([3, 4, 5, 6, 8, 11, 16], ['float64', 'float64', 'float32', 'int32', 'int64'], fft=st.sampled_from([None, True, False]), wseed=g.data_seed,
                ktype=st.sampled_from(['int', 'list', 'array', 'array'])))
  n = len(c['v']['axes'][c['d']]['v'])
  c['k'] = draw(st.integers(3, n))
  if draw(st.booleans()): c['k'] = min(c['k'], draw(st.integers(3, 6)))
  return c


def weights(c):
  if c['ktype'] == 'int': return c['k'], np.hanning(c['k'])
  rng = np.random.default_rng(c['wseed'])
  w = rng.integers(0, 8, c['k'])/4.
  if w.sum() == 0: w[0] = 1
  if c['wseed'] % 4 == 0: w[rng.integers(0, len(w))] = -0.5
  if abs(w.sum()) < .2: w[-1] += 3.
  return (list(w) if c['ktype'] == 'list' else w.copy()), w


def check_smooth(c, ctx):
  import pygeode as pyg
  v, data, ref = prep(c, ctx)
  d = c['d']; n = v.shape[d]; L = c['k']
  k, w = weights(c)
  ctx.label('kernel %s %s' % (c['ktype'], 'odd' if L % 2 else 'even'), 'fft %s' % c['fft'], 'kernel > half the axis' if 2*L > n else '')
  ctx.nontrivial(n > L)
  kw = {} if c['fft'] is None else dict(fft=c['fft'])
  r = v.smooth(ref, k, **kw) if c['wseed'] % 2 else pyg.smooth.smooth(v, ref, kernel=k, **kw)
  if c['ktype'] != 'int': g.assert_eq(k, w, 'the kernel passed was changed')
  w = w/w.sum()
  # data extended by reflection about the ends of the axis, the end points repeated
  D = np.moveaxis(data.astype('d'), d, 0)
  out = np.zeros(D.shape)
  for i in range(n):
    for q in range(L):
      j = i + (L - 1)//2 - q
      j %= 2*n
      if j >= n: j = 2*n - 1 - j
      out[i] += w[q]*D[j]
  out = np.moveaxis(out, 0, d)
  assert r.axes == v.axes
  rt, at = tol(c)
  g.check_result(r, out, c['sub'], rt, at*max(1, np.abs(w).sum()), msg='smooth (kernel of %d on %d points)' % (L, n))
  # constants are preserved
  one = v*0 + 7
  g.assert_close(one.smooth(ref, k).get(), np.full(data.shape, 7.), rt, at, 'a smoothed constant')


@st.composite
def fcase(draw):
  c = draw(case([1, 2, 3, 4, 5, 6, 8, 9, 12, 15], ['float64', 'float64', 'float32', 'int32', 'complex128', 'complex64'], meth=st.booleans()))
  n = len(c['v']['axes'][c['d']]['v'])
  c['m'] = draw(st.integers(1, max(1, n//2 + 2)))
  c['f'] = draw(st.integers(0, n))
  return c


def cdata(c):
  x = g.var_data(c['v'])
  if c['v']['dtype'].startswith('complex'): x = x + (1j*np.random.default_rng(c['v']['seed']).integers(-9, 9, x.shape)).astype(x.dtype)
  return x


def dft(D, m):
  """D (first axis transformed) without harmonics m and above: sum over the retained ones."""
  n = len(D)
  t = np.arange(n)
  out = np.zeros(D.shape, complex)
  for h in range(n):
    if min(h, n - h) >= m: continue
    e = np.exp(-2j*np.pi*h*t/n)
    F = np.tensordot(e, D, (0, 0))
    out += np.conj(e).reshape((n,) + (1,)*(D.ndim - 1))*F/n
  return out


def check_fft(c, ctx):
  data = cdata(c)
  v = g.lazify(g.build_var(c['v'], data=data), c['lazy'])
  ctx.label(c['v']['dtype'], 'ref ' + c['ref'], 'harmonics %d' % c['m'], 'even' if v.shape[c['d']] % 2 == 0 else 'odd')
  ref = g.axis_ref(v, c['d'], c['ref'])
  d = c['d']; n = v.shape[d]; m = c['m']
  ctx.nontrivial(m <= n//2)
  g.set_chunk(c['chunk'])
  r = v.fft_smooth(ref, m)
  D = np.moveaxis(data.astype(complex), d, 0)
  out = np.moveaxis(dft(D, m), 0, d)
  if not c['v']['dtype'].startswith('complex'): out = out.real
  assert r.axes == v.axes
  rt, at = tol(c)
  g.check_result(r, out, c['sub'], rt, at, msg='fft_smooth(%d) of %d points' % (m, n))
  g.assert_close(r.fft_smooth(ref, m).get(), out, rt, at*10, 'smoothing twice')
  # a retained harmonic stays, another one goes
  f = min(c['f'], n - c['f'])
  t = np.arange(n)
  wave = np.cos(2*np.pi*f*t/n + 0.3)
  w = v*0 + g_axis(v, d, wave)
  g.assert_close(w.fft_smooth(ref, m).get(), np.broadcast_to((wave*(f < m)).reshape([n if i == d else 1 for i in range(v.naxes)]), v.shape), 1e-3, 1e-4, 'harmonic %d' % f)


def g_axis(v, d, wave):
  import pygeode as pyg
  return pyg.Var((v.axes[d],), values=wave, name='w')


TESTS = [
  Test('smooth', scase(), check_smooth, quick=2000),
  Test('fft_smooth', fcase(), check_fft, quick=1500),
]
