"""P23: coupled patterns of two fields."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g
from .p22 import layout, weights, quiet

RULE = ('A case is a pair of fields sharing their record axis, each on one or two space axes of its own with the record axis anywhere, with a prescribed spectrum of the cross-covariance, weights (internal, explicit, none), '
        'covariance or correlation, a number of modes, a subspace and the limit on the size of a piece. Non-trivial: two modes or more, or a field of several points with weights. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['the cross-covariance has the full rank its size allows, and the singular values asked for are distinct (ratios of neighbours at most 0.7)', 'weights are positive and do not vary along the record axis',
               'one pattern fits into a piece']


@st.composite
def case(draw):
  rec, sp1, o1 = draw(layout(nrec=1, kinds=('Lat', 'Lon', 'Pres', 'NamedAxis', 'Freq')))
  c = dict(rec=rec[0], sp1=sp1, o1=o1)
  kinds = [k for k in ('Lat', 'Lon', 'Pres', 'NamedAxis', 'Freq') if k != rec[0]['k'] and not (k == 'NamedAxis')]
  _, sp2, o2 = draw(layout(nrec=1, kinds=kinds + ['Height']))
  c.update(sp2=sp2, o2=o2)
  c['num'] = draw(st.sampled_from([2, 1, 2, 3, 4]))
  c['sub'] = draw(st.sampled_from([-1, -1, 0, 1, 3, 20]))
  c['w1'] = draw(st.sampled_from([True, True, False, 'lat', 'space'])); c['w2'] = draw(st.sampled_from([True, True, False, 'lat', 'space']))
  c['matrix'] = draw(st.sampled_from([None, None, 'cov', 'covariance', 'cor', 'correlation']))
  c['decay'] = draw(st.sampled_from([0.3, 0.5, 0.7])); c['scale'] = draw(st.sampled_from([1e-2, 1., 1e3, 1e-12, 1e10])); c['seed'] = draw(g.data_seed)
  c['iaxis'] = draw(st.sampled_from(['none', 'name', 'class', 'axis', 'int', 'name']))
  c['chunk'] = draw(st.sampled_from([0, 1, 2, 3, 7])); c['lazy'] = [draw(st.sampled_from(g.LAZY)) for _ in range(2)]
  c['names'] = [draw(st.sampled_from(['u', ''])), draw(st.sampled_from(['T', '']))]
  c['wneg'] = draw(st.booleans()); c['self'] = draw(st.integers(0, 7)) == 0; c['unit'] = draw(st.integers(0, 4)) == 0
  c['still'] = [draw(st.sampled_from([-1, -1, 0, 1, 5])) for _ in range(2)]      # a point that is always zero
  c['fac'] = [draw(st.sampled_from([1., 1., 1e-9, 1e7])) for _ in range(2)]       # units of the fields
  return c


def check(c, ctx):
  import pygeode as pyg
  import pygeode.svd as S
  from pygeode.timeaxis import Time
  np.random.seed(c['seed'] % 1000)
  t = g.build_axis(c['rec'])
  F = []
  nt = len(t)
  rng = np.random.default_rng(c['seed'])
  sps = [[g.build_axis(a) for a in c[s]] for s in ('sp1', 'sp2')]
  nx = [int(np.prod([len(a) for a in s])) for s in sps]
  if c['self']: sps[1], nx[1] = sps[0], nx[0]
  k = min(nt, *nx)
  num = min(c['num'], k)
  q = np.linalg.qr(rng.normal(size=(nt, nt)))[0]
  s = np.sqrt(c['scale']*c['decay']**np.arange(k))
  for f in range(2):
    w, W = weights(dict(w=c['w%d' % (f+1)], wneg=c['wneg']), [t], sps[f], c['seed'] + 7*f)
    sw = np.sqrt(W/W.mean()).ravel()
    B = np.linalg.qr(rng.normal(size=(nx[f], k)))[0]
    # places that do not vary together
    if c.get('unit'): B = np.eye(nx[f])[:, rng.permutation(nx[f])[:k]]
    if nx[f] > k and 0 <= c['still'][f] < nx[f]:
      z = c['still'][f]
      B = np.linalg.qr(rng.normal(size=(nx[f] - 1, k)))[0] if not c.get('unit') else np.eye(nx[f] - 1)[:, rng.permutation(nx[f] - 1)[:k]]
      B = np.insert(B, z, 0, axis=0)
    X = (q[:, :k]*s) @ B.T
    # what the two fields do not share
    if k == nx[f] and nt > k and f == 0: X = X + q[:, k:] @ rng.normal(size=(nt - k, nx[f]))*0.1*s[0]
    X = X/sw*c['fac'][f]
    F.append([X, sw, w])
  if c['self']: F[1] = F[0]
  vs = []
  for f in range(2):
    X, sw, w = F[f]
    axs = [t] + sps[f]
    o = c['o%d' % (f+1)] if not c['self'] else c['o1']
    v = pyg.Var([axs[i] for i in o], values=X.reshape([len(a) for a in axs]).transpose(o).copy(), name=c['names'][f])
    vs.append(g.lazify(v, c['lazy'][f]))
  keep = [v.get().copy() for v in vs]
  kw = {}
  h = c['iaxis']
  i0 = vs[0].whichaxis(t); i1 = vs[1].whichaxis(t)
  if h == 'none' and not isinstance(t, Time) and (i0, i1) != (0, 0): h = 'name'
  if h == 'none' and (vs[0].hasaxis(Time) != vs[1].hasaxis(Time)): h = 'name'
  if h == 'int' and i0 != i1: h = 'axis'
  if h != 'none': kw['iaxis'] = dict(name=t.name, axis=t, int=i0)[h] if h != 'class' else type(t)
  for f in range(2):
    if F[f][2] is not True: kw['weight%d' % (f+1)] = F[f][2]
  if c['matrix']: kw['matrix'] = c['matrix']
  if c['sub'] >= 0: kw['subspace'] = num + c['sub']
  cor = (c['matrix'] or '').startswith('cor')
  XW = [F[f][0]*F[f][1] for f in range(2)]
  SD = [np.ones(x.shape[1]) for x in XW]
  if cor:
    if nt < 3: return
    SD = [x.std(axis=0, ddof=1) for x in XW]
    SD = [np.where(x == 0, x.max(), x) for x in SD]
    if min(x.min()/x.max() for x in SD) < 1e-6: return
    # the definition of the standard deviation of a variable (checked elsewhere) scales everything alike
    sd0 = vs[0].stdev(t.name).get().ravel()*F[0][1]
    ratio = (sd0/SD[0]).max()
    SD = [x*ratio for x in SD]
    XW = [x/y for x, y in zip(XW, SD)]
  C = XW[0].T @ XW[1]
  sv = np.linalg.svd(C, compute_uv=False)
  if cor:
    r = sv[1:num+1]/sv[:num][:len(sv)-1]
    if np.any(r > 0.75) or sv[k-1] < 1e-3*sv[0]: return
  g.set_chunk(10**7 if not c['chunk'] else c['chunk']*max(nx))
  e1, p1, e2, p2 = quiet(S.SVD, vs[0], vs[1], num=num, **kw)
  ctx.label('correlation' if cor else 'covariance', 'self' if c['self'] else '', 'weights %s' % c['w1'], '%d modes' % num, h, 'pieces' if c['chunk'] else '')
  ctx.nontrivial(num > 1 or (np.ptp(F[0][1]) > 0))
  for f, (e, p) in enumerate([(e1, p1), (e2, p2)]):
    spf = [a for a in vs[f].axes if a != t]
    assert e.axes[0].name == 'order' and len(e.axes[0]) == num and list(e.axes[1:]) == spf, 'pattern %d: axes %s' % (f+1, e.axes)
    assert p.axes[0] == e.axes[0] and list(p.axes[1:]) == [t], 'coefficients %d: axes %s' % (f+1, p.axes)
    pre = c['names'][f] + '_' if c['names'][f] else ''
    assert e.name == pre + 'EOF' and p.name == pre + 'PC', '%r %r' % (e.name, p.name)
  E = []
  for f, e in enumerate([e1, e2]):
    x = e.get().reshape(num, nx[f])*F[f][1]/SD[f]
    E.append(x)
    g.assert_close(x @ x.T, np.eye(num), 0, 5e-3, 'patterns %d not orthonormal' % (f+1))
  A = [p1.get(), p2.get()]
  for f in range(2):
    big = np.abs(XW[f]).max()*np.sqrt(nx[f])
    g.assert_close(A[f], E[f] @ XW[f].T, 0, 2e-3*big, 'coefficients %d are not the projections' % (f+1))
  D = A[0] @ A[1].T
  g.assert_close(D, np.diag(sv[:num]), 0, 5e-3*sv[0], 'covariances of the coefficients; singular values %s' % sv[:num])
  g.assert_close(np.diag(D), sv[:num], 1e-2, 1e-4*sv[0], 'covariances are not the singular values')
  g.assert_close(C @ E[1].T, E[0].T*sv[:num], 0, 5e-3*sv[0], 'not singular vectors')
  for f in range(2): g.assert_eq(vs[f].get(), keep[f], 'field %d changed' % (f+1))


TESTS = [
  Test('modes', case(), check, quick=1500),
]
