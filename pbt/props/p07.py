"""P07: reshaping operations move data and axes together (model-based sequences)."""
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g

RULE = ('A case is a variable (0-4 axes, every element distinct) and a sequence of 1-6 operations: transpose, squeeze, extend, sort, '
        'rename, rename/replace axes, fill, unfill, cast, slice, load; the model keeps (kind, name, values, auxiliary arrays) per axis '
        'and a NumPy array. Non-trivial: at least two operations change the axes or data. Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['axes of a variable are of unrelated kinds (an axis must be identifiable), coordinates are distinct',
               'NaNs are not cast to integers; when an axis object (not a class) replaces an axis its name is not checked']

OPS = ['transpose', 'transpose', 'squeeze', 'extend', 'sorted', 'sorted', 'rename', 'rename_axes', 'replace_cls', 'replace_obj', 'replace_all',
       'fill', 'unfill', 'as_type', 'slice', 'slice', 'load', 'squeeze_kw', 'lazy']


@st.composite
def step(draw):
  k = draw(st.sampled_from(OPS))
  s = dict(k=k, r=draw(st.lists(st.integers(0, 60), min_size=4, max_size=4)), ref=draw(st.sampled_from(g.AXIS_REF)))
  if k == 'slice': s['sub'] = draw(g.subspec())
  if k in ('transpose', 'sorted'): s['perm'] = draw(st.permutations(list(range(5))))
  return s


@st.composite
def case(draw):
  v = draw(g.var(0, 4, 1, 4, nan=True, dtypes=['float64', 'float32', 'int32']))
  if draw(st.integers(0, 3)) == 0: v.update(kind='range', dtype=draw(st.sampled_from(g.INTS)))
  for a in v['axes']:
    # (an order of its own)
    if draw(st.integers(0, 4)) == 4: a['order'] = draw(st.sampled_from([-1, 1]))
  n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7]))
  return dict(v=v, lazy=draw(st.sampled_from(g.LAZY)), steps=draw(st.lists(step(), min_size=n, max_size=n)),
              chunk=draw(st.sampled_from(g.MAXSIZES)), sub=draw(g.subspec()))


class Ax:
  """Model of an axis."""
  def __init__(self, a, like=None):
    self.cls = type(a).__name__; self.name = a.name; self.values = np.array(a.values)
    self.aux = {k: np.array(v) for k, v in a.auxarrays.items()}
    self.order = a.plotatts.get('plotorder', 1)
    self.time = hasattr(a, 'startdate'); self.anyname = False
  def take(self, p):
    import copy
    b = copy.copy(self); p = np.array(p, 'i8')
    b.values = self.values[p]; b.aux = {k: v[p] for k, v in self.aux.items()}
    return b
  def check(self, a, msg):
    assert type(a).__name__ == self.cls, '%s: axis class %s, expected %s' % (msg, type(a).__name__, self.cls)
    if not self.anyname: assert a.name == self.name, '%s: axis name %r, expected %r' % (msg, a.name, self.name)
    g.assert_close(np.asarray(a.values, 'd'), np.asarray(self.values, 'd'), 1e-12, 1e-9, '%s: values of axis %s' % (msg, self.name))
    assert set(a.auxarrays) == set(self.aux), '%s: auxiliary arrays %s, expected %s' % (msg, sorted(a.auxarrays), sorted(self.aux))
    for k, v in self.aux.items(): g.assert_close(np.asarray(a.auxarrays[k], 'd'), np.asarray(v, 'd'), 1e-12, 1e-12, '%s: aux %s' % (msg, k))


def refs(v, idx, how): return [g.axis_ref(v, i, how) for i in idx]


def apply_step(s, v, axs, arr, ctx, n, seq):
  """-> (new variable, model axes, model array), or None when the step does not apply."""
  import pygeode as pyg
  k, r = s['k'], s['r']; nd = len(axs)
  if k == 'lazy': return g.lazify(v, 'lazy'), axs, arr
  if k == 'load': return v.load(pbar=None), axs, arr
  if k == 'transpose':
    if nd < 1: return None
    p = [i for i in s['perm'] if i < nd]; m = 1 + r[0] % nd
    full = p[:m] + [i for i in range(nd) if i not in p[:m]]
    return v.transpose(*refs(v, p[:m], s['ref'])), [axs[i] for i in full], arr.transpose(full)
  if k == 'squeeze':
    one = [i for i in range(nd) if len(axs[i].values) == 1]
    if r[0] % 2:
      if not one: return None
      q = one[:1 + r[1] % len(one)]
      if r[2] % 2: out = v.squeeze(refs(v, q, s['ref']))
      else: out = v.squeeze(*refs(v, q, s['ref']))
    else: q = one; out = v.squeeze()
    return out, [a for i, a in enumerate(axs) if i not in q], arr.reshape([m for i, m in enumerate(arr.shape) if i not in q])
  if k == 'squeeze_kw':
    if nd < 1: return None
    i = r[0] % nd; j = r[1] % arr.shape[i]
    if axs[i].anyname: return None
    # without explicit axes, every degenerate axis goes as well
    gone = [i] + [q for q in range(nd) if arr.shape[q] == 1]
    return (v.squeeze(**{axs[i].name: float(axs[i].values[j])}), [a for q, a in enumerate(axs) if q not in gone],
            np.take(arr, [j], axis=i).reshape([m for q, m in enumerate(arr.shape) if q not in gone]))
  if k == 'extend':
    if nd > 4: return None
    pos = r[0] % (nd + 1); new = []
    for q in range(1 + r[1] % 2):
      vals = np.arange(1 + (r[2] + q) % 3)*2. + q
      new.append(pyg.NamedAxis(vals, 'e%d_%d' % (n, q)))
    out = v.extend(pos, *new) if r[3] % 2 else v.extend(pos, new)
    sh = arr.shape[:pos] + (1,)*len(new) + arr.shape[pos:]
    a = arr.reshape(sh)
    full = list(sh)
    for q, x in enumerate(new): full[pos + q] = len(x)
    return out, axs[:pos] + [Ax(x) for x in new] + axs[pos:], np.broadcast_to(a, full)
  if k == 'sorted':
    p = [i for i in s['perm'] if i < nd]
    m = r[0] % (nd + 1); p = p[:m]
    kw = {}
    for q, i in enumerate(p): kw[i] = (r[1 + q % 3] % 3) - 1
    pos = [i for i in p if kw[i] == 0]; key = {axs[i].name: kw[i] for i in p if kw[i] != 0 and not axs[i].anyname}
    p = [i for i in p if kw[i] == 0 or not axs[i].anyname]
    if s['ref'] == 'class': pos_refs = refs(v, pos, 'name')
    else: pos_refs = refs(v, pos, s['ref'])
    if s['ref'] == 'axis': pos_refs = refs(v, pos, 'int')
    out = v.sorted(*pos_refs, **key)
    if not p: p = list(range(nd)); kw = {i: 0 for i in p}
    axs = list(axs)
    for i in p:
      o = kw[i] or axs[i].order
      idx = np.argsort(axs[i].values, kind='stable')
      if o < 0: idx = idx[::-1]
      arr = np.take(arr, idx, axis=i); axs[i] = axs[i].take(idx)
    return out, axs, arr
  if k == 'rename': return v.rename('n%d' % n), axs, arr
  if k == 'rename_axes':
    if nd < 1: return None
    import copy
    m = {}; axs = list(axs)
    for q in range(min(nd, 1 + r[1] % 2)):
      i = (r[0] + q) % nd
      if axs[i].anyname or axs[i].name in m: continue
      m[axs[i].name] = 'r%d_%d' % (n, q)
      b = copy.copy(axs[i]); b.name = m[axs[i].name]; axs[i] = b
    if r[2] % 3 == 0: out = v.rename_axes(ignore_mismatch=True, nothere='x', **m)
    elif r[2] % 3 == 1: out = v.rename_axes(axisdict=m)
    else: out = v.rename_axes(**m)
    return out, axs, arr
  if k == 'replace_cls':
    c = {'Lat': 'YAxis', 'Lon': 'XAxis', 'Pres': 'ZAxis', 'Height': 'ZAxis'}
    i = [i for i in range(nd) if axs[i].cls in c]
    if not i: return None
    i = i[r[0] % len(i)]
    if axs[i].anyname: return None
    cls = getattr(pyg, c[axs[i].cls]); keep = r[1] % 2 == 0
    out = v.replace_axes({axs[i].name: cls}, keep_old_name=keep) if r[2] % 2 else v.replace_axes(keep_old_name=keep, **{axs[i].name: cls})
    b = Ax(cls(axs[i].values, **({'name': axs[i].name} if keep else {}))); b.anyname = not keep
    return out, axs[:i] + [b] + axs[i+1:], arr
  if k in ('replace_obj', 'replace_all'):
    if nd < 1: return None
    new = {}
    for q in range(nd if k == 'replace_all' else 1 + r[1] % 2):
      i = (r[0] + q) % nd
      if axs[i].anyname: continue
      m = len(axs[i].values)
      new[i] = pyg.NamedAxis(np.arange(m)[::-1]*3. + r[2], 'x%d_%d' % (n, q))
    if k == 'replace_all':
      if len(new) < nd: return None
      out = v.replace_axes(newaxes=[new[i] for i in range(nd)])
    else:
      d = {axs[i].name: new[i] for i in new}
      out = v.replace_axes(d, keep_old_name=False) if r[3] % 2 else v.replace_axes(keep_old_name=False, **d)
    return out, [Ax(new[i]) if i in new else axs[i] for i in range(nd)], arr
  if k == 'fill':
    if arr.dtype.kind != 'f': return None
    f = [-5, 0, 2.5][r[0] % 3]
    return v.fill(f), axs, np.where(np.isnan(arr), arr.dtype.type(f), arr)
  if k == 'unfill':
    f = int(r[0] % 12)
    if r[1] % 2 and arr.size: f = arr.ravel()[r[0] % arr.size].item()
    if f != f: return None
    d = np.dtype(dict(f2='f4', f4='f4', f8='f8', i1='f4', u1='f4', i2='f4', u2='f4').get(arr.dtype.str[1:], 'f8'))
    a = np.array(arr, d)
    return v.unfill(f), axs, np.where(a == f, d.type(np.nan), a)
  if k == 'as_type':
    d = ['float64', 'float32', 'int32', 'int64'][r[0] % 4]
    if arr.dtype.kind == 'f' and d.startswith('i') and not np.all(np.abs(arr) < 2**31 - 999): return None
    return v.as_type(d), axs, arr.astype(d)
  if k == 'slice':
    e, pos = g.resolve_sub(s['sub'], arr.shape)
    pos = [list(dict.fromkeys(p)) for p in pos]
    e = tuple(p if not isinstance(x, slice) else x for x, p in zip(e, pos))
    if not nd: return None
    return v.slice[e], [a.take(p) for a, p in zip(axs, pos)], g.subset(arr, pos)
  raise ValueError(k)


def compare(v, axs, arr, msg):
  assert len(v.axes) == len(axs), '%s: axes %s, expected %s' % (msg, [a.name for a in v.axes], [a.name for a in axs])
  for a, m in zip(v.axes, axs): m.check(a, msg)
  assert v.shape == arr.shape, '%s: announced shape %s, expected %s' % (msg, v.shape, arr.shape)
  got = v.get()
  assert g.same_dtype(got.dtype, v.dtype, arr.dtype), '%s: dtype %s announced %s, expected %s' % (msg, got.dtype, v.dtype, arr.dtype)
  g.assert_eq(got, arr, msg)


def check(c, ctx):
  g.set_chunk(c['chunk'])
  arr = g.var_data(c['v']); v = g.build_var(c['v']); axs = [Ax(a) for a in v.axes]
  v = g.lazify(v, c['lazy'])
  did = []
  for n, s in enumerate(c['steps']):
    out = apply_step(s, v, axs, arr, ctx, n, did)
    if out is None: continue
    v, axs, arr = out
    did.append(s['k']); ctx.label(s['k'])
    compare(v, axs, arr, 'after %s' % ', '.join(did))
  if not did: return
  ctx.label('%d steps' % len(did)); ctx.nontrivial(len([k for k in did if k not in ('load', 'lazy', 'rename')]) >= 2 and arr.size > 1)
  g.check_part(v, np.array(arr), c['sub'], 'after %s' % did, exact=True)


# ---- inverse pairs

@st.composite
def icase(draw):
  return dict(v=draw(g.var(1, 4, 1, 4, nan=True)), perm=draw(st.permutations(list(range(4)))), pos=draw(st.integers(0, 4)), n=draw(st.integers(1, 3)),
              f=draw(st.integers(0, 20)), lazy=draw(st.sampled_from(g.LAZY)), how=draw(st.sampled_from(['transpose', 'extend', 'fill', 'sort'])),
              chunk=draw(st.sampled_from(g.MAXSIZES)))


def check_i(c, ctx):
  import pygeode as pyg
  g.set_chunk(c['chunk'])
  arr = g.var_data(c['v']); v0 = g.build_var(c['v']); v = g.lazify(v0, c['lazy']); nd = arr.ndim
  axs = [Ax(a) for a in v0.axes]; ctx.label(c['how']); ctx.nontrivial(arr.size > 1)
  if c['how'] == 'transpose':
    p = [i for i in c['perm'] if i < nd]
    r = v.transpose(*p).transpose(*[p.index(i) for i in range(nd)])
  elif c['how'] == 'extend':
    new = [pyg.NamedAxis([float(i)], 'e%d' % i) for i in range(c['n'])]
    r = v.extend(min(c['pos'], nd), *new)
    r = r.squeeze(*[a.name for a in new])
  elif c['how'] == 'fill':
    if arr.dtype.kind != 'f' or np.isnan(arr).any(): return
    r = v.unfill(c['f']).fill(c['f'])
  else:
    # sorting twice is sorting once; a descending sort is the reverse of an ascending one
    n = axs[0].name
    a, b = v.sorted(**{n: 1}), v.sorted(**{n: -1})
    assert np.all(np.diff(a.axes[0].values) > 0), 'sorted axis is not ascending'
    g.assert_eq(a.get(), b.get()[::-1], 'descending is not the reverse of ascending')
    g.assert_eq(a.sorted(**{n: 1}).get(), a.get(), 'sorting twice')
    # back into the original order, by coordinate
    order = [int(np.argmin(np.abs(np.asarray(a.axes[0].values, 'd') - x))) for x in np.asarray(v.axes[0].values, 'd')]
    r = a.slice[(order,)]
  compare(r, axs, arr, c['how'] + ' and back')


TESTS = [
  Test('sequence', case(), check, quick=3000),
  Test('inverse', icase(), check_i, quick=1200),
]
