"""P28: plots show the values of a variable at its coordinates."""
import contextlib, os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from ..harness import Test
from .. import gens as g

RULE = ('A case is a variable of one or two axes (with axes of length one mixed in, drawn metadata: scale factor, offset, names, titles, units, axis scale and order; drawn storage) and a kind of plot with its options; or a list of such variables for the '
        'plots of several; contour intervals and data; colour dictionaries; nested tables of panels with sizes; a history of additions to and removals from a panel. The plot is drawn on an off-screen canvas and what matplotlib was given, or what the figure '
        'contains, is compared with numpy arithmetic on the case. Non-trivial: a field or line of distinct values (plots), two or more panels or levels (the others). Distinct: by the JSON text of the case.')
ASSUMPTIONS = ['the drawing done by matplotlib itself is right', 'maps are drawn without coast lines (which need a network) and without basemap',
               'values of a variable drawn along an axis are not all equal or all missing', 'axes on a logarithmic scale have positive scaled coordinates']

ZAX = ('Pres', 'Height', 'Hybrid', 'ZAxis')
RECORD = ('contourf', 'contour', 'quiver', 'streamplot', 'pcolor', 'hist', 'scatter', 'plot')


def mpl():
  import matplotlib
  matplotlib.use('Agg')
  from matplotlib import pyplot
  pyplot.ioff()
  return pyplot


@contextlib.contextmanager
def recording():
  """Records what matplotlib is asked to draw: a list of (method, axes, positional, keyword arguments)."""
  plt = mpl()
  from matplotlib.axes import Axes
  from cartopy.mpl.geoaxes import GeoAxes
  calls = []
  # (what a map is asked to draw, not what cartopy makes of it)
  old = {(cls, n): cls.__dict__[n] for cls in (Axes, GeoAxes) for n in RECORD if n in cls.__dict__}
  depth = [0]
  def wrap(n, do):
    def f(self, *args, **kw):
      if depth[0] == 0: calls.append((n, self, args, dict(kw)))
      depth[0] += 1
      try: return do(self, *args, **kw)
      finally: depth[0] -= 1
    return f
  try:
    for (cls, n), do in old.items(): setattr(cls, n, wrap(n, do))
    yield calls
  finally:
    for (cls, n), do in old.items(): setattr(cls, n, do)
    plt.close('all')


# ------------------------------------------------------------------ cases

@st.composite
def atts(draw, log=False, order=True):
  a = {}
  if draw(st.integers(0, 2)) == 0: a['scalefactor'] = draw(st.sampled_from([2, 0.5, 1000., 0.001] if log else [2, 0.5, -1., 1000., 86400, -0.25]))
  if draw(st.integers(0, 2)) == 0: a['offset'] = draw(st.sampled_from([1., 2, 0] if log else [1., -273.15, 10, 0]))
  if draw(st.integers(0, 3)) == 0: a['plotname'] = draw(st.sampled_from(['P', 'name of it']))
  if draw(st.integers(0, 5)) == 0: a['plottitle'] = draw(st.sampled_from(['', 'A title']))
  if draw(st.integers(0, 3)) == 0: a['plotunits'] = draw(st.sampled_from(['', 'mm/day']))
  if order and draw(st.integers(0, 3)) == 0: a['plotorder'] = draw(st.sampled_from([1, -1]))
  return a


@st.composite
def plotted(draw, nd, kinds=None, style=None, minn=2, maxn=7, nan=True, kind=None, regular=False, extra=True):
  """A variable with nd axes of two or more points, and up to two of one point."""
  kinds = kinds or g.SAFE + ['Station']*(nd == 1 and not regular)
  c = draw(g.var(nd, nd, minn, maxn, kind=kind or draw(st.sampled_from(['perm', 'quarter', 'real'])), nan=False, kinds=kinds, aux=False, style='asc' if regular else style))
  while len(c['axes']) < nd: c['axes'].append(draw(g.axis(kind='NamedAxis', minn=minn, maxn=maxn, aux=False, name='w%d' % len(c['axes']))))
  c['axes'] = c['axes'][:nd]
  for a in c['axes']:
    if regular:
      a['v'] = [a['v'][0] + i*(2 if a['k'] != 'Index' else 1) for i in range(len(a['v']))] if a['k'] != 'Index' else list(range(len(a['v'])))
    log = a['k'] in ('Pres', 'Hybrid')
    a['plotatts'] = draw(atts(log=log))
    if regular and log: a['plotatts']['plotscale'] = 'linear'
    if regular and a['plotatts'].get('scalefactor', 1) < 0: a['plotatts']['scalefactor'] = 2
  if extra:
    for k in draw(st.lists(st.sampled_from(['e1', 'e2', 'Lon', 'Pres', 'StandardTime']), max_size=2, unique=True)):
      have = [a['k'] for a in c['axes']]
      if k[0] == 'e': a = draw(g.axis(kind='NamedAxis', n=1, aux=False, name=k))
      elif any(h == k or h in g.TIMES and k in g.TIMES or h in ZAX and k in ZAX for h in have): continue
      else: a = draw(g.axis(kind=k, n=1, aux=False))
      c['axes'].insert(draw(st.integers(0, len(c['axes']))), a)
  c['plotatts'] = draw(atts())
  if c['dtype'].startswith('float') and nan and draw(st.integers(0, 3)) == 0: c['nan'] = 0.15
  return c


def build(c):
  axs = []
  for a in c['axes']:
    ax = g.build_axis(a)
    ax.plotatts.update(a.get('plotatts') or {})
    axs.append(ax)
  v = g.build_var(c, axs)
  v.plotatts.update(c.get('plotatts') or {})
  return v


def state(*vs):
  """All the attributes of variables and their axes (drawing leaves them as they were)."""
  return [(dict(v.atts), dict(v.plotatts), [(dict(a.atts), dict(a.plotatts), a.values.tolist()) for a in v.axes]) for v in vs]


def scaled(x, p):
  x = np.asarray(x)
  if p.get('scalefactor') is not None: x = x*p['scalefactor']
  if p.get('offset') is not None: x = x + p['offset']
  return np.asarray(x, 'd')


def coords(v, a):
  """Scaled coordinates of an axis of v."""
  return scaled(a['v'] if a['k'] != 'Station' else np.arange(len(a['v'])), a.get('plotatts') or {})


def deep(c): return [i for i, a in enumerate(c['axes']) if len(a['v']) > 1]


def field(c):
  """Scaled values along the axes of more than one point."""
  f = scaled(g.var_data(c), c.get('plotatts') or {})
  return f.reshape([len(c['axes'][i]['v']) for i in deep(c)])


def usable(c):
  """Whether values can be drawn along an axis, with distinct coordinates."""
  f = field(c)
  f = f[np.isfinite(f)]
  return len(set(f.tolist())) > 1


def effective(v):
  p = {k: x for k, x in dict(type(v).plotatts, **v.plotatts).items() if x is not None}
  u = v.units
  if u in ('', None) and 'units' in v.atts: u = v.atts['units']
  p.setdefault('plotname', v.name); p.setdefault('plotunits', u)
  return p


def label_of(v):
  p = effective(v)
  if 'plottitle' in p: return p['plottitle']
  return (p['plotname'] or '') + (' [%s]' % p['plotunits'] if p['plotunits'] not in (None, '') else '')


def title_of(v):
  if 'plottitle' in effective(v): return effective(v)['plottitle']
  return label_of(v) + ''.join(', ' + a.formatvalue(a.values[0]) for a in v.axes if len(a) == 1)


def limits(v, x):
  x = x[np.isfinite(x)]
  return (min(x), max(x))[::effective(v).get('plotorder', 1)]


def near(a, b, msg):
  a, b = np.asarray(np.ma.filled(np.ma.asarray(a, 'd'), np.nan)), np.asarray(b, 'd')
  assert a.shape == b.shape, '%s: shape %s and should be %s' % (msg, a.shape, b.shape)
  fin = b[np.isfinite(b)]
  if not np.allclose(a, b, rtol=2e-6, atol=1e-6*(np.max(np.abs(fin)) if fin.size else 1) + 1e-12, equal_nan=True):
    raise AssertionError('%s: %s and should be %s' % (msg, g.short(a), g.short(b)))


def check_axis(ax, which, v, x, lbl, msg, lims=True):
  """Limits, scale and label of one side of a rendered panel."""
  get = lambda n: getattr(ax, 'get_%s%s' % (which, n))()
  if lims:
    near(get('lim'), limits(v, x), '%s: limits of the %s axis' % (msg, which))
    s = effective(v).get('plotscale', 'linear')
    assert get('scale') == s, '%s: scale of the %s axis is %r and should be %r' % (msg, which, get('scale'), s)
  e = label_of(v) if lbl else ''
  assert get('label') == e, '%s: label of the %s axis is %r and should be %r' % (msg, which, get('label'), e)


def swapped_field(c, transpose):
  """Which of the two axes of a field is horizontal: the first, unless it is a vertical coordinate or the plot is a map (None), or told otherwise."""
  a, b = [c['axes'][i]['k'] for i in deep(c)]
  if transpose is None: return (a in ZAX) != (a == 'Lat' and b == 'Lon')
  return bool(transpose)


def check_field(args, c, swap, fields, msg, meshed=False, every=1):
  """args = x, y, f1, f2 ... as given to matplotlib; fields = the arrays (on the two axes of the case) they should show."""
  i, j = deep(c)
  X, Y = coords(None, c['axes'][i])[::every], coords(None, c['axes'][j])[::every]
  if swap: X, Y = Y, X
  x, y = np.asarray(args[0], 'd'), np.asarray(args[1], 'd')
  if x.ndim == 2:
    assert np.all(x == x[:1]) and np.all(y == y[:, :1]), '%s: the mesh is not one of rows and columns' % msg
    x, y = x[0], y[:, 0]
  # (in any order of the coordinates)
  px, py = np.argsort(x, kind='stable'), np.argsort(y, kind='stable')
  qx, qy = np.argsort(X, kind='stable'), np.argsort(Y, kind='stable')
  near(x[px], X[qx], '%s: horizontal coordinates' % msg); near(y[py], Y[qy], '%s: vertical coordinates' % msg)
  for k, f in enumerate(fields):
    f = f[::every, ::every]
    if not swap: f = f.T        # rows are vertical coordinates
    z = np.ma.filled(np.ma.asarray(args[2 + k], 'd'), np.nan)
    assert z.shape == f.shape, '%s: field of shape %s and should be %s' % (msg, z.shape, f.shape)
    near(z[py][:, px], f[qy][:, qx], '%s: values' % msg)


def same_colour(line, fmt):
  from matplotlib.colors import same_color
  return same_color(line.get_color(), fmt[0])


STORE = st.sampled_from(g.LAZY)

# ------------------------------------------------------------------ lines

@st.composite
def line_case(draw):
  c = draw(plotted(1))
  return dict(v=c, how=draw(STORE), tr=draw(st.booleans()), fmt=draw(st.sampled_from(['', 'r--', 'ko'])), lblx=draw(st.sampled_from([True, True, False])), lbly=draw(st.sampled_from([True, True, False])),
              via=draw(st.sampled_from(['vplot', 'showvar'])), extra=draw(st.sampled_from([{}, {'lw': 3.5}, {'scalex': True, 'scaley': True}])), pickled=draw(st.booleans()))


def again(ax, on):
  """The plot, or what comes back when it is saved and loaded."""
  if not on: return ax
  from pygeode.plot import wrappers as wr
  d = tempfile.mkdtemp(prefix='p28')
  try:
    fn = os.path.join(d, 'p.plot')
    wr.save(ax, fn)
    return wr.load(fn)
  finally: shutil.rmtree(d)


def check_line(case, ctx):
  import pygeode as pyg
  c = case['v']
  if not usable(c): return
  v = build(c); lv = g.lazify(v, case['how'])
  a = c['axes'][deep(c)[0]]
  X = [x for x in v.axes if len(x) > 1][0]
  x, y = coords(v, a), field(c)
  vert = (a['k'] in ZAX) != case['tr']
  kw = dict(case['extra'])
  with recording() as calls:
    ax = getattr(pyg, case['via'])(lv, fmt=case['fmt'], transpose=case['tr'], lblx=case['lblx'], lbly=case['lbly'], **kw)
    fig = again(ax, case['pickled']).render()
    assert len(fig.axes) == 1 and len(fig.axes[0].lines) == 1, 'a line plot of one variable should have one line'
    p = fig.axes[0]; l = p.lines[0]
    gx, gy = l.get_xdata(), l.get_ydata()
    if vert: gx, gy = gy, gx
    near(gx, x, 'coordinates of the line'); near(gy, y, 'values of the line')
    if 'lw' in kw: assert l.get_linewidth() == kw['lw']
    if case['fmt']: assert same_colour(l, case['fmt']), 'the format %r gave the colour %r' % (case['fmt'], l.get_color())
    both = 'scalex' in kw
    check_axis(p, 'y' if vert else 'x', X, x, case['lbly' if vert else 'lblx'], 'coordinate')
    check_axis(p, 'x' if vert else 'y', v, y, case['lblx' if vert else 'lbly'], 'variable', lims=both)
    assert p.get_title() == title_of(v), 'title is %r and should be %r' % (p.get_title(), title_of(v))
  ctx.label(a['k'], 'vertical' if vert else 'horizontal', case['how'], 'saved' if case['pickled'] else '', 'missing values' if c.get('nan') else '', *['variable ' + k for k in c['plotatts']])
  ctx.nontrivial()


@st.composite
def lines_case(draw):
  n = draw(st.integers(1, 4))
  c = draw(plotted(1))
  cs = []
  for i in range(n):
    d = dict(c, seed=draw(g.data_seed), name='v%d' % i) if draw(st.booleans()) else draw(plotted(1))
    cs.append(dict(d, name='v%d' % i))
  return dict(vs=cs, fmts=draw(st.sampled_from([None, 'list', 'one'])), labels=draw(st.sampled_from([None, 'list'])), via=draw(st.sampled_from(['showlines', 'held', 'showcol'])))


def check_lines(case, ctx):
  import pygeode as pyg
  cs = case['vs']
  if not all(usable(c) for c in cs): return
  via = case['via']
  if via == 'showlines' and any(c['axes'][deep(c)[0]]['k'] in ZAX for c in cs) and not all(c['axes'][deep(c)[0]]['k'] in ZAX for c in cs): via = 'held'
  if via == 'showcol' and any(c['axes'][deep(c)[0]]['k'] in ZAX for c in cs): via = 'held'     # a common vertical range is for values
  vs = [build(c) for c in cs]; before = state(*vs)
  fmts = None if case['fmts'] is None else ['r', 'b--', 'g', 'k:'][:len(vs)] if case['fmts'] == 'list' else ['r-']*len(vs)
  labels = ['L%d' % i for i in range(len(vs))] if case['labels'] else None
  with recording() as calls:
    if via == 'showlines':
      ax = pyg.showlines(vs, fmts=fmts, labels=labels)
    elif via == 'held':
      ax = pyg.vplot(vs[0])
      for w in vs[1:]: pyg.vplot(w, axes=ax, hold=True)
    else: ax = pyg.showcol(vs)
    fig = ax.render()
    lines = [l for p in fig.axes for l in p.lines]
    assert state(*vs) == before, 'drawing changed attributes of a variable or its axes'
    assert len(lines) == len(vs), 'there are %d lines for %d variables' % (len(lines), len(vs))
    alldata = []
    for c, l in zip(cs, lines):
      a = c['axes'][deep(c)[0]]
      gx, gy = l.get_xdata(), l.get_ydata()
      if a['k'] in ZAX: gx, gy = gy, gx
      near(gx, coords(None, a), 'coordinates of the line of %s' % c['name']); near(gy, field(c), 'values of the line of %s' % c['name'])
      alldata.append(field(c))
    if via == 'showlines':
      if fmts: assert all(same_colour(l, f) for l, f in zip(lines, fmts)), 'formats %r gave colours %r' % (fmts, [l.get_color() for l in lines])
      got = [t.get_text() for t in fig.axes[0].get_legend().get_texts()]
      assert got == (labels or [v.name for v in vs]), 'the legend says %r' % (got,)
    elif via == 'held':
      c = cs[0]; a = c['axes'][deep(c)[0]]
      check_axis(fig.axes[0], 'y' if a['k'] in ZAX else 'x', [x for x in vs[0].axes if len(x) > 1][0], coords(None, a), True, 'first of several')
      assert fig.axes[0].get_title() == title_of(vs[0]), 'title is %r and should be that of the first variable, %r' % (fig.axes[0].get_title(), title_of(vs[0]))
    else:
      assert len(fig.axes) == len(vs), 'there are %d panels for %d variables' % (len(fig.axes), len(vs))
      if not any(np.isnan(f).any() for f in alldata):
        lim = (min(np.min(f) for f in alldata), max(np.max(f) for f in alldata))
        for p in fig.axes: near(p.get_ylim(), lim, 'common range of the panels')
      check_panels(fig.axes, 1)
      for i, (p, v, c) in enumerate(zip(fig.axes, vs, cs)):
        assert p.get_title() == title_of(v), 'title of panel %d is %r and should be %r' % (i, p.get_title(), title_of(v))
        X = [x for x in v.axes if len(x) > 1][0]
        check_axis(p, 'x', X, coords(None, c['axes'][deep(c)[0]]), i == len(vs) - 1, 'panel %d' % i)
  ctx.label(via, '%d variables' % len(vs)); ctx.nontrivial(len(vs) > 1)


def check_panels(axes, ncol):
  """Panels are laid out row by row, left to right and downwards, and do not overlap."""
  bs = [p.get_position() for p in axes]
  for i, b in enumerate(bs):
    for j, d in enumerate(bs[:i]):
      x, y = min(b.x1, d.x1) - max(b.x0, d.x0), min(b.y1, d.y1) - max(b.y0, d.y0)
      assert x <= 1e-9 or y <= 1e-9, 'panels %d and %d overlap' % (j, i)
    if i % ncol: assert b.x0 > bs[i-1].x0 + 1e-9 and abs((b.y0 + b.y1) - (bs[i-1].y0 + bs[i-1].y1)) < 0.2, 'panel %d is not to the right of the one before' % i
    if i >= ncol: assert b.y1 < bs[i-ncol].y0 + 1e-9, 'panel %d is not below the one above' % i

# ------------------------------------------------------------------ histograms and scatter plots

@st.composite
def spread_case(draw):
  c = draw(plotted(draw(st.integers(1, 2)), nan=False))
  return dict(v=c, how=draw(STORE), via=draw(st.sampled_from(['vhist', 'vscatter'])), seed=draw(g.data_seed), p2=draw(atts()), bins=draw(st.integers(2, 6)))


def check_spread(case, ctx):
  import pygeode as pyg
  c = case['v']; d = dict(c, seed=case['seed'], name='other', plotatts=case['p2'])
  if not (usable(c) and usable(d)): return
  v, w = build(c), build(d)
  f, h = field(c), field(d)
  with recording() as calls:
    if case['via'] == 'vhist':
      fig = pyg.vhist(g.lazify(v, case['how']), bins=case['bins']).render()
      near(np.sort(np.ravel(calls[0][2][0])), np.sort(f.ravel()), 'values counted in the histogram')
      p = fig.axes[0]
      tot = sum(q.get_height() for q in p.patches)
      assert tot == f.size, 'the bars count %s values of %d' % (tot, f.size)
      check_axis(p, 'x', v, f.ravel(), True, 'histogram')
      assert p.get_title() == title_of(v)
    else:
      fig = pyg.vscatter(g.lazify(v, case['how']), w).render()
      p = fig.axes[0]
      near(p.collections[0].get_offsets(), np.stack([f.ravel(), h.ravel()], 1), 'points')
      check_axis(p, 'x', v, f.ravel(), True, 'abscissa'); check_axis(p, 'y', w, h.ravel(), True, 'ordinate')
  ctx.label(case['via'], case['how']); ctx.nontrivial()

# ------------------------------------------------------------------ fields

@st.composite
def field_case(draw):
  via = draw(st.sampled_from(['vcontour', 'vcontour', 'showvar', 'showvar', 'vquiver', 'vstreamplot']))
  c = draw(plotted(2, kinds=draw(st.sampled_from([g.SAFE, g.SAFE, ['Lat', 'Lon', 'Pres', 'StandardTime'], ['Lat', 'Lon']])), regular=via == 'vstreamplot', nan=via in ('vcontour', 'showvar')))
  case = dict(v=c, how=draw(STORE), via=via, tr=draw(st.sampled_from([None, None, True, False])), lblx=draw(st.sampled_from([True, True, False])), lbly=draw(st.sampled_from([True, True, False])), pickled=draw(st.integers(0, 3)) == 0,
              map=draw(st.sampled_from([False, False, True])))
  if via in ('vcontour', 'showvar'):
    case['clevs'] = draw(st.sampled_from([None, 'list', 'int'])); case['clines'] = draw(st.sampled_from([None, 'list', 'int']))
    case['type'] = draw(st.sampled_from([None, 'clf', 'cl', 'log2s'])); case['bar'] = draw(st.sampled_from([None, 'r', 'l', 'b', 't', False]))
  else:
    case['seed'] = draw(g.data_seed); case['color'] = draw(st.booleans()); case['p2'] = draw(atts())
  return case


def levels(f, n):
  f = f[np.isfinite(f)]
  return [float(x) for x in np.linspace(f.min(), f.max(), n)]


def check_fields(case, ctx):
  import pygeode as pyg
  c = case['v']
  if not usable(c): return
  v = build(c); lv = g.lazify(v, case['how']); before = state(v, lv)
  f = field(c); via = case['via']; tr = case['tr']
  swap = swapped_field(c, tr)
  i, j = deep(c)
  hor, ver = (j, i) if swap else (i, j)
  kinds = c['axes'][hor]['k'], c['axes'][ver]['k']
  kw = dict(transpose=tr, lblx=case['lblx'], lbly=case['lbly'])
  ismap = kinds == ('Lon', 'Lat') and case['map'] and via != 'vstreamplot'
  if ismap:
    # a map keeps to its own limits: only where coordinates are on the globe
    if any(case['v']['axes'][k].get('plotatts', {}).get(s) not in (None, 1, 0) for k in (hor, ver) for s in ('scalefactor', 'offset')): ismap = False
  if kinds == ('Lon', 'Lat'):
    if ismap: kw['mapdecor'] = dict(coastlines=False)
    else: kw['map'] = False
  with recording() as calls:
    exp = {}; fields = [f]
    if via in ('vcontour', 'showvar'):
      for k, name in (('clevs', 'contourf'), ('clines', 'contour')):
        if case[k] == 'list': kw[k] = levels(f, 4)
        elif case[k] == 'int': kw[k] = 5
        if k in kw: exp[name] = kw[k]
      if not exp and via == 'vcontour': exp['contourf'] = None
      if via == 'showvar':
        if not exp:
          if case['type']: kw['type'] = case['type']
          if case['type'] == 'log2s':
            kw['cmin'] = float(np.nanmax(np.abs(f)))/100. + 1e-3
          exp = {'contour': None} if case['type'] == 'cl' else {'contourf': None, 'contour': None}
        if case['bar'] is False: kw['colorbar'] = False
        elif case['bar']: kw['colorbar'] = dict(pos=case['bar'])
      with quiet(): ax = getattr(pyg, via)(lv, **kw)
    else:
      d = dict(c, seed=case['seed'], name='other', plotatts=case['p2'])
      w = build(d); fields = [f, field(d)]
      args = [lv, w]
      if via == 'vquiver' and case['color']: args.append(build(dict(c, seed=case['seed'] + 1))); fields.append(field(dict(c, seed=case['seed'] + 1)))
      exp[via[1:]] = None
      ax = getattr(pyg, via)(*args, **kw)
    fig = again(ax, case['pickled']).render()
    got = [n for n, *_ in calls]
    assert sorted(got) == sorted(exp), 'drawn with %s and should be with %s' % (got, sorted(exp))
    for n, self, a, k in calls:
      nf = 1 if n.startswith('contour') else len(fields)
      check_field(a, c, swap, fields[:nf], n)
      if exp[n] is not None:
        lev = a[3] if len(a) > 3 else k.get('levels')
        assert np.ndim(lev) == np.ndim(exp[n]) and np.all(np.asarray(lev) == np.asarray(exp[n])), '%s at levels %r and should be at %r' % (n, lev, exp[n])
    p = calls[0][1]
    assert all(q[1] is p for q in calls), 'drawn in different panels'
    assert state(v, lv) == before, 'drawing changed attributes of the variable or its axes'
    if ismap:
      import cartopy.crs as ccrs
      for n, self, a, k in calls: assert k.get('transform') == ccrs.PlateCarree(), '%s: coordinates taken for %r and not for longitudes and latitudes' % (n, k.get('transform'))
    axs = dict(zip((i, j), [x for x in v.axes if len(x) > 1]))
    if not ismap:
      check_axis(p, 'x', axs[hor], coords(None, c['axes'][hor]), case['lblx'], via); check_axis(p, 'y', axs[ver], coords(None, c['axes'][ver]), case['lbly'], via)
    assert p.get_title() == title_of(v), 'title is %r and should be %r' % (p.get_title(), title_of(v))
    if via == 'showvar':
      bar = case['bar'] is not False and 'contourf' in exp
      assert len(fig.axes) == 1 + bar, 'the figure has %d axes and should have %d' % (len(fig.axes), 1 + bar)
      if bar:
        o = [q for q in fig.axes if q is not p][0].get_position(); b = p.get_position()
        pos = case['bar'] or 'r'
        ok = dict(r=o.x0 > b.x1 - 1e-9, l=o.x1 < b.x0 + 1e-9, b=o.y1 < b.y0 + 1e-9, t=o.y0 > b.y1 - 1e-9)[pos]
        assert ok, 'the colour bar at %r is in the wrong place' % pos
  ctx.label(via, 'by ' + ','.join(kinds), 'map' if ismap else '', 'transpose=%s' % tr, case['how'], 'saved' if case['pickled'] else '', 'missing values' if c.get('nan') else '', case.get('type') if via == 'showvar' else '')
  ctx.nontrivial()


@contextlib.contextmanager
def quiet():
  import io
  with contextlib.redirect_stdout(io.StringIO()): yield

# ------------------------------------------------------------------ several fields

@st.composite
def grid_case(draw):
  c = draw(plotted(2, maxn=5, kinds=draw(st.sampled_from([g.SAFE, ['Lat', 'Lon', 'Pres', 'StandardTime']]))))
  n = draw(st.sampled_from([1, 2, 3, 4, 5, 6]))
  return dict(v=c, seeds=[draw(g.data_seed) for i in range(n)], via=draw(st.sampled_from(['showgrid', 'showgrid', 'showcol'])), ncol=draw(st.integers(1, 3)), lines=draw(st.sampled_from(['none', 'one', 'all'])),
              lseed=draw(g.data_seed), bar=draw(st.sampled_from([None, False, 'b'])), lbl=draw(st.booleans()), size=draw(st.sampled_from([None, [3., 2.], [2., 2.5]])))


def check_grid(case, ctx):
  import pygeode as pyg
  c = case['v']; cs = [dict(c, seed=s, name='v%d' % i) for i, s in enumerate(case['seeds'])]
  nl = {'none': 0, 'one': 1, 'all': len(cs)}[case['lines']] if case['via'] == 'showgrid' else 0
  ls = [dict(c, seed=case['lseed'] + i, name='l%d' % i) for i in range(nl)]
  if not all(usable(d) for d in cs + ls): return
  swap = swapped_field(c, None)
  vs = [build(d) for d in cs]; vl = [build(d) for d in ls]
  ncol = case['ncol'] if case['via'] == 'showgrid' else 1
  kw = dict(map=False)
  if case['size']: kw['size'] = tuple(case['size'])
  if case['bar'] is False: kw['colorbar'] = False
  elif case['bar']: kw['colorbar'] = dict(pos=case['bar'])
  with recording() as calls:
    if case['via'] == 'showgrid':
      kw.update(ncol=ncol, lbl=case['lbl'])
      if case['lines'] != 'none': kw['type'] = 'raw'
      ax = pyg.showgrid(vs, vl, **kw) if nl else pyg.showgrid(vs, **kw)
    else: ax = pyg.showcol(vs, **kw)
    fig = ax.render()
    fills = [q for q in calls if q[0] == 'contourf']; lines = [q for q in calls if q[0] == 'contour']
    assert len(fills) == len(vs), '%d of %d fields drawn' % (len(fills), len(vs))
    panels = [q[1] for q in fills]
    assert len(set(map(id, panels))) == len(vs), 'fields share a panel'
    for d, q in zip(cs, fills): check_field(q[2], c, swap, [field(d)], 'filled contours of %s' % d['name'])
    if nl:
      assert [id(q[1]) for q in lines] == list(map(id, panels)), 'the contour lines are not one to a panel'
      for k, q in enumerate(lines): check_field(q[2], c, swap, [field(ls[k % nl])], 'contour lines in panel %d' % k)
    else:
      for q in lines:
        k = [i for i, p in enumerate(panels) if p is q[1]][0]
        check_field(q[2], c, swap, [field(cs[k])], 'contour lines in panel %d' % k)
    check_panels(panels, ncol)
    assert len(fig.axes) == len(vs) + (case['bar'] is not False), '%d axes in the figure' % len(fig.axes)
    i, j = deep(c); hor, ver = (j, i) if swap else (i, j)
    if case['via'] == 'showgrid':
      nrow = -(-len(vs)//ncol)
      for k, (p, v) in enumerate(zip(panels, vs)):
        axs = dict(zip((i, j), [x for x in v.axes if len(x) > 1]))
        check_axis(p, 'x', axs[hor], coords(None, c['axes'][hor]), k//ncol == nrow - 1, 'panel %d' % k); check_axis(p, 'y', axs[ver], coords(None, c['axes'][ver]), k % ncol == 0, 'panel %d' % k)
        assert p.get_title() == title_of(v), 'title of panel %d is %r and should be %r' % (k, p.get_title(), title_of(v))
      w, h = case['size'] or (3.5, 1.5)
      fw, fh = fig.get_size_inches()
      for k, p in enumerate(panels):
        b = p.get_position()
        near([b.width*fw, b.height*fh], [w, h], 'size of panel %d' % k)
  ctx.label(case['via'], '%d columns' % ncol, 'lines: ' + case['lines'], 'colour bar: %s' % case['bar']); ctx.nontrivial(len(vs) > 1)

# ------------------------------------------------------------------ significance masks

@st.composite
def mask_case(draw):
  c = draw(plotted(2, nan=False, minn=4, maxn=7, kinds=draw(st.sampled_from([['Lon', 'Pres', 'NamedAxis', 'Index'], ['Lat', 'NamedAxis', 'StandardTime']])), regular=True, extra=False))
  c['plotatts'] = {}
  mj = draw(st.sampled_from([0.9, 0.95, 0.8])); mn = draw(st.sampled_from([None, None, 0.6, 0.7]))
  return dict(v=c, mj=mj, mn=mn, w=[draw(st.integers(0, 30)) for k in range(5)], tr=draw(st.sampled_from([None, True])))


def inside(path, x, y):
  """Whether a point lies in a path of polygons with holes."""
  from matplotlib.path import Path
  n = 0
  for poly in path.to_polygons():
    if Path(poly).contains_point((x, y)): n += 1
  return n % 2 == 1


def check_mask(case, ctx):
  import pygeode as pyg
  from pygeode.plot import wrappers as wr
  c = case['v']; i, j = deep(c); n, m = len(c['axes'][i]['v']), len(c['axes'][j]['v'])
  # bands of p along one of the axes: levels halfway between grid points are well separated
  rng = np.random.default_rng(c['seed'])
  choices = [-1., -0.99, -0.2, 0.2, 0.99, 1.] + ([-0.75, 0.75] if case['mn'] else [])
  p = rng.choice(choices, size=(n, m))
  v = build(c); v = pyg.Var(v.axes, values=p.reshape([len(a['v']) for a in c['axes']]), name='p')
  swap = swapped_field(c, case['tr'])
  with recording() as calls:
    ax = wr.AxesWrapper(size=(4, 4), make_axis=True)
    kw = {} if case['mn'] is None else dict(mnsig=case['mn'])
    pyg.vsigmask(v, ax, mjsig=case['mj'], transpose=case['tr'], mjsigp=dict(alpha=0., hatch='//'), mnsigp=dict(alpha=0., hatch='..'), **kw)
    fig = ax.render()
    check_field(calls[0][2], c, swap, [p], 'mask')
    X, Y = coords(None, c['axes'][i]), coords(None, c['axes'][j])
    arts = [a for a in fig.axes[0].collections if a.get_visible()]
    for k in range(n):
      for l in range(m):
        if k in (0, n-1) or l in (0, m-1): continue
        x, y = (Y[l], X[k]) if swap else (X[k], Y[l])
        a = abs(p[k, l])
        want = '//' if a > case['mj'] else '..' if case['mn'] is not None and a > case['mn'] else None
        got = {h.get_hatch() for h in arts for q in h.get_paths() if inside(q, x, y)}
        assert got == ({want} if want else set()), 'a point with significance %g is marked %r and should be %r' % (p[k, l], got, want)
  ctx.label('two levels' if case['mn'] else 'one level', 'swapped' if swap else ''); ctx.nontrivial()

# ------------------------------------------------------------------ the older functions

@st.composite
def old_case(draw):
  via = draw(st.sampled_from(['plotvar', 'plotvar', 'plotvar', 'plotquiver']))
  nd = 2 if via == 'plotquiver' else draw(st.integers(1, 2))
  kinds = [k for k in g.SAFE if not (via == 'plotquiver' and k == 'Lat')]
  c = draw(plotted(nd, kinds=kinds, nan=via == 'plotvar'))
  if via == 'plotquiver':
    c['plotatts'] = {}
    for a in c['axes']: a['plotatts'] = {}
  return dict(v=c, how=draw(st.sampled_from(['mem', 'lazy'])), via=via, seed=draw(g.data_seed), lbl=draw(st.booleans()), every=draw(st.sampled_from([1, 1, 2])), lines=draw(st.booleans()), perx=draw(st.integers(0, 3)) == 0, pcolor=draw(st.integers(0, 4)) == 0)


def check_old(case, ctx):
  import pygeode as pyg
  plt = mpl()
  c = case['v']
  if not usable(c): return
  v = build(c); lv = g.lazify(v, case['how']); f = field(c); dd = deep(c)
  with recording() as calls:
    if len(dd) == 1:
      a = c['axes'][dd[0]]; vert = a['k'] in ZAX
      with quiet(): pyg.plotvar(lv, wait=True, pbar=None)
      l = plt.gcf().axes[0].lines[0]
      x, y = (l.get_ydata(), l.get_xdata()) if vert else (l.get_xdata(), l.get_ydata())
      near(x, coords(None, a), 'coordinates of the line'); near(y, f, 'values of the line')
      X = [q for q in v.axes if len(q) > 1][0]
      near(getattr(plt.gcf().axes[0], 'get_%slim' % ('y' if vert else 'x'))(), limits(X, coords(None, a)), 'limits')
    else:
      ks = [c['axes'][k]['k'] for k in dd]
      # the last axis is horizontal here, unless vertical
      swap = not (ks[1] in ZAX) if ks != ['Lon', 'Lat'] else False
      if case['via'] == 'plotvar':
        kw = dict(clines=levels(f, 3)) if case['lines'] else {}
        if case['perx']: kw['perx'] = True
        if case['pcolor']: kw['pcolor'] = True
        with quiet(): pyg.plotvar(lv, wait=True, pbar=None, **kw)
        assert [q[0] for q in calls] == ['pcolor' if case['pcolor'] else 'contourf'] + ['contour']*case['lines'], 'drawn with %s' % [q[0] for q in calls]
        p = calls[0][1]
        for n, self, a, k in calls:
          a = list(a)
          if case['perx']:
            x, z = np.asarray(a[0], 'd'), np.ma.filled(np.ma.asarray(a[2], 'd'), np.nan)
            near(z[:, -1], z[:, 0], 'the repeated column')
            near(x[0, -1] - x[0, -2], x[0, 1] - x[0, 0], 'spacing of the repeated column')
            a[:3] = [np.asarray(q)[:, :-1] for q in (a[0], a[1], z)]
          check_field(a, c, swap, [f], n)
      else:
        d = dict(c, seed=case['seed'])
        with quiet(): pyg.plotquiver(lv, build(d), wait=True, every=case['every'])
        p = calls[0][1]
        check_field(calls[0][2], c, swap, [f, field(d)], 'quiver', every=case['every'])
      i, j = dd; hor, ver = (j, i) if swap else (i, j)
      axs = dict(zip((i, j), [x for x in v.axes if len(x) > 1]))
      if case['via'] == 'plotvar':
        if not case['perx']: near(p.get_xlim(), limits(axs[hor], coords(None, c['axes'][hor])), 'horizontal limits')
        near(p.get_ylim(), limits(axs[ver], coords(None, c['axes'][ver])), 'vertical limits')
  ctx.label(case['via'], '%dD' % len(dd), 'periodic' if case['perx'] and len(dd) == 2 and case['via'] == 'plotvar' else ''); ctx.nontrivial()

# ------------------------------------------------------------------ contour levels

@st.composite
def level_case(draw):
  kind = draw(st.sampled_from(['clf', 'clf', 'cl', 'log1s', 'log2s', 'norm', 'guess', 'guess', 'guess']))
  c = dict(kind=kind, cdelt=draw(st.sampled_from([0.1, 0.25, 1., 2., 3., 10, 1e-5, 7e4])), ndiv=draw(st.integers(1, 7)), nf=draw(st.integers(1, 6)), nl=draw(st.integers(0, 4)), nozero=draw(st.booleans()),
           min=draw(st.sampled_from([None, None, 0., -3., 270., 1e-4])), mid=draw(st.sampled_from([0., 0., 5., -1.5])), style=draw(st.sampled_from([None, 'div', 'seq'])), range=draw(st.sampled_from([None, 3, 5])),
           cmin=draw(st.sampled_from([1e-3, 0.1, 1., 50.])), base=draw(st.sampled_from([10., 2., 5.])), v=draw(st.lists(st.floats(-1, 1), min_size=2, max_size=6)))
  c.update(seed=draw(g.data_seed), n=draw(st.sampled_from([2, 5, 20, 200])), scale=draw(st.sampled_from([1e-6, 1e-3, 1., 40., 3e5])), centre=draw(st.sampled_from([0., 0., 0.5, 3., -20.])), outlier=draw(st.sampled_from([0, 0, 0, 1, -1])),
           gdiv=draw(st.sampled_from([None, None, 1, 2, 3, 4, 5, 6, 9])), clf=draw(st.booleans()))
  return c


def evenly(x, lo, hi, n, msg):
  near(x, np.linspace(lo, hi, n), msg)


def check_levels(case, ctx):
  mpl()
  from pygeode.plot import cnt_helpers as ch
  k, cd, nd, nf, nl = case['kind'], case['cdelt'], case['ndiv'], case['nf'], case['nl']
  if k == 'clf':
    d = ch.clfdict(cd, min=case['min'], mid=case['mid'], nf=nf, nl=nl, ndiv=nd, nozero=case['nozero'], style=case['style'])
    style = case['style'] or ('div' if case['min'] is None else 'seq')
    w = cd*nd*(2 if style == 'div' else 1)
    lo = case['min'] if case['min'] is not None else case['mid'] - w/2.
    hi = lo + w; mid = (lo + hi)/2.; nn = w/cd
    t = d['colorbar']['ticks']; evenly(t, lo, hi, int(round(nn)) + 1, 'ticks of the colour bar')
    full = np.linspace(lo, hi, int(round(nn))*nf + 1)
    if style == 'div': full = np.delete(full, len(full)//2)
    near(d['clevs'], full, 'filled contours')
    if nl == 0: assert d['clines'] is None
    else:
      lines = np.linspace(lo, hi, int(round(nn))*nl + 1)
      if style == 'div' and case['nozero']: lines = np.delete(lines, len(lines)//2)
      near(d['clines'], lines, 'contour lines')
    assert np.all(np.diff(d['clevs']) > 0)
    if style == 'div' and nd <= 4:
      # either side of the middle, which is white, has colours of its own
      m = d['cmap'].resampled(512); mid = [np.array(m(x)[:3]) for x in (0.499, 0.501)]
      assert all(np.all(q > 0.95) for q in mid), 'colours in the middle of the range are %s' % mid
      assert not np.allclose(m(0.25), m(0.75), atol=0.05), 'colours of either side are the same'
  elif k == 'cl':
    r = case['range']*cd if case['range'] else None
    d = ch.cldict(cd, range=r, min=case['min'], mid=case['mid']); r = r or 10*cd
    lo = case['mid'] - r if case['min'] is None else case['min']
    evenly(d['clines'], lo, lo + 2*r, int(round(2*r/cd)) + 1, 'contour lines')
    assert d['clevs'] is None
  elif k == 'log1s':
    d = ch.log1sdict(case['cmin'], cdelt=case['base'], nf=nf, nl=nl, ndiv=nd)
    near(np.log(d['clevs']), np.linspace(np.log(case['cmin']), np.log(case['cmin']) + nd*np.log(case['base']), nf*nd + 1), 'logarithms of the levels')
    if nl: near(np.log(d['clines']), np.linspace(np.log(case['cmin']), np.log(case['cmin']) + nd*np.log(case['base']), nl*nd + 1), 'logarithms of the lines')
    near(np.log(d['colorbar']['ticks']), np.log(case['cmin']) + np.arange(nd + 1)*np.log(case['base']), 'ticks')
    assert len(d['colorbar']['ticklabels']) == nd + 1
    near(d['norm'](np.asarray(d['clevs'])), np.linspace(0, 1, nf*nd + 1), 'colours of the levels')
  elif k == 'log2s':
    if nd == 1: return
    d = ch.log2sdict(case['cmin'], cdelt=case['base'], nf=nf, nl=nl, ndiv=nd, nozero=case['nozero'])
    x = np.asarray(d['clevs'])
    assert np.all(np.diff(x) > 0), 'the levels %s do not increase' % x
    near(x, -x[::-1], 'the levels are symmetric')
    p = x[x >= case['cmin']*(1 - 1e-9)]
    near(np.log(p), np.linspace(np.log(case['cmin']), np.log(case['cmin']) + (nd-1)*np.log(case['base']), nf*(nd-1) + 1), 'logarithms of the outer levels')
    q = x[(x > 0) & (x < case['cmin']*(1 - 1e-9))]
    near(q, case['cmin']*np.arange(1, nf)/nf, 'inner levels')
    if nl:
      y = np.asarray(d['clines'])
      assert np.all(np.diff(y) > 0)
      assert (np.min(np.abs(y)) < 1e-9*case['cmin']) == (not case['nozero']), 'zero is %samong the contour lines' % ('' if case['nozero'] else 'not ')
      near(y, -y[::-1], 'the lines are symmetric')
    t = d['colorbar']['ticks']
    near(t[len(t)//2 + 1:], case['cmin']*case['base']**np.arange(nd), 'ticks'); near(t, -t[::-1], 'ticks are symmetric')
  elif k == 'norm':
    vin, vmax = case['cmin'], case['cmin']*case['base']**nd
    n = ch.LogNorm2Sided(vmin=-vmax, vmax=vmax, vin=vin, cin=1./(2*nd + 2))
    x = np.sort(np.concatenate([np.array(case['v'])*vmax, np.array(case['v'])*vin, [-vmax, -vin, 0., vin, vmax]]))
    y = n(x)
    near(np.ma.filled(n(np.array([-vmax, 0., vmax])), np.nan), [0, 0.5, 1], 'ends and middle of the scale')
    assert np.all(np.diff(y) >= -1e-12), 'the scale is not increasing'
    near(n.inverse(y), x, 'the inverse of the scale')
    # limits taken from the data, which do not have to be symmetric when given
    z = x[np.abs(x) > 1e-6*vin]; x0 = np.where(np.abs(x) > 1e-6*vin, x, 0.)
    n2 = ch.LogNorm2Sided(cin=1./(2*nd + 2))
    near(n2(np.array([0., np.abs(z).min(), np.abs(z).max(), -np.abs(z).max()])), [0.5, 0.5 + n2.cin, 1., 0.], 'the scale of data')
    n3 = ch.LogNorm2Sided(cin=0.1)
    n3.autoscale(np.ma.array(list(x0) + [9*vmax], mask=[False]*len(x) + [True]))
    near([n3.vmin, n3.vin, n3.vmax], [-np.abs(z).max(), np.abs(z).min(), np.abs(z).max()], 'limits from the data')
    n4 = ch.LogNorm2Sided(vmin=-vin*1.5, vmax=vmax, vin=vin, cin=0.1)
    near(n4(np.array([-vin*1.5, -vin, 0., vin, vmax])), [0., 0.4, 0.5, 0.6, 1.], 'a scale that is not symmetric')
    w = np.array([-vin*1.25, -vin*0.5, vin*0.3, np.sqrt(vin*vmax)]); near(n4.inverse(n4(w)), w, 'the inverse of a scale that is not symmetric')
    for a, b in zip(x, y): near(n(float(a)), b, 'a single value'); near(n.inverse(float(b)), a, 'the inverse of a single value')
    near(np.ma.filled(y, np.nan), 1 - np.ma.filled(n(-x), np.nan), 'symmetry')
  else:
    rng = np.random.default_rng(case['seed'])
    z = (rng.normal(0, 1, case['n']) + case['centre'])*case['scale']
    if case['outlier'] and case['n'] >= 200: z[0] = case['outlier']*1e5*case['scale']
    zz = z.copy()
    if case['n'] > 10: zz[3] = np.nan
    fin = zz[np.isfinite(zz)]
    spc, kw = ch.guessclimits(zz.reshape(-1, 1), style=case['style'], ndiv=case['gdiv'], clf=case['clf'])
    m = spc/10**np.floor(np.log10(spc)*(1 + 1e-15) + 1e-9)
    assert min(abs(m - q) for q in (1, 1.5, 2, 3, 4, 5, 6, 10)) < 1e-6, 'the interval %r is not a round number' % spc
    p2, p98 = np.percentile(fin, [2, 98])
    style = case['style'] or ('div' if p2 < 0 and p98 > 0 else 'seq')
    d = ch.clfdict(spc, **kw) if case['clf'] else ch.cldict(spc, **kw)
    c = np.asarray(d['clevs'] if case['clf'] else d['clines'])
    body = np.delete(z, 3)[1:] if case['n'] > 10 else z      # without the outlier
    outl = case['outlier'] and case['n'] >= 200
    lo, hi = (np.percentile(fin, 2), np.percentile(fin, 98)) if outl else (fin.min(), fin.max())
    if style == 'div': assert c[0] <= lo + 1e-9*abs(lo) and c[-1] >= hi - 1e-9*abs(hi), 'contours from %g to %g for values from %g to %g' % (c[0], c[-1], lo, hi)
    elif lo != hi: assert c[0] <= lo + 1e-6*abs(lo) and c[-1] >= hi - spc*1.0001, 'contours from %g to %g for values from %g to %g (interval %g)' % (c[0], c[-1], lo, hi, spc)
    if not outl and case['style'] != 'div' and style == 'div' or style == 'seq' and not outl:
      # not much wider than the data either
      w = max(abs(lo), abs(hi))*2 if style == 'div' else hi - lo
      if w > 0: assert c[-1] - c[0] <= 2.1*w + (spc if style == 'seq' else 0)*1.0001, 'contours from %g to %g for values from %g to %g' % (c[0], c[-1], lo, hi)
    ctx.label(style)
  ctx.label(k); ctx.nontrivial()

# ------------------------------------------------------------------ colour maps

rgb = st.lists(st.sampled_from([0., 0.25, 0.5, 0.75, 1.]), min_size=3, max_size=3)


@st.composite
def colour_case(draw):
  n = draw(st.integers(2, 6))
  ks = sorted(draw(st.lists(st.integers(-40, 40), min_size=n, max_size=n, unique=True)))
  return dict(kind=draw(st.sampled_from(['cdict', 'cdict', 'hues', 'file'])), keys=[k/4. for k in ks], cols=[[draw(rgb) for q in range(draw(st.integers(1, 2)))] for k in ks], over=draw(st.one_of(st.none(), rgb)), under=draw(st.one_of(st.none(), rgb)),
              hues=[draw(st.integers(0, 20))/20. for k in range(draw(st.integers(1, 6)))], sat=[draw(st.integers(0, 4))/4. for k in range(2)], rval=[draw(st.integers(0, 4))/4. for k in range(2)], hsv=draw(st.booleans()))


def check_colours(case, ctx):
  mpl()
  from pygeode.plot import cm
  from matplotlib.colors import hsv_to_rgb
  if case['kind'] == 'cdict':
    d = {}
    if case['under'] and not case['hsv']: d['under'] = list(case['under'])
    if case['over'] and not case['hsv']: d['over'] = list(case['over'])
    for k, c in zip(case['keys'], case['cols']): d[k] = list(c[0]) if len(c) == 1 else (list(c[0]), list(c[1]))
    was = repr(d)
    m = cm.cmap_from_cdict(d, colorspace='hsv' if case['hsv'] else 'rgb')
    assert repr(d) == was, 'the dictionary of colours was changed'
    lo, hi = case['keys'][0], case['keys'][-1]
    conv = (lambda c: list(hsv_to_rgb(c))) if case['hsv'] else list
    for (k1, c1), (k2, c2) in zip(zip(case['keys'], case['cols']), zip(case['keys'][1:], case['cols'][1:])):
      for t in (0.1, 0.5, 0.9):
        x = (k1 + t*(k2 - k1) - lo)/(hi - lo)
        want = (1 - t)*np.array(conv(c1[-1])) + t*np.array(conv(c2[0]))
        # the map has 256 entries: one entry is 1/255 of the range
        tol = (hi - lo)/(k2 - k1)/255.*1.01 + 1e-6
        if tol > 0.09: continue
        got = m(x)
        assert np.all(np.abs(np.array(got[:3]) - want) <= tol), 'colour at %g of the interval from %g to %g is %s and should be %s' % (t, k1, k2, got[:3], want)
    if 'over' in d: assert np.allclose(m(1.5)[:3], d['over']), 'colour above the range'
    if 'under' in d: assert np.allclose(m(-0.5)[:3], d['under']), 'colour below the range'
  elif case['kind'] == 'file':
    import os, tempfile
    lo, hi = case['keys'][0], case['keys'][-1]
    t = [round((k - lo)/(hi - lo), 3) for k in case['keys']]
    cols = [[[int(round(255*q)) for q in x] for x in c] for c in case['cols']]
    f, fn = tempfile.mkstemp(suffix='.cmap')
    try:
      with os.fdopen(f, 'w') as o:
        for q, c in zip(t, cols): o.write('color-stop(%s, %s)\n' % (('%.3f' % q) if 0 < q < 1 else '%d' % q, ', '.join('rgb(%d,%d,%d)' % tuple(x) for x in c)))
      m, mr = cm.read_grad(fn), cm.read_grad(fn, rev=True)
    finally: os.remove(fn)
    for q1, q2, c1, c2 in zip(t, t[1:], cols, cols[1:]):
      for u in (0.1, 0.5, 0.9):
        x = q1 + u*(q2 - q1)
        want = ((1 - u)*np.array(c1[-1]) + u*np.array(c2[0]))/255.
        tol = 1./(q2 - q1)/255.*1.01 + 1e-6
        if tol > 0.09: continue
        for got, w in ((m(x), 'read'), (mr(1 - x), 'reversed')):
          assert np.all(np.abs(np.array(got[:3]) - want) <= tol), 'colour at %g of the map %s from a file is %s and should be %s' % (x, w, got[:3], want)
  else:
    m = cm.cmap_from_hues(case['hues'], case['sat'], case['rval'])
    n = len(case['hues'])
    for i, h in enumerate(case['hues']):
      a = np.array(hsv_to_rgb([h % 1., case['sat'][0], case['rval'][0]])); b = np.array(hsv_to_rgb([h % 1., case['sat'][1], case['rval'][1]]))
      for t in (0.1, 0.5, 0.9):
        got = np.array(m((i + t)/n)[:3])
        assert np.all(np.abs(got - ((1-t)*a + t*b)) <= n/255.*1.01), 'colour at %g of division %d is %s' % (t, i, got)
  ctx.label(case['kind'], 'hsv' if case['hsv'] and case['kind'] == 'cdict' else ''); ctx.nontrivial(case['kind'] == 'cdict' or len(case['hues']) > 1)

# ------------------------------------------------------------------ panels

sizes = st.sampled_from([1., 1.5, 2., 3., 4.5])


@st.composite
def panel(draw, depth):
  if depth == 0 or draw(st.integers(0, 3)) > 0:
    p = dict(size=[draw(sizes), draw(sizes)])
    if draw(st.booleans()): p['pad'] = [draw(st.sampled_from([0.05, 0.1, 0.2])) for k in range(4)]
    elif draw(st.booleans()): p['rect'] = draw(st.sampled_from([[0., 0., 1., 1.], [0.1, 0.2, 0.5, 0.6]]))
    return p
  return draw(table(depth - 1))


@st.composite
def table(draw, depth):
  r, q = draw(st.sampled_from([1, 1, 2, 3])), draw(st.sampled_from([1, 2, 2, 3]))
  rows = []
  for i in range(r):
    rows.append([draw(panel(depth)) if i == j % r or j == i % q or draw(st.integers(0, 4)) else None for j in range(q)])
  return dict(rows=rows)


@st.composite
def layout_case(draw):
  t = draw(table(2))
  n = 6
  sets = [dict(to=draw(st.integers(0, 5)), children=draw(st.booleans()), which=draw(st.sampled_from(['ax', 'ax', 'x', 'y'])), key=draw(st.sampled_from(['title', 'xlabel'])), val='s%d' % i) for i in range(draw(st.integers(0, 4)))]
  return dict(t=t, sets=sets, scale=draw(st.sampled_from([None, None, 2., 0.5])), pickled=draw(st.booleans()))


def natural(t):
  if 'size' in t: return t['size']
  return [sum(max(natural(r[j])[0] for r in t['rows'] if r[j]) for j in range(len(t['rows'][0]))), sum(max(natural(p)[1] for p in r if p) for r in t['rows'])]


def place(t, box, fsize, out):
  """Expected boxes (figure fractions) of the panels of t drawn in box = (l, b, r, t), in order."""
  l, b, r, u = box
  W, H = r - l, u - b
  if 'size' in t:
    if 'pad' in t:
      p = t['pad']; out.append((l + p[0]/fsize[0], b + p[1]/fsize[1], r - p[2]/fsize[0], u - p[3]/fsize[1]))
    else:
      q = t.get('rect') or [0.125, 0.11, 0.775, 0.77]
      out.append((l + q[0]*W, b + q[1]*H, l + (q[0] + q[2])*W, b + (q[1] + q[3])*H))
    return
  tw, th = natural(t)
  cw = [max(natural(r_[j])[0] for r_ in t['rows'] if r_[j]) for j in range(len(t['rows'][0]))]
  rh = [max(natural(p)[1] for p in r_ if p) for r_ in t['rows']]
  y = u
  for i, row in enumerate(t['rows']):
    x = l
    for j, p in enumerate(row):
      if p:
        w, h = natural(p)
        cx, cy = x + cw[j]/tw*W/2., y - rh[i]/th*H/2.       # in the middle of its cell, in its own size
        place(p, (cx - w/tw*W/2., cy - h/th*H/2., cx + w/tw*W/2., cy + h/th*H/2.), fsize, out)
      x += cw[j]/tw*W
    y -= rh[i]/th*H


def nodes(w):
  out = [w]
  for a in w.axes: out += nodes(a)
  return out


def check_layout(case, ctx):
  plt = mpl()
  from pygeode.plot import wrappers as wr
  with recording():
    with plt.rc_context({'figure.subplot.left': 0.125, 'figure.subplot.right': 0.9, 'figure.subplot.bottom': 0.11, 'figure.subplot.top': 0.88}):
      def make(t):
        if 'size' in t: return wr.AxesWrapper(size=t['size'], pad=t.get('pad'), rect=t.get('rect'), make_axis=True)
        return wr.grid([[make(p) if p else None for p in r] for r in t['rows']])
      W = make(case['t'])
      want = natural(case['t'])
      near(W.size, want, 'size of the table')
      fs = [x*(case['scale'] or 1) for x in want]
      W.size = tuple(fs)
      ns = nodes(W)
      state = {id(n): {} for n in ns}
      for s in case['sets']:
        n = ns[s['to'] % len(ns)]
        key = s['key']
        if s['which'] == 'ax': n.setp(children=s['children'], **{key: s['val']})
        elif s['which'] == 'x': n.setp_xaxis(children=s['children'], label_text=s['val']); key = 'xlabel'
        else: n.setp_yaxis(children=s['children'], label_text=s['val']); key = 'ylabel'
        for m in (nodes(n) if s['children'] else [n]): state[id(m)][(s['which'], key)] = s['val']
      fig = again(W, case['pickled']).render()
      near(fig.get_size_inches(), fs, 'size of the figure')
      exp = []; place(case['t'], (0., 0., 1., 1.), fs, exp)
      got = [a.get_position(original=True).extents for a in fig.axes]
      assert len(got) == len(exp), '%d panels drawn of %d' % (len(got), len(exp))
      # (the order in which panels are drawn does not matter)
      near(sorted(map(tuple, np.round(got, 9))), sorted(map(tuple, np.round(exp, 9))), 'positions of the panels')
      leaves = [n for n in ns if n.make_axis]
      assert len(leaves) == len(exp)
      if not case['pickled']:
        for n in leaves:
          s = state[id(n)]
          xl = s.get(('x', 'xlabel'), s.get(('ax', 'xlabel'), '')); yl = s.get(('y', 'ylabel'), '')
          assert (n.ax.get_title(), n.ax.get_xlabel(), n.ax.get_ylabel()) == (s.get(('ax', 'title'), ''), xl, yl), 'settings of a panel are %r and should be %r' % ((n.ax.get_title(), n.ax.get_xlabel(), n.ax.get_ylabel()), s)
  ctx.label('%d panels' % min(len(exp), 6), 'nested' if any(p and 'rows' in p for r in case['t']['rows'] for p in r) else '', 'saved' if case['pickled'] else ''); ctx.nontrivial(len(exp) > 1)

# ------------------------------------------------------------------ order of the parts of a panel

@st.composite
def history_case(draw):
  ops = [dict(op=draw(st.sampled_from(['plot', 'scatter', 'insert', 'insert', 'pop', 'popat', 'axhline'])), at=draw(st.integers(-8, 8))) for i in range(draw(st.sampled_from([2, 4, 6, 9])))]
  return dict(ops=ops, pickled=draw(st.booleans()))


def check_history(case, ctx):
  mpl()
  from pygeode.plot import wrappers as wr
  w = wr.AxesWrapper(size=(3., 2.)); model = []
  n = 0; ins = False
  with recording() as calls:
    for o in case['ops']:
      n += 1
      if o['op'] == 'plot': w.plot([0, 1], [n, n]); model.append(('plot', n))
      elif o['op'] == 'scatter': w.scatter([0, 1], [n, n]); model.append(('scatter', n))
      elif o['op'] == 'axhline': w.axhline(n); model.append(('axhline', n))
      elif o['op'] == 'insert':
        w.add_plot(wr.Plot([0, 1], [n, n]), order=o['at']); model.insert(o['at'], ('plot', n)); ins = True
      elif model:
        if o['op'] == 'pop': w.pop_plot(); model.pop()
        elif -len(model) <= o['at'] < len(model): w.pop_plot(o['at']); model.pop(o['at'])
      assert w.nplots == len(model) == len(w.plots), 'the panel has %r parts and should have %d' % (w.nplots, len(model))
      last = [m for m in model if m[0] == 'plot'][-1:]
      f = w.find_plot(wr.Plot)
      assert (f is None) == (not last) and (f is None or f.plot_args[1] == [last[0][1]]*2), 'the last line found is not %r' % (last,)
    if not any(o['op'] not in ('pop', 'popat') for o in case['ops']): return
    again(w, case['pickled']).render()
    got = [(k, a[1][0]) for k, s, a, kw in calls]
    assert got == [m for m in model if m[0] != 'axhline'], 'drawn in the order %s and should be %s' % (got, model)
  ctx.label('inserted' if ins else '', 'saved' if case['pickled'] else ''); ctx.nontrivial(len(model) > 1)

# ------------------------------------------------------------------ pages

@st.composite
def pages_case(draw):
  return dict(figs=[[draw(st.sampled_from([1., 2., 3., 3.5, 6.])), draw(st.sampled_from([1., 2., 2.5, 4., 9.]))] for i in range(draw(st.sampled_from([1, 3, 6, 10, 20])))], psize=draw(st.sampled_from(['A4', 'A4l', [6.5, 7.]])), scl=draw(st.sampled_from([1., 1., 0.5])))


def check_pages(case, ctx):
  import pygeode as pyg
  mpl()
  from pygeode.plot import wrappers as wr
  from matplotlib.backends import backend_pdf
  pw, ph = dict(A4=(8.3, 11.7), A4l=(11.7, 8.3)).get(case['psize'] if isinstance(case['psize'], str) else '', case['psize'])
  figs = []
  for i, s in enumerate(case['figs']):
    # as large as the margins leave room for, at most
    s = min(s[0], (pw - 1.05)/case['scl']), min(s[1], (ph - 1.05)/case['scl'])
    a = wr.AxesWrapper(size=s, rect=[0., 0., 1., 1.], make_axis=True); a.setp(title='f%d' % i); figs.append(a)
  pages = []
  old = backend_pdf.PdfPages.savefig
  d = tempfile.mkdtemp(prefix='p28')
  try:
    backend_pdf.PdfPages.savefig = lambda self, fig=None, **kw: pages.append([(a.get_title(), a.get_position().extents, fig.get_size_inches().copy()) for a in fig.axes])
    with recording(), quiet(): pyg.savepages(figs, os.path.join(d, 'x.pdf'), psize=case['psize'] if isinstance(case['psize'], str) else tuple(case['psize']), scl=case['scl'])
  finally:
    backend_pdf.PdfPages.savefig = old
    shutil.rmtree(d)
  got = [t for p in pages for t, b, s in p]
  assert got == ['f%d' % i for i in range(len(figs))], 'the pages contain %s of %d plots' % (got, len(figs))
  for p in pages:
    for i, (t, b, s) in enumerate(p):
      near(s, (pw, ph), 'size of the page')
      f = figs[int(t[1:])].size
      near([(b[2] - b[0])*pw, (b[3] - b[1])*ph], [f[0]*case['scl'], f[1]*case['scl']], 'size of plot %s' % t)
      m = 0.5 - 1e-6
      assert b[0]*pw >= m and b[1]*ph >= m and b[2]*pw <= pw - m and b[3]*ph <= ph - m, 'plot %s is drawn at %s, outside the margins of a page of %s' % (t, b*[pw, ph, pw, ph], (pw, ph))
      for t2, c, s2 in p[:i]:
        assert min(b[2], c[2]) - max(b[0], c[0]) < 1e-9 or min(b[3], c[3]) - max(b[1], c[1]) < 1e-9, 'plots %s and %s overlap' % (t2, t)
  ctx.label('%d pages' % min(len(pages), 4)); ctx.nontrivial(len(figs) > 1)


TESTS = [Test('lines', line_case(), check_line, quick=300), Test('several_lines', lines_case(), check_lines, quick=200), Test('spread', spread_case(), check_spread, quick=120),
         Test('fields', field_case(), check_fields, quick=400), Test('grids', grid_case(), check_grid, quick=120), Test('masks', mask_case(), check_mask, quick=100), Test('older', old_case(), check_old, quick=200),
         Test('levels', level_case(), check_levels, quick=1500), Test('colours', colour_case(), check_colours, quick=400), Test('layout', layout_case(), check_layout, quick=250), Test('history', history_case(), check_history, quick=250),
         Test('pages', pages_case(), check_pages, quick=60)]
