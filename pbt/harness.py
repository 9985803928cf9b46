"""Runs the generated checks of one property.

Every test of a property is (strategy, check).  The strategy is a Hypothesis
strategy producing a plain JSON value (the *case*); check(case, ctx) builds the
pygeode objects the case describes, runs the real code from /repo and compares
with an oracle, raising on disagreement.  A case is the replay file: re-running
it does not involve Hypothesis.

The parent process imports pygeode from /repo's working tree (rebuilding the C
extensions into a scratch directory when the C sources differ from the objects
that are in place), forks workers for (test, shard) jobs and collects counts.
"""
import os, sys, json, time, hashlib, argparse, tempfile, shutil, subprocess, signal, traceback, random, glob, importlib.util

REPO = os.environ.get('PBT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']

EXTS = ['interpcore', 'timeaxiscore', 'quadrulepy', 'toolscore', 'svdcore', 'eofcore',
        'formats.opendapcore', 'formats.gribcore']


class HarnessError(Exception):
  """An error of the check itself (never reported as a violation)."""


class Test:
  def __init__(self, name, strategy, check, quick=200, thorough=None, examples=(), shards=None, slow=False):
    self.name = name; self.strategy = strategy; self.check = check
    self.quick = quick; self.thorough = thorough if thorough is not None else quick*12
    self.examples = list(examples)      # hand-written corner cases, always run first
    self.shards = shards


class Ctx:
  """Filled in by a check: labels classify the case, nontrivial() marks it as exercising the property."""
  def __init__(self):
    self.labels = set(); self.nt = False
  def label(self, *names):
    for n in names:
      if n: self.labels.add(str(n))
  def nontrivial(self, cond=True):
    if cond: self.nt = True


class StopJob(KeyboardInterrupt):
  """Leaves Hypothesis from inside a test function."""


# ---------------------------------------------------------------- environment

def csrc_hash():
  files = []
  for root, dirs, fs in os.walk(os.path.join(REPO, 'pygeode')):
    for f in fs:
      if f.endswith('.c') or f.endswith('.h') or f == 'setup.py':
        p = os.path.join(root, f)
        if os.path.isfile(p): files.append(os.path.relpath(p, REPO))
  files.append('setup.py')
  # same text as build.sh produces: sha256sum lines in byte order of the names
  out = ''
  for f in sorted(files, key=lambda s: s.encode()):
    with open(os.path.join(REPO, f), 'rb') as h:
      out += hashlib.sha256(h.read()).hexdigest() + '  ' + f + '\n'
  return hashlib.sha256(out.encode()).hexdigest()


def ext_present():
  for e in EXTS:
    if not glob.glob(os.path.join(REPO, 'pygeode', *e.split('.')) + '.cpython-312-*.so'): return False
  return True


def built_hash():
  try:
    with open(os.path.join(REPO, 'build', '.srchash')) as f: return f.read().split()[0]
  except (OSError, IndexError):
    return None


class ScratchFinder:
  """Loads the compiled extensions from a scratch build instead of /repo."""
  def __init__(self, libdir):
    self.libdir = libdir
  def find_spec(self, name, path=None, target=None):

    if not name.startswith('pygeode.'): return None
    rel = name[len('pygeode.'):]
    if rel not in EXTS: return None
    c = glob.glob(os.path.join(self.libdir, 'pygeode', *rel.split('.')) + '.*.so')
    if not c: return None
    return importlib.util.spec_from_file_location(name, c[0])


def prepare_extensions(scratch):
  """Makes sure the C code that will run is the C code in the working tree."""
  lib = os.environ.get('PBT_EXTLIB')
  if lib:
    sys.meta_path.insert(0, ScratchFinder(lib)); return 'scratch'
  if ext_present() and built_hash() == csrc_hash():
    return 'in place'
  src = os.path.join(scratch, 'src'); os.makedirs(src)
  shutil.copy(os.path.join(REPO, 'setup.py'), src)
  shutil.copytree(os.path.join(REPO, 'pygeode'), os.path.join(src, 'pygeode'),
                  ignore=shutil.ignore_patterns('*.so', '__pycache__'))
  lib = os.path.join(scratch, 'lib')
  env = dict(os.environ, MPLCONFIGDIR=scratch)
  p = subprocess.run([sys.executable, 'setup.py', '-q', 'build_ext', '-j8', '--build-lib', lib,
                      '--build-temp', os.path.join(scratch, 'tmp')], cwd=src, env=env,
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  if p.returncode != 0:
    raise HarnessError('building the extensions failed:\n' + p.stdout.decode('utf8', 'replace')[-3000:])
  shutil.rmtree(src); shutil.rmtree(os.path.join(scratch, 'tmp'), ignore_errors=True)
  os.environ['PBT_EXTLIB'] = lib       # inherited by confirmation runs
  sys.meta_path.insert(0, ScratchFinder(lib))
  return 'rebuilt'


def setup_paths(scratch):
  os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
  os.environ['HOME'] = scratch
  os.environ['TMPDIR'] = scratch
  tempfile.tempdir = scratch
  os.makedirs(os.path.join(scratch, 'mpl'), exist_ok=True)
  cwd = os.path.join(scratch, 'cwd'); os.makedirs(cwd, exist_ok=True)
  os.chdir(cwd)
  sys.path.insert(0, REPO)
  try:
    import hypothesis
  except ImportError:
    sys.path.extend(HYP)
    import hypothesis
  import warnings
  warnings.simplefilter('ignore')


def import_pygeode():
  import warnings
  import pygeode
  warnings.simplefilter('ignore')
  assert os.path.realpath(pygeode.__file__).startswith(os.path.realpath(REPO) + os.sep), pygeode.__file__
  import numpy as np
  np.seterr(all='ignore')
  # progress bars are cosmetic, and appear depending on the clock: keep them quiet
  return pygeode


def load_property(pid):
  import importlib
  return importlib.import_module('pbt.props.' + pid.lower())


# ---------------------------------------------------------------- one case

def norm(case):
  return json.loads(json.dumps(case))


def run_case(test, case):
  """Runs one case; returns (ctx, None) or (ctx, error text)."""
  import warnings, pygeode
  import numpy as np
  ctx = Ctx()
  maxa = pygeode.MAX_ARRAY_SIZE
  try:
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      with np.errstate(all='ignore'):
        test.check(norm(case), ctx)
    return ctx, None
  except HarnessError:
    raise
  except StopJob:
    raise
  except Exception as e:
    tb = traceback.format_exc()
    return ctx, tb[-6000:]
  finally:
    pygeode.MAX_ARRAY_SIZE = maxa


def key(case):
  return json.dumps(case, sort_keys=True)


# ---------------------------------------------------------------- job (in a forked child)

def seed_of(seed, pid, name, shard):
  h = hashlib.sha256(('%d/%s/%s/%d' % (seed, pid, name, shard)).encode()).digest()
  return int.from_bytes(h[:8], 'big')


def run_job(pid, test, shard, nshards, count, seed, jobdir, budget, shrink_s):
  """Generates `count` cases for one shard.  Result is written to jobdir/result.json."""
  import hypothesis
  from hypothesis import settings, given, HealthCheck, Phase
  t0 = time.time()
  res = dict(test=test.name, shard=shard, evaluations=0, nontrivial=[], labels={}, samples=[],
             failure=None, error=None, timeup=False)
  seen = set(); nt = set()
  state = dict(fail=None, tfail=None, n=0)
  cur = os.path.join(jobdir, 'current.json')

  def one(case):
    case = norm(case)
    k = key(case)
    with open(cur, 'w') as f: f.write(k)
    if state['tfail'] is None:
      if time.time() - t0 > budget:
        res['timeup'] = True
        raise StopJob()
    elif time.time() - state['tfail'] > shrink_s:
      raise StopJob()
    ctx, err = run_case(test, case)
    if state['tfail'] is None:
      res['evaluations'] += 1
      h = hashlib.md5(k.encode()).hexdigest()
      if h not in seen:
        seen.add(h)
        for l in ctx.labels: res['labels'][l] = res['labels'].get(l, 0) + 1
        if ctx.nt:
          nt.add(h)
          if len(res['samples']) < 2 and err is None and len(k) < 1500: res['samples'].append(case)
    if err is not None:
      if state['tfail'] is None: state['tfail'] = time.time()
      # the smallest failing case seen so far
      if state['fail'] is None or len(k) <= len(key(state['fail'][0])):
        state['fail'] = (case, err)
      raise AssertionError(err)

  try:
    if shard == 0:
      for ex in test.examples:
        one(ex)
    if count > 0:
      s = settings(max_examples=count, database=None, deadline=None, report_multiple_bugs=False,
                   suppress_health_check=list(HealthCheck), print_blob=False,
                   phases=[Phase.generate, Phase.shrink])
      fn = hypothesis.seed(seed_of(seed, pid, test.name, shard))(s(given(test.strategy)(one)))
      fn()
  except StopJob:
    pass
  except BaseException as e:
    if state['fail'] is None:
      res['error'] = traceback.format_exc()[-6000:]
  if state['fail'] is not None:
    res['failure'] = dict(case=state['fail'][0], error=state['fail'][1])
  res['nontrivial'] = sorted(nt)
  res['wall'] = time.time() - t0
  tmp = os.path.join(jobdir, 'result.tmp')
  with open(tmp, 'w') as f: json.dump(res, f)
  os.rename(tmp, os.path.join(jobdir, 'result.json'))


def child_setup(jobdir):
  import resource
  os.setpgid(0, 0)
  lim = 8 << 30
  resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
  resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
  resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
  d = os.path.join(jobdir, 'cwd'); os.makedirs(d, exist_ok=True)
  os.chdir(d)
  os.environ['TMPDIR'] = d
  tempfile.tempdir = d
  fd = os.open(os.devnull, os.O_RDWR)
  os.dup2(fd, 0); os.dup2(fd, 1)
  er = os.open(os.path.join(jobdir, 'stderr'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
  os.dup2(er, 2)


# ---------------------------------------------------------------- parent

CASE_HANG = 100     # seconds one case may take before it is re-run alone
HANG_CONFIRM = 150


def run_all(pid, tests, tier, seed, scratch, njobs):
  budget = float(os.environ.get('PBT_BUDGET', 240 if tier == 'quick' else 1500))
  shrink_s = 25 if tier == 'quick' else 120
  scale = float(os.environ.get('PBT_SCALE', '1'))
  jobs = []
  for t in tests:
    n = int((t.quick if tier == 'quick' else t.thorough)*scale)
    ns = t.shards or max(1, min(8, (n + 59)//60))
    per = (n + ns - 1)//ns if n else 0
    for s in range(ns):
      jobs.append((t, s, ns, per))
  # interleave: first shards of every test first, so that examples run early
  jobs.sort(key=lambda j: j[1])
  running = {}; results = []; pending = list(jobs)
  failure = None; errors = []; crashed = []
  deadline = time.time() + (600 if tier == 'quick' else 6*3600)
  nid = 0
  try:
    while pending or running:
      while pending and len(running) < njobs and failure is None:
        t, s, ns, per = pending.pop(0)
        jobdir = os.path.join(scratch, 'job%d' % nid); nid += 1
        os.makedirs(jobdir)
        sys.stdout.flush(); sys.stderr.flush()
        pid_ = os.fork()
        if pid_ == 0:
          code = 3
          try:
            child_setup(jobdir)
            left = max(5., min(budget, deadline - time.time()))
            run_job(pid, t, s, ns, per, seed, jobdir, left, shrink_s)
            code = 0
          except BaseException:
            try: traceback.print_exc()
            except BaseException: pass
          finally:
            os._exit(code)
        running[pid_] = (t, s, ns, per, jobdir)
      if failure is not None and pending: pending = []
      time.sleep(0.02)
      for p in list(running):
        if p not in running: continue
        t, s, ns, per, jobdir = running[p]
        r, st = os.waitpid(p, os.WNOHANG)
        if r == 0:
          # hang?
          try: m = os.stat(os.path.join(jobdir, 'current.json')).st_mtime
          except OSError: continue
          if time.time() - m > CASE_HANG:
            killpg(p); os.waitpid(p, 0); del running[p]
            crashed.append((t, s, per, jobdir, 'hang'))
          continue
        del running[p]
        killpg(p)
        rj = os.path.join(jobdir, 'result.json')
        if os.path.exists(rj):
          with open(rj) as f: res = json.load(f)
          results.append(res)
          if res['error']: errors.append('%s[%d]: %s' % (t.name, s, res['error']))
          if res['failure'] and failure is None:
            failure = dict(test=t.name, case=res['failure']['case'], error=res['failure']['error'],
                           shard=s, count=per)
            pending = []
        elif os.WIFSIGNALED(st):
          crashed.append((t, s, per, jobdir, 'signal %d' % os.WTERMSIG(st)))
        else:
          try:
            with open(os.path.join(jobdir, 'stderr'), errors='replace') as f: e = f.read()[-3000:]
          except OSError: e = ''
          errors.append('%s[%d]: worker ended with %r\n%s' % (t.name, s, st, e))
        shutil.rmtree(os.path.join(jobdir, 'cwd'), ignore_errors=True)
        if failure is not None:
          # give the others no more time
          for q in list(running):
            killpg(q); os.waitpid(q, 0); del running[q]
  finally:
    for q in list(running):
      killpg(q)
  return results, failure, errors, crashed


def killpg(p):
  try: os.killpg(p, signal.SIGKILL)
  except OSError:
    try: os.kill(p, signal.SIGKILL)
    except OSError: pass


def write_replay(pid, rep):
  d = os.environ.get('PBT_REPLAYS', os.path.join(VERIF, 'evidence', 'replays'))
  os.makedirs(d, exist_ok=True)
  h = hashlib.md5(key({k: rep[k] for k in rep if k != 'error'}).encode()).hexdigest()[:10]
  f = os.path.join(d, '%s-%s.json' % (pid, h))
  with open(f, 'w') as o: json.dump(rep, o, indent=1, sort_keys=True)
  return f


def fresh(pid, replay, timeout):
  """Re-runs a replay file in a new process: 'fail', 'pass', 'hang' or 'crash'."""
  p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'run.py'), pid, '--replay', replay, '--inner'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
  try:
    out, _ = p.communicate(timeout=timeout)
  except subprocess.TimeoutExpired:
    killpg(p.pid); p.communicate()
    return 'hang', ''
  out = out.decode('utf8', 'replace')
  if p.returncode == 0: return 'pass', out
  if p.returncode == 1: return 'fail', out
  if p.returncode < 0: return 'crash', out + '\nsignal %d' % -p.returncode
  return 'error', out


def read_known():
  f = os.path.join(VERIF, 'known_findings.txt')
  out = []
  if os.path.exists(f):
    for line in open(f):
      line = line.strip()
      if line.startswith('finding:'):
        d = dict(w.split('=', 1) for w in line.split() if '=' in w and w.split('=')[0] in ('property', 'probe'))
        d['text'] = line.split(' what=', 1)[1] if ' what=' in line else line
        out.append(d)
  return out


def run_known(pid, mod):
  """Runs the deterministic probe of every listed finding of this property."""
  n = 0
  probes = getattr(mod, 'PROBES', {})
  for k in read_known():
    if k.get('property') != pid: continue
    pr = probes.get(k.get('probe'))
    if pr is None: raise HarnessError('no probe %r for a listed finding' % k.get('probe'))
    n += 1
    try:
      broken = pr()           # True while the finding is still there
    except Exception as e:
      broken = True
    if broken: print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
  return n


def main(argv):
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int, default=None)
  ap.add_argument('--replay')
  ap.add_argument('--inner', action='store_true')
  ap.add_argument('--only')
  ap.add_argument('--jobs', type=int, default=int(os.environ.get('PBT_JOBS', os.cpu_count() or 4)))
  a = ap.parse_args(argv)
  if a.seed is None:
    try: a.seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: a.seed = int(hashlib.md5(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
  if a.tier not in ('quick', 'thorough'): a.tier = 'quick'
  pid = a.property.upper()
  t0 = time.time()
  if a.replay: a.replay = os.path.abspath(a.replay)
  scratch = tempfile.mkdtemp(prefix='pbt-%s-' % pid, dir='/tmp')
  try:
    try:
      how = prepare_extensions(scratch)
      setup_paths(scratch)
      import_pygeode()
      mod = load_property(pid)
      if a.replay: return replay(pid, mod, a)
      return check(pid, mod, a, scratch, t0, how)
    except SystemExit: raise
    except BaseException:
      traceback.print_exc()
      print('ERROR of the check %s (not a verdict)' % pid)
      return 2
  finally:
    os.chdir('/')
    sys.stdout.flush()
    shutil.rmtree(scratch, ignore_errors=True)


def setup():
  '''Nothing needs building ahead of time: checks that what the checks need is there.'''
  scratch = tempfile.mkdtemp(prefix='pbt-setup-', dir='/tmp')
  try:
    how = prepare_extensions(scratch)
    setup_paths(scratch)
    import hypothesis
    p = import_pygeode()
    print('pygeode from %s, extensions %s, hypothesis %s' % (p.__file__, how, hypothesis.__version__))
    return 0
  finally:
    os.chdir('/'); shutil.rmtree(scratch, ignore_errors=True)


def replay(pid, mod, a):
  with open(a.replay) as f: rep = json.load(f)
  tests = {t.name: t for t in mod.TESTS}
  t = tests[rep['test']]
  if rep.get('kind') == 'shard':
    # the failure needs the cases that ran before it in the same process
    d = tempfile.mkdtemp(); jobdir = d
    so = os.dup(1); fd = os.open(os.devnull, os.O_WRONLY); os.dup2(fd, 1)
    run_job(pid, t, rep['shard'], 1, rep['count'], rep['seed'], jobdir, 600, 5)
    os.dup2(so, 1)
    with open(os.path.join(jobdir, 'result.json')) as f: res = json.load(f)
    err = res['failure'] and res['failure']['error']
    if res['error']: print(res['error']); return 2
  else:
    so = os.dup(1); fd = os.open(os.devnull, os.O_WRONLY); sys.stdout.flush(); os.dup2(fd, 1)
    try: ctx, err = run_case(t, rep['case'])
    finally:
      sys.stdout.flush(); os.dup2(so, 1)
  if err:
    print(err)
    if not a.inner: print('VIOLATION property=%s replay=%s' % (pid, a.replay))
    return 1
  print('replay: the case passes')
  return 0


def check(pid, mod, a, scratch, t0, how):
  from collections import Counter
  tests = [t for t in mod.TESTS if not a.only or t.name in a.only.split(',')]
  if not tests: raise HarnessError('no tests selected')
  nknown = run_known(pid, mod) if not a.only else 0
  results, failure, errors, crashed = run_all(pid, tests, a.tier, a.seed, scratch, a.jobs)

  # crashes and hangs: believed once they are reproduced in a process of their own
  for t, s, per, jobdir, why in crashed:
    if failure is not None: break
    try:
      with open(os.path.join(jobdir, 'current.json')) as f: case = json.load(f)
    except (OSError, ValueError):
      errors.append('%s[%d]: died (%s) before its first case' % (t.name, s, why)); continue
    rep = dict(property=pid, kind='case', test=t.name, case=case, error=why)
    rf = write_replay(pid, rep)
    r, out = fresh(pid, rf, HANG_CONFIRM)
    if r in ('fail', 'crash', 'hang'):
      failure = dict(test=t.name, case=case, error='%s; alone: %s\n%s' % (why, r, out), file=rf)
    elif why.startswith('signal') and why != 'signal 9':
      rep = dict(property=pid, kind='shard', test=t.name, shard=s, count=per, seed=a.seed, error=why)
      os.unlink(rf); rf = write_replay(pid, rep)
      r, out = fresh(pid, rf, 600)
      if r in ('fail', 'crash'):
        failure = dict(test=t.name, case=case, error='%s; the shard again: %s\n%s' % (why, r, out), file=rf)
      else:
        errors.append('%s[%d]: died (%s), not reproduced' % (t.name, s, why))
    else:
      os.unlink(rf)
      errors.append('%s[%d]: %s, not reproduced alone' % (t.name, s, why))

  nviol = 0
  line = None
  if failure is not None:
    rf = failure.get('file')
    if rf is None:
      rf = write_replay(pid, dict(property=pid, kind='case', test=failure['test'], case=failure['case'],
                                  error=failure['error']))
      r, out = fresh(pid, rf, 300)
      if r == 'pass':
        os.unlink(rf)
        rf = write_replay(pid, dict(property=pid, kind='shard', test=failure['test'], shard=failure['shard'],
                                    count=failure['count'], seed=a.seed, case=failure['case'],
                                    error=failure['error']))
    nviol = 1
    print('test: %s' % failure['test'])
    print('case: %s' % json.dumps(failure['case'])[:4000])
    print(failure['error'][-3000:])
    line = 'VIOLATION property=%s replay=%s' % (pid, rf)

  # evidence
  ev = 0; ntall = 0; labels = Counter(); per = {}; samples = []; timeup = []
  nts = {}
  for r in results:
    ev += r['evaluations']
    nts.setdefault(r['test'], set()).update(r['nontrivial'])
    p = per.setdefault(r['test'], dict(evaluations=0, nontrivial=0, wall_s=0.))
    p['evaluations'] += r['evaluations']; p['wall_s'] = round(p['wall_s'] + r['wall'], 2)
    for l, n in r['labels'].items(): labels['%s: %s' % (r['test'], l)] += n
    if r['timeup']: timeup.append('%s[%d]' % (r['test'], r['shard']))
    if r['samples'] and sum(1 for q in samples if q['test'] == r['test']) < 1:
      samples.append(dict(test=r['test'], case=r['samples'][-1]))
  for n in nts: per[n]['nontrivial'] = len(nts[n]); ntall += len(nts[n])
  cov = dict(evaluations=ev, distinct_nontrivial=ntall, rule=mod.RULE, samples=samples[:12],
             per_test=per, classes=dict(sorted(labels.items())), known_findings_probed=nknown,
             extensions=how)
  if timeup: cov['stopped_by_time_budget'] = timeup
  if failure is not None: cov['violation'] = dict(test=failure['test'], case=failure['case'])
  doc = dict(property=pid, tier=a.tier, seed=a.seed, level='exploration', coverage=cov,
             assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=nviol)
  if not a.only:
    d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % pid)
    with open(tmp, 'w') as f: json.dump(doc, f, indent=1)
    os.rename(tmp, os.path.join(d, '%s.json' % pid))
  print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (pid, a.tier, a.seed, ev, ntall, time.time() - t0))
  if os.environ.get('PBT_VERBOSE'):
    for n, p in per.items(): print('  %-28s %s' % (n, p))
    for l, n in sorted(labels.items()): print('     %-50s %d' % (l, n))
  if line:
    print(line); return 1
  if errors:
    for e in errors[:5]: print(e)
    print('ERROR of the check %s (not a verdict)' % pid)
    return 2
  return 0
