"""Input transforms and wrappers."""
import numpy as np
from props.common import count, mask_kept, mean, miss, one
from vc.contract import contract
from weatherbenchX.metrics import base
from weatherbenchX.metrics import deterministic as det
from weatherbenchX.metrics import probabilistic as prob
from weatherbenchX.metrics import wrappers

NAN = float('nan')
INF = float('inf')


def nanif(b, x, v):
  return b.where(b.isnan(x), b.f(NAN), v)


class Both(base.Statistic):
  """Exposes the inputs a statistic is given: p - t is not enough to tell which side was transformed."""

  def compute(self, predictions, targets):
    return {**{('p', k): v for k, v in predictions.items()}, **{('t', k): v for k, v in targets.items()}}


# Which input is transformed, and in which order

WHICH = [dict(which=w) for w in ('predictions', 'targets', 'both')]


@contract('wrap.which', cases=WHICH)
def _(b, which):
  """Only the chosen input is transformed, in all its variables."""
  b.dim('x'); b.dim('y')
  p = b.array('p', ['x', 'y'], nan=True)
  q = b.array('q', ['y'], nan=True)
  t = b.array('t', ['x', 'y'], nan=True)
  u = b.array('u', ['x'], nan=True)
  f = lambda x: 2.0 * x + 1.0
  def run():
    w = wrappers.WrappedStatistic(Both(), wrappers.Inline(which, f, 'f'))
    return w.compute({'v': p.da, 'w': q.da}, {'v': t.da, 'z': u.da})
  fp = f if which != 'targets' else (lambda x: x)
  ft = f if which != 'predictions' else (lambda x: x)
  def post(r):
    v = r.value
    r.check('variables', set(v) == {('p', 'v'), ('p', 'w'), ('t', 'v'), ('t', 'z')})
    r.array('p.v', v['p', 'v'], ['x', 'y'], lambda i: fp(p[i]))
    r.array('p.w', v['p', 'w'], ['y'], lambda i: fp(q[i]))
    r.array('t.v', v['t', 'v'], ['x', 'y'], lambda i: ft(t[i]))
    r.array('t.z', v['t', 'z'], ['x'], lambda i: ft(u[i]))
  b.ensures('inputs', run, post)


@contract('wrap.same-object', cases=WHICH)
def _(b, which):
  """Predictions and targets may be one and the same object, and are transformed as chosen."""
  b.dim('x')
  p = b.array('p', ['x'], nan=True)
  f = lambda x: 2.0 * x + 1.0
  def run():
    both = {'v': p.da}
    out = wrappers.WrappedStatistic(Both(), wrappers.Inline(which, f, 'f')).compute(both, both)
    return out, both
  def post(r):
    v, both = r.value
    r.check('variables', set(v) == {('p', 'v'), ('t', 'v')} and set(both) == {'v'})
    r.array('p', v['p', 'v'], ['x'], lambda i: f(p[i]) if which != 'targets' else p[i])
    r.array('t', v['t', 'v'], ['x'], lambda i: f(p[i]) if which != 'predictions' else p[i])
    r.array('input', both['v'], ['x'], lambda i: p[i])
  b.ensures('inputs', run, post)


@contract('wrap.subselect-sides', cases=[dict(vs=v) for v in (['v'], ['v', 'z'], ['w', 'z'], [])])
def _(b, vs):
  """The chosen variables of each input, whether or not the other has them."""
  b.dim('x')
  a = {k: b.array(k, ['x'], nan=True) for k in ('p', 'q', 't', 'u')}
  sides = {('p', 'v'): 'p', ('p', 'w'): 'q', ('t', 'v'): 't', ('t', 'z'): 'u'}
  def run():
    return wrappers.SubselectVariablesForStatistic(Both(), vs).compute({'v': a['p'].da, 'w': a['q'].da}, {'v': a['t'].da, 'z': a['u'].da})
  def post(r):
    r.check('variables', set(r.value) == {k for k in sides if k[1] in vs})
    for k, h in sides.items():
      if k[1] in vs:
        r.array(str(k), r.value[k], ['x'], lambda i, h=h: a[h][i])
  b.ensures('selected', run, post)


@contract('wrap.invalid', mode='bounded', samples=1)
def _(b):
  b.dim('x', size=1)
  b.ensures('refused', lambda: wrappers.ReLU('prediction'), lambda r: r.raises('refused', ValueError))


@contract('wrap.order', cases=WHICH)
def _(b, which):
  """A list of transforms is applied in its order; other metrics' statistics are wrapped one by one."""
  b.dim('x')
  p = b.array('p', ['x'], nan=True)
  t = b.array('t', ['x'], nan=True)
  add, dbl = (lambda x: x + 1.0), (lambda x: 2.0 * x)
  def run():
    m = wrappers.WrappedMetric(det.RMSE(), [wrappers.Inline(which, add, 'a'), wrappers.Inline('both', dbl, 'b'), wrappers.Inline('targets', add, 'c')])
    return {k: s.compute({'v': p.da}, {'v': t.da})['v'] for k, s in m.statistics.items()}
  fp = lambda x: 2.0 * (x + 1.0) if which != 'targets' else 2.0 * x
  ft = lambda x: (2.0 * (x + 1.0) if which != 'predictions' else 2.0 * x) + 1.0
  def post(r):
    r.check('statistics', set(r.value) == {'SquaredError'})
    d = lambda i: fp(p[i]) - ft(t[i])
    r.array('value', r.value['SquaredError'], ['x'], lambda i: d(i) * d(i))
  b.ensures('statistics', run, post)


@contract('wrap.metric-values', cases=[dict(suffix=s) for s in (None, 'short')])
def _(b, suffix):
  """The wrapped metric's final formula is the metric's own, with its own statistic names."""
  b.dim('x')
  p = b.array('p', ['x'])
  b.assume_all(['x'], lambda i: p[i] >= 0.0)
  def run():
    m = wrappers.WrappedMetric(det.RMSE(), [wrappers.ReLU('both')], suffix)
    assert list(m.statistics) == list(det.RMSE().statistics)
    return m.values_from_mean_statistics({k: {'v': p.da} for k in m.statistics})['v']
  b.ensures('values', run, lambda r: r.array('value', r.value, ['x'], lambda i: b.sqrt(p[i])))


@contract('wrap.renamed')
def _(b):
  """A short name changes the name only."""
  b.dim('x')
  p = b.array('p', ['x'], nan=True)
  t = b.array('t', ['x'], nan=True)
  def run():
    m = wrappers.WrappedMetric(det.MAE(), [wrappers.Inline('predictions', lambda x: 2.0 * x, 'a')], 'short')
    (s,) = m.statistics.values()
    return s.unique_name, s.compute({'v': p.da}, {'v': t.da})['v']
  def post(r):
    r.check('name', r.value[0] == 'AbsoluteError_short')
    d = lambda i: 2.0 * p[i] - t[i]
    r.array('value', r.value[1], ['x'], lambda i: b.where(d(i) < 0.0, -d(i), d(i)))
  b.ensures('renamed', run, post)


@contract('wrap.subselect', cases=[dict(vs=v) for v in (['v'], ['v', 'w'], ['z'])])
def _(b, vs):
  """Only the chosen variables are scored."""
  b.dim('x')
  a = {k: b.array(k, ['x'], nan=True) for k in ('p', 'q', 't', 'u')}
  def run():
    m = wrappers.SubselectVariables(det.Bias(), vs)
    out = {k: s.compute({'v': a['p'].da, 'w': a['q'].da}, {'v': a['t'].da, 'w': a['u'].da}) for k, s in m.statistics.items()}
    return out, m.values_from_mean_statistics(out)
  def post(r):
    stats, values = r.value
    for d in list(stats.values()) + [values]:
      r.check('variables', set(d) == set(vs) & {'v', 'w'})
      if 'v' in vs:
        r.array('v', d['v'], ['x'], lambda i: a['p'][i] - a['t'][i])
      if 'w' in vs:
        r.array('w', d['w'], ['x'], lambda i: a['q'][i] - a['u'][i])
  b.ensures('selected', run, post)


# Thresholding

def near(ts):
  """Values at, just above and away from thresholds; missing values."""
  pool = [float(t) for t in ts if np.isfinite(t)]
  return lambda rng, s: np.where(rng.random(s) < 0.2, np.nan, np.where(rng.random(s) < 0.6, rng.choice(pool + [np.nextafter(t, 1e9) for t in pool], s), rng.normal(size=s)))


@contract('binary.constants', cases=[dict(th=t) for t in (0.5, [0.5], [-1.0, 0.0, 2.0], (0.25, 1.0), [0.7, 0.1, 273.15])])
def _(b, th):
  """One for values above the threshold, zero otherwise, missing when missing; one entry per threshold."""
  ts = [th] if isinstance(th, float) else list(th)
  b.dim('x'); b.dim('y'); b.dim('th', size=len(ts), labels=ts)
  p = b.array('p', ['x', 'y'], nan=True, inf=True, gen=near(ts))
  b.ensures('binary', lambda: wrappers.ContinuousToBinary('both', th, 'th').transform_fn(p.da),
            lambda r: r.array('value', r.value, ['x', 'y', 'th'], lambda i: nanif(b, p[i], one(b, p[i] > ts[i['th']])), const_coords={'th': ts}))


@contract('binary.array', cases=[dict(kind=k) for k in ('array', 'dataset')])
def _(b, kind):
  """Thresholds varying in space are matched by position; a Dataset supplies each variable its own."""
  b.dim('x'); b.dim('y'); b.dim('th')
  p = b.array('p', ['x', 'y'], nan=True, da_name='v')
  h = b.array('h', ['th', 'x'], da_name='v')
  g = b.array('g', ['th', 'x'], da_name='w')
  def run():
    t = h.da if kind == 'array' else b.xr.Dataset({'w': g.da, 'v': h.da})
    return wrappers.ContinuousToBinary('both', t, 'th', 'name').transform_fn(p.da)
  b.ensures('binary', run, lambda r: r.array('value', r.value, ['x', 'y', 'th'], lambda i: nanif(b, p[i], one(b, p[i] > h[i]))))


@contract('binary.refused', cases=[dict(k=k) for k in range(3)])
def _(b, k):
  """Array thresholds without a name, without the threshold dimension or without the variable are refused."""
  b.dim('x'); b.dim('th')
  p = b.array('p', ['x'], da_name='v')
  h = b.array('h', ['th', 'x'], da_name='w')
  g = b.array('g', ['x'], da_name='v')
  run = [lambda: wrappers.ContinuousToBinary('both', h.da, 'th'),
         lambda: wrappers.ContinuousToBinary('both', g.da, 'th', 'n').transform_fn(p.da),
         lambda: wrappers.ContinuousToBinary('both', b.xr.Dataset({'w': h.da}), 'th', 'n').transform_fn(p.da)][k]
  b.ensures('refused', run, lambda r: r.raises('refused', ValueError, AssertionError, KeyError))


# Bins and cumulative probabilities

EDGES = [-INF, -0.5, 0.5, 2.0]


@contract('bins.constants', cases=[dict(kind=k) for k in ('list', 'tuple', 'array')])
def _(b, kind):
  """Exactly one right-closed interval contains each valid value within the edges."""
  b.dim('x'); b.dim('y'); b.dim('bin', size=3)
  p = b.array('p', ['x', 'y'], nan=True, inf=True)
  e = {'list': list, 'tuple': tuple, 'array': np.array}[kind](EDGES)
  def spec(i):
    k = i['bin']
    low = b.true() if EDGES[k] == -INF else p[i] > EDGES[k]
    return nanif(b, p[i], one(b, low & (p[i] <= EDGES[k + 1])))
  def post(r):
    # -inf itself is not strictly above the open lower edge
    given = lambda i: b.isnan(p[i]) | b.finite(p[i])
    r.array('value', r.value, ['x', 'y', 'bin'], spec, coords=False, given=given,
            const_coords={'bin_left': EDGES[:-1], 'bin_right': EDGES[1:]})
  b.ensures('bins', lambda: wrappers.ContinuousToBins('both', e, 'bin').transform_fn(p.da), post)


@contract('bins.array', cases=[dict(kind=k) for k in ('array', 'dataset')])
def _(b, kind):
  """Edges varying in space (or per variable) are matched by position."""
  b.allow_labels = False
  b.dim('x'); b.dim('y')
  b.allow_labels = True
  p = b.array('p', ['x', 'y'], nan=True, da_name='v')
  lab = np.array([0.0, 0.5, 1.0])
  b.dim('bin', size=3, labels=lab)
  h = b.array('h', ['bin', 'x'], da_name='v', gen=lambda rng, shape: np.sort(rng.choice([-2., -1., -0.5, 0., 0.5, 1.], (shape[1], 3)), axis=1).T + np.array([0, 0.1, 0.2])[:, None])
  b.assume_all(['x'], lambda i: (h(i, bin=0) < h(i, bin=1)) & (h(i, bin=1) < h(i, bin=2)))
  b.dim('out', size=2)
  def run():
    e = h.da if kind == 'array' else b.xr.Dataset({'v': h.da, 'w': h.da + 1.0})
    return wrappers.ContinuousToBins('both', e, 'bin', 'name').transform_fn(p.da).rename(bin='out')
  b.ensures('bins', run, lambda r: r.array('value', r.value, ['x', 'y', 'out'], lambda i: nanif(
      b, p[i], one(b, (p[i] > h(i, bin=i['out'])) & (p[i] <= h(i, bin=i['out'] + 1)))), coords=False))


@contract('cdf.constants', cases=[dict(incl=i) for i in (True, False)])
def _(b, incl):
  """At or below (or strictly below) each threshold."""
  th = [-0.5, 0.1, 273.15]
  b.dim('x'); b.dim('th', size=3, labels=th)
  p = b.array('p', ['x'], nan=True, inf=True, gen=near(th))
  b.ensures('cdf', lambda: wrappers.ContinuousToCDF('both', th, 'th', right_inclusive=incl).transform_fn(p.da),
            lambda r: r.array('value', r.value, ['x', 'th'], lambda i: nanif(b, p[i], one(b, (p[i] <= th[i['th']]) if incl else (p[i] < th[i['th']]))),
                              const_coords={'th': th}))


@contract('cdf.monotone', cases=[dict(enforce=e, what=w) for e in (True, False) for w in ('CDF', 'Bins')])
def _(b, enforce, what):
  """Thresholds that do not increase (or are missing) are refused unless allowed; missing thresholds give missing values."""
  b.allow_labels = False
  b.dim('x')
  b.dim('th', size=3, labels=[0.0, 1.0, 2.0])
  b.allow_labels = True
  p = b.array('p', ['x'], nan=True)
  h = b.array('h', ['th', 'x'], nan=True, gen=lambda rng, shape: (np.arange(3)[:, None] - 1.0) * rng.choice([1.0, 1.0, 1.0, 0.0, -1.0, np.nan], (1, shape[1])))
  b.dim('out', size=2)
  up = b.all({}, ['x'], lambda i: (h(i, th=0) < h(i, th=1)) & (h(i, th=1) < h(i, th=2)))
  cls = getattr(wrappers, 'ContinuousTo' + what)
  def below(i, k):
    return nanif(b, h(i, th=k), nanif(b, p[i], one(b, p[i] <= h(i, th=k))))
  def post(r):
    if r.raised is not None:
      r.raises('refused', ValueError)
      r.holds('only then', ~up if enforce else ~b.true())
      return
    if enforce:
      r.holds('increasing', up)
    if what == 'CDF':
      r.array('value', r.value, ['x', 'th'], lambda i: below(i, i['th']), coords=False)
    else:
      r.array('value', r.value.rename(th='out'), ['x', 'out'], lambda i: below(i, i['out'] + 1) - below(i, i['out']), coords=False)
  b.ensures('transform', lambda: cls('both', h.da, 'th', 'name', enforce_monotonicity=enforce).transform_fn(p.da), post)


def day(rng, shape):
  d = rng.choice(np.array(['2020-02-28', '2020-12-31', '2019-12-31', '2021-02-28'], dtype='datetime64[D]'), shape)
  return d.astype('datetime64[ns]')


def lead(rng, shape):
  return (24 * rng.integers(0, 4, shape)).astype('timedelta64[h]').astype('timedelta64[ns]')


DAYS = np.arange(np.datetime64('2019-12-30', 'ns'), np.datetime64('2021-03-10', 'ns'), np.timedelta64(24, 'h'))
LEADS = (24 * np.arange(4)).astype('timedelta64[h]').astype('timedelta64[ns]')


@contract('thresholds.time', cases=[dict(chunk=c, th=t) for c, t in (
    ('init_lead', 'valid_time'), ('init_lead', 'init_lead'), ('init_lead', 'doy_lead'), ('init_lead', 'none'),
    ('valid', 'valid_time'), ('valid', 'dayofyear'), ('valid', 'none'), ('neither', 'none'))])
def _(b, chunk, th):
  """Time-dependent thresholds are taken at the element's own time."""
  b.allow_labels = False
  b.dim('x')
  if chunk == 'init_lead':
    b.dim('init_time'); b.dim('lead_time')
    it = b.coord('init_time', 'init_time', 'M', gen=day)
    lt = b.coord('lead_time', 'lead_time', 'm', gen=lead)
    dims, vt = ['init_time', 'lead_time', 'x'], lambda i: it[i] + lt[i]
  elif chunk == 'valid':
    b.dim('valid_time')
    v = b.coord('valid_time', 'valid_time', 'M', gen=day)
    dims, vt = ['valid_time', 'x'], lambda i: v[i]
  else:
    dims = ['x']
  p = b.array('p', dims, nan=True)
  b.dim('th', size=2, labels=[1.0, 2.0])
  names = {}
  if th == 'valid_time':
    b.label_dim('T1', DAYS)
    names = {'T1': 'valid_time'}
    at = lambda i: dict(T1=b.label(vt(i)))
  elif th == 'init_lead':
    b.label_dim('T1', DAYS); b.label_dim('T2', LEADS)
    names = {'T1': 'init_time', 'T2': 'lead_time'}
    at = lambda i: dict(T1=b.label(it[i]), T2=b.label(lt[i]))
  elif th == 'doy_lead':
    b.label_dim('T1', np.arange(1, 367)); b.label_dim('T2', LEADS)
    names = {'T1': 'dayofyear', 'T2': 'lead_time'}
    at = lambda i: dict(T1=b.label(b.doy(it[i])), T2=b.label(lt[i]))
  elif th == 'dayofyear':
    b.label_dim('T1', np.arange(1, 367))
    names = {'T1': 'dayofyear'}
    at = lambda i: dict(T1=b.label(b.doy(vt(i))))
  else:
    at = lambda i: {}
  h = b.array('h', list(names) + ['x', 'th'])
  b.ensures('cdf', lambda: wrappers.ContinuousToCDF('both', h.da.rename(names), 'th', 'name', enforce_monotonicity=False).transform_fn(p.da),
            lambda r: r.array('value', r.value, dims + ['th'], lambda i: nanif(b, p[i], one(b, p[i] <= h(i, **at(i)))), coords=False))


# Ensembles

@contract('weibull', cases=[dict(skipna=s) for s in (False, True)])
def _(b, skipna):
  """The number of (present) members with the event over the ensemble size plus one."""
  b.dim('m', lo=1, hi=4); b.dim('x')
  p = b.array('p', ['m', 'x'], nan=True, gen=lambda rng, shape: np.where(rng.random(shape) < 0.2, np.nan, rng.integers(0, 2, shape)))
  def spec(i):
    f = (lambda j: b.where(b.isnan(p[j]), b.f(0.0), p[j])) if skipna else (lambda j: p[j])
    return b.sum(i, ['m'], f) / (b.size('m') + 1.0)
  b.ensures('probability', lambda: wrappers.WeibullEnsembleToProbabilistic('predictions', 'm', skipna).transform_fn(p.da),
            lambda r: r.array('value', r.value, ['x'], spec))


@contract('weibull.refused', mode='bounded', samples=1, cases=[dict(which=w) for w in ('targets', 'both')])
def _(b, which):
  b.dim('x', size=1)
  b.ensures('refused', lambda: wrappers.WeibullEnsembleToProbabilistic(which), lambda r: r.raises('refused', AssertionError, ValueError))


@contract('averaged', cases=[dict(skipna=s) for s in (False, True)])
def _(b, skipna):
  """Averaging a statistic over members: the mean of each member's value, for every variable."""
  b.dim('m', lo=1, hi=4); b.dim('x')
  p = b.array('p', ['m', 'x'], nan=True)
  q = b.array('q', ['m'], nan=True)
  t = b.array('t', ['x'], nan=True)
  u = b.array('u', [], nan=True)
  class Err:
    def __init__(self, a, c): self.a, self.c = a, c
    def __getitem__(self, i): return (self.a[i] - self.c[i]) * (self.a[i] - self.c[i])
  def run():
    m = prob.EnsembleAveragedMetric(det.RMSE(), ensemble_dim='m', skipna_ensemble=skipna)
    (s,) = m.statistics.values()
    return s.compute({'v': p.da, 'w': q.da}, {'v': t.da, 'w': u.da}), m.values_from_mean_statistics({'SquaredError': {'v': t.da}})['v']
  def post(r):
    r.check('variables', set(r.value[0]) == {'v', 'w'})
    r.array('v', r.value[0]['v'], ['x'], lambda i: mean(b, Err(p, t), i, 'm', skipna))
    r.array('w', r.value[0]['w'], [], lambda i: mean(b, Err(q, u), i, 'm', skipna))
    r.array('value', r.value[1], ['x'], lambda i: b.sqrt(t[i]), given=lambda i: b.isnan(t[i]) | (t[i] >= 0.0))
  b.ensures('average', run, post)


@contract('averaged.refused')
def _(b):
  """A variable without the ensemble dimension is refused."""
  b.dim('x')
  p = b.array('p', ['x'])
  b.ensures('refused', lambda: prob.EnsembleAveragedStatistic(det.Error(), ensemble_dim='m', skipna_ensemble=False).compute({'v': p.da}, {'v': p.da}),
            lambda r: r.raises('refused', ValueError))


# Element-wise and structural transforms

KEEP = {
    'mean': lambda: wrappers.EnsembleMean('both', 'm'),
    'bins': lambda: wrappers.ContinuousToBins('both', [0.5, 2.0], 'b'),
    'cdf': lambda: wrappers.ContinuousToCDF('both', [0.5, 2.0], 'b'),
    'binary': lambda: wrappers.ContinuousToBinary('both', [0.5], 'thr'),
    'relu': lambda: wrappers.ReLU('both'),
    'shift': lambda: wrappers.ShiftAlongNewDim('both', [0.5, 1.0], 'sh', 'f'),
    'inline': lambda: wrappers.Inline('both', lambda x: 2.0 * x, 'f'),
    'weibull': lambda: wrappers.WeibullEnsembleToProbabilistic('predictions', 'm'),
}


@contract('transform.mask', cases=[dict(name=n) for n in KEEP])
def _(b, name):
  """Transforms keep the mask of the elements."""
  b.dim('m', lo=1, hi=4); b.dim('x'); b.dim('y')
  m = b.array('mask', ['x', 'y'], kind='b', coords=False)
  p = b.array('p', ['m', 'x', 'y']) if name != 'weibull' else b.array('p', ['m', 'x', 'y'], gen=lambda rng, s: rng.integers(0, 2, s).astype(float))
  def post(r):
    r.check('elements', {'x', 'y'} <= set(r.value.dims))
    mask_kept(r, r.value, m, ['x', 'y'])
  b.ensures('transform', lambda: KEEP[name]().transform_fn(p.da.assign_coords(mask=m.da)), post)


@contract('relu')
def _(b):
  """Negative values become zero; missing values stay missing."""
  b.dim('x')
  p = b.array('p', ['x'], nan=True, inf=True)
  b.ensures('relu', lambda: wrappers.ReLU('both').transform_fn(p.da),
            lambda r: r.array('value', r.value, ['x'], lambda i: nanif(b, p[i], b.where(p[i] > 0.0, p[i], b.f(0.0)))))


@contract('shift', cases=[dict(s=s) for s in (1.5, [1.5], (2.0, 0.5), [-1.0, 3.0, 2.0], 'dataset')])
def _(b, s):
  """One copy per shift value, shifted by it."""
  b.dim('x')
  p = b.array('p', ['x'], nan=True, da_name='v')
  if s == 'dataset':
    b.dim('k')
    h = b.array('h', ['k', 'x'], nan=True, da_name='v')
    b.ensures('shift', lambda: wrappers.ShiftAlongNewDim('both', b.xr.Dataset({'v': h.da, 'w': h.da * 2.0}), 'k', 'n').transform_fn(p.da),
              lambda r: r.array('value', r.value, ['x', 'k'], lambda i: p[i] + h[i]))
    return
  ss = [s] if isinstance(s, float) else list(s)
  b.dim('k', size=len(ss), labels=ss)
  b.ensures('shift', lambda: wrappers.ShiftAlongNewDim('both', s, 'k', 'n').transform_fn(p.da),
            lambda r: r.array('value', r.value, ['x', 'k'], lambda i: p[i] + ss[i['k']], const_coords={'k': ss}))


@contract('shift.refused')
def _(b):
  """A shift Dataset without the new dimension is refused."""
  b.dim('x')
  p = b.array('p', ['x'], da_name='v')
  b.ensures('refused', lambda: wrappers.ShiftAlongNewDim('both', b.xr.Dataset({'v': p.da}), 'k', 'n').transform_fn(p.da),
            lambda r: r.raises('refused', RuntimeError, ValueError))


@contract('rename')
def _(b):
  """Dimensions are renamed, values kept."""
  b.dim('x'); b.dim('y'); b.same_dim('z', 'x')
  p = b.array('p', ['x', 'y'], nan=True)
  b.ensures('rename', lambda: wrappers.Rename('both', {'x': 'z'}).transform_fn(p.da),
            lambda r: r.array('value', r.value, ['z', 'y'], lambda i: p({'x': i['z'], 'y': i['y']}), dim_map={'z': 'x'}))


@contract('select', cases=[dict(k=k) for k in range(4)])
def _(b, k):
  """Selection by label, then by position; other dimensions untouched; the input is not modified."""
  b.dim('x'); b.dim('level', size=4, labels=[250, 500, 700, 850])
  p = b.array('p', ['x', 'level'], nan=True)
  if k == 0:
    f, dims, g = (lambda: wrappers.Select('both', sel={'level': 700})), ['x'], lambda i: {**i, 'level': 2}
  elif k == 1:
    b.dim('out', size=2)
    f, dims, g = (lambda: wrappers.Select('both', sel={'level': [850, 250]})), ['x', 'out'], lambda i: {**i, 'level': [3, 0][i['out']]}
  elif k == 2:
    b.dim('out', size=2)
    f, dims, g = (lambda: wrappers.Select('both', isel={'level': slice(1, 3)})), ['x', 'out'], lambda i: {**i, 'level': 1 + i['out']}
  else:
    f, dims, g = (lambda: wrappers.Select('both', sel={'level': [850, 250, 500]}, isel={'level': 1})), ['x'], lambda i: {**i, 'level': 0}
  def run():
    d = p.da
    out = f().transform_fn(d)
    return (out.rename(level='out') if 'out' in dims else out), d
  def post(r):
    r.array('value', r.value[0], dims, lambda i: p[g(i)], coords=False)
    r.array('input', r.value[1], ['x', 'level'], lambda i: p[i])
  b.ensures('select', run, post)


@contract('select.empty')
def _(b):
  """Without a selection nothing changes."""
  b.dim('x'); b.dim('y')
  p = b.array('p', ['x', 'y'], nan=True)
  b.ensures('select', lambda: wrappers.Select('both').transform_fn(p.da), lambda r: r.array('value', r.value, ['x', 'y'], lambda i: p[i]))


@contract('stack', mode='bounded', samples=60, cases=[dict(new=n) for n in ('n', 'a')])
def _(b, new):
  """Stacking keeps every element once, the first dimension slowest, under a plain 0, 1, ... dimension."""
  b.dim('a'); b.dim('c'); b.dim('x')
  p = b.array('p', ['a', 'c', 'x'], nan=True)
  def post(r):
    da = r.value
    na, nc = b.sizes['a'], b.sizes['c']
    r.check('dims', set(da.dims) == {new, 'x'} and da.sizes[new] == na * nc)
    r.check('no leftover index', new not in da.coords or list(da[new].values) == list(range(na * nc)))
    for i in range(na):
      for j in range(nc):
        for x in range(b.sizes['x']):
          r.holds('element', b.same(np.float64(da.isel({new: i * nc + j, 'x': x})), p[{'a': i, 'c': j, 'x': x}]))
  b.ensures('stack', lambda: wrappers.StackToNewDimension('both', ['a', 'c'], new).transform_fn(p.da), post)
