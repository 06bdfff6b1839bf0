"""Ensemble mean, variance, spread and error statistics."""
import numpy as np
from vc.contract import contract
from props.common import SIDES, count, mask_kept, masked_pair, mean, one, var
from weatherbenchX import aggregation
from weatherbenchX.metrics import base
from weatherbenchX.metrics import deterministic as det
from weatherbenchX.metrics import probabilistic as prob
from weatherbenchX.metrics import wrappers


def ens(b, lo=1, hi=4, name='p', m='m'):
  b.dim(m, lo=lo, hi=hi)
  if 'x' not in b.sizes if not b.symbolic else 'x' not in b.doms:
    b.dim('x')
  return b.array(name, [m, 'x'], nan=True)


SKIP = [dict(skipna=s) for s in (False, True)]


@contract('ens.variance', cases=SKIP)
def _(b, skipna):
  p = ens(b, lo=2)
  t = b.array('t', ['x'])
  b.ensures('var', lambda: prob.EnsembleVariance('m', skipna).compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['x'], lambda i: var(b, p, i, 'm', skipna)))


@contract('ens.coordinates', cases=[dict(stat=s, side=w) for s in ('var', 'umse', 'each', 'mean') for w in SIDES])
def _(b, stat, side):
  """The mask of either input reaches each ensemble statistic: ratios of them are averaged over the same elements."""
  b.dim('m', lo=2, hi=4); b.dim('x'); b.dim('y')
  m = b.array('mask', ['x', 'y'], kind='b', coords=False)
  p = b.array('p', ['m', 'x', 'y'])
  t = b.array('t', ['y', 'x'])
  def run():
    pd_, td = masked_pair(side, p.da, t.da, m)
    st = {'var': lambda: prob.EnsembleVariance('m'), 'umse': lambda: prob.UnbiasedEnsembleMeanSquaredError('m'),
          'each': lambda: wrappers.WrappedStatistic(det.Error(), wrappers.EnsembleMean('predictions', 'm')),
          'mean': lambda: wrappers.WrappedStatistic(det.SquaredError(), wrappers.EnsembleMean('predictions', 'm'))}[stat]()
    return st.compute({'v': pd_}, {'v': td})['v']
  mu = lambda i: mean(b, p, i, 'm', False)
  spec = {'var': lambda i: var(b, p, i, 'm', False), 'umse': lambda i: debiased(b, p, t, i, False, False),
          'each': lambda i: mu(i) - t[i], 'mean': lambda i: (mu(i) - t[i]) * (mu(i) - t[i])}[stat]
  def post(r):
    r.array('value', r.value, ['x', 'y'], spec)
    mask_kept(r, r.value, m, ['x', 'y'])
  b.ensures('value', run, post)


@contract('ens.mean', cases=[dict(which=w, skipna=s) for w in ('predictions', 'targets', 'both') for s in (False, True)])
def _(b, which, skipna):
  """Ensemble mean of the chosen input; the other is untouched."""
  b.dim('m', lo=1, hi=4); b.dim('x')
  p = b.array('p', ['m', 'x'], nan=True)
  t = b.array('t', ['x', 'm'], nan=True)
  pm = lambda i: mean(b, p, i, 'm', skipna) if which != 'targets' else p[i]
  tm = lambda i: mean(b, t, i, 'm', skipna) if which != 'predictions' else t[i]
  dims = ['x'] if which == 'both' else ['m', 'x']
  b.ensures('error', lambda: wrappers.WrappedStatistic(det.Error(), wrappers.EnsembleMean(which, 'm', skipna)).compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, dims, lambda i: pm(i) - tm(i)))


@contract('ens.mean-missing-dim', cases=[dict(skip=s) for s in (False, True)])
def _(b, skip):
  """Without the ensemble dimension: unchanged if asked for, refused otherwise."""
  b.dim('x')
  p = b.array('p', ['x'], nan=True)
  def post(r):
    if skip:
      r.array('value', r.value, ['x'], lambda i: p[i])
    else:
      r.raises('refused', ValueError, KeyError)
  b.ensures('mean', lambda: wrappers.EnsembleMean('both', 'm', skip_if_ensemble_dim_missing=skip).transform_fn(p.da), post)


def debiased(b, p, t, i, skipna, t_members):
  pm, pb = mean(b, p, i, 'm', skipna), var(b, p, i, 'm', skipna) / count(b, p, i, 'm', skipna)
  if not t_members:
    d = pm - t[i]
    return d * d - pb
  tm, tb = mean(b, t, i, 'k', skipna), var(b, t, i, 'k', skipna) / count(b, t, i, 'k', skipna)
  d = pm - tm
  return d * d - pb - tb


@contract('ens.debiased-mse', cases=[dict(skipna=s, target_members=m) for s in (False, True) for m in (False, True)])
def _(b, skipna, target_members):
  """Squared error of the mean minus variance over ensemble size, for each side that is an ensemble."""
  b.allow_labels = not target_members
  b.dim('m', lo=2, hi=4); b.dim('x')
  p = b.array('p', ['m', 'x'], nan=True)
  if target_members:
    b.dim('k', lo=2, hi=3)
    t = b.array('t', ['k', 'x'], nan=True)
    T = lambda: t.da.rename({'k': 'm'})
  else:
    t = b.array('t', ['x'], nan=True)
    T = lambda: t.da
  b.ensures('mse', lambda: prob.UnbiasedEnsembleMeanSquaredError('m', skipna).compute({'v': p.da}, {'v': T()})['v'],
            lambda r: r.array('value', r.value, ['x'], lambda i: debiased(b, p, t, i, skipna, target_members)))


@contract('ens.debiased-no-members')
def _(b):
  b.dim('x')
  p = b.array('p', ['x'])
  b.ensures('mse', lambda: prob.UnbiasedEnsembleMeanSquaredError('m').compute({'v': p.da}, {'v': p.da}), lambda r: r.raises('refused', ValueError))


@contract('ens.each-member', cases=[dict(stat=s, skipna=k) for s in ('Error', 'AbsoluteError', 'SquaredError') for k in (False, True)])
def _(b, stat, skipna):
  """Averaging a statistic over members: mean of the per-member statistic."""
  b.dim('m', lo=1, hi=4); b.dim('x')
  p = b.array('p', ['m', 'x'], nan=True)
  t = b.array('t', ['x'], nan=True)
  f = {'Error': lambda e: e, 'AbsoluteError': abs, 'SquaredError': lambda e: e * e}[stat]
  class H:
    def __getitem__(self, j):
      return f(p[j] - t[j])
  def run():
    m = prob.EnsembleAveragedMetric(getattr(det, stat)(), ensemble_dim='m', skipna_ensemble=skipna)
    st = base.compute_unique_statistics_for_all_metrics({'q': m}, {'v': p.da}, {'v': t.da})
    return base.compute_metric_from_statistics(m, st)['v']
  b.ensures('metric', run, lambda r: r.array('value', r.value, ['x'], lambda i: mean(b, H(), i, 'm', skipna)))


@contract('ens.each-member-missing-dim')
def _(b):
  b.dim('x')
  p = b.array('p', ['x'])
  b.ensures('stat', lambda: prob.EnsembleAveragedStatistic(det.Error(), ensemble_dim='m', skipna_ensemble=False).compute({'v': p.da}, {'v': p.da}),
            lambda r: r.raises('refused', ValueError))


@contract('ens.member-rmse')
def _(b):
  """RMSE over individual members: root of the mean over cases and members."""
  b.dim('m', lo=1, hi=4); b.dim('t'); b.dim('x')
  p = b.array('p', ['m', 't', 'x'], nan=True)
  y = b.array('y', ['t', 'x'], nan=True)
  def run():
    ms = {'q': prob.EnsembleAveragedMetric(det.RMSE(), ensemble_dim='m')}
    return aggregation.compute_metric_values_for_single_chunk(ms, aggregation.Aggregator(reduce_dims=['t']), {'v': p.da}, {'v': y.da})['q.v']
  def spec(i):
    return b.sqrt(b.sum(i, ['t'], lambda j: b.sum(j, ['m'], lambda k: (p[k] - y[k]) * (p[k] - y[k])) / b.size('m')) / b.size('t'))
  b.ensures('metric', run, lambda r: r.array('value', r.value, ['x'], spec))


RATIOS = {
    'UnbiasedEnsembleMeanRMSE': (prob.UnbiasedEnsembleMeanRMSE, lambda b, v, u: b.sqrt(u)),
    'UnbiasedSpreadSkillRatio': (prob.UnbiasedSpreadSkillRatio, lambda b, v, u: b.sqrt(v / u)),
    'EnsembleRootMeanVariance': (prob.EnsembleRootMeanVariance, lambda b, v, u: b.sqrt(v)),
}


@contract('ens.roots', cases=[dict(name=n) for n in RATIOS])
def _(b, name):
  """Root metrics of the aggregated variance and debiased error."""
  b.dim('x')
  v = b.array('v', ['x'], nan=True, gen=lambda rng, s: rng.choice([0., 1., 4., .5], s))
  u = b.array('u', ['x'], nan=True, gen=lambda rng, s: rng.choice([-1., 0., 1., 4., .5], s))
  make, f = RATIOS[name]
  def run():
    m = make('m')
    st = {'EnsembleVariance': {'q': v.da}, 'UnbiasedEnsembleMeanSquaredError': {'q': u.da}}
    return m.values_from_mean_statistics({k: st[k] for k in m.statistics})['q']
  b.ensures('metric', run, lambda r: r.array('value', r.value, ['x'], lambda i: f(b, v[i], u[i])))


@contract('ens.metrics', cases=[dict(name=n, skipna=s) for n in RATIOS for s in (False, True)])
def _(b, name, skipna):
  """Root metrics use the variance and debiased error with the requested missing-member rule."""
  b.dim('m', lo=2, hi=4); b.dim('x')
  p = b.array('p', ['m', 'x'], nan=True)
  t = b.array('t', ['x'])
  make, f = RATIOS[name]
  def run():
    m = make('m', skipna)
    st = base.compute_unique_statistics_for_all_metrics({'q': m}, {'v': p.da}, {'v': t.da})
    return base.compute_metric_from_statistics(m, st)['v']
  b.ensures('metric', run, lambda r: r.array('value', r.value, ['x'], lambda i: f(b, var(b, p, i, 'm', skipna), debiased(b, p, t, i, skipna, False))))


@contract('ens.exceedance', cases=[dict(th=[0.5, 2.0])])
def _(b, th):
  """Share of members whose absolute error exceeds each threshold."""
  K = 'error_exceedance_thresholds'
  b.dim('m', lo=1, hi=4); b.dim('x'); b.dim(K, size=2)
  p = b.array('p', ['m', 'x'])
  t = b.array('t', ['x'])
  def spec(i):
    return b.sum(i, ['m'], lambda j: one(b, abs(p[j] - t[j]) > th[i[K]])) / b.size('m')
  b.ensures('stat', lambda: prob.EnsembleErrorExceedance(th, 'm').compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['x', K], spec, const_coords={K: th}))


@contract('ens.retired')
def _(b):
  """The retired ratio is refused rather than computed wrongly."""
  b.ensures('ratio', lambda: prob.SpreadSkillRatio(ensemble_dim='m'), lambda r: r.raises('refused', ValueError))


@contract('ens.order', mode='bounded', samples=40, note='corollary: sums over members do not depend on their order')
def _(b):
  b.dim('m', lo=2, hi=5); b.dim('x')
  p = b.array('p', ['m', 'x'], nan=True)
  t = b.array('t', ['x'])
  skipna = bool(b.rng.integers(2))
  perm = b.rng.permutation(b.sizes['m'])
  def run():
    out = []
    for q in (p.da, p.da.isel(m=perm)):
      ms = {n: f('m', skipna) for n, (f, _) in RATIOS.items()}
      ms['mean'] = wrappers.WrappedMetric(det.RMSE(), [wrappers.EnsembleMean('predictions', 'm', skipna)])
      out.append({k: v['v'].values for k, v in base.compute_unique_statistics_for_all_metrics(ms, {'v': q}, {'v': t.da}).items()})
    return out
  b.ensures('both', run, lambda r: [r.check(k, np.allclose(r.value[0][k], r.value[1][k], equal_nan=True)) for k in r.value[0]])
