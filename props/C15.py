"""Statistic identity and routing."""
import itertools
import numpy as np
import xarray as xr
from vc import sxr
from vc.contract import contract
from weatherbenchX import aggregation
from weatherbenchX.metrics import base
from weatherbenchX.metrics import categorical as cat
from weatherbenchX.metrics import deterministic as det
from weatherbenchX.metrics import probabilistic as prob
from weatherbenchX.metrics import spatial
from weatherbenchX.metrics import wrappers

# --- Routing: every metric receives its own statistics; each is computed once ---


class Affine(base.Statistic):
  """f(p, t) = a p + c t, with a call counter shared by the instances of one name."""

  def __init__(self, name, a, c, calls):
    self.name, self.a, self.c, self.calls = name, a, c, calls

  @property
  def unique_name(self):
    return self.name

  def compute(self, predictions, targets):
    self.calls[self.name] = self.calls.get(self.name, 0) + 1
    return {k: self.a * predictions[k] + self.c * targets[k] for k in predictions if k in targets}


class Pair(base.PerVariableMetric):
  """x - 2y over two statistics, under the given internal names."""

  def __init__(self, **stats):
    self.stats = stats

  @property
  def statistics(self):
    return self.stats

  def _values_from_mean_statistics_per_variable(self, statistic_values):
    return statistic_values['x'] - 2.0 * statistic_values['y']


def fmt(name):
  return dict(s1=(1.0, 0.0), s2=(0.0, 1.0), s3=(3.0, 5.0))[name]


# internal names deliberately clash between the metrics, and with the unique names of other statistics
LAYOUTS = {
    'shared': dict(m1=('s1', 's2'), m2=('s2', 's1'), m3=('s1', 's1')),
    'distinct': dict(m1=('s1', 's2'), m2=('s3', 's1'), m3=('s2', 's3')),
    'one': dict(m1=('s3', 's3')),
    'order': dict(m2=('s2', 's3'), m1=('s2', 's1'), m3=('s3', 's2')),
}


def metrics_of(layout, calls, single=True):
  out = {}
  for m, (x, y) in LAYOUTS[layout].items():
    out[m] = Pair(x=Affine(x, *fmt(x), calls), y=Affine(y, *fmt(y), calls))
  if single:
    out['x'] = Affine('s1', *fmt('s1'), calls)   # a statistic used directly as a metric, named like an internal name
    out['s2'] = Affine('s3', *fmt('s3'), calls)  # metric named like another statistic
  return out


def used(layout, single=True):
  return {s for pair in LAYOUTS[layout].values() for s in pair} | ({'s1', 's3'} if single else set())


@contract('routing.statistics', cases=[dict(layout=l, single=s) for l in LAYOUTS for s in (True, False)])
def _(b, layout, single):
  """compute_unique_statistics_for_all_metrics: exactly the declared statistics, each computed once, each its own values."""
  b.dim('x')
  p, t = b.array('p', ['x'], nan=True), b.array('t', ['x'], nan=True)
  q, u = b.array('q', ['x']), b.array('u', ['x'])
  def run():
    calls = {}
    return base.compute_unique_statistics_for_all_metrics(metrics_of(layout, calls, single), {'v': p.da, 'w': q.da, 'o': q.da},
                                                          {'v': t.da, 'w': u.da, 'z': u.da}), calls
  def post(r):
    out, calls = r.value
    r.check('names', set(out) == used(layout, single))
    r.check('once', calls == {s: 1 for s in used(layout, single)})
    for s in sorted(used(layout, single)):
      a, c = fmt(s)
      r.check(s + ' variables', set(out[s]) == {'v', 'w'})
      r.array(s + '.v', out[s]['v'], ['x'], lambda i: a * p[i] + c * t[i])
      r.array(s + '.w', out[s]['w'], ['x'], lambda i: a * q[i] + c * u[i])
  b.ensures('values', run, post)


@contract('routing.metrics', cases=[dict(layout=l) for l in LAYOUTS])
def _(b, layout):
  """compute_metrics_from_statistics: every metric is its own formula of its own statistics."""
  b.dim('x')
  s = {k: {v: b.array(k + v, ['x'], nan=True) for v in ('v', 'w')} for k in ('s1', 's2', 's3')}
  def run():
    vals = {k: {v: a.da for v, a in d.items()} for k, d in s.items()}
    return base.compute_metrics_from_statistics(metrics_of(layout, {}), vals)
  def post(r):
    exp = dict(LAYOUTS[layout])
    r.check('metrics', set(r.value) == set(exp) | {'x', 's2'})
    for v in ('v', 'w'):
      for m, (x, y) in exp.items():
        r.array(f'{m}.{v}', r.value[m][v], ['x'], lambda i: s[x][v][i] - 2.0 * s[y][v][i])
      r.array(f'x.{v}', r.value['x'][v], ['x'], lambda i: s['s1'][v][i])
      r.array(f's2.{v}', r.value['s2'][v], ['x'], lambda i: s['s3'][v][i])
  b.ensures('values', run, post)


@contract('routing.pipeline', cases=[dict(layout=l) for l in LAYOUTS])
def _(b, layout):
  """The aggregator's metric values, from the data: mean of the declared statistic, whatever else is evaluated with it."""
  b.dim('x'); b.dim('y')
  p, t = b.array('p', ['x', 'y']), b.array('t', ['x', 'y'])
  def run():
    ms = metrics_of(layout, {})
    agg = aggregation.Aggregator(reduce_dims=['x'])
    stats = base.compute_unique_statistics_for_all_metrics(ms, {'v': p.da}, {'v': t.da})
    return agg.aggregate_statistics(stats).metric_values(ms)
  def m(i, s):
    a, c = fmt(s)
    return b.sum(i, ['x'], lambda j: a * p[j] + c * t[j]) / b.size('x')
  def post(r):
    exp = LAYOUTS[layout]
    r.check('metrics', {str(k) for k in r.value.data_vars} == {k + '.v' for k in exp} | {'x.v', 's2.v'})
    for k, (x, y) in exp.items():
      r.array(k, r.value[k + '.v'], ['y'], lambda i: m(i, x) - 2.0 * m(i, y))
    r.array('x', r.value['x.v'], ['y'], lambda i: m(i, 's1'))
    r.array('s2', r.value['s2.v'], ['y'], lambda i: m(i, 's3'))
  b.ensures('values', run, post)


@contract('routing.real', cases=[dict(skipna=s) for s in (False, True)])
def _(b, skipna):
  """Differently configured CRPS metrics evaluated together: the same values as each alone."""
  b.dim('m', size=2); b.dim('x')
  p, t = b.array('p', ['m', 'x'], nan=True), b.array('t', ['x'])
  def pair(m, order):
    ms = {'a': m(False), 'b': m(True)}
    ms = {k: ms[k] for k in order}
    stats = base.compute_unique_statistics_for_all_metrics(ms, {'v': p.da}, {'v': t.da})
    return base.compute_metrics_from_statistics(ms, stats)['b' if skipna else 'a']['v']
  crps = lambda s: prob.CRPSEnsemble('m', fair=False, skipna_ensemble=s)
  def alone():
    stats = base.compute_unique_statistics_for_all_metrics({'a': crps(skipna)}, {'v': p.da}, {'v': t.da})
    return base.compute_metric_from_statistics(crps(skipna), stats)['v']
  def run():
    return alone(), pair(crps, 'ab'), pair(crps, 'ba')
  def post(r):
    one, ab, ba = r.value
    # expected: mean |p - t| - mean |p - p'| / 2 over the (present) members
    P = lambda k, i: p[{'m': k, **i}]
    ok = lambda k, i: ~b.isnan(P(k, i))
    def value(i):
      a0, a1 = abs(P(0, i) - t[i]), abs(P(1, i) - t[i])
      both = (a0 + a1) / 2.0 - abs(P(0, i) - P(1, i)) / 4.0
      if not skipna:
        return both
      return b.where(ok(0, i), b.where(ok(1, i), both, a0), b.where(ok(1, i), a1, b.f(float('nan'))))
    r.array('alone', one, ['x'], value)
    r.array('first', ab, ['x'], value)
    r.array('last', ba, ['x'], value)
  b.ensures('same', run, post)


# --- Identity: the name of a statistic contains every parameter that affects its result ---
#
# Parametricity argument: the parameter is an opaque token; if the name is obtained by substituting the token's text, then
# for ALL other values of that parameter (with different texts) the name differs. Booleans and enumerations are exhausted.


class Tok(str):
  """An opaque dimension or variable name."""


class FTok(float):
  """An opaque number: its text is the token unless a lossy format is requested."""

  def __new__(cls, text, value):
    o = super().__new__(cls, value)
    o.text = text
    return o

  def __str__(self):
    return self.text

  __repr__ = __str__

  def __format__(self, spec):
    return self.text if not spec else float(self).__format__(spec)


def clim():
  return xr.Dataset({'v': ('dayofyear', np.arange(366.0))}, coords={'dayofyear': np.arange(1, 367)})


def ds(v=1.0):
  return xr.Dataset({'v': ('bin', [v, v + 1.0])}, coords={'bin': [v, v + 1.0]})


W = lambda tr: wrappers.WrappedStatistic(det.SquaredError(), tr)
SUM = lambda m: ' & '.join(sorted(s.unique_name for s in m.statistics.values()))


class Wrap:
  """A metric's identity: the identities of all of its statistics."""

  def __init__(self, metric):
    self.metric = metric

  @property
  def unique_names(self):
    return {k: s.unique_name for k, s in self.metric.statistics.items()}


def names_of(obj):
  if isinstance(obj, Wrap):
    return obj.unique_names
  return {'self': obj.unique_name}


# label -> (constructor of one parameter, kind); kind 'dim' | 'num' | list of values
PARAMS = {
    'RelativeIntensity.spatial_dims': (lambda v: det.RelativeIntensity([v, 'q']), 'dim'),
    'PredictionPassthrough.copy_nans': (lambda v: det.PredictionPassthrough(v), [False, True]),
    'TargetPassthrough.copy_nans': (lambda v: det.TargetPassthrough(v), [False, True]),
    'WindVectorSquaredError.u_name': (lambda v: det.WindVectorSquaredError([v], ['b'], ['w']), 'dim'),
    'WindVectorSquaredError.v_name': (lambda v: det.WindVectorSquaredError(['a'], [v], ['w']), 'dim'),
    'WindVectorSquaredError.vector_name': (lambda v: det.WindVectorSquaredError(['a'], ['b'], [v]), 'dim'),
    'WindVectorSquaredError.second': (lambda v: det.WindVectorSquaredError(['a', v], ['b', 'd'], ['w', 'z']), 'dim'),
    'ErrorExceedance.thresholds': (lambda v: det.ErrorExceedance([v, 9.0]), 'num'),
    'ErrorExceedance.thresholds.second': (lambda v: det.ErrorExceedance([0.0, v]), 'num'),
    'EnsembleErrorExceedance.thresholds': (lambda v: prob.EnsembleErrorExceedance([v, 9.0]), 'num'),
    'EnsembleErrorExceedance.ensemble_dim': (lambda v: prob.EnsembleErrorExceedance([1.0], v), 'dim'),
    'EnsembleAveragedStatistic.ensemble_dim': (lambda v: prob.EnsembleAveragedStatistic(det.Error(), ensemble_dim=v, skipna_ensemble=False), 'dim'),
    'EnsembleAveragedStatistic.skipna': (lambda v: prob.EnsembleAveragedStatistic(det.Error(), ensemble_dim='m', skipna_ensemble=v), [False, True]),
    'EnsembleAveragedStatistic.statistic': (lambda v: prob.EnsembleAveragedStatistic(v(), ensemble_dim='m', skipna_ensemble=False),
                                            [det.Error, det.AbsoluteError, det.SquaredError]),
    'EnsembleAveragedMetric.skipna': (lambda v: Wrap(prob.EnsembleAveragedMetric(det.RMSE(), ensemble_dim='m', skipna_ensemble=v)), [False, True]),
    'EnsembleAveragedMetric.ensemble_dim': (lambda v: Wrap(prob.EnsembleAveragedMetric(det.RMSE(), ensemble_dim=v)), 'dim'),
    'CRPSSkill.ensemble_dim': (lambda v: prob.CRPSSkill(v), 'dim'),
    'CRPSSkill.skipna': (lambda v: prob.CRPSSkill('m', v), [False, True]),
    'CRPSSpread.ensemble_dim': (lambda v: prob.CRPSSpread(v), 'dim'),
    'CRPSSpread.fair': (lambda v: prob.CRPSSpread('m', fair=v), [False, True]),
    'CRPSSpread.which': (lambda v: prob.CRPSSpread('m', which=v), ['predictions', 'targets']),
    'CRPSSpread.skipna': (lambda v: prob.CRPSSpread('m', skipna_ensemble=v), [False, True]),
    'EnsembleVariance.ensemble_dim': (lambda v: prob.EnsembleVariance(v), 'dim'),
    'EnsembleVariance.skipna': (lambda v: prob.EnsembleVariance('m', v), [False, True]),
    'UnbiasedEnsembleMeanSquaredError.ensemble_dim': (lambda v: prob.UnbiasedEnsembleMeanSquaredError(v), 'dim'),
    'UnbiasedEnsembleMeanSquaredError.skipna': (lambda v: prob.UnbiasedEnsembleMeanSquaredError('m', v), [False, True]),
    'EnsembleRPS.ensemble_dim': (lambda v: prob.EnsembleRankedProbabilityScore(ds(), ds(), 'bin', 's', v), 'dim'),
    'EnsembleRPS.bin_dim': (lambda v: prob.EnsembleRankedProbabilityScore(ds(), ds(), v, 's'), 'dim'),
    'EnsembleRPS.suffix': (lambda v: prob.EnsembleRankedProbabilityScore(ds(), ds(), 'bin', v), 'dim'),
    'EnsembleRPS.skipna': (lambda v: prob.EnsembleRankedProbabilityScore(ds(), ds(), 'bin', 's', skipna_ensemble=v), [False, True]),
    'EnsembleRPS.fair': (lambda v: prob.EnsembleRankedProbabilityScore(ds(), ds(), 'bin', 's', fair=v), [False, True]),
    'EnsembleRPS.right_inclusive': (lambda v: prob.EnsembleRankedProbabilityScore(ds(), ds(), 'bin', 's', right_inclusive=v), [False, True]),
    'RankHistogram.ensemble_dim': (lambda v: prob.RankHistogram(ensemble_dim=v), 'dim'),
    'WassersteinDistance.ensemble_dim': (lambda v: prob.WassersteinDistance(v), 'dim'),
    'RankedProbabilityScore.bin_dim': (lambda v: cat.RankedProbabilityScore(v), 'dim'),
    'SEEPS.variables': (lambda v: cat.SEEPS([v], clim()), 'dim'),
    'SEEPS.dry_threshold': (lambda v: cat.SEEPS(['v'], clim(), dry_threshold_mm=v), 'num'),
    'SEEPS.min_p1': (lambda v: cat.SEEPS(['v'], clim(), min_p1=v), 'num'),
    'SEEPS.max_p1': (lambda v: cat.SEEPS(['v'], clim(), max_p1=v), 'num'),
    'Confident.ensemble_dim': (lambda v: cat.Confident(v, clim()), 'dim'),
    'Confident.low': (lambda v: cat.Confident('m', clim(), (v, 0.9)), 'num'),
    'Confident.high': (lambda v: cat.Confident('m', clim(), (0.1, v)), 'num'),
    'Confident.threshold': (lambda v: cat.Confident('m', clim(), confidence_threshold=v), 'num'),
    'Covered.ensemble_dim': (lambda v: cat.Covered(v), 'dim'),
    'Covered.low': (lambda v: cat.Covered('m', (v, 0.9)), 'num'),
    'Covered.high': (lambda v: cat.Covered('m', (0.1, v)), 'num'),
    'JaccardDistant.ensemble_dim': (lambda v: cat.JaccardDistant(v, clim()), 'dim'),
    'JaccardDistant.threshold': (lambda v: cat.JaccardDistant('m', clim(), v), 'num'),
    'JaccardDistant.low': (lambda v: cat.JaccardDistant('m', clim(), 0.75, (v, 0.9)), 'num'),
    'JaccardDistant.high': (lambda v: cat.JaccardDistant('m', clim(), 0.75, (0.1, v)), 'num'),
    'SquaredFractionsError.neighborhood': (lambda v: spatial.SquaredFractionsError(v), 'int'),
    'SquaredFractionsError.neighborhoods': (lambda v: spatial.SquaredFractionsError([v, 5]), 'int'),
    'SquaredFractionsError.wrap': (lambda v: spatial.SquaredFractionsError(3, v), [False, True]),
    'SquaredPredictionFraction.neighborhood': (lambda v: spatial.SquaredPredictionFraction(v), 'int'),
    'SquaredPredictionFraction.wrap': (lambda v: spatial.SquaredPredictionFraction(3, v), [False, True]),
    'SquaredTargetFraction.neighborhood': (lambda v: spatial.SquaredTargetFraction(v), 'int'),
    'SquaredTargetFraction.wrap': (lambda v: spatial.SquaredTargetFraction(3, v), [False, True]),
    'REV.ensemble_size': (lambda v: Wrap(prob.RelativeEconomicValue(ensemble_size=v)), [1, 2, 3, 10, 50]),
    'REV.suffix': (lambda v: Wrap(prob.RelativeEconomicValue(probability_thresholds=np.array([0.5]), statistic_suffix=v)), 'dim'),
    'Reliability.bin_values': (lambda v: Wrap(cat.Reliability(bin_values=(0.0, v, 9.0))), 'num'),
    'Reliability.bin_dim': (lambda v: Wrap(cat.Reliability(bin_dim=v)), 'dim'),
    'transform.which': (lambda v: W(wrappers.Inline(v, abs, 's')), ['predictions', 'targets', 'both']),
    'transform.statistic': (lambda v: wrappers.WrappedStatistic(v(), wrappers.ReLU('both')), [det.Error, det.AbsoluteError, det.SquaredError]),
    'EnsembleMean.ensemble_dim': (lambda v: W(wrappers.EnsembleMean('both', v)), 'dim'),
    'EnsembleMean.skipna': (lambda v: W(wrappers.EnsembleMean('both', 'm', v)), [False, True]),
    'EnsembleMean.skip_if_missing': (lambda v: W(wrappers.EnsembleMean('both', 'm', False, v)), [False, True]),
    'ContinuousToBinary.value': (lambda v: W(wrappers.ContinuousToBinary('both', v, 'thr')), 'num'),
    'ContinuousToBinary.values': (lambda v: W(wrappers.ContinuousToBinary('both', [v, 9.0], 'thr')), 'num'),
    'ContinuousToBinary.dim': (lambda v: W(wrappers.ContinuousToBinary('both', [1.0], v)), 'dim'),
    'ContinuousToBinary.suffix': (lambda v: W(wrappers.ContinuousToBinary('both', ds(), 'bin', v)), 'dim'),
    'ContinuousToBins.values': (lambda v: W(wrappers.ContinuousToBins('both', [0.0, v, 9.0], 'bin')), 'num'),
    'ContinuousToBins.dim': (lambda v: W(wrappers.ContinuousToBins('both', [0.0, 9.0], v)), 'dim'),
    'ContinuousToBins.suffix': (lambda v: W(wrappers.ContinuousToBins('both', ds(), 'bin', v)), 'dim'),
    'ContinuousToCDF.values': (lambda v: W(wrappers.ContinuousToCDF('both', [0.0, v, 9.0], 'bin')), 'num'),
    'ContinuousToCDF.dim': (lambda v: W(wrappers.ContinuousToCDF('both', [0.0, 9.0], v)), 'dim'),
    'ContinuousToCDF.right_inclusive': (lambda v: W(wrappers.ContinuousToCDF('both', [0.0, 9.0], 'bin', right_inclusive=v)), [False, True]),
    'Weibull.ensemble_dim': (lambda v: W(wrappers.WeibullEnsembleToProbabilistic('predictions', v)), 'dim'),
    'Weibull.skipna': (lambda v: W(wrappers.WeibullEnsembleToProbabilistic('predictions', 'm', v)), [False, True]),
    'Inline.suffix': (lambda v: W(wrappers.Inline('both', abs, v)), 'dim'),
    'Shift.suffix': (lambda v: W(wrappers.ShiftAlongNewDim('both', [1.0], 's', v)), 'dim'),
    'Rename.new': (lambda v: W(wrappers.Rename('both', {'x': v})), 'dim'),
    'Rename.old': (lambda v: W(wrappers.Rename('both', {v: 'y'})), 'dim'),
    'Select.sel': (lambda v: W(wrappers.Select('both', sel={'x': v})), 'num'),
    'Select.isel': (lambda v: W(wrappers.Select('both', isel={'x': v})), 'int'),
    'Select.sel-or-isel': (lambda v: W(wrappers.Select('both', **{v: {'x': 1}})), ['sel', 'isel']),
    'Select.sel_kwargs': (lambda v: W(wrappers.Select('both', sel={'x': 1}, sel_kwargs=v)), [{}, {'method': 'nearest'}, {'method': 'ffill'}, {'drop': True}]),
    'Stack.dims': (lambda v: W(wrappers.StackToNewDimension('both', [v, 'b'], 'n')), 'dim'),
    'Stack.new': (lambda v: W(wrappers.StackToNewDimension('both', ['a', 'b'], v)), 'dim'),
    'Renamed.name': (lambda v: wrappers.RenamedStatistic(det.Error(), v), 'dim'),
    'WrappedMetric.suffix': (lambda v: Wrap(wrappers.WrappedMetric(cat.CSI(), [wrappers.ReLU('both')], v)), 'dim'),
    'WrappedMetric.transforms': (lambda v: Wrap(wrappers.WrappedMetric(cat.CSI(), [wrappers.Inline('both', abs, x) for x in v])),
                                 ['', 'a', 'b', 'ab', 'ba', 'aa']),
    'WrappedMetric.metric': (lambda v: wrappers.WrappedMetric(v(), [wrappers.ReLU('both')], 's').statistics['self'],
                             [det.Error, det.AbsoluteError, det.SquaredError]),
    'Subselect.variables': (lambda v: Wrap(wrappers.SubselectVariables(cat.CSI(), [v])), 'dim'),
    'Subselect.variables.second': (lambda v: Wrap(wrappers.SubselectVariables(cat.CSI(), ['v', v])), 'dim'),
    'Subselect.sets': (lambda v: Wrap(wrappers.SubselectVariables(cat.CSI(), v)), [['a'], ['b'], ['a', 'b'], ['a_b'], ['a', 'b', 'c'], ['a_b', 'c'], ['a', 'b_c']]),
    'Subselect.metric': (lambda v: wrappers.SubselectVariables(v(), ['v']).statistics['self'], [det.Error, det.AbsoluteError, det.SquaredError]),
    'CRPSEnsemble.ensemble_dim': (lambda v: Wrap(prob.CRPSEnsemble(v)), 'dim'),
    'CRPSEnsemble.skipna': (lambda v: Wrap(prob.CRPSEnsemble('m', skipna_ensemble=v)), [False, True]),
    'CRPSEnsembleDistance.ensemble_dim': (lambda v: Wrap(prob.CRPSEnsembleDistance(v)), 'dim'),
    'CRPSEnsembleDistance.skipna': (lambda v: Wrap(prob.CRPSEnsembleDistance('m', skipna_ensemble=v)), [False, True]),
    'UnbiasedEnsembleMeanRMSE.ensemble_dim': (lambda v: Wrap(prob.UnbiasedEnsembleMeanRMSE(v)), 'dim'),
    'UnbiasedEnsembleMeanRMSE.skipna': (lambda v: Wrap(prob.UnbiasedEnsembleMeanRMSE('m', v)), [False, True]),
    'UnbiasedSpreadSkillRatio.ensemble_dim': (lambda v: Wrap(prob.UnbiasedSpreadSkillRatio(v)), 'dim'),
    'UnbiasedSpreadSkillRatio.skipna': (lambda v: Wrap(prob.UnbiasedSpreadSkillRatio('m', v)), [False, True]),
    'EnsembleRootMeanVariance.ensemble_dim': (lambda v: Wrap(prob.EnsembleRootMeanVariance(v)), 'dim'),
    'EnsembleRootMeanVariance.skipna': (lambda v: Wrap(prob.EnsembleRootMeanVariance('m', v)), [False, True]),
    'WindVectorRMSE.u_name': (lambda v: Wrap(det.WindVectorRMSE([v], ['b'], ['w'])), 'dim'),
    'WindVectorRMSE.v_name': (lambda v: Wrap(det.WindVectorRMSE(['a'], [v], ['w'])), 'dim'),
    'FSS.neighborhood': (lambda v: Wrap(spatial.FSS(v)), 'int'),
    'FSS.wrap': (lambda v: Wrap(spatial.FSS(3, v)), [False, True]),
}

# array-valued parameters the identity does not contain (see known_findings.json)
ARRAYS = {
    'ErrorExceedance.array': lambda k: det.ErrorExceedance(ds(k)),
    'SquaredPredictionAnomaly.climatology': lambda k: det.SquaredPredictionAnomaly(clim() + k),
    'SquaredTargetAnomaly.climatology': lambda k: det.SquaredTargetAnomaly(clim() + k),
    'AnomalyCovariance.climatology': lambda k: det.AnomalyCovariance(clim() + k),
    'SEEPS.climatology': lambda k: cat.SEEPS(['v'], clim() + k),
    'Confident.climatology': lambda k: cat.Confident('m', clim() + k),
    'JaccardDistant.climatology': lambda k: cat.JaccardDistant('m', clim() + k),
    'Select.long-index': lambda k: W(wrappers.Select('both', isel={'x': np.r_[np.arange(1000), int(k), np.arange(1000)]})),
}


class ITok(int):
  def __new__(cls, text, value):
    o = super().__new__(cls, value)
    o.text = text
    return o

  def __str__(self):
    return self.text

  __repr__ = __str__

  def __format__(self, spec):
    return self.text if not spec else int(self).__format__(spec)


TOKENS = ('\u27e6one\u27e7', '\u27e6two\u27e7')


def tokens(kind):
  if kind == 'dim':
    return [Tok(t) for t in TOKENS]
  if kind == 'num':
    return [FTok(t, 0.3) for t in TOKENS]  # equal numbers: only the text tells them apart
  return [ITok(t, 3) for t in TOKENS]


def near(kind, rng):
  """Values that are easily confused by lossy naming."""
  if kind == 'dim':
    return ['a', 'A', 'a_', 'ab', 'a_b', 'number', 'numbers', 'realization', 'ensemble', 'x' * 80, 'x' * 80 + 'y']
  if kind == 'num':
    v = float(np.round(rng.uniform(0.05, 0.3), 3))
    return [0.0, v, float(np.nextafter(v, 1)), v + 1e-9, v + 1e-4, v + 0.004, v + 0.01, 1.0, 8.0, 8.5]
  return [1, 2, 3, 5, 11, 21, 31, 101]


@contract('identity.parameter', cases=[dict(parameter=k) for k in PARAMS], samples=3)
def _(b, parameter):
  """The identity contains the text of the parameter, whatever its value, for at least one statistic of the metric."""
  b.dim('x', size=1)
  make, kind = PARAMS[parameter]
  def run():
    if isinstance(kind, list):
      return [names_of(make(v)) for v in kind]
    return [names_of(make(v)) for v in tokens(kind)]
  def post(r):
    if isinstance(kind, list):
      ns = [tuple(sorted(n.items())) for n in r.value]
      r.check('distinct', len(set(ns)) == len(kind))
      r.check('stable', [tuple(sorted(names_of(make(v)).items())) for v in kind] == ns)
      return
    one, two = r.value
    hit = [k for k in one if TOKENS[0] in one[k]]
    substituted = bool(hit) and all(one[k].replace(TOKENS[0], TOKENS[1]) == two[k] for k in one)
    if r.symbolic:
      if not substituted:
        raise sxr.Unsupported('the name is not a plain substitution of the parameter: decided by the bounded pairs')
      r.check('contains', substituted)
      return
    vals = near(kind, b.rng)
    ns = [tuple(sorted(names_of(make(v)).items())) for v in vals]
    for (u, n), (v, m) in itertools.combinations(zip(vals, ns), 2):
      r.check(f'{u!r} / {v!r}', n != m)
    r.check('stable', [tuple(sorted(names_of(make(v)).items())) for v in vals] == ns)
  b.ensures('identity', run, post)


# metrics built from several statistics: a parameter must reach the identity of every statistic it affects
EVERY = {
    'CRPSEnsemble.ensemble_dim': None, 'CRPSEnsemble.skipna': None, 'CRPSEnsembleDistance.ensemble_dim': None, 'CRPSEnsembleDistance.skipna': None,
    'UnbiasedSpreadSkillRatio.ensemble_dim': None, 'UnbiasedSpreadSkillRatio.skipna': None, 'WrappedMetric.suffix': None,
    'WrappedMetric.transforms': None, 'Subselect.variables': None, 'Subselect.variables.second': None, 'Subselect.sets': None, 'REV.ensemble_size': None,
    'REV.suffix': None, 'Reliability.bin_values': None, 'Reliability.bin_dim': None, 'FSS.neighborhood': None, 'FSS.wrap': None,
    'EnsembleAveragedMetric.skipna': None, 'EnsembleAveragedMetric.ensemble_dim': None,
}


@contract('identity.every-statistic', cases=[dict(parameter=k) for k in EVERY], samples=1)
def _(b, parameter):
  b.dim('x', size=1)
  make, kind = PARAMS[parameter]
  vals = kind if isinstance(kind, list) else tokens(kind)
  def post(r):
    for k in r.value[0]:
      r.check(k, len({n[k] for n in r.value}) == len(vals))
  b.ensures('identity', lambda: [names_of(make(v)) for v in vals], post)


@contract('identity.array', cases=[dict(parameter=k) for k in ARRAYS], mode='bounded', samples=1)
def _(b, parameter):
  b.dim('x', size=1)
  b.ensures('identity', lambda: (names_of(ARRAYS[parameter](1.0)), names_of(ARRAYS[parameter](2.0))), lambda r: r.check('distinct', r.value[0] != r.value[1]))


@contract('identity.classes', samples=1)
def _(b):
  """No two of the library's statistics, over all enumerated configurations, share an identity (unless their results are equal by construction)."""
  b.dim('x', size=1)
  def run():
    seen = {}
    for c in (det.Error, det.AbsoluteError, det.SquaredError, cat.TruePositives, cat.TrueNegatives, cat.FalsePositives, cat.FalseNegatives):
      seen.setdefault(c().unique_name, set()).add(c.__name__)
    for c in (det.SquaredPredictionAnomaly, det.SquaredTargetAnomaly, det.AnomalyCovariance):
      seen.setdefault(c(clim()).unique_name, set()).add(c.__name__)
    for c in (det.PredictionPassthrough, det.TargetPassthrough, det.RelativeIntensity, prob.CRPSSkill, prob.CRPSSpread, prob.EnsembleVariance,
              prob.UnbiasedEnsembleMeanSquaredError, prob.RankHistogram, prob.WassersteinDistance):
      seen.setdefault(c().unique_name, set()).add(c.__name__)
    for label, (make, kind) in PARAMS.items():
      if not isinstance(kind, list) and label not in ('Inline.suffix', 'Shift.suffix', 'Renamed.name'):  # named by the user
        s = make(tokens(kind)[0])
        if not isinstance(s, Wrap):
          seen.setdefault(s.unique_name, set()).add(type(s).__name__ if not isinstance(s, wrappers.WrappedStatistic) else type(s.transform).__name__)
    for k in (3, [3, 5]):
      for c in (spatial.SquaredFractionsError, spatial.SquaredPredictionFraction, spatial.SquaredTargetFraction):
        seen.setdefault(c(k).unique_name, set()).add(c.__name__)
    return seen
  def post(r):
    r.check('distinct', not [v for v in r.value.values() if len(v) > 1])
    r.check('covered', len(r.value) >= 30)
  b.ensures('identity', run, post)


@contract('identity.equivalent', samples=1)
def _(b):
  """Equal configurations share an identity, so shared statistics are computed once: RMSE with MSE, CRPS parts, contingency tables."""
  b.dim('x', size=1)
  def run():
    n = lambda m: {s.unique_name for s in m.statistics.values()}
    return dict(rmse=(n(det.RMSE()), n(det.MSE())),
                crps=({prob.CRPSSkill('m').unique_name} | {prob.CRPSSpread('m').unique_name}, n(prob.CRPSEnsemble('m'))),
                csi=(n(cat.CSI()), n(cat.Accuracy()) & n(cat.CSI())),
                hss=(n(cat.HSS()), n(cat.ETS())),
                ratio=(n(prob.UnbiasedEnsembleMeanRMSE('m')) | n(prob.EnsembleRootMeanVariance('m')), n(prob.UnbiasedSpreadSkillRatio('m'))))
  def post(r):
    for k, (a, c) in r.value.items():
      r.check(k, a == c)
  b.ensures('shared', run, post)
