"""Comparison with a baseline."""
import numpy as np
from vc.contract import contract
from weatherbenchX import aggregation
from weatherbenchX.metrics import base as mb
from weatherbenchX.metrics import deterministic
from weatherbenchX.metrics import wrappers
from weatherbenchX.statistical_inference import base as inference
from weatherbenchX.statistical_inference import baseline_comparison as bc
from weatherbenchX.statistical_inference import utils

ASSUMPTIONS = ['metrics are pure functions of their mean statistics (two metrics of the repository and stubs with any names of statistics are used)']

# Names that try to confuse the two sides
NAMES = {
    'plain': ('SquaredError', 'num', 'den'),
    'main': ('main_x', 'main_num', 'main_den'),
    'baseline': ('baseline_x', 'baseline_num', 'baseline_main_'),
    'mixed': ('x', 'main_', 'baseline_main_num'),
}


class Stat(mb.Statistic):

  def __init__(self, name):
    self._name = name

  @property
  def unique_name(self):
    return self._name

  def compute(self, predictions, targets):
    return {k: predictions[k] - 2.0 * targets[k] for k in predictions}


class Ratio(mb.Metric):
  """num / (den + 1) + num; only the statistics it asked for are accepted."""

  def __init__(self, names, offset=1.0):
    self.names, self.offset = names, offset

  @property
  def statistics(self):
    u, n, d = self.names
    return {n: Stat(u + '_n'), d: Stat(u + '_d')}

  def values_from_mean_statistics(self, stats):
    u, n, d = self.names
    assert set(stats) == {n, d}
    return {k: stats[n][k] / (stats[d][k] * stats[d][k] + self.offset) + stats[n][k] for k in stats[n]}


def value(b, n, d, offset=1.0):
  return n / (d * d + offset) + n


def stats_of(b, tag, names, variables, nan=False):
  u, n, d = names
  return {k: {v: b.array(f'{tag}{k[-2:]}{v}', ['x', 'lead'], nan=nan) for v in variables} for k in (u + '_n', u + '_d')}


def das(h):
  return {k: {v: x.da for v, x in vs.items()} for k, vs in h.items()}


def setup(b, nan=False):
  b.dim('x'); b.dim('lead')
  b.coord('x', 'x'); b.coord('lead', 'lead')


def ones_like(h, val):
  return {k: {v: val.da for v in vs} for k, vs in h.items()}


@contract('values', cases=[dict(names=k, comparison=c, other=o) for k in NAMES for c in ('default', 'ratio') for o in (False, True) if c == 'default' or not o])
def _(b, names, comparison, other):
  """metric(main) - metric(baseline), or the given comparison of the two, per variable and point."""
  setup(b)
  ns = NAMES[names]
  main, base = stats_of(b, 'm', ns, 'pq', nan=True), stats_of(b, 'b', ns, 'pq', nan=True)
  def run():
    metric = Ratio(ns)
    more = {} if comparison == 'default' else {'comparison': lambda m, o: {k: m[k] / (o[k] * o[k] + 1.0) for k in m}}
    if other:
      more['baseline_metric'] = Ratio(ns, 3.0)
    c = bc.BaselineComparison(metric, **more)
    values = {**{f'main_{k}': v for k, v in das(main).items()}, **{f'baseline_{k}': v for k, v in das(base).items()}}
    # as compute_metric_from_statistics does: by the unique names of the statistics asked for
    return mb.compute_metric_from_statistics(c, values)
  def post(r):
    r.check('variables', set(r.value) == {'p', 'q'})
    n, d = ns[0] + '_n', ns[0] + '_d'
    for v in 'pq':
      def want(i, v=v):
        a = value(b, main[n][v][i], main[d][v][i])
        o = value(b, base[n][v][i], base[d][v][i], 3.0 if other else 1.0)
        return a - o if comparison == 'default' else a / (o * o + 1.0)
      r.array(f'value {v}', r.value[v], ['x', 'lead'], want)
  b.ensures('values', run, post)


@contract('statistics', cases=[dict(names=k) for k in NAMES])
def _(b, names):
  """Both sides keep every statistic, under names that do not clash, and compute the same values."""
  setup(b)
  ns = NAMES[names]
  p, t = b.array('p', ['x']), b.array('t', ['x'])
  def run():
    metric = Ratio(ns)
    s = bc.BaselineComparison(metric).statistics
    return s, {k: v.compute({'v': p.da}, {'v': t.da})['v'] for k, v in s.items()}, metric.statistics
  def post(r):
    s, vals, own = r.value
    r.check('count', len(s) == 2 * len(own))
    r.check('unique names', {v.unique_name for v in s.values()} == {f'{side}_{v.unique_name}' for v in own.values() for side in ('main', 'baseline')})
    for k, v in vals.items():
      r.array(f'value {k}', v, ['x'], lambda i: p[i] - 2.0 * t[i])
  b.ensures('statistics', run, post)


@contract('combined', cases=[dict(names=k) for k in NAMES])
def _(b, names):
  """Combining keeps every leaf of both aggregates, apart by name."""
  setup(b)
  ns = NAMES[names]
  main, base = stats_of(b, 'm', ns, 'pq', nan=True), stats_of(b, 'b', ns, 'p', nan=True)
  mw, bw = stats_of(b, 'w', ns, 'pq'), stats_of(b, 'z', ns, 'p')
  def run():
    return bc.combine_aggregation_states(aggregation.AggregationState(das(main), das(mw)), aggregation.AggregationState(das(base), das(bw)))
  def post(r):
    for what, got, m, o in (('statistics', r.value.sum_weighted_statistics, main, base), ('weights', r.value.sum_weights, mw, bw)):
      want = {**{f'main_{k}': v for k, v in m.items()}, **{f'baseline_{k}': v for k, v in o.items()}}
      r.check(what, set(got) == set(want) and all(set(got[k]) == set(want[k]) for k in want))
      for k, vs in want.items():
        for v, h in vs.items():
          r.array(f'{what} {k} {v}', got[k][v], ['x', 'lead'], lambda i, h=h: h[i])
  b.ensures('combined', run, post)


METRICS = {'rmse': deterministic.RMSE, 'mse': deterministic.MSE, 'mae': deterministic.MAE, 'bias': deterministic.Bias}


@contract('end-to-end', cases=[dict(two=t, baseline=x) for t in (False, True) for x in (False, True)])
def _(b, two, baseline):
  """Weighted means of both sides go through the same metric; the values are its difference."""
  setup(b)
  ms = ['rmse', 'bias'] if two else ['mae']
  names = {'rmse': 'SquaredError', 'bias': 'Error', 'mae': 'AbsoluteError'}
  main = {names[m]: {'v': b.array(f'm{m}', ['x'], gen=lambda rng, s: rng.uniform(0.0, 4.0, s))} for m in ms}
  base = {names[m]: {'v': b.array(f'b{m}', ['x'], gen=lambda rng, s: rng.uniform(0.0, 4.0, s))} for m in ms}
  mw, bw = b.array('w', ['x'], gen=lambda rng, s: rng.uniform(0.5, 2.0, s)), b.array('z', ['x'], gen=lambda rng, s: rng.uniform(0.5, 2.0, s))
  for h in (mw, bw):
    b.assume_all(['x'], lambda i, h=h: h[i] > 0.0)
  for m in ms:
    for h in (main, base):
      b.assume_all(['x'], lambda i, h=h[names[m]]['v']: h[i] > 0.0)
  def run():
    metrics = {m: METRICS[m]() for m in ms}
    others = {**{m: METRICS[m]() for m in ms}, 'extra': deterministic.MAE()} if baseline else None
    cs = bc.for_metrics(metrics, others)
    both = bc.combine_aggregation_states(aggregation.AggregationState(das(main), ones_like(main, mw)),
                                         aggregation.AggregationState(das(base), ones_like(base, bw)))
    return mb.compute_metrics_from_statistics(cs, both.mean_statistics())
  def post(r):
    r.check('metrics', set(r.value) == set(ms))
    for m in ms:
      f = b.sqrt if m == 'rmse' else lambda x: x
      r.array(m, r.value[m]['v'], ['x'], lambda i, m=m: f(main[names[m]]['v'][i] / mw[i]) - f(base[names[m]]['v'][i] / bw[i]))
  b.ensures('compared', run, post)


@contract('itself', cases=[dict(names=k) for k in NAMES])
def _(b, names):
  """A system compared with itself: zero (missing where the metric is)."""
  setup(b)
  ns = NAMES[names]
  s = stats_of(b, 'm', ns, 'p', nan=True)
  w = b.array('w', ['x', 'lead'], gen=lambda rng, s: rng.uniform(0.5, 2.0, s))
  b.assume_all(['x', 'lead'], lambda i: w[i] > 0.0)
  def run():
    state = aggregation.AggregationState(das(s), ones_like(s, w))
    return mb.compute_metrics_from_statistics(bc.for_metrics({'r': Ratio(ns)}), bc.combine_aggregation_states(state, state).mean_statistics())
  def post(r):
    n, d = ns[0] + '_n', ns[0] + '_d'
    r.array('zero', r.value['r']['p'], ['x', 'lead'], lambda i: b.where(b.isnan(s[n]['p'][i]) | b.isnan(s[d]['p'][i]), b.f(float('nan')), b.f(0.0)))
  b.ensures('itself', run, post)


@contract('variables')
def _(b):
  """The difference covers the variables both sides have."""
  setup(b)
  x, y, z = (b.array(f'v{k}', ['x'], nan=True) for k in 'xyz')
  def run():
    return bc.difference({'p': x.da, 'q': y.da}, {'q': z.da, 'r': x.da})
  def post(r):
    r.check('variables', set(r.value) == {'q'})
    r.array('q', r.value['q'], ['x'], lambda i: y[i] - z[i])
  b.ensures('variables', run, post)


@contract('metrics')
def _(b):
  """Each metric is compared with the metric of the same name."""
  def run():
    m = {k: Ratio((k, 'n', 'd')) for k in 'abc'}
    o = {k: Ratio((k, 'n', 'd'), 2.0) for k in 'bcd'}
    f = lambda x, y: x
    return m, o, f, bc.for_metrics(m, o, f), bc.for_metrics(m), bc.for_metrics(m, comparison=f)
  def post(r):
    m, o, f, both, alone, other = r.value
    r.check('common', set(both) == {'b', 'c'} and all(both[k].metric is m[k] and both[k].baseline_metric is o[k] for k in both))
    r.check('alone', set(alone) == set(m) and all(alone[k].metric is m[k] and alone[k].baseline_metric is m[k] for k in m))
    x, y = {'v': 1.0}, {'v': 4.0}
    r.check('kind', isinstance(both['b'], mb.Metric) and set(other) == set(m))
  b.ensures('metrics', run, post)


class Recorded(inference.StatisticalInferenceMethod):
  """Keeps what it is constructed with; p-values are given."""

  def __init__(self, metrics, aggregated_statistics, p=None, option=None):
    self.metrics, self.stats, self.p, self.option = metrics, aggregated_statistics, p, option

  def point_estimates(self):
    return mb.compute_metrics_from_statistics(self.metrics, self.stats.mean_statistics())

  def confidence_intervals(self, alpha=0.05):
    raise NotImplementedError()

  def standard_error_estimates(self):
    raise NotImplementedError()

  def p_values(self, null_value=0.0):
    assert null_value == self.option
    return {'m': {'v': self.p}}


@contract('inference', cases=[dict(baseline=x, comparison=c) for x in (False, True) for c in (False, True)])
def _(b, baseline, comparison):
  """An inference method for a comparison estimates the compared metric, with its own options kept."""
  setup(b)
  ns = NAMES['plain']
  main, base = stats_of(b, 'm', ns, 'p'), stats_of(b, 'b', ns, 'p')
  w = b.array('w', ['x', 'lead'], gen=lambda rng, s: rng.uniform(0.5, 2.0, s))
  b.assume_all(['x', 'lead'], lambda i: w[i] > 0.0)
  def run():
    more = {}
    if baseline:
      more['baseline_metrics'] = {'r': Ratio(ns, 2.0)}
    if comparison:
      more['comparison'] = lambda m, o: {k: m[k] + 2.0 * o[k] for k in m}
    f = Recorded.for_baseline_comparison({'r': Ratio(ns)}, aggregation.AggregationState(das(main), ones_like(main, w)),
                                         aggregation.AggregationState(das(base), ones_like(base, w)), option=7, **more)
    return f.point_estimates(), f.option, type(f)
  def post(r):
    est, option, kind = r.value
    r.check('options', option == 7 and kind is Recorded)
    r.check('metrics', set(est) == {'r'})
    n, d = ns[0] + '_n', ns[0] + '_d'
    def want(i):
      a = value(b, main[n]['p'][i] / w[i], main[d]['p'][i] / w[i])
      o = value(b, base[n]['p'][i] / w[i], base[d]['p'][i] / w[i], 2.0 if baseline else 1.0)
      return a + 2.0 * o if comparison else a - o
    r.array('value', est['r']['p'], ['x', 'lead'], want)
  b.ensures('inference', run, post)


@contract('significance')
def _(b):
  """Significant where the p-value is at most alpha (not where it is missing)."""
  setup(b)
  p = b.array('p', ['x'], nan=True, gen=lambda rng, s: np.where(rng.random(s) < 0.2, np.nan, rng.integers(0, 5, s) / 4.0))
  alpha = b.scalar('alpha', gen=lambda rng: float(rng.integers(0, 5) / 4.0))
  def run():
    return Recorded({}, None, p.da, option=0.25).significance_tests(null_value=0.25, alpha=alpha.val)
  def post(r):
    r.check('structure', set(r.value) == {'m'} and set(r.value['m']) == {'v'})
    r.array('significant', r.value['m']['v'], ['x'], lambda i: ~b.isnan(p[i]) & (p[i] <= alpha.s))
  b.ensures('significance', run, post)


# The units of both sides

@contract('units', cases=[dict(kind=k) for k in ('same', 'value', 'size', 'missing', 'two-dimensional', 'not-a-dimension')])
def _(b, kind):
  """The unit coordinate is returned when all statistics of both sides agree on it, and refused otherwise."""
  n = 3
  b.dim('init', size=n)
  b.dim('other', size=n - 1)
  b.dim('x')
  a, c = b.array('a', ['init', 'x']), b.array('c', ['x', 'init'])
  short = b.array('s', ['other', 'x'])
  labels = np.array([3.0, 1.0, 2.0])
  def run():
    one = a.da.assign_coords(init=labels)
    if kind == 'value':
      two = c.da.assign_coords(init=labels + np.array([0.0, 0.0, 1.0]))
    elif kind == 'size':
      two = short.da.rename(other='init').assign_coords(init=labels[:-1])
    elif kind == 'missing':
      two = c.da.isel(init=0, drop=True)
    elif kind == 'two-dimensional':
      one = a.da.rename(init='unit').assign_coords(init=(('unit', 'x'), a.da.values))
      two = one
    elif kind == 'not-a-dimension':
      one = a.da.rename(init='unit').assign_coords(init=('unit', labels))
      two = one
    else:
      two = c.da.assign_coords(init=labels)
    state = bc.combine_aggregation_states(aggregation.AggregationState({'s': {'v': one}}, {'s': {'v': one}}),
                                          aggregation.AggregationState({'s': {'v': two}}, {'s': {'v': two}}))
    return utils.get_and_check_experimental_unit_coord(state, 'init')
  def post(r):
    if kind == 'same':
      r.check('coordinate', r.value is not None and [float(x) for x in r.value.values] == list(labels) and tuple(r.value.dims) == ('init',))
    else:
      r.raises('refused', ValueError)
  b.ensures('units', run, post)


@contract('units.empty')
def _(b):
  b.ensures('refused', lambda: utils.get_and_check_experimental_unit_coord(aggregation.AggregationState({}, {}), 'init'),
            lambda r: r.raises('refused', ValueError))
