"""Linearised per-unit values."""
import numpy as np
from vc.contract import contract
from weatherbenchX import aggregation
from weatherbenchX.metrics import base as mb
from weatherbenchX.metrics import deterministic
from weatherbenchX.metrics import spatial
from weatherbenchX.statistical_inference import autodiff
from weatherbenchX.statistical_inference import baseline_comparison as bc

TRUSTED = ['jax.linearize and jax.vmap (vc/diff.py): the value of the real function and its directional derivative by the rules of calculus, where it is differentiable']
ASSUMPTIONS = ['summed weights are positive and square roots are taken of positive means (the metric is differentiable at the means)',
               'single-precision arithmetic of jax is treated as mathematical (sampled runs use a tolerance)']
TOL = (2e-4, 2e-4)
UNIT = 'init'


class Stat(mb.Statistic):

  def __init__(self, name):
    self._name = name

  @property
  def unique_name(self):
    return self._name

  def compute(self, predictions, targets):
    raise NotImplementedError()


class Made(mb.Metric):
  """A metric given by a function of its statistics."""

  def __init__(self, names, f):
    self.names, self.f = names, f

  @property
  def statistics(self):
    return {n: Stat('u' + n) for n in self.names}

  def values_from_mean_statistics(self, stats):
    return {v: self.f(*[stats[n][v] for n in self.names]) for v in stats[self.names[0]]}


# name -> (metric, statistics by unique name, value from means, derivative from means and their changes)
METRICS = {
    'mse': (deterministic.MSE, ['SquaredError'], lambda b, m: m, lambda b, m, d: d),
    'rmse': (deterministic.RMSE, ['SquaredError'], lambda b, m: b.sqrt(m), lambda b, m, d: d / (2.0 * b.sqrt(m))),
    'linear': (lambda: Made('ab', lambda a, c: 2.0 * a - 3.0 * c), ['ua', 'ub'], lambda b, m, n: 2.0 * m - 3.0 * n, lambda b, m, n, d, e: 2.0 * d - 3.0 * e),
    'product': (lambda: Made('ab', lambda a, c: a * c), ['ua', 'ub'], lambda b, m, n: m * n, lambda b, m, n, d, e: d * n + m * e),
    'ratio': (lambda: Made('ab', lambda a, c: a / c), ['ua', 'ub'], lambda b, m, n: m / n, lambda b, m, n, d, e: d / n - m * e / (n * n)),
    'fss': (lambda: spatial.FSS(1), ['SquaredFractionsError', 'SquaredPredictionFraction', 'SquaredTargetFraction'],
            lambda b, e, p, t: 1.0 - e / (p + t), lambda b, e, p, t, de, dp, dt: -de / (p + t) + e * (dp + dt) / ((p + t) * (p + t))),
    'acc': (lambda: deterministic.ACC(None), ['AnomalyCovariance', 'SquaredPredictionAnomaly', 'SquaredTargetAnomaly'],
            lambda b, c, p, t: c / (b.sqrt(p) * b.sqrt(t)),
            lambda b, c, p, t, dc, dp, dt: dc / (b.sqrt(p) * b.sqrt(t)) - c / (b.sqrt(p) * b.sqrt(t)) * (dp / (2.0 * p) + dt / (2.0 * t))),
}


def unique_names(metric, names):
  have = {s.unique_name for s in metric.statistics.values()}
  if len(names) == len(have):
    return list(names) if set(names) == have else [next(u for u in have if n in u) for n in names]
  raise AssertionError(have)


def positive(rng, shape):
  return rng.uniform(0.5, 2.0, shape)


def wdims_of(weights, dims):
  return [UNIT] if weights == 'units' else dims


def state_of(b, names, dims, weights, nan=False, tag=''):
  S = [b.array(f'{tag}S{k}', dims, nan=nan, gen=positive) for k in range(len(names))]
  for h in S:
    b.assume_all(dims, lambda i, h=h: (b.isnan(h[i]) | (h[i] > 0.0)) if nan else h[i] > 0.0)
  wdims = {'own': dims, 'units': [UNIT]}.get(weights, dims)
  W = [b.array(f'{tag}W{k if weights == "own" else 0}', wdims, gen=positive) for k in range(len(names) if weights == 'own' else 1)]
  for h in W:
    b.assume_all(wdims, lambda i, h=h: h[i] > 0.0)
  others = [d for d in dims if d != UNIT]
  wothers = [d for d in wdims if d != UNIT]
  for k, h in enumerate(W):
    b.lemma(f'{tag} summed weights {k}', wothers, lambda i, h=h: b.sum(i, [UNIT], lambda j: h[j]) > 0.0)
  if not nan:
    for k, h in enumerate(S):
      b.lemma(f'{tag} summed statistics {k}', others, lambda i, h=h: b.sum(i, [UNIT], lambda j: h[j]) > 0.0)
  if weights != 'own':
    W = W * len(names)
  return S, W


def total(b, h, i, dims):
  return b.sum(i, [UNIT], lambda j: h[{k: v for k, v in j.items() if k in dims}])


def means(b, S, W, i, wdims):
  """Mean statistics over all units, and the change of each for the unit at i: (S_u - m W_u) / mean weight."""
  ms, ds = [], []
  for s, w in zip(S, W):
    at = lambda j: w[{k: v for k, v in j.items() if k in wdims}]
    tw = b.sum(i, [UNIT], at)
    m = b.sum(i, [UNIT], lambda j: s[j]) / tw
    ms.append(m)
    if UNIT in i:
      ds.append((s[i] - m * at(i)) / (tw / b.size(UNIT)))
  return ms, ds


CASES = [dict(metric=m, weights=w, order=o) for m in METRICS for w in ('own', 'equal', 'units') for o in ('first', 'last') if (o == 'first' or m in ('rmse', 'ratio')) and (w != 'units' or m in ('rmse', 'ratio') and o == 'first')]


@contract('linearized', cases=CASES)
def _(b, metric, weights, order):
  """The value is the metric of all units together; the tangents are its directional derivative towards each unit, and average to zero."""
  make, names, value, slope = METRICS[metric]
  b.dim(UNIT, hi=4); b.dim('lead', hi=2)
  unit = b.coord(UNIT, UNIT, gen=lambda rng, s: rng.permutation(np.cumsum(rng.integers(1, 4, s)) * 1.0))
  lead = b.coord('lead', 'lead', gen=lambda rng, s: rng.permutation(s[0]) * 1.0)
  dims = [UNIT, 'lead'] if order == 'first' else ['lead', UNIT]
  S, W = state_of(b, names, dims, weights)
  def run():
    m = make()
    us = unique_names(m, names)
    st = aggregation.AggregationState({u: {'v': s.da} for u, s in zip(us, S)}, {u: {'v': w.da} for u, w in zip(us, W)})
    v, t = autodiff.per_unit_values_linearized_around_mean_statistics({'m': m}, st, UNIT)
    full = mb.compute_metrics_from_statistics({'m': m}, st.sum_along_dims([UNIT]).mean_statistics())
    return v['m']['v'], t['m']['v'], full['m']['v'], set(v), set(t)
  def post(r):
    v, t, full, kv, kt = r.value
    r.check('metrics', kv == {'m'} and kt == {'m'})
    def want(i):
      return value(b, *means(b, S, W, i, wdims_of(weights, dims))[0])
    r.array('value', v, ['lead'], want, tol=TOL)
    r.array('metric of all units', full, ['lead'], want, tol=TOL)
    def tangent(i):
      ms, ds = means(b, S, W, i, wdims_of(weights, dims))
      return slope(b, *ms, *ds)
    r.array('tangents', t, ['lead', UNIT], tangent, coords={UNIT: lambda i: unit[i], 'lead': lambda i: lead[i]}, tol=TOL)
    at = lambda j: b.read(t, j)
    eps = 0.0 if r.symbolic else 1e-3
    r.forall('mean zero', ['lead'], lambda i: b.eq(b.sum(i, [UNIT], at), 0.0) if r.symbolic else abs(b.sum(i, [UNIT], at)) <= eps)
  b.ensures('linearized', run, post)


@contract('reduced', cases=[dict(order='first'), dict(order='last')])
def _(b, order):
  """A metric that averages over another dimension keeps one tangent per unit."""
  b.dim(UNIT, hi=4); b.dim('lead', hi=3)
  unit = b.coord(UNIT, UNIT, gen=lambda rng, s: rng.permutation(s[0]) * 2.0)
  dims = [UNIT, 'lead'] if order == 'first' else ['lead', UNIT]
  S, W = state_of(b, ['ua', 'ub'], dims, 'own')
  def run():
    m = Made('ab', lambda a, c: (2.0 * a - c).mean('lead', skipna=False))
    st = aggregation.AggregationState({u: {'v': s.da} for u, s in zip(['ua', 'ub'], S)}, {u: {'v': w.da} for u, w in zip(['ua', 'ub'], W)})
    v, t = autodiff.per_unit_values_linearized_around_mean_statistics({'m': m}, st, UNIT)
    return v['m']['v'], t['m']['v']
  def post(r):
    v, t = r.value
    def value(i):
      def at(j):
        m, n = means(b, S, W, {'lead': j['lead']}, dims)[0]
        return 2.0 * m - n
      return b.sum(i, ['lead'], at) / b.size('lead')
    r.array('value', v, [], value, tol=TOL)
    def tangent(i):
      def at(j):
        _, (d, e) = means(b, S, W, j, dims)
        return 2.0 * d - e
      return b.sum(i, ['lead'], at) / b.size('lead')
    r.array('tangents', t, [UNIT], tangent, coords={UNIT: lambda i: unit[i]}, tol=TOL)
  b.ensures('reduced', run, post)


@contract('difference', cases=[dict(metric=m) for m in ('mse', 'rmse', 'ratio', 'fss')])
def _(b, metric):
  """The linearised difference from a baseline is the difference of the linearised metrics."""
  make, names, value, slope = METRICS[metric]
  b.dim(UNIT, hi=4)
  b.coord(UNIT, UNIT, gen=lambda rng, s: np.arange(s[0]) * 2.0)
  A = state_of(b, names, [UNIT], 'own', tag='a')
  B = state_of(b, names, [UNIT], 'own', tag='b')
  def run():
    m = make()
    us = unique_names(m, names)
    sa, sb = [aggregation.AggregationState({u: {'v': s.da} for u, s in zip(us, S)}, {u: {'v': w.da} for u, w in zip(us, W)}) for S, W in (A, B)]
    v, t = autodiff.per_unit_values_linearized_around_mean_statistics(bc.for_metrics({'m': m}), bc.combine_aggregation_states(sa, sb), UNIT)
    return v['m']['v'], t['m']['v']
  def post(r):
    v, t = r.value
    def of(X, i):
      ms, ds = means(b, *X, i, [UNIT])
      return value(b, *ms), slope(b, *ms, *ds) if ds else None
    r.array('value', v, [], lambda i: of(A, i)[0] - of(B, i)[0], tol=TOL)
    r.array('tangents', t, [UNIT], lambda i: of(A, i)[1] - of(B, i)[1], tol=TOL)
  b.ensures('difference', run, post)


@contract('missing', cases=[dict(metric=m, order=o) for m in ('mse', 'ratio', 'linear') for o in ('first', 'last')])
def _(b, metric, order):
  """A missing statistic makes the value and every tangent it would enter missing: nothing is dropped silently."""
  make, names, value, slope = METRICS[metric]
  b.dim(UNIT, hi=4); b.dim('lead', hi=2)
  b.coord(UNIT, UNIT, gen=lambda rng, s: np.arange(s[0]) * 2.0)
  dims = [UNIT, 'lead'] if order == 'first' else ['lead', UNIT]
  S, W = state_of(b, names, dims, 'own', nan=True)
  def run():
    m = make()
    us = unique_names(m, names)
    st = aggregation.AggregationState({u: {'v': s.da} for u, s in zip(us, S)}, {u: {'v': w.da} for u, w in zip(us, W)})
    v, t = autodiff.per_unit_values_linearized_around_mean_statistics({'m': m}, st, UNIT)
    return v['m']['v'], t['m']['v']
  def post(r):
    v, t = r.value
    def lost(i):
      out = None
      for s in S:
        x = b.any(i, [UNIT], lambda j, s=s: b.isnan(s[j]))
        out = x if out is None else out | x
      return out
    r.forall('value', ['lead'], lambda i: b.same(b.isnan(b.read(v, i)), lost(i)))
    r.forall('tangents', ['lead', UNIT], lambda i: b.same(b.isnan(b.read(t, i)), lost(i)))
  b.ensures('missing', run, post)


@contract('refuses', cases=[dict(how=h) for h in ('no-unit', 'labels', 'sizes', 'not-dim', 'empty')])
def _(b, how):
  """Statistics that do not share their experimental units are refused."""
  b.dim(UNIT, hi=3); b.dim('lead', hi=2); b.dim('other', lo=4, hi=5)
  b.coord(UNIT, UNIT, gen=lambda rng, s: np.arange(s[0]) * 1.0)
  b.assume(b.size('other') > b.size(UNIT))
  x = b.array('x', [UNIT, 'lead'], gen=positive)
  o = b.array('o', ['other', 'lead'], gen=positive)
  u = b.array('u', ['other'], gen=positive)
  def run():
    da = x.da
    bad = {'no-unit': lambda: da.isel({UNIT: 0}, drop=True),
           'labels': lambda: da.assign_coords({UNIT: da[UNIT] + 1.0}),
           'sizes': lambda: o.da.rename({'other': UNIT}).assign_coords({UNIT: u.da.rename({'other': UNIT})}),
           'not-dim': lambda: da.isel({UNIT: 0}, drop=True).assign_coords({UNIT: da.isel({UNIT: 0}, drop=True) * 0.0}),
           'empty': lambda: da}[how]()
    m = Made('ab', lambda a, c: a + c)
    st = {'ua': {'v': da}, 'ub': {'v': bad}} if how != 'empty' else {}
    return autodiff.per_unit_values_linearized_around_mean_statistics({'m': m}, aggregation.AggregationState(st, st), UNIT)
  def post(r):
    r.raises('refused', ValueError)
  b.ensures('refuses', run, post)


@contract('refuses.order', mode='bounded', samples=40)
def _(b):
  """Statistics that list the same units in different orders are refused."""
  b.dim(UNIT, lo=2, hi=5)
  b.coord(UNIT, UNIT, gen=lambda rng, s: rng.permutation(s[0]) * 1.0)
  x = b.array('x', [UNIT], gen=positive)
  p = b.rng.permutation(b.sizes[UNIT])
  b.assume(list(p) != sorted(p))
  def run():
    st = {'ua': {'v': x.da}, 'ub': {'v': x.da.isel({UNIT: p})}}
    return autodiff.per_unit_values_linearized_around_mean_statistics({'m': Made('ab', lambda a, c: a + c)}, aggregation.AggregationState(st, st), UNIT)
  b.ensures('refuses', run, lambda r: r.raises('refused', ValueError))
