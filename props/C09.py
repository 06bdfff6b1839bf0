"""Categorical scores follow from the contingency table."""
import numpy as np
from vc.contract import contract
from weatherbenchX import aggregation
from weatherbenchX.metrics import base
from weatherbenchX.metrics import categorical as cat
from props.common import truth


def _log_ratio(b, tp, fp, fn, tn):
  h, f = tp / (tp + fn), fp / (fp + tn)
  lo, hi = b.f(1e-6), b.f(1 - 1e-6)
  h, f = [b.max2(b.min2(x, hi), lo) for x in (h, f)]
  lh, lf, l1h, l1f = b.log(h), b.log(f), b.log(1 - h), b.log(1 - f)
  return (lf - lh + l1h - l1f) / (lh + lf + l1h + l1f)


# name: (metric, value(tp, fp, fn, tn), denominator, (low, high))
SCORES = {
    'CSI': (cat.CSI, lambda b, tp, fp, fn, tn: tp / (tp + fp + fn), lambda b, tp, fp, fn, tn: tp + fp + fn, (0, 1)),
    'Accuracy': (cat.Accuracy, lambda b, tp, fp, fn, tn: (tp + tn) / (tp + fp + fn + tn), lambda b, tp, fp, fn, tn: tp + fp + fn + tn, (0, 1)),
    'Recall': (cat.Recall, lambda b, tp, fp, fn, tn: tp / (tp + fn), lambda b, tp, fp, fn, tn: tp + fn, (0, 1)),
    'FalseAlarmRate': (cat.FalseAlarmRate, lambda b, tp, fp, fn, tn: fp / (tp + fp), lambda b, tp, fp, fn, tn: tp + fp, (0, 1)),
    'Precision': (cat.Precision, lambda b, tp, fp, fn, tn: tp / (tp + fp), lambda b, tp, fp, fn, tn: tp + fp, (0, 1)),
    'F1Score': (cat.F1Score, lambda b, tp, fp, fn, tn: 2 * tp / (2 * tp + fp + fn), lambda b, tp, fp, fn, tn: 2 * tp + fp + fn, (0, 1)),
    'FrequencyBias': (cat.FrequencyBias, lambda b, tp, fp, fn, tn: (tp + fp) / (tp + fn), lambda b, tp, fp, fn, tn: tp + fn, (0, None)),
    'HSS': (cat.HSS, lambda b, tp, fp, fn, tn: 2 * (tp * tn - fp * fn) / ((tp + fn) * (fn + tn) + (tp + fp) * (fp + tn)),
            lambda b, tp, fp, fn, tn: (tp + fn) * (fn + tn) + (tp + fp) * (fp + tn), (-1, 1)),
    'ETS': (cat.ETS, lambda b, tp, fp, fn, tn: (tp - (tp + fp) * (tp + fn) / (tp + fp + fn + tn)) / (tp + fp + fn - (tp + fp) * (tp + fn) / (tp + fp + fn + tn)),
            lambda b, tp, fp, fn, tn: tp + fp + fn - (tp + fp) * (tp + fn) / (tp + fp + fn + tn), (-1 / 3, 1)),
    'SEDI': (cat.SEDI, _log_ratio, None, None),
}
KEYS = ['TruePositives', 'FalsePositives', 'FalseNegatives', 'TrueNegatives']


def table(b, nan=True):
  """Arbitrary non-negative rates (missing allowed)."""
  b.dim('x')
  hs = [b.array(k, ['x'], nan=nan, gen=lambda rng, s: rng.choice([0., 0., .25, .5, 1., 3.], s)) for k in ('tp', 'fp', 'fn', 'tn')]
  for h in hs:
    b.assume_all(['x'], lambda i, h=h: b.isnan(h[i]) | (h[i] >= 0.0))
  return hs


def value(metric, hs):
  m = metric()
  st = {k: {'v': h.da} for k, h in zip(KEYS, hs)}
  return m.values_from_mean_statistics({k: st[k] for k in m.statistics})['v']


@contract('score.formula', cases=[dict(name=n) for n in SCORES])
def _(b, name):
  """The score is its textbook function of the rates, at every element."""
  hs = table(b)
  metric, f, _, _ = SCORES[name]
  b.ensures('score', lambda: value(metric, hs), lambda r: r.array('value', r.value, ['x'], lambda i: f(b, *[h[i] for h in hs])))


@contract('score.range', cases=[dict(name=n) for n in SCORES if SCORES[n][2]])
def _(b, name):
  """Finite exactly when the denominator is not zero, and then within the textbook range."""
  hs = table(b, nan=False)
  metric, _, den, (lo, hi) = SCORES[name]
  def post(r):
    v = r.value
    at = (lambda i: v.at(i)) if r.symbolic else (lambda i: float(v.isel(x=i['x'])))
    def law(i):
      d, x = den(b, *[h[i] for h in hs]), at(i)
      eps = 0.0 if r.symbolic else 1e-9
      bad = ~b.finite(d) | ((d <= eps) & (d >= -eps))
      ok = b.finite(x) & (x * 3.0 >= round(lo * 3) - eps)
      if hi is not None:
        ok = ok & (x <= hi + eps)
      if not r.symbolic and bool(bad) and name == 'ETS':
        return b.true()  # the denominator itself is only known up to rounding
      return (bad & ~b.finite(x)) | (~bad & ok)
    r.forall('range', ['x'], law)
  b.ensures('score', lambda: value(metric, hs), post)


@contract('score.perfect', cases=[dict(name=n) for n in SCORES if n not in ('SEDI',)])
def _(b, name):
  """A forecast without errors gets the best value wherever the score is defined."""
  b.dim('x')
  tp = b.array('tp', ['x'], gen=lambda rng, s: rng.choice([.25, .5, 1.], s))
  tn = b.array('tn', ['x'], gen=lambda rng, s: rng.choice([.25, .5, 1.], s))
  zero = b.array('zero', ['x'], gen=lambda rng, s: np.zeros(s))
  b.assume_all(['x'], lambda i: (tp[i] > 0.0) & (tn[i] > 0.0) & b.eq(zero[i], 0.0))
  best = 0.0 if name == 'FalseAlarmRate' else 1.0
  b.ensures('score', lambda: value(SCORES[name][0], [tp, zero, zero, tn]), lambda r: r.array('value', r.value, ['x'], lambda i: b.f(best)))


@contract('score.end-to-end', cases=[dict(name=n) for n in SCORES if n != 'SEDI'])
def _(b, name):
  """From binary forecasts and observations to the score: the rates are the averaged counts."""
  b.dim('t'); b.dim('x')
  p = b.array('p', ['t', 'x'], gen=lambda rng, s: rng.integers(0, 2, s).astype(float))
  o = b.array('o', ['t', 'x'], gen=lambda rng, s: rng.integers(0, 2, s).astype(float))
  metric, f, _, _ = SCORES[name]
  def run():
    ms = {'m': metric()}
    return aggregation.compute_metric_values_for_single_chunk(ms, aggregation.Aggregator(reduce_dims=['t']), {'v': p.da}, {'v': o.da})['m.v']
  def spec(i):
    P, O = (lambda j: truth(b, p[j])), (lambda j: truth(b, o[j]))
    rate = lambda fn: b.sum(i, ['t'], lambda j: b.where(fn(j), b.f(1.0), b.f(0.0))) / b.size('t')
    tp, fp, fn, tn = rate(lambda j: P(j) & O(j)), rate(lambda j: P(j) & ~O(j)), rate(lambda j: ~P(j) & O(j)), rate(lambda j: ~P(j) & ~O(j))
    return f(b, tp, fp, fn, tn)
  b.ensures('value', run, lambda r: r.array('value', r.value, ['x'], spec, tol=(1e-4, 1e-5)))


@contract('score.opportunism', cases=[dict(conf=c, cov=v, jac=j) for c in (True, False) for v in (None, True, False) for j in (None, True, False)])
def _(b, conf, cov, jac):
  """The fraction is the product of the selected (complementary) fractions."""
  b.dim('x')
  fr = {k: b.array(k, ['x'], nan=True, gen=lambda rng, s: rng.random(s)) for k in ('Confident', 'Covered', 'JaccardDistant')}
  import xarray
  def run():
    m = cat.Opportunism('m', None, is_confident=conf, is_covered=cov, is_jaccard_distant=jac)
    want = {'Confident'} | ({'Covered'} if cov is not None else set()) | ({'JaccardDistant'} if jac is not None else set())
    return set(m.statistics) == want, m.values_from_mean_statistics({k: {'v': fr[k].da} for k in m.statistics})['v']
  def spec(i):
    g = lambda k, flag: b.f(1.0) if flag is None else (fr[k][i] if flag else 1 - fr[k][i])
    return g('Confident', conf) * g('Covered', cov) * g('JaccardDistant', jac)
  def post(r):
    r.check('statistics', r.value[0])
    r.array('value', r.value[1], ['x'], spec)
  b.ensures('value', run, post)
