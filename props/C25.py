"""t-tests."""
import types
import numpy as np
from vc.contract import contract
from weatherbenchX import aggregation
from weatherbenchX.metrics import deterministic
from weatherbenchX.statistical_inference import t_test

TRUSTED = ["scipy.stats.t: a continuous, symmetric, strictly increasing distribution function with values in (0, 1), and its inverse (vc/stats.py)",
           'scipy.fft.dct (type 2, orthonormal): its defining cosine sums (vc/stats.py)',
           'autodiff.per_unit_values_linearized_around_mean_statistics enters by its contract, which property C28 proves: values and zero-mean per-unit changes']
UNIT = 'init'
TOL = (1e-6, 1e-9)


class Linearized:
  """Stands for the linearisation: given values and per-unit changes."""

  def __init__(self, values, changes):
    self.values, self.changes, self.calls = values, changes, []

  def __enter__(self):
    self.saved = t_test.autodiff
    def stub(metrics, state, dim):
      self.calls.append((metrics, state, dim))
      return self.values, self.changes
    t_test.autodiff = types.SimpleNamespace(per_unit_values_linearized_around_mean_statistics=stub)
    return self

  def __exit__(self, *a):
    t_test.autodiff = self.saved


def even(rng, n):
  """Labels of the units: uniform steps, as the estimators require of them."""
  return np.arange(n) * 10 + 5 if rng.random() < 0.6 else None


def make(cls, mean, dev, **kw):
  with Linearized({'m': {'v': mean}}, {'m': {'v': dev}}) as lin:
    ms, st = {'m': object()}, object()
    t = cls(ms, st, UNIT, **kw)
  assert len(lin.calls) == 1 and lin.calls[0][0] is ms and lin.calls[0][1] is st and lin.calls[0][2] == UNIT
  return t


def one(tree):
  assert set(tree) == {'m'} and set(tree['m']) == {'v'}, tree
  return tree['m']['v']


def generic(rng, shape):
  return np.round(rng.normal(size=shape), 3) + 0.001   # projections do not cancel exactly


def sometimes_flat(order):
  """Some series do not vary at all, others do."""
  axis = 0 if order == 'first' else 1
  return lambda rng, shape: np.where(np.expand_dims(rng.random(shape[1 - axis]) < 0.4, axis), 0.0, np.round(rng.normal(size=shape), 2))


def setup(b, lo, dims_order='first', nan=False, hi=7, gen=None):
  b.dim(UNIT, lo=lo, hi=hi, labels=even); b.dim('lead', hi=2)
  dims = [UNIT, 'lead'] if dims_order == 'first' else ['lead', UNIT]
  mean = b.array('mean', ['lead'], nan=nan)
  dev = b.array('dev', dims, nan=nan, gen=gen)
  return mean, dev


def variance(b, dev, i, ddof=1):
  return b.sum(i, [UNIT], lambda j: dev[j] * dev[j]) / (b.size(UNIT) - ddof)


@contract('iid', cases=[dict(order=o, nan=n) for o in ('first', 'last') for n in (False, True)])
def _(b, order, nan):
  """Independent units: the standard error is the sample standard deviation over the square root of the number of units, with one degree of freedom less than units."""
  mean, dev = setup(b, 2, order, nan, gen=None if nan else sometimes_flat(order))
  def run():
    t = make(t_test.IID, mean.da, dev.da)
    return one(t.point_estimates()), one(t.standard_error_estimates()), one(t._results).degrees_of_freedom
  def post(r):
    m, s, df = r.value
    r.array('estimate', m, ['lead'], lambda i: mean[i])
    r.array('standard error', s, ['lead'], lambda i: b.sqrt(variance(b, dev, i) / b.size(UNIT)), tol=TOL)
    r.holds('degrees of freedom', b.eq(b.num(df), b.size(UNIT) - 1.0))
  b.ensures('iid', run, post)


@contract('df', cases=[dict(cls=c) for c in ('IID', 'GeerAR2Corrected')])
def _(b, cls):
  """The t-distribution used has the stated degrees of freedom."""
  mean, dev = setup(b, 3)
  def run():
    return one(make(getattr(t_test, cls), mean.da, dev.da)._results).degrees_of_freedom
  def post(r):
    r.holds('degrees of freedom', b.eq(b.num(r.value), b.size(UNIT) - 1.0))
  b.ensures('df', run, post)


@contract('ar2', cases=[dict(order=o, nan=n) for o in ('first', 'last') for n in (False, True)])
def _(b, order, nan):
  """Second-order autoregression: the standard error is inflated by the factor that its coefficients (Yule-Walker) give."""
  mean, dev = setup(b, 3, order, nan, gen=None if nan else sometimes_flat(order))
  b.hint('extend')
  def run():
    t = make(t_test.GeerAR2Corrected, mean.da, dev.da)
    return one(t.point_estimates()), one(t.standard_error_estimates())
  n = b.size(UNIT)
  def rho(i, lag):
    v = variance(b, dev, i)
    def pair(j):
      return b.where(b.index(j, UNIT) + float(lag) < n, dev[j] * dev(j, init=b.wrap(j, UNIT, lag)), 0.0)
    return b.where(b.eq(v, 0.0), 0.0, b.sum(i, [UNIT], pair) / (n - float(lag)) / v)
  def coefficients(i):
    p, q = rho(i, 1), rho(i, 2)
    d = 1.0 - p * p
    return p, q, p * (1.0 - q) / d, (q - p * p) / d
  def post(r):
    m, s = r.value
    r.array('estimate', m, ['lead'], lambda i: mean[i])
    def want(i):
      p, q, f, g = coefficients(i)
      return b.sqrt(variance(b, dev, i) / n) * b.sqrt((1.0 - p * f - q * g) / ((1.0 - f - g) * (1.0 - f - g)))
    if not nan:
      r.array('standard error', s, ['lead'], want, tol=(1e-5, 1e-8))
    r.forall('missing', ['lead'], lambda i: ~b.any(i, [UNIT], lambda j: b.isnan(dev[j])) | b.isnan(b.read(s, i)))
  b.ensures('ar2', run, post)


@contract('yule-walker')
def _(b):
  """The coefficients used solve the Yule-Walker equations, and the inflation factor is the same computed from either."""
  b.dim('lead')
  p = b.array('p', ['lead'], gen=lambda rng, s: rng.uniform(-0.9, 0.9, s))
  q = b.array('q', ['lead'], gen=lambda rng, s: rng.uniform(-0.9, 0.9, s))
  b.assume_all(['lead'], lambda i: (p[i] < 1.0) & (p[i] > -1.0))
  def run():
    d = 1 - p.da * p.da
    f, g = p.da * (1 - q.da) / d, (q.da - p.da * p.da) / d
    return f, g, t_test._inflation_factor_from_ar2_autocorrelation(p.da, q.da), t_test._inflation_factor_from_ar2_coeffs(f, g)
  def post(r):
    f, g, k, k2 = r.value
    F, G = lambda i: b.read(f, i), lambda i: b.read(g, i)
    close = (lambda x, y: b.eq(x, y)) if r.symbolic else lambda x, y: np.bool_(abs(x - y) <= 1e-9)
    r.forall('first', ['lead'], lambda i: close(p[i], F(i) + G(i) * p[i]))
    r.forall('second', ['lead'], lambda i: close(q[i], F(i) * p[i] + G(i)))
  b.ensures('yule-walker', run, post)


@contract('lazarus', cases=[dict(order=o, v0=v) for o in ('first', 'last') for v in (0.4, 0.05, 1.3, 3.1)])
def _(b, order, v0):
  """Equal-weighted cosine: the long-run variance is the mean square of the v lowest non-constant cosine projections, with v degrees of freedom."""
  mean, dev = setup(b, 2, order, gen=generic)
  n = b.size(UNIT)
  def run():
    t = make(t_test.LazarusHACEWC, mean.da, dev.da, v_0=v0) if v0 != 0.4 else make(t_test.LazarusHACEWC, mean.da, dev.da)
    return one(t.point_estimates()), one(t.standard_error_estimates()), one(t._results).degrees_of_freedom
  def count():
    v = b.trunc(v0 * b.pow23(n))
    return b.min2(b.max2(v, 1.0), n - 1.0)
  def post(r):
    m, s, df = r.value
    r.array('estimate', m, ['lead'], lambda i: mean[i])
    v = count()
    r.holds('degrees of freedom', b.eq(b.num(df), v))
    def want(i):
      def power(k):
        k = k + 1.0
        def term(j):
          return dev[{**i, UNIT: j[UNIT]}] * b.cos(b.pi() * k * (2.0 * b.index(j, UNIT) + 1.0) / (2.0 * n))
        x = b.sum({}, [UNIT], term) * b.where(b.eq(k, 0.0), b.sqrt(1.0 / n), b.sqrt(2.0 / n))   # orthonormal cosine projection
        return x * x
      return b.sqrt(b.sum_range(df, power) / v / n)
    r.array('standard error', s, ['lead'], want, tol=(1e-6, 1e-8))
  b.ensures('lazarus', run, post)


METHODS = ('IID', 'GeerAR2Corrected', 'LazarusHACEWC')
SHORT = ('IID', 'LazarusHACEWC')   # the same final methods of the base class; the terms of the third are too large for the solver
LOWEST = {'IID': 2, 'GeerAR2Corrected': 3, 'LazarusHACEWC': 2}


def inference(b, method, nan=False, flat=False):
  mean, dev = setup(b, LOWEST[method], nan=nan, gen=generic if method == 'LazarusHACEWC' and not flat else None)
  if flat:
    b.assume_all([UNIT, 'lead'], lambda i: b.eq(dev[i], 0.0))
  return mean, dev, lambda: make(getattr(t_test, method), mean.da, dev.da)


def level(b, name='alpha'):
  a = b.scalar(name, gen=lambda rng: float(rng.uniform(0.01, 0.6)))
  b.assume((a.s > 0.0) & (a.s < 1.0))
  return a


def degrees(b, t):
  return b.num(one(t._results).degrees_of_freedom)


@contract('interval', cases=[dict(method=m, nan=n) for m in METHODS for n in (False, True)])
def _(b, method, nan):
  """The interval is the estimate plus and minus the standard error times the quantile of the t-distribution at half the level."""
  mean, dev, build = inference(b, method, nan)
  alpha = level(b)
  def run():
    t = build()
    lo, hi = t.confidence_intervals(alpha.val)
    return t, one(lo), one(hi), one(t.standard_error_estimates())
  def post(r):
    t, lo, hi, s = r.value
    half = lambda i: b.read(s, i) * -b.t_ppf(degrees(b, t), alpha.s / 2.0)
    r.array('lower', lo, ['lead'], lambda i: mean[i] - half(i), tol=TOL)
    r.array('upper', hi, ['lead'], lambda i: mean[i] + half(i), tol=TOL)
  b.ensures('interval', run, post)


@contract('default level', cases=[dict(method=m) for m in METHODS])
def _(b, method):
  """Without a level, the interval is the one at level 0.05, and the null value is zero."""
  mean, dev, build = inference(b, method)
  def run():
    t = build()
    return [one(x) for x in (*t.confidence_intervals(), *t.confidence_intervals(alpha=0.05), t.p_values(), t.p_values(null_value=0.0))]
  def post(r):
    lo, hi, lo2, hi2, p, p2 = r.value
    for label, x, y in (('lower', lo, lo2), ('upper', hi, hi2), ('p-value', p, p2)):
      r.array(label, x, ['lead'], lambda i, y=y: b.read(y, i))
  b.ensures('defaults', run, post)


@contract('interval ordered', cases=[dict(method=m) for m in METHODS])
def _(b, method):
  """The interval contains the estimate, is symmetric about it, and a higher confidence level gives an interval at least as wide."""
  mean, dev, build = inference(b, method)
  alpha, beta = level(b), level(b, 'beta')
  b.assume(alpha.s < beta.s)
  def run():
    t = build()
    return [one(x) for x in (*t.confidence_intervals(alpha.val), *t.confidence_intervals(beta.val), t.point_estimates(), t.standard_error_estimates())]
  def post(r):
    lo, hi, lo2, hi2, m, s = r.value
    at = lambda x, i: b.read(x, i)
    fine = lambda i: ~b.isnan(at(s, i))
    eps = 0.0 if r.symbolic else 1e-7
    r.forall('contains the estimate', ['lead'], lambda i: ~fine(i) | (at(lo, i) <= at(m, i) + eps) & (at(m, i) <= at(hi, i) + eps))
    r.forall('symmetric', ['lead'], lambda i: ~fine(i) | (b.eq(at(m, i) - at(lo, i), at(hi, i) - at(m, i)) if r.symbolic
                                                        else np.bool_(np.isclose(at(m, i) - at(lo, i), at(hi, i) - at(m, i)))))
    r.forall('nested', ['lead'], lambda i: ~fine(i) | (at(lo, i) <= at(lo2, i) + eps) & (at(hi2, i) <= at(hi, i) + eps))
  b.ensures('ordered', run, post)


@contract('p-value', cases=[dict(method=m, nan=n) for m in SHORT for n in (False, True)])
def p_value(b, method, nan):
  """The p-value is the probability of a t-value at least as large; without any spread it is one at the estimate and zero elsewhere."""
  mean, dev, build = inference(b, method, nan)
  null = b.scalar('null')
  def run():
    t = build()
    return t, one(t.p_values(null.val)), one(t.standard_error_estimates())
  def post(r):
    t, p, s = r.value
    def want(i):
      d, e = mean[i] - null.s, b.read(s, i)
      d = b.where(d < 0.0, -d, d)
      spread = b.where(e > 0.0, 2.0 * (1.0 - b.t_cdf(degrees(b, t), d / b.where(e > 0.0, e, 1.0))), b.where(b.eq(d, 0.0), 1.0, 0.0))
      return b.where(b.isnan(d) | b.isnan(e), b.f('nan'), spread)
    r.array('p-value', p, ['lead'], want, tol=TOL)
    def bounds(i):
      x = b.read(p, i)
      return b.isnan(x) | (x >= 0.0) & (x <= 1.0)
    r.forall('within [0, 1]', ['lead'], bounds)
    if not nan:
      fine = lambda i: ~b.isnan(b.read(s, i))
      near = (lambda i: b.eq(mean[i], null.s)) if r.symbolic else (lambda i: np.bool_(abs(mean[i] - null.s) < 1e-12))
      r.forall('one only at the estimate', ['lead'], lambda i: ~fine(i) | b.same(b.read(p, i) >= 1.0, near(i)))
  b.ensures('p-value', run, post)


@contract('p-value ar2', cases=[dict(method='GeerAR2Corrected', nan=n) for n in (False, True)], mode='bounded')
def _(b, method, nan):
  """As above."""
  p_value(b, method, nan)


@contract('agreement', cases=[dict(method=m, flat=f) for m in SHORT for f in (False, True)])
def agreement(b, method, flat):
  """The interval at a level excludes the null value exactly when the p-value is below the level; the significance test compares the two."""
  mean, dev, build = inference(b, method, flat=flat)
  alpha = level(b)
  null = b.scalar('null')
  def run():
    t = build()
    lo, hi = t.confidence_intervals(alpha.val)
    return [one(x) for x in (lo, hi, t.p_values(null.val), t.significance_tests(null.val, alpha.val), t.standard_error_estimates())]
  def post(r):
    lo, hi, p, sig, s = r.value
    at = lambda x, i: b.read(x, i)
    def agree(i):
      if not r.symbolic and (min(abs(at(lo, i) - null.s), abs(at(hi, i) - null.s)) < 1e-7 and at(s, i) > 0 or abs(at(p, i) - alpha.s) < 1e-9):
        return np.bool_(True)   # rounding
      out = (null.s < at(lo, i)) | (null.s > at(hi, i))
      return b.isnan(at(s, i)) | b.same(out, at(p, i) < alpha.s)
    r.forall('interval and p-value', ['lead'], agree)
    r.forall('test', ['lead'], lambda i: b.same(b.true() & at(sig, i), at(p, i) <= alpha.s))
  b.ensures('agreement', run, post)


@contract('agreement ar2', cases=[dict(method='GeerAR2Corrected', flat=f) for f in (False, True)], mode='bounded')
def _(b, method, flat):
  """As above."""
  agreement(b, method, flat)


@contract('steps', cases=[dict(method=m, kind=k) for m in ('GeerAR2Corrected', 'LazarusHACEWC') for k in ('i', 'm', 'none')])
def steps(b, method, kind):
  """Methods for time series refuse units whose labels are not equally spaced, and accept any others."""
  mean, dev = setup(b, LOWEST[method], hi=5)
  if kind != 'none':
    c = b.coord(UNIT, UNIT, kind=kind, gen=lambda rng, s: (np.cumsum(rng.integers(1, 3, s)) if rng.random() < 0.6 else np.arange(s[0]) * 2).astype('int64' if kind == 'i' else 'm8[D]'))
  def run():
    make(getattr(t_test, method), mean.da, dev.da)
  def post(r):
    if kind == 'none':
      r.check('accepted', r.raised is None)
      return
    num = (lambda x: x / np.timedelta64(1, 'D')) if kind == 'm' and not b.symbolic else (lambda x: x)
    gap = lambda k: num(c({UNIT: k + 1})) - num(c({UNIT: k}))
    uneven = b.any_range(b.pysize(UNIT) - 1, lambda k: ~b.eq(gap(k), gap(0)))
    if r.raised is None:
      r.holds('accepted', ~uneven)
    else:
      r.raises('refused', ValueError)
      r.holds('refused only if uneven', uneven)
  b.ensures('steps', run, post)


@contract('wiring', cases=[dict(method=m, baseline=x) for m in METHODS for x in (False, True)])
def _(b, method, baseline):
  """Every metric and variable gets its own results, computed as if it were alone; options reach the method, comparisons the comparison metrics."""
  b.dim(UNIT, lo=LOWEST[method], hi=6, labels=even)
  names = [('m', 'v'), ('m', 'w'), ('k', 'v')]
  mean = {q: b.array('mean' + ''.join(q), []) for q in names}
  dev = {q: b.array('dev' + ''.join(q), [UNIT]) for q in names}
  alpha = level(b)
  def tree(f):
    out = {}
    for m, v in names:
      out.setdefault(m, {})[v] = f((m, v))
    return out
  def run():
    cls = getattr(t_test, method)
    kw = dict(v_0=0.7) if method == 'LazarusHACEWC' else {}
    with Linearized(tree(lambda q: mean[q].da), tree(lambda q: dev[q].da)) as lin:
      if baseline:
        A, B = [aggregation.AggregationState({'SquaredError': {'v': dev['m', 'v'].da}}, {'SquaredError': {'v': dev['m', w].da}}) for w in 'vw']
        t = cls.for_baseline_comparison({'m': deterministic.MSE()}, A, B, experimental_unit_dim=UNIT, **kw)
      else:
        t = cls({'m': 1, 'k': 2}, 'state', UNIT, **kw)
    got = [t.point_estimates(), t.standard_error_estimates(), *t.confidence_intervals(alpha.val), t.p_values()]
    alone = {q: make(cls, mean[q].da, dev[q].da, **kw) for q in names}
    single = lambda t: [one(x) for x in (t.point_estimates(), t.standard_error_estimates(), *t.confidence_intervals(alpha.val), t.p_values())]
    return got, {q: single(t) for q, t in alone.items()}, lin.calls
  def post(r):
    got, alone, calls = r.value
    r.check('one linearisation', len(calls) == 1 and calls[0][2] == UNIT)
    if baseline:
      metrics, state, _ = calls[0]
      r.check('comparison metric', set(metrics) == {'m'} and not isinstance(metrics['m'], deterministic.MSE))
      r.check('both systems', len(state.sum_weighted_statistics) == 2)
    else:
      r.check('arguments', calls[0][0] == {'m': 1, 'k': 2} and calls[0][1] == 'state')
    for label, x in zip(('estimate', 'error', 'lower', 'upper', 'p'), range(5)):
      r.check(f'{label} structure', {m: list(vs) for m, vs in got[x].items()} == {'m': ['v', 'w'], 'k': ['v']})
      for q in names:
        r.array(f'{label} {q}', got[x][q[0]][q[1]], [], lambda i, x=x, q=q: b.read(alone[q][x], i), tol=TOL)
  b.ensures('wiring', run, post)


@contract('metric', cases=[dict(metric=m) for m in ('mse', 'rmse')])
def _(b, metric):
  """Together with the linearisation: the estimate is the metric of all units, its error the delta-method error."""
  b.dim(UNIT, lo=2, hi=6, labels=even)
  S = b.array('S', [UNIT], gen=lambda rng, s: rng.uniform(0.5, 2, s))
  W = b.array('W', [UNIT], gen=lambda rng, s: rng.uniform(0.5, 2, s))
  for h in (S, W):
    b.assume_all([UNIT], lambda i, h=h: h[i] > 0.0)
    b.lemma(f'sum {id(h) == id(S)}', [], lambda i, h=h: b.sum({}, [UNIT], lambda j: h[j]) > 0.0)
  def run():
    make = {'mse': deterministic.MSE, 'rmse': deterministic.RMSE}[metric]
    state = aggregation.AggregationState({'SquaredError': {'v': S.da}}, {'SquaredError': {'v': W.da}})
    t = t_test.IID({'m': make()}, state, UNIT)
    return one(t.point_estimates()), one(t.standard_error_estimates())
  def post(r):
    m, s = r.value
    tw, n = b.sum({}, [UNIT], lambda j: W[j]), b.size(UNIT)
    mean = b.sum({}, [UNIT], lambda j: S[j]) / tw
    r.array('estimate', m, [], lambda i: b.sqrt(mean) if metric == 'rmse' else mean, tol=(2e-4, 2e-4))
    def d(j):
      x = (S[j] - mean * W[j]) / (tw / n)
      return x / (2.0 * b.sqrt(mean)) if metric == 'rmse' else x
    r.array('error', s, [], lambda i: b.sqrt(b.sum({}, [UNIT], lambda j: d(j) * d(j)) / (n - 1.0) / n), tol=(2e-4, 2e-4))
  b.ensures('metric', run, post)
