"""Bootstrap resampling."""
import itertools
import types
import numpy as np
from vc import loops
from vc.contract import contract, SkipSample
from vc.patch import ModProxy
from weatherbenchX import aggregation
from weatherbenchX import xarray_tree
from weatherbenchX.metrics import base as mb
from weatherbenchX.metrics import deterministic
from weatherbenchX.statistical_inference import bootstrap
from weatherbenchX.statistical_inference import utils

TRUSTED = ['np.random.multinomial: rows of non-negative whole counts, each totalling the number of draws',
           'np.random.randint(n): whole numbers in [0, n); np.random.rand: reals in [0, 1)',
           'np.unique(return_inverse): equal labels and only those share a cluster number below the number of distinct labels',
           'arch.bootstrap.optimal_block_length: any number',
           'autodiff.per_unit_values_linearized_around_mean_statistics enters by its contract, which property C28 proves']
UNIT = 'init'
REP = 'bootstrap_replicate'
TOL = (1e-9, 1e-9)
VARS = ('v', 'w')


class Stat(mb.Statistic):

  def __init__(self, name):
    self._name = name

  @property
  def unique_name(self):
    return self._name

  def compute(self, predictions, targets):
    raise NotImplementedError()


class Made(mb.Metric):
  """A metric given by a function of its statistics."""

  def __init__(self, names, f):
    self.names, self.f = names, f

  @property
  def statistics(self):
    return {n: Stat('u' + n) for n in self.names}

  def values_from_mean_statistics(self, stats):
    return {v: self.f(*[stats[n][v] for n in self.names]) for v in stats[self.names[0]]}


class Crossed(Made):
  """One result from both variables: its variables are not those of the statistics."""

  def values_from_mean_statistics(self, stats):
    return {'both': self.f(stats['a']['v'], stats['a']['w']), 'sum': stats['a']['v'] + stats['a']['w']}


# name -> (metric, statistics by unique name, value from means)
METRICS = {
    'mse': (deterministic.MSE, ['SquaredError'], lambda b, m: m),
    'rmse': (deterministic.RMSE, ['SquaredError'], lambda b, m: b.sqrt(m)),
    'ratio': (lambda: Made('ab', lambda a, c: a / c), ['ua', 'ub'], lambda b, m, n: m / n),
    'linear': (lambda: Made('ab', lambda a, c: 2.0 * a - 3.0 * c), ['ua', 'ub'], lambda b, m, n: 2.0 * m - 3.0 * n),
}


class Randomness:
  """Stands for the random generator of the module under test; records how it is asked."""

  def __init__(self, **fns):
    self.fns = fns

  def __enter__(self):
    self.saved = bootstrap.np
    rand = ModProxy(np.random, self.fns)
    bootstrap.np = ModProxy(self.saved, {'random': rand})
    return self

  def __exit__(self, *a):
    bootstrap.np = self.saved


def positive(rng, shape):
  return rng.uniform(0.5, 2.0, shape)


def multinomial_rows(rng, shape):
  return rng.multinomial(shape[1], np.full(shape[1], 1 / shape[1]), size=shape[0])


def state(b, names, dims, wdims, nan=False):
  """Handles S[k][var], W[k][var] and the aggregated state made of them."""
  S = [{v: b.array(f'S{k}{v}', dims, nan=nan, gen=positive) for v in VARS} for k in range(len(names))]
  W = [{v: b.array(f'W{k}{v}', wdims, gen=positive) for v in VARS} for k in range(len(names))]
  for h in S:
    for v in VARS:
      b.assume_all(dims, lambda i, x=h[v]: b.isnan(x[i]) | (x[i] > 0.0))
  for h in W:
    for v in VARS:
      b.assume_all(wdims, lambda i, x=h[v]: x[i] > 0.0)
  def build():
    return aggregation.AggregationState({u: {v: S[k][v].da for v in VARS} for k, u in enumerate(names)},
                                        {u: {v: W[k][v].da for v in VARS} for k, u in enumerate(names)})
  return S, W, build


def pick(h, j, dims):
  return h[{k: x for k, x in j.items() if k in dims}]


def resampled(b, S, W, v, i, times, dims, wdims):
  """Means of each statistic over the units, unit j counted times(i, j) times."""
  out = []
  for s, w in zip(S, W):
    num = b.sum(i, [UNIT], lambda j: pick(s[v], j, dims) * times(j))
    den = b.sum(i, [UNIT], lambda j: pick(w[v], j, wdims) * times(j))
    out.append(num / den)
  return out


def plain(b, S, W, v, i, dims, wdims):
  return [b.sum(i, [UNIT], lambda j: pick(s[v], j, dims)) / b.sum(i, [UNIT], lambda j: pick(w[v], j, wdims)) for s, w in zip(S, W)]


def near(b, r, x, y):
  return b.eq(x, y) if r.symbolic else np.bool_(abs(x - y) <= 1e-9 * max(1.0, abs(y)))


class Linearized:
  """Stands for the linearisation: given values and per-unit changes."""

  def __init__(self, values, changes):
    self.values, self.changes = values, changes

  def __enter__(self):
    self.saved = bootstrap.autodiff
    bootstrap.autodiff = types.SimpleNamespace(per_unit_values_linearized_around_mean_statistics=lambda *a: (self.values, self.changes))
    return self

  def __exit__(self, *a):
    bootstrap.autodiff = self.saved


class Indices:
  """Stands for the index generator of the stationary bootstrap."""

  def __init__(self, indices):
    self.indices, self.calls = indices, []

  def __enter__(self):
    self.saved = bootstrap.stationary_bootstrap_indices
    def stub(n_data, mean_block_length, n_replicates, dtype=np.int64):
      self.calls.append((n_data, mean_block_length, n_replicates))
      return self.indices(mean_block_length) if callable(self.indices) else self.indices
    bootstrap.stationary_bootstrap_indices = stub
    return self

  def __exit__(self, *a):
    bootstrap.stationary_bootstrap_indices = self.saved


class Draws:
  """The random choices of a method, and what a replicate sums."""

  def __init__(self, b, method):
    self.b, self.method = b, method
    b.dim(REP, hi=3, labels=False)
    whole = lambda h, dims, n: b.assume_all(dims, lambda i: (h[i] >= 0.0) & (h[i] < n))
    if method == 'iid':
      self.counts = b.array('counts', [REP, UNIT], kind='i', gen=multinomial_rows, coords=False)
      b.assume_all([REP, UNIT], lambda i: self.counts[i] >= 0.0)
    elif method == 'cluster':
      b.dim('cluster', hi=3, labels=False)
      self.counts = b.array('counts', [REP, 'cluster'], kind='i', gen=multinomial_rows, coords=False)
      b.assume_all([REP, 'cluster'], lambda i: self.counts[i] >= 0.0)
      self.cid = b.array('cid', [UNIT], kind='i', gen=self.cluster_ids, coords=False)
      whole(self.cid, [UNIT], b.size('cluster'))
      self.date = b.coord('date', UNIT, kind='i', gen=lambda rng, s: np.sort(rng.choice(50, b.sizes['cluster'], replace=False))[self.cid.values])
    else:
      self.draws = b.array('draws', [UNIT, REP], kind='i', gen=lambda rng, s: rng.integers(0, s[0], s), coords=False)
      whole(self.draws, [UNIT, REP], b.size(UNIT))
    self.asked, self.labelled = [], []

  def cluster_ids(self, rng, s):
    k = self.b.sizes['cluster']
    if k > s[0]:
      raise SkipSample()
    return rng.permutation(np.concatenate([np.arange(k), rng.integers(0, k, s[0] - k)]))

  def multinomial(self, n, pvals, size=None):
    self.asked.append((n, pvals, size))
    return self.counts.da.transpose(REP, ...).values

  def unique(self, x, return_inverse=False):
    self.labelled.append(x)
    if not self.b.symbolic:
      return np.unique(x, return_inverse=return_inverse)
    assert return_inverse
    return self.b.xr.DataArray(self.counts.da.isel({REP: 0}).values, dims=['cluster']).values, self.cid.da.values

  def build(self, metrics, build_state, value=None, change=None, **kw):
    b = self.b
    del self.asked[:], self.labelled[:]
    st = build_state()
    if self.method == 'stationary':
      indices = Indices(self.draws.da.transpose(UNIT, REP).values)
      with indices, Linearized(value, change):
        x = bootstrap.StationaryBootstrap(metrics, st, UNIT, b.pysize(REP), **{'mean_block_length': 2.0, **kw})
      self.asked += indices.calls
      return x
    saved = bootstrap.np
    with Randomness(multinomial=self.multinomial):
      if self.method == 'cluster':
        bootstrap.np.unique = self.unique
        return bootstrap.ClusterBootstrap(metrics, st, 'date', b.pysize(REP), **kw)
      return bootstrap.IIDBootstrap(metrics, st, UNIT, b.pysize(REP), **kw)

  def total(self, i, f):
    """Sum of f over the units that replicate i draws, as often as it draws them."""
    b = self.b
    rep = {REP: i[REP]}
    rest = {k: v for k, v in i.items() if k != REP}
    if self.method == 'iid':
      return b.sum(i, [UNIT], lambda j: f({**rest, UNIT: j[UNIT]}) * self.counts[{**rep, UNIT: j[UNIT]}])
    if self.method == 'cluster':
      return b.sum(i, [UNIT], lambda j: f({**rest, UNIT: j[UNIT]}) * self.counts[{**rep, 'cluster': b.at(self.cid[{UNIT: j[UNIT]}])}])
    return b.sum(i, [UNIT], lambda j: f({**rest, UNIT: b.at(self.draws[{**rep, UNIT: j[UNIT]}])}))

  def any_drawn(self, i, f):
    b = self.b
    rep = {REP: i[REP]}
    if self.method == 'iid':
      return b.any(i, [UNIT], lambda j: f({UNIT: j[UNIT]}) & (self.counts[{**rep, UNIT: j[UNIT]}] > 0.0))
    if self.method == 'cluster':
      return b.any(i, [UNIT], lambda j: f({UNIT: j[UNIT]}) & (self.counts[{**rep, 'cluster': b.at(self.cid[{UNIT: j[UNIT]}])}] > 0.0))
    return b.any(i, [UNIT], lambda j: f({UNIT: b.at(self.draws[{**rep, UNIT: j[UNIT]}])}))


def units(b, lo=1, hi=4):
  b.dim(UNIT, lo=lo, hi=hi)
  b.coord(UNIT, UNIT, gen=lambda rng, s: np.arange(s[0]) * 1.0)


def le(b, r, x, y):
  return x <= y if r.symbolic else np.bool_(x <= y + 1e-9 * max(1.0, abs(y)))


RESAMPLE = [dict(method=d, metric=m, weights=w, order=o) for d in ('iid', 'cluster', 'stationary') for m in METRICS for w in ('own', 'units') for o in ('first', 'last')
            if o == 'first' or w == 'own' and m in ('mse', 'ratio')]


@contract('resample', cases=RESAMPLE)
def _(b, method, metric, weights, order):
  """Every replicate is the metric of all statistics and variables summed over one and the same draw of whole units; the draw is as long as there are units."""
  make, names, value = METRICS[metric]
  units(b)
  if method == 'stationary':
    extra = []
  else:
    b.dim('lead', hi=2)
    extra = ['lead']
  dims = [UNIT] + extra if order == 'first' else extra + [UNIT]
  wdims = dims if weights == 'own' else [UNIT]
  d = Draws(b, method)
  S, W, build = state(b, names, dims, wdims)
  points = {v: b.array(f'point{v}', extra) for v in VARS}
  def run():
    given = {'m': {v: points[v].da for v in VARS}}, {'m': {v: S[0][v].da for v in VARS}}
    x = d.build({'m': make()}, build, *given)
    labels = [b.xr.DataArray(y, dims=[UNIT]) for y in d.labelled]
    asked = list(d.asked) if method == 'stationary' else [(n, b.xr.DataArray(p, dims=['u']), size) for n, p, size in d.asked]
    return x.point_estimates()['m'], x.resampled_values['m'], asked, labels
  def post(r):
    point, res, asked, labels = r.value
    r.check('variables', set(point) == set(VARS) and set(res) == set(VARS))
    r.check('drawn once', len(asked) == 1)
    n, second, size = asked[0]
    drawn = 'cluster' if method == 'cluster' else UNIT
    r.holds('draws as many as units', b.eq(b.num(n), b.size(drawn)))
    r.holds('replicates', b.eq(b.num(size), b.size(REP)))
    if method == 'stationary':
      r.check('block length', second == 2.0)
    else:
      r.forall('equal chances', [drawn], lambda i: near(b, r, b.read(second, {'u': i[drawn]}) * b.size(drawn), 1.0))
    if method == 'cluster':
      r.check('clusters of the coordinate', len(labels) == 1)
      r.forall('cluster labels', [UNIT], lambda i: b.eq(b.read(labels[0], i), d.date[i]))
    for v in VARS:
      if method == 'stationary':
        r.array(f'point estimate {v}', point[v], extra, lambda i, v=v: points[v][i])
      else:
        r.array(f'point estimate {v}', point[v], extra, lambda i, v=v: value(b, *plain(b, S, W, v, i, dims, wdims)), tol=TOL)
      def want(i, v=v):
        return value(b, *[d.total(i, lambda j: pick(s[v], j, dims)) / d.total(i, lambda j: pick(w[v], j, wdims)) for s, w in zip(S, W)])
      r.array(f'replicates {v}', res[v], [REP] + extra, want, tol=TOL)
  b.ensures('resample', run, post)


@contract('size', cases=[dict(method=m) for m in ('iid', 'stationary')])
def _(b, method):
  """With equal weights every replicate averages over exactly as many draws as there are units."""
  units(b)
  d = Draws(b, method)
  S = b.array('S', [UNIT], gen=positive)
  if method == 'iid':
    b.assume_all([REP], lambda i: b.eq(b.sum(i, [UNIT], lambda j: d.counts[j]), b.size(UNIT)))
  def run():
    st = lambda: aggregation.AggregationState({'SquaredError': {'v': S.da}}, {'SquaredError': {'v': b.xr.ones_like(S.da)}})
    return d.build({'m': deterministic.MSE()}, st, {'m': {'v': S.da.sum(UNIT)}}, {'m': {'v': S.da}}).resampled_values['m']['v']
  def post(r):
    r.array('mean of the draws', r.value, [REP], lambda i: d.total(i, lambda j: S[j]) / b.size(UNIT), tol=TOL)
  b.ensures('size', run, post)


@contract('missing', cases=[dict(method=m) for m in ('iid', 'cluster', 'stationary')])
def _(b, method):
  """A replicate that draws a unit with a missing statistic is missing: its weight is never counted without its value."""
  units(b)
  d = Draws(b, method)
  S = b.array('S', [UNIT], nan=True, gen=positive)
  W = b.array('W', [UNIT], gen=positive)
  b.assume_all([UNIT], lambda i: W[i] > 0.0)
  def run():
    st = lambda: aggregation.AggregationState({'SquaredError': {'v': S.da}}, {'SquaredError': {'v': W.da}})
    return d.build({'m': deterministic.MSE()}, st, {'m': {'v': S.da.sum(UNIT, skipna=False)}}, {'m': {'v': S.da}}).resampled_values['m']['v']
  def post(r):
    r.forall('missing', [REP], lambda i: ~d.any_drawn(i, lambda j: b.isnan(S[j])) | b.isnan(b.read(r.value, i)))
  b.ensures('missing', run, post)


class Given(bootstrap.Bootstrap):
  """Any bootstrap: given replicates."""

  def __init__(self, values):
    self._resampled_values = values
    self._point_estimates = None


def replicates(b, nan, extra=True):
  b.dim(REP, lo=2, hi=5, labels=False); b.dim('lead', hi=2)
  return b.array('x', [REP, 'lead'], nan=nan, gen=lambda rng, s: np.round(rng.normal(size=s), 1))


@contract('interval', cases=[dict(nan=n, alpha=a) for n in (False, True) for a in ('any', 0.05)])
def _(b, nan, alpha):
  """Limits are the quantiles of the present replicates at half the level from either end; the interval is ordered, nested in the level and within the replicates."""
  x = replicates(b, nan)
  if alpha == 'any':
    a = b.scalar('alpha', gen=lambda rng: float(rng.uniform(0.01, 0.99)))
    c = b.scalar('wider', gen=lambda rng: float(rng.uniform(0.001, 0.01)))
    b.assume((a.s > 0.0) & (a.s < 1.0) & (c.s > 0.0) & (c.s <= a.s))
    args, wide, level = (a.val,), (c.val,), a.s
  else:
    args, wide, level = (), (0.01,), 0.05
  def run():
    g = Given({'m': {'v': x.da}})
    lo, hi = g.confidence_intervals(*args)
    lo2, hi2 = g.confidence_intervals(*wide)
    return [t['m']['v'] for t in (lo, hi, lo2, hi2, g.standard_error_estimates())] + [g.resampled_values['m']['v']]
  def post(r):
    lo, hi, lo2, hi2, s, res = r.value
    L, H = (lambda i: b.read(lo, i)), (lambda i: b.read(hi, i))
    absent = lambda i: ~b.any(i, [REP], lambda j: ~b.isnan(x[j]))
    r.array('replicates', res, [REP, 'lead'], lambda i: x[i])
    r.array('lower', lo, ['lead'], lambda i: b.quantile(i, [REP], level / 2, lambda j: x[j]), tol=TOL)
    r.array('upper', hi, ['lead'], lambda i: b.quantile(i, [REP], 1.0 - level / 2, lambda j: x[j]), tol=TOL)
    r.forall('ordered', ['lead'], lambda i: absent(i) | le(b, r, L(i), H(i)))
    r.forall('wider', ['lead'], lambda i: absent(i) | (le(b, r, b.read(lo2, i), L(i)) & le(b, r, H(i), b.read(hi2, i))))
    r.forall('missing', ['lead'], lambda i: b.same(absent(i), b.isnan(L(i))) & b.same(absent(i), b.isnan(H(i))))
    r.forall('within the replicates', ['lead'], lambda i: absent(i) | b.any(i, [REP], lambda j: le(b, r, x[j], L(i))) & b.any(i, [REP], lambda j: le(b, r, H(i), x[j])))
    count = lambda i: b.sum(i, [REP], lambda j: b.where(b.isnan(x[j]), 0.0, 1.0))
    def deviation(i):
      n = count(i)
      m = b.sum(i, [REP], lambda j: b.where(b.isnan(x[j]), 0.0, x[j])) / n
      return b.sqrt(b.sum(i, [REP], lambda j: b.where(b.isnan(x[j]), 0.0, (x[j] - m) * (x[j] - m))) / (n - 1.0))
    r.array('standard error', s, ['lead'], deviation, tol=TOL, given=lambda i: count(i) > 1.0)
  b.ensures('interval', run, post)


def restored(f):
  """Runs with the legacy random state put back."""
  state = np.random.get_state()
  try:
    return f()
  finally:
    np.random.set_state(state)


@contract('blocks', cases=[dict(n=n, length=l) for n in (1, 2, 3, 5) for l in (1.0, 2.5, 40.0)])
def _(b, n, length):
  """Stationary bootstrap: every index is a unit; each is the cyclic successor of the one before, or where the block ends, a fresh draw."""
  b.dim(REP, hi=3, labels=False)
  fresh = [b.array(f'fresh{k}', [REP], kind='i', gen=lambda rng, s: rng.integers(0, n, s)) for k in range(n)]
  chance = [b.array(f'chance{k}', [REP], gen=lambda rng, s: rng.uniform(0, 1, s)) for k in range(n)]
  for h in fresh:
    b.assume_all([REP], lambda i, h=h: (h[i] >= 0.0) & (h[i] <= n - 1.0) & b.eq(b.mod(h[i], 1.0), 0.0))   # whole numbers below n
  for h in chance:
    b.assume_all([REP], lambda i, h=h: (h[i] >= 0.0) & (h[i] < 1.0))
  used = {'i': 0, 'u': 0, 'shape': True}
  def randint(low, high=None, size=None, dtype=int):
    k = used['i']
    used['i'] += 1
    if high is not None or not isinstance(low, int) or low != n or not isinstance(size, tuple) or len(size) != 1 or k >= n:
      used['shape'] = False
      raise Unusual()
    return fresh[k].da.values
  def rand(*shape):
    k = used['u']
    used['u'] += 1
    if len(shape) != 1 or k >= n:
      raise Unusual()
    return chance[k].da.values
  def run():
    used.update(i=0, u=0)
    with Randomness(randint=randint, rand=rand):
      try:
        x = bootstrap.stationary_bootstrap_indices(n, length, b.pysize(REP))
      except Unusual:
        raise SkipSample() if not b.symbolic else NotImplementedError()
    return b.xr.DataArray(x, dims=['k', REP]), x.shape[0]
  def post(r):
    x, k = r.value
    r.check('as long as the data', int(k) == n)
    for m in range(n):
      at = lambda i, m: b.read(x, {'k': m, REP: i[REP]})
      r.forall(f'a unit {m}', [REP], lambda i, m=m: (at(i, m) >= 0.0) & (at(i, m) < float(n)))
      def follows(i, m=m):
        drawn = b.eq(at(i, m), fresh[m][i])
        if m == 0:
          return drawn
        ends = chance[m - 1][i] < 1.0 / length
        last = at(i, m - 1)
        return b.where(ends, drawn, b.eq(at(i, m), b.where(b.eq(last, n - 1.0), 0.0, last + 1.0)))
      r.forall(f'follows {m}', [REP], follows)
  b.ensures('blocks', run, post)


class Unusual(Exception):
  pass


@contract('blocks, any number of units')
def _(b):
  """Stationary bootstrap, by the invariant of its loop: the list ends with the current row; the first row is drawn, each iteration appends
  one row of units that are cyclic successors of the row before, or fresh draws where the block ends; there are as many rows as units."""
  UNITS = 'unit number'
  b.dim(UNITS, lo=1, hi=150, labels=False)
  b.dim(REP, hi=3, labels=False)
  n, reps = b.pysize(UNITS), b.pysize(REP)
  size = b.size(UNITS)
  units = lambda rng, s: np.where(rng.random(s) < 0.3, b.sizes[UNITS] - 1, rng.integers(0, b.sizes[UNITS], s))
  first, row, fresh = [b.array(k, [REP], kind='i', gen=units) for k in ('first', 'row', 'fresh')]
  chance = b.array('chance', [REP], gen=lambda rng, s: rng.uniform(0, 1, s))
  rows = b.array('rows', [UNITS, REP], kind='i', gen=units)
  length = b.scalar('length', gen=lambda rng: float(rng.choice([1.0, 1.5, 2.0, 7.3, 100.0])))
  b.assume(length.s >= 1.0)
  for h in (first, row, fresh):
    b.assume_all([REP], lambda i, h=h: (h[i] >= 0.0) & (h[i] <= size - 1.0) & b.eq(b.mod(h[i], 1.0), 0.0))   # whole numbers below n
  b.assume_all([REP], lambda i: (chance[i] >= 0.0) & (chance[i] < 1.0))
  draws, asked = [], []
  def randint(low, high=None, size=None, dtype=int):
    asked.append(high is None and loops.identical(low, n) and isinstance(size, tuple) and len(size) == 1 and loops.identical(size[0], reps))
    return draws[0].pop(0).da.values if draws[0] else loops.unsupported('another draw')
  def rand(*shape):
    asked.append(len(shape) == 1 and loops.identical(shape[0], reps))
    return draws[1].pop(0).da.values if draws[1] else loops.unsupported('another draw')
  def run():
    cut = loops.Cut(bootstrap.stationary_bootstrap_indices)
    asked.clear()
    with Randomness(randint=randint, rand=rand):
      draws[:] = [[first], []]
      iterations, start = cut.entry(n, length.val, reps)
      rests = [[len(draws[0]), len(draws[1])]]
      drawn = start_state(start)
      count = loops.len_(loops.of(iterations))
      draws[:] = [[fresh], [chance]]
      seq = loops.of(iterations)
      out = None
      if isinstance(seq, loops.Seq) or len(seq):
        grown = loops.Grown(row.da.values)
        element = seq.at(loops.num(loops.z3.Int('iteration'))) if isinstance(seq, loops.Seq) else seq[int(b.rng.integers(0, len(seq)))]
        state = {k: grown if k == drawn[0] else row.da.values if k == drawn[1] else v for k, v in start.items()}
        out = cut.step(state, element)
        rests.append([len(draws[0]), len(draws[1])])
        changed = {k for k in cut.written & set(start)} - {drawn[0], drawn[1]}
        if changed:
          loops.unsupported(f'further loop state {changed}')
        out = grown.added, out[drawn[0]] is grown, out[drawn[1]]
      draws[:] = [[], []]
      state = {k: loops.Whole(n, rows.da.transpose(UNITS, REP).values) if k == drawn[0] else row.da.values if k == drawn[1] else v for k, v in start.items()}
      last = cut.finish(state)
    wrap = lambda a, dims: b.xr.DataArray(a, dims=dims)
    return {'asked': list(asked), 'first': wrap(start[drawn[0]][0], [REP]), 'count': count,
            'step': out and (len(out[0]), out[1], [wrap(x, [REP]) for x in out[0]], wrap(out[2], [REP])),
            'result': wrap(last, [UNITS, REP]), 'rests': rests}
  def start_state(start):
    """(the list, the current row): told by their values on entry."""
    lists = [k for k, v in start.items() if isinstance(v, list)]
    if len(lists) != 1 or len(start[lists[0]]) != 1:
      loops.unsupported('no list of one row before the loop')
    rows = [k for k, v in start.items() if v is start[lists[0]][0]]
    if len(rows) != 1:
      loops.unsupported('no current row before the loop')
    return lists[0], rows[0]
  def post(r):
    v = r.value
    r.check('as asked', all(v['asked']))
    r.array('first row', v['first'], [REP], lambda i: first[i])
    if b.symbolic:
      r.holds('one iteration per further unit', b.eq(loops.real(v['count']), size - 1.0))
    else:
      r.holds('one iteration per further unit', v['count'] == b.sizes[UNITS] - 1)
    r.array('result', v['result'], [UNITS, REP], lambda i: rows[i])
    if v['step'] is None:
      return
    added, kept, new, current = v['step']
    r.check('one row each', added == 1 and kept)
    e = lambda i: b.read(new[0], i)
    r.array('current row', current, [REP], e)
    r.forall('units', [REP], lambda i: (e(i) >= 0.0) & (e(i) < size))
    successor = lambda i: b.where(b.eq(row[i], size - 1.0), 0.0, row[i] + 1.0)
    r.forall('follows', [REP], lambda i: b.where(chance[i] < 1.0 / length.s, b.eq(e(i), fresh[i]), b.eq(e(i), successor(i))))
  b.ensures('blocks', run, post)


@contract('block statistics', cases=[dict(n=n, length=l) for n in (7, 30) for l in (1.0, 2.0, 8.0, 1e9)], mode='bounded', samples=1, sample_timeout=60)
def _(b, n, length):
  """Over many draws, blocks end as often as the mean block length says, and all units are drawn equally often."""
  def run():
    def go():
      np.random.seed(20)
      return bootstrap.stationary_bootstrap_indices(n, length, 4000)
    return restored(go)
  def post(r):
    x = r.value
    r.check('shape', x.shape == (n, 4000))
    r.check('units', bool(((x >= 0) & (x < n)).all()))
    steps = (n - 1) * 4000
    breaks = ((x[1:] - x[:-1]) % n != 1).sum()
    p = (1 - 1 / n) / length
    r.check('block ends', bool(abs(breaks - steps * p) <= 6 * np.sqrt(steps * p * (1 - p)) + 1e-3), f'{breaks} of {steps}, expected {steps * p}')
    share = np.bincount(x[-1], minlength=n)
    r.check('equally often', bool((abs(share - 4000 / n) <= 6 * np.sqrt(4000 / n)).all()), str(share))
  b.ensures('block statistics', run, post)


@contract('seed', cases=[dict(method=m) for m in ('iid', 'cluster', 'stationary')], mode='bounded', samples=6)
def _(b, method):
  """The same seed gives the same replicates; every replicate is a resample of whole units, the same one for both statistics."""
  n = int(b.rng.integers(2, 9))
  reps = int(b.rng.integers(1, 6))
  seed = int(b.rng.integers(0, 1000))
  dates = np.sort(b.rng.integers(0, 4, n))
  b.sampler.record[('args', '')] = f'n={n} reps={reps} seed={seed} dates={dates}'
  powers = np.array([16.0 ** k for k in range(n)])
  def run():
    import xarray as xr
    mk = lambda x: {'v': xr.DataArray(x, dims=[UNIT], coords={UNIT: np.arange(n), 'date': (UNIT, dates)})}
    # the first statistic and weights of 16^k identify how often unit k is drawn
    st = aggregation.AggregationState({'ua': mk(powers), 'ub': mk(powers * 3)}, {'ua': mk(np.ones(n)), 'ub': mk(np.ones(n))})
    ms = {'m': Made('ab', lambda a, c: a + 0 * c), 'k': Made('ab', lambda a, c: c + 0 * a), 'size': Counting()}
    def go():
      out = []
      for _ in range(2):
        np.random.seed(seed)
        if method == 'iid':
          x = bootstrap.IIDBootstrap(ms, st, UNIT, reps)
        elif method == 'cluster':
          x = bootstrap.ClusterBootstrap(ms, st, 'date', reps)
        else:
          x = bootstrap.StationaryBootstrap(ms, st, UNIT, reps, mean_block_length=2.0)
        out.append({k: x.resampled_values[k]['v'].values for k in ms})
      return out
    return restored(go)
  def post(r):
    x, y = r.value
    r.check('reproducible', all(np.array_equal(x[k], y[k]) for k in x))
    r.check('replicates', all(x[k].shape == (reps,) for k in x))
    if method == 'stationary':
      r.check('same draw', bool(np.allclose(x['k'], 3 * x['m'], rtol=1e-9)))
      totals = np.full(reps, float(n))
    else:
      r.check('same draw', bool(np.allclose(x['k'], 3 * x['m'], rtol=1e-9)))
      if method == 'cluster':
        return
      totals = np.full(reps, float(n))
    for value, total in zip(x['m'], totals):
      rest, counts = round(value * total), []
      for _ in range(n):
        counts.append(rest % 16)
        rest //= 16
      r.check('whole units', sum(counts) == total and rest == 0, f'{value} {counts}')
  b.ensures('seed', run, post)


class Counting(Made):

  def __init__(self):
    super().__init__('ab', lambda a, c: a)


@contract('p-value', cases=[dict(size=k, kind=t) for k in (2, 3, 4, 7) for t in ('ties', 'missing', 'plain')], mode='bounded', samples=60)
def _(b, size, kind):
  """The p-value lies in [0, 1], is missing only without replicates, and is below a level exactly when the interval at that level excludes the null value."""
  rng = b.rng
  if kind == 'plain':
    x = np.round(rng.normal(size=size), 2)
  else:
    x = rng.integers(-2, 3, size).astype(float)
  if kind == 'missing':
    x[rng.random(size) < 0.35] = np.nan
  present = x[~np.isnan(x)]
  null = float(rng.choice([0.0, 0.5, -1.0, 2.0, 3.0, -2.5, x[0] if not np.isnan(x[0]) else 0.0]))
  b.sampler.record[('args', '')] = f'{x.tolist()} null={null}'
  if len(present) == 1:
    raise SkipSample()   # a single replicate has no spread: the interval is a point and the p-value 0 or 2 * P(tie)
  alphas = [0.001, 0.01, 0.05, 0.1, 0.2, 0.35, 0.5, 0.7, 0.9, 0.99]
  def run():
    import xarray as xr
    g = Given({'m': {'v': xr.DataArray(np.stack([x, x + 1]), dims=['lead', REP])}})
    p = g.p_values(null)['m']['v']
    return p, [g.confidence_intervals(a) for a in alphas], [g.significance_tests(null, a)['m']['v'] for a in alphas]
  def post(r):
    p, cis, tests = r.value
    r.check('dims', p.dims == ('lead',))
    for lead in range(2):
      v = float(p[lead])
      r.check('missing', np.isnan(v) == (len(present) == 0), f'{v}')
      if np.isnan(v):
        continue
      r.check('unit interval', 0.0 <= v <= 1.0, f'{v}')
      for a, (lo, hi), t in zip(alphas, cis, tests):
        lo, hi = float(lo['m']['v'][lead]), float(hi['m']['v'][lead])
        r.check('test', bool(t[lead]) == (v <= a), f'{v} {a}')
        rounded = 0 < abs(null - lo) <= 1e-9 or 0 < abs(null - hi) <= 1e-9 or abs(v - a) <= 1e-9
        if not rounded:
          r.check('agrees with the interval', (v < a) == (null < lo or null > hi), f'p={v} alpha={a} interval=[{lo}, {hi}]')
  b.ensures('p-value', run, post)


@contract('p-value exhaustive', cases=[dict(size=k) for k in (2, 3, 4)], mode='bounded', samples=1, sample_timeout=100)
def _(b, size):
  """As above, for all arrangements of up to four replicates over five values."""
  import xarray as xr
  grid = np.array(list(itertools.product([-1.0, 0.0, 1.0, 1.5, 3.0], repeat=size)))
  def run():
    g = Given({'m': {'v': xr.DataArray(grid, dims=['lead', REP])}})
    return [(null, g.p_values(null)['m']['v'].values, {a: [z['m']['v'].values for z in g.confidence_intervals(a)] for a in (0.02, 0.3, 0.62, 0.9)}) for null in (0.0, 0.25, 1.0, -1.5)]
  def post(r):
    for null, p, cis in r.value:
      r.check('unit interval', bool(((p >= 0) & (p <= 1)).all()))
      for a, (lo, hi) in cis.items():
        clear = ((abs(null - lo) > 1e-9) | (null == lo)) & ((abs(null - hi) > 1e-9) | (null == hi)) & (abs(p - a) > 1e-9)
        out = (null < lo) | (null > hi)
        bad = clear & (out != (p < a))
        r.check('agrees with the interval', not bad.any(), f'{grid[bad][:1]} null={null} alpha={a}')
  b.ensures('p-value exhaustive', run, post)


@contract('block length', mode='bounded', samples=60)
def _(b):
  """The automatic block length is at least one, that of the given series up to rounding; a given one is used as it is; short series are refused."""
  import xarray as xr
  rng = b.rng
  n = int(rng.integers(5, 40))
  x = np.cumsum(rng.normal(size=n)) if rng.random() < 0.5 else rng.normal(size=n)
  given = float(rng.uniform(1, 9)) if rng.random() < 0.3 else None
  resolution = [None, 30.0, 5.0][int(rng.integers(3))]
  b.sampler.record[('args', '')] = f'{x.tolist()} given={given} resolution={resolution}'
  def run():
    series = xr.DataArray(x, dims=[UNIT], coords={UNIT: np.arange(n)})
    st = aggregation.AggregationState({'SquaredError': {'v': series}}, {'SquaredError': {'v': xr.ones_like(series)}})
    with Indices(np.zeros((n, 2), int)) as indices, Linearized({'m': {'v': series.mean()}}, {'m': {'v': series}}):
      bootstrap.StationaryBootstrap({'m': deterministic.MSE()}, st, UNIT, 2, mean_block_length=given, block_length_rounding_resolution=resolution)
    (length, *more) = [c[1] for c in indices.calls]
    assert not more
    return length
  def post(r):
    if given is None and n < 8:
      r.raises('too short', ValueError)
      return
    if given is not None:
      r.check('given', r.value == given)
      return
    import arch.bootstrap
    want = max(1.0, arch.bootstrap.optimal_block_length(x).stationary.item())
    r.check('at least one', r.value >= 1.0 - 1e-12)
    step = 1.0 if resolution is None else 10 ** (0.5 / resolution)
    r.check('rounded', want / step - 1e-9 <= r.value <= want * step + 1e-9, f'{r.value} {want}')
  b.ensures('block length', run, post)


@contract('slices', cases=[dict(leads=l, labels=t, same=s) for l in (1, 2, 3) for t in ('labels', 'none') for s in (True, False)])
def _(b, leads, labels, same):
  """Stationary bootstrap with further dimensions: each slice and variable is the metric of that slice's statistics over its own draw, drawn for its own block length."""
  units(b, *(() if same else (8, 12)))
  names = [10, 20, 30][:leads]
  b.dim('lead', size=leads, labels=names if labels == 'labels' else False)
  b.dim(REP, hi=3, labels=False)
  kinds = [0] * leads if same else [0, 1, 0][:leads]
  draws = [b.array(f'draws{k}', [UNIT, REP], kind='i', gen=lambda rng, s: rng.integers(0, s[0], s), coords=False) for k in range(2)]
  for h in draws:
    b.assume_all([UNIT, REP], lambda i, h=h: (h[i] >= 0.0) & (h[i] < b.size(UNIT)))
  names = ['ua', 'ub']
  S, W, build = state(b, names, [UNIT, 'lead'], [UNIT])
  point = {v: b.array(f'point{v}', ['lead']) for v in VARS}
  def run():
    def length(series):
      """A block length for each slice of the given changes."""
      for k in range(leads):
        for v in VARS:
          if b.symbolic:
            if series.da._fn({series.da._dims[0]: 0}).v.eq(S[0][v][{UNIT: 0, 'lead': k}].v):
              return 2.0 + kinds[k]
          elif np.array_equal(series, [S[0][v][{UNIT: u, 'lead': k}] for u in range(len(series))]):
            return 2.0 + kinds[k]
      raise AssertionError('not a slice of the changes')
    indices = Indices(lambda length: draws[int(length) - 2].da.transpose(UNIT, REP).values)
    with indices, Linearized({'m': {v: point[v].da for v in VARS}}, {'m': {v: S[0][v].da for v in VARS}}):
      if same:
        x = bootstrap.StationaryBootstrap({'m': METRICS['ratio'][0]()}, build(), UNIT, b.pysize(REP), mean_block_length=2.0)
      else:
        with Automatic(length, b):
          x = bootstrap.StationaryBootstrap({'m': METRICS['ratio'][0]()}, build(), UNIT, b.pysize(REP), block_length_rounding_resolution=None)
    return x.resampled_values['m'], [c[1] for c in indices.calls]
  def post(r):
    res, lengths = r.value
    r.check('variables', set(res) == set(VARS))
    r.check('drawn once per block length', sorted(lengths) == [2.0 + k for k in sorted(set(kinds))])
    for v in VARS:
      def want(i, v=v):
        def mean(s, w):
          def total(f, k):
            return b.sum({REP: i[REP]}, [UNIT], lambda j: f(b.at(draws[k][{UNIT: j[UNIT], REP: i[REP]}])))
          ks = [kinds[n] for n in range(leads)]
          def per(k):
            return total(lambda u: s[{UNIT: u, 'lead': i['lead']}], k) / total(lambda u: w[{UNIT: u}], k)
          out = per(ks[0])
          for n in range(1, leads):
            out = b.where(b.eq(b.index(i, 'lead'), float(n)), per(ks[n]), out)
          return out
        return mean(S[0][v], W[0][v]) / mean(S[1][v], W[1][v])
      r.array(f'replicates {v}', res[v], [REP, 'lead'], want, tol=TOL, coords=labels == 'labels')
  b.ensures('slices', run, post)


class Automatic:
  """Stands for the selection of the block length."""

  def __init__(self, choose, b):
    self.choose, self.b = choose, b

  def __enter__(self):
    import arch.bootstrap
    self.saved = arch.bootstrap.optimal_block_length
    arch.bootstrap.optimal_block_length = lambda x: types.SimpleNamespace(stationary=types.SimpleNamespace(item=lambda: self.choose(x)))
    return self

  def __exit__(self, *a):
    import arch.bootstrap
    arch.bootstrap.optimal_block_length = self.saved


@contract('crossed')
def _(b):
  """A metric whose variables are not those of its statistics is computed from all of them."""
  units(b)
  d = Draws(b, 'stationary')
  S, W, build = state(b, ['ua'], [UNIT], [UNIT])
  point = b.array('point', [])
  def run():
    given = {'m': {k: point.da for k in ('both', 'sum')}}, {'m': {k: S[0]['v'].da for k in ('both', 'sum')}}
    return d.build({'m': Crossed('a', lambda p, q: p * q)}, build, *given).resampled_values['m']
  def post(r):
    r.check('variables', set(r.value) == {'both', 'sum'})
    m = lambda v, i: d.total(i, lambda j: S[0][v][j]) / d.total(i, lambda j: W[0][v][j])
    r.array('both', r.value['both'], [REP], lambda i: m('v', i) * m('w', i), tol=TOL)
    r.array('sum', r.value['sum'], [REP], lambda i: m('v', i) + m('w', i), tol=TOL)
  b.ensures('crossed', run, post)


@contract('apply to slices', cases=[dict(sizes=s, labels=t) for s in ((1,), (2,), (3,), (2, 3)) for t in ('labels', 'none')])
def _(b, sizes, labels):
  """A function applied slice by slice gives the same as applied at once to a function that works slice by slice; slices keep their labels."""
  names = ['lead', 'level'][:len(sizes)]
  for d, n in zip(names, sizes):
    b.dim(d, size=n, labels=np.arange(n) * 10 + 5 if labels == 'labels' else False)
  b.dim('x', labels=False)
  p = b.array('p', names + ['x'])
  q = b.array('q', [names[0]])
  o = b.array('o', ['x'])
  def f(tree, o):
    return {'r': tree['p'].sum('x', skipna=False) * 2.0 + tree['q'], 's': tree['p'] - o}
  def run():
    return utils.apply_to_slices(f, {'p': p.da, 'q': q.da}, o.da, dim=names[0] if len(names) == 1 else names)
  def post(r):
    r.check('tree', set(r.value) == {'r', 's'})
    r.array('r', r.value['r'], names, lambda i: b.sum(i, ['x'], lambda j: p[j]) * 2.0 + q[{names[0]: i[names[0]]}], tol=TOL, coords=labels == 'labels')
    r.array('s', r.value['s'], names + ['x'], lambda i: p[i] - o[{'x': i['x']}], tol=TOL, coords=labels == 'labels')
  b.ensures('apply to slices', run, post)


@contract('apply to slices errors', cases=[dict(what=w) for w in ('missing', 'sizes')])
def _(b, what):
  """A dimension that no argument has, or whose sizes differ, is refused."""
  b.dim('lead', size=2, labels=False); b.dim('lead3', size=3, labels=False)
  p = b.array('p', ['lead']); q = b.array('q', ['lead3'])
  def run():
    if what == 'missing':
      return utils.apply_to_slices(lambda x: x, p.da, dim=['lead', 'level'])
    return utils.apply_to_slices(lambda x, y: x, p.da, q.da.rename({'lead3': 'lead'}), dim='lead')
  def post(r):
    r.raises('refused', ValueError)
  b.ensures('apply to slices errors', run, post)
