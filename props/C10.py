"""SEEPS, ranked probability scores, reliability, and forecast-opportunity statistics."""
import numpy as np
from props.common import SIDES, mask_kept, masked_pair, binary_gen, count, mean, miss, one, truth, var
from vc.contract import contract
from weatherbenchX import aggregation
from weatherbenchX.metrics import categorical as cat
from weatherbenchX.metrics import probabilistic as prob
from weatherbenchX.metrics import wrappers

NAN = float('nan')


def times(rng, shape):
  d = rng.choice(np.array(['2020-02-28', '2020-12-30', '2019-12-30', '2021-02-27'], dtype='datetime64[D]'), shape)
  return (d.astype('datetime64[ns]') + 6 * rng.integers(0, 5, shape).astype('timedelta64[h]')).astype('datetime64[ns]')


def leads(rng, shape):
  return 6 * rng.integers(0, 5, shape).astype('timedelta64[h]').astype('timedelta64[ns]')


def rain(rng, shape):
  x = rng.choice([0.0, 0.0001, 0.00025, 0.0003, 0.001, 0.002, 0.005, 0.01], shape)
  return np.where(rng.random(shape) < 0.15, np.nan, x)


def fraction(rng, shape):
  """Dry fractions, varying by place so that some are out of range."""
  f = rng.choice([0.02, 0.11, 0.25, 0.3, 0.5, 0.84, 0.95], shape[-1:])
  return np.broadcast_to(f, shape) if rng.random() < 0.7 else rng.choice([0.05, 0.23, 0.61, 0.9], shape)


def seeps_inputs(b, thr=0.25, mask=None, name='v'):
  b.allow_labels = False
  b.dim('init_time'); b.dim('lead_time'); b.dim('x')
  it = b.coord('init_time', 'init_time', 'M', gen=times)
  lt = b.coord('lead_time', 'lead_time', 'm', gen=leads)
  dims = ['init_time', 'lead_time', 'x']
  p = b.array('p', dims, nan=True, gen=rain)
  t = b.array('t', dims, nan=True, gen=rain)
  b.index_dim('dayofyear', np.array([1, 2, 3, 58, 59, 60, 61, 62, 363, 364, 365, 366]))
  b.index_dim('hour', np.array([0, 6, 12, 18]))
  cd = ['hour', 'dayofyear', 'x']
  w = b.array('w', cd, gen=lambda rng, shape: rng.choice([0.001, 0.002, 0.004], shape), da_name=name + '_seeps_threshold')
  f = b.array('f', cd, gen=fraction, da_name=name + '_seeps_dry_fraction')
  b.assume_all(cd, lambda i: w[i] > thr / 1000.0)
  b.assume_all(cd, lambda i: (f[i] > 0.0) & (f[i] < 1.0))
  wet = lambda i: w(i, dayofyear=b.pos('dayofyear', b.doy(it[i] + lt[i])), hour=b.pos('hour', b.hour(it[i] + lt[i])))
  p1 = lambda i: b.sum(i, ['hour', 'dayofyear'], lambda j: f[j]) / (b.size('hour') * b.size('dayofyear'))
  clim = lambda: b.xr.Dataset({name + '_seeps_threshold': w.da, name + '_seeps_dry_fraction': f.da})
  return dims, p, t, wet, p1, clim


def penalty(b, p1, fc, tc):
  """Rodwell et al. (2010), eq. 15: half of the published error matrix; rows forecast, columns observation."""
  n = b.f(0.0)
  m = [[n, 1.0 / (1.0 - p1), 4.0 / (1.0 - p1)],
       [1.0 / p1, n, 3.0 / (1.0 - p1)],
       [1.0 / p1 + 3.0 / (2.0 + p1), 3.0 / (2.0 + p1), n]]
  out = n
  for k in range(3):
    for l in range(3):
      out = b.where(fc[k] & tc[l], m[k][l], out)
  return 0.5 * out


def category(b, x, thr, wet):
  return [x <= thr, (x > thr) & (x < wet), x >= wet]


@contract('seeps.value', cases=[dict(thr=0.25, lo=0.1, hi=0.85), dict(thr=[0.5], lo=[0.2], hi=[0.6]), dict(thr=0.25, lo=0.25, hi=0.5)])
def _(b, thr, lo, hi):
  """The penalty of the pair of categories; missing where a side is missing or the dry fraction is out of range."""
  th = thr if isinstance(thr, float) else thr[0]
  lo_, hi_ = (lo, hi) if isinstance(lo, float) else (lo[0], hi[0])
  dims, p, t, wet, p1, clim = seeps_inputs(b, th)
  def run():
    return cat.SEEPS(['v'], clim(), thr, lo, hi).compute({'v': p.da, 'other': p.da}, {'v': t.da, 'other': t.da})
  def spec(i):
    q = p1(i)
    v = penalty(b, q, category(b, p[i], th / 1000.0, wet(i)), category(b, t[i], th / 1000.0, wet(i)))
    return b.where(miss(b, p[i], t[i]) | ~((q >= lo_) & (q <= hi_)), b.f(NAN), v)
  def post(r):
    r.check('only its own variables', set(r.value) == {'v'})
    r.array('value', r.value['v'], dims, spec)
    r.array('mask', r.value['v'].coords['mask'], ['x'], lambda i: (p1(i) >= lo_) & (p1(i) <= hi_))
  b.ensures('seeps', run, post)


@contract('seeps.perfect')
def _(b):
  """A perfect forecast scores zero wherever it is scored."""
  dims, p, t, wet, p1, clim = seeps_inputs(b)
  ok = lambda i: ~b.isnan(p[i]) & (p1(i) >= 0.1) & (p1(i) <= 0.85)
  b.ensures('zero', lambda: cat.SEEPS(['v'], clim()).compute({'v': p.da}, {'v': p.da})['v'],
            lambda r: r.array('zero', r.value, dims, lambda i: b.where(ok(i), b.f(0.0), b.f(NAN))))


@contract('seeps.two-variables')
def _(b):
  """Each variable uses its own thresholds and limits."""
  dims, p, t, wet, p1, clim = seeps_inputs(b, 0.5)
  u = b.array('u', dims, nan=True, gen=rain)
  g = b.array('g', ['x', 'hour', 'dayofyear'], gen=lambda rng, shape: rng.choice([0.21, 0.5, 0.8], shape), da_name='u_seeps_dry_fraction')
  w2 = b.array('w2', ['x', 'hour', 'dayofyear'], gen=lambda rng, shape: rng.choice([0.001, 0.003], shape), da_name='u_seeps_threshold')
  b.assume_all(['x', 'hour', 'dayofyear'], lambda i: (w2[i] > 0.0002) & (g[i] > 0.0) & (g[i] < 1.0))
  it, lt = b.coords['init_time'], b.coords['lead_time']
  wet2 = lambda i: w2(i, dayofyear=b.pos('dayofyear', b.doy(it[i] + lt[i])), hour=b.pos('hour', b.hour(it[i] + lt[i])))
  q1 = lambda i: b.sum(i, ['hour', 'dayofyear'], lambda j: g[j]) / (b.size('hour') * b.size('dayofyear'))
  def run():
    ds = b.xr.Dataset({**dict(clim()), 'u_seeps_dry_fraction': g.da, 'u_seeps_threshold': w2.da})
    s = cat.SEEPS(['v', 'u'], ds, [0.5, 0.2], [0.1, 0.3], [0.85, 0.7])
    return s.compute({'v': p.da, 'u': u.da}, {'v': t.da, 'u': t.da})
  def spec(x, q, wt, th, lo, hi, i):
    v = penalty(b, q, category(b, x[i], th / 1000.0, wt(i)), category(b, t[i], th / 1000.0, wt(i)))
    return b.where(miss(b, x[i], t[i]) | ~((q >= lo) & (q <= hi)), b.f(NAN), v)
  def post(r):
    r.array('v', r.value['v'], dims, lambda i: spec(p, p1(i), wet, 0.5, 0.1, 0.85, i))
    r.array('u', r.value['u'], dims, lambda i: spec(u, q1(i), wet2, 0.2, 0.3, 0.7, i))
  b.ensures('seeps', run, post)


@contract('seeps.mask', cases=[dict(which=w) for w in ('predictions', 'targets', 'both')])
def _(b, which):
  """An input mask is combined with the dry-fraction mask; two input masks are refused."""
  dims, p, t, wet, p1, clim = seeps_inputs(b)
  m = b.array('m', ['init_time', 'x'], kind='b')
  def run():
    pd, td = p.da, t.da
    if which != 'targets':
      pd = pd.assign_coords(mask=m.da)
    if which != 'predictions':
      td = td.assign_coords(mask=m.da)
    return cat.SEEPS(['v'], clim()).compute({'v': pd}, {'v': td})['v'].coords['mask']
  def post(r):
    if which == 'both':
      r.raises('refused', ValueError)
    else:
      r.array('mask', r.value, ['init_time', 'x'], lambda i: m[i] & (p1(i) >= 0.1) & (p1(i) <= 0.85))
  b.ensures('mask', run, post)


@contract('seeps.lengths', mode='bounded', samples=1)
def _(b):
  """Per-variable options of different lengths are refused."""
  b.dim('x', size=1)
  b.ensures('refused', lambda: cat.SEEPS(['a', 'b'], None, [0.1]), lambda r: r.raises('refused', AssertionError, ValueError))


# Ranked probability scores

@contract('rps.value')
def _(b):
  """Squared distance of the cumulative probabilities, missing when an input is missing."""
  b.dim('x'); b.dim('bin')
  p = b.array('p', ['x', 'bin'])
  t = b.array('t', ['bin', 'x'])
  b.ensures('rps', lambda: cat.RankedProbabilityScore('bin').compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['x'], lambda i: b.sum(i, ['bin'], lambda j: (p[j] - t[j]) * (p[j] - t[j]))))


@contract('rps.coordinates', cases=[dict(side=w) for w in SIDES])
def _(b, side):
  """The mask of either input reaches the score."""
  b.dim('x'); b.dim('bin')
  m = b.array('mask', ['x'], kind='b', coords=False)
  p = b.array('p', ['x', 'bin'])
  t = b.array('t', ['bin', 'x'])
  def run():
    pd_, td = masked_pair(side, p.da, t.da, m)
    return cat.RankedProbabilityScore('bin').compute({'v': pd_}, {'v': td})['v']
  def post(r):
    r.array('value', r.value, ['x'], lambda i: b.sum(i, ['bin'], lambda j: (p[j] - t[j]) * (p[j] - t[j])))
    mask_kept(r, r.value, m, ['x'])
  b.ensures('rps', run, post)


@contract('rps.missing')
def _(b):
  """A missing forecast or target (missing in every category) gives a missing score, never a perfect one."""
  b.dim('x'); b.dim('bin')
  p = b.array('p', ['x', 'bin'])
  t = b.array('t', ['bin', 'x'])
  mp = b.array('mp', ['x'], kind='b')
  mt = b.array('mt', ['x'], kind='b')
  spec = lambda i: b.where(mp[i] | mt[i], b.f(NAN), b.sum(i, ['bin'], lambda j: (p[j] - t[j]) * (p[j] - t[j])))
  b.ensures('rps', lambda: cat.RankedProbabilityScore('bin').compute({'v': p.da.where(~mp.da)}, {'v': t.da.where(~mt.da)})['v'],
            lambda r: r.array('value', r.value, ['x'], spec))


@contract('rps.binned')
def _(b):
  """Applied to binned values: the sum over the edges of the disagreement of the two step functions."""
  edges = [-1.0, 0.0, 2.0]
  b.dim('x')
  p = b.array('p', ['x'], nan=True)
  t = b.array('t', ['x'], nan=True)
  def run():
    s = wrappers.WrappedStatistic(cat.RankedProbabilityScore('bin'), wrappers.ContinuousToCDF('both', edges, 'bin'))
    return s.compute({'v': p.da}, {'v': t.da})['v']
  def spec(i):
    s = b.f(0.0)
    for e in edges:
      d = one(b, p[i] <= e) - one(b, t[i] <= e)
      s = s + d * d
    return b.where(miss(b, p[i], t[i]), b.f(NAN), s)
  b.ensures('rps', run, lambda r: r.array('value', r.value, ['x'], spec))


class Column:
  """Members' indicator of being at or below an edge, as an array handle."""

  def __init__(self, b, h, edge, incl):
    self.b, self.h, self.e, self.incl = b, h, edge, incl

  def __getitem__(self, i):
    x = self.h[i]
    v = one(self.b, (x <= self.e) if self.incl else (x < self.e))
    return self.b.where(self.b.isnan(x), self.b.f(NAN), v)


@contract('rps.ensemble', cases=[dict(fair=f, incl=c, skipna=s) for f in (True, False) for c in (True, False) for s in (True, False)])
def _(b, fair, incl, skipna):
  """Ensemble probabilities of each edge against the target's step; fair subtracts the variance over size."""
  edges = [-1.0, 0.5, 2.0]
  tedges = [-0.5, 0.5, 1.0]
  b.dim('number', lo=2, hi=4); b.dim('x')
  p = b.array('p', ['number', 'x'], nan=True)
  t = b.array('t', ['x'], nan=True)
  def thresholds(es):
    d = b.xr.DataArray(np.array(es), dims=['bin'], coords={'bin': np.array([0.0, 1.0, 2.0])}, name='v')
    return d
  def run():
    s = prob.EnsembleRankedProbabilityScore(thresholds(edges), thresholds(tedges), 'bin', 'name', skipna_ensemble=skipna, fair=fair, right_inclusive=incl)
    return s.compute({'v': p.da}, {'v': t.da})['v']
  def spec(i):
    total = b.f(0.0)
    bad = b.isnan(t[i])
    for e, te in zip(edges, tedges):
      c = Column(b, p, e, incl)
      tc = one(b, (t[i] <= te) if incl else (t[i] < te))
      d = mean(b, c, i, 'number', skipna) - tc
      v = d * d
      if fair:
        v = v - var(b, c, i, 'number', skipna) / count(b, c, i, 'number', skipna)
      bad = bad | b.isnan(v)
      total = total + v
    return b.where(bad, b.f(NAN), total)
  b.ensures('rps', run, lambda r: r.array('value', r.value, ['x'], spec, tol=(1e-6, 1e-6)))


# Reliability

@contract('reliability.bins')
def _(b):
  """Forecast probabilities fall into exactly one right-closed bin, counted with the observed event."""
  edges = [-float('inf'), 0.25, 0.5, 1.0]
  b.dim('x')
  b.dim('reliability_bin', size=3)
  p = b.array('p', ['x'], nan=True, gen=lambda rng, shape: np.where(rng.random(shape) < 0.2, np.nan, rng.choice([0, 0.1, 0.25, 0.3, 0.5, 0.7, 1.0], shape)))
  t = b.array('t', ['x'], nan=True, gen=binary_gen)
  b.assume_all(['x'], lambda i: b.isnan(p[i]) | ((p[i] >= 0.0) & (p[i] <= 1.0)))
  def run():
    return {k: s.compute({'v': p.da}, {'v': t.da})['v'] for k, s in cat.Reliability(bin_values=edges).statistics.items()}
  inside = lambda i: (p[i] > edges[i['reliability_bin']]) & (p[i] <= edges[i['reliability_bin'] + 1])
  def post(r):
    r.check('statistics', set(r.value) == {'TruePositives', 'FalsePositives'})
    nan = lambda i, v: b.where(miss(b, p[i], t[i]), b.f(NAN), v)
    dims = ['x', 'reliability_bin']
    r.array('hits', r.value['TruePositives'], dims, lambda i: nan(i, one(b, inside(i) & truth(b, t[i]))), coords=False)
    r.array('misses', r.value['FalsePositives'], dims, lambda i: nan(i, one(b, inside(i) & ~truth(b, t[i]))), coords=False)
  b.ensures('counts', run, post)


@contract('reliability.partition')
def _(b):
  """With the default bins every valid element in [0, 1] is counted exactly once."""
  b.dim('x')
  p = b.array('p', ['x'], nan=True, gen=lambda rng, shape: np.where(rng.random(shape) < 0.2, np.nan, rng.choice([0, 0.1, 0.15, 0.2, 0.95, 0.3, 1.0], shape)))
  t = b.array('t', ['x'], nan=True, gen=binary_gen)
  b.assume_all(['x'], lambda i: b.isnan(p[i]) | ((p[i] >= 0.0) & (p[i] <= 1.0)))
  def run():
    s = cat.Reliability().statistics
    a, c = [s[k].compute({'v': p.da}, {'v': t.da})['v'].sum('reliability_bin', skipna=False) for k in ('TruePositives', 'FalsePositives')]
    return a + c
  b.ensures('one', run, lambda r: r.array('one', r.value, ['x'], lambda i: b.where(miss(b, p[i], t[i]), b.f(NAN), b.f(1.0))))


@contract('reliability.curve')
def _(b):
  """The observed frequency among the elements in the bin, missing for an empty bin."""
  b.dim('k')
  tp = b.array('tp', ['k'], nan=True, gen=lambda rng, shape: rng.choice([0.0, 0.0, 0.25, 0.5, np.nan], shape))
  fp = b.array('fp', ['k'], nan=True, gen=lambda rng, shape: rng.choice([0.0, 0.0, 0.25, 0.5, np.nan], shape))
  b.assume_all(['k'], lambda i: (b.isnan(tp[i]) | (tp[i] >= 0.0)) & (b.isnan(fp[i]) | (fp[i] >= 0.0)))
  b.ensures('curve', lambda: cat.Reliability().values_from_mean_statistics({'TruePositives': {'v': tp.da}, 'FalsePositives': {'v': fp.da}})['v'],
            lambda r: r.array('curve', r.value, ['k'], lambda i: b.where(b.eq(tp[i] + fp[i], 0.0), b.f(NAN), tp[i] / (tp[i] + fp[i]))))


# Forecasts of opportunity

def opportunity(b, quantiles=(0.1, 0.9)):
  b.allow_labels = False
  b.dim('valid_time'); b.dim('x'); b.dim('m', lo=2, hi=5)
  v = b.coord('valid_time', 'valid_time', 'M', gen=times)
  p = b.array('p', ['m', 'valid_time', 'x'], nan=False)
  t = b.array('t', ['valid_time', 'x'], nan=True)
  b.dim('quantile', size=len(quantiles), labels=list(quantiles))
  b.label_dim('dayofyear', np.arange(1, 367))
  b.allow_labels = True
  c = b.array('c', ['quantile', 'dayofyear', 'x'], da_name='c')
  b.allow_labels = False
  at = lambda i, k: c(i, quantile=k, dayofyear=b.label(b.doy(v[i])))
  q = lambda i, z: b.quantile(i, ['m'], z, lambda j: p[j])
  return p, t, at, q, lambda: b.xr.Dataset({'v': c.da})


@contract('opportunity.confident', cases=[dict(q=(0.1, 0.9), th=0.7), dict(q=(0.25, 0.75), th=0.5)])
def _(b, q, th):
  """Forecast spread below the threshold times the climatological spread."""
  p, t, at, Q, clim = opportunity(b, q)
  def spec(i):
    return (Q(i, q[1]) - Q(i, q[0])) < th * (at(i, 1) - at(i, 0))
  b.ensures('confident', lambda: cat.Confident('m', clim(), q, th).compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['valid_time', 'x'], spec))


@contract('opportunity.covered', cases=[dict(q=(0.1, 0.9)), dict(q=(0.25, 0.5))])
def _(b, q):
  """The target lies within the closed forecast interval."""
  p, t, at, Q, clim = opportunity(b)
  b.ensures('covered', lambda: cat.Covered('m', q).compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['valid_time', 'x'], lambda i: (Q(i, q[0]) <= t[i]) & (t[i] <= Q(i, q[1]))))


@contract('opportunity.jaccard', cases=[dict(th=0.75), dict(th=0.25)])
def _(b, th):
  """One minus intersection over union of the forecast and climatological intervals, above the threshold."""
  p, t, at, Q, clim = opportunity(b)
  def spec(i):
    lo, hi, cl, ch = Q(i, 0.1), Q(i, 0.9), at(i, 0), at(i, 1)
    inter = b.max2(b.f(0.0), b.min2(hi, ch) - b.max2(lo, cl))
    union = (hi - lo) + (ch - cl) - inter
    return (1.0 - b.where(union > 0.0, inter / union, b.f(1.0))) > th
  b.ensures('distant', lambda: cat.JaccardDistant('m', clim(), th).compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['valid_time', 'x'], spec))


FLAGS = [dict(conf=c, cov=v, jac=j) for c in (True, False) for v in (None, True, False) for j in (None, True, False)]


@contract('opportunity.coordinates', cases=[dict(stat=s, side=w) for s in ('confident', 'covered', 'jaccard') for w in SIDES])
def _(b, stat, side):
  """The mask of either input reaches each of the three factors."""
  p, t, at, Q, clim = opportunity(b)
  m = b.array('mask', ['valid_time', 'x'], kind='b', coords=False)
  def run():
    pd_, td = masked_pair(side, p.da, t.da, m)
    st = {'confident': lambda: cat.Confident('m', clim(), (0.1, 0.9), 0.7), 'covered': lambda: cat.Covered('m', (0.1, 0.9)),
          'jaccard': lambda: cat.JaccardDistant('m', clim(), 0.75)}[stat]()
    return st.compute({'v': pd_}, {'v': td})['v']
  def post(r):
    r.check('dimensions', set(r.value.dims) == {'valid_time', 'x'})
    mask_kept(r, r.value, m, ['valid_time', 'x'])
  b.ensures('value', run, post)


@contract('opportunity.product', cases=FLAGS)
def _(b, conf, cov, jac):
  """The product of the requested statistics or their complements; unrequested ones are not needed."""
  b.dim('k')
  a = {n: b.array(n, ['k'], nan=True) for n in ('Confident', 'Covered', 'JaccardDistant')}
  want = {'Confident': conf, 'Covered': cov, 'JaccardDistant': jac}
  def run():
    m = cat.Opportunism('m', None, conf, cov, jac)
    names = sorted(m.statistics)
    return names, m.values_from_mean_statistics({k: {'v': a[k].da} for k in m.statistics})['v']
  def spec(i):
    out = b.f(1.0)
    for k, f in want.items():
      if f is not None:
        out = out * (a[k][i] if f else 1.0 - a[k][i])
    return out
  def post(r):
    r.check('statistics', r.value[0] == sorted(k for k, f in want.items() if f is not None))
    r.array('value', r.value[1], ['k'], spec)
  b.ensures('product', run, post)


@contract('opportunity.options')
def _(b):
  """Each statistic is computed with its own quantiles and threshold."""
  p, t, at, Q, clim = opportunity(b, (0.1, 0.2, 0.3, 0.7, 0.8, 0.9))
  def run():
    m = cat.Opportunism('m', clim(), True, True, True, (0.1, 0.9), (0.2, 0.8), (0.3, 0.7), 0.5, 0.25)
    return {k: s.compute({'v': p.da}, {'v': t.da})['v'] for k, s in m.statistics.items()}
  def jac(i):
    lo, hi, cl, ch = Q(i, 0.3), Q(i, 0.7), at(i, 2), at(i, 3)
    inter = b.max2(b.f(0.0), b.min2(hi, ch) - b.max2(lo, cl))
    union = (hi - lo) + (ch - cl) - inter
    return (1.0 - b.where(union > 0.0, inter / union, b.f(1.0))) > 0.25
  def post(r):
    d = ['valid_time', 'x']
    r.array('confident', r.value['Confident'], d, lambda i: (Q(i, 0.9) - Q(i, 0.1)) < 0.5 * (at(i, 5) - at(i, 0)))
    r.array('covered', r.value['Covered'], d, lambda i: (Q(i, 0.2) <= t[i]) & (t[i] <= Q(i, 0.8)))
    r.array('distant', r.value['JaccardDistant'], d, jac)
  b.ensures('statistics', run, post)
