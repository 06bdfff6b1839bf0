"""Rank histograms and relative economic value."""
import numpy as np
from props.common import SIDES, mask_kept, masked_pair, binary_gen, miss, one, truth
from vc.contract import contract
from weatherbenchX.metrics import probabilistic as prob

NAN = float('nan')


# Rank histogram

@contract('rank.onehot')
def _(b):
  """Bin k is one exactly if k members are below the target; there is one more bin than members."""
  b.dim('number', lo=1, hi=5); b.dim('x')
  p = b.array('p', ['x', 'number'])
  t = b.array('t', ['x'])
  below = lambda i: b.sum(i, ['number'], lambda j: one(b, p[j] < t[j]))
  def post(r):
    da = r.value
    r.check('bins', da.sizes['rank'] == b.pysize('number') + 1)
    if r.symbolic:
      b.doms['rank'] = da._doms['rank']
      k = lambda i: b.f(0.0) + SVidx(i['rank'])
    else:
      k = lambda i: float(i['rank'])
    r.array('value', da, ['x', 'rank'], lambda i: one(b, b.eq(below(i), k(i))), coords=False)
  b.ensures('histogram', lambda: prob.RankHistogram().compute({'v': p.da}, {'v': t.da})['v'], post)


def SVidx(k):
  import z3
  from vc.terms import SV
  return SV('i', z3.ToReal(k)) if not isinstance(k, int) else SV.of(k)


@contract('rank.coordinates', cases=[dict(side=w) for w in SIDES])
def _(b, side):
  """The mask of either input reaches the histogram."""
  b.dim('number', lo=1, hi=5); b.dim('x')
  m = b.array('mask', ['x'], kind='b', coords=False)
  p = b.array('p', ['x', 'number'])
  t = b.array('t', ['x'])
  def run():
    pd_, td = masked_pair(side, p.da, t.da, m)
    return prob.RankHistogram().compute({'v': pd_}, {'v': td})['v']
  b.ensures('histogram', run, lambda r: mask_kept(r, r.value, m, ['x']))


@contract('rank.range')
def _(b):
  """The number of members below the target lies among the bins, so exactly one bin is hit."""
  b.dim('number', lo=1, hi=5); b.dim('x')
  p = b.array('p', ['x', 'number'])
  t = b.array('t', ['x'])
  below = lambda i: b.sum(i, ['number'], lambda j: one(b, p[j] < t[j]))
  def post(r):
    r.check('returned', r.value is not None)
    r.forall('at least zero', ['x'], lambda i: below(i) >= 0.0)
    r.forall('at most the members', ['x'], lambda i: below(i) <= b.size('number'))
  b.ensures('range', lambda: prob.RankHistogram().compute({'v': p.da}, {'v': t.da})['v'], post)


@contract('rank.mass', cases=[dict(n=n) for n in (1, 2, 3, 5)])
def _(b, n):
  """The bins sum to one for every element (ensemble sizes 1, 2, 3 and 5)."""
  b.dim('m', size=n); b.dim('x')
  p = b.array('p', ['m', 'x'], nan=True)
  t = b.array('t', ['x'], nan=True)
  def post(r):
    r.array('mass', r.value.sum('rank'), ['x'], lambda i: b.f(1.0))
    r.check('bins', r.value.sizes['rank'] == n + 1)
  b.ensures('histogram', lambda: prob.RankHistogram(ensemble_dim='m').compute({'v': p.da}, {'v': t.da})['v'], post)


@contract('rank.order', cases=[dict(n=2), dict(n=3), dict(n=4)])
def _(b, n):
  """Reordering the members changes nothing."""
  b.allow_labels = False
  b.dim('number', size=n); b.dim('x')
  p = b.array('p', ['number', 'x'])
  t = b.array('t', ['x'])
  below = lambda i: b.sum(i, ['number'], lambda j: one(b, p[j] < t[j]))
  perm = [(k + 1) % n for k in range(n)][::-1]
  b.dim('rank', size=n + 1)
  b.ensures('histogram', lambda: prob.RankHistogram().compute({'v': p.da.isel(number=perm)}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['x', 'rank'], lambda i: one(b, b.eq(below(i), float(i['rank']))), coords=False))


# Relative economic value

RATIOS = np.array([0.005, 0.25, 0.5, 0.9])
THRESH = np.array([0.25, 0.75])


def table(b, n=2):
  """Aggregated contingency rates per threshold: one base rate, shares in [0, 1]."""
  b.allow_labels = False
  b.dim('k')
  b.dim('threshold', size=n, labels=THRESH[:n])
  b.allow_labels = True
  br = b.array('br', ['k'], gen=lambda rng, shape: rng.choice([0.1, 0.25, 0.5, 0.95], shape), coords=False)
  h = b.array('h', ['threshold', 'k'], gen=lambda rng, shape: rng.choice([0.0, 0.25, 0.5, 1.0], shape))
  f = b.array('f', ['threshold', 'k'], gen=lambda rng, shape: rng.choice([0.0, 0.25, 0.5, 1.0], shape))
  unit = lambda x: (x >= 0.0) & (x <= 1.0)
  b.assume_all(['k'], lambda i: (br[i] > 0.0) & (br[i] < 1.0))
  b.assume_all(['k', 'threshold'], lambda i: unit(h[i]) & unit(f[i]))
  def stats():
    tp, fn = h.da * br.da, (1 - h.da) * br.da
    fp, tn = f.da * (1 - br.da), (1 - f.da) * (1 - br.da)
    return {'TruePositives': {'v': tp}, 'FalsePositives': {'v': fp}, 'FalseNegatives': {'v': fn}, 'TrueNegatives': {'v': tn}}
  def rates(i, k):
    """(tp, fp, fn) at extended threshold k: 0 = always act, 1..n = given, n + 1 = never act."""
    s = br[i]
    if k == 0:
      return s, 1.0 - s, b.f(0.0)
    if k == n + 1:
      return b.f(0.0), b.f(0.0), s
    j = {**i, 'threshold': k - 1}
    return h[j] * s, f[j] * (1.0 - s), (1.0 - h[j]) * s
  return br, stats, rates


def rev(b, c, tp, fp, fn, s):
  cost, perfect, clim = c * (tp + fp) + fn, c * s, b.min2(b.f(c), s)
  return (clim - cost) / (clim - perfect)


@contract('rev.value', cases=[dict(ratios=None if not r else r) for r in (0, 1)])
def _(b, ratios):
  """Saving relative to climatology over the saving of perfect forecasts, for every threshold and cost/loss ratio."""
  c = RATIOS if ratios else np.geomspace(0.005, 1, 51)[[0, 20, 49]]
  br, stats, rates = table(b)
  b.dim('cost_loss_ratio', size=len(c), labels=c)
  b.dim('thr', size=4)
  def run():
    m = prob.RelativeEconomicValue(probability_thresholds=THRESH, statistic_suffix='s', cost_loss_ratios=RATIOS if ratios else None)
    v = m.values_from_mean_statistics(stats())['v'].rename(threshold='thr')
    return v if ratios else v.isel(cost_loss_ratio=[0, 20, 49])
  def spec(i):
    tp, fp, fn = rates(i, i['thr'])
    return rev(b, float(c[i['cost_loss_ratio']]), tp, fp, fn, br[i])
  b.ensures('rev', run, lambda r: r.array('value', r.value, ['k', 'thr', 'cost_loss_ratio'], spec, coords=False,
                                          const_coords={'thr': [0.0, 0.25, 0.75, 1.0], 'cost_loss_ratio': c}))


@contract('rev.bound')
def _(b):
  """Never above one, whatever the forecast; exactly one for a perfect forecast, zero for climatology."""
  br, stats, rates = table(b)
  def run():
    m = prob.RelativeEconomicValue(probability_thresholds=THRESH, statistic_suffix='s', cost_loss_ratios=RATIOS)
    return m.values_from_mean_statistics(stats())['v']
  def post(r):
    d = r.value
    if r.symbolic:
      get = lambda i: d.at(i)
      b.doms.update(cost_loss_ratio=d._doms['cost_loss_ratio'], thr=d._doms['threshold'])
    else:
      get = lambda i: np.float64(d.isel(i))
    def le(i, t, c):
      v = get({**i, 'threshold': t, 'cost_loss_ratio': c})
      return v <= 1.0 + 1e-9
    for t in range(4):
      for c in range(len(RATIOS)):
        r.forall(f'at most one [{t},{c}]', ['k'], lambda i, t=t, c=c: le(i, t, c))
    for c in range(len(RATIOS)):
      def best(i, c=c):
        """One of the constant decisions is climatology."""
        a, z = (get({**i, 'threshold': t, 'cost_loss_ratio': c}) for t in (0, 3))
        return b.same(b.max2(a, z), b.f(0.0))
      r.forall(f'climatology [{c}]', ['k'], best)
  b.ensures('rev', run, post)


@contract('rev.perfect')
def _(b):
  """Forecasts that are right at a threshold have value one."""
  b.dim('k')
  br = b.array('br', ['k'], gen=lambda rng, shape: rng.choice([0.1, 0.25, 0.5], shape))
  b.assume_all(['k'], lambda i: (br[i] > 0.0) & (br[i] < 1.0))
  b.dim('t', size=1)
  def run():
    e = lambda x: x.expand_dims(threshold=[0.5])
    s = {'TruePositives': e(br.da), 'FalsePositives': e(br.da * 0.0), 'FalseNegatives': e(br.da * 0.0), 'TrueNegatives': e(1 - br.da)}
    m = prob.RelativeEconomicValue(ensemble_size=1, cost_loss_ratios=np.array([0.3]))
    return m.values_from_mean_statistics({k: {'v': x} for k, x in s.items()})['v'].sel(threshold=0.5).isel(cost_loss_ratio=0)
  b.ensures('rev', run, lambda r: r.array('one', r.value, ['k'], lambda i: b.f(1.0), coords=False))


@contract('rev.optimal', cases=[dict(kind=k) for k in ('array', 'mapping', 'extra', 'nearest')])
def _(b, kind):
  """With chosen thresholds, each cost/loss ratio is evaluated at its own threshold."""
  br, stats, rates = table(b)
  b.dim('cost_loss_ratio', size=4, labels=RATIOS)
  choice = [0, 1, 2, 3]
  labels = np.array([0.0, 0.25, 0.75, 1.0])
  pick = np.array([[2, 0, 1, 3], [1, 3, 2, 0]]) if kind == 'extra' else np.array(choice[::-1])
  want = labels[pick]
  if kind == 'nearest':
    want = want + np.array([-0.1, 0.05, 0.1, 0.01])[: len(want)] * 0.9
  if kind == 'extra':
    b.dim('lead', size=2, labels=[6, 12])
  def run():
    dims = ['lead', 'cost_loss_ratio'] if kind == 'extra' else ['cost_loss_ratio']
    cs = {'cost_loss_ratio': RATIOS}
    if kind == 'extra':
      cs['lead'] = np.array([6, 12])
    opt = b.xr.DataArray(want, dims=dims, coords=cs)
    if kind == 'mapping':
      opt = {'v': opt, 'w': opt * 0}
    m = prob.RelativeEconomicValue(probability_thresholds=THRESH, statistic_suffix='s', cost_loss_ratios=RATIOS,
                                   optimal_thresholds=opt, optimal_thresholds_select_nearest=kind == 'nearest')
    return m.values_from_mean_statistics(stats())['v']
  def spec(i):
    c = i['cost_loss_ratio']
    k = pick[i['lead'], c] if kind == 'extra' else pick[c]
    tp, fp, fn = rates(i, int(k))
    return rev(b, float(RATIOS[c]), tp, fp, fn, br[i])
  dims = ['k', 'cost_loss_ratio'] + (['lead'] if kind == 'extra' else [])
  b.ensures('rev', run, lambda r: r.array('value', r.value, dims, spec, coords=False))


@contract('rev.statistics', cases=[dict(how=h) for h in ('size', 'thresholds')])
def _(b, how):
  """The contingency table of acting when the probability exceeds each threshold: halfway between the attainable ones."""
  b.dim('x')
  th = (np.array([0.5, 1.5, 2.5]) / 3) if how == 'size' else THRESH
  b.dim('threshold', size=len(th), labels=th)
  p = b.array('p', ['x'], nan=True, gen=lambda rng, shape: np.where(rng.random(shape) < 0.2, np.nan, rng.choice([0.0, 1 / 3, 2 / 3, 1.0, 0.25], shape)))
  t = b.array('t', ['x'], nan=True, gen=binary_gen)
  def run():
    m = prob.RelativeEconomicValue(ensemble_size=3) if how == 'size' else prob.RelativeEconomicValue(probability_thresholds=THRESH, statistic_suffix='s')
    return {k: s.compute({'v': p.da}, {'v': t.da})['v'] for k, s in m.statistics.items()}
  act = lambda i: p[i] > float(th[i['threshold']])
  rules = {'TruePositives': lambda i: act(i) & truth(b, t[i]), 'FalsePositives': lambda i: act(i) & ~truth(b, t[i]),
           'TrueNegatives': lambda i: ~act(i) & ~truth(b, t[i]), 'FalseNegatives': lambda i: ~act(i) & truth(b, t[i])}
  def post(r):
    r.check('statistics', set(r.value) == set(rules))
    for k, f in rules.items():
      r.array(k, r.value[k], ['x', 'threshold'], lambda i, f=f: b.where(miss(b, p[i], t[i]), b.f(NAN), one(b, f(i))), coords=False, const_coords={'threshold': th})
  b.ensures('table', run, post)


@contract('rev.refused', mode='bounded', samples=1, cases=[dict(k=k) for k in range(7)])
def _(b, k):
  """Missing, conflicting or out-of-range thresholds, and unmatched chosen thresholds, are refused."""
  b.dim('x', size=1)
  def da(dims, coords):
    import xarray as xr
    return xr.DataArray(np.full([len(RATIOS)], 0.25), dims=dims, coords=coords)
  args = [
      lambda: dict(),
      lambda: dict(ensemble_size=2, probability_thresholds=THRESH, statistic_suffix='s'),
      lambda: dict(probability_thresholds=THRESH),
      lambda: dict(probability_thresholds=np.array([-0.1, 0.5]), statistic_suffix='s'),
      lambda: dict(probability_thresholds=np.array([0.1, 1.5]), statistic_suffix='s'),
      lambda: dict(ensemble_size=2, cost_loss_ratios=RATIOS, optimal_thresholds=da(['z'], {})),
      lambda: dict(ensemble_size=2, cost_loss_ratios=RATIOS, optimal_thresholds={'v': da(['cost_loss_ratio'], {'cost_loss_ratio': RATIOS / 2})}),
  ][k]
  b.ensures('refused', lambda: prob.RelativeEconomicValue(**args()), lambda r: r.raises('refused', ValueError))
