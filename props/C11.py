"""Ensemble CRPS: fair and biased estimators, independent of method and order."""
import numpy as np
from vc.contract import contract
from props.common import SIDES, mask_kept, masked_pair
from weatherbenchX import aggregation
from weatherbenchX.metrics import base
from weatherbenchX.metrics import probabilistic as prob


def present(b, h, i):
  return ~b.isnan(h[i])


def one(b, c):
  return b.where(c, b.f(1.0), b.f(0.0))


def mean_abs_error(b, p, t, i, skipna, mp='m', mt=None):
  """mean |prediction - target| over members (and target members)."""
  dims = [mp] + ([mt] if mt else [])
  err = lambda j: abs(p({**j, 'm': j[mp]}) - (t({**j, 'm': j[mt]}) if mt else t[j]))
  if not skipna:
    n = b.size(mp) * b.size(mt) if mt else b.size(mp)
    return b.sum(i, dims, err) / n
  ok = lambda j: ~b.isnan(err(j))
  n = b.sum(i, dims, lambda j: one(b, ok(j)))
  return b.sum(i, dims, lambda j: b.where(ok(j), err(j), b.f(0.0))) / n


def spread(b, x, i, fair, skipna, m='m', m2='m2'):
  """Mean absolute difference between members, over distinct pairs when fair and over all pairs otherwise."""
  diff = lambda j: abs(x({**j, 'm': j[m]}) - x({**j, 'm': j[m2]}))
  k = 1.0 if fair else 0.0
  if not skipna:
    n = b.size(m)
    return b.sum(i, [m, m2], diff) / (n * (n - k))
  ok = lambda j: present(b, x, {**j, 'm': j[m]}) & present(b, x, {**j, 'm': j[m2]})
  n = b.sum(i, [m], lambda j: one(b, present(b, x, {**j, 'm': j[m]})))
  return b.sum(i, [m, m2], lambda j: b.where(ok(j), diff(j), b.f(0.0))) / (n * (n - k))


def ens(b, lo=2, hi=4, target_members=False):
  b.dim('m', lo=lo, hi=hi); b.same_dim('m2', 'm'); b.dim('x')
  p = b.array('p', ['m', 'x'], nan=True)
  if target_members:
    b.dim('mt', lo=lo, hi=3); b.same_dim('mt2', 'mt')
    return p, None
  return p, b.array('t', ['x'], nan=True)


SKIP = [dict(skipna=s) for s in (False, True)]
OPT = [dict(fair=f, skipna=s) for f in (True, False) for s in (False, True)]


@contract('crps.skill', cases=SKIP)
def _(b, skipna):
  p, t = ens(b, lo=1)
  b.ensures('skill', lambda: prob.CRPSSkill('m', skipna).compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['x'], lambda i: mean_abs_error(b, p, t, i, skipna)))


@contract('crps.spread', cases=OPT)
def _(b, fair, skipna):
  p, t = ens(b)
  b.ensures('spread', lambda: prob.CRPSSpread('m', fair=fair, skipna_ensemble=skipna).compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['x'], lambda i: spread(b, p, i, fair, skipna)))


@contract('crps.spread-of-targets', cases=OPT)
def _(b, fair, skipna):
  b.dim('m', lo=2, hi=4); b.same_dim('m2', 'm'); b.dim('x')
  p = b.array('p', ['x'], nan=True)
  t = b.array('t', ['x', 'm'], nan=True)
  b.ensures('spread', lambda: prob.CRPSSpread('m', fair=fair, which='targets', skipna_ensemble=skipna).compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['x'], lambda i: spread(b, t, i, fair, skipna)))


@contract('crps.coordinates', cases=[dict(stat=s, side=w) for s in ('skill', 'spread', 'spread-sorted', 'spread-of-targets', 'distance') for w in SIDES])
def _(b, stat, side):
  """The mask of either input reaches both the skill and the spread, which are averaged over the same elements."""
  b.dim('m', lo=2, hi=4); b.same_dim('m2', 'm'); b.dim('x')
  m = b.array('mask', ['x'], kind='b', coords=False)
  p = b.array('p', ['m', 'x'] if stat != 'spread-of-targets' else ['x'], nan=True)
  t = b.array('t', ['x', 'm'] if stat in ('spread-of-targets', 'distance') else ['x'])
  def run():
    pd_, td = masked_pair(side, p.da, t.da, m)
    st = {'skill': lambda: prob.CRPSSkill('m'), 'spread': lambda: prob.CRPSSpread('m'), 'spread-sorted': lambda: prob.CRPSSpread('m', use_sort=True),
          'spread-of-targets': lambda: prob.CRPSSpread('m', which='targets'), 'distance': lambda: prob.CRPSSpread('m')}[stat]()
    return st.compute({'v': pd_}, {'v': td})['v']
  def post(r):
    if stat == 'skill':
      r.array('value', r.value, ['x'], lambda i: mean_abs_error(b, p, t, i, False))
    else:
      r.array('value', r.value, ['x'], lambda i: spread(b, t if stat == 'spread-of-targets' else p, i, True, False))
    mask_kept(r, r.value, m, ['x'])
  b.ensures('value', run, post)


@contract('crps.one-member', cases=[dict(which=w, fair=f) for w in ('predictions', 'targets') for f in (True, False)])
def _(b, which, fair):
  """One member gives no spread estimate: refused unless missing members are skipped."""
  b.dim('m', size=1); b.dim('x')
  p = b.array('p', ['m', 'x'])
  b.ensures('spread', lambda: prob.CRPSSpread('m', fair=fair, which=which).compute({'v': p.da}, {'v': p.da})['v'],
            lambda r: r.raises('refused', ValueError))


@contract('crps.too-few-present', mode='bounded', note='corollary of crps.spread')
def _(b):
  """Fewer than two members present: the fair estimate is missing."""
  b.dim('m', lo=1, hi=3); b.same_dim('m2', 'm'); b.dim('x')
  p = b.array('p', ['m', 'x'], nan=True, gen=lambda rng, s: np.where(rng.random(s) < 0.6, np.nan, rng.integers(0, 3, s)))
  def post(r):
    few = lambda i: b.sum(i, ['m'], lambda j: one(b, present(b, p, j))) <= 1.0
    r.array('value', r.value, ['x'], lambda i: b.f(float('nan')), given=few)
  b.ensures('spread', lambda: prob.CRPSSpread('m', fair=True, skipna_ensemble=True).compute({'v': p.da}, {'v': p.da})['v'], post)


def metric(b, sort, fair, skipna, mask=None):
  """CRPS of an aggregated evaluation: mean error minus half the mean spread, over the same (unmasked) elements."""
  b.dim('t')
  p, _ = ens(b)
  p = b.array('pp', ['t', 'm', 'x'], nan=skipna)
  y = b.array('y', ['t', 'x'], nan=False)
  m = b.array('mask', ['t', 'x'], kind='b', coords=False) if mask else None
  use = lambda f: f if m is None else (lambda j: b.where(m[j], f(j), b.f(0.0)))
  n = (lambda i: b.size('t')) if m is None else (lambda i: b.sum(i, ['t'], lambda j: b.num(m[j])))
  def run():
    pd_, yd = masked_pair(mask, p.da, y.da, m) if mask else (p.da, y.da)
    ms = {'crps': prob.CRPSEnsemble(ensemble_dim='m', use_sort=sort, fair=fair, skipna_ensemble=skipna)}
    return aggregation.compute_metric_values_for_single_chunk(ms, aggregation.Aggregator(reduce_dims=['t'], masked=mask is not None), {'v': pd_}, {'v': yd})['crps.v']
  def spec(i):
    skill = b.sum(i, ['t'], use(lambda j: mean_abs_error(b, p, y, j, skipna))) / n(i)
    spr = b.sum(i, ['t'], use(lambda j: spread(b, p, j, fair, skipna))) / n(i)
    return skill - 0.5 * spr
  b.ensures('value', run, lambda r: r.array('value', r.value, ['x'], spec))


@contract('crps.metric', cases=[dict(sort=False, **o) for o in OPT])
def _(b, sort, fair, skipna):
  metric(b, sort, fair, skipna)


@contract('crps.metric-masked', cases=[dict(mask=w) for w in SIDES])
def _(b, mask):
  metric(b, False, True, False, mask)


@contract('crps.metric-sorted', cases=[dict(fair=f) for f in (True, False)], mode='bounded', note='composition of crps.sorted and crps.metric')
def _(b, fair):
  metric(b, True, fair, False)


@contract('crps.distance', cases=OPT)
def _(b, fair, skipna):
  """Distance between two ensembles: cross term minus half of each internal spread, all with the same missing-member rule."""
  b.dim('m', lo=2, hi=4); b.same_dim('m2', 'm'); b.dim('k', lo=2, hi=3); b.same_dim('k2', 'k'); b.dim('x')
  p = b.array('p', ['m', 'x'], nan=True)
  t = b.array('t', ['k', 'x'], nan=True)
  class View:
    def __init__(self, h):
      self.h = h
    def __call__(self, i, **o):
      return self[{**i, **o}]
    def __getitem__(self, i):
      return self.h[{**i, 'k': i['m']}]
  tv = View(t)
  def run():
    m = prob.CRPSEnsembleDistance(ensemble_dim='m', fair=fair, skipna_ensemble=skipna)
    P, Y = p.da, t.da
    if 'm' in P.coords:
      P = P.drop_vars('m')
    if 'k' in Y.coords:
      Y = Y.drop_vars('k')
    st = base.compute_unique_statistics_for_all_metrics({'d': m}, {'v': P}, {'v': Y.rename({'k': 'm'})})
    return base.compute_metric_from_statistics(m, st)['v']
  def spec(i):
    cross = mean_abs_error(b, p, tv, i, skipna, 'm', 'k')
    return cross - 0.5 * spread(b, p, i, fair, skipna) - 0.5 * spread(b, tv, i, fair, skipna, 'k', 'k2')
  b.ensures('value', run, lambda r: r.array('value', r.value, ['x'], spec))


@contract('crps.sorted', cases=[dict(fair=f, which=w) for f in (True, False) for w in ('predictions', 'targets')], samples=80)
def _(b, fair, which):
  """The rank algorithm computes the same spread."""
  p, t = ens(b, hi=6)
  arg = lambda: ({'v': p.da}, {'v': t.da}) if which == 'predictions' else ({'v': t.da}, {'v': p.da})
  b.ensures('spread', lambda: prob.CRPSSpread('m', use_sort=True, fair=fair, which=which).compute(*arg())['v'],
            lambda r: r.array('value', r.value, ['x'], lambda i: spread(b, p, i, fair, False)))


@contract('crps.sorted-close', mode='bounded', samples=20, note='members that differ in the last digits of a double')
def _(b):
  b.dim('m', lo=2, hi=5); b.same_dim('m2', 'm'); b.dim('x')
  p = b.array('p', ['m', 'x'], gen=lambda rng, s: 1.0 + 1e-9 * rng.integers(0, 9, s))
  t = b.array('t', ['x'])
  b.ensures('spread', lambda: prob.CRPSSpread('m', use_sort=True).compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['x'], lambda i: spread(b, p, i, True, False), tol=(1e-4, 1e-14)))


@contract('crps.sorted-skipna')
def _(b):
  """The rank algorithm cannot skip missing members and says so."""
  p, t = ens(b)
  b.ensures('spread', lambda: prob.CRPSSpread('m', use_sort=True, skipna_ensemble=True).compute({'v': p.da}, {'v': t.da}),
            lambda r: r.raises('refused', ValueError))


@contract('crps.order', mode='bounded', samples=40, note='corollary: sums over members do not depend on their order')
def _(b):
  p, t = ens(b, hi=5)
  opts = dict(fair=bool(b.rng.integers(2)), use_sort=bool(b.rng.integers(2)))
  perm = b.rng.permutation(b.sizes['m'])
  def run():
    P = p.da
    out = []
    for q in (P, P.isel(m=perm)):
      m = prob.CRPSEnsemble('m', **opts)
      out.append(base.compute_metric_from_statistics(m, base.compute_unique_statistics_for_all_metrics({'c': m}, {'v': q}, {'v': t.da}))['v'])
    return out
  b.ensures('both', run, lambda r: r.check('same', np.allclose(r.value[0].values, r.value[1].values, equal_nan=True)))


@contract('crps.wasserstein', mode='bounded', samples=60, note='scipy.stats.wasserstein_distance is outside the verifier')
def _(b):
  """Distance between the two empirical distribution functions, for ensembles of different sizes."""
  rng = b.rng
  n, k, nx = int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
  a, c = rng.integers(-3, 4, (n, nx)).astype(float), rng.integers(-3, 4, (k, nx)).astype(float)
  b.sampler.record[('ensembles', '')] = str((a.tolist(), c.tolist()))
  import xarray as xr
  def want(x):
    u, v = np.sort(a[:, x]), np.sort(c[:, x])
    pts = np.sort(np.concatenate([u, v]))
    return sum((q - p) * abs((u <= p).mean() - (v <= p).mean()) for p, q in zip(pts[:-1], pts[1:]))
  b.ensures('distance', lambda: prob.WassersteinDistance('m').compute({'v': xr.DataArray(a, dims=['m', 'x'])}, {'v': xr.DataArray(c.T, dims=['x', 'm'])})['v'],
            lambda r: r.check('value', r.value.dims == ('x',) and np.allclose(r.value.values, [want(x) for x in range(nx)])))


@contract('crps.wasserstein-dims', cases=[dict(bad=k) for k in ('p', 't')])
def _(b, bad):
  b.dim('m'); b.dim('x')
  p, t = b.array('p', ['m', 'x']), b.array('t', ['x'])
  args = lambda: ({'v': t.da}, {'v': p.da}) if bad == 'p' else ({'v': p.da}, {'v': t.da})
  b.ensures('distance', lambda: prob.WassersteinDistance('m').compute(*args()), lambda r: r.raises('refused', ValueError))
