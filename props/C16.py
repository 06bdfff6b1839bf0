"""Fractions skill score."""
import numpy as np
from vc.contract import contract
from weatherbenchX.metrics import spatial

WIN = [dict(n=n, wrap=w, order=o) for n in (1, 3, 5) for w in (False, True) for o in ('ll', 'tll', 'lot', 'll-mask', 'lol-mask') if n < 5 or o in ('ll', 'lot')]
ORDERS = {'ll': ['latitude', 'longitude'], 'tll': ['time', 'latitude', 'longitude'], 'lot': ['longitude', 'time', 'latitude'],
          'll-mask': ['latitude', 'longitude'], 'lol-mask': ['longitude', 'latitude']}


def dims(b, lo=1, hi=7):
  b.dim('time', hi=2); b.dim('latitude', lo=lo, hi=hi); b.dim('longitude', lo=lo, hi=hi)


def inside(b, i, n, wrap):
  """The window around the point lies in the domain (longitude: or wraps)."""
  half = (n - 1) // 2
  y, x = b.index(i, 'latitude'), b.index(i, 'longitude')
  c = (y >= half) & (y < b.size('latitude') - half)
  return c if wrap else c & (x >= half) & (x < b.size('longitude') - half)


def window(b, i, n):
  half = (n - 1) // 2
  return [dict(latitude=b.wrap(i, 'latitude', dy), longitude=b.wrap(i, 'longitude', dx)) for dy in range(-half, half + 1) for dx in range(-half, half + 1)]


def fraction(b, h, i, n, wrap):
  """Mean of the field over the n x n window centred at the point; zero where the window leaves the domain."""
  if n == 1:
    return h[i]
  tot = b.f(0.0)
  for w in window(b, i, n):
    tot = tot + h(i, **w)
  return b.where(inside(b, i, n, wrap), tot / float(n * n), b.f(0.0))


def binary(rng, shape):
  return (rng.random(shape) < 0.5).astype(float)


TOL = (1e-5, 1e-6)


def fields(b, order, lo=1):
  dims(b, lo)
  d = ORDERS[order]
  return b.array('p', d, gen=binary), b.array('t', d, gen=binary)


@contract('fraction.statistics', cases=[c for c in WIN if 'mask' not in c['order']])
def _(b, n, wrap, order):
  """The three statistics at every point, for every grid size (also smaller than the window)."""
  p, t = fields(b, order)
  def run():
    m = spatial.FSS(n, wrap)
    return {k: s.compute({'v': p.da}, {'v': t.da})['v'] for k, s in m.statistics.items()}
  def post(r):
    D = [d for d in ORDERS[order] if d == 'time'] + ['latitude', 'longitude']
    r.check('names', set(r.value) == {'SquaredFractionsError', 'SquaredPredictionFraction', 'SquaredTargetFraction'})
    fp = lambda i: fraction(b, p, i, n, wrap)
    ft = lambda i: fraction(b, t, i, n, wrap)
    r.array('error', r.value['SquaredFractionsError'], D, lambda i: (fp(i) - ft(i)) * (fp(i) - ft(i)), tol=TOL)
    r.array('prediction', r.value['SquaredPredictionFraction'], D, lambda i: fp(i) * fp(i), tol=TOL)
    r.array('target', r.value['SquaredTargetFraction'], D, lambda i: ft(i) * ft(i), tol=TOL)
  b.ensures('statistics', run, post)


@contract('fraction.missing', cases=[dict(n=n, wrap=w) for n in (1, 3) for w in (False, True)])
def _(b, n, wrap):
  """A missing value makes exactly the fractions of the windows that contain it missing."""
  dims(b)
  p = b.array('p', ['latitude', 'longitude'], nan=True)
  b.ensures('fraction', lambda: spatial.neighborhood_averaging(p.da, n, wrap),
            lambda r: r.array('value', r.value, ['latitude', 'longitude'], lambda i: fraction(b, p, i, n, wrap), tol=TOL))


@contract('fraction.sizes', cases=[dict(sizes=s, wrap=w) for s in ([1, 3], [3], (3, 1)) for w in (False, True)])
def _(b, sizes, wrap):
  """A list of window sizes gives every size, along a labelled dimension, in the order of the list."""
  dims(b)
  p = b.array('p', ['latitude', 'longitude'], gen=binary)
  def post(r):
    for k, n in enumerate(sizes):
      r.array(f'size {n}', r.value.sel(neighborhood_size=n, drop=True), ['latitude', 'longitude'], lambda i: fraction(b, p, i, n, wrap), tol=TOL)
    r.check('labels', [int(x) for x in r.value['neighborhood_size'].values] == list(sizes))
  b.ensures('fraction', lambda: spatial.neighborhood_averaging(p.da, sizes, wrap), post)


@contract('fraction.even', cases=[dict(n=n) for n in (2, 4, 6)])
def _(b, n):
  """A window without a centre is refused."""
  b.dim('latitude', hi=5); b.dim('longitude', hi=5)
  p, t = b.array('p', ['latitude', 'longitude'], gen=binary), b.array('t', ['latitude', 'longitude'], gen=binary)
  b.ensures('refused', lambda: spatial.neighborhood_averaging(p.da, n), lambda r: r.raises('refused', ValueError))
  b.ensures('refused in the statistic', lambda: spatial.SquaredFractionsError(n).compute({'v': p.da}, {'v': t.da}), lambda r: r.raises('refused', ValueError))


@contract('fraction.mask', cases=[dict(n=n, wrap=w, order=o, mask_order=m) for n in (1, 3) for w in (False, True)
                                  for o, m in (('ll', 'll'), ('tll', 'll'), ('tll', 'tll'), ('lol', 'lol'), ('ll', 'lol'), ('lot', 'lot'), ('lot', 'lol'))])
def _(b, n, wrap, order, mask_order):
  """With a validity mask, a fraction is valid where the whole window is in the domain and valid; the data are as without one."""
  b.dim('time', hi=2); b.dim('latitude', hi=5); b.dim('longitude', hi=5)
  OD = {**ORDERS, 'lol': ['longitude', 'latitude']}
  p = b.array('p', OD[order], gen=binary)
  m = b.array('m', OD[mask_order], kind='b', gen=lambda rng, s: rng.random(s) < 0.85)
  D = [d for d in OD[order] if d == 'time'] + ['latitude', 'longitude']
  da = p.da.assign_coords(mask=m.da)
  before = None if b.symbolic else da.copy(deep=True)
  def valid(i):
    if n == 1:
      return m[i]
    ok = inside(b, i, n, wrap)
    for w in window(b, i, n):
      ok = ok & m(i, **w)
    return ok
  def post(r):
    r.array('value', r.value.drop_vars('mask'), D, lambda i: fraction(b, p, i, n, wrap), tol=TOL)
    mask = r.value.coords['mask']
    r.check('mask dims', set(mask.dims) == set(OD[mask_order]))
    r.array('mask', mask.drop_vars('mask'), list(mask.dims), lambda i: valid(i))
    if not r.symbolic:
      r.check('input unchanged', before.identical(da))
  b.ensures('fraction', lambda: spatial.neighborhood_averaging(da, n, wrap), post)


# The score


@contract('score.value')
def _(b):
  b.dim('x')
  e, p, t = b.array('e', ['x'], nan=True), b.array('p', ['x'], nan=True), b.array('t', ['x'], nan=True)
  for h in (p, t):
    b.assume_all(['x'], lambda i, h=h: b.isnan(h[i]) | (h[i] > 0.01))
  def run():
    return spatial.FSS(3).values_from_mean_statistics({'SquaredFractionsError': {'v': e.da}, 'SquaredPredictionFraction': {'v': p.da},
                                                       'SquaredTargetFraction': {'v': t.da}})['v']
  b.ensures('value', run, lambda r: r.array('value', r.value, ['x'], lambda i: 1.0 - e[i] / (p[i] + t[i])))


def scored(b, n, wrap, perfect):
  b.dim('latitude', hi=5); b.dim('longitude', hi=5)
  p = b.array('p', ['latitude', 'longitude'], gen=binary)
  t = p if perfect else b.array('t', ['latitude', 'longitude'], gen=binary)
  for h in (p, t):
    b.assume_all(['latitude', 'longitude'], lambda i, h=h: (h[i] >= 0.0) & (h[i] <= 1.0))
  def run():
    m = spatial.FSS(n, wrap)
    stats = {k: {kk: x.sum(['latitude', 'longitude'], skipna=False) for kk, x in s.compute({'v': p.da}, {'v': t.da}).items()} for k, s in m.statistics.items()}
    return m.values_from_mean_statistics(stats)['v'], stats
  return p, t, run


def sc(r, x):
  return x._fn({}) if r.symbolic else float(x)


@contract('score.range', cases=[dict(n=n, wrap=w) for n in (1, 3) for w in (False, True)])
def _(b, n, wrap):
  """At every point 0 <= squared difference <= squared fraction of the forecast + squared fraction of the target."""
  b.dim('latitude', hi=5); b.dim('longitude', hi=5)
  p, t = b.array('p', ['latitude', 'longitude'], gen=binary), b.array('t', ['latitude', 'longitude'], gen=binary)
  for h in (p, t):
    b.assume_all(['latitude', 'longitude'], lambda i, h=h: (h[i] >= 0.0) & (h[i] <= 1.0))
  def run():
    return {k: s.compute({'v': p.da}, {'v': t.da})['v'] for k, s in spatial.FSS(n, wrap).statistics.items()}
  def post(r):
    D = ['latitude', 'longitude']
    eps = b.f(0 if b.symbolic else 1e-6)
    fp, ft = (lambda i: fraction(b, p, i, n, wrap)), (lambda i: fraction(b, t, i, n, wrap))
    r.forall('fractions', D, lambda i: (fp(i) + eps >= 0.0) & (fp(i) <= eps + 1.0))
    r.forall('fractions of the target', D, lambda i: (ft(i) + eps >= 0.0) & (ft(i) <= eps + 1.0))
    r.array('error', r.value['SquaredFractionsError'], D, lambda i: (fp(i) - ft(i)) * (fp(i) - ft(i)), tol=TOL)
    r.array('prediction', r.value['SquaredPredictionFraction'], D, lambda i: fp(i) * fp(i), tol=TOL)
    r.array('target', r.value['SquaredTargetFraction'], D, lambda i: ft(i) * ft(i), tol=TOL)
  b.ensures('range', run, post)


@contract('score.range-total', cases=[dict(n=n, wrap=w) for n in (1, 3) for w in (False, True)])
def _(b, n, wrap):
  """Lemma: 0 <= total squared difference <= total of the squared fractions, so (score.value-range) 0 <= FSS <= 1."""
  p, t, run = scored(b, n, wrap, False)
  def post(r):
    v, stats = r.value
    E, P, T = [b.t(sc(r, stats[k]['v'])) for k in ('SquaredFractionsError', 'SquaredPredictionFraction', 'SquaredTargetFraction')]
    eps = b.f(0 if b.symbolic else 1e-6)
    r.holds('at least zero', E + eps >= 0)
    r.holds('fractions', (P + eps >= 0) & (T + eps >= 0))
    r.holds('at most', E <= P + T + eps)
    if not r.symbolic and float(P + T) > 1e-6:
      r.check('range', -1e-6 <= float(sc(r, v)) <= 1 + 1e-6)
  b.ensures('range', run, post)


@contract('score.value-range')
def _(b):
  b.dim('x')
  e, p, t = b.array('e', ['x']), b.array('p', ['x']), b.array('t', ['x'])
  b.assume_all(['x'], lambda i: (e[i] >= 0.0) & (p[i] >= 0.0) & (t[i] >= 0.0) & (e[i] <= p[i] + t[i]) & (p[i] + t[i] > 0.01))
  def run():
    return spatial.FSS(3).values_from_mean_statistics({'SquaredFractionsError': {'v': e.da}, 'SquaredPredictionFraction': {'v': p.da},
                                                       'SquaredTargetFraction': {'v': t.da}})['v']
  def post(r):
    h = 1.0 if r.symbolic else 1.0 + 1e-9
    r.array('value', r.value, ['x'], lambda i: 1.0 - e[i] / (p[i] + t[i]))
    r.forall('range', ['x'], lambda i: (1.0 - e[i] / (p[i] + t[i]) >= 1.0 - h) & (1.0 - e[i] / (p[i] + t[i]) <= h))
  b.ensures('value', run, post)


@contract('score.perfect', cases=[dict(n=n, wrap=w) for n in (1, 3) for w in (False, True)])
def _(b, n, wrap):
  """A perfect forecast scores one (undefined when there is no event)."""
  p, t, run = scored(b, n, wrap, True)
  def post(r):
    v, stats = r.value
    v, P = sc(r, v), sc(r, stats['SquaredPredictionFraction']['v'])
    eps = b.f(0 if b.symbolic else 1e-6)
    r.holds('one', abs(b.t(v) - b.f(1.0)) <= eps, given=b.t(P) > eps)
  b.ensures('perfect', run, post)
