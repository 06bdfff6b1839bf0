"""Grid-cell area weights are the area fractions of the latitude bands."""
import numpy as np
from vc.contract import contract
from weatherbenchX import weighting

TRUSTED = ['sin: axioms oddness, strict monotonicity on [-pi/2, pi/2], |sin| <= 1, sin(pi/2) = 1']


def lat_gen(sign):
  def gen(rng, shape):
    n = shape[0]
    if rng.random() < 0.3 and n >= 2:
      v = np.linspace(-90, 90, n) if rng.random() < 0.5 else np.linspace(-90 + 90 / n, 90 - 90 / n, n)
    else:
      v = np.sort(rng.choice(np.arange(-90, 90.25, 0.25), n, replace=False))
      if rng.random() < 0.3:
        v[0] = -90
      if rng.random() < 0.3:
        v[-1] = 90
    return v[::sign].copy()
  return gen


def setup(b, sign, name='latitude', lo=2, hi=5):
  b.dim(name, lo=lo, hi=hi)
  n = b.size(name)
  lat = b.coord(name, [name], gen=lat_gen(sign))
  b.assume_all([name], lambda i: (lat[i] >= -90) & (lat[i] <= 90))
  b.assume_all({'i': name, 'j': name}, lambda v: b.where(_lt(b, v['i'], v['j']), (lat({name: v['j']}) - lat({name: v['i']})) * sign > 0, b.true()))
  return lat


def _lt(b, i, j):
  return b.t(i < j) if not b.symbolic else b.t(_sb(i < j))


def _sb(z):
  from vc.terms import SV
  return z if isinstance(z, bool) else SV('b', z)


def edge(b, lat, name, sign, n):
  """Edge k (0..n) of the bands, in radians; k and n as index expressions."""
  rad = lambda k: b.deg2rad(lat({name: k}))
  half = b.f(np.pi / 2) if not b.symbolic else _pi2()
  def e(k):
    mid = lambda: (rad(k - 1) + rad(k)) / 2
    first = lambda: rad(0) - (rad(1) - rad(0)) / 2
    last = lambda: rad(n - 1) + (rad(n - 1) - rad(n - 2)) / 2
    clip = lambda x: b.max2(b.min2(x, half), -half)
    if b.symbolic:
      return b.where(_eq(k, 0), clip(first()), b.where(_eq(k, n), clip(last()), mid()))
    return clip(first()) if k == 0 else clip(last()) if k == n else mid()
  return e


def _eq(k, n):
  from vc.terms import SV
  import z3
  r = z3.simplify(k == n) if z3.is_expr(k) or z3.is_expr(n) else (k == n)
  return SV('b', r) if z3.is_expr(r) else SV.of(bool(r))


def _pi2():
  from vc import terms as T
  from vc.terms import SV
  return SV('f', T.PI / 2)


def _n(b, name):
  return b.doms[name].size if b.symbolic else b.sizes[name]


@contract('area.weights', cases=[dict(sign=s) for s in (1, -1)])
def _(b, sign):
  """Unnormalised: sin(upper edge) - sin(lower edge) of each row's band, on the same labels."""
  b.dim('x')
  lat = setup(b, sign)
  s = b.array('s', ['latitude', 'x'], nan=True)
  e = edge(b, lat, 'latitude', sign, _n(b, 'latitude'))
  def spec(i):
    k = i['latitude']
    return (b.sin(e(k + 1)) - b.sin(e(k))) * sign
  def post(r):
    r.array('weights', r.value, ['latitude'], spec)
    r.forall('non-negative', ['latitude'], lambda i: _at(r, r.value, i) >= b.f(0 if b.symbolic else -1e-12))
    r.telescopes('total', r.value, 'latitude', lambda k: b.sin(e(k)) * sign)
  b.ensures('weights', lambda: weighting.GridAreaWeighting(return_normalized=False).weights(s.da), post)


def _at(r, da, i):
  return da.at(i) if r.symbolic else da.isel({d: i[d] for d in da.dims}).values[()]


@contract('area.normalised', cases=[dict(sign=s) for s in (1, -1)])
def _(b, sign):
  """Normalised: proportional to the band areas with mean one."""
  b.dim('x')
  lat = setup(b, sign, name='lat')
  s = b.array('s', ['x', 'lat'], nan=True)
  e = edge(b, lat, 'lat', sign, _n(b, 'lat'))
  area = lambda i: (b.sin(e(i['lat'] + 1)) - b.sin(e(i['lat']))) * sign
  def post(r):
    r.array('weights', r.value, ['lat'], lambda i: area(i) / (b.sum(i, ['lat'], area) / b.size('lat')))
  b.ensures('weights', lambda: weighting.GridAreaWeighting(latitude_name='lat').weights(s.da), post)


@contract('area.mean-one', cases=[dict(sign=s) for s in (1, -1)], mode='bounded',
          note='mean one follows from area.normalised and area.positive-total; this runs it end to end')
def _(b, sign):
  lat = setup(b, sign, name='lat')
  s = b.array('s', ['lat'], nan=True)
  b.ensures('mean-one', lambda: weighting.GridAreaWeighting(latitude_name='lat').weights(s.da).mean(),
            lambda r: r.array('mean', r.value, [], lambda i: b.f(1)))


@contract('area.positive-total', cases=[dict(sign=s) for s in (1, -1)])
def _(b, sign):
  """Every band inside the poles has strictly positive area, so the normaliser is positive."""
  lat = setup(b, sign)
  s = b.array('s', ['latitude'])
  def post(r):
    r.forall('positive', ['latitude'], lambda i: _at(r, r.value, i) > 0)
  b.ensures('weights', lambda: weighting.GridAreaWeighting(return_normalized=False).weights(s.da), post)


@contract('area.flip-normalised', mode='bounded', note='follows from area.normalised for both orders; run end to end')
def _(b):
  flip(b, True)


@contract('area.flip')
def _(b):
  flip(b, False)


def flip(b, norm):
  """Reversing the grid reverses the weights."""
  lat = setup(b, 1)
  s = b.array('s', ['latitude'])
  def run():
    w = weighting.GridAreaWeighting(return_normalized=norm)
    return w.weights(s.da), w.weights(s.da.isel(latitude=slice(None, None, -1))).isel(latitude=slice(None, None, -1))
  def post(r):
    a, c = r.value
    r.forall('same', ['latitude'], lambda i: b.same(_at(r, a, i), _at(r, c, i)))
  b.ensures('flip', run, post)


@contract('area.rejects')
def _(b):
  """A latitude vector that is not strictly monotonic is rejected."""
  b.dim('latitude', lo=3, hi=5)
  lat = b.coord('latitude', ['latitude'], gen=lambda rng, sh: rng.choice([-30.0, 0.0, 10.0, 30.0], sh))
  s = b.array('s', ['latitude'])
  L = lambda k: lat({'latitude': k})
  b.assume((L(1) - L(0)) * (L(2) - L(1)) <= 0)
  b.ensures('weights', lambda: weighting.GridAreaWeighting().weights(s.da), lambda r: r.raises('rejected', AssertionError, ValueError))


@contract('area.no-latitude')
def _(b):
  b.dim('x'); b.dim('latitude', lo=2)
  lat = b.array('latc', ['x'], coords=False)
  s = b.array('s', ['x'])
  t = b.array('t', ['latitude'])
  b.ensures('scalar', lambda: weighting.GridAreaWeighting().weights(s.da), lambda r: r.array('one', r.value, [], lambda i: b.f(1)))
  b.ensures('coordinate-only', lambda: weighting.GridAreaWeighting().weights(s.da.assign_coords(latitude=('x', latc_values(b, lat)))),
            lambda r: r.array('one', r.value, [], lambda i: b.f(1)))
  b.ensures('other-name', lambda: weighting.GridAreaWeighting(latitude_name='lat').weights(t.da),
            lambda r: r.array('one', r.value, [], lambda i: b.f(1)))


def latc_values(b, lat):
  return lat.da.data


@contract('area.integer-latitudes', mode='bounded', samples=30, note='integer latitude coordinates')
def _(b):
  lat = np.sort(b.rng.choice(np.arange(-90, 91, 5), b.rng.integers(2, 6), replace=False))
  import xarray
  mk = lambda dt: xarray.DataArray(np.zeros(len(lat)), dims='latitude', coords={'latitude': lat.astype(dt)})
  b.sampler.record[('lat', '')] = str(lat)
  b.ensures('w', lambda: (weighting.GridAreaWeighting().weights(mk('int64')), weighting.GridAreaWeighting().weights(mk('float64'))),
            lambda r: r.check('same', np.allclose(r.value[0].values, r.value[1].values)))
