"""Interpolation to fixed and reference coordinates."""
import numpy as np
from props.common import one
from vc.contract import contract
from weatherbenchX import interpolations as ip

TRUSTED = [
    'the linear and nearest interpolation of xarray/scipy (SymDataArray.interp in vc/sxr.py): the blend of the two labels around the '
    'target (of the two labels at the end outside), dimension by dimension or jointly where targets share a dimension; the value at a '
    'nearest label; missing outside unless the option of the interpolator used asks for extrapolation; exactly at a label, a missing '
    'neighbour may or may not make the result missing',
]
ASSUMPTIONS = [
    'grid labels are distinct finite numbers in ascending or descending order, targets are finite; wrapping assumes ascending longitudes spanning less than 360 degrees',
]

NAN = float('nan')
ORDER = ('up', 'down')


def grid(b, dim, order='up', lo=2, hi=4):
  """A coordinate with strictly monotonic labels."""
  b.dim(dim, lo=lo, hi=hi)
  sign = 1.0 if order == 'up' else -1.0
  def gen(rng, shape):
    x = np.cumsum(rng.integers(1, 5, shape)).astype(float) * 3.0 - 10.0
    return x if order == 'up' else x[::-1].copy()
  c = b.coord(dim, dim, gen=gen)
  b.assume_all({'i': dim, 'j': dim}, lambda k: ~(b.index(k, 'i') < b.index(k, 'j')) | (sign * c({dim: k['i']}) < sign * c({dim: k['j']})))
  return c


def targets(b, name, dim):
  """Any targets: between labels, at labels, outside."""
  return b.array(name, [dim], coords=False, gen=lambda rng, shape: rng.integers(-16, 40, shape) / 2.0)


def off_grid(b, c, dim, q, qdim):
  b.assume_all({'i': dim, 't': qdim}, lambda k: ~b.eq(c({dim: k['i']}), q({qdim: k['t']})))


def cell(b, c, dim, k, q, edge):
  """q lies in the cell from label k to label k + 1 (with `edge`: or beyond it, at the end)."""
  lo, hi = c({dim: k}), c({dim: k + 1})
  kk = b.index({dim: k}, dim)
  last = kk + 2.0 >= b.size(dim)
  up = b.min2(lo, hi), b.max2(lo, hi)
  first_at_low = lo < hi
  low_end = (first_at_low & (kk < 1.0)) | (~first_at_low & last)
  high_end = (first_at_low & last) | (~first_at_low & (kk < 1.0))
  inside = (up[0] <= q) & (q <= up[1])
  if not edge:
    return inside
  return ((up[0] <= q) | low_end) & ((q <= up[1]) | high_end)


def valid(b, dim, k):
  return b.index({dim: k}, dim) + 1.0 < b.size(dim)


def imp(b, *args):
  """The last argument (a thunk) holds where the conditions (thunks) before it hold, each evaluated only where those before it hold."""
  ok = b.true()
  for c in args[:-1]:
    if not b.symbolic and not bool(ok):
      return b.true()
    ok = ok & c()
  if not b.symbolic and not bool(ok):
    return b.true()
  return ~ok | args[-1]()


def weight(b, c, dim, k, q):
  lo, hi = c({dim: k}), c({dim: k + 1})
  return (q - lo) / (hi - lo)


def outside(b, c, dim, q):
  return b.all({}, {'k': dim}, lambda j: c({dim: j['k']}) < q) | b.all({}, {'k': dim}, lambda j: c({dim: j['k']}) > q)


def ref_for(b, route, method, dim, q, qdim, extra):
  """The interpolation of one dimension by each route, and the name of the target dimension in the result."""
  if route == 'fixed-array':
    return ip.InterpolateToFixedCoords(method, {dim: q.da.values}, extrapolate_out_of_bounds=extra), None, dim
  if route == 'fixed-points':
    return ip.InterpolateToFixedCoords(method, {dim: q.da}, extrapolate_out_of_bounds=extra), None, qdim
  if route == 'reference-grid':
    ref = q.da.rename({qdim: dim})
    ref = ref.assign_coords({dim: ref})
    return ip.InterpolateToReferenceCoords(method, extrapolate_out_of_bounds=extra), ref, dim
  ref = q.da.assign_coords({dim: q.da})
  return ip.InterpolateToReferenceCoords(method, [dim] if route == 'reference-dims' else None, extrapolate_out_of_bounds=extra), ref, qdim


ROUTES = ('fixed-array', 'fixed-points', 'reference-grid', 'reference-points', 'reference-dims')


@contract('linear.1d', cases=[dict(route=r, extra=e, order=o, nan=n) for r in ROUTES for e in (True, False) for o in ORDER for n in (False, True)
                              if (o == 'up' and not n) or r in ('fixed-points', 'reference-grid')])
def _(b, route, extra, order, nan):
  """The blend of the labels around each target; the line through the last two labels outside (or missing)."""
  c = grid(b, 'x', order)
  b.dim('m', hi=2); b.dim('t', lo=1, hi=4)
  v = b.array('v', ['m', 'x'], nan=nan)
  q = targets(b, 'q', 't')
  if nan:
    off_grid(b, c, 'x', q, 't')
  def run():
    f, ref, _ = ref_for(b, route, 'linear', 'x', q, 't', extra)
    return f.interpolate_data_array(v.da, ref)
  def post(r):
    da = r.value
    d = 'x' if route in ('fixed-array', 'reference-grid') else 't'
    r.check('dims', set(da.dims) == {'m', d})
    def at(j):
      return b.read(da, {'m': j['m'], d: j['t']})
    def blend(j):
      k, y = j['k'], q({'t': j['t']})
      w = weight(b, c, 'x', k, y)
      return (1.0 - w) * v({'m': j['m'], 'x': k}) + w * v({'m': j['m'], 'x': k + 1})
    r.forall('blend', {'m': 'm', 't': 't', 'k': 'x'}, lambda j: imp(
        b, lambda: valid(b, 'x', j['k']), lambda: cell(b, c, 'x', j['k'], q({'t': j['t']}), extra), lambda: b.same(at(j), blend(j))))
    if not extra:
      r.forall('outside', {'m': 'm', 't': 't'}, lambda j: ~outside(b, c, 'x', q({'t': j['t']})) | b.isnan(at(j)))
    if not nan:
      r.forall('at-labels', {'m': 'm', 't': 't', 'k': 'x'}, lambda j: ~b.eq(q({'t': j['t']}), c({'x': j['k']})) | b.same(at(j), v({'m': j['m'], 'x': j['k']})))
    r.forall('coordinate', {'t': 't'}, lambda j: b.same(b.read(da.coords['x'], {d: j['t']}), q({'t': j['t']})))
  b.ensures('interpolated', run, post)


@contract('nearest.1d', cases=[dict(route=r, extra=e, order=o) for r in ROUTES for e in (True, False) for o in ORDER if o == 'up' or r == 'fixed-points'])
def _(b, route, extra, order):
  """A value at a label nearest to the target (missing only where that value is)."""
  c = grid(b, 'x', order)
  b.dim('m', hi=2); b.dim('t', lo=1, hi=4)
  v = b.array('v', ['m', 'x'], nan=True)
  q = targets(b, 'q', 't')
  def run():
    f, ref, _ = ref_for(b, route, 'nearest', 'x', q, 't', extra)
    return f.interpolate_data_array(v.da, ref)
  def post(r):
    da = r.value
    d = 'x' if route in ('fixed-array', 'reference-grid') else 't'
    r.check('dims', set(da.dims) == {'m', d})
    at = lambda j: b.read(da, {'m': j['m'], d: j['t']})
    def near(j):
      y, k = q({'t': j['t']}), c({'x': j['k']})
      return b.all({}, {'o': 'x'}, lambda o: b.eq(o['o'] * 1.0, j['k'] * 1.0) | (abs(k - y) < abs(c({'x': o['o']}) - y)))
    ok = lambda j: near(j) & (b.true() if extra else ~outside(b, c, 'x', q({'t': j['t']})))
    r.forall('value', {'m': 'm', 't': 't', 'k': 'x'}, lambda j: ~ok(j) | b.same(at(j), v({'m': j['m'], 'x': j['k']})))
    if not extra:
      r.forall('outside', {'m': 'm', 't': 't'}, lambda j: ~outside(b, c, 'x', q({'t': j['t']})) | b.isnan(at(j)))
  b.ensures('interpolated', run, post)


# Two dimensions: targets may share a dimension (points) or not (a target grid)

PLANE = [dict(route=r, extra=e, nan=n) for r in ('points', 'grid', 'reference-points', 'reference-grid', 'mixed') for e in (True, False) for n in (False, True)
         if not n or r in ('points', 'grid')]


def plane(b, route, method, p, q, extra):
  """Interpolation of (latitude, longitude) by each route; result dimensions."""
  lat, lon = p.da, q.da
  fixed = lambda coords: (ip.InterpolateToFixedCoords(method, coords, extrapolate_out_of_bounds=extra), None)
  if route == 'points':
    return (*fixed({'latitude': lat, 'longitude': lon}), dict(latitude='t', longitude='t'))
  if route == 'mixed':
    return (*fixed({'latitude': lat, 'longitude': lon.values}), dict(latitude='t', longitude='longitude'))
  if route == 'grid':
    return (*fixed({'latitude': lat.values, 'longitude': lon.values}), dict(latitude='latitude', longitude='longitude'))
  f = ip.InterpolateToReferenceCoords(method, extrapolate_out_of_bounds=extra)
  if route == 'reference-points':
    return f, (lat + lon).assign_coords(latitude=lat, longitude=lon), dict(latitude='t', longitude='t')
  lat, lon = lat.rename(t='latitude'), lon.rename({q.dims[0]: 'longitude'})
  ref = (lat + lon).assign_coords(latitude=lat, longitude=lon)
  return f, ref, dict(latitude='latitude', longitude='longitude')


def plane_case(b, route, extra, nan, method):
  y = grid(b, 'latitude', hi=3)
  x = grid(b, 'longitude', hi=3)
  b.dim('t', lo=1, hi=3)
  p = targets(b, 'p', 't')
  if route in ('points', 'reference-points'):
    u = 't'
  else:
    b.dim('u', lo=1, hi=3)
    u = 'u'
  q = targets(b, 'q', u)
  v = b.array('v', ['latitude', 'longitude'], nan=nan)
  if nan:
    off_grid(b, y, 'latitude', p, 't')
    off_grid(b, x, 'longitude', q, u)
  def run():
    f, ref, dims = plane(b, route, method, p, q, extra)
    return f.interpolate_data_array(v.da, ref), dims
  return y, x, p, q, v, u, run


def points(u, **more):
  """Quantified target positions."""
  return {'t': 't', **({'u': 'u'} if u == 'u' else {}), **more}


@contract('linear.2d', cases=PLANE)
def _(b, route, extra, nan):
  """The bilinear blend of the four labels around each target; the same plane outside (or missing)."""
  y, x, p, q, v, u, run = plane_case(b, route, extra, nan, 'linear')
  def post(r):
    da, dims = r.value
    r.check('dims', set(da.dims) == set(dims.values()))
    py = lambda j: p({'t': j['t']})
    qx = lambda j: q({u: j[u]})
    at = lambda j: b.read(da, {dims['latitude']: j['t'], dims['longitude']: j[u]})
    def blend(j):
      k, l = j['k'], j['l']
      w, z = weight(b, y, 'latitude', k, py(j)), weight(b, x, 'longitude', l, qx(j))
      g = lambda dk, dl: v({'latitude': k + dk, 'longitude': l + dl})
      return (1.0 - w) * ((1.0 - z) * g(0, 0) + z * g(0, 1)) + w * ((1.0 - z) * g(1, 0) + z * g(1, 1))
    r.forall('blend', points(u, k='latitude', l='longitude'), lambda j: imp(
        b, lambda: valid(b, 'latitude', j['k']) & valid(b, 'longitude', j['l']),
        lambda: cell(b, y, 'latitude', j['k'], py(j), extra) & cell(b, x, 'longitude', j['l'], qx(j), extra),
        lambda: b.same(at(j), blend(j))))
    if not extra:
      r.forall('outside', points(u), lambda j: ~(outside(b, y, 'latitude', py(j)) | outside(b, x, 'longitude', qx(j))) | b.isnan(at(j)))
  b.ensures('interpolated', run, post)


@contract('nearest.2d', cases=[c for c in PLANE if not c['nan']])
def _(b, route, extra, nan):
  """The value at a label nearest in latitude and in longitude."""
  y, x, p, q, v, u, run = plane_case(b, route, extra, nan, 'nearest')
  def post(r):
    da, dims = r.value
    py = lambda j: p({'t': j['t']})
    qx = lambda j: q({u: j[u]})
    at = lambda j: b.read(da, {dims['latitude']: j['t'], dims['longitude']: j[u]})
    def near(c, dim, k, t):
      d = abs(c({dim: k}) - t)
      return b.all({}, {'o': dim}, lambda o: b.eq(o['o'] * 1.0, k * 1.0) | (d < abs(c({dim: o['o']}) - t)))
    out = lambda j: outside(b, y, 'latitude', py(j)) | outside(b, x, 'longitude', qx(j))
    r.forall('value', points(u, k='latitude', l='longitude'), lambda j: imp(
        b, lambda: near(y, 'latitude', j['k'], py(j)) & near(x, 'longitude', j['l'], qx(j)) & (b.true() if extra else ~out(j)),
        lambda: b.same(at(j), v({'latitude': j['k'], 'longitude': j['l']}))))
    if not extra:
      r.forall('outside', points(u), lambda j: ~out(j) | b.isnan(at(j)))
  b.ensures('interpolated', run, post)


# Wrapped longitudes

@contract('linear.wrapped', cases=[dict(route=r, extra=e, nan=n) for r in ('fixed', 'reference') for e in (True, False) for n in (False, True)])
def _(b, route, extra, nan):
  """Between the last longitude and the first one of the next turn, the blend of these two."""
  b.dim('longitude', lo=2, hi=4)
  c = b.coord('longitude', 'longitude', gen=lambda rng, shape: np.cumsum(rng.integers(1, 7, shape)) * 12.0 - float(rng.choice([12.0, 180.0, 0.0])))
  b.assume_all({'i': 'longitude', 'j': 'longitude'}, lambda k: ~(b.index(k, 'i') < b.index(k, 'j')) | (c({'longitude': k['i']}) < c({'longitude': k['j']})))
  b.assume_all({'i': 'longitude', 'j': 'longitude'}, lambda k: c({'longitude': k['i']}) - c({'longitude': k['j']}) < 360.0)
  b.dim('t', lo=1, hi=4)
  q = b.array('q', ['t'], coords=False, gen=lambda rng, shape: rng.integers(-40, 80, shape) * 6.0)
  v = b.array('v', ['longitude'], nan=nan)
  if nan:
    b.assume_all({'i': 'longitude', 't': 't'}, lambda k: ~(b.eq(c({'longitude': k['i']}), q({'t': k['t']})) | b.eq(c({'longitude': k['i']}) + 360.0, q({'t': k['t']})) | b.eq(c({'longitude': k['i']}) - 360.0, q({'t': k['t']}))))
  def run():
    if route == 'fixed':
      return ip.InterpolateToFixedCoords('linear', {'longitude': q.da}, wrap_longitude=True, extrapolate_out_of_bounds=extra).interpolate_data_array(v.da)
    ref = q.da.assign_coords(longitude=q.da)
    return ip.InterpolateToReferenceCoords('linear', wrap_longitude=True, extrapolate_out_of_bounds=extra).interpolate_data_array(v.da, ref)
  def post(r):
    da = r.value
    r.check('dims', set(da.dims) == {'t'})
    at = lambda j: b.read(da, {'t': j['t']})
    n = b.pysize('longitude')
    n = n.zi if b.symbolic and hasattr(n, 'zi') else n
    first, last = c({'longitude': 0}), c({'longitude': n - 1})
    y = lambda j: q({'t': j['t']})
    def inner(j):
      w = weight(b, c, 'longitude', j['k'], y(j))
      return (1.0 - w) * v({'longitude': j['k']}) + w * v({'longitude': j['k'] + 1})
    r.forall('inside', {'t': 't', 'k': 'longitude'}, lambda j: imp(
        b, lambda: valid(b, 'longitude', j['k']), lambda: cell(b, c, 'longitude', j['k'], y(j), False), lambda: b.same(at(j), inner(j))))
    def seam(j, shift):
      w = (y(j) + shift - last) / (first + 360.0 - last)
      return (1.0 - w) * v({'longitude': n - 1}) + w * v({'longitude': 0})
    r.forall('seam-above', {'t': 't'}, lambda j: imp(b, lambda: (last <= y(j)) & (y(j) <= first + 360.0), lambda: b.same(at(j), seam(j, 0.0))))
    r.forall('seam-below', {'t': 't'}, lambda j: imp(b, lambda: (last - 360.0 <= y(j)) & (y(j) <= first), lambda: b.same(at(j), seam(j, 360.0))))
    if not extra:
      r.forall('beyond', {'t': 't'}, lambda j: ~((y(j) < last - 360.0) | (y(j) > first + 360.0)) | b.isnan(at(j)))
  b.ensures('interpolated', run, post)


@contract('nearest.wrapped', cases=[dict(extra=e) for e in (True, False)])
def _(b, extra):
  """On the circle, the value at a nearest longitude."""
  b.dim('longitude', lo=2, hi=4)
  c = b.coord('longitude', 'longitude', gen=lambda rng, shape: np.cumsum(rng.integers(1, 7, shape)) * 12.0 - float(rng.choice([12.0, 180.0, 0.0])))
  b.assume_all({'i': 'longitude', 'j': 'longitude'}, lambda k: ~(b.index(k, 'i') < b.index(k, 'j')) | (c({'longitude': k['i']}) < c({'longitude': k['j']})))
  b.assume_all({'i': 'longitude', 'j': 'longitude'}, lambda k: c({'longitude': k['i']}) - c({'longitude': k['j']}) < 360.0)
  b.dim('t', lo=1, hi=4)
  q = b.array('q', ['t'], coords=False, gen=lambda rng, shape: rng.integers(-40, 80, shape) * 6.0)
  n = b.pysize('longitude')
  n = n.zi if b.symbolic and hasattr(n, 'zi') else n
  first, last = c({'longitude': 0}), c({'longitude': n - 1})
  b.assume_all(['t'], lambda k: (last - 360.0 <= q(k)) & (q(k) <= first + 360.0))
  v = b.array('v', ['longitude'], nan=True)
  def run():
    return ip.InterpolateToFixedCoords('nearest', {'longitude': q.da}, wrap_longitude=True, extrapolate_out_of_bounds=extra).interpolate_data_array(v.da)
  def arc(b, k, t):
    d = abs(c({'longitude': k}) - t)
    return b.min2(d, b.min2(abs(c({'longitude': k}) + 360.0 - t), abs(c({'longitude': k}) - 360.0 - t)))
  def post(r):
    da = r.value
    r.forall('value', {'t': 't', 'k': 'longitude'}, lambda j: imp(
        b, lambda: b.all({}, {'o': 'longitude'}, lambda o: b.eq(o['o'] * 1.0, j['k'] * 1.0) | (arc(b, j['k'], q({'t': j['t']})) < arc(b, o['o'], q({'t': j['t']})))),
        lambda: b.same(b.read(da, {'t': j['t']}), v({'longitude': j['k']}))))
  b.ensures('interpolated', run, post)


# Altitude adjustment

LAPSE = -0.0065


def station_case(b, name, method, wrap=False, lead=False, nan=False):
  y = grid(b, 'latitude', hi=3)
  b.dim('longitude', lo=2, hi=3)
  x = b.coord('longitude', 'longitude', gen=lambda rng, shape: np.cumsum(rng.integers(1, 7, shape)) * 12.0)
  b.assume_all({'i': 'longitude', 'j': 'longitude'}, lambda k: ~(b.index(k, 'i') < b.index(k, 'j')) | (x({'longitude': k['i']}) < x({'longitude': k['j']})))
  b.assume_all({'i': 'longitude', 'j': 'longitude'}, lambda k: x({'longitude': k['i']}) - x({'longitude': k['j']}) < 360.0)
  b.dim('t', lo=1, hi=3)
  p = targets(b, 'p', 't')
  q = targets(b, 'q', 't')
  dims = ['latitude', 'longitude']
  if lead:
    b.dim('lead', hi=2)
    dims = ['lead'] + dims
  v = b.array('v', dims, da_name=name, gen=lambda rng, shape: rng.integers(0, 40, shape) / 4.0)
  ground = b.array('ground', ['latitude', 'longitude'], gen=lambda rng, shape: rng.integers(-20, 200, shape) * 10.0)
  height = b.array('height', ['t'], nan=True, coords=False, gen=lambda rng, shape: np.where(rng.random(shape) < 0.2, np.nan, rng.integers(-50, 300, shape) * 10.0))
  obs = b.array('obs', ['t'], coords=False)
  def ref():
    return obs.da.assign_coords(latitude=p.da, longitude=q.da, elevation=height.da)
  return y, x, p, q, v, ground, height, dims, ref


STATIONS = [dict(name=n, method=m, wrap=w, limit=l) for n in ('2m_temperature', '10m_wind_speed', 'other') for m in ('linear', 'nearest')
            for w in (False, True) for l in (None, 500.0) if l is None or not w]


@contract('altitude', cases=STATIONS)
def _(b, name, method, wrap, limit):
  """Temperature is shifted by the lapse rate times the height difference, wind scaled by its factor, other variables left alone."""
  y, x, p, q, v, ground, height, dims, ref = station_case(b, name, method, lead=True)
  if limit is not None:
    lim = b.scalar('limit', gen=lambda rng: float(rng.integers(1, 200) * 10))
    b.assume(lim.s > 0.0)
  def run():
    da, reference, g = v.da, ref(), ground.da
    before = set(da.coords)
    more = {} if limit is None else {'max_alititude_diff_in_m': lim.val}
    f = ip.GridToSparseWithAltitudeAdjustment(method, g, wrap_longitude=wrap, **more)
    out = f.interpolate_data_array(da, reference)
    plain = ip.InterpolateToReferenceCoords(method, wrap_longitude=wrap)
    return out, plain.interpolate_data_array(da, reference), plain.interpolate_data_array(g, reference), before == set(da.coords)
  top = lim.s if limit is not None else b.f(1500.0)
  def post(r):
    out, base, soil, same = r.value
    r.check('input-untouched', same)
    r.check('dims', set(out.dims) == {'lead', 't'})
    def want(j):
      w = b.read(base, {'lead': j['lead'], 't': j['t']})
      d = height({'t': j['t']}) - b.read(soil, {'t': j['t']})
      d = b.where(abs(d) < top, d, b.f(0.0))
      if name == '2m_temperature':
        return w + LAPSE * d
      if name == '10m_wind_speed':
        return w * b.where(d < 100.0, b.f(1.0), b.where(d < 1100.0, 1.0 + 0.002 * (d - 100.0), b.f(3.0)))
      return w
    r.forall('adjusted', ['lead', 't'], lambda j: b.same(b.read(out, {'lead': j['lead'], 't': j['t']}), want(j)))
  b.ensures('adjusted', run, post)


# Which dimensions are interpolated, and references without data

@contract('reference.dims', cases=[dict(explicit=e) for e in (False, True)])
def _(b, explicit):
  """All dimensions the reference has a coordinate for (or the given ones) are interpolated, others kept."""
  c = grid(b, 'x')
  b.dim('m', hi=2)
  z = b.coord('z', 'm', gen=lambda rng, shape: np.arange(shape[0]) * 1.0)
  b.dim('t', hi=3)
  q = targets(b, 'q', 't')
  v = b.array('v', ['m', 'x'])
  def run():
    ref = q.da.assign_coords(x=q.da, z=2.0)
    g = ip.InterpolateToReferenceCoords('linear', dims=['x'] if explicit else None)
    return g.interpolate_data_array(v.da, ref), ip.InterpolateToFixedCoords('linear', {'x': q.da}).interpolate_data_array(v.da)
  def post(r):
    da, want = r.value
    r.array('value', da, ['m', 't'], lambda i: b.read(want, i), coords=False)
  b.ensures('interpolated', run, post)


@contract('reference.empty', cases=[dict(kind=k) for k in ('plain', 'temperature', 'other')])
def _(b, kind):
  """Without reference points the result is empty, with the dimensions that are not interpolated kept."""
  grid(b, 'latitude', hi=3)
  grid(b, 'longitude', hi=3)
  b.dim('m', hi=2)
  b.coord('m', 'm', gen=lambda rng, shape: np.arange(shape[0]) * 1.0 + 5.0)
  b.dim('t', size=0)
  v = b.array('v', ['latitude', 'm', 'longitude'], da_name='2m_temperature' if kind == 'temperature' else 'v')
  g = b.array('g', ['latitude', 'longitude'])
  e = b.array('e', ['t'], coords=False)
  def run():
    ref = e.da.assign_coords(latitude=e.da, longitude=e.da, elevation=e.da)
    if kind == 'plain':
      return ip.InterpolateToReferenceCoords('linear').interpolate_data_array(v.da, ref)
    return ip.GridToSparseWithAltitudeAdjustment('linear', g.da).interpolate_data_array(v.da, ref)
  def post(r):
    r.array('empty', r.value, ['m', 't'], lambda i: b.f(0.0), coords=False)
    r.check('kept', 'm' in r.value.coords)
  b.ensures('empty', run, post)


# Sequences, subsampling, datasets

@contract('sequence')
def _(b):
  """Interpolations of a sequence are applied in its order."""
  grid(b, 'x')
  b.dim('t', hi=3); b.dim('u', hi=2)
  q, w = targets(b, 'q', 't'), targets(b, 'w', 'u')
  v = b.array('v', ['x'])
  def run():
    coarse = ip.InterpolateToFixedCoords('nearest', {'x': w.da.values})
    fine = ip.Subsample(['x', 'absent'], 1)
    f = ip.MultipleInterpolation([fine, coarse, ip.InterpolateToReferenceCoords('nearest', dims=['x'])])
    ref = q.da.assign_coords(x=q.da)
    one = coarse.interpolate_data_array(fine.interpolate_data_array(v.da))
    return f.interpolate_data_array(v.da, ref), ip.InterpolateToReferenceCoords('nearest', dims=['x']).interpolate_data_array(one, ref)
  def post(r):
    got, want = r.value
    r.array('value', got, ['t'], lambda i: b.read(want, i), coords=False)
  b.assume_all({'i': 'u', 'j': 'u'}, lambda k: b.eq(b.index(k, 'i'), b.index(k, 'j')) | ~b.eq(w({'u': k['i']}), w({'u': k['j']})))
  b.ensures('sequence', run, post)


@contract('datasets', cases=[dict(ref=x) for x in (False, True)])
def _(b, ref):
  """Every variable is interpolated, each to its own reference."""
  grid(b, 'x')
  b.dim('t', hi=3); b.dim('u', hi=2)
  q, w = targets(b, 'q', 't'), targets(b, 'w', 'u')
  p = b.array('p', ['x'])
  s = b.array('s', ['x'])
  def run():
    to = lambda h: h.da.assign_coords(x=h.da)
    if ref:
      f = ip.InterpolateToReferenceCoords('linear')
      r = {'p': to(q), 's': to(w)}
      return f.interpolate({'p': p.da, 's': s.da}, r), {k: f.interpolate_data_array(h.da, r[k]) for k, h in (('p', p), ('s', s))}
    f = ip.InterpolateToFixedCoords('linear', {'x': q.da})
    return f.interpolate({'p': p.da, 's': s.da}), {k: f.interpolate_data_array(h.da) for k, h in (('p', p), ('s', s))}
  def post(r):
    got, want = r.value
    r.check('variables', set(got) == {'p', 's'})
    r.array('p', got['p'], ['t'], lambda i: b.read(want['p'], i), coords=False)
    d = 'u' if ref else 't'
    r.array('s', got['s'], [d], lambda i: b.read(want['s'], i), coords=False)
  b.ensures('datasets', run, post)


@contract('subsample', cases=[dict(stride=s, dims=d) for s in (1, 2, 3, 5) for d in ('x', 'xy', 'xz')])
def _(b, stride, dims):
  """Every stride-th point from the first on along the given dimensions that exist; everything else kept."""
  b.dim('x', hi=7); b.dim('y', hi=4)
  c = b.coord('x', 'x', gen=lambda rng, shape: np.arange(shape[0]) * 2.0)
  v = b.array('v', ['y', 'x'], nan=True)
  step = {d: stride if d in dims else 1 for d in ('x', 'y')}
  def run():
    out = ip.Subsample(list(dims), stride).interpolate_data_array(v.da)
    return out, {d: out.sizes[d] for d in step}
  def post(r):
    out, sizes = r.value
    r.check('dims', set(out.dims) == {'y', 'x'})
    for d, s in step.items():
      have = sizes[d] if isinstance(sizes[d], int) else sizes[d].sv if hasattr(sizes[d], 'sv') else sizes[d]
      n = b.size(d)
      r.holds(f'size {d}', (have * float(s) >= n) & (have * float(s) < n + float(s)))
    on = lambda i, d: b.eq(b.mod(b.index(i, d), step[d]), 0.0)
    pos = lambda i, d: i[d] // step[d] if not b.symbolic else i[d] / step[d]
    r.forall('values', ['y', 'x'], lambda i: imp(b, lambda: on(i, 'y') & on(i, 'x'), lambda: b.same(b.read(out, {d: pos(i, d) for d in step}), v(i))))
    r.forall('labels', ['x'], lambda i: imp(b, lambda: on(i, 'x'), lambda: b.same(b.read(out.coords['x'], {'x': pos(i, 'x')}), c(i))))
  b.ensures('subsampled', run, post)


@contract('subsample.refused', cases=[dict(stride=s) for s in (0, -1)])
def _(b, stride):
  b.ensures('refused', lambda: ip.Subsample(['x'], stride), lambda r: r.raises('refused', ValueError))


@contract('crop', mode='bounded', samples=150)
def _(b):
  """Exactly the grid points in the box (bounds included), sorted by latitude and longitude."""
  b.dim('latitude', hi=5); b.dim('longitude', hi=5); b.dim('m', hi=2)
  for d in ('latitude', 'longitude'):
    b.coord(d, d, gen=lambda rng, shape: rng.permutation(9)[:shape[0]] * 10.0 - 40.0)
  v = b.array('v', ['longitude', 'm', 'latitude'], nan=True)
  box = sorted(b.rng.integers(-9, 10, 2) * 5.0) + sorted(b.rng.integers(-9, 10, 2) * 5.0)
  b.sampler.record[('args', '')] = str(box)
  def post(r):
    out, da = r.value, v.da
    r.check('dims', tuple(out.dims) == da.dims)
    want = {d: sorted(x for x in da[d].values if lo <= x <= hi) for d, lo, hi in (('latitude', *box[:2]), ('longitude', *box[2:]))}
    r.check('labels', all(list(out[d].values) == want[d] for d in want))
    r.check('values', out.identical(da.sel(want)))
  b.ensures('cropped', lambda: ip.CropToBox(*map(float, box)).interpolate_data_array(v.da), post)


@contract('crop.elements', cases=[dict(extra=x) for x in (False, True)])
def _(b, extra):
  """Any grid, in any order, and any box: the labels in the box, bounds included, each with its own element."""
  pool = np.arange(-9, 10) * 10
  for d in ('latitude', 'longitude'):
    b.label_set(d, pool, unsorted=True)
  dims = ['longitude', 'latitude']
  if extra:
    b.dim('m', hi=2)
    dims.insert(1, 'm')
  v = b.array('v', dims, nan=True)
  box = [b.scalar(k, 'i', gen=lambda rng: int(rng.integers(-19, 20)) * 5) for k in ('lat_min', 'lat_max', 'lon_min', 'lon_max')]
  b.assume((box[0].s <= box[1].s) & (box[2].s <= box[3].s))
  b.label_slice('latitude in box', 'latitude', box[0].s, box[1].s)
  b.label_slice('longitude in box', 'longitude', box[2].s, box[3].s)
  def post(r):
    r.array('cropped', r.value, dims, lambda i: v[i], dim_map={'latitude': 'latitude in box', 'longitude': 'longitude in box'})
  b.ensures('cropped', lambda: ip.CropToBox(*[x.val for x in box]).interpolate_data_array(v.da), post)


@contract('crop.refused', cases=[dict(box=x) for x in ((1.0, 0.0, 0.0, 1.0), (0.0, 1.0, 1.0, 0.0))])
def _(b, box):
  b.ensures('refused', lambda: ip.CropToBox(*box), lambda r: r.raises('refused', ValueError))


@contract('clip', mode='bounded', samples=100, cases=[dict(method=m, wrap=w, dims=d) for m in ('linear', 'nearest') for w in (False, True) for d in ('both', 'longitude')])
def _(b, method, wrap, dims):
  """Reference points outside the data are left out, in the order of the reference; the others are interpolated as without clipping."""
  for d in ('latitude', 'longitude'):
    b.dim(d, lo=2, hi=4)
    b.coord(d, d, gen=lambda rng, shape: np.cumsum(rng.integers(1, 4, shape)) * 10.0 - 10.0)
  v = b.array('v', ['latitude', 'longitude'])
  lat = b.rng.permutation(np.arange(-4, 14) * 5.0)[:b.rng.integers(0, 6)]
  lon = b.rng.permutation(np.arange(-4, 14) * 5.0)[:b.rng.integers(0, 6)]
  kind = b.rng.integers(3)
  order = {0: lambda x: x, 1: np.sort, 2: lambda x: np.sort(x)[::-1]}[int(kind)]
  lat, lon = order(lat), order(lon)
  b.sampler.record[('args', '')] = f'{lat} {lon}'
  clipped = ['latitude', 'longitude'] if dims == 'both' else ['longitude']
  def run():
    ref = b.xr.DataArray(np.zeros((len(lat), len(lon))), dims=['latitude', 'longitude'], coords={'latitude': lat, 'longitude': lon})
    return (ip.InterpolateToReferenceCoords(method, wrap_longitude=wrap, clip_reference_coords=clipped).interpolate_data_array(v.da, ref),
            ip.InterpolateToReferenceCoords(method, wrap_longitude=wrap).interpolate_data_array(v.da, ref))
  def post(r):
    got, want = r.value
    def keep(d, x):
      lo, hi = float(v.da[d].min()), float(v.da[d].max())
      if wrap and d == 'longitude':
        lo, hi = float(v.da[d].max()) - 360.0, float(v.da[d].min()) + 360.0
      return d not in clipped or lo <= x <= hi
    la, lo = [x for x in lat if keep('latitude', x)], [x for x in lon if keep('longitude', x)]
    r.check('labels', list(got.latitude.values) == la and list(got.longitude.values) == lo)
    want = want.transpose(*got.dims).sel(latitude=la, longitude=lo) if len(lat) and len(lon) else None
    r.check('values', want is None or np.allclose(got.values, want.values, equal_nan=True))
  b.ensures('clipped', run, post)


@contract('probabilities', cases=[dict(sizes=s, wrap=w, nthr=k, order=o) for s in ([1, 3], (3,)) for w in (False, True) for k in (1, 2) for o in ('ll', 'tll')])
def _(b, sizes, wrap, nthr, order):
  """For every size and threshold the fraction of the points of the window above the threshold; zero where the window leaves the domain."""
  b.dim('time', hi=2); b.dim('latitude', hi=6); b.dim('longitude', hi=6)
  thr = [0.25, 1.5][:nthr]
  D = (['time'] if order == 'tll' else []) + ['latitude', 'longitude']
  v = b.array('v', D)
  def frac(i, n, t):
    hit = lambda w: b.where(w > t, b.f(1.0), b.f(0.0))
    if n == 1:
      return hit(v[i])
    h = (n - 1) // 2
    tot = b.f(0.0)
    for dy in range(-h, h + 1):
      for dx in range(-h, h + 1):
        tot = tot + hit(v(i, latitude=b.wrap(i, 'latitude', dy), longitude=b.wrap(i, 'longitude', dx)))
    y, x = b.index(i, 'latitude'), b.index(i, 'longitude')
    c = (y >= h) & (y < b.size('latitude') - h)
    c = c if wrap else c & (x >= h) & (x < b.size('longitude') - h)
    return b.where(c, tot / float(n * n), b.f(0.0))
  def post(r):
    out = r.value
    r.check('dims', set(out.dims) == {'smoothing_neighborhood', 'threshold_value', *D})
    r.check('labels', [int(x) for x in out['smoothing_neighborhood'].values] == list(sizes) and [float(x) for x in out['threshold_value'].values] == thr)
    for n in sizes:
      for t in thr:
        r.array(f'size {n} threshold {t}', out.sel(smoothing_neighborhood=n, threshold_value=t, drop=True), D, lambda i: frac(i, n, t), tol=(1e-5, 1e-6))
  b.ensures('probabilities', lambda: ip.NeighborhoodThresholdProbabilities(sizes, thr, wrap_longitude=wrap).interpolate_data_array(v.da), post)
