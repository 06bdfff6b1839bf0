"""Region, latitude, longitude and land masks select exactly their region."""
import numpy as np
import xarray
from props import common
from vc.contract import contract
from weatherbenchX import binning


def mod360(b, x):
  """x modulo 360 in [0, 360)."""
  return b.mod(x, 360.0)


def in_lon(b, lon, w, e):
  """lon on the closed arc going east from w to e (a full circle when e = w modulo 360)."""
  width = mod360(b, e - w)
  width = b.where(b.eq(width, 0.0), b.f(360.0), width)
  return mod360(b, lon - w) <= width


def in_lat(lat, s, n):
  return (lat >= s) & (lat <= n)


def lat_gen(rng, shape):
  return rng.choice(np.arange(-90, 90.5, 2.5), shape)


def lon_gen(rng, shape):
  lo = rng.choice([-180, 0, -360])
  return rng.choice(np.arange(lo, lo + 362.5, 2.5), shape)


def grid_gen(rng, shape):
  return np.sort(rng.choice(np.arange(-90, 90.5, 2.5), shape, replace=False))[::rng.choice([1, -1])]


def lims(b, k=''):
  lat0 = b.scalar(f'lat0{k}', gen=lambda rng: rng.choice(np.arange(-90, 90, 10.)))
  lat1 = b.scalar(f'lat1{k}', gen=lambda rng: rng.choice(np.arange(-80, 91, 10.)))
  lon0 = b.scalar(f'lon0{k}', gen=lambda rng: rng.choice(np.arange(-370, 371, 10.)))
  lon1 = b.scalar(f'lon1{k}', gen=lambda rng: rng.choice(np.arange(-370, 371, 10.)))
  b.assume(lat0.s < lat1.s)
  return lat0, lat1, lon0, lon1


def points(b, sparse):
  if sparse:
    b.dim('point')
    lat = b.coord('latitude', ['point'], gen=lat_gen)
    lon = b.coord('longitude', ['point'], gen=lon_gen)
    b.dim('t')
    s = b.array('s', ['t', 'point'], nan=True)
    return lat, lon, s, ['point']
  b.dim('latitude'); b.dim('longitude'); b.dim('t')
  lat = b.coord('latitude', ['latitude'], gen=grid_gen)
  lon = b.coord('longitude', ['longitude'], gen=lambda rng, sh: np.sort(rng.choice(np.arange(-180, 362.5, 2.5), sh, replace=False)))
  s = b.array('s', ['t', 'longitude', 'latitude'], nan=True)
  return lat, lon, s, ['latitude', 'longitude']


@contract('region.mask', cases=[dict(sparse=x) for x in (False, True)])
def _(b, sparse):
  """One bin per region, named after it, true exactly inside the region."""
  lat, lon, s, dims = points(b, sparse)
  R = {'nh': lims(b, 'a'), 'tropics': lims(b, 'b')}
  def spec(i):
    q = R[['nh', 'tropics'][i['region']]]
    return in_lat(lat[i], q[0].s, q[1].s) & in_lon(b, lon[i], q[2].s, q[3].s)
  b.dim('region', size=2)
  b.ensures('regions', lambda: binning.Regions({k: ((q[0].val, q[1].val), (q[2].val, q[3].val)) for k, q in R.items()}).create_bin_mask(s.da),
            lambda r: r.array('mask', r.value, ['region'] + dims, spec, const_coords={'region': ['nh', 'tropics']}))


@contract('region.named-dim')
def _(b):
  lat, lon, s, dims = points(b, True)
  q = lims(b)
  b.ensures('regions', lambda: binning.Regions({'z': ((q[0].val, q[1].val), (q[2].val, q[3].val))}, bin_dim_name='where').create_bin_mask(s.da),
            lambda r: r.array('mask', r.value, ['where', 'point'], lambda i: in_lat(lat[i], q[0].s, q[1].s) & in_lon(b, lon[i], q[2].s, q[3].s),
                              const_coords={'where': ['z']}))


@contract('region.shift-invariance')
def _(b):
  """Adding 360 to a longitude limit or to the point longitude changes nothing."""
  b.dim('point')
  lon = b.array('lon', ['point'], gen=lon_gen)
  w = b.scalar('w', gen=lambda rng: rng.choice(np.arange(-370, 371, 10.)))
  e = b.scalar('e', gen=lambda rng: rng.choice(np.arange(-370, 371, 10.)))
  f = lambda *a: common.private(b, binning, '_create_lon_mask')(*a)
  b.ensures('lon', lambda: (f(lon.da, (w.val, e.val)), f(lon.da + 360, (w.val, e.val)), f(lon.da, (w.val + 360, e.val)), f(lon.da, (w.val, e.val - 360))),
            lambda r: [r.array(f'mask{k}', v, ['point'], lambda i: in_lon(b, lon[i], w.s, e.s)) for k, v in enumerate(r.value)])


@contract('region.reversed-latitude')
def _(b):
  """A latitude range that is empty or reversed is rejected."""
  lat, lon, s, dims = points(b, False)
  lat0 = b.scalar('lat0', gen=lambda rng: rng.choice(np.arange(-90, 91, 30.)))
  lat1 = b.scalar('lat1', gen=lambda rng: rng.choice(np.arange(-90, 91, 30.)))
  b.assume(lat0.s >= lat1.s)
  b.ensures('regions', lambda: binning.Regions({'z': ((lat0.val, lat1.val), (0, 10))}).create_bin_mask(s.da),
            lambda r: r.raises('rejected', ValueError))


@contract('region.land')
def _(b):
  """With a land mask, each region gets a land-only companion bin."""
  b.allow_transpose = False
  lat, lon, s, dims = points(b, False)
  R = {'nh': lims(b, 'a'), 'tropics': lims(b, 'b')}
  land = b.array('land', dims, kind='b')
  b.dim('region', size=4)
  def spec(i):
    q = R[['nh', 'tropics'][i['region'] % 2]]
    m = in_lat(lat[i], q[0].s, q[1].s) & in_lon(b, lon[i], q[2].s, q[3].s)
    return (m & land[i]) if i['region'] >= 2 else m
  b.ensures('regions', lambda: binning.Regions({k: ((q[0].val, q[1].val), (q[2].val, q[3].val)) for k, q in R.items()}, land_sea_mask=land.da).create_bin_mask(s.da),
            lambda r: r.array('mask', r.value, ['region'] + dims, spec, const_coords={'region': ['nh', 'tropics', 'nh_land', 'tropics_land']}))


@contract('landsea', cases=[dict(glob=g, thr=t) for g in (False, True) for t in (None, True)])
def _(b, glob, thr):
  """Land and sea are complementary, global is everything."""
  lat, lon, s, dims = points(b, False)
  frac = b.array('frac', dims, nan=True, gen=lambda rng, sh: rng.choice([0, 0.2, 0.5, 0.7, 1.0, np.nan], sh))   # missing is not land
  th = b.scalar('th', gen=lambda rng: rng.choice([0.2, 0.5, 0.7]))
  b.dim('land_sea', size=3 if glob else 2)
  kw = {}
  if thr:
    kw['land_sea_threshold'] = th.val
  if glob:
    kw['include_global_mask'] = True
  def spec(i):
    island = frac[i] >= (th.s if thr else b.f(0.5))
    return (lambda: b.where(island, b.f(1), b.f(0)), lambda: b.where(island, b.f(0), b.f(1)), lambda: b.f(1))[i['land_sea']]()
  b.ensures('landsea', lambda: binning.LandSea(frac.da, **kw).create_bin_mask(s.da),
            lambda r: r.array('mask', r.value, ['land_sea'] + dims, spec, const_coords={'land_sea': ['land', 'sea', 'global'][:3 if glob else 2]}))


LAT_CASES = [dict(deg=30, rng=None), dict(deg=45, rng=None), dict(deg=50, rng=None), dict(deg=10, rng=(20, 50)), dict(deg=2.5, rng=(-5, 5)), dict(deg=180, rng=None),
             dict(deg=25, rng=(-60, 0))]


def starts(lo, hi, deg):
  out, k = [], 0
  while lo + k * deg < hi:
    out.append(lo + k * deg)
    k += 1
  return out


@contract('bands.latitude', cases=LAT_CASES)
def _(b, deg, rng):
  """Band k is the closed latitude interval starting at its label, bands are contiguous and cover the range."""
  lat, lon, s, dims = points(b, False)
  st = starts(*(rng or (-90, 90)), deg)
  b.dim('latitude_bins', size=len(st))
  kw = dict(lat_range=rng) if rng else {}
  def post(r):
    r.array('mask', r.value, ['latitude_bins', 't', 'longitude', 'latitude'], lambda i: in_lat(lat[i], b.f(st[i['latitude_bins']]), b.f(st[i['latitude_bins']] + deg)),
            const_coords={'latitude_bins': st})
  b.ensures('bands', lambda: binning.LatitudeBins(deg, **kw).create_bin_mask(s.da), post)
  def cover(r):
    m = r.value
    lo, hi = rng or (-90, 90)
    r.forall('covered', ['latitude', 'longitude'], lambda i: _or([_bool(r, m, {**i, 't': 0, 'latitude_bins': k}) for k in range(len(st))]) | (lat[i] < lo) | (lat[i] > hi))
  b.ensures('cover', lambda: binning.LatitudeBins(deg, **kw).create_bin_mask(s.da), cover)


def _bool(r, m, i):
  if r.symbolic:
    return m.at({d: i[d] for d in m.dims})
  return np.bool_(m.isel({d: i[d] for d in m.dims}).values[()])


def _or(xs):
  out = xs[0]
  for x in xs[1:]:
    out = out | x
  return out


LON_CASES = [dict(deg=90, rng=None), dict(deg=60, rng=None), dict(deg=360, rng=None), dict(deg=180, rng=None), dict(deg=100, rng=None), dict(deg=60, rng=(-180, 180)),
             dict(deg=10, rng=(340, 20)), dict(deg=20, rng=(100, 160)), dict(deg=30, rng=(-30, 30)), dict(deg=90, rng=(0, 0))]


@contract('bands.longitude', cases=LON_CASES)
def _(b, deg, rng):
  """Band k is the closed arc of the given width going east from its label; full-circle bands cover everything."""
  lat, lon, s, dims = points(b, True)
  lo, hi = rng or (0, 360)
  if lo >= hi:
    hi += 360
  st = starts(lo, hi, deg)
  b.dim('longitude_bins', size=len(st))
  kw = dict(lon_range=rng) if rng else {}
  def post(r):
    m = r.value
    r.array('mask', m, ['longitude_bins', 't', 'point'], lambda i: in_lon(b, lon[i], b.f(st[i['longitude_bins']]), b.f(st[i['longitude_bins']] + deg)),
            const_coords={'longitude_bins': np.mod(st, 360)})
    if hi - lo == 360:
      r.forall('covered', ['point'], lambda i: _or([_bool(r, m, {**i, 't': 0, 'longitude_bins': k}) for k in range(len(st))]))
  b.ensures('bands', lambda: binning.LongitudeBins(deg, **kw).create_bin_mask(s.da), post)


@contract('land.flipped', mode='bounded', samples=60, note='land mask given in the other latitude order: alignment is by label')
def _(b):
  lat, lon, s, dims = points(b, False)
  q = lims(b)
  land = b.array('land', dims, kind='b')
  m = land.da.isel(latitude=slice(None, None, -1))
  b.ensures('regions', lambda: binning.Regions({'z': ((q[0].val, q[1].val), (q[2].val, q[3].val))}, land_sea_mask=m).create_bin_mask(s.da).sel(region='z_land', latitude=s.da.latitude),
            lambda r: r.array('mask', r.value, dims, lambda i: in_lat(lat[i], q[0].s, q[1].s) & in_lon(b, lon[i], q[2].s, q[3].s) & land[i]))


@contract('land.mismatch', mode='bounded', samples=30, note='a land mask on another grid is rejected')
def _(b):
  lat, lon, s, dims = points(b, False)
  land = b.array('land', dims, kind='b')
  which = b.rng.choice(['latitude', 'longitude'])
  m = land.da.assign_coords({which: land.da[which] + 0.25})
  b.ensures('regions', lambda: binning.Regions({'z': ((-90, 90), (0, 360))}, land_sea_mask=m).create_bin_mask(s.da),
            lambda r: r.raises('rejected', AssertionError, ValueError))
