"""The loading pipeline."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from props import common
from vc.contract import contract
from weatherbenchX import interpolations
from weatherbenchX.data_loaders import base
from weatherbenchX.data_loaders import xarray_loaders as xl

H = np.timedelta64(1, 'h')
T0 = np.datetime64('2020-01-01T00', 'ns')


class TimesReference(interpolations.Interpolation):
  """x -> 3 x + reference (or 3 x)."""

  def interpolate_data_array(self, da, reference=None):
    out = da * 3.0
    return out if reference is None else out + reference


class Source(base.DataLoader):
  """A loader over given data, kept so that a modification of it shows."""

  def __init__(self, data, **kw):
    self.data = data
    super().__init__(**kw)

  def _load_chunk_from_source(self, init_times, lead_times=None):
    return self.data


def plus(chunk):
  return {k: v + 1.0 for k, v in chunk.items()}


def plus_ds(chunk):
  return chunk + 1.0


OPTS = [dict(kind=k, process=p, interp=i, ref=r, compute=c, mask=m, values=v)
        for k in ('dict', 'dataset') for p in (False, True) for i in (False, True) for r in (False, True) for c in (True, False)
        for m in (False, True) for v in (False, True) if i or not r]


@contract('pipeline', cases=OPTS, samples=20)
def _(b, kind, process, interp, ref, compute, mask, values):
  """Process, then interpolate to the reference, then compute, then mask, then values as coordinates: for every combination of options."""
  b.dim('x')
  b.coord('x', 'x')
  p, q, w, z = [b.array(n, ['x'], nan=True) for n in ('p', 'q', 'w', 'z')]
  src = dict(p=p, q=q)
  data = {k: h.da for k, h in src.items()} if kind == 'dict' else b.xr.Dataset({k: h.da for k, h in src.items()})
  reference = {'p': w.da, 'q': z.da} if kind == 'dict' else b.xr.Dataset({'p': w.da, 'q': z.da})
  R = dict(p=w, q=z)
  before = None if b.symbolic else [{k: v.copy(deep=True) for k, v in dict(d).items()} for d in (data, reference)]
  loader = Source(data, process_chunk_fn=(plus if kind == 'dict' else plus_ds) if process else None, interpolation=TimesReference() if interp else None,
                  compute=compute, add_nan_mask=mask, add_values_to_coords=values)
  def want(k):
    def f(i):
      v = src[k][i]
      if process:
        v = v + 1.0
      if interp:
        v = v * 3.0
        if ref:
          v = v + R[k][i]
      return v
    return f
  def post(r):
    r.check('variables', list(r.value) == ['p', 'q'])
    for k in src:
      v = r.value[k]
      r.check('coordinates', set(v.coords) - {'x'} == ({'mask'} if mask else set()) | ({'values_as_coord'} if values else set()))
      r.array(k, v.drop_vars(['mask', 'values_as_coord'], errors='ignore'), ['x'], want(k))
      if mask:
        r.array(k + ' mask', v.coords['mask'].drop_vars(['mask', 'values_as_coord'], errors='ignore'), ['x'], lambda i: ~b.isnan(want(k)(i)))
      if values:
        r.array(k + ' values', v.coords['values_as_coord'].drop_vars(['mask', 'values_as_coord'], errors='ignore'), ['x'], want(k))
    # what was loaded and the reference are as before
    for name, h in src.items():
      r.array('source', data[name], ['x'], lambda i: h[i])
      r.array('reference', reference[name], ['x'], lambda i: R[name][i])
      r.check('source coordinates', set(data[name].coords) == {'x'} and set(reference[name].coords) == {'x'})
    if before is not None:
      r.check('source unchanged', all(before[0][k].identical(dict(data)[k]) for k in src))
      r.check('reference unchanged', all(before[1][k].identical(dict(reference)[k]) for k in src))
  b.ensures('chunk', lambda: loader.load_chunk(np.array([T0]), np.array([0 * H]), reference if ref else None), post)


@contract('mask', cases=[dict(kind=k, subset=s) for k in ('dict', 'dataset') for s in (None, (), ('p',), ['q', 'p'], ('other',))])
def _(b, kind, subset):
  """A mask exactly on the variables asked for, true exactly where the value is present; the input keeps no trace."""
  b.dim('x'); b.dim('y', hi=2)
  p, q = b.array('p', ['x', 'y'], nan=True, inf=True), b.array('q', ['y'], nan=True)
  data = {'p': p.da, 'q': q.da} if kind == 'dict' else b.xr.Dataset({'p': p.da, 'q': q.da})
  before = None if b.symbolic else {k: v.copy(deep=True) for k, v in dict(data).items()}
  def post(r):
    r.check('variables', list(r.value) == ['p', 'q'])
    for k, h in (('p', p), ('q', q)):
      v = r.value[k]
      r.array(k, v.drop_vars(['mask'], errors='ignore'), h.dims, lambda i: h[i])
      if subset is None or k in subset:
        r.array(k + ' mask', v.coords['mask'].drop_vars(['mask']), h.dims, lambda i: ~b.isnan(h[i]))
      else:
        r.check(k + ' no mask', 'mask' not in v.coords)
      r.check('input', 'mask' not in data[k].coords)
    if before is not None:
      r.check('input unchanged', all(before[k].identical(dict(data)[k]) for k in before))
  b.ensures('mask', lambda: base.add_nan_mask_to_data(data, subset), post)


# Preparation of a dataset


def forecast(b, names):
  b.allow_labels = False
  b.index_dim(names['init'], lambda rng: T0 + np.arange(4) * (6 * H), 'M', partial=True)
  b.index_dim(names['lead'], lambda rng: (np.arange(3) * (6 * H)).astype('timedelta64[ns]'), 'm', partial=True)
  b.dim('level', size=3, labels=np.array([500, 700, 850]))
  d = [names['init'], 'level', names['lead']]
  hs = {k: b.array(k, d[: 3 if k != 'c' else 1] + ([names['lead']] if k == 'c' else []), nan=True) for k in ('a', 'b', 'c')}
  b.dim('ri', hi=2); b.dim('rl', hi=2)
  it = b.array('it', ['ri'], 'M', gen=lambda rng, s: T0 + rng.integers(0, 4, s) * (6 * H))
  lt = b.array('lt', ['rl'], 'm', gen=lambda rng, s: (rng.integers(0, 3, s) * (6 * H)).astype('timedelta64[ns]'))
  b.assume_all(['ri'], lambda i: b.has(names['init'], it[i]))
  b.assume_all(['rl'], lambda i: b.has(names['lead'], lt[i]))
  ds = b.xr.Dataset({k: (h.da if k == 'c' else with_level(b, h)) for k, h in hs.items()})
  return ds, hs, it, lt


def with_level(b, h):
  da = h.da
  return da.assign_coords(level=np.array([500, 700, 850])) if 'level' in da.dims and 'level' not in da.coords else da


RAW = dict(init='time', lead='prediction_timedelta')


PREP = [dict(pre=p, rename=rn, variables=v, sel=s, times=t) for p in (False, True) for rn in (False, True) for v in (None, 'one', 'two') for s in (None, 'level', 'levels')
        for t in ((2,) if p and rn else (1,))]


@contract('prepare', cases=PREP, samples=15)
def _(b, pre, rename, variables, sel, times):
  """Preprocessing sees the raw dataset, once; then renaming; then the variables, then the selection, by their new names."""
  ds, hs, it, lt = forecast(b, RAW)
  calls = []
  def fn(d):
    calls.append(tuple(sorted(d.dims)))
    return d * 2.0
  new = {'a': 'alpha', 'b': 'beta', 'level': 'pressure'} if rename else {}
  nm = lambda x: new.get(x, x)
  vs = {None: ['a', 'b', 'c'], 'one': ['b'], 'two': ['c', 'a']}[variables]
  kw = {}
  if variables:
    kw['variables'] = [nm(v) for v in vs]
  if sel:
    kw['sel_kwargs'] = {nm('level'): 700 if sel == 'level' else [850, 500]}
  before = None if b.symbolic else ds.copy(deep=True)
  def run():
    calls.clear()
    if variables == 'two':
      kw['variables'] = iter([nm(v) for v in vs])
    loader = xl.PredictionsFromXarray(ds=ds, rename_variables=dict(new) if rename else None, preprocessing_fn=fn if pre else None, **kw)
    for _ in range(times):
      out = loader.load_chunk(it.da.values, lt.da.values)
    return out
  def post(r):
    r.check('variables', list(r.value) == [nm(v) for v in vs])
    for v in vs:
      h = hs[v]
      f = lambda i, h=h, **o: h({}, time=b.pos('time', it(i, ri=i['init_time'])), prediction_timedelta=b.pos('prediction_timedelta', lt(i, rl=i['lead_time'])), **o) * (2.0 if pre else 1.0)
      out = r.value[nm(v)]
      D = ['init_time', 'lead_time']
      if v == 'c' or sel == 'level':
        r.array(v, out.drop_vars(nm('level'), errors='ignore'), D, (lambda i: f(i)) if v == 'c' else (lambda i: f(i, level=1)), dim_map=dict(init_time='ri', lead_time='rl'))
      else:
        for j, lev in enumerate([500, 700, 850] if sel is None else [850, 500]):
          pos = [500, 700, 850].index(lev)
          r.array(f'{v} {lev}', out.isel({nm('level'): j}, drop=True), D, lambda i, pos=pos: f(i, level=pos), dim_map=dict(init_time='ri', lead_time='rl'))
        r.check('labels', [int(x) for x in out[nm('level')].values] == ([500, 700, 850] if sel is None else [850, 500]))
    if pre:
      r.check('preprocessed once, before renaming', calls == [('level', 'prediction_timedelta', 'time')])
    r.check('source', set(ds) == {'a', 'b', 'c'} and set(ds['a'].dims) == {'time', 'level', 'prediction_timedelta'})
    if before is not None:
      r.check('source unchanged', before.identical(ds))
  b.ensures('chunk', run, post)


@contract('rename', cases=[dict(fc=f, rd=rd, conv=c, ll=ll) for f in (True, False) for rd in ('ecmwf', None, 'dict') for c in (True, False) for ll in (True, False)])
def _(b, fc, rd, conv, ll):
  """Dimension names after the standard, dictionary and no renaming, of a forecast and of an analysis."""
  b.allow_labels = False
  lat, lon = ('lat', 'lon') if ll else ('latitude', 'longitude')
  for d in (lat, lon, 'time') + (('prediction_timedelta',) if fc else ()):
    b.dim(d, hi=2)
    b.coord(d, d, {'time': 'M', 'prediction_timedelta': 'm'}.get(d, 'f'))
  v = b.array('v', ['time'] + (['prediction_timedelta'] if fc else []) + [lat, lon])
  ds = b.xr.Dataset({'v': v.da})
  m = {'ecmwf': 'ecmwf', None: None, 'dict': {'time': 'when'}}[rd]
  def run():
    loader = xl.XarrayDataLoader(ds=ds, rename_dimensions=m, automatically_convert_lat_lon_to_latitude_longitude=conv)
    loader.maybe_prepare_dataset()
    return common.private(b, loader, '_ds')['v']
  new = {}
  if rd == 'ecmwf':
    new.update({'time': 'init_time', 'prediction_timedelta': 'lead_time'} if fc else {'time': 'valid_time'})
  elif rd == 'dict':
    new['time'] = 'when'
  if conv:
    new.update(lat='latitude', lon='longitude')
  nm = lambda d: new.get(d, d)
  def post(r):
    r.check('coordinates', set(r.value.coords) == {nm(d) for d in v.dims})
    r.array('values', r.value, [nm(d) for d in v.dims], lambda i: v({d: i[nm(d)] for d in v.dims}), dim_map={nm(d): d for d in v.dims})
    for d in v.dims:
      c = b.coords[d]
      r.array('labels ' + d, r.value[nm(d)], [nm(d)], lambda i: c({d: i[nm(d)]}), dim_map={nm(d): d})
  b.ensures('renamed', run, post)


@contract('arguments', cases=[dict(what=w) for w in ('both', 'neither', 'rename', 'variable')])
def _(b, what):
  b.dim('time')
  b.coord('time', 'time', 'M')
  v = b.array('v', ['time'])
  ds = b.xr.Dataset({'v': v.da})
  now = np.array([T0])
  run, exc = dict(both=(lambda: xl.PredictionsFromXarray(path='/nonexistent', ds=ds), ValueError), neither=(lambda: xl.PredictionsFromXarray(), ValueError),
                  rename=(lambda: xl.TargetsFromXarray(ds=ds, rename_dimensions='other').load_chunk(now), ValueError),
                  variable=(lambda: xl.TargetsFromXarray(ds=ds, variables=['w']).load_chunk(now), KeyError))[what]
  b.ensures('refused', run, lambda r: r.raises('refused', exc))


# Real files and lazy arrays (bounded)


@contract('path', mode='bounded', samples=12, cases=[dict(ext=e) for e in ('.zarr', '.zarr/', '.nc')])
def _(b, ext):
  """A path gives what the dataset stored there gives."""
  import xarray as xr
  rng = b.rng
  n, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
  ds = xr.Dataset({k: (('time', 'x'), rng.normal(size=(n, m)).astype(dt)) for k, dt in (('a', 'float32'), ('b', 'float64'))},
                  coords={'time': T0 + np.arange(n) * (6 * H), 'x': np.arange(m) * 1.5})
  it = T0 + rng.integers(0, n, 2) * (6 * H)
  kw = dict(variables=['b', 'a'][: int(rng.integers(1, 3))])
  def run():
    d = tempfile.mkdtemp(prefix='c18')
    try:
      p = os.path.join(d, 'data' + ext)
      if ext == '.nc':
        ds.to_netcdf(p)
      else:
        ds.to_zarr(p, zarr_format=2)
      return xl.TargetsFromXarray(path=p, **kw).load_chunk(it), xl.TargetsFromXarray(ds=ds, **kw).load_chunk(it)
    finally:
      shutil.rmtree(d)
  def post(r):
    x, y = r.value
    r.check('same', list(x) == list(y) == kw['variables'] and x.equals(y))
    for k in x:
      r.check('type', x[k].dtype == ds[k].dtype)
      r.check('values', np.array_equal(x[k].values, ds[k].sel(time=it).values))
  b.ensures('loaded', run, post)


@contract('compute', mode='bounded', samples=12, cases=[dict(compute=c, dtype=t) for c in (True, False) for t in ('float32', 'float64', 'int16')])
def _(b, compute, dtype):
  """In memory when asked for, lazy otherwise; same values and type either way."""
  import xarray as xr
  rng = b.rng
  n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
  mem = xr.Dataset({'a': (('time', 'x'), (rng.normal(size=(n, m)) * 10).astype(dtype))}, coords={'time': T0 + np.arange(n) * (6 * H), 'x': np.arange(m)})
  it = T0 + rng.integers(0, n, 2) * (6 * H)
  def run():
    return xl.TargetsFromXarray(ds=mem.chunk(time=1), compute=compute).load_chunk(it)
  def post(r):
    r.check('laziness', (r.value['a'].chunks is None) == compute)
    r.check('type', r.value['a'].dtype == np.dtype(dtype))
    r.check('values', np.array_equal(r.value['a'].values, mem['a'].sel(time=it).values))
  b.ensures('loaded', run, post)


@contract('absent-label', mode='bounded', samples=20, cases=[dict(sel=s, time=t) for s in ('one', 'several') for t in (False, True)])
def _(b, sel, time):
  """Selecting a label which the data does not have is reported: never another label's data."""
  import xarray as xr
  rng = b.rng
  n = int(rng.integers(1, 4))
  levels = np.sort(rng.choice([100, 250, 500, 700, 850, 925], n, replace=False))
  ds = xr.Dataset({'a': (('time', 'level'), rng.normal(size=(2, n)))}, coords={'time': T0 + np.arange(2) * (6 * H), 'level': levels})
  other = int(levels[rng.integers(n)] + rng.choice([-1, 1, 30]))
  it = T0 + np.arange(2) * (6 * H)
  if time:
    it = it + np.timedelta64(int(rng.choice([1, 59, 180])), 'm')
    arg = dict(level=int(levels[0]) if sel == 'one' else [int(levels[0])])
  else:
    arg = dict(level=other if sel == 'one' else [int(levels[0]), other])
  b.ensures('chunk', lambda: xl.TargetsFromXarray(ds=ds, sel_kwargs=arg).load_chunk(it), lambda r: r.raises('reported', KeyError))
