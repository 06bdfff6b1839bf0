"""Latency wrappers use the latest forecast available at the query time, never a later one."""
import numpy as np
from vc.contract import contract
from weatherbenchX import interpolations
from weatherbenchX.data_loaders import base
from weatherbenchX.data_loaders import latency_wrappers as lw
from weatherbenchX.data_loaders import xarray_loaders as xl

H = np.timedelta64(1, 'h')
T0 = np.datetime64('2019-12-29T00', 'ns')
BIG = 10 ** 12


def labels6(rng):
  return T0 + np.sort(rng.choice(10, rng.integers(2, 6), replace=False)) * (6 * H)


def leads(rng):
  return (np.arange(24) * (3 * H)).astype('timedelta64[ns]')


def some_nominal(rng, s):
  x = T0 + rng.choice(10, s) * (6 * H)
  return rng.permutation(x) if rng.random() < 0.3 else np.sort(x)


def late(rng, more=()):
  return np.timedelta64(int(rng.choice([0, 15, 180, 210, 360, 361, 390, 540, 720, *more])), 'm').astype('timedelta64[ns]')


def query(b, n, lead=True):
  b.allow_labels = False
  b.allow_transpose = False
  b.dim('ri', size=n)
  it = b.array('it', ['ri'], 'M', gen=lambda rng, s: T0 + rng.integers(6, 22, s) * (3 * H))
  lt = None
  if lead:
    b.dim('rl', hi=3)
    lt = b.array('lt', ['rl'], 'm', gen=lambda rng, s: (rng.integers(0, 4, s) * (3 * H)).astype('timedelta64[ns]'))
  lat = b.scalar('lat', 'm', gen=late)
  return it, lt, lat


def ghost(b, name, dim, nominal, it, lat, pick=True):
  """use[ri]: the latest nominal time (along dim) with nominal + latency <= it[ri]; such a time is assumed to exist."""
  def gen(rng, s):
    issued = nominal.da.values + lat.val
    return np.array([max([n for n, t in zip(nominal.da.values, issued) if t <= q], default=T0) for q in it.da.values], dtype='datetime64[ns]')
  use = b.array(name, ['ri'], 'M', gen=gen)
  late = b.seconds(lat.s)
  before = lambda x, y: b.seconds(x - y) <= 0
  b.assume_all(['ri'], lambda i: b.any(i, [dim], lambda j: b.eq(nominal(i, **{dim: j[dim]}), use[i])))
  b.assume_all(['ri'], lambda i: before(use[i] + lat.s, it[i]))
  b.assume_all(['ri', dim], lambda i: b.where(before(nominal(i, **{dim: i[dim]}) + lat.s, it[i]), before(nominal(i, **{dim: i[dim]}), use[i]), b.true()))
  return use


def forecast(b, var='p', extra=('x',), nan=True):
  b.index_dim('init_time', labels6, 'M', partial=True)
  b.index_dim('lead_time', leads, 'm', partial=True)
  for d in extra:
    b.dim(d)
    b.coord(d, d)
  return b.array(var, ['init_time', 'lead_time', *extra], nan=nan)


def covered(b, use, it, lt, init='init_time', lead='lead_time'):
  """The forecast in use and the lead times needed from it are in the dataset."""
  b.assume_all(['ri'], lambda i: b.has(init, use[i]))
  b.assume_all(['ri', 'rl'], lambda i: b.has(lead, lt[i] + (it[i] - use[i])))


def check(b, r, v, p, it, lt, use, extra=('x',)):
  check_as(b, r, v, p, it, lt, use, 'init_time', 'lead_time', extra)


def check_as(b, r, v, p, it, lt, use, init, lead, extra):
  """The data of the forecast in use at the same valid time, labelled with the requested times."""
  def spec(i):
    t = use(i, ri=i['init_time'])
    q = it(i, ri=i['init_time'])
    return p(i, **{init: b.pos(init, t), lead: b.pos(lead, lt(i, rl=i['lead_time']) + (q - t))})
  r.array('data', v, ['init_time', 'lead_time', *extra], spec, dim_map=dict(init_time='ri', lead_time='rl'))
  r.array('init times', v['init_time'], ['init_time'], lambda i: it(i, ri=i['init_time']), dim_map=dict(init_time='ri'))
  r.array('lead times', v['lead_time'], ['lead_time'], lambda i: lt(i, rl=i['lead_time']), dim_map=dict(lead_time='rl'))


@contract('constant', cases=[dict(n=1), dict(n=2), dict(n=3)])
def _(b, n):
  it, lt, lat = query(b, n)
  p = forecast(b)
  b.dim('nom', hi=5)
  nom = b.array('nom_t', ['nom'], 'M', gen=some_nominal)
  use = ghost(b, 'use', 'nom', nom, it, lat)
  covered(b, use, it, lt)
  ds = b.xr.Dataset({'p': p.da})
  def run():
    loader = xl.PredictionsFromXarray(ds=ds, rename_dimensions=None)
    w = lw.ConstantLatencyWrapper(loader, lat.val, nom.da.values)
    return w.load_chunk(it.da.values, lt.da.values)
  def post(r):
    r.check('variables', set(r.value) == {'p'})
    check(b, r, r.value['p'], p, it, lt, use)
  b.ensures('chunk', run, post)


@contract('availability')
def _(b):
  """The latest nominal time issued by the query time; none issued is an error."""
  b.allow_labels = False
  b.dim('ri', size=1)
  b.dim('nom', hi=5)
  nom = b.array('nom_t', ['nom'], 'M', gen=some_nominal)
  it = b.array('it', ['ri'], 'M', gen=lambda rng, s: T0 + rng.integers(-4, 22, s) * (3 * H))
  lat = b.scalar('lat', 'm', gen=lambda rng: late(rng, [-360]))
  available = lambda i, j: b.seconds(nom(i, nom=j['nom']) + lat.s - it[{'ri': 0}]) <= 0
  some = b.any({}, ['nom'], lambda j: available({}, j))
  loader = xl.PredictionsFromXarray(ds=b.xr.Dataset({'it': it.da}))
  def run():
    return lw.ConstantLatencyWrapper(loader, lat.val, nom.da.values).get_available_init_time(it.da.values[0])
  def post(r):
    if r.raised is not None:
      r.raises('no forecast', ValueError)
      r.holds('none issued', ~some, True)
      return
    r.holds('some issued', some, True)
    got = r.value.as_sv() if b.symbolic else r.value
    r.holds('a nominal time', b.any({}, ['nom'], lambda j: b.eq(nom({}, nom=j['nom']), got)), True)
    r.holds('issued by then', b.seconds(got + lat.s - it[{'ri': 0}]) <= 0, True)
    r.forall('the latest', ['nom'], lambda i: b.where(available(i, i), b.seconds(nom[i] - got) <= 0, b.true()))
  b.ensures('time', run, post)


LAYOUTS = {'ecmwf': ('time', 'prediction_timedelta', {}, {}), 'none': ('init_time', 'lead_time', dict(rename_dimensions=None), {}),
           'dict': ('t0', 'step', dict(rename_dimensions={'step': 'lead_time'}), dict(init_time_dim='t0'))}


@contract('xarray-constant', cases=[dict(n=n, layout=l) for l in ('ecmwf', 'none') for n in (1, 2)])
def _(b, n, layout):
  """The nominal init times are those of the dataset."""
  init, lead, kw, wkw = LAYOUTS[layout]
  it, lt, lat = query(b, n)
  b.index_dim(init, labels6, 'M', partial=True)
  b.index_dim(lead, leads, 'm', partial=True)
  b.dim('x')
  b.coord('x', 'x')
  p = b.array('p', ['x', lead, init], nan=True)
  q = b.array('q', [init, lead])
  nom = b.coords[init]
  b.assume_all([init], lambda i: b.has(init, nom[i]))
  use = ghost(b, 'use', init, nom, it, lat)
  b.assume_all(['ri', 'rl'], lambda i: b.has(lead, lt[i] + (it[i] - use[i])))
  ds = b.xr.Dataset({'p': p.da, 'q': q.da})
  def run():
    w = lw.XarrayConstantLatencyWrapper(xl.PredictionsFromXarray(ds=ds, variables=['q', 'p'], **kw), lat.val, **wkw)
    first = w.load_chunk(it.da.values, lt.da.values)
    return first, w.load_chunk(it.da.values, lt.da.values)
  def post(r):
    for v in r.value:
      r.check('variables', set(v) == {'p', 'q'})
      check_as(b, r, v['p'], p, it, lt, use, init, lead, ('x',))
      check_as(b, r, v['q'], q, it, lt, use, init, lead, ())
  b.ensures('chunk', run, post)


@contract('no-lead-times', cases=[dict(kind=k) for k in ('constant', 'xarray')])
def _(b, kind):
  it, _, lat = query(b, 1, lead=False)
  p = forecast(b)
  b.dim('nom', hi=5)
  nom = b.array('nom_t', ['nom'], 'M', gen=some_nominal)
  ds = b.xr.Dataset({'p': p.da})
  def run():
    loader = xl.PredictionsFromXarray(ds=ds, rename_dimensions=None)
    w = lw.ConstantLatencyWrapper(loader, lat.val, nom.da.values) if kind == 'constant' else lw.XarrayConstantLatencyWrapper(loader, lat.val)
    return w.load_chunk(it.da.values)
  b.ensures('chunk', run, lambda r: r.raises('needs lead times', ValueError))


class Double(interpolations.Interpolation):

  def interpolate_data_array(self, da, reference=None):
    return da * 2.0 if reference is None else da * 2.0 + reference


OPTS = [dict(process=p, interp=i, mask=m, values=v) for p in (False, True) for i in ('no', 'yes', 'reference') for m in (False, True) for v in (False, True)]


@contract('options', cases=OPTS, samples=15)
def _(b, process, interp, mask, values):
  """The options of the wrapped loader apply, once, to the chunk."""
  it, lt, lat = query(b, 1)
  p = forecast(b, extra=())
  w = b.array('w', ['rl'])
  b.dim('nom', hi=5)
  nom = b.array('nom_t', ['nom'], 'M', gen=some_nominal)
  use = ghost(b, 'use', 'nom', nom, it, lat)
  covered(b, use, it, lt)
  ds = b.xr.Dataset({'p': p.da})
  ref = {'p': w.da.rename(rl='lead_time')} if interp == 'reference' else None
  def run():
    loader = xl.PredictionsFromXarray(ds=ds, rename_dimensions=None, interpolation=None if interp == 'no' else Double(), add_nan_mask=mask,
                                      process_chunk_fn=(lambda c: c + 1.0) if process else None, add_values_to_coords=values)
    return lw.ConstantLatencyWrapper(loader, lat.val, nom.da.values).load_chunk(it.da.values, lt.da.values, ref)
  def spec(i):
    t, q, l = use(i, ri=i['init_time']), it(i, ri=i['init_time']), lt(i, rl=i['lead_time'])
    v = p(i, init_time=b.pos('init_time', t), lead_time=b.pos('lead_time', l + (q - t)))
    if process:
      v = v + 1.0
    if interp != 'no':
      v = v * 2.0
    return v + w(i, rl=i['lead_time']) if interp == 'reference' else v
  def post(r):
    v = r.value['p']
    names = ['mask'] * mask + ['values_as_coord'] * values
    r.check('coordinates', set(v.coords) == {'init_time', 'lead_time', *names})
    D, M = ['init_time', 'lead_time'], dict(init_time='ri', lead_time='rl')
    bare = lambda x: x.drop_vars(names, errors='ignore')
    r.array('data', bare(v), D, spec, dim_map=M)
    if mask:
      r.array('mask', bare(v.coords['mask']), D, lambda i: ~b.isnan(spec(i)), dim_map=M)
    if values:
      r.array('values', bare(v.coords['values_as_coord']), D, spec, dim_map=M)
  b.ensures('chunk', run, post)


@contract('multiple', cases=[dict(n=n, loaders=m) for n, m in ((1, 1), (1, 2), (2, 2))])
def _(b, n, loaders):
  """The forecast used is the most recent one over all loaders; of equally recent ones, that with the larger latency."""
  several(b, n, loaders)


@contract('multiple.three', cases=[dict(n=2, loaders=3)], mode='bounded')
def _(b, n, loaders):
  several(b, n, loaders)


def several(b, n, loaders):
  it, lt, _ = query(b, n)
  b.index_dim('lead_time', leads, 'm', partial=True)
  P, U, L, D = [], [], [], []
  for k in range(loaders):
    init = f'init{k}'
    b.index_dim(init, labels6, 'M', partial=True)
    P.append(b.array(f'p{k}', [init, 'lead_time']))
    nom = b.coords[init]
    lat = b.scalar(f'lat{k}', 'm', gen=late)
    b.assume_all([init], lambda i, init=init, nom=nom: b.has(init, nom[i]))
    use = ghost(b, f'use{k}', init, nom, it, lat)
    b.assume_all(['ri', 'rl'], lambda i, use=use: b.has('lead_time', lt[i] + (it[i] - use[i])))
    U.append(use)
    L.append(lat)
    D.append(b.xr.Dataset({'p': P[-1].da.rename({init: 'init_time'})}))
  for a in range(loaders):
    for c in range(a):
      # ties between equal latencies are not specified
      b.assume(b.seconds(L[a].s - L[c].s) != 0)
  def run():
    ws = [lw.XarrayConstantLatencyWrapper(xl.PredictionsFromXarray(ds=d, rename_dimensions=None), l.val) for d, l in zip(D, L)]
    return lw.MultipleConstantLatencyWrapper(ws).load_chunk(it.da.values, lt.da.values)
  def best(i, k):
    """Loader k is used for this query time."""
    ok = b.true()
    for j in range(loaders):
      if j != k:
        d = b.seconds(U[k](i, ri=i['init_time']) - U[j](i, ri=i['init_time']))
        ok = ok & ((d > 0) | ((d >= 0) & (b.seconds(L[k].s - L[j].s) > 0)))
    return ok
  def spec(i):
    q, l = it(i, ri=i['init_time']), lt(i, rl=i['lead_time'])
    v = None
    for k in range(loaders):
      t = U[k](i, ri=i['init_time'])
      x = P[k](i, **{f'init{k}': b.pos(f'init{k}', t), 'lead_time': b.pos('lead_time', l + (q - t))})
      v = x if v is None else b.where(best(i, k), x, v)
    return v
  def post(r):
    M = dict(init_time='ri', lead_time='rl')
    v = r.value['p']
    r.array('data', v, ['init_time', 'lead_time'], spec, dim_map=M)
    r.array('init times', v['init_time'], ['init_time'], lambda i: it(i, ri=i['init_time']), dim_map=M)
    r.array('lead times', v['lead_time'], ['lead_time'], lambda i: lt(i, rl=i['lead_time']), dim_map=M)
  b.ensures('chunk', run, post)


class Observations(base.DataLoader):
  """A sparse forecast: the valid pairs along index, with the init and lead time as coordinates."""

  def __init__(self, points):
    self.points = points
    super().__init__()

  def _load_chunk_from_source(self, init_times, lead_times=None):
    return {'p': self.points(init_times, lead_times)}


@contract('sparse', cases=[dict(n=1), dict(n=2)])
def _(b, n):
  """With init and lead time along index: the pieces one after the other, labelled with the requested times."""
  it, lt, lat = query(b, n)
  b.dim('index')
  b.dim('nom', hi=5)
  nom = b.array('nom_t', ['nom'], 'M', gen=some_nominal)
  use = ghost(b, 'use', 'nom', nom, it, lat)
  y = b.array('y', ['index'])
  off = b.array('off', ['index'], 'm', gen=lambda rng, s: (rng.integers(0, 9, s) * H).astype('timedelta64[ns]'))
  def run():
    def points(init_times, lead_times):
      e = off.da + init_times[0]
      return y.da.assign_coords(init_time=e - off.da, lead_time=off.da + lead_times[0])
    w = lw.ConstantLatencyWrapper(Observations(points), lat.val, nom.da.values, concat_dim='index')
    v = w.load_chunk(it.da.values, lt.da.values)['p']
    m = b.pysize('index')
    return [v] if n == 1 else [v.isel(index=slice(0, m)), v.isel(index=slice(m, None))]
  def post(r):
    for k, part in enumerate(r.value):
      bare = lambda x: x.drop_vars(['init_time', 'lead_time'])
      r.array('data', bare(part), ['index'], lambda i: y[i], coords=False)
      r.array('init times', bare(part.coords['init_time']), ['index'], lambda i: it[{'ri': k}], coords=False)
      r.array('lead times', bare(part.coords['lead_time']), ['index'], lambda i: off[i] + lt[{'rl': 0}], coords=False)
  b.ensures('chunk', run, post)
