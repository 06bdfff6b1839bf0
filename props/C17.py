"""Loaders pair predictions and targets at the same valid time."""
import numpy as np
from vc.contract import contract
from weatherbenchX.data_loaders import xarray_loaders as xl
from weatherbenchX.metrics import deterministic as det

H = np.timedelta64(1, 'h')
T0 = np.datetime64('2019-12-29T00', 'ns')


def init_labels(rng):
  return np.sort(T0 + rng.choice(16, rng.integers(2, 6), replace=False) * (6 * H))


def shuffled(f):
  return lambda rng: rng.permutation(f(rng)) if rng.random() < 0.3 else f(rng)


def lead_labels(rng):
  return np.sort(rng.choice(12, rng.integers(2, 5), replace=False) * (6 * H)).astype('timedelta64[ns]')


def valid_labels(rng):
  n = np.arange(30)
  if rng.random() < 0.3:
    n = np.delete(n, rng.integers(0, 30, 2))
  return T0 + n * (6 * H)


def pick_init(rng, shape):
  return T0 + rng.integers(0, 16, shape) * (6 * H)


def pick_lead(rng, shape):
  return (rng.integers(0, 12, shape) * (6 * H)).astype('timedelta64[ns]')


def request(b, labels=None, lead_labels_=None, init_hi=3):
  """The requested init and lead times: any times, in any order, possibly repeated."""
  b.allow_labels = False
  b.dim('ri', hi=init_hi)
  b.dim('rl', hi=3)
  from_ = lambda f, l: (lambda rng, shape: rng.choice(np.asarray(l()), shape)) if l is not None and not b.symbolic else f
  it = b.array('it', ['ri'], 'M', gen=from_(pick_init, labels))
  lt = b.array('lt', ['rl'], 'm', gen=from_(pick_lead, lead_labels_))
  return it, lt


LAYOUT = {
    'ecmwf': dict(names=dict(init='time', lead='prediction_timedelta', valid='time', lat='latitude', lon='longitude'), kw={}),
    'latlon': dict(names=dict(init='time', lead='prediction_timedelta', valid='time', lat='lat', lon='lon'), kw={}),
    'none': dict(names=dict(init='init_time', lead='lead_time', valid='valid_time', lat='latitude', lon='longitude'), kw=dict(rename_dimensions=None)),
    'dict': dict(names=dict(init='t0', lead='step', valid='vt', lat='latitude', lon='longitude'), kw={}),
}


def kwargs(layout, forecast):
  kw = dict(LAYOUT[layout]['kw'])
  if layout == 'dict':
    kw['rename_dimensions'] = {'t0': 'init_time', 'step': 'lead_time'} if forecast else {'vt': 'valid_time'}
  return kw


def space(b, n, prefix=''):
  for d, lab in (('lat', [-30.0, 0.0, 45.0]), ('lon', [0.0, 90.0, 180.0])):
    if n[d] not in b.doms if b.symbolic else n[d] not in b.sizes:
      b.dim(n[d])
      b.coord(n[d], n[d], gen=lambda rng, s, lab=lab: np.array(lab[:s[0]]))
  return [n['lat'], n['lon']]


RENAME = {'lat': 'latitude', 'lon': 'longitude'}


def forecast(b, layout, order='itll', partial=True, two=True, init='init', lead='lead'):
  """A forecast dataset of any size."""
  n = LAYOUT[layout]['names']
  if init == 'init':
    b.index_dim(n['init'], shuffled(init_labels), 'M', partial=partial)
  b.index_dim(n['lead'], lead_labels, 'm', partial=partial)
  sp = space(b, n)
  dims = {'itll': [n['init'], n['lead']] + sp, 'tlil': [n['lead'], sp[0], n['init'], sp[1]], 'llti': sp + [n['lead'], n['init']]}[order]
  p = b.array('p', dims, nan=True)
  q = b.array('q', [d for d in dims if d not in sp[:1]]) if two else None
  ds = b.xr.Dataset({'p': p.da, 'q': q.da} if two else {'p': p.da})
  return ds, p, q, n, sp


def analysis(b, layout, order='tll', partial=True, two=True, labels=valid_labels, name='a'):
  n = LAYOUT[layout]['names']
  b.index_dim(n['valid'], labels, 'M', partial=partial)
  sp = space(b, n)
  dims = {'tll': [n['valid']] + sp, 'ltl': [sp[0], n['valid'], sp[1]], 'llt': sp + [n['valid']]}[order]
  a = b.array(name, dims, nan=True)
  c = b.array(name + '2', [d for d in dims if d not in sp[:1]]) if two else None
  ds = b.xr.Dataset({name: a.da, name + '2': c.da} if two else {name: a.da})
  return ds, a, c, n, sp


def out_dims(h_dims, sub, n):
  ren = {n['lat']: 'latitude', n['lon']: 'longitude'}
  out = []
  for d in h_dims:
    for x in sub.get(d, [ren.get(d, d)]):
      out.append(x)
  return out


def maps(b, n):
  return {'init_time': 'ri', 'lead_time': 'rl', 'latitude': n['lat'], 'longitude': n['lon']}


def at(h, n, i, **over):
  """The element of the source array for the index i of the result."""
  return h({n['lat']: i.get('latitude'), n['lon']: i.get('longitude')}, **over)


def P(kw):
  return list(kw)


SRC = [dict(layout=l, order=o) for l, o in (('ecmwf', 'itll'), ('latlon', 'itll'), ('none', 'tlil'), ('dict', 'llti'), ('ecmwf', 'tlil'))]
ASRC = [dict(layout=l, order=o) for l, o in (('ecmwf', 'tll'), ('latlon', 'tll'), ('none', 'ltl'), ('dict', 'llt'), ('ecmwf', 'ltl'))]


def have(b, it, d, lt=None, d2=None):
  """Everything requested is available: every init time in d, every lead time in d2 (or every init + lead in d)."""
  if it is not None and (lt is None or d2 is not None):
    b.assume_all(['ri'], lambda i: b.has(d, it[i]))
  if d2 is not None:
    b.assume_all(['rl'], lambda i: b.has(d2, lt[i]))
  elif lt is not None:
    b.assume_all(['ri', 'rl'], lambda i: b.has(d, it[i] + lt[i]))


def check_times(b, r, ds, it, lt, valid=False):
  if it is not None:
    r.array('init times', ds['init_time'], ['init_time'], lambda i: it(i, ri=i['init_time']), dim_map=dict(init_time='ri'))
  if lt is not None:
    r.array('lead times', ds['lead_time'], ['lead_time'], lambda i: lt(i, rl=i['lead_time']), dim_map=dict(lead_time='rl'))
  if valid:
    r.array('valid times', ds['valid_time'].drop_vars(['init_time', 'lead_time', 'valid_time'], errors='ignore'), ['init_time', 'lead_time'],
            lambda i: it(i, ri=i['init_time']) + lt(i, rl=i['lead_time']), dim_map=dict(init_time='ri', lead_time='rl'))


@contract('predictions.exact', cases=SRC)
def _(b, layout, order):
  """The element for (init, lead) is the source's element with those labels."""
  ds, p, q, n, sp = forecast(b, layout, order)
  it, lt = request(b, *((lambda: b.coords[n['init']].values, lambda: b.coords[n['lead']].values) if not b.symbolic else ()))
  have(b, it, n['init'], lt, n['lead'])
  def src(h):
    return lambda i: at(h, n, i, **{n['init']: b.pos(n['init'], it(i, ri=i['init_time'])), n['lead']: b.pos(n['lead'], lt(i, rl=i['lead_time']))})
  def post(r):
    r.check('variables', set(r.value) == {'p', 'q'})
    for k, h in (('p', p), ('q', q)):
      D = ['init_time', 'lead_time'] + [RENAME.get(d, d) for d in h.dims if d in sp]
      r.array(k, r.value[k], D, src(h), dim_map=maps(b, n))
    check_times(b, r, r.value['p'], it, lt)
  b.ensures('chunk', lambda: xl.PredictionsFromXarray(ds=ds, **kwargs(layout, True)).load_chunk(it.da.values, lt.da.values), post)


@contract('predictions.all-leads', cases=SRC[:3])
def _(b, layout, order):
  """Without lead times, every lead time is returned."""
  ds, p, q, n, sp = forecast(b, layout, order)
  it, _ = request(b, (lambda: b.coords[n['init']].values) if not b.symbolic else None)
  have(b, it, n['init'])
  def post(r):
    D = ['init_time', 'lead_time'] + [RENAME.get(d, d) for d in sp]
    r.array('p', r.value['p'], D, lambda i: at(p, n, i, **{n['init']: b.pos(n['init'], it(i, ri=i['init_time'])), n['lead']: i['lead_time']}),
            dim_map={**maps(b, n), 'lead_time': n['lead']})
    check_times(b, r, r.value['p'], it, None)
    lead = b.coords[n['lead']]
    r.array('lead times', r.value['p']['lead_time'], ['lead_time'], lambda i: lead(i, **{n['lead']: i['lead_time']}), dim_map=dict(lead_time=n['lead']))
  b.ensures('chunk', lambda: xl.PredictionsFromXarray(ds=ds, **kwargs(layout, True)).load_chunk(it.da.values), post)


@contract('predictions.interval', cases=[dict(lo=lo, hi=hi) for lo in (True, False) for hi in (True, False)])
def _(b, lo, hi):
  """A lead time interval gives exactly the lead times of the source in it, ends included."""
  b.allow_transpose = False
  b.allow_labels = False
  b.index_dim('init_time', init_labels, 'M', partial=True)
  b.label_dim('lead_time', lead_labels)
  b.dim('ri')
  it = b.array('it', ['ri'], 'M', gen=lambda rng, s: rng.choice(b.coords['init_time'].values, s))
  p = b.array('p', ['init_time', 'lead_time'])
  have(b, it, 'init_time')
  ends = [b.scalar(k, 'm', gen=lambda rng: np.timedelta64(int(rng.integers(0, 66)), 'h').astype('timedelta64[ns]')) if on else None
          for k, on in (('lo', lo), ('hi', hi))]
  b.label_slice('rl', 'lead_time', *[None if e is None else e.s for e in ends])
  sl = slice(*[None if e is None else e.val for e in ends])
  ds = b.xr.Dataset({'p': p.da})
  def post(r):
    r.array('p', r.value['p'], ['init_time', 'lead_time'], lambda i: p(i, init_time=b.pos('init_time', it(i, ri=i['init_time']))),
            dim_map=dict(init_time='ri', lead_time='rl'))
  b.ensures('chunk', lambda: xl.PredictionsFromXarray(ds=ds, rename_dimensions=None).load_chunk(it.da.values, sl), post)


@contract('targets.exact', cases=ASRC)
def _(b, layout, order):
  """The element for (init, lead) is the source's element at valid time init + lead."""
  ds, a, c, n, sp = analysis(b, layout, order)
  it, lt = request(b)
  have(b, it, n['valid'], lt)
  def post(r):
    r.check('variables', set(r.value) == {'a', 'a2'})
    for k, h in (('a', a), ('a2', c)):
      D = ['init_time', 'lead_time'] + [RENAME.get(d, d) for d in h.dims if d in sp]
      r.array(k, r.value[k], D, lambda i: at(h, n, i, **{n['valid']: b.pos(n['valid'], it(i, ri=i['init_time']) + lt(i, rl=i['lead_time']))}), dim_map=maps(b, n))
    check_times(b, r, r.value['a'], it, lt, valid=True)
  b.ensures('chunk', lambda: xl.TargetsFromXarray(ds=ds, **kwargs(layout, False)).load_chunk(it.da.values, lt.da.values), post)


@contract('targets.no-leads', cases=ASRC[:3])
def _(b, layout, order):
  """Without lead times the init times are the valid times."""
  ds, a, c, n, sp = analysis(b, layout, order)
  it, _ = request(b)
  have(b, it, n['valid'])
  def post(r):
    D = ['valid_time'] + [RENAME.get(d, d) for d in sp]
    r.array('a', r.value['a'], D, lambda i: at(a, n, i, **{n['valid']: b.pos(n['valid'], it(i, ri=i['valid_time']))}), dim_map={**maps(b, n), 'valid_time': 'ri'})
    r.array('valid times', r.value['a']['valid_time'], ['valid_time'], lambda i: it(i, ri=i['valid_time']), dim_map=dict(valid_time='ri'))
  b.ensures('chunk', lambda: xl.TargetsFromXarray(ds=ds, **kwargs(layout, False)).load_chunk(it.da.values), post)


CLIM = [dict(coords=c, order=o) for c in (('dayofyear', 'hour'), ('hour', 'dayofyear'), ('dayofyear',), ('hour',)) for o in ('first', 'last')]


def climatology(b, coords, order):
  labels = dict(dayofyear=np.array([1, 2, 3, 4, 363, 364, 365, 366]), hour=np.array([0, 6, 12, 18]))
  for d in coords:
    b.index_dim(d, labels[d], 'i', partial=True)
  b.dim('x')
  c = b.array('c', list(coords) + ['x'] if order == 'first' else ['x'] + list(coords))
  return b.xr.Dataset({'c': c.da}), c


def clim_pos(b, coords, t):
  f = dict(dayofyear=b.doy, hour=b.hour)
  return {d: b.pos(d, f[d](t)) for d in coords}


def have_clim(b, coords, it, lt=None):
  f = dict(dayofyear=b.doy, hour=b.hour)
  b.assume_all(['ri', 'rl'] if lt is not None else ['ri'], lambda i: all_(b, [b.has(d, f[d](it[i] + lt[i] if lt is not None else it[i])) for d in coords]))


def all_(b, cs):
  out = b.true()
  for c in cs:
    out = out & c
  return out


@contract('climatology.exact', cases=CLIM)
def _(b, coords, order):
  """The element for (init, lead) is the climatology of the day of year and hour of init + lead."""
  it, lt = request(b)
  ds, c = climatology(b, coords, order)
  have_clim(b, coords, it, lt)
  def post(r):
    r.array('c', r.value['c'], ['init_time', 'lead_time', 'x'], lambda i: c(i, **clim_pos(b, coords, it(i, ri=i['init_time']) + lt(i, rl=i['lead_time']))),
            dim_map=dict(init_time='ri', lead_time='rl'))
    check_times(b, r, r.value['c'], it, lt)
  b.ensures('chunk', lambda: xl.ClimatologyFromXarray(climatology_time_coords=coords, ds=ds).load_chunk(it.da.values, lt.da.values), post)


@contract('climatology.no-leads', cases=CLIM[:2] + CLIM[4:6])
def _(b, coords, order):
  it, _ = request(b)
  ds, c = climatology(b, coords, order)
  have_clim(b, coords, it)
  def post(r):
    r.array('c', r.value['c'], ['init_time', 'x'], lambda i: c(i, **clim_pos(b, coords, it(i, ri=i['init_time']))), dim_map=dict(init_time='ri'))
    check_times(b, r, r.value['c'], it, None)
  b.ensures('chunk', lambda: xl.ClimatologyFromXarray(climatology_time_coords=coords, ds=ds).load_chunk(it.da.values), post)


@contract('persistence', cases=ASRC)
def _(b, layout, order):
  """The prediction at every lead time is the analysis at the init time."""
  ds, a, c, n, sp = analysis(b, layout, order)
  it, lt = request(b)
  have(b, it, n['valid'])
  def post(r):
    for k, h in (('a', a), ('a2', c)):
      D = ['init_time', 'lead_time'] + [RENAME.get(d, d) for d in h.dims if d in sp]
      r.array(k, r.value[k], D, lambda i: at(h, n, i, **{n['valid']: b.pos(n['valid'], it(i, ri=i['init_time']))}), dim_map=maps(b, n))
    check_times(b, r, r.value['a'], it, lt)
  b.ensures('chunk', lambda: xl.PersistenceFromXarray(ds=ds, **kwargs(layout, False)).load_chunk(it.da.values, lt.da.values), post)


@contract('probabilistic-climatology', cases=[dict(first=f, last=l, dim=d) for f, l, d in ((2018, 2020, 'number'), (2019, 2019, 'realization'), (2017, 2018, 'number'))])
def _(b, first, last, dim):
  """Member k for (init, lead) is the analysis at day-of-year and hour of init + lead in year first + k."""
  b.allow_labels = False
  years = range(first, last + 1)
  jan1 = [np.datetime64(str(y)).astype('datetime64[ns]') for y in range(first, last + 2)]
  def labels(rng):
    return np.unique(np.concatenate([y + np.arange(-24 * 8, 24 * 40, 6) * H for y in jan1]))
  b.index_dim('valid_time', labels, 'M', partial=True)
  b.dim('x', hi=2)
  a = b.array('a', ['valid_time', 'x'])
  it, lt = request(b)
  if not b.symbolic:
    # in January, or around the end of a leap or of another year
    it.values = it.values - T0 + np.datetime64(b.rng.choice(['2020-01-01', '2020-12-28', '2019-12-29']), 'ns')
  def source(k, t):
    return b.t(jan1[k]) + b.duration((b.doy(t) - 1.0) * 86400.0 + b.hour(t) * 3600.0)
  for k in range(len(years)):
    b.assume_all(['ri', 'rl'], lambda i, k=k: b.has('valid_time', source(k, it[i] + lt[i])))
  ds = b.xr.Dataset({'a': a.da})
  def post(r):
    r.check('members', [int(x) for x in r.value['a'][dim].values] == list(range(len(years))))
    for k, y in enumerate(years):
      def want(i):
        t = it(i, ri=i['init_time']) + lt(i, rl=i['lead_time'])
        return a(i, valid_time=b.pos('valid_time', source(k, t)))
      r.array(f'member {k}', r.value['a'].isel({dim: k}, drop=True), ['init_time', 'lead_time', 'x'], want, dim_map=dict(init_time='ri', lead_time='rl'))
    check_times(b, r, r.value['a'], it, lt)
  b.ensures('chunk', lambda: xl.ProbabilisticClimatologyFromXarray(start_year=first, end_year=last, ensemble_dim=dim, ds=ds, rename_dimensions=None)
            .load_chunk(it.da.values, lt.da.values), post)


@contract('pairing', cases=[dict(layout='ecmwf'), dict(layout='none')])
def _(b, layout):
  """A statistic of the loaded chunks compares every prediction with the target at its valid time."""
  b.allow_labels = False
  n = LAYOUT[layout]['names']
  b.index_dim('t0', init_labels, 'M', partial=True); b.index_dim('lt0', lead_labels, 'm', partial=True); b.index_dim('vt0', valid_labels, 'M', partial=True)
  b.dim('x')
  p, a = b.array('p', ['t0', 'lt0', 'x'], nan=True), b.array('a', ['x', 'vt0'], nan=True)
  it, lt = request(b, *((lambda: b.coords['t0'].values, lambda: b.coords['lt0'].values) if not b.symbolic else ()))
  have(b, it, 't0', lt, 'lt0')
  have(b, it, 'vt0', lt)
  pred = xl.PredictionsFromXarray(ds=b.xr.Dataset({'v': p.da.rename({'t0': n['init'], 'lt0': n['lead']})}), **kwargs(layout, True))
  targ = xl.TargetsFromXarray(ds=b.xr.Dataset({'v': a.da.rename({'vt0': n['valid']})}), **kwargs(layout, False))
  def run():
    t = targ.load_chunk(it.da.values, lt.da.values)
    return det.SquaredError().compute(dict(pred.load_chunk(it.da.values, lt.da.values, t)), dict(t))['v']
  def want(i):
    u, l = it(i, ri=i['init_time']), lt(i, rl=i['lead_time'])
    d = p(i, t0=b.pos('t0', u), lt0=b.pos('lt0', l)) - a(i, vt0=b.pos('vt0', u + l))
    return d * d
  if not b.symbolic and len(set(it.values.tolist())) < it.values.size or not b.symbolic and len(set(lt.values.tolist())) < lt.values.size:
    b.assume(np.bool_(False))
  b.ensures('statistic', run, lambda r: r.array('value', r.value, ['init_time', 'lead_time', 'x'], want, dim_map=dict(init_time='ri', lead_time='rl')))


# Times that are not available


@contract('missing.predictions', cases=[dict(what=w) for w in ('init', 'lead')])
def _(b, what):
  ds, p, q, n, sp = forecast(b, 'ecmwf', two=False)
  it, lt = request(b)
  h, d, k = (it, n['init'], 'ri') if what == 'init' else (lt, n['lead'], 'rl')
  b.assume(b.any({}, [k], lambda i: ~b.has(d, h[i])))
  b.ensures('chunk', lambda: xl.PredictionsFromXarray(ds=ds).load_chunk(it.da.values, lt.da.values), lambda r: r.raises('reported', KeyError))


@contract('missing.targets', cases=[dict(loader=l, leads=ld) for l in ('targets', 'persistence') for ld in (True, False) if ld or l == 'targets'])
def _(b, loader, leads):
  ds, a, c, n, sp = analysis(b, 'ecmwf', two=False)
  it, lt = request(b)
  if loader == 'targets' and leads:
    b.assume(b.any({}, ['ri', 'rl'], lambda i: ~b.has('time', it[i] + lt[i])))
  else:
    b.assume(b.any({}, ['ri'], lambda i: ~b.has('time', it[i])))
  L = xl.TargetsFromXarray if loader == 'targets' else xl.PersistenceFromXarray
  b.ensures('chunk', lambda: L(ds=ds).load_chunk(it.da.values, *([lt.da.values] if leads else [])), lambda r: r.raises('reported', KeyError))


@contract('missing.climatology')
def _(b):
  it, lt = request(b)
  b.index_dim('dayofyear', np.arange(1, 4), 'i', partial=True); b.index_dim('hour', np.array([0, 12]), 'i', partial=True)
  c = b.array('c', ['hour', 'dayofyear'])
  ds = b.xr.Dataset({'c': c.da})
  b.assume(b.any({}, ['ri', 'rl'], lambda i: ~(b.has('dayofyear', b.doy(it[i] + lt[i])) & b.has('hour', b.hour(it[i] + lt[i])))))
  b.ensures('chunk', lambda: xl.ClimatologyFromXarray(ds=ds).load_chunk(it.da.values, lt.da.values), lambda r: r.raises('reported', KeyError))


@contract('refused', cases=[dict(loader=l, lead=x) for l, x in (('targets', 'slice'), ('climatology', 'slice'), ('persistence', 'slice'), ('persistence', 'none'),
                                                               ('probabilistic', 'slice'), ('probabilistic', 'none'))])
def _(b, loader, lead):
  """Lead time intervals (and absent lead times) are refused where they have no meaning."""
  b.dim('ri')
  it = b.array('it', ['ri'], 'M', gen=pick_init)
  if loader == 'climatology':
    ds, _ = climatology(b, ('dayofyear', 'hour'), 'first')
  else:
    ds = analysis(b, 'ecmwf', two=False)[0]
  make = dict(targets=lambda: xl.TargetsFromXarray(ds=ds), climatology=lambda: xl.ClimatologyFromXarray(ds=ds), persistence=lambda: xl.PersistenceFromXarray(ds=ds),
              probabilistic=lambda: xl.ProbabilisticClimatologyFromXarray(start_year=2019, end_year=2020, ds=ds))[loader]
  arg = dict(slice=slice(np.timedelta64(0, 'h'), np.timedelta64(12, 'h')), none=None)[lead]
  b.ensures('chunk', lambda: make().load_chunk(it.da.values, arg), lambda r: r.raises('refused', ValueError))
