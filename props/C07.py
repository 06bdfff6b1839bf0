"""Anomaly statistics and the climatology they are compared with."""
import numpy as np
import pandas as pd
import xarray as xr
from vc.contract import contract
from props.common import SIDES, mask_kept, masked_pair
from weatherbenchX import aggregation
from weatherbenchX.metrics import base
from weatherbenchX.metrics import deterministic as det

STATS = {
    'pred2': (det.SquaredPredictionAnomaly, lambda p, t, c: (p - c) * (p - c)),
    'targ2': (det.SquaredTargetAnomaly, lambda p, t, c: (t - c) * (t - c)),
    'cov': (det.AnomalyCovariance, lambda p, t, c: (p - c) * (t - c)),
}


def six_hourly(rng, shape):
  return np.datetime64('2019-12-20T00', 'ns') + 6 * rng.integers(0, 4 * 450, shape).astype('timedelta64[h]')


def year_end(rng, shape):
  """Around the end of February and of the year, in a leap and a common year."""
  d = rng.choice(np.array(['2020-02-28', '2020-12-30', '2019-12-30', '2021-02-27', '2020-06-01'], dtype='datetime64[D]'), shape)
  return (d.astype('datetime64[ns]') + 6 * rng.integers(0, 9, shape).astype('timedelta64[h]')).astype('datetime64[ns]')


def leads(rng, shape):
  return 6 * rng.integers(0, 12, shape).astype('timedelta64[h]').astype('timedelta64[ns]')


LAYOUTS = ['valid_dim', 'valid_aux', 'valid_2d', 'init_lead', 'init_lead_aux', 'lead_scalar', 'both']
CLIMS = ['doy', 'doy_hour', 'time']


def layout(b, kind, times=year_end):
  """Declares the forecast's time layout; returns (data dims, valid time of an index)."""
  b.allow_labels = False
  b.dim('x')
  if kind == 'valid_dim':
    b.dim('valid_time')
    v = b.coord('valid_time', 'valid_time', 'M', gen=times)
    return ['valid_time', 'x'], lambda i: v[i]
  if kind == 'valid_aux':
    # sparse observations: valid time is a coordinate along an index dimension
    b.dim('s')
    v = b.coord('valid_time', 's', 'M', gen=times)
    return ['s', 'x'], lambda i: v[i]
  if kind == 'valid_2d':
    b.dim('s'); b.dim('lead_time')
    v = b.coord('valid_time', ['s', 'lead_time'], 'M', gen=times)
    return ['s', 'lead_time', 'x'], lambda i: v[i]
  if kind == 'both':
    # an explicit valid time wins over init and lead time
    b.dim('init_time'); b.dim('lead_time')
    b.coord('init_time', 'init_time', 'M', gen=times)
    b.coord('lead_time', 'lead_time', 'm', gen=leads)
    v = b.coord('valid_time', ['init_time', 'lead_time'], 'M', gen=times)
    return ['init_time', 'lead_time', 'x'], lambda i: v[i]
  if kind == 'init_lead_aux':
    b.dim('s')
    it = b.coord('init_time', 's', 'M', gen=times)
    lt = b.coord('lead_time', 's', 'm', gen=leads)
    return ['s', 'x'], lambda i: it[i] + lt[i]
  b.dim('init_time')
  it = b.coord('init_time', 'init_time', 'M', gen=times)
  if kind == 'lead_scalar':
    lt = b.coord('lead_time', [], 'm', gen=leads)
    return ['x', 'init_time'], lambda i: it[i] + lt[i]
  b.dim('lead_time')
  lt = b.coord('lead_time', 'lead_time', 'm', gen=leads)
  return ['x', 'init_time', 'lead_time'], lambda i: it[i] + lt[i]


def climatology(b, kind, name='c'):
  """Returns (handle, value at (index, valid time)). Its own `x` matches the data's."""
  if kind == 'time':
    b.label_dim('time', np.arange(np.datetime64('2019-12-01', 'ns'), np.datetime64('2021-04-10', 'ns'), np.timedelta64(6, 'h')))
    c = b.array(name, ['time', 'x'], nan=True, da_name=name)
    return c, lambda i, v: c(i, time=b.label(v))
  b.label_dim('dayofyear', np.arange(1, 367))
  if kind == 'doy':
    c = b.array(name, ['x', 'dayofyear'], nan=True, da_name=name)
    return c, lambda i, v: c(i, dayofyear=b.label(b.doy(v)))
  b.label_dim('hour', np.array([0, 6, 12, 18]))
  c = b.array(name, ['hour', 'dayofyear', 'x'], nan=True, da_name=name)
  return c, lambda i, v: c(i, dayofyear=b.label(b.doy(v)), hour=b.label(b.hour(v)))


ANY = [dict(stat=s, time=l, clim=c) for s in STATS for l in LAYOUTS for c in CLIMS
       if s == 'cov' or (l in ('init_lead', 'valid_dim') and c == 'doy_hour')]


@contract('anomaly.aligned', cases=ANY)
def _(b, stat, time, clim):
  """Every anomaly uses the climatology of the element's own valid time and place."""
  dims, vt = layout(b, time)
  p = b.array('p', dims, nan=True)
  t = b.array('t', dims, nan=True)
  c, at = climatology(b, clim)
  cls, formula = STATS[stat]
  b.ensures('value', lambda: cls(b.xr.Dataset({'v': c.da, 'unused': c.da})).compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, dims, lambda i: formula(p[i], t[i], at(i, vt(i)))))


@contract('anomaly.coordinates', cases=[dict(stat=s, side=w) for s in STATS for w in SIDES])
def _(b, stat, side):
  """The mask of either input reaches each of the statistics that are combined."""
  dims, vt = layout(b, 'init_lead')
  m = b.array('mask', dims, kind='b', coords=False)
  p = b.array('p', dims, nan=True)
  t = b.array('t', dims, nan=True)
  c, at = climatology(b, 'doy')
  cls, formula = STATS[stat]
  def run():
    pd_, td = masked_pair(side, p.da, t.da, m)
    return cls(b.xr.Dataset({'v': c.da})).compute({'v': pd_}, {'v': td})['v']
  def post(r):
    # a missing value of the input that is not used does not matter
    r.array('value', r.value, dims, lambda i: formula(p[i], t[i], at(i, vt(i))))
    mask_kept(r, r.value, m, dims)
  b.ensures('value', run, post)


@contract('anomaly.per-variable')
def _(b):
  """Each variable is compared with its own climatology."""
  dims, vt = layout(b, 'init_lead')
  p = b.array('p', dims, nan=True)
  q = b.array('q', dims, nan=True)
  t = b.array('t', dims, nan=True)
  u = b.array('u', dims, nan=True)
  c, at = climatology(b, 'doy_hour')
  d = b.array('d', ['x', 'dayofyear'], da_name='d')
  f = lambda: det.AnomalyCovariance(b.xr.Dataset({'u': d.da, 'v': c.da})).compute({'v': p.da, 'u': q.da}, {'v': t.da, 'u': u.da})
  def post(r):
    r.check('variables', set(r.value) == {'u', 'v'})
    r.array('v', r.value['v'], dims, lambda i: (p[i] - at(i, vt(i))) * (t[i] - at(i, vt(i))))
    # the Dataset spans hours, but this variable's climatology has none of its own
    dd = lambda i: d(i, dayofyear=b.label(b.doy(vt(i))))
    r.array('u', r.value['u'], dims, lambda i: (q[i] - dd(i)) * (u[i] - dd(i)))
  b.ensures('value', f, post)


@contract('anomaly.level')
def _(b):
  """Climatologies with a level dimension are taken at the data's own level."""
  dims, vt = layout(b, 'init_lead')
  b.dim('level')
  p = b.array('p', dims + ['level'], nan=True)
  t = b.array('t', ['level'] + dims, nan=True)
  b.label_dim('dayofyear', np.arange(1, 367))
  c = b.array('c', ['dayofyear', 'level', 'x'], da_name='c')
  at = lambda i: c(i, dayofyear=b.label(b.doy(vt(i))))
  b.ensures('value', lambda: det.AnomalyCovariance(b.xr.Dataset({'v': c.da})).compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, dims + ['level'], lambda i: (p[i] - at(i)) * (t[i] - at(i))))


@contract('anomaly.no-time', cases=[dict(have=h) for h in ('none', 'init', 'lead')])
def _(b, have):
  """Without a valid time, or both an init and a lead time, the comparison is refused."""
  b.allow_labels = False
  b.dim('x'); b.dim('k')
  if have == 'init':
    b.coord('init_time', 'k', 'M', gen=year_end)
  if have == 'lead':
    b.coord('lead_time', 'k', 'm', gen=leads)
  p = b.array('p', ['k', 'x'])
  c, _ = climatology(b, 'doy')
  b.ensures('refused', lambda: det.SquaredPredictionAnomaly(b.xr.Dataset({'v': c.da})).compute({'v': p.da}, {'v': p.da})['v'],
            lambda r: r.raises('refused', ValueError))


@contract('anomaly.absent-label', mode='bounded', samples=12, cases=[dict(clim=c, layout=l) for c in ('doy', 'doy_hour', 'time') for l in ('valid_dim', 'init_lead')])
def _(b, clim, layout):
  """A valid time the climatology does not cover is an error, never the climatology of a neighbouring time."""
  b.allow_labels = False
  b.dim('x', size=1)
  k = int(b.rng.integers(1, 4))
  n = int(b.rng.integers(0, k))
  t = pd.to_datetime('2020-03-01') + pd.to_timedelta(6 * b.rng.integers(0, 40, k), unit='h')
  days, hours = sorted(set(range(50, 80)) - {int(t[n].dayofyear)}), sorted({0, 6, 12, 18} - {int(t[n].hour)})
  b.sampler.record[('args', '')] = str((clim, layout, list(t), n))
  def run():
    if clim == 'time':
      s = pd.date_range('2020-02-20', '2020-03-20', freq='6h')
      s = s[s != t[n]]
      c = xr.DataArray(np.arange(float(len(s))), dims='time', coords={'time': s})
    elif clim == 'doy':
      c = xr.DataArray(np.arange(float(len(days))), dims='dayofyear', coords={'dayofyear': days})
    else:
      c = xr.DataArray(np.zeros((366, len(hours))), dims=['dayofyear', 'hour'], coords={'dayofyear': np.arange(1, 367), 'hour': hours})
    if layout == 'valid_dim':
      p = xr.DataArray(np.zeros(k), dims='valid_time', coords={'valid_time': t})
    else:
      p = xr.DataArray(np.zeros((k, 1)), dims=['init_time', 'lead_time'], coords={'init_time': t - pd.Timedelta('18h'), 'lead_time': [np.timedelta64(18, 'h').astype('timedelta64[ns]')]})
    return det.SquaredPredictionAnomaly(xr.Dataset({'v': c})).compute({'v': p}, {'v': p})['v']
  b.ensures('refused', run, lambda r: r.raises('refused', KeyError, ValueError, IndexError))


@contract('anomaly.hours', mode='bounded', samples=12, cases=[dict(step=h) for h in (1, 3, 6, 12, 24)])
def _(b, step):
  """Hour labels of any spacing: the climatology of the very hour of the valid time."""
  b.dim('x', size=1)
  k = int(b.rng.integers(1, 4))
  it = pd.to_datetime('2020-02-27') + pd.to_timedelta(step * b.rng.integers(0, 100, k), unit='h')
  lt = np.unique(step * b.rng.integers(0, 60, 3)).astype('timedelta64[h]').astype('timedelta64[ns]')
  it = it.unique()
  hours = np.arange(0, 24, step)
  cv = b.rng.normal(size=(366, len(hours)))
  b.sampler.record[('args', '')] = str((step, list(it), list(lt)))
  def run():
    c = xr.DataArray(cv, dims=['dayofyear', 'hour'], coords={'dayofyear': np.arange(1, 367), 'hour': hours})
    p = xr.DataArray(np.zeros((len(it), len(lt))), dims=['init_time', 'lead_time'], coords={'init_time': it, 'lead_time': lt})
    return det.SquaredPredictionAnomaly(xr.Dataset({'v': c})).compute({'v': p}, {'v': p})['v']
  def post(r):
    want = np.array([[cv[(a + pd.Timedelta(d)).dayofyear - 1, (a + pd.Timedelta(d)).hour // step] ** 2 for d in lt] for a in it])
    r.check('value', np.allclose(r.value.transpose('init_time', 'lead_time').values, want))
  b.ensures('value', run, post)


@contract('anomaly.perfect')
def _(b):
  """A perfect forecast has equal squared anomalies and covariance."""
  dims, vt = layout(b, 'init_lead')
  p = b.array('p', dims, nan=True)
  c, at = climatology(b, 'doy_hour')
  ds = lambda: b.xr.Dataset({'v': c.da})
  for cls in (det.SquaredTargetAnomaly, det.AnomalyCovariance):
    b.ensures(cls.__name__, lambda cls=cls: (cls(ds()).compute({'v': p.da}, {'v': p.da})['v'],
                                             det.SquaredPredictionAnomaly(ds()).compute({'v': p.da}, {'v': p.da})['v']),
              lambda r: r.array('same', r.value[0], dims, lambda i: (p[i] - at(i, vt(i))) * (p[i] - at(i, vt(i)))))


# metrics from the aggregates

@contract('anomaly.metrics', cases=[dict(metric=m) for m in ('ACC', 'PredictionActivity')])
def _(b, metric):
  b.dim('k')
  pp = b.array('pp', ['k'], nan=True)
  tt = b.array('tt', ['k'], nan=True)
  pt = b.array('pt', ['k'], nan=True)
  b.assume_all(['k'], lambda i: (pp[i] >= 0.0) | b.isnan(pp[i]))
  b.assume_all(['k'], lambda i: (tt[i] >= 0.0) | b.isnan(tt[i]))
  stats = {'SquaredPredictionAnomaly': pp, 'SquaredTargetAnomaly': tt, 'AnomalyCovariance': pt}
  def run():
    m = getattr(det, metric)(None)
    return m.values_from_mean_statistics({k: {'v': stats[k].da} for k in m.statistics})['v']
  if metric == 'ACC':
    spec = lambda i: pt[i] / (b.sqrt(pp[i]) * b.sqrt(tt[i]))
  else:
    spec = lambda i: b.sqrt(pp[i])
  b.ensures('value', run, lambda r: r.array('value', r.value, ['k'], spec))


@contract('anomaly.statistics')
def _(b):
  """The metrics declare exactly the statistics computed from their own climatology."""
  dims, vt = layout(b, 'init_lead')
  p = b.array('p', dims, nan=True)
  t = b.array('t', dims, nan=True)
  c, at = climatology(b, 'doy_hour')
  ds = lambda: b.xr.Dataset({'v': c.da})
  for metric in ('ACC', 'PredictionActivity'):
    def post(r, metric=metric):
      want = {'SquaredPredictionAnomaly': 'pred2', 'SquaredTargetAnomaly': 'targ2', 'AnomalyCovariance': 'cov'}
      if metric == 'PredictionActivity':
        want = {'SquaredPredictionAnomaly': 'pred2'}
      r.check('names', set(r.value) == set(want))
      for k, s in want.items():
        r.array(k, r.value[k], dims, lambda i, s=s: STATS[s][1](p[i], t[i], at(i, vt(i))))
    b.ensures(metric, lambda metric=metric: {k: s.compute({'v': p.da}, {'v': t.da})['v'] for k, s in getattr(det, metric)(ds()).statistics.items()}, post)


@contract('anomaly.acc-aggregated', cases=[dict(mask=None)] + [dict(mask=s) for s in SIDES])
def _(b, mask):
  """Through the aggregator: sums of products over sums of weights, all three over the same (unmasked) elements."""
  b.allow_labels = False
  dims, vt = layout(b, 'init_lead')
  p = b.array('p', dims)
  t = b.array('t', dims)
  b.label_dim('dayofyear', np.arange(1, 367))
  c = b.array('c', ['x', 'dayofyear'], da_name='c')
  at = lambda i: c(i, dayofyear=b.label(b.doy(vt(i))))
  m = b.array('mask', ['x', 'lead_time'], kind='b', coords=False) if mask else None
  S = lambda i, f: b.sum(i, ['init_time', 'x'], f if m is None else lambda j: b.where(m[j], f(j), b.f(0.0)))
  A = lambda i: p[i] - at(i)
  B = lambda i: t[i] - at(i)
  n = (lambda i: b.size('init_time') * b.size('x')) if m is None else (lambda i: b.sum(i, ['init_time', 'x'], lambda j: b.num(m[j])))
  def run():
    agg = aggregation.Aggregator(reduce_dims=['init_time', 'x'], masked=m is not None)
    pd_, td = masked_pair(mask, p.da, t.da, m) if m is not None else (p.da, t.da)
    metrics = {'acc': det.ACC(b.xr.Dataset({'v': c.da}))}
    return aggregation.compute_metric_values_for_single_chunk(metrics, agg, {'v': pd_}, {'v': td})['acc.v']
  def spec(i):
    k = n(i)
    return (S(i, lambda j: A(j) * B(j)) / k) / (b.sqrt(S(i, lambda j: A(j) * A(j)) / k) * b.sqrt(S(i, lambda j: B(j) * B(j)) / k))
  b.ensures('acc', run, lambda r: r.array('acc', r.value, ['lead_time'], spec))


@contract('anomaly.acc-range')
def _(b):
  """Cauchy-Schwarz on the aggregates gives a correlation in [-1, 1]; one for equal anomalies."""
  b.dim('k')
  pp = b.array('pp', ['k'])
  tt = b.array('tt', ['k'])
  pt = b.array('pt', ['k'])
  b.assume_all(['k'], lambda i: (pp[i] > 0.0) & (tt[i] > 0.0) & (pt[i] * pt[i] <= pp[i] * tt[i]))
  stats = {'SquaredPredictionAnomaly': pp, 'SquaredTargetAnomaly': tt, 'AnomalyCovariance': pt}
  def post(r):
    def body(i):
      v = r.value.at(i) if r.symbolic else float(r.value.isel(i))
      return (v * v <= 1.0) if r.symbolic else np.bool_(v * v <= 1.0 + 1e-9)
    r.forall('range', ['k'], body)
  b.ensures('range', lambda: det.ACC(None).values_from_mean_statistics({k: {'v': s.da} for k, s in stats.items()})['v'], post)


@contract('anomaly.calendar', mode='bounded', samples=1)
def _(b):
  """Day-of-year and hour accessor facts assumed by the proofs: 1 January is day 1, 29 February is day 60, hours 0-23."""
  import datetime
  import pandas as pd
  b.dim('x', size=1)
  def run():
    import xarray as xr
    t = pd.date_range('2019-01-01', '2021-12-31T18', freq='6h')
    da = xr.DataArray(t, dims='t')
    return da.dt.dayofyear.values, da.dt.hour.values, [(x.to_pydatetime().timetuple().tm_yday, x.hour) for x in t]
  b.ensures('calendar', run, lambda r: r.check('equal', [tuple(map(int, z)) for z in zip(r.value[0], r.value[1])] == r.value[2]))
