"""Per-element deterministic statistics and the metrics derived from them.

Every statistic of metrics/deterministic.py that needs no climatology is the
stated function of the prediction and target at the same labels, for arrays of
every size, with NaN (missing value) in either input giving a missing result."""
from vc.contract import contract
from weatherbenchX.metrics import base
from weatherbenchX.metrics import deterministic as det

M = 'metrics/deterministic.py'


def pt(b, dims=('time', 'x'), nan=True, inf=False):
  for d in dims:
    b.dim(d)
  p = b.array('p', dims, nan=nan, inf=inf, da_name='v')
  t = b.array('t', dims, nan=nan, inf=inf, da_name='v')
  return p, t


SIMPLE = {
    'Error': (det.Error, lambda b, x, y: x - y),
    'AbsoluteError': (det.AbsoluteError, lambda b, x, y: abs(x - y)),
    'SquaredError': (det.SquaredError, lambda b, x, y: (x - y) * (x - y)),
    'PredictionPassthrough': (det.PredictionPassthrough, lambda b, x, y: b.where(b.isnan(y), y, x)),
    'PredictionPassthroughCopy': (lambda: det.PredictionPassthrough(copy_nans_from_targets=True), lambda b, x, y: b.where(b.isnan(y), y, x)),
    'TargetPassthrough': (det.TargetPassthrough, lambda b, x, y: b.where(b.isnan(x), x, y)),
    'TargetPassthroughCopy': (lambda: det.TargetPassthrough(copy_nans_from_predictions=True), lambda b, x, y: b.where(b.isnan(x), x, y)),
}


@contract('det.elementwise', cases=[dict(name=n) for n in SIMPLE])
def _(b, name):
  p, t = pt(b)
  make, spec = SIMPLE[name]
  # zeros_like(targets) is 0 also where the target is NaN: pass-through keeps
  # the prediction there unless copying NaN is requested.
  if name in ('PredictionPassthrough', 'TargetPassthrough'):
    src = p if name[0] == 'P' else t
    spec = lambda b, x, y: None
    sp = lambda i: src[i]
  else:
    sp = lambda i: spec(b, p[i], t[i])
  def post(r):
    r.check('variables', set(r.value) == {'v'})
    r.array('value', r.value['v'], ['time', 'x'], sp)
  b.ensures('compute', lambda: make().compute({'v': p.da}, {'v': t.da}), post)


@contract('det.common-variables')
def _(b):
  """Only variables in both inputs, each from its own pair."""
  b.dim('x')
  p1, p2, t2, t3 = [b.array(n, ['x'], nan=True) for n in ('p1', 'p2', 't2', 't3')]
  def post(r):
    r.check('variables', set(r.value) == {'b'})
    r.array('value', r.value['b'], ['x'], lambda i: p2[i] - t2[i])
  b.ensures('compute', lambda: det.Error().compute({'a': p1.da, 'b': p2.da}, {'b': t2.da, 'c': t3.da}), post)


@contract('det.broadcast')
def _(b):
  """A dimension only one side has is broadcast by name."""
  b.dim('m'); b.dim('x')
  p = b.array('p', ['m', 'x'], nan=True)
  t = b.array('t', ['x'], nan=True)
  b.ensures('se', lambda: det.SquaredError().compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['m', 'x'], lambda i: (p[i] - t[i]) * (p[i] - t[i])))


@contract('det.coordinates', cases=[dict(name=n, side=s) for n in SIMPLE for s in ('predictions', 'targets')])
def _(b, name, side):
  """The mask and the extra dimensions of either input reach the statistic: aggregation and binning rely on them."""
  b.dim('m'); b.dim('x')
  m = b.array('mask', ['x'], kind='b', coords=False)
  dp, dt = (['m', 'x'], ['x']) if side == 'predictions' else (['x'], ['m', 'x'])
  p = b.array('p', dp)
  t = b.array('t', dt)
  make, spec = SIMPLE[name]
  def run():
    pd, td = p.da, t.da
    if side == 'predictions':
      pd = pd.assign_coords(mask=m.da)
    else:
      td = td.assign_coords(mask=m.da)
    return make().compute({'v': pd}, {'v': td})['v']
  def post(r):
    r.array('value', r.value, ['m', 'x'], lambda i: spec(b, p[i], t[i]))
    if r.check('mask is kept', 'mask' in r.value.coords) is not False and 'mask' in r.value.coords:
      r.array('mask', r.value.coords['mask'], ['x'], lambda i: m[i])
  b.ensures('compute', run, post)


def _near(th):
  pool = [x for x in th if x < float('inf')]
  def gen(rng, s):
    import numpy as np
    v = rng.choice(pool, s)
    k = rng.random(s)
    v = np.where(k < 0.3, np.nextafter(v, 1e9), np.where(k < 0.6, np.nextafter(v, -1e9), v))
    return np.where(rng.random(s) < 0.5, v, -v)
  return gen


@contract('det.error-exceedance-near', cases=[dict(th=[0.1, 0.7]), dict(th=[273.15, 1.0, 0.1])])
def _(b, th):
  """Errors next to a threshold are on the side their double precision value is."""
  K = 'error_exceedance_thresholds'
  b.dim('x')
  b.dim(K, size=len(th), labels=th)
  p = b.array('p', ['x'], gen=_near(th))
  t = b.array('t', ['x'], gen=lambda rng, s: 0.0 * rng.random(s))
  b.assume_all(['x'], lambda i: b.eq(t[i], b.f(0)))
  b.ensures('compute', lambda: det.ErrorExceedance(th).compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['x', K], lambda i: b.num(abs(p[i] - t[i]) > b.f(th[i[K]])), const_coords={K: th}))


@contract('det.error-exceedance', cases=[dict(th=[0.5]), dict(th=[1.0, 0.0, 2.5]), dict(th=(0.5, 1.5)), dict(th=[0.5, float('inf')], inf=True)])
def _(b, th, inf=False):
  p, t = pt(b, inf=inf)
  K = 'error_exceedance_thresholds'
  b.dim(K, size=len(th), labels=th)
  h = b.array('h', [K], inf=inf, gen=lambda rng, s: th, coords=False)
  for j, x in enumerate(th):
    b.assume(b.eq(h({K: j}), x))
  def spec(i):
    e = abs(p[i] - t[i])
    return b.where(b.isnan(e), e, b.num(e > h[i]))
  def post(r):
    r.array('value', r.value, ['time', 'x', K], spec, const_coords={K: th})
  b.ensures('compute', lambda: det.ErrorExceedance(th).compute({'v': p.da}, {'v': t.da})['v'], post)


@contract('det.error-exceedance-da', cases=[dict(as_dataset=False), dict(as_dataset=True), dict(as_dataset=False, inf=True)])
def _(b, as_dataset, inf=False):
  """Thresholds given per location; a missing threshold gives a missing result."""
  p, t = pt(b, inf=inf)
  b.dim('q')
  h = b.array('h', ['q', 'x'], nan=True, inf=inf, da_name='v')
  def spec(i):
    e = abs(p[i] - t[i])
    return b.where(b.isnan(e), e, b.where(b.isnan(h[i]), h[i], b.num(e > h[i])))
  th = (lambda: b.xr.Dataset({'v': h.da})) if as_dataset else (lambda: h.da)
  b.ensures('compute', lambda: det.ErrorExceedance(th()).compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['time', 'x', 'q'], spec))


@contract('det.relative-intensity')
def _(b):
  b.dim('time'); b.dim('latitude'); b.dim('longitude')
  sp = ['latitude', 'longitude']
  p = b.array('p', ['time'] + sp, nan=True, gen=None)
  t = b.array('t', ['time'] + sp, nan=True)
  def spec(i):
    n = b.size('latitude') * b.size('longitude')
    mp = b.sum(i, sp, lambda j: p[j]) / n
    mt = b.sum(i, sp, lambda j: t[j]) / n
    return abs((mp + b.f(1e-6)) / (mt + b.f(1e-6)) - 1)
  b.ensures('compute', lambda: det.RelativeIntensity().compute({'v': p.da}, {'v': t.da})['v'],
            lambda r: r.array('value', r.value, ['time'], spec, tol=(1e-5, 1e-7)))


@contract('det.relative-intensity-mask', cases=[dict(full=True), dict(full=False)])
def _(b, full):
  b.dim('time'); b.dim('y'); b.dim('x')
  sp = ['y', 'x']
  m = b.coord('mask', (['time'] if full else []) + sp, kind='b')
  p = b.array('p', ['time'] + sp, nan=True)
  t = b.array('t', ['time'] + sp, nan=True)
  def spec(i):
    n = b.sum(i, sp, lambda j: b.num(m[j]))
    mp = b.where(n > 0, b.sum(i, sp, lambda j: b.where(m[j], p[j], b.f(0))) / n, b.f(0))
    mt = b.where(n > 0, b.sum(i, sp, lambda j: b.where(m[j], t[j], b.f(0))) / n, b.f(0))
    return abs((mp + b.f(1e-6)) / (mt + b.f(1e-6)) - 1)
  def post(r):
    r.array('value', r.value, ['time'] if full else ['time'], spec, tol=(1e-5, 1e-7))
    r.array('mask', r.value.coords['mask'], ['time'] if full else [],
            lambda i: b.num(b.any(i, sp, lambda j: m[j])))
  b.ensures('compute', lambda: det.RelativeIntensity(spatial_dims=('y', 'x')).compute({'v': p.da}, {'v': t.da})['v'], post)


@contract('det.wind-vector-se')
def _(b):
  b.dim('x')
  pu, pv, tu, tv, pu2, pv2, tu2, tv2 = [b.array(n, ['x'], nan=True) for n in ('pu', 'pv', 'tu', 'tv', 'pu2', 'pv2', 'tu2', 'tv2')]
  def sq(x):
    return x * x
  def post(r):
    r.check('variables', set(r.value) == {'w', 'a2'})
    r.array('w', r.value['w'], ['x'], lambda i: sq(pu[i] - tu[i]) + sq(pv[i] - tv[i]))
    r.array('a2', r.value['a2'], ['x'], lambda i: sq(pu2[i] - tu2[i]) + sq(pv2[i] - tv2[i]))
  b.ensures('compute', lambda: det.WindVectorSquaredError(['u', 'u2'], ['v', 'v2'], ['w', 'a2']).compute(
      {'u': pu.da, 'v': pv.da, 'u2': pu2.da, 'v2': pv2.da}, {'u': tu.da, 'v': tv.da, 'u2': tu2.da, 'v2': tv2.da}), post)


@contract('det.wind-vector-lengths')
def _(b):
  b.ensures('stat', lambda: det.WindVectorSquaredError(['u', 'u2'], ['v'], ['w']), lambda r: r.raises('rejected', ValueError))
  b.ensures('metric', lambda: det.WindVectorRMSE('u', ['v'], ['w', 'w2']), lambda r: r.raises('rejected', ValueError))


@contract('det.rmse')
def _(b):
  """RMSE is the square root of the mean squared error of the aggregate."""
  b.dim('x')
  s = b.array('s', ['x'], nan=True)
  b.assume_all(['x'], lambda i: (s[i] >= 0) | b.isnan(s[i]))
  def run():
    m = det.RMSE()
    return base.compute_metric_from_statistics(m, {st.unique_name: {'v': s.da} for st in m.statistics.values()})
  def post(r):
    r.array('value', r.value['v'], ['x'], lambda i: b.sqrt(s[i]))
    v = r.value['v']
  b.ensures('rmse', run, post)
  def run2():
    m = det.WindVectorRMSE('u', 'v', 'w')
    return base.compute_metric_from_statistics(m, {st.unique_name: {'w': s.da} for st in m.statistics.values()})
  b.ensures('wind-rmse', run2, lambda r: r.array('value', r.value['w'], ['x'], lambda i: b.sqrt(s[i])))


@contract('det.ordering')
def _(b):
  """Lemmas over the contracts: |bias| <= MAE and MAE^2 <= MSE pointwise and in the mean; perfect forecast scores 0."""
  b.dim('x')
  p = b.array('p', ['x'])
  t = b.array('t', ['x'])
  def run():
    out = {}
    for n, s in (('e', det.Error()), ('a', det.AbsoluteError()), ('s', det.SquaredError())):
      out[n] = s.compute({'v': p.da}, {'v': t.da})['v'].mean('x', skipna=False)
    return out
  def post(r):
    e, a, s = [b.t(_sc(r, r.value[k])) for k in 'eas']
    eps = b.f(0 if b.symbolic else 1e-9)
    r.holds('bias<=mae', abs(e) <= a + eps)
    r.holds('nonneg', (a >= 0) & (s >= 0))
  b.ensures('means', run, post)
  b.ensures('perfect', lambda: det.SquaredError().compute({'v': p.da}, {'v': p.da})['v'],
            lambda r: r.array('zero', r.value, ['x'], lambda i: b.f(0)))


def _sc(r, da):
  return da.at({}) if r.symbolic else da.values[()]
