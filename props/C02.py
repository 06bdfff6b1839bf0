"""Aggregation: exact weighted, binned, masked sums.

The weightings and binnings are arbitrary (any array over any subset of the
statistic's dimensions), so the aggregator is checked against the contract of
the abstract Weighting/Binning interface, not a particular implementation."""
import numpy as np
from vc.contract import contract
from weatherbenchX import aggregation
from weatherbenchX import binning
from weatherbenchX import weighting
from weatherbenchX.metrics import base
from weatherbenchX.metrics import deterministic as det


from props.common import AnyBinning, AnyWeighting


OPTS = ['plain', 'skipna', 'masked', 'masked-skipna']


def setup(b, mode, dims, reduce, wdims, bdims, mask_dims):
  """Declares inputs; returns (stat, aggregator thunk, spec of swx, spec of sw)."""
  for d in dims:
    b.dim(d)
  nb = []
  for k, bd in enumerate(bdims):
    nb.append(b.dim(f'bin{k}'))
  m = b.coord('mask', list(mask_dims), kind='b') if mode.startswith('masked') and mask_dims is not None else None
  s = b.array('s', list(dims), nan=True, da_name='v')
  ws = [b.array(f'w{k}', list(wd), coords=None, gen=lambda rng, sh: rng.choice([0.0, 0.5, 1.0, 2.0], sh)) for k, wd in enumerate(wdims)]
  bs = [b.array(f'b{k}', [f'bin{k}'] + list(bd), kind='b') for k, bd in enumerate(bdims)]
  agg = lambda: aggregation.Aggregator(
      reduce_dims=list(reduce), weigh_by=[AnyWeighting(w) for w in ws] if ws else None,
      bin_by=[AnyBinning(h, f'bin{k}') for k, h in enumerate(bs)] if bs else None,
      masked=mode.startswith('masked'), skipna=mode.endswith('skipna'))
  def valid(j):
    ok = b.true()
    if m is not None:
      ok = ok & m[j]
    if mode.endswith('skipna'):
      ok = ok & ~b.isnan(s[j])
    return ok
  def factor(j):
    f = b.f(1)
    for w in ws:
      f = f * w[j]
    for h in bs:
      f = f * b.num(h[j])
    return f
  out = [d for d in dims if d not in reduce] + nb
  swx = lambda i: b.sum(i, list(reduce), lambda j: b.where(valid(j), s[j], b.f(0)) * factor(j))
  sw = lambda i: b.sum(i, list(reduce), lambda j: b.num(valid(j)) * factor(j))
  # 0 * NaN inside a BLAS product is 0 or NaN depending on the kernel, so a
  # counted missing value of weight zero is left unspecified.
  b.blas_zero = True
  ok = lambda i: b.all(i, list(reduce), lambda j: ~valid(j) | ~b.isnan(s[j]) | ~b.eq(factor(j), b.f(0)))
  return s, agg, swx, sw, out, ok


LAYOUTS = {
    'all': dict(dims=['t', 'y', 'x'], reduce=['t', 'y', 'x'], wdims=[], bdims=[], mask_dims=['t', 'y', 'x']),
    'some': dict(dims=['t', 'y', 'x'], reduce=['y', 'x'], wdims=[['y']], bdims=[], mask_dims=['t', 'y', 'x']),
    'mask-subset': dict(dims=['t', 'y', 'x'], reduce=['x', 't'], wdims=[['t'], ['y', 'x']], bdims=[], mask_dims=['y', 'x']),
    'binned': dict(dims=['t', 'x'], reduce=['x'], wdims=[['x']], bdims=[['x']], mask_dims=['x']),
    'two-bins': dict(dims=['t', 'x'], reduce=['t', 'x'], wdims=[], bdims=[['x'], ['t']], mask_dims=['t']),
    'none': dict(dims=['t', 'x'], reduce=[], wdims=[['x']], bdims=[], mask_dims=['x']),
    'kept-bin': dict(dims=['t', 'x'], reduce=['x'], wdims=[], bdims=[['t']], mask_dims=['t', 'x']),
    'scalar-weight': dict(dims=['x'], reduce=['x'], wdims=[[]], bdims=[], mask_dims=['x']),
}


@contract('agg.sums', cases=[dict(layout=l, mode=m) for l in LAYOUTS for m in OPTS])
def _(b, layout, mode):
  s, agg, swx, sw, out, ok = setup(b, mode, **LAYOUTS[layout])
  def post(r):
    st = r.value
    r.check('kept', st is not None)
    r.array('sum_weighted_statistics', st.sum_weighted_statistics, out, swx, given=ok)
    r.array('sum_weights', st.sum_weights, out, sw)
  b.ensures('aggregate', lambda: agg().aggregate_stat_var(s.da), post)


@contract('agg.mean', cases=[dict(mode=m) for m in OPTS])
def _(b, mode):
  """The normalised statistic is the weighted mean over the counted elements."""
  s, agg, swx, sw, out, ok = setup(b, mode, dims=['t', 'x'], reduce=['x'], wdims=[['x']], bdims=[['x']], mask_dims=['t', 'x'])
  def run():
    return agg().aggregate_statistics({'st': {'v': s.da}}).mean_statistics()
  b.ensures('mean', run, lambda r: (r.check('keys', set(r.value) == {'st'} and set(r.value['st']) == {'v'}),
                                    r.array('mean', r.value['st']['v'], out, lambda i: swx(i) / sw(i), given=ok)))


@contract('agg.mask-only-matters-where-true', cases=[dict(mode='masked'), dict(mode='masked-skipna')])
def _(b, mode):
  """Two statistics that agree wherever the mask is true aggregate identically."""
  b.dim('t'); b.dim('x')
  m = b.coord('mask', ['t', 'x'], kind='b')
  s1 = b.array('s1', ['t', 'x'], nan=True)
  s2 = b.array('s2', ['t', 'x'], nan=True)
  s3 = lambda i: b.where(m[i], s1[i], s2[i])
  agg = lambda: aggregation.Aggregator(reduce_dims=['x'], masked=True, skipna=mode == 'masked-skipna')
  def run():
    mix = s1.da.where(m.da, s2.da)
    return agg().aggregate_stat_var(s1.da), agg().aggregate_stat_var(mix)
  def post(r):
    a, c = r.value
    at = (lambda da, i: da.at(i)) if r.symbolic else (lambda da, i: da.isel(i).values[()])
    r.forall('same-sum', ['t'], lambda i: b.same(at(a.sum_weighted_statistics, i), at(c.sum_weighted_statistics, i)))
    r.forall('same-weights', ['t'], lambda i: b.same(at(a.sum_weights, i), at(c.sum_weights, i)))
  b.ensures('aggregate', run, post)


@contract('agg.no-mask-attribute', cases=[dict(skipna=False), dict(skipna=True)])
def _(b, skipna):
  """masked=True on a statistic without a mask behaves as unmasked."""
  b.dim('t'); b.dim('x')
  s = b.array('s', ['t', 'x'], nan=True)
  ok = lambda j: ~b.isnan(s[j]) if skipna else b.true()
  def post(r):
    r.array('sum', r.value.sum_weighted_statistics, ['t'], lambda i: b.sum(i, ['x'], lambda j: b.where(ok(j), s[j], b.f(0))))
    r.array('weights', r.value.sum_weights, ['t'], lambda i: b.sum(i, ['x'], lambda j: b.num(ok(j))))
  b.ensures('aggregate', lambda: aggregation.Aggregator(reduce_dims=['x'], masked=True, skipna=skipna).aggregate_stat_var(s.da), post)


@contract('agg.unmasked-mask-ignored', cases=[dict(skipna=False), dict(skipna=True)])
def _(b, skipna):
  """Without masked=True a mask coordinate has no influence."""
  b.dim('t'); b.dim('x')
  b.coord('mask', ['t', 'x'], kind='b')
  s = b.array('s', ['t', 'x'], nan=True)
  ok = lambda j: ~b.isnan(s[j]) if skipna else b.true()
  def post(r):
    r.array('sum', r.value.sum_weighted_statistics, ['t'], lambda i: b.sum(i, ['x'], lambda j: b.where(ok(j), s[j], b.f(0))))
    r.array('weights', r.value.sum_weights, ['t'], lambda i: b.sum(i, ['x'], lambda j: b.num(ok(j))))
  b.ensures('aggregate', lambda: aggregation.Aggregator(reduce_dims=['x'], masked=False, skipna=skipna).aggregate_stat_var(s.da), post)


@contract('agg.integer-and-boolean', cases=[dict(kind='i'), dict(kind='b')])
def _(b, kind):
  b.dim('t'); b.dim('x')
  s = b.array('s', ['t', 'x'], kind=kind)
  if kind == 'b':
    run = lambda: aggregation.Aggregator(reduce_dims=['x'], skipna=True).aggregate_stat_var(s.da.astype('float32'))
  else:
    run = lambda: aggregation.Aggregator(reduce_dims=['x']).aggregate_stat_var(s.da)
  def post(r):
    r.array('sum', r.value.sum_weighted_statistics, ['t'], lambda i: b.sum(i, ['x'], lambda j: b.num(s[j])))
    r.array('weights', r.value.sum_weights, ['t'], lambda i: b.size('x'))
  b.ensures('aggregate', run, post)


@contract('agg.dropped-variables')
def _(b):
  """Variables without a reduced or binned dimension are dropped, the others kept, None skipped."""
  b.dim('t'); b.dim('x'); b.dim('z'); b.dim('bin0')
  full = b.array('full', ['t', 'x', 'z'], nan=True)
  nox = b.array('nox', ['t', 'z'], nan=True)
  noz = b.array('noz', ['t', 'x'], nan=True)
  h = b.array('b0', ['bin0', 'z'], kind='b')
  def run():
    agg = aggregation.Aggregator(reduce_dims=['x'], bin_by=[AnyBinning(h, 'bin0')])
    return agg.aggregate_statistics({'a': {'full': full.da, 'nox': nox.da, 'noz': noz.da, 'none': None}, 'e': {'nox': nox.da}})
  def post(r):
    for f in ('sum_weighted_statistics', 'sum_weights'):
      v = getattr(r.value, f)
      r.check(f + ':stats', set(v) == {'a', 'e'})
      r.check(f + ':vars', set(v['a']) == {'full'} and set(v['e']) == set())
    r.array('sum', r.value.sum_weighted_statistics['a']['full'], ['t', 'z', 'bin0'],
            lambda i: b.sum(i, ['x'], lambda j: full[j] * b.num(h[j])),
            given=lambda i: b.all(i, ['x'], lambda j: ~b.isnan(full[j]) | h[j]))
  b.ensures('aggregate', run, post)
  b.ensures('bin-dim-names', lambda: aggregation.Aggregator(
      reduce_dims=['x'], bin_by=[AnyBinning(h, 'bin0'), AnyBinning(h, 'bin0')]).aggregate_stat_var(full.da),
            lambda r: r.raises('duplicate bin dimension rejected', ValueError))


@contract('agg.each-variable-its-own-statistic')
def _(b):
  """Nested statistics: every (statistic, variable) is aggregated from its own array; metrics read their own."""
  b.dim('t'); b.dim('x')
  names = ['p', 'q', 'tp', 'tq']
  h = {n: b.array(n, ['t', 'x'], nan=True, da_name=n[-1]) for n in names}
  def run():
    metrics = {'mse': det.MSE(), 'bias': det.Bias(), 'mae': det.MAE()}
    agg = aggregation.Aggregator(reduce_dims=['x'])
    return aggregation.compute_metric_values_for_single_chunk(
        metrics, agg, {'p': h['p'].da, 'q': h['q'].da}, {'p': h['tp'].da, 'q': h['tq'].da})
  def mean(i, f, v):
    return b.sum(i, ['x'], lambda j: f(h[v][j] - h['t' + v][j])) / b.size('x')
  def post(r):
    ds = r.value
    r.check('names', {str(k) for k in ds.data_vars} == {f'{m}.{v}' for m in ('mse', 'bias', 'mae') for v in 'pq'})
    for v in 'pq':
      r.array(f'bias.{v}', ds[f'bias.{v}'], ['t'], lambda i: mean(i, lambda e: e, v))
      r.array(f'mae.{v}', ds[f'mae.{v}'], ['t'], lambda i: mean(i, abs, v))
      r.array(f'mse.{v}', ds[f'mse.{v}'], ['t'], lambda i: mean(i, lambda e: e * e, v))
  b.ensures('metrics', run, post)


@contract('agg.weighted-mean-bounds')
def _(b):
  """Lemma: with non-negative weights the mean of values bounded by c is bounded by c."""
  b.dim('x')
  s = b.array('s', ['x'])
  w = b.array('w', ['x'], gen=lambda rng, sh: rng.random(sh))
  c = b.scalar('c', gen=lambda rng: np.float64(3.0))
  b.assume_all(['x'], lambda i: w[i] >= 0)
  b.assume_all(['x'], lambda i: s[i] <= c.s)
  run = lambda: aggregation.Aggregator(reduce_dims=['x'], weigh_by=[AnyWeighting(w)]).aggregate_stat_var(s.da)
  def post(r):
    at = lambda da: da.at({}) if r.symbolic else da.values[()]
    eps = b.f(0 if b.symbolic else 1e-9)
    r.holds('bounded', at(r.value.sum_weighted_statistics) <= b.sum({}, ['x'], lambda j: c.s * w[j]) + eps)
    r.holds('weights nonneg', at(r.value.sum_weights) >= 0)
  b.ensures('bounds', run, post)
