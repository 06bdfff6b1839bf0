"""Aggregation states combine exactly, whatever the chunking or order."""
import numpy as np
import xarray
from vc.contract import contract
from weatherbenchX import aggregation
from weatherbenchX.aggregation import AggregationState
from props.common import AnyWeighting


def at(r, da, i):
  if r.symbolic:
    return da.at(i)
  return da.isel({d: i[d] for d in da.dims}).values[()]


def tree(b, tag, dims=('g', 'x')):
  """A nested state with two statistics, different variables."""
  paths = [('s1', 'u'), ('s1', 'v'), ('s2', 'u')]
  hs = {}
  for p in paths:
    for f in ('sws', 'sw'):
      hs[(f,) + p] = b.array(f'{tag}.{f}.' + '.'.join(p), list(dims), nan=True)
  def mk(f):
    out = {}
    for s, v in paths:
      out.setdefault(s, {})[v] = hs[(f, s, v)].da
    return out
  return hs, (lambda: AggregationState(mk('sws'), mk('sw'))), paths


FIELDS = (('sws', 'sum_weighted_statistics'), ('sw', 'sum_weights'))


@contract('state.sum', cases=[dict(n=n, zeros=z) for n, z in ((1, ()), (2, ()), (3, ()), (2, (0,)), (2, (1,)), (3, (1,)), (4, (0, 3)))])
def _(b, n, zeros):
  """Pointwise sum per path; zero states are the identity wherever they occur."""
  b.dim('g'); b.dim('x')
  parts = [tree(b, f'a{k}') for k in range(n) if k not in zeros]
  def run():
    it = iter(parts)
    return AggregationState.sum([AggregationState.zero() if k in zeros else next(it)[1]() for k in range(n)])
  def post(r):
    for f, name in FIELDS:
      v = getattr(r.value, name)
      r.check(name + ':keys', {(s, k) for s in v for k in v[s]} == set(parts[0][2]))
      for s, k in parts[0][2]:
        def spec(i, f=f, s=s, k=k):
          t = None
          for p in parts:
            x = p[0][(f, s, k)][i]
            t = x if t is None else t + x
          return t
        r.array(f'{name}.{s}.{k}', v[s][k], ['g', 'x'], spec)
  b.ensures('sum', run, post)


@contract('state.zero-sum', cases=[dict(n=0), dict(n=1), dict(n=3)])
def _(b, n):
  def post(r):
    r.check('zero', r.value.sum_weighted_statistics is None and r.value.sum_weights is None)
  b.ensures('sum', lambda: AggregationState.sum([AggregationState.zero() for _ in range(n)]), post)
  b.ensures('generator', lambda: AggregationState.sum(AggregationState.zero() for _ in range(n)), post)
  b.ensures('sum_along_dims', lambda: AggregationState.zero().sum_along_dims(['x']), post)
  b.ensures('map', lambda: AggregationState.zero().map(lambda x: x), lambda r: r.raises('rejected', ValueError))
  s = lambda: AggregationState(xarray.DataArray(1.0), xarray.DataArray(2.0))
  b.ensures('map_multi', lambda: AggregationState.map_multi(lambda x, y: x, s(), AggregationState.zero()), lambda r: r.raises('rejected', ValueError))
  b.ensures('dot', lambda: AggregationState.zero().dot(xarray.DataArray([1.0], dims='x'), dim='x'), lambda r: r.raises('rejected', ValueError))


@contract('state.add')
def _(b):
  """a + b, (a + b) + c and a + (b + c), b + a: the same state; plain arrays as leaves; lazy iterables."""
  b.dim('x')
  h = {k: b.array(k, ['x'], nan=True) for k in ('a', 'b', 'c', 'wa', 'wb', 'wc')}
  st = lambda k: AggregationState(h[k].da, h['w' + k].da)
  def run():
    return {'l': (st('a') + st('b')) + st('c'), 'r': st('a') + (st('b') + st('c')), 'perm': st('c') + st('a') + st('b'),
            'gen': AggregationState.sum(st(k) for k in 'bca'), 'z': AggregationState.zero() + st('a') + AggregationState.zero() + st('b') + st('c')}
  def post(r):
    for k, v in r.value.items():
      r.array(k, v.sum_weighted_statistics, ['x'], lambda i: h['a'][i] + h['b'][i] + h['c'][i])
      r.array(k + '.w', v.sum_weights, ['x'], lambda i: h['wa'][i] + h['wb'][i] + h['wc'][i])
  b.ensures('add', run, post)


@contract('state.mean')
def _(b):
  b.dim('g'); b.dim('x')
  hs, mk, paths = tree(b, 'a')
  def post(r):
    for s, k in paths:
      r.array(f'{s}.{k}', r.value[s][k], ['g', 'x'], lambda i: hs[('sws', s, k)][i] / hs[('sw', s, k)][i])
  b.ensures('mean', lambda: mk().mean_statistics(), post)


@contract('state.map')
def _(b):
  """map and map_multi act leafwise on both trees."""
  b.dim('g'); b.dim('x')
  ha, ma, paths = tree(b, 'a')
  hb, mb, _ = tree(b, 'b')
  def post1(r):
    for f, name in FIELDS:
      for s, k in paths:
        r.array(f'{name}.{s}.{k}', getattr(r.value, name)[s][k], ['g', 'x'], lambda i: ha[(f, s, k)][i] * 2 + 1)
  b.ensures('map', lambda: ma().map(lambda x: x * 2 + 1), post1)
  def post2(r):
    for f, name in FIELDS:
      for s, k in paths:
        r.array(f'{name}.{s}.{k}', getattr(r.value, name)[s][k], ['g', 'x'], lambda i: ha[(f, s, k)][i] - hb[(f, s, k)][i])
  b.ensures('map_multi', lambda: AggregationState.map_multi(lambda x, y: x - y, ma(), mb()), post2)


@contract('state.sum-along-dims', cases=[dict(dims=['x']), dict(dims=['g', 'x']), dict(dims=[])])
def _(b, dims):
  """Missing values propagate; both fields are summed."""
  b.dim('g'); b.dim('x')
  hs, mk, paths = tree(b, 'a')
  out = [d for d in ('g', 'x') if d not in dims]
  def post(r):
    for f, name in FIELDS:
      for s, k in paths:
        r.array(f'{name}.{s}.{k}', getattr(r.value, name)[s][k], out,
                lambda i: b.sum(i, dims, lambda j: hs[(f, s, k)][j]) if dims else hs[(f, s, k)][i])
  b.ensures('sum', lambda: mk().sum_along_dims(dims), post)


@contract('state.dot')
def _(b):
  b.dim('g'); b.dim('x'); b.dim('q')
  hs, mk, paths = tree(b, 'a')
  w = b.array('w', ['x', 'q'])
  v = b.array('v', ['x'])
  b.assume_all(['x', 'q'], lambda i: ~b.eq(w[i], 0.0))   # whether nothing times a missing value is missing is left open
  b.assume_all(['x'], lambda i: ~b.eq(v[i], 0.0))
  def post(r):
    for f, name in FIELDS:
      for s, k in paths:
        r.array(f'{name}.{s}.{k}', getattr(r.value, name)[s][k], ['g', 'q'],
                lambda i: b.sum(i, ['x'], lambda j: hs[(f, s, k)][j] * w[j] * v[j]))
  b.ensures('dot', lambda: mk().dot(w.da, v.da, dim='x'), post)


MODES = [dict(masked=m, skipna=s) for m in (False, True) for s in (False, True)]


@contract('state.two-stage', cases=[dict(first=f, **m) for f in (['x'], ['t']) for m in MODES])
def _(b, first, masked, skipna):
  """Reducing in two stages equals reducing at once (Fubini), including missing values."""
  b.dim('t'); b.dim('x'); b.dim('k')
  if masked:
    b.coord('mask', ['t', 'x'], kind='b')
  s = b.array('s', ['t', 'x', 'k'], nan=True)
  w = b.array('w', ['x', 't'], gen=lambda rng, sh: rng.random(sh) + 0.1)
  ag = lambda dims: aggregation.Aggregator(reduce_dims=dims, weigh_by=[AnyWeighting(w)], masked=masked, skipna=skipna)
  def run():
    one = ag(['t', 'x']).aggregate_stat_var(s.da)
    # the second weight argument is consumed in the first stage
    two = ag(first).aggregate_stat_var(s.da).sum_along_dims([d for d in ('t', 'x') if d not in first])
    return one, two
  def post(r):
    one, two = r.value
    for f, name in FIELDS:
      x, y = getattr(one, name), getattr(two, name)
      r.check(name + ':dims', set(x.dims) == set(y.dims) == {'k'})
      r.forall(name, ['k'], lambda i: b.same(at(r, x, i), at(r, y, i)))
  b.ensures('stages', run, post)


@contract('state.chunks', cases=[dict(red=rd, **m) for rd in (['t', 'x'], ['t']) for m in MODES])
def _(b, red, masked, skipna):
  """Aggregating two pieces of any sizes and adding equals aggregating the whole."""
  b.dim('t', lo=2, hi=5); b.dim('x')
  if masked:
    b.coord('mask', ['t', 'x'], kind='b')
  s = b.array('s', ['t', 'x'], nan=True)
  w = b.array('w', ['t'], gen=lambda rng, sh: rng.random(sh) + 0.1)
  cut = b.scalar('cut', kind='i', gen=lambda rng: int(rng.integers(1, b.sizes['t'])))
  b.assume((cut.s >= 1) & (cut.s <= b.size('t') - 1))
  class W(AnyWeighting):
    def __init__(self, da):
      self.da = da
    def weights(self, statistic):
      return self.da
  def agg(stat, wt):
    return aggregation.Aggregator(reduce_dims=red, weigh_by=[W(wt)], masked=masked, skipna=skipna).aggregate_stat_var(stat)
  def run():
    whole = agg(s.da, w.da)
    c = cut.val
    a = agg(s.da.isel(t=slice(0, c)), w.da.isel(t=slice(0, c)))
    z = agg(s.da.isel(t=slice(c, None)), w.da.isel(t=slice(c, None)))
    return whole, a + z
  out = [d for d in ('t', 'x') if d not in red]
  def post(r):
    one, two = r.value
    for f, name in FIELDS:
      x, y = getattr(one, name), getattr(two, name)
      r.check(name + ':dims', set(x.dims) == set(y.dims) == set(out))
      if out:
        r.forall(name, out, lambda i: b.same(at(r, x, i), at(r, y, i)))
      else:
        r.holds(name, b.same(at(r, x, {}), at(r, y, {})))
  b.ensures('chunks', run, post)


@contract('state.labels', cases=[dict(n=n, two=t) for n, t in ((2, False), (2, True), (3, False), (3, True))])
def _(b, n, two):
  """States over any sets of labels: every label is kept, each with the sum of the states that have it (missing values included)."""
  b.dim('x')
  dims = ['a', 'b'] if two else ['a']
  for k in range(n):
    for d in dims:
      b.label_set(f'{d}{k}', np.arange(5))
  for d in dims:
    b.label_union(d, [f'{d}{k}' for k in range(n)])
  fs = [(f, s, v) for f in ('sws', 'sw') for s, v in (('s1', 'u'), ('s2', 'u'))]
  hs = [{q: b.array('.'.join(q) + str(k), [f'{d}{k}' for d in dims] + ['x'], nan=True) for q in fs} for k in range(n)]
  def state(k):
    da = lambda *q: hs[k][q].da.rename({f'{d}{k}': d for d in dims})
    return AggregationState(*[{s: {'u': da(f, s, 'u')} for s in ('s1', 's2')} for f in ('sws', 'sw')])
  def spec(q, i):
    t = None
    for k in range(n):
      j = {**i, **{f'{d}{k}': i[d] for d in dims}}
      v = lambda k=k, j=j: hs[k][q][j]
      for d in dims:
        v = (lambda v=v, d=d, k=k, j=j: b.member(f'{d}{k}', j[f'{d}{k}'], v, b.f(0.0)))
      t = v() if t is None else t + v()
    return t
  def post(r):
    for f, name in FIELDS:
      for s in ('s1', 's2'):
        r.array(f'{name}.{s}', getattr(r.value, name)[s]['u'], dims + ['x'], lambda i: spec((f, s, 'u'), i))
  b.ensures('sum', lambda: AggregationState.sum([state(k) for k in range(n)]), post)
  b.ensures('add', lambda: state(0) + state(1) if n == 2 else state(0) + (state(1) + state(2)), post)


@contract('state.outer-join', mode='bounded', samples=150, note='labels of up to 4 states over up to 2 dimensions, outer join by the installed xarray')
def _(b):
  """States over different labels: every label kept, each with the sum of the states that have it."""
  rng = b.rng
  n = int(rng.integers(2, 5))
  labs = []
  for k in range(n):
    labs.append((np.sort(rng.choice(6, rng.integers(1, 4), replace=False)), np.sort(rng.choice(4, rng.integers(1, 3), replace=False))))
  vals = [rng.normal(size=(len(l[0]), len(l[1]))) for l in labs]
  for k in range(n):
    if rng.random() < 0.3:
      vals[k][0, 0] = np.nan
  b.sampler.record[('labels', '')] = str(labs)
  b.sampler.record[('values', '')] = str([v.tolist() for v in vals])
  mk = lambda k, f: xarray.DataArray(vals[k] * f, dims=['a', 'b'], coords={'a': labs[k][0], 'b': labs[k][1]})
  def run():
    return AggregationState.sum([AggregationState({'s': {'v': mk(k, 1)}}, {'s': {'v': mk(k, 2)}}) for k in range(n)])
  def post(r):
    for name, f in (('sum_weighted_statistics', 1), ('sum_weights', 2)):
      da = getattr(r.value, name)['s']['v']
      want_a = sorted(set(np.concatenate([l[0] for l in labs]).tolist()))
      want_b = sorted(set(np.concatenate([l[1] for l in labs]).tolist()))
      r.check(name + ':labels', sorted(da.a.values.tolist()) == want_a and sorted(da.b.values.tolist()) == want_b)
      ok = True
      for x in want_a:
        for y in want_b:
          t = 0.0
          for k in range(n):
            if x in labs[k][0] and y in labs[k][1]:
              t = t + f * vals[k][list(labs[k][0]).index(x), list(labs[k][1]).index(y)]
          g = float(da.sel(a=x, b=y))
          ok = ok and (np.isclose(g, t) or (np.isnan(g) and np.isnan(t)))
      r.check(name + ':values', ok)
  b.ensures('sum', run, post)


@contract('state.round-trip', mode='bounded', samples=60, note='nested states with up to 3 statistics and 3 variables')
def _(b):
  """Tree and flat dataset representations lose nothing."""
  rng = b.rng
  names = ['AbsoluteError', 'SquaredError_x=1.5', 'CRPS,a=b', 'E_m']
  vs = ['2m_temperature', 'u', 'wind.speed']
  stats = list(rng.choice(names, rng.integers(1, 4), replace=False))
  sws, sw = {}, {}
  k = 0
  for s in stats:
    sws[s], sw[s] = {}, {}
    for v in rng.choice(vs, rng.integers(1, 4), replace=False):
      k += 1
      x = rng.normal(size=(3, 2))
      if rng.random() < 0.3:
        x[0, 0] = np.nan
      c = {'region': ['a', 'b', 'c'], 'lead': [1, 2]}
      dims = ['region', 'lead']
      if rng.random() < 0.3:
        x, c, dims = x[:, 0], {'region': ['a', 'b', 'c']}, ['region']
      sws[s][str(v)] = xarray.DataArray(x, dims=dims, coords=c, name=str(v))
      sw[s][str(v)] = xarray.DataArray(np.abs(x) + k, dims=dims, coords=c, name=str(v))
  st = AggregationState(sws, sw)
  def same(r):
    for name, w in (('sum_weighted_statistics', sws), ('sum_weights', sw)):
      g = getattr(r.value, name)
      r.check(name + ':keys', {(a, c) for a in g for c in g[a]} == {(a, c) for a in w for c in w[a]})
      r.check(name + ':values', all(g[a][c].equals(w[a][c]) for a in w for c in w[a]))
      r.check(name + ':names', all(g[a][c].name == c for a in w for c in w[a]))
  b.ensures('tree', lambda: AggregationState.from_data_tree(st.to_data_tree()), same)
  b.ensures('dataset', lambda: AggregationState.from_dataset(st.to_dataset()), same)
  b.ensures('dataset-separator', lambda: AggregationState.from_dataset(st.to_dataset(separator='|'), separator='|'), same)
