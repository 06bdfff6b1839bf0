"""Coordinate, time and set bins classify every element correctly."""
import numpy as np
import pandas as pd
import xarray
from vc.contract import contract
from weatherbenchX import binning


def c_gen(rng, shape):
  return rng.choice(np.arange(-4, 5, 0.5), shape)


def at(r, m, i):
  if r.symbolic:
    return m.at({d: i[d] for d in m.dims})
  return np.bool_(m.isel({d: i[d] for d in m.dims}).values[()])


def count(b, xs):
  t = b.f(0)
  for x in xs:
    t = t + b.where(x, b.f(1), b.f(0))
  return t


@contract('interval.mask', cases=[dict(n=n) for n in (2, 3, 4)])
def _(b, n):
  """Bin k is the half-open interval [edge k, edge k+1), labelled with its left edge; the bins partition [first, last)."""
  b.dim('point'); b.dim('t')
  c = b.coord('height', ['point'], gen=c_gen)
  s = b.array('s', ['t', 'point'], nan=True)
  e = [b.scalar(f'e{k}', gen=lambda rng: rng.choice(np.arange(-5, 5, 0.5))) for k in range(n)]
  for x, y in zip(e[:-1], e[1:]):
    b.assume(x.s < y.s)
  b.dim('height', size=n - 1)
  def spec(i):
    k = i['height']
    return (c[i] >= e[k].s) & (c[i] < e[k + 1].s)
  def post(r):
    m = r.value
    r.array('mask', m, ['height', 'point'], spec, const_coords=None if r.symbolic else {'height': [x.val for x in e[:-1]]})
    if r.symbolic:
      r.array('labels', m.coords['height'], ['height'], lambda i: e[i['height']].s)
    else:
      r.array('labels', m.coords['height'], ['height'], lambda i: e[i['height']].s, const_coords={'height': [x.val for x in e[:-1]]})
    r.forall('partition', ['point'], lambda i: b.eq(count(b, [at(r, m, {**i, 'height': k}) for k in range(n - 1)]),
                                                   b.where((c[i] >= e[0].s) & (c[i] < e[-1].s), b.f(1), b.f(0))))
  b.ensures('bins', lambda: binning.ByCoordBins('height', [x.val for x in e]).create_bin_mask(s.da), post)


@contract('interval.global', cases=[dict(edges=(0.0, 1.0)), dict(edges=(-2, 0, 3)), dict(edges=(1.5,))])
def _(b, edges):
  """With the global bin, labels are strings and the extra bin holds everything."""
  b.dim('point'); b.dim('t')
  c = b.coord('height', ['point'], gen=c_gen)
  s = b.array('s', ['point', 't'], nan=True)
  n = len(edges)
  b.dim('height', size=n)
  def spec(i):
    k = i['height']
    return ((c[i] >= edges[k]) & (c[i] < edges[k + 1])) if k < n - 1 else b.true()
  b.ensures('bins', lambda: binning.ByCoordBins('height', np.array(edges), add_global_bin=True).create_bin_mask(s.da),
            lambda r: r.array('mask', r.value, ['height', 'point'], spec, const_coords={'height': [str(np.array(edges)[k]) for k in range(n - 1)] + ['global']}))


@contract('interval.empty', mode='bounded', samples=20, note='fewer than two edges: no bins')
def _(b):
  b.dim('point')
  b.coord('height', ['point'], gen=c_gen)
  s = b.array('s', ['point'])
  b.ensures('bins', lambda: binning.ByCoordBins('height', np.array([1.0][:b.rng.integers(0, 2)])).create_bin_mask(s.da),
            lambda r: r.check('empty', r.value.sizes['height'] == 0 and set(r.value.dims) == {'height', 'point'}))


SETS = [
    dict(sets={'a': [1.0, 2.0], 'b': [2.0], 'none': []}),
    dict(sets={'x': 0.5, 'rest': [-1, 0, 1, 7]}),
    dict(sets={'only': (3.0, -3.0)}),
]


@contract('sets.mask', cases=[dict(comp=c, glob=g, **s) for s in SETS for c in (False, True) for g in (False, True)])
def _(b, sets, comp, glob):
  """Set bins, their complements and the global bin, in order and labelled."""
  b.dim('point'); b.dim('t')
  c = b.coord('station', ['point'], gen=c_gen)
  s = b.array('s', ['t', 'point'], nan=True)
  names, specs = [], []
  def member(i, v):
    v = v if isinstance(v, (list, tuple)) else [v]
    r = ~b.true()
    for x in v:
      r = r | b.eq(c[i], b.f(x))
    return r
  for k, v in sets.items():
    names.append(k)
    specs.append(lambda i, v=v: member(i, v))
    if comp:
      names.append(f'not_in_{k}')
      specs.append(lambda i, v=v: ~member(i, v))
  if glob:
    names.append('global')
    specs.append(lambda i: b.true())
  b.dim('grp', size=len(names))
  b.ensures('bins', lambda: binning.BySets(sets, 'station', 'grp', add_set_complements=comp, add_global_bin=glob).create_bin_mask(s.da),
            lambda r: r.array('mask', r.value, ['grp', 'point'], lambda i: specs[i['grp']](i), const_coords={'grp': names}))


@contract('sets.name', cases=[dict(name=None), dict(name='station')])
def _(b, name):
  b.ensures('init', lambda: binning.BySets({'a': [1]}, 'station', name), lambda r: r.raises('rejected', ValueError))


@contract('sets.strings', mode='bounded', note='string-valued coordinates (station names)')
def _(b):
  rng = b.rng
  n = int(rng.integers(0, 6))
  names = np.array(['AAA', 'B', 'CCCC', 'AA'])
  vals = rng.choice(names, n) if n else np.array([], dtype='<U4')
  b.sampler.record[('stations', '')] = str(vals)
  s = xarray.DataArray(np.zeros(n), dims='point', coords={'station': ('point', vals)})
  sets = {'one': 'AAA', 'two': ['B', 'CCCC'], 'three': ('AA',), 'missing': ['ZZ']}
  def post(r):
    m = r.value
    r.check('labels', list(m['g'].values) == ['one', 'not_in_one', 'two', 'not_in_two', 'three', 'not_in_three', 'missing', 'not_in_missing', 'global'])
    for k, v in sets.items():
      v = [v] if isinstance(v, str) else list(v)
      r.check(k, list(m.sel(g=k).values) == [x in v for x in vals] and list(m.sel(g=f'not_in_{k}').values) == [x not in v for x in vals])
    r.check('global', m.sel(g='global').values.all())
  b.ensures('bins', lambda: binning.BySets(sets, 'station', 'g', True, True).create_bin_mask(s), post)


def delta_gen(rng, shape):
  return (rng.integers(-50, 3000, shape) * rng.choice([60, 900, 3600])).astype('timedelta64[s]').astype('timedelta64[ns]')


def time_gen(rng, shape):
  return (np.datetime64('2019-12-20', 's') + (rng.integers(0, 2000, shape) * rng.choice([60, 900, 3600 * 6])).astype('timedelta64[s]')).astype('datetime64[ns]')


UNIT_S = {'second': 1, 'minute': 60, 'hour': 3600, 'day': 86400, 'week': 7 * 86400, 'year': 365 * 86400}


@contract('time-sets.timedelta', cases=[dict(unit=u, glob=g) for u in UNIT_S for g in (False, True)])
def _(b, unit, glob):
  """Sets over the number of whole units elapsed."""
  b.dim('lead_time'); b.dim('x')
  c = b.coord('lead_time', ['lead_time'], kind='m', gen=delta_gen)
  s = b.array('s', ['lead_time', 'x'], nan=True)
  sets = {'first': [0, 1, 2], 'other': 7, 'neg': [-1.0]}
  n = 4 if glob else 3
  name = f'lead_time_{unit}_sets'
  b.dim(name, size=n)
  def spec(i):
    k = i[name]
    if k == 3:
      return b.true()
    v = [[0, 1, 2], [7], [-1]][k]
    q = b.floordiv(b.seconds(c[i]), float(UNIT_S[unit]))
    r = ~b.true()
    for x in v:
      r = r | b.eq(q, b.f(x))
    return r
  b.ensures('bins', lambda: binning.ByTimeUnitSets(sets, unit, 'lead_time', add_global_bin=glob).create_bin_mask(s.da),
            lambda r: r.array('mask', r.value, [name, 'lead_time'], spec, const_coords={name: (['first', 'other', 'neg', 'global'])[:n]}))


@contract('time-sets.datetime', cases=[dict(unit=u, glob=g) for u in ('hour', 'dayofyear', 'minute') for g in (False, True)])
def _(b, unit, glob):
  """Sets over calendar components."""
  b.dim('init_time'); b.dim('x')
  c = b.coord('init_time', ['init_time'], kind='M', gen=time_gen)
  s = b.array('s', ['init_time', 'x'], nan=True)
  sets = {'00/12': [0, 12], '06/18': (6, 18), 'm': 1}
  b.dim('myname', size=4 if glob else 3)
  def spec(i):
    k = i['myname']
    if k == 3:
      return b.true()
    q = {'hour': b.hour, 'dayofyear': b.doy, 'minute': b.minute}[unit](c[i])
    r = ~b.true()
    for x in [[0, 12], [6, 18], [1]][k]:
      r = r | b.eq(q, b.f(x))
    return r
  b.ensures('bins', lambda: binning.ByTimeUnitSets(sets, unit, 'init_time', bin_dim_name='myname', add_global_bin=glob).create_bin_mask(s.da),
            lambda r: r.array('mask', r.value, ['myname', 'init_time'], spec, const_coords={'myname': ['00/12', '06/18', 'm', 'global'][:4 if glob else 3]}))


@contract('seconds.mask', cases=[dict(unit=u, bins=v) for u, v in (('second', None), ('minute', None), ('hour', None), ('hour', (0, 6, 30)), ('second', (5,)), ('minute', (0, 59, 60)))])
def _(b, unit, bins):
  """Bins over whole units of a coordinate given in seconds."""
  b.dim('lead_time'); b.dim('x')
  c = b.coord('lead_time', ['lead_time'], gen=lambda rng, sh: rng.integers(-10, 300, sh) * float(rng.choice([1, 30, 900])))
  s = b.array('s', ['x', 'lead_time'], nan=True)
  want = list(bins) if bins is not None else list(range(24 if unit == 'hour' else 60))
  name = f'lead_time_{unit}'
  b.dim(name, size=len(want))
  kw = dict(bins=np.array(bins)) if bins is not None else {}
  def spec(i):
    k = i[name]
    return b.eq(b.floordiv(c[i], float(UNIT_S[unit])) if unit != 'second' else c[i], b.f(want[k]) if isinstance(k, int) or not b.symbolic else _lookup(b, want, k))
  b.ensures('bins', lambda: binning.ByTimeUnitFromSeconds(unit, 'lead_time', **kw).create_bin_mask(s.da),
            lambda r: r.array('mask', r.value, [name, 'lead_time'], spec, const_coords={name: want}))


def _lookup(b, want, k):
  out = b.f(want[-1])
  for j, w in enumerate(want[:-1]):
    out = b.where(b.t(_z(k == j)), b.f(w), out)
  return out


def _z(z):
  from vc.terms import SV
  return SV('b', z)


@contract('seconds.unit', mode='bounded', samples=4, note='unsupported units are rejected')
def _(b):
  s = xarray.DataArray(np.zeros(2), dims='lead_time', coords={'lead_time': [0., 3600.]})
  b.ensures('bins', lambda: binning.ByTimeUnitFromSeconds('month', 'lead_time').create_bin_mask(s), lambda r: r.raises('rejected', ValueError))
  t = xarray.DataArray(np.zeros(2), dims='lead_time', coords={'lead_time': np.array([0, 1], 'timedelta64[h]').astype('timedelta64[ns]')})
  b.ensures('unit', lambda: binning.ByTimeUnit('month', 'lead_time').create_bin_mask(t), lambda r: r.raises('rejected', ValueError))


# -- bins for the distinct values present ----------------------------------

def distinct(b, name, values, dims):
  """A label dimension: the distinct values(i) over these dimensions."""
  if b.symbolic:
    from vc import terms as T
    return b.label_dim(name, None, lambda l: T.zb(b.any({}, dims, lambda j: _z(b.label(values(j)) == T.zi(l))).v))
  import itertools
  seen = {b.label(values(dict(zip(dims, p)))) for p in itertools.product(*[range(b.sizes[d]) for d in dims])}
  return b.label_dim(name, np.array(sorted(seen), dtype='int64'))


def bins_of(b, r, m, name, values, dims):
  """One bin per distinct value, labelled with it, true exactly where the value is; every element is in the bin of its own value and no other."""
  from vc import terms as T
  is_label = (lambda j: _z(b.label(values(j)) == T.zi(j[name]))) if b.symbolic else (lambda j: b.label(values(j)) == j[name])
  if not r.symbolic:
    r.check('dims', set(m.dims) == {name, *dims})
    lab = [b.label(x) for x in m[name].values]
    r.check('labels', lab == list(b.label_pos[name]), f'{lab}')
    m = m.assign_coords({name: np.array(lab)})
  r.array('mask', m, [name] + dims, is_label, coords=False)
  if r.symbolic:
    c = m._coords[name]
    r.check('label-dims', c._dims == (name,))
    r.forall('labels', [name], lambda i: _z(b.label(c.at(i)) == T.zi(i[name])))
    r.forall('own-bin', dims, lambda i: m.at({**i, name: b.label(values(i))}))
    r.check('label-kind', c.dtype.kind in 'mMif')


@contract('exact.distinct', cases=[dict(kind=k, nd=n) for k in 'mM' for n in (1, 2)])
def _(b, kind, nd):
  dims = ['p', 'q'][:nd]
  for d in dims:
    b.dim(d, labels=False)
  b.dim('z')
  xs = [b.coord(d, [d], gen=lambda rng, sh: rng.permutation(np.arange(float(sh[0])))) for d in dims]
  c = b.coord('c', dims, kind=kind, gen=time_gen if kind == 'M' else delta_gen)
  s = b.array('s', dims + ['z'], nan=True)
  distinct(b, 'c', lambda i: c[i], dims)
  def post(r):
    bins_of(b, r, r.value, 'c', lambda i: c[i], dims)
    for d, x in zip(dims, xs):
      r.array(f'kept {d}', r.value.coords[d], [d], lambda i: x[i])
  b.ensures('bins', lambda: binning.ByExactCoord('c').create_bin_mask(s.da), post)


UNITS_M = ('hour', 'minute', 'dayofyear')


@contract('unit.distinct', cases=[dict(kind='m', unit=u, sparse=p) for u in UNIT_S for p in (False, True)] + [dict(kind='M', unit=u, sparse=p) for u in UNITS_M for p in (False, True)])
def _(b, kind, unit, sparse):
  """One bin per number of whole units (or calendar component) present."""
  d = 'p' if sparse else 'c'
  b.dim(d, labels=False); b.dim('z')
  c = b.coord('c', [d], kind=kind, gen=(lambda rng, sh: np.unique(np.concatenate([time_gen(rng, (20,)) if kind == 'M' else delta_gen(rng, (20,))]))[:sh[0]]) if not sparse else time_gen if kind == 'M' else delta_gen)
  s = b.array('s', [d, 'z'], nan=True)
  if kind == 'm':
    value = lambda i: b.floordiv(b.seconds(c[i]), float(UNIT_S[unit]))
  else:
    value = lambda i: {'hour': b.hour, 'dayofyear': b.doy, 'minute': b.minute}[unit](c[i])
  name = f'c_{unit}'
  distinct(b, name, value, [d])
  b.ensures('bins', lambda: binning.ByTimeUnit(unit, 'c').create_bin_mask(s.da), lambda r: bins_of(b, r, r.value, name, value, [d]))


@contract('exact.mask', cases=[dict(glob=g, kind=k) for g in (False, True) for k in ('f', 'i', 'm', 'M', 'U')], mode='bounded',
          note='np.unique over the values present: bounded to the sampled sizes')
def _(b, glob, kind):
  """One bin per distinct value, true exactly where the coordinate has that value; every element is in exactly one."""
  rng = b.rng
  shape = tuple(rng.integers(0 if not glob else 1, 4, rng.integers(1, 3)))
  v = {'f': lambda: rng.choice([0.5, 1.0, -2.0], shape), 'i': lambda: rng.integers(0, 3, shape), 'm': lambda: delta_gen(rng, shape) if rng.random() < .5 else rng.integers(0, 3, shape).astype('timedelta64[h]').astype('timedelta64[ns]'),
       'M': lambda: time_gen(rng, shape), 'U': lambda: rng.choice(np.array(['AB', 'C', 'DEF']), shape)}[kind]()
  dims = ['p', 'q'][:len(shape)]
  s = xarray.DataArray(np.zeros(shape + (2,)), dims=dims + ['z'], coords={'c': (dims, v)})
  b.sampler.record[('values', '')] = str(v)
  def post(r):
    m = r.value
    uniq = sorted(set(v.ravel().tolist()))
    r.check('count', m.sizes['c'] == len(uniq) + glob)
    r.check('dims', set(m.dims) == set(dims) | {'c'})
    m2 = m.transpose('c', *dims).values
    u = np.unique(v)
    lab = m['c'].values
    off = 1 if glob else 0
    if glob:
      r.check('global', str(lab[0]) == 'global' and m2[0].all())
    for k, x in enumerate(u):
      r.check('bin', np.array_equal(m2[k + off], v == x))
      r.check('label', str(lab[k + off]) == str(u.astype(str)[k]) if glob and kind != 'U' else lab[k + off] == x)
    if not glob and v.size:
      r.check('partition', (m2.sum(0) == 1).all())
  b.ensures('bins', lambda: binning.ByExactCoord('c', add_global_bin=glob).create_bin_mask(s), post)


@contract('exact.dimension', mode='bounded', samples=4)
def _(b):
  s = xarray.DataArray(np.zeros(2), dims='c', coords={'c': [1, 2]})
  b.ensures('bins', lambda: binning.ByExactCoord('c').create_bin_mask(s), lambda r: r.raises('rejected', AssertionError, ValueError))


def comp(v, unit, kind):
  if kind == 'm':
    q = v.astype('timedelta64[s]').astype('int64') // UNIT_S[unit]
    return q
  f = {'week': lambda t: t.isocalendar()[1]}.get(unit, lambda t: getattr(t, unit))
  return np.array([f(pd.Timestamp(x)) for x in v.ravel()], dtype='int64').reshape(v.shape)


@contract('unit.mask', cases=[dict(kind='m', unit=u, glob=g) for u in UNIT_S for g in (False, True)] +
          [dict(kind='M', unit=u, glob=g) for u in ('second', 'minute', 'hour', 'day', 'month', 'year', 'dayofyear') for g in (False, True)],
          mode='bounded', samples=25, note='np.unique over the values present: bounded to the sampled sizes')
def _(b, kind, unit, glob):
  """One bin per distinct unit value present."""
  rng = b.rng
  n = int(rng.integers(1, 7))
  v = np.unique((delta_gen if kind == 'm' else time_gen)(rng, (n,)))
  rng.shuffle(v)
  n = len(v)
  sparse = rng.random() < 0.5
  if sparse:
    s = xarray.DataArray(np.zeros((n, 2)), dims=['p', 'z'], coords={'c': ('p', v)})
    d = 'p'
  else:
    s = xarray.DataArray(np.zeros((n, 2)), dims=['c', 'z'], coords={'c': v})
    d = 'c'
  b.sampler.record[('values', '')] = str(v)
  name = f'c_{unit}'
  def post(r):
    m = r.value.transpose(name, d)
    q = comp(v, unit, kind)
    u = np.unique(q)
    off = 1 if glob else 0
    r.check('count', m.sizes[name] == len(u) + glob)
    if glob:
      r.check('global', str(m[name].values[0]) == 'global' and m.values[0].all())
    for k, x in enumerate(u):
      lab = m[name].values[k + off]
      r.check('label', float(lab) == float(x))
      r.check('bin', np.array_equal(m.values[k + off], q == x))
  b.ensures('bins', lambda: binning.ByTimeUnit(unit, 'c', add_global_bin=glob).create_bin_mask(s), post)
