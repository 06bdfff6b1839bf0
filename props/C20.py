"""Sparse observations are matched to the right time window."""
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
from vc import loops
from vc import rows as R
from vc import sxr
from vc import terms as T
from vc.contract import SkipSample
from vc.contract import contract
from weatherbenchX.data_loaders import sparse_parquet as sp

ASSUMPTIONS = ['vc/rows.py: pandas, pyarrow and numpy.datetime64 by the contracts listed there; the table is represented by arbitrary rows, a loop over the requested times or files by one arbitrary position; loads leave the loader as it was (checked)',
               'an observation is stored in the file of a time at most file_tolerance from its own; no missing files; times to the second']
M10 = np.timedelta64(10, 'm')
H = np.timedelta64(1, 'h')
T0 = np.datetime64('2020-02-29T00', 'ns')   # two days around a month boundary
SPAN = 48 * 6                                # in steps of ten minutes


def table(b, n=None, stations=4):
  """Observations at any multiple of ten minutes, more on the full hours; `row` identifies them."""
  rng = b.rng
  n = int(rng.integers(20, 60)) if n is None else n
  step = rng.integers(0, SPAN, n)
  step = np.where(rng.random(n) < 0.5, step // 6 * 6, step)
  step = np.where(rng.random(n) < 0.6, SPAN // 2 + (step - SPAN // 2) // 6, step)   # many close to the month boundary
  t = (T0 + step * M10).astype('datetime64[ns]')
  df = pd.DataFrame(dict(timeObs=t, row=np.arange(n, dtype='float64'), other=np.where(rng.random(n) < 0.3, np.nan, rng.normal(size=n)),
                         third=np.where(rng.random(n) < 0.3, np.nan, rng.normal(size=n)), lat=rng.normal(size=n),
                         station=[f'S{k}' for k in rng.integers(0, stations, n)]))
  return df


LAYOUT = {'month': ('M', '{y}/month={m}/{y}-{m:02d}.parquet'), 'day': ('D', '{y}/month={m}/day={d}/{y}-{m:02d}-{d:02d}.parquet'),
          'hour': ('h', '{y}/month={m}/day={d}/hour={h}/{y}-{m:02d}-{d:02d}T{h:02d}.parquet')}


def store(b, df, partition, slack=H):
  """The documented directory layout; an observation is in the file of a time at most `slack` from its own."""
  unit, name = LAYOUT[partition]
  d = tempfile.mkdtemp(prefix='c20')
  nominal = df.timeObs.values + (b.rng.integers(-2, 3, len(df)) * (slack / 2)).astype('timedelta64[ns]')
  key = nominal.astype(f'datetime64[{unit}]')
  lo, hi = (T0 - 24 * H).astype(f'datetime64[{unit}]'), (T0 + 72 * H).astype(f'datetime64[{unit}]')
  one = np.timedelta64(1, unit)
  for k in np.arange(lo, hi + one, one):
    s = pd.Timestamp(k)
    f = os.path.join(d, 'year=' + name.format(y=s.year, m=s.month, d=s.day, h=s.hour))
    os.makedirs(os.path.dirname(f), exist_ok=True)
    df[key == k].to_parquet(f)
  return d


def request(b, kind):
  rng = b.rng
  it = T0 + rng.choice(np.arange(0, 30), int(rng.integers(1, 4)), replace=False) * H
  if rng.random() < 0.5:
    it[0] = T0 + 24 * H - int(rng.integers(0, 3)) * H
  if kind == 'none':
    return it, None
  if kind == 'slice':
    a = int(rng.choice([0, 0, 1, 3]))
    return it, slice(a * H, (a + int(rng.integers(1, 9))) * H)
  return it, rng.choice(np.arange(0, 9), int(rng.integers(1, 4)), replace=False).astype('timedelta64[h]')


TOL = {'none': None, 'one': 30 * np.timedelta64(1, 'm'), 'pair': (-np.timedelta64(90, 'm'), np.timedelta64(20, 'm')),
       'after': (np.timedelta64(10, 'm'), np.timedelta64(1, 'h'))}


def windows(it, lt, tol, end):
  """[(init, lead or None, predicate over observation times)]"""
  pairs = []
  for i in it:
    for l in [None] if lt is None or isinstance(lt, slice) else lt:
      v = i if l is None else i + l
      if isinstance(lt, slice):
        lo, hi = i + lt.start, i + lt.stop
      elif tol is None:
        lo, hi = v, None
      else:
        t = (-tol, tol) if isinstance(tol, np.timedelta64) else tol
        lo, hi = v + t[0], v + t[1]
      def inside(x, lo=lo, hi=hi):
        if hi is None:
          return x == lo
        return (x >= lo) & ((x <= hi) if end else (x < hi))
      pairs.append((i, l, v, inside))
  return pairs


def rows(v, lt):
  """(row, observation time, init, lead) of the loaded data."""
  n = v.sizes['index']
  z = [None] * n
  return list(zip(v.values.astype(int).tolist(), v.valid_time.values.tolist(),
                  v.init_time.values.astype('datetime64[ns]').tolist() if lt is not None else z, v.lead_time.values.astype('timedelta64[ns]').tolist() if lt is not None else z))


def ns(x):
  return None if x is None else int(x.astype('datetime64[ns]' if x.dtype.kind == 'M' else 'timedelta64[ns]').astype('int64'))


def expected(df, it, lt, tol, end, keep=None):
  out = []
  for i, l, v, inside in windows(it, lt, tol, end):
    sel = df[inside(df.timeObs.values)]
    if keep is not None:
      sel = keep(sel, v)
    for r, t in zip(sel.row.values, sel.timeObs.values):
      lead = None if lt is None else ns(t - i) if isinstance(lt, slice) else ns(l)
      out.append((int(r), ns(t), ns(i) if lt is not None else None, lead))
  return out


def load(d, it, lt, **kw):
  try:
    return sp.SparseObservationsFromParquet(d, **kw).load_chunk(it, lt)
  finally:
    shutil.rmtree(d)


def complete(r, df, ds, cols):
  """Every column of a row is that of its observation."""
  k = ds['row'].values.astype(int)
  for c, src in cols.items():
    x, y = ds[c].values, df[src].values[k]
    r.check(c, np.array_equal(x, y, equal_nan=True) if x.dtype.kind == 'f' else list(x) == list(y))
  r.check('index', np.array_equal(ds['index'].values, np.arange(ds.sizes['index'])))


BASE = dict(time_dim='timeObs', variables=['row', 'other'], coordinate_variables=['lat', 'station'])
WIN = [dict(partition=p, lead=l, tol=t, end=e) for p in ('hour', 'day', 'month') for l, t in (('exact', 'none'), ('exact', 'one'), ('exact', 'pair'), ('exact', 'after'), ('none', 'none'), ('none', 'one'), ('slice', 'none'))
       for e in ((False, True) if t != 'none' or l == 'slice' else (False,))]


@contract('window', cases=WIN, mode='bounded', samples=8)
def _(b, partition, lead, tol, end):
  """Exactly the observations in the window of each requested time, once per requested time, labelled with it."""
  df = table(b)
  it, lt = request(b, lead)
  b.sampler.record[('args', '')] = str((it, lt, df))
  d = store(b, df, partition)
  def post(r):
    ds = r.value
    r.check('columns', set(ds) == {'row', 'other'} and set(ds.coords) == {'index', 'lat', 'station', 'valid_time'} | ({'init_time', 'lead_time'} if lt is not None else set()))
    got, want = rows(ds['row'], lt), expected(df, it, lt, TOL[tol], end)
    r.check('none lost', not set(want) - set(got))
    r.check('none added', not set(got) - set(want))
    r.check('none repeated', len(got) == len(want))
    complete(r, df, ds, dict(row='row', other='other', lat='lat', station='station', valid_time='timeObs'))
  b.ensures('chunk', lambda: load(d, it, lt, partitioned_by=partition, tolerance=TOL[tol], include_slice_end_time=end, **BASE), post)


@contract('missing', cases=[dict(split=s, drop=x) for s in (False, True) for x in (False, True)], mode='bounded', samples=12)
def _(b, split, drop):
  """Missing values are dropped when asked for: rows with any, or for each variable its own."""
  df = table(b)
  it, lt = request(b, 'exact')
  d = store(b, df, 'day')
  variables = ['row', 'other', 'third']
  def post(r):
    v = r.value
    r.check('variables', set(v) == set(variables) and isinstance(v, dict) == split)
    want = expected(df, it, lt, TOL['one'], False)
    has = {c: {k for k in range(len(df)) if not np.isnan(df[c].values[k])} for c in variables}
    allof = set.intersection(*has.values())
    for c in variables:
      keep = (has[c] if split else allof) if drop else has['row']
      w = [x for x in want if x[0] in keep]
      key = lambda x: (x[0], x[2], x[3])
      da = v[c]
      got = list(zip(da.lat.values.tolist(), da.init_time.values.astype('datetime64[ns]').tolist(), da.lead_time.values.astype('timedelta64[ns]').tolist()))
      r.check(c + ' rows', sorted(got) == sorted((df.lat.values[x[0]], x[2], x[3]) for x in w))
      vals = {float(df.lat.values[k]): df[c].values[k] for k in range(len(df))}
      r.check(c + ' values', np.array_equal(da.values, np.array([vals[float(x)] for x in da.lat.values], dtype=float), equal_nan=True))
  b.ensures('chunk', lambda: load(d, it, lt, partitioned_by='day', tolerance=TOL['one'], split_variables=split, dropna=drop, time_dim='timeObs', variables=variables, coordinate_variables=['lat']), post)


@contract('duplicates', cases=[dict(by=x, tol=t) for x in (None, 'timeObs') for t in ('one', 'pair')], mode='bounded', samples=15)
def _(b, by, tol):
  """One observation per station and requested time: the closest one in time, or any one."""
  df = table(b, stations=2)
  it, lt = request(b, 'exact')
  d = store(b, df, 'day')
  def post(r):
    got = rows(r.value['row'], lt)
    want = expected(df, it, lt, TOL[tol], True)
    r.check('none added', not set(got) - set(want))
    st = df.station.values
    slot = lambda x: (st[x[0]], x[2], x[3])
    r.check('one each', len({slot(x) for x in got}) == len(got))
    r.check('none lost', {slot(x) for x in got} == {slot(x) for x in want})
    if by:
      dist = lambda x: abs(x[1] - x[2] - x[3])
      best = {}
      for x in want:
        best[slot(x)] = min(best.get(slot(x), 10 ** 30), dist(x))
      r.check('closest', all(dist(x) == best[slot(x)] for x in got))
  b.ensures('chunk', lambda: load(d, it, lt, partitioned_by='day', tolerance=TOL[tol], include_slice_end_time=True, remove_duplicates=True,
                                  pick_closest_duplicate_by=by, observation_dim='station', **BASE), post)


@contract('processing', mode='bounded', samples=15, cases=[dict(partition=p) for p in ('hour', 'month')])
def _(b, partition):
  """Preprocessing on the raw names first, then renaming; the requested names are the new ones."""
  df = table(b)
  it, lt = request(b, 'exact')
  d = store(b, df, partition)
  seen = []
  def pre(x):
    seen.append(set(x.columns) >= {'timeObs', 'row', 'other', 'third', 'station'})
    x['third'] = x['third'] + x['row']
    return x
  def post(r):
    ds = r.value
    r.check('raw names', all(seen) and len(seen) == len(it) * len(lt))
    r.check('variables', set(ds) == {'row', 'sum'} and 'place' in ds.coords)
    got, want = rows(ds['row'], lt), expected(df, it, lt, TOL['one'], False)
    r.check('rows', sorted(got) == sorted(want))
    k = ds['row'].values.astype(int)
    r.check('processed', np.array_equal(ds['sum'].values, (df.third.values + df.row.values)[k], equal_nan=True))
    r.check('renamed', list(ds['place'].values) == list(df.station.values[k]))
  b.ensures('chunk', lambda: load(d, it, lt, partitioned_by=partition, tolerance=TOL['one'], preprocessing_fn=pre, rename_variables={'third': 'sum', 'station': 'place'},
                                  time_dim='timeObs', variables=['row', 'sum'], coordinate_variables=['place']), post)


@contract('metar', mode='bounded', samples=20)
def _(b):
  """Flagged values are missing, longitudes in [0, 360), elevation fill values missing."""
  rng = b.rng
  df = table(b)
  n = len(df)
  df = pd.DataFrame(dict(timeObs=df.timeObs, temperature=df.row, windSpeed=rng.normal(size=n), temperatureDD=rng.choice(list('SVCZBXQk'), n), windSpeedDD=rng.choice(list('SVCZBXQk'), n),
                         latitude=df.lat, longitude=rng.choice([-180., -90., -0.5, 0., 10., 180., 359.], n), elevation=rng.choice([0., 120., 9998., 9999., 10500., -5.], n),
                         stationName=df.station, row=df.row))
  it, lt = request(b, 'exact')
  d = store(b, df, 'month')
  def load_():
    try:
      return sp.METARFromParquet(d, variables=['2m_temperature', '10m_wind_speed'], time_dim='timeObs', tolerance=TOL['one']).load_chunk(it, lt)
    finally:
      shutil.rmtree(d)
  def post(r):
    ds = r.value
    want = expected(df, it, lt, TOL['one'], False)
    bad = list('ZBXQk')
    lines = []
    for k, t, i, l in want:
      x = df.iloc[k]
      lines.append((np.nan if x.temperatureDD in bad else x.temperature, np.nan if x.windSpeedDD in bad else x.windSpeed, x.longitude % 360,
                    np.nan if x.elevation >= 9999 else x.elevation, x.latitude, t, i, l))
    got = list(zip(ds['2m_temperature'].values, ds['10m_wind_speed'].values, ds.longitude.values, ds.elevation.values, ds.latitude.values,
                   ds.valid_time.values.tolist(), ds.init_time.values.astype('datetime64[ns]').tolist(), ds.lead_time.values.astype('timedelta64[ns]').tolist()))
    key = lambda x: tuple(-1e9 if isinstance(y, float) and np.isnan(y) else float(y) for y in x)
    r.check('rows', sorted(map(key, got)) == sorted(map(key, lines)))
    r.check('stations', 'stationName' in ds.coords)
  b.ensures('chunk', load_, post)


@contract('files', mode='bounded', samples=150, cases=[dict(partition=p) for p in ('hour', 'day', 'month')])
def _(b, partition):
  """The files listed are those of every period that meets the interval, each once."""
  rng = b.rng
  unit, name = LAYOUT[partition]
  start = np.datetime64('2019-11-28T00:00', 'ns') + int(rng.integers(0, 160 * 24)) * H + int(rng.integers(0, 6)) * M10
  stop = start + int(rng.choice([0, 1, 6, 7, 200, 5000, 12000])) * M10
  b.sampler.record[('args', '')] = str((start, stop))
  def post(r):
    keys = sorted({(start + k * M10).astype(f'datetime64[{unit}]') for k in range(int((stop - start) / M10) + 1)})
    want = []
    for k in keys:
      s = pd.Timestamp(k)
      want.append(os.path.join('/data', 'year=' + name.format(y=s.year, m=s.month, d=s.day, h=s.hour)))
    r.check('files', list(r.value) == want)
  b.ensures('subset', lambda: sp.get_parquet_files_subset('/data', start, stop, partition), post)


@contract('arguments', mode='bounded', samples=1, cases=[dict(what=w) for w in ('partition', 'empty window', 'three tolerances', 'no station', 'slice and tolerance', 'unknown partition')])
def _(b, what):
  L = lambda **kw: sp.SparseObservationsFromParquet('/nonexistent', **{**BASE, 'partitioned_by': 'day', **kw})
  m = np.timedelta64(1, 'm')
  run, exc = {'partition': (lambda: L(partitioned_by='year'), ValueError), 'empty window': (lambda: L(tolerance=(m, m)), ValueError),
              'three tolerances': (lambda: L(tolerance=(-m, m, m)), ValueError), 'no station': (lambda: L(remove_duplicates=True), ValueError),
              'slice and tolerance': (lambda: L(tolerance=m).load_chunk(np.array([T0]), slice(0 * H, 3 * H)), AssertionError),
              'unknown partition': (lambda: sp.get_parquet_files_subset('/x', T0, T0, 'week'), NotImplementedError)}[what]
  b.ensures('refused', run, lambda r: r.raises('refused', exc))


# For every table, every set of files and every request (deductive)

UNIT = {k: v[0] for k, v in LAYOUT.items()}
FLAGS = 'SVCZBXQk'
for _f in FLAGS:
  R.Str.code(_f)
NUMBERS = ('other', 'third', 'lat')


class World:
  """Stored observations and a request, with the rows and the requested times that the contract is about."""

  def __init__(self, b, partition, lead, tol, rows=('some',), strings=('station',), numbers=NUMBERS, gens={}, ident=None, inits=3):
    self.b, self.unit, self.partition, self.lead, self.tol = b, UNIT[partition], partition, lead, tol
    self.z = z = loops.Ints(b)
    self.numbers, self.strings = numbers, strings
    b.world = self
    self.ident = ident
    self.end = False
    b.allow_labels = b.allow_transpose = False
    b.dim('row', lo=1, hi=12)
    b.dim('i', lo=1, hi=inits)
    b.dim('l', lo=1, hi=3)
    near = lambda rng, n: np.where(rng.random(n) < 0.6, SPAN // 2 + rng.integers(-12, 13, n), rng.integers(0, SPAN, n))
    self.time = b.array('time', ['row'], 'M', gen=lambda rng, s: (T0 + near(rng, s[0]) // rng.choice([1, 6], s) * rng.choice([1, 6]) * M10).astype('datetime64[ns]'))
    self.shift = b.array('shift', ['row'], 'm', gen=lambda rng, s: (rng.integers(-7, 8, s) * M10).astype('timedelta64[ns]'))
    self.cols = {c: b.array(c, ['row'], 'f', nan=c not in ('lat', 'latitude'), gen=gens.get(c)) for c in numbers}
    for c in strings:
      self.cols[c] = b.array(c, ['row'], 'i', gen=lambda rng, s, c=c: rng.integers(0, 9 if c.endswith('DD') else 3, s))
    distinct = lambda rng, s, k: rng.choice(np.arange(k), s[0], replace=False)
    self.init = b.array('init', ['i'], 'M', gen=lambda rng, s: (T0 + (18 + distinct(rng, s, 12)) * H).astype('datetime64[ns]'))
    self.leads = b.array('lead', ['l'], 'm', gen=lambda rng, s: (distinct(rng, s, 9) * H).astype('timedelta64[ns]'))
    dur = lambda name, lo, hi: b.scalar(name, 'm', gen=lambda rng: (int(rng.integers(lo, hi + 1)) * M10).astype('timedelta64[ns]'))
    self.ft = dur('file_tolerance', 0, 7)
    zero = np.timedelta64(0, 's')
    b.assume(b.t(self.ft.s) >= zero)
    if tol == 'one':
      self.t = dur('tolerance', 1, 9)
      b.assume(b.t(self.t.s) > zero)
    elif tol == 'pair':
      self.t = dur('before', -9, 6), dur('after', -3, 12)
      b.assume(self.t[0].s < self.t[1].s)
    if lead == 'slice':
      self.ends = dur('start', -6, 18), dur('stop', 0, 40)
      b.assume(self.ends[0].s <= self.ends[1].s)
    self.at = {d: z.scalar('at_' + d, 0, 2) for d in 'il'}
    self.pick = {r: z.scalar(r + '_row', 0, 11) for r in rows}
    for d, k in self.at.items():
      b.assume(z.every(k >= 0, k < z.size(d)))
    for k in self.pick.values():
      b.assume(z.every(k >= 0, k < z.size('row')))
    if len(rows) == 2:
      b.assume(self.pick[rows[0]] != self.pick[rows[1]])

  # ---- values
  def get(self, h, k, d='row'):
    return self.b.t(h({}, **{d: k}))

  def tol_args(self):
    if self.tol == 'none':
      return None
    return self.py(self.t) if self.tol == 'one' else tuple(self.py(x) for x in self.t)

  def py(self, s):
    return R.Num(s.s) if self.b.symbolic else s.val

  def times(self):
    """(init, lead, bounds of the window or its only time) at the contract's position."""
    i = self.get(self.init, self.at['i'], 'i')
    l = self.get(self.leads, self.at['l'], 'l')
    return (i, l, *self.window(i, l))

  def window(self, i, l):
    if self.lead == 'slice':
      return i + self.ends[0].s, i + self.ends[1].s
    v = i if self.lead == 'none' else i + l
    if self.tol == 'none':
      return v, None
    a, c = (-self.t.s, self.t.s) if self.tol == 'one' else [x.s for x in self.t]
    return v + a, v + c

  def inside(self, t, lo, hi, end):
    if hi is None:
      return self.b.eq(t, lo)
    return (t >= lo) & ((t <= hi) if end else (t < hi))

  # ---- symbolic
  def row(self, k):
    cols = {c: R.Str(k * 0 + z_int(h({}, row=k))) if c in self.strings else h({}, row=k) for c, h in self.cols.items()}
    nominal = self.get(self.time, k) + self.get(self.shift, k)
    ident = T.SV('f', T.z3.ToReal(k))
    return R.period(self.unit, nominal.v), {'timeObs': self.get(self.time, k), 'row': ident, 'row_id': ident, **cols}

  def load(self, cls=None, method='load_chunk', **kw):
    """What the loader gives for the request."""
    if not self.b.symbolic:
      return self.real(cls, method, **kw)
    picks = dict(self.pick)
    if 'kept' not in picks and len(picks) == 2:
      k = T.z3.Int('kept_row')
      R.learn(T.z3.And(k >= 0, k < self.z.size('row')))
      picks['kept'] = k
    for k in picks.values():
      s = self.get(self.shift, k).v
      R.learn(T.z3.And(-self.ft.s.v <= s, s <= self.ft.s.v))
    store = R.Store('/data', self.unit, {n: self.row(k) for n, k in picks.items()})
    m = R.load(sp, store)
    loader = getattr(m, cls or 'SparseObservationsFromParquet')('/data', partitioned_by=self.partition, tolerance=self.tol_args(), file_tolerance=self.py(self.ft), **kw)
    before, globs = R.snapshot(loader), R.snapshot(m)
    init = R.Seq(loops.num(self.z.size('i')), lambda k: R.Num(self.get(self.init, loops.zi(k), 'i')), self.at['i'])
    lead = None if self.lead == 'none' else slice(*[self.py(x) for x in self.ends]) if self.lead == 'slice' else R.Seq(
        loops.num(self.z.size('l')), lambda k: R.Num(self.get(self.leads, loops.zi(k), 'l')), self.at['l'])
    r = loader.load_chunk(init, lead)
    if R.snapshot(loader) != before or R.snapshot(m) != globs:
      raise T.Unsupported('the loader keeps something between loads')
    return r

  # ---- concrete
  def frame(self):
    n = self.b.sizes['row']
    df = pd.DataFrame({'timeObs': self.time.values.astype('datetime64[ns]'), 'row': np.arange(n, dtype='float64'), 'row_id': np.arange(n, dtype='float64'), **{c: h.values for c, h in self.cols.items()}})
    for c in self.strings:
      df[c] = [self.text(k) for k in df[c]]
    return df

  def text(self, k):
    return FLAGS[int(k)] if 0 <= k < len(FLAGS) else f'S{int(k)}'

  def real(self, cls, method, **kw):
    df = self.frame()
    ft = self.ft.val
    nominal = df.timeObs.values + np.clip(self.shift.values.astype('timedelta64[ns]'), -ft, ft)
    key = nominal.astype(f'datetime64[{self.unit}]')
    one = np.timedelta64(1, self.unit)
    periods = set(key)
    for i, l in self.requests():
      lo, hi = self.window(i, l)
      a, c = (lo - ft).astype(f'datetime64[{self.unit}]'), ((lo if hi is None else hi) + ft).astype(f'datetime64[{self.unit}]')
      if (c - a) / one > 500:
        raise SkipSample()
      periods |= set(np.arange(a, c + one, one))
    d = tempfile.mkdtemp(prefix='c20')
    try:
      for k in periods:
        s = pd.Timestamp(k)
        f = os.path.join(d, 'year=' + LAYOUT[self.partition][1].format(y=s.year, m=s.month, d=s.day, h=s.hour))
        os.makedirs(os.path.dirname(f), exist_ok=True)
        df[key == k].to_parquet(f)
      loader = getattr(sp, cls or 'SparseObservationsFromParquet')(d, partitioned_by=self.partition, tolerance=self.tol_args(), file_tolerance=ft, **kw)
      lead = None if self.lead == 'none' else slice(*[x.val for x in self.ends]) if self.lead == 'slice' else self.leads.values
      return loader.load_chunk(self.init.values, lead)
    finally:
      shutil.rmtree(d)

  def requests(self):
    return [(i, l) for i in self.init.values for l in (self.leads.values if self.lead == 'exact' else [None])]

  # ---- the result
  def string(self, c, k):
    """A string of the table as the result has it."""
    x = self.cols[c]({}, row=k)
    return R.Str(z_int(x)) if self.b.symbolic else self.text(x)

  def found(self, v, which, name='row'):
    """For a row: whether it is in the result for the requested time, how often, and its values there."""
    if self.b.symbolic:
      t = v if isinstance(v, R.Table) else v[name].table
      rows = [r for r in (t.rows if isinstance(v, R.Table) else v[name].rows) if r.name == which]
      if len(rows) != 1:
        raise T.Unsupported('a row more than once')
      return Found(T.zb(rows[0].guard), True, rows[0].cols)
    da = v[name]
    i, l, _, _ = self.times()
    n = da.sizes['index']
    if self.ident:
      known = self.cols[self.ident].values
      if len(set(known)) != len(known):
        raise SkipSample()
      ids = np.array([np.flatnonzero(known == x)[0] for x in da.coords[self.ident].values])
    else:
      ids = da.coords['row_id'].values if 'row_id' in da.coords else v['row'].values
    p = self.pick[which] if isinstance(which, str) else which
    sel = ids == p
    t = self.get(self.time, p)
    pos = [(x, y) for x in range(self.b.sizes['i']) for y in (range(self.b.sizes['l']) if self.lead == 'exact' else [None])]
    here = (self.at['i'], self.at['l'] if self.lead == 'exact' else None)
    if self.lead != 'none':
      sel &= da.init_time.values.astype('datetime64[ns]') == i
    if self.lead == 'exact':
      sel &= da.lead_time.values.astype('timedelta64[ns]') == l
    # the same observation for other positions of the request with the same labels
    others = 0
    for x, y in pos:
      xi, yl = self.get(self.init, x, 'i'), None if y is None else self.get(self.leads, y, 'l')
      if (x, y) != here and (self.lead == 'none' or xi == i) and (y is None or yl == l):
        others += int(bool(self.inside(t, *self.window(xi, yl), self.end)))
    k = np.flatnonzero(sel)
    cols = {c: v[c].values[k[0]] if c in getattr(v, 'variables', v) else da[c].values[k[0]] for c in {*v, *da.coords}} if len(k) else {}
    return Found(len(k) > others, len(k) - others in (0, 1), cols)


class Found:

  def __init__(self, there, once, cols):
    self.there, self.once, self.cols = there, once, cols


def z_int(sv):
  return T.z3.ToInt(sv.v)


def value(b, w, r, label, got, want, given):
  """A value of the row in the result."""
  if b.symbolic:
    r.holds(label, R.vsame(got, want), given)
  elif given:
    r.check(label, b.same(got, want) if not isinstance(want, str) else got == want)


TABLE = [dict(partition=p, lead=l, tol=t, end=e) for p in ('hour', 'day', 'month') for l, t in (('exact', 'none'), ('exact', 'one'), ('exact', 'pair'), ('none', 'none'), ('none', 'one'), ('none', 'pair'), ('slice', 'none'))
         for e in ((False, True) if t != 'none' or l == 'slice' else (False,))]


@contract('table.window', cases=TABLE, samples=6)
def _(b, partition, lead, tol, end):
  """An observation is in the result for a requested time if and only if its own time is in the window, once, labelled with the request and its own time, with its own values."""
  w = World(b, partition, lead, tol)
  w.end = end
  p = w.pick['some']
  def post(r):
    v = r.value
    time_coords = {'init_time', 'lead_time'} if lead != 'none' else set()
    r.check('variables', set(v.keys()) == {'row', 'other'})
    r.check('coordinates', set(v.coords) - {'index'} == {'lat', 'station', 'valid_time'} | time_coords)
    i, l, lo, hi = w.times()
    t = w.get(w.time, p)
    inside = w.inside(t, lo, hi, end)
    f = w.found(v, 'some')
    r.holds('none lost', f.there, inside)
    r.holds('none added', inside, f.there)
    r.check('once', f.once)
    if not b.symbolic and not f.there:
      return
    want = {'valid_time': t, 'other': w.cols['other']({}, row=p), 'lat': w.cols['lat']({}, row=p)}
    want['station'] = w.string('station', p)
    if lead != 'none':
      want.update(init_time=i, lead_time=l if lead == 'exact' else t - i)
    for c, x in want.items():
      value(b, w, r, c, f.cols[c], x, f.there)
  b.ensures('chunk', lambda: w.load(include_slice_end_time=end, **BASE), post)


ID = dict(time_dim='timeObs', coordinate_variables=['lat', 'row_id'])


@contract('table.missing', cases=[dict(split=s, drop=x, lead=l, tol=t) for s in (False, True) for x in (False, True) for l, t in (('exact', 'one'), ('none', 'none'), ('slice', 'none'))], samples=10)
def _(b, split, drop, lead, tol):
  """Asked to, the loader drops the rows with a missing value, or, for separate variables, those where this one is; and nothing else."""
  w = World(b, 'day', lead, tol)
  p = w.pick['some']
  names = ['row', 'other', 'third']
  def post(r):
    v = r.value
    r.check('kind', isinstance(v, dict) == split)
    r.check('variables', set(v.keys()) == set(names))
    inside = w.inside(w.get(w.time, p), *w.times()[2:], False)
    stored = {'row': b.t(1.0) if not b.symbolic else None, **{c: w.cols[c]({}, row=p) for c in names[1:]}}
    has = {c: ~(b.isnan(stored[c])) for c in names[1:]}
    keep = inside & has['other'] & has['third'] if drop else inside
    for c in names:
      f = w.found(v, 'some', c)
      k = keep if not split else inside & has[c] if drop and c in has else inside
      r.holds(c + ' none lost', f.there, k)
      r.holds(c + ' none added', k, f.there)
      r.check(c + ' once', f.once)
      if c in has and (b.symbolic or f.there):
        value(b, w, r, c, f.cols[c], stored[c], f.there)
        value(b, w, r, c + ' lat', f.cols['lat'], w.cols['lat']({}, row=p), f.there)
  b.ensures('chunk', lambda: w.load(split_variables=split, dropna=drop, variables=names, **ID), post)


@contract('table.duplicates', cases=[dict(partition=p, by=x, tol=t, lead=l) for p in ('day', 'month') for x in (None, 'timeObs') for l, t in (('exact', 'one'), ('exact', 'pair'), ('none', 'one'))], samples=15)
def _(b, partition, by, tol, lead):
  """At most one observation of a station for a requested time; none is lost but for another of its station; the one that stays is as close in time as any."""
  w = World(b, partition, lead, tol, rows=('some', 'other'), inits=3 if lead == 'exact' else 1)   # without lead times, rows of different requested times look alike
  w.end = True
  p, q = w.pick['some'], w.pick['other']
  station = lambda k: w.string('station', k)
  alike = lambda x, y: R.vsame(station(x), station(y)) if b.symbolic else station(x) == station(y)
  def post(r):
    v = r.value
    i, l, lo, hi = w.times()
    vt = i if lead == 'none' else i + l
    inside = lambda k: w.inside(w.get(w.time, k), lo, hi, True)
    f, g = w.found(v, 'some'), w.found(v, 'other')
    same = alike(p, q)
    r.holds('none added', inside(p), f.there)
    r.check('once', f.once)
    both = T.zb(T.And(f.there, g.there, same)) if b.symbolic else f.there and g.there and same
    r.holds('one each', T.Not(both) if b.symbolic else not both, True)
    if by:
      dist = lambda k: abs(w.get(w.time, k) - vt)
      r.holds('closest', dist(p) <= dist(q), T.zb(T.And(f.there, same, inside(q).v)) if b.symbolic else bool(f.there and same and inside(q)))
    if b.symbolic:
      k = T.z3.Int('kept_row')
      kept = w.found(v, 'kept')
      some = T.Or(f.there, T.And(kept.there, alike(k, p), inside(k).v))
    else:
      some = any(w.found(v, k).there for k in range(b.sizes['row']) if alike(k, p))
    r.holds('none lost', some, inside(p))
  b.ensures('chunk', lambda: w.load(include_slice_end_time=True, remove_duplicates=True, pick_closest_duplicate_by=by, observation_dim='station', **BASE), post)


@contract('table.processing', cases=[dict(partition=p, how=h) for p in ('hour', 'day') for h in ('change', 'select')], samples=10)
def _(b, partition, how):
  """The given function sees the raw columns; renaming comes after it."""
  w = World(b, partition, 'exact', 'one')
  p = w.pick['some']
  def pre(x):
    if how == 'select':
      return x[x['lat'] > 0]
    x['third'] = x['third'] + x['row']
    return x
  def post(r):
    v = r.value
    r.check('variables', set(v.keys()) == {'row', 'sum'})
    r.check('coordinates', set(v.coords) - {'index'} == {'place', 'init_time', 'lead_time', 'valid_time'})
    inside = w.inside(w.get(w.time, p), *w.times()[2:], False)
    if how == 'select':
      inside = inside & (w.cols['lat']({}, row=p) > 0)
    f = w.found(v, 'some')
    r.holds('none lost', f.there, inside)
    r.holds('none added', inside, f.there)
    r.check('once', f.once)
    if not b.symbolic and not f.there:
      return
    third = w.cols['third']({}, row=p)
    value(b, w, r, 'sum', f.cols['sum'], third if how == 'select' else third + (T.SV('f', T.z3.ToReal(p)) if b.symbolic else float(p)), f.there)
    value(b, w, r, 'place', f.cols['place'], w.string('station', p), f.there)
    value(b, w, r, 'time', f.cols['valid_time'], w.get(w.time, p), f.there)
  b.ensures('chunk', lambda: w.load(preprocessing_fn=pre, rename_variables={'third': 'sum', 'station': 'place'}, time_dim='timeObs', variables=['row', 'sum'], coordinate_variables=['place']), post)


@contract('table.metar', cases=[dict(partition='month', drop=d, pre=x, split=s) for d, x, s in ((False, False, False), (True, False, False), (True, False, True), (False, True, False))], samples=15)
def _(b, partition, drop, pre, split):
  """Values flagged Z, B, X, Q or k are missing, longitudes are in [0, 360), elevations from 9999 on are missing; a given function comes first."""
  raw = {'2m_temperature': 'temperature', '10m_wind_speed': 'windSpeed'}
  w = World(b, partition, 'exact', 'one', numbers=('temperature', 'windSpeed', 'latitude', 'longitude', 'elevation'), strings=('temperatureDD', 'windSpeedDD', 'stationName'), ident='latitude',
            gens=dict(latitude=lambda rng, s: rng.normal(size=s), elevation=lambda rng, s: rng.choice([0., 8.5, 9., 120., 9998., 9999., 10500.], s), longitude=lambda rng, s: rng.choice([-180., -90., -0.5, 0., 10., 180., 359.], s)))
  p = w.pick['some']
  def fn(x):
    x['elevation'] = x['elevation'] + 9990.0
    return x
  def post(r):
    v = r.value
    names = {'init_time', 'lead_time', 'valid_time', 'latitude', 'longitude', 'elevation', 'stationName'}
    r.check('variables', set(v.keys()) == set(raw))
    if not split:
      r.check('coordinates', set(v.coords) - {'index'} == names)
    inside = w.inside(w.get(w.time, p), *w.times()[2:], False)
    get = lambda c: w.cols[c]({}, row=p)
    nan = b.f(float('nan'))
    want = {}
    for c, x in raw.items():
      flag = (get(x + 'DD') >= 3) & (get(x + 'DD') < 8)
      want[c] = b.where(flag, nan, get(x))
    keep = {c: inside & ~b.isnan(want[c]) if drop else inside for c in raw}
    both = keep['2m_temperature'] & keep['10m_wind_speed']
    for c in raw:
      f = w.found(v, 'some', c)
      k = keep[c] if split else both
      r.holds(c + ' none lost', f.there, k)
      r.holds(c + ' none added', k, f.there)
      if not b.symbolic and not f.there:
        continue
      value(b, w, r, c, f.cols[c], want[c], f.there)
      value(b, w, r, c + ' longitude', f.cols['longitude'], b.mod(get('longitude'), 360), f.there)
      e = get('elevation') + 9990.0 if pre else get('elevation')
      value(b, w, r, c + ' elevation', f.cols['elevation'], b.where(e < 9999.0, e, nan), f.there)
      value(b, w, r, c + ' latitude', f.cols['latitude'], get('latitude'), f.there)
      value(b, w, r, c + ' station', f.cols['stationName'], w.string('stationName', p), f.there)
  b.ensures('chunk', lambda: w.load('METARFromParquet', variables=list(raw), time_dim='timeObs', dropna=drop, split_variables=split, preprocessing_fn=fn if pre else None), post)
