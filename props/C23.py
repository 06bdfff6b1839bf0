"""The parallel pipeline gives the same result as direct evaluation.

`define_pipeline` itself is executed: its transforms are interpreted by a small executor over bags of elements whose
schedule (element order, combiner trees, empty accumulators) is chosen by the check.  Data are symbolic, so the result is
compared with the definition of the metrics over all the data for every value and chunk length; any schedule follows from
the accumulator contracts (`combiner.*`) by induction over the combine tree."""
import itertools
import logging
import os
import shutil
import tempfile

import apache_beam as beam
from apache_beam.testing import test_pipeline
import numpy as np
from vc.contract import SkipSample, contract
from vc.terms import Unsupported
from weatherbenchX import aggregation
from weatherbenchX import beam_pipeline
from weatherbenchX import beam_utils
from weatherbenchX import binning
from weatherbenchX import time_chunks
from weatherbenchX import weighting
from weatherbenchX.data_loaders import base as loaders
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.metrics import deterministic
import xarray as xr
from props.common import AnyBinning, AnyWeighting


logging.getLogger('apache_beam').setLevel(logging.ERROR)


# ---------------------------------------------------------------------------
# Accumulator laws

def ok_acc(b, h):
  return h.da


@contract('combiner.fold', cases=[dict(tree=t) for t in ('add3', 'merge2', 'merge-empty', 'merge-generator', 'add-after-merge', 'nested', 'single', 'reversed')])
def _(b, tree):
  """From no input, through any adds and merges, the output is the sum of the inputs, however grouped."""
  b.dim('g'); b.dim('x')
  hs = [b.array(f'a{k}', ['g', 'x'], nan=True) for k in range(4)]
  used = {'add3': 3, 'merge2': 2, 'merge-empty': 2, 'merge-generator': 3, 'add-after-merge': 3, 'nested': 4, 'single': 1, 'reversed': 3}[tree]
  def run():
    f = beam_utils.CombiningSum()
    ins = [h.da for h in hs]
    def acc(*ks):
      a = f.create_accumulator()
      for k in ks:
        a = f.add_input(a, ins[k])
      return a
    if tree == 'add3':
      a = acc(0, 1, 2)
    elif tree == 'merge2':
      a = f.merge_accumulators([acc(0), acc(1)])
    elif tree == 'merge-empty':
      a = f.merge_accumulators([acc(), acc(1), acc(), acc(0), f.merge_accumulators([acc(), acc()])])
    elif tree == 'merge-generator':
      a = f.merge_accumulators(acc(*k) for k in ((0, 1), (), (2,)))
    elif tree == 'add-after-merge':
      a = f.add_input(f.merge_accumulators([acc(0), acc(1)]), ins[2])
    elif tree == 'nested':
      a = f.merge_accumulators([f.merge_accumulators([acc(3), acc(1)]), f.merge_accumulators([acc(0, 2)])])
    elif tree == 'single':
      a = f.merge_accumulators([acc(0)])
    else:
      a = f.merge_accumulators([acc(2, 1), acc(0)])
    return f.extract_output(f.compact(a)), ins
  def post(r):
    out, ins = r.value
    def spec(i):
      t = hs[0][i]
      for h in hs[1:used]:
        t = t + h[i]
      return t
    r.array('sum', out, ['g', 'x'], spec)
    for k in range(used):
      r.array(f'input{k}-kept', ins[k], ['g', 'x'], lambda i, k=k: hs[k][i])
  b.ensures('combine', run, post)


@contract('combiner.empty')
def _(b):
  """Accumulators without input are the identity; nothing merged gives none."""
  def run():
    f = beam_utils.CombiningSum()
    n = f.create_accumulator()
    return [f.merge_accumulators([]), f.merge_accumulators([n, f.create_accumulator()]), f.extract_output(f.merge_accumulators(iter([n])))]
  b.ensures('merge', run, lambda r: r.check('none', all(x is None for x in r.value)))


@contract('combiner.inductive', cases=[dict(op=o) for o in ('add', 'merge2', 'merge3')])
def _(b, op):
  """Inductive step: accumulators of arbitrary value a, b, c (or none)."""
  b.dim('x')
  h = {k: b.array(k, ['x'], nan=True) for k in 'abc'}
  def run():
    f = beam_utils.CombiningSum()
    if op == 'add':
      return f.add_input(h['a'].da, h['b'].da)
    return f.merge_accumulators([h['a'].da, None, h['b'].da] + ([h['c'].da] if op == 'merge3' else []))
  ks = 'abc' if op == 'merge3' else 'ab'
  def post(r):
    def spec(i):
      t = h['a'][i]
      for k in ks[1:]:
        t = t + h[k][i]
      return t
    r.array('sum', r.value, ['x'], spec)
  b.ensures('combine', run, post)


@contract('combiner.labels', mode='bounded', samples=80, note='arrays with different label sets: outer join, zero where absent')
def _(b):
  n = int(b.rng.integers(1, 6))
  pool = np.arange(5.0)
  arrs = []
  for _ in range(n):
    lab = b.rng.permutation(pool)[:int(b.rng.integers(0, 5))]
    if b.rng.random() < 0.5:
      lab = np.sort(lab)
    arrs.append(xr.DataArray(b.rng.integers(-4, 5, (len(lab), 2)).astype(float), dims=('s', 'z'), coords={'s': lab}))
  b.sampler.record[('args', '')] = str([(a.s.values.tolist(), a.values.tolist()) for a in arrs])
  keep = [a.copy(deep=True) for a in arrs]
  order = b.rng.permutation(n)
  def run():
    f = beam_utils.CombiningSum()
    accs = [f.create_accumulator() for _ in range(int(b.rng.integers(1, 4)))]
    for k in order:
      j = int(b.rng.integers(len(accs)))
      accs[j] = f.add_input(accs[j], arrs[k])
    return f.extract_output(f.merge_accumulators(accs))
  def post(r):
    v = r.value
    labels = sorted({float(x) for a in keep for x in a.s.values})
    r.check('labels', sorted(v.s.values.tolist()) == labels)
    want = np.zeros((len(labels), 2))
    for a in keep:
      for x, row in zip(a.s.values, a.values):
        want[labels.index(float(x))] += row
    r.check('values', np.array_equal(v.sortby('s').transpose('s', 'z').values, want))
    r.check('inputs-kept', all(a.identical(k) for a, k in zip(arrs, keep)))
  b.ensures('combine', run, post)


# ---------------------------------------------------------------------------
# Executor

class Schedule:
  """How elements are ordered and combined."""

  def __init__(self, kind, rng=None):
    self.kind, self.rng = kind, rng

  def order(self, xs):
    xs = list(xs)
    if self.kind == 'random':
      return [xs[k] for k in self.rng.permutation(len(xs))]
    return xs[::-1] if self.kind == 'reversed' else xs

  def combine(self, fn, xs):
    xs = self.order(xs)
    if self.kind == 'sequential':
      acc = fn.create_accumulator()
      for x in xs:
        acc = fn.add_input(acc, x)
      return fn.extract_output(acc)
    if self.kind == 'random':
      n = int(self.rng.integers(1, len(xs) + 2))
      accs = [fn.create_accumulator() for _ in range(n)]
      for x in xs:
        j = int(self.rng.integers(n))
        accs[j] = fn.add_input(accs[j], x)
      while len(accs) > 1:
        k = int(self.rng.integers(2, len(accs) + 1))
        accs = accs[k:] + [fn.merge_accumulators(accs[:k])]
        accs = [accs[j] for j in self.rng.permutation(len(accs))]
      return fn.extract_output(fn.compact(accs[0]))
    accs = [fn.add_input(fn.create_accumulator(), x) for x in xs] + [fn.create_accumulator()]
    while len(accs) > 1:
      accs = [fn.merge_accumulators(accs[k:k + 2]) for k in range(0, len(accs), 2)]
    return fn.extract_output(fn.compact(accs[0]))


class Bag:
  """A collection; applying a transform runs it at once."""

  def __init__(self, sched, symbolic, written, xs=()):
    self.sched, self.symbolic, self.written, self.xs = sched, symbolic, written, list(xs)

  def _new(self, xs):
    return Bag(self.sched, self.symbolic, self.written, self.sched.order(xs))

  def __or__(self, t):
    if type(t).__name__ == '_NamedPTransform':
      t = t.transform
    if isinstance(t, beam.Create):
      return self._new(t.values)
    if isinstance(t, beam.ParDo):
      fn = t.fn
      out = []
      if isinstance(fn, (beam_pipeline.WriteMetrics, beam_pipeline.WriteAggregationState)):
        for x in self.xs:
          self.written.append((fn.out_path, x))
        return self._new([])
      fn.setup()
      fn.start_bundle()
      for x in self.xs:
        out.extend(fn.process(x, *t.args, **t.kwargs) or [])
      out.extend(w.value for w in (fn.finish_bundle() or []))
      fn.teardown()
      return self._new(out)
    if isinstance(t, beam.GroupByKey):
      groups = {}
      for k, v in self.xs:
        groups.setdefault(k, []).append(v)
      return self._new([(k, self.sched.order(v)) for k, v in groups.items()])
    if isinstance(t, beam.CombinePerKey):
      groups = {}
      for k, v in self.xs:
        groups.setdefault(k, []).append(v)
      return self._new([(k, self.sched.combine(t.fn, v)) for k, v in groups.items()])
    if isinstance(t, beam.Reshuffle):
      return self._new(self.xs)
    if isinstance(t, beam.PTransform):
      return t.expand(self)
    self._refuse(f'transform {t}')

  def _refuse(self, what):
    if self.symbolic:
      raise Unsupported(what)
    raise SkipSample()

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    self._refuse(f'collection.{name}')


_KEPT = {}


def _lookup(k):
  return _KEPT[k]


class Kept:
  """Beam pickles functions when the pipeline is built; these objects stay in this process."""

  def __reduce__(self):
    _KEPT[id(self)] = self
    return _lookup, (id(self),)


class GivenWeighting(Kept, AnyWeighting):
  pass


class GivenBinning(Kept, AnyBinning):
  pass


class ChunkLoader(Kept, loaders.DataLoader):
  """Returns the prepared chunk for the times it is asked for."""

  def __init__(self, find, log, name):
    super().__init__()
    self._find, self._log, self._name = find, log, name

  def load_chunk(self, init_times, lead_times=None, reference=None):
    key = self._find(init_times, lead_times)
    self._log.append((self._name, key, reference))
    return {v: h() for v, h in key[1][self._name].items()} if key[1] is not None else {}

  def _load_chunk_from_source(self, *a, **k):
    raise AssertionError


INIT = np.datetime64('2020-01-01T00', 'ns') + np.arange(4) * np.timedelta64(12, 'h')
LEAD = (np.arange(3) * np.timedelta64(6, 'h')).astype('timedelta64[ns]')


def at_times(init, lead):
  ki = [int(np.where(INIT == t)[0][0]) for t in np.asarray(init)]
  kl = [int(np.where(LEAD == t)[0][0]) for t in np.asarray(lead)]
  return tuple(ki), tuple(kl)


REDUCE = {'all': ['init_time', 'lead_time', 'x'], 'time': ['init_time', 'lead_time'], 'init': ['init_time', 'x'], 'lead': ['lead_time', 'x'], 'space': ['x'], 'none': []}
SCHEDULES = ['sequential', 'reversed', 'tree']


def declare(b, reduce, chunks, bins, masked):
  """Data of each chunk: (init positions, lead positions) -> variable -> arrays, with the dimensions named per chunk."""
  ni, nl = chunks
  b.dim('x')
  if bins:
    b.dim('bin')
  for k in range(ni):
    # a reduced time dimension may have any length in each chunk, a kept one carries its labels
    b.dim(f'i{k}') if 'init_time' in reduce else b.dim(f'i{k}', size=1, labels=INIT[k:k + 1])
  for k in range(nl):
    b.dim(f'l{k}') if 'lead_time' in reduce else b.dim(f'l{k}', size=1, labels=LEAD[k:k + 1])
  b.allow_labels = False
  if not b.symbolic:
    b.allow_transpose = False
  hs = {}
  for i, l in itertools.product(range(ni), range(nl)):
    for v in 'uv':
      for side in ('p', 't'):
        hs[i, l, v, side] = b.array(f'{side}{v}{i}{l}', [f'i{i}', f'l{l}', 'x'], nan=True)
  w = b.array('w', ['x'], coords=None, gen=lambda rng, sh: rng.choice([0.5, 1.0, 2.0], sh))
  m = b.array('m', ['bin', 'x'], kind='b') if bins else None
  return hs, w, m


def prepared(hs, i, l, side):
  return lambda v: hs[i, l, v, side].da.rename({f'i{i}': 'init_time', f'l{l}': 'lead_time'})


METRICS = dict(rmse=deterministic.RMSE, bias=deterministic.Bias, mse=deterministic.MSE)


@contract('pipeline.metrics', cases=[dict(reduce=rn, chunks=c, sched=s, bins=bn)
                                     for rn in REDUCE for c in ((1, 1), (2, 1), (1, 2), (2, 2)) for s in SCHEDULES for bn in (False, True)
                                     if (s == 'sequential' or c == (2, 2)) and (not bn or (c == (2, 2) and s != 'reversed'))], samples=8)
def _(b, reduce, chunks, sched, bins):
  """Metrics and aggregated statistics are those of all the data, whatever the chunks and the combination order."""
  red = REDUCE[reduce]
  ni, nl = chunks
  if bins and not ('x' in red):
    bins = False
  hs, w, m = declare(b, red, chunks, bins, False)
  log = []
  def run():
    log.clear()
    table = {((i,), (l,)): {s: {v: (lambda v=v, s=s, i=i, l=l: prepared(hs, i, l, s)(v)) for v in 'uv'} for s in 'pt'} for i, l in itertools.product(range(ni), range(nl))}
    def find(init, lead):
      k = at_times(init, lead)
      return k, table.get(k)
    written = []
    root = Bag(Schedule(sched), b.symbolic, written)
    beam_pipeline.define_pipeline(
        root, time_chunks.TimeChunks(INIT[:ni], LEAD[:nl], 1, 1), ChunkLoader(find, log, 'p'), ChunkLoader(find, log, 't'),
        {k: c() for k, c in METRICS.items()},
        aggregation.Aggregator(reduce_dims=red, weigh_by=[GivenWeighting(w)] if 'x' in red else None, bin_by=[GivenBinning(m, 'bin')] if bins else None),
        out_path='metrics', aggregation_state_out_path='state')
    return written
  post = total_spec(b, red, chunks, hs, w if 'x' in red else None, m, log)
  b.ensures('pipeline', run, post)


@contract('pipeline.stations', cases=[dict(chunks=c, sched=s, keep_lead=k) for c in ((2, 1), (1, 2), (2, 2)) for s in ('sequential', 'tree') for k in (True, False)], samples=10)
def _(b, chunks, sched, keep_lead):
  """Chunks with any, possibly different or empty, sets of stations: every station is kept, with the sums of the chunks that have it."""
  ni, nl = chunks
  for k in range(ni):
    b.dim(f'i{k}')
  for k in range(nl):
    b.dim(f'l{k}', size=1, labels=LEAD[k:k + 1]) if keep_lead else b.dim(f'l{k}')
  b.allow_labels = False
  b.allow_transpose = False
  cells = list(itertools.product(range(ni), range(nl)))
  for i, l in cells:
    b.label_set(f's{i}{l}', np.arange(4))
  b.label_union('s', [f's{i}{l}' for i, l in cells])
  hs = {(i, l, side): b.array(f'{side}{i}{l}', [f'i{i}', f'l{l}', f's{i}{l}'], nan=True) for i, l in cells for side in 'pt'}
  b.nonempty('s')
  red = ['init_time'] + ([] if keep_lead else ['lead_time'])
  def run():
    def prepared(i, l, side):
      return hs[i, l, side].da.rename({f'i{i}': 'init_time', f'l{l}': 'lead_time', f's{i}{l}': 's'})
    table = {((i,), (l,)): {s: {'u': (lambda s=s, i=i, l=l: prepared(i, l, s))} for s in 'pt'} for i, l in cells}
    def find(init, lead):
      k = at_times(init, lead)
      return k, table.get(k)
    written = []
    beam_pipeline.define_pipeline(
        Bag(Schedule(sched), b.symbolic, written), time_chunks.TimeChunks(INIT[:ni], LEAD[:nl], 1, 1), ChunkLoader(find, [], 'p'), ChunkLoader(find, [], 't'),
        {'bias': deterministic.Bias()}, aggregation.Aggregator(reduce_dims=red), aggregation_state_out_path='state')
    return written
  def tot(term, i, lead):
    t = b.f(0.0)
    for ci, cl in cells:
      if lead is not None and cl != lead:
        continue
      j = {**i, f's{ci}{cl}': i['s'], **({f'l{cl}': 0} if lead is not None else {})}
      over = [f'i{ci}'] + ([f'l{cl}'] if lead is None else [])
      t = t + b.member(f's{ci}{cl}', i['s'], lambda: b.sum(j, over, lambda k: term(k, ci, cl)), b.f(0.0))
    return t
  def post(r):
    (path, st), = r.value
    r.check('path', path == 'state')
    err = lambda j, ci, cl: hs[ci, cl, 'p'][j] - hs[ci, cl, 't'][j]
    for name, term in (('sum_weighted_statistics', err), ('sum_weights', lambda j, ci, cl: b.f(1.0))):
      da = getattr(st, name)['Error']['u']
      for lead in (range(nl) if keep_lead else [None]):
        a = da if lead is None else da.isel(lead_time=lead, drop=True)
        r.array(f'{name}[{lead}]', a, ['s'], lambda i: tot(term, i, lead))
      if keep_lead:
        labels = da._coords['lead_time'].const if r.symbolic else da.lead_time.values
        r.check('lead-labels', np.array_equal(labels, LEAD[:nl]))
  b.ensures('pipeline', run, post)


def total_spec(b, red, chunks, hs, w, m, log):
  ni, nl = chunks
  out = [d for d in ('init_time', 'lead_time', 'x') if d not in red] + (['bin'] if m is not None else [])
  const = {}
  if 'init_time' not in red:
    const['init_time'] = INIT[:ni]
  if 'lead_time' not in red:
    const['lead_time'] = LEAD[:nl]
  def post(r):
    written = dict(r.value)
    r.check('written-once', sorted(p for p, _ in r.value) == ['metrics', 'state'])
    # predictions are loaded with the targets of the same chunk as reference
    r.check('reference', all((ref is None) == (n == 't') for n, _, ref in log))
    keys = sorted(k[0] for _, k, _ in log)
    want = sorted(((i,), (l,)) for i in range(ni) for l in range(nl) for _ in range(2))
    r.check('each-chunk-loaded-once', keys == want and sorted(n for n, _, _ in log) == ['p'] * (ni * nl) + ['t'] * (ni * nl))
    ds, st = written['metrics'], written['state']
    r.check('metric-names', set(ds) == {f'{k}.{v}' for k in METRICS for v in 'uv'})
    # positions of the kept times: checked chunk by chunk
    kept = [('init_time', ni), ('lead_time', nl)]
    ranges = [range(n) if d not in red else [None] for d, n in kept]
    for sel in itertools.product(*ranges):
      pick = {d: k for (d, _), k in zip(kept, sel) if k is not None}
      tag = ''.join(f'[{d}={k}]' for d, k in pick.items())
      dims = [d for d in out if d not in pick]
      def tot(term, i, sel=sel):
        t = b.f(0.0)
        for ci in (range(ni) if sel[0] is None else [sel[0]]):
          for cl in (range(nl) if sel[1] is None else [sel[1]]):
            over = ([f'i{ci}'] if sel[0] is None else []) + ([f'l{cl}'] if sel[1] is None else []) + (['x'] if 'x' in red else [])
            base = {**i, **({f'i{ci}': 0} if sel[0] is not None else {}), **({f'l{cl}': 0} if sel[1] is not None else {})}
            f = lambda j, ci=ci, cl=cl: term(j, ci, cl) * (w[j] if w is not None else b.f(1.0)) * (b.num(m[{**j, 'bin': i['bin']}]) if m is not None else b.f(1.0))
            t = t + (b.sum(base, over, f) if over else f(base))
        return t
      def err(v, power):
        def f(j, ci, cl):
          d = hs[ci, cl, v, 'p'][j] - hs[ci, cl, v, 't'][j]
          return d if power == 1 else d * d
        return f
      one = lambda j, ci, cl: b.f(1.0)
      for v in 'uv':
        at = lambda a: a.isel(pick, drop=True)
        for name, power in (('rmse', 2), ('bias', 1), ('mse', 2)):
          def spec(i, v=v, power=power, name=name):
            q = tot(err(v, power), i) / tot(one, i)
            return b.sqrt(q) if name == 'rmse' else q
          r.array(f'{name}.{v}{tag}', at(ds[f'{name}.{v}']), dims, spec)
        for stat, power in (('SquaredError', 2), ('Error', 1)):
          r.array(f'state.{stat}.{v}{tag}', at(st.sum_weighted_statistics[stat][v]), dims, lambda i, v=v, power=power: tot(err(v, power), i))
          r.array(f'state.weights.{stat}.{v}{tag}', at(st.sum_weights[stat][v]), dims, lambda i: tot(one, i))
    for d, labels in const.items():
      r.check(f'{d}-labels', np.array_equal(np.asarray(ds.coords[d].values if not r.symbolic else ds[d].const), labels))
  return post


@contract('pipeline.arguments', cases=[dict(case=c) for c in ('no-output', 'metrics-only', 'state-only', 'setup')], samples=3)
def _(b, case):
  b.dim('i0'); b.dim('l0'); b.dim('x')
  b.allow_labels = b.allow_transpose = False
  hs = {s: b.array(s, ['i0', 'l0', 'x']) for s in 'pt'}
  def run():
    chunk = {s: {'u': (lambda s=s: hs[s].da.rename(i0='init_time', l0='lead_time'))} for s in 'pt'}
    find = lambda init, lead: (at_times(init, lead), chunk)
    written, calls = [], []
    setup = Setup(calls) if case == 'setup' else None
    beam_pipeline.define_pipeline(
        Bag(Schedule('sequential'), b.symbolic, written), time_chunks.TimeChunks(INIT[:2], LEAD[:1], 1, 1), ChunkLoader(find, [], 'p'), ChunkLoader(find, [], 't'),
        {'bias': deterministic.Bias()}, aggregation.Aggregator(reduce_dims=['init_time', 'lead_time', 'x']),
        out_path=None if case in ('no-output', 'state-only') else 'm', aggregation_state_out_path='s' if case == 'state-only' else None, setup_fn=setup)
    return [p for p, _ in written], calls
  def post(r):
    if case == 'no-output':
      r.raises('rejected', ValueError)
      return
    paths, calls = r.value
    r.check('written', paths == (['s'] if case == 'state-only' else ['m']))
    r.check('setup-once', calls == ([1] if case == 'setup' else []))
  b.ensures('pipeline', run, post)


class Setup(Kept):

  def __init__(self, calls):
    self.calls = calls

  def __call__(self):
    self.calls.append(1)


@contract('unaggregated.chunk', cases=[dict(dims=d) for d in (('init_time', 'lead_time', 'x'), ('x', 'lead_time', 'init_time'), ('x', 'init_time'), ('lead_time', 'x'))], samples=10)
def _(b, dims):
  """Every statistic of the chunk appears once, under the chunk's offsets, with the time dimensions first."""
  for d in dims:
    b.dim(d)
  b.allow_transpose = False
  p, t = b.array('p', list(dims), nan=True), b.array('t', list(dims), nan=True)
  o = time_chunks.TimeChunkOffsets(init_time=4, lead_time=2)
  def run():
    fn = beam_pipeline.ComputeAndFormatStatistics({k: c() for k, c in METRICS.items()}, None)
    return list(fn.process((o, ({'u': p.da}, {'u': t.da}))))
  def post(r):
    out = r.value
    names = ['Error.u', 'SquaredError.u']
    r.check('each-statistic-once', sorted(v for k, _ in out for v in k.vars) == names and all(set(ds) == set(k.vars) for k, ds in out))
    lead = [d for d in ('init_time', 'lead_time') if d in dims]
    for k, ds in out:
      r.check('offsets', dict(k.offsets) == {d: getattr(o, d) for d in lead})
      for name in ds:
        da = ds[name]
        r.check('order', list(da.dims) == lead + [d for d in dims if d not in lead])
        r.array(str(name), da, list(dims), lambda i, sq=str(name).startswith('Sq'): (p[i] - t[i]) * (p[i] - t[i]) if sq else p[i] - t[i])
  b.ensures('process', run, post)


# ---------------------------------------------------------------------------
# Bounded: random schedules of the executor on real data, and Beam's own runner

class FromDataset(loaders.DataLoader):
  """Chunks of one dataset, by label; stations without any value in the chunk are left out."""

  def __init__(self, ds, sparse=False, **kw):
    super().__init__(**kw)
    self.ds, self.sparse = ds, sparse

  def _load_chunk_from_source(self, init_times, lead_times=None):
    ds = self.ds.sel(init_time=init_times)
    if not isinstance(lead_times, slice):
      ds = ds.sel(lead_time=lead_times)
    return {k: (v.dropna('x', how='all') if self.sparse else v) for k, v in ds.items()}


def random_problem(b, sparse):
  ni, nl, nx, ny = (int(b.rng.integers(1, k)) for k in (6, 5, 5, 3))
  init = np.datetime64('2020-02-27', 'ns') + np.sort(b.rng.permutation(20)[:ni]) * np.timedelta64(6, 'h')
  lead = (np.sort(b.rng.permutation(12)[:nl]) * np.timedelta64(6, 'h')).astype('timedelta64[ns]')
  x = np.arange(nx) * 90.0
  def mk(p):
    v = b.rng.integers(-5, 6, (ni, nl, nx, ny)).astype(float)
    return np.where(b.rng.random(v.shape) < p, np.nan, v)
  nanp = float(b.rng.choice([0.0, 0.15]))
  dims = ('init_time', 'lead_time', 'x', 'y')
  cs = dict(init_time=init, lead_time=lead, x=x, y=np.linspace(-60, 60, ny) if ny > 1 else np.array([10.0]),
            valid_time=(('init_time', 'lead_time'), init[:, None] + lead[None, :]), orog=('x', x * 2))
  mkds = lambda: xr.Dataset({'u': (dims, mk(nanp)), 'v w': (dims[::-1], mk(nanp).transpose())}, coords=cs)
  P, T = mkds(), mkds()
  if sparse:
    # the same stations are missing in both, per (init, lead)
    drop = xr.DataArray(b.rng.random((ni, nl, nx)) < 0.4, dims=dims[:3], coords={d: cs[d] for d in dims[:3]})
    P, T = P.where(~drop), T.where(~drop)
  pick = lambda n: b.rng.choice([None, 1, 2, 3, n])
  times = time_chunks.TimeChunks(init, lead, pick(ni), pick(nl))
  red = [d for d in dims if b.rng.random() < 0.5] if not sparse else ['init_time', 'y'] + (['lead_time'] if b.rng.random() < 0.5 else [])
  by = []
  if b.rng.random() < 0.6 and not sparse:
    by.append(binning.ByExactCoord(str(b.rng.choice(['orog', 'valid_time']))))
  # a missing value that is not skipped may or may not reach the bins it does not belong to (documented), so they are skipped there
  agg = aggregation.Aggregator(reduce_dims=red, bin_by=by or None, skipna=bool(sparse or by or b.rng.random() < 0.4))
  metrics = {'rmse': deterministic.RMSE(), 'bias': deterministic.Bias(), 'mae': deterministic.MAE()}
  b.sampler.record[('args', '')] = str((init, lead, times.init_time_chunk_size, times.lead_time_chunk_size, red, agg.skipna, [type(q).__name__ for q in by], P, T))
  return P, T, times, agg, metrics


def direct(P, T, agg, metrics):
  st = agg.aggregate_statistics(metrics_base.compute_unique_statistics_for_all_metrics(metrics, dict(P.items()), dict(T.items())))
  return st, st.metric_values(metrics)


def agree(got, want):
  """Same values at the same labels, whatever the order; labels only one of them has must carry no weight."""
  if set(got.dims) != set(want.dims):
    return False
  for d in want.dims:
    if d in want.coords and sorted(got[d].values.tolist()) != sorted(want[d].values.tolist()):
      return False
  got = got.sel({d: want[d] for d in want.dims if d in want.coords}).transpose(*want.dims)
  return np.allclose(got.values, want.values, rtol=1e-6, atol=1e-6, equal_nan=True)


def compare(r, ds, st, want_ds, want_st):
  r.check('metric-names', set(ds) == set(want_ds))
  for k in want_ds:
    r.check(f'metric[{k}]', agree(ds[k], want_ds[k]))
  for side in ('sum_weighted_statistics', 'sum_weights'):
    g, w = getattr(st, side), getattr(want_st, side)
    r.check(side + '-names', {a: set(c) for a, c in g.items()} == {a: set(c) for a, c in w.items()})
    for a in w:
      for c in w[a]:
        r.check(f'{side}[{a}.{c}]', agree(g[a][c], w[a][c]))


@contract('schedules.random', mode='bounded', samples=120, note='up to 5 init and 4 lead times, random chunk sizes, element orders and combine trees')
def _(b):
  sparse = bool(b.rng.random() < 0.4)
  P, T, times, agg, metrics = random_problem(b, sparse)
  want_st, want_ds = direct(P, T, agg, metrics)
  if not want_ds:
    raise SkipSample()
  if sparse and (P.u.isnull().all() or np.isnan(P['v w']).all()):
    raise SkipSample()
  def run():
    written = []
    beam_pipeline.define_pipeline(Bag(Schedule('random', np.random.default_rng(int(b.rng.integers(1 << 30)))), False, written), times,
                                  FromDataset(P, sparse), FromDataset(T, sparse), metrics, agg, out_path='m', aggregation_state_out_path='s')
    return dict(written)
  def post(r):
    if sparse:
      # a station never seen is absent from the pipeline's result and has no weight in the direct one
      kept = P.x.values[[bool(((~P.u.isnull()) | (~P['v w'].isnull())).sel(x=k).any()) for k in P.x.values]]
      st, ds = want_st.map(lambda a: a.sel(x=[k for k in kept])), want_ds.sel(x=kept)
      full = all(len(a.x) == len(kept) for s in r.value['s'].sum_weights.values() for a in s.values())
      if not full:
        return
      compare(r, r.value['m'], r.value['s'], ds, st)
    else:
      compare(r, r.value['m'], r.value['s'], want_ds, want_st)
  b.ensures('pipeline', run, post)


@contract('runner.direct', mode='bounded', samples=4, note="Beam's own runner, results read back from the written files")
def _(b):
  P, T, times, agg, metrics = random_problem(b, False)
  want_st, want_ds = direct(P, T, agg, metrics)
  if not want_ds:
    raise SkipSample()
  def run():
    d = tempfile.mkdtemp(prefix='c23_')
    try:
      with test_pipeline.TestPipeline() as root:
        beam_pipeline.define_pipeline(root, times, FromDataset(P), FromDataset(T), metrics, agg,
                                      out_path=os.path.join(d, 'm.nc'), aggregation_state_out_path=os.path.join(d, 's.nc'))
      ds = xr.open_dataset(os.path.join(d, 'm.nc'), decode_timedelta=True).load()
      st = xr.open_dataset(os.path.join(d, 's.nc'), decode_timedelta=True).load()
      return ds, aggregation.AggregationState.from_dataset(st), sorted(os.listdir(d))
    finally:
      shutil.rmtree(d, ignore_errors=True)
  def post(r):
    ds, st, names = r.value
    r.check('files', names == ['m.nc', 's.nc'])
    compare(r, ds, st, want_ds, want_st)
  b.ensures('pipeline', run, post)


@contract('runner.unaggregated', mode='bounded', samples=4, sample_timeout=120, note="Beam's own runner, statistics read back from the Zarr store")
def _(b):
  P, T, times, _, metrics = random_problem(b, False)
  zc = {'init_time': 1} if b.rng.random() < 0.3 else None
  def run():
    d = tempfile.mkdtemp(prefix='c23_')
    try:
      path = os.path.join(d, 'o.zarr')
      with test_pipeline.TestPipeline() as root:
        beam_pipeline.define_unaggregated_pipeline(root, times, FromDataset(P), FromDataset(T), metrics, path, zarr_chunks=zc)
      return xr.open_zarr(path, decode_timedelta=True).load()
    finally:
      shutil.rmtree(d, ignore_errors=True)
  def post(r):
    v = r.value
    want = metrics_base.compute_unique_statistics_for_all_metrics(metrics, dict(P.items()), dict(T.items()))
    r.check('names', set(v) == {f'{s}.{k}' for s in want for k in want[s]})
    for s in want:
      for k, w in want[s].items():
        g = v[f'{s}.{k}']
        r.check(f'[{s}.{k}]', set(g.dims) == set(w.dims) and all(np.array_equal(g[d].values, w[d].values) for d in w.dims)
                and np.allclose(g.transpose(*w.dims).values, w.values, equal_nan=True))
    r.check('valid_time', np.array_equal(v.valid_time.transpose('init_time', 'lead_time').values, P.valid_time.values))
  b.ensures('pipeline', run, post)


@contract('pipeline.mixed', cases=[dict(order=o, static=s) for o in (('z', 'u'), ('u', 'z'), ('z', 'u', 'v')) for s in (False, True)], samples=8)
def _(b, order, static):
  """Variables that lack a reduced dimension are left out, those that lack init_time are averaged all the same; the others are unaffected."""
  ni = 2
  for k in range(ni):
    b.dim(f'i{k}', size=1, labels=INIT[k:k + 1]) if static else b.dim(f'i{k}')
  b.dim('l0', size=1, labels=LEAD[:1]); b.dim('x')
  b.allow_labels = b.allow_transpose = False
  red = ['x'] if static else ['init_time', 'x']
  hs = {(k, v, s): b.array(f'{s}{v}{k}', ([] if static and v == 'z' else [f'i{k}']) + ['l0'] + ([] if not static and v == 'z' else ['x']), nan=True)
        for k in range(ni) for v in order for s in 'pt' if not (static and v == 'z' and k)}
  h = lambda k, v, s: hs[0 if static and v == 'z' else k, v, s]
  def run():
    def chunk(k):
      return {s: {v: (lambda v=v, s=s: h(k, v, s).da.rename({d: n for d, n in ((f'i{k}', 'init_time'), ('l0', 'lead_time')) if d in h(k, v, s).dims}))
                  for v in order} for s in 'pt'}
    find = lambda init, lead: (at_times(init, lead), chunk(at_times(init, lead)[0][0]))
    written = []
    beam_pipeline.define_pipeline(
        Bag(Schedule('tree'), b.symbolic, written), time_chunks.TimeChunks(INIT[:ni], LEAD[:1], 1, 1), ChunkLoader(find, [], 'p'), ChunkLoader(find, [], 't'),
        {'mse': deterministic.MSE()}, aggregation.Aggregator(reduce_dims=red), out_path='m')
    return dict(written)['m']
  def post(r):
    ds = r.value
    names = [v for v in order if static or v != 'z']
    r.check('variables', set(ds) == {f'mse.{v}' for v in names})
    for v in names:
      def term(j, k):
        d = h(k, v, 'p')[j] - h(k, v, 't')[j]
        return d * d
      if static and v == 'z':
        r.array('mse.z', ds['mse.z'].isel(lead_time=0, drop=True), [], lambda i: b.sum({**i, 'l0': 0}, ['x'], lambda j: term(j, 0)) / b.size('x'))
      elif static:
        for k in range(ni):
          r.array(f'mse.{v}[{k}]', ds[f'mse.{v}'].isel(lead_time=0, init_time=k, drop=True), [],
                  lambda i: b.sum({**i, 'l0': 0, f'i{k}': 0}, ['x'], lambda j: term(j, k)) / b.size('x'))
      else:
        def spec(i):
          s = n = b.f(0.0)
          for k in range(ni):
            s = s + b.sum({**i, 'l0': 0}, [f'i{k}', 'x'], lambda j: term(j, k))
            n = n + b.sum({**i, 'l0': 0}, [f'i{k}', 'x'], lambda j: b.f(1.0))
          return s / n
        r.array(f'mse.{v}', ds[f'mse.{v}'].isel(lead_time=0, drop=True), [], spec)
  b.ensures('pipeline', run, post)
