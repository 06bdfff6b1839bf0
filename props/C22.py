"""Time chunks partition the requested init and lead times."""
import numpy as np
from vc import loops
from vc.contract import contract
from weatherbenchX import time_chunks

ASSUMPTIONS = ['vc/loops.py: range, itertools.product and enumerate by their documented elements; a loop over a sequence of symbolic length is executed for one arbitrary position']
T0 = np.datetime64('2020-02-27T00', 'ns')


def times(b, n, unit='h'):
  """n distinct times in arbitrary order."""
  return (T0 + np.cumsum(b.rng.integers(1, 40, n)).astype('timedelta64[h]').astype('timedelta64[ns]')).astype('datetime64[ns]')[b.rng.permutation(n) if b.rng.random() < 0.3 else slice(None)]


def leads(b, n):
  return np.cumsum(b.rng.integers(1, 40, n)).astype('timedelta64[h]').astype('timedelta64[ns]')[b.rng.permutation(n) if b.rng.random() < 0.3 else slice(None)]


def draw(b, lo=1):
  ni, nl = int(b.rng.integers(lo, 9)), int(b.rng.integers(lo, 9))
  pick = lambda: b.rng.choice([None, 0, 1, 2, 3, 4, 5, 7, 8, 11]) if lo else int(b.rng.integers(1, 6))
  cs, ls = pick(), pick()
  it, lt = times(b, ni), leads(b, nl)
  b.sampler.record[('args', '')] = str((it, lt, cs, ls))
  return it, lt, cs, ls


def split(x, size):
  """Consecutive pieces of the given size, the last one possibly shorter."""
  size = size or max(len(x), 1)
  out = []
  while len(x):
    out.append(x[:size]); x = x[size:]
  return out


def snapshot(t):
  n = len(t)
  return dict(len=n, it=list(t), again=list(iter(t)), get=[t[k] for k in range(n)], off=list(t.iter_with_chunk_offsets()))


def same_chunk(c, init, lead):
  if isinstance(lead, slice):
    ok = isinstance(c[1], slice) and c[1].start == lead.start and c[1].stop == lead.stop and c[1].step is None
  else:
    ok = np.array_equal(c[1], lead) and np.asarray(c[1]).dtype.kind == 'm'
  return ok and np.array_equal(c[0], init) and np.asarray(c[0]).dtype.kind == 'M'


def post(it, lt, cs, ls):
  """Chunks are the product of the two splits, init time slowest; every view of them agrees."""
  I = split(it, cs)
  L = [lt] if isinstance(lt, slice) else split(lt, ls)
  want = [(i, l) for i in range(len(I)) for l in range(len(L))]
  def p(r):
    v = r.value
    r.check('count', v['len'] == len(want))
    for name in ('it', 'again', 'get'):
      r.check(name, len(v[name]) == len(want) and all(same_chunk(c, I[i], L[l]) for c, (i, l) in zip(v[name], want)))
    offs = v['off']
    r.check('offset-chunks', len(offs) == len(want) and all(same_chunk(c, I[i], L[l]) for (_, c), (i, l) in zip(offs, want)))
    r.check('offsets', all(o.init_time == sum(map(len, I[:i])) and o.lead_time == (0 if isinstance(lt, slice) else sum(map(len, L[:l])))
                           for (o, _), (i, l) in zip(offs, want)))
    if not isinstance(lt, slice):
      r.check('located', all(np.array_equal(it[o.init_time:o.init_time + len(c[0])], c[0]) and np.array_equal(lt[o.lead_time:o.lead_time + len(c[1])], c[1]) for o, c in offs))
  return p


@contract('chunks.partition', mode='bounded', samples=600)
def _(b):
  it, lt, cs, ls = draw(b)
  b.ensures('chunks', lambda: snapshot(time_chunks.TimeChunks(it, lt, cs, ls)), post(it, lt, cs, ls))


@contract('chunks.units', mode='bounded', samples=60, note='times given in coarser units')
def _(b):
  it, lt, cs, ls = draw(b)
  b.ensures('chunks', lambda: snapshot(time_chunks.TimeChunks(it.astype('datetime64[h]'), lt.astype('timedelta64[h]'), cs, ls)), post(it, lt, cs, ls))


@contract('chunks.empty', mode='bounded', samples=60, note='no times at all, with explicit chunk sizes')
def _(b):
  it, lt, cs, ls = draw(b, lo=0)
  b.ensures('chunks', lambda: snapshot(time_chunks.TimeChunks(it, lt, cs, ls)), post(it, lt, cs, ls))


@contract('chunks.interval', mode='bounded', samples=100, note='a lead-time interval is a single lead chunk at offset zero')
def _(b):
  it, lt, cs, ls = draw(b)
  s = slice(lt.min(), lt.max())
  b.ensures('chunks', lambda: snapshot(time_chunks.TimeChunks(it, s, cs)), post(it, s, cs, None))


@contract('chunks.index-range', mode='bounded', samples=60)
def _(b):
  """Indices outside [0, len) are refused."""
  it, lt, cs, ls = draw(b)
  t = lambda: time_chunks.TimeChunks(it, lt, cs, ls)
  def run():
    x = t()
    out = []
    for k in (-len(x) - 1, -len(x), -1, len(x), len(x) + 1, len(x) * 2):
      try:
        x[k]
        out.append(False)
      except IndexError:
        out.append(True)
    return out
  b.ensures('index', run, lambda r: r.check('refused', all(r.value)))


@contract('chunks.negative', mode='bounded', samples=40)
def _(b):
  """Negative chunk sizes are refused."""
  it, lt, cs, ls = draw(b)
  k = -int(b.rng.integers(1, 5))
  which = bool(b.rng.integers(0, 2))
  b.ensures('ctor', lambda: time_chunks.TimeChunks(it, lt, k if which else cs, ls if which else k), lambda r: r.raises('refused', ValueError))


@contract('chunks.bad-interval', cases=[dict(bad=k) for k in ('start', 'stop', 'step', 'size')], mode='bounded', samples=10)
def _(b, bad):
  """Lead-time intervals need both ends, no step and no lead chunk size."""
  it, lt, cs, ls = draw(b)
  s = slice(None if bad == 'start' else lt.min(), None if bad == 'stop' else lt.max(), np.timedelta64(1, 'h') if bad == 'step' else None)
  b.ensures('ctor', lambda: time_chunks.TimeChunks(it, s, cs, 2 if bad == 'size' else None), lambda r: r.raises('refused', ValueError))


@contract('chunks.views', mode='bounded', samples=40)
def _(b):
  """The whole request stays readable; an abandoned iteration does not affect the next one."""
  it, lt, cs, ls = draw(b)
  def run():
    t = time_chunks.TimeChunks(it, lt, cs, ls)
    next(iter(t)); next(t.iter_with_chunk_offsets())
    return np.array_equal(t.init_times, it) and np.array_equal(t.lead_times, lt) and len(list(t)) == len(t) == len(list(t.iter_with_chunk_offsets()))
  b.ensures('views', run, lambda r: r.check('kept', r.value))


# For every number of times, chunk size and number of chunks (deductive)


def module(b):
  """The real module; for symbolic lengths, compiled from the same source (vc/loops.py)."""
  return loops.load(time_chunks) if b.symbolic else time_chunks


def setup(b, init_size, lead_size):
  """The request, the sizes as given, and the sizes that they mean."""
  z = loops.Ints(b)
  b.allow_labels = False
  b.allow_transpose = False
  b.dim('i', hi=9)
  b.dim('l', hi=9)
  it, lt = b.array('it', ['i'], 'M'), b.array('lt', ['l'], 'm')
  given, mean = [], []
  for d, how in (('i', init_size), ('l', lead_size)):
    if how == 'size':
      c = z.scalar('size_' + d, 1, 10)
      b.assume(c >= 1)
    given.append(z.py(c) if how == 'size' else how)
    mean.append(c if how == 'size' else z.size(d))
  return z, it, lt, given, mean


def layout(b, z, mean):
  """The number of chunks; for a position, its offsets and the two lengths."""
  (ci, cl), n, m = mean, z.size('i'), z.size('l')
  NI, NL = [1 + z.div(x - 1, c) for x, c in ((n, ci), (m, cl))]
  def at(k):
    oi, ol = z.div(k, NL) * ci, z.mod(k, NL) * cl
    return (oi, z.min(ci, n - oi)), (ol, z.min(cl, m - ol))
  return NI, NL, at


def check_chunk(b, r, z, label, chunk, it, lt, e, p, q):
  for name, x, h, d, (off, size), pos in (('init', chunk[0], it, 'i', e[0], p), ('lead', chunk[1], lt, 'l', e[1], q)):
    r.holds(f'{label} {name} length', z.len(x) == size, True)
    r.holds(f'{label} {name} times', z.same(z.element(x, pos), z.source(h, d, off + pos)), z.every(pos >= 0, pos < size))


SIZES = [dict(init_size=i, lead_size=l) for i, l in (('size', 'size'), ('size', None), (None, 'size'), (0, 0), (None, None), ('size', 0))]


@contract('generic.index', cases=SIZES, samples=30)
def _(b, init_size, lead_size):
  """The chunk at every position: contiguous, of the requested size but for the last one, init times slowest; as many as the product of the two counts."""
  z, it, lt, given, mean = setup(b, init_size, lead_size)
  NI, NL, at = layout(b, z, mean)
  k, p, q = z.scalar('k', 0, 4), z.scalar('p', 0, 4), z.scalar('q', 0, 4)
  b.assume(z.every(k >= 0, k < NI * NL))
  tc = module(b)
  def run():
    t = tc.TimeChunks(it.da.values, lt.da.values, *given)
    return z.py(z.len(t)), t[z.py(k)], t.init_times, t.lead_times
  def post(r):
    n, chunk, x, y = r.value
    r.holds('count', z.of(n) == NI * NL, True)
    check_chunk(b, r, z, 'chunk', chunk, it, lt, at(k), p, q)
    check_chunk(b, r, z, 'all', (x, y), it, lt, ((0, z.size('i')), (0, z.size('l'))), p, q)
  b.ensures('chunks', run, post)


def element(seq, k):
  """Element k of what an iteration gives."""
  if isinstance(seq, loops.Seq):
    return seq[k]
  return list(seq)[k]


@contract('generic.iteration', cases=SIZES, samples=30)
def _(b, init_size, lead_size):
  """Iterating gives as many chunks as the length says, and at every position the chunk of the index at that position."""
  z, it, lt, given, mean = setup(b, init_size, lead_size)
  NI, NL, at = layout(b, z, mean)
  k, p, q = z.scalar('k', 0, 4), z.scalar('p', 0, 4), z.scalar('q', 0, 4)
  b.assume(z.every(k >= 0, k < NI * NL))
  tc = module(b)
  def run():
    t = tc.TimeChunks(it.da.values, lt.da.values, *given)
    s = loops.of(t) if b.symbolic else list(t)
    return z.py(z.len(s)), element(s, z.py(k))
  def post(r):
    r.holds('count', z.of(r.value[0]) == NI * NL, True)
    check_chunk(b, r, z, 'chunk', r.value[1], it, lt, at(k), p, q)
  b.ensures('chunks', run, post)


@contract('generic.offsets', cases=SIZES, samples=30)
def _(b, init_size, lead_size):
  """Every chunk comes with its position in the whole request."""
  z, it, lt, given, mean = setup(b, init_size, lead_size)
  NI, NL, at = layout(b, z, mean)
  k, p, q = z.scalar('k', 0, 4), z.scalar('p', 0, 4), z.scalar('q', 0, 4)
  b.assume(z.every(k >= 0, k < NI * NL))
  tc = module(b)
  def run():
    t = tc.TimeChunks(it.da.values, lt.da.values, *given)
    if not b.symbolic:
      out = list(t.iter_with_chunk_offsets())
      return len(out), out[k][0].init_time, out[k][0].lead_time, out[k][1]
    with loops.position(z.py(k)) as lengths:
      out = list(t.iter_with_chunk_offsets())
    if len(lengths) != 1 or len(out) != 1:
      loops.unsupported('iteration in an unknown form')
    return lengths[0], out[0][0].init_time, out[0][0].lead_time, out[0][1]
  def post(r):
    n, oi, ol, chunk = r.value
    e = at(k)
    r.holds('count', z.of(n) == NI * NL, True)
    r.holds('init offset', z.of(oi) == e[0][0], True)
    r.holds('lead offset', z.of(ol) == e[1][0], True)
    check_chunk(b, r, z, 'chunk', chunk, it, lt, e, p, q)
  b.ensures('offsets', run, post)


@contract('generic.refused', cases=[dict(what=w) for w in ('below', 'above', 'init-size', 'lead-size')])
def _(b, what):
  """Positions outside the sequence and negative sizes."""
  z, it, lt, given, mean = setup(b, 'size', 'size')
  NI, NL, at = layout(b, z, mean)
  tc = module(b)
  k = z.scalar('k', -40, 90)
  if what in ('below', 'above'):
    b.assume(k < 0 if what == 'below' else k >= NI * NL)
    b.ensures('index', lambda: tc.TimeChunks(it.da.values, lt.da.values, *given)[z.py(k)], lambda r: r.raises('refused', IndexError))
  else:
    b.assume(k < 0)
    args = (z.py(k), given[1]) if what == 'init-size' else (given[0], z.py(k))
    b.ensures('sizes', lambda: tc.TimeChunks(it.da.values, lt.da.values, *args), lambda r: r.raises('refused', ValueError))


@contract('generic.interval', cases=[dict(init_size=s) for s in ('size', None, 0)])
def _(b, init_size):
  """A lead time interval is one chunk, at offset zero."""
  z, it, lt, given, mean = setup(b, init_size, None)
  NI, _, at = layout(b, z, mean)
  tc = module(b)
  s = slice(np.timedelta64(6, 'h'), np.timedelta64(12, 'h'))
  k, p = z.scalar('k', 0, 4), z.scalar('p', 0, 4)
  b.assume(z.every(k >= 0, k < NI))
  def run():
    t = tc.TimeChunks(it.da.values, s, given[0])
    return z.py(z.len(t)), t[z.py(k)]
  def post(r):
    n, (x, y) = r.value
    r.holds('count', z.of(n) == NI, True)
    r.check('interval', isinstance(y, slice) and (y.start, y.stop, y.step) == (s.start, s.stop, None))
    off = k * mean[0]
    r.holds('length', z.len(x) == z.min(mean[0], z.size('i') - off), True)
    r.holds('times', z.same(z.element(x, p), z.source(it, 'i', off + p)), z.every(p >= 0, p < z.len(x)))
  b.ensures('chunks', run, post)


@contract('generic.partition')
def _(b):
  """Lemma over the layout: every (init, lead) pair of the request is in exactly one chunk, at exactly one place; no chunk is empty or too long."""
  z, it, lt, given, mean = setup(b, 'size', 'size')
  NI, NL, at = layout(b, z, mean)
  (ci, cl), n, m = mean, z.size('i'), z.size('l')
  i, l = z.scalar('pair_i', 0, 8), z.scalar('pair_l', 0, 8)
  b.assume(z.every(i >= 0, i < n, l >= 0, l < m))
  k = z.scalar('k', 0, 4)
  b.assume(z.every(k >= 0, k < NI * NL))
  inside = lambda e, x: z.every(e[0] <= x, x < e[0] + e[1])
  def post(r):
    j = z.div(i, ci) * NL + z.div(l, cl)
    e = at(j)
    r.holds('some chunk', z.every(j >= 0, j < NI * NL), True)
    r.holds('has the init time', inside(e[0], i), True)
    r.holds('has the lead time', inside(e[1], l), True)
    f = at(k)
    r.holds('init chunk', z.div(k, NL) == z.div(i, ci), inside(f[0], i))
    r.holds('lead chunk', z.mod(k, NL) == z.div(l, cl), inside(f[1], l))
    r.holds('no other chunk', k == j, z.every(z.div(k, NL) == z.div(i, ci), z.mod(k, NL) == z.div(l, cl)))
    for name, (o, s), c in (('init', f[0], ci), ('lead', f[1], cl)):
      r.holds(f'{name} size', z.every(s >= 1, s <= c), True)
  b.ensures('layout', lambda: None, post)
