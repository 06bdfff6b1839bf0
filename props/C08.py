"""Contingency-table counts partition the valid elements."""
from vc.contract import contract
from weatherbenchX.metrics import categorical as cat
from weatherbenchX.metrics import wrappers
from props.common import SIDES, binary_gen, mask_kept, masked_pair, miss, truth

STATS = {
    'TP': (cat.TruePositives, lambda p, t: p & t),
    'TN': (cat.TrueNegatives, lambda p, t: ~p & ~t),
    'FP': (cat.FalsePositives, lambda p, t: p & ~t),
    'FN': (cat.FalseNegatives, lambda p, t: ~p & t),
}


def inputs(b, pd, td, kind='f'):
  if kind == 'b':
    return b.array('p', pd, kind='b'), b.array('t', td, kind='b')
  return b.array('p', pd, nan=True, gen=binary_gen), b.array('t', td, nan=True, gen=binary_gen)


def event(b, h, i, kind):
  return h[i] if kind == 'b' else truth(b, h[i])


DIMS = {'same': (['x', 'y'], ['x', 'y']), 'ensemble': (['m', 'x'], ['x']), 'categories': (['x', 'bin'], ['x', 'bin']), 'target-bins': (['x'], ['x', 'bin'])}


@contract('table.cell', cases=[dict(stat=s, dims=d, kind=k) for s in STATS for d in DIMS for k in 'fb'])
def _(b, stat, dims, kind):
  """One when the pair of events is the one counted, zero otherwise, missing when either side is missing."""
  pd, td = DIMS[dims]
  out = list(pd) + [d for d in td if d not in pd]
  for d in out:
    b.dim(d)
  p, t = inputs(b, pd, td, kind)
  make, rule = STATS[stat]
  def spec(i):
    v = b.where(rule(event(b, p, i, kind), event(b, t, i, kind)), b.f(1.0), b.f(0.0))
    return v if kind == 'b' else b.where(miss(b, p[i], t[i]), b.f(float('nan')), v)
  def post(r):
    r.check('variables', set(r.value) == {'v'})
    r.array('value', r.value['v'], out, spec)
  b.ensures('compute', lambda: make().compute({'v': p.da}, {'v': t.da}), post)


@contract('table.coordinates', cases=[dict(stat=s, side=w) for s in STATS for w in SIDES])
def _(b, stat, side):
  """The mask of either input reaches each cell of the table."""
  b.dim('x'); b.dim('y')
  m = b.array('mask', ['x', 'y'], kind='b', coords=False)
  p, t = inputs(b, ['x', 'y'], ['y', 'x'])
  make, rule = STATS[stat]
  def run():
    pd_, td = masked_pair(side, p.da, t.da, m)
    return make().compute({'v': pd_}, {'v': td})['v']
  def post(r):
    r.array('value', r.value, ['x', 'y'], lambda i: b.where(miss(b, p[i], t[i]), b.f(float('nan')), b.where(rule(event(b, p, i, 'f'), event(b, t, i, 'f')), b.f(1.0), b.f(0.0))))
    mask_kept(r, r.value, m, ['x', 'y'])
  b.ensures('value', run, post)


@contract('table.partition', cases=[dict(kind=k) for k in 'fb'])
def _(b, kind):
  """The four cells add up to one on valid elements and are all missing elsewhere."""
  b.dim('x'); b.dim('y')
  p, t = inputs(b, ['x', 'y'], ['x', 'y'], kind)
  def run():
    parts = [m().compute({'v': p.da}, {'v': t.da})['v'] for m, _ in STATS.values()]
    return parts, parts[0] + parts[1] + parts[2] + parts[3]
  one = lambda i: b.f(1.0) if kind == 'b' else b.where(miss(b, p[i], t[i]), b.f(float('nan')), b.f(1.0))
  b.ensures('cells', run, lambda r: r.array('sum', r.value[1], ['x', 'y'], one))


@contract('table.margins')
def _(b):
  """TP+FP counts forecast events, TP+FN observed events."""
  b.dim('x')
  p, t = inputs(b, ['x'], ['x'])
  def run():
    g = {k: m().compute({'v': p.da}, {'v': t.da})['v'] for k, (m, _) in STATS.items()}
    return g['TP'] + g['FP'], g['TP'] + g['FN']
  sp = lambda h: lambda i: b.where(miss(b, p[i], t[i]), b.f(float('nan')), b.where(truth(b, h[i]), b.f(1.0), b.f(0.0)))
  def post(r):
    r.array('forecast-events', r.value[0], ['x'], sp(p))
    r.array('observed-events', r.value[1], ['x'], sp(t))
  b.ensures('cells', run, post)


@contract('table.thresholded', cases=[dict(stat=s) for s in STATS])
def _(b, stat):
  """Events defined by thresholds: the counts refer to exceedance of each threshold."""
  th = [0.5, 2.0]
  b.dim('x'); b.dim('threshold', size=2)
  p = b.array('p', ['x'], nan=True)
  t = b.array('t', ['x'], nan=True)
  make, rule = STATS[stat]
  def run():
    s = wrappers.WrappedStatistic(make(), wrappers.ContinuousToBinary('both', th, 'threshold'))
    return s.compute({'v': p.da}, {'v': t.da})['v']
  def spec(i):
    j = i['threshold']
    v = b.where(rule(p[i] > th[j], t[i] > th[j]), b.f(1.0), b.f(0.0))
    return b.where(miss(b, p[i], t[i]), b.f(float('nan')), v)
  b.ensures('wrapped', run, lambda r: r.array('value', r.value, ['x', 'threshold'], spec, const_coords={'threshold': th}))


@contract('table.categories', cases=[dict(stat=s) for s in STATS])
def _(b, stat):
  """Several categories: the law holds in every one of them."""
  edges = [-1.0, 0.5, 2.0]
  b.dim('x'); b.dim('bin', size=2)
  p = b.array('p', ['x'], nan=True)
  t = b.array('t', ['x'], nan=True)
  make, rule = STATS[stat]
  def run():
    s = wrappers.WrappedStatistic(make(), wrappers.ContinuousToBins('both', edges, 'bin'))
    return s.compute({'v': p.da}, {'v': t.da})['v']
  def spec(i):
    j = i['bin']
    inside = lambda x: (x > edges[j]) & (x <= edges[j + 1])
    v = b.where(rule(inside(p[i]), inside(t[i])), b.f(1.0), b.f(0.0))
    return b.where(miss(b, p[i], t[i]), b.f(float('nan')), v)
  b.ensures('wrapped', run, lambda r: r.array('value', r.value, ['x', 'bin'], spec, coords=False))
