"""Mapping over nested structures of arrays."""
import numpy as np
from vc.contract import contract
from weatherbenchX import xarray_tree as xt

# A structure is a template: a letter is an array of that layout, 'D' a dataset of two of them.
TEMPLATES = {
    'leaf': 'a',
    'dict': {'p': 'a', 'q': 'b'},
    'reverse': {'q': 'b', 'p': 'a', 'z': 'a'},
    'dataset': 'D',
    'nested': {'p': {'u': 'a', 'v': 'b'}, 'q': 'D', 'r': 'b'},
    'list': ['a', 'b', 'D'],
    'tuple': ('a', ('b', 'a'), {'k': 'a'}),
    'deep': {'p': [{'u': 'a'}, ('b', 'D')], 'q': {'v': {'w': 'b'}}},
    'empty': {'p': {}, 'q': [], 'r': 'a'},
    'ints': {1: 'a', (2, 'x'): 'b', None: 'a'},
}
DIMS = dict(a=['x'], b=['x', 'y'])


class Made:

  def __init__(self, b, tag):
    self.b, self.tag, self.n = b, tag, 0

  def leaf(self, kind):
    self.n += 1
    return self.b.array(f'{self.tag}{self.n}', DIMS[kind], nan=True)

  def build(self, t):
    """(the structure handed over, the handles at its leaves)"""
    if t == 'D':
      hs = {'one': self.leaf('a'), 'two': self.leaf('b')}
      return self.b.xr.Dataset({k: h.da for k, h in hs.items()}), hs
    if isinstance(t, str):
      h = self.leaf(t)
      return h.da, h
    if isinstance(t, dict):
      both = {k: self.build(v) for k, v in t.items()}
      return {k: v[0] for k, v in both.items()}, {k: v[1] for k, v in both.items()}
    both = [self.build(v) for v in t]
    return type(t)(v[0] for v in both), type(t)(v[1] for v in both)


def setup(b, template, n):
  b.dim('x'); b.dim('y')
  b.coord('x', 'x'); b.coord('y', 'y')
  return [Made(b, t).build(TEMPLATES[template]) for t in 'fgh'[:n]]


def walk(r, b, got, handles, value, path=()):
  """The result has the structure of the handles, with value(handles at the same path) at the leaves."""
  first = handles[0]
  name = 'at ' + '/'.join(map(str, path))
  if isinstance(first, dict):
    r.check(name + ' keys', list(got) == list(first))
    for k in first:
      walk(r, b, got[k], [h[k] for h in handles], value, path + (k,))
  elif isinstance(first, (list, tuple)):
    r.check(name + ' length', type(got) is type(first) and len(got) == len(first))
    for k, g in enumerate(got):
      walk(r, b, g, [h[k] for h in handles], value, path + (k,))
  else:
    r.array(name, got, first.dims, lambda i: value(*[h[i] for h in handles]))


MAPS = {1: lambda x: x * 2.0 + 1.0, 2: lambda x, y: x * 2.0 - y, 3: lambda x, y, z: x * 2.0 - y + z * 5.0}


@contract('leaves', cases=[dict(template=t, n=n) for t in TEMPLATES for n in (1, 2, 3)])
def _(b, template, n):
  """The function is applied to the leaves at the same path of all structures; the structure is that of the first."""
  S = setup(b, template, n)
  before = None if b.symbolic else repr([s[0] for s in S])
  def post(r):
    got = r.value
    if template == 'dataset':
      r.check('a dataset', isinstance(got, b.xr.Dataset))
    walk(r, b, got, [s[1] for s in S], MAPS[n])
    if before is not None:
      r.check('arguments unchanged', repr([s[0] for s in S]) == before)
  b.ensures('mapped', lambda: xt.map_structure(MAPS[n], *[s[0] for s in S]), post)


@contract('order', cases=[dict(kind=k) for k in ('dict', 'dataset', 'mixed')])
def _(b, kind):
  """Entries are matched by name, in whatever order the other structures have them and whatever else they hold."""
  b.dim('x')
  b.coord('x', 'x')
  f = {k: b.array('f' + k, ['x']) for k in 'uvw'}
  g = {k: b.array('g' + k, ['x']) for k in 'uvwz'}
  first, other = {k: f[k].da for k in 'uvw'}, {k: g[k].da for k in 'zwvu'}
  if kind != 'dict':
    first = b.xr.Dataset(first)
  if kind == 'dataset':
    other = b.xr.Dataset(other)
  def post(r):
    r.check('keys', list(r.value) == list('uvw'))
    for k in 'uvw':
      r.array(k, r.value[k], ['x'], lambda i: f[k][i] * 2.0 - g[k][i])
  b.ensures('mapped', lambda: xt.map_structure(MAPS[2], first, other), post)


@contract('mismatch', cases=[dict(kind=k) for k in ('dict', 'dataset', 'nested', 'longer', 'shorter', 'function', 'nothing')])
def _(b, kind):
  """A structure without an entry the first one has is refused, never mapped in part."""
  b.dim('x')
  f, g = b.array('f', ['x']).da, b.array('g', ['x']).da
  ds = lambda **k: b.xr.Dataset(k)
  f2 = MAPS[2]
  run = dict(dict=lambda: xt.map_structure(f2, {'u': f, 'v': f}, {'u': g}), dataset=lambda: xt.map_structure(f2, ds(u=f, v=f), ds(u=g)),
             nested=lambda: xt.map_structure(f2, {'u': {'v': f}}, {'u': {'w': f}}), longer=lambda: xt.map_structure(f2, [f, f], [g]),
             shorter=lambda: xt.map_structure(f2, (f,), (g, g)), function=lambda: xt.map_structure(3, f), nothing=lambda: xt.map_structure(f2))[kind]
  exc = dict(function=TypeError, nothing=ValueError, longer=ValueError, shorter=ValueError).get(kind, KeyError)
  b.ensures('refused', run, lambda r: r.raises('refused', exc))


@contract('results', cases=[dict(kind=k, where=w) for k in ('none', 'all none', 'other', 'coordinates', 'values', 'renamed') for w in ('dataset', 'dict')])
def _(b, kind, where):
  """Of a dataset: results None are left out; results that are not arrays, or do not fit together, come as a dictionary."""
  b.dim('x')
  b.coord('x', 'x')
  f = {k: b.array('f' + k, ['x']) for k in 'uvw'}
  c = {k: b.array('c' + k, [], nan=False) for k in 'uvw'}
  src = {k: f[k].da for k in 'uvw'}
  if where == 'dataset':
    src = b.xr.Dataset(src)
  if kind == 'coordinates':
    b.assume(b.eq(c['u'][{}], c['v'][{}]) & b.eq(c['u'][{}], c['w'][{}]))
  if kind == 'values':
    b.assume(~b.eq(c['u'][{}], c['w'][{}]))
  def fn(x):
    k = next(j for j in 'uvw' if x is src_of[j])
    if kind == 'none':
      return None if k == 'v' else x + 1.0
    if kind == 'all none':
      return None
    if kind == 'other':
      return k * 2 if k == 'v' else x + 1.0
    if kind == 'renamed':
      return (x + 1.0).rename('same')
    return (x + 1.0).assign_coords(c=c[k].da)
  src_of = {}
  def run():
    names = iter('uvw')
    def g(x):
      src_of[next(names)] = x
      return fn(x)
    return xt.map_structure(g, src)
  def post(r):
    v = r.value
    left = dict(none='uw').get(kind, 'uvw') if where == 'dataset' else 'uvw'
    if kind == 'all none' and where == 'dataset':
      left = ''
    r.check('keys', list(v) == list(left))
    whole = where == 'dataset' and kind not in ('other', 'values')
    r.check('kind', isinstance(v, b.xr.Dataset) if whole else type(v) is dict)
    for k in left:
      if kind == 'all none' or (kind == 'none' and k == 'v'):
        r.check('none', v[k] is None)
      elif kind == 'other' and k == 'v':
        r.check('other', v[k] == 'vv')
      else:
        r.array(k, v[k].drop_vars('c', errors='ignore'), ['x'], lambda i: f[k][i] + 1.0)
        if kind in ('coordinates', 'values'):
          r.array(k + ' coordinate', v[k].coords['c'].drop_vars('c', errors='ignore'), [], lambda i: c[k][i], coords=False)
  b.ensures('mapped', run, post)
