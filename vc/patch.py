"""Runs the real modules of /repo against the engine's arrays.

The functions executed are those of /repo's current source.  For the duration
of a symbolic run the module globals that refer to the xarray module (and its
classes) are rebound to the engine; nothing in /repo is edited."""
import contextlib
import functools
import os
import sys
import types
import numpy as np
from vc import sxr
from vc import terms as T

REPO = os.environ.get('VERIF_REPO', '/repo')


def is_repo_file(f):
  return f.startswith(os.path.join(REPO, 'weatherbenchX') + '/')


class _XRMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, cls.target)


_PROXIES = {}


def _proxy(k):
  return _PROXIES[k]


class ModProxy(types.ModuleType):

  def __init__(self, real, over):
    super().__init__(real.__name__)
    self.__dict__['_real'] = real
    self.__dict__.update(over)

  def __getattr__(self, k):
    return getattr(self.__dict__['_real'], k)

  def __reduce__(self):
    # pickled and read back within one process only
    _PROXIES[id(self)] = self
    return _proxy, (id(self),)


class _UfuncsProxy:

  def __getattr__(self, k):
    if k in sxr.UFUNCS:
      return lambda *a: sxr.apply_named_ufunc(k, *a)
    raise T.Unsupported(f'xarray.ufuncs.{k}')


def _refuse(name):
  def f(*a, **k):
    raise T.Unsupported(f'xarray.{name}')
  return f


_XR_OVER = {
    'DataArray': sxr.SymDataArray, 'Dataset': sxr.SymDataset,
    'full_like': sxr.full_like, 'zeros_like': sxr.zeros_like, 'ones_like': sxr.ones_like,
    'where': sxr.where, 'dot': sxr.dot, 'concat': sxr.concat, 'align': sxr.align,
    'broadcast': sxr.broadcast, 'merge': sxr.merge, 'apply_ufunc': sxr.apply_ufunc,
    'combine_by_coords': sxr.combine_by_coords, 'set_options': sxr._NullCtx, 'ufuncs': _UfuncsProxy(),
}
for _n in ('open_dataset', 'open_zarr', 'open_mfdataset', 'combine_nested',
           'map_blocks', 'cov', 'corr', 'polyval', 'cross', 'unify_chunks', 'cftime_range', 'date_range'):
  _XR_OVER[_n] = _refuse(_n)

import xarray as _real_xr  # noqa: E402


def _map_index_queries(obj, indexers, method=None, tolerance=None, **kw):
  """Positions of constant labels in a constant index (the real lookup on the real index)."""
  out = {}
  for d, q in {**indexers, **kw}.items():
    c = obj._coords.get(d)
    if not isinstance(q, sxr.SymDataArray) or q.const is None or c is None or c.const is None or tolerance is not None:
      raise T.Unsupported('index query on symbolic labels')
    idx = _real_xr.DataArray(np.zeros(len(c.const)), dims=[d], coords={d: np.asarray(c.const)})
    qq = _real_xr.DataArray(np.asarray(q.const), dims=q.dims)
    r = _real_xr.core.indexing.map_index_queries(idx, {d: qq}, method=method).dim_indexers[d]
    rd = sxr.SymDataArray(np.asarray(r), dims=q.dims)
    rd._coords = dict(q._coords)
    out[d] = rd
  return types.SimpleNamespace(dim_indexers=out)


_XR_OVER['core'] = ModProxy(_real_xr.core, {
    'indexing': ModProxy(_real_xr.core.indexing, {'map_index_queries': _map_index_queries})})

XR = ModProxy(_real_xr, _XR_OVER)


def _np_sym(x):
  if isinstance(x, (sxr.SymDataArray, sxr.SymND, sxr.SymNum, sxr.SymBool)):
    return True
  if isinstance(x, (list, tuple)):
    return any(_np_sym(y) for y in x)
  return False


def _np_array(real):
  def f(x, *a, **k):
    if isinstance(x, (list, tuple)) and x and _np_sym(x):
      dt = a[0] if a else k.get('dtype')
      if isinstance(dt, (list, np.dtype)) and np.dtype(dt).names and all(isinstance(y, tuple) for y in x):
        return sxr.SymRecords(x, np.dtype(dt))
      if all(isinstance(y, sxr.SymND) for y in x) and dt is None and not k:
        return _np_stack(x)
      flat = []
      for y in x:
        if isinstance(y, sxr.SymDataArray):
          if y.dims:
            raise T.Unsupported('np.array of symbolic arrays')
          flat.append(sxr.SymNum(y._fn({})))
        elif isinstance(y, (list, tuple, sxr.SymND)):
          raise T.Unsupported('np.array of nested symbolic lists')
        else:
          flat.append(y)
      return sxr.SymND(sxr.SymDataArray(flat, dims=('ax0',)))
    if isinstance(x, sxr.SymND):
      return x
    if isinstance(x, sxr.SymDataArray):
      return x.values
    return real(x, *a, **k)
  return f


def _np_scalar_fn(name, real):
  def f(*a, **k):
    if any(isinstance(x, sxr.SymNum) for x in a) and not any(isinstance(x, (sxr.SymDataArray, sxr.SymND)) for x in a):
      return sxr.apply_named_ufunc(name, *a)
    return real(*a, **k)
  return f


_NP_OVER = {'array': _np_array(np.array), 'asarray': _np_array(np.asarray)}
for _n in ('sqrt', 'log', 'exp', 'sin', 'cos', 'isnan', 'isfinite', 'abs', 'minimum', 'maximum', 'square', 'deg2rad'):
  _NP_OVER[_n] = _np_scalar_fn(_n if _n != 'abs' else 'absolute', getattr(np, _n))


def _np_arange(*a, **k):
  if 1 <= len(a) <= 2 and any(isinstance(x, sxr.SymNum) for x in a) and not set(k) - {'dtype'}:
    dt = np.dtype(k.get('dtype') or 'int64')
    start, stop = (0, a[0]) if len(a) == 1 else a
    ends = []
    for x in (start, stop):
      x = x.zi if isinstance(x, sxr.SymNum) else int(x) if isinstance(x, (int, np.integer)) else None
      if x is None or dt.kind not in 'iuf':
        raise T.Unsupported('arange of a non-integer')
      ends.append(x)
    lo = ends[0]
    n = ends[1] if isinstance(lo, int) and lo == 0 else T.z3.simplify(T.zi(ends[1]) - T.zi(lo))
    d = sxr.const_dom(n) if isinstance(n, int) else T.Dom(f'arange[{n.sexpr()}]', n)
    fn = lambda idx: T.SV('f' if dt.kind == 'f' else 'i', T.z3.ToReal(T.zi(idx['ax0']) + T.zi(lo)))
    return sxr.SymND(sxr.SymDataArray.make(('ax0',), {'ax0': d}, fn, dt))
  return np.arange(*a, **k)


_NP_OVER['arange'] = _np_arange


def _np_filled(name, real, nval):
  def f(shape, *a, **k):
    sh = list(shape) if isinstance(shape, (list, tuple)) else [shape]
    if not _np_sym(sh) and not (nval and a and _np_sym(a[0])):
      return real(shape, *a, **k)
    if len(a) != nval or set(k) - {'dtype'}:
      raise T.Unsupported(f'np.{name}')
    v = a[0] if nval else {'zeros': 0.0, 'ones': 1.0}[name]
    if isinstance(v, (sxr.SymND, sxr.SymDataArray, list, tuple, np.ndarray)):
      raise T.Unsupported(f'np.{name} of an array')
    sv = T.SV.of(v)
    dt = np.dtype(k['dtype']) if 'dtype' in k else sxr._DT[sv.k] if nval else np.dtype(float)
    sv = sxr._cast(sv, np.dtype(dt))
    doms = {}
    for i, n in enumerate(sh):
      if isinstance(n, sxr.SymNum):
        if n.zi is None:
          raise T.Unsupported('array of a non-integer size')
        doms[f'ax{i}'] = T.Dom(f'arange[{n.zi.sexpr() if not isinstance(n.zi, int) else n.zi}]', n.zi)
      else:
        doms[f'ax{i}'] = sxr.const_dom(int(n))
    r = sxr.SymND(sxr.SymDataArray.make(tuple(doms), doms, lambda idx: sv, dt))
    r.owned = True
    return r
  return f


for _n, _k in (('full', 1), ('zeros', 0), ('ones', 0)):
  _NP_OVER[_n] = _np_filled(_n, getattr(np, _n), _k)


def _np_stack(xs, axis=0, **k):
  xs = list(xs)
  if not any(isinstance(x, sxr.SymND) for x in xs):
    return np.stack(xs, axis=axis, **k)
  if k or axis not in (0, -1) or not all(isinstance(x, sxr.SymND) for x in xs):
    raise T.Unsupported('np.stack')
  nd = xs[0].ndim
  das = []
  for x in xs:
    if x.ndim != nd:
      raise ValueError('all input arrays must have the same shape')
    das.append(sxr.SymDataArray.make(x.da._dims, x.da._doms, x.da._fn, x.dtype).rename({d: f'#{i}' for i, d in enumerate(x.da._dims)}))
  r = sxr.concat(das, '#new')
  order = ['#new'] + [f'#{i}' for i in range(nd)] if axis == 0 else [f'#{i}' for i in range(nd)] + ['#new']
  r = r.transpose(*order)
  return sxr.SymND(r.rename({d: f'ax{i}' for i, d in enumerate(order)}))


_NP_OVER['stack'] = _np_stack


def _np_empty(shape, dtype=float, **k):
  """Contents are unspecified: no element may be read before it is assigned."""
  sh = list(shape) if isinstance(shape, (list, tuple)) else [shape]
  if not _np_sym(sh):
    return np.empty(shape, dtype, **k)
  r = _np_filled('zeros', np.zeros, 0)(shape, dtype=dtype)
  def unset(idx):
    raise T.Unsupported('element of np.empty')
  r.da = sxr.SymDataArray.make(r.da._dims, r.da._doms, unset, r.dtype)
  return r


_NP_OVER['empty'] = _np_empty
_NP_OVER['argsort'] = lambda a, *x, **k: (sxr.argsort_records if isinstance(a, sxr.SymRecords) else np.argsort)(a, *x, **k)


def _np_list_fn(name, real):
  def f(*a, **k):
    if a and isinstance(a[0], (list, tuple)) and _np_sym(a[0]):
      return sxr.np_function(name, *a, **k)
    return real(*a, **k)
  return f


for _n in ('max', 'min', 'concatenate'):
  _NP_OVER[_n] = _np_list_fn(_n, getattr(np, _n))
NP = ModProxy(np, _NP_OVER)


def _convolve1d(x, weights, axis=-1, output=None, mode='reflect', cval=0.0, origin=0):
  """Assumed contract of scipy.ndimage.convolve1d (wrap mode): circular convolution with the kernel centred."""
  import fractions
  if not isinstance(x, sxr.SymND):
    from scipy import ndimage
    return ndimage.convolve1d(x, weights, axis=axis, mode=mode)
  w = np.asarray(weights)
  if mode != 'wrap' or output is not None or origin != 0 or w.ndim != 1 or len(w) % 2 != 1 or w.dtype.kind != 'f' or x.dtype.kind != 'f':
    raise T.Unsupported('convolve1d options')
  # single-precision reciprocals of small integers stand for the exact fractions (machine arithmetic treated as mathematical)
  ws = [fractions.Fraction(float(v)).limit_denominator(4096) if w.dtype == np.float32 else fractions.Fraction(float(v)) for v in w]
  h = len(w) // 2
  da = x.da
  d = da._dims[axis]
  n = da._doms[d].size
  old = da._fn
  def fn(idx):
    tot = T.SV('f', T.num(0))
    for k in range(-h, h + 1):
      i = idx[d] - k
      if isinstance(i, int) and isinstance(n, int):
        i = i % n
      else:
        i = T.zi(i)
        i = T.z3.If(T.And(i >= 0, i < T.zi(n)), i, i % T.zi(n))
      v = old({**idx, d: i})
      tot = T.add(tot, T.mul(v.num(), T.SV('f', T.z3.RealVal(f'{ws[h + k].numerator}/{ws[h + k].denominator}'))))
    return tot
  r = sxr.SymND(sxr.SymDataArray.make(da._dims, da._doms, fn, da.dtype))
  r.owned = True
  return r


def _lru_cache(maxsize=128, typed=False):
  """functools.lru_cache for symbolic arguments: calls with the same terms are remembered."""
  if callable(maxsize):
    return _lru_cache()(maxsize)
  def key(x):
    return (type(x).__name__, x.sv.real().sexpr()) if isinstance(x, sxr.SymNum) else (type(x).__name__ if typed else '', x)
  def wrap(f):
    memo = {}
    @functools.wraps(f)
    def g(*a, **k):
      at = tuple(key(x) for x in a), tuple((n, key(x)) for n, x in k.items())
      if at not in memo:
        memo[at] = f(*a, **k)
      return memo[at]
    return g
  return wrap


@contextlib.contextmanager
def patched():
  saved, added = [], []
  repl = {id(_real_xr): XR, id(np): NP, id(_real_xr.DataArray): sxr.SymDataArray,
          id(_real_xr.Dataset): sxr.SymDataset}
  from scipy import ndimage
  repl[id(ndimage)] = ModProxy(ndimage, {'convolve1d': _convolve1d})
  if 'weatherbenchX.statistical_inference.autodiff' in sys.modules:
    import jax
    import jax.numpy as jnp
    from vc import diff
    repl[id(jax)] = ModProxy(jax, {'linearize': diff.linearize, 'vmap': diff.vmap})
    repl[id(jnp)] = ModProxy(jnp, {'array': lambda x, **k: x if isinstance(x, sxr.SymND) else jnp.array(x, **k)})
  shadow = {}
  repl[id(functools)] = ModProxy(functools, {'lru_cache': _lru_cache})
  if 'weatherbenchX.statistical_inference.t_test' in sys.modules:
    import scipy
    import scipy.fft
    import scipy.stats
    from vc import stats
    repl[id(scipy)] = ModProxy(scipy, {'stats': ModProxy(scipy.stats, {'t': stats.t}), 'fft': ModProxy(scipy.fft, {'dct': stats.dct})})
    repl[id(scipy.stats.t)] = stats.t
    repl[id(scipy.fft.dct)] = stats.dct
    shadow['weatherbenchX.statistical_inference.t_test'] = stats.BUILTINS
  if hasattr(_real_xr, 'ufuncs'):
    repl[id(_real_xr.ufuncs)] = XR.ufuncs
  for mn, m in list(sys.modules.items()):
    if m is None or not (mn == 'weatherbenchX' or mn.startswith('weatherbenchX.')):
      continue
    for k, v in list(vars(m).items()):
      r = repl.get(id(v))
      if r is not None:
        saved.append((m, k, v))
        setattr(m, k, r)
    for k, v in shadow.get(mn, {}).items():
      if k not in vars(m):
        added.append((m, k))
        setattr(m, k, v)
  try:
    yield
  finally:
    for m, k, v in saved:
      setattr(m, k, v)
    for m, k in added:
      delattr(m, k)
