"""Symbolic xarray: contracts of the xarray/numpy operations the verified code
calls, over arrays with dimensions of symbolic size.

These are *assumed contracts on dependencies*; conformance to the installed
xarray/numpy is tested on concrete inputs on every run (harness.conformance).
"""
import collections
import collections.abc
import itertools
import numpy as np
import z3
from xarray.core import accessor_dt as _accessor_dt
from vc import terms as T
from vc.terms import SV, Dom, Unsupported

_uid = itertools.count()


# --------------------------------------------------------------------------
# Path context

class Infeasible(BaseException):
  pass


class Ctx:
  current = None

  def __init__(self, hyps, decisions=()):
    self.hyps = list(hyps)
    self.decisions = list(decisions)
    self.taken = []
    self.pc = []
    self.pending = []
    self.solver = z3.Solver()
    self.solver.set('timeout', 2000)
    self.solver.add(*[h for h in self.hyps])
    self.preconds = []   # assumed call preconditions recorded (strings)

  def feasible(self, c):
    self.solver.push()
    self.solver.add(c)
    r = self.solver.check()
    self.solver.pop()
    return r != z3.unsat

  def fork(self, cond):
    if cond is True or cond is False:
      return cond
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    i = len(self.taken)
    if i < len(self.decisions):
      val = self.decisions[i]
    else:
      ft = self.feasible(cond)
      ff = self.feasible(z3.Not(cond))
      if not ft and not ff:
        raise Infeasible()
      if ft and ff:
        self.pending.append(self.taken + [False])
        val = True
      else:
        val = ft
    self.taken.append(val)
    c = cond if val else z3.Not(cond)
    self.pc.append(c)
    self.solver.add(c)
    if len(self.taken) > 200:
      raise Unsupported('too many branches on one path')
    return val


def fork(cond):
  if Ctx.current is None:
    raise Unsupported('branch outside a verification context')
  return Ctx.current.fork(cond)


class SymBool:

  def __init__(self, b):
    self.b = b

  def __bool__(self):
    return fork(self.b)

  def __and__(self, o):
    return SymBool(T.And(self.b, _pb(o)))

  __rand__ = __and__

  def __or__(self, o):
    return SymBool(T.Or(self.b, _pb(o)))

  __ror__ = __or__

  def __invert__(self):
    return SymBool(T.Not(self.b))

  def as_sv(self):
    return SV('b', T.zb(self.b))

  def all(self):
    return self

  def any(self):
    return self

  __hash__ = None


def _pb(o):
  if isinstance(o, SymBool):
    return o.b
  if isinstance(o, SymNum):
    return o.sv.v
  return bool(o)


def _zdiv(a, b):
  # z3 integer division is Euclidean: it agrees with floor division for b > 0
  a, b = T.zi(a), T.zi(b)
  if z3.is_int_value(b) and b.as_long() > 0:
    return a if b.as_long() == 1 else a / b
  return z3.If(b > 0, a / b, (-a) / (-b))


def _zmod(a, b):
  return T.zi(a) - T.zi(b) * _zdiv(a, b)


class SymNum:
  """Symbolic Python number (array size, 0-d item ...)."""

  def __init__(self, sv, zi=None):
    self.sv = sv
    self.zi = zi

  def as_sv(self):
    return self.sv

  def _b(self, o, f, zf=None, refl=False):
    if isinstance(o, SymDataArray) or isinstance(o, SymDataset):
      return NotImplemented
    try:
      osv = SV.of(o)
    except Unsupported:
      return NotImplemented
    a, b = (osv, self.sv) if refl else (self.sv, osv)
    zi = None
    if zf is not None and self.zi is not None:
      oz = o.zi if isinstance(o, SymNum) else (o if isinstance(o, (int, np.integer)) else None)
      if oz is not None:
        zi = zf(oz, self.zi) if refl else zf(self.zi, oz)
    return SymNum(f(a, b), zi)

  def __add__(self, o):
    return self._b(o, T.add, lambda a, b: a + b)

  __radd__ = __add__

  def __sub__(self, o):
    return self._b(o, T.sub, lambda a, b: a - b)

  def __rsub__(self, o):
    return self._b(o, T.sub, lambda a, b: a - b, refl=True)

  def __mul__(self, o):
    return self._b(o, T.mul, lambda a, b: a * b)

  __rmul__ = __mul__

  def __truediv__(self, o):
    if isinstance(o, (int, float, SymNum)):
      # Python division raises on zero: assume the divisor is nonzero is not
      # sound, so fork.
      osv = SV.of(o)
      if fork(T.zb(osv.real() == 0)):
        raise ZeroDivisionError('division by zero')
    return self._b(o, T.div)

  def __rtruediv__(self, o):
    if isinstance(o, (int, float, SymNum)):
      if fork(T.zb(self.sv.real() == 0)):
        raise ZeroDivisionError('division by zero')
    return self._b(o, T.div, refl=True)

  def _intdiv(self, o, f, zf, refl=False):
    if isinstance(o, (int, float, SymNum)):
      d = self.sv if refl else SV.of(o)
      if fork(T.zb(d.real() == 0)):
        raise ZeroDivisionError('division by zero')
    return self._b(o, f, zf, refl)

  def __mod__(self, o):
    return self._intdiv(o, T.modv, _zmod)

  def __rmod__(self, o):
    return self._intdiv(o, T.modv, _zmod, True)

  def __floordiv__(self, o):
    return self._intdiv(o, T.floordiv, _zdiv)

  def __rfloordiv__(self, o):
    return self._intdiv(o, T.floordiv, _zdiv, True)

  def __divmod__(self, o):
    return self // o, self % o

  def __pow__(self, n):
    return SymNum(T.powv(self.sv, n))

  def __neg__(self):
    return SymNum(T.neg(self.sv), None if self.zi is None else -self.zi)

  def __abs__(self):
    return SymNum(T.absv(self.sv))

  def _c(self, o, f):
    return SymBool(f(self.sv, SV.of(o)).v)

  def __lt__(self, o):
    return self._c(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._c(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._c(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._c(o, lambda a, b: a >= b)

  def __eq__(self, o):
    if o is None:
      return False
    return self._c(o, lambda a, b: a.eq(b))

  def __ne__(self, o):
    if o is None:
      return True
    return self._c(o, lambda a, b: ~(a.eq(b)))

  def __bool__(self):
    return fork(T.tobool(self.sv).v)

  def __index__(self):
    z = None if self.zi is None else z3.simplify(T.zi(self.zi))
    if z is None or not z3.is_int_value(z):
      raise Unsupported('symbolic number used as a concrete integer')
    return z.as_long()

  def __int__(self):
    raise Unsupported('symbolic number converted to int')

  def __float__(self):
    raise Unsupported('symbolic number converted to float')

  def astype(self, dt):
    return SymNum(_cast(self.sv, dt), self.zi)

  __hash__ = None


def size_num(size):
  if isinstance(size, int):
    return size
  return SymNum(SV('i', z3.ToReal(size)), size)


def _kind_of_dtype(dt):
  dt = np.dtype(dt)
  return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'M': 'M', 'm': 'm', 'U': 'U',
          'O': 'O', 'S': 'U'}[dt.kind]


def _cast(sv, dt):
  k = _kind_of_dtype(dt)
  if k == 'f':
    s = sv.num()
    if s.k not in 'fi':
      raise Unsupported(f'cast {sv.k} to float')
    return SV('f', s.v, s.nan, s.pinf, s.ninf)
  if k == 'i':
    return T.truncv(sv)
  if k == 'b':
    return T.tobool(sv)
  if k in 'Mm' and sv.k == k:
    return sv
  raise Unsupported(f'cast {sv.k} to {dt}')


_DT = {'f': np.dtype('float64'), 'i': np.dtype('int64'), 'b': np.dtype('bool'),
       'M': np.dtype('datetime64[ns]'), 'm': np.dtype('timedelta64[ns]'),
       'U': np.dtype('<U16')}


# --------------------------------------------------------------------------

class Coords(collections.abc.MutableMapping):

  def __init__(self, owner):
    self._o = owner

  def __getitem__(self, k):
    r = self._o._coord_da(k)
    if getattr(self._o, 'owns_coords', False) and k in self._o._coords:
      r.view_of = (self._o, k)
    return r

  def __contains__(self, k):
    return k in self._o._coords

  def __iter__(self):
    return iter(self._o._coords)

  def __len__(self):
    return len(self._o._coords)

  def __setitem__(self, k, v):
    self._o._set_coord(k, v)

  def __delitem__(self, k):
    del self._o._coords[k]

  def __or__(self, other):
    return {**{k: self[k] for k in self}, **dict(other)}


def _cardinality(dom):
  """Number of labels: positive where some known label belongs to the set."""
  if Ctx.current is None:
    raise Unsupported('number of labels')
  n = z3.Int(f'card[{dom.key}]')
  T.CARDS[f'card[{dom.key}]'] = dom
  for f in [n >= 0] + [z3.Implies(T.zb(dom.pred(w)), n > 0) for w in T.LABEL_POINTS]:
    Ctx.current.pc.append(f)
    Ctx.current.solver.add(f)
  return size_num(n)


class Sizes(collections.abc.Mapping):

  def __init__(self, doms):
    self._d = doms

  def __getitem__(self, k):
    return size_num(self._d[k].size)

  def __iter__(self):
    return iter(self._d)

  def __len__(self):
    return len(self._d)

  def __eq__(self, o):
    if isinstance(o, Sizes):
      if set(self._d) != set(o._d):
        return False
      for k in self._d:
        a, b = self._d[k], o._d[k]
        if a.key == b.key:
          continue
        if a.concrete and b.concrete:
          if a.size != b.size:
            return False
          continue
        raise Unsupported('size comparison')
      return True
    return NotImplemented

  __hash__ = None


def const_dom(n, tag='c'):
  return Dom(f'{tag}{n}', int(n))


_contents = {}


def _content(*parts):
  """A number for the expressions, the same whenever these are the same."""
  key = tuple(p.sexpr() if isinstance(p, z3.ExprRef) else str(p) for p in parts)
  return _contents.setdefault(key, len(_contents))


class SymDataArray:
  """See module docstring."""

  def to_dict(self, **kw):
    return {'data': self}

  __array_priority__ = 1000

  def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None):
    """Mirror of the xr.DataArray constructor for concrete-shaped data."""
    self.uid = next(_uid)
    self.name = name
    self.attrs = dict(attrs or {})
    self.encoding = {}
    self._coords = {}
    if isinstance(data, SymDataArray):
      self._copy_from(data)
      if dims is not None and tuple(dims if not isinstance(dims, str) else [dims]) != data.dims:
        raise Unsupported('DataArray(DataArray, dims=...)')
      if name is not None:
        self.name = name
      if coords is not None:
        for k, v in dict(coords).items():
          self._set_coord(k, v)
      return
    if isinstance(data, SymND):
      base = data.da
      if dims is None and isinstance(coords, collections.abc.Mapping) and len(coords) == base.ndim:
        dims = tuple(coords)
      if dims is None:
        raise Unsupported('DataArray from array without dims')
      dims = (dims,) if isinstance(dims, str) else tuple(dims)
      ren = dict(zip(base.dims, dims))
      self._dims = dims
      self._doms = {ren[d]: base._doms[d] for d in base.dims}
      bd = base.dims
      bf = base._fn
      self._fn = lambda idx: bf({o: idx[n] for o, n in zip(bd, dims)})
      self.dtype = base.dtype
      self.const = base.const
      if coords is not None:
        for k, v in dict(coords).items():
          self._set_coord(k, v)
      return
    if isinstance(data, (SymNum, SV, SymBool)):
      sv = SV.of(data)
      self._dims = ()
      self._doms = {}
      self._fn = lambda idx: sv
      self.dtype = _DT[sv.k]
      self.const = None
      return
    data = list(data) if isinstance(data, (tuple, range)) else data
    if isinstance(data, list) and any(isinstance(x, (SymNum, SV, SymDataArray, SymBool)) for x in data):
      svs = [_scalar(x) for x in data]
      dims = (dims,) if isinstance(dims, str) else tuple(dims)
      if len(dims) != 1:
        raise Unsupported('nested symbolic list')
      self._dims = dims
      self._doms = {dims[0]: const_dom(len(svs))}
      d = dims[0]
      self._fn = lambda idx: _select(svs, idx[d])
      k = 'f' if any(s.k == 'f' for s in svs) else svs[0].k
      self.dtype = _DT[k]
      self.const = None
    else:
      arr = np.asarray(data)
      if dims is None:
        if arr.ndim == 0:
          dims = ()
        elif coords is not None and isinstance(coords, (list, tuple)):
          dims = tuple(c[0] for c in coords)
        elif coords is not None and len(coords) == arr.ndim:
          dims = tuple(coords)
        else:
          dims = tuple(f'dim_{i}' for i in range(arr.ndim))
      dims = (dims,) if isinstance(dims, str) else tuple(dims)
      if len(dims) != arr.ndim:
        raise ValueError('different number of dimensions on data and dims')
      self._set_const(arr, dims)
    if coords is not None:
      items = coords if isinstance(coords, (list, tuple)) else list(dict(coords).items())
      for k, v in items:
        self._set_coord(k, v)

  # -- low level construction
  def _set_const(self, arr, dims):
    self._dims = dims
    self._doms = {d: const_dom(n) for d, n in zip(dims, arr.shape)}
    self.const = arr
    self.dtype = arr.dtype
    self._fn = _const_fn(arr, dims)

  @classmethod
  def make(cls, dims, doms, fn, dtype, name=None, coords=None, const=None):
    o = cls.__new__(cls)
    o.uid = next(_uid)
    o.name = name
    o.attrs = {}
    o.encoding = {}
    o._dims = tuple(dims)
    o._doms = {d: doms[d] for d in dims}
    for d in dims:
      T.register_dom(doms[d])
    o._fn = fn
    o.dtype = np.dtype(dtype)
    o._coords = dict(coords or {})
    o.const = const
    return o

  def _copy_from(self, o):
    self._dims = o._dims
    self._doms = dict(o._doms)
    self._fn = o._fn
    self.dtype = o.dtype
    self._coords = dict(o._coords)
    self.name = o.name
    self.attrs = dict(o.attrs)
    self.const = o.const

  def _like(self, fn, dtype=None, dims=None, doms=None, coords=None, name='__same__'):
    dims = self._dims if dims is None else tuple(dims)
    doms = self._doms if doms is None else doms
    coords = self._coords if coords is None else coords
    coords = {k: c for k, c in coords.items() if set(c._dims) <= set(dims)}
    r = SymDataArray.make(dims, doms, fn, dtype or self.dtype,
                          self.name if name == '__same__' else name, coords)
    r.attrs = dict(self.attrs)
    return r

  # -- access
  def at(self, idx):
    return self._fn({d: idx[d] for d in self._dims})

  @property
  def dims(self):
    return self._dims

  @property
  def ndim(self):
    return len(self._dims)

  @property
  def sizes(self):
    return Sizes({d: self._doms[d] for d in self._dims})

  @property
  def shape(self):
    return tuple(size_num(self._doms[d].size) for d in self._dims)

  @property
  def size(self):
    out = 1
    for d in self._dims:
      dom = self._doms[d]
      out = (_cardinality(dom) if dom.is_label else size_num(dom.size)) * out
    return out

  def __len__(self):
    if not self._dims:
      raise TypeError('len() of unsized object')
    s = self._doms[self._dims[0]].size
    if isinstance(s, int):
      return s
    raise Unsupported('len of symbolic dimension')

  @property
  def coords(self):
    return Coords(self)

  @property
  def indexes(self):
    return {k: c for k, c in self._coords.items() if c._dims == (k,)}

  def _coord_da(self, k):
    if k in self._coords:
      c = self._coords[k]
      sub = {n: x for n, x in self._coords.items() if set(x._dims) <= set(c._dims)}
      r = SymDataArray.make(c._dims, c._doms, c._fn, c.dtype, k, sub, c.const)
      r.src = getattr(c, 'src', c.uid)
      return r
    if k in self._dims:
      d = self._doms[k]
      if d.is_label:
        return SymDataArray.make((k,), {k: d}, lambda idx: SV('M', idx[k]), 'datetime64[ns]', k)
      return SymDataArray.make((k,), {k: d}, lambda idx: SV.of(z3.IntVal(idx[k]) if isinstance(idx[k], int) else idx[k]), 'int64', k,
                               const=np.arange(d.size) if d.concrete else None)
    raise KeyError(k)

  def _set_coord(self, k, v):
    if isinstance(v, tuple) and len(v) >= 2 and isinstance(v[0], (str, tuple, list)):
      v = SymDataArray(v[1], dims=v[0])
    if isinstance(v, SymDataArray):
      c = v
    else:
      if isinstance(v, SymND):
        v = v.da
        if v.ndim == 1 and k in self._dims:
          c = v.rename({v.dims[0]: k})
        else:
          raise Unsupported('coord from array')
      else:
        arr = np.asarray(v)
        if arr.ndim == 0:
          c = SymDataArray(arr)
        elif arr.ndim == 1 and k in self._dims:
          c = SymDataArray(arr, dims=(k,))
        else:
          raise ValueError('coordinate dims')
    if not set(c._dims) <= set(self._dims):
      raise ValueError(f'coordinate {k} has dimensions {c._dims}, but these are not a subset of {self._dims}')
    for d in c._dims:
      _same_dom(c._doms[d], self._doms[d])
    bare = SymDataArray.make(c._dims, {d: self._doms[d] for d in c._dims}, c._fn, c.dtype, k, None, c.const)
    bare.src = getattr(c, 'src', c.uid)
    self._coords = dict(self._coords)
    self._coords[k] = bare
    # setting a coord from a DataArray brings its own coords too
    for n, x in c._coords.items():
      if n not in self._coords and set(x._dims) <= set(self._dims):
        self._coords[n] = x

  def __getattr__(self, k):
    if k.startswith('_') or k in ('const', 'src', 'dims'):
      raise AttributeError(k)
    cs = self.__dict__.get('_coords', {})
    if k in cs or k in self.__dict__.get('_dims', ()):
      return self._coord_da(k)
    if k in self.__dict__.get('attrs', {}):
      return self.attrs[k]
    if k in _KNOWN_MISSING:
      raise Unsupported(f'DataArray.{k}')
    raise AttributeError(f"'DataArray' object has no attribute {k!r}")

  def __getitem__(self, k):
    if isinstance(k, str):
      return self._coord_da(k)
    if isinstance(k, dict):
      return self.isel(k)
    if not isinstance(k, tuple):
      k = (k,)
    return self.isel(dict(zip(self._dims, k)))

  def __setitem__(self, k, v):
    if isinstance(k, str):
      self._set_coord(k, v)
      return
    view = getattr(self, 'view_of', None)
    if view is not None and isinstance(k, slice) and k == slice(None):
      # the coordinate belongs to this array alone (deep copy): positional assignment
      if not isinstance(v, SymND) or len(v.da._dims) != len(self._dims):
        raise Unsupported('in-place assignment')
      for a, b in zip(v.da._dims, self._dims):
        _same_dom(v.da._doms[a], self._doms[b])
      ren = list(zip(v.da._dims, self._dims))
      fn = v.da._fn
      r = SymDataArray.make(self._dims, self._doms, lambda idx: _cast(fn({a: idx[b] for a, b in ren}), self.dtype), self.dtype, self.name)
      view[0]._coords = {**view[0]._coords, view[1]: r}
      return
    raise Unsupported('in-place assignment')

  def __contains__(self, x):
    raise Unsupported('in DataArray')

  def __iter__(self):
    if not self._dims:
      raise TypeError('iteration over a 0-d array')
    d = self._dims[0]
    n = self._doms[d].size
    if not isinstance(n, int):
      raise Unsupported('iteration over a symbolic dimension')
    for i in range(n):
      yield self.isel({d: i})

  @property
  def values(self):
    if self.const is not None:
      return self.const
    return SymND(self)

  @property
  def data(self):
    return self.values

  @data.setter
  def data(self, v):
    raise Unsupported('set data')

  def to_numpy(self):
    return self.values

  def item(self):
    if self._dims:
      raise Unsupported('item of array')
    if self.const is not None:
      return self.const.item()
    return SymNum(self._fn({}))

  def __bool__(self):
    if self._dims:
      tot = self.size
      if isinstance(tot, int) and tot == 1:
        return fork(T.tobool(self._fn({d: 0 for d in self._dims})).v)
      raise ValueError('The truth value of an array with more than one element is ambiguous.')
    return fork(T.tobool(self._fn({})).v)

  def __float__(self):
    if self.const is not None:
      return float(self.const)
    raise Unsupported('float() of symbolic array')

  def __int__(self):
    if self.const is not None:
      return int(self.const)
    raise Unsupported('int() of symbolic array')

  def __repr__(self):
    return f'<SymDataArray {self.name} {self._dims}>'

  __hash__ = object.__hash__

  # -- elementwise
  def _un(self, f, dtype=None):
    fn = self._fn
    if self.const is not None and self.const.dtype.kind in 'US':
      raise Unsupported('string array op')
    return self._like(lambda idx: f(fn(idx)), dtype)

  def _bin(self, o, f, dtype=None, refl=False, join='inner'):
    if isinstance(o, SymDataset):
      return NotImplemented
    if isinstance(o, SymND):
      raise Unsupported('DataArray op ndarray')
    if isinstance(o, np.ndarray) and o.ndim > 0:
      if o.ndim == self.ndim:
        o = SymDataArray(o, dims=self._dims)
      else:
        raise Unsupported('DataArray op ndarray')
    if not isinstance(o, SymDataArray):
      try:
        osv = SV.of(o)
      except Unsupported:
        return NotImplemented
      g = (lambda a: f(osv, a)) if refl else (lambda a: f(a, osv))
      fn = self._fn
      return self._like(lambda idx: g(fn(idx)), dtype or _res_dtype(self, o))
    a, b = (o, self) if refl else (self, o)
    return _elementwise(f, [a, b], dtype or _res_dtype(a, b), join=join)

  def __add__(self, o):
    return self._bin(o, T.add)

  def __radd__(self, o):
    return self._bin(o, T.add, refl=True)

  def __sub__(self, o):
    return self._bin(o, T.sub)

  def __rsub__(self, o):
    return self._bin(o, T.sub, refl=True)

  def __mul__(self, o):
    return self._bin(o, T.mul)

  def __rmul__(self, o):
    return self._bin(o, T.mul, refl=True)

  def __truediv__(self, o):
    return self._bin(o, T.div, 'float64')

  def __rtruediv__(self, o):
    return self._bin(o, T.div, 'float64', refl=True)

  def __floordiv__(self, o):
    return self._bin(o, T.floordiv)

  def __mod__(self, o):
    return self._bin(o, T.modv)

  def __pow__(self, o):
    if isinstance(o, SymDataArray):
      raise Unsupported('array power')
    return self._un(lambda a: T.powv(a, o), None if self.dtype.kind != 'b' else 'int8')

  def __neg__(self):
    return self._un(T.neg)

  def __abs__(self):
    return self._un(T.absv)

  def __invert__(self):
    if self.dtype.kind not in 'bO':
      raise Unsupported('bitwise not on non-bool')
    return self._un(T.lnot)

  def __and__(self, o):
    return self._bin(o, T.land, 'bool')

  __rand__ = __and__

  def __or__(self, o):
    return self._bin(o, T.lor, 'bool')

  __ror__ = __or__

  def __xor__(self, o):
    return self._bin(o, T.lxor, 'bool')

  def __lt__(self, o):
    return self._bin(o, lambda a, b: a < b, 'bool')

  def __le__(self, o):
    return self._bin(o, lambda a, b: a <= b, 'bool')

  def __gt__(self, o):
    return self._bin(o, lambda a, b: a > b, 'bool')

  def __ge__(self, o):
    return self._bin(o, lambda a, b: a >= b, 'bool')

  def __eq__(self, o):
    return self._bin(o, lambda a, b: a.eq(b), 'bool')

  def __ne__(self, o):
    return self._bin(o, lambda a, b: ~(a.eq(b)), 'bool')

  def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
    if method != '__call__' or {k for k in kwargs if kwargs[k] is not None} - {'dtype', 'casting'}:
      raise Unsupported(f'ufunc {ufunc} {method}')
    return apply_named_ufunc(ufunc.__name__, *inputs)

  def __array_function__(self, func, types, args, kwargs):
    return np_function(func.__name__, *args, **kwargs)

  def __array__(self, *a, **k):
    if self.const is not None:
      return np.asarray(self.const)
    raise Unsupported('symbolic array converted to a concrete numpy array')

  # -- missing values
  def isnull(self, keep_attrs=None):
    return self._un(T.isnull, 'bool')

  isna = isnull

  def notnull(self, keep_attrs=None):
    return self._un(lambda a: T.lnot(T.isnull(a)), 'bool')

  notna = notnull

  def where(self, cond, other=None, drop=False):
    if drop:
      raise Unsupported('where(drop=True)')
    if callable(cond):
      cond = cond(self)
    if not isinstance(cond, SymDataArray):
      cond = SymDataArray(cond) if not isinstance(cond, (SymBool, SymNum)) else SymDataArray(SV.of(cond))
    nanfill = other is None or (not isinstance(other, SymDataArray) and isinstance(other, float) and other != other)
    if other is None:
      other = float('nan')
    dt = self.dtype
    if nanfill and dt.kind in 'iu':
      dt = np.dtype('float64')
    if dt.kind == 'b' and nanfill:
      dt = np.dtype('O')
    f = lambda x, c, o: T.where(T.tobool(c), x, o)
    if isinstance(other, SymDataArray):
      return _elementwise(f, [self, cond, other], np.result_type(dt, other.dtype) if dt.kind not in 'OMm' else dt,
                          join='exact', coord_order=[0, 1, 2], name_from=0)
    osv = SV.of(other)
    if not nanfill and dt.kind in 'iub' and isinstance(other, float):
      dt = np.dtype('float64')
    return _elementwise(lambda x, c: f(x, c, osv), [self, cond], dt, join='inner', name_from=0)

  def fillna(self, v):
    if isinstance(v, SymDataArray):
      return _elementwise(lambda x, o: T.where(T.isnull(x), o, x), [self, v], self.dtype, join='left', name_from=0)
    osv = SV.of(v)
    return self._un(lambda x: T.where(T.isnull(x), osv, x))

  def clip(self, min=None, max=None, keep_attrs=None):  # pylint: disable=redefined-builtin
    r = self
    if min is not None:
      r = r._bin(min, T.maxv)
    if max is not None:
      r = r._bin(max, T.minv)
    return r

  def astype(self, dt, copy=True, keep_attrs=None, **kw):
    dt = np.dtype(dt)
    fn = self._fn
    const = None
    if self.const is not None:
      const = self.const.astype(dt)
      return self._like_const(const)
    return self._like(lambda idx: _cast(fn(idx), dt), dt)

  def _like_const(self, arr):
    r = self._like(_const_fn(arr, self._dims), arr.dtype)
    r.const = arr
    return r

  def isin(self, test):
    vals = test.const if isinstance(test, SymDataArray) else np.asarray(test)
    if vals is None:
      raise Unsupported('isin symbolic')
    svs = [SV.of(v) for v in np.ravel(vals)]
    fn = self._fn
    def f(idx):
      x = fn(idx)
      return SV('b', T.zb(T.Or(*[x.eq(s).v for s in svs])))
    return self._like(f, 'bool')

  # -- reductions
  def _dimlist(self, dim):
    if dim is None or dim is Ellipsis:
      return list(self._dims)
    if isinstance(dim, str) or not isinstance(dim, collections.abc.Iterable):
      dim = [dim]
    dim = list(dim)
    for d in dim:
      if d not in self._dims:
        raise ValueError(f"Dimension {d!r} not found in array dimensions {self._dims}")
    return dim

  def _reduce(self, dim, f, dtype=None):
    dim = self._dimlist(dim)
    keep = [d for d in self._dims if d not in dim]
    doms = [self._doms[d] for d in dim]
    fn = self._fn
    memo = {}
    def g(idx):
      key = tuple((k, v if isinstance(v, int) else v.sexpr()) for k, v in sorted(idx.items()))
      if key not in memo:
        memo[key] = f(doms, lambda ks: fn({**idx, **dict(zip(dim, ks))}))
      return memo[key]
    return self._like(g, dtype, keep, {d: self._doms[d] for d in keep})

  def _skip(self, skipna):
    return self.dtype.kind in 'fO' if skipna is None else bool(skipna)

  def sum(self, dim=None, skipna=None, min_count=None, keep_attrs=None, **kw):
    skip = self._skip(skipna)
    dt = self.dtype if self.dtype.kind in 'fm' else 'int64'
    if min_count not in (None, 0, 1):
      raise Unsupported('min_count')
    if min_count == 1 and skip:
      def fm(doms, body):
        ks = [T.fresh_idx(d) for d in doms]
        if any(d.concrete for d in doms):
          combos = list(itertools.product(*[range(d.size) if d.concrete else [k] for d, k in zip(doms, ks)]))
          present = T.Or(*[T.any_bool([k for k, d in zip(c, doms) if not d.concrete], [d for d in doms if not d.concrete],
                                      T.Not(T.isnull(body(list(c))).v)) for c in combos])
        else:
          present = T.any_bool(ks, doms, T.Not(T.isnull(body(ks)).v))
        r = T.reduce_sv('sum', doms, lambda ks: _zero_nan(body(ks)))
        return SV('f', r.v, T.Or(r.nan, T.Not(present)), T.And(r.pinf, present), T.And(r.ninf, present))
      return self._reduce(dim, fm, dt)
    def f(doms, body):
      if skip:
        return T.reduce_sv('sum', doms, lambda ks: _zero_nan(body(ks)))
      return T.reduce_sv('sum', doms, body)
    return self._reduce(dim, f, dt)

  def count(self, dim=None, keep_attrs=None, **kw):
    def f(doms, body):
      return T.reduce_sv('sum', doms, lambda ks: T.lnot(T.isnull(body(ks))).num())
    return self._reduce(dim, f, 'int64')

  def mean(self, dim=None, skipna=None, keep_attrs=None, **kw):
    skip = self._skip(skipna)
    def f(doms, body):
      if skip:
        s = T.reduce_sv('sum', doms, lambda ks: _zero_nan(body(ks)))
        n = T.reduce_sv('sum', doms, lambda ks: T.lnot(T.isnull(body(ks))).num())
      else:
        s = T.reduce_sv('sum', doms, body)
        n = _size_sv(doms)
      return T.div(s, n)
    return self._reduce(dim, f, self.dtype if self.dtype.kind == 'f' else 'float64')

  def var(self, dim=None, ddof=0, skipna=None, keep_attrs=None, **kw):
    skip = self._skip(skipna)
    def f(doms, body):
      b = (lambda ks: body(ks)) 
      if skip:
        n = T.reduce_sv('sum', doms, lambda ks: T.lnot(T.isnull(body(ks))).num())
        m = T.div(T.reduce_sv('sum', doms, lambda ks: _zero_nan(body(ks))), n)
        def sq(ks):
          x = body(ks)
          d = T.powv(T.sub(_zero_nan(x), SV(m.k, m.v)), 2)
          return SV('f', T.If(x.nan, T.num(0), d.v), False, T.And(T.Not(x.nan), d.pinf), False)
      else:
        n = _size_sv(doms)
        m = T.div(T.reduce_sv('sum', doms, b), n)
        def sq(ks):
          x = b(ks).num()
          d = T.powv(T.sub(SV('f', x.v), SV('f', m.v)), 2)
          return SV('f', d.v, T.Or(x.nan, x.inf))
      num_ = T.reduce_sv('sum', doms, sq)
      den = T.sub(n, SV.of(ddof))
      # numpy/bottleneck: NaN when degrees of freedom <= 0
      q = T.div(num_, den)
      bad = T.Or(den.v <= 0)
      return SV('f', q.v, T.Or(num_.nan, bad), T.And(q.pinf, T.Not(bad)), T.And(q.ninf, T.Not(bad)))
    return self._reduce(dim, f, 'float64')

  def std(self, dim=None, ddof=0, skipna=None, keep_attrs=None, **kw):
    return self.var(dim, ddof=ddof, skipna=skipna)._un(T.sqrtv)

  def any(self, dim=None, **kw):
    x = self if self.dtype.kind == 'b' else self._un(T.tobool, 'bool')
    return x._reduce(dim, lambda doms, body: T.reduce_sv('any', doms, body), 'bool')

  def all(self, dim=None, **kw):
    x = self if self.dtype.kind == 'b' else self._un(T.tobool, 'bool')
    return x._reduce(dim, lambda doms, body: T.reduce_sv('all', doms, body), 'bool')

  def _minmax(self, op, dim, skipna):
    skip = self._skip(skipna)
    def f(doms, body):
      if skip:
        # require NaN-free for the symbolic reduction
        for probe in [body([T.fresh_idx(d) if not d.concrete else 0 for d in doms])]:
          if probe.nan is not False:
            raise Unsupported('min/max skipping NaN')
      return T.reduce_sv(op, doms, body)
    return self._reduce(dim, f)

  def max(self, dim=None, skipna=None, **kw):
    return self._minmax('max', dim, skipna)

  def min(self, dim=None, skipna=None, **kw):
    return self._minmax('min', dim, skipna)

  def quantile(self, q, dim=None, skipna=None, method='linear', keep_attrs=None):
    if isinstance(q, SymNum):
      q = q.sv
      if fork(T.Not(T.And(T.zb(q.real() >= 0), T.zb(q.real() <= 1)))):
        raise ValueError('Quantiles must be in the range [0, 1]')
    elif not np.isscalar(q):
      raise Unsupported('vector quantile')
    elif not 0 <= q <= 1:
      raise ValueError('Quantiles must be in the range [0, 1]')
    if method != 'linear':
      raise Unsupported('quantile method')
    if not self._skip(skipna):
      raise Unsupported('quantile(skipna=False)')
    dim = self._dimlist(dim)
    def f(doms, body):
      return quantile_sv(q if isinstance(q, SV) else float(q), doms, body)
    r = self._reduce(dim, f, 'float64')
    qc = SymDataArray(SymNum(q) if isinstance(q, SV) else np.asarray(float(q)))
    r._coords = dict(r._coords)
    qc.name = 'quantile'
    r._coords['quantile'] = qc
    return r

  def median(self, dim=None, skipna=None, **kw):
    r = self.quantile(0.5, dim, skipna)
    del r._coords['quantile']
    return r

  def prod(self, *a, **k):
    raise Unsupported('prod')

  # -- structure
  def rename(self, new=None, **names):
    if new is None and not names:
      r = self._like(self._fn)
      r.name = None
      r.const = self.const
      return r
    if isinstance(new, collections.abc.Mapping) or (names and new is None):
      m = dict(new or {}, **names)
      for k in m:
        if k not in self._dims and k not in self._coords:
          raise ValueError(f'cannot rename {k!r} because it is not a variable or dimension in this dataset')
      dims = [m.get(d, d) for d in self._dims]
      if len(set(dims)) != len(dims):
        raise ValueError('rename conflict')
      doms = {m.get(d, d): self._doms[d] for d in self._dims}
      coords = {m.get(k, k): _rename_bare(c, m) for k, c in self._coords.items()}
      fn = self._fn
      old = self._dims
      r = SymDataArray.make(dims, doms, lambda idx: fn({o: idx[m.get(o, o)] for o in old}),
                            self.dtype, self.name, coords, self.const)
      r.attrs = dict(self.attrs)
      return r
    r = self._like(self._fn)
    r.name = new
    r.const = self.const
    return r

  def as_numpy(self):
    return self

  def copy(self, deep=True, data=None):
    if data is None:
      r = self._like(self._fn)
      r.const = self.const
      if deep:
        r.owns_coords = True
      return r
    if isinstance(data, SymND):
      src = data.da
      if len(src.dims) != len(self._dims):
        raise Unsupported('copy(data) rank')
      for a, b in zip(src.dims, self._dims):
        _same_dom(src._doms[a], self._doms[b])
      ren = list(zip(src.dims, self._dims))
      sf = src._fn
      return self._like(lambda idx: sf({a: idx[b] for a, b in ren}), src.dtype)
    arr = np.asarray(data)
    if arr.shape != tuple(self._doms[d].size for d in self._dims):
      raise Unsupported('copy(data)')
    return self._like_const(arr)

  def compute(self, **kw):
    return self

  load = compute
  persist = compute
  chunk = compute

  def transpose(self, *dims, transpose_coords=True, missing_dims='raise'):
    if not dims:
      dims = self._dims[::-1]
    if Ellipsis in dims:
      rest = [d for d in self._dims if d not in dims]
      i = dims.index(Ellipsis)
      dims = tuple(dims[:i]) + tuple(rest) + tuple(dims[i + 1:])
    if set(dims) != set(self._dims):
      raise ValueError('transpose dims')
    r = self._like(self._fn, dims=dims)
    return r

  def expand_dims(self, dim=None, axis=None, **kw):
    spec = {}
    if dim is None:
      spec = kw
    elif isinstance(dim, str):
      spec = {dim: 1}
    elif isinstance(dim, collections.abc.Mapping):
      spec = dict(dim)
    else:
      spec = {d: 1 for d in dim}
    new_dims, doms, coords = [], dict(self._doms), dict(self._coords)
    for d, v in spec.items():
      if d in self._dims:
        raise ValueError(f'Dimension {d} already exists.')
      new_dims.append(d)
      if isinstance(v, SymNum):
        doms[d] = Dom(f'exp{next(_uid)}', v.zi)
        continue
      if isinstance(v, int):
        n = v
        if d in coords and not coords[d]._dims:
          sv = coords[d]
          c0 = sv._fn({})
          coords[d] = SymDataArray.make((d,), {d: const_dom(1)}, lambda idx, c0=c0: c0, sv.dtype, d, None,
                                        None if sv.const is None else sv.const.reshape(1))
        doms[d] = const_dom(n)
      else:
        if isinstance(v, SymND):
          v = v.da
        if isinstance(v, SymDataArray):
          c = v
          if c.ndim != 1:
            raise Unsupported('expand_dims')
          doms[d] = c._doms[c.dims[0]]
          coords[d] = SymDataArray.make((d,), {d: doms[d]}, (lambda idx, c=c, d=d: c._fn({c.dims[0]: idx[d]})), c.dtype, d, None, c.const)
        else:
          c = SymDataArray(list(v), dims=(d,))
          doms[d] = c._doms[d]
          coords[d] = c
    if axis is None:
      dims = new_dims + list(self._dims)
    else:
      axs = [axis] if isinstance(axis, int) else list(axis)
      dims = list(self._dims)
      total = len(dims) + len(new_dims)
      for a, d in sorted(zip([x % total for x in axs], new_dims)):
        dims.insert(a, d)
    old = self._dims
    fn = self._fn
    return self._like(lambda idx: fn({o: idx[o] for o in old}), dims=dims, doms=doms, coords=coords)

  def squeeze(self, dim=None, drop=False, axis=None):
    if dim is None:
      if any(self._doms[d].is_label for d in self._dims):
        raise Unsupported('squeeze() with label dims')
      ds = [d for d in self._dims if (self._doms[d].size == 1 if self._doms[d].concrete else fork(T.zb(self._doms[d].size == 1)))]
    else:
      ds = [dim] if isinstance(dim, str) else list(dim)
    return self.isel({d: 0 for d in ds}, drop=drop)

  def drop_vars(self, names, errors='raise'):
    names = [names] if isinstance(names, str) else list(names)
    coords = dict(self._coords)
    for n in names:
      if n not in coords:
        if errors == 'raise' and n not in self._dims:
          raise ValueError(f'{n} not in coords')
        continue
      del coords[n]
    r = self._like(self._fn, coords=coords)
    r.const = self.const
    return r

  drop = drop_vars

  def reset_coords(self, names=None, drop=False):
    if not drop:
      raise Unsupported('reset_coords')
    if names is None:
      names = [k for k in self._coords if k not in self._dims]
    return self.drop_vars(names)

  def assign_coords(self, coords=None, **kw):
    r = self.copy()
    for k, v in dict(coords or {}, **kw).items():
      if callable(v):
        v = v(self)
      r._set_coord(k, v)
    return r

  def assign_attrs(self, *a, **k):
    return self

  def broadcast_like(self, o, exclude=None):
    ex = set(exclude or ())
    dims = [d for d in o._dims if d not in ex] + [d for d in self._dims if d not in o._dims]
    doms = dict(self._doms)
    for d in o._dims:
      if d in ex:
        continue
      if d in doms:
        doms[d] = _join_dom(doms[d], o._doms[d], self._coords.get(d), o._coords.get(d), 'outer')[0]
      else:
        doms[d] = o._doms[d]
    coords = dict(self._coords)
    for k, c in o._coords.items():
      if c._dims == (k,) and k not in coords and k in dims:
        coords[k] = c
    old = self._dims
    fn = self._fn
    # dims order of xarray: self dims order broadcast against other's dims map
    # xr broadcast_like gives dims in common order: existing dims of self keep
    # being placed in the order of the union (other first is not guaranteed).
    dims = _union_dims([o if not ex else o, self]) if not ex else dims
    return self._like(lambda idx: fn({d: idx[d] for d in old}), dims=dims, doms=doms, coords=coords)

  def isel(self, indexers=None, drop=False, missing_dims='raise', **kw):
    ix = dict(indexers or {}, **kw)
    for d in ix:
      if d not in self._dims:
        raise ValueError(f'Dimensions {{{d!r}}} do not exist. Expected one or more of {self._dims}')
    r = self
    vec = {d: i for d, i in ix.items() if isinstance(i, SymDataArray) and i.dims != ()}
    for d, i in ix.items():
      if d in vec:
        continue
      r = r._isel1(d, i, drop)
    if vec:
      r = r._vec_index({d: (i, (lambda sv: _to_index(sv))) for d, i in vec.items()})
    return r

  def _isel1(self, d, i, drop):
    dom = self._doms[d]
    if dom.is_label:
      raise Unsupported('isel on label dim')
    n = dom.size
    if isinstance(i, SymDataArray):
      i = SymNum(i._fn({}))
    if isinstance(i, SymNum):
      pos = _to_index(i.sv)
      return self._pick(d, pos, drop)
    if isinstance(i, (int, np.integer)):
      i = int(i)
      if isinstance(n, int):
        if not -n <= i < n:
          raise IndexError(f'index {i} is out of bounds for axis with size {n}')
        pos = i % n
      else:
        if i >= 0:
          if not fork(n > i):
            raise IndexError('index out of bounds')
          pos = z3.IntVal(i)
        else:
          if not fork(n >= -i):
            raise IndexError('index out of bounds')
          pos = n + i
      return self._pick(d, pos, drop)
    if isinstance(i, slice):
      if isinstance(n, int) and all(x is None or isinstance(x, (int, np.integer)) for x in (i.start, i.stop, i.step)):
        return self._take(d, list(range(n))[i])
      if i.start is None and i.stop is None and i.step is None:
        return self
      if i.step is None or isinstance(i.step, int) and i.step == 1:
        a = 0 if i.start is None else i.start
        b = i.stop
        if isinstance(a, int) and a >= 0 and b is None:
          if not fork(n >= a):
            raise Unsupported('short slice')
          nd = Dom(f'{dom.key}[{a}:]', n - a, parent=(dom, z3.IntVal(a)))
          return self._shifted(d, nd, a)
        if a == 0 and isinstance(b, int) and b < 0:
          if not fork(n >= -b):
            raise Unsupported('short slice')
          nd = Dom(f'{dom.key}[:{b}]', n + b, parent=(dom, z3.IntVal(0)))
          return self._shifted(d, nd, 0)
        ends = [_slice_end(x, n) for x in (0 if i.start is None else i.start, n if i.stop is None else i.stop)]
        if None not in ends:
          lo, hi = ends
          if not fork(T.zb(lo <= hi)):
            hi = lo
          size = z3.simplify(T.zi(hi) - T.zi(lo))
          if z3.is_int_value(size):
            nd = const_dom(size.as_long())
          else:
            nd = Dom(f'{dom.key}[{T.zi(lo).sexpr()}:{T.zi(hi).sexpr()}]', size, parent=(dom, T.zi(lo)))
          return self._shifted(d, nd, lo)
      if i.start is None and i.stop is None and i.step == -1:
        nd = Dom(f'{dom.key}[rev]', n)
        return self._remap(d, nd, lambda k: n - 1 - k)
      if i.start is None and i.stop is None and isinstance(i.step, int) and i.step > 1:
        nd = Dom(f'{dom.key}[::{i.step}]', z3.simplify((T.zi(n) + (i.step - 1)) / i.step))
        return self._remap(d, nd, lambda k: k * i.step)
      raise Unsupported(f'slice {i}')
    if isinstance(i, (list, np.ndarray)):
      arr = np.asarray(i)
      if arr.ndim == 1 and isinstance(n, int):
        if arr.dtype.kind == 'b':
          arr = np.nonzero(arr)[0]
        return self._take(d, [int(x) % n for x in arr])
      if arr.ndim == 1 and arr.dtype.kind in 'iu':
        pos = []
        for x in arr.tolist():
          if not fork(n >= (x + 1 if x >= 0 else -x)):
            raise IndexError('index out of bounds')
          pos.append(z3.IntVal(x) if x >= 0 else n + x)
        return self._remap(d, const_dom(len(pos)), lambda k: pos[k] if isinstance(k, int) else _pick_term(pos, k))
    raise Unsupported(f'isel with {type(i)}')

  def _shifted(self, d, nd, off):
    return self._remap(d, nd, lambda k: k + off)

  def _remap(self, d, nd, m):
    fn = self._fn
    doms = dict(self._doms)
    doms[d] = nd
    coords = {}
    for k, c in self._coords.items():
      if d in c._dims:
        cf = c._fn
        cd = dict(c._doms)
        cd[d] = nd
        coords[k] = SymDataArray.make(c._dims, cd, (lambda idx, cf=cf: cf({**idx, d: m(idx[d])})), c.dtype, k)
      else:
        coords[k] = c
    return self._like(lambda idx: fn({**idx, d: m(idx[d])}), doms=doms, coords=coords)

  def _take(self, d, positions):
    nd = const_dom(len(positions))
    def m(k):
      if isinstance(k, int):
        return positions[k]
      out = z3.IntVal(positions[-1])
      for j in range(len(positions) - 2, -1, -1):
        out = z3.If(k == j, z3.IntVal(positions[j]), out)
      return out
    r = self._remap(d, nd, m)
    if self.const is not None:
      r.const = np.take(self.const, positions, axis=self._dims.index(d))
    for k, c in list(r._coords.items()):
      oc = self._coords[k]
      if d in c._dims and oc.const is not None:
        r._coords[k] = SymDataArray.make(c._dims, c._doms, c._fn, c.dtype, k, None,
                                         np.take(oc.const, positions, axis=c._dims.index(d)))
    return r

  def _pick(self, d, pos, drop):
    fn = self._fn
    dims = [x for x in self._dims if x != d]
    coords = {}
    for k, c in self._coords.items():
      if d in c._dims:
        if k == d and drop:
          continue
        cf = c._fn
        cdims = [x for x in c._dims if x != d]
        if drop and c._dims == (d,):
          continue
        cc = None
        if c.const is not None and isinstance(pos, int):
          cc = np.take(c.const, pos, axis=c._dims.index(d))
        coords[k] = SymDataArray.make(cdims, c._doms, (lambda idx, cf=cf: cf({**idx, d: pos})), c.dtype, k, None, cc)
      else:
        coords[k] = c
    r = self._like(lambda idx: fn({**idx, d: pos}), dims=dims,
                   doms={x: self._doms[x] for x in dims}, coords=coords)
    if self.const is not None and isinstance(pos, int):
      r.const = np.take(self.const, pos, axis=self._dims.index(d))
    return r

  def _vec_index(self, vec):
    """vec: dim -> (indexer SymDataArray, SV -> index expr)."""
    ixs = [i for i, _ in vec.values()]
    idims, idoms = [], {}
    for i in ixs:
      for x in i._dims:
        if x in idoms:
          idoms[x] = _join_dom(idoms[x], i._doms[x], None, None, 'exact')[0]
        else:
          idims.append(x)
          idoms[x] = i._doms[x]
    dims = []
    placed = False
    for d in self._dims:
      if d in vec:
        if not placed:
          dims += [x for x in idims if x not in dims]
          placed = True
      elif d not in dims:
        dims.append(d)
    doms = {}
    for d in dims:
      if d in idoms:
        doms[d] = idoms[d]
        if d in self._doms and d not in vec:
          _same_dom(self._doms[d], idoms[d])
      else:
        doms[d] = self._doms[d]
    old = self._dims
    def m(idx, ds):
      out = {}
      for d in ds:
        if d in vec:
          i, conv = vec[d]
          out[d] = conv(i._fn({x: idx[x] for x in i._dims}))
        else:
          out[d] = idx[d]
      return out
    fn = self._fn
    coords = {}
    for k, c in self._coords.items():
      if set(c._dims) & set(vec):
        cf = c._fn
        cdims = []
        for x in c._dims:
          for y in (vec[x][0]._dims if x in vec else (x,)):
            if y not in cdims:
              cdims.append(y)
        coords[k] = SymDataArray.make(cdims, doms, (lambda idx, cf=cf, c=c: cf(m(idx, c._dims))), c.dtype, k)
      else:
        coords[k] = c
    for i in ixs:
      for k, c in i._coords.items():
        if k not in coords or k in vec:
          if k in vec and k in coords:
            continue
          coords[k] = c
    for d, (i, conv) in vec.items():
      if getattr(self._coords.get(d), 'index_pos', None) is conv:
        # an exact match: the labels selected are the labels asked for
        coords[d] = SymDataArray.make(i._dims, doms, i._fn, self._coords[d].dtype, d, None, i.const)
        continue
      if d not in coords and self._doms[d].is_label:
        if d in dims and i._dims != (d,):
          continue
        coords[d] = SymDataArray.make(i._dims, i._doms, i._fn, i.dtype, d)
    return self._like(lambda idx: fn(m(idx, old)), dims=dims, doms=doms, coords=coords)

  def sortby(self, variables, ascending=True):
    """Labels get into their order; the element at each label stays the same."""
    ds = [variables] if isinstance(variables, str) else variables
    if not isinstance(ds, (list, tuple)) or not all(isinstance(d, str) and d in self._dims for d in ds):
      raise Unsupported('sortby')
    r = self
    for d in ds:
      dom = r._doms[d]
      if not dom.is_label:
        raise Unsupported('sortby a positional dimension')
      nd = Dom(dom.key if not dom.unsorted else f'{dom.key}!', None, dom.pred)
      nd.unsorted = ascending is not True
      r = r._remap(d, nd, lambda k: k)
    return r

  def sel(self, indexers=None, method=None, tolerance=None, drop=False, **kw):
    ix = dict(indexers or {}, **kw)
    if method is not None or tolerance is not None:
      raise Unsupported('inexact sel')
    r = self
    vec = {}
    for d, v in ix.items():
      if isinstance(v, SymND):
        if v.ndim == 0:
          v = SymNum(v.da._fn({}))
        elif v.ndim == 1 and d in self._dims:
          v = v.da.rename({v.da._dims[0]: d}) if v.da._dims[0] != d else v.da.copy()
          v._coords = {}
        else:
          raise Unsupported('array indexer')
      if d not in self._dims:
        raise KeyError(f'{d!r} is not a valid dimension or coordinate')
      dom = self._doms[d]
      if isinstance(v, SymDataArray) and v.dims != ():
        if dom.is_label:
          vec[d] = (v, _to_label)
          continue
        pos = getattr(self._coords.get(d), 'index_pos', None)
        if pos is not None and not (v.dims == (d,) and v._doms[d].key == dom.key and getattr(v, 'src', None) == getattr(self._coords[d], 'src', 0)):
          _require_labels(self._coords[d], v)
          vec[d] = (v, pos)
          continue
        if v.dims == (d,) and v._doms[d].key == dom.key and d in self._coords and getattr(v, 'src', None) == getattr(self._coords[d], 'src', 0):
          continue  # selecting with its own index: identity
        raise Unsupported('vectorised sel on positional dim')
      if isinstance(v, SymDataArray):
        v = v.const.item() if v.const is not None else SymNum(v._fn({}))
      if dom.is_label and isinstance(v, slice):
        if v.step is not None:
          raise Unsupported('label slice with a step')
        if dom.unsorted:
          raise Unsupported('slice of labels in an unknown order')
        ends = [None if x is None else _to_label(SV.of(x)) for x in (v.start, v.stop)]
        nd = label_slice(dom, *ends)
        r = r._remap(d, nd, lambda k: k)
        continue
      if dom.is_label:
        lab = _to_label(SV.of(v))
        r = r._pick(d, lab, drop)
        continue
      c = self._coords.get(d)
      if getattr(c, 'index_pos', None) is not None and not isinstance(v, slice) and np.ndim(v) == 0:
        _require_labels(c, SymDataArray(SymNum(SV.of(v))))
        r = r._pick(d, c.index_pos(SV.of(v)), drop)
        continue
      if getattr(c, 'index_pos', None) is not None and isinstance(v, (list, np.ndarray)) and np.ndim(v) == 1:
        v = SymDataArray(np.asarray(v), dims=(d,))
        _require_labels(c, v)
        vec[d] = (v, c.index_pos)
        continue
      if c is None or c.const is None:
        raise Unsupported('sel on a symbolic index')
      labels = c.const
      if isinstance(v, slice):
        import pandas as pd
        sl = pd.Index(labels).slice_indexer(v.start, v.stop, v.step)
        r = r._isel1(d, sl, drop)
      elif np.ndim(v) == 0:
        pos = np.nonzero(labels == v)[0]
        if len(pos) == 0:
          raise KeyError(v)
        r = r._isel1(d, int(pos[0]), drop)
      else:
        pos = []
        for x in np.asarray(v):
          p = np.nonzero(labels == x)[0]
          if len(p) == 0:
            raise KeyError(x)
          pos.append(int(p[0]))
        r = r._take(d, pos)
    if vec:
      r = r._vec_index(vec)
    return r

  def interp(self, coords=None, method='linear', assume_sorted=False, kwargs=None, method_non_numeric='nearest', **kw):
    """Assumed contract of xarray's linear and nearest interpolation (distinct finite labels and targets)."""
    ix = dict(coords or {}, **kw)
    if method not in ('linear', 'nearest'):
      raise Unsupported(f'interp method {method}')
    targets = {}
    for d, v in ix.items():
      if d not in self._dims:
        raise ValueError(f'Dimensions {{{d!r}}} do not exist. Expected one or more of {self._dims}')
      if isinstance(v, SymND):
        v = v.da
        if v.ndim > 1:
          raise Unsupported('interp target')
        v = v.rename({v._dims[0]: d}) if v.ndim and v._dims[0] != d else v
        v._coords = {}
      elif not isinstance(v, SymDataArray):
        arr = np.asarray(v)
        v = SymDataArray(arr, dims=(d,) if arr.ndim else ())
      if v.dtype.kind not in 'fiu':
        raise Unsupported('interp over times')
      targets[d] = v
    tdims = {d: set(v._dims or (d,)) for d, v in targets.items()}
    r, group = self, []
    ds = list(targets)
    for n, d in enumerate(ds):
      group.append(d)
      rest = set().union(*[tdims[x] for x in ds[n + 1:]])
      if n == len(ds) - 1 or not set().union(*[tdims[x] for x in group]) & rest:
        r = r._interp_group({x: targets[x] for x in group}, method, dict(kwargs or {}))
        group = []
    cs = dict(r._coords)
    for d, v in targets.items():
      for k, c in v._coords.items():
        if k not in self._coords and k not in targets and k not in cs and set(c._dims) <= set(r._dims):
          cs[k] = c
    for d, v in targets.items():
      c = SymDataArray.make(v._dims, {x: r._doms[x] for x in v._dims}, v._fn, v.dtype, d, None, v.const)
      c.src = getattr(v, 'src', v.uid)
      cs[d] = c
    r = r._like(r._fn, coords=cs, dtype=r.dtype)
    return r

  def _interp_group(self, targets, method, kwargs):
    fv = kwargs.pop('fill_value', 'absent')
    if kwargs:
      raise Unsupported('interp options')
    if isinstance(fv, float) and np.isnan(fv):
      fv = 'absent'
    if not (fv is None or isinstance(fv, str) and fv in ('absent', 'extrapolate')):
      raise Unsupported('fill_value')
    if len(targets) > 1 and fv == 'extrapolate':
      raise ValueError('fill_value')
    outside = fv == 'extrapolate' or len(targets) > 1 and fv is None
    doms = dict(self._doms)
    tds = []
    for v in targets.values():
      for x in v._dims:
        if x in tds or (x in self._dims and x not in targets):
          _same_dom(doms[x], v._doms[x])
        if x not in tds:
          tds.append(x)
          doms[x] = v._doms[x]
    cells = {}
    for d, v in targets.items():
      dom = self._doms[d]
      if dom.is_label:
        raise Unsupported('interp over labels')
      c = self._coord_da(d)
      if dom.concrete:
        if method == 'linear' and dom.size < 2:
          raise Unsupported('interp over a single point')
      elif not fork(dom.size >= (2 if method == 'linear' else 1)):
        raise Unsupported('interp over too few points')
      at = lambda k, c=c, d=d: _finite(c._fn({d: k}))
      if fork(T.zb(T.reduce_sv('any', [dom, dom], lambda kk, at=at: SV('b', T.zb(T.And(T.zb(T.zi(kk[0]) != T.zi(kk[1])), at(kk[0]) == at(kk[1]))))).v)):
        raise ValueError('Index has duplicate keys')
      query = lambda args, v=v: _finite(v._fn(dict(zip(v._dims, args))))
      # the same labels and targets give the same positions
      uid = _content(method, dom.key, at(z3.Int('PLACE!k')), query([z3.Int(f'PLACE!{n}') for n in range(len(v._dims))]))
      if method == 'linear':
        def facts(args, t, at=at, query=query):
          q, lo, hi = query(args), at(t[0]), at(t[1])
          w = (q - lo) / (hi - lo)
          return [lo < hi, z3.Implies(q == lo, w == 0), z3.Implies(q == hi, w == 1)]
        def every(args, t, k, at=at, query=query):
          q, lo, hi, x = query(args), at(t[0]), at(t[1]), at(k)
          return z3.And(z3.Or(x <= lo, x >= hi), z3.Implies(q < lo, x >= lo), z3.Implies(q > hi, x <= hi))
        ch = T.Choice([f'CELL!{uid}!{d}!lo', f'CELL!{uid}!{d}!hi'], dom, facts, every)
      else:
        def facts(args, t):
          return []
        def every(args, t, k, at=at, query=query):
          q = query(args)
          a, b = at(t[0]) - q, at(k) - q
          return z3.If(a >= 0, a, -a) <= z3.If(b >= 0, b, -b)
        ch = T.Choice([f'CELL!{uid}!{d}'], dom, facts, every)
      cells[d] = (ch, at, query, v._dims)
    unspec = next(_uid)
    def value(fn, own):
      own = set(own)
      use = {d: x for d, x in cells.items() if d in own}
      def f(idx):
        base = {d: idx[d] for d in own if d not in use}
        corners = [(T.num(1), dict(base))]
        inr, knot = True, False
        for d, (ch, at, query, vd) in use.items():
          args = [T.zi(idx[x]) for x in vd]
          t = ch.terms(args)
          q = query(args)
          if method == 'linear':
            lo, hi = at(t[0]), at(t[1])
            w = (q - lo) / (hi - lo)
            corners = [c for p, s in corners for c in ((_rmul(p, 1 - w), {**s, d: t[0]}), (_rmul(p, w), {**s, d: t[1]}))]
            inr = T.And(inr, z3.And(lo <= q, q <= hi))
            knot = T.Or(knot, z3.Or(q == lo, q == hi))
          else:
            corners = [(p, {**s, d: t[0]}) for p, s in corners]
            dom = ch.dom
            inr = T.And(inr, T.zb(T.reduce_sv('any', [dom], lambda kk, at=at, q=q: SV('b', at(kk[0]) <= q)).v),
                        T.zb(T.reduce_sv('any', [dom], lambda kk, at=at, q=q: SV('b', at(kk[0]) >= q)).v))
        vals = [(p, fn(s).num()) for p, s in corners]
        if any(x.inf is not False for _, x in vals):
          raise Unsupported('interp of infinities')
        tot = None
        for p, x in vals:
          y = _rmul(p, x.real())
          tot = y if tot is None else tot + y
        anynan = T.Or(*[x.nan for _, x in vals])
        allnan = T.And(*[x.nan for _, x in vals])
        if anynan is False:
          nan = False
        else:
          # exactly at a grid point, a missing neighbour may or may not make the result missing
          args = [T.zi(idx[x]) for x in tds] or [z3.IntVal(0)]
          free = z3.Function(f'UNSPEC!{unspec}', *([T.I] * len(args)), T.B)(*args)
          nan = T.Or(allnan, T.And(anynan, T.Or(T.Not(knot), free)))
        if not outside:
          nan = T.Or(nan, T.Not(inr))
        return SV('f', tot, nan)
      return f
    def newdims(ds):
      out = []
      for d in ds:
        for x in (targets[d]._dims if d in targets else (d,)):
          if x not in out:
            out.append(x)
      return out
    coords = {}
    for k, c in self._coords.items():
      if k in targets:
        continue
      if set(c._dims) & set(targets):
        if c.dtype.kind not in 'fiu':
          raise Unsupported('interp of a coordinate that is not numeric')
        nds = newdims(c._dims)
        coords[k] = SymDataArray.make(nds, {x: doms[x] for x in nds}, value(c._fn, c._dims), 'float64', k)
      else:
        coords[k] = c
    dims = newdims(self._dims)
    return self._like(value(self._fn, self._dims), dims=dims, doms={x: doms[x] for x in dims}, coords=coords,
                      dtype=self.dtype if self.dtype.kind == 'f' else 'float64')

  def diff(self, dim, n=1, label='upper'):
    if n != 1:
      raise Unsupported('diff n')
    hi = self.isel({dim: slice(1, None)})
    lo = self.isel({dim: slice(None, -1)})
    f1, f2 = hi._fn, lo._fn
    base = hi if label == 'upper' else lo
    return base._like(lambda idx: T.sub(f1(idx), f2(idx)))

  def shift(self, shifts=None, fill_value=None, **kw):
    sh = dict(shifts or {}, **kw)
    r = self
    for d, s in sh.items():
      fn = r._fn
      dom = r._doms[d]
      fv = SV.of(float('nan') if fill_value is None else fill_value)
      def g(idx, fn=fn, d=d, s=s, dom=dom):
        k = idx[d]
        p = k - s
        if isinstance(p, int) and dom.concrete:
          return fn({**idx, d: p}) if 0 <= p < dom.size else fv
        return T.ite(dom.guard(p), fn({**idx, d: p}), fv)
      r = r._like(g)
    return r

  def dot(self, other, dim=None):
    return dot(self, other, dim=dim)

  def to_dataset(self, dim=None, name=None, **kw):
    if dim is not None:
      raise Unsupported('to_dataset(dim)')
    return SymDataset({name or self.name: self})

  @property
  def dt(self):
    return (_SymTimedeltaAccessor if self.dtype.kind == 'm' else _SymDatetimeAccessor)(self)

  def equals(self, o):
    if self.const is not None and o.const is not None:
      return self.dims == o.dims and np.array_equal(self.const, o.const)
    raise Unsupported('equals')

  def pipe(self, f, *a, **k):
    return f(self, *a, **k)

  def map_blocks(self, *a, **k):
    raise Unsupported('map_blocks')


_KNOWN_MISSING = {
    'stack', 'unstack', 'interp', 'reindex', 'groupby', 'rolling', 'argmax',
    'argmin', 'argsort', 'rank', 'cumsum', 'pad', 'roll', 'coarsen', 'resample',
    'swap_dims', 'set_index', 'reset_index', 'to_index', 'sortby', 'dropna',
    'ffill', 'bfill', 'to_series', 'to_dataframe', 'combine_first', 'nbytes',
    'chunks', 'real', 'imag', 'conj', 'round', 'T', 'plot', 'str', 'reduce',
    'thin', 'head', 'tail', 'unify_chunks', 'cumprod', 'polyfit', 'weighted',
    'interp_like', 'reindex_like', 'to_pandas', 'variable', 'loc', 'idxmax',
    'idxmin', 'differentiate', 'integrate', 'sel_points', 'to_dict', 'drop_sel',
    'drop_isel', 'drop_duplicates', 'query', 'groupby_bins', 'broadcast_equals',
    'identical', 'get_index', 'get_axis_num', 'to_unstacked_dataset', 'sizes_',
    'rename_axis', 'swapaxes', 'flatten', 'ravel', 'reshape', 'nonzero', 'searchsorted'}


class DtAccessor:

  def __init__(self, da):
    self._da = da
    if da.dtype.kind not in 'Mm':
      raise AttributeError("Can only use .dt accessor with datetimelike values")

  def _m(self, f, name):
    da = self._da
    fn = da._fn
    r = da._like(lambda idx: SV('i', z3.ToReal(f(fn(idx).v))), 'int64')
    r.name = name
    return r

  @property
  def dayofyear(self):
    if self._da.dtype.kind == 'm':
      raise AttributeError('dayofyear')
    return self._m(T.DOY, 'dayofyear')

  @property
  def hour(self):
    if self._da.dtype.kind == 'm':
      raise AttributeError('hour')
    return self._m(T.HOUR, 'hour')

  @property
  def minute(self):
    if self._da.dtype.kind == 'm':
      raise AttributeError('minute')
    return self._m(T.MINUTE, 'minute')

  def total_seconds(self):
    da = self._da
    fn = da._fn
    return da._like(lambda idx: SV('f', z3.ToReal(fn(idx).v)), 'float64')

  def __getattr__(self, k):
    raise Unsupported(f'dt.{k}')


class _SymTimedeltaAccessor(DtAccessor, _accessor_dt.TimedeltaAccessor):
  pass


class _SymDatetimeAccessor(DtAccessor, _accessor_dt.DatetimeAccessor):
  pass


class SymND:
  """Positional (ndarray) view of a SymDataArray."""

  __array_priority__ = 2000

  def __init__(self, da):
    self.da = _canon_doms(da)

  @property
  def shape(self):
    return self.da.shape

  @property
  def ndim(self):
    return self.da.ndim

  @property
  def dtype(self):
    return self.da.dtype

  @property
  def size(self):
    return self.da.size

  def astype(self, dt, **k):
    dt = np.dtype(dt)
    src = self.da
    if src.dtype.kind in 'mM' and src.const is None and (dt.kind in 'iu' or dt.kind in 'mM'):
      # plain numpy conversion between counts and time units
      per = _UNIT.get(np.datetime_data(dt if dt.kind in 'mM' else src.dtype)[0])
      if per is None or dt.kind not in 'iu' + src.dtype.kind or (dt.kind in 'mM' and np.datetime_data(dt)[1] != 1):
        raise Unsupported(f'cast {src.dtype} to {dt}')
      fn = src._fn
      def conv(idx):
        v = fn(idx)
        if dt.kind in 'iu':
          if not z3.is_false(T.zb(v.nan)):
            raise Unsupported('cast of NaT to int')
          n = v.v
          n = n / per if per >= 1 else n * int(round(1 / per))
          return SV('i', z3.ToReal(T.zi(n)))
        return SV(v.k, (T.zi(v.v) / per) * per if per > 1 else v.v, v.nan)
      r = SymND(SymDataArray.make(src._dims, src._doms, conv, dt))
    else:
      r = SymND(src.astype(dt))
    r.owned = True
    return r

  def copy(self):
    r = SymND(self.da)
    r.owned = True
    return r

  def reshape(self, *shape):
    return _nd_reshape(self, tuple(shape[0]) if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape)

  def argsort(self, axis=-1, **k):
    return _np_argsort(self, axis, **k)

  def swapaxes(self, i, j):
    return np_function('swapaxes', self, i, j)

  def __setitem__(self, k, v):
    """Assignment of a scalar to a block; only on arrays nothing else can see."""
    if not getattr(self, 'owned', False) or isinstance(v, (SymND, SymDataArray, list, np.ndarray)):
      raise Unsupported('in-place assignment')
    if not isinstance(k, tuple):
      k = (k,)
    if len(k) > len(self.da._dims) or not all(isinstance(x, slice) and x.step in (None, 1) for x in k):
      raise Unsupported('in-place assignment')
    rng = []
    for d, x in zip(self.da._dims, k):
      n = self.da._doms[d].size
      a = 0 if x.start is None else _slice_end(x.start, n)
      e = n if x.stop is None else _slice_end(x.stop, n)
      if a is None or e is None:
        raise Unsupported('in-place assignment')
      rng.append((d, a, e))
    old, val = self.da._fn, _scalar(v)
    def fn(idx):
      inside = T.And(*[T.And(T.zb(T.zi(a) <= T.zi(idx[d])), T.zb(T.zi(idx[d]) < T.zi(e))) for d, a, e in rng])
      return T.ite(inside, _cast(val, self.dtype), old(idx))
    da = self.da
    self.da = SymDataArray.make(da._dims, da._doms, fn, da.dtype)

  def __array__(self, *a, **k):
    raise Unsupported('symbolic array converted to a concrete numpy array')

  def __array_ufunc__(self, ufunc, method, *inputs, **kw):
    if method != '__call__':
      raise Unsupported('ufunc method')
    return _nd_apply(lambda *a: apply_named_ufunc(ufunc.__name__, *a), *inputs)

  def __array_function__(self, func, types, args, kwargs):
    return np_function(func.__name__, *args, **kwargs)

  def __getitem__(self, k):
    if not isinstance(k, tuple):
      k = (k,)
    if sum(x is Ellipsis for x in k) == 1:
      p = next(i for i, x in enumerate(k) if x is Ellipsis)
      k = k[:p] + (slice(None),) * (len(self.da.dims) - len(k) + 1) + k[p + 1:]
    if any(x is Ellipsis for x in k):
      raise Unsupported('newaxis')
    if any(x is None for x in k):
      return _nd_newaxis(self, k)
    r = self.da.isel(dict(zip(self.da.dims, k)))
    r._coords = {}
    if r.ndim == 0:
      return SymNum(r._fn({}))
    return SymND(r)

  def __iter__(self):
    for x in self.da:
      yield SymNum(x._fn({})) if x.ndim == 0 else SymND(x)

  def __len__(self):
    return len(self.da)

  def __add__(self, o):
    return _nd_apply(lambda a, b: a + b, self, o)

  def __radd__(self, o):
    return _nd_apply(lambda a, b: a + b, o, self)

  def __sub__(self, o):
    return _nd_apply(lambda a, b: a - b, self, o)

  def __rsub__(self, o):
    return _nd_apply(lambda a, b: a - b, o, self)

  def __mul__(self, o):
    return _nd_apply(lambda a, b: a * b, self, o)

  __rmul__ = __mul__

  def __truediv__(self, o):
    return _nd_apply(lambda a, b: a / b, self, o)

  def __rtruediv__(self, o):
    return _nd_apply(lambda a, b: a / b, o, self)

  def __mod__(self, o):
    return _nd_apply(lambda a, b: a % b, self, o)

  def __floordiv__(self, o):
    return _nd_apply(lambda a, b: a // b, self, o)

  def __neg__(self):
    return SymND(-self.da)

  def __lt__(self, o):
    return _nd_apply(lambda a, b: a < b, self, o)

  def __le__(self, o):
    return _nd_apply(lambda a, b: a <= b, self, o)

  def __gt__(self, o):
    return _nd_apply(lambda a, b: a > b, self, o)

  def __ge__(self, o):
    return _nd_apply(lambda a, b: a >= b, self, o)

  def __pow__(self, n):
    return _nd_apply(lambda a: a ** n, self)

  def __neg__(self):
    return _nd_apply(lambda a: -a, self)

  def __invert__(self):
    return _nd_apply(lambda a: ~a, self)

  def __and__(self, o):
    return _nd_apply(lambda a, b: a & b, self, o)

  def __rand__(self, o):
    return _nd_apply(lambda a, b: a & b, self, o)

  def __or__(self, o):
    return _nd_apply(lambda a, b: a | b, self, o)

  def __ror__(self, o):
    return _nd_apply(lambda a, b: a | b, self, o)

  def _reduce(self, name, axis, k):
    if k:
      raise Unsupported(f'ndarray.{name} options')
    return np_function(name, self, **({} if axis is None else {'axis': axis}))

  def sum(self, axis=None, **k):
    return self._reduce('sum', axis, k)

  def mean(self, axis=None, **k):
    return self._reduce('mean', axis, k)

  def max(self, axis=None, **k):
    return self._reduce('max', axis, k)

  def min(self, axis=None, **k):
    return self._reduce('min', axis, k)

  def any(self, axis=None, **k):
    return self._reduce('any', axis, k)

  def all(self, axis=None, **k):
    return self._reduce('all', axis, k)

  @property
  def T(self):
    return np_function('transpose', self)

  def transpose(self, *axes):
    return np_function('transpose', self, *([axes[0] if len(axes) == 1 and isinstance(axes[0], (tuple, list)) else axes] if axes else []))

  def __abs__(self):
    return _nd_apply(abs, self)

  def __eq__(self, o):
    return _nd_apply(lambda a, b: a == b, self, o)

  def __ne__(self, o):
    return _nd_apply(lambda a, b: a != b, self, o)

  def __getattr__(self, k):
    if k in ('dims', 'coords', 'name', 'attrs', 'indexes', 'sizes'):
      raise AttributeError(k)   # not an ndarray attribute
    raise Unsupported(f'ndarray.{k} on symbolic array')

  __hash__ = None


_UNIT = {'s': 1, 'm': 60, 'h': 3600, 'D': 86400, 'W': 7 * 86400, 'ms': 1e-3, 'us': 1e-6, 'ns': 1e-9}

_canon = {}


def size_dom(size):
  return _canon.setdefault(size.sexpr(), Dom(f'len({size.sexpr()})', size))


def _canon_doms(da):
  """Plain arrays have no labels: a dimension is determined by its size."""
  doms = {}
  for d in da._dims:
    dom = da._doms[d]
    if not dom.is_label and not isinstance(dom.size, int):
      size = z3.simplify(dom.size)
      if z3.is_int_value(size):
        dom = const_dom(size.as_long())
      elif z3.is_const(size) and str(size).startswith('n_') and f'd_{str(size)[2:]}' in T._doms:
        dom = T._doms[f'd_{str(size)[2:]}']
      else:
        dom = size_dom(size)
    doms[d] = dom
  if all(doms[d] is da._doms[d] for d in doms):
    return da
  r = SymDataArray.make(da._dims, doms, da._fn, da.dtype, da.name, None, da.const)
  return r


def _slice_end(x, n):
  """Slice endpoint clipped to [0, n] as Python does; None if not an integer."""
  if isinstance(x, SymNum):
    x = x.zi
  if isinstance(x, (np.integer, int)) and not isinstance(x, bool):
    x = int(x)
  elif not (z3.is_expr(x) and x.sort() == T.I):
    return None
  if isinstance(x, int) and isinstance(n, int):
    return slice(0, x).indices(n)[1]
  if x is n:
    return n
  if fork(T.zb(T.zi(x) < 0)):
    x = T.zi(x) + n
    if fork(T.zb(x < 0)):
      return 0
    return x
  if fork(T.zb(T.zi(x) > T.zi(n))):
    return n
  return x


def _nd_apply(f, *args):
  """numpy semantics on SymND args (trailing axes go together, axes of size one are repeated), or scalars."""
  arrays = [a.da for a in args if isinstance(a, SymND)]
  rank = max(a.ndim for a in arrays)
  dims = [None] * rank
  axis = lambda da, p: p - (rank - da.ndim)
  dom = lambda da, p: da._doms[da._dims[axis(da, p)]]
  conv = []
  for a in args:
    if isinstance(a, SymND):
      off = rank - a.da.ndim
      r = a.da.rename({d: f'#{i + off}' for i, d in enumerate(a.da.dims)})
      r._coords = {}
      for p in range(off, rank):
        d = r._doms[f'#{p}']
        if d.concrete and d.size == 1 and any(dom(x, p).key != d.key for x in arrays if axis(x, p) >= 0):
          r = r.isel({f'#{p}': 0}, drop=True)
      conv.append(r)
    else:
      conv.append(a)
  out = f(*conv)
  if set(out.dims) != {f'#{i}' for i in range(len(dims))}:
    raise Unsupported('numpy broadcasting of symbolic arrays')
  out = out.transpose(*[f'#{i}' for i in range(len(dims))])
  out = out.rename({f'#{i}': f'ax{i}' for i in range(len(dims))})
  r = SymND(out)
  r.owned = True
  return r


def _to_index(sv):
  v = z3.simplify(z3.ToInt(sv.real()))
  return v


def label_slice(dom, lo, hi):
  """The labels of `dom` in [lo, hi] (of a sorted index)."""
  old = dom.pred
  def pred(i):
    return T.And(old(i), True if lo is None else T.zb(i >= lo), True if hi is None else T.zb(i <= hi))
  name = lambda x: x.sexpr() if z3.is_expr(x) else str(x)
  return Dom(f'{dom.key}[{name(lo)}..{name(hi)}]', None, pred)


def _require_labels(c, v):
  """Selecting labels that are not in the index raises."""
  has = getattr(c, 'index_has', None)
  if has is None:
    return
  dims = list(v._dims)
  miss = T.reduce_sv('any', [v._doms[d] for d in dims], lambda ks: SV('b', T.Not(has(v._fn(dict(zip(dims, ks)))))))
  if fork(T.zb(T.tobool(miss).v)):
    raise KeyError('not all values found in index')


def _to_label(sv):
  if sv.k in 'Mm':
    return sv.v
  v = sv.real()
  if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
    return v.arg(0)
  return z3.ToInt(v)


def _size_sv(doms):
  out = SV.of(1)
  for d in doms:
    if d.is_label:
      raise Unsupported('size of label dim')
    out = T.mul(out, SV.of(d.size) if isinstance(d.size, int) else SV('i', z3.ToReal(d.size)))
  return out


def quantile_sv(q, doms, body):
  """Linear-interpolation quantile of the present values: an uninterpreted function of the whole slice."""
  ks = [T.fresh_idx(d) for d in doms]
  if any(d.concrete for d in doms):
    raise Unsupported('quantile over concrete dim')
  v = body(ks).num()
  if v.inf is not False:
    raise Unsupported('quantile of inf')
  allnan = T.Not(T.any_bool(ks, doms, T.Not(v.nan)))
  bodies = [T.zb(v.nan), T.If(v.nan, T.num(0), v.v)]
  if isinstance(q, SV):
    if q.num().nan is not False or q.num().inf is not False:
      raise Unsupported('missing quantile level')
    a = T.make_atom('Q:?', doms, ks, bodies + [q.real()], T.R)
  else:
    a = T.make_atom(f'Q:{q!r}', doms, ks, bodies, T.R)
  return SV('f', a, allnan)


def _finite(sv):
  """The value of a label or target, which must be a finite number."""
  if sv.nan is not False or sv.inf is not False:
    raise Unsupported('interp with missing labels or targets')
  return sv.real()


def _rmul(p, x):
  if z3.is_rational_value(p) and p.as_fraction() == 1:
    return x
  return p * x


def _zero_nan(x):
  x = x.num()
  return SV(x.k, T.If(x.nan, T.num(0), x.v) if x.nan is not False else x.v, False, x.pinf, x.ninf)


def _scalar(x):
  if isinstance(x, SymDataArray):
    return x._fn({})
  return SV.of(x)


def _pick_term(terms, k):
  out = terms[-1]
  for j in range(len(terms) - 2, -1, -1):
    out = z3.If(k == j, terms[j], out)
  return out


def _select(svs, i):
  if isinstance(i, int):
    return svs[i]
  i = z3.simplify(i)
  if z3.is_int_value(i):
    return svs[min(max(i.as_long(), 0), len(svs) - 1)]
  out = svs[-1]
  for j in range(len(svs) - 2, -1, -1):
    out = T.ite(i == j, svs[j], out)
  return out


def _const_fn(arr, dims):
  def fn(idx):
    return _nested(arr, [idx[d] for d in dims])
  return fn


def _nested(arr, ix):
  if not ix:
    x = arr[()] if isinstance(arr, np.ndarray) else arr
    return SV.of(x)
  i = ix[0]
  if not isinstance(i, int):
    i = z3.simplify(i)
    if z3.is_int_value(i):
      i = i.as_long()
  if isinstance(i, int):
    return _nested(arr[i], ix[1:])
  out = _nested(arr[-1], ix[1:])
  for j in range(len(arr) - 2, -1, -1):
    out = T.ite(i == j, _nested(arr[j], ix[1:]), out)
  return out


def _same_dom(a, b):
  if a.key == b.key:
    return
  if a.concrete and b.concrete and a.size == b.size:
    return
  if not a.is_label and not b.is_label:
    if a.concrete and b.concrete:
      raise ValueError(f'conflicting sizes {a.size} and {b.size}')
    sa, sb = a.size, b.size
    if not isinstance(sa, int) and not isinstance(sb, int) and z3.is_true(z3.simplify(sa == sb)):
      return
  raise Unsupported(f'dimension domains differ: {a} {b}')


def _require_same_labels(dom, ca, cb, join):
  """Aligned on positions only where the labels are equal (branches unless they are by construction)."""
  if ca is None or cb is None or ca is cb or ca._fn is cb._fn or len(ca._dims) != 1 or len(cb._dims) != 1:
    return
  if getattr(ca, 'src', 1) == getattr(cb, 'src', 2):
    return
  if ca.const is not None and cb.const is not None and np.array_equal(ca.const, cb.const):
    return
  da, db = ca._dims[0], cb._dims[0]
  def differ(ks):
    return SV('b', T.zb(T.Not(T.same(ca._fn({da: ks[0]}), cb._fn({db: ks[0]})))))
  if dom.concrete:
    d = z3.simplify(T.zb(T.Or(*[differ([k]).v for k in range(dom.size)])))
  else:
    k = T.fresh_idx(dom, 'lab')
    d = z3.simplify(differ([k]).v)
    if not z3.is_false(d):
      d = T.zb(T.tobool(T.reduce_sv('any', [dom], differ)).v)
  if z3.is_false(d):
    return
  if fork(d):
    if join == 'exact':
      raise ValueError('cannot align objects with join="exact" where index/labels/sizes are not equal along these coordinates (dimensions)')
    raise Unsupported('align differing symbolic labels')


def _join_dom(a, b, ca, cb, join):
  """Returns (dom, mapa, mapb): maps position -> (guard, pos) or None (identity)."""
  if a.key == b.key and (a.is_label or not a.concrete or True):
    # positional identity; for concrete doms keys coincide for equal sizes, so
    # compare labels when both sides have them
    if not a.concrete:
      if not a.is_label:
        _require_same_labels(a, ca, cb, join)
      return a, None, None
  if a.is_label and b.is_label:
    if join == 'inner':
      d = Dom(f'({a.key}&{b.key})', None, lambda i: T.And(a.pred(i), b.pred(i)))
      return d, None, None
    if join == 'outer':
      d = Dom(f'({a.key}|{b.key})', None, lambda i: T.Or(a.pred(i), b.pred(i)))
      return d, a.pred, b.pred
    if join == 'left':
      return a, None, b.pred
    raise Unsupported(f'join {join}')
  if a.concrete and b.concrete:
    la = None if ca is None else ca.const
    lb = None if cb is None else cb.const
    if ca is not None and cb is not None and (la is None or lb is None):
      if a.size != b.size:
        raise Unsupported('align symbolic labels')
      _require_same_labels(a, ca, cb, join)
      return a, None, None
    if la is not None and lb is not None:
      if la.shape == lb.shape and np.array_equal(la, lb):
        return a, None, None
      raise Unsupported('align differing concrete labels')
    if a.size != b.size:
      raise ValueError(f'cannot align dims of sizes {a.size} and {b.size}')
    return a, None, None
  _same_dom(a, b)
  if ca is not None and cb is not None and getattr(ca, 'src', 1) != getattr(cb, 'src', 2):
    raise Unsupported('align symbolic index coordinates')
  return a, None, None


def _union_dims(arrays):
  dims = []
  for a in arrays:
    for d in a._dims:
      if d not in dims:
        dims.append(d)
  return dims


def _coords_equal(c1, c2):
  if getattr(c1, 'src', c1.uid) == getattr(c2, 'src', c2.uid):
    return True
  if c1.const is not None and c2.const is not None:
    return c1.const.shape == c2.const.shape and np.array_equal(c1.const, c2.const)
  if set(c1._dims) != set(c2._dims):
    return None
  idx = {}
  for d in c1._dims:
    idx[d] = T.fresh_idx(c1._doms[d])
  e = T.same(c1._fn(idx), c2._fn(idx))
  if e is True:
    return True
  if e is False:
    return False
  e = z3.simplify(e)
  if z3.is_true(e):
    return True
  return None


def merge_coords(arrays, dims, keep_conflicts=False):
  """xarray's coordinate merging for arithmetic: conflicts are dropped."""
  out, dropped = {}, set()
  for a in arrays:
    for k, c in a._coords.items():
      if k in dropped or not set(c._dims) <= set(dims):
        continue
      if k in out:
        if k in dims and c._dims == (k,) and out[k]._dims == (k,):
          continue  # indexes were aligned already
        eq = _coords_equal(out[k], c)
        if eq is None:
          raise Unsupported(f'data-dependent coordinate conflict on {k!r}')
        if not eq:
          del out[k]
          dropped.add(k)
        continue
      out[k] = c
  return out


def _elementwise(f, arrays, dtype, join='inner', coord_order=None, name_from=None):
  dims = _union_dims(arrays)
  doms, cds = {}, {}
  guards = [dict() for _ in arrays]
  for j, a in enumerate(arrays):
    for d in a._dims:
      if d in doms:
        nd, ma, mb = _join_dom(doms[d], a._doms[d], cds.get(d), a._coords.get(d), join)
        if ma is not None:
          for g, b in zip(guards[:j], arrays[:j]):
            if d in b._dims:
              g.setdefault(d, b._doms[d].pred)
        if mb is not None:
          guards[j][d] = mb
        doms[d] = nd
        if cds.get(d) is None:
          cds[d] = a._coords.get(d)
      else:
        doms[d] = a._doms[d]
        cds[d] = a._coords.get(d)
  fns = [(a._fn, a._dims) for a in arrays]
  def fn(idx):
    vals = []
    for (g, ds), gd in zip(fns, guards):
      v = g({d: idx[d] for d in ds})
      for d, p in gd.items():
        v = T.ite(p(idx[d]), v, SV.of(float('nan')))
      vals.append(v)
    return f(*vals)
  coords = merge_coords(arrays, dims)
  names = [a.name for a in arrays]
  if name_from is not None:
    name = names[name_from]
  else:
    name = names[0] if all(n == names[0] for n in names) else None
  r = SymDataArray.make(dims, doms, fn, dtype, name, coords)
  return r


def _res_dtype(a, b):
  da = a.dtype if isinstance(a, (SymDataArray, SymND)) else None
  db = b.dtype if isinstance(b, (SymDataArray, SymND)) else None
  def norm(d):
    return np.dtype('float64') if d is not None and d.kind == 'O' else d
  da, db = norm(da), norm(db)
  if da is not None and db is not None:
    if 'M' in (da.kind, db.kind):
      return np.dtype('timedelta64[ns]') if da.kind == db.kind else np.dtype('datetime64[ns]')
    try:
      return np.result_type(da, db)
    except TypeError:
      raise Unsupported('dtype mix')
  d = da if da is not None else db
  o = b if da is not None else a
  if d.kind == 'm' and isinstance(o, np.datetime64):
    return np.dtype('datetime64[ns]')
  if d.kind in 'Mm':
    return d
  if isinstance(o, (np.timedelta64, np.datetime64)):
    return np.dtype('timedelta64[ns]') if isinstance(o, np.timedelta64) else np.dtype('datetime64[ns]')
  if isinstance(o, bool):
    return d
  if isinstance(o, float) and d.kind in 'iub':
    return np.dtype('float64')
  if d.kind == 'b':
    return np.dtype('int64')
  return d


def _rename_bare(c, m):
  dims = tuple(m.get(d, d) for d in c._dims)
  if dims == c._dims:
    return c
  old = c._dims
  fn = c._fn
  r = SymDataArray.make(dims, {m.get(d, d): c._doms[d] for d in old},
                        lambda idx: fn({o: idx[m.get(o, o)] for o in old}), c.dtype,
                        m.get(c.name, c.name), None, c.const)
  r.src = getattr(c, 'src', c.uid)
  for k in ('index_pos', 'index_has'):
    if hasattr(c, k):
      setattr(r, k, getattr(c, k))
  return r


# --------------------------------------------------------------------------
# Dataset

class SymDataset(collections.abc.Mapping):

  def to_dict(self, **kw):
    return {'data': self}

  def __init__(self, data_vars=None, coords=None, attrs=None):
    self._vars = {}
    self.attrs = dict(attrs or {})
    self._extra = {}
    if isinstance(data_vars, SymDataset):
      data_vars = data_vars._vars
    for k, v in (data_vars or {}).items():
      self[k] = v
    for k, v in (coords or {}).items():
      self._extra[k] = v if isinstance(v, SymDataArray) else SymDataArray(v, dims=() if np.ndim(v) == 0 else (k,))

  def __setitem__(self, k, v):
    if v is None:
      raise Unsupported('None variable')
    if isinstance(v, tuple):
      v = SymDataArray(v[1], dims=v[0])
    if not isinstance(v, SymDataArray):
      raise Unsupported('Dataset variable type')
    for o in self._vars.values():
      for d in v._dims:
        if d in o._doms:
          _join_dom(o._doms[d], v._doms[d], o._coords.get(d), v._coords.get(d), 'exact')
    v = v.rename(k)
    self._vars[k] = v
    # a Dataset shares coordinates between its variables
    shared = {}
    for o in self._vars.values():
      for n, c in o._coords.items():
        if n in shared:
          if n in c._dims:
            continue
          if _coords_equal(shared[n], c) is not True:
            raise Unsupported('conflicting coordinates in Dataset')
        else:
          shared[n] = c
    for n, o in list(self._vars.items()):
      add = {c: x for c, x in shared.items() if c not in o._coords and set(x._dims) <= set(o._dims)}
      if add:
        o2 = o.copy()
        o2._coords = {**o._coords, **add}
        o2.name = n
        self._vars[n] = o2

  def __getitem__(self, k):
    if isinstance(k, (list, tuple)):
      r = SymDataset()
      for x in k:
        r[x] = self._vars[x]
      return r
    if k in self._vars:
      return self._vars[k]
    for v in self._vars.values():
      if k in v._coords or k in v._dims:
        return v._coord_da(k)
    if k in self._extra:
      return self._extra[k]
    raise KeyError(k)

  def __getattr__(self, k):
    if k.startswith('_'):
      raise AttributeError(k)
    try:
      return self[k]
    except KeyError:
      raise AttributeError(k)

  def __contains__(self, k):
    return k in self._vars or any(k in v._coords for v in self._vars.values())

  def __iter__(self):
    return iter(self._vars)

  def __len__(self):
    return len(self._vars)

  def __bool__(self):
    return bool(self._vars)

  @property
  def data_vars(self):
    return dict(self._vars)

  @property
  def dims(self):
    return self.sizes

  @property
  def sizes(self):
    d = {}
    for v in self._vars.values():
      for n in v._dims:
        d.setdefault(n, v._doms[n])
    return Sizes(d)

  @property
  def coords(self):
    out = {}
    for v in self._vars.values():
      for k in v._coords:
        out.setdefault(k, v._coord_da(k))
    return out

  def map(self, f, keep_attrs=None, args=(), **kw):
    return SymDataset({k: f(v, *args, **kw) for k, v in self._vars.items()})

  def rename(self, m=None, **kw):
    m = dict(m or {}, **kw)
    out = SymDataset()
    for k, v in self._vars.items():
      sub = {a: b for a, b in m.items() if a in v._dims or a in v._coords}
      out[m.get(k, k)] = v.rename(sub) if sub else v
    return out

  def _all(self, name, *a, **k):
    return SymDataset({n: getattr(v, name)(*a, **k) for n, v in self._vars.items()})

  def compute(self, **k):
    return self

  load = compute

  def copy(self, deep=False):
    return SymDataset(self._vars)

  def isel(self, indexers=None, drop=False, **kw):
    ix = dict(indexers or {}, **kw)
    return SymDataset({n: v.isel({d: i for d, i in ix.items() if d in v._dims}, drop=drop)
                       for n, v in self._vars.items()})

  def sel(self, indexers=None, method=None, tolerance=None, drop=False, **kw):
    ix = dict(indexers or {}, **kw)
    for d in ix:
      if not any(d in v._dims for v in self._vars.values()):
        raise KeyError(f'{d!r} is not a valid dimension or coordinate')
    return SymDataset({n: v.sel({d: i for d, i in ix.items() if d in v._dims}, method=method, tolerance=tolerance, drop=drop)
                       for n, v in self._vars.items()})

  def expand_dims(self, dim=None, axis=None, **kw):
    return self._all('expand_dims', dim, axis, **kw)

  def transpose(self, *dims, missing_dims='raise'):
    if missing_dims != 'raise':
      raise Unsupported('transpose missing_dims')
    have = list(self.sizes)
    for d in dims:
      if d is not Ellipsis and d not in have:
        raise ValueError(f'{d!r} is not a dimension')
    if dims and Ellipsis not in dims and set(dims) != set(have):
      raise ValueError(f'{dims} must be a permuted list of {have}, unless `...` is included')
    out = {}
    for n, v in self._vars.items():
      out[n] = v.transpose(*[d for d in dims if d is Ellipsis or d in v._dims]) if dims else v.transpose()
    return SymDataset(out)

  def _bin(self, o, f):
    if isinstance(o, SymDataset):
      return SymDataset({k: f(v, o[k]) for k, v in self._vars.items() if k in o._vars})
    return SymDataset({k: f(v, o) for k, v in self._vars.items()})

  def __add__(self, o):
    return self._bin(o, lambda a, b: a + b)

  def __sub__(self, o):
    return self._bin(o, lambda a, b: a - b)

  def __mul__(self, o):
    return self._bin(o, lambda a, b: a * b)

  def __truediv__(self, o):
    return self._bin(o, lambda a, b: a / b)

  def __pow__(self, n):
    return self._bin(n, lambda a, b: a ** b)

  __hash__ = object.__hash__


# --------------------------------------------------------------------------
# xr.* functions

def full_like(a, v, dtype=None, **kw):
  sv = SV.of(v)
  dt = np.dtype(dtype) if dtype is not None else a.dtype
  sv = _cast(sv, dt) if dt.kind in 'fib' else sv
  r = a._like(lambda idx: sv, dt)
  return r


def _map_ds(a, f):
  if isinstance(a, SymDataset):
    return SymDataset({k: f(v) for k, v in a._vars.items()})
  return f(a)


def zeros_like(a, dtype=None, **kw):
  return _map_ds(a, lambda x: full_like(x, 0 if x.dtype.kind != 'b' or dtype else False, dtype))


def ones_like(a, dtype=None, **kw):
  return _map_ds(a, lambda x: full_like(x, 1, dtype))


def where(cond, x, y, keep_attrs=None):
  arrays = []
  spec = []
  for a in (cond, x, y):
    if isinstance(a, SymDataArray):
      spec.append(len(arrays))
      arrays.append(a)
    else:
      spec.append(SV.of(a))
  if not arrays:
    raise Unsupported('xr.where on scalars')
  def f(*vals):
    got = [vals[s] if isinstance(s, int) else s for s in spec]
    return T.where(T.tobool(got[0]), got[1], got[2])
  dts = [a.dtype for a in (x, y) if isinstance(a, SymDataArray)]
  dt = dts[0] if len(dts) == 1 else np.result_type(*dts) if dts else np.dtype('float64')
  if any(isinstance(a, float) for a in (x, y)) and dt.kind in 'iub':
    dt = np.dtype('float64')
  return _elementwise(f, arrays, dt, join='exact')


def dot(*arrays, dim=None, dims=None, **kw):
  if dim is None and dims is not None:
    dim = dims
  arrays = [a if isinstance(a, SymDataArray) else SymDataArray(a) for a in arrays]
  alldims = _union_dims(arrays)
  if dim is None:
    counts = collections.Counter(d for a in arrays for d in a._dims)
    dim = [d for d, c in counts.items() if c > 1]
  elif dim is Ellipsis:
    dim = list(alldims)
  elif isinstance(dim, str):
    dim = [dim]
  else:
    dim = list(dim)
  def prod(*vs):
    out = vs[0].num()
    for v in vs[1:]:
      out = T.mul(out, v.num())
    return out
  dt = np.result_type(*[a.dtype for a in arrays])
  if dt.kind == 'b':
    raise Unsupported('xr.dot of booleans')
  p = _elementwise(prod, arrays, dt, join='inner')
  missing = [d for d in dim if d not in p._dims]
  dim = [d for d in dim if d in p._dims]
  r = p._reduce(dim, lambda doms, body: T.reduce_sv('sum', doms, body)) if dim else p
  r.attrs = dict(arrays[0].attrs)
  return r


def concat(objs, dim, data_vars='all', coords='different', compat='equals', join='outer', combine_attrs=None, **kw):
  objs = list(objs)
  if not objs:
    raise ValueError('must supply at least one object to concatenate')
  if isinstance(objs[0], SymDataset):
    return SymDataset({k: concat([o[k] for o in objs], dim, join=join) for k in objs[0]._vars})
  coord = None
  if isinstance(dim, SymDataArray):
    coord = dim
    dname = dim.name if dim.name is not None else dim.dims[0]
    coord_dim = dim.dims[0]
    dname = coord_dim
  elif isinstance(dim, str):
    dname = dim
  else:
    raise Unsupported('concat dim')
  if all(dname not in o._dims for o in objs):
    n = len(objs)
    base_dims = list(objs[0]._dims)
    for o in objs:
      if set(o._dims) != set(base_dims):
        # xarray broadcasts
        for d in o._dims:
          if d not in base_dims:
            base_dims.append(d)
    doms = {}
    for o in objs:
      for d in o._dims:
        if d in doms:
          _join_dom(doms[d], o._doms[d], None, None, 'exact')
        else:
          doms[d] = o._doms[d]
    dims = [dname] + base_dims
    doms[dname] = const_dom(n)
    def fn(idx):
      vals = [o._fn({d: idx[d] for d in o._dims}) for o in objs]
      return _select(vals, idx[dname])
    cs = merge_coords(objs, base_dims)
    r = SymDataArray.make(dims, doms, fn, _concat_dtype(objs), objs[0].name if len({o.name for o in objs}) == 1 else None, cs)
    # scalar coords that differ become coords along the new dim
    if all(dname in o._coords and not o._coords[dname]._dims for o in objs):
      vals = [o._coords[dname] for o in objs]
      if all(v.const is not None for v in vals):
        r._set_coord(dname, np.array([v.const[()] for v in vals]))
    if coord is not None and coord.const is not None:
      r._set_coord(dname, coord.const)
    elif coord is not None:
      raise Unsupported('symbolic concat coord')
    return r
  # concat along an existing dim
  fixed = []
  for o in objs:
    if dname not in o._dims:
      o = o.expand_dims(dname)
    fixed.append(o)
  objs = fixed
  sizes = [o._doms[dname].size for o in objs]
  dims = list(objs[0]._dims)
  doms = dict(objs[0]._doms)
  for o in objs[1:]:
    if set(o._dims) != set(dims):
      raise Unsupported('concat of different dims')
    for d in dims:
      if d != dname:
        _join_dom(doms[d], o._doms[d], objs[0]._coords.get(d), o._coords.get(d), 'exact')
  if all(isinstance(s, int) for s in sizes):
    total = sum(sizes)
    nd = const_dom(total)
  else:
    total = z3.simplify(sum([z3.IntVal(s) if isinstance(s, int) else s for s in sizes]))
    offs, off = [], 0
    for z in sizes:
      offs.append(off)
      off = off + z
    nd = Dom('cat(' + ','.join(o._doms[dname].key for o in objs) + ')', total,
             parts=[(o._doms[dname], f) for o, f in zip(objs, offs)])
  doms[dname] = nd
  def pick(getters, i):
    off = 0
    if isinstance(i, int) and all(isinstance(s, int) for s in sizes):
      for g, s in zip(getters, sizes):
        if i < off + s:
          return g(i - off)
        off += s
      raise Unsupported('concat index')
    offs = []
    for s in sizes:
      offs.append(off)
      off = off + s
    out = getters[-1](i - offs[-1])
    for j in range(len(getters) - 2, -1, -1):
      out = T.ite(z3.simplify((i if z3.is_expr(i) else z3.IntVal(i)) < offs[j + 1]), getters[j](i - offs[j]), out)
    return out
  def fn(idx):
    return pick([(lambda k, o=o: o._fn({**idx, dname: k})) for o in objs], idx[dname])
  cs = {}
  for k in objs[0]._coords:
    if all(k in o._coords for o in objs):
      c0 = objs[0]._coords[k]
      if dname in c0._dims:
        if all(o._coords[k].const is not None for o in objs):
          arr = np.concatenate([o._coords[k].const for o in objs], axis=c0._dims.index(dname))
          cs[k] = SymDataArray.make(c0._dims, {**c0._doms, dname: nd}, _const_fn(arr, c0._dims), arr.dtype, k, None, arr)
        else:
          cs[k] = SymDataArray.make(c0._dims, {**c0._doms, dname: nd},
                                    (lambda idx, k=k: pick([(lambda q, o=o: o._coords[k]._fn({**idx, dname: q})) for o in objs], idx[dname])),
                                    c0.dtype, k)
      else:
        eqs = [_coords_equal(c0, o._coords[k]) for o in objs[1:]]
        if all(e is True for e in eqs):
          cs[k] = c0
        else:
          raise Unsupported('concat coordinate conflict')
  return SymDataArray.make(dims, doms, fn, _concat_dtype(objs), objs[0].name, cs)


def _concat_dtype(objs):
  dts = [o.dtype for o in objs]
  if any(d.kind in 'MmUO' for d in dts):
    return dts[0]
  return np.result_type(*dts)


def align(*objs, join='inner', copy=True, indexes=None, exclude=(), fill_value=float('nan')):
  excl = {exclude} if isinstance(exclude, str) else set(exclude)
  dims = [d for d in _union_dims(objs) if d not in excl]
  out = []
  newdoms = {}
  for d in dims:
    have = [o for o in objs if d in o._dims]
    dom = have[0]._doms[d]
    cd = have[0]._coords.get(d)
    for o in have[1:]:
      dom, _, _ = _join_dom(dom, o._doms[d], cd, o._coords.get(d), join)
    newdoms[d] = dom
  for o in objs:
    guards = {}
    for d in o._dims:
      if d not in excl and newdoms[d].key != o._doms[d].key and o._doms[d].is_label and join in ('outer', 'right', 'left'):
        guards[d] = o._doms[d].pred
    fn = o._fn
    if callable(fill_value) or isinstance(fill_value, dict):
      raise Unsupported('fill_value')
    fv = SV.of(fill_value)
    def g(idx, fn=fn, guards=guards):
      v = fn(idx)
      for d, p in guards.items():
        v = T.ite(p(idx[d]), v, fv)
      return v
    coords = {k: c for k, c in o._coords.items() if not (set(c._dims) & set(guards)) }
    out.append(o._like(g, doms={d: newdoms.get(d, o._doms[d]) for d in o._dims}, coords=coords))
  return tuple(out)


def combine_by_coords(data_objects=(), **kw):
  """Unnamed arrays are laid out by the constant labels of the dimensions in which they differ."""
  objs = list(data_objects)
  if kw or not objs or not all(isinstance(o, SymDataArray) and o.name is None for o in objs):
    raise Unsupported('combine_by_coords arguments')
  dims = list(objs[0]._dims)
  if any(list(o._dims) != dims for o in objs):
    raise Unsupported('combine_by_coords of different dimensions')
  tiles = [()] * len(objs)
  cat = []
  for d in dims:
    labels = []
    for o in objs:
      c = o._coords.get(d)
      labels.append(None if c is None else c.const)
    if all(l is None for l in labels):
      continue
    if any(l is None for l in labels):
      raise Unsupported('combine_by_coords with symbolic labels')
    if all(l.shape == labels[0].shape and np.array_equal(l, labels[0]) for l in labels):
      continue
    for l in labels:
      if len(l) == 0 or (len(l) > 1 and not np.all(l[1:] > l[:-1])):
        raise Unsupported('combine_by_coords of labels that do not increase')
    firsts = sorted({l[0] for l in labels})
    for k, l in enumerate(labels):
      tiles[k] = tiles[k] + (firsts.index(l[0]),)
    cat.append(d)
  if not cat:
    if len(objs) == 1:
      return objs[0]
    raise ValueError('Could not find any dimension coordinates to use to order the Dataset objects for concatenation')
  grid = dict(zip(tiles, objs))
  shape = [max(t[k] for t in tiles) + 1 for k in range(len(cat))]
  if len(grid) != len(objs) or len(objs) != int(np.prod(shape)):
    raise ValueError('The supplied objects do not form a hypercube')
  for ax in range(len(cat) - 1, -1, -1):
    nxt = {}
    for t in sorted({t[:ax] for t in grid}):
      nxt[t] = concat([grid[t + (k,)] for k in range(shape[ax])], cat[ax])
    grid = nxt
  r = grid[()]
  for d in cat:
    l = r._coords[d].const
    if not np.all(l[1:] > l[:-1]):
      raise ValueError(f'Resulting object does not have monotonic global indexes along dimension {d}')
  r.name = None
  return r


def broadcast(*objs, exclude=()):
  ex = set(exclude or ())
  dims = [d for d in _union_dims(objs) if d not in ex]
  doms = {}
  for o in objs:
    for d in o._dims:
      if d in doms and d not in ex:
        _join_dom(doms[d], o._doms[d], None, o._coords.get(d), 'exact')
      else:
        doms.setdefault(d, o._doms[d])
  out = []
  for o in objs:
    od = dims + [d for d in o._dims if d in ex]
    old = o._dims
    fn = o._fn
    dd = {d: (o._doms[d] if d in o._doms else doms[d]) for d in od}
    out.append(o._like(lambda idx, fn=fn, old=old: fn({d: idx[d] for d in old}), dims=od, doms=dd))
  return tuple(out)


def merge(objs, join='outer', compat=None, **kw):
  arrays = []
  for o in objs:
    if isinstance(o, SymDataArray):
      arrays.append((o.name, o))
    else:
      arrays.extend(o._vars.items())
  shared = {}
  r = SymDataset()
  for name, v in arrays:
    repl = {}
    for n, c in v._coords.items():
      if n in c._dims:
        continue
      if n not in shared:
        shared[n] = c
        continue
      s = shared[n]
      eq = _coords_equal(s, c)
      if eq is None:
        eq = _same_coordinate(s, c, compat)
      if eq is not True:
        raise ValueError(f'conflicting values for variable {n!r} on objects to be combined')
      repl[n] = s
    if repl:
      v = v.copy(deep=False)
      v._coords = {**v._coords, **repl}
    r[name] = v
  return r


def _same_coordinate(s, c, compat):
  """Branches on whether two coordinates of the same dimensions are equal (both missing counts as equal)."""
  if set(s._dims) != set(c._dims):
    raise Unsupported('merge of coordinates of different dimensions')
  for d in s._dims:
    _same_dom(s._doms[d], c._doms[d])
  dims = list(s._dims)
  def differ(ks):
    i = dict(zip(dims, ks))
    x, y = s._fn(i), c._fn(i)
    if compat not in ('equals', 'identical', 'broadcast_equals') and (x.nan is not False or y.nan is not False):
      raise Unsupported('merge of coordinates with missing values')
    return SV('b', T.Not(T.same(x, y)))
  return not fork(T.zb(T.tobool(T.reduce_sv('any', [s._doms[d] for d in dims], differ)).v))


class _NullCtx:

  def __init__(self, **k):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False


def apply_ufunc(func, *args, **kw):
  stub = APPLY_UFUNC_STUBS.get(getattr(func, '__name__', None))
  if stub is not None:
    return stub(func, *args, **kw)
  if not kw.get('input_core_dims') and not kw.get('output_core_dims'):
    sv_args = args
    nm = getattr(func, '__name__', '')
    if nm in UFUNCS:
      return apply_named_ufunc(nm, *args)
  if kw.get('vectorize') and len(args) == 1 and isinstance(args[0], SymDataArray):
    return _apply_vectorized(func, args[0], **kw)
  if len(args) == 1 and isinstance(args[0], SymDataArray) and not set(kw) - {'input_core_dims', 'output_core_dims', 'vectorize', 'keep_attrs', 'output_dtypes', 'dask'} and not kw.get('vectorize'):
    return _apply_whole(func, args[0], **kw)
  raise Unsupported(f'xr.apply_ufunc({getattr(func, "__name__", func)})')


def _apply_whole(func, a, input_core_dims=((),), output_core_dims=((),), **kw):
  """The function is called once, on the array with its core dimensions last."""
  if len(input_core_dims) != 1 or len(output_core_dims) != 1:
    raise Unsupported('apply_ufunc options')
  core, ocore = list(input_core_dims[0]), list(output_core_dims[0])
  if not set(core) <= set(a._dims):
    raise ValueError('operand to apply_ufunc has required core dimensions, but some are missing')
  outer = [d for d in a._dims if d not in core]
  x = a.transpose(*outer, *core)
  y = func(SymND(SymDataArray.make(x._dims, x._doms, x._fn, x.dtype)))
  if isinstance(y, SymNum) and not outer and not ocore:
    return SymDataArray.make([], {}, lambda idx: y.sv, 'float64', a.name, {k: c for k, c in a._coords.items() if not c._dims})
  if not isinstance(y, SymND) or len(y.da._dims) != len(outer) + len(ocore):
    raise Unsupported('result of a function applied to an array')
  dims = outer + ocore
  names = dict(zip(dims, y.da._dims))
  for d in outer:
    _same_dom(y.da._doms[names[d]], a._doms[d])
  yfn = y.da._fn
  r = SymDataArray.make(dims, {d: y.da._doms[names[d]] for d in dims}, lambda idx: yfn({names[d]: idx[d] for d in dims}), y.da.dtype, a.name,
                        {k: c for k, c in a._coords.items() if set(c._dims) <= set(outer)})
  r.owns_coords = getattr(a, 'owns_coords', False)
  return r


def _apply_vectorized(func, a, input_core_dims, output_core_dims=((),), vectorize=True, **kw):
  """The function is executed once, on a generic slice along the core dimensions."""
  if kw or len(input_core_dims) != 1 or len(output_core_dims) != 1:
    raise Unsupported('apply_ufunc options')
  core, ocore = list(input_core_dims[0]), list(output_core_dims[0])
  if not set(core) <= set(a._dims):
    raise ValueError('operand to apply_ufunc has required core dimensions, but some are missing')
  outer = [d for d in a._dims if d not in core]
  cell = [None]
  def slice_fn(idx):
    if cell[0] is None:
      raise Unsupported('data-dependent control flow in a vectorized function')
    return a._fn({**cell[0], **{d: idx[f'ax{i}'] for i, d in enumerate(core)}})
  x = SymND(SymDataArray.make([f'ax{i}' for i in range(len(core))], {f'ax{i}': a._doms[d] for i, d in enumerate(core)}, slice_fn, a.dtype))
  if any(x.da._doms[f'ax{i}'].key != a._doms[d].key for i, d in enumerate(core)):
    raise Unsupported('core dimension domains')
  y = func(x)
  if not isinstance(y, SymND) or len(y.da._dims) != len(ocore):
    raise Unsupported('vectorized function result')
  for d, yd in zip(ocore, y.da._dims):
    if d in a._dims:
      _same_dom(y.da._doms[yd], a._doms[d])
    else:
      raise Unsupported('new core dimension')
  ydims, yfn = y.da._dims, y.da._fn
  def fn(idx):
    prev, cell[0] = cell[0], {d: idx[d] for d in outer}
    try:
      return yfn({yd: idx[d] for d, yd in zip(ocore, ydims)})
    finally:
      cell[0] = prev
  dims = outer + ocore
  r = SymDataArray.make(dims, {d: a._doms[d] for d in dims}, fn, y.da.dtype, a.name, {k: c for k, c in a._coords.items() if set(c._dims) <= set(dims)})
  r.owns_coords = getattr(a, 'owns_coords', False)
  return r


APPLY_UFUNC_STUBS = {}


# --------------------------------------------------------------------------
# numpy functions

UFUNCS = {
    'add': T.add, 'subtract': T.sub, 'multiply': T.mul, 'divide': T.div,
    'true_divide': T.div, 'negative': T.neg, 'absolute': T.absv, 'fabs': T.absv, 'abs': T.absv,
    'sqrt': T.sqrtv, 'log': T.logv, 'exp': T.expv, 'sin': T.sinv, 'cos': T.cosv,
    'square': lambda a: T.powv(a, 2), 'power': T.powv,
    'isnan': T.isnull, 'isfinite': lambda a: SV('b', T.zb(T.Not(a.special))),
    'isinf': lambda a: SV('b', T.zb(a.inf)),
    'minimum': T.minv, 'maximum': T.maxv,
    'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b,
    'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b,
    'equal': lambda a, b: a.eq(b), 'not_equal': lambda a, b: ~(a.eq(b)),
    'logical_and': lambda a, b: T.land(T.tobool(a), T.tobool(b)),
    'logical_or': lambda a, b: T.lor(T.tobool(a), T.tobool(b)),
    'logical_xor': lambda a, b: T.lxor(T.tobool(a), T.tobool(b)),
    'logical_not': lambda a: T.lnot(T.tobool(a)),
    'bitwise_and': T.land, 'bitwise_or': T.lor, 'invert': T.lnot, 'bitwise_xor': T.lxor,
    'floor_divide': T.floordiv, 'remainder': T.modv, 'mod': T.modv, 'floor': T.floorv,
    'deg2rad': lambda a: T.mul(a.num(), SV('f', T.PI / 180)),
    'radians': lambda a: T.mul(a.num(), SV('f', T.PI / 180)),
    'isnat': T.isnull,
    'ceil': lambda a: T.neg(T.floorv(T.neg(a.num()))),
    'reciprocal': lambda a: T.div(SV.of(1.0), a),
    'sign': lambda a: SV(a.num().k, z3.If(a.real() > 0, T.num(1), z3.If(a.real() < 0, T.num(-1), T.num(0))), a.nan),
}
_BOOL = {'isnan', 'isfinite', 'isinf', 'less', 'less_equal', 'greater', 'greater_equal',
         'equal', 'not_equal', 'logical_and', 'logical_or', 'logical_not', 'logical_xor',
         'bitwise_and', 'bitwise_or', 'invert', 'isnat', 'bitwise_xor'}
_FLOATY = {'divide', 'true_divide', 'sqrt', 'log', 'exp', 'sin', 'cos', 'deg2rad', 'radians'}


def apply_named_ufunc(name, *inputs):
  if name not in UFUNCS:
    raise Unsupported(f'ufunc {name}')
  f = UFUNCS[name]
  if any(isinstance(x, SymND) for x in inputs):
    return _nd_apply(lambda *a: apply_named_ufunc(name, *a), *inputs)
  arrs = [x for x in inputs if isinstance(x, SymDataArray)]
  if not arrs:
    if any(isinstance(x, SymDataset) for x in inputs):
      if len(inputs) == 1:
        return inputs[0].map(lambda v: apply_named_ufunc(name, v))
      raise Unsupported('dataset ufunc')
    r = f(*[SV.of(x) for x in inputs])
    return SymNum(r) if r.k != 'b' else SymBool(r.v)
  if name in _BOOL:
    dt = np.dtype('bool')
  elif name in _FLOATY:
    dt = np.dtype('float64') if not all(a.dtype == np.float32 for a in arrs) else np.dtype('float32')
  elif len(inputs) == 1:
    dt = arrs[0].dtype
  else:
    dt = _res_dtype(*inputs)
  spec, das = [], []
  for x in inputs:
    if isinstance(x, SymDataArray):
      spec.append(len(das))
      das.append(x)
    elif isinstance(x, np.ndarray) and x.ndim:
      if x.ndim != arrs[0].ndim:
        raise Unsupported('ufunc with ndarray')
      spec.append(len(das))
      das.append(SymDataArray(x, dims=arrs[0].dims))
    else:
      spec.append(SV.of(x))
  def g(*vals):
    return f(*[vals[s] if isinstance(s, int) else s for s in spec])
  return _elementwise(g, das, dt)


class SortedND(SymND):
  """np.sort(a): only compared with other sorted arrays."""

  def __getitem__(self, k):
    raise Unsupported('elements of a sorted array')

  __iter__ = __array_ufunc__ = __getitem__


def _array_equal(a, b):
  if isinstance(a, SortedND) != isinstance(b, SortedND):
    raise Unsupported('array_equal of a sorted array')
  def nd(x):
    if isinstance(x, SymND):
      return x.da
    return _canon_doms(x) if isinstance(x, SymDataArray) else _canon_doms(SymDataArray(np.asarray(x), dims=[f'ax{k}' for k in range(np.ndim(x))]))
  x, y = nd(a), nd(b)
  if x.ndim != y.ndim:
    return False
  idx, jdx, g, doms, ks = {}, {}, True, [], []
  for d, e in zip(x._dims, y._dims):
    p, q = x._doms[d], y._doms[e]
    if p.is_label or q.is_label:
      raise Unsupported('array_equal over labels')
    if p.key != q.key:
      g = T.And(g, T.zi(p.size) == T.zi(q.size))
    doms.append(p)
  def eq(kk):
    r = x._fn(dict(zip(x._dims, kk))).eq(y._fn(dict(zip(y._dims, kk))))
    return r
  r = T.reduce_sv('all', doms, eq)
  out = z3.simplify(T.zb(T.And(g, r.v)))
  if isinstance(a, SortedND):
    if z3.is_true(out):
      return True
    raise Unsupported('array_equal of different sorted arrays')
  return True if z3.is_true(out) else SymBool(out)


def _argext(name, a):
  """Position of the (first) largest or smallest element of a one-dimensional array."""
  da = a.da if isinstance(a, SymND) else a
  if da.ndim != 1 or da._doms[da._dims[0]].is_label:
    raise Unsupported(f'{name} rank')
  d = da._dims[0]
  dom, fn = da._doms[d], da._fn
  at = lambda k: fn({d: k})
  nan = name.startswith('nan')
  if fork(T.zb(T.zi(dom.size) == 0)):
    raise ValueError('attempt to get argmax of an empty sequence')
  isnan = lambda k: SV('b', T.zb(at(k).nan))
  anynan = T.zb(T.reduce_sv('any', [dom], lambda kk: isnan(kk[0])).v)
  if nan:
    if fork(T.zb(T.reduce_sv('all', [dom], lambda kk: isnan(kk[0])).v)):
      raise ValueError('All-NaN slice encountered')
  elif fork(anynan):
    raise Unsupported(f'{name} with missing values')
  if dom.concrete:
    best = 0
    for k in range(1, dom.size):
      x, y = at(k), at(best)
      better = T.And(T.Not(x.nan), T.Or(y.nan, (x > y if 'max' in name else x < y).v))
      if fork(T.zb(better)):
        best = k
    return SymNum(SV('i', T.num(best)), best)
  k = T.fresh_idx(dom, 'arg')
  top = at(k)
  def facts(kk):
    x = at(kk[0])
    beats = T.And(T.Not(x.nan), (x > top if 'max' in name else x < top).v)
    first = T.And(T.zb(T.zi(kk[0]) < k), T.Not(x.nan), x.eq(top).v)
    return SV('b', T.zb(T.Or(beats, first)))
  pre = [T.zb(T.And(k >= 0, k < T.zi(dom.size))), T.zb(T.Not(top.nan)), T.zb(T.Not(T.reduce_sv('any', [dom], facts).v))]
  if Ctx.current is None:
    raise Unsupported('branch outside a verification context')
  T.WITNESS[k.decl().name()] = (dom, pre)
  Ctx.current.pc.extend(pre)
  Ctx.current.solver.add(*pre)
  return SymNum(SV('i', z3.ToReal(k)), k)


class SymRecords:
  """A structured array of scalars, only sorted."""

  def __init__(self, rows, dtype):
    self.names = dtype.names
    self.rows = [dict(zip(dtype.names, r)) for r in rows]

  def __getattr__(self, k):
    raise Unsupported(f'structured array .{k}')


def argsort_records(a, order=None, **kw):
  if kw.get('axis', -1) not in (-1, 0) or set(kw) - {'axis', 'kind'}:
    raise Unsupported('argsort options')
  names = list(a.names) if order is None else [order] if isinstance(order, str) else list(order)
  names += [n for n in a.names if n not in names]
  out = []
  for i, r in enumerate(a.rows):
    for p, j in enumerate(out):
      o = a.rows[j]
      less, eq = False, True
      for n in names:
        x, y = SV.of(r[n]), SV.of(o[n])
        less = T.Or(less, T.And(eq, (x < y).v))
        eq = T.And(eq, x.eq(y).v)
      if fork(T.zb(less)):
        out.insert(p, i)
        break
    else:
      out.append(i)
  return np.array(out)


class SymPerm:
  """The permutation np.argsort returns along one axis: known by which element comes before which.

  Smaller values come first, missing ones last; equal ones in an order nothing is assumed about
  (any such order is that of some key; keys that are equal too are taken in order of position)."""

  def __init__(self, nd, axis, stable):
    da = nd.da
    if any(da._doms[d].is_label for d in da._dims) or da.dtype.kind not in 'fiuMm' or not da._dims:
      raise Unsupported('argsort of this array')
    self.nd, self.dim = nd, da._dims[axis]
    self.key = None if stable else z3.Function(f'TIE!{next(T._fresh)}', *([z3.IntSort()] * len(da._dims)), z3.RealSort())

  @property
  def shape(self):
    return self.nd.shape

  @property
  def ndim(self):
    return self.nd.ndim

  dtype = np.dtype('int64')

  def rank(self, idx):
    """Number of elements before the one at idx."""
    da, d = self.nd.da, self.dim
    fn, dom = da._fn, da._doms[d]
    at = lambda k: fn({**idx, d: k})
    tie = lambda k: self.key(*[T.zi(k if x == d else idx[x]) for x in da._dims])
    i = idx[d]
    x = at(i)
    def before(kk):
      k = kk[0]
      y = at(k)
      less = T.And(T.Not(y.nan), T.Or(x.nan, (y < x).v))
      same = T.Or(T.And(x.nan, y.nan), T.And(T.Not(x.nan), T.Not(y.nan), y.eq(x).v))
      first = T.zb(T.zi(k) < T.zi(i))
      if self.key is not None:
        first = T.Or(tie(k) < tie(i), T.And(tie(k) == tie(i), first))
      c = T.zb(T.Or(less, T.And(same, first)))
      # half for the element itself, so that the two of a pair always add up to one
      return SV('f', z3.If(c, T.num(1), z3.If(T.zb(T.zi(k) == T.zi(i)), T.num(0.5), T.num(0))))
    return T.sub(T.reduce_sv('sum', [dom], before), SV('f', T.num(0.5)))

  def ranks(self):
    da = self.nd.da
    return SymND(SymDataArray.make(da._dims, da._doms, lambda idx: SV('i', self.rank(idx).v), 'int64'))

  def __getattr__(self, k):
    raise Unsupported(f'sorting permutation .{k}')

  def __array__(self, *a, **k):
    raise Unsupported('symbolic array converted to a concrete numpy array')

  def __array_function__(self, func, types, args, kwargs):
    return np_function(func.__name__, *args, **kwargs)

  __hash__ = None


def _axis(a, axis):
  if not isinstance(axis, (int, np.integer)) or not -a.ndim <= axis < a.ndim:
    raise Unsupported(f'axis {axis!r}')
  return int(axis) % a.ndim


def _np_argsort(a, axis=-1, kind=None, order=None, stable=None):
  if order is not None or kind not in (None, 'quicksort', 'heapsort', 'mergesort', 'stable') or stable not in (None, True, False):
    raise Unsupported('argsort options')
  axis = _axis(a, axis)
  if isinstance(a, SymPerm):
    if a.nd.da._dims[axis] != a.dim:
      raise Unsupported('argsort of a permutation along another axis')
    return a.ranks()
  return SymPerm(a, axis, bool(stable) or kind in ('mergesort', 'stable'))


def _np_put_along_axis(arr, indices, values, axis):
  """arr[indices] = values, where indices is a sorting permutation: every element is assigned."""
  if not isinstance(arr, SymND) or not getattr(arr, 'owned', False) or not isinstance(indices, SymPerm):
    raise Unsupported('put_along_axis')
  axis = _axis(arr, axis)
  src = indices.nd.da
  if arr.ndim != src.ndim or src._dims[axis] != indices.dim:
    raise Unsupported('put_along_axis along another axis')
  dst = arr.da
  for p, q in zip(dst._dims, src._dims):
    _same_dom(dst._doms[p], src._doms[q])
  if not isinstance(values, SymND) or values.ndim != arr.ndim:
    raise Unsupported('put_along_axis values')
  val = values.da
  for p, q in zip(val._dims, src._dims):
    _same_dom(val._doms[p], src._doms[q])
  def fn(idx):
    at = {q: idx[p] for p, q in zip(dst._dims, src._dims)}
    z = z3.Int('place!')
    v = val._fn({p: z if q == indices.dim else idx[d] for p, q, d in zip(val._dims, src._dims, dst._dims)})
    rest = z3.simplify(v.v - z3.ToReal(z)) if v.k in 'fi' and z3.is_false(T.zb(v.nan)) else z
    if T._occurs(rest, {'place!'}):
      raise Unsupported('put_along_axis values')
    return _cast(SV(v.k, T.add(indices.rank(at), SV('f', rest)).v), arr.dtype)
  arr.da = SymDataArray.make(dst._dims, dst._doms, fn, arr.dtype)


def _np_unique(a):
  """The distinct values of an array of times or whole numbers: a set of labels."""
  da = a.da if isinstance(a, SymND) else a
  if da.const is not None:
    return np.unique(da.const)
  if da.dtype.kind not in 'mMif' or any(d.is_label for d in da._doms.values()):
    raise Unsupported('unique values of this array')
  def at(ks):
    v = da._fn(dict(zip(da._dims, ks)))
    if not z3.is_false(T.zb(v.special)):
      raise Unsupported('unique values with missing ones')
    if v.k not in 'mM' and not z3.is_app_of(v.real(), z3.Z3_OP_TO_REAL):
      raise Unsupported('unique values that are not whole')
    return v
  doms = [da._doms[d] for d in da._dims]
  k = at([T.fresh_idx(d) for d in doms]).k
  def pred(label):
    return T.zb(T.reduce_sv('any', doms, lambda ks: SV('b', _to_label(at(ks)) == T.zi(label))).v)
  dom = T.register_dom(Dom(f'distinct{next(T._fresh)}', None, pred))
  r = SymND.__new__(SymND)
  r.da = SymDataArray.make(('ax0',), {'ax0': dom}, lambda idx: SV(k, T.zi(idx['ax0'])) if k in 'mM' else SV(k, z3.ToReal(T.zi(idx['ax0']))), da.dtype)
  r.distinct = True
  return r


def _nd_newaxis(a, k):
  """Indexing with None: the other entries index as without it, axes of size one go in between."""
  rest = [x for x in k if x is not None]
  r = a[tuple(rest)] if any(not (isinstance(x, slice) and x == slice(None)) for x in rest) else a
  if not isinstance(r, SymND):
    raise Unsupported('newaxis on a scalar')
  ds, dims = list(r.da._dims), []
  for x in k:
    if x is None:
      dims.append(f'one{len(dims)}')
    elif isinstance(x, slice):
      dims.append(ds.pop(0))
  dims += ds
  da = r.da
  fn = da._fn
  doms = {n: da._doms[n] if n in da._doms else const_dom(1) for n in dims}
  return SymND(SymDataArray.make(dims, doms, lambda idx: fn({d: idx[d] for d in da._dims}), r.dtype))


def _nd_reshape(a, shape):
  """Only axes of size one are added to a vector."""
  if a.ndim != 1 or not shape or any(not isinstance(x, (int, np.integer)) for x in shape) or sorted(shape)[0] != -1 or any(x != 1 for x in sorted(shape)[1:]):
    raise Unsupported('reshape')
  d = a.da._dims[0]
  dims = [d if x == -1 else f'one{p}' for p, x in enumerate(shape)]
  fn = a.da._fn
  doms = {n: a.da._doms[d] if n == d else const_dom(1) for n in dims}
  return SymND(SymDataArray.make(dims, doms, lambda idx: fn({d: idx[d]}), a.dtype))


def _np_broadcast_to(a, shape):
  shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
  k = len(shape) - a.ndim
  if k < 0:
    raise ValueError('cannot broadcast')
  da, doms, src = a.da, {}, {}
  for p, n in enumerate(shape):
    size = T.zi(n.zi) if isinstance(n, SymNum) else n
    if size is None:
      raise Unsupported('array of a non-integer size')
    dom = const_dom(size) if isinstance(size, int) else size_dom(z3.simplify(size))
    doms[f'ax{p}'] = dom
    if p >= k:
      d = da._dims[p - k]
      if da._doms[d].size == 1 and isinstance(da._doms[d].size, int):
        src[d] = 0
      else:
        probe = SymND(SymDataArray.make((f'ax{p}',), {f'ax{p}': dom}, lambda idx: SV('f', T.num(0)), 'float64'))
        _same_dom(probe.da._doms[f'ax{p}'], da._doms[d])
        src[d] = f'ax{p}'
  fn = da._fn
  return SymND(SymDataArray.make(tuple(doms), doms, lambda idx: fn({d: 0 if s == 0 else idx[s] for d, s in src.items()}), a.dtype))


def np_function(name, *args, **kwargs):
  if name in ('nanargmax', 'nanargmin', 'argmax', 'argmin') and len(args) == 1 and not kwargs and isinstance(args[0], (SymND, SymDataArray)):
    return _argext(name, args[0])
  if name == 'array_equal' and len(args) == 2 and not kwargs:
    return _array_equal(*args)
  if name == 'argsort' and isinstance(args[0], (SymND, SymPerm)):
    return _np_argsort(*args, **kwargs)
  if name == 'unique' and len(args) == 1 and not kwargs and isinstance(args[0], (SymND, SymDataArray)):
    return _np_unique(args[0])
  if name == 'expand_dims' and len(args) == 2 and not kwargs and isinstance(args[0], SymND) and isinstance(args[1], int):
    n = args[0].ndim + 1
    p = args[1] % n
    return args[0][(slice(None),) * p + (None,)]
  if name == 'reshape' and len(args) == 2 and not kwargs and isinstance(args[0], SymND):
    return args[0].reshape(args[1])
  if name == 'put_along_axis':
    return _np_put_along_axis(*args, **kwargs)
  if name == 'broadcast_to' and len(args) == 2 and not kwargs and isinstance(args[0], SymND):
    return _np_broadcast_to(*args)
  if name in ('swapaxes', 'moveaxis', 'transpose') and isinstance(args[0], SymND) and not kwargs:
    a = args[0]
    ds = list(a.da._dims)
    if name == 'transpose':
      if len(args) > 1 and not isinstance(args[1], (tuple, list)):
        raise Unsupported('transpose axes')
      ds = [ds[_axis(a, k)] for k in args[1]] if len(args) > 1 else ds[::-1]
    else:
      if len(args) != 3:
        raise Unsupported(name)
      i, j = _axis(a, args[1]), _axis(a, args[2])
      if name == 'swapaxes':
        ds[i], ds[j] = ds[j], ds[i]
      else:
        ds.insert(j, ds.pop(i))
    if sorted(ds) != sorted(a.da._dims):
      raise Unsupported('transpose axes')
    return SymND(SymDataArray.make(a.da._dims, a.da._doms, a.da._fn, a.dtype).transpose(*ds))
  if name == 'sort' and len(args) == 1 and not kwargs:
    a = args[0]
    a = a if isinstance(a, SymND) else SymND(a.reset_coords(drop=True) if a._coords else a)
    if a.ndim != 1:
      raise Unsupported('sort rank')
    return SortedND(a.da)
  if name in ('all', 'any', 'sum', 'mean', 'max', 'min', 'amax', 'amin') and isinstance(args[0], (SymDataArray, SymND)) and not kwargs and len(args) == 1:
    a = args[0].da if isinstance(args[0], SymND) else args[0]
    a = a.reset_coords(drop=True) if isinstance(a, SymDataArray) and a._coords else a
    r = getattr(a, {'amax': 'max', 'amin': 'min'}.get(name, name))(**({'skipna': False} if name not in ('all', 'any') else {}))
    if isinstance(args[0], SymND):
      v = r._fn({})
      return SymBool(v.v) if v.k == 'b' else SymNum(v)
    return r
  if name in ('all', 'any', 'sum', 'mean', 'max', 'min', 'amax', 'amin') and isinstance(args[0], SymND) and set(kwargs) == {'axis'} and len(args) == 1 and isinstance(kwargs['axis'], int):
    a = args[0].da
    a = SymDataArray.make(a._dims, a._doms, a._fn, a.dtype)
    r = getattr(a, {'amax': 'max', 'amin': 'min'}.get(name, name))(a._dims[kwargs['axis']], **({'skipna': False} if name not in ('all', 'any') else {}))
    return SymND(r) if r._dims else SymNum(r._fn({}))
  if name == 'allclose' and len(args) == 2 and not kwargs and all(isinstance(x, (SymND, int, float)) for x in args):
    near = _nd_apply(lambda x, y: abs(x - y) <= abs(y) * 1e-5 + 1e-8, *args)
    return np_function('all', near)
  if name == 'diff' and isinstance(args[0], SymND) and len(args) == 1 and not kwargs and args[0].ndim == 1:
    return args[0][1:] - args[0][:-1]
  if name in ('max', 'min', 'amax', 'amin') and isinstance(args[0], (list, tuple)) and len(args) == 1 and not kwargs and args[0]:
    f = T.maxv if 'max' in name else T.minv
    out = SV.of(args[0][0])
    for x in args[0][1:]:
      out = f(out, SV.of(x))
    return SymNum(out)
  if name == 'concatenate' and len(args) == 1 and not kwargs:
    parts = []
    for x in args[0]:
      da = x.da if isinstance(x, SymND) else SymDataArray(np.asarray(x), dims=('ax0',))
      if da.ndim != 1:
        raise Unsupported('concatenate rank')
      r = SymDataArray.make(da._dims, da._doms, da._fn, da.dtype, None, None, da.const).rename({da._dims[0]: '#c'})
      parts.append(r)
    return SymND(concat(parts, '#c').rename({'#c': 'ax0'}))
  if name == 'isclose' and len(args) == 2 and not kwargs and isinstance(args[0], (SymND, SymDataArray)) and not isinstance(args[1], (SymND, SymDataArray, np.ndarray)):
    a = args[0].da if isinstance(args[0], SymND) else args[0]
    v = float(args[1])
    tol = 1e-8 + 1e-5 * abs(v)
    a = SymDataArray.make(a._dims, a._doms, a._fn, a.dtype).astype(float)
    r = SymND(abs(a - v) <= tol)
    r.owned = True
    return r
  if name == 'isclose':
    raise Unsupported('isclose')
  if name in ('where',) and len(args) == 3:
    if any(isinstance(a, SymND) for a in args) and not any(isinstance(a, SymDataArray) for a in args):
      return _nd_apply(where, *args)
    return where(*args)
  if name in ('zeros_like',):
    return zeros_like(*args, **kwargs)
  if name in ('ones_like',):
    return ones_like(*args, **kwargs)
  if name == 'full_like':
    return full_like(*args, **kwargs)
  if name == 'clip':
    return args[0].clip(*args[1:], **kwargs)
  if name == 'shape':
    return args[0].shape
  if name == 'ndim':
    return args[0].ndim
  if name == 'isin':
    return args[0].isin(args[1])
  if name == 'nan_to_num':
    raise Unsupported('nan_to_num')
  raise Unsupported(f'numpy.{name}')
