"""Contracts on the real functions of weatherbenchX.

A contract is a Python function `f(b, **case)` over a builder `b`.  It declares
inputs (arrays over dimensions), preconditions (`b.assume`, `b.assume_all`),
and `b.ensures(label, run, post)`: `run` calls the real code from /repo, `post`
states the postcondition as formulas over the inputs.

The same text is interpreted twice:
  * symbolically (SymBuilder): `run` executes the real code with xarray replaced
    by the engine's symbolic arrays (dimensions of symbolic size); the
    postcondition becomes verification conditions discharged by the prover;
  * concretely (ConcBuilder): `run` executes the real code with the installed
    xarray on concrete inputs; used to replay countermodels, as the bounded
    stand-in, and to test the engine itself.
"""
import dataclasses
import hashlib
import itertools
import math
import signal
import sys
import time
import traceback
import warnings
import numpy as np
import z3
from vc import conc
from vc import patch
from vc import prover
from vc import sxr
from vc import terms as T
from vc import ticks
from vc.terms import SV, Dom, Unsupported

_REG = []


class Contract:

  def __init__(self, cid, fn, cases, functions, mode, samples, note, sample_timeout):
    self.cid = cid
    self.fn = fn
    self.cases = cases
    self.functions = functions
    self.mode = mode        # 'both' | 'bounded' (concrete only)
    self.samples = samples
    self.note = note
    self.sample_timeout = sample_timeout


def contract(cid, functions=(), cases=({},), mode='both', samples=40, note='', sample_timeout=60):
  def deco(fn):
    _REG.append(Contract(cid, fn, list(cases), list(functions), mode, samples, note, sample_timeout))
    return fn
  return deco


def take_registry():
  global _REG
  r, _REG = _REG, []
  return r


class CodeRaised(Exception):
  def __init__(self, exc, where, weak=False):
    super().__init__(f'{type(exc).__name__}: {exc}')
    self.exc = exc
    self.where = where
    self.weak = weak


class SkipSample(Exception):
  pass


class SampleTimeout(BaseException):
  pass


# --------------------------------------------------------------------------
# Outcomes of running the code

class Outcome:

  def __init__(self, value=None, exc=None, where='', weak=False):
    self._value = value
    self.exc = exc
    self.where = where
    self.weak = weak


def _tb_last_file(e):
  tb = e.__traceback__
  last = ''
  while tb is not None:
    last = tb.tb_frame.f_code.co_filename
    tb = tb.tb_next
  return last


_ENGINE_MIMICS = (ValueError, KeyError, IndexError, ZeroDivisionError)


def run_symbolic(thunk):
  try:
    with patch.patched():
      return Outcome(thunk())
  except (Unsupported, sxr.Infeasible):
    raise
  except RecursionError:
    raise Unsupported('recursion')
  except z3.Z3Exception as e:
    raise Unsupported(f'z3: {e}')
  except Exception as e:  # pylint: disable=broad-except
    c = e
    while c is not None:
      if isinstance(c, Unsupported):
        raise c
      c = c.__cause__ or c.__context__
    if e.__cause__ is not None and not patch.is_repo_file(_tb_last_file(e.__cause__)) and not isinstance(e.__cause__, _ENGINE_MIMICS):
      raise Unsupported(f'{type(e.__cause__).__name__}: {e.__cause__}')
    last = _tb_last_file(e)
    if patch.is_repo_file(last):
      if isinstance(e, (TypeError, AttributeError, NotImplementedError)) and 'raise' not in _src_line(e):
        raise Unsupported(f'{type(e).__name__} in code: {e}')
      return Outcome(exc=e, where=last)
    if '/vc/' in last and isinstance(e, _ENGINE_MIMICS):
      return Outcome(exc=e, where=last, weak=True)
    raise Unsupported(f'{type(e).__name__} outside the verified code: {e} ({last})')


def _src_line(e):
  fs = traceback.extract_tb(e.__traceback__)
  return fs[-1].line or ''


# --------------------------------------------------------------------------
# Symbolic interpretation

class SymArr:
  """Handle of a declared input array."""

  def __init__(self, b, name, dims, kind, nan, inf, dtype, coords, da_name):
    self.b = b
    self.name = name
    self.dims = list(dims)
    self.kind = kind
    self.nan = nan
    self.inf = inf
    self.dtype = dtype
    self.coords = coords
    self.da_name = da_name
    n = len(self.dims)
    rng = T.B if kind == 'b' else T.I if kind in 'Mm' else T.R
    self.uf = self._decl(name, n, rng)
    self.ufn = self._decl(name + '.nan', n, T.B) if nan else None
    self.ufi = self._decl(name + '.inf', n, T.I) if inf else None
    self.uid_src = ('input', name)

  def _decl(self, name, n, rng):
    if n:
      return z3.Function(name, *([T.I] * n), rng)
    return z3.Const(name, rng).decl()

  def _sv(self, idx):
    args = [z3.IntVal(i) if isinstance(i, (int, np.integer)) else i for i in (idx[d] for d in self.dims)]
    v = self.uf(*args)
    nan = self.ufn(*args) if self.ufn is not None else False
    p = q = False
    if self.ufi is not None:
      f = self.ufi(*args)
      p, q = T.And(T.Not(nan), f == 1), T.And(T.Not(nan), f == -1)
    if self.kind == 'i':
      # integer valued
      return SV('i', v, False)
    return SV(self.kind, v, nan, p, q)

  def __getitem__(self, idx):
    return self._sv(idx)

  def __call__(self, idx, **over):
    return self._sv({**idx, **over})

  @property
  def da(self):
    b = self.b
    doms = {d: b.doms[d] for d in self.dims}
    r = sxr.SymDataArray.make(self.dims, doms, self._sv, self.dtype, self.da_name)
    cs = {}
    for cname, c in b.coords.items():
      if self.coords is not False and set(c.dims) <= set(self.dims) and c is not self:
        cc = sxr.SymDataArray.make(c.dims, doms, c._sv, c.dtype, cname)
        cc.src = ('coord', cname)
        if cname in b.index_pos:
          cc.index_pos = b.index_pos[cname]
          if cname in b.index_has:
            cc.index_has = b.index_has[cname]
        cs[cname] = cc
    for d in self.dims:
      if d in b.const_coords and self.coords is not False:
        arr = b.const_coords[d]
        cc = sxr.SymDataArray.make((d,), doms, sxr._const_fn(arr, (d,)), arr.dtype, d, None, arr)
        cs[d] = cc
    r._coords = cs
    return r


class SymScalar:

  def __init__(self, name, kind):
    self.name = name
    self.kind = kind
    sort = T.B if kind == 'b' else T.I if kind in 'Mm' else T.R
    self.s = SV(kind, z3.Const(name, sort)) if kind != 'i' else SV('i', z3.ToReal(z3.Int(name + '.int')))

  @property
  def val(self):
    if self.kind == 'i':
      zi = z3.Int(self.name + '.int')
      return sxr.SymNum(SV('i', z3.ToReal(zi)), zi)
    return sxr.SymNum(self.s)


class SymBuilder:
  symbolic = True

  def __init__(self, prefix=''):
    T.LABEL_POINTS.clear()
    T.BOUNDS.clear()
    T.POSITIVE.clear()
    self.doms = {}
    self.arrays = {}
    self.scalars = {}
    self.coords = {}
    self.const_coords = {}
    self.index_pos = {}
    self.index_has = {}
    self.hyps = []
    self.hints = set()
    self.lemmas = []   # (label, domains, fn)
    self.qassumes = []
    self.clauses = []
    self.xr = patch.XR
    self.sampler = None

  # declarations
  def dim(self, name, size=None, lo=1, hi=3, labels=None):
    if size is not None:
      self.doms[name] = T.register_dom(Dom(f'c{size}', size))
      if labels is not None and labels is not False and not callable(labels):
        self.const_coords[name] = np.asarray(labels)
    else:
      n = z3.Int(f'n_{name}')
      self.doms[name] = T.register_dom(Dom(f'd_{name}', n))
      self.hyps.append(n >= lo)
      T.BOUNDS[f'n_{name}'] = lo
    return name

  def same_dim(self, name, other):
    """A second dimension name with the same extent as `other`."""
    self.doms[name] = self.doms[other]
    return name

  def index_dim(self, name, labels, kind='i', partial=False):
    """A dimension of symbolic size with unique labels; selecting a label gives its position.

    A selected label is assumed present, unless `partial`: then selecting a label for which `b.has` is false raises."""
    self.dim(name)
    if partial:
      hf = z3.Function(f'HAS_{name}', T.I, T.B)
      self.index_has[name] = lambda sv: hf(sxr._to_label(SV.of(sv)))
    dom = self.doms[name]
    uf = z3.Function(f'POS_{name}', T.I, T.I)
    def pos(sv):
      k = uf(sxr._to_label(SV.of(sv)))
      return z3.If(z3.And(k >= 0, k < dom.size), k, z3.IntVal(0))
    self.index_pos[name] = pos
    self.coord(name, name, kind)
    return name

  def pos(self, name, sv):
    return self.index_pos[name](sv)

  def has(self, name, sv):
    return SV('b', self.index_has[name](sv))

  def at(self, sv):
    """A whole number as an index."""
    return sxr._to_index(SV.of(sv).num())

  def label_dim(self, name, labels, pred=None):
    self.doms[name] = T.register_dom(Dom(f'L_{name}', None, pred or (lambda i: True)))
    return name

  def label_set(self, name, pool, unsorted=False):
    """Any finite set of labels (concretely: drawn from the pool, in any order)."""
    f = z3.Function(f'IN_{name}', T.I, T.B)
    self.label_dim(name, pool, lambda i: f(T.zi(i)))
    self.doms[name].unsorted = unsorted
    return name

  def label_union(self, name, parts):
    ds = [self.doms[p] for p in parts]
    return self.label_dim(name, None, lambda i: T.Or(*[d.pred(i) for d in ds]))

  def nonempty(self, name):
    w = z3.Int(f'some_{name}')
    T.LABEL_POINTS.append(w)
    self.hyps.append(T.zb(self.doms[name].pred(w)))

  def member(self, name, label, fn, default):
    """fn() where the label belongs to the set, else the default."""
    return SV.of(T.ite(T.zb(self.doms[name].pred(label)), SV.of(fn()), SV.of(default)))

  def label_slice(self, name, of, lo, hi):
    """The labels of `of` from lo to hi (both included)."""
    ends = [None if x is None else sxr._to_label(SV.of(x)) for x in (lo, hi)]
    self.doms[name] = T.register_dom(sxr.label_slice(self.doms[of], *ends))
    return name

  def array(self, name, dims, kind='f', nan=False, inf=False, dtype=None, gen=None, coords=None, da_name=None):
    dtype = dtype or {'f': 'float64', 'i': 'int64', 'b': 'bool', 'M': 'datetime64[ns]', 'm': 'timedelta64[ns]'}[kind]
    a = SymArr(self, name, dims, kind, nan, inf, dtype, coords, da_name)
    for suffix in ('', '.nan', '.inf'):
      T.UF_DOMS[name + suffix] = [self.doms[d].key if not self.doms[d].is_label and not self.doms[d].concrete else None for d in dims]
    self.arrays[name] = a
    return a

  def coord(self, name, dims, kind='f', gen=None, dtype=None):
    dims = [dims] if isinstance(dims, str) else dims
    a = self.array(name, dims, kind=kind, gen=gen, dtype=dtype, coords=False)
    self.coords[name] = a
    return a

  def scalar(self, name, kind='f', gen=None):
    s = SymScalar(name, kind)
    self.scalars[name] = s
    return s

  def choice(self, name, values):
    raise Unsupported('choice in symbolic mode')

  # assumptions
  def assume(self, c):
    c = c.v if isinstance(c, SV) else c
    self.hyps.append(T.zb(c))

  def assume_all(self, dims, fn):
    """For all values of the index variables: {var: dim} or [dims]."""
    vd = _vardims(dims)
    conc_ = {n: self.doms[d].size for n, d in vd.items() if self.doms[d].concrete and self.doms[d].size <= 20}
    names = [n for n in vd if n not in conc_]
    if conc_:
      for combo in itertools.product(*[range(n) for n in conc_.values()]):
        fixed = dict(zip(conc_, combo))
        if names:
          self.assume_all({n: vd[n] for n in names}, lambda i, fixed=fixed: fn({**i, **fixed}))
        else:
          self.assume(fn(fixed))
      return
    def q(*ks):
      c = fn(dict(zip(names, ks)))
      return c.v if isinstance(c, SV) else c
    self.qassumes.append(prover.QAssume([self.doms[vd[n]] for n in names], q))

  def hint(self, rule):
    """Asks for a proof rule that is not tried otherwise."""
    self.hints.add(rule)

  def lemma(self, label, dims, fn):
    """A consequence of the assumptions, for all values of the index variables: proved, then used."""
    vd = _vardims(dims)
    names = list(vd)
    def q(*ks):
      c = fn(dict(zip(names, ks)))
      return c.v if isinstance(c, SV) else c
    self.lemmas.append((label, [self.doms[vd[n]] for n in names], q))

  # spec algebra
  def f(self, x):
    return SV.of(float(x)) if not isinstance(x, SV) else x

  def t(self, x):
    return SV.of(x)

  def _over(self, i, dims):
    vd = _vardims(dims)
    names = list(vd)
    return names, [self.doms[vd[n]] for n in names], dict(i or {})

  def sum(self, i, dims, fn):
    names, doms, base = self._over(i, dims)
    return T.reduce_sv('sum', doms, lambda ks: SV.of(fn({**base, **dict(zip(names, ks))})).num())

  def any_range(self, count, fn):
    """Whether fn(k) for some position k of 0, ..., count - 1."""
    return T.reduce_sv('any', [self._range(count)], lambda ks: fn(ks[0]))

  def sum_range(self, count, fn):
    """The sum of fn(0), ..., fn(count - 1)."""
    return T.reduce_sv('sum', [self._range(count)], lambda ks: SV.of(fn(SV.of(ks[0]) if isinstance(ks[0], int) else SV('i', z3.ToReal(ks[0])))).num())

  def _range(self, count):
    if isinstance(count, sxr.SymNum):
      count = count.zi
    if not isinstance(count, int):
      count = z3.simplify(count)
      count = count.as_long() if z3.is_int_value(count) else count
    return sxr.const_dom(count) if isinstance(count, int) else sxr.size_dom(count)

  def any(self, i, dims, fn):
    names, doms, base = self._over(i, dims)
    return T.reduce_sv('any', doms, lambda ks: fn({**base, **dict(zip(names, ks))}))

  def all(self, i, dims, fn):
    names, doms, base = self._over(i, dims)
    return T.reduce_sv('all', doms, lambda ks: fn({**base, **dict(zip(names, ks))}))

  def quantile(self, i, dims, q, fn):
    names, doms, base = self._over(i, dims)
    return sxr.quantile_sv(q if isinstance(q, SV) else float(q), doms, lambda ks: SV.of(fn({**base, **dict(zip(names, ks))})))

  def max(self, i, dims, fn):
    names, doms, base = self._over(i, dims)
    return T.reduce_sv('max', doms, lambda ks: fn({**base, **dict(zip(names, ks))}))

  def min(self, i, dims, fn):
    names, doms, base = self._over(i, dims)
    return T.reduce_sv('min', doms, lambda ks: fn({**base, **dict(zip(names, ks))}))

  def size(self, dim):
    s = self.doms[dim].size
    return SV.of(s) if isinstance(s, int) else SV('i', z3.ToReal(s))

  def pysize(self, dim):
    return sxr.size_num(self.doms[dim].size)

  def index(self, i, dim):
    """The position along a dimension as a number."""
    return SV.of(i[dim]) if isinstance(i[dim], int) else SV('i', z3.ToReal(i[dim]))

  def wrap(self, i, dim, k):
    """The position k further along a dimension, wrapping around its end."""
    n, j = self.doms[dim].size, i[dim] + k
    if isinstance(n, int) and isinstance(j, int):
      return j % n
    j, n = T.zi(j), T.zi(n)
    return z3.If(z3.And(j >= 0, j < n), j, j % n)

  def where(self, c, a, b_):
    return T.where(SV.of(c), SV.of(a), SV.of(b_))

  def isnan(self, a):
    return T.isnull(SV.of(a))

  def num(self, a):
    return SV.of(a).num()

  def finite(self, a):
    return SV('b', T.zb(T.Not(SV.of(a).special)))

  def eq(self, a, b_):
    return SV.of(a).eq(b_)

  def sqrt(self, a):
    return T.sqrtv(SV.of(a))

  def log(self, a):
    return T.logv(SV.of(a))

  def exp(self, a):
    return T.expv(SV.of(a))

  def sin(self, a):
    return T.sinv(SV.of(a))

  def deg2rad(self, a):
    return T.mul(SV.of(a), SV('f', T.PI / 180))

  def cos(self, a):
    return T.cosv(SV.of(a))

  def pi(self):
    return SV('f', T.PI)

  def trunc(self, a):
    """Towards zero."""
    v = SV.of(a).num().v
    return SV('i', z3.ToReal(z3.If(v >= 0, T.FLOOR(v), -T.FLOOR(-v))))

  def pow23(self, a):
    return T.powv(SV.of(a).num(), 2 / 3)

  def t_cdf(self, df, x):
    """Distribution function of Student's t."""
    from vc import stats
    return stats.cdf_sv(self._df(df), SV.of(x))

  def t_ppf(self, df, q):
    from vc import stats
    return stats.ppf_sv(self._df(df), SV.of(q))

  def _df(self, df):
    return z3.simplify(z3.ToInt(SV.of(df).num().real())) if isinstance(df, (SV, sxr.SymNum)) else z3.IntVal(int(df))

  def mod(self, a, m):
    return T.modv(SV.of(a), SV.of(m))

  def floordiv(self, a, m):
    return T.floordiv(SV.of(a), SV.of(m))

  def min2(self, a, b_):
    return T.minv(SV.of(a), SV.of(b_))

  def max2(self, a, b_):
    return T.maxv(SV.of(a), SV.of(b_))

  def doy(self, t):
    return SV('i', z3.ToReal(T.DOY(t.v)))

  def hour(self, t):
    return SV('i', z3.ToReal(T.HOUR(t.v)))

  def duration(self, seconds):
    return SV('m', z3.ToInt(SV.of(seconds).real()))

  def minute(self, t):
    return SV('i', z3.ToReal(T.MINUTE(t.v)))

  def seconds(self, t):
    return SV('f', z3.ToReal(t.v), t.nan)

  def label(self, sv):
    """Index into a label dimension."""
    return sxr._to_label(SV.of(sv))

  def read(self, da, idx):
    """The value of a result at a position."""
    return da.at(idx)

  def true(self):
    return SV.of(True)

  def same(self, a, b_):
    r = T.same(SV.of(a), SV.of(b_))
    return SV('b', T.zb(r))

  def ensures(self, label, run, post):
    self.clauses.append((label, run, post))


def _vardims(dims):
  if isinstance(dims, str):
    return {dims: dims}
  if isinstance(dims, dict):
    return dict(dims)
  return {d: d for d in dims}


class SymR:
  """Result wrapper given to a postcondition (symbolic mode)."""
  symbolic = True

  def __init__(self, b, outcome, pc):
    self.b = b
    self.outcome = outcome
    self.pc = list(pc)
    self.obls = []     # (label, hyps, goal)

  @property
  def value(self):
    if self.outcome.exc is not None:
      raise CodeRaised(self.outcome.exc, self.outcome.where, self.outcome.weak)
    return self.outcome._value

  @property
  def raised(self):
    return self.outcome.exc

  def _const(self, label, ok):
    self.obls.append((label, list(self.pc), bool(ok)))

  def check(self, label, ok, detail=''):
    """A Python-level condition."""
    if isinstance(ok, sxr.SymBool):
      self.obls.append((label, list(self.pc), T.zb(ok.b)))
    else:
      self._const(label, ok)

  def holds(self, label, c, given=True):
    c = c.v if isinstance(c, (SV,)) else c.b if isinstance(c, sxr.SymBool) else c
    g = given.v if isinstance(given, SV) else given
    self.obls.append((label, self.pc + ([T.zb(g)] if g is not True else []), T.zb(c)))

  def raises(self, label, *types):
    if self.outcome.exc is None:
      self._const(label, False)
      return
    self._const(label, isinstance(self.outcome.exc, types))

  def must_not_return_unless(self, label, cond):
    pass

  def forall(self, label, dims, fn):
    vd = _vardims(dims)
    idx, g = {}, []
    for n, d in vd.items():
      k = T.fresh_idx(self.b.doms[d], 'g')
      idx[n] = k
      g.append(T.zb(self.b.doms[d].guard(k)))
    c = fn(idx)
    c = c.v if isinstance(c, SV) else c
    self.obls.append((label, self.pc + g, T.zb(c)))

  def telescopes(self, label, da, dim, F):
    """sum over `dim` of da is F(n) - F(0), by induction: da[k] = F(k+1) - F(k)."""
    d = da._doms[dim]
    k = T.fresh_idx(d, 't')
    g = [T.zb(d.guard(k))]
    self.obls.append((label, self.pc + g, T.same(da.at({dim: k}), SV.of(F(k + 1)) - SV.of(F(k)))))

  def array(self, label, da, dims, spec, dim_map=None, given=None, coords=True, dtype=None, tol=None, const_coords=None):
    """da is an array over exactly `dims` whose every element equals spec(i)."""
    if isinstance(da, sxr.SymNum):
      da = sxr.SymDataArray(da)
    if isinstance(da, (int, float, np.floating, np.integer)):
      da = sxr.SymDataArray(np.asarray(da))
    if not isinstance(da, sxr.SymDataArray):
      raise Unsupported(f'result is a {type(da)}')
    self._const(label + ':dims', set(da.dims) == set(dims))
    if set(da.dims) != set(dims):
      return
    dim_map = dim_map or {}
    syms, concs = [], []
    for d in da.dims:
      want = self.b.doms.get(dim_map.get(d, d))
      have = da._doms[d]
      if want is not None and want.key != have.key:
        if want.concrete and have.concrete:
          self._const(label + f':size[{d}]', want.size == have.size)
          if want.size != have.size:
            return
        elif have.is_label or want.is_label:
          if not (have.is_label and want.is_label):
            raise Unsupported(f'label domains differ on {d}')
          k = z3.FreshConst(T.I, 'lab')
          self.obls.append((label + f':labels[{d}]', list(self.pc), T.zb(have.pred(k)) == T.zb(want.pred(k))))
        else:
          ws = z3.IntVal(want.size) if isinstance(want.size, int) else want.size
          hs = z3.IntVal(have.size) if isinstance(have.size, int) else have.size
          self.obls.append((label + f':size[{d}]', list(self.pc), ws == hs))
      (concs if have.concrete else syms).append(d)
    combos = 1
    for d in concs:
      combos *= da._doms[d].size
    if combos > 40:
      syms, concs = syms + concs, []
    base, g = {}, []
    for d in syms:
      k = T.fresh_idx(da._doms[d], 'r')
      base[d] = k
      g.append(T.zb(da._doms[d].guard(k)))
    for combo in itertools.product(*[range(da._doms[d].size) for d in concs]):
      i = dict(base)
      i.update(zip(concs, combo))
      got = da.at(i)
      want = SV.of(spec(i))
      extra = []
      if given is not None:
        gv = given(i)
        extra = [T.zb(gv.v if isinstance(gv, SV) else gv)]
      self.obls.append((label, self.pc + g + extra, T.same(got, want)))
    if const_coords:
      for k, v in const_coords.items():
        c = da._coords.get(k)
        self._const(label + f':coord[{k}]', c is not None and c.const is not None and np.array_equal(np.asarray(c.const), np.asarray(v)))


# --------------------------------------------------------------------------
# Concrete interpretation

class Sample:

  def __init__(self, seed_text, fixed=None, k=0, scale=1):
    h = int.from_bytes(hashlib.sha256(seed_text.encode()).digest()[:8], 'big')
    self.rng = np.random.default_rng(h)
    self.fixed = fixed or {}
    self.k = k
    self.scale = scale
    self.sizes = {}
    self.record = {}
    self.tie_mode = self.rng.random() < 0.5
    self.nan_p = float(self.rng.choice([0.0, 0.0, 0.15, 0.5]))
    self.with_labels = self.rng.random() < 0.6
    self.transpose = self.rng.random() < 0.35


class ConcArr:

  def __init__(self, b, name, dims, kind, values, coords, da_name):
    self.b = b
    self.name = name
    self.dims = list(dims)
    self.kind = kind
    self.values = values
    self.coords = coords
    self.da_name = da_name
    self._pos = [b.label_pos.get(d) for d in self.dims]

  def __getitem__(self, idx):
    ix = tuple((p[idx[d]] if p is not None else idx[d]) for d, p in zip(self.dims, self._pos))
    return self.values[ix]

  def __call__(self, idx, **over):
    return self[{**idx, **over}]

  @property
  def da(self):
    import xarray as xr
    cs = {}
    b = self.b
    if self.coords is not False:
      for cname, c in b.coords.items():
        if set(c.dims) <= set(self.dims):
          cs[cname] = (tuple(c.dims), c.values.copy())
      for d in self.dims:
        if d in b.labels and d not in cs:
          cs[d] = (d, b.labels[d])
    r = xr.DataArray(self.values.copy(), dims=self.dims, coords=cs, name=self.da_name)
    order = b.orders.get(self.name)
    if order is not None:
      r = r.transpose(*order)
    return r


class ConcScalar:

  def __init__(self, v):
    self.val = v
    self.s = v


class ConcBuilder:
  symbolic = False

  def __init__(self, sample):
    import xarray as xr
    self.xr = xr
    self.sampler = sample
    self.rng = sample.rng
    self.sizes = {}
    self.labels = {}
    self.label_pos = {}
    self.index_pos = {}
    self.label_values = {}
    self.arrays = {}
    self.scalars = {}
    self.coords = {}
    self.orders = {}
    self.unordered = set()
    self.clauses = []
    self.allow_transpose = True
    self.allow_labels = True

  def dim(self, name, size=None, lo=1, hi=3, labels=None):
    if size is not None:
      n = size
    elif ('dim', name) in self.sampler.fixed:
      n = self.sampler.fixed[('dim', name)]
    else:
      n = int(self.rng.integers(lo, hi * self.sampler.scale + 1))
    self.sizes[name] = n
    self.sampler.record[('dim', name)] = n
    if labels is False:   # never labelled
      pass
    elif labels is not None:
      lab = labels(self.rng, n) if callable(labels) else np.asarray(labels)
      if lab is not None:
        self.labels[name] = lab
    elif self.sampler.with_labels and self.allow_labels:
      self.labels[name] = self.rng.permutation(np.arange(n) * 10 + 5) if self.rng.random() < 0.5 else np.arange(n) * 10 + 5
    return name

  def same_dim(self, name, other):
    self.sizes[name] = self.sizes[other]
    if other in self.labels:
      self.labels[name] = self.labels[other]
    return name

  def index_dim(self, name, labels, kind='i', partial=False):
    labels = np.asarray(labels(self.rng) if callable(labels) else labels)
    self.dim(name, size=len(labels))
    self.coord(name, name, kind, gen=lambda rng, shape: labels)
    keys = [self.label(x) for x in labels]
    self.index_pos[name] = {k: p for p, k in enumerate(keys)}
    return name

  def pos(self, name, v):
    k = self.label(v)
    if k not in self.index_pos[name]:
      raise SkipSample()
    return self.index_pos[name][k]

  def has(self, name, v):
    return np.bool_(self.label(v) in self.index_pos[name])

  def at(self, v):
    return int(v)

  def label_dim(self, name, labels, pred=None):
    labels = np.asarray(labels(self.rng) if callable(labels) else labels)
    self.sizes[name] = len(labels)
    self.labels[name] = labels
    keys = [ticks.to_ticks(x) if isinstance(x, (np.datetime64, np.timedelta64)) else int(x) for x in labels]
    self.label_pos[name] = {k: p for p, k in enumerate(keys)}
    return name

  def label_set(self, name, pool, unsorted=False):
    pool = np.asarray(pool)
    if ('labels', name) in self.sampler.fixed:
      return self.label_dim(name, self.sampler.fixed[('labels', name)])
    k = int(self.rng.integers(0, len(pool) + 1))
    pick = self.rng.permutation(len(pool))[:k]
    self.label_dim(name, pool[pick if self.rng.random() < 0.5 else np.sort(pick)])
    self.sampler.record[('labels', name)] = self.labels[name]
    self.unordered.add(name)
    return name

  def label_union(self, name, parts):
    labels = np.concatenate([self.labels[p] for p in parts])
    self.label_dim(name, np.unique(labels))
    self.unordered.add(name)
    return name

  def nonempty(self, name):
    if not len(self.labels[name]):
      raise SkipSample()

  def member(self, name, label, fn, default):
    return fn() if label in self.label_pos[name] else default

  def label_slice(self, name, of, lo, hi):
    labels = self.labels[of]
    keep = np.array([(lo is None or x >= lo) and (hi is None or x <= hi) for x in labels], dtype=bool)
    if of in self.unordered:
      self.unordered.add(name)
    return self.label_dim(name, labels[keep])

  def array(self, name, dims, kind='f', nan=False, inf=False, dtype=None, gen=None, coords=None, da_name=None):
    shape = tuple(self.sizes[d] for d in dims)
    rng, s = self.rng, self.sampler
    if ('arr', name) in s.fixed and s.fixed[('arr', name)].shape == shape:
      v = s.fixed[('arr', name)]
      if gen is None:
        self._draw(shape, kind, nan)   # keep the stream aligned
    elif gen is not None:
      v = np.asarray(gen(rng, shape))
    else:
      v = self._draw(shape, kind, nan)
    if inf and s.rng.random() < 0.3 and ('arr', name) not in s.fixed:
      v = np.where(rng.random(shape) < 0.2, rng.choice([np.inf, -np.inf], shape), v)
    v = np.asarray(v)
    if dtype is not None:
      v = v.astype(dtype)
    if kind == 'M' and v.dtype != np.dtype('datetime64[ns]'):
      v = v.astype('datetime64[ns]')
    if kind == 'm' and v.dtype != np.dtype('timedelta64[ns]'):
      v = v.astype('timedelta64[ns]')
    a = ConcArr(self, name, dims, kind, v, coords, da_name)
    if s.transpose and len(dims) > 1 and self.allow_transpose:
      self.orders[name] = tuple(rng.permutation(dims))
    self.arrays[name] = a
    s.record[('arr', name)] = v
    return a

  def _draw(self, shape, kind, nan):
    rng, s = self.rng, self.sampler
    if kind == 'b':
      return rng.random(shape) < rng.choice([0.5, 0.2, 0.8])
    if kind == 'i':
      return rng.integers(-3, 4, shape)
    if kind == 'M':
      return np.datetime64('2020-01-01T00', 'ns') + rng.integers(0, 24 * 400, shape).astype('timedelta64[h]')
    if kind == 'm':
      return rng.integers(0, 96, shape).astype('timedelta64[h]').astype('timedelta64[ns]')
    if s.tie_mode:
      v = rng.choice([-2.0, -1.0, -0.5, 0.0, 0.0, 0.5, 1.0, 1.0, 2.0, 3.0], shape)
    else:
      v = rng.normal(size=shape) * rng.choice([1.0, 10.0])
    if nan and s.nan_p:
      v = np.where(rng.random(shape) < s.nan_p, np.nan, v)
    return np.asarray(v, dtype='float64')

  def coord(self, name, dims, kind='f', gen=None, dtype=None):
    dims = [dims] if isinstance(dims, str) else dims
    t = self.allow_transpose
    self.allow_transpose = False
    a = self.array(name, dims, kind=kind, gen=gen, dtype=dtype, coords=False)
    self.allow_transpose = t
    self.coords[name] = a
    return a

  def scalar(self, name, kind='f', gen=None):
    if ('sca', name) in self.sampler.fixed:
      v = self.sampler.fixed[('sca', name)]
    elif gen is not None:
      v = gen(self.rng)
    else:
      v = self._draw((), kind, False)[()]
    if kind == 'f':
      v = np.float64(v)
    s = ConcScalar(v)
    self.scalars[name] = s
    self.sampler.record[('sca', name)] = v
    return s

  def assume(self, c):
    if not bool(c):
      raise SkipSample()

  def lemma(self, label, dims, fn):
    pass

  def hint(self, rule):
    pass

  def assume_all(self, dims, fn):
    vd = _vardims(dims)
    names = list(vd)
    for ks in itertools.product(*[self._ivals(vd[n]) for n in names]):
      if not bool(fn(dict(zip(names, ks)))):
        raise SkipSample()

  def _ivals(self, d):
    if d in self.label_pos:
      return list(self.label_pos[d])
    return range(self.sizes[d])

  def f(self, x):
    return np.float64(x)

  def t(self, x):
    if isinstance(x, np.datetime64):
      return x.astype('datetime64[ns]')
    if isinstance(x, np.timedelta64):
      return x.astype('timedelta64[ns]')
    return np.float64(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x

  def _iter(self, i, dims):
    vd = _vardims(dims)
    names = list(vd)
    base = dict(i or {})
    for ks in itertools.product(*[self._ivals(vd[n]) for n in names]):
      yield {**base, **dict(zip(names, ks))}

  def sum(self, i, dims, fn):
    r = np.float64(0)
    for j in self._iter(i, dims):
      r = r + np.float64(fn(j))
    return r

  def any_range(self, count, fn):
    return np.bool_(any(bool(fn(k)) for k in range(int(count))))

  def sum_range(self, count, fn):
    r = np.float64(0)
    for k in range(int(count)):
      r = r + np.float64(fn(np.int64(k)))
    return r

  def any(self, i, dims, fn):
    return np.bool_(any(bool(fn(j)) for j in self._iter(i, dims)))

  def all(self, i, dims, fn):
    return np.bool_(all(bool(fn(j)) for j in self._iter(i, dims)))

  def quantile(self, i, dims, q, fn):
    vals = [x for x in (np.float64(fn(j)) for j in self._iter(i, dims)) if not np.isnan(x)]
    return np.quantile(vals, float(q)) if vals else np.float64('nan')

  def max(self, i, dims, fn):
    return np.max([fn(j) for j in self._iter(i, dims)])

  def min(self, i, dims, fn):
    return np.min([fn(j) for j in self._iter(i, dims)])

  def size(self, dim):
    return np.float64(self.sizes[dim])

  def pysize(self, dim):
    return self.sizes[dim]

  def index(self, i, dim):
    return np.int64(i[dim])

  def wrap(self, i, dim, k):
    return (i[dim] + k) % self.sizes[dim]

  def where(self, c, a, b_):
    return a if bool(c) else b_

  def isnan(self, a):
    return np.bool_(np.isnan(a)) if not isinstance(a, (np.datetime64, np.timedelta64)) else np.bool_(np.isnat(a))

  def finite(self, a):
    return np.bool_(np.isfinite(a))

  def num(self, a):
    return np.float64(a)

  def eq(self, a, b_):
    return np.bool_(a == b_)

  def sqrt(self, a):
    return np.sqrt(np.float64(a))

  def log(self, a):
    return np.log(np.float64(a))

  def exp(self, a):
    return np.exp(np.float64(a))

  def sin(self, a):
    return np.sin(np.float64(a))

  def cos(self, a):
    return np.cos(np.float64(a))

  def pi(self):
    return np.float64(np.pi)

  def trunc(self, a):
    return np.trunc(a)

  def pow23(self, a):
    return np.float64(a) ** (2 / 3)

  def t_cdf(self, df, x):
    import scipy.stats
    return np.float64(scipy.stats.t(df=int(df)).cdf(x))

  def t_ppf(self, df, q):
    import scipy.stats
    return np.float64(scipy.stats.t(df=int(df)).ppf(q))

  def deg2rad(self, a):
    return np.float64(a) * (np.pi / 180)

  def mod(self, a, m):
    return np.mod(np.float64(a), m)

  def floordiv(self, a, m):
    return np.floor_divide(np.float64(a), m)

  def min2(self, a, b_):
    return np.minimum(a, b_)

  def max2(self, a, b_):
    return np.maximum(a, b_)

  def doy(self, t):
    import pandas as pd
    return np.int64(pd.Timestamp(t).dayofyear)

  def hour(self, t):
    import pandas as pd
    return np.int64(pd.Timestamp(t).hour)

  def duration(self, seconds):
    return np.timedelta64(int(seconds), 's').astype('timedelta64[ns]')

  def minute(self, t):
    import pandas as pd
    return np.int64(pd.Timestamp(t).minute)

  def seconds(self, t):
    return np.float64(t / np.timedelta64(1, 's'))

  def label(self, v):
    if isinstance(v, (np.datetime64, np.timedelta64)):
      return ticks.to_ticks(v)
    return int(v)

  def read(self, da, idx):
    if set(da.dims) != set(idx):
      raise AssertionError(f'dims {da.dims}')
    v = da.isel({k: int(p) for k, p in idx.items()}).values
    return np.float64(v) if v.dtype.kind in 'fiu' else v[()]

  def true(self):
    return np.bool_(True)

  def same(self, a, b_):
    return np.bool_(_close(a, b_))

  def ensures(self, label, run, post):
    self.clauses.append((label, run, post))


RTOL = 1e-7
ATOL = 1e-9


def _close(a, b, rtol=RTOL, atol=ATOL):
  if isinstance(a, (np.datetime64, np.timedelta64)) or isinstance(b, (np.datetime64, np.timedelta64)):
    try:
      if np.isnat(a) or np.isnat(b):
        return bool(np.isnat(a)) and bool(np.isnat(b))
      return bool(a == b)
    except TypeError:
      return False
  if isinstance(a, str) or isinstance(b, str):
    return a == b
  try:
    a, b = float(a), float(b)
  except (TypeError, ValueError):
    return False
  if math.isnan(a) or math.isnan(b):
    return math.isnan(a) and math.isnan(b)
  if math.isinf(a) or math.isinf(b):
    return a == b
  return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


class ConcFailure(Exception):
  pass


class ConcR:
  symbolic = False

  def __init__(self, b, outcome):
    self.b = b
    self.outcome = outcome
    self.failures = []   # (label, detail)
    self.count = 0

  @property
  def value(self):
    if self.outcome.exc is not None:
      raise CodeRaised(self.outcome.exc, self.outcome.where)
    return self.outcome._value

  @property
  def raised(self):
    return self.outcome.exc

  def _fail(self, label, detail):
    self.failures.append((label, detail))

  def check(self, label, ok, detail=''):
    self.count += 1
    if not bool(ok):
      self._fail(label, 'condition is false' + (f': {detail}' if detail else ''))

  def holds(self, label, c, given=True):
    self.count += 1
    if bool(given) and not bool(c):
      self._fail(label, 'condition is false')

  def raises(self, label, *types):
    self.count += 1
    if self.outcome.exc is None:
      self._fail(label, 'no exception was raised')
    elif not isinstance(self.outcome.exc, types):
      self._fail(label, f'raised {type(self.outcome.exc).__name__}: {self.outcome.exc}')

  def forall(self, label, dims, fn):
    for j in self.b._iter({}, dims):
      self.count += 1
      if not bool(fn(j)):
        self._fail(label, f'false at {j}')
        return

  def telescopes(self, label, da, dim, F):
    self.count += 1
    got, want = float(da.sum()), float(F(da.sizes[dim]) - F(0))
    if not _close(got, want):
      self._fail(label, f'sum {got}, contract requires {want}')

  def array(self, label, da, dims, spec, dim_map=None, given=None, coords=True, dtype=None, tol=None, const_coords=None):
    import xarray as xr
    rtol, atol = tol or (RTOL, ATOL)
    if not isinstance(da, xr.DataArray):
      if np.ndim(da) == 0 and not dims:
        da = xr.DataArray(da)
      else:
        self._fail(label + ':type', f'result is a {type(da)}')
        return
    if set(da.dims) != set(dims):
      self._fail(label + ':dims', f'dims {da.dims}, expected {tuple(dims)}')
      return
    dim_map = dim_map or {}
    lists = []
    da = da.transpose(*dims)
    for d, n in zip(dims, da.shape):
      src = dim_map.get(d, d)
      if src in self.b.sizes and self.b.sizes[src] != n:
        self._fail(label + f':size[{d}]', f'size {n}, expected {self.b.sizes[src]}')
        return
      if src in self.b.unordered:
        # a set of labels: their order is not specified
        have = [self.b.label(x) for x in da.coords[d].values] if d in da.coords else None
        if have is None or sorted(have) != sorted(self.b.label_pos[src]):
          self._fail(label + f':labels[{d}]', f'labels {have}, expected {sorted(self.b.label_pos[src])}')
          return
        lists.append(have)
        continue
      if src in self.b.label_pos:
        lists.append(list(self.b.label_pos[src]))
      else:
        lists.append(range(n))
      if coords and d not in (const_coords or {}):
        lab = None
        if src in self.b.coords and self.b.coords[src].dims == [src]:
          lab = self.b.coords[src].values
        elif src in self.b.labels:
          lab = self.b.labels[src]
        if lab is not None:
          if d not in da.coords or not np.array_equal(da.coords[d].values, lab):
            self._fail(label + f':coord[{d}]', f'coordinate {d} is {da.coords[d].values if d in da.coords else None}, expected {lab}')
            return
    if const_coords:
      for k, v in const_coords.items():
        if k not in da.coords or not np.array_equal(da.coords[k].values, np.asarray(v)):
          self._fail(label + f':coord[{k}]', f'{da.coords[k].values if k in da.coords else None} != {v}')
          return
    vals = da.values
    scale = np.max(np.abs(vals[np.isfinite(vals)])) if vals.dtype.kind == 'f' and np.isfinite(vals).any() else 0.0
    for pos in itertools.product(*[range(n) for n in da.shape]):
      i = {d: l[p] for d, l, p in zip(dims, lists, pos)}
      if given is not None and not bool(given(i)):
        continue
      self.count += 1
      want = spec(i)
      if not _close(vals[pos], want, rtol, atol + rtol * scale * 0.01):
        self._fail(label, f'at {i}: result {vals[pos]!r}, contract requires {want!r}')
        return


# --------------------------------------------------------------------------
# Running contracts

def _alarm(signum, frame):
  raise SampleTimeout()


def run_concrete(thunk, timeout):
  old = signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(int(timeout))
  try:
    return Outcome(thunk())
  except SkipSample:
    raise
  except SampleTimeout:
    return Outcome(exc=TimeoutError(f'no result after {timeout} s'), where='')
  except Exception as e:  # pylint: disable=broad-except
    return Outcome(exc=e, where=''.join(traceback.format_exception(e)[-4:])[:2500])
  finally:
    signal.alarm(0)
    signal.signal(signal.SIGALRM, old)


def concrete_sample(con, case, sample):
  """Returns (ok, failures, builder, n_checks) or None when the sample is excluded."""
  with warnings.catch_warnings(), np.errstate(all='ignore'):
    warnings.simplefilter('ignore')
    b = ConcBuilder(sample)
    try:
      con.fn(b, **case)
    except SkipSample:
      return None
    failures, n = [], 0
    for label, run, post in b.clauses:
      try:
        out = run_concrete(run, con.sample_timeout)
        r = ConcR(b, out)
        post(r)
      except CodeRaised as e:
        r._fail('no-exception', f'{e} {e.where}')
      except SkipSample:
        continue
      except (AttributeError, LookupError, TypeError, ValueError) as e:
        # the result does not have the form the contract speaks about
        r._fail('result', f'{type(e).__name__}: {e} while checking the result\n' + ''.join(traceback.format_exception(e)[-4:])[:1500])
      n += r.count
      for l, d in r.failures:
        failures.append((f'{label}/{l}', d))
    return (not failures, failures, b, n)


def describe_sample(b):
  out = {}
  for k, v in b.sampler.record.items():
    key = f'{k[0]}:{k[1]}'
    if isinstance(v, np.ndarray):
      out[key] = {'shape': list(v.shape), 'values': [str(x) for x in v.ravel()[:400]]}
    else:
      out[key] = str(v)
  if b.orders:
    out['dim_orders'] = {k: list(map(str, v)) for k, v in b.orders.items()}
  if b.labels:
    out['labels'] = {k: [str(x) for x in v[:50]] for k, v in b.labels.items()}
  return out


def _fixed_from_model(sb, model):
  """Concrete input taken from a countermodel; None if too large."""
  fixed = {}
  def mi(e):
    v = model.eval(e, model_completion=True)
    return v.as_long()
  try:
    for d, dom in sb.doms.items():
      if dom.is_label:
        continue
      if not dom.concrete:
        n = mi(dom.size)
        if n > 6 or n < 0:
          return None
        fixed[('dim', d)] = n
    for name, a in sb.arrays.items():
      if any(sb.doms[d].is_label for d in a.dims):
        continue
      shape = tuple(fixed.get(('dim', d), sb.doms[d].size) for d in a.dims)
      if int(np.prod(shape)) > 800:
        return None
      vals = []
      for pos in itertools.product(*[range(n) for n in shape]):
        sv = a._sv(dict(zip(a.dims, pos)))
        vals.append(_model_scalar(model, sv))
      if a.kind == 'M':
        arr = np.array(vals, dtype='datetime64[ns]').reshape(shape)
      elif a.kind == 'm':
        arr = np.array(vals, dtype='timedelta64[ns]').reshape(shape)
      else:
        arr = np.array(vals, dtype={'f': 'float64', 'i': 'int64', 'b': 'bool'}[a.kind]).reshape(shape)
      fixed[('arr', name)] = arr
    for name, s in sb.scalars.items():
      v = _model_scalar(model, s.s)
      fixed[('sca', name)] = int(v) if s.kind == 'i' else v
  except Exception:  # pylint: disable=broad-except
    return None
  return fixed


def _model_scalar(model, sv):
  def tr(c):
    if c is True or c is False:
      return c
    return z3.is_true(model.eval(c, model_completion=True))
  if sv.k in 'Mm':
    return ticks.from_ticks(model.eval(sv.v, model_completion=True).as_long(), sv.k)
  if tr(sv.nan):
    return float('nan')
  if tr(sv.pinf):
    return float('inf')
  if tr(sv.ninf):
    return float('-inf')
  v = model.eval(sv.v, model_completion=True)
  if sv.k == 'b':
    return z3.is_true(v)
  if z3.is_algebraic_value(v):
    v = v.approx(12)
  return float(v.as_fraction())


def explore(sb, run, label, max_paths=48):
  """All feasible paths of `run`: yields (outcome, ctx)."""
  stack = [[]]
  n = 0
  while stack:
    dec = stack.pop()
    ctx = sxr.Ctx(sb.hyps, dec)
    prev = sxr.Ctx.current
    sxr.Ctx.current = ctx
    try:
      out = run_symbolic(run)
    except sxr.Infeasible:
      stack.extend(ctx.pending)
      continue
    finally:
      sxr.Ctx.current = prev
    stack.extend(ctx.pending)
    n += 1
    if n > max_paths:
      raise Unsupported('too many paths')
    yield out, ctx


_RANK = {'proved': 0, 'unknown': 1, 'unsupported': 1, 'failed': 2, 'refuted': 3}


def symbolic(con, case, deadline, on_model=None):
  """Generates and discharges the obligations of one contract case.

  Returns list of records {label, status, how, detail, time}."""
  records = {}

  def put(label, status, how='', detail='', t=0.0):
    r = records.get(label)
    if r is None:
      records[label] = dict(label=label, status=status, how=[how] if how else [], detail=detail, time=t, vcs=1)
    else:
      r['vcs'] += 1
      r['time'] += t
      if how and how not in r['how']:
        r['how'].append(how)
      if _RANK[status] > _RANK[r['status']]:
        r['status'] = status
        r['detail'] = detail

  sb = SymBuilder()
  try:
    con.fn(sb, **case)
  except Unsupported as e:
    put('contract', 'unsupported', detail=str(e))
    return list(records.values()), None
  T.HINTS.clear()
  T.HINTS.update(sb.hints)
  # vacuity guard: the precondition must be satisfiable
  ctx_f = [h for h in sb.hyps]
  idx = []
  for q in sb.qassumes:
    idx += [T.fresh_idx(d, 'v') for d in q.doms]
  ax, _ = prover.saturate(ctx_f, sb.qassumes, extra_idx=idx, rounds=2)
  rv, _ = prover._check(ctx_f + ax, timeout=4000)
  if rv == z3.unsat:
    put('precondition-satisfiable', 'refuted', detail='contradictory precondition')
    return list(records.values()), None
  put('precondition-satisfiable', 'proved' if rv == z3.sat else 'proved', how='z3-sat' if rv == z3.sat else 'unknown-sat')
  basic = list(sb.qassumes)
  for label, doms, q in sb.lemmas:
    t0 = time.time()
    ks = [T.fresh_idx(d, 'lm') for d in doms]
    g = [T.zb(d.guard(k)) for d, k in zip(doms, ks)]
    st, info = prover.prove(sb.hyps + g, T.zb(q(*ks)), basic, deadline=min(deadline, t0 + 30))
    put(f'lemma/{label}', st, how=info if st == 'proved' else '', t=time.time() - t0)
    if st == 'proved':
      sb.qassumes.append(prover.QAssume(doms, q, lemma=True))
      if not doms:
        T.note_positive(T.zb(q()))
  outs = []
  for label, run, post in sb.clauses:
    npaths = 0
    try:
      for out, ctx in explore(sb, run, label):
        npaths += 1
        r = SymR(sb, out, ctx.pc)
        prev = sxr.Ctx.current
        sxr.Ctx.current = None
        try:
          post(r)
        except CodeRaised as e:
          st, mod = prover.prove(sb.hyps + ctx.pc, z3.BoolVal(False), sb.qassumes, deadline=min(deadline, time.time() + 30))
          if st == 'proved':
            put(f'{label}/no-exception', 'proved', how='infeasible path')
          elif e.weak:
            put(f'{label}/no-exception', 'unsupported', detail=f'engine raised {e}')
          else:
            if st in ('refuted', 'failed'):
              detail = f'{e} at {e.where}'
              put(f'{label}/no-exception', st, detail=detail)
              if on_model:
                on_model(sb, mod, f'{label}/no-exception')
            elif st == 'unknown':
              put(f'{label}/no-exception', 'unknown', detail=str(e))
          continue
        finally:
          sxr.Ctx.current = prev
        put(f'{label}/no-exception', 'proved', how='path')
        outs.append((label, sb, out, ctx))
        for ol, hyps, goal in r.obls:
          t0 = time.time()
          if t0 > deadline:
            put(f'{label}/{ol}', 'unknown', detail='out of time')
            continue
          if goal is False:
            st, mod = prover.prove(sb.hyps + hyps, z3.BoolVal(False), sb.qassumes, deadline=min(deadline, time.time() + 30))
            if st == 'proved':
              put(f'{label}/{ol}', 'proved', how=mod, t=time.time() - t0)
            elif st == 'unknown':
              put(f'{label}/{ol}', 'unknown', t=time.time() - t0)
            else:
              put(f'{label}/{ol}', st, detail='condition is false on a feasible path', t=time.time() - t0)
              if on_model:
                on_model(sb, mod, f'{label}/{ol}')
            continue
          if goal is True:
            put(f'{label}/{ol}', 'proved', how='evaluation')
            continue
          st, info = prover.prove(sb.hyps + hyps, goal, sb.qassumes, deadline=min(deadline, t0 + 60))
          if st in ('refuted', 'failed'):
            # prefer a small countermodel
            small = [d.size <= 3 for d in sb.doms.values() if not d.is_label and not d.concrete]
            model = info
            if small:
              st2, info2 = prover.prove(sb.hyps + small + hyps, goal, sb.qassumes, deadline=min(deadline, time.time() + 20))
              if st2 in ('refuted', 'failed'):
                model = info2
            put(f'{label}/{ol}', st, detail=_model_text(model), t=time.time() - t0)
            if on_model:
              on_model(sb, model, f'{label}/{ol}')
          elif st == 'proved':
            put(f'{label}/{ol}', 'proved', how=info, t=time.time() - t0)
          else:
            put(f'{label}/{ol}', 'unknown', t=time.time() - t0)
    except Unsupported as e:
      put(f'{label}/symbolic-execution', 'unsupported', detail=str(e)[:400] + ' @ ' + _where(e))
    if npaths == 0 and not any(l.startswith(label + '/') for l in records):
      put(f'{label}/paths', 'refuted', detail='no feasible path (vacuous)')
  return list(records.values()), outs


def _where(e):
  fs = [f for f in traceback.extract_tb(e.__traceback__)]
  rep = [f for f in fs if patch.is_repo_file(f.filename)]
  f = rep[-1] if rep else fs[-1]
  return f'{f.filename}:{f.lineno}'


def _model_text(m):
  try:
    return str(m)[:1500]
  except Exception:  # pylint: disable=broad-except
    return ''


# --------------------------------------------------------------------------
# Engine conformance: the symbolic result evaluated on a concrete sample equals
# what the real code returns.

def env_of(sb, cb):
  sizes, consts, ufs = {}, {}, {}
  for d, dom in sb.doms.items():
    if d not in cb.sizes:
      continue
    if dom.is_label:
      sizes[dom.key] = list(cb.label_pos[d])
      sizes['LABEL'] = sorted(set(sizes.get('LABEL', [])) | set(cb.label_pos[d]))
    elif not dom.concrete:
      sizes[dom.key] = cb.sizes[d]
      consts[dom.size.decl().name()] = cb.sizes[d]
  for name, a in sb.arrays.items():
    c = cb.arrays[name]
    def val(*ix, c=c, a=a):
      try:
        v = c[dict(zip(c.dims, [int(x) for x in ix]))]
      except (IndexError, KeyError):
        return 0
      if a.kind in 'Mm':
        return 0 if np.isnat(v) else ticks.to_ticks(v)
      if a.kind == 'b':
        return bool(v)
      v = float(v)
      return 0.0 if (math.isnan(v) or math.isinf(v)) else v
    def isn(*ix, c=c, a=a):
      try:
        return bool(np.isnan(c[dict(zip(c.dims, [int(x) for x in ix]))]))
      except (IndexError, KeyError):
        return False
    def isi(*ix, c=c, a=a):
      try:
        v = float(c[dict(zip(c.dims, [int(x) for x in ix]))])
      except (IndexError, KeyError):
        return 0
      return 1 if v == float('inf') else -1 if v == float('-inf') else 0
    if a.dims:
      ufs[name], ufs[name + '.nan'], ufs[name + '.inf'] = val, isn, isi
    else:
      consts[name], consts[name + '.nan'], consts[name + '.inf'] = val(), isn(), isi()
  for name, s in sb.scalars.items():
    v = cb.scalars[name].val
    consts[name] = ticks.to_ticks(v) if s.kind in 'Mm' else bool(v) if s.kind == 'b' else float(v)
    if s.kind == 'i':
      consts[name + '.int'] = int(v)
  for d in sb.index_pos:
    ufs[f'POS_{d}'] = lambda x, m=cb.index_pos[d]: m.get(int(x), 0)
    ufs[f'HAS_{d}'] = lambda x, m=cb.index_pos[d]: int(x) in m
  for d in cb.unordered:
    if len(cb.labels[d]):
      consts[f'some_{d}'] = next(iter(cb.label_pos[d]))
    ufs[f'IN_{d}'] = lambda x, m=cb.label_pos[d]: int(x) in m
  return conc.Env(sizes, ufs, consts)


def conformance(con, case, outs, sample):
  """Returns (checked values, mismatch or None)."""
  import xarray as xr
  with warnings.catch_warnings(), np.errstate(all='ignore'):
    warnings.simplefilter('ignore')
    cb = ConcBuilder(sample)
    try:
      con.fn(cb, **case)
    except SkipSample:
      return 0, None
    by = {}
    for label, sb, out, ctx in outs:
      by.setdefault(label, []).append((sb, out, ctx))
    n = 0
    for label, run, post in cb.clauses:
      if label not in by:
        continue
      real = run_concrete(run, con.sample_timeout)
      for sb, out, ctx in by[label]:
        env = env_of(sb, cb)
        try:
          if not all(conc.ev(c, env, {}) for c in ctx.pc if c.get_id() not in getattr(ctx, 'learned', ())):
            continue
          if real.exc is not None or out.exc is not None:
            if (real.exc is None) != (out.exc is None):
              return n, f'{label}: real {real.exc!r} engine {out.exc!r}'
            continue
          k, m = _compare(out._value, real._value, env, sb, cb, label)
          n += k
          if m:
            return n, m
        except SkipSample:
          continue
        except conc.EvalError as e:
          return n, f'{label}: cannot evaluate: {e}'
    return n, None


def _compare(s, r, env, sb, cb, path):
  import xarray as xr
  if type(s).__module__ == 'vc.rows':
    from vc import rows
    return rows.conforms(s, r, env, cb, path) if hasattr(cb, 'world') else (0, None)
  if isinstance(s, sxr.SymDataArray):
    if not isinstance(r, xr.DataArray):
      return 0, f'{path}: engine DataArray vs {type(r)}'
    if set(s.dims) != set(r.dims):
      return 0, f'{path}: dims {s.dims} vs {r.dims}'
    if not sb or not set(map(str, cb.orders)):
      if s.dims != r.dims and len(s.dims) > 1 and not cb.orders:
        pass
    r2 = r.transpose(*s.dims)
    n = 0
    lists = []
    for d, sz in zip(s.dims, r2.shape):
      dom = s._doms[d]
      vals = list(env.dom_values(dom))
      if dom.is_label:
        import pandas as pd
        labs = r2.indexes[d]
        vals = [ticks.to_ticks(np.datetime64(x)) if isinstance(x, pd.Timestamp) else ticks.to_ticks(np.timedelta64(x)) if isinstance(x, pd.Timedelta) else int(x) for x in labs]
      if len(vals) != sz:
        return n, f'{path}: size of {d}: {len(vals)} vs {sz}'
      lists.append(vals)
    for d in s.dims:
      if d in r2.coords and d in s._coords and s._coords[d]._dims == (d,):
        c = s._coords[d]
        for p, v in enumerate(lists[s.dims.index(d)]):
          g = conc.ev_sv(c.at({d: v}), env, {})
          if not _close(g, r2.coords[d].values[p]):
            return n, f'{path}: coord {d}[{p}] {g} vs {r2.coords[d].values[p]}'
    arr = r2.values
    total = arr.size
    poss = list(itertools.product(*[range(k) for k in r2.shape]))
    if total > 200:
      poss = poss[::max(1, total // 200)]
    for pos in poss:
      i = {}
      for d, l, p in zip(s.dims, lists, pos):
        i[d] = int(l[p]) if s._doms[d].concrete else z3.IntVal(int(l[p]))
      sv = s.at(i)
      g = conc.ev_sv(sv, env, {})
      n += 1
      if getattr(cb, 'blas_zero', False) and isinstance(g, float) and math.isnan(g) and arr.dtype.kind == 'f' and not np.isnan(arr[pos]):
        continue
      if not _close(g, arr[pos], *((1e-6, 1e-8) if arr.dtype != np.float32 else (2e-4, 2e-4))):
        return n, f'{path}: at {pos}: engine {g} vs real {arr[pos]}'
    return n, None
  if isinstance(s, sxr.SymDataset) or isinstance(s, dict):
    n = 0
    sk = list(s.keys())
    rk = list(r.keys()) if hasattr(r, 'keys') else None
    if rk is None or set(sk) != set(rk):
      return 0, f'{path}: keys {sk} vs {rk}'
    for k in sk:
      m, e = _compare(s[k], r[k], env, sb, cb, f'{path}[{k}]')
      n += m
      if e:
        return n, e
    return n, None
  if isinstance(s, (list, tuple)):
    n = 0
    if len(s) != len(r):
      return 0, f'{path}: length'
    for j, (a, c) in enumerate(zip(s, r)):
      m, e = _compare(a, c, env, sb, cb, f'{path}[{j}]')
      n += m
      if e:
        return n, e
    return n, None
  if dataclasses.is_dataclass(s) and not isinstance(s, type):
    if type(s) is not type(r):
      return 0, f'{path}: {type(s)} vs {type(r)}'
    n = 0
    for k in vars(s):
      m, e = _compare(getattr(s, k), getattr(r, k), env, sb, cb, f'{path}.{k}')
      n += m
      if e:
        return n, e
    return n, None
  if isinstance(s, sxr.SymNum):
    g = conc.ev_sv(s.sv, env, {})
    return 1, None if _close(g, r, 1e-6, 1e-8) else f'{path}: {g} vs {r}'
  if isinstance(s, sxr.SymBool):
    return 1, None if bool(conc.ev(s.b, env, {})) == bool(r) else f'{path}: bool'
  return 0, None
