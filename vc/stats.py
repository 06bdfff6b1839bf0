"""Assumed contracts of scipy used by the t-tests.

scipy.stats.t(df): cdf is the distribution function of a continuous distribution, symmetric about 0, strictly increasing,
with values in (0, 1); ppf is its inverse on (0, 1) (axioms about TCDF and TPPF in prover.saturate).
scipy.fft.dct(x, type=2, norm='ortho'): coefficient k is c_k sum_j x_j cos(pi k (2 j + 1) / (2 n)), c_0 = sqrt(1/n), c_k = sqrt(2/n).
int(), min(), max() of Python on symbolic numbers."""
import builtins
import numpy as np
import z3
from vc import sxr
from vc import terms as T
from vc.terms import SV, Unsupported

TCDF, TPPF = T.TCDF, T.TPPF


def _df(df):
  if isinstance(df, sxr.SymNum):
    if df.zi is None:
      raise Unsupported('degrees of freedom')
    return T.zi(df.zi)
  if isinstance(df, (int, np.integer)):
    return z3.IntVal(int(df))
  raise Unsupported(f'degrees of freedom {type(df)}')


def cdf_sv(df, x):
  x = x.num()
  v = z3.If(T.zb(x.pinf), T.num(1), z3.If(T.zb(x.ninf), T.num(0), TCDF(df, x.v)))
  if x.pinf is False and x.ninf is False:
    v = TCDF(df, x.v)
  return SV('f', v, T.Or(x.nan, df <= 0))


def ppf_sv(df, q):
  q = q.num()
  if not (q.pinf is False and q.ninf is False):
    raise Unsupported('quantile at infinity')
  return SV('f', TPPF(df, q.v), T.Or(q.nan, q.v < 0, q.v > 1, df <= 0), q.v == 1, q.v == 0)


class StudentT:

  def __init__(self, df=None, *a, **k):
    if a or k:
      raise Unsupported('options of scipy.stats.t')
    self.df = df

  def _each(self, f, x):
    if isinstance(x, sxr.SymND):
      df = _df(self.df)
      old = x.da._fn
      return sxr.SymND(sxr.SymDataArray.make(x.da._dims, x.da._doms, lambda idx: f(df, old(idx)), 'float64'))
    if isinstance(x, (sxr.SymNum, int, float, np.floating)):
      return sxr.SymNum(f(_df(self.df), SV.of(x) if not isinstance(x, sxr.SymNum) else x.sv))
    raise Unsupported(f'scipy.stats.t of {type(x)}')

  def cdf(self, x):
    return self._each(cdf_sv, x)

  def sf(self, x):
    return self._each(lambda df, v: T.sub(SV.of(1.0), cdf_sv(df, v)), x)

  def ppf(self, q):
    return self._each(ppf_sv, q)

  def isf(self, q):
    return self._each(lambda df, v: ppf_sv(df, T.sub(SV.of(1.0), v)), q)

  def interval(self, *a, **k):
    raise Unsupported('scipy.stats.t.interval')


class _T:
  """scipy.stats.t: frozen by a call, or used with explicit degrees of freedom."""

  def __call__(self, df, *a, **k):
    return StudentT(df, *a, **k)

  def cdf(self, x, df, **k):
    return StudentT(df, **k).cdf(x)

  def sf(self, x, df, **k):
    return StudentT(df, **k).sf(x)

  def ppf(self, q, df, **k):
    return StudentT(df, **k).ppf(q)

  def isf(self, q, df, **k):
    return StudentT(df, **k).isf(q)


t = _T()


def dct(x, type=2, n=None, axis=-1, norm=None, **kw):  # pylint: disable=redefined-builtin
  if not isinstance(x, sxr.SymND):
    from scipy import fft
    return fft.dct(x, type=type, n=n, axis=axis, norm=norm, **kw)
  if type != 2 or n is not None or norm != 'ortho' or kw:
    raise Unsupported('dct options')
  da = x.da
  d = da._dims[axis]
  dom = da._doms[d]
  old = da._fn
  size = T.num(dom.size) if isinstance(dom.size, int) else z3.ToReal(dom.size)
  def fn(idx):
    k = T.zi(idx[d])
    def term(js):
      j, = js
      v = old({**idx, d: j}).num()
      c = T.COS(T.PI * z3.ToReal(k) * (2 * z3.ToReal(T.zi(j)) + 1) / (2 * size))
      return T.mul(v, SV('f', c))
    s = T.reduce_sv('sum', [dom], term)
    root = z3.If(k == 0, T.SQRT(1 / size), T.SQRT(2 / size))
    return T.mul(s, SV('f', root))
  r = sxr.SymND(sxr.SymDataArray.make(da._dims, da._doms, fn, da.dtype))
  r.owned = True
  return r


def int_(x=0, *a):
  if isinstance(x, sxr.SymNum) and not a:
    v = x.sv.num()
    if v.special is not False and sxr.fork(T.zb(v.special)):
      raise ValueError('cannot convert float NaN or infinity to integer')
    if x.zi is not None:
      return x
    z = z3.If(v.v >= 0, T.FLOOR(v.v), -T.FLOOR(-v.v))
    return sxr.SymNum(SV('i', z3.ToReal(z)), z)
  return builtins.int(x, *a)


def _pick(name, better):
  real = getattr(builtins, name)
  def f(*a, **k):
    if not k and len(a) > 1 and any(isinstance(x, sxr.SymNum) for x in a):
      out = a[0]
      for x in a[1:]:
        p, q = [y if isinstance(y, sxr.SymNum) else sxr.SymNum(SV.of(y), y if isinstance(y, builtins.int) else None) for y in (out, x)]
        if any(y.zi is None and y.sv.num().special is not False for y in (p, q)):
          raise Unsupported(f'{name} of special values')
        c = better(q.sv.num().v, p.sv.num().v)
        zi = None if p.zi is None or q.zi is None else z3.If(c, T.zi(q.zi), T.zi(p.zi))
        out = sxr.SymNum(SV('i' if zi is not None else 'f', z3.ToReal(zi) if zi is not None else z3.If(c, q.sv.num().v, p.sv.num().v)), zi)
      return out
    return real(*a, **k)
  return f


class _IntMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, builtins.int)

  def __call__(cls, *a):
    return int_(*a)


class Int(metaclass=_IntMeta):
  pass


BUILTINS = {'int': Int, 'max': _pick('max', lambda q, p: q > p), 'min': _pick('min', lambda q, p: q < p)}
