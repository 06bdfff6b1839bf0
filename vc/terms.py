"""Scalar terms of the verifier.

A scalar of the verified program is an `SV`: a z3 term for the value plus three
flags (nan, +inf, -inf).  Flags are the Python constant False when they are
known not to hold, which keeps formulas small.  Floating point is treated as
mathematical real arithmetic extended with NaN and signed infinities (this is
recorded as an assumption in every evidence file).

Reductions over a dimension of symbolic size become *atoms*: applications of an
uninterpreted function whose definition (domain, bound variables, body) is kept
in a table and hash-consed, so that alpha-equivalent bodies give the same
function symbol.  The prover (prover.py) relates atoms through their bodies.
"""
import fractions
import math
import itertools
import z3


class Unsupported(Exception):
  """The verified code used something outside the engine's reach."""


def unsupported(msg):
  raise Unsupported(msg)


R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()


def And(*xs):
  out = []
  for x in xs:
    if x is False:
      return False
    if x is True:
      continue
    if z3.is_expr(x):
      if z3.is_false(x):
        return False
      if z3.is_true(x):
        continue
    out.append(x)
  if not out:
    return True
  return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
  out = []
  for x in xs:
    if x is True:
      return True
    if x is False:
      continue
    if z3.is_expr(x):
      if z3.is_true(x):
        return True
      if z3.is_false(x):
        continue
    out.append(x)
  if not out:
    return False
  return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
  if x is True:
    return False
  if x is False:
    return True
  if z3.is_true(x):
    return False
  if z3.is_false(x):
    return True
  return z3.Not(x)


def Implies(a, b):
  return Or(Not(a), b)


def Iff(a, b):
  if a is True:
    return b
  if a is False:
    return Not(b)
  if b is True:
    return a
  if b is False:
    return Not(a)
  return a == b


def zb(x):
  """Bool as z3 expression."""
  if x is True or x is False:
    return z3.BoolVal(x)
  return x


def If(c, a, b):
  if c is True:
    return a
  if c is False:
    return b
  if z3.is_true(c):
    return a
  if z3.is_false(c):
    return b
  if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
    return a
  return z3.If(c, a, b)


def IfB(c, a, b):
  """If over Bool-or-Python-bool branches."""
  if c is True:
    return a
  if c is False:
    return b
  if (a is True or a is False) and (b is True or b is False):
    if a == b:
      return a
    return c if a else Not(c)
  if a is False:
    return And(Not(c), b)
  if b is False:
    return And(c, a)
  if a is True:
    return Or(c, b)
  if b is True:
    return Or(Not(c), a)
  if a.eq(b):
    return a
  return z3.If(c, a, b)


def num(x):
  """Python number -> exact z3 real."""
  if isinstance(x, bool):
    return z3.RealVal(1 if x else 0)
  if isinstance(x, int):
    return z3.RealVal(x)
  from fractions import Fraction
  import decimal
  # Use the shortest decimal that round-trips (0.1 -> 1/10): floats are treated
  # as mathematical reals.
  return z3.RealVal(str(Fraction(decimal.Decimal(repr(float(x))))))


def is_const_num(e):
  return z3.is_rational_value(e) or z3.is_int_value(e)


# Interpreted-by-axiom functions.
SQRT = z3.Function('SQRT', R, R)
LOG = z3.Function('LOG', R, R)
EXP = z3.Function('EXP', R, R)
SIN = z3.Function('SIN', R, R)
FLOOR = z3.Function('FLOOR', R, I)
TCDF = z3.Function('TCDF', I, R, R)     # Student's t: degrees of freedom, value
TPPF = z3.Function('TPPF', I, R, R)
CBRT = z3.Function('CBRT', R, R)

COS = z3.Function('COS', R, R)
DOY = z3.Function('DOY', I, I)     # day of year of a time in ticks
HOUR = z3.Function('HOUR', I, I)   # hour of day
MINUTE = z3.Function('MINUTE', I, I)
TODAY_SECONDS = z3.Function('TODAYSEC', I, I)
PI = z3.Real('PI')
BOUNDS = {}        # size constant -> assumed lower bound (a hypothesis of every obligation)
POSITIVE = set()   # sums proved positive (lemmas without index)
HINTS = set()      # proof rules that a contract asks for
# the constants np.pi * r of the code are read as the number pi
_PI_MULTIPLES = {s * math.pi * float(r): s * r for s in (1, -1) for r in
                 (fractions.Fraction(1), fractions.Fraction(1, 2), fractions.Fraction(2), fractions.Fraction(1, 4), fractions.Fraction(1, 180))}
_PI_MULTIPLES.update({s * math.pi / 180: s * fractions.Fraction(1, 180) for s in (1, -1)})


class SV:
  """Symbolic scalar."""
  __slots__ = ('k', 'v', 'nan', 'pinf', 'ninf')

  def __init__(self, k, v, nan=False, pinf=False, ninf=False):
    self.k = k
    self.v = v
    self.nan = nan
    self.pinf = pinf
    self.ninf = ninf

  def __repr__(self):
    return f'SV({self.k},{self.v},nan={self.nan},+inf={self.pinf},-inf={self.ninf})'

  # ---- constructors
  @staticmethod
  def of(x):
    import numpy as np
    if isinstance(x, SV):
      return x
    if isinstance(x, (bool, np.bool_)):
      return SV('b', z3.BoolVal(bool(x)))
    if isinstance(x, (int, np.integer)) and not isinstance(x, np.timedelta64):
      return SV('i', num(int(x)))
    if isinstance(x, (float, np.floating)):
      x = float(x)
      if x != x:
        return SV('f', num(0), nan=True)
      if x == float('inf'):
        return SV('f', num(0), pinf=True)
      if x == float('-inf'):
        return SV('f', num(0), ninf=True)
      if x in _PI_MULTIPLES:
        return SV('f', num(_PI_MULTIPLES[x]) * PI)
      return SV('f', num(x))
    if isinstance(x, (np.datetime64, np.timedelta64)):
      kind = 'M' if isinstance(x, np.datetime64) else 'm'
      if np.isnat(x):
        return SV(kind, z3.IntVal(0), nan=True)
      from vc import ticks
      return SV(kind, z3.IntVal(ticks.to_ticks(x)))
    if isinstance(x, str):
      return SV('U', x)
    if z3.is_expr(x):
      if x.sort() == B:
        return SV('b', x)
      if x.sort() == I:
        return SV('i', z3.ToReal(x))
      return SV('f', x)
    if hasattr(x, 'as_sv'):
      return x.as_sv()
    raise Unsupported(f'cannot make a scalar of {type(x)}')

  def real(self):
    if self.k == 'b':
      if z3.is_true(self.v):
        return num(1)
      if z3.is_false(self.v):
        return num(0)
      return z3.If(self.v, num(1), num(0))
    if self.k in 'fi':
      return self.v
    raise Unsupported(f'numeric value of kind {self.k}')

  def num(self):
    """Numeric view of (possibly bool) scalar."""
    if self.k == 'b':
      return SV('i', self.real())
    return self

  @property
  def inf(self):
    return Or(self.pinf, self.ninf)

  @property
  def special(self):
    return Or(self.nan, self.pinf, self.ninf)

  # ---- arithmetic
  def __add__(self, o):
    return add(self, SV.of(o))

  __radd__ = __add__

  def __sub__(self, o):
    return sub(self, SV.of(o))

  def __rsub__(self, o):
    return sub(SV.of(o), self)

  def __mul__(self, o):
    return mul(self, SV.of(o))

  __rmul__ = __mul__

  def __truediv__(self, o):
    return div(self, SV.of(o))

  def __rtruediv__(self, o):
    return div(SV.of(o), self)

  def __neg__(self):
    return neg(self)

  def __abs__(self):
    return absv(self)

  def __pow__(self, n):
    return powv(self, n)

  def __lt__(self, o):
    return cmp(self, SV.of(o), '<')

  def __le__(self, o):
    return cmp(self, SV.of(o), '<=')

  def __gt__(self, o):
    return cmp(SV.of(o), self, '<')

  def __ge__(self, o):
    return cmp(SV.of(o), self, '<=')

  def eq(self, o):
    return cmp(self, SV.of(o), '==')

  def __and__(self, o):
    return land(self, SV.of(o))

  def __or__(self, o):
    return lor(self, SV.of(o))

  def __invert__(self):
    return lnot(self)

  __hash__ = None


def _join_kind(a, b):
  if 'f' in (a.k, b.k):
    return 'f'
  return 'i'


def _time_kinds(a, b):
  return a.k in 'Mm' or b.k in 'Mm'


def add(a, b):
  if _time_kinds(a, b):
    if {a.k, b.k} == {'M', 'm'}:
      k = 'M'
    elif a.k == b.k == 'm':
      k = 'm'
    else:
      raise Unsupported(f'time add {a.k}+{b.k}')
    return SV(k, a.v + b.v, Or(a.nan, b.nan))
  if a.k == 'b' and b.k == 'b':
    return SV('b', zb(Or(a.v, b.v)))
  if a.k == 'U' or b.k == 'U':
    raise Unsupported('string add')
  k = _join_kind(a, b)
  av, bv = a.real(), b.real()
  nan = Or(a.nan, b.nan, And(a.pinf, b.ninf), And(a.ninf, b.pinf))
  pinf = And(Or(a.pinf, b.pinf), Not(nan))
  ninf = And(Or(a.ninf, b.ninf), Not(nan))
  return SV(k, _sadd(av, bv), nan, pinf, ninf)


def _is_num(e, val):
  return z3.is_rational_value(e) and e.numerator_as_long() == val and e.denominator_as_long() == 1


def _sadd(x, y):
  if _is_num(x, 0):
    return y
  if _is_num(y, 0):
    return x
  return x + y


def _smul(x, y):
  if _is_num(x, 0) or _is_num(y, 0):
    return num(0)
  if _is_num(x, 1):
    return y
  if _is_num(y, 1):
    return x
  return x * y


def neg(a):
  if a.k == 'm':
    return SV('m', -a.v, a.nan)
  return SV(a.num().k, -a.real(), a.nan, a.ninf, a.pinf)


def sub(a, b):
  if _time_kinds(a, b):
    if a.k == b.k:
      k = 'm'
    elif a.k == 'M' and b.k == 'm':
      k = 'M'
    else:
      raise Unsupported('time sub')
    return SV(k, a.v - b.v, Or(a.nan, b.nan))
  if a.k == 'b' and b.k == 'b':
    raise Unsupported('numpy boolean subtract is an error')
  return add(a.num(), neg(b.num())) if not _is_num(b.real(), 0) or b.special is not False else a.num()


def mul(a, b):
  if _time_kinds(a, b):
    if a.k == 'i' and b.k == 'm':
      a, b = b, a
    if a.k == 'm' and b.k == 'i' and a.special is False and b.special is False:
      r = b.real()
      n = r.arg(0) if z3.is_app_of(r, z3.Z3_OP_TO_REAL) else z3.ToInt(r)
      return SV('m', z3.simplify(a.v * n))
    raise Unsupported('time mul')
  if a.k == 'b' and b.k == 'b':
    return SV('b', zb(And(a.v, b.v)))
  k = _join_kind(a, b)
  av, bv = a.real(), b.real()
  if a.inf is False and b.inf is False:
    return SV(k, _smul(av, bv), Or(a.nan, b.nan))
  azero = And(av == 0, Not(a.special))
  bzero = And(bv == 0, Not(b.special))
  nan = Or(a.nan, b.nan, And(a.inf, bzero), And(b.inf, azero))
  inf = And(Or(a.inf, b.inf), Not(nan))
  apos = Or(a.pinf, And(Not(a.special), av > 0))
  bpos = Or(b.pinf, And(Not(b.special), bv > 0))
  pos = Iff(apos, bpos)
  return SV(k, _smul(av, bv), nan, And(inf, pos), And(inf, Not(pos)))


def note_positive(c):
  """A proved fact: remembers x if it says x > 0."""
  if z3.is_gt(c) and _is_num(c.arg(1), 0):
    x = c.arg(0)
  elif z3.is_lt(c) and _is_num(c.arg(0), 0):
    x = c.arg(1)
  elif z3.is_not(c) and z3.is_le(c.arg(0)) and _is_num(c.arg(0).arg(1), 0):
    x = c.arg(0).arg(0)
  else:
    return
  if z3.is_const(x) and atom_def(x) is not None:
    POSITIVE.add(x.decl().name())


def lower(e):
  """A lower bound of a number made of sizes, or None."""
  if z3.is_int_value(e):
    return e.as_long()
  if z3.is_rational_value(e):
    return e.as_fraction()
  k = e.decl().kind()
  if k == z3.Z3_OP_TO_REAL:
    return lower(e.arg(0))
  if k == z3.Z3_OP_UMINUS and (z3.is_int_value(e.arg(0)) or z3.is_rational_value(e.arg(0))):
    return -lower(e.arg(0))
  if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
    return BOUNDS.get(e.decl().name())
  if k == z3.Z3_OP_SUB and e.num_args() == 2 and (z3.is_int_value(e.arg(1)) or z3.is_rational_value(e.arg(1))):
    x = lower(e.arg(0))
    return None if x is None else x - lower(e.arg(1))
  if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
    ls = [lower(c) for c in e.children()]
    if None in ls or k == z3.Z3_OP_MUL and min(ls) < 0:
      return None
    r = ls[0]
    for x in ls[1:]:
      r = r + x if k == z3.Z3_OP_ADD else r * x
    return r
  return None


def positive(e):
  x = lower(e)
  if x is not None:
    return x > 0
  k = e.decl().kind()
  if k in (z3.Z3_OP_DIV, z3.Z3_OP_MUL, z3.Z3_OP_ADD):
    return all(positive(c) for c in e.children())
  if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
    return e.decl().name() in POSITIVE
  return k == z3.Z3_OP_UNINTERPRETED and e.decl().name() == 'SQRT' and positive(e.arg(0))


def div(a, b):
  if a.k == 'm' and b.k == 'm':
    # timedelta / timedelta -> float
    q = SV('f', z3.ToReal(a.v) / z3.ToReal(b.v), Or(a.nan, b.nan))
    return q
  if _time_kinds(a, b):
    raise Unsupported('time div')
  av, bv = a.real(), b.real()
  if z3.is_rational_value(bv) and not _is_num(bv, 0) and a.inf is False and b.special is False:
    return SV('f', av / bv, a.nan)
  if a.inf is False and b.special is False and positive(bv):
    return SV('f', av / bv, a.nan)
  bz = And(bv == 0, Not(b.special))
  bz = z3.simplify(bz) if z3.is_expr(bz) else bz
  known = b.special is False and positive(bv)
  if known or z3.is_expr(bz) and z3.is_false(bz):
    bz = False
  azero = And(av == 0, Not(a.special))
  nan = Or(a.nan, b.nan, And(bz, azero), And(a.inf, b.inf))
  # sign of infinite result; -0.0 is not modelled (b == 0 is +0).
  apos = Or(a.pinf, And(Not(a.special), av > 0))
  bpos = True if known else Or(And(Not(b.inf), Or(bz, bv > 0)), b.pinf)
  inf = And(Not(nan), Or(And(bz, Not(azero)), And(a.inf, Not(b.inf))))
  pos = Iff(apos, bpos)
  val = av / bv
  if b.inf is not False:
    val = If(b.inf, num(0), val)
  return SV('f', val, nan, And(inf, pos), And(inf, Not(pos)))


def absv(a):
  if a.k == 'b':
    return a
  if a.k == 'm':
    return SV('m', z3.If(a.v >= 0, a.v, -a.v), a.nan)
  v = a.real()
  if z3.is_rational_value(v):
    vv = v if v.as_fraction() >= 0 else num(-v.as_fraction())
  else:
    vv = z3.If(v >= 0, v, -v)
  return SV(a.k, vv, a.nan, a.inf, False)


def powv(a, n):
  import numpy as np
  if isinstance(n, SV):
    if z3.is_rational_value(n.v) and n.special is False:
      fr = n.v.as_fraction()
      n = int(fr) if fr.denominator == 1 else float(fr)
    else:
      raise Unsupported('symbolic exponent')
  if isinstance(n, (int, np.integer)) or (isinstance(n, float) and n.is_integer()):
    n = int(n)
    if n == 0:
      return SV.of(1.0)
    if n < 0:
      return div(SV.of(1.0), powv(a, -n))
    out = a.num()
    for _ in range(n - 1):
      out = mul(out, a.num())
    return out
  if isinstance(n, float) and n == 0.5:
    return sqrtv(a)
  if isinstance(n, float) and n in (2 / 3, 1 / 3):
    a = a.num()
    if a.special is not False:
      raise Unsupported('cube root of special values')
    c = SV('f', CBRT(a.v), a.v < 0)
    return mul(c, c) if n == 2 / 3 else c
  raise Unsupported(f'power {n}')


def sqrtv(a):
  a = a.num()
  isneg = Or(And(Not(a.special), a.v < 0), a.ninf)
  return SV('f', SQRT(a.v), Or(a.nan, isneg), a.pinf, False)


def logv(a):
  a = a.num()
  isneg = Or(And(Not(a.special), a.v < 0), a.ninf)
  iszero = And(Not(a.special), a.v == 0)
  return SV('f', LOG(a.v), Or(a.nan, isneg), a.pinf, iszero)


def expv(a):
  a = a.num()
  return SV('f', If(a.ninf, num(0), EXP(a.v)), a.nan, a.pinf, False)


def sinv(a):
  a = a.num()
  return SV('f', SIN(a.v), Or(a.nan, a.inf))


def cosv(a):
  a = a.num()
  return SV('f', COS(a.v), Or(a.nan, a.inf))


def cmp(a, b, op):
  if a.k == 'U' and b.k == 'U':
    if op == '==':
      return SV('b', z3.BoolVal(a.v == b.v))
    raise Unsupported('string compare')
  if _time_kinds(a, b):
    if a.k != b.k:
      raise Unsupported(f'compare {a.k} with {b.k}')
    nn = And(Not(a.nan), Not(b.nan))
    x, y = a.v, b.v
  else:
    if a.k == 'b' and b.k == 'b' and op == '==':
      return SV('b', zb(Iff(a.v, b.v)))
    x, y = a.real(), b.real()
    nn = And(Not(a.nan), Not(b.nan))
    if a.inf is not False or b.inf is not False:
      fin = And(Not(a.inf), Not(b.inf))
      base = (x < y) if op == '<' else (x <= y) if op == '<=' else (x == y)
      if op == '<':
        r = Or(And(fin, base), And(a.ninf, Not(b.ninf)), And(b.pinf, Not(a.pinf)))
      elif op == '<=':
        r = Or(And(fin, base), a.ninf, b.pinf)
      else:
        r = Or(And(fin, base), And(a.pinf, b.pinf), And(a.ninf, b.ninf))
      return SV('b', zb(And(nn, r)))
  base = (x < y) if op == '<' else (x <= y) if op == '<=' else (x == y)
  if z3.is_expr(base):
    s = z3.simplify(base) if (is_const_num(x) and is_const_num(y)) else base
    base = s
  return SV('b', zb(And(nn, base)))


def ne(a, b):
  return lnot(cmp(a, b, '=='))


def _asbool(a):
  if a.k != 'b':
    raise Unsupported(f'logical op on kind {a.k}')
  return a.v


def land(a, b):
  return SV('b', zb(And(_asbool(a), _asbool(b))))


def lor(a, b):
  return SV('b', zb(Or(_asbool(a), _asbool(b))))


def lxor(a, b):
  return SV('b', zb(Not(Iff(_asbool(a), _asbool(b)))))


def lnot(a):
  return SV('b', zb(Not(_asbool(a))))


def isnull(a):
  if a.k == 'U':
    return SV('b', z3.BoolVal(False))
  return SV('b', zb(a.nan))


def tobool(a):
  """astype(bool)"""
  if a.k == 'b':
    return a
  return SV('b', zb(Or(a.nan, a.inf, a.real() != 0)))


def zfloor(x):
  x = z3.simplify(x, som=True)
  if z3.is_rational_value(x) or z3.is_app_of(x, z3.Z3_OP_TO_REAL):
    return z3.simplify(z3.ToInt(x))
  return FLOOR(x)


def truncv(a):
  """astype(int) of a finite value: truncation toward zero."""
  if a.k == 'b':
    return a.num()
  if a.k == 'i':
    return a
  fl = z3.ToReal(zfloor(a.v))
  r = z3.If(a.v >= 0, fl, -z3.ToReal(zfloor(-a.v)))
  return SV('i', r, False)


def floorv(a):
  a = a.num()
  return SV(a.k, z3.ToReal(zfloor(a.v)), a.nan, a.pinf, a.ninf)


def floordiv(a, b):
  if a.k == 'm' and b.k == 'm':
    return SV('i', z3.ToReal(zfloor(z3.ToReal(a.v) / z3.ToReal(b.v))), Or(a.nan, b.nan))
  q = div(a, b)
  return SV(_join_kind(a.num(), b.num()), z3.ToReal(zfloor(q.v)), q.nan, q.pinf, q.ninf)


def modv(a, b):
  """Python/numpy remainder (sign of divisor)."""
  if a.k == 'm' and b.k == 'm':
    return SV('m', a.v - b.v * zfloor(z3.ToReal(a.v) / z3.ToReal(b.v)), Or(a.nan, b.nan))
  a, b = a.num(), b.num()
  q = a.v / b.v
  return SV(_join_kind(a, b), a.v - b.v * z3.ToReal(zfloor(q)),
            Or(a.nan, b.nan, a.inf, b.v == 0))


def ite(c, a, b):
  """c: Bool/py bool; a,b SV"""
  if a.k != b.k:
    if a.k == 'U' or b.k == 'U':
      raise Unsupported('mixing strings')
    if a.k in 'Mm' or b.k in 'Mm':
      # NaN float in a time array is NaT
      if a.k == 'f' and a.nan is True:
        a = SV(b.k, z3.IntVal(0), True)
      elif b.k == 'f' and b.nan is True:
        b = SV(a.k, z3.IntVal(0), True)
      else:
        raise Unsupported('mixing times')
      k = a.k
    else:
      k = _join_kind(a, b)
      a = SV(k, a.real(), a.nan, a.pinf, a.ninf)
      b = SV(k, b.real(), b.nan, b.pinf, b.ninf)
  k = a.k
  if k == 'U':
    if a.v == b.v:
      return a
    raise Unsupported('symbolic string')
  if b.nan is True:
    v = a.v
  elif a.nan is True:
    v = b.v
  else:
    v = If(c, a.v, b.v)
  return SV(k, v, IfB(c, a.nan, b.nan), IfB(c, a.pinf, b.pinf), IfB(c, a.ninf, b.ninf))


def where(c, a, b):
  return ite(c.v if isinstance(c, SV) else c, a, b)


def minv(a, b):
  """np.minimum: NaN propagates."""
  r = ite(cmp(a, b, '<=').v, a, b)
  if a.k in 'Mm':
    return SV(a.k, r.v, Or(a.nan, b.nan))
  nan = Or(a.nan, b.nan)
  return SV(r.k, r.v, nan, And(Not(nan), r.pinf), And(Not(nan), r.ninf))


def maxv(a, b):
  r = ite(cmp(b, a, '<=').v, a, b)
  if a.k in 'Mm':
    return SV(a.k, r.v, Or(a.nan, b.nan))
  nan = Or(a.nan, b.nan)
  return SV(r.k, r.v, nan, And(Not(nan), r.pinf), And(Not(nan), r.ninf))


def same(a, b):
  """Bool: two scalars are identical (NaN == NaN)."""
  if a.k == 'U' or b.k == 'U':
    return a.k == b.k and a.v == b.v
  if a.k in 'Mm' or b.k in 'Mm':
    if a.k != b.k:
      return False
    return And(Iff(a.nan, b.nan), Or(a.nan, a.v == b.v))
  av = a.real() if a.k != 'b' or b.k != 'b' else None
  if av is None:
    return zb(Iff(a.v, b.v))
  bv = b.real()
  return And(Iff(a.nan, b.nan), Iff(a.pinf, b.pinf), Iff(a.ninf, b.ninf),
             Or(a.special, av == bv))


# --------------------------------------------------------------------------
# Domains and index variables


class Dom:
  """Index domain of a dimension.

  range domain: 0 <= i < size (size a Python int or z3 Int, assumed >= 0).
  label domain: pred(i) over all Int labels; elements are addressed by label.
  """

  def __init__(self, key, size=None, pred=None, parent=None, parts=()):
    self.parent = parent    # (Dom, offset): a contiguous part of another domain
    self.parts = parts      # [(Dom, offset)]: the domains it is the concatenation of
    self.key = key
    self.size = size
    self.pred = pred
    self.unsorted = False   # labels in an unknown order

  @property
  def concrete(self):
    return isinstance(self.size, int)

  @property
  def is_label(self):
    return self.pred is not None

  def guard(self, i):
    if self.pred is not None:
      return self.pred(i)
    if isinstance(i, int):
      if isinstance(self.size, int):
        return 0 <= i < self.size
      return And(z3.BoolVal(i >= 0), z3.IntVal(i) < self.size)
    return And(i >= 0, i < self.size)

  def __repr__(self):
    return f'Dom({self.key},{self.size})'


_idx_dom = {}      # name of idx const -> Dom key
_doms = {}         # key -> Dom
_fresh = itertools.count()


UF_DOMS = {}     # name of an input function -> dom keys of its arguments
_fam = {}


def family(dom):
  """Dimensions whose sizes are built from the same symbols."""
  if dom.size is None or isinstance(dom.size, int):
    return dom.key
  f = _fam.get(dom.key)
  if f is None:
    names, stack = set(), [dom.size]
    while stack:
      x = stack.pop()
      if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(x).startswith('n_'):
        names.add(str(x))
      stack.extend(x.children())
    f = _fam[dom.key] = tuple(sorted(names))
  return f


def has_placeholder(e):
  stack = [e]
  while stack:
    x = stack.pop()
    if z3.is_const(x) and x.decl().name().startswith(('cp!', 'cb!')):
      return True
    if z3.is_var(x):
      return True
    stack.extend(x.children())
  return False


def zi(x):
  return z3.IntVal(x) if isinstance(x, int) else x


CARDS = {}     # constants standing for the number of labels of a domain
LABEL_POINTS = []   # labels known to belong to some label set
CELLS = {}     # functions standing for positions chosen in a domain: name -> Choice
WITNESS = {}   # index constants with defining facts: name -> (Dom, facts)


class Choice:
  """Positions in a domain chosen for each argument, known by facts only.

  names: one function per chosen position; facts(args, terms) holds, and every(args, terms, k) holds for all k."""

  def __init__(self, names, dom, facts, every):
    self.names, self.dom, self.facts, self.every = names, dom, facts, every
    for n in names:
      CELLS[n] = self

  def terms(self, args):
    args = args or [z3.IntVal(0)]
    return [z3.Function(n, *([I] * len(args)), I)(*args) for n in self.names]


def register_dom(d):
  _doms.setdefault(d.key, d)
  return d


def fresh_idx(dom, tag='i'):
  register_dom(dom)
  c = z3.Int(f'{tag}!{dom.key}!{next(_fresh)}')
  _idx_dom[c.decl().name()] = dom.key
  return c


def bound_idx(dom, tag):
  """The index constant of this name (the same at every call)."""
  register_dom(dom)
  c = z3.Int(f'{tag}{dom.key}!')
  _idx_dom[c.decl().name()] = dom.key
  return c


def idx_dom(const):
  key = _idx_dom.get(const.decl().name())
  return None if key is None else _doms[key]


def is_idx(e):
  return z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in _idx_dom


# --------------------------------------------------------------------------
# traversal helpers

_consts_cache = {}


def idx_consts(e):
  """Index constants occurring in expression (ordered list)."""
  if e is True or e is False or not z3.is_expr(e):
    return []
  key = e.get_id()
  hit = _consts_cache.get(key)
  if hit is not None and hit[0].eq(e):
    return hit[1]
  seen = set()
  out = {}
  stack = [e]
  while stack:
    x = stack.pop()
    i = x.get_id()
    if i in seen:
      continue
    seen.add(i)
    if z3.is_const(x):
      if is_idx(x):
        out[x.decl().name()] = x
    else:
      stack.extend(x.children())
  res = [out[k] for k in sorted(out)]
  _consts_cache[key] = (e, res)
  return res


def apps(e):
  """All applications of uninterpreted functions of arity>0 or atoms consts."""
  seen = set()
  out = []
  stack = [e] if z3.is_expr(e) else []
  while stack:
    x = stack.pop()
    i = x.get_id()
    if i in seen:
      continue
    seen.add(i)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
      out.append(x)
    stack.extend(x.children())
  return out


# --------------------------------------------------------------------------
# Atoms

class AtomDef:

  def __init__(self, name, op, doms, bound, params, bodies, decl):
    self.name = name
    self.op = op            # 'Sum', 'Any', 'Max', 'Min', or 'Q:...'
    self.doms = doms        # list of Dom
    self.bound = bound      # canonical bound consts
    self.params = params    # canonical param consts
    self.bodies = bodies    # list of z3 exprs
    self.decl = decl

  def inst(self, args, ks):
    subs = list(zip(self.params, args)) + list(zip(self.bound, ks))
    return [z3.substitute(b, *subs) if subs else b for b in self.bodies]


_atoms_by_key = {}
_atoms_by_name = {}


def atom_def(app):
  if z3.is_app(app) and app.decl().kind() == z3.Z3_OP_UNINTERPRETED:
    return _atoms_by_name.get(app.decl().name())
  return None


def _simp(e):
  return z3.simplify(e)


def _simp_som(e):
  return z3.simplify(e, som=True, hoist_mul=False)


def make_atom(op, doms, bound, bodies, sort):
  """Hash-consed atom application for reduction `op` of bodies over bound."""
  bodies = [_simp(zb(b)) for b in bodies]
  params = {}
  bnames = {b.decl().name() for b in bound}
  for b in bodies:
    for c in idx_consts(b):
      if c.decl().name() not in bnames:
        params[c.decl().name()] = c
  plist = [params[k] for k in sorted(params)]
  # canonical constants
  cparams = []
  for j, p in enumerate(plist):
    d = idx_dom(p)
    c = z3.Int(f'cp!{d.key}!{j}')
    _idx_dom[c.decl().name()] = d.key
    cparams.append(c)
  cbound = []
  for j, (b, d) in enumerate(zip(bound, doms)):
    c = z3.Int(f'cb!{d.key}!{j}')
    _idx_dom[c.decl().name()] = d.key
    register_dom(d)
    cbound.append(c)
  subs = list(zip(plist, cparams)) + list(zip(bound, cbound))
  cbodies = [_simp(z3.substitute(b, *subs)) for b in bodies]
  key = (op, tuple(d.key for d in doms), tuple(c.decl().name() for c in cparams),
         tuple(b.sexpr() for b in cbodies))
  ad = _atoms_by_key.get(key)
  if ad is None:
    name = f'{op}#{len(_atoms_by_key)}'
    if plist:
      decl = z3.Function(name, *([I] * len(plist)), sort)
    else:
      decl = z3.Const(name, sort).decl()
    ad = AtomDef(name, op, list(doms), cbound, cparams, cbodies, decl)
    _atoms_by_key[key] = ad
    _atoms_by_name[name] = ad
  return ad.decl(*plist)


def _occurs(e, names):
  return any(c.decl().name() in names for c in idx_consts(e))


def _split_const(e, names):
  """Split product into (factor free of bound vars, list of remaining)."""
  if z3.is_mul(e):
    fs = []
    for c in e.children():
      fs.extend(c.children() if z3.is_mul(c) else [c])
  else:
    fs = [e]
  free, rest = [], []
  for f in fs:
    if _occurs(f, names):
      # a / c with c free of the bound variables (c = 0 is flagged NaN/inf by
      # the caller, so the value is then irrelevant)
      if z3.is_div(f) and not _occurs(f.arg(1), names):
        free.append(num(1) / f.arg(1))
        fr, rs = _split_const(f.arg(0), names)
        free.extend(fr)
        rest.extend(rs)
      else:
        rest.append(f)
    else:
      free.append(f)
  return free, rest


def _prod(fs):
  if not fs:
    return num(1)
  out = fs[0]
  for f in fs[1:]:
    out = out * f
  return out


def sum_real(bound, doms, body):
  """Sum over bound index consts (list) with domains of a Real body."""
  assert len(bound) == len(doms)
  # guard label domains inside the body
  ndoms = []
  for b, d in zip(bound, doms):
    if d.is_label:
      body = If(d.guard(b), body, num(0))
      base = Dom('LABEL', None, lambda i: True)
      ndoms.append(register_dom(base))
    else:
      ndoms.append(d)
  doms = ndoms
  if not bound:
    return body
  body = _simp_som(body)
  names = {b.decl().name() for b in bound}
  terms = list(body.children()) if z3.is_add(body) else [body]
  total = []
  for t in terms:
    total.append(_sum_term(bound, doms, t, names))
  out = total[0]
  for t in total[1:]:
    out = _sadd(out, t)
  return out


def _sum_term(bound, doms, t, names):
  free, rest = _split_const(t, names)
  factor = list(free)
  if not rest:
    for d in doms:
      if d.is_label:
        if _is_num(_simp(_prod(free)), 0):
          return num(0)
        raise Unsupported('sum of a constant over all labels')
      factor.append(z3.ToReal(d.size) if not isinstance(d.size, int) else num(d.size))
    return _prod(factor)
  bound, doms = list(bound), list(doms)
  # drop bound vars not occurring in rest
  body = _prod(rest)
  nb, nd = [], []
  for b, d in zip(bound, doms):
    if _occurs(body, {b.decl().name()}):
      nb.append(b)
      nd.append(d)
    else:
      if d.is_label:
        raise Unsupported('sum of a constant over all labels')
      factor.append(z3.ToReal(d.size) if not isinstance(d.size, int) else num(d.size))
  bound, doms = nb, nd
  if len(rest) == 1 and z3.is_add(rest[0]):
    r = sum_real(bound, doms, rest[0])
    return _smul(_prod(factor), r) if factor else r
  # a case distinction that does not depend on the bound variables
  for j, f in enumerate(rest):
    if z3.is_app_of(f, z3.Z3_OP_ITE) and not _occurs(f.arg(0), names):
      others = rest[:j] + rest[j + 1:]
      alt = []
      for x in (f.arg(1), f.arg(2)):
        alt.append(sum_real(list(bound), list(doms), _prod(others + [x])))
      r = z3.If(f.arg(0), alt[0], alt[1])
      return _smul(_prod(factor), r) if factor else r
  # flatten a nested sum atom factor
  for j, f in enumerate(rest):
    ad = atom_def(f)
    if ad is not None and ad.op == 'Sum':
      ks = [fresh_idx(d, 'f') for d in ad.doms]
      inner = ad.inst(list(f.children()), ks)[0]
      others = rest[:j] + rest[j + 1:]
      r = sum_real(bound + ks, doms + list(ad.doms), _prod(others + [inner]) if others else inner)
      return _smul(_prod(factor), r) if factor else r
  order = sorted(range(len(bound)), key=lambda i: doms[i].key)
  bound = [bound[i] for i in order]
  doms = [doms[i] for i in order]
  a = make_atom('Sum', doms, bound, [body], R)
  return _smul(_prod(factor), a) if factor else a


def any_bool(bound, doms, body):
  """Exists over bound index consts of a Bool body."""
  if body is True or body is False:
    if body is False:
      return False
    # true for every index: domain emptiness matters
    conds = []
    for b, d in zip(bound, doms):
      if d.is_label:
        raise Unsupported('any(True) over labels')
      conds.append((d.size > 0 if not positive(d.size) else True) if not isinstance(d.size, int) else d.size > 0)
    return And(*conds)
  nd = []
  for b, d in zip(bound, doms):
    if d.is_label:
      body = And(d.guard(b), body)
      nd.append(register_dom(Dom('LABEL', None, lambda i: True)))
    else:
      nd.append(d)
  doms = nd
  if not bound or body is False:
    return body
  body = _simp(zb(body))
  if z3.is_false(body):
    return False
  if z3.is_or(body):
    return Or(*[any_bool(bound, doms, c) for c in body.children()])
  nb, ndm, conds = [], [], []
  for b, d in zip(bound, doms):
    if _occurs(body, {b.decl().name()}):
      nb.append(b)
      ndm.append(d)
    else:
      if d.is_label:
        raise Unsupported('any over labels of a constant')
      conds.append((d.size > 0 if not positive(d.size) else True) if not isinstance(d.size, int) else d.size > 0)
  if not nb:
    return And(body, *conds)
  order = sorted(range(len(nb)), key=lambda i: ndm[i].key)
  nb = [nb[i] for i in order]
  ndm = [ndm[i] for i in order]
  # flatten: Any_i(Any_j body)
  ad = atom_def(body)
  if ad is not None and ad.op == 'Any':
    ks = [fresh_idx(d, 'f') for d in ad.doms]
    inner = ad.inst(list(body.children()), ks)[0]
    return And(any_bool(nb + ks, ndm + list(ad.doms), inner), *conds)
  return And(make_atom('Any', ndm, nb, [body], B), *conds)


def reduce_sv(op, doms, fn):
  """Reduce fn over a list of Doms.  fn(list of idx) -> SV.

  op: 'sum' (NaN propagates), 'any', 'all', 'count_true', 'max', 'min'
  """
  conc = [j for j, d in enumerate(doms) if d.concrete]
  symb = [j for j, d in enumerate(doms) if not d.concrete]
  ks = [None] * len(doms)
  bound = []
  for j in symb:
    ks[j] = fresh_idx(doms[j])
    bound.append(ks[j])
  sdoms = [doms[j] for j in symb]
  values = []
  for combo in itertools.product(*[range(doms[j].size) for j in conc]):
    kk = list(ks)
    for j, c in zip(conc, combo):
      kk[j] = c
    values.append(fn(kk))
  if op == 'sum':
    if not values:
      return SV('f', num(0))
    red = []
    for v in values:
      if not bound:
        red.append(v.num())
        continue
      v = v.num()
      if v.k not in 'fi':
        raise Unsupported('sum of ' + v.k)
      nan = any_bool(bound, sdoms, v.nan)
      pinf = any_bool(bound, sdoms, v.pinf)
      ninf = any_bool(bound, sdoms, v.ninf)
      val = sum_real(bound, sdoms, v.v)
      n2 = Or(nan, And(pinf, ninf))
      red.append(SV(v.k, val, n2, And(pinf, Not(n2)), And(ninf, Not(n2))))
    out = red[0]
    for v in red[1:]:
      out = add(out, v)
    return out
  if op in ('any', 'all'):
    red = []
    for v in values:
      b = _asbool(v)
      if op == 'all':
        b = Not(b)
      b = any_bool(bound, sdoms, b) if bound else b
      red.append(b)
    r = Or(*red)
    return SV('b', zb(Not(r) if op == 'all' else r))
  if op in ('max', 'min'):
    red = []
    for v in values:
      if bound:
        if v.inf is not False:
          raise Unsupported('max of inf')
        nan = any_bool(bound, sdoms, v.nan)
        if any(d.is_label for d in sdoms):
          raise Unsupported('max over labels')
        sort = I if v.k in 'Mm' else R
        vv = v.v if v.k in 'Mm' else v.real()
        a = make_atom('Max' if op == 'max' else 'Min', sdoms, bound, [vv], sort)
        red.append(SV(v.k if v.k != 'b' else 'i', a, nan))
      else:
        red.append(v)
    out = red[0]
    for v in red[1:]:
      out = maxv(out, v) if op == 'max' else minv(out, v)
    return out
  raise Unsupported(op)
