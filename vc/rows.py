"""Tables with any number of rows, read from any number of files, for any number of requested times.

A table is represented by arbitrary rows: for each of a few rows of the stored data (any of them, chosen by the contract) the
condition under which the table has it, and its values.  The module is compiled from its current source with the mechanical
changes of vc/loops.py, and two more: an empty list display becomes a list that knows in which loops it is appended to, and
`for` bodies may contain `if`, `for`, `.append` and item assignments to names of their own (see `independent`).
A loop over a sequence of symbolic length is executed for one arbitrary position; concatenating what it appended puts the
tables of all positions together.  For loops over the requested times the position is that of the contract, so that what
remains is the part of the result that comes from that position.

Assumed contracts (pandas, pyarrow): read_parquet(file, filters) gives the rows stored in that file for which every filter
holds, and raises on a missing file; concat has the rows of its arguments; df[mask], df.loc[mask] keep the rows where mask is
true; df.loc[:, names], rename and item assignment act on columns; sort_values orders rows by the column, missing last, and
says nothing about ties; duplicated(keep) marks all but the first (last) row of each value; to_xarray has one element per row;
dropna('index') drops the elements with a missing data value; numpy's datetime64[unit] rounds down, month numbers being
monotone in time; arange counts in units.
"""
import ast
import builtins
import inspect
import itertools
import operator
import types
import numpy as np
import pandas as pd
import z3
from vc import loops
from vc import patch
from vc import sxr
from vc import terms as T
from vc.terms import SV, Unsupported


# ---------------------------------------------------------------- numbers


class Num(sxr.SymNum):
  """A symbolic number or time; numpy scalars on its left leave the operation to it."""
  __array_ufunc__ = None
  __hash__ = None

  def _b(self, *a, **k):
    r = super()._b(*a, **k)
    return Num(r.sv, r.zi) if isinstance(r, sxr.SymNum) else r

  def __neg__(self):
    return Num(T.neg(self.sv))

  def __abs__(self):
    return Num(T.absv(self.sv))

  def astype(self, dt):
    return self if np.dtype(dt).kind == self.sv.k in 'Mm' and np.datetime_data(np.dtype(dt))[0] in ('s', 'ms', 'us', 'ns', 'generic') else unsupported('astype')


def unsupported(why):
  raise Unsupported(why)


class Str:
  """A string of the table: an arbitrary element of an uninterpreted set; literals are its constants."""
  literals = {}

  def __init__(self, z):
    self.z = z

  @classmethod
  def code(cls, s):
    return cls.literals.setdefault(s, len(cls.literals))


# ---------------------------------------------------------------- time periods and file names


MONTH = z3.Function('month', T.I, T.I)
SECONDS = {'h': 3600, 'D': 86400}


def period(unit, seconds):
  """The number of the period that has the time."""
  if unit in SECONDS:
    return seconds / SECONDS[unit]
  if unit != 'M':
    raise Unsupported(f'periods of unit {unit}')
  ctx = sxr.Ctx.current
  known = getattr(ctx, 'months', None)
  if known is None:
    known = ctx.months = []
  for s in known:
    learn(z3.And(z3.Implies(s <= seconds, MONTH(s) <= MONTH(seconds)), z3.Implies(seconds <= s, MONTH(seconds) <= MONTH(s))))
  known.append(seconds)
  return MONTH(seconds)


def learn(c):
  """A fact by an assumed contract, for the rest of the path."""
  ctx = sxr.Ctx.current
  ctx.pc.append(c)
  ctx.solver.add(c)
  ctx.learned = getattr(ctx, 'learned', []) + [c.get_id()]


class Text(str):
  """Decimal digits of a part of a date."""
  part = None

  def zfill(self, n):
    if self.part is None or n != 2:
      raise Unsupported('zfill')
    return self.part.text('02')

  def rjust(self, n, c=' '):
    return self.zfill(n) if c == '0' else unsupported('rjust')


class Part:
  """Year, month, day or hour of a period."""

  def __init__(self, p, what):
    self.p = p
    self.what = what

  def text(self, pad=''):
    t = Text(f'\x01{self.what}{pad}|{self.p.unit}|{z3.simplify(self.p.z).sexpr()}\x02')
    t.part = self if not pad else None
    return t

  def __str__(self):
    return self.text()

  __repr__ = __str__

  def __format__(self, spec):
    if spec in ('', 'd'):
      return str.__str__(self.text())
    if spec in ('02', '02d'):
      return str.__str__(self.text('02'))
    if spec in ('04', '04d') and self.what == 'Y':
      return str.__str__(self.text())
    raise Unsupported(f'format {spec} of a date part')


PARTS = {'M': ('Y', 'm'), 'D': ('Y', 'm', 'd'), 'h': ('Y', 'm', 'd', 'H')}
NAMES = {'Y': 'year', 'm': 'month', 'd': 'day', 'H': 'hour'}


class Item:
  """datetime of a period."""

  def __init__(self, p):
    self.p = p

  def __getattr__(self, k):
    for c, n in NAMES.items():
      if k == n:
        if c in PARTS[self.p.unit]:
          return Part(self.p, c)
        if c == 'd':
          return 1
        raise AttributeError(k)
    raise Unsupported(f'datetime.{k}')

  def strftime(self, fmt):
    for c in NAMES:
      if f'%{c}' in fmt:
        fmt = fmt.replace(f'%{c}', str.__str__(Part(self.p, c).text('' if c == 'Y' else '02')) if c in PARTS[self.p.unit] else unsupported('strftime'))
    return unsupported('strftime') if '%' in fmt else fmt


class Period:
  """np.datetime64 of a unit."""
  __array_ufunc__ = None
  __hash__ = None

  def __init__(self, unit, z):
    self.unit = unit
    self.z = z

  def _count(self, o):
    if isinstance(o, np.timedelta64) and np.datetime_data(o.dtype) == (self.unit, 1):
      return int(o.astype('int64'))
    if isinstance(o, (int, np.integer)) and not isinstance(o, np.timedelta64):
      return int(o)
    raise Unsupported('arithmetic on periods')

  def __add__(self, o):
    return Period(self.unit, self.z + self._count(o))

  __radd__ = __add__

  def __sub__(self, o):
    return Period(self.unit, self.z - self._count(o))

  def item(self):
    return Item(self)

  tolist = item

  def astype(self, t):
    return Item(self) if t in (object, 'O') else self if np.dtype(t) == np.dtype(f'datetime64[{self.unit}]') else unsupported('astype of a period')

  def __getattr__(self, k):
    raise Unsupported(f'datetime64.{k}')


def template(path, unit, z):
  """The documented file name."""
  p = Period(unit, z)
  s = lambda c, pad='': str.__str__(Part(p, c).text(pad))
  d = f'{path}/year={s("Y")}/month={s("m")}'
  name = f'{s("Y")}-{s("m", "02")}'
  if unit in 'Dh':
    d += f'/day={s("d")}'
    name += f'-{s("d", "02")}'
  if unit == 'h':
    d += f'/hour={s("H")}'
    name += f'T{s("H", "02")}'
  return f'{d}/{name}.parquet'


class _Kind(type):

  def __instancecheck__(cls, x):
    return isinstance(x, cls.real) or isinstance(x, Num) and x.sv.k == cls.kind or cls.kind == 'M' and isinstance(x, Period)

  def __call__(cls, x, unit=None):
    if isinstance(x, Num):
      if x.sv.k != cls.kind:
        raise Unsupported('datetime64 of another kind')
      if unit is None or unit in ('s', 'ms', 'us', 'ns'):
        return x
      if cls.kind == 'm':
        raise Unsupported('timedelta64 in another unit')
      return Period(unit, period(unit, x.sv.v))
    if isinstance(x, Period):
      raise Unsupported('datetime64 of a period')
    return cls.real(x) if unit is None else cls.real(x, unit)


class Datetime(metaclass=_Kind):
  real, kind = np.datetime64, 'M'


class Timedelta(metaclass=_Kind):
  real, kind = np.timedelta64, 'm'


def arange(*a, **k):
  if not any(isinstance(x, Period) for x in a):
    return patch.NP.arange(*a, **k)
  lo, hi = a[:2]
  step = a[2] if len(a) > 2 else k.pop('step', 1)
  k.pop('dtype', None)
  if k or not isinstance(hi, Period) or hi.unit != lo.unit or lo._count(step) != 1:
    raise Unsupported('arange')
  n = z3.If(hi.z > lo.z, hi.z - lo.z, 0)
  return Seq(loops.num(n), lambda i: Period(lo.unit, lo.z + loops.zi(i)))


# ---------------------------------------------------------------- loops


class Seq(loops.Seq):
  """A sequence of symbolic length; `rigid`: the position that the contract is about, if it is one of the requested times."""

  def __init__(self, n, at, rigid=None):
    super().__init__(n, at)
    self.rigid = rigid

  def __array__(self, *a, **k):
    raise Unsupported('array of a sequence of symbolic length')


class Binder:
  """One arbitrary position of a sequence."""

  def __init__(self, seq):
    self.seq = seq
    self.rigid = getattr(seq, 'rigid', None) is not None
    self.k = seq.rigid if self.rigid else z3.FreshConst(T.I, 'pos')
    n = loops.zi(seq.n)
    self.range = T.zb(z3.And(self.k >= 0, self.k < n))
    self.n = n
    if self.rigid and sxr.Ctx.current.feasible(z3.Not(self.range)):
      raise Unsupported('position outside its sequence')


ACTIVE = []


class Loop:

  def __init__(self, binders, items):
    self.binders = binders
    self.items = items

  def __iter__(self):
    for x in self.items():
      ACTIVE.extend(self.binders)
      try:
        yield x
      finally:
        del ACTIVE[len(ACTIVE) - len(self.binders):]


class List(list):
  """A list that knows the loops it is appended to in."""

  def __init__(self, *a):
    super().__init__(*a)
    self.depth = len(ACTIVE)
    self.binders = []

  def append(self, x):
    new = ACTIVE[self.depth:]
    if (new or self.binders) and (len(self) or self.binders):
      raise Unsupported('a list appended to in more than one place')
    self.binders = builtins.list(new)
    super().append(x)

  def _whole(self, *a, **k):
    raise Unsupported('use of a list of symbolic length')

  def plain(self):
    return not self.binders

  def __len__(self):
    return super().__len__() if self.plain() else self._whole()

  def __getitem__(self, k):
    return super().__getitem__(k) if self.plain() else self._whole()

  def __iter__(self):
    return super().__iter__() if self.plain() else self._whole()

  def __bool__(self):
    if self.plain():
      return super().__len__() > 0
    return sxr.fork(T.And(*[b.n > 0 for b in self.binders]))

  def items(self):
    return builtins.list(super().__iter__())

  def __radd__(self, o):
    return o + (self.items() if self.plain() else self._whole())


def _op(name):
  real = getattr(builtins.list, name)
  def f(self, *a, **k):
    if self.binders or ACTIVE[self.depth:]:
      raise Unsupported('use of a list of symbolic length')
    return real(self, *a, **k)
  return f


for _n in ('extend', '__iadd__', '__add__', '__mul__', 'insert', 'pop', 'sort', 'reverse', 'remove', '__contains__', '__eq__', 'index', 'count', '__setitem__', '__delitem__', 'clear', 'copy'):
  setattr(List, _n, _op(_n))


def for_(it, ok):
  if isinstance(it, loops.Seq) or isinstance(it, List) and it.binders:
    if not ok:
      raise Unsupported('loop over a sequence of symbolic length')
    if isinstance(it, List):
      return Loop(it.binders, it.items)
    b = Binder(it)
    return Loop([b], lambda: [it.at(loops.num(b.k))])
  return it


def comp(f, it):
  if isinstance(it, loops.Seq) or isinstance(it, List) and it.binders:
    r = List()
    for x in for_(it, True):
      y = f(x)
      if isinstance(y, List):
        raise Unsupported('list of lists')
      r.append(y)
    return r
  return [f(x) for x in it]


def gen(f, it):
  r = comp(f, it)
  return r if isinstance(r, List) else iter(r)


def enumerate_(x, start=0):
  if isinstance(x, loops.Seq):
    return Seq(x.n, lambda k: (k + start, x.at(k)), getattr(x, 'rigid', None))
  return builtins.enumerate(x, start)


def product(*xs):
  if not any(isinstance(x, loops.Seq) for x in xs):
    return itertools.product(*xs)
  if len(xs) != 2 or any(getattr(x, 'rigid', None) is None for x in xs):
    raise Unsupported('product')
  x, y = xs
  m = loops.zi(y.n)
  # the pair at the contract's position
  at = lambda k: (x.at(loops.num(x.rigid)), y.at(loops.num(y.rigid)))
  learn(z3.Implies(z3.And(x.rigid >= 0, x.rigid < loops.zi(x.n), y.rigid >= 0, y.rigid < m),
                   z3.And(x.rigid * m + y.rigid >= 0, x.rigid * m + y.rigid < loops.zi(x.n) * m)))
  return Seq(loops.num(loops.zi(x.n) * m), at, x.rigid * m + y.rigid)


def len_(x):
  if isinstance(x, loops.Seq):
    return x.n
  if isinstance(x, (Frame, Series)):
    return Len(x.space)
  return builtins.len(x)


class Len:
  """The number of rows of a table."""

  def __init__(self, space):
    self.space = space

  def __getattr__(self, k):
    raise Unsupported('number of rows of a table')

  def _no(self, *a):
    raise Unsupported('number of rows of a table')

  __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __add__ = __sub__ = __index__ = __int__ = _no


def range_(*a):
  if builtins.len(a) == 1 and isinstance(a[0], Len):
    return a[0]
  return loops.range_(*a)


def independent(loop):
  """No iteration of the loop depends on another: the body reads only names that it has set before, or that it does not set; lists
  of the surrounding code are only appended to; item assignments are to names set in the body; every iteration runs to its end."""
  bad = (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Try, ast.With, ast.While, ast.NamedExpr, ast.Global, ast.Nonlocal,
         ast.FunctionDef, ast.ClassDef, ast.Delete, ast.Match)
  if loop.orelse or any(isinstance(n, bad) for s in loop.body for n in ast.walk(s)):
    return False
  inner = lambda n: {m.id for c in ast.walk(n) if isinstance(c, ast.comprehension) for m in ast.walk(c.target) if isinstance(m, ast.Name)} | {
      a.arg for c in ast.walk(n) if isinstance(c, ast.Lambda) for a in c.args.args}
  stored = lambda n: {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
  names = set().union(*[stored(s) - inner(s) for s in loop.body]) | stored(loop.target)
  lists = set()

  def reads(n, done):
    own = inner(n)
    return all(not (isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load)) or m.id in own or m.id not in names or m.id in done for m in ast.walk(n))

  def block(body, done):
    """The names set after the body, or None."""
    for s in body:
      if isinstance(s, (ast.Pass, ast.Assert, ast.Raise)):
        if not reads(s, done):
          return None
      elif isinstance(s, ast.Expr):
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'append' and isinstance(v.func.value, ast.Name):
          if v.func.value.id not in names:
            lists.add(v.func.value.id)
          if not all(reads(a, done) for a in v.args):
            return None
        elif isinstance(v, ast.Constant):
          continue
        elif not reads(v, done):
          return None
      elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
        if s.value is not None and not reads(s.value, done):
          return None
        new = set()
        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
          if isinstance(s, ast.AugAssign) and isinstance(t, ast.Name):
            if t.id not in done:
              return None
          elif isinstance(t, (ast.Name, ast.Tuple, ast.List)) and not any(isinstance(m, (ast.Attribute, ast.Subscript)) for m in ast.walk(t)):
            new |= stored(t)
          else:
            base = t
            while isinstance(base, (ast.Attribute, ast.Subscript)):
              if isinstance(base, ast.Subscript) and not reads(base.slice, done):
                return None
              base = base.value
            if not (isinstance(base, ast.Name) and base.id in done):
              return None
        done = done | new
      elif isinstance(s, ast.If):
        if not reads(s.test, done):
          return None
        x, y = block(s.body, done), block(s.orelse, done)
        if x is None or y is None:
          return None
        done = x & y
      elif isinstance(s, ast.For):
        if not reads(s.iter, done) or block(s.body, done | stored(s.target)) is None:
          return None
      else:
        return None
    return done

  if block(loop.body, stored(loop.target)) is None:
    return False
  appended = {id(n.func.value) for s in loop.body for n in ast.walk(s) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append'}
  return not any(isinstance(n, ast.Name) and n.id in lists and id(n) not in appended for s in loop.body for n in ast.walk(s))


class _Rewrite(ast.NodeTransformer):

  def _fn(self, node, name):
    node = self.generic_visit(node)
    g = node.generators[0]
    if len(node.generators) != 1 or g.ifs or g.is_async or not isinstance(g.target, ast.Name) or any(isinstance(n, ast.NamedExpr) for n in ast.walk(node.elt)):
      return node
    fn = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), node.elt)
    return ast.Call(ast.Name(name, ast.Load()), [fn, g.iter], [])

  def visit_ListComp(self, node):
    return self._fn(node, 'vc_comp_')

  def visit_GeneratorExp(self, node):
    return self._fn(node, 'vc_gen_')

  def visit_For(self, node):
    ok = independent(node)
    node = self.generic_visit(node)
    node.iter = ast.Call(ast.Name('vc_for_', ast.Load()), [node.iter, ast.Constant(ok)], [])
    return node

  def visit_List(self, node):
    if isinstance(node.ctx, ast.Load) and not node.elts:
      return ast.Call(ast.Name('vc_list_', ast.Load()), [], [])
    return self.generic_visit(node)


def load(module, store):
  """The module, compiled from its current source, reading its files from `store`."""
  tree = ast.fix_missing_locations(_Rewrite().visit(ast.parse(inspect.getsource(module))))
  m = types.ModuleType(module.__name__)
  m.__file__ = module.__file__
  m.__dict__.update(vc_comp_=comp, vc_gen_=gen, vc_for_=for_, vc_list_=List, len=len_, range=range_, enumerate=enumerate_)
  exec(compile(tree, module.__file__, 'exec'), m.__dict__)  # pylint: disable=exec-used
  pdp = patch.ModProxy(pd, {'read_parquet': store.read, 'concat': concat, 'Timestamp': lambda t: t if isinstance(t, Num) else pd.Timestamp(t),
                            'Timedelta': lambda t, *a, **k: t if isinstance(t, Num) else pd.Timedelta(t, *a, **k)})
  npp = patch.ModProxy(patch.NP, {'datetime64': Datetime, 'timedelta64': Timedelta, 'arange': arange, 'isin': isin, 'where': np_where})
  for k, v in builtins.list(vars(m).items()):
    if v is np:
      setattr(m, k, npp)
    elif v is pd:
      setattr(m, k, pdp)
    elif v is itertools:
      setattr(m, k, patch.ModProxy(itertools, {'product': product}))
    elif v is itertools.product:
      setattr(m, k, product)
  return m


# ---------------------------------------------------------------- tables


def sv(x):
  """A scalar operand."""
  if isinstance(x, (SV, Str)):
    return x
  if isinstance(x, str):
    return Str(z3.IntVal(Str.code(x)))
  if isinstance(x, (pd.Timestamp, pd.Timedelta)):
    x = x.to_numpy()
  if x is pd.NaT or x is None:
    raise Unsupported('missing time')
  return SV.of(x)


def vsame(a, b):
  """The same value (missing values being the same)."""
  if isinstance(a, Str) or isinstance(b, Str):
    return a.z == b.z if isinstance(a, Str) and isinstance(b, Str) else False
  return T.zb(T.same(a, b))


class Row:
  """A row of the stored data in a table: whether it is there, where in the order, and its values."""

  def __init__(self, name, guard, cols, pos):
    self.name = name
    self.guard = guard
    self.cols = cols
    self.pos = pos

  def where(self, c):
    return Row(self.name, T.And(self.guard, c), self.cols, self.pos)

  def copy(self):
    return Row(self.name, self.guard, dict(self.cols), self.pos)


def truth(v):
  return T.tobool(v).v


def _elementwise(f):
  def op(self, *o):
    return self._map(lambda a, *c: f(a, *c), *o)
  return op


def _eq(a, b):
  if isinstance(a, Str) or isinstance(b, Str):
    return SV('b', T.zb(vsame(a, b)))
  return a.eq(b)


class Series:
  __hash__ = None

  def __init__(self, space, rows, vals, name=None):
    self.space = space
    self.rows = rows
    self.vals = vals
    self.name = name

  def _map(self, f, *os):
    cols = []
    for o in os:
      if isinstance(o, Series):
        self._aligned(o)
        cols.append(o.vals)
      elif isinstance(o, (Frame, np.ndarray, builtins.list, tuple, sxr.SymDataArray)):
        raise Unsupported(f'operation of a column and {type(o)}')
      else:
        cols.append([sv(o)] * builtins.len(self.vals))
    return Series(self.space, self.rows, [f(a, *c) for a, *c in zip(self.vals, *cols)], self.name)

  def _aligned(self, o):
    if o.space is not self.space or [r.name for r in o.rows] != [r.name for r in self.rows]:
      raise Unsupported('columns of different tables')

  __add__ = __radd__ = _elementwise(lambda a, c: T.add(a, c))
  __sub__ = _elementwise(lambda a, c: T.sub(a, c))
  __rsub__ = _elementwise(lambda a, c: T.sub(c, a))
  __mul__ = __rmul__ = _elementwise(lambda a, c: T.mul(a, c))
  __truediv__ = _elementwise(lambda a, c: T.div(a, c))
  __rtruediv__ = _elementwise(lambda a, c: T.div(c, a))
  __mod__ = _elementwise(lambda a, c: T.modv(a, c))
  __lt__ = _elementwise(lambda a, c: a < c)
  __le__ = _elementwise(lambda a, c: a <= c)
  __gt__ = _elementwise(lambda a, c: a > c)
  __ge__ = _elementwise(lambda a, c: a >= c)
  __eq__ = _elementwise(_eq)
  __ne__ = _elementwise(lambda a, c: ~_eq(a, c))
  __and__ = __rand__ = _elementwise(lambda a, c: a & c)
  __or__ = __ror__ = _elementwise(lambda a, c: a | c)
  __invert__ = _elementwise(lambda a: ~a if a.k == 'b' else unsupported('~ of numbers'))
  __neg__ = _elementwise(T.neg)
  __abs__ = _elementwise(lambda a: T.absv(a))
  abs = __abs__
  isna = isnull = _elementwise(lambda a: SV('b', False) if isinstance(a, Str) else T.isnull(a))
  notna = notnull = _elementwise(lambda a: SV('b', True) if isinstance(a, Str) else ~T.isnull(a))
  mod = __mod__
  sub = __sub__
  add = __add__
  lt, le, gt, ge, eq, ne = __lt__, __le__, __gt__, __ge__, __eq__, __ne__

  def copy(self, deep=True):
    return Series(self.space, self.rows, builtins.list(self.vals), self.name)

  def where(self, cond, other=np.nan):
    if not isinstance(cond, Series):
      raise Unsupported('where')
    return self._map(lambda a, c, o: T.where(c, a, o) if isinstance(a, SV) else unsupported('where on strings'), cond, other)

  def mask(self, cond, other=np.nan):
    return self.where(~cond, other)

  def isin(self, values):
    if not isinstance(values, (builtins.list, tuple, set, frozenset)) or not all(isinstance(v, (str, int, float)) for v in values):
      raise Unsupported('isin')
    return self._map(lambda a: SV('b', T.zb(T.Or(*[T.zb(_eq(a, sv(v)).v) if isinstance(a, Str) == isinstance(v, str) else False for v in values]))))

  def duplicated(self, keep='first'):
    if keep not in ('first', 'last'):
      raise Unsupported('duplicated')
    d = [z3.FreshConst(T.B, 'dup') for _ in self.rows]
    first = lambda r, s: r.pos < s.pos if keep == 'first' else r.pos > s.pos
    for (r, a, x) in zip(self.rows, self.vals, d):
      for (s, c, y) in zip(self.rows, self.vals, d):
        if r is not s:
          learn(z3.Implies(T.zb(T.And(r.guard, s.guard, vsame(a, c), first(r, s))), y))
    witness(self, d, first)
    return Series(self.space, self.rows, [SV('b', x) for x in d])

  @property
  def values(self):
    raise Unsupported('values of a column')

  def __array_ufunc__(self, ufunc, method, *inputs, **kw):
    if method != '__call__' or kw:
      raise Unsupported(f'{ufunc.__name__}.{method} of a column')
    op = {'absolute': '__abs__', 'fabs': '__abs__', 'invert': '__invert__', 'logical_not': '__invert__', 'negative': '__neg__', 'isnan': 'isna'}.get(ufunc.__name__)
    if op:
      return getattr(self, op)()
    op = {'remainder': '__mod__', 'add': '__add__', 'subtract': '__sub__', 'multiply': '__mul__', 'less': '__lt__', 'less_equal': '__le__', 'greater': '__gt__', 'greater_equal': '__ge__',
          'equal': '__eq__', 'not_equal': '__ne__', 'bitwise_and': '__and__', 'bitwise_or': '__or__', 'logical_and': '__and__', 'logical_or': '__or__'}.get(ufunc.__name__)
    if op is None:
      raise Unsupported(f'{ufunc.__name__} of a column')
    x, y = inputs
    if isinstance(x, Series):
      return getattr(x, op)(y)
    return Series(y.space, y.rows, [sv(x)] * builtins.len(y.vals)).__getattribute__(op)(y)

  def __array_function__(self, func, types_, args, kwargs):
    raise Unsupported(f'{func.__name__} of a column')

  def __array__(self, *a, **k):
    raise Unsupported('array of a column')

  def __bool__(self):
    raise Unsupported('truth of a column')

  def __iter__(self):
    raise Unsupported('iteration over a column')

  def __getattr__(self, k):
    raise Unsupported(f'Series.{k}')


def isin(x, values, **k):
  if isinstance(x, Series) and not k:
    return x.isin(values)
  return np.isin(x, values, **k)


def np_where(c, *a):
  if isinstance(c, Series):
    raise Unsupported('np.where of a column')
  return patch.NP.where(c, *a)


WITNESS = []


def witness(series, d, first):
  """The row called `kept` is the one that stays of the group of the row called `some` (there is one, as the table has only finitely many rows)."""
  if sxr.Ctx.current is None or getattr(sxr.Ctx.current, 'witnessed', False):
    raise Unsupported('duplicates removed more than once')
  sxr.Ctx.current.witnessed = True
  by = {r.name: (r, a, x) for r, a, x in zip(series.rows, series.vals, d)}
  if 'kept' in by:
    (r, a, x), (w, c, y) = by['some'], by['kept']
    learn(z3.Implies(T.zb(T.And(r.guard, x)), T.zb(T.And(w.guard, vsame(a, c), z3.Not(y), first(w, r)))))


class _Loc:

  def __init__(self, df):
    self.df = df

  def __getitem__(self, k):
    if isinstance(k, tuple) and builtins.len(k) == 2:
      df = self.df if isinstance(k[0], slice) and k[0] == slice(None) else self.df[k[0]] if isinstance(k[0], Series) else unsupported('loc')
      return df[k[1]]
    if isinstance(k, Series):
      return self.df[k]
    raise Unsupported('loc')

  def __setitem__(self, k, v):
    if isinstance(k, tuple) and builtins.len(k) == 2 and isinstance(k[1], str):
      if isinstance(k[0], slice) and k[0] == slice(None):
        self.df[k[1]] = v
        return
      if isinstance(k[0], Series) and k[1] in self.df.names:
        self.df[k[1]] = self.df[k[1]].where(~k[0], v)
        return
    raise Unsupported('loc assignment')


class Frame:
  __hash__ = None

  def __init__(self, space, rows, names, closed=False, unique=True):
    self.__dict__.update(space=space, rows=rows, names=builtins.list(names), closed=closed, unique=unique)

  def _like(self, rows, names=None):
    return Frame(self.space, rows, self.names if names is None else names, self.closed, self.unique)

  def _series(self, k):
    return Series(self.space, self.rows, [r.cols[k] for r in self.rows], k)

  @property
  def columns(self):
    return builtins.list(self.names)

  @property
  def loc(self):
    return _Loc(self)

  def __contains__(self, k):
    return k in self.names

  def __getitem__(self, k):
    if isinstance(k, str):
      if k not in self.names:
        raise KeyError(k)
      return self._series(k)
    if isinstance(k, Series):
      self._series(self.names[0])._aligned(k)
      return self._like([r.copy().where(truth(v)) for r, v in zip(self.rows, k.vals)])
    if isinstance(k, (builtins.list, tuple)) and all(isinstance(x, str) for x in k):
      for x in k:
        if x not in self.names:
          raise KeyError(f'{x} not in index')
      if builtins.len(set(k)) != builtins.len(k):
        raise Unsupported('a column twice')
      return self._like([Row(r.name, r.guard, {x: r.cols[x] for x in k}, r.pos) for r in self.rows], k)
    raise Unsupported('item of a table')

  def __setitem__(self, k, v):
    if not isinstance(k, str):
      raise Unsupported('item assignment')
    if isinstance(v, Series):
      self._series(self.names[0])._aligned(v)
      if any(not (a.guard is r.guard or z3.eq(T.zb(a.guard), T.zb(r.guard))) for a, r in zip(v.rows, self.rows)):
        raise Unsupported('column of a filtered table')
      vals = v.vals
    elif isinstance(v, (builtins.list, tuple, np.ndarray, Frame, loops.Seq)):
      raise Unsupported('column from a sequence')
    else:
      vals = [sv(v)] * builtins.len(self.rows)
    for r, x in zip(self.rows, vals):
      r.cols[k] = x
    if k not in self.names:
      self.names.append(k)

  def __getattr__(self, k):
    if k in self.__dict__.get('names', ()):
      return self._series(k)
    raise Unsupported(f'DataFrame.{k}')

  def __setattr__(self, k, v):
    if k == 'index':
      if not (isinstance(v, Len) and v.space is self.space):
        raise Unsupported('index')
      self.__dict__.update(space=object(), unique=True)
    elif k in self.names:
      self[k] = v
    else:
      raise Unsupported(f'DataFrame.{k}')

  def __delitem__(self, k):
    self.drop(columns=[k], inplace=True)

  def copy(self, deep=True):
    return self._like([r.copy() for r in self.rows])

  def assign(self, **kw):
    r = self.copy()
    for k, v in kw.items():
      r[k] = v(r) if callable(v) and not isinstance(v, Num) else v
    return r

  def drop(self, labels=None, columns=None, axis=0, inplace=False):
    columns = labels if columns is None and axis in (1, 'columns') else columns
    if columns is None or inplace:
      raise Unsupported('drop')
    columns = [columns] if isinstance(columns, str) else columns
    for c in columns:
      if c not in self.names:
        raise KeyError(c)
    return self[[c for c in self.names if c not in columns]]

  def rename(self, columns=None, **kw):
    if kw or not hasattr(columns, 'keys'):
      raise Unsupported('rename')
    new = [columns[n] if n in columns else n for n in self.names]
    if builtins.len(set(new)) != builtins.len(new):
      raise Unsupported('two columns of one name')
    return self._like([Row(r.name, r.guard, {m: r.cols[n] for n, m in zip(self.names, new)}, r.pos) for r in self.rows], new)

  def reset_index(self, drop=False):
    if not drop:
      raise Unsupported('reset_index')
    r = self.copy()
    r.__dict__.update(space=object(), unique=True)
    return r

  def sort_values(self, by, ascending=True, ignore_index=False, kind=None, **kw):
    by = by[0] if isinstance(by, (builtins.list, tuple)) and builtins.len(by) == 1 else by
    if kw or not isinstance(by, str) or ascending not in (True, False):
      raise Unsupported('sort_values')
    self._open()
    if by not in self.names:
      raise KeyError(by)
    rows = [Row(r.name, r.guard, dict(r.cols), z3.FreshConst(T.I, 'order')) for r in self.rows]
    for r, s in itertools.permutations(builtins.range(builtins.len(rows)), 2):
      a, c = rows[r].cols[by], rows[s].cols[by]
      if isinstance(a, Str):
        raise Unsupported('sorting strings')
      less = (a < c) if ascending else (c < a)
      before = T.And(T.Not(T.isnull(a).v), T.Or(T.isnull(c).v, less.v))
      tie = T.And(T.Not(before), T.Not(T.And(T.Not(T.isnull(c).v), T.Or(T.isnull(a).v, ((c < a) if ascending else (a < c)).v))))
      learn(z3.Implies(T.zb(before), rows[r].pos < rows[s].pos))
      if kind in ('stable', 'mergesort'):
        learn(z3.Implies(T.zb(T.And(tie, self.rows[r].pos < self.rows[s].pos)), rows[r].pos < rows[s].pos))
      learn((rows[r].pos == rows[s].pos) == (self.rows[r].pos == self.rows[s].pos))
    f = self._like(rows)
    return f.reset_index(drop=True) if ignore_index else f

  def _open(self):
    if self.closed:
      raise Unsupported('rows of different requested times compared')

  def drop_duplicates(self, subset=None, keep='first', ignore_index=False):
    if isinstance(subset, (builtins.list, tuple)) and builtins.len(subset) == 1:
      subset = subset[0]
    if not isinstance(subset, str):
      raise Unsupported('drop_duplicates')
    self._open()
    f = self[~self[subset].duplicated(keep)]
    return f.reset_index(drop=True) if ignore_index else f

  def to_xarray(self):
    if not self.unique:
      raise Unsupported('to_xarray with a repeated index')
    return Table(self.rows, [n for n in self.names], [])

  def __bool__(self):
    raise ValueError('The truth value of a DataFrame is ambiguous.')

  def __iter__(self):
    return iter(self.names)


def concat(parts, ignore_index=False, axis=0, **kw):
  if kw or axis != 0:
    raise Unsupported('pd.concat')
  if not isinstance(parts, (builtins.list, tuple)):
    parts = builtins.list(parts)
  binders = parts.binders if isinstance(parts, List) else []
  items = parts.items() if isinstance(parts, List) else builtins.list(parts)
  if not items:
    raise ValueError('No objects to concatenate')
  if builtins.len(items) != 1 or not isinstance(items[0], Frame):
    raise Unsupported('concatenation of several tables')
  f = items[0]
  closed = f.closed
  nonempty = []
  rows = [r.copy() for r in f.rows]
  for b in reversed(binders):
    if b.rigid:
      closed = True
    else:
      if closed:
        raise Unsupported('loop around the requested times')
      if not sxr.fork(b.n > 0):
        raise ValueError('No objects to concatenate')
      rows = [close(r, b) for r in rows]
  for r in rows:
    if not closed:
      r.pos = z3.FreshConst(T.I, 'row')
  if not closed:
    order(rows)
  return Frame(object(), rows, f.names, closed, unique=bool(ignore_index))


def order(rows):
  """Rows are at different places, but for the row that stays of a group, which may be any."""
  for r, s in itertools.combinations(rows, 2):
    if not {r.name, s.name} & {'kept'}:
      learn(r.pos != s.pos)


def close(r, b):
  """The row in the tables of all positions together."""
  kappa = STORE[-1].period[r.name]
  k0 = STORE[-1].first(b)
  if k0 is None:
    raise Unsupported('files in an unknown order')
  w = kappa - k0
  ctx = sxr.Ctx.current
  if ctx.feasible(T.zb(T.And(r.guard, b.range, b.k != w))):
    raise Unsupported('a row in more than one file')
  for v in r.cols.values():
    z = v.z if isinstance(v, Str) else v.v
    if z3.is_expr(z) and _mentions(z, b.k):
      raise Unsupported('values that depend on the file')
  sub = lambda c: z3.substitute(T.zb(c), (b.k, w))
  return Row(r.name, T.And(sub(r.guard), sub(b.range)), r.cols, r.pos)


def _mentions(e, c):
  todo = [e]
  while todo:
    x = todo.pop()
    if z3.eq(x, c):
      return True
    todo.extend(x.children())
  return False


STORE = []


class Store:
  """Files by period.  rows: name -> (period number of its file, values by column)."""

  def __init__(self, path, unit, rows):
    self.path = path
    self.unit = unit
    self.stored = rows
    self.period = {n: k for n, (k, _) in rows.items()}
    self.firsts = {}
    STORE[:] = [self]
    del ACTIVE[:]

  def first(self, b):
    return self.firsts.get(b.k.get_id())

  def read(self, fn, filters=None, columns=None, engine=None):
    if columns is not None:
      raise Unsupported('read_parquet(columns)')
    if not isinstance(fn, str):
      raise Unsupported('file name')
    z = None
    for b in reversed(ACTIVE):
      if b.rigid:
        continue
      p = b.seq.at(loops.num(b.k))
      if isinstance(p, Period):
        z, unit = p, p.unit
        self.firsts[b.k.get_id()] = z3.simplify(z3.substitute(p.z, (b.k, z3.IntVal(0))))
        break
    if z is None:
      raise Unsupported('a file outside a loop over periods')
    if str.__str__(fn) != template(self.path, self.unit, z.z):
      raise FileNotFoundError('not the file of a period: ' + str.__str__(fn).replace('\x01', '{').replace('\x02', '}'))
    names = builtins.list(next(iter(self.stored.values()))[1])
    rows = []
    for n, (kappa, cols) in self.stored.items():
      rows.append(Row(n, T.And(kappa == z.z, *[truth(self.filter(cols, f)) for f in filters or ()]), dict(cols), z3.FreshConst(T.I, 'row')))
    order(rows)
    return Frame(object(), rows, names)

  def filter(self, cols, f):
    if not isinstance(f, tuple) or builtins.len(f) != 3:
      raise Unsupported('filters')
    c, op, v = f
    if c not in cols:
      raise Unsupported('filter on a missing column')
    a, v = cols[c], sv(v)
    fn = {'=': _eq, '==': _eq, '!=': lambda x, y: ~_eq(x, y), '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}.get(op)
    if fn is None:
      raise Unsupported(f'filter {op}')
    return fn(a, v)


# ---------------------------------------------------------------- results


class Elements:
  """One variable of the result: an element for each row."""

  def __init__(self, table, name):
    self.table = table
    self.name = name

  @property
  def rows(self):
    return self.table.rows

  def dropna(self, dim, how='any'):
    if dim != 'index' or how != 'any':
      raise Unsupported('dropna')
    t = self.table
    return Elements(Table([r.where(present(r.cols[self.name])) for r in t.rows], t.names, t.coords), self.name)

  def __getattr__(self, k):
    raise Unsupported(f'DataArray.{k}')


def present(v):
  return True if isinstance(v, Str) else T.Not(T.isnull(v).v)


class Table:
  """Dataset of columns over `index`."""

  def __init__(self, rows, names, coords):
    self.rows = rows
    self.names = names
    self.coords = builtins.list(coords)

  def set_coords(self, names):
    names = [names] if isinstance(names, str) else builtins.list(names)
    if any(n not in self.names for n in names):
      raise ValueError('One or more of the specified variables cannot be found in this dataset')
    return Table(self.rows, self.names, [*self.coords, *names])

  def keys(self):
    return [n for n in self.names if n not in self.coords]

  data_vars = property(lambda self: {k: self[k] for k in self.keys()})

  def __iter__(self):
    return iter(self.keys())

  def items(self):
    return [(k, self[k]) for k in self.keys()]

  def __getitem__(self, k):
    if k not in self.names:
      raise KeyError(k)
    return Elements(self, k)

  def dropna(self, dim, how='any', subset=None):
    if dim != 'index' or how not in ('any', 'all'):
      raise Unsupported('dropna')
    f = T.And if how == 'any' else T.Or
    return Table([r.where(f(*[present(r.cols[k]) for k in (self.keys() if subset is None else subset)])) for r in self.rows], self.names, self.coords)

  def __getattr__(self, k):
    raise Unsupported(f'Dataset.{k}')


def snapshot(x):
  """What a load must leave as it was."""
  return {k: (id(v), repr(v) if isinstance(v, (builtins.list, dict, set)) else None) for k, v in vars(x).items()}


def conforms(v, real, env, cb, path):
  """The conditions of the rows in the result, evaluated on a sample, against what the real loader gives."""
  from vc import conc
  n = 0
  name = v.name if isinstance(v, Elements) else v.keys()[0]
  for r in v.rows:
    if r.name not in cb.world.pick:
      continue
    try:
      got = bool(conc.ev(T.zb(r.guard), env, {}))
    except (conc.EvalError, KeyError):
      continue
    want = cb.world.found({name: real} if isinstance(v, Elements) else real, r.name, name)
    n += 1
    if got != bool(want.there):
      return n, f'{path}: row {r.name}: engine {got}, real {bool(want.there)}'
  return n, None
