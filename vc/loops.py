"""Iterations over ranges of symbolic length.

The module is compiled from its current source with three mechanical changes, made on every run:
  [e for x in it]   becomes  vc_comp_(lambda x: e, it)      (single generator, no condition)
  for t in it: ...  becomes  for t in vc_for_(it, ok): ...  (ok: the body is straight-line and carries no state from one
                                                              iteration to the next, so that one arbitrary iteration stands for all)
  builtins len, range, enumerate, list, tuple and itertools.product know sequences of symbolic length.
Everything else is the source as it is.  A sequence of symbolic length is a length and a function from positions to elements;
a loop over it is executed for one arbitrary position.

Assumed contracts: range(a, b, s) with s > 0 has 1 + (b - a - 1) // s elements if a < b (else none), element k being a + k s;
product(x, y) has len(x) len(y) elements, element k being (x[k // len(y)], y[k % len(y)]); enumerate pairs elements with positions.
"""
import ast
import builtins
import contextlib
import inspect
import itertools
import sys
import types
import numpy as np
import z3
from vc import patch
from vc import sxr
from vc import terms as T
from vc.terms import SV, Unsupported


def num(z):
  return z if isinstance(z, int) else sxr.SymNum(SV('i', z3.ToReal(z)), z)


def zi(x):
  if isinstance(x, sxr.SymNum):
    if x.zi is None:
      raise Unsupported('a position that is not an integer')
    return T.zi(x.zi)
  return T.zi(int(x))


class Seq:
  """A sequence of symbolic length."""

  def __init__(self, n, at):
    self.n = n
    self.at = at

  def __iter__(self):
    raise Unsupported('iteration over a sequence of symbolic length')

  def __next__(self):
    raise Unsupported('iteration over a sequence of symbolic length')

  def __getitem__(self, k):
    if isinstance(k, slice):
      raise Unsupported('slice of a sequence of symbolic length')
    n, k = zi(self.n), zi(k)
    if sxr.fork(k < 0):
      k = k + n
      if sxr.fork(k < 0):
        raise IndexError('list index out of range')
    if sxr.fork(k >= n):
      raise IndexError('list index out of range')
    return self.at(num(k))


_POSITIONS = []


@contextlib.contextmanager
def position(k):
  """The arbitrary position (in range, by assumption of the contract) that the loop is executed for; gives the length of its sequence."""
  _POSITIONS.append((k, []))
  try:
    yield _POSITIONS[-1][1]
  finally:
    _POSITIONS.pop()


def unsupported(why):
  raise Unsupported(why)


class Element:
  """One arbitrary position of a sequence: what one iteration of a loop over it sees."""

  def __init__(self, seq):
    self.seq = seq

  def __iter__(self):
    if not _POSITIONS or _POSITIONS[-1][1]:
      raise Unsupported('loop over a sequence of symbolic length')
    k, lengths = _POSITIONS[-1]
    lengths.append(self.seq.n)
    yield self.seq.at(k)


def len_(x):
  if isinstance(x, Seq):
    return x.n
  if isinstance(x, sxr.SymND):
    return x.shape[0]
  f = getattr(type(x), '__len__', None)
  return f(x) if isinstance(f, types.FunctionType) else builtins.len(x)


def range_(*a):
  if not any(isinstance(x, sxr.SymNum) for x in a):
    return builtins.range(*a)
  lo, hi, step = (0, a[0], 1) if len(a) == 1 else (*a, 1) if len(a) == 2 else a
  l, h, s = zi(lo), zi(hi), zi(step)
  if sxr.fork(s == 0):
    raise ValueError('range() arg 3 must not be zero')
  if sxr.fork(s < 0):
    raise Unsupported('descending range')
  if not sxr.fork(l < h):
    return []
  return Seq(num(1 + (h - l - 1) / s), lambda k: num(z3.simplify(l + zi(k) * s)))


def comp(f, it):
  if isinstance(it, Seq):
    return Seq(it.n, lambda k: f(it.at(k)))
  return [f(x) for x in it]


def for_(it, ok):
  if isinstance(it, Seq):
    if not ok:
      raise Unsupported('loop over a sequence of symbolic length')
    return Element(it)
  return it


def of(x):
  """The elements of x: a Seq, or x itself."""
  if not isinstance(x, Seq) and isinstance(getattr(type(x), '__iter__', None), types.FunctionType):
    r = type(x).__iter__(x)
    return r
  return x


def enumerate_(x, start=0):
  y = of(x)
  if isinstance(y, Seq):
    return Seq(y.n, lambda k: (k + start, y.at(k)))
  return builtins.enumerate(y, start)


class List(list):
  """list: as it is, but for sequences of symbolic length."""

  def __new__(cls, x=()):
    y = of(x)
    return y if isinstance(y, Seq) else builtins.list(y)


def product(*xs):
  ys = [of(x) for x in xs]
  if not any(isinstance(y, Seq) for y in ys):
    return itertools.product(*ys)
  if len(ys) != 2:
    raise Unsupported('product of more than two sequences')
  x, y = [v if isinstance(v, Seq) else Seq(len(v), (lambda v: lambda k: v[0] if len(v) == 1 else builtins.list(v)[_const(k)])(builtins.list(v))) for v in ys]
  m = y.n
  return Seq(num(z3.simplify(zi(x.n) * zi(m))), lambda k: (x.at(sym(k) // m), y.at(sym(k) % m)))


def sym(k):
  return k if isinstance(k, sxr.SymNum) else num(z3.IntVal(k))


def _const(k):
  z = z3.simplify(zi(k))
  if not z3.is_int_value(z):
    raise Unsupported('symbolic position in a list')
  return z.as_long()


class _NDArray(type):

  def __instancecheck__(cls, x):
    return isinstance(x, (np.ndarray, sxr.SymND))


class NDArray(metaclass=_NDArray):
  pass


def _pure(loop):
  """The body is straight-line, and no name it sets is read before being set."""
  targets = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
  done = set(targets)
  assigned = {n.id for s in loop.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
  if loop.orelse:
    return False
  for s in loop.body:
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
      value, stores = s.value.value, set()
    elif isinstance(s, ast.Assign) and all(isinstance(t, (ast.Name, ast.Tuple)) for t in s.targets):
      value, stores = s.value, {n.id for t in s.targets for n in ast.walk(t) if isinstance(n, ast.Name)}
    elif isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
      continue
    else:
      return False
    for n in ast.walk(value) if value is not None else ():
      if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
        return False
      if isinstance(n, ast.Name) and n.id in assigned and n.id not in done:
        return False
      if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id[:1].isupper() or isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'len', 'divmod')):
        return False
    done |= stores
  return True


class _Rewrite(ast.NodeTransformer):

  def visit_ListComp(self, node):
    node = self.generic_visit(node)
    g = node.generators[0]
    if len(node.generators) != 1 or g.ifs or g.is_async or not isinstance(g.target, ast.Name):
      return node
    if any(isinstance(n, ast.NamedExpr) for n in ast.walk(node.elt)):
      return node
    fn = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), node.elt)
    return ast.Call(ast.Name('vc_comp_', ast.Load()), [fn, g.iter], [])

  def visit_For(self, node):
    ok = _pure(node)
    node = self.generic_visit(node)
    node.iter = ast.Call(ast.Name('vc_for_', ast.Load()), [node.iter, ast.Constant(ok)], [])
    return node


def load(module):
  """The module, compiled from its current source for sequences of symbolic length."""
  tree = ast.fix_missing_locations(_Rewrite().visit(ast.parse(inspect.getsource(module))))
  m = types.ModuleType(module.__name__)
  m.__file__ = module.__file__
  m.__dict__.update(vc_comp_=comp, vc_for_=for_, len=len_, range=range_, enumerate=enumerate_, list=List)
  exec(compile(tree, module.__file__, 'exec'), m.__dict__)  # pylint: disable=exec-used
  for k, v in builtins.list(vars(m).items()):
    if v is np:
      setattr(m, k, patch.ModProxy(patch.NP, {'ndarray': NDArray}))
    elif v is itertools:
      setattr(m, k, patch.ModProxy(itertools, {'product': product}))
    elif v is itertools.product:
      setattr(m, k, product)
    elif v is np.ndarray:
      setattr(m, k, NDArray)
  return m


def identical(a, b):
  """Certainly the same number."""
  if isinstance(a, sxr.SymNum) or isinstance(b, sxr.SymNum):
    try:
      return z3.is_true(z3.simplify(zi(a) == zi(b)))
    except (TypeError, ValueError):
      return False
  return a == b


def real(x):
  return SV('i', z3.ToReal(zi(x)))


class Grown:
  """A list an iteration appends to, of which only the last element is known."""

  def __init__(self, last):
    self.last, self.added = last, []

  def append(self, x):
    self.added.append(x)

  def __getitem__(self, k):
    if k != -1:
      raise Unsupported('element of a list of unknown length')
    return self.added[-1] if self.added else self.last

  def _unknown(self, *a, **k):
    raise Unsupported('list of unknown length')

  __len__ = __iter__ = __contains__ = __add__ = __iadd__ = __setitem__ = __next__ = _unknown


class Whole(Seq):
  """All rows of an array, in order."""

  def __init__(self, n, array):
    super().__init__(n, lambda k: unsupported('row of an array at an unknown position'))
    self.array = array


class Cut:
  """A function with one top-level for loop, cut at the loop's invariant into three parts compiled from its current source:
  entry(*args) -> (sequence looped over, variables), step(variables, element) -> variables, finish(variables) -> value."""

  def __init__(self, fn):
    src = ast.parse(inspect.cleandoc(inspect.getsource(fn)) if inspect.getsource(fn)[:1].isspace() else inspect.getsource(fn)).body[0]
    at = [i for i, s in enumerate(src.body) if isinstance(s, ast.For)]
    odd = (ast.While, ast.AsyncFor, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Delete)
    if not isinstance(src, ast.FunctionDef) or len(at) != 1 or src.body[at[0]].orelse or any(isinstance(n, odd) for n in ast.walk(src)):
      raise Unsupported('a function not of the form: statements, one for loop, statements')
    loop = src.body[at[0]]
    before, after = src.body[:at[0]], src.body[at[0] + 1:]
    if any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for s in before + loop.body for n in ast.walk(s)):
      raise Unsupported('a loop that may be left early')
    self.fn, self.src, self.loop, self.before, self.after = fn, src, loop, before, after
    self.written = {n.id for s in [loop.target] + loop.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

  def _make(self, name, args, body):
    f = ast.FunctionDef(name, args, body, [], None)
    for k in ('type_params',):
      setattr(f, k, [])
    m = ast.fix_missing_locations(ast.Module([f], []))
    g = dict(self.fn.__globals__)
    g.update(len=len_, range=range_, enumerate=enumerate_, list=List)
    stack = lambda np_: patch.ModProxy(np_, {'stack': _stack(np_.stack), 'array': _stack(np_.array), 'asarray': _stack(np_.asarray)})
    for k, v in builtins.list(g.items()):
      if v is np or isinstance(v, patch.ModProxy) and k == 'np':
        g[k] = stack(v)
    exec(compile(m, self.fn.__code__.co_filename, 'exec'), g)  # pylint: disable=exec-used
    return g[name]

  def entry(self, *a, **k):
    names = lambda: ast.Call(ast.Name('dict', ast.Load()), [ast.Call(ast.Name('locals', ast.Load()), [], [])], [])
    args = self.src.args
    for x in args.args + args.kwonlyargs + args.posonlyargs:
      x.annotation = None
    args = ast.arguments(args.posonlyargs, args.args, args.vararg, args.kwonlyargs, args.kw_defaults, args.kwarg, args.defaults)
    g = self._make('vc_entry_', args, self.before + [ast.Return(ast.Tuple([self.loop.iter, names()], ast.Load()))])
    return g(*a, **k)

  def _with(self, state, extra, body):
    names = builtins.list(state) + extra
    return self._make('vc_part_', ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), body)

  def step(self, state, element):
    body = [ast.Assign([self.loop.target], ast.Name('vc_element_', ast.Load()))] + self.loop.body
    body.append(ast.Return(ast.Call(ast.Name('dict', ast.Load()), [ast.Call(ast.Name('locals', ast.Load()), [], [])], [])))
    try:
      r = self._with(state, ['vc_element_'], body)(*state.values(), element)
    except (UnboundLocalError, NameError) as e:
      raise Unsupported(f'loop state: {e}') from e
    return {k: r[k] for k in state if k in r}

  def finish(self, state):
    try:
      return self._with(state, [], self.after or [ast.Pass()])(*state.values())
    except (UnboundLocalError, NameError) as e:
      raise Unsupported(f'loop state: {e}') from e


def _stack(f):
  def stack(x, *a, **k):
    if isinstance(x, Whole):
      axis = a[0] if a and f.__name__.endswith('stack') else k.pop('axis', 0)
      if k or len(a) > 1 or a and not f.__name__.endswith('stack'):
        raise Unsupported('np.stack of rows')
      return x.array if axis == 0 else np.moveaxis(x.array, 0, axis) if isinstance(x.array, np.ndarray) else x.array.swapaxes(0, axis)
    return f(x, *a, **k)
  return stack


class Ints:
  """Integers of a contract: z3 integers when symbolic, Python integers when concrete."""

  def __init__(self, b):
    self.b = b

  def of(self, x):
    if isinstance(x, (Seq, sxr.SymND)):
      raise Unsupported('integer expected')
    return zi(x) if self.b.symbolic else int(x)

  def size(self, dim):
    return T.zi(self.b.doms[dim].size) if self.b.symbolic else int(self.b.sizes[dim])

  def scalar(self, name, lo, hi):
    """An arbitrary integer (between lo and hi in samples)."""
    s = self.b.scalar(name, 'i', gen=lambda rng: np.int64(rng.integers(lo, hi + 1)))
    return self.of(s.val)

  def div(self, a, m):
    return a / m if self.b.symbolic else a // m

  def mod(self, a, m):
    return a - m * (a / m) if self.b.symbolic else a % m

  def min(self, a, m):
    return z3.If(a <= m, a, m) if self.b.symbolic else min(a, m)

  def every(self, *cs):
    return z3.And(*cs) if self.b.symbolic else all(cs)

  def py(self, x):
    """The integer as the code under contract is given it."""
    return num(x) if self.b.symbolic else x

  def len(self, x):
    return self.of(len_(x)) if self.b.symbolic else len(x)

  def element(self, x, k):
    """Element k of a time array, or none."""
    if not self.b.symbolic:
      return x[k] if 0 <= k < len(x) else None
    if not isinstance(x, sxr.SymND):
      raise Unsupported(f'times as {type(x)}')
    return x.da.at({x.da._dims[0]: k})

  def source(self, h, d, k):
    if not self.b.symbolic:
      return h.values[k] if 0 <= k < h.values.shape[0] else None
    return h({}, **{d: k})

  def same(self, a, m):
    if not self.b.symbolic:
      return a is not None and m is not None and a == m
    return T.zb(T.same(SV.of(a), SV.of(m)))
