"""Assumed contract of jax.linearize / jax.vmap (forward differentiation).

jax.linearize(f, *args) evaluates f (the real code, on the engine's arrays) and returns its value and the directional
derivative at the arguments, by the rules of calculus; where the value is missing or infinite the derivative is missing."""
import itertools
import z3
from vc import sxr
from vc import terms as T
from vc.terms import SV, Unsupported

_n = itertools.count()


def _leaves(tree, path=()):
  if isinstance(tree, dict):
    for k, v in tree.items():
      yield from _leaves(v, path + (k,))
  elif isinstance(tree, (list, tuple)):
    for k, v in enumerate(tree):
      yield from _leaves(v, path + (k,))
  else:
    yield path, tree


def _map(f, tree, path=()):
  if isinstance(tree, dict):
    return {k: _map(f, v, path + (k,)) for k, v in tree.items()}
  if isinstance(tree, (list, tuple)):
    return type(tree)(_map(f, v, path + (k,)) for k, v in enumerate(tree))
  return f(path, tree)


class Dual:
  """Value and derivative of terms over leaf functions X (real) and N (missing)."""

  def __init__(self, value, missing, tangent):
    self.value, self.missing, self.tangent = value, missing, tangent   # name -> f(args); tangent gives (real, nan)
    self.memo = {}

  def touches(self, e):
    key = ('t', e.get_id())
    hit = self.memo.get(key)
    if hit is not None and hit[0].eq(e):
      return hit[1]
    r = False
    for a in T.apps(e):
      n = a.decl().name()
      if n in self.value or n in self.missing:
        r = True
        break
      ad = T.atom_def(a)
      if ad is not None and any(self.touches(b) for b in ad.bodies):
        r = True
        break
    self.memo[key] = (e, r)
    return r

  def of(self, e):
    """(value, derivative)"""
    key = e.get_id()
    hit = self.memo.get(key)
    if hit is not None and hit[0].eq(e):
      return hit[1]
    r = self._of(e)
    self.memo[key] = (e, r)
    return r

  def _of(self, e):
    zero = T.num(0)
    if not self.touches(e):
      return e, zero
    k = e.decl().kind()
    name = e.decl().name()
    ch = e.children()
    if name in self.value:
      return self.value[name](ch), self.tangent[name](ch)[0]
    if name in self.missing:
      return T.zb(self.missing[name](ch)), zero
    ad = T.atom_def(e)
    if ad is not None:
      ks = [T.fresh_idx(d, 'j') for d in ad.doms]
      bodies = [self.of(b) for b in ad.inst(list(ch), ks)]
      if ad.op == 'Sum':
        return T.sum_real(list(ks), list(ad.doms), bodies[0][0]), T.sum_real(list(ks), list(ad.doms), bodies[0][1])
      if ad.op == 'Any':
        return T.zb(T.any_bool(list(ks), list(ad.doms), bodies[0][0])), zero
      raise Unsupported(f'derivative of {ad.op}')
    if e.sort() != T.R:
      vs = [self.of(c)[0] for c in ch]
      if len(vs) == 2 and vs[0].sort() == T.R:
        for x, y, flip in ((*vs, False), (*vs[::-1], True)):
          # a comparison with zero of something known to be positive
          if T._is_num(y, 0) and T.positive(x):
            return z3.BoolVal({z3.Z3_OP_GT: not flip, z3.Z3_OP_GE: not flip, z3.Z3_OP_LT: flip, z3.Z3_OP_LE: flip, z3.Z3_OP_EQ: False}[k]), zero
      return e.decl()(*vs), zero
    cv = [self.of(c) for c in ch]
    if k == z3.Z3_OP_ADD:
      return sum((v for v, _ in cv[1:]), cv[0][0]), _total([d for _, d in cv])
    if k == z3.Z3_OP_SUB:
      return e.decl()(*[v for v, _ in cv]), _total([cv[0][1]] + [T._smul(T.num(-1), d) for _, d in cv[1:]])
    if k == z3.Z3_OP_UMINUS:
      return -cv[0][0], T._smul(T.num(-1), cv[0][1])
    if k == z3.Z3_OP_MUL:
      v, d = cv[0]
      for v2, d2 in cv[1:]:
        v, d = T._smul(v, v2), T._sadd(T._smul(d, v2), T._smul(v, d2))
      return v, d
    if k == z3.Z3_OP_DIV:
      (a, da), (b, db) = cv
      d = zero if T._is_num(da, 0) else da / b
      if not T._is_num(db, 0):
        d = d - (a / b) * (db / b)
      return a / b, d
    if k == z3.Z3_OP_ITE:
      c = cv[0][0]
      return z3.If(c, cv[1][0], cv[2][0]), (zero if T._is_num(cv[1][1], 0) and T._is_num(cv[2][1], 0) else z3.If(c, cv[1][1], cv[2][1]))
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
      raise Unsupported('power')
    if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 1:
      (u, du), = cv
      f = e.decl()(u)
      rule = {T.SQRT.name(): lambda: du / (2 * f), T.LOG.name(): lambda: du / u, T.EXP.name(): lambda: f * du,
              T.SIN.name(): lambda: T.COS(u) * du, T.COS.name(): lambda: -T.SIN(u) * du}.get(name)
      if rule is not None:
        return f, zero if T._is_num(du, 0) else rule()
    raise Unsupported(f'derivative of {name}')

  def lost(self, e):
    """Some tangent that enters is missing."""
    out = False
    for a in T.apps(e):
      n = a.decl().name()
      if n in self.value:
        out = T.Or(out, self.tangent[n](list(a.children()))[1])
      ad = T.atom_def(a)
      if ad is not None and self.touches(a):
        ks = [T.fresh_idx(d, 'j') for d in ad.doms]
        for b in ad.inst(list(a.children()), ks):
          inner = self.lost(b)
          out = T.Or(out, T.any_bool(list(ks), list(ad.doms), inner))
    return out


def _total(ds):
  out = T.num(0)
  for d in ds:
    out = T._sadd(out, d)
  return out


def _nd(x):
  if isinstance(x, sxr.SymND):
    return x.da
  if isinstance(x, sxr.SymDataArray):
    return x
  raise Unsupported(f'differentiation with respect to {type(x)}')


def linearize(f, *args):
  out = f(*args)
  point, names = {}, {}
  def leaf(path, x):
    da = _nd(x)
    tag = f'LIN!{next(_n)}'
    dims = list(da._dims)
    sorts = [T.I] * max(1, len(dims))
    X, N = z3.Function(tag, *sorts, T.R), z3.Function(tag + '!nan', *sorts, T.B)
    point[path], names[path] = da, tag
    def fn(idx):
      at = [T.zi(idx[d]) for d in dims] or [z3.IntVal(0)]
      sv = da._fn(idx)
      if sv.k not in 'fi':
        raise Unsupported('derivative of ' + sv.k)
      return SV('f', X(*at), False if sv.special is False else N(*at))
    return sxr.SymND(sxr.SymDataArray.make(da._dims, da._doms, fn, 'float64'))
  traced = f(*_map(leaf, args))
  def tangent_map(*tangents, batch=None):
    value, missing, tangent = {}, {}, {}
    given = dict(_leaves(tangents))
    if set(given) != set(point):
      raise Unsupported('tangents of another structure')
    extra = None
    for path, da in point.items():
      t = _nd(given[path])
      want = len(da._dims) + (1 if batch else 0)
      if len(t._dims) != want:
        raise ValueError('linearized function called with other shapes')
      if batch:
        extra = t._doms[t._dims[-1]] if extra is None else extra
        if extra.key != t._doms[t._dims[-1]].key:
          raise Unsupported('batches of different sizes')
      for d, e in zip(da._dims, t._dims):
        if da._doms[d].key != t._doms[e].key:
          raise ValueError('linearized function called with other shapes')
    def leaf_at(path, u):
      da, t = point[path], _nd(given[path])
      def base(args):
        return {d: a for d, a in zip(da._dims, args)}
      def tang(args):
        idx = {e: a for e, a in zip(t._dims, args)}
        if u is not None:
          idx[t._dims[-1]] = u
        sv = t._fn(idx).num()
        return sv.real(), sv.special
      return lambda a: da._fn(base(a)).num().real(), lambda a: da._fn(base(a)).special, tang
    def dual(u):
      d = Dual({}, {}, {})
      for path, tag in names.items():
        d.value[tag], d.missing[tag + '!nan'], d.tangent[tag] = leaf_at(path, u)
      return d
    def result(path, x):
      y = _nd(x)
      dims = tuple(f'ax{k}' for k in range(len(y._dims)))
      doms = {a: y._doms[d] for a, d in zip(dims, y._dims)}
      if batch:
        dims, doms = dims + ('axu',), {**doms, 'axu': extra}
      duals = {}
      def fn(idx):
        u = idx['axu'] if batch else None
        key = u if isinstance(u, int) or u is None else u.sexpr()
        d = duals.setdefault(key, dual(u))
        sv = y._fn({n: idx[a] for a, n in zip(dims, y._dims)}).num()
        v = sv.real()
        nan = T.Or(*[d.of(T.zb(c))[0] for c in (sv.nan, sv.pinf, sv.ninf) if c is not False]) if sv.special is not False else False
        return SV('f', d.of(v)[1], T.Or(nan, d.lost(v)))
      return sxr.SymND(sxr.SymDataArray.make(dims, doms, fn, 'float64'))
    return _map(result, traced)
  return out, tangent_map


def vmap(fn, in_axes=0, out_axes=0):
  if in_axes != -1 or out_axes != -1:
    raise Unsupported('vmap axes')
  return lambda *a: fn(*a, batch=True)
