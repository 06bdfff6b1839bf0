"""Concrete evaluation of terms: used to test the engine's model of
xarray/numpy (conformance) and to replay countermodels."""
import itertools
import math
import numpy as np
import z3
from vc import terms as T


class EvalError(Exception):
  pass


class Env:
  """sizes: dom key -> int or list of labels; ufs: decl name -> python callable."""

  def __init__(self, sizes, ufs, consts):
    self.sizes = sizes
    self.ufs = ufs
    self.consts = consts
    self.memo = {}

  def dom_values(self, dom):
    if isinstance(dom.size, int):
      return range(dom.size)
    if dom.key in self.sizes:
      s = self.sizes[dom.key]
      return range(s) if isinstance(s, int) else s
    if dom.size is not None:
      n = ev(dom.size, self, {})
      return range(int(n))
    if dom.key == 'LABEL' or dom.is_label:
      return self.sizes['LABEL']
    raise EvalError(f'no size for {dom.key}')


_compiled = {}


def _student(what, df, x):
  import scipy.stats
  return float(getattr(scipy.stats.t(df=int(df)), what)(float(x)))


def ev(e, env, idx):
  if e is True or e is False:
    return e
  return _comp(e)(env, idx)


def _comp(e):
  key = e.get_id()
  hit = _compiled.get(key)
  if hit is not None and hit[0].eq(e):
    return hit[1]
  f = _build(e)
  _compiled[key] = (e, f)
  return f


def _div(a, b):
  return a / b if b != 0 else 0.0


def _build(e):
  if z3.is_int_value(e):
    v = e.as_long()
    return lambda env, idx: v
  if z3.is_rational_value(e):
    fr = e.as_fraction()
    v = float(fr)
    return lambda env, idx: v
  if z3.is_true(e):
    return lambda env, idx: True
  if z3.is_false(e):
    return lambda env, idx: False
  k = e.decl().kind()
  ch = [_comp(c) for c in e.children()]
  if k == z3.Z3_OP_UNINTERPRETED:
    name = e.decl().name()
    ad = T.atom_def(e)
    if ad is not None:
      return _atom(ad, ch)
    if not ch:
      if T.is_idx(e):
        return lambda env, idx: idx[name] if name in idx else _witness(name, env)
      if name == 'PI':
        return lambda env, idx: math.pi
      def const(env, idx):
        if name in idx:
          return idx[name]
        if name in T.CARDS and name not in env.consts:
          dom = T.CARDS[name]
          env.consts[name] = sum(bool(ev(dom.pred(z3.IntVal(int(k))), env, {})) for k in env.sizes['LABEL'])
        return env.consts[name]
      return const
    fns = {'SQRT': lambda x: math.sqrt(x) if x >= 0 else 0.0,
           'LOG': lambda x: math.log(x) if x > 0 else 0.0,
           'EXP': lambda x: math.exp(x) if x < 700 else float('inf'),
           'TCDF': lambda df, x: _student('cdf', df, x), 'TPPF': lambda df, q: _student('ppf', df, q), 'CBRT': lambda x: float(np.cbrt(x)),
           'SIN': math.sin, 'COS': math.cos, 'FLOOR': lambda x: math.floor(x),
           'DOY': lambda t: int((np.datetime64(int(t), 's').astype('datetime64[D]') - np.datetime64(int(t), 's').astype('datetime64[Y]').astype('datetime64[D]')).astype(int)) + 1,
           'month': lambda t: int(np.datetime64(int(t), 's').astype('datetime64[M]').astype('int64')),
           'HOUR': lambda t: (int(t) % 86400) // 3600,
           'MINUTE': lambda t: (int(t) % 3600) // 60}
    if name in fns:
      g = fns[name]
      if len(ch) > 1:
        return lambda env, idx: g(*[c(env, idx) for c in ch])
      return lambda env, idx: g(ch[0](env, idx))
    if name in T.CELLS:
      return lambda env, idx: _chosen(T.CELLS[name], name, [int(c(env, idx)) for c in ch], env)
    if name.startswith('UNSPEC!'):
      return lambda env, idx: False
    if name.startswith('TIE!'):
      return lambda env, idx: 0.0
    def uf(env, idx):
      if name not in env.ufs:
        raise EvalError(f'no interpretation of {name}')
      return env.ufs[name](*[c(env, idx) for c in ch])
    return uf
  if k == z3.Z3_OP_ADD:
    return lambda env, idx: sum(c(env, idx) for c in ch)
  if k == z3.Z3_OP_MUL:
    def mul(env, idx):
      r = 1
      for c in ch:
        r = r * c(env, idx)
      return r
    return mul
  if k == z3.Z3_OP_SUB:
    def sub(env, idx):
      r = ch[0](env, idx)
      for c in ch[1:]:
        r = r - c(env, idx)
      return r
    return sub
  if k == z3.Z3_OP_UMINUS:
    return lambda env, idx: -ch[0](env, idx)
  if k in (z3.Z3_OP_DIV,):
    return lambda env, idx: _div(ch[0](env, idx), ch[1](env, idx))
  if k in (z3.Z3_OP_IDIV,):
    return lambda env, idx: ch[0](env, idx) // ch[1](env, idx)
  if k == z3.Z3_OP_MOD:
    return lambda env, idx: ch[0](env, idx) % abs(ch[1](env, idx))
  if k == z3.Z3_OP_POWER:
    return lambda env, idx: ch[0](env, idx) ** ch[1](env, idx)
  if k == z3.Z3_OP_TO_REAL:
    return lambda env, idx: ch[0](env, idx)
  if k == z3.Z3_OP_TO_INT:
    return lambda env, idx: math.floor(ch[0](env, idx))
  if k == z3.Z3_OP_IS_INT:
    return lambda env, idx: float(ch[0](env, idx)).is_integer()
  if k == z3.Z3_OP_ITE:
    return lambda env, idx: ch[1](env, idx) if ch[0](env, idx) else ch[2](env, idx)
  if k == z3.Z3_OP_AND:
    return lambda env, idx: all(c(env, idx) for c in ch)
  if k == z3.Z3_OP_OR:
    return lambda env, idx: any(c(env, idx) for c in ch)
  if k == z3.Z3_OP_NOT:
    return lambda env, idx: not ch[0](env, idx)
  if k == z3.Z3_OP_XOR:
    return lambda env, idx: bool(ch[0](env, idx)) != bool(ch[1](env, idx))
  if k == z3.Z3_OP_IMPLIES:
    return lambda env, idx: (not ch[0](env, idx)) or ch[1](env, idx)
  if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
    return lambda env, idx: _eq(ch[0](env, idx), ch[1](env, idx))
  if k == z3.Z3_OP_DISTINCT:
    return lambda env, idx: not _eq(ch[0](env, idx), ch[1](env, idx))
  if k == z3.Z3_OP_LE:
    return lambda env, idx: ch[0](env, idx) <= ch[1](env, idx)
  if k == z3.Z3_OP_LT:
    return lambda env, idx: ch[0](env, idx) < ch[1](env, idx)
  if k == z3.Z3_OP_GE:
    return lambda env, idx: ch[0](env, idx) >= ch[1](env, idx)
  if k == z3.Z3_OP_GT:
    return lambda env, idx: ch[0](env, idx) > ch[1](env, idx)
  raise EvalError(f'operator {e.decl()}')


def _witness(name, env):
  """Value of an index constant introduced with defining facts."""
  dom, facts = T.WITNESS[name]
  for k in env.dom_values(dom):
    if all(ev(p, env, {name: k}) for p in facts):
      return k
  raise EvalError(f'no witness for {name}')


def _chosen(choice, name, args, env):
  key = (choice.names[0], tuple(args))
  if key not in env.memo:
    zargs = [z3.IntVal(x) for x in args]
    vals = [int(x) for x in env.dom_values(choice.dom)]
    for ks in itertools.product(vals, repeat=len(choice.names)):
      terms = [z3.IntVal(k) for k in ks]
      if all(ev(T.zb(f), env, {}) for f in choice.facts(zargs, terms)) and all(ev(T.zb(choice.every(zargs, terms, z3.IntVal(k))), env, {}) for k in vals):
        env.memo[key] = ks
        break
    else:
      raise EvalError(f'no position for {name}')
  return env.memo[key][choice.names.index(name)]


def _eq(a, b):
  return a == b


def _atom(ad, ch):
  bodies = [_comp(b) for b in ad.bodies]
  pn = [p.decl().name() for p in ad.params]
  bn = [b.decl().name() for b in ad.bound]
  def f(env, idx):
    args = tuple(c(env, idx) for c in ch)
    key = (ad.name, args)
    if key in env.memo:
      return env.memo[key]
    base = dict(zip(pn, args))
    rows = []
    for ks in itertools.product(*[env.dom_values(d) for d in ad.doms]):
      sub = dict(base)
      sub.update(zip(bn, ks))
      rows.append([b(env, sub) for b in bodies])
    if ad.op == 'Sum':
      r = sum(float(x[0]) for x in rows) if rows else 0.0
    elif ad.op == 'Any':
      r = any(x[0] for x in rows)
    elif ad.op == 'Max':
      r = max([x[0] for x in rows], default=0.0)
    elif ad.op == 'Min':
      r = min([x[0] for x in rows], default=0.0)
    elif ad.op.startswith('Q:'):
      vals = [x[1] for x in rows if not x[0]]
      r = float(np.quantile(vals, float(rows[0][2] if ad.op == 'Q:?' else ad.op[2:]))) if vals else 0.0
    else:
      raise EvalError(ad.op)
    env.memo[key] = r
    return r
  return f


def ev_sv(sv, env, idx):
  """-> python float / bool / datetime."""
  if sv.k == 'U':
    return sv.v
  if ev(sv.nan, env, idx):
    return float('nan') if sv.k not in 'Mm' else np.datetime64('NaT') if sv.k == 'M' else np.timedelta64('NaT')
  if ev(sv.pinf, env, idx):
    return float('inf')
  if ev(sv.ninf, env, idx):
    return float('-inf')
  v = ev(sv.v, env, idx)
  if sv.k == 'b':
    return bool(v)
  if sv.k in 'Mm':
    from vc import ticks
    return ticks.from_ticks(v, sv.k)
  return float(v)
