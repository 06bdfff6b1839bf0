"""Equality of rational expressions with sums, by normal form.

Both sides are brought to a quotient of polynomials over the atoms (inputs, sizes, sums), with
  Sum (a + b) = Sum a + Sum b,   Sum (c * a) = c * Sum a  (c free of the index),   Sum 1 = size.
The equality holds if the cross-multiplied difference is the zero polynomial and every denominator met is non-zero,
which is proved separately."""
from fractions import Fraction
import re
import z3
from vc import terms as T

ONE = ()


class Give(Exception):
  pass


class Field:

  def __init__(self, decide, limit=4000):
    self.decide = decide      # condition, guards -> True / False / None
    self.limit = limit
    self.atoms = {}           # key -> (bound names it depends on)
    self.dens = {}            # denominators met: sexpr -> (expr, guards)
    self.bound = []           # (const, dom)
    self.roots = {}           # key of a square root -> its argument
    self.memo = {}

  # polynomials: {((key, exp), ...): Fraction}
  def const(self, c):
    return {ONE: Fraction(c)} if c else {}

  def var(self, key, deps):
    self.atoms[key] = deps
    return {((key, 1),): Fraction(1)}

  def add(self, p, q):
    r = dict(p)
    for m, c in q.items():
      v = r.get(m, 0) + c
      if v:
        r[m] = v
      else:
        r.pop(m, None)
    return r

  def scale(self, p, c):
    return {m: v * c for m, v in p.items()} if c else {}

  def mul(self, p, q):
    if len(p) * len(q) > self.limit:
      raise Give()
    r = {}
    for m, c in p.items():
      for n, d in q.items():
        e = dict(m)
        for k, x in n:
          e[k] = e.get(k, 0) + x
        k = tuple(sorted(e.items()))
        v = r.get(k, 0) + c * d
        if v:
          r[k] = v
        else:
          r.pop(k, None)
    return r

  # quotients: (poly, {factor key: (poly, power)})
  def key(self, p):
    return '+'.join(f'{c}*{m}' for m, c in sorted(p.items()))

  def factors(self, p):
    """content (Fraction), {key: (poly, power)}"""
    if not p:
      raise Give()
    ms = list(p)
    com = dict(ms[0])
    for m in ms[1:]:
      d = dict(m)
      com = {k: min(x, d[k]) for k, x in com.items() if k in d}
    out = {}
    for k, x in com.items():
      v = {((k, 1),): Fraction(1)}
      out[self.key(v)] = (v, x)
    rest = {}
    for m, c in p.items():
      d = dict(m)
      for k, x in com.items():
        d[k] -= x
      rest[tuple(sorted((k, x) for k, x in d.items() if x))] = c
    lead = rest[min(rest)]
    rest = self.scale(rest, 1 / lead)
    if rest != {ONE: Fraction(1)}:
      out[self.key(rest)] = (rest, 1)
    return lead, out

  def expand(self, fs):
    r = self.const(1)
    for v, x in fs.values():
      for _ in range(x):
        r = self.mul(r, v)
    return r

  def lcm(self, d, e):
    r = dict(d)
    for k, (v, x) in e.items():
      if k not in r or r[k][1] < x:
        r[k] = (v, x)
    return r

  def over(self, d, e):
    """e / d"""
    return {k: (v, x - (d[k][1] if k in d else 0)) for k, (v, x) in e.items() if x > (d[k][1] if k in d else 0)}

  def qadd(self, a, b):
    d = self.lcm(a[1], b[1])
    return self.cancel(self.add(self.mul(a[0], self.expand(self.over(a[1], d))), self.mul(b[0], self.expand(self.over(b[1], d)))), d)

  def qmul(self, a, b):
    d = dict(a[1])
    for k, (v, x) in b[1].items():
      d[k] = (v, x + (d[k][1] if k in d else 0))
    return self.cancel(self.mul(a[0], b[0]), d)

  def cancel(self, p, d):
    """Common atoms of numerator and denominator."""
    if not p:
      return {}, {}
    d = dict(d)
    for k, (v, x) in list(d.items()):
      (m, _), = list(v.items())[:1] if len(v) == 1 else [(None, None)]
      if m is None or len(m) != 1:
        continue
      name = m[0][0]
      low = min(dict(q).get(name, 0) for q in p)
      t = min(low, x)
      if t:
        p = {tuple((n, e - (t if n == name else 0)) for n, e in q if n != name or e > t): c for q, c in p.items()}
        if x > t:
          d[k] = (v, x - t)
        else:
          del d[k]
    return p, d

  def qdiv(self, a, b):
    lead, fs = self.factors(b[0])
    inv = (self.scale(self.expand(b[1]), 1 / lead), fs)
    return self.qmul(a, inv)

  def deps(self, e):
    names = {c.decl().name() for c, _ in self.bound}
    return frozenset(n for n in (x.decl().name() for x in T.idx_consts(e)) if n in names)

  def guards(self, e):
    have = {c.decl().name() for c in T.idx_consts(e)}
    return [T.zb(d.guard(c)) for c, d in self.bound if c.decl().name() in have]

  def atom(self, e):
    e = z3.simplify(e)
    return self.var(e.sexpr(), self.deps(e)), {}

  def norm(self, e):
    k = e.get_id()
    hit = self.memo.get(k)
    if hit is not None and hit[0].eq(e):
      return hit[1]
    r = self._norm(e)
    self.memo[k] = (e, r)
    return r

  def _norm(self, e):  # pylint: disable=too-many-return-statements
    if z3.is_rational_value(e):
      return self.const(Fraction(e.numerator_as_long(), e.denominator_as_long())), {}
    if z3.is_int_value(e):
      return self.const(e.as_long()), {}
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_TO_REAL:
      return self.norm(ch[0]) if ch[0].decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or z3.is_int_value(ch[0]) else self.atom(ch[0])
    if k == z3.Z3_OP_ADD:
      r = self.norm(ch[0])
      for c in ch[1:]:
        r = self.qadd(r, self.norm(c))
      return r
    if k == z3.Z3_OP_SUB:
      r = self.norm(ch[0])
      for c in ch[1:]:
        p, d = self.norm(c)
        r = self.qadd(r, (self.scale(p, -1), d))
      return r
    if k == z3.Z3_OP_UMINUS:
      p, d = self.norm(ch[0])
      return self.scale(p, -1), d
    if k == z3.Z3_OP_MUL:
      r = self.norm(ch[0])
      for c in ch[1:]:
        r = self.qmul(r, self.norm(c))
      return r
    if k == z3.Z3_OP_DIV:
      b = self.norm(ch[1])
      if not b[0]:
        raise Give()
      if not (len(b[0]) == 1 and ONE in b[0]):
        self.dens.setdefault(ch[1].sexpr(), (ch[1], self.guards(ch[1])))
      return self.qdiv(self.norm(ch[0]), b)
    if k == z3.Z3_OP_ITE:
      c = self.decide(ch[0], self.guards(ch[0]))
      if c is not None:
        return self.norm(ch[1] if c else ch[2])
      return self.atom(e)
    ad = T.atom_def(e)
    if ad is not None and ad.op == 'Sum':
      return self.sum(e, ad)
    if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 1 and ch[0].sort() == T.R and e.sort() == T.R and ad is None:
      p, d = self.norm(ch[0])
      dep = self.deps(e)
      key = f'{e.decl().name()}({self.key(p)} / {sorted((n, x) for n, (_, x) in d.items())})'
      if e.decl().name() == T.SQRT.name():
        self.roots[key] = (p, d, ch[0], self.guards(ch[0]))
      return self.var(key, dep), {}
    return self.atom(e)

  def height(self, e):
    r = -1
    for a in T.apps(e):
      ad = T.atom_def(a)
      if ad is not None:
        r = max([r] + [self.height(x) for x in ad.bodies] if ad.op == 'Sum' else [r])
        r = max(r, 0)
    return r + 1 if r >= 0 else 0

  def sum(self, e, ad):
    # the index constant of a sum is named by how deep sums are nested in its body
    h = 1 + max([0] + [self.height(x) for x in ad.bodies])
    ks = [T.bound_idx(d, f'bd!{h}!{j}!') for j, d in enumerate(ad.doms)]
    body = ad.inst(list(e.children()), ks)[0]
    outer = list(self.bound)
    self.bound = outer + list(zip(ks, ad.doms))
    try:
      num, den = self.norm(body)
    finally:
      self.bound = outer
    mine = {c.decl().name() for c in ks}
    dep = lambda key: bool(self.atoms[key] & mine)
    deps_of = lambda v: frozenset().union(*[self.atoms[a] for m in v for a, _ in m])
    din, dout = {}, {}
    for k, (v, x) in den.items():
      (din if deps_of(v) & mine else dout)[k] = (v, x)
    single = {}               # atom -> factor key, for factors that are an atom
    for k, (v, x) in din.items():
      if len(v) == 1 and len(list(v)[0]) == 1:
        single[list(v)[0][0][0]] = k
    order = sorted(range(len(ks)), key=lambda j: (ad.doms[j].key, j))
    doms = ','.join(ad.doms[j].key for j in order)
    out = {}
    for m, c in num.items():
      free = tuple((a, x) for a, x in m if not dep(a))
      held = {a: x for a, x in m if dep(a)}
      rest = dict(din)
      for a, x in list(held.items()):
        if a in single:
          v, y = rest[single[a]]
          z = min(x, y)
          held[a], rest[single[a]] = x - z, (v, y - z)
      held = tuple((a, x) for a, x in sorted(held.items()) if x)
      rest = {k: q for k, q in rest.items() if q[1]}
      tail = ' / '.join(f'({k})^{x}' for k, (_, x) in sorted(rest.items()))
      taildeps = frozenset().union(*[deps_of(v) for v, _ in rest.values()]) if rest else frozenset()
      t = {free: c}
      if not held and not rest and not any(d.is_label for d in ad.doms):
        for d in ad.doms:
          t = self.mul(t, self.const(d.size) if isinstance(d.size, int) else self.atom(d.size)[0])
      else:
        deps = (frozenset().union(*[self.atoms[a] for a, _ in held]) if held else frozenset()) | taildeps
        text = f'{held} / {tail}'
        lv = 1 + max([-1] + [int(x) for x in re.findall(r'#(\d+)\.', text)])
        for n, j in enumerate(order):
          text = text.replace(ks[j].decl().name(), f'#{lv}.{n}')
        t = self.mul(t, self.var(f'SUM[{doms}]({text})', deps - mine))
      out = self.add(out, t)
    return self.cancel(out, dout)


def square(f, num, key):
  """The polynomial with the squares of a root replaced (times a power of the denominator of its argument)."""
  p, d, _, _ = f.roots[key]
  top = max(dict(m).get(key, 0) for m in num) // 2
  den = f.expand(d)
  out = {}
  for m, c in num.items():
    e = dict(m)
    k = e.pop(key, 0)
    if k % 2:
      e[key] = 1
    t = {tuple(sorted(e.items())): c}
    for _ in range(k // 2):
      t = f.mul(t, p)
    for _ in range(top - k // 2):
      t = f.mul(t, den)
    out = f.add(out, t)
  return out


def equal(lhs, rhs, decide, nonzero, nonneg):
  """True if lhs == rhs by normal form."""
  f = Field(decide)
  used = []
  try:
    a, b = f.norm(lhs), f.norm(rhs)
    num, _ = f.qadd(a, (f.scale(b[0], -1), b[1]))
    for _ in range(6):
      todo = [k for k in f.roots if num and any(dict(m).get(k, 0) > 1 for m in num)]
      if not todo:
        break
      num = square(f, num, todo[0])
      used.append(todo[0])
  except Give:
    return False
  if num:
    return False
  return all(nonneg(*f.roots[k][2:]) for k in used) and all(nonzero(e, g) for e, g in f.dens.values())
