"""Discharging verification conditions.

prove(hyps, goal): z3 on the VC with
  * index instantiation of quantified assumptions,
  * Any/Max/Min atoms given their defining axioms (skolem + instances),
  * Sum atoms related by congruence (bodies proved equal at a fresh index),
    sign, and a linear-combination rule (LIN) that merges sums over the same
    domain and symmetrises them,
  * instances of the axioms of SQRT, LOG, EXP, SIN, COS.

Every rule is a sound consequence of the definitions, so `unsat` means proved.
"""
import itertools
import os
import time
import z3
from vc import terms as T

TIMEOUT = int(os.environ.get('VC_Z3_TIMEOUT_MS', '6000'))
STATS = {'queries': 0, 'time': 0.0, 'cvc5': 0}


class QAssume:
  """For all indices in the given domains: fn(*idx) (Bool)."""

  def __init__(self, doms, fn, label='', lemma=False):
    self.doms = doms
    self.fn = fn
    self.label = label
    self.lemma = lemma   # about sums


TRACE = os.environ.get('VC_TRACE')


def _check(formulas, timeout=None, tactic=None):
  r = _check0(formulas, timeout, tactic)
  if TRACE:
    print('   check', r[0], round(STATS['last'], 3), len(formulas))
  return r


def _check0(formulas, timeout=None, tactic=None):
  s = z3.Solver()
  s.set('timeout', timeout or TIMEOUT)
  s.add(*formulas)
  t = time.time()
  r = s.check()
  STATS['queries'] += 1
  STATS['time'] += time.time() - t
  STATS['last'] = time.time() - t
  return r, s


PI_AXIOMS = (T.PI > z3.RealVal('3.14159265'), T.PI < z3.RealVal('3.14159266'))
_skolems = {}


def _skolem(app, ad):
  key = app.sexpr()
  if key not in _skolems:
    _skolems[key] = [T.fresh_idx(d, 'sk') for d in ad.doms]
  return _skolems[key]


def _dom_matches(d1, d2):
  return d1.key == d2.key


_norms = {}


def _norm(x):
  i = x.get_id()
  r = _norms.get(i)
  if r is None:
    r = _norms[i] = (z3.simplify(x), x)   # x is kept alive: ids are reused otherwise
  return r[0]


def saturate(formulas, qassumes, extra_idx=(), rounds=3, limit=4000):
  """Axiom instances for the formulas."""
  axioms = []
  done = set()
  idx = {c.decl().name(): c for c in extra_idx}
  work = list(formulas)
  seen_apps = set()
  allapps = []
  unary = {}
  for rnd in range(rounds):
    new = []
    for f in work:
      for c in T.idx_consts(f):
        if not c.decl().name().startswith(('cp!', 'cb!')):
          idx.setdefault(c.decl().name(), c)
      for a in T.apps(f):
        i = a.get_id()
        if i in seen_apps:
          continue
        seen_apps.add(i)
        allapps.append(a)
    consts = list(idx.values())
    bydom = {}
    for c in consts:
      bydom.setdefault(T.idx_dom(c).key, []).append(c)
    # index terms at which the inputs are read are instantiation candidates
    # too, for every dimension whose size derives from the same size
    byfam = {}
    for a in allapps:
      dk = T.UF_DOMS.get(a.decl().name())
      if dk is not None:
        for x, k in zip(a.children(), dk):
          if k is not None and not (T.is_idx(x) and T.idx_dom(x).key == k) and not T.has_placeholder(x):
            byfam.setdefault(T.family(T._doms[k]), {}).setdefault(_norm(x).sexpr(), _norm(x))
    if byfam:
      for d in list(T._doms.values()):
        extra = byfam.get(T.family(d)) if not d.is_label and not d.concrete else None
        if extra:
          have = {c.sexpr() for c in bydom.get(d.key, [])}
          bydom.setdefault(d.key, []).extend([x for k, x in sorted(extra.items(), key=lambda t: len(t[0])) if k not in have][:14])
    # positions in a slice are positions of the sliced dimension, and back
    for d in list(T._doms.values()):
      if d.parent is not None:
        pd, off = d.parent
        up = [c + off for c in bydom.get(d.key, []) if T.is_idx(c)]
        down = [c - off for c in bydom.get(pd.key, []) if T.is_idx(c)]
        if up:
          bydom.setdefault(pd.key, []).extend(up)
        if down:
          bydom.setdefault(d.key, []).extend(down)
      for pd, off in d.parts:
        if pd.concrete:
          up = [T.zi(off) + k for k in range(pd.size)] if pd.size <= 3 else []
        else:
          up = [c + off for c in bydom.get(pd.key, [])]
        have = {c.sexpr() for c in bydom.get(d.key, [])}
        bydom.setdefault(d.key, []).extend(c for c in up if c.sexpr() not in have)
    # positions chosen in a domain
    for a in allapps:
      ch = T.CELLS.get(a.decl().name())
      if ch is None or T.has_placeholder(a):
        continue
      args = list(a.children())
      terms = ch.terms(args)
      key = ('cell', ch.names[0], tuple(c.sexpr() for c in args))
      if key not in done:
        done.add(key)
        new.extend(T.zb(g) for t in terms for g in [ch.dom.guard(t)])
        new.extend(T.zb(f) for f in ch.facts(args, terms))
      have = {c.sexpr() for c in bydom.get(ch.dom.key, [])}
      bydom.setdefault(ch.dom.key, []).extend(t for t in terms if t.sexpr() not in have)
      ks = list(range(ch.dom.size)) if ch.dom.concrete else list(bydom.get(ch.dom.key, []))
      for k in ks:
        kk = key + (str(k) if isinstance(k, int) else k.sexpr(),)
        if kk in done or len(new) > limit:
          continue
        done.add(kk)
        new.append(T.zb(T.Implies(ch.dom.guard(k), ch.every(args, terms, k))))
    # domain membership is assumed where idx constants are introduced.
    for a in list(allapps):
      ad = T.atom_def(a)
      if ad is not None:
        args = list(a.children())
        if ad.op in ('Any', 'Max', 'Min'):
          key = ('sk', a.get_id())
          if key not in done:
            done.add(key)
            sk = _skolem(a, ad)
            for c in sk:
              idx.setdefault(c.decl().name(), c)
            body = ad.inst(args, sk)[0]
            g = T.zb(T.And(*[d.guard(c) for d, c in zip(ad.doms, sk)]))
            if ad.op == 'Any':
              new.append(z3.Implies(a, z3.And(g, body)))
            else:
              nonempty = T.zb(T.And(*[(d.size > 0) if not isinstance(d.size, int) else d.size > 0 for d in ad.doms]))
              new.append(z3.Implies(nonempty, z3.And(g, a == body)))
          cands = [bydom.get(d.key, []) for d in ad.doms]
          for combo in itertools.product(*cands):
            key = ('in', a.get_id(), tuple(c.sexpr() for c in combo))
            if key in done:
              continue
            done.add(key)
            body = ad.inst(args, list(combo))[0]
            g = T.zb(T.And(*[d.guard(c) for d, c in zip(ad.doms, combo)]))
            if ad.op == 'Any':
              new.append(z3.Implies(z3.And(g, body), a))
            elif ad.op == 'Max':
              new.append(z3.Implies(g, body <= a))
            else:
              new.append(z3.Implies(g, body >= a))
            if len(new) > limit:
              break
        continue
      name = a.decl().name()
      if name == 'FLOOR' and ('fn', a.get_id()) not in done and not T.has_placeholder(a):
        done.add(('fn', a.get_id()))
        x = a.arg(0)
        new.append(z3.And(z3.ToReal(a) <= x, x < z3.ToReal(a) + 1))
        others = unary.setdefault(name, [])
        # floor(u - v) is floor(u) - floor(v) or one less
        if len(others) < 12:
          for (o, ox), (p, px) in itertools.permutations(others + [(a, x)], 2):
            for q, qx in others + [(a, x)]:
              if q is o or q is p or not (q is a or o is a or p is a):
                continue
              dd = z3.simplify(ox - px - qx, som=True)
              if z3.is_int_value(dd) or (z3.is_rational_value(dd) and dd.denominator_as_long() == 1):
                k = z3.IntVal(int(dd.numerator_as_long() if z3.is_rational_value(dd) else dd.as_long()))
                new.append(z3.Or(q == o - p - k, q == o - p - k - 1))
          for o, ox in others:
            dd = z3.simplify(x - ox, som=True)
            if z3.is_rational_value(dd):
              f = dd.numerator_as_long() // dd.denominator_as_long()
              new.append(z3.Or(a == o + f, a == o + f + 1) if dd.denominator_as_long() != 1 else a == o + f)
        others.append((a, x))
      if name == 'PI' and 'PI' not in done:
        done.add('PI')
        new.extend(PI_AXIOMS)
      if name in ('SQRT', 'LOG', 'EXP', 'SIN', 'COS') and ('fn', a.get_id()) not in done:
        done.add(('fn', a.get_id()))
        x = a.arg(0)
        others = unary.setdefault(name, [])
        if name == 'SQRT':
          new.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
        elif name == 'EXP':
          new.append(z3.And(a > 0, a >= 1 + x))
          for o, ox in others:
            new.append(z3.And(z3.Implies(x < ox, a < o), z3.Implies(ox < x, o < a)))
        elif name == 'LOG':
          new.append(z3.Implies(x == 1, a == 0))
          new.append(z3.Implies(x > 0, a <= x - 1))
          new.append(z3.Implies(x > 1, a > 0))
          new.append(z3.Implies(z3.And(x > 0, x < 1), a < 0))
          for o, ox in others:
            new.append(z3.Implies(z3.And(x > 0, ox > 0), z3.And(z3.Implies(x < ox, a < o), z3.Implies(ox < x, o < a))))
        elif name == 'SIN':
          new.append(z3.And(a <= 1, a >= -1))
          h = T.PI / 2
          new.append(z3.Implies(x == 0, a == 0))
          new.append(z3.Implies(x == h, a == 1))
          new.append(z3.Implies(x == -h, a == -1))
          for o, ox in others:
            rng = z3.And(x >= -h, x <= h, ox >= -h, ox <= h)
            new.append(z3.Implies(rng, z3.And(z3.Implies(x < ox, a < o), z3.Implies(ox < x, o < a))))
            new.append(z3.Implies(x == -ox, a == -o))
        elif name == 'COS':
          new.append(z3.And(a <= 1, a >= -1))
        others.append((a, x))
      if name == 'TPPF' and ('fn', a.get_id()) not in done and not T.has_placeholder(a):
        done.add(('fn', a.get_id()))
        df, q = a.children()
        ok = z3.And(q > 0, q < 1, df >= 1)
        new.append(z3.Implies(ok, T.TCDF(df, a) == q))
      if name == 'TCDF' and ('fn', a.get_id()) not in done and not T.has_placeholder(a):
        done.add(('fn', a.get_id()))
        df, x = a.children()
        half = z3.RealVal('1/2')
        new.append(z3.Implies(df >= 1, z3.And(a > 0, a < 1, (a > half) == (x > 0), (a < half) == (x < 0))))
        others = unary.setdefault(name, [])
        for o, of, ox in others:
          same = z3.And(df == of, df >= 1)
          new.append(z3.Implies(same, z3.And((x < ox) == (a < o), (ox < x) == (o < a))))
          new.append(z3.Implies(z3.And(same), z3.And((x < -ox) == (a < 1 - o), (x > -ox) == (a > 1 - o))))
        others.append((a, df, x))
      if name == 'CBRT' and ('fn', a.get_id()) not in done:
        done.add(('fn', a.get_id()))
        x = a.arg(0)
        new.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a * a == x)))
      if name in ('HOUR', 'DOY') and ('fn', a.get_id()) not in done:
        done.add(('fn', a.get_id()))
        new.append(z3.And(a >= 0, a <= 23) if name == 'HOUR' else z3.And(a >= 1, a <= 366))
    for q in qassumes:
      cands = [[c for k, cs in bydom.items() if k == d.key for c in cs] for d in q.doms]
      for combo in itertools.product(*cands):
        key = ('q', id(q), tuple(c.sexpr() for c in combo))
        if key in done:
          continue
        done.add(key)
        g = T.And(*[d.guard(c) for d, c in zip(q.doms, combo)])
        b = q.fn(*combo)
        r = T.Implies(g, b)
        if r is not True:
          new.append(T.zb(r))
        if len(new) > limit:
          break
    saturate.cands = bydom
    if not new:
      break
    axioms.extend(new)
    work = new
  return axioms, allapps


def _sum_apps(fs):
  out = {}
  for f in fs:
    for a in T.apps(f):
      ad = T.atom_def(a)
      if ad is not None and (ad.op == 'Sum' or ad.op.startswith('Q:')):
        out[a.sexpr()] = a
  return list(out.values())


def _perms(doms_a, doms_b):
  """Assignments of B's bound positions to A's (same dom keys)."""
  n = len(doms_a)
  if n != len(doms_b) or sorted(d.key for d in doms_a) != sorted(d.key for d in doms_b):
    return []
  res = []
  for p in itertools.permutations(range(n)):
    if all(doms_b[j].key == doms_a[p[j]].key for j in range(n)):
      res.append(p)
  return res[:6]


def prove(hyps, goal, *a, **k):
  if not TRACE:
    return _prove(hyps, goal, *a, **k)
  d = k.get('depth', a[1] if len(a) > 1 else 0)
  print('  ' * d, 'PROVE', d, str(goal)[:200].replace('\n', ' '))
  t = time.time()
  r = _prove(hyps, goal, *a, **k)
  print('  ' * d, '->', r[0], r[1] if r[0] == 'proved' else '', round(time.time() - t, 2))
  return r


def _has_sum(e):
  return bool(_sum_apps([e]))


def _prove(hyps, goal, qassumes=(), depth=0, deadline=None, cross=None):
  """Returns ('proved', how) | ('refuted', model) | ('failed', model) | ('unknown', None).

  'refuted': the VC has a countermodel and contains no abstraction atom, i.e.
  the countermodel is a real one for the (real-arithmetic) semantics.
  """
  if deadline is None:
    deadline = time.time() + 40
  if goal is True or (z3.is_expr(goal) and z3.is_true(goal)):
    return 'proved', 'trivial'
  goal = T.zb(goal)
  if z3.is_true(z3.simplify(goal)):
    return 'proved', 'simplifier'
  hyps = [T.zb(h) for h in hyps if h is not True]
  hyps = [h for h in hyps if not z3.is_true(h)]
  if depth and not _has_sum(goal):
    hyps = [h for h in hyps if not _has_sum(h)]
    qassumes = [q for q in qassumes if not q.lemma]
  formulas = hyps + [z3.Not(goal)]
  axioms, _ = saturate(formulas, qassumes)
  if depth == 0 and _has_sum(goal) and _divides(goal):
    r, _ = _check(formulas + axioms, timeout=1000)
    if r == z3.unsat:
      return 'proved', 'z3'
    rest = _strip_field(hyps, goal, qassumes, deadline)
    if z3.is_true(rest):
      return 'proved', 'FIELD'
    if not rest.eq(goal):
      st, info = _prove(hyps, rest, qassumes, depth, deadline, cross)
      return (st, 'FIELD+' + info) if st == 'proved' else (st if st != 'refuted' else 'failed', info)
  chosen = _chosen_apps(formulas)
  r, s = _check(formulas + axioms, timeout=1500 if chosen else None)
  if r == z3.unsat:
    return 'proved', 'z3'
  if chosen and r != z3.sat:
    if _cells(formulas, qassumes, deadline):
      return 'proved', 'z3-cells'
    r, s = _check(formulas + axioms)
  sums = _sum_apps(formulas + axioms)
  if not sums:
    if r == z3.sat:
      return 'refuted', s.model()
    r2 = _second(formulas + axioms)
    if r2 == 'unsat':
      return 'proved', 'cvc5'
    if z3.is_and(goal):
      how = []
      for c in goal.children():
        x = _prove(hyps, c, qassumes, depth, deadline)
        if x[0] != 'proved':
          return x
        how.append(x[1])
      return 'proved', '+'.join(sorted(set(how)))
    return 'unknown', None
  model = s.model() if r == z3.sat else None
  if depth >= 4 or time.time() > deadline:
    return 'unknown', None
  facts = _sum_facts(hyps, formulas + axioms, sums, qassumes, depth, deadline, light=True)
  if facts:
    ax2, _ = saturate(formulas + facts, qassumes)
    r, s = _check(formulas + ax2 + facts)
    if r == z3.unsat:
      return 'proved', 'congruence'
    model = s.model() if r == z3.sat else model
  how = _prove_parts(hyps + facts, goal, qassumes, depth, deadline)
  if how:
    return 'proved', how
  if depth >= 3 or time.time() > deadline:
    return 'unknown', None
  facts2 = facts + _sum_facts(hyps, formulas + axioms, sums, qassumes, depth, deadline, light=False)
  if len(facts2) > len(facts):
    ax2, _ = saturate(formulas + facts2, qassumes)
    fs = formulas + facts2 + ax2
    r, s = _check(fs)
    if r == z3.unsat:
      return 'proved', 'sum-facts'
    if r == z3.sat:
      model = s.model()
    elif _second(fs) == 'unsat':
      return 'proved', 'sum-facts(cvc5)'
    if z3.is_and(goal):
      how = _prove_parts(hyps + facts2, goal, qassumes, depth, deadline)
      if how:
        return 'proved', how
  if model is not None and time.time() < deadline:
    return 'failed', model
  return 'unknown', None


def _chosen_apps(fs):
  out = {}
  for f in fs:
    for a in T.apps(f):
      if a.decl().name() in T.CELLS and not T.has_placeholder(a):
        out[a.sexpr()] = a
  return out


_linear_memo = {}


def _is_linear(f):
  key = f.get_id()
  hit = _linear_memo.get(key)
  if hit is not None and hit[0].eq(f):
    return hit[1]
  k = f.decl().kind() if z3.is_app(f) else None
  ok = True
  if k == z3.Z3_OP_MUL:
    ok = sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in f.children()) <= 1
  elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER):
    ok = z3.is_rational_value(f.arg(1)) or z3.is_int_value(f.arg(1))
  ok = ok and all(_is_linear(c) for c in f.children())
  _linear_memo[key] = (f, ok)
  return ok


def _conjuncts(f):
  f = z3.simplify(f)
  if z3.is_and(f):
    return [x for c in f.children() for x in _conjuncts(c)]
  if z3.is_not(f) and z3.is_or(f.arg(0)):
    return [x for c in f.arg(0).children() for x in _conjuncts(z3.Not(c))]
  if z3.is_not(f) and z3.is_implies(f.arg(0)):
    return _conjuncts(f.arg(0).arg(0)) + _conjuncts(z3.Not(f.arg(0).arg(1)))
  return [f]


def _cells(formulas, qassumes, deadline, depth=0):
  """Unsatisfiability by cases on which known position each chosen position is, found with the linear part alone."""
  if time.time() > deadline or depth > 6:
    return False
  fs = [c for f in formulas for c in _conjuncts(f)]
  axioms, _ = saturate(fs, qassumes)
  cands = saturate.cands
  everything = fs + axioms
  lin = [c for f in everything for c in _conjuncts(f) if _is_linear(c)]
  r, s = _check(lin, timeout=3000)
  if r == z3.unsat:
    return True
  eqs = []
  for a in _chosen_apps(fs).values():
    dom = T.CELLS[a.decl().name()].dom
    ks = [z3.IntVal(k) for k in range(dom.size)] if dom.concrete else cands.get(dom.key, [])
    for k in ks:
      if k.sexpr() != a.sexpr() and not any(x.decl().name() in T.CELLS for x in T.apps(k)):
        eqs.append((a, k, a == k))
  cover, t0 = [], time.time()
  while r == z3.sat and len(cover) < 6 and time.time() - t0 < 10:
    m = s.model()
    pick = next((e for e in eqs if z3.is_true(m.eval(e[2], model_completion=True))), None)
    if pick is None:
      break
    cover.append(pick)
    r, s = _check(lin + [z3.Not(e[2]) for e in cover], timeout=3000)
  if r != z3.unsat or not cover:
    r, _ = _check(everything, timeout=6000)
    return r == z3.unsat
  for a, k, e in cover:
    sub = [z3.simplify(z3.substitute(f, (a, k)), som=False) for f in fs] + [e]
    # the facts about the chosen position, with its value
    ch = T.CELLS[a.decl().name()]
    args = list(a.children())
    terms = ch.terms(args)
    keep = [z3.substitute(T.zb(f), (a, k)) for f in list(ch.facts(args, terms)) + [ch.dom.guard(t) for t in terms]]
    keep += [z3.substitute(f, (a, k)) for f in lin if any(x.eq(a) for x in T.apps(f))]
    if any(z3.is_false(x) for x in sub):
      continue
    sub = [x for x in sub + keep if not z3.is_true(x)]
    r, _ = _check(sub, timeout=2000)
    if r == z3.unsat:
      continue
    if not _cells([x for x in sub if not x.eq(e)], qassumes, deadline, depth + 1):
      return False
  return True


def _disjuncts(goal):
  return [x for c in goal.children() for x in _disjuncts(c)] if z3.is_or(goal) else [goal]


def _prove_parts(hyps, goal, qassumes, depth, deadline):
  """Splits conjunctions / disjunctions and applies LIN to the equalities."""
  if time.time() > deadline:
    return None
  if z3.is_and(goal):
    how = []
    for c in goal.children():
      h = _prove_parts(hyps, c, qassumes, depth, deadline)
      if not h:
        return None
      how.append(h)
    return '+'.join(sorted(set('+'.join(how).split('+'))))
  if z3.is_implies(goal):
    return _prove_parts(hyps + [goal.arg(0)], goal.arg(1), qassumes, depth, deadline)
  formulas = hyps + [z3.Not(goal)]
  axioms, _ = saturate(formulas, qassumes)
  r, _ = _check(formulas + axioms)
  if r == z3.unsat:
    return 'z3'
  if z3.is_or(goal):
    ch = _disjuncts(goal)
    for k, c in enumerate(ch):
      if z3.is_eq(c) and c.arg(0).sort() == T.R and _has_sum(c) or z3.is_and(c):
        h = _prove_parts(hyps + [z3.Not(x) for n, x in enumerate(ch) if n != k], c, qassumes, depth, deadline)
        if h:
          return h
    return None
  if z3.is_eq(goal) and goal.arg(0).sort() == T.R:
    if _lin(hyps, goal.arg(0), goal.arg(1), qassumes, depth, deadline):
      return 'LIN'
    if _has_sum(goal) and _field(hyps, goal.arg(0), goal.arg(1), qassumes, depth, deadline):
      return 'FIELD'
  return None


def _field(hyps, lhs, rhs, qassumes, depth, deadline):
  from vc import field
  if time.time() > deadline:
    return False
  base = [h for h in hyps if not _has_sum(h)]
  def valid(g, c):
    h = (hyps if _has_sum(c) else base) + g
    fs = h + [z3.Not(c)]
    ax, _ = saturate(fs, qassumes)
    return _check(fs + ax, timeout=1000)[0] == z3.unsat
  def decide(c, g):
    return True if valid(g, c) else False if valid(g, z3.Not(c)) else None
  def nonzero(e, g):
    return _prove(list(hyps if _has_sum(e) else base) + g, e != 0, qassumes, depth + 1, deadline)[0] == 'proved'
  def nonneg(e, g):
    return _prove(list(hyps if _has_sum(e) else base) + g, e >= 0, qassumes, depth + 1, deadline)[0] == 'proved'
  return field.equal(lhs, rhs, decide, nonzero, nonneg)


def _divides(e):
  return any(x.decl().kind() == z3.Z3_OP_DIV for x in _subterms(e))


def _subterms(e):
  seen, stack = set(), [e]
  while stack:
    x = stack.pop()
    if x.get_id() not in seen:
      seen.add(x.get_id())
      yield x
      stack.extend(x.children())


def _strip_field(hyps, goal, qassumes, deadline):
  """What remains of the goal after the equalities that hold by normal form."""
  if z3.is_and(goal):
    rest = [_strip_field(hyps, c, qassumes, deadline) for c in goal.children()]
    rest = [r for r in rest if not z3.is_true(r)]
    return z3.And(*rest) if len(rest) > 1 else rest[0] if rest else z3.BoolVal(True)
  if z3.is_implies(goal):
    r = _strip_field(hyps + [goal.arg(0)], goal.arg(1), qassumes, deadline)
    return r if z3.is_true(r) else goal
  if z3.is_or(goal):
    ch = _disjuncts(goal)
    for k, c in enumerate(ch):
      if z3.is_eq(c) and c.arg(0).sort() == T.R:
        if z3.is_true(_strip_field(hyps + [z3.Not(x) for n, x in enumerate(ch) if n != k], c, qassumes, deadline)):
          return z3.BoolVal(True)
    return goal
  if z3.is_eq(goal) and goal.arg(0).sort() == T.B and _has_sum(goal) and _divides(goal):
    a, b = goal.children()
    if a.num_args() == 2 and b.num_args() == 2 and a.decl().eq(b.decl()) and a.arg(0).sort() == T.R:
      # the same comparison of equal numbers
      same = [a.arg(k).eq(b.arg(k)) or z3.is_true(_strip_field(hyps, a.arg(k) == b.arg(k), qassumes, deadline)) for k in (0, 1)]
      if all(same):
        return z3.BoolVal(True)
  if z3.is_eq(goal) and goal.arg(0).sort() == T.R and _has_sum(goal) and _divides(goal):
    a, b = goal.children()
    if a.num_args() == 1 and b.num_args() == 1 and a.decl().eq(b.decl()) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and T.atom_def(a) is None:
      # f(x) = f(y)  if  x = y
      if z3.is_true(_strip_field(hyps, a.arg(0) == b.arg(0), qassumes, deadline)):
        return z3.BoolVal(True)
    if _field(hyps, goal.arg(0), goal.arg(1), qassumes, 0, min(deadline, time.time() + 15)):
      return z3.BoolVal(True)
  return goal


_fact_cache = {}


def _pointwise(hyps, q, qassumes, depth, dl):
  key = (tuple(sorted(h.get_id() for h in hyps)), tuple(id(x) for x in qassumes), q[0])
  hit = _fact_cache.get(key)
  if hit is not None:
    return hit[0]
  g, goal = q[1]()
  ok = _prove(list(hyps) + g, goal, qassumes, depth + 1, dl)[0] == 'proved' if time.time() < dl else False
  _fact_cache[key] = (ok, list(hyps))
  return ok


def _sum_facts(hyps, formulas, sums, qassumes, depth, deadline, light):
  """Facts about Sum/quantile atoms; each is a consequence of their definitions."""
  facts = []
  base = [h for h in hyps if not _has_sum(h)]
  # quantified hypotheses mention only the inputs; atoms may be nested
  reps = []
  def inst(a, perm=None, ks=None):
    ad = T.atom_def(a)
    if ks is None:
      ks = [T.fresh_idx(d, 'k') for d in ad.doms]
    kk = ks if perm is None else [ks[j] for j in perm]
    return ad, ks, ad.inst(list(a.children()), kk), [T.zb(d.guard(k)) for d, k in zip(ad.doms, kk)]
  def nested(a):
    return any(_has_sum(x) for x in T.atom_def(a).bodies)
  for a in sums:
    ad = T.atom_def(a)
    merged = False
    for b in reps:
      bd = T.atom_def(b)
      if bd.op != ad.op:
        continue
      for p in _perms(ad.doms, bd.doms):
        ad, ks, ba, g = inst(a)
        bb = bd.inst(list(b.children()), [ks[p[j]] for j in range(len(ks))])
        if all(z3.is_true(z3.simplify(x == y)) for x, y in zip(ba, bb)):
          ok = True
        else:
          h = base if not (nested(a) or nested(b)) else hyps
          ok = all(_pointwise(h, (('eq', a.sexpr(), b.sexpr(), tuple(p), n), lambda x=x, y=y: (g, x == y)), qassumes, depth,
                              min(deadline, time.time() + 8)) for n, (x, y) in enumerate(zip(ba, bb)))
        if ok:
          facts.append(a == b)
          merged = True
          break
      if merged or time.time() > deadline:
        break
    if not merged:
      reps.append(a)
  if light:
    return facts
  facts += _quantile_facts(hyps, reps, qassumes, depth, deadline)
  facts += _split_facts(hyps, reps, qassumes, depth, deadline)
  if 'extend' in T.HINTS:
    facts += _extend_facts(hyps, reps, qassumes, depth, deadline)
  items = [_item_of(a) for a in reps if T.atom_def(a).op == 'Sum']
  seen = set()
  for f in formulas[:40]:
    for t in _linear_subterms(f):
      k = t.sexpr()
      if k not in seen and len(items) < 12:
        seen.add(k)
        it = _composite(t, hyps)
        if it is not None:
          items.append(it)
  for it in items:
    some = None if any(d.is_label for d in it.doms) else T.zb(T.And(*[T.zi(d.size) > 0 for d in it.doms if not isinstance(d.size, int) or d.size <= 0]))
    for tag, c in (('p', lambda x: x > 0), ('n', lambda x: x < 0), ('p0', lambda x: x >= 0), ('n0', lambda x: x <= 0)):
      if tag in ('p0', 'n0') and (some is None or len(items) > 6):
        continue
      key = (tag, it.key)
      if key not in _skolems:
        _skolems[key] = [T.fresh_idx(d, 'sk') for d in it.doms]
      sk = _skolems[key]
      have = c(it.expr) if tag in 'pn' else z3.And(some, c(it.expr))
      facts.append(z3.Implies(have, z3.And(it.guard(sk), c(it.body(sk)))))
  allidx = {c.decl().name(): c for f in formulas + facts for c in T.idx_consts(f)
            if not c.decl().name().startswith(('cp!', 'cb!'))}
  for it in items:
    if time.time() > deadline:
      break
    ks = [T.fresh_idx(d, 'k') for d in it.doms]
    b, g = it.body(ks), [it.guard(ks)]
    h = base if not it.nested else hyps
    dl = min(deadline, time.time() + 6)
    for tag, sgn in (('ge', 1), ('le', -1)):
      if _pointwise(h, ((tag, it.key), lambda: (g, b >= 0 if sgn > 0 else b <= 0)), qassumes, depth, dl):
        facts.append(it.expr >= 0 if sgn > 0 else it.expr <= 0)
        cands = [[c for c in allidx.values() if T.idx_dom(c).key == d.key][:8] for d in it.doms]
        for combo in itertools.islice(itertools.product(*cands), 80):
          x = it.body(list(combo))
          facts.append(z3.Implies(it.guard(list(combo)), it.expr >= x if sgn > 0 else it.expr <= x))
        break
  if len(items) <= 9:
    for a, b in itertools.permutations(items, 2):
      if time.time() > deadline:
        break
      ps = _perms(a.doms, b.doms)
      if not ps:
        continue
      ks = [T.fresh_idx(d, 'k') for d in a.doms]
      g = [a.guard(ks)]
      x, y = a.body(ks), b.body([ks[q] for q in ps[0]])
      h = base if not (a.nested or b.nested) else hyps
      dl = min(deadline, time.time() + 4)
      if _pointwise(h, (('ab', a.key, b.key), lambda: (g, x <= y)), qassumes, depth, dl):
        facts.append(a.expr <= b.expr)
      if a.key < b.key:
        if _pointwise(h, (('a+b>', a.key, b.key), lambda: (g, x + y >= 0)), qassumes, depth, dl):
          facts.append(a.expr + b.expr >= 0)
        elif _pointwise(h, (('a+b<', a.key, b.key), lambda: (g, x + y <= 0)), qassumes, depth, dl):
          facts.append(a.expr + b.expr <= 0)
  # upper bound by the number of elements
  for it in items:
    if any(d.is_label for d in it.doms) or time.time() > deadline:
      continue
    size = T.num(1)
    for d in it.doms:
      size = size * (T.num(d.size) if isinstance(d.size, int) else z3.ToReal(d.size))
    ks = [T.fresh_idx(d, 'k') for d in it.doms]
    b, g = it.body(ks), [it.guard(ks)]
    h = base if not it.nested else hyps
    if _pointwise(h, (('<=1', it.key), lambda: (g, b <= 1)), qassumes, depth, min(deadline, time.time() + 3)):
      facts.append(it.expr <= size)
  return facts


def _quantile_facts(hyps, reps, qassumes, depth, deadline):
  """Quantiles of one slice are ordered as their levels, and lie between two of its present values."""
  out = []
  qs = [a for a in reps if T.atom_def(a).op.startswith('Q:')]
  base = [h for h in hyps if not _has_sum(h)]
  def level(a):
    ad = T.atom_def(a)
    if ad.op != 'Q:?':
      return z3.RealVal(repr(float(ad.op[2:])))
    return ad.inst(list(a.children()), [z3.IntVal(0) for _ in ad.doms])[2]
  for a in qs:
    A = T.atom_def(a)
    ks = [[T.fresh_idx(d, 'sk') for d in A.doms] for _ in range(2)]
    for sk, below in zip(ks, (True, False)):
      nan, v = A.inst(list(a.children()), sk)[:2]
      g = z3.And(*[T.zb(d.guard(k)) for d, k in zip(A.doms, sk)])
      one = _some_present(A, a)
      if one is not None:
        out.append(z3.Implies(one, z3.And(g, z3.Not(nan), v <= a if below else v >= a)))
    for b in qs:
      B = T.atom_def(b)
      if b is a or len(A.doms) != len(B.doms) or time.time() > deadline:
        continue
      for p in _perms(A.doms, B.doms):
        kk = [T.fresh_idx(d, 'k') for d in A.doms]
        ab = A.inst(list(a.children()), kk)[:2]
        bb = B.inst(list(b.children()), [kk[p[j]] for j in range(len(kk))])[:2]
        g = [T.zb(d.guard(k)) for d, k in zip(A.doms, kk)]
        h = base if not any(_has_sum(x) for x in ab + bb) else hyps
        if all(z3.is_true(z3.simplify(x == y)) for x, y in zip(ab, bb)) or all(
            _pointwise(h, (('q', a.sexpr(), b.sexpr(), tuple(p), n), lambda x=x, y=y: (g, x == y)), qassumes, depth, min(deadline, time.time() + 8))
            for n, (x, y) in enumerate(zip(ab, bb))):
          out.append(z3.Implies(level(a) <= level(b), a <= b))
          break
  return out


def _some_present(A, a):
  """The condition that some element of the slice of a quantile is present, as the atom that stands for it."""
  ks = [T.fresh_idx(d, 'k') for d in A.doms]
  return T.zb(T.any_bool(ks, A.doms, z3.Not(A.inst(list(a.children()), ks)[0])))


def _split_facts(hyps, reps, qassumes, depth, deadline):
  """Sum over [0, n) = sum over [0, k) + sum over [k, n) of the shifted body."""
  out = []
  sums = [a for a in reps if T.atom_def(a).op == 'Sum']
  if len(sums) < 3 or len(sums) > 14:
    return out
  def sz(d):
    return T.zi(d.size)
  base = [h for h in hyps if not _has_sum(h)]
  cache = {}
  def split_doms(d, d1, d2):
    if any(x.is_label for x in (d, d1, d2)) or d.key in (d1.key, d2.key):
      return False
    k = (d.key, d1.key, d2.key)
    if k not in cache:
      cache[k] = _check(base + [z3.Not(z3.And(sz(d1) >= 0, sz(d2) >= 0, sz(d) == sz(d1) + sz(d2)))], timeout=1500)[0] == z3.unsat
    return cache[k]
  for a in sums:
    A = T.atom_def(a)
    for b in sums:
      B = T.atom_def(b)
      if b is a or len(B.doms) != len(A.doms):
        continue
      for c in sums:
        C = T.atom_def(c)
        if c is a or len(C.doms) != len(A.doms) or time.time() > deadline:
          continue
        for pos, d in enumerate(A.doms):
          rest = [x.key for j, x in enumerate(A.doms) if j != pos]
          for pb, pc in itertools.product(range(len(B.doms)), range(len(C.doms))):
            rb = [x.key for j, x in enumerate(B.doms) if j != pb]
            rc = [x.key for j, x in enumerate(C.doms) if j != pc]
            if sorted(rb) != sorted(rest) or sorted(rc) != sorted(rest) or len(set(rest)) != len(rest):
              continue
            if not split_doms(d, B.doms[pb], C.doms[pc]):
              continue
            ks = {x.key: T.fresh_idx(x, 'sp') for j, x in enumerate(A.doms) if j != pos}
            dl = min(deadline, time.time() + 8)
            ok = True
            for X, x, px, off in ((B, b, pb, T.zi(0)), (C, c, pc, sz(B.doms[pb]))):
              k = T.fresh_idx(X.doms[px], 'sp')
              xa = X.inst(list(x.children()), [k if j == px else ks[dm.key] for j, dm in enumerate(X.doms)])[0]
              aa = A.inst(list(a.children()), [k + off if j == pos else ks[dm.key] for j, dm in enumerate(A.doms)])[0]
              g = [T.zb(X.doms[px].guard(k))] + [T.zb(dm.guard(ks[dm.key])) for j, dm in enumerate(A.doms) if j != pos]
              h = base if not (_has_sum(xa) or _has_sum(aa)) else hyps
              if _prove(list(h) + g, xa == aa, qassumes, depth + 1, dl)[0] != 'proved':
                ok = False
                break
            if ok:
              out.append(a == b + c)
  return out


def _extend_facts(hyps, reps, qassumes, depth, deadline):
  """Sum over [0, m) of f(k) = sum over [0, n) of f(k - o) where o <= k < o + m, else 0  (o + m <= n).

  Both may run over further, equal, domains.
  """
  out = []
  sums = [a for a in reps if T.atom_def(a).op == 'Sum']
  def sz(d):
    return T.zi(d.size)
  base = [h for h in hyps if not _has_sum(h)]
  for a in sums:
    A = T.atom_def(a)
    for b in sums:
      B = T.atom_def(b)
      if b is a or len(A.doms) != len(B.doms) or time.time() > deadline:
        continue
      ka, kb = [d.key for d in A.doms], [d.key for d in B.doms]
      odd = [q for q, d in enumerate(A.doms) if ka.count(d.key) > kb.count(d.key)]
      if len(odd) != 1 or A.doms[odd[0]].is_label or A.doms[odd[0]].pred is not None:
        continue
      q = odd[0]
      d = A.doms[q]
      done = False
      for perm in itertools.islice(itertools.permutations(range(len(B.doms))), 24):
        # position x of A runs with position perm[x] of B
        if done or any(ka[x] != kb[perm[x]] for x in range(len(ka)) if x != q) or B.doms[perm[q]].is_label:
          continue
        p = B.doms[perm[q]]
        offs = [T.zi(0), T.zi(1)] + ([T.zi(d.parent[1])] if d.parent is not None and not (isinstance(d.parent[1], int) and d.parent[1] == 0) else [])
        for o in offs:
          if _check(base + [z3.Not(z3.And(sz(d) >= 0, o >= 0, o + sz(d) <= sz(p)))], timeout=1500)[0] != z3.unsat:
            continue
          ks = [T.fresh_idx(p if x == q else A.doms[x], 'ex') for x in range(len(ka))]
          k = ks[q]
          pos = [None] * len(ks)
          for x in range(len(ks)):
            pos[perm[x]] = ks[x]
          xa = A.inst(list(a.children()), [k - o if x == q else ks[x] for x in range(len(ks))])[0]
          xb = B.inst(list(b.children()), pos)[0]
          g = [T.zb(B.doms[y].guard(pos[y])) for y in range(len(pos))]
          inside = z3.And(k >= o, k < o + sz(d))
          h = base if not (_has_sum(xa) or _has_sum(xb)) else hyps
          dl = min(deadline, time.time() + 10)
          # inside: the position in the short domain is one of its positions
          if _prove(list(h) + g + [inside], xb == xa, qassumes, depth + 1, dl)[0] == 'proved' \
              and _prove(list(h) + g + [z3.Not(inside)], xb == 0, qassumes, depth + 1, dl)[0] == 'proved':
            out.append(a == b)
            done = True
            break
      if done:
        break
  return out


class _Item:
  """A sum over `doms` with pointwise body; expr is its value."""

  def __init__(self, expr, doms, body, nested):
    self.expr, self.doms, self.body, self.nested = expr, doms, body, nested
    self.key = expr.sexpr()

  def guard(self, ks):
    return T.zb(T.And(*[d.guard(k) for d, k in zip(self.doms, ks)]))


def _item_of(a):
  ad = T.atom_def(a)
  args = list(a.children())
  return _Item(a, ad.doms, lambda ks: ad.inst(args, ks)[0], any(_has_sum(x) for x in ad.bodies))


def _linear_subterms(f):
  out, stack, seen = [], [f], set()
  while stack:
    x = stack.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_add(x) or z3.is_sub(x):
      out.append(x)
    elif (z3.is_le(x) or z3.is_lt(x) or z3.is_ge(x) or z3.is_gt(x) or z3.is_eq(x)) and x.arg(0).sort() == T.R and _has_sum(x):
      out.append(x.arg(0) - x.arg(1))
    stack.extend(x.children())
  return out


def _factors(c):
  if z3.is_mul(c):
    return [f for x in c.children() for f in _factors(x)]
  return [c]


def _composite(t, hyps=()):
  """Linear combination of sums over one domain list, as one sum.

  Coefficients may be any expressions without sums; a summand without a sum is
  spread over the domain, which must then be known to be non-empty."""
  t0 = t
  t = z3.simplify(t, som=True)
  parts, rest = [], []
  for c in (t.children() if z3.is_add(t) else [t]):
    coef, at = T.num(1), None
    for f in _factors(c):
      ad = T.atom_def(f)
      if ad is not None and ad.op == 'Sum':
        if at is not None:
          return None
        at = f
      elif _has_sum(f):
        return None
      else:
        coef = coef * f
    if at is None:
      rest.append(c)
    else:
      parts.append((coef, at, T.atom_def(at)))
  if not parts or len(parts) + len(rest) < 2:
    return None
  d0 = parts[0][2].doms
  perms = []
  for _, a, ad in parts:
    ps = _perms(d0, ad.doms)
    if not ps:
      return None
    perms.append(ps[0])
  if rest:
    size = T.num(1)
    for dm in d0:
      if dm.is_label:
        return None
      sz = T.num(dm.size) if isinstance(dm.size, int) else z3.ToReal(dm.size)
      if _check([h for h in hyps if not _has_sum(h)] + [sz <= 0], timeout=1000)[0] != z3.unsat:
        return None
      size = size * sz
  def body(ks):
    tot = None
    for (coef, a, ad), p in zip(parts, perms):
      x = coef * ad.inst(list(a.children()), [ks[q] for q in p])[0]
      tot = x if tot is None else tot + x
    for c in rest:
      tot = tot + c / size
    return tot
  return _Item(t0, d0, body, any(_has_sum(x) for _, _, ad in parts for x in ad.bodies))


def _lin(hyps, lhs, rhs, qassumes, depth, deadline):
  sums = _sum_apps([lhs, rhs])
  sums = [a for a in sums if T.atom_def(a).op == 'Sum']
  # outermost only
  if not sums or len(sums) > 8:
    return False
  diff = lhs - rhs
  vars_ = [z3.Real(f'lin!{i}') for i in range(len(sums))]
  d = z3.substitute(diff, *zip(sums, vars_))
  if _sum_apps([d]) and any(T.atom_def(a).op == 'Sum' for a in _sum_apps([d])):
    return False
  zero = [(v, T.num(0)) for v in vars_]
  c0 = z3.simplify(z3.substitute(d, *zero))
  cs = []
  for v in vars_:
    sub = [(w, T.num(1) if w is v else T.num(0)) for w in vars_]
    cs.append(z3.simplify(z3.substitute(d, *sub) - c0))
  lin = c0
  for c, v in zip(cs, vars_):
    lin = lin + c * v
  axioms, _ = saturate(hyps + [d == lin], qassumes, rounds=1)
  r, _ = _check(hyps + axioms + [z3.Not(d == lin)], timeout=4000)
  if r != z3.unsat:
    return False
  # target domain multiset
  target = []
  for a in sums:
    cnt = {}
    for dm in T.atom_def(a).doms:
      cnt[dm.key] = cnt.get(dm.key, 0) + 1
    have = {}
    for dm in target:
      have[dm.key] = have.get(dm.key, 0) + 1
    for dm in T.atom_def(a).doms:
      if have.get(dm.key, 0) < cnt[dm.key]:
        target.append(dm)
        have[dm.key] = have.get(dm.key, 0) + 1
  if any(dm.is_label for dm in target) or len(target) > 4:
    return False
  ks = [T.fresh_idx(dm, 'l') for dm in target]
  def sz(dm):
    return T.num(dm.size) if isinstance(dm.size, int) else z3.ToReal(dm.size)
  total = c0
  for dm in target:
    total = total / sz(dm)
  for a, c in zip(sums, cs):
    ad = T.atom_def(a)
    n = len(ad.doms)
    assigns = [p for p in itertools.permutations(range(len(target)), n)
               if all(target[p[j]].key == ad.doms[j].key for j in range(n))]
    acc = None
    for p in assigns:
      b = ad.inst(list(a.children()), [ks[p[j]] for j in range(n)])[0]
      missing = [target[j] for j in range(len(target)) if j not in p]
      t = c * b
      for dm in missing:
        t = t / sz(dm)
      acc = t if acc is None else acc + t
    total = total + acc / T.num(len(assigns))
  g = [T.zb(dm.guard(k)) for dm, k in zip(target, ks)]
  res = _prove(hyps + g, total == 0, qassumes, depth + 1, min(deadline, time.time() + 15))
  return res[0] == 'proved'


def _second(formulas):
  """Second opinion: cvc5 via SMT-LIB (in process)."""
  try:
    import cvc5
  except Exception:  # pylint: disable=broad-except
    return 'unknown'
  s = z3.Solver()
  s.add(*formulas)
  txt = '(set-logic ALL)\n' + s.to_smt2()
  STATS['cvc5'] += 1
  return cvc5_check(txt, 4000)


def cvc5_check(smt2, timeout_ms):
  try:
    import cvc5
    slv = cvc5.Solver()
    slv.setOption('tlimit-per', str(timeout_ms))
    slv.setOption('nl-ext-tplanes', 'true')
    parser = cvc5.InputParser(slv)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, 'vc')
    sm = parser.getSymbolManager()
    res = 'unknown'
    while True:
      cmd = parser.nextCommand()
      if cmd.isNull():
        break
      out = cmd.invoke(slv, sm)
      out = str(out).strip()
      if out in ('sat', 'unsat', 'unknown'):
        res = out
    return res
  except Exception:  # pylint: disable=broad-except
    return 'unknown'
