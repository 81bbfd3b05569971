"""Finite sums and cardinalities over unbounded index domains.

A sum  Σ_{i in dom} body(i)  is expanded (linearity) into monomials
    coef * Π guards(i) * Π atoms(i)
and every monomial becomes the application of one uninterpreted function named
after the *pattern* (the monomial with its maximal index-free subterms replaced
by parameters); equal patterns with equal parameters are equal by congruence.
The only inference rules are linearity, ite-splitting, dropping monomials whose
guards are unsatisfiable, Σ of a pointwise non-negative body >= 0, pointwise
equality / inequality of two bodies over the same domain, and factorisation of
sums over products.
"""
from __future__ import annotations
import z3
from . import core
from .core import R, I, B, SV, Unsupported, occurs, simp


class Root:
  """Index set 0..n-1 (n symbolic Int term)."""
  _n = 0

  def __init__(self, n, name):
    self.n = n
    self.name = name
    self._vars = {}

  def var(self, depth):
    if depth not in self._vars:
      self._vars[depth] = z3.Int(f'{self.name}@{depth}')
    return self._vars[depth]

  def mem(self, i):
    return z3.And(i >= 0, i < self.n)


def canon_lit(t):
  """comparisons as (negated) a <= b; equalities with ordered sides."""
  neg = False
  while z3.is_not(t):
    t = t.arg(0)
    neg = not neg
  if z3.is_app(t):
    k = t.decl().kind()
    if k == z3.Z3_OP_GE:
      t = t.arg(1) <= t.arg(0)
    elif k == z3.Z3_OP_LT:
      t, neg = t.arg(1) <= t.arg(0), not neg
    elif k == z3.Z3_OP_GT:
      t, neg = t.arg(0) <= t.arg(1), not neg
    elif k == z3.Z3_OP_EQ and t.arg(0).sort() != B and t.arg(0).sexpr() > t.arg(1).sexpr():
      t = t.arg(1) == t.arg(0)
    if t.decl().kind() == z3.Z3_OP_LE and t.arg(0).sort() == I:
      r = _int_le(t)
      if r is not None:
        t, flip = r
        neg = neg != flip
  return z3.Not(t) if neg else t


_le_cache = {}


def _int_le(t):
  """integer a <= b with more than one symbol per side: all symbols on the left, first one positive."""
  hit = _le_cache.get(t.get_id())
  if hit is not None:
    return hit[1]
  co = {}
  names = {}

  def go(x, k):
    if z3.is_int_value(x):
      co[''] = co.get('', 0) + k * x.as_long()
    elif z3.is_add(x):
      for y in x.children():
        go(y, k)
    elif z3.is_sub(x):
      go(x.arg(0), k)
      for y in x.children()[1:]:
        go(y, -k)
    elif x.decl().kind() == z3.Z3_OP_UMINUS:
      go(x.arg(0), -k)
    elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
      go(x.arg(1), k * x.arg(0).as_long())
    else:
      s = x.sexpr()
      names[s] = x
      co[s] = co.get(s, 0) + k
  go(t.arg(0), 1)
  go(t.arg(1), -1)
  c0 = co.pop('', 0)
  co = {k: v for k, v in co.items() if v}
  res = None
  if len(co) > 1:
    ks = sorted(co)
    flip = co[ks[0]] < 0
    # sum + c0 <= 0 ; flipped: -sum >= c0, i.e. not (-sum <= c0 - 1)
    sgn = -1 if flip else 1
    lhs = None
    for k in ks:
      v = sgn * co[k]
      x = names[k] if v == 1 else v * names[k]
      lhs = x if lhs is None else lhs + x
    res = (lhs <= (c0 - 1 if flip else -c0), flip)
  _le_cache[t.get_id()] = (t, res)
  return res


def conjuncts(t):
  t = simp(t)
  if z3.is_and(t):
    out = []
    for c in t.children():
      out.extend(conjuncts(c))
    return out
  if core.is_true(t):
    return []
  return [canon_lit(t)]


def _depends(t, vs, memo):
  i = t.get_id()
  r = memo.get(i)
  if r is None:
    r = any(occurs(t, v) for v in vs)
    memo[i] = r
    memo.setdefault('keep', []).append(t)
  return r


class Expander:

  def __init__(self, vs):
    self.vs = vs
    self.memo = {}

  def dep(self, t):
    return _depends(t, self.vs, self.memo)

  def run(self, t):
    """list of (coef z3 Real, tuple guards, tuple atoms)."""
    if not self.dep(t):
      return [(core.to_real(t), (), ())]
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
      out = []
      for c in ch:
        out.extend(self.run(c))
      return out
    if k == z3.Z3_OP_SUB:
      out = list(self.run(ch[0]))
      for c in ch[1:]:
        out.extend((-m[0], m[1], m[2]) for m in self.run(c))
      return out
    if k == z3.Z3_OP_UMINUS:
      return [(-m[0], m[1], m[2]) for m in self.run(ch[0])]
    if k == z3.Z3_OP_MUL:
      out = [(z3.RealVal(1), (), ())]
      for c in ch:
        rr = self.run(c)
        out = [(a[0] * b[0], a[1] + b[1], a[2] + b[2]) for a in out for b in rr]
        if len(out) > 400:
          raise Unsupported('sum body too large')
      return out
    if k == z3.Z3_OP_DIV:
      num = self.run(ch[0])
      if not self.dep(ch[1]):
        d = core.to_real(ch[1])
        return [(a[0] / d, a[1], a[2]) for a in num]
      inv = z3.RealVal(1) / core.to_real(ch[1])
      return [(a[0], a[1], a[2] + (inv,)) for a in num]
    if k == z3.Z3_OP_POWER and z3.is_int_value(simp(ch[1])):
      n = simp(ch[1]).as_long()
      out = [(z3.RealVal(1), (), ())]
      rr = self.run(ch[0])
      for _ in range(n):
        out = [(a[0] * b[0], a[1] + b[1], a[2] + b[2]) for a in out for b in rr]
      return out
    if k == z3.Z3_OP_ITE:
      out = []
      if self.dep(ch[0]):
        pos, neg = tuple(conjuncts(ch[0])), tuple(conjuncts(z3.Not(ch[0])))
        for c, a, b in self.run(ch[1]):
          out.append((c, pos + a, b))
        for c, a, b in self.run(ch[2]):
          out.append((c, neg + a, b))
      else:
        for c, a, b in self.run(ch[1]):
          out.append((z3.If(ch[0], c, z3.RealVal(0)), a, b))
        for c, a, b in self.run(ch[2]):
          out.append((z3.If(ch[0], z3.RealVal(0), c), a, b))
      return out
    if k == z3.Z3_OP_TO_REAL:
      c = ch[0]
      ck = c.decl().kind()
      if ck in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_ITE):
        return self.run(c)
      return [(z3.RealVal(1), (), (t,))]
    return [(z3.RealVal(1), (), (core.to_real(t),))]


def _is_numeral(t):
  return z3.is_int_value(t) or z3.is_rational_value(t) or core.is_true(t) or core.is_false(t)


def _free_consts(t):
  out, seen, todo = [], set(), [t]
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_quantifier(x):
      todo.append(x.body())
    elif z3.is_app(x):
      if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.append(x)
      todo.extend(x.children())
  return sorted(out, key=lambda x: x.decl().name())


class Pattern:
  """Registered sum pattern: F(params) = Σ_{vs in roots, guards} Π atoms."""

  def __init__(self, decl, roots, vs, params, guards, atoms):
    self.decl, self.roots, self.vs = decl, roots, vs
    self.params, self.guards, self.atoms = params, guards, atoms
    # atoms/guards are over vs and the placeholder consts `params`

  def instance(self, args):
    sub = list(zip(self.params, args))
    g = [z3.substitute(x, *sub) if sub else x for x in self.guards]
    a = [z3.substitute(x, *sub) if sub else x for x in self.atoms]
    return g, a


class Sums:
  """Per-context registry."""

  def __init__(self, c):
    self.c = c
    self.patterns = {}      # decl name -> Pattern
    self.by_key = {}
    self.known_card = {}    # key -> Int term
    self.splits = {}        # root name -> list of fn(var)->literal
    self.n = 0
    self.unsat_memo = {}

  # -- pattern building ---------------------------------------------------
  def _abstract(self, t, vs, memo, params):
    """replace maximal vs-free subterms by placeholders (in params order)."""
    if not _depends(t, vs, memo):
      if _is_numeral(t):
        return t
      for p, a in params:
        if a.eq(t):
          return p
      p = z3.Const(f'prm{len(params)}_{t.sort()}', t.sort())
      params.append((p, t))
      return p
    if z3.is_quantifier(t):
      sub = []
      for a in _free_consts(t):
        if any(a.eq(v) for v in vs):
          continue
        for p, b in params:
          if b.eq(a):
            break
        else:
          p = z3.Const(f'prm{len(params)}_{a.sort()}', a.sort())
          params.append((p, a))
        sub.append((a, p))
      return z3.substitute(t, *sub) if sub else t
    if not z3.is_app(t):
      raise Unsupported('open term inside a sum')
    ch = t.children()
    if not ch:
      return t
    if z3.is_eq(t):      # orientation of equations does not matter
      ch = sorted(ch, key=lambda x: (_depends(x, vs, memo), self._mask_key(x, vs, memo)))
      a, b = [self._abstract(c, vs, memo, params) for c in ch]
      return a == b
    new = [self._abstract(c, vs, memo, params) for c in ch]
    return t.decl()(*new)

  def _mask_key(self, t, vs, memo):
    ps = []
    m = self._abstract(t, vs, memo, ps)
    sub = [(p, z3.Const(f'_{p.sort()}', p.sort())) for p, _ in ps]
    return (z3.substitute(m, *sub) if sub else m).sexpr()

  def _canon_lit(self, g):
    return simp(g)

  def clean_guards(self, gs, roots, vs, extra_hyp=()):
    """normalise a guard conjunction; None if unsatisfiable."""
    out = []
    for g in gs:
      for c in conjuncts(g):
        if core.is_false(c):
          return None
        if not any(c.eq(o) for o in out):
          out.append(c)
    for c in out:
      n = canon_lit(z3.Not(c))
      if any(n.eq(o) for o in out):
        return None
    if len(out) >= 1 and self._check_unsat(out, roots, vs):
      return None
    # drop implied literals (deterministic order)
    if len(out) > 1:
      out.sort(key=lambda g: (len(g.sexpr()), g.sexpr()))
      keep = list(out)
      for g in list(reversed(out)):
        rest = [x for x in keep if not x.eq(g)]
        if self._check_unsat(rest + [z3.Not(g)], roots, vs):
          keep = rest
      out = keep
    elif len(out) == 1:
      if self._check_unsat([z3.Not(out[0])], roots, vs):
        out = []
    return out

  def _check_unsat(self, lits, roots, vs):
    key = (tuple(sorted(l.sexpr() for l in lits)), self.c.hyp_version)
    r = self.unsat_memo.get(key)
    if r is not None:
      return r
    hyp = [root.mem(v) for root, v in zip(roots, vs)]
    r = self.c.prover.quick_unsat(self.c, hyp + list(lits), light=True)
    self.unsat_memo[key] = r
    return r

  def mono(self, roots, vs, guards, atoms):
    """Real term for Σ_{guards} Π atoms (cleaned guards)."""
    memo = {}
    # factor independent groups of roots
    if len(roots) > 1:
      groups = _components(vs, list(guards) + list(atoms))
      if len(groups) > 1:
        res = None
        for grp in groups:
          rs = [r for r, v in zip(roots, vs) if any(v.eq(x) for x in grp)]
          vv = [v for v in vs if any(v.eq(x) for x in grp)]
          gg = [g for g in guards if any(occurs(g, v) for v in vv)]
          aa = [a for a in atoms if any(occurs(a, v) for v in vv)]
          t = self.mono(rs, vv, gg, aa)
          res = t if res is None else res * t
        return res
    if not atoms:
      return core.to_real(self._card(roots, vs, guards, memo))
    order_a = sorted(atoms, key=lambda a: self._mask_key(a, vs, memo))
    order_g = sorted(guards, key=lambda a: self._mask_key(a, vs, memo))
    params = []
    pa = [self._abstract(a, vs, memo, params) for a in order_a]
    pg = [self._abstract(g, vs, memo, params) for g in order_g]
    return self._app('SUM', R, roots, vs, params, pg, pa)

  def _card(self, roots, vs, guards, memo):
    if not guards and len(roots) == 1:
      return roots[0].n
    order_g = sorted(guards, key=lambda a: self._mask_key(a, vs, memo))
    params = []
    pg = [self._abstract(g, vs, memo, params) for g in order_g]
    t = self._app('CARD', I, roots, vs, params, pg, [])
    for key, val in self.known_card.items():
      if key.eq(t):
        return val
    self.c.fact(z3.And(t >= 0, t <= roots[0].n) if len(roots) == 1 else t >= 0, key=('card', t.get_id()), keep=t)
    return t

  def set_card(self, term, value):
    self.known_card[term] = value

  def _app(self, pre, sort, roots, vs, params, pg, pa):
    canon = [(v, z3.Int(f'idx_{r.name}_{k}')) for k, (r, v) in enumerate(zip(roots, vs))]
    cg = [z3.substitute(g, *canon) for g in pg]
    ca = [z3.substitute(a, *canon) for a in pa]
    key = (pre, tuple(r.name for r in roots), tuple(g.sexpr() for g in cg), tuple(a.sexpr() for a in ca))
    pat = self.by_key.get(key)
    if pat is None:
      self.n += 1
      decl = z3.Function(f'{pre}{self.n}', *[p.sort() for p, _ in params], sort) if params else None
      const = None if params else z3.Const(f'{pre}{self.n}', sort)
      pat = Pattern(decl if params else const, list(roots), [v for _, v in canon], [p for p, _ in params], cg, ca)
      pat.name = f'{pre}{self.n}'
      pat.kind = pre
      self.by_key[key] = pat
      self.patterns[pat.name] = pat
    return pat.decl(*[a for _, a in params]) if params else pat.decl

  def monomials(self, roots, vs, pred, body):
    ex = Expander(vs)
    monos = ex.run(core.to_real(core.num_t(SV(body)) if body.sort() == B else body))
    acc = {}
    order = []
    base = conjuncts(pred)
    spl = []
    for r, v in zip(roots, vs):
      for f in self.splits.get(r.name, []):
        spl.append(simp(f(v)))
    work = []
    for coef, gs, ats in monos:
      c = simp(coef)
      if z3.is_rational_value(c) and c.numerator_as_long() == 0:
        continue
      cases = [tuple(gs)]
      for s in spl:
        cases = [x + (l,) for x in cases for l in (s, simp(z3.Not(s)))]
      for g in cases:
        work.append((coef, g, ats))
    gcache = {}
    for coef, gs, ats in work:
      allg = base + list(gs)
      gk = tuple(sorted({g.sexpr() for g in allg}))
      if gk not in gcache:
        gcache[gk] = self.clean_guards(allg, roots, vs)
      cg = gcache[gk]
      if cg is None:
        continue
      # move index-free guards into the coefficient
      inner = []
      for g in cg:
        if ex.dep(g):
          inner.append(g)
        else:
          coef = z3.If(g, coef, z3.RealVal(0))
      # boolean-valued atoms: to_real(ite) were expanded already
      k = (tuple(sorted(g.sexpr() for g in inner)), tuple(sorted(a.sexpr() for a in ats)))
      if k in acc:
        acc[k] = (acc[k][0] + coef, acc[k][1], acc[k][2])
      else:
        acc[k] = (coef, inner, list(ats))
        order.append(k)
    return [acc[k] for k in order]

  def sum(self, roots, vs, pred, body):
    res = []
    for coef, guards, atoms in self.monomials(roots, vs, pred, body):
      c = simp(coef)
      if z3.is_rational_value(c) and c.numerator_as_long() == 0:
        continue
      t = self.mono(roots, vs, guards, atoms)
      res.append(simp(c * t))
    if not res:
      return z3.RealVal(0)
    out = res[0]
    for t in res[1:]:
      out = out + t
    out = simp(out)
    return out

  def card(self, roots, vs, pred):
    guards = self.clean_guards(conjuncts(pred), roots, vs)
    if guards is None:
      return z3.IntVal(0)
    spl = [simp(f(v)) for r, v in zip(roots, vs) for f in self.splits.get(r.name, [])]
    if not spl:
      return self._card1(roots, vs, guards)
    cases = [()]
    for s in spl:
      cases = [x + (l,) for x in cases for l in (s, simp(z3.Not(s)))]
    tot = z3.IntVal(0)
    for case in cases:
      g = self.clean_guards(guards + list(case), roots, vs)
      if g is not None:
        tot = tot + self._card1(roots, vs, g)
    return simp(tot)

  def _card1(self, roots, vs, guards):
    memo = {}
    inner = [g for g in guards if any(occurs(g, v) for v in vs)]
    outer = [g for g in guards if not any(occurs(g, v) for v in vs)]
    if len(roots) > 1:
      groups = _components(vs, inner)
      t = z3.IntVal(1)
      for grp in groups:
        rs = [r for r, v in zip(roots, vs) if any(v.eq(x) for x in grp)]
        vv = [v for v in vs if any(v.eq(x) for x in grp)]
        gg = [g for g in inner if any(occurs(g, v) for v in vv)]
        t = t * self._card(rs, vv, gg, memo)
    else:
      t = self._card(roots, vs, inner, memo)
    if outer:
      t = z3.If(z3.And(*outer), t, z3.IntVal(0))
    return simp(t)

  # -- lemmas ---------------------------------------------------------------
  def _apps(self, terms):
    apps = []
    names = self.patterns
    seen = set()
    stack = list(terms)
    while stack:
      x = stack.pop()
      i = x.get_id()
      if i in seen:
        continue
      seen.add(i)
      if z3.is_quantifier(x):
        stack.append(x.body())
        continue
      if z3.is_app(x):
        nm = x.decl().name()
        if nm in names and not core.has_var(x):
          apps.append((names[nm], x))
        stack.extend(x.children())
    return apps

  def squares(self, terms):
    """sums of squares are non-negative."""
    out = []
    for pat, x in self._apps(terms):
      if pat.kind != 'SUM':
        continue
      g, a = pat.instance([x.arg(k) for k in range(x.num_args())])
      if _is_square(a):
        out.append(x >= 0)
    return out

  def pairwise(self, goals, hyps):
    """pointwise equal sums are equal."""
    out = []
    apps = self._apps(goals)
    more = self._apps(hyps)
    have = {x.get_id() for _, x in apps}
    more = [m for m in more if m[1].get_id() not in have]
    pairs = [(apps[p], apps[q]) for p in range(len(apps)) for q in range(p + 1, len(apps))]
    pairs += [(a, m) for a in apps for m in more]
    for (A, x), (C, y) in pairs:
      if A.kind != C.kind or [r.name for r in A.roots] != [r.name for r in C.roots]:
        continue
      if A.kind == 'SUM' and len(A.atoms) != len(C.atoms):
        continue
      if x.eq(y):
        continue
      key = ('pw', x.sexpr(), y.sexpr(), self.c.hyp_version)
      r = self.unsat_memo.get(key)
      if r is None:
        r = self._pointwise_equal(A, x, C, y)
        self.unsat_memo[key] = r
      if r:
        out.append(x == y)
    return out

  def _inst_body(self, P, x):
    g, a = P.instance([x.arg(k) for k in range(x.num_args())])
    body = z3.RealVal(1)
    for t in a:
      body = body * t
    if g:
      body = z3.If(z3.And(*g), body, z3.RealVal(0))
    return body

  def _pointwise_equal(self, A, x, C, y):
    b1 = self._inst_body(A, x)
    b2 = z3.substitute(self._inst_body(C, y), *list(zip(C.vs, A.vs)))
    hyp = [r.mem(v) for r, v in zip(A.roots, A.vs)]
    return self.c.prover.quick_unsat(self.c, hyp + [b1 != b2], strong=True, rlimit=400_000)


def _is_square(atoms):
  """atoms is a multiset in which every factor appears an even number of times."""
  cnt = {}
  for a in atoms:
    k = a.sexpr()
    cnt[k] = cnt.get(k, 0) + 1
  return bool(cnt) and all(v % 2 == 0 for v in cnt.values())


def _components(vs, terms):
  groups = [[v] for v in vs]
  for t in terms:
    hit = [g for g in groups if any(occurs(t, v) for v in g)]
    if len(hit) > 1:
      m = [v for g in hit for v in g]
      groups = [g for g in groups if not any(g is h for h in hit)] + [m]
  return groups
