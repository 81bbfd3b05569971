"""Discharging obligations: z3 (smt), z3 (nlsat), rational-function normal form,
cvc5.  All limits are resource limits (deterministic); the wall-clock limits are
only a safety net."""
from __future__ import annotations
import fractions
import time
import z3
from . import core
from .core import TCDF, TPPF, NPPF, _SQRT, R, I, B, simp, collect_apps, has_quant


_NAMES = {'t_ppf', 't_cdf', 'norm_ppf', 'sqrt'}
_apps_memo = {}


def special_apps(terms):
  """{name: ground applications} of the interpreted functions (memoised per term)."""
  out = {n: {} for n in _NAMES}
  for t in terms:
    i = t.get_id()
    hit = _apps_memo.get(i)
    if hit is None or not hit[0].eq(t):
      hit = (t, collect_apps([t], _NAMES))
      _apps_memo[i] = hit
    for a in hit[1]:
      out[a.decl().name()][a.get_id()] = a
  return {n: list(d.values()) for n, d in out.items()}


def t_theory(apps):
  """Ground instances of the axioms assumed of the Student-t cdf/ppf."""
  out = []
  ppfs = apps['t_ppf']
  cdfs = apps['t_cdf']
  pts = []
  for a in cdfs:
    pts.append((a.arg(0), a.arg(1)))
  for a in ppfs:
    q, df = a.arg(0), a.arg(1)
    out.append(z3.Implies(z3.And(q > 0, q < 1, df > 0), TCDF(a, df) == q))
    pts.append((a, df))
  if not pts:
    return out
  uniq = []
  def addpt(x, df):
    x = simp(x)
    for (y, d) in uniq:
      if y.eq(x) and d.eq(df):
        return
    uniq.append((x, df))
  for x, df in pts:
    addpt(x, df)
    addpt(-x, df)
    addpt(z3.RealVal(0), df)
  if len(uniq) > 14:
    uniq = uniq[:14]
  for x, df in uniq:
    t = TCDF(x, df)
    out.append(z3.Implies(df > 0, z3.And(t > 0, t < 1)))
    out.append(z3.Implies(df > 0, TCDF(simp(-x), df) == 1 - t))
  for i in range(len(uniq)):
    for j in range(i + 1, len(uniq)):
      (x, d), (y, e) = uniq[i], uniq[j]
      pre = z3.And(d > 0, e > 0) if d.eq(e) else z3.And(d > 0, e > 0, d == e)
      out.append(z3.Implies(pre, z3.And((x < y) == (TCDF(x, d) < TCDF(y, e)),
                                        (x == y) == (TCDF(x, d) == TCDF(y, e)))))
  return out


def n_theory(apps):
  out = []
  for a in apps['norm_ppf']:
    q = a.arg(0)
    out.append(z3.Implies(z3.And(q > z3.RealVal('1/2'), q < 1), a > 0))
  return out


def sqrt_theory(apps):
  out = []
  ap = apps['sqrt']
  for a in ap:
    x = a.arg(0)
    out.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
  if len(ap) <= 6:
    for i in range(len(ap)):
      for j in range(i + 1, len(ap)):
        x, y = ap[i].arg(0), ap[j].arg(0)
        out.append(z3.Implies(z3.And(x >= 0, y >= 0), (x < y) == (ap[i] < ap[j])))
  return out


# -- rational function normal form ------------------------------------------
def _content(p):
  """(common monomial factor, rest) of a polynomial."""
  low = None
  for m in p:
    d = dict(m)
    low = d if low is None else {v: min(e, d[v]) for v, e in low.items() if v in d}
  if not low:
    return (), p
  out = {}
  for m, co in p.items():
    out[tuple((v, e - low.get(v, 0)) for v, e in m if e > low.get(v, 0))] = co
  return tuple(sorted(low.items())), out


def square_of(t):
  """x if t is sqrt(x); x * x if t is the absolute value of x."""
  if not z3.is_app(t):
    return None
  if t.decl().eq(_SQRT):
    return t.arg(0)
  if t.decl().kind() == z3.Z3_OP_ITE and t.sort() == R:
    q, x, y = t.children()
    if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_GE and q.arg(0).eq(x) and z3.is_rational_value(q.arg(1)) and q.arg(1).as_fraction() == 0:
      z = simp(x + y)
      if z3.is_rational_value(z) and z.as_fraction() == 0:
        return x * x
  return None


class NotRational(Exception):
  pass


class RF:
  """polynomial fractions over opaque atoms (dict monomial->Fraction)."""

  def __init__(self, limit=60000):
    self.atoms = {}
    self.by = {}
    self.limit = limit
    self.sq = {}

  def atom(self, t):
    i = self.atoms.get(t.get_id())
    if i is None:
      s = t.sexpr()
      i = self.by.get(s)
      if i is None:
        i = len(self.by)
        self.by[s] = i
        self.sq[i] = t
      self.atoms[t.get_id()] = i
      self.keep = getattr(self, 'keep', [])
      self.keep.append(t)
    return i

  def mul(self, a, b):
    if len(a) * len(b) > self.limit:
      raise NotRational('too large')
    out = {}
    for ma, ca in a.items():
      for mb, cb in b.items():
        m = dict(ma)
        for v, e in mb:
          m[v] = m.get(v, 0) + e
        k = tuple(sorted(m.items()))
        out[k] = out.get(k, 0) + ca * cb
    return {k: c for k, c in out.items() if c}

  def add(self, a, b, s=1):
    out = dict(a)
    for k, c in b.items():
      out[k] = out.get(k, 0) + s * c
    return {k: c for k, c in out.items() if c}

  def reduce2(self, n, d):
    """n / d with the squares of roots in n replaced."""
    for _ in range(60):
      hit = next(((v, sq) for m in n for v, e in m if e >= 2 for sq in [square_of(self.sq[v])] if sq is not None), None)
      if hit is None:
        break
      v, t = hit
      n2, d2 = self.rf(t)
      out = {}
      for k, co in n.items():
        kd = dict(k)
        if kd.get(v, 0) >= 2:
          kd[v] -= 2
          if kd[v] == 0:
            del kd[v]
          out = self.add(out, self.mul({tuple(sorted(kd.items())): co}, n2))
        else:
          out = self.add(out, self.mul({k: co}, d2))
      n, d = out, self.mul(d, d2)
    return n, d

  def reduce(self, p):
    """zero test modulo sqrt(x)^2 == x (p may be scaled by a denominator)."""
    for _ in range(60):
      hit = None
      for m in p:
        for v, e in m:
          t = self.sq[v]
          sq = square_of(t) if e >= 2 else None
          if sq is not None:
            hit = (v, sq)
            break
        if hit:
          break
      if not hit:
        return p
      v, t = hit
      n, d = self.rf(t)
      out = {}
      one = d == {(): fractions.Fraction(1)}
      for k, c in p.items():
        kd = dict(k)
        if kd.get(v, 0) >= 2:
          kd[v] -= 2
          if kd[v] == 0:
            del kd[v]
          out = self.add(out, self.mul({tuple(sorted(kd.items())): c}, n))
        elif one:
          out = self.add(out, {k: c})
        else:
          out = self.add(out, self.mul({k: c}, d))
      p = out
    return p

  def rf(self, t):
    one = {(): fractions.Fraction(1)}
    if z3.is_rational_value(t) or z3.is_int_value(t):
      f = fractions.Fraction(t.as_string()) if z3.is_rational_value(t) else fractions.Fraction(t.as_long())
      return ({(): f} if f else {}), one
    if not z3.is_app(t):
      raise NotRational()
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
      n, d = self.rf(ch[0])
      for c in ch[1:]:
        n2, d2 = self.rf(c)
        s = 1 if k == z3.Z3_OP_ADD else -1
        if d == d2:
          n = self.add(n, n2, s)
        else:
          n = self.add(self.mul(n, d2), self.mul(n2, d), s)
          d = self.mul(d, d2)
      return n, d
    if k == z3.Z3_OP_UMINUS:
      n, d = self.rf(ch[0])
      return {m: -c for m, c in n.items()}, d
    if k == z3.Z3_OP_MUL:
      n, d = one, one
      for c in ch:
        n2, d2 = self.rf(c)
        n, d = self.mul(n, n2), self.mul(d, d2)
      return n, d
    if k == z3.Z3_OP_DIV:
      n, d = self.rf(ch[0])
      n2, d2 = self.rf(ch[1])
      if not n2:
        raise NotRational('zero denominator')
      return self.mul(n, d2), self.mul(d, n2)
    if k == z3.Z3_OP_POWER:
      e = simp(ch[1])
      if z3.is_int_value(e) or (z3.is_rational_value(e) and e.denominator_as_long() == 1):
        e = e.as_long() if z3.is_int_value(e) else e.numerator_as_long()
        n, d = one, one
        b = self.rf(ch[0])
        for _ in range(abs(e)):
          n, d = self.mul(n, b[0]), self.mul(d, b[1])
        return (n, d) if e >= 0 else (d, n)
    if k == z3.Z3_OP_TO_REAL:
      c = ch[0]
      if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return self.rf(c)
      return {((self.atom(c), 1),): fractions.Fraction(1)}, one
    if k == z3.Z3_OP_ITE and square_of(t) is None:
      raise NotRational('ite')
    # canonicalise arguments of uninterpreted applications
    return {((self.atom(t), 1),): fractions.Fraction(1)}, one


def rational_equal(a, b, limit=60000):
  try:
    rf = RF(limit)
    n1, d1 = rf.rf(a)
    n2, d2 = rf.rf(b)
    diff = rf.add(rf.mul(n1, d2), rf.mul(n2, d1), -1)
    return not rf.reduce(diff)
  except NotRational:
    return False
  except RecursionError:
    return False


def solve_eqs(hyps, goal, sums=(), test=None, rw=None):
  """rewrite the goal with the equations among the hypotheses (goal directed)."""
  eqs = []
  for h in hyps:
    if z3.is_eq(h) and h.arg(0).sort() != B:
      eqs.append((h.arg(0), h.arg(1)))

  def key(x):
    return x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.num_args() == 0 or x.decl().name() in sums)

  used = 0
  done = []
  while used < 200:
    syms = _subterm_ids(goal)
    hit = None
    for i in range(len(eqs) - 1, -1, -1):
      x, y = eqs[i]
      for u, w in ((x, y), (y, x)):
        if key(u) and u.get_id() in syms and not core.occurs(w, u):
          hit = (i, u, w)
          break
      if hit:
        break
    if not hit:
      return hyps, goal
    i, u, w = hit
    eqs.pop(i)
    used += 1
    if rw:
      w = z3.substitute(w, *rw)
    goal = z3.substitute(goal, (u, w))
    if test is not None and used % 2 == 0 and test(goal):
      return hyps, goal
    new = []
    for x, y in eqs:
      if core.occurs(x, u) or core.occurs(y, u):
        x, y = z3.substitute(x, (u, w)), z3.substitute(y, (u, w))
        if x.eq(y):
          continue
      new.append((x, y))
    eqs = new
  return hyps, goal


class NumEval:
  """value of a ground term at a pseudo-random point satisfying the defining
  equations among the hypotheses: a cheap refutation of conjectured equalities."""

  def __init__(self, c, salt=0):
    self.salt = salt
    self.eq = {}
    self.memo = {}
    self.busy = set()
    self.n = len(c.pc)
    sums = c.sums.patterns if c.sums is not None else ()
    for h in c.pc:
      if z3.is_eq(h) and h.arg(0).sort() != B:
        for u, w in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
          if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and (u.num_args() == 0 or u.decl().name() in sums):
            if u.get_id() not in self.eq and not core.occurs(w, u):
              self.eq[u.get_id()] = w
              break

  def val(self, t):
    i = t.get_id()
    if i in self.memo:
      return self.memo[i][1]
    if i in self.eq and i not in self.busy:
      self.busy.add(i)
      v = self.val(self.eq[i])
      self.busy.discard(i)
    else:
      v = self._val(t)
    self.memo[i] = (t, v)
    return v

  def _val(self, t):
    if z3.is_rational_value(t):
      return t.numerator_as_long() / t.denominator_as_long()
    if z3.is_int_value(t):
      return t.as_long()
    k = t.decl().kind()
    a = [self.val(x) for x in t.children()]
    if k == z3.Z3_OP_UNINTERPRETED:
      if t.decl().eq(_SQRT):
        import cmath
        r = cmath.sqrt(a[0])
        return r.real if abs(r.imag) == 0 else r
      import zlib
      h = zlib.crc32((t.decl().name() + repr([round(x, 6) if isinstance(x, float) else x for x in a]) + str(self.salt)).encode())
      if t.sort() == I:
        return 5 + h % 40
      if t.sort() == B:
        return bool(h & 64)
      return 1.0 + (h % 100003) / 100003.0
    if k == z3.Z3_OP_TRUE:
      return True
    if k == z3.Z3_OP_FALSE:
      return False
    if k == z3.Z3_OP_ADD:
      return sum(a)
    if k == z3.Z3_OP_SUB:
      return a[0] - sum(a[1:])
    if k == z3.Z3_OP_UMINUS:
      return -a[0]
    if k == z3.Z3_OP_MUL:
      r = 1
      for x in a:
        r *= x
      return r
    if k == z3.Z3_OP_DIV:
      return a[0] / a[1]
    if k == z3.Z3_OP_POWER:
      return a[0] ** a[1]
    if k == z3.Z3_OP_TO_REAL:
      return a[0]
    if k == z3.Z3_OP_TO_INT:
      import math
      return math.floor(a[0])
    if k == z3.Z3_OP_ITE:
      return a[1] if a[0] else a[2]
    if k == z3.Z3_OP_AND:
      return all(a)
    if k == z3.Z3_OP_OR:
      return any(a)
    if k == z3.Z3_OP_NOT:
      return not a[0]
    if k == z3.Z3_OP_EQ:
      return a[0] == a[1]
    if k == z3.Z3_OP_LE:
      return a[0] <= a[1]
    if k == z3.Z3_OP_LT:
      return a[0] < a[1]
    if k == z3.Z3_OP_GE:
      return a[0] >= a[1]
    if k == z3.Z3_OP_GT:
      return a[0] > a[1]
    raise ValueError(str(k))


def maybe_equal(c, a, b):
  """False when a numeric sample refutes a == b."""
  e = c.data.get('numeval')
  if e is None or e.n != len(c.pc):
    e = c.data['numeval'] = NumEval(c)
  try:
    x, y = e.val(a), e.val(b)
    return abs(x - y) <= 1e-6 * max(abs(x), abs(y), 1e-30)
  except Exception:
    return True


def _subterm_ids(t):
  out, stack = set(), [t]
  while stack:
    x = stack.pop()
    i = x.get_id()
    if i in out:
      continue
    out.add(i)
    if z3.is_app(x):
      stack.extend(x.children())
  return out


def _cmp(t):
  """(small, large, strict) of a comparison."""
  neg = False
  while z3.is_not(t):
    t, neg = t.arg(0), not neg
  if not z3.is_app(t):
    return None
  k = t.decl().kind()
  if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
    a, b, s = t.arg(0), t.arg(1), k == z3.Z3_OP_LT
  elif k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
    a, b, s = t.arg(1), t.arg(0), k == z3.Z3_OP_GT
  else:
    return None
  return (b, a, not s) if neg else (a, b, s)


def _ge_goal(g):
  """the term that `g` states to be non-negative, else None."""
  if not z3.is_app(g):
    return None
  k = g.decl().kind()
  if k == z3.Z3_OP_GE and z3.is_rational_value(g.arg(1)) and g.arg(1).numerator_as_long() == 0:
    return g.arg(0)
  if k == z3.Z3_OP_LE and z3.is_rational_value(g.arg(0)) and g.arg(0).numerator_as_long() == 0:
    return g.arg(1)
  return None


def find_ite(t):
  stack, seen = [t], set()
  while stack:
    x = stack.pop()
    if x.get_id() in seen or z3.is_quantifier(x):
      continue
    seen.add(x.get_id())
    if z3.is_app(x):
      if x.decl().kind() == z3.Z3_OP_ITE and x.sort() != B:
        c = x.arg(0)
        if find_ite(c) is None:
          return c
      stack.extend(x.children())
  return None


class Prover:

  def __init__(self, rlimit=4_000_000, timeout_ms=20_000):
    self.rlimit = rlimit
    self.timeout = timeout_ms
    self.stats = {}
    self.time = 0.0
    self.last_model = None
    self.nfeas = 0
    self.scale = 1      # wall-clock limits are multiplied by it
    self.retries = 3    # undischarged after longer limits as well: no more retries

  # -- helpers --------------------------------------------------------------
  def _solver(self, rlimit, logic=None):
    s = z3.Solver()
    s.set('rlimit', rlimit * self.scale)
    s.set('timeout', self.timeout * self.scale)
    s.set('random_seed', 0)
    return s

  def theory(self, terms):
    apps = special_apps(terms)
    return t_theory(apps) + n_theory(apps) + sqrt_theory(apps)

  def feasible(self, c, cond):
    t0 = time.time()
    self.nfeas += 1
    hy = [cond]
    r = None
    for hops in (2, 9):
      near = relevant(c.pc, [cond], hops)
      if hops > 2 and len(near) == last:
        break
      last = len(near)
      s = self._solver(300_000)
      s.set('timeout', 700 * self.scale)
      hy = near + [cond]
      s.add(*hy)
      s.add(*self.theory(hy))
      r = s.check()
      if r == z3.unsat:
        break
    self.time += time.time() - t0
    return r != z3.unsat

  def quick_unsat(self, c, lits, strong=False, rlimit=None, light=False):
    t0 = time.time()
    s = self._solver(rlimit or (2_000_000 if strong else 200_000))
    s.set('timeout', (4000 if strong else 1500) * self.scale)
    if light:
      hy = relevant([h for h in c.pc if is_light(h)], lits) + list(lits)
    else:
      hy = relevant(c.pc, lits) + list(lits)
    s.add(*hy)
    if strong:
      s.add(*c.axioms)
      s.add(*self.theory(hy))
    r = s.check()
    self.time += time.time() - t0
    return r == z3.unsat

  # -- main -----------------------------------------------------------------
  def prove(self, c, goal, name):
    t0 = time.time()
    ok, backend, detail = self._prove(c, goal, 0)
    if not ok and self._infeasible(c):
      ok, backend = True, 'infeasible-path'
    if not ok and 'z3: sat' not in detail and self.retries > 0:
      # the limits are wall-clock time: on a busy machine, once more with longer ones
      self.scale = 4
      try:
        ok, backend, detail = self._prove(c, goal, 0)
      finally:
        self.scale = 1
      self.retries -= not ok
    dt = time.time() - t0
    self.time += dt
    self.stats[backend] = self.stats.get(backend, 0) + 1
    return ok, backend, dt, detail

  def _infeasible(self, c):
    key = (c.hyp_version, len(c.pc))
    memo = c.data.setdefault('infeasible_memo', {})
    if key not in memo:
      hy = list(c.pc)
      s = self._solver(3_000_000)
      s.set('timeout', 8000 * self.scale)
      s.add(*hy)
      s.add(*self.theory(hy))
      memo[key] = s.check() == z3.unsat or self._nlsat(hy, z3.BoolVal(False)) == z3.unsat
    return memo[key]

  def prove_only(self, c, goal, only):
    t0 = time.time()
    goal = simp(goal)
    hy = [simp(h) for h in only]
    syms = symbols(goal)
    for q, t in c.defs:
      if q.decl().name() in syms:
        hy.append(q == t)
    s = self._solver(2_000_000)
    s.set('timeout', 5000 * self.scale)
    s.add(*hy)
    s.add(*self.theory(hy + [goal]))
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unknown and self.retries > 0:
      s.set('timeout', 20000)
      r = s.check()
      self.retries -= r != z3.unsat
    if r == z3.unsat:
      self.stats['z3-smt'] = self.stats.get('z3-smt', 0) + 1
    return r == z3.unsat, 'z3-smt', time.time() - t0, ''

  def _prove(self, c, goal, depth, extra=()):
    goal = simp(goal)
    if core.is_true(goal):
      return True, 'simplify', ''
    if z3.is_and(goal):
      bk = 'simplify'
      for g in goal.children():
        ok, b, d = self._prove(c, g, depth, extra)
        if not ok:
          return ok, b, d
        if b != 'simplify':
          bk = b
      return True, bk, ''
    if z3.is_implies(goal):
      return self._prove(c, goal.arg(1), depth, tuple(extra) + tuple(_conj(goal.arg(0))))
    if z3.is_or(goal) and depth < 3:
      # a -> b written as a disjunction: move all but the last literal to hyps
      pass
    if z3.is_quantifier(goal) and goal.is_forall():
      vs = [z3.Const(f'sk{depth}_{goal.var_name(i)}', goal.var_sort(i)) for i in range(goal.num_vars())]
      body = z3.substitute_vars(goal.body(), *reversed(vs))
      return self._prove(c, body, depth + 1, extra)
    # equality of reals: normal form first
    if z3.is_eq(goal) and goal.arg(0).sort() in (R, I):
      if self._eq(c, goal, extra, 0):
        return True, 'rational-normal-form', ''
    ge = _ge_goal(goal)
    if ge is not None and self._nonneg(c, ge, extra, 0):
      return True, 'sign-rules', ''
    if z3.is_not(goal) and z3.is_eq(goal.arg(0)) and goal.arg(0).arg(0).sort() == R and z3.is_rational_value(goal.arg(0).arg(1)) and goal.arg(0).arg(1).as_fraction() == 0:
      if self._nonneg(c, goal.arg(0).arg(0), extra, 0, True) or self._scaled(c, goal.arg(0).arg(0) > 0, extra):
        return True, 'sign-rules', ''
    if self._transfer(c, goal, extra) or self._scaled(c, goal, extra):
      return True, 'rational-normal-form', ''
    hyps = list(c.pc) + list(extra)
    terms = hyps + [goal]
    th = self.theory(terms)
    lem = c.sums.squares(terms) if c.sums is not None else []
    pw = None
    if c.sums is not None and z3.is_eq(goal) and goal.arg(0).sort() in (R, I):
      pw = c.sums.pairwise([goal] + list(extra), hyps)
      if pw and self._eq(c, goal, tuple(extra) + tuple(pw), 0):
        return True, 'rational-normal-form', ''
    prev = -1
    for hops in (1, 2):
      near = relevant(hyps, [goal], hops) if hops else []
      if len(near) == prev or len(near) > 0.8 * len(hyps):
        break
      prev = len(near)
      s = self._solver(700_000)
      s.add(*near)
      s.add(*self.theory(near + [goal]))
      s.add(z3.Not(goal))
      if s.check() == z3.unsat:
        return True, 'z3-smt', ''
    s = self._solver(self.rlimit)
    s.add(*hyps)
    s.add(*c.axioms)
    s.add(*th)
    s.add(*lem)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
      return True, 'z3-smt', ''
    if c.sums is not None:
      if pw is None:
        pw = c.sums.pairwise([goal] + list(extra), hyps)
      if pw:
        lem = lem + pw
        s.add(*pw)
        r = s.check()
        if r == z3.unsat:
          return True, 'z3-smt', ''
    model = None
    if r == z3.sat:
      model = s.model()
    # relevant subset only
    rel = relevant(hyps + th + lem, [goal])
    nl = self._nlsat(rel, goal)
    if nl == z3.unsat:
      return True, 'z3-nlsat', ''
    r2 = self._cvc5(rel, c.axioms, goal)
    if r2:
      return True, 'cvc5', ''
    detail = f'z3: {r}' + (f' ({s.reason_unknown()})' if r == z3.unknown else '') + f'; nlsat: {nl}'
    if model is not None:
      self.last_model = model
      detail += '\nmodel: ' + str(model)[:1500]
    detail = f'goal: {str(goal)[:1500]}\n' + detail
    return False, 'z3-smt', detail

  def _transfer(self, c, goal, extra):
    """goal a <= b from a hypothesis a' <= b' with a == a', b == b'."""
    g = _cmp(goal)
    if g is None or g[0].sort() != R:
      return False
    n = 0
    for h in list(c.pc) + list(extra):
      k = _cmp(h)
      if k is None or k[0].sort() != R or (g[2] and not k[2]):
        continue
      e0, e1 = k[0].eq(g[0]), k[1].eq(g[1])
      if not (e0 or e1):
        continue
      n += 1
      if n > 4:
        return False
      if (e0 or self._eq(c, k[0] == g[0], extra, 2)) and (e1 or self._eq(c, k[1] == g[1], extra, 2)):
        return True
    return False

  def _scaled(self, c, goal, extra):
    """goal a <= b from a hypothesis a' <= b' with b - a = (b' - a') * positive."""
    g = _cmp(goal)
    if g is None or g[0].sort() != R:
      return False
    try:
      rf = RF(3000)
      ng, dg = rf.reduce2(*rf.rf(self._undef(c, g[1] - g[0])))
      if not ng or len(ng) > 60 or len(dg) != 1:
        return False
      for h in list(c.pc) + list(extra):
        k = _cmp(h)
        if k is None or k[0].sort() != R or (g[2] and not k[2]):
          continue
        try:
          nh, dh = rf.reduce2(*rf.rf(self._undef(c, k[1] - k[0])))
        except NotRational:
          continue
        if not nh or len(dh) != 1:
          continue
        # up to a common monomial factor of positive variables
        (fg, pg), (fh, ph) = _content(ng), _content(nh)
        m0, c0 = next(iter(pg.items()))
        if set(ph) != set(pg):
          continue
        q = c0 / ph[m0]
        if any(pg[m] != q * ph[m] for m in pg):
          continue
        sg = q
        odd = {}
        for mono, co in (next(iter(dg.items())), next(iter(dh.items())), (fg, 1), (fh, 1)):
          sg = sg * co
          for v, e in mono:
            odd[v] = odd.get(v, 0) + e
        if sg <= 0:
          continue
        below = {v for m in (dg, dh) for mono in m for v, e in mono}     # divided by: not zero
        uneven = {v for v, e in set(fg) ^ set(fh)}
        if all(self._nonneg(c, rf.sq[v], extra, 6, v not in below) if e % 2 else
               v in below or v not in uneven or self._nonzero(c, rf.sq[v], extra) for v, e in odd.items()):
          return True
    except (NotRational, RecursionError):
      return False
    return False

  def _nonzero(self, c, t, extra):
    return self._nonneg(c, t, extra, 6, True) or self.quick_unsat(c, list(extra) + [t == 0], rlimit=60_000)

  def _undef(self, c, t):
    for _ in range(30):
      sub = [(nm, df) for nm, df in c.defs if core.occurs(t, nm)]
      if not sub:
        return t
      t = simp(z3.substitute(t, *sub))
    return t

  def _nonneg(self, c, t, extra, depth, strict=False):
    """syntactic sign reasoning: sums, products, squares, quotients."""
    if depth > 12:
      return False
    if z3.is_rational_value(t) or z3.is_int_value(t):
      v = fractions.Fraction(t.as_string()) if z3.is_rational_value(t) else t.as_long()
      return v > 0 if strict else v >= 0
    if not z3.is_app(t):
      return False
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_TO_REAL:
      return self._quick_sign(c, ch[0], extra, strict)
    for nm, df in c.defs:
      if nm.eq(t):
        return self._nonneg(c, df, extra, depth + 1, strict)
    if k == z3.Z3_OP_DIV:
      return self._nonneg(c, ch[1], extra, depth + 1, True) and self._nonneg(c, ch[0], extra, depth + 1, strict)
    if k == z3.Z3_OP_MUL:
      left = []
      for x in ch:
        hit = next((i for i, y in enumerate(left) if y.eq(x)), None)
        if hit is not None and not strict:
          left.pop(hit)
        else:
          left.append(x)
      return all(self._nonneg(c, x, extra, depth + 1, strict) for x in left)
    if strict and t.decl().eq(_SQRT) and not self._quick_sign(c, t, extra, strict):
      return self._scaled(c, ch[0] > 0, extra)
    if k == z3.Z3_OP_ITE:
      return all(self._nonneg(c, x, extra, depth + 1, strict) for x in ch[1:])
    if k == z3.Z3_OP_ADD:
      if self._quick_sign(c, t, extra, strict):
        return True
      if strict:
        return False
      left = list(ch)
      for h in list(c.pc) + list(extra):
        g = _ge_goal(h)
        if g is not None and z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ADD:
          rest = list(left)
          ok = True
          for x in g.children():
            i = next((i for i, y in enumerate(rest) if y.eq(x)), None)
            if i is None:
              ok = False
              break
            rest.pop(i)
          if ok:
            left = rest
      if len(left) == len(ch) and depth > 8:
        return False
      return all(self._nonneg(c, x, extra, depth + 1) for x in left)
    return self._quick_sign(c, t, extra, strict)

  def _quick_sign(self, c, t, extra, strict):
    return self.quick_unsat(c, list(extra) + [t <= 0 if strict else t < 0], rlimit=60_000)

  def _eq(self, c, goal, extra, depth):
    rw = c.data.get('rewrite')
    if rw:
      goal = z3.substitute(goal, *rw)
    a, b = goal.arg(0), goal.arg(1)
    if rational_equal(a, b):
      return True
    hyps = list(c.pc) + list(extra)
    hit = []

    def test(g):
      if z3.is_eq(g) and rational_equal(g.arg(0), g.arg(1), 4000):
        hit.append(1)
      return bool(hit)
    h2, g2 = solve_eqs(hyps, goal, c.sums.patterns if c.sums is not None else (), test, rw)
    if hit:
      return True
    if not g2.eq(goal):
      g2 = simp(g2)
      if core.is_true(g2):
        return True
      if z3.is_eq(g2) and rational_equal(g2.arg(0), g2.arg(1)):
        return True
    if depth < 4 and z3.is_eq(g2):
      cond = find_ite(g2)
      if cond is not None:
        for val in (True, False):
          hyp = cond if val else z3.Not(cond)
          if self.quick_unsat(c, list(extra) + [hyp]):
            continue
          gg = simp(z3.substitute(g2, (cond, z3.BoolVal(val))))
          if core.is_true(gg):
            continue
          if not z3.is_eq(gg) or not self._eq(c, gg, tuple(extra) + (hyp,), depth + 1):
            return False
        return True
    return False

  def _nlsat(self, hyps, goal):
    hyps = [h for h in hyps if not has_quant(h)]
    fs = hyps + [z3.Not(goal)]
    fs = [simp(z3.substitute(f)) for f in fs] if False else fs
    fs = ackermann(fs)
    if fs is None:
      return 'n/a'
    g = z3.Goal()
    g.add(*fs)
    try:
      t = z3.TryFor(z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify',
                             'tseitin-cnf', 'nlsat'), 15000 * self.scale)
      r = t(g)
      if len(r) == 1 and r[0].inconsistent():
        return z3.unsat
      return 'sat?' if len(r) else z3.unsat
    except z3.Z3Exception:
      return 'unknown'

  def _cvc5(self, hyps, axioms, goal):
    return False


def _conj(t):
  if z3.is_and(t):
    return list(t.children())
  return [t]


def ackermann(fs):
  """replace uninterpreted applications by fresh reals/ints (drops congruence:
  sound for unsat)."""
  memo = {}

  def walk(t):
    i = t.get_id()
    if i in memo:
      return memo[i][1]
    if z3.is_quantifier(t) or z3.is_var(t):
      raise ValueError
    ch = t.children()
    k = t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and ch:
      r = z3.Const(f'ack{len(memo)}_{t.decl().name()}', t.sort())
    elif not ch:
      r = t
    else:
      new = [walk(c) for c in ch]
      r = t.decl()(*new) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And(*new) if k == z3.Z3_OP_AND else z3.Or(*new))
    memo[i] = (t, r)
    return r

  try:
    return [walk(f) for f in fs]
  except ValueError:
    return None


_sym_memo = {}


def symbols(t):
  """names of the uninterpreted symbols (ground applications as a whole)."""
  hit = _sym_memo.get(t.get_id())
  if hit is not None and hit[0].eq(t):
    return hit[1]
  out = set()
  stack, seen = [t], set()
  while stack:
    x = stack.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_quantifier(x):
      stack.append(x.body())
      continue
    if z3.is_app(x):
      if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.add(x.decl().name() if x.num_args() == 0 else x.sexpr() if not core.has_var(x) else x.decl().name())
      stack.extend(x.children())
  _sym_memo[t.get_id()] = (t, out)
  return out


_nl_memo = {}


def is_light(t):
  """no non-linear arithmetic and no sums: cheap enough for guard checks."""
  hit = _nl_memo.get(t.get_id())
  if hit is not None and hit[0].eq(t):
    return hit[1]
  r = not core.nonlinear(t)
  _nl_memo[t.get_id()] = (t, r)
  return r


def relevant(hyps, goals, hops=3):
  """hypotheses connected to the goal through shared symbols."""
  hs = [(h, symbols(h)) for h in hyps]
  cur = set()
  for g in goals:
    cur |= symbols(g)
  chosen = [False] * len(hs)
  for _ in range(hops):
    new = set()
    ch = False
    for k, (h, s) in enumerate(hs):
      if not chosen[k] and (s & cur or not s):
        chosen[k] = True
        new |= s
        ch = True
    cur |= new
    if not ch:
      break
  return [h for k, (h, _) in enumerate(hs) if chosen[k]]
