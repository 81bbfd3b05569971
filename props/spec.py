"""Symbolic vocabulary used by the contracts (imported only by the verifier)."""
from __future__ import annotations
import z3
from engine import core, npstub, runner
from engine.core import SV, R, I, B, as_t, num_t, to_real, lift, simp, ctx, sym_sqrt, Unsupported
from engine.npstub import Arr, Dom
from props.common import ALTS

And, Or, Not, Implies, If, ToReal, ToInt = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.ToReal, z3.ToInt
TCDF, TPPF = core.TCDF, core.TPPF


def B_(x):
  """z3 Bool of a python/symbolic boolean."""
  if isinstance(x, SV):
    return as_t(x, B)
  if isinstance(x, bool):
    return z3.BoolVal(x)
  import numpy as np
  if isinstance(x, np.bool_):
    return z3.BoolVal(bool(x))
  return x


def Rt(x):
  """z3 Real of a scalar."""
  return to_real(num_t(x))


def is_pinf(x):
  return isinstance(x, float) and x == float('inf')


def is_ninf(x):
  return isinstance(x, float) and x == float('-inf')


def finite(x):
  """a scalar that is not infinite / NaN on this path."""
  x = core.conc(x)
  if isinstance(x, SV):
    return True
  return not (core.is_inf(x) or core.is_nan(x))


def eqs(c, a, b, name):
  """a == b as reals (or both the same infinity)."""
  a, b = core.conc(a), core.conc(b)
  if not finite(a) or not finite(b):
    c.prove(z3.BoolVal((not isinstance(a, SV)) and (not isinstance(b, SV)) and a == b), name)
    return
  if a is None or b is None:
    c.prove(z3.BoolVal(a is b), name)
    return
  c.prove(Rt(a) == Rt(b), name)


class TrimmedSpec:
  """The contract of the trimmed array (what C01/C02 prove of the real class).

  K = the samples whose rank by the first row is in [g, n-g), g = floor(q*n).
  """

  def __init__(self, values, quantile):
    c = ctx()
    if (lift(quantile) < 0.0) | (lift(quantile) >= 0.5):
      raise ValueError('quantile')
    values = npstub.as_arr(values)
    if values.ndim not in (1, 2):
      raise ValueError('dims')
    self.quantile = quantile
    V = npstub.atleast_2d(values)
    self._is_2d = V.dims[0] > 1
    d = V.dims[1]
    n = SV(d.card())
    self.original_sample_size = n
    g = core.sym_int(core.sym_floor(quantile * n))
    self.n_trim = g
    self._V = V
    f = V.cell.fn
    self._f = f
    gt = as_t(g)
    # facts of the contract (proved in C01)
    c.fact(And(gt >= 0, Implies(n.t >= 1, n.t - 2 * gt >= 1)))
    if g == 0:
      K = d
    else:
      p = npstub.perm_dom(d, lambda i: f(0, i))
      s = npstub._slice_dom(p, slice(g, SV(simp(n.t - gt))))
      K = Dom(s.branches, None, d.order, s.card(), name=d.name)
    self.K = K
    self.m = SV(K.card())
    self.values_trimmed = Arr((V.dims[0], K), f)

  def __len__(self):
    return self.m

  @property
  def _lo(self):
    if not hasattr(self, '_lo_'):
      self._lo_ = npstub._extreme(self.K, lambda i: self._f(0, i), 1)
      self._hi_ = npstub._extreme(self.K, lambda i: self._f(0, i), -1)
    return self._lo_

  @property
  def _hi(self):
    self._lo
    return self._hi_

  @property
  def min_values(self):
    lo = self._lo
    return Arr((self._V.dims[0],), lambda r: self._f(r, lo))

  @property
  def max_values(self):
    hi = self._hi
    return Arr((self._V.dims[0],), lambda r: self._f(r, hi))

  def _w(self, r):
    return npstub.sbin('/', npstub.sbin('+', SV(self.K.sum(lambda i: self._f(r, i))),
                       self.n_trim * (lift(self._f(r, self._lo)) + self._f(r, self._hi))), self.original_sample_size)

  def _rows(self, h):
    R_ = self._V.dims[0]
    vals = [h(r) for r in range(R_)]
    if self._is_2d:
      return Arr((R_,), lambda r: vals[r])
    return vals[0]

  def mean(self):
    return self._rows(lambda r: npstub.sbin('/', SV(self.K.sum(lambda i: self._f(r, i))), self.m))

  def winsorized_mean(self):
    return self._rows(self._w)

  def _c(self, r, s, ddof):
    wr, ws = self._w(r), self._w(s)
    f, lo, hi = self._f, self._lo, self._hi
    res = lambda i: (lift(f(r, i)) - wr) * (lift(f(s, i)) - ws)
    num = SV(self.K.sum(res)) + self.n_trim * (res(lo) + res(hi))
    return num / (self.m - ddof)

  def cov(self, ddof=0):
    R_ = self._V.dims[0]
    if not self._is_2d:
      return self._c(0, 0, ddof)
    memo = {}

    def g(r, s):
      k = (min(r, s), max(r, s))
      if k not in memo:
        memo[k] = self._c(*k, ddof)
      return memo[k]
    return Arr((R_, R_), g)

  def var(self, ddof=0):
    if not self._is_2d:
      return self._c(0, 0, ddof)
    return self._rows(lambda r: self._c(r, r, ddof))

  def std(self, ddof=0):
    return npstub.sqrt(self.var(ddof=ddof))


class TrimmedOpaque:
  """Weaker contract (enough for the tests): mean m, variance v >= 0, n >= 2."""
  registry = None

  def __init__(self, values, quantile):
    c = ctx()
    if (lift(quantile) < 0.0) | (lift(quantile) >= 0.5):
      raise ValueError('quantile')
    self.v = npstub.as_arr(values)
    key = repr((self._key(self.v), core.simp(as_t(quantile)).sexpr()))
    reg = c.data.setdefault('trimmed_opaque', {})
    rows = 1 if self.v.ndim == 1 else self.v.dims[0]
    if key not in reg:
      k = len(reg)
      n = c.int(f'n_trimmed{k}')
      c.fact(n.t >= 2)
      mean = [c.real(f'mean{k}_{r}') for r in range(rows)]
      cov = {}
      for r in range(rows):
        for s in range(r, rows):
          cov[(r, s)] = c.real(f'cov{k}_{r}{s}')
        c.fact(cov[(r, r)].t >= 0)
      for r in range(rows):
        for s in range(r + 1, rows):
          c.fact(cov[(r, s)].t * cov[(r, s)].t <= cov[(r, r)].t * cov[(s, s)].t)
      self._linear(c, rows, mean, cov)
      reg[key] = (n, mean, cov)
      if 'sample_hook' in c.data:
        c.data['sample_hook']([(m, v) for _, m, v in reg.values()])
    self.n, self.m_, self.c_ = reg[key]
    self.rows = rows
    self.two = rows > 1

  def _linear(self, c, rows, mean, cov):
    """a row that is the difference of two others has the corresponding mean and
    covariances (linearity contract, discharged in C01)."""
    if rows < 3:
      return
    f, d = self.v.fn, self.v.dims[1]
    i = npstub._probe(d)
    g = lambda r, s: cov[(min(r, s), max(r, s))].t
    for r in range(rows):
      for s in range(rows):
        for t in range(rows):
          if len({r, s, t}) == 3 and simp(num_t(f(r, i)) - (num_t(f(s, i)) - num_t(f(t, i)))).eq(z3.RealVal(0)):
            mean[r] = SV(simp(mean[s].t - mean[t].t))
            c.fact(cov[(r, r)].t == g(s, s) + g(t, t) - 2 * g(s, t))
            for u in range(rows):
              if u != r:
                c.fact(g(r, u) == g(s, u) - g(t, u))
            return

  @staticmethod
  def _key(a):
    idx = [npstub._probe(d) if not isinstance(d, int) else None for d in a.dims]
    if a.ndim == 1:
      return (a.dims[0].key(), num_t(a.fn(idx[0])).sexpr())
    return (a.dims[1].key(), tuple(num_t(a.fn(r, idx[1])).sexpr() for r in range(a.dims[0])))

  def _len(self):
    return self.n

  def __len__(self):
    return self.n

  def mean(self):
    return Arr((self.rows,), lambda r: self.m_[r]) if self.two else self.m_[0]

  def cov(self, ddof=0):
    if ddof != 1:
      raise Unsupported('covariance with another ddof in a test')
    if not self.two:
      return self.c_[(0, 0)]
    return Arr((self.rows, self.rows), lambda r, s: self.c_[(min(r, s), max(r, s))])

  def var(self, ddof=0):
    if ddof != 1:
      raise Unsupported('variance with another ddof in a test')
    return Arr((self.rows,), lambda r: self.c_[(r, r)]) if self.two else self.c_[(0, 0)]

  def std(self, ddof=0):
    return npstub.sqrt(self.var(ddof=ddof))


class RelCI:
  """Contract of the relative confidence interval as its callers see it."""

  def __init__(self):
    self.calls = []

  def __call__(self, **k):
    c = ctx()
    lb, ub = c.real('rel_lb'), c.real('rel_ub')
    c.data.setdefault('rel_calls', []).append((k, lb, ub))
    return lb, ub


def ttest_inputs(c, kind, ratio, alt=None):
  """arrays and keyword arguments of one call of a t-test."""
  q, al = c.real('q'), c.real('alpha')
  c.assume(And(q.t >= 0, q.t < 0.5, al.t > 0, al.t < 1))
  alt = ALTS[c.decide(3)] if alt is None else alt
  if kind == 'ind':
    d1 = Dom.range(c.int('n1').t, 'u')
    d2 = Dom.range(c.int('n2').t, 'w')
    c.assume(And(d1.card() >= 2, d2.card() >= 2))
  else:
    n = c.int('n1').t
    c.assume(n >= 2)
    d1 = d2 = Dom.range(n, 'u')
  v1, v2 = c.array('v1', d1), c.array('v2', d2)
  k = dict(trimming_quantile=q, alternative=alt, alpha=al)
  if ratio:
    k['denom_values1'], k['denom_values2'] = c.array('w1', d1), c.array('w2', d2)
  if kind == 'ind':
    k['equal_var'] = bool(c.decide(2))
  return v1, v2, k


def samples_vary(c, kind, ratio):
  """assumes exactly what makes a test defined: denominators with a mean other
  than zero and an estimate whose standard error is not zero."""
  def var(mean, cov, num, den, sign=1):
    if den is None:
      return {num: sign * z3.RealVal(1)}
    a, b = mean[num].t, mean[den].t
    return {num: sign * (1 / b), den: sign * (-a / (b * b))}

  def form(w, cov):
    return sum(w[r] * w[s] * cov[(min(r, s), max(r, s))].t for r in w for s in w)

  def hook(reg):
    if kind == 'ind':
      mean, cov = reg[-1]
      if ratio:
        c.assume(mean[1].t != 0)
      if len(reg) == 2:
        c.assume(Or(*[form(var(m, v, 0, 1 if ratio else None), v) > 0 for m, v in reg]))
      return
    mean, cov = reg[-1]
    if not ratio:
      c.assume(cov[(0, 0)].t > 0)
      return
    c.assume(And(mean[2].t != 0, mean[4].t != 0))
    w = dict(var(mean, cov, 1, 2))
    w.update(var(mean, cov, 3, 4, -1))
    c.assume(form(w, cov) > 0)
  c.data['sample_hook'] = hook


def excludes_zero(lo, hi):
  a = z3.BoolVal(lo > 0) if not isinstance(core.conc(lo), SV) else Rt(lo) > 0
  b = z3.BoolVal(hi < 0) if not isinstance(core.conc(hi), SV) else Rt(hi) < 0
  return Or(a, b)


def constant_ratio(c, se):
  """If one ratio of a paired test is constant, its covariance with the other one
  vanishes (covariances are positive semidefinite: C01).  Returns the hypotheses
  n se^2 = v1 + v2 and the roots that equal se; [] if no ratio is constant."""
  for n, mean, cov in list(c.data.get('trimmed_opaque', {}).values()):
    if len(mean) != 5:
      continue
    g = lambda r, s: cov[(min(r, s), max(r, s))].t
    m = [x.t for x in mean]
    w = {1: 1 / m[2], 2: -m[1] / (m[2] * m[2]), 3: 1 / m[4], 4: -m[3] / (m[4] * m[4])}
    form = lambda p, q: simp(sum(w[r] * w[s] * g(r, s) for r in p for s in q))
    A, C, X = [c.named(form(p, q), nm) for p, q, nm in (((1, 2), (1, 2), 'ratio_var1'), ((3, 4), (3, 4), 'ratio_var2'), ((1, 2), (3, 4), 'ratio_cov'))]
    from engine import prover
    const = []
    for h in list(c.pc):                         # the path's conditions on these variances
      if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_LE and z3.is_rational_value(h.arg(1)) and h.arg(1).as_fraction() == 0:
        for q in (A, C):
          if prover.maybe_equal(c, h.arg(0), q) and c.prover._eq(c, simp(h.arg(0) == q), (), 3):
            const.append(q <= 0)
    if not const:
      continue
    nr = core.to_real(n.t)
    c.lemma(nr * se * se == A + C - 2 * X, 'standard error of the difference of ratios')
    facts = [A >= 0, C >= 0, X * X <= A * C]     # instances of the C01 lemma
    for f in facts:
      c.fact(f)
    c.lemma(X == 0, 'a constant ratio has no covariance', only=facts + const)
    out = [nr * se * se == A + C, nr >= 2]
    c.lemma(out[0], 'standard error without covariance', only=[X == 0, nr * se * se == A + C - 2 * X])
    return [(A, C, nr), out]
  return None
