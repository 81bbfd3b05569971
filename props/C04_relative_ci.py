"""Relative (Fieller) confidence interval."""
from props.common import *

ID = 'C04'
TITLE = 'The relative confidence interval is a valid Fieller interval around the estimate'
STATEMENT = (
    'For non-negative means, the reported relative confidence interval always contains the reported relative difference (mean of group 1 over mean of group 2, minus one), never goes '
    'below -100%, is never NaN or inverted, has the shape of the alternative (upper bound infinite for greater, lower bound -100% for less), is scale free, '
    'and, when the denominator mean is clearly non-zero, its finite bounds solve the Fieller equation and it excludes zero exactly when the absolute interval does. '
    'It is computed from the same means, standard errors, correlation, degrees of freedom and alpha as the test itself, and the relative results are all empty exactly when '
    'either mean is negative or the control mean is zero.')
QUANT = dict(over=['inputs'], text='every pair of non-negative means, standard errors, correlation strictly inside (-1,1), degrees of freedom, alpha, alternative')
WHY = 'The interval has three algebraic regimes selected by data; examples pick one point in each and cannot show that no data gives an interval that excludes its own estimate.'
ANCHORS = dict(files=['feedx/statistics.py'], mechanism=[
    dict(name='relative_difference_confidence_interval', where='feedx/statistics.py'),
    dict(name='yuens_t_test_ind', where='feedx/statistics.py'), dict(name='yuens_t_test_paired', where='feedx/statistics.py')])
LEVEL_NOTE = ('Every path of the relative interval and the part of both t-tests that calls it, for all inputs over the reals. Excludes the measure-zero '
              'boundary where mean_2^2 equals crit^2 * var_2 exactly (division by zero) and correlation exactly +-1. Both tests are shown to be defined (no division by zero, '
              'root of a negative number or invalid quantile) whenever ratio denominators have a mean other than zero and the standard error is not zero.')
TRUSTED = ['Student-t cdf: strictly increasing, symmetric, in (0,1); ppf is its inverse']
ASSUMPTIONS = ['mean_2^2 != crit^2 * var_2 (the code divides by the difference)', '|correlation| < 1']
CONTRACTS = []


def _setup(c, extra_alt=False):
  from props.spec import And, TPPF, z3
  alts = ALTS + (['one-sided'] if extra_alt else [])
  alt = alts[c.decide(len(alts))]
  m1, m2, s1, s2, corr, df, al = [c.real(x) for x in 'm1 m2 s1 s2 corr df alpha'.split()]
  c.assume(And(s1.t >= 0, s2.t >= 0, corr.t > -1, corr.t < 1, df.t > 0, al.t > 0, al.t < 1))
  return alt, m1, m2, s1, s2, corr, df, al


@contract(CONTRACTS, 'inputs are validated', definedness='assume')
def _valid(c, v):
  from props.spec import And, Or, Not, z3
  st = v.mod('statistics')
  alt, m1, m2, s1, s2, corr, df, al = _setup(c, True)
  o = c.call(st.relative_difference_confidence_interval, mean_1=m1, mean_2=m2, standard_error_1=s1, standard_error_2=s2, corr=corr,
             degrees_of_freedom=df, alternative=alt, alpha=al)
  bad = z3.BoolVal(True) if alt == 'one-sided' else Or(m1.t < 0, m2.t < 0)
  c.prove(z3.BoolVal(o.raised(ValueError)) == bad, 'rejected exactly for negative means or an unknown alternative')


def _interval(alt):
  def fn(c, v):
    from props.spec import And, Or, Not, Implies, If, z3, Rt, TPPF, is_pinf, is_ninf, finite, core, SV, B_, excludes_zero, simp
    st = v.mod('statistics')
    m1, m2, s1, s2, corr, df, al = [c.real(x) for x in 'm1 m2 s1 s2 corr df alpha'.split()]
    c.assume(And(s1.t >= 0, s2.t >= 0, corr.t > -1, corr.t < 1, df.t > 0, al.t > 0, al.t < 1, m1.t >= 0, m2.t > 0))
    t = TPPF(1 - al.t / (2 if alt == 'two-sided' else 1), df.t)
    v1, v2, v12 = s1.t * s1.t, s2.t * s2.t, s1.t * s2.t * corr.t
    A1, A2, A12 = m1.t * m1.t - t * t * v1, m2.t * m2.t - t * t * v2, m1.t * m2.t - t * t * v12
    c.assume(A2 != 0)
    det = v1 * v2 * (1 - corr.t * corr.t)
    k = dict(mean_1=m1, mean_2=m2, standard_error_1=s1, standard_error_2=s2, corr=corr, degrees_of_freedom=df, alternative=alt, alpha=al)
    o = c.call(st.relative_difference_confidence_interval, **k)
    lo, hi = o.value
    rho = m1.t / m2.t
    Q = lambda r: v1 - 2 * r * v12 + r * r * v2
    c.prove(z3.BoolVal(finite(lo)), 'lower bound is finite')
    c.prove(Rt(lo) >= -1, 'never below -100%')
    if alt == 'greater':
      c.prove(z3.BoolVal(is_pinf(hi)), 'greater: no upper bound')
    if alt == 'less':
      c.prove(Rt(lo) == -1, 'less: lower bound is -100%')
    lor, hir = simp(Rt(lo) + 1), (simp(Rt(hi) + 1) if finite(hi) else None)
    triv = z3.is_rational_value(lor)
    if triv and hir is None:
      c.prove(lor == 0, 'unbounded interval starts at -100%')
      return
    # a root of the Fieller equation is involved
    S = Rt(core.sym_sqrt(SV(A12 * A12 - A1 * A2)))
    D = A12 * A12 - A1 * A2
    q = A2 * rho * rho - 2 * A12 * rho + A1
    tt = t * t
    # the estimate satisfies the Fieller inequality q(rho) <= 0
    var = c.schema(4, lambda x, y, k, r: ([k > -1, k < 1], x * x - 2 * r * x * y * k + r * r * y * y >= 0), 'variance of a difference')
    var(s1, s2, corr, rho)
    c.lemma(q == -(tt * Q(rho)), 'lemma: the estimate solves the Fieller inequality', only=[m2.t > 0])
    neg = c.schema(3, lambda x, y, z: ([x == -(y * y * z), z >= 0], x <= 0), 'sign')
    neg(q, t, Q(rho))
    up = c.schema(5, lambda a, x, b, s, a1: ([a > 0, s >= 0, s * s == b * b - a1 * a, a * x * x - 2 * b * x + a1 <= 0],
                                             And((b - s) / a <= x, x <= (b + s) / a)), 'between the roots')
    dn = c.schema(5, lambda a, x, b, s, a1: ([a < 0, s >= 0, s * s == b * b - a1 * a, a * x * x - 2 * b * x + a1 <= 0, a1 >= 0, x >= 0, Implies(x == 0, b == 0)],
                                             (b - s) / a <= x), 'above the larger root')
    if hir is not None:
      c.lemma(hir == (A12 + S) / A2, 'upper bound is the larger Fieller root')
      c.lemma(A2 > 0, 'a finite upper bound needs a clearly positive denominator')
    if not triv:
      c.lemma(lor == If((A12 - S) / A2 >= 0, (A12 - S) / A2, 0), 'lower bound is the Fieller root, at least -100%')
    s0 = c.call(st.absolute_difference_confidence_interval, **k)
    alo, ahi = s0.value
    se = Rt(core.sym_sqrt(SV(v1 + v2 - 2 * v12)))
    diff = m1.t - m2.t
    out = {'two-sided': Or(diff > t * se, diff < -(t * se)), 'greater': diff > t * se, 'less': diff < -(t * se)}[alt]
    c.lemma(excludes_zero(alo, ahi) == out, 'lemma: absolute interval excludes zero', only=[])
    one = A2 - 2 * A12 + A1
    c.lemma(one == diff * diff - tt * (se * se), 'lemma: the Fieller inequality at no difference')
    if alt != 'two-sided':
      c.assume(al.t <= 0.5)
    c.fact(t >= 0)
    side = {'two-sided': lambda d, k_: Or(d > k_, d < -k_), 'greater': lambda d, k_: d > k_, 'less': lambda d, k_: d < -k_}[alt]
    rel = {'two-sided': lambda l, h: Or(l > 1, h < 1), 'greater': lambda l, h: l > 1, 'less': lambda l, h: h < 1}[alt]
    agree = c.schema(7, lambda a, b, a1, s, d, k_, x: (
        [a > 0, s >= 0, s * s == b * b - a1 * a, k_ >= 0, a - 2 * b + a1 == d * d - k_ * k_, (b - s) / a <= x, x <= (b + s) / a, (x > 1) == (d > 0), (x < 1) == (d < 0)],
        rel((b - s) / a, (b + s) / a) == side(d, k_)), 'agreement')
    oneway = c.schema(7, lambda a, b, a1, s, d, k_, x: (
        [a < 0, s >= 0, s * s == b * b - a1 * a, k_ >= 0, a - 2 * b + a1 == d * d - k_ * k_, (b - s) / a <= x, a1 >= 0, (x > 1) == (d > 0)],
        Implies((b - s) / a > 1, d > k_)), 'agreement when unbounded')
    rx = excludes_zero(lo, hi)
    if not c.known(A2 <= 0):
      up(A2, rho, A12, S, A1)
      if not triv:
        c.prove(lor <= rho, 'contains the estimate (lower)')
      if hir is not None:
        c.prove(rho <= hir, 'contains the estimate (upper)')
      c.lemma((rho > 1) == (diff > 0), 'lemma: direction', only=[m2.t > 0])
      c.lemma((rho < 1) == (diff < 0), 'lemma: direction', only=[m2.t > 0])
      agree(A2, A12, A1, S, diff, t * se, rho)
      c.prove(rx == excludes_zero(alo, ahi), 'excludes zero exactly when the absolute interval does')
    else:
      c.lemma(A2 <= 0, 'lemma: denominator is not clearly positive')
      c.lemma(A2 < 0, 'lemma: partially unbounded', only=[A2 <= 0, A2 != 0])
      c.lemma(A1 >= 0, 'the lower bound is above -100% only when the numerator is clearly positive')
      dn(A2, rho, A12, S, A1)
      c.prove(lor <= rho, 'contains the estimate (lower)')
      c.lemma((rho > 1) == (diff > 0), 'lemma: direction', only=[m2.t > 0])
      oneway(A2, A12, A1, S, diff, t * se, rho)
      c.prove(Implies(rx, excludes_zero(alo, ahi)), 'excludes zero only when the absolute interval does')
  return fn


for _a in ALTS:
  CONTRACTS.append(Contract(f'interval ({_a})', _interval(_a), definedness='prove'))


def _subst(v):
  from props.spec import TrimmedOpaque, RelCI
  return {('statistics', 'TrimmedArray'): TrimmedOpaque, ('statistics', 'relative_difference_confidence_interval'): RelCI()}


def _wiring(kind, ratio, alt=None):
  def fn(c, v):
    from props.spec import z3, And, Or, Not, Rt, core, ttest_inputs, constant_ratio, samples_vary
    st = v.mod('statistics')
    v1, v2, k = ttest_inputs(c, kind, ratio, alt)
    samples_vary(c, kind, ratio)
    r = getattr(st, 'yuens_t_test_' + kind)(v1, v2, **k)
    calls = c.data.get('rel_calls', [])
    m2 = Rt(r.control_average)
    m1 = m2 + Rt(r.absolute_difference)
    none = [x is None for x in (r.relative_difference, r.relative_difference_lower_bound, r.relative_difference_upper_bound)]
    c.prove(z3.BoolVal(all(none) or not any(none)), 'relative results are all present or all empty')
    c.prove(z3.BoolVal(all(none)) == Or(m1 < 0, m2 <= 0), 'relative results are empty exactly when a mean is negative or the control mean zero')
    if all(none):
      return
    c.prove(z3.BoolVal(len(calls) == 1), 'one interval is computed')
    a, lb, ub = calls[0]
    c.prove(Rt(a['mean_1']) == m1, 'same mean 1')
    c.prove(Rt(a['mean_2']) == m2, 'same mean 2')
    se = Rt(r.standard_error)
    e1, e2, rho = Rt(a['standard_error_1']), Rt(a['standard_error_2']), Rt(a['corr'])
    const = constant_ratio(c, se) if kind == 'paired' and ratio else None
    only = None
    if const is not None:
      (A, C, n), only = const
      for x, y, z in ((n * e1 * e1, A, '1'), (n * e2 * e2, C, '2'), (rho, z3.RealVal(0), 'of both')):
        c.lemma(x == y, f'standard error {z} with a constant ratio' if z != 'of both' else 'no correlation with a constant ratio')
        only.append(x == y)
    c.prove(e1 * e1 + e2 * e2 - 2 * e1 * e2 * rho == se * se, 'same standard errors and correlation', only=only)
    c.prove(Rt(a['degrees_of_freedom']) == Rt(r.degrees_of_freedom), 'same degrees of freedom')
    c.prove(Rt(a['alpha']) == k['alpha'].t, 'same alpha')
    c.prove(z3.BoolVal(a['alternative'] == k['alternative']), 'same alternative')
    c.prove(Rt(r.relative_difference) * m2 == m1 - m2, 'relative difference = difference / control mean')
    c.prove(And(Rt(r.relative_difference_lower_bound) == lb.t, Rt(r.relative_difference_upper_bound) == ub.t), 'bounds are those of the interval')
  return fn


for _k in ('ind', 'paired'):
  for _r in (False, True):
    for _a in (ALTS if _k == 'paired' and _r else [None]):
      CONTRACTS.append(Contract(f'yuens_t_test_{_k} ({"ratio" if _r else "plain"}{", " + _a if _a else ""})', _wiring(_k, _r, _a), subst=_subst))


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  for a in ALTS + ['both']:
    yield dict(kind='invalid', alternative=a)
  while True:
    if rng.random() < 0.4:
      yield dict(ttest_case(rng), call='test')
    m = rng.choice([1.0, 1.0, 1e-5, 1e4])
    yield dict(kind='interval', m1=m * rng.choice([0.0, rng.random(), 3 * rng.random(), 10 * rng.random()]), m2=m * (0.05 + 3 * rng.random()),
               s1=m * rng.choice([0.0, 0.01, 0.3, 1.0, rng.random() * 2]), s2=m * rng.choice([0.0, 0.01, 0.3, 1.0, rng.random() * 2]),
               corr=rng.choice([0.0, 0.5, -0.5, 0.9, 0.99, -0.9, rng.uniform(-0.99, 0.99)]), df=rng.choice([3, 7.5, 30, 200]),
               alternative=rng.choice(ALTS), alpha=rng.choice([0.05, 0.01, 0.2, 0.4]))


def _expected(m1, m2, s1, s2, corr, df, alt, al):
  """the Fieller set {r >= 0: (m1 - r m2)^2 <= t^2 var(r)} from its definition."""
  import math
  from scipy import stats
  t = stats.t.ppf(1 - al / (2 if alt == 'two-sided' else 1), df)
  A, B, C = m2 * m2 - t * t * s2 * s2, m1 * m2 - t * t * s1 * s2 * corr, m1 * m1 - t * t * s1 * s1
  D = B * B - A * C
  sc = m2 * m2 + t * t * s2 * s2
  if abs(A) < 1e-6 * sc or abs(D) < 1e-9 * (B * B + abs(A * C)):
    return None
  if A > 0:
    lo, hi = (B - math.sqrt(D)) / A, (B + math.sqrt(D)) / A
    lo = max(lo, 0.0)
  elif D < 0:
    lo, hi = 0.0, math.inf
  else:
    roots = sorted([(B - math.sqrt(D)) / A, (B + math.sqrt(D)) / A])
    lo, hi = (0.0 if roots[0] >= 0 or roots[1] <= 0 else roots[1]), math.inf
    if abs(C) < 1e-6 * (m1 * m1 + t * t * s1 * s1):
      return None
  lo, hi = lo - 1, hi - 1
  if alt == 'greater':
    hi = math.inf
  elif alt == 'less':
    lo = -1.0
  return lo, hi


def _cmp(got, exp, what):
  for g, e, n in zip(got, exp, ('lower', 'upper')):
    if not close(g, e, 1e-6, 1e-7):
      return f'{what}: {n} bound {g}, expected {e}'
  return None


def check(case):
  import math
  import numpy as np
  from scipy import stats
  from feedx import statistics as st
  if case['kind'] == 'invalid':
    base = dict(mean_1=1.0, mean_2=1.0, standard_error_1=.1, standard_error_2=.1, corr=0.0, degrees_of_freedom=5, alternative=case['alternative'])
    for over in ({}, dict(mean_1=-.1), dict(mean_2=-.1)):
      try:
        st.relative_difference_confidence_interval(**dict(base, **over))
        ok = True
      except ValueError:
        ok = False
      if ok != (not over and case['alternative'] in ALTS):
        return f'validation of {over} {case["alternative"]}'
    return None
  if case['kind'] == 'interval':
    with np.errstate(all='ignore'):
      got = st.relative_difference_confidence_interval(
          mean_1=case['m1'], mean_2=case['m2'], standard_error_1=case['s1'], standard_error_2=case['s2'], corr=case['corr'],
          degrees_of_freedom=case['df'], alternative=case['alternative'], alpha=case['alpha'])
    exp = _expected(case['m1'], case['m2'], case['s1'], case['s2'], case['corr'], case['df'], case['alternative'], case['alpha'])
    if exp is None:
      return None
    rel = case['m1'] / case['m2'] - 1
    if not (got[0] <= rel + 1e-7 * (1 + abs(rel)) and rel <= got[1] + 1e-7 * (1 + abs(rel))):
      return f'interval {got} excludes the estimate {rel}'
    return _cmp(got, exp, 'interval')
  r = run_ttest(case)
  if r is None:
    return None
  al, alt = case['alpha'], case['alternative']
  m2 = float(r.control_average)
  m1 = m2 + float(r.absolute_difference)
  if case.get('exact') and m2 == 0:
    rel = (r.relative_difference, r.relative_difference_lower_bound, r.relative_difference_upper_bound)
    return None if all(x is None for x in rel) else 'relative results reported for a control average of zero'
  if abs(m2) < 1e-9 or abs(m1) < 1e-9 and not (case.get('exact') and m1 == 0) or not np.isfinite(r.standard_error) or r.standard_error <= 0:
    return None
  rel = (r.relative_difference, r.relative_difference_lower_bound, r.relative_difference_upper_bound)
  if m1 < 0 or m2 < 0:
    return None if all(x is None for x in rel) else 'relative results reported for a negative mean'
  if any(x is None for x in rel):
    return 'relative results missing'
  if not close(rel[0], m1 / m2 - 1, 1e-7, 1e-9):
    return f'relative difference {rel[0]} expected {m1 / m2 - 1}'
  if not (rel[1] <= rel[0] + 1e-7 * (1 + abs(rel[0])) and rel[0] <= rel[2] + 1e-7 * (1 + abs(rel[0]))) and abs(_corr(case)[2]) < 1 - 1e-9:
    return f'interval [{rel[1]}, {rel[2]}] excludes the estimate {rel[0]}'
  e1, e2, rho = _corr(case)
  if not abs(rho) < 1 - 1e-9:
    return None
  exp = _expected(m1, m2, e1, e2, rho, r.degrees_of_freedom, alt, al)
  return None if exp is None else _cmp(rel[1:], exp, 'test')


def _corr(case):
  """standard errors and correlation of the two means, from the definition."""
  from props import ref
  return ref.means_se_corr(case)
