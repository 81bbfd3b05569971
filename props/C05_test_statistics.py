"""Point estimates, standard errors, degrees of freedom and sample sizes."""
from props.common import *

ID = 'C05'
TITLE = 'The tests report the correct estimates, errors, degrees of freedom and sizes'
STATEMENT = (
    'The independent test estimates the difference of the two trimmed means (or of the ratios of trimmed means for a ratio metric), with the Welch standard error and degrees of freedom, or the pooled ones when equal '
    'variances are assumed; the paired test uses the trimmed mean of the per-pair differences, their standard error and n-1 degrees of freedom, and for ratio metrics the delta-method '
    'variance including every covariance. The sample size is the number of observations left after trimming, the control average is the (ratio of) trimmed mean(s) of the second sample, and '
    'all-ones denominators reproduce the plain metric. Paired samples of different lengths, or a denominator given for only one sample, are rejected.')
STATEMENT = STATEMENT.replace('plain metric. Paired', 'plain metric; paired')
QUANT = dict(over=['inputs'], text='all samples of all sizes, trimming quantiles, variance assumption, plain and ratio metrics')
WHY = 'Tests compare with scipy on one random sample per option; the formulas must hold for every data set, size pair and trimming quantile.'
ANCHORS = dict(files=['feedx/statistics.py'], mechanism=[
    dict(name='yuens_t_test_ind', where='feedx/statistics.py'), dict(name='yuens_t_test_paired', where='feedx/statistics.py'),
    dict(name='_two_sample_standard_errors', where='feedx/statistics.py'), dict(name='_difference_of_ratios_mean_and_variance', where='feedx/statistics.py')])
LEVEL_NOTE = ('Every path of both tests for all inputs, against the trimmed-array contract (C01). Assumes the denominator means used by the delta '
              'method are non-zero (the code divides by them).')
ASSUMPTIONS = ['trimmed denominator means of ratio metrics are non-zero', 'standard errors entering a quotient are positive']
CONTRACTS = []


def _subst(v):
  from props.spec import TrimmedOpaque, RelCI
  return {('statistics', 'TrimmedArray'): TrimmedOpaque, ('statistics', 'relative_difference_confidence_interval'): RelCI()}


def _ind(ratio):
  def fn(c, v):
    from props.spec import z3, And, Rt, ttest_inputs, TrimmedOpaque, npstub, as_t, SV
    st = v.mod('statistics')
    v1, v2, k = ttest_inputs(c, 'ind', ratio)
    r = st.yuens_t_test_ind(v1, v2, **k)
    q = k['trimming_quantile']
    S = []
    for a, w in ((v1, k.get('denom_values1')), (v2, k.get('denom_values2'))):
      T = TrimmedOpaque(npstub.stack([a, w]) if ratio else a, q)
      n = Rt(T.n)
      if ratio:
        m0, m1 = Rt(T.m_[0]), Rt(T.m_[1])
        va = (Rt(T.c_[(0, 0)]) - 2 * (m0 / m1) * Rt(T.c_[(0, 1)]) + (m0 / m1) * (m0 / m1) * Rt(T.c_[(1, 1)])) / (m1 * m1)
        mean = m0 / m1
      else:
        va, mean = Rt(T.c_[(0, 0)]), Rt(T.m_[0])
      S.append((mean, va, n, T.n))
    (x1, a1, n1, N1), (x2, a2, n2, N2) = S
    se, df = Rt(r.standard_error), Rt(r.degrees_of_freedom)
    c.prove(Rt(r.absolute_difference) == x1 - x2, 'difference of the means')
    c.prove(Rt(r.control_average) == x2, 'control average is the mean of the second sample')
    c.prove(as_t(r.sample_size) == as_t(N1) + as_t(N2), 'sample size after trimming')
    if k['equal_var']:
      c.prove(se * se == ((n1 - 1) * a1 + (n2 - 1) * a2) / (n1 + n2 - 2) * (1 / n1 + 1 / n2), 'pooled standard error')
      c.prove(df == n1 + n2 - 2, 'pooled degrees of freedom')
    else:
      c.prove(se * se == a1 / n1 + a2 / n2, 'Welch standard error')
      e1, e2 = a1 / n1, a2 / n2
      c.prove(df == (e1 + e2) * (e1 + e2) / (e1 * e1 / (n1 - 1) + e2 * e2 / (n2 - 1)), 'Welch degrees of freedom')
    c.prove(se >= 0, 'standard error is not negative')
  return fn


def _paired(ratio):
  def fn(c, v):
    from props.spec import z3, And, Rt, ttest_inputs, TrimmedOpaque, npstub, as_t, SV
    st = v.mod('statistics')
    v1, v2, k = ttest_inputs(c, 'paired', ratio)
    r = st.yuens_t_test_paired(v1, v2, **k)
    q = k['trimming_quantile']
    rows = [v1 - v2, v1] + ([k['denom_values1']] if ratio else []) + [v2] + ([k['denom_values2']] if ratio else [])
    T = TrimmedOpaque(npstub.stack(rows), q)
    n = Rt(T.n)
    se, df = Rt(r.standard_error), Rt(r.degrees_of_freedom)
    C = lambda i, j: Rt(T.c_[(min(i, j), max(i, j))])
    M = [Rt(x) for x in T.m_]
    c.prove(as_t(r.sample_size) == as_t(T.n), 'sample size after trimming')
    c.prove(df == n - 1, 'degrees of freedom')
    if ratio:
      g = {1: 1 / M[2], 2: -M[1] / (M[2] * M[2]), 3: -1 / M[4], 4: M[3] / (M[4] * M[4])}
      var = sum(g[i] * g[j] * C(i, j) for i in g for j in g)
      c.prove(Rt(r.absolute_difference) == M[1] / M[2] - M[3] / M[4], 'difference of the ratios')
      c.prove(Rt(r.control_average) == M[3] / M[4], 'control average is the second ratio')
      c.prove(se * se == var / n, 'delta-method standard error')
    else:
      c.prove(Rt(r.absolute_difference) == M[0], 'trimmed mean of the differences')
      c.prove(Rt(r.control_average) == M[2], 'control average is the mean of the second sample')
      c.prove(se * se == C(0, 0) / n, 'standard error of the differences')
    c.prove(se >= 0, 'standard error is not negative')
  return fn


for _r in (False, True):
  CONTRACTS.append(Contract(f'yuens_t_test_ind ({"ratio" if _r else "plain"})', _ind(_r), subst=_subst, definedness='assume'))
  CONTRACTS.append(Contract(f'yuens_t_test_paired ({"ratio" if _r else "plain"})', _paired(_r), subst=_subst, definedness='assume'))


def _subst_ones(v):
  from props.spec import TrimmedSpec, RelCI
  return {('statistics', 'TrimmedArray'): TrimmedSpec, ('statistics', 'relative_difference_confidence_interval'): RelCI()}


def _ones(kind):
  def fn(c, v):
    """trimmed statistics of an all-ones row: mean 1, no covariance with anything."""
    from props.spec import z3, And, Rt, Dom, npstub, TrimmedSpec, core
    st = v.mod('statistics')
    q = c.real('q')
    c.assume(And(q.t >= 0, q.t < 0.5))
    d = Dom.range(c.int('n').t, 'u')
    c.assume(d.card() >= 2)
    a = c.array('a', d)
    b = c.array('b', d)
    one = npstub.ones_like(a)
    T = TrimmedSpec(npstub.stack([a, one, b]), q)
    m, cv = T.mean(), T.cov(ddof=1)
    c.prove(Rt(m[1]) == 1, 'mean of ones is one')
    for i in range(3):
      c.prove(Rt(cv[1, i]) == 0, f'ones have no covariance with row {i}')
  return fn


CONTRACTS.append(Contract('all-ones denominators', _ones('ind'), definedness='assume'))


def _ones_formula(kind):
  def fn(c, v):
    """with mean 1 and no covariance the ratio test is the plain test."""
    from props.spec import z3, And, Rt, core, Arr
    st = v.mod('statistics')
    m1, m2, a, b, ab = [c.real(x) for x in ('m1', 'm2', 'va', 'vb', 'cab')]
    c.assume(And(a.t > 0, b.t > 0))
    r, va = st._ratio_mean_and_variance(mean_1=m1, mean_2=1.0, var_1=a, var_2=0.0, cov_12=0.0)
    c.prove(Rt(r) == m1.t, 'ratio mean')
    c.prove(Rt(va) == a.t, 'ratio variance')
    from engine import npstub
    M = npstub.array([m1, 1.0, m2, 1.0])
    C = npstub.array([[a, 0.0, ab, 0.0], [0.0] * 4, [ab, 0.0, b, 0.0], [0.0] * 4])
    out = st._difference_of_ratios_mean_and_variance(M, C)
    c.prove(Rt(out[0]) == m1.t - m2.t, 'difference')
    c.prove(Rt(out[1]) == a.t + b.t - 2 * ab.t, 'variance of the difference')
  return fn


CONTRACTS.append(Contract('unit denominators reduce to the plain metric', _ones_formula(0), definedness='assume'))


@contract(CONTRACTS, 'invalid arguments are rejected', subst=_subst, definedness='assume')
def _invalid(c, v):
  from props.spec import z3, And, Dom
  st = v.mod('statistics')
  k = c.decide(5)
  d1, d2 = Dom.range(c.int('n1').t, 'u'), Dom.range(c.int('n2').t, 'w')
  c.assume(And(d1.card() >= 2, d2.card() >= 2))
  a, b, w1, w2 = c.array('a', d1), c.array('b', d2), c.array('w1', d1), c.array('w2', d2)
  a2, w12 = c.array('a2', d1), c.array('w12', d1)
  if k == 0:
    c.assume(d1.card() != d2.card())
    o = c.call(st.yuens_t_test_paired, a, b, trimming_quantile=0.0)
  elif k == 1:
    o = c.call(st.yuens_t_test_paired, a, a2, trimming_quantile=0.0, denom_values1=w1)
  elif k == 2:
    o = c.call(st.yuens_t_test_paired, a, a2, trimming_quantile=0.0, denom_values2=w12)
  elif k == 3:
    o = c.call(st.yuens_t_test_ind, a, b, trimming_quantile=0.0, denom_values1=w1)
  else:
    o = c.call(st.yuens_t_test_ind, a, b, trimming_quantile=0.0, denom_values2=w2)
  c.prove(z3.BoolVal(o.raised(ValueError)), 'rejected with a ValueError')


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  for i in range(5):
    yield dict(kind='invalid', i=i)
  while True:
    c = ttest_case(rng)
    if rng.random() < 0.2:
      c['w1'], c['w2'], c['ones'] = [1.0] * len(c['v1']), [1.0] * len(c['v2']), True
    yield c


def check(case):
  import numpy as np
  from feedx import statistics as st
  from props import ref
  if case['kind'] == 'invalid':
    a, b, w = np.arange(5.0) + 1, np.arange(6.0), np.ones(5)
    f = [lambda: st.yuens_t_test_paired(a, b, trimming_quantile=0.0), lambda: st.yuens_t_test_paired(a, a * a, trimming_quantile=0.0, denom_values1=w),
         lambda: st.yuens_t_test_paired(a, a * a, trimming_quantile=0.0, denom_values2=w), lambda: st.yuens_t_test_ind(a, b, trimming_quantile=0.0, denom_values1=w),
         lambda: st.yuens_t_test_ind(b, a, trimming_quantile=0.0, denom_values2=w)][case['i']]
    try:
      f()
    except ValueError:
      return None
    return 'invalid arguments accepted'
  r = run_ttest(case)
  if r is None:
    return None
  m1, m2, se, e1, e2, corr, df, n = ref.summary(case)
  if not np.isfinite(se) or se <= 0:
    return None
  sc = abs(m1) + abs(m2) + se
  for nm, got, exp, tol in (('difference', r.absolute_difference, m1 - m2, 1e-7 * sc), ('control average', r.control_average, m2, 1e-7 * sc),
                            ('standard error', r.standard_error, se, 1e-6 * se + 1e-9 * sc), ('sample size', r.sample_size, n, 0),
                            ('degrees of freedom', r.degrees_of_freedom, df, 1e-5 * abs(df))):
    if not abs(got - exp) <= tol:
      return f'{nm} {got}, expected {exp}'
  if case.get('ones'):
    p = run_ttest(dict(case, w1=None, w2=None))
    for f in ('p_value', 'statistic', 'absolute_difference_lower_bound', 'absolute_difference_upper_bound'):
      if not close(getattr(r, f), getattr(p, f), 1e-5, 1e-7 * sc):
        return f'unit denominators change {f}: {getattr(r, f)} vs {getattr(p, f)}'
  return None
