"""p-values, significance flags and absolute confidence intervals agree."""
from props.common import *

ID = 'C03'
TITLE = 'The p-value, the significance flag and the absolute interval always agree'
STATEMENT = (
    'For every test (paired or independent, plain or ratio metric) and every alternative, the p-value is the Student-t tail probability of '
    'the point estimate over its standard error in the direction of the alternative, the result is significant exactly when p < alpha, and exactly then the '
    'absolute confidence interval excludes zero. The interval always has the shape of the alternative (finite on both sides, or infinite '
    'on the side the alternative points to: above for greater, below for less), is centred on the point estimate when two-sided, and contains the point estimate for every alpha up to one half, '
    'and an unknown alternative is rejected.')
QUANT = dict(over=['inputs'], text='every sample, quantile, alpha in (0,1), alternative, variance assumption; plain and ratio metrics')
WHY = 'Tests compare a few fixed numbers; the agreement between three separately computed quantities must hold for all data and alphas.'
ANCHORS = dict(files=['feedx/statistics.py'], mechanism=[
    dict(name='ttest_from_stats', where='feedx/statistics.py'),
    dict(name='absolute_difference_confidence_interval', where='feedx/statistics.py'),
    dict(name='yuens_t_test_ind', where='feedx/statistics.py'), dict(name='yuens_t_test_paired', where='feedx/statistics.py')])
LEVEL_NOTE = ('All paths of the t-test functions verified for all inputs, against the trimmed-array contract (C01) and axioms of the Student-t '
              'distribution (strictly increasing, symmetric cdf; ppf its inverse). Positive standard error assumed; a constant sample (or ratio) is covered.')
TRUSTED = ['Student-t cdf: strictly increasing, symmetric, in (0,1); ppf is its inverse']
ASSUMPTIONS = ['the standard error of the difference is positive (non-degenerate data)']
CONTRACTS = []


def _ttest(c, v):
  from props.spec import z3, And, Rt, TCDF, If
  st = v.mod('statistics')
  alt = (ALTS + ['one-sided'])[c.decide(4)]
  pe, se, df = c.real('pe'), c.real('se'), c.real('df')
  c.assume(And(se.t > 0, df.t > 0))
  o = c.call(st.ttest_from_stats, pe, se, df, alt)
  if alt == 'one-sided':
    c.prove(z3.BoolVal(o.raised(ValueError)), 'unknown alternative rejected')
    return
  s, p = o.value
  c.prove(Rt(s) == pe.t / se.t, 'statistic = estimate / standard error')
  T = lambda x: TCDF(x, df.t)
  if alt == 'greater':
    c.prove(Rt(p) == 1 - T(Rt(s)), 'p is the upper tail')
  elif alt == 'less':
    c.prove(Rt(p) == T(Rt(s)), 'p is the lower tail')
  else:
    c.prove(Rt(p) == If(Rt(s) > 0, 2 * (1 - T(Rt(s))), 2 * T(Rt(s))), 'p is the sum of both tails')
  c.prove(And(Rt(p) > 0, Rt(p) <= 1), 'p in (0, 1]')


CONTRACTS.append(Contract('ttest_from_stats', _ttest))


def _shape(c, lo, hi, alt, diff, al, known=None):
  from props.spec import z3, And, Or, Not, Implies, Rt, is_pinf, is_ninf, finite
  if alt == 'two-sided':
    c.prove(z3.BoolVal(finite(lo) and finite(hi)), 'two-sided interval is finite')
    if finite(lo) and finite(hi):
      c.prove(Rt(lo) + Rt(hi) == 2 * diff, 'two-sided interval is centred on the estimate')
      c.prove(And(Rt(lo) <= diff, diff <= Rt(hi)), 'interval contains the estimate', only=known)
  elif alt == 'greater':
    c.prove(z3.BoolVal(finite(lo) and is_pinf(hi)), 'interval is unbounded above')
    if finite(lo):
      c.prove(Implies(al <= 0.5, Rt(lo) <= diff), 'interval contains the estimate', only=known)
  else:
    c.prove(z3.BoolVal(is_ninf(lo) and finite(hi)), 'interval is unbounded below')
    if finite(hi):
      c.prove(Implies(al <= 0.5, diff <= Rt(hi)), 'interval contains the estimate', only=known)


def _ci(c, v):
  from props.spec import z3, And, Or, Rt, core, excludes_zero, B_
  st = v.mod('statistics')
  alt = (ALTS + ['one-sided'])[c.decide(4)]
  m1, m2, s1, s2, corr, df, al = [c.real(x) for x in 'm1 m2 s1 s2 corr df alpha'.split()]
  c.assume(And(s1.t >= 0, s2.t >= 0, corr.t >= -1, corr.t <= 1, df.t > 0, al.t > 0, al.t < 1))
  se = core.sym_sqrt(s1 * s1 + s2 * s2 - 2 * s1 * s2 * corr)
  c.assume(se.t > 0)
  k = dict(mean_1=m1, mean_2=m2, standard_error_1=s1, standard_error_2=s2, corr=corr, degrees_of_freedom=df, alternative=alt, alpha=al)
  o = c.call(st.absolute_difference_confidence_interval, **k)
  if alt == 'one-sided':
    c.prove(z3.BoolVal(o.raised(ValueError)), 'unknown alternative rejected')
    return
  lo, hi = o.value
  _, p = st.ttest_from_stats(m1 - m2, se, df, alt)
  c.prove(B_(p < al) == excludes_zero(lo, hi), 'p < alpha exactly when the interval excludes zero')
  _shape(c, lo, hi, alt, m1.t - m2.t, al.t)


CONTRACTS.append(Contract('absolute_difference_confidence_interval', _ci))


def _subst(v):
  from props.spec import TrimmedOpaque, RelCI
  return {('statistics', 'TrimmedArray'): TrimmedOpaque, ('statistics', 'relative_difference_confidence_interval'): RelCI()}


def _full(kind, ratio):
  def fn(c, v):
    from props.spec import z3, And, Or, Not, Rt, core, excludes_zero, B_, ttest_inputs, TCDF, If, as_t, constant_ratio
    st = v.mod('statistics')
    v1, v2, k = ttest_inputs(c, kind, ratio)
    al, alt = k['alpha'].t, k['alternative']
    r = getattr(st, 'yuens_t_test_' + kind)(v1, v2, **k)
    se, df = Rt(r.standard_error), Rt(r.degrees_of_freedom)
    diff, s, p = Rt(r.absolute_difference), Rt(r.statistic), Rt(r.p_value)
    c.assume(And(se > 0, df > 0))
    T = lambda x: TCDF(x, df)
    c.lemma(s * se == diff, 'statistic = reported difference / reported standard error')
    c.prove(p == {'greater': 1 - T(s), 'less': T(s), 'two-sided': If(s > 0, 2 * (1 - T(s)), 2 * T(s))}[alt], 'p-value is the tail of the alternative', only=[df > 0])
    c.prove(B_(r.is_significant) == (p < al), 'significant exactly when p < alpha')
    lo, hi = r.absolute_difference_lower_bound, r.absolute_difference_upper_bound
    known = [se > 0, df > 0, al > 0, al < 1, s * se == diff]
    if kind == 'paired' and ratio:
      const = constant_ratio(c, se)
      if const is not None:
        (A, C, n), hy = const
        for x, sq in list(c.data.get('roots', [])):
          if core.sym_sqrt_arg(x) is not None and any(core.occurs(as_t(b), x) for b in (lo, hi) if isinstance(b, core.SV)):
            c.lemma(n * sq == A + C, 'square of the standard error')
            c.lemma(x == se, 'the interval uses the standard error', only=hy + [n * sq == A + C, x >= 0, x * x == sq, se > 0])
            known.append(x == se)
    c.prove((p < al) == excludes_zero(lo, hi), 'significant exactly when the interval excludes zero', only=known)
    _shape(c, lo, hi, alt, diff, al, known)
    c.prove(Rt(r.alpha) == al, 'alpha reported')
  return fn


for _k in ('ind', 'paired'):
  for _r in (False, True):
    CONTRACTS.append(Contract(f'yuens_t_test_{_k} ({"ratio" if _r else "plain"})', _full(_k, _r), subst=_subst, definedness='assume'))


def cases(rng):
  from props.common import ttest_case
  yield dict(kind='bad')
  while True:
    yield ttest_case(rng)
    if rng.random() < 0.3:
      yield dict(kind='stats', pe=rng.choice([0.0, rng.gauss(0, 1), rng.gauss(0, 5)]), se=rng.choice([1.0, 0.1, rng.random() + 0.01]), df=rng.choice([0.5, 1, 2.7, 30, 400, 999.5, 1500, 20000]), alternative=rng.choice(ALTS))


def check(case):
  import math
  import numpy as np
  from scipy import stats
  from feedx import statistics as st
  if case['kind'] == 'bad':
    for f in (lambda: st.ttest_from_stats(1.0, 1.0, 5, 'both'),
              lambda: st.absolute_difference_confidence_interval(mean_1=1.0, mean_2=1.0, standard_error_1=1.0, standard_error_2=1.0, corr=0.0,
                                                                 degrees_of_freedom=5, alternative='both')):
      try:
        f()
      except ValueError:
        continue
      return 'unknown alternative accepted'
    return None
  if case['kind'] == 'stats':
    alt, df = case['alternative'], case['df']
    s, p = st.ttest_from_stats(case['pe'], case['se'], df, alt)
    e = case['pe'] / case['se']
    q = {'greater': stats.t.sf(e, df), 'less': stats.t.cdf(e, df), 'two-sided': 2 * stats.t.sf(abs(e), df)}[alt]
    return None if close(s, e) and abs(p - q) <= 1e-9 * q + 1e-14 else f'statistic {s}, p-value {p} instead of {e}, {q}'
  r = run_ttest(case)
  if r is None:
    return None
  al, alt = case['alpha'], case['alternative']
  se, df, diff = r.standard_error, r.degrees_of_freedom, r.absolute_difference
  if not (np.isfinite(se) and se > 1e-9 and np.isfinite(df) and df > 0):
    return None
  s = diff / se
  if not close(r.statistic, s):
    return f'statistic {r.statistic} != {s}'
  p = {'greater': stats.t.sf(s, df), 'less': stats.t.cdf(s, df), 'two-sided': 2 * stats.t.sf(abs(s), df)}[alt]
  if not close(r.p_value, p, 1e-6):
    return f'p-value {r.p_value} expected {p}'
  if abs(p - al) < 1e-6 * al:
    return None
  if bool(r.is_significant) != (r.p_value < al):
    return 'is_significant disagrees with p < alpha'
  lo, hi = r.absolute_difference_lower_bound, r.absolute_difference_upper_bound
  crit = stats.t.ppf(1 - al / (2 if alt == 'two-sided' else 1), df)
  elo = -math.inf if alt == 'less' else diff - crit * se
  ehi = math.inf if alt == 'greater' else diff + crit * se
  tol = 1e-6 * (abs(diff) + abs(crit) * se)
  for g, e, nm in ((lo, elo, 'lower'), (hi, ehi, 'upper')):
    if (math.isinf(e) and g != e) or (not math.isinf(e) and not abs(g - e) <= tol):
      return f'{nm} bound {g} expected {e}'
  if bool(r.is_significant) != (lo > 0 or hi < 0) and min(abs(lo), abs(hi)) > tol:
    return f'significant={r.is_significant} but interval [{lo}, {hi}]'
  if r.alpha != al:
    return 'alpha not reported'
  return None
