"""The minimum detectable effect is the effect the analysis would detect."""
from props.common import *

ID = 'C07'
TITLE = 'The minimum detectable effect matches the test the analysis will run'
STATEMENT = (
    'The minimum detectable effect is the true effect at which the planned test, with the standard error and degrees of freedom that the analysis itself would have on samples of that size and deviation '
    '(an even split of the items for the independent test, every item in both arms for the paired one), rejects with probability exactly the requested power at the requested alpha. '
    'It is positive whenever the power exceeds the one-sided error rate, proportional to the standard deviation, the same for greater and less, never larger one-sided than two-sided, '
    'grows with power, shrinks as alpha grows, and an unknown alternative is rejected.')
QUANT = dict(over=['inputs'], text='all positive standard errors / deviations, sample sizes, degrees of freedom, alpha and power in (0,1), all alternatives')
WHY = 'Tests compare a handful of fixed numbers with a formula; the meaning (detected with the requested power) and the monotonicity are statements over all inputs.'
ANCHORS = dict(files=['feedx/statistics.py'], mechanism=[
    dict(name='calculate_minimum_detectable_effect_from_stats', where='feedx/statistics.py'),
    dict(name='yuens_t_test_ind_minimum_detectable_effect', where='feedx/statistics.py'),
    dict(name='yuens_t_test_paired_minimum_detectable_effect', where='feedx/statistics.py')])
LEVEL_NOTE = ('All inputs, against axioms of the Student-t distribution. Detection probability is that of the shifted Student-t law used by the library (the exact law is a non-central t). '
              'The agreement with the analysis is proved by running the real test functions on trimmed statistics with the given deviation and comparing standard error and degrees of freedom.')
TRUSTED = ['Student-t cdf: strictly increasing, symmetric, in (0,1); ppf is its inverse']
ASSUMPTIONS = []
CONTRACTS = []


def _dist(c, n):
  se, df, pw, al = c.real('se'), c.real('df'), c.real('power'), c.real('alpha')
  from props.spec import And
  c.assume(And(se.t > 0, df.t > 0, pw.t > 0, pw.t < 1, al.t > 0, al.t < 1))
  return se, df, pw, al


@contract(CONTRACTS, 'calculate_minimum_detectable_effect_from_stats')
def _meaning(c, v):
  from props.spec import z3, And, Or, Implies, Rt, TCDF
  st = v.mod('statistics')
  se, df, pw, al = _dist(c, 1)
  alt = (ALTS + ['both'])[c.decide(4)]
  o = c.call(st.calculate_minimum_detectable_effect_from_stats, standard_error=se, degrees_of_freedom=df, alternative=alt, power=pw, alpha=al)
  if alt == 'both':
    c.prove(z3.BoolVal(o.raised(ValueError)), 'unknown alternative rejected')
    return
  m = o.value
  # estimate with true effect m: m + se*T.  The test on the side of the effect:
  # p(x) for the estimate x, significant iff p < alpha
  x = c.real('estimate')
  a_ = 'greater' if alt != 'two-sided' else alt
  _, p = st.ttest_from_stats(x, se, df, a_)
  from engine.core import SV
  T = lambda u: TCDF(u, df.t)
  # significance in the direction of the effect  <=>  (estimate - m)/se > m-dependent threshold u
  z = Rt(m) / se.t
  # the estimate's noise quantile at which it just is significant has upper tail = power
  u = (x.t - Rt(m)) / se.t
  c.prove(Implies(x.t > 0, (Rt(p) < al.t) == (T(u) > 1 - pw.t)), 'the significant estimates are exactly the upper power-fraction of outcomes under that effect')
  rate = al.t / 2 if alt == 'two-sided' else al.t
  c.prove(Implies(pw.t > rate, Rt(m) > 0), 'positive when the power exceeds the error rate')


@contract(CONTRACTS, 'minimum detectable effect: relations')
def _relations(c, v):
  from props.spec import z3, And, Or, Implies, Rt, TCDF
  st = v.mod('statistics')
  se, df, pw, al = _dist(c, 1)
  k, pw2, al2 = c.real('k'), c.real('power2'), c.real('alpha2')
  c.assume(And(k.t > 0, pw2.t > pw.t, pw2.t < 1, al2.t > al.t, al2.t < 1))
  f = lambda alt, s=se, p=pw, a=al: Rt(st.calculate_minimum_detectable_effect_from_stats(standard_error=s, degrees_of_freedom=df, alternative=alt, power=p, alpha=a))
  c.prove(f('greater') == f('less'), 'same for greater and less')
  c.prove(f('greater') <= f('two-sided'), 'one-sided never larger than two-sided')
  for alt in ALTS:
    c.prove(f(alt, s=se * k) == k.t * f(alt), f'proportional to the standard error ({alt})')
    c.prove(f(alt, p=pw2) > f(alt), f'grows with power ({alt})')
    c.prove(f(alt, a=al2) < f(alt), f'shrinks with alpha ({alt})')


def _subst(v):
  from engine import core, npstub

  class Scripted:
    """trimmed statistics given by the contract (winsorized variances, size)."""

    def __init__(self, values, quantile):
      self.n, self.m, self.c = core.ctx().data['script'].pop(0)

    def _len(self):
      return self.n

    def __len__(self):
      return self.n

    def mean(self):
      return npstub.array(list(self.m)) if len(self.m) > 1 else self.m[0]

    def cov(self, ddof=0):
      assert ddof == 1
      return npstub.array([list(r) for r in self.c]) if len(self.m) > 1 else self.c[0][0]

    def var(self, ddof=0):
      assert ddof == 1
      return npstub.array([self.c[i][i] for i in range(len(self.m))]) if len(self.m) > 1 else self.c[0][0]

    def std(self, ddof=0):
      return npstub.sqrt(self.var(ddof=ddof))

  class Mde:
    """records the call of the (separately verified) formula."""

    def __call__(self, standard_error, degrees_of_freedom, alternative, power=0.8, alpha=0.05):
      core.ctx().data.setdefault('mde', []).append((standard_error, degrees_of_freedom, alternative, power, alpha))
      return core.ctx().real('mde_result')
  from props.spec import RelCI
  return {('statistics', 'TrimmedArray'): Scripted, ('statistics', 'calculate_minimum_detectable_effect_from_stats'): Mde(),
          ('statistics', 'relative_difference_confidence_interval'): RelCI()}


def _same(kind):
  def fn(c, v):
    from props.spec import z3, And, Rt, as_t, ToReal, core, Dom
    st = v.mod('statistics')
    half = c.int('half_n')
    n = half * 2 if kind == 'ind' else c.int('n_items')
    sd, pw, al = c.real('sd'), c.real('power'), c.real('alpha')
    c.assume(And(half.t >= 2, as_t(n) >= 2, sd.t > 0, pw.t > 0, pw.t < 1, al.t > 0, al.t < 1))
    alt = ALTS[c.decide(3)]
    name = f'yuens_t_test_{kind}_minimum_detectable_effect'
    a = dict(sample_size=n, alternative=alt, power=pw, alpha=al)
    a['standard_deviation' if kind == 'ind' else 'difference_standard_deviation'] = sd
    r = getattr(st, name)(**a)
    c.prove(z3.BoolVal(len(c.data['mde']) == 1), 'the formula is used')
    se, df, al2, p2, a2 = c.data['mde'][0]
    c.prove(Rt(r) == z3.Real('mde_result'), 'its result is returned')
    c.prove(And(z3.BoolVal(al2 == alt), Rt(p2) == pw.t, Rt(a2) == al.t), 'alternative, power and alpha passed on')
    # the analysis on samples with these statistics
    m = [c.real(f'm{i}') for i in range(3)]
    if kind == 'ind':
      eq = bool(c.decide(2))
      c.data['script'] = [(half, [m[0]], [[sd * sd]]), (half, [m[1]], [[sd * sd]])]
      t = st.yuens_t_test_ind(c.array('v1', Dom.range(half.t, 'u')), c.array('v2', Dom.range(half.t, 'w')), trimming_quantile=0.0, equal_var=eq, alternative=alt, alpha=al)
    else:
      v1, v2, cov = c.real('var1'), c.real('var2'), c.real('cov12')
      c.assume(And(v1.t > 0, v2.t > 0, v1.t + v2.t - 2 * cov.t == sd.t * sd.t))
      z = c.real('z')
      c.data['script'] = [(n, [m[0] - m[1], m[0], m[1]], [[sd * sd, z, z], [z, v1, cov], [z, cov, v2]])]
      d = Dom.range(as_t(n), 'u')
      t = st.yuens_t_test_paired(c.array('v1', d), c.array('v2', d), trimming_quantile=0.0, alternative=alt, alpha=al)
    c.prove(Rt(t.standard_error) == Rt(se), 'same standard error as the analysis')
    c.prove(Rt(t.degrees_of_freedom) == Rt(df), 'same degrees of freedom as the analysis')
    c.prove(Rt(t.sample_size) == Rt(n), 'same total sample size as the analysis')
  return fn


for _k in ('ind', 'paired'):
  CONTRACTS.append(Contract(f'yuens_t_test_{_k}_minimum_detectable_effect', _same(_k), subst=_subst, definedness='assume'))


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  yield dict(kind='bad')
  while True:
    yield dict(kind=rng.choice(['stats', 'ind', 'paired']), se=10 ** rng.uniform(-4, 4), df=rng.choice([1, 2.5, 7, 30, 400, 1e5]),
               n=rng.choice([4, 5, 9, 51, 400, 1001]), sd=10 ** rng.uniform(-4, 4), alt=rng.choice(ALTS),
               power=rng.choice([0.02, 0.2, 0.5, 0.8, 0.9, 0.99]), alpha=rng.choice([0.001, 0.01, 0.05, 0.1, 0.3, 0.6]))


def check(case):
  from scipy import stats
  from feedx import statistics as st
  if case['kind'] == 'bad':
    for f, k in ((st.calculate_minimum_detectable_effect_from_stats, dict(standard_error=1.0, degrees_of_freedom=5)),
                 (st.yuens_t_test_ind_minimum_detectable_effect, dict(standard_deviation=1.0, sample_size=10)),
                 (st.yuens_t_test_paired_minimum_detectable_effect, dict(difference_standard_deviation=1.0, sample_size=10))):
      try:
        f(alternative='both', **k)
      except ValueError:
        continue
      return f'{f.__name__}: unknown alternative accepted'
    return None
  alt, pw, al = case['alt'], case['power'], case['alpha']
  if case['kind'] == 'stats':
    se, df = case['se'], case['df']
    m = st.calculate_minimum_detectable_effect_from_stats(se, df, alt, pw, al)
  elif case['kind'] == 'ind':
    # two samples of n/2 with deviation sd: the analysis' own standard error
    n = case['n']
    se, df = case['sd'] * (4.0 / n) ** 0.5, n - 2
    if df <= 0:
      return None
    m = st.yuens_t_test_ind_minimum_detectable_effect(standard_deviation=case['sd'], sample_size=n, alternative=alt, power=pw, alpha=al)
  else:
    n = case['n']
    se, df = case['sd'] / n ** 0.5, n - 1
    m = st.yuens_t_test_paired_minimum_detectable_effect(difference_standard_deviation=case['sd'], sample_size=n, alternative=alt, power=pw, alpha=al)
  crit = stats.t.ppf(1 - (al / 2 if alt == 'two-sided' else al), df)
  power = stats.t.sf(crit - m / se, df)
  if not abs(power - pw) < 1e-6:
    return f'{case}: an effect of {m} is detected with probability {power}, not {pw}'
  return None
