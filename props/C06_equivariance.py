"""Units, baselines and group order do not change the conclusions."""
from props.common import *

ID = 'C06'
TITLE = 'Changing units, shifting or swapping the samples transforms results exactly'
STATEMENT = (
    'Measuring a metric in other units (multiplying both samples by a positive constant, and denominators by another) leaves the p-value, statistic, degrees of freedom, significance and relative '
    'results unchanged and multiplies the absolute difference, its bounds, the standard error and the control average by the constant. Adding the same constant to both samples of a plain metric changes only '
    'the averages (and the relative results), and exchanging the two samples negates the difference and the statistic, keeps the standard error and degrees of freedom, swaps and negates the interval bounds and '
    'exchanges the alternatives greater and less.')
QUANT = dict(over=['inputs'], text='all samples, all positive unit changes, all shifts, all quantiles, both tests, plain and ratio metrics')
WHY = 'These are relations between two runs on related data; the tests only ever check single runs on fixed data.'
ANCHORS = dict(files=['feedx/statistics.py'], mechanism=[
    dict(name='yuens_t_test_ind', where='feedx/statistics.py'), dict(name='yuens_t_test_paired', where='feedx/statistics.py'),
    dict(name='TrimmedArray', where='feedx/statistics.py')])
LEVEL_NOTE = ('Two-level proof: the trimmed statistics transform as stated (over the trimmed-array contract of C01), and both tests transform as stated given statistics that do. '
              'Swapping with trimming assumes distinct values (ties may be trimmed either way). The scale freedom of the relative interval itself follows from its closed form, proved in C04; here its arguments are shown to scale.')
ASSUMPTIONS = ['trimmed denominators means non-zero', 'distinct values when samples are swapped under trimming']
CONTRACTS = []


def _stats(kind):
  def fn(c, v):
    from props.spec import z3, And, Rt, Dom, npstub, TrimmedSpec, ToReal, Implies
    from engine.core import SV
    q = c.real('q')
    c.assume(And(q.t >= 0, q.t < 0.5))
    d = Dom.range(c.int('n').t, 'u')
    c.assume(d.card() >= 2)
    rows = [c.array(x, d) for x in 'abe']
    if kind == 'scale':
      k = [c.real(x) for x in ('k0', 'k1', 'k2')]
      c.assume(k[0].t > 0)
      new = [r * s for r, s in zip(rows, k)]
      m_ = lambda r, x: k[r].t * x
      c_ = lambda r, s, x: k[r].t * k[s].t * x
    elif kind == 'shift':
      k = [c.real(x) for x in ('k0', 'k1', 'k2')]
      new = [r + s for r, s in zip(rows, k)]
      m_ = lambda r, x: x + k[r].t
      c_ = lambda r, s, x: x
    else:
      c.data['no_ties'] = True
      new = [-rows[0], rows[1], rows[2]]
      sg = [-1, 1, 1]
      m_ = lambda r, x: sg[r] * x
      c_ = lambda r, s, x: sg[r] * sg[s] * x
    T, U = TrimmedSpec(npstub.stack(rows), q), TrimmedSpec(npstub.stack(new), q)
    mt, mu, ct, cu = T.mean(), U.mean(), T.cov(ddof=1), U.cov(ddof=1)
    c.prove(T.m.t == U.m.t, 'same number of samples kept')
    for r in range(3):
      c.prove(Rt(mu[r]) == m_(r, Rt(mt[r])), f'mean of row {r}')
      for s in range(r, 3):
        c.prove(Rt(cu[r, s]) == c_(r, s, Rt(ct[r, s])), f'covariance of rows {r}, {s}')
  return fn


for _k in ('scale', 'shift', 'negate'):
  CONTRACTS.append(Contract(f'trimmed statistics ({_k})', _stats(_k), definedness='assume'))


def _scripted(v):
  from props.spec import RelCI
  from engine import core, npstub

  class Scripted:
    """a trimmed array whose statistics are given (the contract of C01/C06)."""

    def __init__(self, values, quantile):
      self.n, self.m, self.c = core.ctx().data['script'].pop(0)

    def _len(self):
      return self.n

    def __len__(self):
      return self.n

    def mean(self):
      return npstub.array(list(self.m)) if len(self.m) > 1 else self.m[0]

    def cov(self, ddof=0):
      assert ddof == 1
      return npstub.array([list(r) for r in self.c]) if len(self.m) > 1 else self.c[0][0]

    def var(self, ddof=0):
      assert ddof == 1
      return npstub.array([self.c[i][i] for i in range(len(self.m))]) if len(self.m) > 1 else self.c[0][0]

    def std(self, ddof=0):
      return npstub.sqrt(self.var(ddof=ddof))

  return {('statistics', 'TrimmedArray'): Scripted, ('statistics', 'relative_difference_confidence_interval'): RelCI()}


def _gen(c, rows, tag):
  from props.spec import And
  m = [c.real(f'm{tag}{i}') for i in range(rows)]
  C = [[None] * rows for _ in range(rows)]
  for i in range(rows):
    for j in range(i, rows):
      C[i][j] = C[j][i] = c.real(f'c{tag}{i}{j}')
    c.assume(C[i][i].t > 0)
  n = c.int(f'n{tag}')
  c.assume(n.t >= 2)
  return n, m, C


def _sub(st, perm, sg, k, sh):
  """statistics after permuting rows, with signs, scales and shifts."""
  n, m, C = st
  f = [sg[i] * k[i] for i in range(len(m))]
  return (n, [f[i] * m[p] + sh[i] for i, p in enumerate(perm)],
          [[f[i] * f[j] * C[p][q] for j, q in enumerate(perm)] for i, p in enumerate(perm)])


def _test(kind, ratio, tr, only=None):
  def fn(c, v):
    from props.spec import z3, And, Rt, ttest_inputs, core, eqs, is_pinf, is_ninf, finite, as_t, TCDF
    st = v.mod('statistics')
    v1, v2, kw = ttest_inputs(c, kind, ratio, only)
    k, j, s = c.real('k'), c.real('j'), c.real('s')
    c.assume(And(k.t > 0, j.t > 0))
    if kind == 'ind':
      S = [_gen(c, 2 if ratio else 1, x) for x in 'ab']
      if tr == 'swap':
        S2 = [S[1], S[0]]
      else:
        ks, sh = ([k, j], [0, 0]) if tr == 'scale' else ([1, 1], [s, s])
        S2 = [_sub(x, range(len(x[1])), [1] * 2, ks, sh) for x in S]
    else:
      x = _gen(c, 5 if ratio else 3, 'a')
      n, m, C = x
      # the first row is the difference of the value rows (linearity contract)
      a, b = (1, 3) if ratio else (1, 2)
      m[0] = m[a] - m[b]
      C[0][0] = C[a][a] + C[b][b] - 2 * C[a][b]
      for u in range(1, len(m)):
        C[0][u] = C[u][0] = C[a][u] - C[b][u]
      S = [x]
      if tr == 'swap':
        perm = [0, 3, 4, 1, 2] if ratio else [0, 2, 1]
        S2 = [_sub(x, perm, [-1] + [1] * 4, [1] * 5, [0] * 5)]
      elif tr == 'scale':
        S2 = [_sub(x, range(len(m)), [1] * 5, [k, k, j, k, j] if ratio else [k] * 3, [0] * 5)]
      else:
        S2 = [_sub(x, range(len(m)), [1] * 5, [1] * 5, [0, s, s])]
    for y in S + S2:
      if ratio:
        for t in ((y[1][2], y[1][4]) if kind == 'paired' else (y[1][1],)):   # denominators
          c.assume(Rt(t) != 0)
    c.data['script'] = list(S)
    test = getattr(st, 'yuens_t_test_' + kind)
    if tr == 'scale':
      u = k.t / j.t if ratio else k.t
      c.data['scale_hints'] = [u, u * u]
    r1 = test(v1, v2, **kw)
    kw2 = dict(kw)
    if tr == 'swap':
      kw2['alternative'] = {'greater': 'less', 'less': 'greater'}.get(kw['alternative'], kw['alternative'])
    c.data['script'] = list(S2)
    r2 = test(v1, v2, **kw2)
    f = {'scale': k.t / (j.t if ratio else 1), 'shift': z3.RealVal(1), 'swap': z3.RealVal(-1)}[tr]
    af = f if tr == 'scale' else z3.RealVal(1)
    c.assume(Rt(r1.standard_error) > 0)
    c.prove(Rt(r2.absolute_difference) == f * Rt(r1.absolute_difference), 'difference')
    c.lemma(Rt(r2.standard_error) == af * Rt(r1.standard_error), 'standard error')
    c.lemma(Rt(r2.degrees_of_freedom) == Rt(r1.degrees_of_freedom), 'degrees of freedom')
    c.prove(as_t(r2.sample_size) == as_t(r1.sample_size), 'sample size')
    sg = -1 if tr == 'swap' else 1
    c.lemma(Rt(r2.statistic) == sg * Rt(r1.statistic), 'statistic')
    if tr == 'scale':
      c.prove(Rt(r2.control_average) == f * Rt(r1.control_average), 'control average')
    if tr == 'shift':
      c.prove(Rt(r2.control_average) == Rt(r1.control_average) + s.t, 'control average')
    c.prove(Rt(r2.p_value) == Rt(r1.p_value), 'p-value')
    c.prove(as_t(r2.is_significant) == as_t(r1.is_significant), 'significance')
    lo1, hi1, lo2, hi2 = (r1.absolute_difference_lower_bound, r1.absolute_difference_upper_bound,
                          r2.absolute_difference_lower_bound, r2.absolute_difference_upper_bound)
    if tr == 'swap':
      lo1, hi1 = -hi1, -lo1
      g = z3.RealVal(1)
    else:
      g = af
    for x1, x2, nm in ((lo1, lo2, 'lower'), (hi1, hi2, 'upper')):
      if finite(x1) and finite(x2):
        c.prove(Rt(x2) == g * Rt(x1), f'{nm} bound')
      else:
        c.prove(z3.BoolVal(not isinstance(x1, core.SV) and not isinstance(x2, core.SV) and x1 == x2), f'{nm} bound')
    if tr == 'scale':
      c.prove(z3.BoolVal((r1.relative_difference is None) == (r2.relative_difference is None)), 'relative results present')
      if r1.relative_difference is not None and r2.relative_difference is not None:
        c.prove(Rt(r2.relative_difference) == Rt(r1.relative_difference), 'relative difference')
        (a1, _, _), (a2, _, _) = c.data['rel_calls']
        for nm in ('mean_1', 'mean_2', 'standard_error_1', 'standard_error_2'):
          c.prove(Rt(a2[nm]) == f * Rt(a1[nm]), f'relative interval: {nm} scales')
        for nm in ('corr', 'degrees_of_freedom', 'alpha'):
          c.prove(Rt(a2[nm]) == Rt(a1[nm]), f'relative interval: same {nm}')
  return fn


for _k in ('ind', 'paired'):
  for _r in (False, True):
    for _t in ('scale', 'shift', 'swap'):
      if _r and _t == 'shift':
        continue
      for _a in (ALTS if _k == 'paired' and _r else [None]):
        CONTRACTS.append(Contract(f'yuens_t_test_{_k} ({"ratio" if _r else "plain"}, {_t}{", " + _a if _a else ""})', _test(_k, _r, _t, _a), subst=_scripted, definedness='assume'))


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    c = ttest_case(rng)
    c['op'] = rng.choice(['scale', 'swap'] + ([] if c['w1'] else ['shift']))
    c['k'] = rng.choice([2.0, 1e-6, 1e6, 0.37, 1024.0])
    c['j'] = rng.choice([1.0, 2.0, 1e-4, 1e4])
    c['s'] = rng.choice([1.0, -3.0, 100.0]) * (abs(c['v1'][0]) + 1e-3)
    if c.get('exact'):  # keep the constants exact
      c['k'], c['j'], c['s'] = rng.choice([2.0, 1024.0, 2.0 ** -20]), rng.choice([1.0, 2.0, 2.0 ** 13]), rng.choice([1.0, -3.0, 64.0])
    yield c


def check(case):
  import numpy as np
  op = case['op']
  r = run_ttest(case)
  if r is None or not np.isfinite(r.standard_error) or not r.standard_error > 0:
    return None
  from props import ref
  if not abs(ref.summary(case)[5]) < 1 - 1e-6:
    return None
  f, ar = 1.0, 1.0
  c2 = dict(case)
  if op == 'scale':
    c2['v1'], c2['v2'] = [x * case['k'] for x in case['v1']], [x * case['k'] for x in case['v2']]
    f = case['k']
    if case['w1']:
      c2['w1'], c2['w2'] = [x * case['j'] for x in case['w1']], [x * case['j'] for x in case['w2']]
      f /= case['j']
  elif op == 'shift':
    c2['v1'], c2['v2'] = [x + case['s'] for x in case['v1']], [x + case['s'] for x in case['v2']]
  else:
    c2.update(v1=case['v2'], v2=case['v1'], w1=case['w2'], w2=case['w1'])
    c2['alternative'] = {'greater': 'less', 'less': 'greater'}.get(case['alternative'], case['alternative'])
    f = -1.0
  r2 = run_ttest(c2)
  sc = abs(r.absolute_difference) + abs(r.control_average) + r.standard_error + (abs(case['s']) if op == 'shift' else 0)
  noise = 1e-9 if op != 'shift' else 1e-9 * (1 + abs(case['s']) / r.standard_error)
  if r.standard_error < 1e-7 * sc:
    return None
  exp = [('absolute_difference', f * r.absolute_difference, abs(f) * sc), ('standard_error', abs(f) * r.standard_error, abs(f) * sc),
         ('p_value', r.p_value, 1), ('statistic', (f if op == 'swap' else 1) * r.statistic, abs(r.statistic) + sc / r.standard_error),
         ('degrees_of_freedom', r.degrees_of_freedom, abs(r.degrees_of_freedom) * 10)]
  lo, hi = r.absolute_difference_lower_bound, r.absolute_difference_upper_bound
  if op == 'swap':
    exp += [('absolute_difference_lower_bound', -hi, 2 * sc), ('absolute_difference_upper_bound', -lo, 2 * sc)]
  else:
    exp += [('absolute_difference_lower_bound', f * lo, 5 * f * sc), ('absolute_difference_upper_bound', f * hi, 5 * f * sc)]
  if op == 'scale':
    exp.append(('control_average', f * r.control_average, f * sc))
    bounds_ok = True
    for nm in ('relative_difference', 'relative_difference_lower_bound', 'relative_difference_upper_bound'):
      a, b = getattr(r, nm), getattr(r2, nm)
      if (a is None) != (b is None):
        return f'{nm}: {a} in one unit, {b} in another'
      if a is not None and np.isfinite(a) and abs(a) < 1e3:
        exp.append((nm, a, 100))
      elif a is not None and (np.isnan(a) != np.isnan(b) or np.isinf(a) != np.isinf(b)):
        if abs(a) > 1e6 or abs(b) > 1e6 or np.isnan(a) or np.isnan(b):
          return f'{nm}: {a} in one unit, {b} in another' if not (abs(a) > 1e6 and abs(b) > 1e6) else None
  for nm, e, s in exp:
    g = getattr(r2, nm)
    if np.isinf(e) or np.isinf(g):
      if g != e:
        return f'{op}: {nm} {g}, expected {e}'
    elif not abs(g - e) <= max(1e-7, noise * 100) * s:
      return f'{op}: {nm} {g}, expected {e}'
  if abs(r.p_value - case['alpha']) > 1e-6 and bool(r.is_significant) != bool(r2.is_significant):
    return f'{op}: significance changes'
  return None
