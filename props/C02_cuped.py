"""Covariate adjustment keeps the mean, never raises the variance, keeps every sample."""
from props.common import *

ID = 'C02'
TITLE = 'Covariate adjustment keeps the mean and never increases the variance'
STATEMENT = (
    'Adjusting a metric with a pre-experiment covariate at any trimming quantile returns one value per sample in the original '
    'order, each equal to the metric minus one common multiple of that sample\'s covariate plus one common constant. The trimmed mean of the '
    'adjusted metric equals the trimmed mean of the metric, and its winsorized variance is never larger. Without trimming the multiple is the '
    'least-squares slope, so the variance is reduced by exactly the squared correlation.')
QUANT = dict(over=['inputs'], text='every pair of equally long finite arrays with a non-constant covariate, every quantile in [0, 0.5)')
WHY = 'Tests check a few random seeds and lengths; invariance of the trimmed mean depends on order statistics of arbitrary data.'
ANCHORS = dict(files=['feedx/statistics.py'], mechanism=[dict(name='apply_cuped_adjustment', where='feedx/statistics.py')])
LEVEL_NOTE = ('Every path of apply_cuped_adjustment is verified for all lengths and contents against the trimmed-array contract discharged in C01. '
              'Assumes a covariate whose (trimmed) variance is not zero; floats as reals.')
TRUSTED = ['ranking depends only on the order relation of the values (stable choice among ties)']
BOUNDED = []
CONTRACTS = []


def _subst(v):
  from props.spec import TrimmedSpec
  return {('statistics', 'TrimmedArray'): TrimmedSpec}


def _cuped(c, v):
  from props.spec import z3, Dom, And, Or, Not, Implies, TrimmedSpec, Rt, SV, as_t, simp, npstub
  st = v.mod('statistics')
  n, q = c.int('n'), c.real('q')
  c.assume(And(n.t >= 2, q.t >= 0, q.t < 0.5))
  d = Dom.range(n.t, 'x')
  y, x = c.array('y', d), c.array('x', d)
  # precondition: the covariate varies (its variance is positive)
  nr = z3.ToReal(n.t)
  Sx, Sy = d.sum(lambda i: x.fn(i)), d.sum(lambda i: y.fn(i))
  Sxx = d.sum(lambda i: SV(as_t(x.fn(i)) * as_t(x.fn(i))))
  c.assume(Sxx * nr - Sx * Sx > 0)
  out = st.apply_cuped_adjustment(y, x, q)
  c.prove(z3.BoolVal(out.ndim == 1), 'one-dimensional')
  D = out.dims[0]
  c.prove(D.card() == n.t, 'one value per sample')
  c.prove(z3.BoolVal(D.order == d.order), 'original order')
  a, b, e = d.skolem('a'), d.skolem('b'), d.skolem('e')
  delta = lambda i: Rt(out.fn(i)) - Rt(y.fn(i))
  X = lambda i: Rt(x.fn(i))
  c.prove((delta(a) - delta(b)) * (X(e) - X(b)) == (delta(e) - delta(b)) * (X(a) - X(b)), 'one common multiple of the covariate')
  T0, T1 = TrimmedSpec(y, q), TrimmedSpec(out, q)
  c.prove(Rt(T1.mean()) == Rt(T0.mean()), 'trimmed mean unchanged')
  if c.fork(as_t(T0.n_trim) == 0):
    Syy = d.sum(lambda i: SV(as_t(y.fn(i)) * as_t(y.fn(i))))
    Sxy = d.sum(lambda i: SV(as_t(x.fn(i)) * as_t(y.fn(i))))
    cxy, cxx = Sxy * nr - Sx * Sy, Sxx * nr - Sx * Sx
    c.prove(Rt(T1.var()) == Rt(T0.var()) - cxy * cxy / (cxx * nr * nr), 'variance reduced by the squared correlation')
    c.prove(delta(a) - delta(b) == -(cxy / cxx) * (X(a) - X(b)), 'least-squares slope')
    c.prove(cxy * cxy / (cxx * nr * nr) >= 0, 'variance not increased (untrimmed)')
  else:
    c.prove(Rt(T1.var()) <= Rt(T0.var()), 'winsorized variance not increased')


CONTRACTS.append(Contract('apply_cuped_adjustment', _cuped, subst=_subst, definedness='assume'))


def cases(rng):
  while True:
    n = rng.choice([2, 3, 5, 8, 20, 21, 50, 200, 500])
    q = rng.choice([0.0, 0.0, 0.01, 0.05, 0.1, 0.2, 0.3, 0.45, rng.random() / 2.01])
    heavy = rng.random() < 0.4
    def g():
      v = rng.gauss(rng.choice([0, 5, 100]), 1)
      if heavy and rng.random() < 0.1:
        v *= 50
      return v
    x = [g() for _ in range(n)]
    b = rng.choice([0, 1, -2, 0.3])
    y = [b * xi + rng.gauss(0, 1) * rng.choice([0.1, 1, 5]) for xi in x]
    if rng.random() < 0.2:
      y = [float(round(v)) for v in y]
      x = [float(round(v)) for v in x]
    yield dict(kind='cuped', q=q, y=y, x=x)


def check(case):
  import numpy as np
  from feedx import statistics as st
  y, x, q = np.array(case['y']), np.array(case['x']), case['q']
  if np.ptp(x) < 1e-9:
    return None
  g = int(np.floor(q * len(y)))
  if g and np.ptp(np.sort(x)[g:len(x) - g]) < 1e-9 or len(y) - 2 * g < 2:
    return None
  y0, x0 = y.copy(), x.copy()
  with np.errstate(all='ignore'):
    out = st.apply_cuped_adjustment(y, x, q)
  if not np.isfinite(out).all():
    # covariate constant after trimming by the adjusted metric
    return None if g else 'not finite'
  if out.shape != y.shape:
    return f'shape {out.shape}'
  if not ((y == y0).all() and (x == x0).all()):
    return 'input modified'
  sc = 1 + np.abs(y).max() + np.abs(x).max()
  dl = out - y
  A = np.stack([x, np.ones_like(x)], 1)
  co, *_ = np.linalg.lstsq(A, dl, rcond=None)
  if np.abs(A @ co - dl).max() > 1e-6 * sc * (1 + np.abs(co).max()):
    return 'not metric minus a common multiple of the covariate plus a constant'
  s0, s1 = np.sort(y), np.sort(out)
  k = slice(g, len(y) - g)
  if abs(s0[k].mean() - s1[k].mean()) > 1e-7 * sc:
    return f'trimmed mean changed {s0[k].mean()} -> {s1[k].mean()}'
  w0, w1 = np.clip(y, s0[k][0], s0[k][-1]), np.clip(out, s1[k][0], s1[k][-1])
  v0, v1 = ((w0 - w0.mean()) ** 2).sum(), ((w1 - w1.mean()) ** 2).sum()
  if v1 > v0 * (1 + 1e-7) + 1e-9 * sc * sc:
    return f'winsorized variance increased {v0} -> {v1}'
  if g == 0:
    slope = np.cov(x, y)[0, 1] / np.var(x, ddof=1)
    if abs(co[0] + slope) > 1e-6 * (1 + abs(slope)):
      return f'slope {-co[0]} expected {slope}'
  return None
