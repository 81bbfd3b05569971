"""Shared vocabulary of the property modules."""
from __future__ import annotations
import dataclasses
import math
import sys
import typing


@dataclasses.dataclass
class Contract:
  label: str
  fn: typing.Callable
  subst: typing.Callable | None = None
  definedness: str = 'prove'
  max_paths: int = 600


def contract(lst, label, **k):
  def deco(f):
    lst.append(Contract(label, f, **k))
    return f
  return deco


ALTS = ['two-sided', 'greater', 'less']


def close(a, b, rtol=1e-7, atol=1e-9):
  a, b = float(a), float(b)
  if math.isnan(a) or math.isnan(b):
    return False
  if math.isinf(a) or math.isinf(b):
    return a == b
  return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


# -- generated inputs of the t-tests ------------------------------------------
def ttest_case(rng, kind=None):
  kind = kind or rng.choice(['ind', 'paired'])
  n1 = rng.choice([3, 4, 6, 10, 25, 60])
  n2 = n1 if kind == 'paired' else rng.choice([3, 5, 8, 12, 40])
  q = rng.choice([0.0, 0.0, 0.05, 0.1, 0.2, 0.3])
  ratio = rng.random() < 0.4
  scale = rng.choice([1.0, 1.0, 1.0, 1e-3, 1e4])
  base = rng.choice([0.0, 0.5, 3.0, 20.0, 200.0, -5.0])
  eff = rng.choice([0.0, 0.0, 0.5, 1.0, -1.0])
  rho = rng.choice([0.0, 0.5, 0.95, -0.5])
  z = [rng.gauss(0, 1) for _ in range(max(n1, n2))]
  mk = lambda n, e: [scale * (base + e + rho * z[i] + (1 - rho * rho) ** 0.5 * rng.gauss(0, 1)) for i in range(n)]
  v1, v2 = mk(n1, eff), mk(n2, 0.0)
  if base >= 0 and rng.random() < 0.7:
    v1, v2 = [abs(x) for x in v1], [abs(x) for x in v2]
  c = dict(kind=kind, v1=v1, v2=v2, q=q, alternative=rng.choice(ALTS), alpha=rng.choice([0.05, 0.05, 0.01, 0.1, 0.2, 0.4, 1e-3]),
           equal_var=rng.random() < 0.5, w1=None, w2=None)
  if ratio:
    ws = rng.choice([1.0, 5.0, 100.0])
    c['w1'] = [ws * (1 + rng.random()) for _ in range(n1)]
    c['w2'] = [ws * (1 + rng.random()) for _ in range(n2)]
  if rng.random() < 0.15:
    constant_sample(rng, c)
  return c


def constant_sample(rng, c):
  """one sample without variance, or a ratio whose numerator has mean zero.

  Only values whose means and variances are exact in floating point."""
  i = rng.choice(['1', '2'])
  arm = rng.choice(['constant', 'constant', 'centred'])
  if arm == 'constant':
    c['v' + i] = [rng.choice([0.0, 2.0, 64.0])] * len(c['v' + i])
    if c['w1'] is not None and c['v' + i][0]:
      c['w' + i] = [4.0] * len(c['v' + i])
  else:
    if c['w1'] is None or len(c['v' + i]) % 2:
      return
    h = [float(rng.choice([1, 2, 3, 8])) for _ in range(len(c['v' + i]) // 2)]
    x = h + [-y for y in h]
    rng.shuffle(x)
    c['v' + i], c['q'] = x, 0.0
  c['exact'] = True


def run_ttest(case, **over):
  import numpy as np
  from feedx import statistics as st
  c = dict(case, **over)
  k = dict(trimming_quantile=c['q'], alternative=c['alternative'], alpha=c['alpha'])
  if c['w1'] is not None:
    k.update(denom_values1=np.array(c['w1']), denom_values2=np.array(c['w2']))
  f = st.yuens_t_test_paired
  if c['kind'] == 'ind':
    f, k['equal_var'] = st.yuens_t_test_ind, c['equal_var']
  g = int(np.floor(c['q'] * min(len(c['v1']), len(c['v2']))))
  if min(len(c['v1']), len(c['v2'])) - 2 * g < 2:
    return None
  with np.errstate(all='ignore'):
    return f(np.array(c['v1']), np.array(c['v2']), **k)
