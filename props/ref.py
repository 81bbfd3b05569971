"""Reference definitions used by the runtime-checked contracts (plain numpy,
written from the definitions, not from the code)."""
import math
import numpy as np


def trimmed(rows, q):
  """trimmed means and winsorised covariance (ddof 1) of rows, trimmed by row 0."""
  X = np.array(rows, dtype=float)
  n = X.shape[1]
  g = int(math.floor(q * n))
  o = sorted(range(n), key=lambda i: X[0, i])
  keep = o[g:n - g]
  m = len(keep)
  mean = X[:, keep].mean(axis=1)
  W = X.copy()
  if g:
    for i in o[:g]:
      W[:, i] = X[:, keep[0]]
    for i in o[n - g:]:
      W[:, i] = X[:, keep[-1]]
  d = W - W.mean(axis=1, keepdims=True)
  return mean, d @ d.T / (m - 1), m


def ratio(mean, cov, i, j):
  """delta method mean and variance of the ratio of means i / j."""
  r = mean[i] / mean[j]
  g = np.zeros(len(mean))
  g[i], g[j] = 1 / mean[j], -mean[i] / mean[j] ** 2
  return r, g @ cov @ g, g


def summary(case):
  """(mean1, mean2, se, se1, se2, corr, df, sample size) of one t-test."""
  v1, v2, q = np.array(case['v1'], float), np.array(case['v2'], float), case['q']
  w1 = None if case.get('w1') is None else np.array(case['w1'], float)
  w2 = None if case.get('w2') is None else np.array(case['w2'], float)
  if case['kind'] == 'ind':
    st = []
    for v, w in ((v1, w1), (v2, w2)):
      if w is None:
        m, c, n = trimmed([v], q)
        st.append((m[0], c[0, 0], n))
      else:
        m, c, n = trimmed([v, w], q)
        r, va, _ = ratio(m, c, 0, 1)
        st.append((r, va, n))
    (m1, a, n1), (m2, b, n2) = st
    if case['equal_var']:
      p = ((n1 - 1) * a + (n2 - 1) * b) / (n1 + n2 - 2)
      a1, b1, df = p / n1, p / n2, n1 + n2 - 2
    else:
      a1, b1 = a / n1, b / n2
      df = (a1 + b1) ** 2 / (a1 ** 2 / (n1 - 1) + b1 ** 2 / (n2 - 1)) if a1 + b1 > 0 else float('nan')
    return m1, m2, math.sqrt(a1 + b1), math.sqrt(a1), math.sqrt(b1), 0.0, df, n1 + n2
  if w1 is None:
    m, c, n = trimmed([v1 - v2, v1, v2], q)
    m1, m2, va, vb, vd = m[1], m[2], c[1, 1], c[2, 2], c[0, 0]
    cab = c[1, 2]
  else:
    m, c, n = trimmed([v1 - v2, v1, w1, v2, w2], q)
    m1, va, g1 = ratio(m, c, 1, 2)
    m2, vb, g2 = ratio(m, c, 3, 4)
    vd = (g1 - g2) @ c @ (g1 - g2)
    cab = g1 @ c @ g2
  corr = cab / math.sqrt(va * vb) if va > 0 and vb > 0 else 0.0
  return m1, m2, math.sqrt(max(vd, 0) / n), math.sqrt(max(va, 0) / n), math.sqrt(max(vb, 0) / n), corr, n - 1, n


def means_se_corr(case):
  r = summary(case)
  return r[3], r[4], r[5]
