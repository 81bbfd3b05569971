"""Trimming keeps exactly the middle of the sample."""
from props.common import *

ID = 'C01'
TITLE = 'Trimming keeps exactly the middle of the sample, rows aligned'
STATEMENT = (
    'Trimming a sample of n values at quantile q removes exactly floor(q*n) of the smallest and floor(q*n) of the '
    'largest values (ranked by the first row when several aligned rows are given) and keeps every other sample '
    'unchanged, in its original order, with all rows still aligned. A quantile outside [0, 0.5) or an array that is '
    'not 1 or 2 dimensional is rejected. The winsorized mean, covariance, variance and standard deviation are those of '
    'the sample in which every trimmed sample is replaced by the most extreme kept sample of its side, with the '
    'number of kept samples (minus ddof) as the divisor, and at quantile 0 they are the ordinary statistics.')
QUANT = dict(over=['inputs'], text='every array length, every finite content including ties, every quantile, every number of rows')
WHY = 'Tests use five fixed short arrays; alignment, ties and floor rounding depend on arbitrary lengths and orderings.'
ANCHORS = dict(files=['feedx/statistics.py'], mechanism=[dict(name='TrimmedArray', where='feedx/statistics.py')])
LEVEL_NOTE = ('Every path of TrimmedArray is verified for all lengths, contents and quantiles, for 1-d arrays and for 2-d arrays of 1, 2 and 3 '
              'rows (row count is the only bound; rows are independent). Trusts the argsort/sort/slice contracts.')
BOUNDED = ['number of rows of a 2-d array: 1..3 (rows are handled uniformly by the code)']
TRUSTED = ['argsort contract: some permutation consistent with the order of the values']
CONTRACTS = []


def _setup(c, v, rows):
  from props.spec import SV, Arr, Dom
  st = v.mod('statistics')
  n, q = c.int('n'), c.real('q')
  c.assume(n.t >= 1)
  d = Dom.range(n.t, 'x')
  cols = [c.array(f'x{r}', d) for r in range(max(rows, 1))]
  if rows == 0:
    vals = cols[0]
  else:
    vals = Arr((rows, d), lambda r, i: cols[r].fn(i))
  return st, n, q, d, cols, vals


def _trim(rows):
  def fn(c, v):
    from props.spec import z3, npstub, core, as_t, And, Or, Not, Implies, TrimmedSpec
    st, n, q, d, cols, vals = _setup(c, v, rows)
    bad = Or(q.t < 0, q.t >= 0.5)
    o = c.call(st.TrimmedArray, vals, q)
    if not o.ok:
      c.prove(z3.BoolVal(o.raised(ValueError)), 'only ValueError')
      c.prove(bad, 'rejects only a quantile outside [0, 0.5)')
      return
    c.prove(Not(bad), 'every accepted quantile is in [0, 0.5)')
    T = o.value
    g = as_t(T.n_trim)
    c.prove(And(core.to_real(g) <= q.t * core.to_real(n.t), q.t * core.to_real(n.t) < core.to_real(g) + 1), 'n_trim = floor(q n)')
    c.prove(as_t(T.original_sample_size) == n.t, 'original_sample_size = n')
    kept = T.values_trimmed
    K = kept.dims[1]
    c.prove(K.card() == n.t - 2 * g, 'kept count = n - 2 floor(q n)')
    c.prove(K.card() >= 1, 'never trims everything')
    c.prove(z3.BoolVal(kept.dims[0] == max(rows, 1)), 'all rows kept')
    c.prove(z3.BoolVal(K.order == d.order), 'original order')
    i = K.skolem('i')
    for r in range(max(rows, 1)):
      c.prove(as_t(kept.fn(r, i)) == as_t(cols[r].fn(i)), f'row {r} aligned and unchanged')
    # lower / upper trimmed parts
    x = cols[0]
    if c.fork(g == 0):
      c.prove(d.forall(lambda j: K.mem(j)), 'nothing removed when floor(q n) = 0')
      return
    p = npstub.perm_dom(d, lambda j: x.fn(j))
    L = npstub._slice_dom(p, npstub_slice(core, None, g))
    U = npstub._slice_dom(p, npstub_slice(core, n.t - g, None))
    c.prove(L.card() == g, 'witness: lower part has floor(q n) samples')
    c.prove(U.card() == g, 'witness: upper part has floor(q n) samples')
    j = d.skolem('j')
    c.prove(z3.PbEq([(K.mem(j), 1), (L.mem(j), 1), (U.mem(j), 1)], 1), 'kept, lower and upper parts partition the samples')
    k = K.skolem('k')
    xj, xk = as_t(x.fn(j)), as_t(x.fn(k))
    c.prove(Implies(L.mem(j), xj <= xk), 'lower part is not above any kept value')
    c.prove(Implies(U.mem(j), xj >= xk), 'upper part is not below any kept value')
  return fn


def npstub_slice(core, a, b):
  return slice(None if a is None else core.SV(core.simp(a)), None if b is None else core.SV(core.simp(b)))


def _dims(c, v):
  from props.spec import z3, Arr, Dom, And
  st = v.mod('statistics')
  q = c.real('q')
  c.assume(And(q.t >= 0, q.t < 0.5))
  d = Dom.range(5, 'x')
  x = c.array('x', d)
  bad = Arr((1, 1, d), lambda a, b, i: x.fn(i)) if c.decide(2) else Arr((), lambda: q)
  o = c.call(st.TrimmedArray, bad, q)
  c.prove(z3.BoolVal(o.raised(ValueError)), 'arrays that are not 1 or 2 dimensional are rejected')


def _stats(rows, first=False):
  def fn(c, v):
    from props.spec import z3, npstub, core, as_t, And, Or, Not, Implies, SV, Rt, simp
    st, n, q, d, cols, vals = _setup(c, v, rows)
    c.assume(And(q.t >= 0, q.t < 0.5))
    dd = c.int('ddof')
    T = st.TrimmedArray(vals, q)
    R_ = max(rows, 1)
    g = as_t(T.n_trim)
    K = T.values_trimmed.dims[1]
    m = K.card()
    c.hyp(m == n.t - 2 * g)   # proved in the trimming contract
    c.hyp(m >= 1)
    c.assume(And(dd.t >= 0, dd.t < m))
    mean, wm, cov, var, sd = T.mean(), T.winsorized_mean(), T.cov(ddof=dd), T.var(ddof=dd), T.std(ddof=dd)
    at = (lambda a, *ix: a.fn(*ix)) if R_ > 1 else (lambda a, *ix: a)
    x = cols[0]
    zero = c.fork(g == 0)
    if zero:
      W = lambda r, i: cols[r].fn(i)
    else:
      lo = npstub._extreme(K, lambda i: x.fn(i), 1)
      hi = npstub._extreme(K, lambda i: x.fn(i), -1)
      p = npstub.perm_dom(d, lambda j: x.fn(j))
      rk = p.posfn
      low = lambda i: rk(i) < g
      up = lambda i: rk(i) >= n.t - g
      npstub._slice_dom(p, npstub_slice(core, None, g)).card()
      npstub._slice_dom(p, npstub_slice(core, n.t - g, None)).card()
      W = lambda r, i: core.sym_ite(SV(low(i)), cols[r].fn(lo), core.sym_ite(SV(up(i)), cols[r].fn(hi), cols[r].fn(i)))
      j = d.skolem('j')
      xl, xh, xj = Rt(x.fn(lo)), Rt(x.fn(hi)), Rt(x.fn(j))
      if first:
        c.prove(Rt(W(0, j)) == z3.If(xj < xl, xl, z3.If(xj > xh, xh, xj)), 'winsorizing the first row is clipping to the kept range')
    nr, mr = core.to_real(n.t), core.to_real(m)
    for r in range(R_):
      c.prove(Rt(at(mean, r)) == K.sum(lambda i: cols[r].fn(i)) / mr, f'trimmed mean row {r}')
      w = SV(d.sum(lambda i: W(r, i)) / nr)
      c.prove(Rt(at(wm, r)) == w.t, f'winsorized mean row {r}')
    for r in range(R_):
      for s in range(r, R_):
        wr, ws = lift_(d.sum(lambda i: W(r, i)) / nr), lift_(d.sum(lambda i: W(s, i)) / nr)
        ref = d.sum(lambda i: (W(r, i) - wr) * (W(s, i) - ws)) / core.to_real(m - dd.t)
        c.prove(Rt(at(cov, r, s)) == ref, f'winsorized covariance ({r},{s})')
        if s != r:
          c.prove(Rt(at(cov, s, r)) == Rt(at(cov, r, s)), f'covariance symmetric ({r},{s})')
      c.prove(Rt(at(var, r)) == Rt(at(cov, r, r)), f'variance is the diagonal row {r}')
      c.prove(Rt(at(sd, r)) == Rt(core.sym_sqrt(at(var, r))), f'std is the root of the variance row {r}')
  return fn


def lift_(t):
  from engine.core import SV, simp
  return SV(simp(t))


for _r in (0, 1, 2, 3):
  CONTRACTS.append(Contract(f'TrimmedArray keeps the middle ({"1-d" if _r == 0 else str(_r) + " rows"})', _trim(_r)))
CONTRACTS.append(Contract('TrimmedArray dimensions', _dims))
CONTRACTS.append(Contract('TrimmedArray statistics (1-d)', _stats(0, True)))
CONTRACTS.append(Contract('TrimmedArray statistics (2 rows)', _stats(2)))
CONTRACTS.append(Contract('TrimmedArray statistics (3 rows)', _stats(3)))


# ---------------------------------------------------------------------------
@contract(CONTRACTS, 'a difference row has the difference of the statistics', definedness='assume')
def _linearity(c, v):
  from props.spec import z3, And, Rt, Dom, npstub, TrimmedSpec
  q = c.real('q')
  c.assume(And(q.t >= 0, q.t < 0.5))
  d = Dom.range(c.int('n').t, 'u')
  c.assume(d.card() >= 2)
  a, b, w = c.array('a', d), c.array('b', d), c.array('w', d)
  T = TrimmedSpec(npstub.stack([a - b, a, b, w]), q)
  m, C = T.mean(), T.cov(ddof=1)
  g = lambda i, j: Rt(C[i, j])
  c.prove(Rt(m[0]) == Rt(m[1]) - Rt(m[2]), 'mean')
  c.prove(g(0, 0) == g(1, 1) + g(2, 2) - 2 * g(1, 2), 'variance')
  for u in (1, 2, 3):
    c.prove(g(0, u) == g(1, u) - g(2, u), f'covariance with row {u}')


def _gram(rows):
  def fn(c, v):
    """every weighted combination of the rows has a variance that is not negative."""
    from props.spec import And, Rt, Dom, npstub, TrimmedSpec, as_t, core, SV
    q = c.real('q')
    c.assume(And(q.t >= 0, q.t < 0.5))
    d = Dom.range(c.int('n').t, 'u')
    c.assume(d.card() >= 2)
    x = [c.array(f'x{r}', d) for r in range(rows)]
    T = TrimmedSpec(npstub.stack(x), q)
    c.assume(as_t(T.m) >= 2)
    C = T.cov(ddof=1)
    w = [c.real(f'weight{r}') for r in range(rows)]
    form = sum((w[r] * w[s] * C[r, s] for r in range(rows) for s in range(rows)), SV(core.simp(as_t(q) * 0)))
    mu = T.winsorized_mean()
    part = lambda i: sum(w[r] * (x[r].fn(i) - mu[r]) for r in range(1, rows)) + w[0] * (x[0].fn(i) - mu[0])
    total = T.K.sum(lambda i: part(i) * part(i))
    ends = part(T._lo) * part(T._lo) + part(T._hi) * part(T._hi)
    all_ = SV(Rt(SV(total)) + core.to_real(as_t(T.n_trim)) * Rt(ends)) if c.fork(as_t(T.n_trim) > 0) else SV(total)
    c.lemma(Rt(SV(total)) >= 0, 'a sum of squares is not negative')
    c.lemma(Rt(form) * core.to_real(as_t(T.m) - 1) == Rt(all_), 'variance of a combination is its sum of squares')
    c.prove(Rt(form) >= 0, 'variance of a combination is not negative')
  return fn


for _r in (2, 4):
  CONTRACTS.append(Contract(f'covariances are positive semidefinite ({_r} rows)', _gram(_r), definedness='assume'))


def cases(rng):
  fixed = [dict(kind='bad', q=q, v=[1.0, 2.0, 3.0]) for q in (-0.1, 0.5, 0.7, 1.0, -1e-12)]
  fixed += [dict(kind='dims', nd=k) for k in (0, 3, 4)]
  yield from fixed
  while True:
    n = rng.choice([1, 2, 3, 5, 7, 10, 11, 20, 33, 50, 101, 400])
    rows = rng.choice([0, 1, 2, 3, 5])
    ties = rng.random() < 0.4
    q = rng.choice([0.0, 1e-3, 0.05, 0.1, 1 / 3, 0.25, 0.49, 0.4999, rng.random() * 0.5])
    if q >= 0.5:
      q = 0.0
    v = [[(float(rng.randint(-3, 3)) if ties else rng.gauss(0, 10) * rng.choice([1, 1, 1000])) for _ in range(n)] for _ in range(max(rows, 1))]
    srt = rng.random()
    if srt < 0.15:
      v[0].sort()
    elif srt < 0.3:
      v[0].sort(reverse=True)
    yield dict(kind='trim', rows=rows, q=q, v=v, ddof=rng.choice([0, 1]))


def check(case):
  import numpy as np
  from feedx import statistics as st
  if case['kind'] == 'bad':
    try:
      st.TrimmedArray(np.array(case['v']), case['q'])
    except ValueError:
      return None
    return f'quantile {case["q"]} accepted'
  if case['kind'] == 'dims':
    a = np.zeros((2,) * case['nd']) if case['nd'] else np.array(1.0)
    try:
      st.TrimmedArray(a, 0.1)
    except ValueError:
      return None
    return f'{case["nd"]}-d array accepted'
  v = np.array(case['v'])
  arr = v[0] if case['rows'] == 0 else v
  n, q = v.shape[1], case['q']
  T = st.TrimmedArray(arr.copy(), q)
  g = int(np.floor(q * n))
  if T.n_trim != g or T.original_sample_size != n or len(T) != n - 2 * g:
    return f'counts: n_trim={T.n_trim} len={len(T)} expected {g} of {n}'
  kept = np.atleast_2d(T.values_trimmed)
  if kept.shape != (v.shape[0], n - 2 * g):
    return f'kept shape {kept.shape}'
  # match the kept columns, in order, with original columns
  pos, k = [], 0
  for j in range(n):
    if k < kept.shape[1] and (v[:, j] == kept[:, k]).all():
      pos.append(j)
      k += 1
  s = np.sort(v[0])
  if sorted(kept[0]) != list(s[g:n - g]):
    return f'kept values of the first row are not the middle {n - 2 * g}'
  cols = {}
  for j in range(n):
    cols.setdefault(tuple(v[:, j]), 0)
    cols[tuple(v[:, j])] += 1
  for j in range(kept.shape[1]):
    t = tuple(kept[:, j])
    if cols.get(t, 0) < 1:
      return 'rows not aligned: a kept column is not a column of the input'
    cols[t] -= 1
  if k != kept.shape[1]:
    return 'kept columns are not in the original order'
  m, dd = n - 2 * g, case['ddof']
  lo, hi = kept[:, np.argmin(kept[0])], kept[:, np.argmax(kept[0])]
  lohi_tied = (np.sum(kept[0] == kept[0].min()) > 1 or np.sum(kept[0] == kept[0].max()) > 1) and g > 0
  if not np.allclose(np.atleast_1d(T.mean()), kept.mean(axis=1), rtol=1e-9, atol=1e-9):
    return 'trimmed mean'
  R = 1 if lohi_tied else v.shape[0]   # with tied extremes only the first row is determined
  W = np.concatenate([np.repeat(lo[:, None], g, 1), kept, np.repeat(hi[:, None], g, 1)], axis=1)
  w = W.mean(axis=1)
  if not np.allclose(np.atleast_1d(T.winsorized_mean())[:R], w[:R], rtol=1e-8, atol=1e-8):
    return 'winsorized mean'
  if m - dd <= 0:
    return None
  res = W - w[:, None]
  cov = res @ res.T / (m - dd)
  got = np.atleast_2d(T.cov(ddof=dd))
  sc = 1 + np.abs(cov).max()
  if not np.allclose(got[:R, :R], cov[:R, :R], rtol=1e-7, atol=1e-9 * sc):
    return f'winsorized covariance {got} != {cov}'
  if not np.allclose(np.atleast_1d(T.var(ddof=dd))[:R], np.diag(cov)[:R], rtol=1e-7, atol=1e-9 * sc):
    return 'winsorized variance'
  if not np.allclose(np.atleast_1d(T.std(ddof=dd))[:R], np.sqrt(np.diag(cov))[:R], rtol=1e-6, atol=1e-6 * sc):
    return 'winsorized std'
  return None
