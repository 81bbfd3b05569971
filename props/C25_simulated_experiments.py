"""How one simulated experiment is made."""
from props.common import *

ID = 'C25'
TITLE = 'Simulated experiments are fair resamples with the effect exactly where treated'
STATEMENT = (
    'The resampled data has as many items as the original, drawn with replacement from the given generator; every one is a faithful copy of an original item with a new unique id. '
    'Random assignment keeps every item and value and draws one fair 0 or 1 per item from the given generator. '
    'A synthetic effect adds exactly the effect size to the metric where it is treated (the test period of treated items; in a crossover the first period of items treated first and the second of the others) and changes nothing else; tables that lack what is needed are rejected.')
QUANT = dict(over=['inputs', 'configurations'], text='every table of items, assignment, metric name and effect size')
WHY = 'Tests check seeds and small tables; a row lost in the merge, a shared id, or an effect in the wrong period silently invalidates every simulation.'
ANCHORS = dict(files=['feedx/experiment_simulations.py'], mechanism=[
    dict(name='_bootstrap_sample_data', where='feedx/experiment_simulations.py'),
    dict(name='apply_random_treatment_assignment', where='feedx/experiment_simulations.py'),
    dict(name='apply_synthetic_treatment_effect', where='feedx/experiment_simulations.py')])
LEVEL_NOTE = 'Any number of items and values; the random generator is an arbitrary source of draws.'
TRUSTED = ['pandas sample, merge, set_index contracts (engine/pdstub.py)', 'numpy Generator.choice draws uniformly and independently']
ASSUMPTIONS = ['no missing item ids']
CONTRACTS = []


class Rng:
  """an arbitrary generator: choice(2, size=n) returns n zeros or ones."""

  def __init__(self, c):
    self.c, self.drawn = c, []

  def _draw(self, lo, hi, size):
    import z3
    from engine import npstub
    from engine.core import SV, as_t
    c = self.c
    k = len(self.drawn)
    d = npstub.Dom.range(as_t(size), f'draw{k}')
    f = z3.Function(f'coin{k}', z3.IntSort(), z3.IntSort())
    x = z3.Int('cx')
    c.axiom(z3.ForAll([x], z3.And(f(x) >= lo, f(x) < hi), patterns=[f(x)]))
    self.drawn.append((lo, hi, size))
    return npstub.Arr((d,), lambda i: SV(f(i[1][0])), 'int')

  def choice(self, a, size=None, replace=True, p=None):
    from engine.core import Unsupported
    if isinstance(a, (list, tuple)) and list(a) in ([0, 1], [1, 0]):
      a = 2
    if not isinstance(a, int) or p is not None or not replace or size is None:
      raise Unsupported('rng.choice')
    return self._draw(0, a, size)

  def integers(self, low, high=None, size=None, **k):
    from engine.core import Unsupported
    if high is None:
      low, high = 0, low
    if k or size is None:
      raise Unsupported('rng.integers')
    return self._draw(low, high, size)

  def binomial(self, n, p, size=None):
    from engine.core import Unsupported
    if n != 1 or p != 0.5:
      raise Unsupported('rng.binomial')
    return self._draw(0, 2, size)


def table(c, kind):
  """a pivoted table: index item (and group), columns (metric, period) or flat."""
  from props.frames import frame
  from engine import pdstub
  cols = [('x', 'pretest'), ('x', 'test'), ('z', 'test')] if kind != 'flat' else ['x', 'y']
  lv = ['item'] + (['group'] if kind == 'grouped' else [])
  df = frame(c, {**{k: 'real' for k in cols}, 'item': 'obj', 'group': 'int'}, nulls=(cols[0],))
  fs = [df.cols.pop('item'), df.cols.pop('group')]
  df._index = pdstub.Index(df.dom, fs[: len(lv)], lv)
  return df


@contract(CONTRACTS, '_bootstrap_sample_data')
def _boot(c, v):
  from props.spec import z3, as_t, And, Implies
  from props.frames import snap, unchanged
  from engine import pdstub
  f = v.mod('experiment_simulations')._bootstrap_sample_data
  kind = ('plain', 'grouped', 'flat')[c.decide(3)]
  df = table(c, kind)
  s, lv = snap(df), list(df._index.levels)
  rng = object()
  out = f(df, rng, 'item')
  ok = lambda b, n: c.prove(z3.BoolVal(bool(b)), n)
  ok(list(out.cols) == list(df.cols) and list(out.index.names) == list(df.index.names), 'columns and index names')
  c.prove(out.dom.card() == df.dom.card(), 'as many items')
  ev = [e for e in c.events if e[0] == 'sample']
  ok(len(ev) == 1 and ev[0][1] is rng and ev[0][3] is True, 'drawn once with replacement from the generator')
  o, o2 = out.dom.skolem('o'), out.dom.skolem('o2')
  new, src, d0 = c.data['drawn'][0]
  r = src(o)
  c.prove(df.dom.mem(r), 'an original item')
  for k in df.cols:
    from props.frames import same
    same(c, out.cols[k](o), df.cols[k](r), f'faithful copy: {k}')
  pos = list(df.index.names).index('item')
  for n, (a, b) in enumerate(zip(out.index.levels, lv)):
    if n != pos:
      c.prove(pdstub.key_eq(a(o), b(r)), 'faithful copy: assignment')
  ids = out.index.levels[pos]
  c.prove(Implies(pdstub.key_eq(ids(o), ids(o2)), And(*[x == y for x, y in zip(o[1], o2[1])])), 'unique ids')
  unchanged(c, df, s, 'input')


@contract(CONTRACTS, '_bootstrap_sample_data (protected columns)')
def _boot_bad(c, v):
  from props.spec import z3
  from props.frames import frame, snap, unchanged
  from engine import pdstub
  f = v.mod('experiment_simulations')._bootstrap_sample_data
  name = ('n_samples_', 'dummy_list_')[c.decide(2)]
  df = frame(c, {'x': 'real', name: 'real', 'item': 'obj'})
  df._index = pdstub.Index(df.dom, [df.cols.pop('item')], ['item'])
  s = snap(df)
  o = c.call(f, df, object(), 'item')
  c.prove(z3.BoolVal(o.raised(ValueError)), 'rejected with a ValueError')
  unchanged(c, df, s, 'input')


def _assign(metric):
  def fn(c, v):
    from props.spec import z3, as_t, And, Or, Implies
    from props.frames import frame, snap, unchanged, covers, same
    from engine import pdstub
    f = v.mod('experiment_simulations').apply_random_treatment_assignment
    cols = [(metric, 'pretest'), (metric, 'test'), ('z', 'test')]
    df = frame(c, {('item', ''): 'obj', **{k: 'real' for k in cols}}, nulls=(cols[0],))
    s, d0, cs = snap(df), df.dom, dict(df.cols)
    rng = Rng(c)
    out = f(df, rng=rng, item_id_column='item', treatment_column='grp')
    ok = lambda b, n: c.prove(z3.BoolVal(bool(b)), n)
    ok(list(out.index.names) == ['item', 'grp'], 'index names')
    ok(sorted(map(tuple, out.columns)) == sorted(cols), 'metrics and periods')
    ok(len(rng.drawn) == 1 and rng.drawn[0][:2] == (0, 2), 'one draw of zeros and ones')
    items, grp = out.index.levels
    o, o2 = out.dom.skolem('o'), out.dom.skolem('o2')
    g = grp(o)
    c.prove(Or(as_t(g) == 0, as_t(g) == 1), 'every item is in one of the two groups')
    c.prove(Implies(pdstub.key_eq(items(o), items(o2)), as_t(grp(o)) == as_t(grp(o2))), 'one group per item')
    # the draws belong to the items, one each
    a, b = _coins(as_t(g)), _coins(as_t(grp(o2)))
    ok(len(a) == 1 and len(b) == 1, 'the group of an item is one of the draws')
    c.prove(Implies(z3.Not(pdstub.key_eq(items(o), items(o2))), a[0] != b[0]), 'different items, different draws')
    c.prove(as_t(rng.drawn[0][2]) == pdstub.unique_dom(d0, [cs[('item', '')]]).card(), 'one draw per item')
    c.prove(d0.exists(lambda r: And(pdstub.key_eq(cs[('item', '')](r), items(o)), *[_eq(cs[k](r), out.cols[k](o)) for k in cols])), 'no row is invented')
    i = d0.skolem('i')
    c.prove(out.dom.exists(lambda e: And(pdstub.key_eq(cs[('item', '')](i), items(e)), *[_eq(cs[k](i), out.cols[k](e)) for k in cols])), 'no row is lost')
    unchanged(c, df, s, 'input')
  return fn


def _coins(t):
  """the positions of the draws a term uses."""
  import z3
  out, todo = {}, [t]
  while todo:
    x = todo.pop()
    if z3.is_app(x):
      if x.decl().name().startswith('coin') and x.num_args() == 1:
        out[x.arg(0).sexpr()] = x.arg(0)
      todo.extend(x.children())
  return list(out.values())


def _eq(a, b):
  from props.spec import And, Or, z3
  from engine import pdstub
  na, nb = pdstub.isnull(a), pdstub.isnull(b)
  return And(na == nb, Or(na, pdstub.key_eq(a, b)))


for _m in ('x', 'click__value_', '_x'):
  CONTRACTS.append(Contract(f'apply_random_treatment_assignment (metric {_m})', _assign(_m)))


@contract(CONTRACTS, 'apply_random_treatment_assignment (rejections)')
def _assign_bad(c, v):
  from props.spec import z3
  from props.frames import frame, snap, unchanged
  f = v.mod('experiment_simulations').apply_random_treatment_assignment
  which = c.decide(2)
  df = frame(c, {('item', ''): 'obj', ('x', 'test'): 'real', **({('grp', ''): 'int'} if which else {})})
  s = snap(df)
  rng = Rng(c)
  o = c.call(f, df, rng=rng, item_id_column='item' if which else 'nope', treatment_column='grp')
  c.prove(z3.BoolVal(o.raised(ValueError)), 'rejected with a ValueError')
  unchanged(c, df, s, 'input')


def _effect(cross):
  def fn(c, v):
    from props.spec import z3, as_t
    from props.frames import same
    from props.C19_time_periods import _design
    from props.C21_analysis_samples import pivoted
    f = v.mod('experiment_simulations').apply_synthetic_treatment_effect
    ps = ('pretest', 'test_1', 'washout_1', 'test_2') if cross else ('pretest', 'test')
    df, t = pivoted(c, [(m, p) for m in ('x', 'z') for p in ps])
    cs, d0 = dict(df.cols), df.dom
    e = c.real('effect')
    out = f(df, metric_name='x', design=_design(v, is_crossover=cross), effect_size=e, treatment_assignment_index_name='group')
    c.prove(z3.BoolVal(list(out.cols) == list(cs) and out.dom.same_rows(d0)), 'same rows and columns')
    i = d0.skolem('i')
    treated = {('x', 'test'): 1, ('x', 'test_1'): 1, ('x', 'test_2'): 0}
    for k in cs:
      if k in treated:
        want = as_t(cs[k](i)) + z3.If(t(i).t == treated[k], e.t, z3.RealVal(0))
        c.prove(as_t(out.cols[k](i)) == want, f'effect on {k}')
      else:
        same(c, out.cols[k](i), cs[k](i), f'{k} unchanged')
    c.prove(as_t(out.index.levels[1](i)) == t(i).t, 'assignment unchanged')
  return fn


for _c in (False, True):
  CONTRACTS.append(Contract(f'apply_synthetic_treatment_effect ({"crossover" if _c else "regular"})', _effect(_c)))


@contract(CONTRACTS, 'apply_synthetic_treatment_effect (rejections)')
def _effect_bad(c, v):
  from props.spec import z3
  from props.frames import snap, unchanged
  from props.C19_time_periods import _design
  from props.C21_analysis_samples import pivoted
  f = v.mod('experiment_simulations').apply_synthetic_treatment_effect
  cross = bool(c.decide(2))
  full = ('test_1', 'test_2') if cross else ('test',)
  which = c.decide(3)      # no assignment, a missing period, another metric
  gone = full[c.decide(len(full))]
  df, t = pivoted(c, [(m, p) for m in ('x', 'z') for p in full + ('pretest',) if (m, p) != ('x', gone) or which != 1])
  s = snap(df)
  o = c.call(f, df, metric_name='y' if which == 2 else 'x', design=_design(v, is_crossover=cross), effect_size=c.real('effect'), treatment_assignment_index_name='nope' if which == 0 else 'group')
  c.prove(z3.BoolVal(o.raised(ValueError)), 'rejected with a ValueError')
  unchanged(c, df, s, 'input')


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    cross = rng.random() < 0.5
    yield dict(cross=cross, n=rng.choice([1, 2, 5, 30, 200]), metric=rng.choice(['clicks', 'clicks', 'a b', 'total__value', '_x', 'x_', 'item', 'test']), others=rng.choice([0, 1, 2]), pre=rng.random() < 0.5, effect=rng.choice([0.0, 1.5, -2.0, 1e-6, 1e6]), ids=rng.choice(['str', 'int', 'shuffled']), dup=rng.random() < 0.2, nan=rng.random() < 0.2, kind=rng.choice(['float', 'float', 'int']), drop=rng.choice([None] * 6 + ['period', 'group', 'metric']), seed=rng.randrange(10**6))


def check(case):
  import types, warnings
  import numpy as np
  import pandas as pd
  from feedx import experiment_simulations as es
  warnings.simplefilter('ignore')
  r = np.random.default_rng(case['seed'])
  n = case['n']
  ps = (['pretest'] if case['pre'] else []) + (['test_1', 'test_2', 'washout_1'] if case['cross'] else ['test'])
  ms = [case['metric']] + ['other', 'more_'][: case['others']]
  cols = pd.MultiIndex.from_tuples([(m, p) for m in ms for p in ps], names=[None, 'time_period'])
  vals = r.normal(10, 3, (n, len(cols)))
  if case['kind'] == 'int':
    vals = np.round(vals).astype(int)
  ids = [f'i{k:03d}' for k in range(n)] if case['ids'] == 'str' else list(range(5, n + 5)) if case['ids'] == 'int' else [f'q{k}' for k in r.permutation(n)]
  df = pd.DataFrame(vals, index=pd.Index(ids, name='item_id'), columns=cols)
  if case['nan'] and case['kind'] == 'float' and n > 1:
    df.iloc[0, 0] = np.nan
  # resampling
  before = df.copy()
  b = es._bootstrap_sample_data(df, np.random.default_rng(case['seed']), 'item_id')
  key = lambda row: tuple('nan' if x != x else float(x) for x in row)
  orig = {}
  for row in before.to_numpy(float):
    orig[key(row)] = orig.get(key(row), 0) + 1
  if len(b) != n or list(b.columns) != list(cols) or b.index.name != 'item_id' or b.index.nunique() != n:
    return f'resample: {len(b)} rows for {n} items, {b.index.nunique()} ids, index {b.index.name}'
  if any(key(row) not in orig for row in b.to_numpy(float)):
    return 'resample: a row is not one of the original items'
  again = es._bootstrap_sample_data(df, np.random.default_rng(case['seed']), 'item_id')
  if not again.equals(b):
    return 'resample: does not depend on the generator only'
  if n == 200 and case['kind'] == 'float':
    d = len({key(row) for row in b.to_numpy(float)})
    if not 90 <= d <= 165:
      return f'resample: {d} different of 200 items'
  g2 = df.set_index(pd.Index(r.integers(0, 2, n), name='grp'), append=True)
  b2 = es._bootstrap_sample_data(g2, np.random.default_rng(case['seed']), 'item_id')
  pairs = {(key(row), int(g)) for row, g in zip(g2.to_numpy(float), g2.index.get_level_values('grp'))}
  if b2.index.names != ['item_id', 'grp'] or b2.index.get_level_values('item_id').nunique() != n or any((key(row), int(g)) not in pairs for row, g in zip(b2.to_numpy(float), b2.index.get_level_values('grp'))):
    return 'resample: assignment not kept with its item'
  if not df.equals(before):
    return 'resample: the input changed'
  # assignment
  flat = df.reset_index()
  if case['dup'] and n > 1:
    flat = pd.concat([flat, flat.iloc[: n // 2]], ignore_index=True)
  fb = flat.copy()
  a = es.apply_random_treatment_assignment(flat, rng=np.random.default_rng(case['seed']), item_id_column='item_id', treatment_column='grp')
  if not flat.equals(fb):
    return 'assignment: the input changed'
  if list(a.index.names) != ['item_id', 'grp'] or sorted(map(tuple, a.columns)) != sorted(map(tuple, cols)):
    return f'assignment: index {list(a.index.names)}, columns {list(a.columns)[:3]}'
  got = sorted((str(i), key(row)) for i, row in zip(a.index.get_level_values(0), a[list(cols)].to_numpy(float)))
  want = sorted((str(i), key(row)) for i, row in zip(fb[('item_id', '')], fb[list(cols)].to_numpy(float)))
  if got != want:
    return 'assignment: rows lost, invented or changed'
  grp = {}
  for i, g in a.index:
    if g not in (0, 1) or grp.setdefault(i, g) != g:
      return f'assignment: item {i} in group {g}'
  if n == 200 and not 65 <= sum(grp.values()) <= 135:
    return f'assignment: {sum(grp.values())} of 200 treated'
  if n == 2:
    seen = {tuple(es.apply_random_treatment_assignment(df.reset_index(), rng=np.random.default_rng(s), item_id_column='item_id', treatment_column='grp').index.get_level_values(1)) for s in range(40)}
    if len(seen) != 4:
      return f'assignment: only {seen} of 4 outcomes in 40 draws'
  # effect
  d = types.SimpleNamespace(is_crossover=case['cross'])
  t = a.copy()
  if case['drop'] == 'period':
    t = t.drop(columns=[(case['metric'], 'test_2' if case['cross'] else 'test')])
  tb = t.copy()
  try:
    e = es.apply_synthetic_treatment_effect(t, metric_name='nope' if case['drop'] == 'metric' else case['metric'], design=d, effect_size=case['effect'], treatment_assignment_index_name='nope' if case['drop'] == 'group' else 'grp')
  except ValueError as x:
    return None if case['drop'] else f'effect: rejected: {x}'
  if case['drop']:
    return f'effect: accepted without {case["drop"]}'
  if list(e.columns) != list(tb.columns) or list(e.index) != list(tb.index):
    return 'effect: rows or columns changed'
  treated = np.array([g == 1 for g in tb.index.get_level_values('grp')])
  where = {'test': treated, 'test_1': treated, 'test_2': ~treated}
  for m, p in tb.columns:
    add = np.where(where[p], case['effect'], 0.0) if m == case['metric'] and p in where else 0.0
    w = tb[(m, p)].to_numpy(float) + add
    if not np.allclose(e[(m, p)].to_numpy(float), w, rtol=1e-12, atol=1e-12, equal_nan=True):
      return f'effect: {m} {p} changed wrongly'
