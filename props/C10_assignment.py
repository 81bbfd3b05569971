"""Random assignment of items to control and treatment."""
from props.common import *

ID = 'C10'
TITLE = 'Assignment is a reproducible coin flip over exactly the eligible items'
STATEMENT = (
    'Each eligible item is assigned exactly once, to control or treatment, by a coin flip that depends only on the salt and the text of the item identifier; the salt used is recorded in the design (a given one is never replaced), '
    'so repeating the assignment reproduces it. '
    'Without pre-trimming the eligible items are all distinct items of the historical data; with pre-trimming they are what remains after removing the rounded-down top and bottom fraction by total primary metric over the last pretest weeks. '
    'A statistically impossible split and missing columns are rejected, and the historical data is not modified.')
QUANT = dict(over=['inputs', 'configurations', 'histories'], text='every historical data set, item identifier, salt and design; repeated assignments')
WHY = 'Tests assign a handful of items with fixed salts; that no item is lost, repeated or assigned by something other than its identifier must hold for every data set.'
ANCHORS = dict(files=['feedx/experiment_design.py', 'feedx/data_preparation.py'], mechanism=[
    dict(name='Coinflip', where='feedx/experiment_design.py'),
    dict(name='perform_treatment_assignment', where='feedx/data_preparation.py'),
    dict(name='trim_outliers', where='feedx/data_preparation.py'),
    dict(name='validate_no_sample_ratio_mismatch', where='feedx/data_preparation.py')])
LEVEL_NOTE = 'Frames of unbounded length and arbitrary content, all paths; md5 is an uninterpreted function of its text, the random shuffle an arbitrary permutation, the binomial test an uninterpreted p-value.'
TRUSTED = ['pandas groupby/sum/drop_duplicates/rank(first)/sample contracts (engine/pdstub.py)', 'md5 is a function of the bytes it is given']
ASSUMPTIONS = ['item identifiers are not missing']
CONTRACTS = []


class _Design:
  """Stand-in carrying the attributes of a design."""

  def __init__(self, **k):
    self.__dict__.update(k)


# -- Coinflip -----------------------------------------------------------------
@contract(CONTRACTS, 'Coinflip')
def _coin(c, v):
  from props.spec import z3, as_t, SV, I, And, Or
  from engine import core
  C = v.mod('experiment_design').Coinflip
  kind = c.decide(2)
  salt = ['pepper', SV(c.fresh('salt', I).t, 'obj')][kind]
  if kind:
    c.assume(And(salt.t != core.code_of(''), salt.t != core.code_of(None), core.TOSTR(salt.t) == salt.t))  # a string
  item = SV(c.fresh('item', I).t, 'obj')
  coin = C(salt)
  r = coin(item)
  c.prove(Or(as_t(r) == 0, as_t(r) == 1), 'assignment is control (0) or treatment (1)')
  c.prove(as_t(C(salt)(item)) == as_t(r), 'a new coin with the same salt agrees')
  c.prove(as_t(coin(item)) == as_t(r), 'repeating the flip agrees')
  same_text = SV(c.fresh('item2', I).t, 'obj')
  c.assume(core.TOSTR(same_text.t) == core.TOSTR(item.t))
  c.prove(as_t(coin(same_text)) == as_t(r), 'only the text of the item matters')
  if not kind:
    from engine.libstub import MD5HEX
    from engine.loader import HEXINT
    want = HEXINT(MD5HEX(core.STRCAT(z3.IntVal(core.code_of('pepper')), core.TOSTR(item.t)))) % 2
    c.prove(as_t(r) == want, 'parity of the md5 of salt followed by item')
    c.prove(z3.BoolVal(coin.salt == 'pepper'), 'salt kept')


@contract(CONTRACTS, 'Coinflip rejects an empty salt')
def _empty(c, v):
  from props.spec import z3
  C = v.mod('experiment_design').Coinflip
  o = c.call(C, ['', None][c.decide(2)])
  c.prove(z3.BoolVal(o.raised(ValueError)), 'ValueError')


# -- trim_outliers ------------------------------------------------------------
@contract(CONTRACTS, 'trim_outliers')
def _trim(c, v):
  from props.spec import z3, as_t, Rt, And, Or, Not, Implies, ToReal, SV
  from props.frames import frame, snap, unchanged, same, to_int
  f = v.mod('data_preparation').trim_outliers
  df = frame(c, {'item': 'obj', 'x': 'real', 'y': 'real'})
  s = snap(df)
  n = df.dom.card()
  top, bot = c.real('top'), c.real('bottom')
  ok = And(Rt(top) >= 0, Rt(bot) >= 0, Rt(top) + Rt(bot) < 1)
  rng = object()
  o = c.call(f, df, 'x', top, bot, rng)
  unchanged(c, df, s, 'input')
  if not o.ok:
    c.prove(z3.BoolVal(o.raised(ValueError)), 'rejection is a ValueError')
    c.prove(Not(ok), 'only impossible percentiles are rejected')
    return
  c.prove(ok, 'impossible percentiles are rejected')
  out = o.value
  kt, kb = to_int(ToReal(n) * Rt(top)), to_int(ToReal(n) * Rt(bot))
  c.prove(z3.BoolVal(list(out.cols) == ['item', 'x', 'y']), 'all columns kept')
  for e in c.events:
    if e[0] == 'sample':
      c.prove(z3.BoolVal(e[1] is rng), 'ties are broken with the given random generator')
  j = out.dom.skolem('j')
  c.prove(df.dom.mem(j), 'kept rows are rows of the input')
  for k in out.cols:
    same(c, out.cols[k](j), df.cols[k](j), f'kept row unchanged in {k}')
  # a removed row is beaten by exactly its position: it is in the top or bottom part
  i = df.dom.skolem('i')
  c.assume(Not(out.dom.mem(i)))
  from engine import npstub
  ranks = c.data.get('pd_ranks', [])
  c.prove(z3.BoolVal(len(ranks) == 1), 'rows are ordered once')
  if len(ranks) != 1:
    return
  rk0, asc, rdom = ranks[-1]
  c.prove(z3.BoolVal(rdom.same_set(df.dom)), 'all rows are ordered')
  rk = (lambda q: SV(n + 1 - as_t(rk0(q)))) if asc else rk0   # position from the largest
  from props.frames import same_card
  mid = df.dom.filter(lambda q: SV(And(as_t(rk(q)) > kt, as_t(rk(q)) <= n - kb)))
  same_card(c, out.dom, mid, 'kept rows are the middle of the order')
  # a rank is a bijection onto 1..n
  c.prove(And(kt >= 0, kb >= 0, kt + kb <= n), 'the middle is not inverted')
  c.fact(mid.card() == n - kt - kb)
  c.prove(out.dom.card() == n - kt - kb, 'number of rows kept')
  ri, rj = as_t(rk(i)), as_t(rk(j))
  c.prove(Or(ri <= kt, ri > n - kb), 'a removed row is among the first or the last of the order')
  c.prove(Implies(ri < rj, Rt(df.cols['x'](i)) >= Rt(df.cols['x'](j))), 'rows removed at the top are not smaller than kept rows')
  c.prove(Implies(ri > rj, Rt(df.cols['x'](i)) <= Rt(df.cols['x'](j))), 'rows removed at the bottom are not larger than kept rows')
  c.prove(Or(ri < rj, ri > rj), 'a removed row is not a kept row')


# -- perform_treatment_assignment ------------------------------------------------
def _assign(pretrim, salted):
  def fn(c, v):
    from props.spec import z3, as_t, Rt, SV, I, And, Or, Not, Implies
    from props.frames import frame, snap, unchanged, same
    from engine import pdstub, core
    dp, ed = v.mod('data_preparation'), v.mod('experiment_design')
    df = frame(c, {'item': 'obj', 'week': 'int', 'sales': 'real'})
    s = snap(df)
    c.assume(df.dom.card() > 0)
    salt = 'pepper' if salted else [None, ''][c.decide(2)]
    top, bot = (c.real('top'), c.real('bottom')) if pretrim else (0.0, 0.0)
    weeks = c.int('pretest')
    if pretrim:
      c.assume(And(Rt(top) >= 0, Rt(bot) >= 0, Rt(top) + Rt(bot) < 1, Or(Rt(top) > 0, Rt(bot) > 0), weeks.t >= 1))
    d = _Design(pre_trim_top_percentile=top, pre_trim_bottom_percentile=bot, coinflip_salt=salt, primary_metric='sales', pretest_weeks=weeks)
    kept = {}

    def trim(data, order_by, trim_percentile_top, trim_percentile_bottom, rng):
      # contract of trim_outliers: some subset of the rows
      kept['args'] = (data, order_by, trim_percentile_top, trim_percentile_bottom, rng)
      p = z3.Function('kept_by_trimming', *([I] * len(data.dom.branches[0][0])), z3.BoolSort())
      kept['p'] = p
      sub = data.dom.filter(lambda i: SV(p(*i[1])))
      return pdstub.DataFrame._make(sub, data.cols, data.space)
    dp.trim_outliers = trim
    srm = {}

    def check(data, item_id_column, treatment_assignment_column, **k):
      srm['args'] = (data, item_id_column, treatment_assignment_column, k)
      if c.decide(2):
        raise ValueError('mismatch')
    dp.validate_no_sample_ratio_mismatch = check
    rng = object()
    o = c.call(dp.perform_treatment_assignment, df, design=d, rng=rng, item_id_column='item', **(dict(week_id_column='week') if pretrim or c.decide(2) else {}))
    unchanged(c, df, s, 'historical data')
    c.prove(z3.BoolVal('args' in srm), 'the split is checked')
    c.prove(z3.BoolVal(bool(d.coinflip_salt)), 'the salt is recorded in the design')
    if salted:
      c.prove(z3.BoolVal(d.coinflip_salt == 'pepper'), 'a given salt is used')
    if not o.ok:
      c.prove(z3.BoolVal(o.raised(ValueError)), 'a mismatched split is a ValueError')
      return
    out = o.value
    sa = srm['args']
    c.prove(z3.BoolVal(sa[1] == 'item' and sa[2] == 'treatment_assignment' and sa[0].dom.same_rows(out.dom) and not sa[3]), 'the split that is checked is the one returned')
    c.prove(z3.BoolVal(list(out.cols) == ['item', 'treatment_assignment']), 'columns')
    coin = ed.Coinflip(d.coinflip_salt)
    j = out.dom.skolem('j')
    item = out.cols['item'](j)
    c.prove(as_t(out.cols['treatment_assignment'](j)) == as_t(coin(item)), 'assigned by the recorded salt and the item')
    c.prove(df.dom.exists(lambda i: pdstub.key_eq(df.cols['item'](i), item)), 'only items of the data are assigned')
    k = out.dom.skolem('k')
    c.prove(Implies(pdstub.key_eq(out.cols['item'](k), item), And(*[a == b for a, b in zip(j[1], k[1])])), 'no item is assigned twice')
    i = df.dom.skolem('i')
    if not pretrim:
      c.prove(z3.BoolVal('args' not in kept), 'no trimming')
      c.prove(out.dom.exists(lambda q: pdstub.key_eq(out.cols['item'](q), df.cols['item'](i))), 'every item is assigned')
      return
    tot, order, t_, b_, r_ = kept['args']
    c.prove(z3.BoolVal(order == 'sales' and r_ is rng), 'trimming orders by the primary metric with the given generator')
    c.prove(And(Rt(t_) == Rt(top), Rt(b_) == Rt(bot)), 'trimming uses the percentiles of the design')
    # the trimmed table holds one row per item with data in the last pretest weeks, with its total there
    mx = as_t(df['week'].max())
    inper = lambda q: as_t(df.cols['week'](q)) > mx - weeks.t
    g = tot.dom.skolem('g')
    c.prove(tot.dom.exists(lambda q: And(pdstub.key_eq(tot.cols['item'](q), df.cols['item'](i)))) if False else Implies(inper(i), tot.dom.exists(lambda q: pdstub.key_eq(tot.cols['item'](q), df.cols['item'](i)))), 'every item with pretest data is considered')
    want = df.dom.sum(lambda q: SV(z3.If(And(inper(q), pdstub.key_eq(df.cols['item'](q), tot.cols['item'](g))), Rt(df.cols['sales'](q)), z3.RealVal(0))))
    c.prove(Rt(tot.cols['sales'](g)) == want, 'ordered by the total of the last pretest weeks')
    c.prove(Implies(And(tot.dom.mem(g), kept['p'](*g[1])), out.dom.exists(lambda q: pdstub.key_eq(out.cols['item'](q), tot.cols['item'](g)))), 'every item left by trimming is assigned')
  return fn


def _restore(v):
  """callees replaced by their contract (restored afterwards)."""
  dp = v.mod('data_preparation')
  return {('data_preparation', 'trim_outliers'): dp.trim_outliers, ('data_preparation', 'validate_no_sample_ratio_mismatch'): dp.validate_no_sample_ratio_mismatch}


for _p in (False, True):
  for _s in (True, False):
    CONTRACTS.append(Contract(f'perform_treatment_assignment ({"pre-trimming" if _p else "no pre-trimming"}, {"salt given" if _s else "no salt"})', _assign(_p, _s), subst=_restore))


@contract(CONTRACTS, 'perform_treatment_assignment (missing columns)')
def _missing(c, v):
  from props.spec import z3
  from props.frames import frame
  dp = v.mod('data_preparation')
  d = _Design(pre_trim_top_percentile=0.1, pre_trim_bottom_percentile=0.0, coinflip_salt='a', primary_metric='sales', pretest_weeks=2)
  k = c.decide(4)
  cols = [{'week': 'int', 'sales': 'real'}, {'item': 'obj', 'sales': 'real'}, {'item': 'obj', 'week': 'int', 'sales': 'real'}, {'item': 'obj', 'week': 'int', 'sales': 'real'}][k]
  kw = dict(week_id_column='week')
  if k == 2:
    kw = {}
  if k == 3:
    kw['treatment_assignment_column'] = 'item'
  o = c.call(dp.perform_treatment_assignment, frame(c, cols), design=d, rng=object(), item_id_column='item', **kw)
  c.prove(z3.BoolVal(o.raised(ValueError)), ['no item column', 'no week column', 'no week column named', 'assignment column clashes'][k] + ': ValueError')


@contract(CONTRACTS, 'validate_no_sample_ratio_mismatch')
def _srm(c, v):
  from props.spec import z3, as_t, Rt, And, Implies, SV
  from props.frames import frame, snap, unchanged
  dp = v.mod('data_preparation')
  df = frame(c, {'item': 'obj', 'arm': 'int'})
  s = snap(df)
  i = df.dom.skolem('i')
  from engine import core
  q = z3.Int('q')
  arm = df.cols['arm']
  c.assume(df.dom.forall(lambda j: z3.Or(as_t(arm(j)) == 0, as_t(arm(j)) == 1)))
  o = c.call(dp.validate_no_sample_ratio_mismatch, df, item_id_column='item', treatment_assignment_column='arm')
  unchanged(c, df, s, 'input')
  tests = [e for e in c.events if e[0] == 'binomtest']
  c.prove(z3.BoolVal(len(tests) == 1), 'one binomial test')
  if len(tests) != 1:
    return
  _, a, k, r = tests[0]
  kk = a[0] if a else k['k']
  nn = k.get('n', a[1] if len(a) > 1 else None)
  c.prove(z3.BoolVal(k.get('p', 0.5) == 0.5 and k.get('alternative', 'two-sided') == 'two-sided'), 'against an even split, two-sided')
  from engine import pdstub
  reps = pdstub.rep_fn(df.dom, [arm, df.cols['item']])
  # distinct (arm, item) pairs of an arm, counted through their first rows
  uniq = lambda armv: df.dom.filter(lambda j: SV(And(as_t(arm(j)) == armv, *[f(*j[1]) == x for f, x in zip(reps, j[1])]))).card()
  c.prove(as_t(core.lift(kk)) == uniq(1), 'distinct treated items')
  c.prove(as_t(core.lift(nn)) == uniq(1) + uniq(0), 'out of all distinct items')
  c.prove(z3.BoolVal(o.ok or o.raised(ValueError)), 'rejection is a ValueError')
  c.prove((Rt(r.pvalue) >= z3.RealVal('0.001')) == z3.BoolVal(o.ok), 'rejected exactly when the p-value is below 0.001')


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    kind = rng.choice(['assign', 'assign', 'trim', 'coin', 'srm'])
    seed = rng.randrange(10**6)
    if kind == 'coin':
      yield dict(kind=kind, salt=rng.choice(['a', 'abc', 'ä☃', ' ', '0', 'x' * rng.randint(1, 80)]), item=rng.choice([rng.randrange(10**9), str(rng.randrange(10**5)), 'it em', '☃', '', '1.0', 1.5, 'A', 'a ']))
    elif kind == 'srm':
      yield dict(kind=kind, n1=rng.choice([0, 1, 5, 20, 45, 60]), n0=rng.choice([0, 1, 5, 20, 45, 60]), rows=rng.choice([1, 3]), seed=seed)
    elif kind == 'trim':
      yield dict(kind=kind, n=rng.choice([1, 2, 7, 20, 100, 333]), top=rng.choice([0.0, 0.01, 0.1, 0.25, 0.333, 0.5, -0.1]), bottom=rng.choice([0.0, 0.01, 0.1, 0.25, 0.49, 0.5, -0.1]), ties=rng.random() < 0.5, idx=rng.random() < 0.5, seed=seed)
    else:
      pre = rng.random() < 0.6
      yield dict(kind=kind, n=rng.choice([60, 75, 101, 150, 333]), weeks=rng.choice([3, 5, 8]), pretest=rng.choice([1, 2, 3, 8]), top=rng.choice([0.0, 0.01, 0.1, 0.017]) if pre else 0.0,
                 bottom=rng.choice([0.0, 0.01, 0.1, 0.053]) if pre else 0.0, salt=rng.choice([None, 'a', 'salty', 's☃']), ties=rng.random() < 0.3, ids=rng.choice(['int', 'str', 'unicode']),
                 daily=rng.random() < 0.3, trend=rng.random() < 0.6, week0=rng.choice([-20, -3, 0, 4]), seed=seed)


def ref_coin(salt, item):
  import hashlib
  return int(hashlib.md5((salt + str(item)).encode()).hexdigest(), 16) % 2


def _check_trim(case):
  import numpy as np
  import pandas as pd
  from feedx import data_preparation as dp
  r = np.random.default_rng(case['seed'])
  n = case['n']
  x = r.integers(0, 5, n).astype(float) if case['ties'] else r.normal(size=n)
  df = pd.DataFrame({'item': [f'i{k}' for k in range(n)], 'x': x, 'y': r.normal(size=n)})
  if case['idx']:
    df.index = r.permutation(n) + 5
  df0 = df.copy()
  ok = case['top'] >= 0 and case['bottom'] >= 0 and case['top'] + case['bottom'] < 1
  try:
    out = dp.trim_outliers(df, 'x', case['top'], case['bottom'], np.random.RandomState(1))
  except ValueError:
    return 'valid percentiles rejected' if ok else None
  if not ok:
    return 'impossible percentiles accepted'
  if not df.equals(df0):
    return 'input modified'
  kt, kb = math.floor(n * case['top']), math.floor(n * case['bottom'])
  if len(out) != n - kt - kb:
    return f'{len(out)} rows kept, expected {n - kt - kb}'
  if not out.equals(df0.loc[out.index]) or out['item'].nunique() != len(out):
    return 'kept rows changed'
  want = np.sort(x)[::-1][kt:n - kb]
  if not np.array_equal(np.sort(out['x'].values)[::-1], want):
    return 'the kept values are not the middle of the order'
  return None


def check(case):
  import numpy as np
  import pandas as pd
  from scipy import stats
  from feedx import data_preparation as dp
  from feedx import experiment_design as ed
  if case['kind'] == 'trim':
    return _check_trim(case)
  if case['kind'] == 'coin':
    coin = ed.Coinflip(case['salt'])
    w = ref_coin(case['salt'], case['item'])
    if coin(case['item']) != w or coin(case['item']) != w or ed.Coinflip(case['salt'])(str(case['item'])) != w:
      return 'coin flip differs from the parity of the md5 of salt and item'
    if type(coin(case['item'])) is not int:
      return 'assignment is not an integer'
    for bad in ('', None):
      try:
        ed.Coinflip(bad)
      except ValueError:
        continue
      return 'empty salt accepted'
    a, b = ed.Coinflip.with_random_salt(), ed.Coinflip.with_random_salt()
    return 'random salts repeat' if a.salt == b.salt or len(a.salt) < 10 else None
  r = np.random.default_rng(case['seed'])
  if case['kind'] == 'srm':
    n = case['n1'] + case['n0']
    if n == 0:
      return None
    df = pd.DataFrame({'item': [f'i{k}' for k in range(n)] * case['rows'], 'arm': ([1] * case['n1'] + [0] * case['n0']) * case['rows']}).sample(frac=1.0, random_state=3)
    bad = stats.binomtest(case['n1'], n, 0.5).pvalue < 0.001
    try:
      dp.validate_no_sample_ratio_mismatch(df, 'item', 'arm')
    except ValueError:
      return None if bad else f'split {case["n1"]}/{case["n0"]} rejected'
    return f'split {case["n1"]}/{case["n0"]} accepted' if bad else None
  n = case['n']
  ids = {'int': [int(k) for k in r.permutation(n) + 1000], 'str': [f'item_{k}' for k in r.permutation(n)], 'unicode': [f'ü{k}☃' for k in r.permutation(n)]}[case['ids']]
  reps = 7 if case['daily'] else 1
  rows = [(i, w + case['week0']) for i in ids for w in range(case['weeks']) for _ in range(reps)]
  df = pd.DataFrame(rows, columns=['item', 'week'])
  df['sales'] = r.integers(0, 4, len(df)).astype(float) if case['ties'] else r.lognormal(size=len(df))
  if case['trend']:
    df.loc[df['week'] <= case['week0'], 'sales'] *= 50.0   # the oldest week must not matter
  df = df.sample(frac=1.0, random_state=5)
  df0 = df.copy()
  k = dict(n_items_before_trimming=n, runtime_weeks=4, primary_metric='sales', pretest_weeks=case['pretest'], is_crossover=False, pre_trim_top_percentile=case['top'],
           pre_trim_bottom_percentile=case['bottom'], post_trim_percentile=0.0, coinflip_salt=case['salt'])
  try:
    d = ed.ExperimentDesign(**k)
  except ValueError:
    return None
  try:
    out = dp.perform_treatment_assignment(df, design=d, rng=np.random.RandomState(2), item_id_column='item', week_id_column='week')
  except ValueError as e:
    out = e
  if not df.equals(df0):
    return 'historical data modified'
  if not d.coinflip_salt or (case['salt'] and d.coinflip_salt != case['salt']):
    return 'salt not recorded in the design'
  if any(getattr(d, f) != x for f, x in k.items() if f != 'coinflip_salt'):
    return 'design modified'
  last = df0[df0['week'] > df0['week'].max() - case['pretest']]
  tot = last.groupby('item')['sales'].sum()
  if isinstance(out, Exception):
    if case['top'] or case['bottom']:
      return None if stats.binomtest(min(10, n), 2000, 0.5).pvalue < 0.001 and 'ismatch' in str(out) else f'rejected: {out}'
    m = sum(ref_coin(d.coinflip_salt, i) for i in ids)
    return None if stats.binomtest(m, n, 0.5).pvalue < 0.001 else f'balanced split rejected: {out}'
  if list(out.columns) != ['item', 'treatment_assignment'] or out['item'].nunique() != len(out):
    return 'an item is assigned twice or columns differ'
  if any(a != ref_coin(d.coinflip_salt, i) for i, a in zip(out['item'], out['treatment_assignment'])):
    return 'assignment is not the coin flip of the item'
  m = int(out['treatment_assignment'].sum())
  if stats.binomtest(m, len(out), 0.5).pvalue < 0.001:
    return f'impossible split {m}/{len(out)} accepted'
  if len(out) != d.n_items_after_pre_trim:
    return f'{len(out)} items assigned, the design says {d.n_items_after_pre_trim}'
  if not (case['top'] or case['bottom']):
    return None if set(out['item']) == set(ids) else 'assigned items differ from the items of the data'
  kt, kb = math.floor(n * case['top']), math.floor(n * case['bottom'])
  want = np.sort(tot.values)[::-1][kt:n - kb]
  got = np.sort(tot.loc[out['item']].values)[::-1]
  if not np.allclose(want, got):
    return 'the items left are not those in the middle of the last pretest weeks'
  again = dp.perform_treatment_assignment(df, design=d, rng=np.random.RandomState(2), item_id_column='item', week_id_column='week')
  return None if again.reset_index(drop=True).equals(out.reset_index(drop=True)) else 'repeating the assignment gives another one'
