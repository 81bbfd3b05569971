"""The table comparing designs."""
from props.common import *
from props.C27_validation import blank

ID = 'C28'
TITLE = 'The comparison of designs reports each design with its own numbers'
STATEMENT = (
    'The comparison table has one row per analysed design, identified by the design and sorted by the requested column, with all parameters of the design except its salt, its sensitivity, the simulated rates and the outcomes of the checks; what has not been estimated or validated is missing. '
    'Displayed, it shows exactly the columns that are not constant design parameters, whose common values are listed in the caption, and the validation columns only on request; shares and rates are shown as percentages, and passed and failed checks in green and red. '
    'Designs that have not been validated can be displayed too, and the table itself is not changed.')
QUANT = dict(over=['inputs', 'configurations'], text='any number of designs and values, every subset of constant parameters')
WHY = 'Tests display a single design and check column names and the sort order.'
ANCHORS = dict(files=['feedx/experiment_simulations.py'], mechanism=[
    dict(name='SimulationAnalysis.summary_dict', where='feedx/experiment_simulations.py'),
    dict(name='make_analysis_summary_dataframe', where='feedx/experiment_simulations.py'),
    dict(name='format_analysis_summary_dataframe', where='feedx/experiment_simulations.py')])
LEVEL_NOTE = ('The display for tables of any number of designs, with four free design parameters at a time and the others all constant or all varying; the table for zero to three designs. '
              'Rendering by the pandas Styler is recorded, not modelled; the runtime contract renders the table.')
TRUSTED = ['pandas Styler (recorder in engine/pdstub.py)', 'pandas sort_values on the table']
BOUNDED = ['the comparison table is built for one to three designs in the deductive part']
ASSUMPTIONS = ['the sensitivity of the designs has been estimated before they are displayed', 'floats as reals']
CONTRACTS = []
DESIGN = ['n_items_before_trimming', 'runtime_weeks', 'primary_metric', 'pretest_weeks', 'is_crossover', 'pre_trim_top_percentile', 'pre_trim_bottom_percentile', 'post_trim_percentile', 'crossover_washout_weeks', 'alpha', 'power', 'n_items_after_pre_trim', 'n_items_after_post_trim']
CHECKS = [f'{x}_robustness_check_pass' for x in ('null_p_value', 'power', 'false_positive_rate', 'aa_point_estimate', 'ab_point_estimate')] + ['all_robustness_checks_pass']
RATES = ['simulated_false_positive_rate', 'simulated_power_at_minimum_detectable_effect']
EFFECTS = ['minimum_detectable_effect', 'relative_minimum_detectable_effect']
CAPTION = ['primary_metric', 'alpha', 'power', 'n_items_before_trimming', 'n_items_after_pre_trim', 'n_items_after_post_trim', 'runtime_weeks', 'pretest_weeks', 'pre_trim_top_percentile', 'pre_trim_bottom_percentile', 'post_trim_percentile', 'is_crossover']
PERCENT = ['relative_minimum_detectable_effect', 'pre_trim_top_percentile', 'pre_trim_bottom_percentile', 'post_trim_percentile'] + RATES
title = lambda x: x.replace('_', ' ').title()


def design(c, v, k, cross):
  es = v.mod('experiment_simulations')
  return es.ExperimentDesign(n_items_before_trimming=1000 + k, runtime_weeks=4, primary_metric='x', pretest_weeks=3, is_crossover=cross, pre_trim_top_percentile=0.1, pre_trim_bottom_percentile=0.05, post_trim_percentile=0.1, crossover_washout_weeks=1 if cross else None, alpha=0.1, power=0.75, coinflip_salt=f'salt{k}')


def analysed(c, v, k, stage, cross):
  """(analysis, {field: value it reports}) of a design whose judgements are arbitrary."""
  from engine.core import SV, B
  es = v.mod('experiment_simulations')
  d = design(c, v, k, cross)
  want = {f: None for f in EFFECTS + RATES + CHECKS}
  if stage >= 1:
    want.update({f: c.real(f'{f}_{k}') for f in EFFECTS})
  if stage >= 2:
    want.update({f: c.real(f'{f}_{k}') for f in RATES})
    want.update({f: SV(c.fresh(f'{f}_{k}', B).t) for f in CHECKS})
  a = blank(v, d)
  cls = type('Analysed', (es.SimulationAnalysis,), {f: want[f] for f in RATES + CHECKS})
  a.__class__ = cls
  a.__dict__.update({f: want[f] for f in EFFECTS})
  return a, {**{f: getattr(d, f) for f in DESIGN}, **want, 'design_id': d.design_id}


def _same(c, a, b, what):
  from props.spec import z3, as_t
  from engine.core import SV
  if isinstance(a, SV) or isinstance(b, SV):
    c.prove(z3.BoolVal(False) if a is None or b is None or isinstance(a, str) or isinstance(b, str) else as_t(a) == as_t(b), what)
  else:
    c.prove(z3.BoolVal(type(a) == type(b) and a == b), what)


@contract(CONTRACTS, 'summary_dict')
def _dict(c, v):
  from props.spec import z3
  a, want = analysed(c, v, 0, c.decide(3), bool(c.decide(2)))
  s = a.summary_dict()
  c.prove(z3.BoolVal(sorted(s) == sorted(want)), 'exactly the fields of the summary')
  for f in want:
    if f in s:
      _same(c, s[f], want[f], f)


def _table(n):
  def fn(c, v):
    from props.spec import z3
    es = v.mod('experiment_simulations')
    stage = c.decide(3)
    xs = [analysed(c, v, k, stage if k != 1 else 1, bool((k + c.decide(2)) % 2)) for k in range(n)]
    ids = [w['design_id'] for _, w in xs]
    for i in range(n):
      for j in range(i):
        c.assume(z3.BoolVal(not (isinstance(ids[i], str) and isinstance(ids[j], str) and ids[i] == ids[j])))
    by = c.decide(2)
    ev = len(c.events)
    t = es.make_analysis_summary_dataframe([a for a, _ in xs], **({'sort_by': 'runtime_weeks'} if by else {}))
    ok = lambda b, m: c.prove(z3.BoolVal(bool(b)), m)
    e = [x for x in c.events[ev:] if x[0] == 'sort_values']
    kw = dict(e[0][2]) if len(e) == 1 else {}
    ok(len(e) == 1 and e[0][1] in (('runtime_weeks', ['runtime_weeks']) if by else ('relative_minimum_detectable_effect', ['relative_minimum_detectable_effect'])) and kw.get('ascending', True) is True, 'sorted by the requested column')
    ok(len(t.rows) == n and t.idx is not None and t.idx[0] == 'design_id', 'one row per design, by its id')
    for (a, w), r, i in zip(xs, t.rows, t.idx[1]):
      _same(c, i, w['design_id'], 'identified by the design')
      ok(sorted(r) == sorted(set(w) - {'design_id'}), 'columns')
      for f in r:
        if f in w:
          _same(c, r[f], w[f], f)
  return fn


for _n in (1, 2, 3):
  CONTRACTS.append(Contract(f'make_analysis_summary_dataframe ({_n} design{"s" if _n > 1 else ""})', _table(_n)))


@contract(CONTRACTS, '_format_check_column')
def _colour(c, v):
  from props.spec import z3
  f = v.mod('experiment_simulations')._format_check_column
  ok = lambda b, m: c.prove(z3.BoolVal(bool(b)), m)
  ok(f(None) == '', 'no colour if not validated')
  ok('background-color:lightgreen' in f(True).replace(' ', ''), 'passed is green')
  ok('background-color:darkred' in f(False).replace(' ', ''), 'failed is red')


def _display(free, rest):
  """free: parameters that are constant or not, both explored; rest: whether the others are constant."""
  def fn(c, v):
    import re
    from props.spec import z3, as_t, And
    from props.frames import frame, snap, unchanged
    from engine import pdstub
    es = v.mod('experiment_simulations')
    cols = {f: 'real' for f in DESIGN + EFFECTS + RATES}
    cols.update({f: 'bool' for f in CHECKS + ['is_crossover']})
    cols.update(primary_metric='obj', design_id='obj')
    state = c.decide(2)         # validated; not validated
    df = frame(c, cols, nulls=('crossover_washout_weeks',) + (tuple(RATES) if state else ()))
    df._index = pdstub.Index(df.dom, [df.cols.pop('design_id')], ['design_id'])
    c.assume(df.dom.card() >= 1)
    const = {}
    for f in CAPTION:
      n = df[f].nunique(dropna=False)
      if f in free:
        const[f] = bool(c.fork(as_t(n) == 1))
      else:
        const[f] = rest
        c.assume(as_t(n) == 1 if rest else as_t(n) != 1)
    s = snap(df)
    cells = dict(df.cols)
    val = bool(c.decide(2))
    st = es.format_analysis_summary_dataframe(df, **({} if val and c.decide(2) else dict(with_validation_columns=val)))
    ok = lambda b, m: c.prove(z3.BoolVal(bool(b)), m)
    unchanged(c, df, s, 'table')
    shown = [f for f in cells if not const.get(f) and (val or f not in CHECKS + RATES)]
    out = st.data
    ok(list(out.cols) == [title(f) for f in shown], 'exactly the columns that are not constant')
    ok(out.dom.same_rows(df.dom) and not st.hidden, 'every design')
    i = df.dom.skolem('i')
    from props.frames import same
    for f in shown:
      same(c, out.cols[title(f)](i), cells[f](i), f'{f}: values')
    same(c, out.index.levels[0](i), df._index.levels[0](i), 'design ids')
    text = st.caption.split('for all designs: ')[-1] if isinstance(st.caption, str) else ''
    toks = [x for x in text.split(', ') if x]
    ok([x.split(' = ')[0] for x in toks] == [f for f in CAPTION if const[f]], 'the constant parameters in the caption')
    top = df.dom.at(0)
    for x in toks:
      f, _, y = x.partition(' = ')
      if const.get(f):
        # finite sets: the members of a set of one element are equal
        rep = pdstub.rep_fn(df.dom, [cells[f]])[0]
        c.fact(z3.Implies(And(as_t(df[f].nunique(dropna=False)) == 1, df.dom.mem(top), df.dom.mem(i)), rep(top[1][0]) == rep(i[1][0])))
      if f in CAPTION and y in c.tokens:
        sv, sp = c.tokens[y]
        c.prove(z3.BoolVal(sp == ''), f'{f}: plain value')
        c.prove(pdstub.key_eq(sv, cells[f](i)), f'{f}: the value of every design')
      else:
        ok(False, f'{f}: a value')
    want = {title(f) for f in PERCENT if f in shown}
    ok({f for f, (g, _) in st.formats.items() if g is not None} == want, 'percentages exactly for shares and rates')
    from engine.core import SV
    for f, (g, na) in st.formats.items():
      x = c.real('shown')
      t = g.format(x) if isinstance(g, str) else g(x)
      sv, sp = c.tokens.get(t, (None, None)) if isinstance(t, str) else (None, None)
      c.prove(z3.BoolVal(sv is not None and sp == '.2%') if sv is None else as_t(sv) == x.t, f'{f}: the value')
      ok(sp == '.2%', f'{f}: as a percentage with two decimals')
      if f in [title(r) for r in RATES]:
        fine = na is not None or callable(g)
        if fine and na is None:
          o = c.call(g, None)
          fine = o.ok
        ok(fine, f'{f}: missing rates can be displayed')
    ok(set(st.styles) == {title(f) for f in CHECKS if f in shown}, 'colours exactly for the checks')
    for f, fs in st.styles.items():
      ok(len(fs) == 1 and all('lightgreen' in g(True) and 'lightgreen' not in g(False) and 'darkred' in g(False) and g(None) == '' for g, k in fs), f'{f}: green and red')
  return fn


_W = [CAPTION[k:k + 3] for k in range(0, 12, 3)]
for _k, _f in enumerate(_W):
  for _r in (True, False):
    CONTRACTS.append(Contract(f'format_analysis_summary_dataframe (free: {_f[0]}..{_f[-1]}, others {"constant" if _r else "varying"})', _display(_f, _r)))


# -- runtime contract ----------------------------------------------------------
def cases(rng):
  while True:
    rows = []
    same = {f: rng.random() < 0.5 for f in DESIGN}
    vals = dict(n_items_before_trimming=[1000, 1001, 5000], runtime_weeks=[2, 4, 8], primary_metric=['clicks', 'sales'], pretest_weeks=[1, 2, 4], is_crossover=[True, False], pre_trim_top_percentile=[0.0, 0.01, 0.012, 0.05], pre_trim_bottom_percentile=[0.0, 0.01], post_trim_percentile=[0.0, 0.02, 0.1], alpha=[0.05, 0.05, 0.053, 0.1], power=[0.8, 0.8, 0.804, 0.9])
    base = {f: rng.choice(v) for f, v in vals.items()}
    for k in range(rng.choice([1, 2, 2, 3, 6])):
      rows.append({f: base[f] if same[f] else rng.choice(v) for f, v in vals.items()})
    yield dict(rows=rows, stage=rng.choice(['mde', 'validated', 'validated', 'some']), sort=rng.choice([None, None, 'minimum_detectable_effect', 'runtime_weeks', 'alpha']), val=rng.choice([None, True, False]), m=rng.choice([2, 20, 100]), neg=rng.random() < 0.1, seed=rng.randrange(10**6))


def check(case):
  import re
  import warnings
  import numpy as np
  import pandas as pd
  from feedx import experiment_simulations as es
  from feedx import experiment_design as ed
  warnings.simplefilter('ignore')
  r = np.random.default_rng(case['seed'])
  hist = pd.DataFrame({'wk': [0, 30], 'item': 'a', 'clicks': 1.0})
  out, want = [], {}
  for k, x in enumerate(case['rows']):
    d = ed.ExperimentDesign(crossover_washout_weeks=0 if x['is_crossover'] else None, coinflip_salt=f's{k}', **x)
    if d.design_id in want:
      continue
    a = es.SimulationAnalysis(design=d, historical_data=hist, item_id_column='item', week_id_column='wk', minimum_start_week_id=0, rng=r)
    a.minimum_detectable_effect, a.relative_minimum_detectable_effect = float(r.normal(3, 1)) * (-1 if case['neg'] else 1), float(r.gamma(2, 0.05))
    if case['stage'] == 'validated' or (case['stage'] == 'some' and k % 2):
      m = case['m']
      a.aa_simulation_results = pd.DataFrame({'p_value': r.random(m), 'absolute_difference': r.normal(0, 1, m)})
      a.ab_simulation_results = pd.DataFrame({'p_value': np.where(r.random(m) < r.choice([0.3, x['power']]), 1e-3, 0.5), 'absolute_difference': r.normal(a.minimum_detectable_effect, 1, m)})
    out.append(a)
    want[d.design_id] = {**{f: getattr(d, f) for f in DESIGN}, **{f: getattr(a, f) for f in EFFECTS + RATES + CHECKS}}
  eq = lambda a, b: (a is None or a != a) if b is None else (a is not None and a == b)
  t = es.make_analysis_summary_dataframe(out, **({} if case['sort'] is None else dict(sort_by=case['sort'])))
  if t.index.name != 'design_id' or sorted(t.index) != sorted(want) or sorted(t.columns) != sorted(DESIGN + EFFECTS + RATES + CHECKS):
    return f'rows {list(t.index)}, columns {sorted(set(t.columns) ^ set(DESIGN + EFFECTS + RATES + CHECKS))}'
  for i, w in want.items():
    for f, x in w.items():
      if not eq(t.loc[i, f], x):
        return f'{f} of design {i}: {t.loc[i, f]} instead of {x}'
  by = list(t[case['sort'] or 'relative_minimum_detectable_effect'])
  if by != sorted(by):
    return f'not sorted: {by}'
  before = t.copy()
  st = es.format_analysis_summary_dataframe(t, **({} if case['val'] is None else dict(with_validation_columns=case['val'])))
  if not t.equals(before) or list(t.columns) != list(before.columns):
    return 'the table changed'
  val = case['val'] is not False
  const = [f for f in CAPTION if len({w[f] for w in want.values()}) == 1]
  shown = [f for f in t.columns if f not in const and (val or f not in RATES + CHECKS)]
  if list(st.columns) != [title(f) for f in shown]:
    return f'columns {list(st.columns)}'
  html = st.to_html()
  cap = re.search(r'<caption>(.*?)</caption>', html, re.S)
  cap = cap.group(1) if cap else ''
  w0 = next(iter(want.values()))
  if sorted(cap.split('for all designs: ')[-1].split(', ')) != sorted(f'{f} = {w0[f]}' for f in const) and const:
    return f'caption {cap}'
  tr = st._translate(False, False)
  ids = [row[0]['display_value'] for row in tr['body']]
  if ids != list(t.index):
    return f'displayed designs {ids}'
  for row, i in zip(tr['body'], t.index):
    cells = [x for x in row if x['type'] == 'td' and x.get('is_visible', True)]
    if len(cells) != len(shown):
      return f'{len(cells)} cells for {len(shown)} columns'
    for x, f in zip(cells, shown):
      w = want[i][f]
      if w is None:
        continue
      if f in PERCENT and x['display_value'] != f'{w:.2%}':
        return f'{f} is displayed as {x["display_value"]} instead of {w:.2%}'
      if isinstance(w, str) and x['display_value'] != w:
        return f'{f} is displayed as {x["display_value"]}'
  st._compute()
  for j, i in enumerate(t.index):
    for k, f in enumerate(shown):
      css = dict(st.ctx.get((j, k), []))
      if f in CHECKS:
        w = want[i][f]
        c = css.get('background-color')
        if c != (None if w is None else 'lightgreen' if w else 'darkred'):
          return f'{f} = {w} is coloured {c}'
      elif 'background-color' in css:
        return f'{f} is coloured {css}'
  return None
