"""Contracts shared by the two validation gates."""
from props.common import *


class Gate:
  """one of the two validation functions, called on a table of unbounded length."""

  def __init__(self, name, checks, experiment=False):
    self.name, self.checks, self.experiment = name, checks, experiment

  def frame(self, c):
    from props.frames import frame
    df = frame(c, {'start': 'date', 'item': 'obj', 'week': 'int', **({'arm': 'int'} if self.experiment else {}), 'clicks': 'real', 'net_clicks': 'real'}, nulls=('clicks', 'net_clicks'))
    c.assume(df.dom.card() > 0)
    return df

  def prepare(self, c, v, check=None):
    """the other arguments."""
    self.metrics = self.positive = ['clicks']
    self.kw = dict(primary_metric_column='clicks')
    if not self.experiment:
      return
    from props.spec import SV, I, as_t
    from engine import core
    ed = v.mod('experiment_design')
    d = object.__new__(ed.ExperimentDesign)
    d.__dict__.update(n_items_after_pre_trim=c.int('n_items'), pretest_weeks=c.int('pretest'), runtime_weeks=c.int('runtime'), primary_metric='clicks', coinflip_salt='pepper')
    self.design = d
    self.start_text = SV(c.fresh('start', I).t, 'obj')
    self.start = core.DATEOF(self.start_text.t)
    few = check not in ('all_metrics_are_finite', 'all_metrics_are_non_negative', 'primary_metric_in_metrics', None)
    self.metrics = ['clicks', 'net_clicks'] if few else [['clicks', 'net_clicks'], ['net_clicks', 'clicks'], ['clicks']][c.decide(3)]
    neg = None if few else [None, [], ['net_clicks'], ['clicks', 'net_clicks'], ['clicks', 'absent']][c.decide(5)]
    self.positive = [m for m in self.metrics if m not in (neg or [])]
    self.concluded = True if check != 'experiment_dates_match_design' else [True, False, None][c.decide(3)]
    self.kw = dict(design=d, treatment_assignment_column='arm', metric_columns=self.metrics, experiment_start_date=self.start_text)
    if self.concluded is not None:
      self.kw['experiment_has_concluded'] = self.concluded
    else:
      self.concluded = True
    if neg is not None:
      self.kw['can_be_negative_metric_columns'] = neg

  def f(self, v):
    return getattr(v.mod('data_preparation'), self.name)

  def call(self, c, v, df, skip):
    return c.call(self.f(v), df, item_id_column='item', date_column='start', week_id_column='week', **self.kw, **(dict(skip_validation_checks=skip) if skip is not None else {}))


def _week_of_date(c, df):
  """all rows of a date have the same week number."""
  from props.spec import z3, as_t
  x, y = z3.Ints('wx wy')
  X, Y = (0, (x,)), (0, (y,))
  d, t, w = df.dom, (lambda i: as_t(df.cols['start'](i))), (lambda i: as_t(df.cols['week'](i)))
  c.axiom(z3.ForAll([x, y], z3.Implies(z3.And(d.mem(X), d.mem(Y), t(X) == t(Y)), w(X) == w(Y)), patterns=[z3.MultiPattern(t(X), t(Y))]))


def _others_pass(v, keep):
  """replace every validation function but one by its contract for a passing outcome (no effect)."""
  from props.frames import checks_by_name
  dp = v.mod('data_preparation')
  for name, attr in checks_by_name(dp).items():
    if name != keep:
      setattr(dp, attr, lambda *a, **k: None)


def restore(v):
  dp = v.mod('data_preparation')
  from props.frames import checks_by_name
  return {('data_preparation', a): getattr(dp, a) for a in checks_by_name(dp).values()}


def sound(gate, check):
  """accepted (perhaps with other checks skipped) => the condition of this check."""
  def fn(c, v):
    from props.spec import z3, as_t, Rt, And, Or, Not, Implies, I
    from props.frames import snap, unchanged, Panel, touch_order, neighbours
    from engine import pdstub
    df = gate.frame(c)
    gate.prepare(c, v, check)
    CHECKS = gate.checks
    s = snap(df)
    _others_pass(v, check)
    skip = [None, [], [k for k in CHECKS if k != check], [check]][c.decide(4)]
    if skip == [check]:
      o = gate.call(c, v, df, skip)
      c.prove(z3.BoolVal(o.ok), 'a skipped check does not reject')
      unchanged(c, df, s, 'data')
      return
    if check == 'no_nulls':
      from props.frames import populated
      for k in ('clicks', 'net_clicks'):
        populated(c, df.dom.filter(lambda i: df[k].isnull().fn(i)))
    if check == 'all_metrics_are_finite':
      from props.frames import populated
      for m in gate.metrics:
        populated(c, df.dom.filter(lambda i: df[m].isnull().fn(i)))
    if check == 'all_metrics_are_non_negative':
      from props.frames import populated
      for m in gate.positive:
        populated(c, df.dom.filter(lambda i: (df[m] < 0).fn(i)))
    if check == 'week_ids_are_consecutive_integers':
      _week_of_date(c, df)
    if check == 'no_duplicate_items_per_date':
      p = Panel(c, df, 'start', 'item')
      p.lemmas()
    if check == 'treatment_assignment_is_unique':
      from props.frames import one_value_per_group
      one_value_per_group(c, df, 'item', 'arm')
    o = gate.call(c, v, df, skip)
    unchanged(c, df, s, 'data')
    if not o.ok:
      c.prove(z3.BoolVal(o.raised(ValueError)), 'rejection is a ValueError')
      return
    col, d = df.cols, df.dom
    a, b = d.skolem('a'), d.skolem('b')
    t, w = (lambda i: as_t(col['start'](i))), (lambda i: as_t(col['week'](i)))
    neigh = lambda x, y: And(t(x) < t(y), Not(d.exists(lambda q: And(t(q) > t(x), t(q) < t(y)))))
    if check == 'no_nulls':
      for k in col:
        c.prove(Not(pdstub.isnull(col[k](a))), f'no missing {k}')
    elif check == 'no_duplicate_items_per_date':
      p.touch(a, b)
      K = pdstub.key_eq
      c.prove(Implies(And(t(a) == t(b), K(col['item'](a), col['item'](b))), And(*[x == y for x, y in zip(a[1], b[1])])), 'an item has one row per date')
      ca, cb = p.counts(t(a))
      c.lemma(ca == cb, 'no item appears twice on a date')
      c.lemma(cb == p.items.card(), 'every date has as many rows as there are items')
      r = p.row_of(t(a), b)
      c.fact(c.fresh('row', I).t == r[1][0])
      p.touch(r)
      c.lemma(And(d.mem(r), t(r) == t(a)), 'the row is on the date')
      c.lemma(K(col['item'](r), col['item'](b)), 'the row is of the item')
      c.prove(d.exists(lambda q: And(t(q) == t(a), K(col['item'](q), col['item'](b)))), 'every item has a row on every date')
    elif check == 'dates_are_daily_or_weekly':
      touch_order(c, df, ['start'], a, b)
      c.assume(neigh(a, b))
      neighbours(c, df, ['start'], a, b)
      # on this path the same distance for arbitrary neighbours a, b
      gap = next((k for k in (7, 1) if c.soft(t(b) - t(a) == k)), 7)
      c.prove(t(b) - t(a) == gap, 'all neighbouring dates one or all seven days apart')
    elif check == 'week_ids_are_consecutive_integers':
      for x in (a, b):
        rs = pdstub.rep_fn(d, [col['week'], col['start']])
        for r in rs:
          c.fact(c.fresh('first', I).t == r(*x[1]))
      c.prove(Implies(neigh(a, b), Or(w(b) - w(a) == 0, w(b) - w(a) == 1)), 'week numbers of neighbouring dates are equal or consecutive')
    elif check == 'all_metrics_are_finite':
      for m in gate.metrics:
        c.prove(Not(pdstub.isnull(col[m](a))), f'{m} is finite')
    elif check == 'all_metrics_are_non_negative':
      for m in gate.positive:
        c.prove(Or(pdstub.isnull(col[m](a)), Rt(col[m](a)) >= 0), f'{m} is not negative')
    else:
      _design_condition(c, v, gate, check, df, prove=True)
  return fn


def complete(gate, check):
  """the condition of a check holds => the check does not reject."""
  def fn(c, v):
    from props.spec import z3, as_t, Rt, And, Or, Not, Implies, I
    from props.frames import snap, unchanged, Panel, assume_spacing, populated
    from engine import pdstub
    df = gate.frame(c)
    gate.prepare(c, v, check)
    CHECKS = gate.checks
    s = snap(df)
    _others_pass(v, check)
    col, d = df.cols, df.dom
    x, y = z3.Ints('ax ay')
    X, Y = (0, (x,)), (0, (y,))
    missing = lambda k, i: pdstub.isnull(col[k](i))
    num = lambda k, i: as_t(col[k](i))
    if check == 'no_nulls':
      for k in ('clicks', 'net_clicks'):
        c.axiom(z3.ForAll([x], Implies(d.mem(X), Not(missing(k, X))), patterns=[missing(k, X)]))
        populated(c, d.filter(lambda i: df[k].isnull().fn(i)))
    elif check == 'no_duplicate_items_per_date':
      p = Panel(c, df, 'start', 'item')
      p.lemmas()
      p.assume_complete()
    elif check == 'dates_are_daily_or_weekly':
      assume_spacing(c, df, 'start', [1, 7][c.decide(2)])
    elif check == 'week_ids_are_consecutive_integers':
      # in date order the week numbers rise by at most one
      _week_of_date(c, df)
      from props.frames import on_neighbours
      b = z3.Function('between', I, I)
      t, w = (lambda i: num('start', i)), (lambda i: num('week', i))

      def fact(P, X):
        Q = (0, (b(X[1][0]),))
        return Implies(t(P) < t(X), Or(And(w(X) - w(P) >= 0, w(X) - w(P) <= 1), And(d.mem(Q), t(P) < t(Q), t(Q) < t(X)))), [Q]
      on_neighbours(c, df, fact)
    elif check == 'all_metrics_are_finite':
      for m in gate.metrics:
        c.axiom(z3.ForAll([x], Implies(d.mem(X), Not(missing(m, X))), patterns=[missing(m, X)]))
        populated(c, d.filter(lambda i: df[m].isnull().fn(i)))
    elif check == 'all_metrics_are_non_negative':
      for m in gate.positive:
        c.axiom(z3.ForAll([x], Implies(d.mem(X), num(m, X) >= 0), patterns=[num(m, X)]))
        populated(c, (df[m] < 0)._arr().dims[0].filter(lambda i: (df[m] < 0).fn(i)))
    else:
      _design_condition(c, v, gate, check, df, prove=False)
    o = gate.call(c, v, df, [None, [], [k for k in CHECKS if k != check]][c.decide(3)])
    c.prove(z3.BoolVal(o.ok), 'not rejected')
    unchanged(c, df, s, 'data')
  return fn


def compose(gate):
  return lambda c, v: _compose(c, v, gate)


def _compose(c, v, gate):
  """every check is asked exactly about the given data, and one failure is enough."""
  from props.spec import z3
  from props.frames import checks_by_name
  dp = v.mod('data_preparation')
  df = gate.frame(c)
  gate.prepare(c, v)
  CHECKS = gate.checks
  ran, failed = [], []
  names = checks_by_name(dp)
  c.prove(z3.BoolVal(set(CHECKS) <= set(names)), 'all checks exist')

  def stub(name):
    def check(*a, **k):
      ran.append((name, a, k))
      if c.decide(2):
        failed.append(name)
        raise ValueError(name)
    return check
  for name, attr in names.items():
    setattr(dp, attr, stub(name))
  skip = [None, [], ['no_nulls']][c.decide(3)]
  o = gate.call(c, v, df, skip)
  for _, a, k in ran:
    frames = [x for x in list(a) + list(k.values()) if hasattr(x, 'dom')]
    c.prove(z3.BoolVal(all(x is df for x in frames)), 'checks look at the given data')
    if gate.experiment:
      designs = [x for x in list(a) + list(k.values()) if isinstance(x, type(gate.design))]
      c.prove(z3.BoolVal(all(x is gate.design for x in designs)), 'checks look at the given design')
    c.prove(z3.BoolVal(list(k.get('skip_validation_checks') or []) == list(skip or [])), 'checks know what is skipped')
  if o.ok:
    c.prove(z3.BoolVal(not failed and {k for k in CHECKS if gate.positive or k != 'all_metrics_are_non_negative'} <= {n for n, _, _ in ran}), 'accepted only if every check passed')
  else:
    c.prove(z3.BoolVal(o.raised(ValueError) and bool(failed)), 'rejected only if a check failed')


def unknown_skips(gate):
  return lambda c, v: _skips(c, v, gate)


def _skips(c, v, gate):
  from props.spec import z3
  from props.frames import snap, unchanged
  _others_pass(v, None)
  df = gate.frame(c)
  gate.prepare(c, v)
  CHECKS = gate.checks
  bad = ['unknown', 'no_null', '', 'No_nulls'][c.decide(4)]
  skip = [[bad], ['no_nulls', bad], [bad] + CHECKS][c.decide(3)]
  o = gate.call(c, v, df, skip)
  c.prove(z3.BoolVal(o.raised(ValueError)), 'unknown check rejected')




def _design_condition(c, v, gate, check, df, prove):
  """conditions that only experiment data has to meet; proved of accepted data, or assumed."""
  from props.spec import z3, as_t, Rt, And, Or, Not, Implies, I
  from engine import pdstub
  d, col, des = df.dom, df.cols, gate.design
  t, arm = (lambda i: as_t(col['start'](i))), (lambda i: as_t(col['arm'](i)))
  say = (lambda e, name: c.prove(e, name)) if prove else (lambda e, name: c.assume(e))
  if check == 'number_of_items_matches_design':
    say(pdstub.unique_dom(d, [col['item']]).card() == as_t(des.n_items_after_pre_trim), 'as many items as designed')
  elif check == 'experiment_dates_match_design':
    first, last = gate.start - 7 * as_t(des.pretest_weeks), gate.start + 7 * (as_t(des.runtime_weeks) - 1)
    say(d.exists(lambda q: t(q) <= first), 'the pretest period is covered')
    if gate.concluded:
      say(d.exists(lambda q: t(q) >= last), 'the runtime is covered')
  elif check == 'treatment_assignment_is_unique':
    if prove:
      a, b = d.skolem('a'), d.skolem('b')
      ri = pdstub.rep_fn(d, [col['item']])[0]
      ra = pdstub.rep_fn(d, [col['item'], col['arm']])[0]
      for q in (a, b):
        c.fact(c.fresh('first', I).t == ri(q[1][0]))
        c.fact(c.fresh('first', I).t == ra(q[1][0]))
      c.prove(Implies(pdstub.key_eq(col['item'](a), col['item'](b)), arm(a) == arm(b)), 'one treatment assignment per item')
    else:
      from props.frames import one_value_per_group
      one_value_per_group(c, df, 'item', 'arm')
      x, y = z3.Ints('ux uy')
      X, Y = (0, (x,)), (0, (y,))
      c.axiom(z3.ForAll([x, y], Implies(And(d.mem(X), d.mem(Y), as_t(col['item'](X)) == as_t(col['item'](Y))), arm(X) == arm(Y)), patterns=[z3.MultiPattern(as_t(col['item'](X)), as_t(col['item'](Y)))]))
  elif check == 'coinflip_salt_validation':
    coin = v.mod('experiment_design').Coinflip(des.coinflip_salt)
    if prove:
      a = d.skolem('a')
      c.prove(arm(a) == as_t(coin(col['item'](a))), 'assignments as flipped by the salt')
    else:
      x = z3.Int('ux')
      with c.bound([x], z3.BoolVal(True)):
        want = as_t(coin(col['item']((0, (x,)))))
      c.axiom(z3.ForAll([x], Implies(d.mem((0, (x,))), arm((0, (x,))) == want), patterns=[arm((0, (x,)))]))
  elif check == 'no_sample_ratio_mismatch' and prove:
    ev = [e for e in c.events if e[0] == 'binomtest']
    c.prove(z3.BoolVal(len(ev) == 1), 'one test')
    _, a, k, r = ev[0]
    k = {**dict(zip(('k', 'n', 'p', 'alternative'), a)), **k}
    of = lambda w: pdstub.unique_dom(d, [col['item'], col['arm']]).filter(lambda i: arm(i) == w).card()
    c.prove(Or(as_t(k['k']) == of(1), as_t(k['k']) == of(0)), 'counts the items of a group')
    c.prove(as_t(k['n']) == of(0) + of(1), 'among the items of both groups')
    c.prove(z3.BoolVal(k.get('p', 0.5) == 0.5 and k.get('alternative', 'two-sided') == 'two-sided'), 'two sided, half each')
    c.prove(as_t(r.pvalue) >= z3.RealVal('1/1000'), 'accepted splits are not significant at 0.001')
  elif check == 'primary_metric_in_metrics' and prove:
    c.prove(z3.BoolVal('clicks' in gate.metrics), 'the primary metric is a metric')
