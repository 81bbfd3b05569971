"""Symbolic data frames for contracts (only imported inside contracts)."""
from __future__ import annotations
import z3
from engine import core, npstub, pdstub
from engine.core import SV, R, I, B, as_t, simp, to_real, num_t, to_int

SORT = dict(real=R, int=I, date=I, obj=I, bool=B)


def frame(c, cols, name='d', nulls=(), n=None):
  """A frame of unbounded symbolic length; cols: {label: kind}, nulls: labels that may hold missing values."""
  n = n if n is not None else c.int('n_' + name)
  c.assume(as_t(n) >= 0)
  d = npstub.Dom.range(as_t(n), name)
  out = {}
  for k, kind in cols.items():
    f = z3.Function(f'{name}.{k}', I, SORT[kind])
    sk = {'date': 'date', 'obj': 'obj', 'bool': None, 'real': None, 'int': None}[kind]
    if k in nulls:
      g = z3.Function(f'{name}.{k}.missing', I, B)
      out[k] = lambda i, f=f, g=g, sk=sk: SV(f(i[1][0]), sk, g(i[1][0]))
    else:
      out[k] = lambda i, f=f, sk=sk: SV(f(i[1][0]), sk)
      if kind == 'obj':
        v = z3.Int('v')
        c.axiom(z3.ForAll([v], f(v) != core.code_of(None), patterns=[f(v)]))
        c.data.setdefault('nonnone', set()).add(f.name())
    c.inputs[f'{name}.{k}'] = (f, d)
  return pdstub.DataFrame._make(d, out)


def snap(df):
  return (df.dom, dict(df.cols), df.version)


def unchanged(c, df, s, what):
  """frame condition: same rows, same columns, same values."""
  d0, cols, _ = s
  c.prove(z3.BoolVal(df.dom is d0 or df.dom.same_rows(d0)), f'{what}: rows unchanged')
  c.prove(z3.BoolVal(list(df.cols) == list(cols)), f'{what}: columns unchanged')
  for k in cols:
    if k in df.cols and df.cols[k] is not cols[k]:
      i = d0.skolem('i')
      same(c, df.cols[k](i), cols[k](i), f'{what}: column {k} unchanged')


def same(c, a, b, name, **k):
  na, nb = simp(pdstub.isnull(a)), simp(pdstub.isnull(b))
  if core.is_true(na) or core.is_true(nb):
    c.prove(na == nb, name + ' (missing)', **k)
    return
  e = pdstub.key_eq(a, b)
  if not (core.is_false(na) and core.is_false(nb)):
    c.prove(na == nb, name + ' (missing)', **k)
    e = z3.Or(na, e)
  c.prove(e, name, **k)


def covers(c, out_dom, out_keys, in_dom, in_keys, name, cond=None):
  """every key of the input (rows satisfying cond) occurs in the output exactly once and nothing else occurs.

  out_keys / in_keys: lists of idx -> scalar."""
  i = in_dom.skolem('in')
  if cond is not None:
    c.assume(cond(i))
  c.prove(out_dom.exists(lambda o: z3.And(*[pdstub.key_eq(f(o), g(i)) for f, g in zip(out_keys, in_keys)])), f'{name}: nothing is lost')


def same_card(c, a, b, name):
  """two selections of rows of the same root hold the same rows, hence equally many."""
  va = a.branches[0][0]
  vs = tuple(c.fresh('row', I).t for _ in va)
  c.prove(a.mem((0, vs)) == b.mem((0, vs)), name)
  c.fact(a.card() == b.card())


# -- finite sets ------------------------------------------------------------------
# Two facts about finite sets, used as lemmas (their premises are proved in place):
#   (1) A subset of B and |A| = |B|  =>  A = B;   A subset of B, |A| != |B|  =>  some element of B is not in A
#   (2) f: A -> B one-to-one, |A| = |B|  =>  f hits every element of B; otherwise it misses one

def populated(c, dom):
  """a count is zero exactly if there is nothing to count."""
  x, w = z3.Int('nx'), c.fresh('counted', I).t
  n = dom.card()
  m = dom.mem((0, (x,)))
  trig = [t for t in _apps(m, x)]
  c.axiom(z3.ForAll([x], z3.Implies(m, n >= 1), patterns=trig[:1]) if trig else z3.ForAll([x], z3.Implies(m, n >= 1)))
  c.fact(z3.Implies(n >= 1, dom.mem((0, (w,)))))


def _apps(t, x):
  out, todo = [], [t]
  while todo:
    y = todo.pop()
    if z3.is_app(y):
      if y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.num_args() and any(a.eq(x) for a in y.children()):
        out.append(y)
      todo.extend(y.children())
  return out


def touch_order(c, df, col, *idx):
  """mention, for rows of an ordered column, their position and predecessor in every order the code has used."""
  r = pdstub.rep_fn(df.dom, [df.cols[k] for k in col])
  ranks = lambda e: [c.fact(c.fresh('pos', I).t == h[0](*e)) for h in list(c.data.get('rank', {}).values())]
  for i in idx:
    rep = [f(*i[1]) for f in r]
    for x in rep:
      c.fact(c.fresh('first', I).t == x)
    ranks(rep)
    for fs in list(c.data.get('prev', {}).values()):
      if fs[0].arity() == len(rep):
        p = [f(*rep) for f in fs]
        for x in p:
          c.fact(c.fresh('prev', I).t == x)
        ranks(p)


def checks_by_name(mod):
  """the registered validation functions of a module: {check name: attribute}."""
  out = {}
  for attr, f in vars(mod).items():
    for cell in getattr(f, '__closure__', None) or ():
      try:
        x = cell.cell_contents
      except ValueError:
        continue
      if isinstance(x, str) and x in getattr(mod.ValidationChecks, '_CHECKS', ()):
        out[x] = attr
  return out


class Panel:
  """items and dates of a frame: counts of rows and of distinct items per date."""

  def __init__(self, c, df, date, item):
    self.c, self.df, self.d = c, df, df.dom
    self.date, self.item = df.cols[date], df.cols[item]
    self.rep2 = pdstub.rep_fn(self.d, [self.date, self.item])
    self.repi = pdstub.rep_fn(self.d, [self.item])
    self.repd = pdstub.rep_fn(self.d, [self.date])
    self.items = pdstub.unique_dom(self.d, [self.item])
    self.K = pdstub.key_eq
    self.ask = z3.Function('asked_for', I, I, B)

  def t(self, i):
    return as_t(self.date(i))

  def isrep(self, i):
    return z3.And(*[f(*i[1]) == v for f, v in zip(self.rep2, i[1])])

  def rows(self, t):
    return self.d.filter(lambda i: SV(as_t(self.date(i)) == t))

  def counts(self, t):
    b = self.rows(t)
    return b.filter(lambda i: SV(self.isrep(i))).card(), b.card()

  def lemmas(self):
    """facts (1) and (2) for every date."""
    c, d = self.c, self.d
    t, u, x = z3.Ints('pt pu px')
    X, U = (0, (x,)), (0, (u,))
    date = lambda i: as_t(self.date(i))
    with c.bound([t], z3.BoolVal(True)):
      ca, cb = self.counts(t)
    n_items = self.items.card()
    # (1): the distinct (date, item) rows of a date are among the rows of the date
    w = z3.Function('extra_row', I, I)
    W = (0, (w(t),))
    at = lambda e, s: z3.substitute(e, (t, s))
    c.axiom(z3.ForAll([x], z3.Implies(z3.And(d.mem(X), at(ca, date(X)) == at(cb, date(X))), self.isrep(X)), patterns=[date(X)]))
    c.axiom(z3.ForAll([t], z3.Implies(ca != cb, z3.And(d.mem(W), date(W) == t, z3.Not(self.isrep(W)))), patterns=[ca]))
    # (2): row of the date -> its item, one-to-one when the date has no duplicates
    a, b = d.skolem('a'), d.skolem('b')
    self.c.prove(z3.Implies(z3.And(date(a) == date(b), self.isrep(a), self.isrep(b), self.K(self.item(a), self.item(b))), z3.And(*[p == q for p, q in zip(a[1], b[1])])), 'rows of one date that are the first of their item have different items')
    ri = self.repi[0]
    s, m = z3.Function('row_of', I, I, I), z3.Function('absent_item', I, I)
    S, M = (0, (s(t, u),)), (0, (m(t),))
    c.axiom(z3.ForAll([t, u], z3.Implies(z3.And(ca == cb, cb == n_items, self.items.mem(U)), z3.And(d.mem(S), date(S) == t, ri(s(t, u)) == u)), patterns=[s(t, u)]))
    c.axiom(z3.ForAll([t], z3.Implies(z3.And(ca == cb, cb != n_items), self.items.mem(M)), patterns=[cb]))
    c.axiom(z3.ForAll([t, x], z3.Implies(z3.And(ca == cb, cb != n_items, d.mem(X), date(X) == t), z3.And(ri(x) != m(t), self.ask(x, m(t)))), patterns=[z3.MultiPattern(cb, date(X))]))
    self.row_of = lambda t_, u_: (0, (s(t_, ri(*u_[1])),))

  def touch(self, *idx):
    """mention the representatives of rows."""
    for i in idx:
      for f in self.rep2 + self.repi + self.repd:
        self.c.fact(self.c.fresh('first', I).t == f(*i[1]))

  def assume_complete(self):
    """every item has exactly one row on every date."""
    c, d, K = self.c, self.d, self.K
    x, y = z3.Ints('cx cy')
    X, Y = (0, (x,)), (0, (y,))
    date, item = lambda i: as_t(self.date(i)), lambda i: as_t(self.item(i))
    c.axiom(z3.ForAll([x, y], z3.Implies(z3.And(d.mem(X), d.mem(Y), date(X) == date(Y), item(X) == item(Y)), x == y), patterns=[z3.MultiPattern(date(X), date(Y))]))
    k = z3.Function('entry', I, I, I)
    Q = (0, (k(x, y),))
    c.axiom(z3.ForAll([x, y], z3.Implies(z3.And(d.mem(X), d.mem(Y)), z3.And(d.mem(Q), date(Q) == date(X), item(Q) == item(Y), self.repi[0](Q[1][0]) == self.repi[0](y))), patterns=[self.ask(x, y)]))


def on_neighbours(c, df, fact, fact1=None):
  """assume fact(prev, this) of the elements that the code puts next to each other, plus a witness row.

  fact(P, X) -> (term, [witness rows whose representatives matter])."""
  x = z3.Int('nx')
  X = (0, (x,))

  def hook(d, fs):
    if fs[0].arity() != 1:
      return
    P = (0, (fs[0](x),))
    t, rows = fact(P, X)
    parts = [t]
    root = d.meta.get('rep')
    for r in rows:
      for f in list(c.data.get('reps', {}).values()):
        if len(f) == 1 and f[0].arity() == 1:
          parts.append(f[0](f[0](r[1][0])) == f[0](r[1][0]))
    c.axiom(z3.ForAll([x], z3.Implies(z3.And(df.dom.mem(X), df.dom.mem(P)), z3.And(*parts)), patterns=[fs[0](x)]))
  c.data.setdefault('on_prev', []).append(hook)


def assume_spacing(c, df, date, gap):
  """the dates of the frame are gap days apart: nothing in between, and before each date but the first there is one."""
  d, f = df.dom, lambda i: as_t(df.cols[date](i))
  mn = c.fresh('first_date', I).t
  p = z3.Function('date_before', I, I)

  def fact(P, X):
    Q = (0, (p(X[1][0]),))
    none = lambda Y: z3.Not(z3.And(f(X) - gap < f(Y), f(Y) < f(X)))
    return z3.And(f(X) >= mn, f(P) >= mn, none(P), z3.Implies(f(X) != mn, z3.And(d.mem(Q), f(Q) == f(X) - gap))), [Q]
  on_neighbours(c, df, fact)


def neighbours(c, df, col, x, y):
  """x, y: rows with neighbouring values of the first column: x precedes y in the orders the code has used."""
  t = lambda i: as_t(df.cols[col[0]](i))
  r = pdstub.rep_fn(df.dom, [df.cols[k] for k in col])
  ry, rx = [f(*y[1]) for f in r], [f(*x[1]) for f in r]
  for fs in list(c.data.get('prev', {}).values()):
    if fs[0].arity() != len(ry):
      continue
    P = (0, tuple(f(*ry) for f in fs))
    for goal in (z3.And(df.dom.mem(P)), t(P) < t(y), t(P) <= t(x), t(P) >= t(x), z3.And(*[p == q for p, q in zip(P[1], rx)])):
      if not c.soft(goal):
        break


def one_value_per_group(c, df, group, value):
  """finite sets: of each group, the number of distinct values is one exactly if any two rows agree.

  Lemmas about the counts; the rows are those that are the first of their (group, value)."""
  d = df.dom
  g, w = (lambda i: as_t(df.cols[group](i))), (lambda i: as_t(df.cols[value](i)))
  rep = pdstub.rep_fn(d, [df.cols[group], df.cols[value]])[0]
  first = lambda i: rep(i[1][0]) == i[1][0]
  t, x, y = z3.Ints('gt gx gy')
  X, Y = (0, (x,)), (0, (y,))
  with c.bound([t], z3.BoolVal(True)):
    n = d.filter(lambda i: SV(g(i) == t)).filter(lambda i: SV(first(i))).card()
  at = lambda s: z3.substitute(n, (t, s))
  # one element: all equal; an element: at least one; not one although there is an element: another one
  c.axiom(z3.ForAll([x, y], z3.Implies(z3.And(d.mem(X), d.mem(Y), first(X), first(Y), g(X) == g(Y), at(g(X)) == 1), x == y), patterns=[z3.MultiPattern(rep(x), rep(y))]))
  c.axiom(z3.ForAll([x], z3.Implies(z3.And(d.mem(X), first(X)), at(g(X)) >= 1), patterns=[rep(x)]))
  o = [z3.Function(f'{k}_of_group', I, I) for k in ('one', 'another')]
  O = [(0, (f(t),)) for f in o]
  c.axiom(z3.ForAll([t], z3.Implies(n >= 2, z3.And(*[z3.And(d.mem(a), first(a), g(a) == t) for a in O], O[0][1][0] != O[1][1][0])), patterns=[n]))
