"""Contract stubs for scipy.stats, hashlib, yaml, tqdm, matplotlib, math."""
from __future__ import annotations
import math as _math
import types
import z3
from . import core, npstub
from .core import SV, Unsupported, lift, num_t, to_real, conc, as_t, R, I, B, TCDF, TPPF, NPPF


def _mod(name, **k):
  m = types.ModuleType(name)

  def missing(n):
    if n.startswith('__'):
      raise AttributeError(n)
    raise Unsupported(f'{name}.{n}')
  m.__getattr__ = missing
  for a, b in k.items():
    setattr(m, a, b)
  return m


# -- scipy.stats.t -----------------------------------------------------------------
def _t_pair(x, df, loc, scale):
  if not (loc == 0 and scale == 1):
    raise Unsupported('t distribution with loc/scale')
  return x, df


def _cdf1(x, df):
  x = conc(x)
  if core.is_inf(x):
    return 1.0 if x > 0 else 0.0
  t, d = core.simp(to_real(num_t(x))), core.simp(to_real(num_t(df)))
  core.ctx().defined(d > 0, 't distribution with df <= 0')
  return SV(TCDF(t, d))


def _ppf1(q, df):
  t, d = core.simp(to_real(num_t(q))), core.simp(to_real(num_t(df)))
  core.ctx().defined(z3.And(d > 0, t > 0, t < 1), 't quantile with df <= 0 or q outside (0,1)')
  return SV(TPPF(t, d))


class TDist:

  def cdf(self, x, df, loc=0, scale=1):
    _t_pair(x, df, loc, scale)
    return npstub.enary(_cdf1, x, df)

  def sf(self, x, df, loc=0, scale=1):
    # survival function = cdf of the negated argument (symmetry of the t law)
    _t_pair(x, df, loc, scale)
    return npstub.enary(lambda a, d: _cdf1(-1 * lift(a) if not core.is_inf(conc(a)) else -a, d), x, df)

  def ppf(self, q, df, loc=0, scale=1):
    _t_pair(q, df, loc, scale)
    return npstub.enary(_ppf1, q, df)

  def isf(self, q, df, loc=0, scale=1):
    _t_pair(q, df, loc, scale)
    return npstub.enary(lambda p, d: _ppf1(1 - lift(p), d), q, df)

  def interval(self, *a, **k):
    raise Unsupported('t.interval')


class NDist:

  def ppf(self, q, loc=0, scale=1):
    t = core.simp(to_real(num_t(q)))
    core.ctx().defined(z3.And(t > 0, t < 1), 'normal quantile outside (0,1)')
    return SV(NPPF(t))


def _md5():

  class H:

    def __init__(self, b=None):
      self.b = b

    def update(self, b):
      if self.b is not None:
        raise Unsupported('md5 update twice')
      self.b = b

    def hexdigest(self):
      if isinstance(self.b, core.SymBytes):
        return SV(MD5HEX(as_t(self.b.s)), 'obj')
      if isinstance(self.b, (bytes, bytearray)):
        core.ctx().data.setdefault('md5_args', []).append(self.b)
        from .loader import detoken
        x = detoken(bytes(self.b).decode())
        return SV(MD5HEX(x.t if isinstance(x, SV) else z3.IntVal(core.code_of(x))), 'obj')
      raise Unsupported('md5 argument')
  return lambda b=None, **k: H(b)


MD5HEX = z3.Function('md5_hexdigest', I, I)


def _safe_load(f):
  fs = core.ctx().data['fs']
  if f.key not in fs or fs[f.key] is None:
    raise FileNotFoundError(f.key)
  return dict(fs[f.key])


def _dump(data, f=None, **k):
  if f is None or 'w' not in f.mode:
    raise Unsupported('yaml.dump target')
  core.ctx().data['fs'][f.key] = dict(data)


class _DTMeta(type):

  def __instancecheck__(cls, x):
    import datetime as d
    return isinstance(x, d.datetime) or (isinstance(x, SV) and x.kind == 'date')

  def __call__(cls, *a, **k):
    import datetime as d
    return d.datetime(*a, **k)

  def __getattr__(cls, n):
    import datetime as d
    return getattr(d.datetime, n)


class SymDatetime(metaclass=_DTMeta):

  @staticmethod
  def strptime(x, fmt):
    import datetime as d
    if isinstance(x, SV):
      if x.kind != 'obj' or fmt != '%Y-%m-%d':
        raise Unsupported('strptime')
      return SV(core.DATEOF(x.t), 'date')
    return d.datetime.strptime(x, fmt)


def sym_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
  import datetime as d
  if any(isinstance(q, SV) for q in (days, weeks)):
    if seconds or microseconds or milliseconds or minutes or hours:
      raise Unsupported('sub-day timedelta')
    t = num_t(lift(days) + 7 * lift(weeks))
    if t.sort() != I:
      raise Unsupported('fractional timedelta')
    return SV(core.simp(t), 'td')
  return d.timedelta(days, seconds, microseconds, milliseconds, minutes, hours, weeks)


def _matplotlib():
  """Plot objects: every call is recorded as an event; nothing is drawn."""
  class Rec:

    def __init__(self, name):
      object.__setattr__(self, '_name', name)

    def __getattr__(self, n):
      if n.startswith('__'):
        raise AttributeError(n)
      return Rec(self._name + '.' + n)

    def __setattr__(self, n, v):
      core.ctx().events.append(('plot', self._name + '.' + n, (v,), {}))

    def __call__(self, *a, **k):
      c = core.CTX
      if c is not None:
        c.events.append(('plot', self._name, a, k))
      last = self._name.rsplit('.', 1)[-1]
      if last == 'subplots':
        return Rec('fig'), Rec('ax')
      return Rec(self._name + '()')

    def __getitem__(self, k):
      return Rec(f'{self._name}[{k}]')
  mpl = types.ModuleType('matplotlib')
  plt = Rec('plt')
  mpl.pyplot = plt
  mpl.colormaps = Rec('colormaps')
  mpl.ticker = Rec('ticker')
  lines = types.ModuleType('matplotlib.lines')
  lines.Line2D = Rec('Line2D')
  mpl.lines = lines
  return {'matplotlib': mpl, 'matplotlib.pyplot': plt, 'matplotlib.ticker': mpl.ticker, 'matplotlib.lines': lines}


def _uninterp_test(name):
  def f(*a, **k):
    c = core.ctx()
    p = c.real(f'{name}_pvalue')
    c.fact(z3.And(as_t(p) >= 0, as_t(p) <= 1))
    r = types.SimpleNamespace(pvalue=p if isinstance(p, SV) else SV(p), statistic=None)
    c.events.append((name, a, k, r))
    return r
  return f


def modules():
  t, n = TDist(), NDist()
  stats = _mod('scipy.stats', t=t, norm=n, kstest=_uninterp_test('kstest'), binomtest=_uninterp_test('binomtest'), ttest_1samp=_uninterp_test('ttest_1samp'),
               uniform=types.SimpleNamespace(cdf='uniform cdf'))
  scipy = _mod('scipy', stats=stats)
  hl = _mod('hashlib', md5=_md5())
  y = _mod('yaml', safe_load=_safe_load, dump=_dump, safe_dump=_dump)
  mth = _mod('math', sqrt=core.sym_sqrt, floor=lambda x: core.sym_int(core.sym_floor(x)),
             ceil=lambda x: core.sym_int(core.sym_ceil(x)), inf=_math.inf, nan=_math.nan, pi=_math.pi,
             isnan=npstub._isnan, isfinite=npstub._isfinite, fabs=core.sym_abs,
             isinf=lambda x: npstub.isinf(x))
  tq = _mod('tqdm', tqdm=lambda x=None, **k: x)
  tqa = _mod('tqdm.auto', tqdm=lambda x=None, **k: x)
  tq.trange = tqa.trange = lambda *a, **k: core.sym_range(*a) if hasattr(core, 'sym_range') else range(*a)
  tqdm = tq
  tqdm.auto = tqa
  tqdm.notebook = tqa
  tqdm.autonotebook = tqa
  out = {'scipy': scipy, 'scipy.stats': stats, 'hashlib': hl, 'yaml': y, 'math': mth, 'tqdm': tq, 'tqdm.auto': tqa,
         'tqdm.autonotebook': tqa, 'tqdm.notebook': tqa}
  dtm = types.ModuleType('datetime')
  import datetime as d
  dtm.datetime, dtm.timedelta, dtm.date = SymDatetime, sym_timedelta, d.date
  out['datetime'] = dtm
  out.update(_matplotlib())
  tq.trange = lambda n, **k: core_range(n)
  return out


def core_range(n):
  from . import loader
  return loader.v_range(n)
