"""Loads the CURRENT source of /repo/feedx into a symbolic namespace.

Nothing is hand-copied: each module file is read, parsed, minimally hooked (see
`Hook`) and executed.  What the extraction changes is exactly:
  * imports of numpy/pandas/scipy/yaml/hashlib/tqdm/matplotlib resolve to the
    contract stubs; other feedx modules resolve to their loaded symbolic twin;
  * builtins len/range/int/float/... are replaced by versions that also accept
    logic terms;
  * `for`/comprehension iterables are wrapped in __vc_iter__ / __vc_comp__;
  * every function starts with a call that records its name (evidence only).
"""
from __future__ import annotations
import ast
import builtins
import hashlib
import os
import sys
import types
import z3
from . import core, npstub
from .core import SV, Unsupported, conc, lift, R, I, B

REPO = os.environ.get('FEEDX_REPO', '/repo')
PASS = {'dataclasses', 'functools', 'itertools', 'typing', 'collections', 'collections.abc', 'enum', 'abc',
        'operator', 'copy', '__future__', 'warnings', 'contextlib', 're', 'types', 'string', 'textwrap', 'json', 'logging', 'os', 'pathlib'}

executed = set()
SRC_HASH = {}


class Hook(ast.NodeTransformer):

  def __init__(self, modname):
    self.stack = [modname]

  def visit_FunctionDef(self, node):
    self.stack.append(node.name)
    q = '.'.join(self.stack)
    self.generic_visit(node)
    self.stack.pop()
    call = ast.Expr(ast.Call(ast.Name('__vc_enter__', ast.Load()), [ast.Constant(q)], []))
    k = 0
    if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
      k = 1
    node.body.insert(k, call)
    return node

  def visit_ClassDef(self, node):
    self.stack.append(node.name)
    self.generic_visit(node)
    self.stack.pop()
    return node

  def visit_For(self, node):
    self.generic_visit(node)
    node.iter = ast.Call(ast.Name('__vc_iter__', ast.Load()), [node.iter], [])
    return node

  def _comp(self, node, kind):
    self.generic_visit(node)
    for g in node.generators:
      g.iter = ast.Call(ast.Name('__vc_iter__', ast.Load()), [g.iter], [])
    if len(node.generators) == 1 and not node.generators[0].ifs and isinstance(node.generators[0].target, ast.Name):
      g = node.generators[0]
      it = g.iter.args[0]
      g.iter = ast.Name('__vc_it__', ast.Load())
      lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), node.elt)
      return ast.Call(ast.Name('__vc_comp__', ast.Load()), [lam, it, ast.Constant(kind)], [])
    return node

  def visit_ListComp(self, node):
    return self._comp(node, 'list')

  def visit_GeneratorExp(self, node):
    return self._comp(node, 'gen')

  def visit_SetComp(self, node):
    return self._comp(node, 'set')

  def visit_DictComp(self, node):
    self.generic_visit(node)
    for g in node.generators:
      g.iter = ast.Call(ast.Name('__vc_iter__', ast.Load()), [g.iter], [])
    return node


def vc_iter(x):
  if isinstance(x, npstub.Arr):
    return iter(x)
  if isinstance(x, SymRange):
    raise Unsupported('loop over a symbolic range')
  return x


def vc_comp(f, it, kind):
  if isinstance(it, SymRange) or (isinstance(it, npstub.Arr) and not isinstance(it.dims[0], int)) or isinstance(it, SymList):
    return SymList.comp(f, it)
  if hasattr(it, '_vc_comp'):
    return it._vc_comp(f, kind)
  g = (f(x) for x in it)
  if kind == 'list':
    return list(g)
  if kind == 'set':
    return _vset(g)
  return g


class SymRange:
  """range(n) / range(a,b) with symbolic bounds."""

  def __init__(self, lo, hi):
    self.lo, self.hi = lift(lo), lift(hi)
    n = self.hi - self.lo
    core.ctx().data.setdefault('ranges', [])
    self.dom = npstub.Dom.range(z3.If(n.t > 0, n.t, z3.IntVal(0)), 'range')

  def __iter__(self):
    raise Unsupported('iteration over a symbolic range')

  def _len(self):
    return SV(self.dom.card())

  def arr(self):
    return npstub.Arr((self.dom,), lambda i: SV(core.simp(self.lo.t + i[1][0])), 'int')


class SymList:
  """A python list of symbolic length."""

  def __init__(self, arr):
    self.arr = arr

  @staticmethod
  def comp(f, it):
    a = it.arr() if isinstance(it, SymRange) else (it.arr if isinstance(it, SymList) else it)
    g = a.cell.fn

    def fn(i):
      r = f(g(i))
      if isinstance(r, str):
        r = detoken(r)
      return r
    return SymList(npstub.Arr(a.dims, fn))

  def _len(self):
    return self.arr._len()

  def _sym_array(self):
    return self.arr

  def __iter__(self):
    return iter(self.arr)

  def __getitem__(self, k):
    return self.arr[k]


def detoken(s):
  """f-string with embedded symbolic values -> symbolic string."""
  c = core.ctx()
  if '\u27e6' not in s:
    return s
  import re
  parts = re.split('(\u27e6\\d+\u27e7)', s)
  r = None
  for p in parts:
    if not p:
      continue
    if p.startswith('\u27e6'):
      sv, spec = c.tokens[p]
      t = core.TOSTR(core.OBJ_OF_INT(sv.t)) if sv.kind != 'obj' and sv.t.sort() == I else (
          core.TOSTR(npstub.NUMOBJ(core.to_real(core.num_t(sv)))) if sv.kind != 'obj' else core.TOSTR(sv.t))
    else:
      t = z3.IntVal(core.code_of(p))
    r = t if r is None else core.STRCAT(r, t)
  return SV(r, 'obj')


core.OBJ_OF_INT = z3.Function('int_as_object', I, I)


# -- builtin replacements -----------------------------------------------------
class _M(type):

  def __instancecheck__(cls, x):
    return cls._inst(x)

  def __call__(cls, *a, **k):
    return cls._conv(*a, **k)

  def __eq__(cls, o):
    return cls is o or o is cls._real

  def __hash__(cls):
    return hash(cls._real)

  def __subclasscheck__(cls, c):
    return issubclass(c, cls._real)


class VFloat(metaclass=_M):
  _real = float

  @staticmethod
  def _inst(x):
    return isinstance(x, float) or (isinstance(x, SV) and x.kind == 'num' and x.t.sort() == R)

  @staticmethod
  def _conv(x=0.0):
    if isinstance(x, npstub.Arr):
      x = x.item()
    if isinstance(x, SV):
      if x.kind == 'obj':
        return npstub.cast_scalar(x, float)
      return core.sym_float(x)
    return float(x)


class VInt(metaclass=_M):
  _real = int

  @staticmethod
  def _inst(x):
    return isinstance(x, int) or (isinstance(x, SV) and x.kind == 'num' and x.t.sort() == I)

  @staticmethod
  def _conv(x=0, *a):
    if isinstance(x, npstub.Arr):
      x = x.item()
    if isinstance(x, SV):
      if x.kind == 'obj':
        return hex_int(x, *a)
      if x.t.sort() == B:
        return SV(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
      return core.sym_int(x)
    return int(x, *a)


HEXINT = z3.Function('int_of_hex_string', I, I)


def hex_int(x, base=10):
  if base != 16:
    raise Unsupported('int(str) of a symbolic string')
  v = HEXINT(x.t)
  core.ctx().fact(v >= 0)
  return SV(v)


class VBool(metaclass=_M):
  _real = bool

  @staticmethod
  def _inst(x):
    return isinstance(x, bool) or (isinstance(x, SV) and x.t.sort() == B)

  @staticmethod
  def _conv(x=False):
    if isinstance(x, SV):
      if x.t.sort() == B:
        return x
      return SV(x.t != 0)
    return bool(x)


class VStr(metaclass=_M):
  _real = str
  _vc_str = True

  @staticmethod
  def _inst(x):
    return isinstance(x, str) or (isinstance(x, SV) and x.kind == 'obj')

  @staticmethod
  def _conv(x='', *a):
    if isinstance(x, SV) and x.kind == 'obj':
      return SV(core.TOSTR(x.t), 'obj')
    if isinstance(x, SV) and x.kind == 'num':
      v = core.simp(x.t)
      if z3.is_int_value(v):
        return str(v.as_long())
      return SV(core.TOSTR(core.OBJ_OF_INT(x.t)) if x.t.sort() == I else core.TOSTR(npstub.NUMOBJ(x.t)), 'obj')
    return str(x, *a)


class SymSet:
  """a set of finitely many symbolic values: equal ones are merged, by forking."""

  def __init__(self, xs=()):
    self.xs = []
    for x in xs:
      self.add(x)

  def __contains__(self, x):
    return any(y is x or bool(y == x) for y in self.xs)

  def add(self, x):
    if x not in self:
      self.xs.append(x)

  def update(self, *others):
    for o in others:
      for x in o:
        self.add(x)

  def pop(self):
    return self.xs.pop()

  def __iter__(self):
    return iter(list(self.xs))

  def _len(self):
    return len(self.xs)

  def __len__(self):
    return len(self.xs)

  def __bool__(self):
    return bool(self.xs)

  def __or__(self, o):
    return SymSet([*self.xs, *o])

  union = __ror__ = __or__

  def __sub__(self, o):
    return SymSet([x for x in self.xs if not any(bool(x == y) for y in o)])

  def __and__(self, o):
    return SymSet([x for x in self.xs if any(bool(x == y) for y in o)])

  def __eq__(self, o):
    o = list(o)
    return len(o) == len(self.xs) and all(any(bool(x == y) for y in o) for x in self.xs)

  __hash__ = None


def _vset(*a):
  if not a:
    return set()
  if isinstance(a[0], (npstub.Arr, SymList)):
    raise Unsupported('set of a symbolic array')
  xs = list(a[0])
  return SymSet(xs) if any(isinstance(x, SV) for x in xs) else set(xs)


class VList(metaclass=_M):
  _real = list

  @staticmethod
  def _inst(x):
    return isinstance(x, (list, SymList))

  @staticmethod
  def _conv(x=()):
    if isinstance(x, SymRange):
      return SymList(x.arr())
    if isinstance(x, SymList):
      return x
    if hasattr(x, '_vc_list'):
      return x._vc_list()
    return list(x)

  def __class_getitem__(cls, k):
    return list[k]


class VSet(metaclass=_M):
  _real = set
  union, intersection = set.union, set.intersection

  @staticmethod
  def _inst(x):
    return isinstance(x, (set, SymSet))

  @staticmethod
  def _conv(*a):
    return _vset(*a)

  def __class_getitem__(cls, k):
    return set[k]


for _c in (VFloat, VInt, VBool, VStr):
  npstub.REAL_TYPES[id(_c)] = _c._real


def v_len(x):
  if hasattr(x, '_len'):
    return x._len()
  m = getattr(type(x), '__len__', None)
  if m is None:
    raise TypeError(f"object of type '{type(x).__name__}' has no len()")
  return m(x)


def v_range(*a):
  a = [conc(x) for x in a]
  b = []
  for x in a:
    if isinstance(x, SV):
      v = core.simp(x.t)
      x = v.as_long() if z3.is_int_value(v) else x
    b.append(x)
  if not any(isinstance(x, SV) for x in b):
    return range(*b)
  if len(b) == 1:
    return SymRange(0, b[0])
  if len(b) == 2:
    return SymRange(*b)
  raise Unsupported('range step')


def _seq(args):
  if len(args) == 1:
    x = args[0]
    if isinstance(x, npstub.Arr) or npstub.is_pd(x):
      return None, x
    return list(x), None
  return list(args), None


def v_max(*a, **k):
  if k:
    raise Unsupported('max options')
  xs, arr = _seq(a)
  if arr is not None:
    return npstub.max_(arr)
  r = xs[0]
  for x in xs[1:]:
    r = npstub._maxs(r, x) if isinstance(r, SV) or isinstance(x, SV) else max(r, x)
  return r


def v_min(*a, **k):
  if k:
    raise Unsupported('min options')
  xs, arr = _seq(a)
  if arr is not None:
    return npstub.min_(arr)
  r = xs[0]
  for x in xs[1:]:
    r = npstub._mins(r, x) if isinstance(r, SV) or isinstance(x, SV) else min(r, x)
  return r


def v_sum(x, start=0):
  if isinstance(x, npstub.Arr) or npstub.is_pd(x):
    return start + npstub.sum_(x)
  r = start
  for e in x:
    if isinstance(e, SV) and e.t.sort() == B:
      e = SV(z3.If(e.t, z3.IntVal(1), z3.IntVal(0)))
    r = r + e
  return r


def v_any(x):
  if isinstance(x, npstub.Arr) or npstub.is_pd(x):
    return npstub.any_(x)
  if isinstance(x, SymList):
    return npstub.any_(x.arr)
  for e in x:
    if e:
      return True
  return False


def v_all(x):
  if isinstance(x, npstub.Arr) or npstub.is_pd(x):
    return npstub.all_(x)
  if isinstance(x, SymList):
    return npstub.all_(x.arr)
  for e in x:
    if not e:
      return False
  return True


def v_abs(x):
  if isinstance(x, SV):
    return core.sym_abs(x)
  return abs(x)


def v_print(*a, **k):
  c = core.CTX
  if c is not None:
    c.events.append(('print', [str(x) if isinstance(x, (str, int, float)) else x for x in a]))


def v_isinstance(x, t):
  if t is int or t is float or t is str:
    t = {int: VInt, float: VFloat, str: VStr}[t]
  return isinstance(x, t)


def v_round(x, n=None):
  if isinstance(x, SV):
    raise Unsupported('round of a symbolic value')
  return round(x, n)


def v_sorted(x, **k):
  xs = list(x)
  if any(isinstance(e, SV) for e in xs):
    raise Unsupported('sorted of symbolic values')
  return sorted(xs, **k)


def v_open(*a, **k):
  c = core.ctx()
  return SymFile(a[0], a[1] if len(a) > 1 else k.get('mode', 'r'))


class SymFile:

  def __init__(self, path, mode):
    self.path, self.mode = path, mode
    fs = core.ctx().data.setdefault('fs', {})
    key = path.t.sexpr() if isinstance(path, SV) else path
    if 'w' in mode:
      fs[key] = None
    self.key = key

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False


# -- module loading -------------------------------------------------------------
class World:

  def __init__(self, extra_stubs=None):
    self.mods = {}
    self.stubs = {'numpy': npstub.make_module()}
    self.stubs['numpy.typing'] = self.stubs['numpy'].typing
    self.stubs['numpy.random'] = self.stubs['numpy'].random
    from . import libstub
    self.stubs.update(libstub.modules())
    from . import pdstub
    self.stubs.update(pdstub.make_module())
    if extra_stubs:
      self.stubs.update(extra_stubs)
    self.builtins = self._builtins()

  def _builtins(self):
    d = dict(vars(builtins))
    d.update(len=v_len, range=v_range, max=v_max, min=v_min, sum=v_sum, any=v_any, all=v_all, abs=v_abs, print=v_print,
             float=VFloat, int=VInt, bool=VBool, str=VStr, list=VList, set=VSet, isinstance=v_isinstance, round=v_round,
             sorted=v_sorted, open=v_open, __import__=self._import)
    return d

  def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
    if level:
      raise Unsupported('relative import')
    if name == 'feedx' or name.startswith('feedx.'):
      if name == 'feedx':
        ns = types.SimpleNamespace()
        for f in fromlist or ():
          setattr(ns, f, self.module(f))
        return ns
      m = self.module(name.split('.', 1)[1])
      if fromlist:
        return m
      return types.SimpleNamespace(**{name.split('.', 1)[1]: m})
    if name in self.stubs:
      m = self.stubs[name]
      if fromlist:
        return m
      return self.stubs[name.split('.')[0]]
    if name in PASS:
      return builtins.__import__(name, globals, locals, fromlist, level)
    raise Unsupported(f'import of {name} (no contract stub)')

  def module(self, name):
    if name in self.mods:
      return self.mods[name]
    path = os.path.join(REPO, 'feedx', name + '.py')
    with open(path, encoding='utf-8') as f:
      src = f.read()
    SRC_HASH[name] = hashlib.sha256(src.encode()).hexdigest()[:16]
    tree = Hook(name).visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    m = types.ModuleType('feedx.' + name)
    m.__file__ = path
    m.__dict__.update(__builtins__=self.builtins, __vc_enter__=executed.add, __vc_iter__=vc_iter, __vc_comp__=vc_comp)
    sys.modules.setdefault('feedx_sym.' + name, m)
    m.__name__ = 'feedx_sym.' + name
    self.mods[name] = m
    exec(compile(tree, path, 'exec'), m.__dict__)
    return m
