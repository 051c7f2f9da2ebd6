"""Path-wise symbolic execution of plain Python over z3.

The code runs natively on proxy values; a branch on a symbolic condition asks
z3 which outcomes are possible and explores both by re-execution.  Proxies:
SBits mirrors pymtl3's Bits (width checks included), SInt is an integer, SBool
a condition.
"""
import sys, time
_Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try: import z3
except ImportError:
  sys.path.append(_Z3)
  import z3

IW = 64                     # integers are 64-bit two's complement
CUR = None
_int = int


class Infeasible(BaseException):
  """The path condition has no solution."""

class OutOfReach(BaseException):
  """The code did something the proxies do not model."""


class Run:
  """One path."""
  def __init__(s, ex, prefix):
    s.ex, s.prefix, s.pos = ex, prefix, 0
    s.solver = z3.Solver()
    s.solver.set('timeout', ex.timeout_ms)
    s.taken = []
    s.model = None

  def check(s, *a):
    t = time.time()
    r = s.solver.check(*a)
    s.ex.queries += 1
    s.ex.time += time.time() - t
    return r

  def assume(s, c):
    s.solver.add(c)
    s.model = None

  def _next(s, make):
    if s.pos < len(s.prefix): d = s.prefix[s.pos]
    else: d = make()
    s.pos += 1
    s.taken.append(d)
    return d

  def decide(s, c):
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    def make():
      if s.model is None:
        if s.check() == z3.unsat: raise Infeasible
        s.model = s.solver.model()
      # the model at hand shows one outcome possible; ask for the other
      d = z3.is_true(s.model.eval(c, model_completion=True))
      if s.check(z3.Not(c) if d else c) != z3.unsat: s.ex.todo.append(s.taken + [not d])
      return d
    d = s._next(make)
    if s.model is not None and z3.is_true(s.model.eval(c, model_completion=True)) != d: s.model = None
    s.solver.add(c if d else z3.Not(c))
    return d

  def value(s, e):
    """Enumerate the values of a term."""
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    while True:
      def make():
        if s.check() == z3.unsat: raise Infeasible
        v = s.solver.model().eval(e, model_completion=True).as_long()
        if s.check(e != v) != z3.unsat: s.ex.todo.append(s.taken + [(v, False)])
        return (v, True)
      v, d = s._next(make)
      s.solver.add(e == v if d else e != v)
      s.model = None
      if d: return v


class Explorer:
  def __init__(s, timeout_ms=60000):
    s.todo = [[]]
    s.queries, s.time, s.paths, s.infeasible = 0, 0.0, 0, 0
    s.timeout_ms = timeout_ms

  def explore(s, fn, limit=None):
    """Call fn(run) on every path; yields its results."""
    global CUR
    while s.todo:
      if limit and time.time() > limit:
        raise TimeoutError(f'{len(s.todo)} paths left')
      r = Run(s, s.todo.pop())
      CUR = r
      try: out = fn(r)
      except Infeasible:
        s.infeasible += 1
        continue
      finally: CUR = None
      s.paths += 1
      yield r, out


def const(n, v): return z3.BitVecVal(v, n)

def zx(e, n):
  k = e.size()
  return e if k == n else (z3.ZeroExt(n - k, e) if k < n else z3.Extract(n - 1, 0, e))

def sx(e, n):
  k = e.size()
  return e if k == n else (z3.SignExt(n - k, e) if k < n else z3.Extract(n - 1, 0, e))


class SBool:
  def __init__(s, c): s.c = c
  def __bool__(s): return CUR.decide(s.c)
  def __and__(s, o): return SBool(z3.And(s.c, tobool(o)))
  def __or__(s, o): return SBool(z3.Or(s.c, tobool(o)))
  def __xor__(s, o): return SBool(z3.Xor(s.c, tobool(o)))
  __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
  def __invert__(s): return SBool(z3.Not(s.c))
  def __eq__(s, o): return SBool(s.c == tobool(o))
  def __ne__(s, o): return SBool(s.c != tobool(o))
  def __index__(s): return 1 if bool(s) else 0
  __hash__ = None

def tobool(o):
  if isinstance(o, SBool): return o.c
  if isinstance(o, SBits): return o.e != 0
  if isinstance(o, SInt): return o.e != 0
  return z3.BoolVal(bool(o))


class SInt:
  """An integer."""
  def __init__(s, e): s.e = e
  @staticmethod
  def of(v):
    if isinstance(v, SInt): return v.e
    if isinstance(v, SBits): return zx(v.e, IW)
    if isinstance(v, SBool): return z3.If(v.c, const(IW, 1), const(IW, 0))
    if isinstance(v, float):
      if not v.is_integer(): raise OutOfReach(f'float {v}')
      v = _int(v)
    if isinstance(v, _int): return const(IW, v)
    raise TypeError(f"unsupported operand: {type(v).__name__}")
  def _b(s, o, f):
    try: o = SInt.of(o)
    except TypeError: return NotImplemented
    return mkint(f(s.e, o))
  def _c(s, o, f):
    try: o = SInt.of(o)
    except TypeError: return NotImplemented
    return SBool(f(s.e, o))
  def __add__(s, o): return s._b(o, lambda a, b: a + b)
  def __radd__(s, o): return s._b(o, lambda a, b: b + a)
  def __sub__(s, o): return s._b(o, lambda a, b: a - b)
  def __rsub__(s, o): return s._b(o, lambda a, b: b - a)
  def __mul__(s, o): return s._b(o, lambda a, b: a * b)
  __rmul__ = __mul__
  def __and__(s, o): return s._b(o, lambda a, b: a & b)
  def __or__(s, o): return s._b(o, lambda a, b: a | b)
  def __xor__(s, o): return s._b(o, lambda a, b: a ^ b)
  __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
  def __lshift__(s, o): return s._b(o, lambda a, b: a << b)
  def __rlshift__(s, o): return s._b(o, lambda a, b: b << a)
  def __rshift__(s, o): return s._b(o, lambda a, b: a >> b)
  def __rrshift__(s, o): return s._b(o, lambda a, b: b >> a)
  def __floordiv__(s, o):
    k = SInt.of(o)
    if not z3.is_bv_value(z3.simplify(k)) or z3.simplify(k).as_signed_long() <= 0: raise OutOfReach('//')
    q, r = s.e / k, z3.SRem(s.e, k)
    return mkint(z3.If(z3.And(r != 0, s.e < 0), q - 1, q))
  def __mod__(s, o):
    k = SInt.of(o)
    if not z3.is_bv_value(z3.simplify(k)) or z3.simplify(k).as_signed_long() <= 0: raise OutOfReach('%')
    r = z3.SRem(s.e, k)
    return mkint(z3.If(r < 0, r + k, r))
  def __truediv__(s, o):
    k = SInt.of(o)
    if CUR.decide((s - (s // o) * o).e == 0 if isinstance(s - (s // o) * o, SInt) else z3.BoolVal((s - (s // o) * o) == 0)): return s // o
    raise OutOfReach('/')
  def __neg__(s): return mkint(-s.e)
  def __invert__(s): return mkint(~s.e)
  def __lt__(s, o): return s._c(o, lambda a, b: a < b)
  def __le__(s, o): return s._c(o, lambda a, b: a <= b)
  def __gt__(s, o): return s._c(o, lambda a, b: a > b)
  def __ge__(s, o): return s._c(o, lambda a, b: a >= b)
  def __eq__(s, o):
    if not isinstance(o, (SInt, SBits, SBool, _int, float)): return False
    return SBool(s.e == SInt.of(o))
  def __ne__(s, o):
    if not isinstance(o, (SInt, SBits, SBool, _int, float)): return True
    return SBool(s.e != SInt.of(o))
  def __bool__(s): return CUR.decide(s.e != 0)
  def __index__(s):
    v = CUR.value(s.e)
    return v - (1 << IW) if v >> (IW - 1) else v
  # integers as dictionary keys: one bucket, compared by value
  def __hash__(s): return 0x51
  @property
  def real(s): return s

def mkint(e):
  e = z3.simplify(e)
  return e.as_signed_long() if z3.is_bv_value(e) else SInt(e)


class SBits:
  """pymtl3's Bits.  Mutable: slices can be assigned."""
  def __init__(s, nbits, v=0, trunc_int=False):
    nbits = _int(nbits)
    if nbits < 1 or nbits >= 1024: raise ValueError(f"Only support 1 <= nbits < 1024, not {nbits}")
    s.nbits = nbits
    if isinstance(v, SBits):
      if v.nbits != nbits: raise ValueError(f"Bits{v.nbits} used to construct Bits{nbits}")
      s.e = v.e
    elif z3.is_bv(v):
      assert v.size() == nbits
      s.e = v
    else: s.e = fit(v, nbits, trunc_int)
  def clone(s): return SBits(s.nbits, s.e)
  def __deepcopy__(s, memo): return s.clone()
  def to_bits(s): return s
  def uint(s): return mkint(zx(s.e, IW)) if s.nbits < IW else wide(s, False)
  def int(s): return mkint(sx(s.e, IW)) if s.nbits < IW else wide(s, True)
  def _rng(s, idx):
    a = 0 if idx.start is None else idx.start
    b = s.nbits if idx.stop is None else idx.stop
    a, b = SInt.of(a), SInt.of(b)
    if CUR.decide(b == 0): b = const(IW, s.nbits)
    if not CUR.decide(z3.And(a >= 0, a < b, b <= s.nbits)): raise IndexError(f"Invalid access in a Bits{s.nbits} instance")
    n = CUR.value(b - a)
    return z3.simplify(a), n
  def _sh(s, a): return z3.simplify(zx(a, s.nbits) if s.nbits < IW else zx(a, s.nbits))
  def __getitem__(s, idx):
    if isinstance(idx, slice):
      if idx.step: raise IndexError("Index cannot contain step")
      a, n = s._rng(idx)
    else:
      a, n = SInt.of(idx), 1
      if not CUR.decide(z3.And(a >= 0, a < s.nbits)): raise IndexError(f"Invalid access in a Bits{s.nbits} instance")
    a = z3.simplify(a)
    if z3.is_bv_value(a):
      k = a.as_long()
      return SBits(n, z3.simplify(z3.Extract(k + n - 1, k, s.e)))
    return SBits(n, z3.simplify(z3.Extract(n - 1, 0, z3.LShR(s.e, s._sh(a)))))
  def __setitem__(s, idx, v):
    if isinstance(idx, slice):
      if idx.step: raise IndexError("Index cannot contain step")
      a, n = s._rng(idx)
    else:
      a, n = SInt.of(idx), 1
      if not CUR.decide(z3.And(a >= 0, a < s.nbits)): raise IndexError(f"Invalid access in a Bits{s.nbits} instance")
    if isinstance(v, SBits):
      if v.nbits != n: raise ValueError(f"Cannot fit a Bits{v.nbits} object into a {n}-bit slice")
      x = v.e
    else: x = fit(v, n)
    sh = s._sh(a)
    m = zx(z3.BitVecVal((1 << n) - 1, n), s.nbits)
    s.e = z3.simplify((s.e & ~(m << sh)) | (zx(x, s.nbits) << sh))
  def _o(s, o, name):
    if isinstance(o, SBits):
      if o.nbits != s.nbits: raise ValueError(f"Operands of {name} must have matching bitwidth: Bits{s.nbits}, Bits{o.nbits}")
      return o.e
    if not isinstance(o, (_int, SInt, SBool)): raise TypeError(f"{name} on {type(o).__name__}")
    if isinstance(o, _int):
      if not 0 <= o < 1 << s.nbits: raise ValueError(f"{o} is not a valid binop operand with Bits{s.nbits}")
      return const(s.nbits, o)
    x = SInt.of(o)
    if not CUR.decide(z3.And(x >= 0, x <= (1 << s.nbits) - 1) if s.nbits < IW - 1 else x >= 0):
      raise ValueError(f"not a valid binop operand with Bits{s.nbits}")
    return zx(x, s.nbits)
  def _b(s, o, f, name): return SBits(s.nbits, z3.simplify(f(s.e, s._o(o, name))))
  def __add__(s, o): return s._b(o, lambda a, b: a + b, '+')
  def __radd__(s, o): return s._b(o, lambda a, b: a + b, '+')
  def __sub__(s, o): return s._b(o, lambda a, b: a - b, '-')
  def __rsub__(s, o): return s._b(o, lambda a, b: b - a, '-')
  def __mul__(s, o): return s._b(o, lambda a, b: a * b, '*')
  __rmul__ = __mul__
  def __and__(s, o): return s._b(o, lambda a, b: a & b, '&')
  def __or__(s, o): return s._b(o, lambda a, b: a | b, '|')
  def __xor__(s, o): return s._b(o, lambda a, b: a ^ b, '^')
  __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
  def __floordiv__(s, o): return s._b(o, z3.UDiv, '//')
  def __mod__(s, o): return s._b(o, z3.URem, '%')
  def __invert__(s): return SBits(s.nbits, z3.simplify(~s.e))
  def __lshift__(s, o): return s._b(o, lambda a, b: a << b, '<<')
  def __rshift__(s, o): return s._b(o, z3.LShR, '>>')
  def _c(s, o, f, name):
    c = z3.simplify(f(s.e, s._o(o, name)))
    return SBits(1, z3.If(c, const(1, 1), const(1, 0)))
  def __lt__(s, o): return s._c(o, z3.ULT, '<')
  def __le__(s, o): return s._c(o, z3.ULE, '<=')
  def __gt__(s, o): return s._c(o, z3.UGT, '>')
  def __ge__(s, o): return s._c(o, z3.UGE, '>=')
  def __eq__(s, o):
    # pymtl3: anything that is no integer compares unequal
    if not isinstance(o, (SBits, SInt, SBool, _int)): return False
    return s._c(o, lambda a, b: a == b, '==')
  def __ne__(s, o):
    if not isinstance(o, (SBits, SInt, SBool, _int)): return True
    return s._c(o, lambda a, b: a != b, '!=')
  def __bool__(s): return CUR.decide(s.e != 0)
  def __index__(s): return CUR.value(s.e)
  __int__ = __index__
  # hash((nbits, value)) in pymtl3: never an integer's bucket
  def __hash__(s): return 0x5b1 + s.nbits
  def hex(s): return str(s.e)
  bin = oct = hex

def wide(b, signed):
  """Integer value of a wide vector: only what fits is modelled."""
  hi = z3.Extract(b.nbits - 1, IW - 1, b.e)
  if signed: raise OutOfReach('signed value of a wide vector')
  if CUR.decide(hi == 0): return mkint(z3.Extract(IW - 1, 0, b.e))
  raise OutOfReach('integer value of a wide vector')

def fit(v, n, trunc_int=False):
  """An integer as n bits (pymtl3 accepts -2^(n-1) .. 2^n-1)."""
  if isinstance(v, SBits): return SBits(n, v).e
  if isinstance(v, _int):
    if not trunc_int and not -(1 << (n - 1)) <= v <= (1 << n) - 1: raise ValueError(f"Value {hex(v)} is too wide for Bits{n}!")
    return const(n, v)
  x = SInt.of(v)
  if n < IW - 1 and not trunc_int and not CUR.decide(z3.And(x >= -(1 << (n - 1)), x <= (1 << n) - 1)):
    raise ValueError(f"Value is too wide for Bits{n}!")
  return sx(x, n)


_types = {}
def mk_bits(n):
  if n not in _types:
    class T(SBits):
      nbits = n
      def __new__(cls, v=0, trunc_int=False): return SBits(n, v, trunc_int)
    T.__name__ = f'Bits{n}'
    _types[n] = T
  return _types[n]

def width(w): return w if isinstance(w, _int) else w.nbits

def zext(v, w):
  assert width(w) >= v.nbits
  return SBits(width(w), z3.simplify(zx(v.e, width(w))))

def sext(v, w):
  assert width(w) >= v.nbits
  return SBits(width(w), z3.simplify(sx(v.e, width(w))))

def trunc(v, w):
  assert width(w) <= v.nbits
  return SBits(width(w), z3.simplify(zx(v.e, width(w))))

def concat(*a):
  return SBits(sum(x.nbits for x in a), z3.simplify(z3.Concat(*[x.e for x in a]) if len(a) > 1 else a[0].e))

def sint(v=0, *a):
  """int()"""
  if a: return _int(v, *a)
  if isinstance(v, SBits): return v.uint()
  if isinstance(v, SInt): return v
  if isinstance(v, SBool): return mkint(SInt.of(v))
  return _int(v)

class _IntMeta(type):
  def __instancecheck__(cls, o): return isinstance(o, (_int, SInt))
  def __call__(cls, *a): return sint(*a)
class IntLike(metaclass=_IntMeta):
  """Stands in for the name `int` in the executed module."""


NAMES = dict(Bits=SBits, mk_bits=mk_bits, zext=zext, sext=sext, trunc=trunc, concat=concat, int=IntLike)
for _n in range(1, 513):
  NAMES[f'Bits{_n}'] = NAMES[f'b{_n}'] = mk_bits(_n)


def load(modname, extra=()):
  """A fresh copy of a module of the repository whose globals use proxies."""
  import importlib.util
  spec = importlib.util.find_spec(modname)
  src = open(spec.origin).read()
  import types
  m = types.ModuleType('sym_' + modname.replace('.', '_'))
  m.__file__, m.__package__ = spec.origin, modname.rpartition('.')[0]
  exec(compile(src, spec.origin, 'exec'), m.__dict__)
  import pymtl3
  real = {id(getattr(pymtl3, k)): v for k, v in NAMES.items() if hasattr(pymtl3, k)}
  for k, v in list(m.__dict__.items()):
    if id(v) in real: m.__dict__[k] = real[id(v)]
  m.__dict__['int'] = IntLike
  for k, v in dict(extra).items(): m.__dict__[k] = v
  return m


def self_check(n, seed):
  """The proxies against pymtl3's Bits and Python's int on random values."""
  import random
  import pymtl3 as P
  global CUR
  R = random.Random(seed)
  CUR = Run(Explorer(), [])
  val = lambda x: ('b', x.nbits, _int(x)) if hasattr(x, 'nbits') else ('i', _int(x))
  def attempt(f):
    try: return f()
    except (ValueError, IndexError, TypeError, AssertionError) as e: return 'error'
  two = ['__add__', '__sub__', '__mul__', '__and__', '__or__', '__xor__', '__lshift__', '__rshift__', '__eq__', '__ne__', '__lt__',
         '__le__', '__gt__', '__ge__', '__floordiv__', '__mod__']
  count = 0
  for _ in range(n):
    w = R.choice([1, 2, 4, 8, 16, 31, 32, 33, 64, 128])
    num = lambda k: R.choice([0, 1, (1 << k) - 1, 1 << (k - 1), R.getrandbits(k)])
    a = num(w)
    kind = R.randrange(8)
    if kind < 3:
      op = R.choice(two)
      b = num(w if R.random() < .8 else R.choice([1, 8, 32]))
      if op in ('__lshift__', '__rshift__') and R.random() < .7: b = R.randrange(min(w + 2, 1 << w))
      w2 = w if R.random() < .9 else 8
      b &= (1 << w2) - 1
      if op in ('__floordiv__', '__mod__') and b == 0: continue
      if kind == 0: x, y = attempt(lambda: getattr(P.Bits(w, a), op)(P.Bits(w2, b))), attempt(lambda: getattr(SBits(w, a), op)(SBits(w2, b)))
      elif kind == 1:
        b = R.choice([b, -b, b * 2 + 1])
        if b <= 0 and op in ('__floordiv__', '__mod__'): continue
        x, y = attempt(lambda: getattr(P.Bits(w, a), op)(b)), attempt(lambda: getattr(SBits(w, a), op)(b))
      else:
        a, b = num(30) - R.choice([0, 1 << 29]), num(30) - R.choice([0, 1 << 29])
        if op in ('__lshift__', '__rshift__'): b = R.randrange(20)
        if op in ('__floordiv__', '__mod__'): b = abs(b) + 1
        x, y = getattr(a, op)(b), getattr(SInt(const(IW, a)), op)(b)
    elif kind == 3:
      i, j = R.randrange(w + 2), R.randrange(w + 2)
      x, y = attempt(lambda: P.Bits(w, a)[i:j]), attempt(lambda: SBits(w, a)[i:j])
    elif kind == 4:
      i, j = R.randrange(w), R.randrange(w + 1)
      v = num(max(1, j - i)) if R.random() < .8 else num(w)
      def put(T, as_bits):
        t = T(w, a)
        t[i:j] = T(max(1, j - i), v) if as_bits else v
        return t
      ab = R.random() < .5
      x, y = attempt(lambda: put(P.Bits, ab)), attempt(lambda: put(SBits, ab))
    elif kind == 5:
      w2 = R.choice([1, 8, 32, 64, 128])
      f = R.choice(['zext', 'sext', 'trunc'])
      x, y = attempt(lambda: getattr(P, f)(P.Bits(w, a), w2)), attempt(lambda: NAMES[f](SBits(w, a), w2))
    elif kind == 6:
      if w > 32: continue
      x, y = P.Bits(w, a).int(), SBits(w, a).int()
    else:
      v = num(w) * R.choice([1, -1, 2])
      x, y = attempt(lambda: P.Bits(w, v)), attempt(lambda: SBits(w, v))
    count += 1
    if isinstance(x, str) or isinstance(y, str): same = isinstance(x, str) and isinstance(y, str)
    else:
      same = val(x) == val(y) if not isinstance(y, SBool) else _int(x) == _int(bool(y))
    if not same:
      return count, f"case {kind} width {w} value {a:#x}: {x!r} against {y if isinstance(y, str) else val(y)} {a} {b if kind < 3 else ''} {op if kind < 3 else ''}"
  CUR = None
  return count, None
