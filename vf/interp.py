"""Symbolic execution of pymtl3 update blocks (real source, real closures).

Every update block of an elaborated pymtl3 model is executed once, by walking
its Python AST, over symbolic signal values.  Branches on symbolic conditions
are merged; loops are unrolled (their bounds are concrete); helper functions
are inlined; everything that does not depend on a signal is evaluated by
Python itself, with the real objects from the block's closure and globals.

The operator semantics follow pymtl3's PythonBits: exact width rules, integer
range rules, wrap-around, shifts >= width give zero, index range errors.  An
operation that would raise in a real simulation records an error condition.
"""
import ast, builtins, inspect, textwrap, types

from pymtl3.datatypes import Bits, mk_bits
from pymtl3.datatypes.bitstructs import is_bitstruct_class, is_bitstruct_inst
from pymtl3.datatypes import helpers as H
from pymtl3.dsl import Component
from pymtl3.dsl.Connectable import Signal, Interface

from .aig import BVOps


class EvalErr(Exception):
  """The interpreted code raises on this path."""

class Unsupported(Exception):
  """The encoding does not cover this construct."""


# ----------------------------------------------------------------------
# Symbolic values
# ----------------------------------------------------------------------

class SB:
  """Symbolic Bits value; bits LSB first."""
  __slots__ = ('bits',)
  def __init__(s, bits): s.bits = tuple(bits)
  @property
  def nbits(s): return len(s.bits)

class SS:
  """Symbolic bitstruct value, packed (first field in the MSBs)."""
  __slots__ = ('type', 'bits')
  def __init__(s, t, bits): s.type, s.bits = t, tuple(bits)

class SI:
  """Symbolic Python int, two's complement, width chosen so it never wraps."""
  __slots__ = ('bits',)
  def __init__(s, bits): s.bits = tuple(bits)

class PB:
  """Symbolic Python bool."""
  __slots__ = ('lit',)
  def __init__(s, lit): s.lit = lit

class Ref:
  """Alias of bits [lo, lo+n) of a root signal."""
  __slots__ = ('sig', 'lo', 'n', 'type')
  def __init__(s, sig, lo, n, t): s.sig, s.lo, s.n, s.type = sig, lo, n, t
  @property
  def nbits(s): return s.n

class LRef:
  """Bits [lo, lo+n) of a local Bits/struct variable (an lvalue)."""
  __slots__ = ('frame', 'name', 'lo', 'n', 'type')
  def __init__(s, frame, name, lo, n, t):
    s.frame, s.name, s.lo, s.n, s.type = frame, name, lo, n, t

class Sel:
  """Element of a Python list selected by a symbolic index: [(cond, value)]."""
  __slots__ = ('alts',)
  def __init__(s, alts): s.alts = alts

class BoundM:
  """Method bound to a symbolic value."""
  __slots__ = ('obj', 'name')
  def __init__(s, obj, name): s.obj, s.name = obj, name

class Poison:
  def __init__(s, why): s.why = why

SYM = (SB, SS, SI, PB, Ref, LRef, Sel, BoundM)


def type_nbits(t):
  if isinstance(t, list):
    return len(t) * type_nbits(t[0])
  return t.nbits

def field_layout(t, name):
  """(lo, type) of a field in a packed bitstruct."""
  fields = t.__bitstruct_fields__
  if name not in fields:
    return None
  hi = type_nbits(t)
  for k, ft in fields.items():
    n = type_nbits(ft)
    if k == name:
      return hi - n, ft
    hi -= n

def const_bits_of(v):
  """Concrete Bits/bitstruct instance -> tuple of constant literals."""
  b = v if isinstance(v, Bits) else v.to_bits()
  u = b.uint()
  return tuple((u >> i) & 1 for i in range(b.nbits))


_src_cache = {}

def func_ast(fn):
  code = fn.__code__
  if code in _src_cache: return _src_cache[code]
  src = textwrap.dedent(inspect.getsource(fn))
  try:
    tree = ast.parse(src)
  except SyntaxError:
    # a lambda in the middle of an expression statement
    tree = ast.parse(src.strip().rstrip(','), mode='exec')
  node = None
  want_lambda = fn.__name__ == '<lambda>'
  cands = []
  for n in ast.walk(tree):
    if want_lambda and isinstance(n, ast.Lambda): cands.append(n)
    if not want_lambda and isinstance(n, (ast.FunctionDef,)) and n.name == fn.__name__:
      cands.append(n); break
  if len(cands) != 1:
    # several lambdas on one line: pick by argument names
    cands = [c for c in cands if tuple(a.arg for a in c.args.args) == code.co_varnames[:code.co_argcount]]
  if len(cands) < 1: raise Unsupported(f"no AST for {fn}")
  node = cands[0]
  _src_cache[code] = node
  return node


def has_term(stmts):
  for st in stmts:
    for n in ast.walk(st):
      if isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Raise)):
        return True
  return False


class State:
  __slots__ = ('env', 'nxt', 'frames', 'pc', 'dead', 'ret')
  def __init__(s):
    s.env, s.nxt, s.frames = {}, {}, []
    s.pc, s.dead, s.ret = 1, False, None

  def clone(s):
    c = State()
    c.env, c.nxt = dict(s.env), dict(s.nxt)
    c.frames = [dict(f) for f in s.frames]
    c.pc, c.dead, c.ret = s.pc, s.dead, s.ret
    return c

  def take(s, o):
    s.env, s.nxt, s.frames = o.env, o.nxt, o.frames
    s.dead, s.ret = o.dead, o.ret


class Fn:
  """A nested function / lambda created by interpreted code."""
  def __init__(s, node, scope, frame): s.node, s.scope, s.frame = node, scope, frame


class Interp:
  """placeholder(sig) -> tuple of literals for the current value of a root signal."""

  def __init__(s, g, placeholder):
    s.g = g
    s.v = BVOps(g)
    s.placeholder = placeholder
    s.errs = []           # (literal, message)
    s.funcs = set()       # functions encoded
    s.st = None

  # -- errors ----------------------------------------------------------
  def err(s, cond, msg):
    c = s.g.AND(s.st.pc, cond)
    if c != 0: s.errs.append((c, msg))

  # -- signals ---------------------------------------------------------
  def ref(s, sig):
    lo, t = 0, sig._dsl.Type
    n = type_nbits(t)
    top = sig._dsl.top_level_signal
    if sig is not top:
      lo = s.sub_lo(sig)
    return Ref(top, lo, n, t)

  @staticmethod
  def sub_lo(sig):
    lo = 0
    while sig is not sig._dsl.top_level_signal:
      parent = sig._dsl.parent_obj
      if sig._dsl.slice is not None:
        lo += sig._dsl.slice.start
      else:
        name, idx = sig._dsl._my_name, sig._dsl._my_indices
        flo, ft = field_layout(parent._dsl.Type, name)
        lo += flo
        for i in idx or ():
          ft = ft[0]
          lo += i * type_nbits(ft)
      sig = parent
    return lo

  def cur(s, sig):
    b = s.st.env.get(sig)
    if b is None:
      b = s.placeholder(sig)
    return b

  def rd(s, x):
    """Read any reference into a value."""
    if isinstance(x, Ref):
      bits = s.cur(x.sig)[x.lo:x.lo + x.n]
      return s.mkval(x.type, bits)
    if isinstance(x, LRef):
      v = s.st.frames[x.frame][x.name]
      return s.mkval(x.type, s.bits_of(v)[x.lo:x.lo + x.n])
    if isinstance(x, Sel):
      vals = [(c, s.rd(v)) for c, v in x.alts]
      return s.merge_vals(vals)
    if isinstance(x, Signal):
      return s.rd(s.ref(x))
    if isinstance(x, Poison):
      raise Unsupported(x.why)
    return x

  @staticmethod
  def mkval(t, bits):
    if isinstance(t, list):
      n = type_nbits(t[0])
      return [Interp.mkval(t[0], bits[i * n:(i + 1) * n]) for i in range(len(t))]
    if is_bitstruct_class(t):
      return SS(t, bits)
    return SB(bits)

  def merge_vals(s, vals):
    """vals: [(cond, value)], conditions exclusive and (assumed) exhaustive."""
    out = vals[-1][1]
    for c, v in reversed(vals[:-1]):
      out = s.merge(c, v, out)
    return out

  def bits_of(s, x):
    """Bits of a Bits/struct-like value."""
    x = s.rd(x)
    if isinstance(x, (SB, SS)): return x.bits
    if isinstance(x, Bits) or is_bitstruct_inst(x): return const_bits_of(x)
    raise EvalErr(f"expected Bits, got {type(x).__name__}")

  def is_bitsy(s, x):
    return isinstance(x, (SB, SS, Bits)) or is_bitstruct_inst(x)

  def merge(s, c, a, b):
    if c == 1: return a
    if c == 0: return b
    if a is b: return a
    if isinstance(a, Poison) or isinstance(b, Poison): return Poison("merge of undefined local")
    a, b = s.rd(a), s.rd(b)
    if a is b: return a
    def bitsy(x): return isinstance(x, (SB, SS, Bits)) or is_bitstruct_inst(x)
    if bitsy(a) and bitsy(b):
      x, y = s.bits_of(a), s.bits_of(b)
      if len(x) != len(y): return Poison("merge of different widths")
      bits = s.v.ITE(c, x, y)
      ta = a.type if isinstance(a, SS) else (type(a) if is_bitstruct_inst(a) else None)
      tb = b.type if isinstance(b, SS) else (type(b) if is_bitstruct_inst(b) else None)
      if ta is not None and ta is tb: return SS(ta, bits)
      return SB(bits)
    if isinstance(a, (bool, PB)) and isinstance(b, (bool, PB)):
      return PB(s.g.MUX(c, s.truth(a), s.truth(b)))
    if isinstance(a, (int, SI, PB)) and isinstance(b, (int, SI, PB)):
      if isinstance(a, int) and isinstance(b, int) and a == b: return a
      x, y = s.si(a), s.si(b)
      n = max(len(x), len(y))
      return SI(s.v.ITE(c, s.v.sext(x, n), s.v.sext(y, n)))
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
      return type(a)(s.merge(c, x, y) for x, y in zip(a, b))
    try:
      if a == b: return a
    except Exception:
      pass
    return Poison(f"merge of {type(a).__name__} and {type(b).__name__}")

  # -- python-level conversions -----------------------------------------
  def truth(s, x):
    """Literal for bool(x)."""
    x = s.rd(x)
    if isinstance(x, PB): return x.lit
    if isinstance(x, SB): return s.v.nz(x.bits)
    if isinstance(x, SI): return s.v.nz(x.bits)
    if isinstance(x, SS): 
      if not hasattr(x.type, '__bool__'): return 1
      return s.v.nz(x.bits)
    if isinstance(x, (Sel, BoundM)): return 1
    return 1 if x else 0

  def si(s, x):
    """Signed bit-vector of a Python int-like value."""
    x = s.rd(x)
    if isinstance(x, SI): return x.bits
    if isinstance(x, PB): return (x.lit, 0)
    if isinstance(x, SB): return x.bits + (0,)
    if isinstance(x, (bool, int)):
      x = int(x)
      n = max(x.bit_length() + 1, 1)
      return tuple((x >> i) & 1 for i in range(n))
    if isinstance(x, Bits):
      return s.si(int(x))
    if isinstance(x, SS):
      raise EvalErr("int() of bitstruct")
    raise EvalErr(f"cannot convert {type(x).__name__} to int")

  def norm_int(s, bits):
    """Trim redundant sign bits; constant -> Python int."""
    bits = tuple(bits)
    while len(bits) > 1 and bits[-1] == bits[-2]:
      bits = bits[:-1]
    if all(b <= 1 for b in bits):
      v = sum(b << i for i, b in enumerate(bits))
      if bits[-1]: v -= 1 << len(bits)
      return v
    return SI(bits)

  def is_sym(s, x):
    return isinstance(x, SYM) or isinstance(x, Signal)

  def deep_sym(s, x):
    if s.is_sym(x): return True
    if isinstance(x, (list, tuple)): return any(s.deep_sym(e) for e in x)
    if isinstance(x, dict): return any(s.deep_sym(e) for e in x.values())
    return False

  # -- bits arithmetic ---------------------------------------------------
  def opnd(s, other, n, what):
    """Right operand of a Bits(n) binary operator -> n literals."""
    if s.is_bitsy(other):
      b = s.bits_of(other)
      if len(b) != n: raise EvalErr(f"{what}: width mismatch {n} vs {len(b)}")
      return b
    if isinstance(other, (int, bool)):
      v = int(other)
      if v < 0 or v > (1 << n) - 1: raise EvalErr(f"{what}: int {v} out of range for Bits{n}")
      return s.v.const(v, n)
    if isinstance(other, PB):
      return s.v.zext((other.lit,), n)
    if isinstance(other, SI):
      return s.fit(other.bits, n, 0, (1 << n) - 1, what)
    raise EvalErr(f"{what}: bad operand {type(other).__name__}")

  def fit(s, bits, n, lo, hi, what):
    """Signed bits -> n bits; records an error when outside [lo, hi]."""
    m = max(len(bits), n + 2)
    b = s.v.sext(bits, m)
    bad = s.g.OR(s.v.slt(b, s.v.const(lo & ((1 << m) - 1), m)),
                 s.v.slt(s.v.const(hi, m), b))
    s.err(bad, f"{what}: int out of range for Bits{n}")
    return b[:n]

  def to_width(s, val, n, what):
    """RHS of an assignment to an n-bit target."""
    val = s.rd(val)
    if s.is_bitsy(val):
      b = s.bits_of(val)
      if len(b) != n: raise EvalErr(f"{what}: width mismatch Bits{n} <- Bits{len(b)}")
      return b
    if isinstance(val, (int, bool)):
      v = int(val)
      if v < -(1 << (n - 1)) or v > (1 << n) - 1:
        raise EvalErr(f"{what}: int {v} does not fit Bits{n}")
      return s.v.const(v & ((1 << n) - 1), n)
    if isinstance(val, PB): return s.v.zext((val.lit,), n)
    if isinstance(val, SI):
      return s.fit(val.bits, n, -(1 << (n - 1)), (1 << n) - 1, what)
    raise EvalErr(f"{what}: cannot assign {type(val).__name__}")

  def binop(s, op, a, b):
    a, b = s.rd(a), s.rd(b)
    if not s.is_sym(a) and not s.is_sym(b):
      return s.native(lambda: BINOPS[op](a, b))
    v = s.v
    if isinstance(a, SS) or isinstance(b, SS) or is_bitstruct_inst(a) or is_bitstruct_inst(b):
      if isinstance(a, SS) or is_bitstruct_inst(a):
        raise EvalErr("arithmetic on bitstruct")
      b = SB(s.bits_of(b)) if False else b
    abits = isinstance(a, (SB, Bits))
    bbits = isinstance(b, (SB, Bits))
    if abits:
      x = s.bits_of(a); n = len(x)
      name = op.__name__
      y = s.opnd(b, n, name)
      if op is ast.Add: return SB(v.add(x, y))
      if op is ast.Sub: return SB(v.sub(x, y))
      if op is ast.Mult: return SB(v.mul(x, y))
      if op is ast.BitAnd: return SB(v.AND(x, y))
      if op is ast.BitOr: return SB(v.OR(x, y))
      if op is ast.BitXor: return SB(v.XOR(x, y))
      if op is ast.LShift: return SB(v.shl(x, y))
      if op is ast.RShift: return SB(v.shr(x, y))
      if op in (ast.FloorDiv, ast.Mod):
        s.err(s.v.eqc(y, 0), "division by zero")
        k = v.as_const(y)
        if k is not None and k and k & (k - 1) == 0:
          sh = k.bit_length() - 1
          if op is ast.FloorDiv: return SB(x[sh:] + (0,) * sh)
          return SB(x[:sh] + (0,) * (n - sh))
        q, r = v.udivmod(x, y)
        return SB(q if op is ast.FloorDiv else r)
      raise EvalErr(f"operator {name} not defined on Bits")
    if bbits:
      # reflected operators exist for + - * & | ^ // %
      y = s.bits_of(b); n = len(y)
      if op in (ast.LShift, ast.RShift) or op not in (ast.Add, ast.Sub, ast.Mult, ast.BitAnd,
                ast.BitOr, ast.BitXor, ast.FloorDiv, ast.Mod):
        raise EvalErr(f"int {op.__name__} Bits")
      x = s.opnd(a, n, op.__name__)
      return s.binop(op, SB(x), SB(y))
    # symbolic python ints / bools
    if op in (ast.BitAnd, ast.BitOr, ast.BitXor) and isinstance(a, (bool, PB)) and isinstance(b, (bool, PB)):
      la, lb = s.truth(a), s.truth(b)
      f = {ast.BitAnd: s.g.AND, ast.BitOr: s.g.OR, ast.BitXor: s.g.XOR}[op]
      return PB(f(la, lb))
    x, y = s.si(a), s.si(b)
    n = max(len(x), len(y))
    if op is ast.Add: return s.norm_int(v.add(v.sext(x, n + 1), v.sext(y, n + 1)))
    if op is ast.Sub: return s.norm_int(v.sub(v.sext(x, n + 1), v.sext(y, n + 1)))
    if op is ast.Mult:
      m = len(x) + len(y)
      return s.norm_int(v.mul(v.sext(x, m), v.sext(y, m)))
    if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
      f = {ast.BitAnd: v.AND, ast.BitOr: v.OR, ast.BitXor: v.XOR}[op]
      return s.norm_int(f(v.sext(x, n), v.sext(y, n)))
    if op in (ast.LShift, ast.RShift):
      s.err(y[-1], "negative shift count")
      k = v.as_const(y)
      if op is ast.RShift:
        amt = y[:-1]
        cur = x
        for i, bit in enumerate(amt):
          sh = min(1 << i, len(cur))
          shv = cur[sh:] + (cur[-1],) * sh
          cur = v.ITE(bit, shv, cur)
        return s.norm_int(cur)
      mx = (1 << (len(y) - 1)) - 1
      if mx > 1024: raise Unsupported("wide symbolic shift of Python int")
      cur = v.sext(x, len(x) + mx)
      for i, bit in enumerate(y[:-1]):
        sh = 1 << i
        cur = v.ITE(bit, ((0,) * sh + cur)[:len(cur)], cur)
      return s.norm_int(cur)
    if op in (ast.FloorDiv, ast.Mod):
      # nonnegative operands only
      s.err(s.v.eqc(y, 0), "division by zero")
      if s.g.OR(x[-1], y[-1]) != 0: raise Unsupported("signed symbolic division")
      xx, yy = v.zext(x, n), v.zext(y, n)
      q, r = v.udivmod(xx, yy)
      return s.norm_int((q if op is ast.FloorDiv else r) + (0,))
    raise Unsupported(f"operator {op.__name__} on symbolic int")

  def compare(s, op, a, b):
    if op in (ast.Is, ast.IsNot):
      if isinstance(a, Sel) or isinstance(b, Sel): raise Unsupported("is on symbolic selection")
      r = a is b or (a is None and b is None)
      return r if op is ast.Is else not r
    if op in (ast.In, ast.NotIn):
      b = s.rd(b)
      if not isinstance(b, (list, tuple, set, frozenset, range, dict)):
        raise Unsupported("'in' on this container")
      l = 0
      for e in b:
        l = s.g.OR(l, s.truth(s.compare(ast.Eq, a, e)))
      if op is ast.NotIn: l ^= 1
      return bool(l) if l <= 1 else PB(l)
    a, b = s.rd(a), s.rd(b)
    if not s.deep_sym(a) and not s.deep_sym(b):
      return s.native(lambda: CMPOPS[op](a, b))
    v = s.v
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
      if type(a) is not type(b) or op not in (ast.Eq, ast.NotEq): raise Unsupported("compare containers")
      l = 1 if len(a) == len(b) else 0
      if l:
        for x, y in zip(a, b): l = s.g.AND(l, s.truth(s.compare(ast.Eq, x, y)))
      if op is ast.NotEq: l ^= 1
      return bool(l) if l <= 1 else PB(l)
    sa = isinstance(a, SS) or is_bitstruct_inst(a)
    sb = isinstance(b, SS) or is_bitstruct_inst(b)
    if sa and sb:
      ta = a.type if isinstance(a, SS) else type(a)
      tb = b.type if isinstance(b, SS) else type(b)
      l = v.eq(s.bits_of(a), s.bits_of(b)) if ta is tb else 0
      if op is ast.Eq: return PB(l)
      if op is ast.NotEq: return PB(l ^ 1)
      raise EvalErr("ordering of bitstructs")
    if isinstance(a, (SB, Bits)) or isinstance(b, (SB, Bits)):
      if not isinstance(a, (SB, Bits)):
        a, b = b, a
        op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
      x = s.bits_of(a)
      if b is None or isinstance(b, str):
        return SB((1 if op is ast.NotEq else 0,))
      y = s.opnd(b, len(x), op.__name__)
      l = {ast.Eq: lambda: v.eq(x, y), ast.NotEq: lambda: v.eq(x, y) ^ 1,
           ast.Lt: lambda: v.ult(x, y), ast.GtE: lambda: v.ult(x, y) ^ 1,
           ast.Gt: lambda: v.ult(y, x), ast.LtE: lambda: v.ult(y, x) ^ 1}[op]()
      return SB((l,))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
      return op is ast.NotEq
    x, y = s.si(a), s.si(b)
    n = max(len(x), len(y))
    x, y = v.sext(x, n), v.sext(y, n)
    l = {ast.Eq: lambda: v.eq(x, y), ast.NotEq: lambda: v.eq(x, y) ^ 1,
         ast.Lt: lambda: v.slt(x, y), ast.GtE: lambda: v.slt(x, y) ^ 1,
         ast.Gt: lambda: v.slt(y, x), ast.LtE: lambda: v.slt(y, x) ^ 1}[op]()
    return bool(l) if l <= 1 else PB(l)

  def native(s, f):
    try:
      return f()
    except (Unsupported, EvalErr):
      raise
    except Exception as e:
      raise EvalErr(f"{type(e).__name__}: {e}")

  # -- indexing ------------------------------------------------------------
  def idx_int(s, i):
    """Index value -> ('c', int) or ('s', signed bits)."""
    i = s.rd(i)
    if isinstance(i, SB):
      c = s.v.as_const(i.bits)
      if c is not None: return 'c', c
      return 's', i.bits + (0,)
    if isinstance(i, (SI, PB)):
      b = s.si(i)
      c = s.norm_int(b)
      if isinstance(c, int): return 'c', c
      return 's', b
    if isinstance(i, SS): raise EvalErr("index by bitstruct")
    return 'c', s.native(lambda: int(i))

  def sub(s, base, idx):
    """base[idx] as value or reference. idx: value or python slice of values."""
    if isinstance(base, Signal): base = s.ref(base)
    if isinstance(base, Sel):
      return Sel([(c, s.sub(b, idx)) for c, b in base.alts])
    if isinstance(base, (Ref, LRef)):
      if isinstance(base.type, list):
        lst = []
        n = type_nbits(base.type[0])
        for i in range(len(base.type)):
          lst.append(s.shift_ref(base, i * n, n, base.type[0]))
        return s.sub(lst, idx)
      if is_bitstruct_class(base.type): raise EvalErr("slicing a bitstruct")
      if isinstance(idx, slice):
        lo, hi = s.slice_bounds(idx, base.n)
        return s.shift_ref(base, lo, hi - lo, mk_bits(hi - lo))
      k, i = s.idx_int(idx)
      if k == 'c':
        if i < 0 or i >= base.n: raise EvalErr(f"bit index {i} out of range of Bits{base.n}")
        return s.shift_ref(base, i, 1, mk_bits(1))
      return s.select(i, [s.shift_ref(base, j, 1, mk_bits(1)) for j in range(base.n)])
    if isinstance(base, (SB, Bits)):
      if isinstance(base, Bits) and not s.deep_sym(idx if not isinstance(idx, slice) else [idx.start, idx.stop]):
        return s.native(lambda: base[idx])
      bits = s.bits_of(base)
      if isinstance(idx, slice):
        lo, hi = s.slice_bounds(idx, len(bits))
        return SB(bits[lo:hi])
      k, i = s.idx_int(idx)
      if k == 'c':
        if i < 0 or i >= len(bits): raise EvalErr(f"bit index {i} out of range of Bits{len(bits)}")
        return SB((bits[i],))
      return s.rd(s.select(i, [SB((b,)) for b in bits]))
    if isinstance(base, (list, tuple)):
      if isinstance(idx, slice):
        parts = []
        for e in (idx.start, idx.stop, idx.step):
          if e is None: parts.append(None); continue
          k, i = s.idx_int(e)
          if k != 'c': raise Unsupported("symbolic list slice")
          parts.append(i)
        return base[slice(*parts)]
      k, i = s.idx_int(idx)
      if k == 'c':
        return s.native(lambda: base[i])
      return s.select(i, list(base), pylist=True)
    if isinstance(base, dict):
      r = s.rd(idx)
      if s.is_sym(r):
        alts = []
        left = 1
        for kk, vv in base.items():
          c = s.truth(s.compare(ast.Eq, r, kk))
          alts.append((s.g.AND(left, c), vv)); left = s.g.AND(left, c ^ 1)
        s.err(left, "KeyError")
        if not alts: raise EvalErr("KeyError")
        return Sel(alts)
      return s.native(lambda: base[r])
    if not s.deep_sym(idx if not isinstance(idx, slice) else [idx.start, idx.stop]):
      return s.native(lambda: base[idx])
    raise Unsupported(f"subscript of {type(base).__name__}")

  def select(s, ibits, elems, pylist=False):
    n = len(elems)
    alts, left = [], 1
    for j, e in enumerate(elems):
      c = s.v.eqc(ibits, j)
      if j.bit_length() >= len(ibits): c = 0
      if pylist:
        jj = (j - n) & ((1 << len(ibits)) - 1)
        if n - j <= (1 << (len(ibits) - 1)):
          c = s.g.OR(c, s.v.eqc(ibits, jj))
      if c == 0: continue
      alts.append((c, e))
      left = s.g.AND(left, c ^ 1)
    s.err(left, "index out of range")
    if not alts: raise EvalErr("index out of range")
    return Sel(alts)

  def shift_ref(s, r, lo, n, t):
    if isinstance(r, Ref): return Ref(r.sig, r.lo + lo, n, t)
    return LRef(r.frame, r.name, r.lo + lo, n, t)

  def slice_bounds(s, sl, n):
    if sl.step is not None:
      raise EvalErr("slice step")
    def g(x, d):
      if x is None: return d
      k, i = s.idx_int(x)
      if k != 'c': raise Unsupported("symbolic slice bounds")
      return i or d
    lo, hi = g(sl.start, 0), g(sl.stop, n)
    if not (0 <= lo < hi <= n): raise EvalErr(f"invalid slice [{lo}:{hi}] of Bits{n}")
    return lo, hi

  def attr(s, base, name):
    if isinstance(base, Signal): base = s.ref(base)
    if isinstance(base, Sel):
      return Sel([(c, s.attr(b, name)) for c, b in base.alts])
    if isinstance(base, (Ref, LRef)):
      if is_bitstruct_class(base.type):
        f = field_layout(base.type, name)
        if f is not None:
          return s.shift_ref(base, f[0], type_nbits(f[1]), f[1])
      if name == 'nbits': return base.n
      return BoundM(base, name)
    if isinstance(base, SS):
      f = field_layout(base.type, name)
      if f is not None:
        lo, t = f
        return s.mkval(t, base.bits[lo:lo + type_nbits(t)])
      if name == 'nbits': return len(base.bits)
      return BoundM(base, name)
    if isinstance(base, (SB, SI, PB)):
      if name == 'nbits' and isinstance(base, SB): return base.nbits
      return BoundM(base, name)
    return s.native(lambda: getattr(base, name))

  # -- stores ---------------------------------------------------------------
  def store(s, ref, val, ff=False, what="@="):
    if isinstance(ref, Signal): ref = s.ref(ref)
    if isinstance(ref, Sel):
      for c, r in ref.alts:
        if isinstance(r, Signal): r = s.ref(r)
        if not isinstance(r, (Ref, LRef)): raise Unsupported("store through non-signal selection")
        new = s.to_width(val, r.n, what)
        old = s.old_bits(r, ff)
        s.put(r, s.v.ITE(c, new, old), ff)
      return
    if not isinstance(ref, (Ref, LRef)):
      raise Unsupported(f"store to {type(ref).__name__}")
    s.put(ref, s.to_width(val, ref.n, what), ff)

  def old_bits(s, r, ff):
    if isinstance(r, LRef):
      return s.bits_of(s.st.frames[r.frame][r.name])[r.lo:r.lo + r.n]
    if ff:
      b = s.st.nxt.get(r.sig)
      if b is None: b = s.placeholder(r.sig)
    else:
      b = s.cur(r.sig)
    return b[r.lo:r.lo + r.n]

  def put(s, r, bits, ff):
    if isinstance(r, LRef):
      fr = s.st.frames[r.frame]
      v = fr[r.name]
      ob = s.bits_of(v)
      nb = ob[:r.lo] + tuple(bits) + ob[r.lo + r.n:]
      v = s.rd(v)
      t = v.type if isinstance(v, SS) else (type(v) if is_bitstruct_inst(v) else None)
      fr[r.name] = SS(t, nb) if t else SB(nb)
      return
    d = s.st.nxt if ff else s.st.env
    b = d.get(r.sig)
    if b is None: b = s.placeholder(r.sig)
    d[r.sig] = b[:r.lo] + tuple(bits) + b[r.lo + r.n:]

  # -- expressions ------------------------------------------------------------
  def ev(s, n):
    m = getattr(s, 'e_' + type(n).__name__, None)
    if m is None: raise Unsupported(f"expression {type(n).__name__}")
    return m(n)

  def e_Constant(s, n): return n.value
  def e_Index(s, n): return s.ev(n.value)

  def e_Name(s, n):
    name = n.id
    fr = s.st.frames[-1]
    if name in fr:
      v = fr[name]
      if isinstance(v, Poison): raise Unsupported(v.why)
      return v
    v = s.lookup(name)
    return v

  def lookup(s, name):
    scope = s.scopes[-1]
    while scope is not None:
      if name in scope.vars: return scope.vars[name]
      if scope.frame is not None and name in s.st.frames[scope.frame]:
        return s.st.frames[scope.frame][name]
      scope = scope.parent
    if hasattr(builtins, name): return getattr(builtins, name)
    raise EvalErr(f"NameError: {name}")

  def e_Attribute(s, n):
    return s.attr(s.ev(n.value), n.attr)

  def e_Subscript(s, n):
    base = s.ev(n.value)
    idx = s.ev_idx(n.slice)
    r = s.sub(base, idx)
    # indexing a Bits value makes a copy, indexing a list keeps the alias
    bb = base
    if isinstance(bb, Signal): bb = s.ref(bb)
    if isinstance(bb, (Ref, LRef)) and not isinstance(bb.type, list): return s.rd(r)
    if isinstance(bb, Sel):
      b0 = bb.alts[0][1]
      if isinstance(b0, (Signal, Ref, LRef, SB)): return s.rd(r)
    return r

  def ev_idx(s, sl):
    if isinstance(sl, ast.Slice):
      return slice(*[None if e is None else s.rd(s.ev(e)) for e in (sl.lower, sl.upper, sl.step)])
    return s.rd(s.ev(sl))

  def e_Slice(s, n): return s.ev_idx(n)

  def e_BinOp(s, n):
    a = s.rd(s.ev(n.left)); b = s.rd(s.ev(n.right))
    return s.binop(type(n.op), a, b)

  def e_UnaryOp(s, n):
    x = s.rd(s.ev(n.operand))
    if isinstance(n.op, ast.Not):
      l = s.truth(x) ^ 1
      return bool(l) if l <= 1 else PB(l)
    if not s.is_sym(x):
      return s.native(lambda: UNOPS[type(n.op)](x))
    if isinstance(n.op, ast.Invert):
      if isinstance(x, SB): return SB(s.v.NOT(x.bits))
      if isinstance(x, (SI, PB)): return s.norm_int(s.v.NOT(s.si(x)))
      raise EvalErr("bad operand for ~")
    if isinstance(n.op, ast.USub):
      if isinstance(x, (SI, PB)):
        b = s.si(x); b = s.v.sext(b, len(b) + 1)
        return s.norm_int(s.v.neg(b))
      raise EvalErr("bad operand for unary -")
    if isinstance(n.op, ast.UAdd) and isinstance(x, (SI, PB)): return s.norm_int(s.si(x))
    raise EvalErr("bad unary operator")

  def e_BoolOp(s, n):
    # short-circuit semantics under symbolic conditions
    is_and = isinstance(n.op, ast.And)
    def go(vals):
      x = s.rd(s.ev(vals[0]))
      if len(vals) == 1: return x
      t = s.truth(x)
      stop = t ^ 1 if is_and else t
      if stop == 1: return x
      if stop == 0: return go(vals[1:])
      save = s.st.pc
      s.st.pc = s.g.AND(save, stop ^ 1)
      try:
        y = go(vals[1:])
      finally:
        s.st.pc = save
      r = s.merge(stop, x, y)
      if isinstance(r, Poison):
        # only the truth value can be used
        ty = s.truth(y)
        return PB(s.g.AND(t, ty) if is_and else s.g.OR(t, ty))
      return r
    return go(n.values)

  def e_IfExp(s, n):
    t = s.truth(s.ev(n.test))
    if t == 1: return s.ev(n.body)
    if t == 0: return s.ev(n.orelse)
    save = s.st.pc
    s.st.pc = s.g.AND(save, t)
    ea = eb = None
    try:
      a = s.ev(n.body)
      a = s.rd(a)
    except EvalErr as e: ea = e; s.err(1, str(e))
    s.st.pc = s.g.AND(save, t ^ 1)
    try:
      b = s.ev(n.orelse)
      b = s.rd(b)
    except EvalErr as e: eb = e; s.err(1, str(e))
    s.st.pc = save
    if ea and eb: raise EvalErr("both arms raise")
    if ea: return b
    if eb: return a
    # an int arm merges with a Bits arm only once the target width is known
    if s.is_bitsy(a) != s.is_bitsy(b):
      n_ = len(s.bits_of(a)) if s.is_bitsy(a) else len(s.bits_of(b))
      if isinstance(a, (int, PB, SI)) or isinstance(b, (int, PB, SI)):
        sv = s.st.pc
        s.st.pc = s.g.AND(sv, t);     x = s.to_width(a, n_, "conditional expression")
        s.st.pc = s.g.AND(sv, t ^ 1); y = s.to_width(b, n_, "conditional expression")
        s.st.pc = sv
        return SB(s.v.ITE(t, x, y))
    r = s.merge(t, a, b)
    if isinstance(r, Poison): raise Unsupported(r.why)
    return r

  def e_Compare(s, n):
    left = s.rd(s.ev(n.left)) if not isinstance(n.ops[0], (ast.Is, ast.IsNot)) else s.ev(n.left)
    res = None
    for op, r in zip(n.ops, n.comparators):
      right = s.ev(r)
      x = s.compare(type(op), left, right)
      if res is None: res = x
      else:
        l = s.g.AND(s.truth(res), s.truth(x))
        res = bool(l) if l <= 1 else PB(l)
      left = right
    return res

  def e_Tuple(s, n): return tuple(s.elts(n.elts))
  def e_List(s, n): return list(s.elts(n.elts))
  def e_Set(s, n): return set(s.elts(n.elts))
  def e_Dict(s, n):
    return {s.rd(s.ev(k)): s.ev(v) for k, v in zip(n.keys, n.values)}

  def elts(s, es):
    out = []
    for e in es:
      if isinstance(e, ast.Starred): out.extend(s.iter_list(s.ev(e.value)))
      else: out.append(s.ev(e))
    return out

  def e_JoinedStr(s, n): return "<fstring>"
  def e_FormattedValue(s, n): return "<fstring>"

  def e_ListComp(s, n): return s.comp(n.elt, n.generators)
  def e_GeneratorExp(s, n): return s.comp(n.elt, n.generators)

  def comp(s, elt, gens):
    out = []
    fr = s.st.frames[-1]
    saved = dict(fr)
    def rec(i):
      if i == len(gens):
        out.append(s.ev(elt)); return
      gtor = gens[i]
      for v in s.iter_list(s.ev(gtor.iter)):
        s.assign(gtor.target, v)
        ok = True
        for c in gtor.ifs:
          t = s.truth(s.ev(c))
          if t > 1: raise Unsupported("symbolic comprehension filter")
          if t == 0: ok = False; break
        if ok: rec(i + 1)
    rec(0)
    for k in list(fr):
      if k not in saved: del fr[k]
    fr.update(saved)
    return out

  def e_Lambda(s, n):
    return Fn(n, s.scopes[-1], len(s.st.frames) - 1)

  def iter_list(s, it):
    it = s.rd(it) if not isinstance(it, (list, tuple, range)) else it
    if isinstance(it, (SB, Bits)):
      raise Unsupported("iterating Bits")
    if s.is_sym(it): raise Unsupported("iterating a symbolic value")
    return s.native(lambda: list(it))

  # -- calls ---------------------------------------------------------------
  def e_Call(s, n):
    fn = s.ev(n.func)
    args = s.elts(n.args)
    kw = {}
    for k in n.keywords:
      if k.arg is None: kw.update(s.ev(k.value))
      else: kw[k.arg] = s.ev(k.value)
    return s.call(fn, args, kw)

  def call(s, fn, args, kw):
    if isinstance(fn, BoundM): return s.call_method(fn.obj, fn.name, args, kw)
    if isinstance(fn, Sel):
      raise Unsupported("call through symbolic selection")
    if isinstance(fn, Fn): return s.call_ast(fn.node, args, kw, fn.scope, None)
    h = s.special(fn)
    if h is not None:
      return h(*[s.rd(a) for a in args], **{k: s.rd(v) for k, v in kw.items()})
    if isinstance(fn, types.MethodType):
      mod = getattr(fn.__func__, '__module__', '') or ''
      if not mod.startswith('pymtl3') and not isinstance(fn.__self__, (list, dict, str)):
        return s.call_pyfunc(fn.__func__, [fn.__self__] + list(args), kw)
    if isinstance(fn, types.FunctionType):
      mod = fn.__module__ or ''
      if not mod.startswith('pymtl3'):
        return s.call_pyfunc(fn, args, kw)
    if isinstance(fn, type):
      if issubclass(fn, Bits): return s.mk_bits_val(fn, args, kw)
      if is_bitstruct_class(fn): return s.mk_struct_val(fn, args, kw)
    args = [s.rd(a) if s.is_sym(a) else a for a in args]
    if not any(s.deep_sym(a) for a in args) and not any(s.deep_sym(a) for a in kw.values()):
      if isinstance(fn, types.BuiltinMethodType) and isinstance(getattr(fn, '__self__', None), (list, dict, set)) \
         and s.st.pc != 1 and fn.__name__ in ('append', 'extend', 'insert', 'pop', 'remove', 'update', 'add', 'clear'):
        raise Unsupported("container mutation under a symbolic condition")
      return s.native(lambda: fn(*args, **kw))
    if isinstance(fn, types.BuiltinMethodType) and isinstance(getattr(fn, '__self__', None), list) \
       and fn.__name__ in ('append',):
      if s.st.pc != 1: raise Unsupported("container mutation under a symbolic condition")
      return fn(*args)
    raise Unsupported(f"call of {fn} with symbolic arguments")

  def call_method(s, obj, name, args, kw):
    v = s.rd(obj)
    if isinstance(v, (SB,)):
      if name == 'uint': return s.norm_int(v.bits + (0,))
      if name == 'int': return s.norm_int(v.bits)
      if name in ('to_bits', 'clone'): return SB(v.bits)
    if isinstance(v, SS):
      if name == 'to_bits': return SB(v.bits)
      if name == 'clone': return SS(v.type, v.bits)
      fn = getattr(v.type, name, None)
      if isinstance(fn, types.FunctionType) and not (fn.__module__ or '').startswith('pymtl3'):
        return s.call_pyfunc(fn, [v] + list(args), kw)
    raise Unsupported(f"method {name} of {type(v).__name__}")

  def mk_bits_val(s, cls, args, kw):
    args = [s.rd(a) for a in args]
    kw = {k: s.rd(v) for k, v in kw.items()}
    if not any(s.is_sym(a) for a in args) and not any(s.is_sym(a) for a in kw.values()):
      return s.native(lambda: cls(*args, **kw))
    if cls is Bits:
      n, args = int(args[0]), args[1:]
      v = args[0] if args else kw.get('v', 0)
      tr = args[1] if len(args) > 1 else kw.get('trunc_int', False)
    else:
      n = cls.nbits
      v = args[0] if args else kw.get('v', 0)
      tr = kw.get('trunc_int', False)
    if tr:
      if isinstance(v, (SI, PB, int)):
        b = s.v.sext(s.si(v), max(n, len(s.si(v))))
        return SB(b[:n])
    return SB(s.to_width(v, n, "Bits constructor"))

  def mk_struct_val(s, cls, args, kw):
    args = [s.rd(a) for a in args]
    fields = list(cls.__bitstruct_fields__.items())
    if len(args) > len(fields): raise EvalErr("too many bitstruct arguments")
    given = {}
    for (k, t), a in zip(fields, args): given[k] = a
    for k, a in kw.items():
      if k not in cls.__bitstruct_fields__ or k in given: raise EvalErr("bad bitstruct argument")
      given[k] = s.rd(a)
    if not any(s.deep_sym(a) for a in given.values()):
      return s.native(lambda: cls(**given))
    out = ()
    for k, t in fields:         # MSB first
      if k in given: b = s.field_bits(t, given[k])
      else: b = s.v.const(0, type_nbits(t))
      out = tuple(b) + out
    return SS(cls, out)

  def field_bits(s, t, v):
    if isinstance(t, list):
      if not isinstance(v, list) or len(v) != len(t): raise EvalErr("bad list field")
      out = ()
      for e in v: out = out + tuple(s.field_bits(t[0], e))
      return out
    return s.to_width(v, type_nbits(t), "bitstruct field")

  def special(s, fn):
    if fn is H.concat: return s.f_concat
    if fn is H.zext: return s.f_zext
    if fn is H.sext: return s.f_sext
    if fn is H.trunc: return s.f_trunc
    if fn is H.reduce_and: return lambda x: SB((s.g.ANDN(s.bits_of(x)),))
    if fn is H.reduce_or: return lambda x: SB((s.g.ORN(s.bits_of(x)),))
    if fn is H.reduce_xor:
      def rx(x):
        r = 0
        for b in s.bits_of(x): r = s.g.XOR(r, b)
        return SB((r,))
      return rx
    if fn is int: return s.f_int
    if fn is bool: return s.f_bool
    if fn is min or fn is max: return lambda *a: s.f_minmax(fn, a)
    if fn is print: return lambda *a, **k: None
    if fn is len: return s.f_len
    if fn is isinstance: return s.f_isinstance
    if fn is hasattr:
      return lambda o, nme: (field_layout(o.type, nme) is not None) if isinstance(o, SS) else hasattr(o, nme)
    if fn is any or fn is all:
      def aa(xs):
        ls = [s.truth(x) for x in s.iter_list(xs)]
        l = s.g.ORN(ls) if fn is any else s.g.ANDN(ls)
        return bool(l) if l <= 1 else PB(l)
      return aa
    if fn is sum:
      def ss(xs, start=0):
        acc = start
        for x in s.iter_list(xs): acc = s.binop(ast.Add, acc, x)
        return acc
      return ss
    if fn is abs:
      return lambda x: s.merge(s.truth(s.compare(ast.Lt, x, 0)), s.binop(ast.Sub, 0, x), x) if s.is_sym(x) else abs(x)
    return None

  def f_len(s, x):
    return s.native(lambda: len(x))

  def f_isinstance(s, x, t):
    if isinstance(x, SB):
      ts = t if isinstance(t, tuple) else (t,)
      return any(tt is Bits or (isinstance(tt, type) and issubclass(tt, Bits) and getattr(tt, 'nbits', None) == x.nbits) for tt in ts)
    if isinstance(x, SS):
      ts = t if isinstance(t, tuple) else (t,)
      return any(tt is x.type for tt in ts)
    if isinstance(x, SI): return int in (t if isinstance(t, tuple) else (t,))
    if isinstance(x, PB): return any(q in (int, bool) for q in (t if isinstance(t, tuple) else (t,)))
    return isinstance(x, t)

  def f_minmax(s, fn, a):
    if len(a) == 1: a = s.iter_list(a[0])
    if not any(s.is_sym(x) for x in a): return s.native(lambda: fn(*a))
    best = a[0]
    for x in a[1:]:
      c = s.truth(s.compare(ast.Lt if fn is min else ast.Gt, x, best))
      best = s.merge(c, x, best)
      if isinstance(best, Poison): raise Unsupported(best.why)
    return best

  def f_concat(s, *args):
    bits = ()
    for a in args:
      bits = s.bits_of(a) + bits
    return SB(bits)

  def _w(s, w):
    if isinstance(w, type): return w.nbits
    return int(w)

  def f_zext(s, x, w):
    b, n = s.bits_of(x), s._w(w)
    if n < len(b): raise EvalErr("zext to a smaller width")
    return SB(s.v.zext(b, n))

  def f_sext(s, x, w):
    b, n = s.bits_of(x), s._w(w)
    if n < len(b): raise EvalErr("sext to a smaller width")
    return SB(s.v.sext(b, n))

  def f_trunc(s, x, w):
    b, n = s.bits_of(x), s._w(w)
    if isinstance(w, type):
      return SB(s.v.zext(b, max(n, len(b)))[:n])
    if n > len(b): raise EvalErr("trunc to a larger width")
    return SB(b[:n])

  def f_int(s, x=0, *a):
    if isinstance(x, SS): raise EvalErr("int() of bitstruct")
    if s.is_sym(x): return s.norm_int(s.si(x))
    return s.native(lambda: int(x, *a))

  def f_bool(s, x=False):
    l = s.truth(x)
    return bool(l) if l <= 1 else PB(l)

  # -- functions -------------------------------------------------------------
  def call_pyfunc(s, fn, args, kw):
    node = func_ast(fn)
    s.funcs.add(f"{fn.__module__}.{fn.__qualname__}")
    scope = Scope(dict(zip(fn.__code__.co_freevars, [c.cell_contents for c in fn.__closure__ or ()])),
                  Scope(fn.__globals__, None))
    return s.call_ast(node, args, kw, scope, fn)

  def call_ast(s, node, args, kw, scope, fn):
    a = node.args
    if a.vararg or a.kwarg or a.kwonlyargs: raise Unsupported("star arguments")
    names = [x.arg for x in a.posonlyargs + a.args]
    frame = dict(zip(names, args))
    if len(args) > len(names): raise EvalErr("too many arguments")
    for k, v in kw.items():
      if k not in names or k in frame: raise EvalErr("bad keyword argument")
      frame[k] = v
    if fn is not None and fn.__defaults__:
      for k, v in zip(names[-len(fn.__defaults__):], fn.__defaults__): frame.setdefault(k, v)
    elif fn is None and a.defaults:
      for k, d in zip(names[-len(a.defaults):], a.defaults): frame.setdefault(k, s.ev(d))
    missing = [k for k in names if k not in frame]
    if missing: raise EvalErr(f"missing arguments {missing}")
    if len(s.scopes) > 60: raise Unsupported("recursion too deep")
    s.scopes.append(scope)
    s.st.frames.append(frame)
    s.st.ret = None
    try:
      if isinstance(node, ast.Lambda):
        return s.rd_keep(s.ev(node.body))
      s.run(node.body)
      if s.st.dead:
        raise EvalErr("callee raises")
      r = s.st.ret
      s.st.ret = None
      r = r[0] if r else None
      if isinstance(r, Poison): raise Unsupported(r.why)
      return r
    finally:
      s.scopes.pop()
      s.st.frames.pop()

  def rd_keep(s, x):
    # values that refer to the callee's own frame must be read before it goes
    if isinstance(x, LRef): return s.rd(x)
    return x

  # -- statements --------------------------------------------------------------
  def run(s, stmts):
    work = None
    for st in reversed(stmts): work = (st, work)
    s.run_work(work)

  def run_work(s, work):
    while work is not None:
      if s.st.dead or s.st.ret is not None: return
      item, rest = work
      if isinstance(item, tuple):
        tag = item[0]
        if tag == 'bind':
          s.assign(item[1], item[2])
        work = rest
        continue
      try:
        nw = s.stmt(item, rest)
      except EvalErr as e:
        s.errs.append((s.st.pc, f"line {getattr(item, 'lineno', '?')}: {e}"))
        s.st.dead = True
        return
      work = nw

  def stmt(s, n, rest):
    """Execute one statement; returns the remaining work list."""
    if isinstance(n, ast.If):
      t = s.truth(s.ev(n.test))
      if t == 1: return s.push(n.body, rest)
      if t == 0: return s.push(n.orelse, rest)
      if has_term(n.body) or has_term(n.orelse):
        wa, wb, out = s.push(n.body, rest), s.push(n.orelse, rest), None
      else:
        wa, wb, out = s.push(n.body, None), s.push(n.orelse, None), rest
      base = s.st
      pc = base.pc
      A, B = base.clone(), base.clone()
      A.pc, B.pc = s.g.AND(pc, t), s.g.AND(pc, t ^ 1)
      s.st = A; s.run_work(wa)
      s.st = B; s.run_work(wb)
      s.st = base
      s.join(base, t, A, B)
      return out
    if isinstance(n, ast.AugAssign):
      if isinstance(n.op, (ast.MatMult, ast.LShift)) and s.sig_target(n.target):
        ff = isinstance(n.op, ast.LShift)
        ref = s.lval(n.target)
        val = s.ev(n.value)
        s.store(ref, val, ff=ff)
        return rest
      cur = s.rd(s.ev(n.target))
      val = s.rd(s.ev(n.value))
      if isinstance(n.op, ast.MatMult):
        if not s.is_bitsy(cur): raise EvalErr("@= on non-Bits")
        s.assign(n.target, SB(s.to_width(val, len(s.bits_of(cur)), "@=")))
        return rest
      s.assign(n.target, s.binop(type(n.op), cur, val))
      return rest
    if isinstance(n, ast.Assign):
      v = s.ev(n.value)
      for t in n.targets: s.assign(t, v)
      return rest
    if isinstance(n, ast.AnnAssign):
      if n.value is not None: s.assign(n.target, s.ev(n.value))
      return rest
    if isinstance(n, ast.For):
      if n.orelse: raise Unsupported("for-else")
      items = s.iter_list(s.ev(n.iter))
      end = ('loopend', n)
      w = (end, rest)
      for v in reversed(items):
        w = s.push(n.body, (('iterend', n), w))
        w = (('bind', n.target, v), w)
      return w
    if isinstance(n, ast.While):
      if n.orelse: raise Unsupported("while-else")
      t = s.truth(s.ev(n.test))
      if t == 0: return (('loopend', n), rest)
      if t > 1: raise Unsupported("while with symbolic condition")
      s.while_cnt = getattr(s, 'while_cnt', 0) + 1
      if s.while_cnt > 100000: raise Unsupported("while bound")
      return s.push(n.body, (('iterend', n), (n, rest)))
    if isinstance(n, (ast.Break, ast.Continue)):
      tag = 'loopend' if isinstance(n, ast.Break) else 'iterend'
      w = rest
      while w is not None:
        it, w = w
        if isinstance(it, tuple) and it[0] == tag: return w
        if isinstance(it, tuple) and it[0] == 'loopend' and tag == 'iterend': break
      raise Unsupported("break/continue outside loop")
    if isinstance(n, ast.Return):
      v = s.ev(n.value) if n.value is not None else None
      s.st.ret = (s.rd_keep(v),)
      return None
    if isinstance(n, ast.Expr):
      if isinstance(n.value, ast.Constant): return rest
      s.ev(n.value)
      return rest
    if isinstance(n, ast.Assert):
      t = s.truth(s.ev(n.test))
      if t == 0: raise EvalErr("assertion fails")
      s.err(t ^ 1, f"line {n.lineno}: assertion fails")
      return rest
    if isinstance(n, (ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
      if isinstance(n, (ast.Import, ast.ImportFrom)): raise Unsupported("import in block")
      return rest
    if isinstance(n, ast.Raise): raise EvalErr("raise")
    if isinstance(n, ast.FunctionDef):
      s.st.frames[-1][n.name] = Fn(n, s.scope_here(), None)
      return rest
    raise Unsupported(f"statement {type(n).__name__}")

  def scope_here(s):
    # nested functions see the current frame
    return Scope({}, s.scopes[-1], frame=len(s.st.frames) - 1)

  def push(s, stmts, rest):
    for st in reversed(stmts): rest = (st, rest)
    return rest

  def sig_target(s, t):
    """Does this augmented-assignment target denote a signal (or a Bits lvalue)?"""
    try:
      r = s.lval(t)
    except Unsupported:
      return False
    return isinstance(r, (Ref, LRef, Sel))

  def lval(s, t):
    if isinstance(t, ast.Name):
      v = s.ev(t)
      if isinstance(v, Signal): return s.ref(v)
      if isinstance(v, (Ref, LRef, Sel)): return v
      if s.is_bitsy(v) and t.id in s.st.frames[-1]:
        ty = v.type if isinstance(v, SS) else (type(v) if is_bitstruct_inst(v) else mk_bits(len(s.bits_of(v))))
        return LRef(len(s.st.frames) - 1, t.id, 0, len(s.bits_of(v)), ty)
      raise Unsupported("lvalue name")
    if isinstance(t, ast.Attribute):
      base = s.lval_base(t.value)
      r = s.attr(base, t.attr)
    elif isinstance(t, ast.Subscript):
      base = s.lval_base(t.value)
      r = s.sub(base, s.ev_idx(t.slice))
    else:
      raise Unsupported("lvalue")
    if isinstance(r, Signal): return s.ref(r)
    if isinstance(r, (Ref, LRef, Sel)): return r
    raise Unsupported("lvalue is not a signal")

  def lval_base(s, n):
    if isinstance(n, ast.Name) and n.id in s.st.frames[-1]:
      v = s.st.frames[-1][n.id]
      if isinstance(v, Poison): raise Unsupported(v.why)
      if s.is_bitsy(v):
        ty = v.type if isinstance(v, SS) else (type(v) if is_bitstruct_inst(v) else mk_bits(len(s.bits_of(v))))
        return LRef(len(s.st.frames) - 1, n.id, 0, len(s.bits_of(v)), ty)
      return v
    if isinstance(n, ast.Attribute): return s.attr(s.lval_base(n.value), n.attr)
    if isinstance(n, ast.Subscript): return s.sub(s.lval_base(n.value), s.ev_idx(n.slice))
    return s.ev(n)

  def assign(s, t, v):
    if isinstance(t, ast.Name):
      s.st.frames[-1][t.id] = v
      return
    if isinstance(t, (ast.Tuple, ast.List)):
      vs = s.iter_list(v)
      if len(vs) != len(t.elts): raise EvalErr("unpack mismatch")
      for e, x in zip(t.elts, vs): s.assign(e, x)
      return
    if isinstance(t, ast.Subscript):
      try:
        r = s.lval(t)
      except Unsupported:
        base = s.lval_base(t.value)
        if isinstance(base, (list, dict)) and not isinstance(base, tuple):
          if s.st.pc != 1: raise Unsupported("container store under a symbolic condition")
          idx = s.ev_idx(t.slice)
          if s.deep_sym(idx): raise Unsupported("symbolic container store")
          s.native(lambda: base.__setitem__(idx, v))
          return
        raise
      s.store(r, v, what="slice assignment")
      return
    if isinstance(t, ast.Attribute):
      r = s.lval(t)
      if isinstance(r, LRef): s.store(r, v); return
    raise Unsupported(f"assignment to {type(t).__name__}")

  def join(s, base, t, A, B):
    if A.dead and B.dead:
      base.dead = True; return
    if A.dead: base.take(B); return
    if B.dead: base.take(A); return
    base.env = s.join_d(t, A.env, B.env)
    base.nxt = s.join_d(t, A.nxt, B.nxt)
    frames = []
    for fa, fb in zip(A.frames, B.frames):
      f = {}
      for k in fa.keys() | fb.keys():
        if k in fa and k in fb:
          f[k] = fa[k] if fa[k] is fb[k] else s.join_local(t, fa[k], fb[k], A, B)
        else:
          f[k] = Poison(f"local {k} may be undefined")
      frames.append(f)
    base.frames = frames
    if A.ret is None and B.ret is None: base.ret = None
    else:
      ra = A.ret[0] if A.ret else None
      rb = B.ret[0] if B.ret else None
      base.ret = (s.join_local(t, ra, rb, A, B),) if ra is not rb else (ra,)

  def join_local(s, t, a, b, A, B):
    save = s.st
    try:
      s.st = A; a2 = s.rd(a) if s.is_sym(a) else a
      s.st = B; b2 = s.rd(b) if s.is_sym(b) else b
    finally:
      s.st = save
    if isinstance(a, Ref) and isinstance(b, Ref) and a.sig is b.sig and a.lo == b.lo and a.n == b.n: return a
    return s.merge(t, a2, b2)

  def join_d(s, t, da, db):
    out = {}
    for k in da.keys() | db.keys():
      a, b = da.get(k), db.get(k)
      if a is None: a = s.placeholder(k)
      if b is None: b = s.placeholder(k)
      out[k] = a if a is b else s.v.ITE(t, a, b)
    return out

  # -- blocks ------------------------------------------------------------------
  def exec_block(s, blk, node=None, host=None):
    """Run an update block; returns (env, nxt) of written signals -> literals."""
    if node is None: node = func_ast(blk)
    s.st = State()
    vars_ = dict(zip(blk.__code__.co_freevars, [_cell(c) for c in blk.__closure__ or ()]))
    s.scopes = [Scope(vars_, Scope(blk.__globals__, None))]
    s.st.frames.append({})
    s.run(node.body)
    return s.st.env, s.st.nxt, s.st.dead


def _cell(c):
  try: return c.cell_contents
  except ValueError: return Poison("empty closure cell")


class Scope:
  __slots__ = ('vars', 'parent', 'frame')
  def __init__(s, vars_, parent, frame=None): s.vars, s.parent, s.frame = vars_, parent, frame


import operator as _o
BINOPS = {ast.Add: _o.add, ast.Sub: _o.sub, ast.Mult: _o.mul, ast.FloorDiv: _o.floordiv, ast.Mod: _o.mod,
          ast.BitAnd: _o.and_, ast.BitOr: _o.or_, ast.BitXor: _o.xor, ast.LShift: _o.lshift,
          ast.RShift: _o.rshift, ast.Pow: _o.pow, ast.Div: _o.truediv}
CMPOPS = {ast.Eq: _o.eq, ast.NotEq: _o.ne, ast.Lt: _o.lt, ast.LtE: _o.le, ast.Gt: _o.gt, ast.GtE: _o.ge}
UNOPS = {ast.Invert: _o.invert, ast.USub: _o.neg, ast.UAdd: _o.pos}
