"""And-inverter graph with structural hashing, plus a bit-vector layer.

Literals are ints: 2*node for the node, 2*node+1 for its negation.
Node 0 is constant false, so literal 0 is False and literal 1 is True.
"""

FALSE = 0
TRUE = 1


class AIG:
  def __init__(s):
    s.f0 = [-1]          # fan-in 0 literal (-1: input)
    s.f1 = [-1]
    s.hash = {}
    s.names = {}         # input node -> name

  # ------------------------------------------------------------------
  def new_input(s, name=None):
    n = len(s.f0)
    s.f0.append(-1)
    s.f1.append(-1)
    if name is not None:
      s.names[n] = name
    return 2 * n

  def is_input(s, lit):
    return lit > 1 and s.f0[lit >> 1] < 0

  def AND(s, a, b):
    if a > b:
      a, b = b, a
    if a == 0: return 0
    if a == 1: return b
    if a == b: return a
    if a ^ 1 == b: return 0
    # one-level look-ahead rules
    f0, f1 = s.f0, s.f1
    na, nb = a >> 1, b >> 1
    b0 = f0[nb]
    if b0 >= 0:
      b1 = f1[nb]
      if b & 1 == 0:
        if a == b0 or a == b1: return b
        if a ^ 1 == b0 or a ^ 1 == b1: return 0
      else:
        if a ^ 1 == b0 or a ^ 1 == b1: return a
        if a == b0: return s.AND(a, b1 ^ 1)
        if a == b1: return s.AND(a, b0 ^ 1)
    a0 = f0[na]
    if a0 >= 0:
      a1 = f1[na]
      if a & 1 == 0:
        if b == a0 or b == a1: return a
        if b ^ 1 == a0 or b ^ 1 == a1: return 0
      else:
        if b ^ 1 == a0 or b ^ 1 == a1: return b
        if b == a0: return s.AND(b, a1 ^ 1)
        if b == a1: return s.AND(b, a0 ^ 1)
      if b0 >= 0 and not (a & 1) and not (b & 1):
        if (a0 ^ 1 == b0) or (a0 ^ 1 == b1) or (a1 ^ 1 == b0) or (a1 ^ 1 == b1):
          return 0
    key = (a, b)
    n = s.hash.get(key)
    if n is None:
      n = len(f0)
      f0.append(a)
      f1.append(b)
      s.hash[key] = n
    return 2 * n

  def OR(s, a, b):
    return s.AND(a ^ 1, b ^ 1) ^ 1

  def XOR(s, a, b):
    if a == 0: return b
    if a == 1: return b ^ 1
    if b == 0: return a
    if b == 1: return a ^ 1
    if a == b: return 0
    if a ^ 1 == b: return 1
    # canonical polarity
    inv = (a & 1) ^ (b & 1)
    a &= ~1
    b &= ~1
    return s.OR(s.AND(a, b ^ 1), s.AND(a ^ 1, b)) ^ inv

  def MUX(s, c, t, e):
    """c ? t : e"""
    if c == 1: return t
    if c == 0: return e
    if t == e: return t
    if t == 1: return s.OR(c, e)
    if t == 0: return s.AND(c ^ 1, e)
    if e == 1: return s.OR(c ^ 1, t)
    if e == 0: return s.AND(c, t)
    if t ^ 1 == e: return s.XOR(c, e)
    if c == t: return s.OR(c, e)
    if c == e: return s.AND(c, t)
    if c ^ 1 == t: return s.AND(c ^ 1, e)
    if c ^ 1 == e: return s.OR(c ^ 1, t)
    return s.OR(s.AND(c, t), s.AND(c ^ 1, e))

  def ANDN(s, xs):
    r = 1
    for x in xs:
      r = s.AND(r, x)
      if r == 0: return 0
    return r

  def ORN(s, xs):
    r = 0
    for x in xs:
      r = s.OR(r, x)
      if r == 1: return 1
    return r

  def IMP(s, a, b):
    return s.OR(a ^ 1, b)

  # ------------------------------------------------------------------
  # Cone utilities
  # ------------------------------------------------------------------
  def cone(s, lits):
    """Topologically ordered list of AND nodes, and the set of input nodes."""
    f0, f1 = s.f0, s.f1
    seen = set()
    order, inputs = [], []
    for root in lits:
      rn = root >> 1
      if rn in seen: continue
      stack = [rn]
      while stack:
        n = stack[-1]
        if n in seen:
          stack.pop(); continue
        a = f0[n]
        if a < 0:
          seen.add(n)
          if n: inputs.append(n)
          stack.pop(); continue
        x, y = a >> 1, f1[n] >> 1
        px, py = x in seen, y in seen
        if px and py:
          seen.add(n); order.append(n); stack.pop()
        else:
          if not py: stack.append(y)
          if not px: stack.append(x)
    return order, inputs

  def eval(s, lits, assign):
    """Concrete evaluation. assign: input node -> 0/1 (default 0)."""
    order, inputs = s.cone(lits)
    val = {0: 0}
    for n in inputs:
      val[n] = assign.get(n, 0)
    f0, f1 = s.f0, s.f1
    for n in order:
      a, b = f0[n], f1[n]
      val[n] = (val[a >> 1] ^ (a & 1)) & (val[b >> 1] ^ (b & 1))
    return [val[l >> 1] ^ (l & 1) for l in lits]


# ----------------------------------------------------------------------
# Bit vectors: tuples of literals, LSB first.  All helpers take the AIG.
# ----------------------------------------------------------------------

class BVOps:
  def __init__(s, g):
    s.g = g

  def const(s, v, n):
    return tuple((v >> i) & 1 for i in range(n))

  def fresh(s, n, name=None):
    return tuple(s.g.new_input(f"{name}[{i}]" if name else None) for i in range(n))

  def NOT(s, a): return tuple(x ^ 1 for x in a)
  def AND(s, a, b): return tuple(s.g.AND(x, y) for x, y in zip(a, b, strict=True))
  def OR(s, a, b): return tuple(s.g.OR(x, y) for x, y in zip(a, b, strict=True))
  def XOR(s, a, b): return tuple(s.g.XOR(x, y) for x, y in zip(a, b, strict=True))

  def ITE(s, c, a, b):
    if c == 1: return a
    if c == 0: return b
    return tuple(s.g.MUX(c, x, y) for x, y in zip(a, b, strict=True))

  def add(s, a, b, cin=0):
    g = s.g
    out, c = [], cin
    for x, y in zip(a, b, strict=True):
      xy = g.XOR(x, y)
      out.append(g.XOR(xy, c))
      c = g.OR(g.AND(x, y), g.AND(xy, c))
    return tuple(out)

  def sub(s, a, b):
    return s.add(a, s.NOT(b), 1)

  def neg(s, a):
    return s.sub(s.const(0, len(a)), a)

  def mul(s, a, b):
    n = len(a)
    acc = s.const(0, n)
    for i in range(n):
      if b[i] == 0: continue
      row = tuple([0] * i + [s.g.AND(x, b[i]) for x in a[:n - i]])
      acc = s.add(acc, row)
    return acc

  def eq(s, a, b):
    return s.g.ANDN([s.g.XOR(x, y) ^ 1 for x, y in zip(a, b, strict=True)])

  def eqc(s, a, v):
    if v < 0 or v >> len(a): return 0
    return s.g.ANDN([x if (v >> i) & 1 else x ^ 1 for i, x in enumerate(a)])

  def ult(s, a, b):
    g = s.g
    lt = 0
    for x, y in zip(a, b, strict=True):          # LSB -> MSB
      lt = g.MUX(g.XOR(x, y), y, lt)
    return lt

  def ule(s, a, b): return s.ult(b, a) ^ 1

  def slt(s, a, b):
    a = a[:-1] + (a[-1] ^ 1,)
    b = b[:-1] + (b[-1] ^ 1,)
    return s.ult(a, b)

  def udivmod(s, a, b):
    """Restoring division; b == 0 gives unspecified result (caller guards)."""
    n = len(a)
    r = s.const(0, n + 1)
    bb = b + (0,)
    q = [0] * n
    for i in reversed(range(n)):
      r = (a[i],) + r[:-1]
      ge = s.ult(r, bb) ^ 1
      q[i] = ge
      r = s.ITE(ge, s.sub(r, bb), r)
    return tuple(q), r[:n]

  def nz(s, a): return s.g.ORN(a)

  def shl(s, a, amt):
    """Logical left shift by symbolic amount; >= width gives 0."""
    n = len(a)
    g = s.g
    over = 0
    cur = a
    for k, bit in enumerate(amt):
      if (1 << k) >= n:
        over = g.OR(over, bit)
      else:
        sh = tuple([0] * (1 << k)) + cur[:n - (1 << k)]
        cur = s.ITE(bit, sh, cur)
    return tuple(g.AND(x, over ^ 1) for x in cur)

  def shr(s, a, amt):
    n = len(a)
    g = s.g
    over = 0
    cur = a
    for k, bit in enumerate(amt):
      if (1 << k) >= n:
        over = g.OR(over, bit)
      else:
        sh = cur[(1 << k):] + tuple([0] * (1 << k))
        cur = s.ITE(bit, sh, cur)
    return tuple(g.AND(x, over ^ 1) for x in cur)

  def zext(s, a, n): return a + (0,) * (n - len(a))
  def sext(s, a, n): return a + (a[-1],) * (n - len(a))

  def as_const(s, a):
    v = 0
    for i, x in enumerate(a):
      if x > 1: return None
      v |= x << i
    return v
