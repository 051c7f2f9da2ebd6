"""Time-frame expansion of a Model into one combinational AIG."""
from .aig import AIG, BVOps
from .interp import type_nbits


class Frame:
  """One clock cycle.  Inputs are bound on demand."""
  def __init__(s, u, state):
    s.u = u
    s.state = state              # (root, bit) -> literal
    s.inp = {}                   # (root, bit) -> literal
    s.memo = {0: 0}

  def lits(s, ls):
    """Template (resolved) literals -> unrolled literals."""
    m, g, memo, src = s.u.m.g, s.u.g, s.memo, s.u.m.node_src
    f0, f1 = m.f0, m.f1
    AND = g.AND
    for root in ls:
      rn = root >> 1
      if rn in memo: continue
      stack = [rn]
      while stack:
        n = stack[-1]
        if n in memo:
          stack.pop(); continue
        a = f0[n]
        if a < 0:
          memo[n] = s.leaf(n, src[n]); stack.pop(); continue
        b = f1[n]
        x = memo.get(a >> 1)
        if x is None:
          stack.append(a >> 1); continue
        x ^= a & 1
        if x == 0:
          memo[n] = 0; stack.pop(); continue
        y = memo.get(b >> 1)
        if y is None:
          stack.append(b >> 1); continue
        memo[n] = AND(x, y ^ (b & 1)); stack.pop()
    return [memo[l >> 1] ^ (l & 1) for l in ls]

  def leaf(s, n, src):
    kind, sig, i = src
    if kind == 'st': return s.state[(sig, i)]
    v = s.inp.get((sig, i))
    if v is None:
      v = s.u.g.new_input(f"{sig!r}[{i}]")
      s.inp[(sig, i)] = v
      s.u.auto.append((sig, i, v))
    return v

  def get(s, sig):
    """Value of any signal in this cycle."""
    return tuple(s.lits(s.u.m.sig_bits(sig)))

  def set(s, sig, bits):
    """Bind a top-level input; returns the condition under which the binding
    is consistent with what has already been evaluated (1 if unevaluated)."""
    r = s.u.m.interp.ref(sig)
    ok = 1
    for k, b in enumerate(bits):
      key = (r.sig, r.lo + k)
      old = s.inp.get(key)
      if old is None: s.inp[key] = b
      elif old != b: ok = s.u.g.AND(ok, s.u.g.XOR(old, b) ^ 1)
    return ok

  def next_state(s):
    nx = s.u.m.next
    keys = list(nx)
    vals = s.lits([nx[k] for k in keys])
    return dict(zip(keys, vals))


class Unroll:
  def __init__(s, model, g=None):
    s.m = model
    if not hasattr(model, 'next'): model.close()
    s.g = g or AIG()
    s.v = BVOps(s.g)
    s.auto = []
    s.frames = []

  def initial(s, symbolic=False):
    if symbolic:
      return {k: s.g.new_input(f"init {k[0]!r}[{k[1]}]") for k in s.m.next}
    return {k: 0 for k in s.m.next}

  def start(s, state):
    f = Frame(s, state)
    s.frames.append(f)
    return f

  def step(s, f):
    return s.start(f.next_state())
