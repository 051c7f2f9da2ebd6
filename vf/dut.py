"""Devices under test: the symbolic unrolling and the real simulation.

Both offer the same interface, so a harness (environment plus monitors) runs
unchanged on either.  On the real simulation every value is constant, the
monitors constant-fold, and a violation found by the solver is replayed on the
code itself.
"""
from dataclasses import dataclass

from pymtl3 import DefaultPassGroup
from pymtl3.datatypes import mk_bits, Bits
from pymtl3.datatypes.bitstructs import is_bitstruct_class

from .aig import AIG, BVOps
from .interp import field_layout, type_nbits
from .model import Model
from .unroll import Unroll


def fld(T, bits, name):
  lo, t = field_layout(T, name)
  return tuple(bits[lo:lo + type_nbits(t)])

def pack(T, **kw):
  out = ()
  for k, t in T.__bitstruct_fields__.items():
    n = type_nbits(t)
    b = kw.pop(k, None)
    if b is None: b = (0,) * n
    assert len(b) == n, (k, len(b), n)
    out = tuple(b) + out
  assert not kw, kw
  return out


class SymDut:
  kind = 'sym'
  def __init__(s, top, model=None, g=None):
    s.m = model or Model(top)
    s.m.check_all()
    s.u = Unroll(s.m, g)
    s.g, s.v = s.u.g, s.u.v
    s.paths = {}
    s.f = s.u.start(s.u.initial())
    s.consist = []        # binding consistency conditions (assumed)
    s.err_tl = None

  def sig(s, path):
    p = s.paths.get(path)
    if p is None:
      p = s.m.find(path)
      s.paths[path] = p
    return p

  def set(s, path, bits):
    ok = s.f.set(s.sig(path), bits)
    if ok != 1: s.consist.append(ok)

  def get(s, path):
    return s.f.get(s.sig(path))

  def raised(s):
    """Literal: the code raises in this cycle."""
    if s.err_tl is None:
      s.err_tl = [l for l, _ in s.m.err_lits()]
    return s.g.ORN(s.f.lits(s.err_tl))

  def tick(s):
    s.f = s.u.step(s.f)

  def state(s, path):
    """Current value of a register (any signal path)."""
    return s.f.get(s.sig(path))

  def poke(s, path, bits):
    """Replace state bits; only between cycles, before anything is evaluated."""
    r = s.m.interp.ref(s.sig(path))
    for k, b in enumerate(bits):
      key = (r.sig, r.lo + k)
      if key not in s.f.state: raise LookupError(path)
      s.f.state[key] = b

  def fresh(s): s.f = s.u.start(s.f.state)

  def arbitrary_state(s, src):
    """Start from any contents of every register and memory."""
    s.state_names = {}
    for k, (sig, i) in enumerate(sorted(s.f.state, key=lambda x: (repr(x[0]), x[1]))):
      n = f'state {sig!r}[{i}]'
      s.state_names[n] = (repr(sig), i)
      s.f.state[sig, i] = src(n, 1)[0]

  def state_values(s, src, vals):
    out = {}
    for n, (path, i) in s.state_names.items():
      out[path] = out.get(path, 0) | vals.get(n, 0) << i
    return out

  def get_state_bits(s, path):
    r = s.m.interp.ref(s.sig(path))
    return [s.f.state[r.sig, r.lo + k] for k in range(r.n)]

  def field(s, path, name):
    """(offset, width) of a field of a struct-typed signal."""
    r = s.m.interp.ref(s.sig(path))
    lo, t = field_layout(r.type, name)
    return lo, type_nbits(t)


class SimDut:
  kind = 'sim'
  def __init__(s, top, g=None):
    s.g = g or AIG()
    s.v = BVOps(s.g)
    s.top = top
    top.elaborate()
    top.apply(DefaultPassGroup())
    s.fresh_eval = False
    s.exc = None
    s.consist = []
    s.paths = {}
    s.cycles = 0
    s.trace = []

  def sig_parent(s, path):
    o = s.top
    ps = path.split('.')
    for p in ps[:-1]: o = s._at(o, p)
    return o, ps[-1]

  def _at(s, o, p):
    if '[' in p:
      nm, ix = p.split('[', 1)
      o = getattr(o, nm)
      for j in ix.rstrip(']').split(']['): o = o[int(j)]
      return o
    return getattr(o, p)

  def _get(s, path):
    o = s.top
    for p in path.split('.'): o = s._at(o, p)
    return o

  def set(s, path, bits):
    v = sum(b << i for i, b in enumerate(bits))
    assert all(b <= 1 for b in bits)
    if path == 'clk': return
    cur = s._get(path)
    T = type(cur)
    if is_bitstruct_class(T): cur @= T.from_bits(mk_bits(T.nbits)(v))
    else: cur @= mk_bits(len(bits))(v)
    s.fresh_eval = False

  def get(s, path):
    if not s.fresh_eval and s.exc is None:
      try:
        s.top.sim_eval_combinational()
      except Exception as e:
        s.exc = e
      s.fresh_eval = True
    v = s._get(path)
    if not isinstance(v, Bits): v = v.to_bits()
    u = v.uint()
    return tuple((u >> i) & 1 for i in range(v.nbits))

  def load_state(s, values):
    for path, x in values.items():
      o = s._get(path[2:])
      T = type(o)
      y = T.from_bits(mk_bits(T.nbits)(x)) if is_bitstruct_class(T) else mk_bits(T.nbits)(x)
      o @= y
      o <<= y
    s.fresh_eval = False

  def poke(s, path, bits):
    o = s._get(path)
    T = type(o)
    x = sum(b << i for i, b in enumerate(bits))
    y = T.from_bits(mk_bits(T.nbits)(x)) if is_bitstruct_class(T) else mk_bits(T.nbits)(x)
    o @= y
    o <<= y
    s.fresh_eval = False

  def fresh(s): s.fresh_eval = False

  def raised(s):
    s.get('reset')
    return 1 if s.exc is not None else 0

  def tick(s):
    if s.exc is None:
      try:
        s.top.sim_tick()
      except Exception as e:
        s.exc = e
    s.fresh_eval = False
    s.cycles += 1

  state = get
