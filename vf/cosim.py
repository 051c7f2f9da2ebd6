"""Check of the encoding itself: random cycles on the encoding and on the real
simulation must agree on every output.  A disagreement is an engine error."""
import random

from .dut import SymDut, SimDut
from .interp import type_nbits


def cosim(build, cycles=60, seed=1, bias=None, reset_cycles=2):
  """Returns the number of compared output values; raises on a mismatch."""
  rnd = random.Random(seed)
  a = SymDut(build())
  b = SimDut(build())
  ins = [(repr(p)[2:], a.m.interp.ref(p).n) for p in a.m.input_ports()]
  outs = [repr(p)[2:] for p in a.m.output_ports()]
  n = 0
  for c in range(cycles):
    for nm, w in ins:
      if nm == 'clk': x = 0
      elif nm == 'reset': x = int(c < reset_cycles)
      else:
        x = bias(nm, w, rnd) if bias else None
        if x is None: x = rnd.getrandbits(w)
      bits = tuple((x >> i) & 1 for i in range(w))
      a.set(nm, bits); b.set(nm, bits)
    ra, rb = a.raised(), b.raised()
    if ra != rb: raise RuntimeError(f"encoding and simulation disagree at cycle {c}: raised {ra} vs {rb} {b.exc!r}")
    if rb: break
    for nm in outs:
      x, y = a.get(nm), b.get(nm)
      n += 1
      if x != y: raise RuntimeError(f"encoding and simulation disagree at cycle {c} on {nm}")
    a.tick(); b.tick()
  return n


def cache_bias(nm, w, rnd):
  if nm.endswith('.en'): return int(rnd.random() < 0.5)
  if nm.endswith('.rdy'): return int(rnd.random() < 0.8)
  return None
