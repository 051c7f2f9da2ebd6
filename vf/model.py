"""Transition relation of an elaborated pymtl3 component, at the bit level.

The component is built by the repository's own constructor and elaborated by
pymtl3.  Every update block is executed symbolically once (interp.py); nets
come from pymtl3's own net resolution.  The result is resolved bit by bit into
one and-inverter graph over state bits and top-level inputs.
"""
import sys

from pymtl3.datatypes import Bits
from pymtl3.dsl import Const, InPort, OutPort
from pymtl3.dsl.Connectable import Signal
from pymtl3.datatypes.bitstructs import is_bitstruct_inst

from .aig import AIG
from .interp import Interp, Unsupported, type_nbits, const_bits_of, func_ast

sys.setrecursionlimit(100000)


class CombLoop(Exception):
  pass

class MultiDriver(Exception):
  pass


class Model:
  def __init__(s, top):
    s.top = top
    if not getattr(top._dsl, 'constructed', False) or not hasattr(top._dsl, 'all_value_nets'):
      try: top.elaborate()
      except Exception: raise
    s.t = AIG()                      # template graph over placeholders
    s.place = {}                     # root signal -> literals
    s.pnode = {}                     # placeholder node -> (root, bit)
    s.interp = Interp(s.t, s.placeholder)
    s.block_of = {}                  # (root, bit) -> (literal, block name)
    s.nxt_of = {}                    # (root, bit) -> literal
    s.errs = []                      # (template literal, message)
    s.blocks = []
    s.net_of = {}                    # (root, bit) -> (root2, bit2) or 0/1
    s.inputs = []                    # root input ports of the top, with bits
    s._exec_blocks()
    s._nets()
    # resolved graph
    s.g = AIG()
    s.memo = {0: 0}                  # template node -> resolved literal
    s.bitres = {}                    # (root, bit) -> resolved literal
    s.node_src = {}                  # resolved input node -> ('in'|'st', root, bit)
    s.in_lit = {}
    s.st_lit = {}

  def placeholder(s, sig):
    b = s.place.get(sig)
    if b is None:
      n = type_nbits(sig._dsl.Type)
      b = tuple(s.t.new_input() for _ in range(n))
      s.place[sig] = b
      for i, l in enumerate(b): s.pnode[l >> 1] = (sig, i)
    return b

  # ------------------------------------------------------------------
  def _exec_blocks(s):
    top = s.top
    ffs = set(top.get_all_update_ff())
    for blk in sorted(top.get_all_update_blocks() | ffs, key=lambda b: (repr(top.get_update_block_host_component(b)), b.__name__)):
      host = top.get_update_block_host_component(blk)
      info = host.get_update_block_info(blk)
      node = None
      if info[0]:
        node = info[4].body[0]
      name = f"{host!r}.{blk.__name__}"
      n0 = len(s.interp.errs)
      env, nxt, dead = s.interp.exec_block(blk, node=node)
      for c, m in s.interp.errs[n0:]: s.errs.append((c, f"{name}: {m}"))
      s.blocks.append((name, type(host).__module__ + '.' + type(host).__name__, blk in ffs))
      for sig, bits in env.items():
        p = s.placeholder(sig)
        for i, (x, y) in enumerate(zip(bits, p)):
          if x != y: s._drive(s.block_of, sig, i, (x, name), name)
      for sig, bits in nxt.items():
        p = s.placeholder(sig)
        for i, (x, y) in enumerate(zip(bits, p)):
          if x != y: s._drive(s.nxt_of, sig, i, x, name)

  def _drive(s, d, sig, i, v, name):
    if (sig, i) in d: raise MultiDriver(f"{sig!r}[{i}] driven twice ({name})")
    d[(sig, i)] = v

  def _nets(s):
    for writer, members in s.top.get_all_value_nets():
      if writer is None: continue
      if isinstance(writer, Const):
        v = writer._dsl.const
        if isinstance(v, (Bits,)) or is_bitstruct_inst(v): wb = const_bits_of(v)
        else:
          n = None
          wb = int(v)
        wroot = None
      else:
        r = s.interp.ref(writer)
        wroot, wlo = r.sig, r.lo
      for m in members:
        if m is writer or isinstance(m, Const): continue
        r = s.interp.ref(m)
        for k in range(r.n):
          if wroot is None:
            src = (wb >> k) & 1 if isinstance(wb, int) else wb[k]
          else:
            src = (wroot, wlo + k)
            if src == (r.sig, r.lo + k): continue
          old = s.net_of.get((r.sig, r.lo + k))
          if old is not None and old != src:
            raise MultiDriver(f"{r.sig!r}[{r.lo + k}] driven by two nets")
          s.net_of[(r.sig, r.lo + k)] = src

  # ------------------------------------------------------------------
  def is_top_input(s, sig):
    return isinstance(sig, InPort) and sig.get_host_component() is s.top

  def _input(s, sig, i):
    l = s.in_lit.get((sig, i))
    if l is None:
      l = s.g.new_input()
      s.in_lit[(sig, i)] = l
      s.node_src[l >> 1] = ('in', sig, i)
    return l

  def _state(s, sig, i):
    l = s.st_lit.get((sig, i))
    if l is None:
      l = s.g.new_input()
      s.st_lit[(sig, i)] = l
      s.node_src[l >> 1] = ('st', sig, i)
    return l

  def bit(s, sig, i):
    """Resolved literal of one bit of a root signal."""
    return s._solve([('b', sig, i)])[0]

  def lits(s, tl):
    """Resolved literals of template literals."""
    rs = s._solve([('n', l >> 1) for l in tl])
    return [r ^ (l & 1) for r, l in zip(rs, tl)]

  def sig_bits(s, sig):
    r = s.interp.ref(sig)
    return tuple(s._solve([('b', r.sig, r.lo + k) for k in range(r.n)]))

  def _solve(s, roots):
    """Iterative resolution; detects combinational loops at the bit level."""
    f0, f1, memo, bitres = s.t.f0, s.t.f1, s.memo, s.bitres
    onstack = set()
    stack = list(reversed(roots))
    while stack:
      it = stack[-1]
      if it[0] == 'b':
        _, sig, i = it
        key = (sig, i)
        if key in bitres:
          stack.pop(); onstack.discard(it); continue
        if s.is_top_input(sig):
          bitres[key] = s._input(sig, i); stack.pop(); continue
        if key in s.nxt_of:
          if key in s.block_of or key in s.net_of: raise MultiDriver(f"{sig!r}[{i}]")
          bitres[key] = s._state(sig, i); stack.pop(); continue
        if key in s.block_of:
          if key in s.net_of: raise MultiDriver(f"{sig!r}[{i}] driven by block and net")
          l = s.block_of[key][0]
          dep = ('n', l >> 1)
          if (l >> 1) in memo:
            bitres[key] = memo[l >> 1] ^ (l & 1); stack.pop(); onstack.discard(it); continue
          if it in onstack: raise CombLoop(f"{sig!r}[{i}]")
          onstack.add(it); stack.append(dep); continue
        if key in s.net_of:
          src = s.net_of[key]
          if isinstance(src, int):
            bitres[key] = src; stack.pop(); continue
          if src in bitres:
            bitres[key] = bitres[src]; stack.pop(); onstack.discard(it); continue
          if it in onstack: raise CombLoop(f"{sig!r}[{i}]")
          onstack.add(it); stack.append(('b',) + src); continue
        bitres[key] = 0                      # undriven: stays at its default
        stack.pop(); continue
      n = it[1]
      if n in memo:
        stack.pop(); onstack.discard(it); continue
      if f0[n] < 0:
        key = s.pnode[n]
        if key in bitres:
          memo[n] = bitres[key]; stack.pop(); onstack.discard(it); continue
        if it in onstack: raise CombLoop(f"{key[0]!r}[{key[1]}]")
        onstack.add(it); stack.append(('b',) + key); continue
      a, b = f0[n], f1[n]
      na, nb = a >> 1, b >> 1
      if na in memo and (nb in memo or (memo[na] ^ (a & 1)) == 0):
        la = memo[na] ^ (a & 1)
        memo[n] = 0 if la == 0 else s.g.AND(la, memo[nb] ^ (b & 1))
        stack.pop(); onstack.discard(it); continue
      if nb in memo and (memo[nb] ^ (b & 1)) == 0:
        memo[n] = 0; stack.pop(); onstack.discard(it); continue
      if na not in memo:
        d = ('n', na)
      else:
        d = ('n', nb)
      if d in onstack: raise CombLoop(f"node {d}")
      onstack.add(it)
      stack.append(d)
    out = []
    for it in roots:
      out.append(bitres[(it[1], it[2])] if it[0] == 'b' else memo[it[1]])
    return out

  # ------------------------------------------------------------------
  def close(s):
    """Resolve the next-state functions of every reachable state bit."""
    s.next = {}
    done = set()
    while True:
      todo = [k for k in s.st_lit if k not in done]
      if not todo: break
      for key in todo:
        done.add(key)
        s.next[key] = s.lits([s.nxt_of[key]])[0]
    return s.next

  def err_lits(s):
    """Run-time error conditions: [(resolved literal, message)]."""
    out = []
    rs = s.lits([c for c, _ in s.errs])
    for l, (_, m) in zip(rs, s.errs):
      if l != 0: out.append((l, m))
    return out

  def check_all(s):
    """Resolve every driven bit (detects any combinational loop in the design)."""
    s._solve([('b',) + k for k in s.block_of])
    s._solve([('b',) + k for k in s.net_of])
    s._solve([('b',) + k for k in s.nxt_of])

  def input_ports(s):
    return sorted(s.top.get_all_object_filter(lambda o: isinstance(o, InPort) and o.is_top_level_signal()
                                              and o.get_host_component() is s.top), key=repr)

  def output_ports(s):
    return sorted(s.top.get_all_object_filter(lambda o: isinstance(o, OutPort) and o.is_top_level_signal()
                                              and o.get_host_component() is s.top), key=repr)

  def find(s, path):
    o = s.top
    for p in path.split('.'):
      if '[' in p:
        nm, ix = p.split('[', 1)
        o = getattr(o, nm)
        for j in ix.rstrip(']').split(']['): o = o[int(j)]
      else:
        o = getattr(o, p)
    return o
