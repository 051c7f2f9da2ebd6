"""Arbitrary start states for the cache, and how to reach them for real.

The array contents of the idle cache are replaced by arbitrary values under
the stated invariant; `drive_to` reproduces a concrete start state on the real
simulation from reset, through the cache's two interfaces only.
"""
from .dut import fld
from .cache import Choices, READ, WRITE, INV

TAGT = 'cacheDpath.tag_array_rdata_M1[0].out'
TAG = 'cacheDpath.tag_arrays_M1[{w}].sram.ram[{k}]'
DATA = 'cacheDpath.data_array_M2.sram.ram[{k}]'
REP = 'cacheDpath.replacement_bits_M1.replacement_register.out'

INVARIANT = [
  "no two ways of a set hold the same tag while both are valid or dirty",
  "if exactly one way of a set is valid, the other one is the victim",
  "a valid line's clean words equal memory (unless another master wrote memory since)",
]


class Start:
  """The array state: per set and way tag/val/dm/row, per set rep."""


def havoc(h):
  """Symbolic start state; call after reset_phase.  Raises LookupError when
  the arrays are not where they are expected."""
  c, d, g, v, src = h.cfg, h.dut, h.g, h.v, h.src
  st = Start()
  st.lines = {}
  inv = []
  rep = src('init_rep', c.sets) if c.assoc == 2 else None
  for k in range(c.sets):
    for w in range(c.assoc):
      n = f'init[{k}][{w}].'
      L = dict(tag=src(n + 'tag', c.tagb), val=src(n + 'val', 1)[0], dm=src(n + 'dm', c.nw), row=src(n + 'row', c.clw))
      st.lines[k, w] = L
      poke_tag(d, TAG.format(w=w, k=k), L, c)
      d.poke(DATA.format(k=k + w * c.sets), L['row'])
  if rep is not None:
    d.poke(REP, rep)
    for k in range(c.sets):
      a, b = st.lines[k, 0], st.lines[k, 1]
      la, lb = [g.OR(x['val'], v.nz(x['dm'])) for x in (a, b)]
      inv.append(g.ANDN([la, lb, v.eq(a['tag'], b['tag'])]) ^ 1)
      inv.append(g.ANDN([a['val'], b['val'] ^ 1, rep[k] ^ 1]) ^ 1)
      inv.append(g.ANDN([b['val'], a['val'] ^ 1, rep[k]]) ^ 1)
  st.rep = rep
  # monitors: read the watched set
  h.spec_reset()
  def pick(f):
    out = None
    for k in range(c.sets):
      x = f(k)
      out = x if out is None else v.ITE(v.eqc(h.WS, k), x, out) if c.idxb else x
    return out
  for w in range(c.assoc):
    h.ways[w] = dict(tag=pick(lambda k: st.lines[k, w]['tag']), val=pick(lambda k: (st.lines[k, w]['val'],))[0],
                     dm=pick(lambda k: st.lines[k, w]['dm']))
  if rep is not None: h.lru = pick(lambda k: (rep[k],))[0]
  if h.watch:
    held, bit, clean = 0, 0, 0
    for w in range(c.assoc):
      W = h.ways[w]
      m = g.AND(g.OR(W['val'], v.nz(W['dm'])), v.eq(W['tag'], h.WT))
      hw = g.AND(m, g.OR(W['val'], h.word(W['dm'])))
      held = g.OR(held, hw)
      clean = g.OR(clean, g.ANDN([hw, h.word(W['dm']) ^ 1]))
      bit = g.MUX(hw, h.at(pick(lambda k: st.lines[k, w]['row']), c.clw // 8), bit)
    h.V = h.Vp = g.MUX(held, bit, h.M)
    if h.ext: h.stale = g.AND(clean, g.XOR(h.V, h.M))
    else: inv.append(g.AND(clean, g.XOR(h.V, h.M)) ^ 1)
  for x in inv: h.assume(x)
  return st


def poke_tag(d, path, L, c):
  sig = d.sig(path)
  bits = list(d.get_state_bits(path))
  for f, b in (('tag', L['tag']), ('val', (L['val'],)), ('dty', L['dm'])):
    lo, n = d.field(TAGT, f)
    if n != len(b): raise LookupError(path)
    bits[lo:lo + n] = b
  d.poke(path, tuple(bits))


def concrete(st, vals, cfg):
  """The start state under solver values, as plain integers."""
  out = dict(rep=vals.get('init_rep', 0), lines={})
  for k in range(cfg.sets):
    for w in range(cfg.assoc):
      n = f'init[{k}][{w}].'
      out['lines'][f'{k},{w}'] = dict(tag=vals[n + 'tag'], val=vals[n + 'val'], dm=vals[n + 'dm'], row=vals[n + 'row'])
  return out


class Stuck(Exception):
  pass


def _ch(cfg, **kw):
  return Choices(cfg, lambda name, n: tuple((kw.get(name.split('@')[0], 0) >> i) & 1 for i in range(n)), 0)

def request(h, type_, addr=0, ln=0, data=0, mem_data=0, limit=400):
  c = h.cfg
  base = dict(resp_rdy=1, mem_rdy=1, mem_go=1, mem_data=mem_data)
  for _ in range(limit):
    h.cycle(_ch(c, want=1, type_=type_, addr=addr, len=ln, data=data, **base))
    if h.en == 1: break
    if any(l == 1 for x in h.bads.values() for _, l in x): raise Stuck
  else: raise Stuck
  for _ in range(limit):
    if h.fifo[0]['val'] == 0: break
    h.cycle(_ch(c, **base))
    if any(l == 1 for x in h.bads.values() for _, l in x): raise Stuck
  else: raise Stuck

def drive_to(h, st, ext_m=None):
  """Bring the cache under harness h (just reset) into start state st."""
  c = h.cfg
  dw = c.dbw // 8
  L4 = 0 if dw == 4 else 4
  A = lambda tag, k, off=0: (tag << (c.idxb + c.offb)) | (k << c.offb) | off
  L = {tuple(map(int, key.split(','))): dict(v) for key, v in st['lines'].items()}
  live = lambda x: x['val'] or x['dm']
  for k in range(c.sets):
    ws = [L[k, w] for w in range(c.assoc)]
    if c.assoc == 2 and ws[0]['tag'] == ws[1]['tag']:
      dead = ws[1] if not live(ws[1]) else ws[0]
      dead['tag'] = (ws[0]['tag'] + 1) % (1 << c.tagb)
  def read(k, w):
    x = L[k, w]
    request(h, READ, A(x['tag'], k), 1, mem_data=x['row'])
  need_inv = any(not x['val'] for x in L.values())
  for k in range(c.sets):
    for w in range(c.assoc): read(k, w)
    for w in range(c.assoc):
      x = L[k, w]
      for i in range(c.nw):
        if (x['dm'] >> i) & 1:
          request(h, WRITE, A(x['tag'], k, 4 * i), L4, (x['row'] >> (32 * i)) & 0xffffffff)
    if c.assoc == 2 and need_inv:
      v0, v1 = L[k, 0], L[k, 1]
      rep = (st['rep'] >> k) & 1
      if not v0['val'] and not v1['val']: want = rep
      elif v0['val'] and not v0['dm']: want = 0
      elif v1['val'] and not v1['dm']: want = 1
      else: want = rep
      read(k, 1 - want)
  if need_inv:
    request(h, INV)
  for k in range(c.sets):
    ws = list(range(c.assoc))
    if need_inv:
      # dirty lines come back in place; clean ones go to the victim way
      for w in sorted(ws, key=lambda w: (not L[k, w]['dm'], w)):
        if L[k, w]['val']: read(k, w)
    if c.assoc == 2 and all(L[k, w]['val'] for w in ws):
      read(k, 1 - ((st['rep'] >> k) & 1))
  if ext_m is not None:
    h.cycle(_ch(c, ext=1 | (ext_m << 1), resp_rdy=1, mem_rdy=1, mem_go=1))
  for _ in range(3): h.cycle(_ch(c, resp_rdy=1, mem_rdy=1, mem_go=1))
