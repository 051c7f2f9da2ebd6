"""The properties: which queries decide each one, and within what bounds."""

# configurations: (opaque, address, data, line) widths in bits, bytes, ways
A = dict(obw=1, abw=7, dbw=32, clw=64, nbytes=32, assoc=2)       # 2 sets x 2 ways, 2-word lines
B = dict(obw=1, abw=7, dbw=32, clw=64, nbytes=32, assoc=1)       # 4 sets, direct mapped
C = dict(obw=1, abw=8, dbw=32, clw=64, nbytes=64, assoc=2)       # 4 sets x 2 ways
D = dict(obw=1, abw=8, dbw=32, clw=128, nbytes=64, assoc=2)      # 4-word lines
E64 = dict(obw=1, abw=7, dbw=64, clw=64, nbytes=32, assoc=2)
F64 = dict(obw=1, abw=8, dbw=64, clw=128, nbytes=64, assoc=2)
G128 = dict(obw=1, abw=8, dbw=128, clw=128, nbytes=64, assoc=2)
H = dict(obw=8, abw=32, dbw=32, clw=128, nbytes=64, assoc=2)     # the message widths of the real system
I256 = dict(obw=1, abw=9, dbw=64, clw=256, nbytes=128, assoc=2)  # 8-word lines
K = dict(obw=1, abw=8, dbw=32, clw=64, nbytes=128, assoc=2)      # 8 sets x 2 ways
L = dict(obw=1, abw=8, dbw=32, clw=64, nbytes=128, assoc=1)      # 16 sets
M = dict(obw=8, abw=32, dbw=32, clw=128, nbytes=512, assoc=2)    # 16 sets x 2 ways, widths of the real system
S = dict(obw=8, abw=32, dbw=32, clw=128, nbytes=4096, assoc=2)   # as shipped
N = dict(obw=1, abw=10, dbw=32, clw=64, nbytes=512, assoc=2)     # 64 lines
P = dict(obw=1, abw=12, dbw=32, clw=64, nbytes=2048, assoc=2)    # 256 lines
X = dict(obw=12, abw=40, dbw=32, clw=64, nbytes=32, assoc=2)     # wide addresses and opaque fields
CFGS = dict(A=A, B=B, C=C, D=D, E=E64, F=F64, G=G128, H=H, I=I256, K=K, L=L, M=M, N=N, P=P, S=S, X=X)

ALL_RW = (0, 1)
ANYPOS = (None, None)

ENV = [
  "requests are legal: READ/WRITE of an encodable size, naturally aligned; word-aligned 4-byte atomics; INV/FLUSH with any "
  "address, length and data (plus, for 32-bit data, the 8-byte WRITE with length code 3); unused data are arbitrary",
  "the processor raises request enable only when the cache is ready; WRITE_INIT (a testing-only type) is not sent",
  "memory answers every request once, in order, no earlier than the next cycle, echoing type, opaque and length; it "
  "holds at most two outstanding requests; messages are arbitrary whenever enable is low",
]
ANY = ("arbitrary contents of the tag, data and replacement arrays of the idle cache, subject to: no two live ways of a "
       "set with equal tags; the one invalid way of a set is its victim; clean valid words equal memory.  A violation "
       "from such a state is reported only once it was reproduced from reset through the interfaces")


NAMES = {(0,): 'READ', (1,): 'WRITE', (2,): 'WRITE_INIT', tuple(range(3, 12)): 'AMO', (14,): 'INV', (15,): 'FLUSH', (0, 1): 'READ/WRITE',
         (0, 1) + tuple(range(3, 12)): 'READ/WRITE/AMO'}

class Prop:
  level = 'model_checking'
  def __init__(s, pid, facets, plan, witnesses=(), bounds='', outside='', assumptions=ENV, level='other', cosim=True):
    s.cosim = cosim
    s.pid, s.facets, s.plan, s.witnesses = pid, facets, plan, list(witnesses)
    s.bounds, s.outside, s.assumptions, s.level = bounds, outside, assumptions, level

  def jobs(s, tier, seed):
    out = []
    for it in s.plan[tier]:
      if callable(it):
        out += it(seed)
        continue
      cfgname, start, depths, kw = it
      kw = dict(kw)
      facets = kw.pop('facets', s.facets)
      split = kw.pop('split', None)
      base = dict(cfg=CFGS[cfgname], facets=list(facets), depths=list(depths), start=start, covers=list(s.witnesses))
      base.update(kw)
      nm = f"{cfgname}/{start} {depths[-1]} cycles" + ''.join(f" {k}={v}" for k, v in kw.items() if k not in ('budget', 'covers', 'watch'))
      if 'script' in kw: nm = f"{cfgname}/{start} {depths[-1]} cycles requests {' '.join(NAMES.get(tuple(x), str(x)) for x in kw['script'])}" + (' stalls' if kw.get('stalls') else '')
      if split:
        for i, f in enumerate(split):
          b = dict(base, name=f"{nm} first={f}", first=f)
          out.append(('cache_bmc', b))
      else: out.append(('cache_bmc', dict(base, name=nm)))
    if s.cosim: out.append(('cosim', dict(name='encoding against simulation', cfg=A, cycles=80 if tier == 'quick' else 600, seed=seed, budget=1)))
    return out


AMOS = tuple(range(3, 12))
TY = [(0,), (1,), AMOS, (14,), (15,)]
W = dict(watch=ANYPOS)

PROPS = {}
def prop(pid, **kw): PROPS[pid] = Prop(pid, **kw)

def each(cfgs, start, depths, **kw):
  return [(c, start, depths, kw) for c in cfgs]

RD, WR, AM, IV, FL, RW, RWA = (0,), (1,), AMOS, (14,), (15,), (0, 1), (0, 1) + AMOS
def seqs(cfgs, start, depth, scripts, **kw):
  """Request sequences of given types, sent as fast as the cache takes them;
  no stalls and a one-cycle memory unless said otherwise."""
  kw = dict(dict(stalls=False, memlat=False), **kw)
  return [(c, start, (depth,), dict(kw, script=[tuple(x) for x in sc])) for c in cfgs for sc in scripts]

RESP = ['resp_spurious', 'resp_type', 'resp_opaque', 'resp_len']
PAY = ['resp_zero', 'resp_zext', 'amo_zext', 'test_hi', 'test_nonrw']
AMO_CTL = ['amo_no_wb', 'amo_not_sent', 'mem_amo', 'mem_amo_len', 'mem_amo_data', 'mem_amo_wb', 'amo_wb']
EVICT_CTL = ['no_evict', 'mem_wb', 'wb_unexpected', 'wb_addr', 'wb_mask', 'wb_late', 'mem_wb_mask0']
FLUSH_CTL = ['flush_incomplete', 'flush_unacked', 'mem_flush', 'flush_wb']
HAND = ['resp_rdy', 'memreq_rdy', 'mem_overflow', 'raise', 'accept_overflow']
TRAFFIC = ['mem_spurious', 'mem_type', 'mem_form', 'mem_inv', 'mem_fill', 'mem_opaque', 'no_fill', 'no_fill_inv', 'fill_on_hit',
           'accept_busy']
HIT = ['test_hit', 'fill_on_hit', 'no_fill', 'no_fill_inv', 'wb_addr', 'wb_unexpected', 'no_evict']
DATA = ['read_data', 'amo_data', 'flush_mem', 'wb_data', 'amo_wb_data', 'flush_wb_data']
TIMING = ['hit_latency', 'hit_stream', 'hit_clean_stall', 'ready_after', 'miss_latency', 'refill_latency']
CTL = RESP + PAY + AMO_CTL + EVICT_CTL + FLUSH_CTL + HAND + TRAFFIC + HIT

prop('C01', facets=['read_data'],
     plan=dict(quick=each('A', 'any', (6, 8, 10), split=TY, budget=60, **W) + each('A', 'reset', (8, 12), budget=45, **W)
                     + each('BCDH', 'any', (6, 8, 9), budget=45, **W)
                     + seqs('A', 'any', 30, [[WR, IV, RD], [AM, WR, RD], [WR, AM, RD]], budget=60, **W)
                     + seqs('A', 'reset', 40, [[WR, RD, WR, RD], [WR, IV, WR, RD]], budget=60, **W),
               thorough=each('A', 'any', (8, 10, 12, 14), split=TY, budget=1500, **W) + each('A', 'reset', (12, 16, 20), budget=1500, **W)
                     + each('BCDH', 'any', (8, 10, 12), split=TY, budget=1200, **W)
                     + seqs('ABE', 'any', 40, [[a, b, RD] for a in (WR, RD, AM, IV, FL) for b in (WR, RD, AM, IV, FL)], budget=1500, **W)
                     + seqs('AB', 'reset', 56, [[WR, a, b, RD] for a in (WR, RD, AM, IV, FL) for b in (WR, RD, AM, IV, FL)], budget=1500, **W)
                     + seqs('A', 'any', 30, [[RW] * 4 + [RD], [RWA, RWA, RWA, RD]], stalls=True, memlat=True, budget=2000, **W)
                     + each('M', 'any', (6, 8), budget=3000, **W) + each('S', 'any', (4, 6), budget=6000, **W)
                     + seqs('S', 'any', 8, [[RWA]], budget=6000, **W) + seqs('I', 'any', 20, [[WR, RD, RD], [WR, AM, RD]], budget=2000, **W)),
     witnesses=['watched bit: read hit', 'watched bit: read miss', 'watched bit: read returns written value'])

prop('C02', facets=RESP,
     plan=dict(quick=each('AH', 'any', (8, 10, 12), split=TY, budget=50) + each('BEX', 'any', (8, 10, 12), budget=40)
                     + each('A', 'any', (16, 24), stalls=False, first=(15,), budget=40)
                     + seqs('A', 'any', 30, [[IV, FL, RWA], [FL, AM, RWA], [AM, IV, RWA]], budget=60),
               thorough=each('ABCDEFGHX', 'any', (10, 12, 14, 16), split=TY, budget=900)
                     + each('A', 'reset', (16, 24, 30), budget=900) + each('ABE', 'any', (24, 30), stalls=False, first=(15,), budget=900)
                     + seqs('ABE', 'any', 40, [[a, b, c] for a in (RW, AM, IV, FL) for b in (RW, AM, IV, FL) for c in (RWA,)], budget=1500)),
     witnesses=['response: flush', 'response: invalidate', 'response: atomic', 'response: read hit', 'response: read miss',
                'response: write hit', 'response: write miss'])

prop('C03', facets=PAY,
     plan=dict(quick=each('AG', 'any', (8, 10), split=TY, budget=50) + each('BEFH', 'any', (8, 10), budget=45)
                     + seqs('A', 'any', 30, [[FL, WR, RWA], [AM, RD, RWA]], budget=60),
               thorough=each('ABCDEFGHX', 'any', (8, 10, 12, 14), split=TY, budget=900)
                     + seqs('AEG', 'any', 40, [[a, b, c] for a in (RW, AM, IV, FL) for b in (RW, AM, IV, FL) for c in (RWA,)], budget=1500)),
     witnesses=['response: flush', 'response: atomic', 'response: read hit', 'response: read miss', 'response: write hit'])

prop('C04', facets=AMO_CTL + ['amo_data', 'amo_wb_data', 'read_data'],
     plan=dict(quick=each('AH', 'any', (8, 10), first=AMOS, budget=60, **W) + each('BDEG', 'any', (8, 10), first=AMOS, budget=50, **W)
                     + [('A', 'any', (8, 10, 12), dict(facets=AMO_CTL, budget=50, split=TY))]
                     + seqs('A', 'any', 30, [[AM, AM, RD], [WR, AM, RD], [IV, AM, RD], [FL, AM, RD]], budget=60, **W),
               thorough=each('ABCDEFGHX', 'any', (8, 10, 12, 14), first=AMOS, budget=1200, **W)
                     + each('A', 'any', (8, 10, 12), split=TY, budget=900, **W)
                     + [('H', 'any', (10, 12, 14), dict(facets=AMO_CTL, budget=900, split=TY))]
                     + seqs('ABE', 'any', 40, [[a, AM, RD] for a in (WR, RD, AM, IV, FL)] + [[AM, a, RD] for a in (WR, AM, IV, FL)], budget=1500, **W)
                     + seqs('A', 'reset', 56, [[WR, a, AM, RD] for a in (WR, RD, AM, IV, FL)], budget=1500, **W)),
     witnesses=['response: atomic', 'watched bit: atomic', 'write-back: before an atomic'])

prop('C05', facets=EVICT_CTL + ['wb_data'],
     plan=dict(quick=each('A', 'any', (8, 10), split=TY[:3], budget=60, **W) + each('BCDFH', 'any', (7, 8), budget=60, **W)
                     + [('A', 'any', (10, 12), dict(facets=EVICT_CTL, budget=50, split=TY)),
                        ('E', 'any', (8, 10), dict(facets=EVICT_CTL, budget=50)), ('X', 'any', (8, 10), dict(facets=EVICT_CTL, budget=50))]
                     + seqs('A', 'any', 30, [[WR, WR, RD], [WR, IV, RW], [AM, WR, RD], [FL, WR, RD]], budget=60, **W),
               thorough=each('A', 'any', (8, 10, 12), split=TY, budget=1200, **W)
                     + each('BCDEFGH', 'any', (8, 10, 12), split=TY[:2], budget=1200, **W)
                     + each('A', 'reset', (12, 16, 20), budget=1200, **W)
                     + seqs('ABE', 'any', 40, [[a, b, RW] for a in (WR, AM, IV, FL) for b in (WR, AM, IV, FL)], budget=1500, **W)
                     + seqs('A', 'reset', 56, [[WR, a, b, RW] for a in (WR, AM, IV, FL) for b in (WR, RD)], budget=1500, **W)),
     witnesses=['write-back: eviction', 'watched bit: write-back'])

prop('C06', facets=FLUSH_CTL + ['flush_mem', 'flush_wb_data', 'read_data', 'wb_unexpected', 'fill_on_hit'],
     plan=dict(quick=each('AB', 'any', (10, 12, 14, 16), first=(15,), stalls=False, budget=60, **W)
                     + each('DE', 'any', (10, 12), first=(15,), stalls=False, budget=60, **W)
                     + each('A', 'any', (10, 12, 14), first=(15,), single=1, budget=60, **W)
                     + [('A', 'any', (16, 20, 24, 28), dict(facets=FLUSH_CTL, budget=60, first=(15,), single=1, memlat=True)),
                        ('H', 'any', (12, 14, 16), dict(facets=FLUSH_CTL, budget=60, first=(15,), stalls=False))]
                     + seqs('A', 'any', 30, [[IV, FL, RD], [FL, FL, RD], [AM, FL, RD], [FL, IV, RD], [IV, FL]], budget=75, **W)
                     + seqs('A', 'reset', 40, [[WR, IV, FL, RD], [WR, AM, FL, RD]], budget=75, **W)
                     + seqs('C', 'any', 50, [[IV, FL]], budget=75, **W) + seqs('K', 'any', 64, [[IV, FL]], budget=90, **W)
                     + seqs('N', 'reset', 100, [[WR, FL]], facets=FLUSH_CTL, budget=150),
               thorough=each('ABCDEFGHX', 'any', (12, 16, 20, 24), first=(15,), stalls=False, budget=1200, **W)
                     + each('ABDEH', 'any', (12, 16, 20, 24, 28), first=(15,), single=1, budget=1200, **W)
                     + each('ABE', 'any', (10, 12, 14), first=(15,), budget=1200, **W)
                     + seqs('ABE', 'any', 48, [[a, FL, b] for a in (WR, RD, AM, IV, FL) for b in (RWA, IV, FL)] + [[FL, a, FL] for a in (WR, AM, IV)], budget=1500, **W)
                     + seqs('A', 'reset', 64, [[WR, a, FL, RD] for a in (WR, RD, AM, IV, FL)] + [[WR, FL, WR, FL]], budget=1500, **W)
                     + seqs('C', 'any', 60, [[IV, FL, RD], [FL, RD], [WR, FL, RD]], budget=1500, **W)
                     + seqs('KL', 'any', 80, [[FL, RD], [WR, FL], [IV, FL]], budget=2500, **W) + seqs('M', 'any', 110, [[FL], [IV, FL]], budget=3000)
                     + seqs('N', 'reset', 170, [[WR, IV, FL], [WR, FL, FL]], facets=FLUSH_CTL, budget=3000)
                     + seqs('N', 'reset', 100, [[WR, FL]], budget=3000, **W)),
     witnesses=['write-back: flush', 'watched bit: flush of a written value', 'response: flush'])

prop('C07', facets=['read_data', 'amo_data', 'mem_inv', 'no_fill', 'no_fill_inv', 'fill_on_hit', 'wb_mask', 'wb_data', 'test_hit'],
     plan=dict(quick=each('AB', 'any', (10, 12, 14, 16), first=(14,), ext=True, stalls=False, budget=60, **W)
                     + each('DE', 'any', (10, 12, 14), first=(14,), ext=True, stalls=False, budget=60, **W)
                     + each('A', 'any', (10, 12), first=(14,), ext=True, budget=60, **W)
                     + [('H', 'any', (12, 14, 16), dict(facets=['mem_inv', 'no_fill', 'no_fill_inv', 'fill_on_hit', 'wb_mask', 'test_hit'],
                                                    first=(14,), stalls=False, budget=60))]
                     + seqs('A', 'any', 30, [[WR, IV, RD], [IV, IV, RD], [FL, IV, RD], [AM, IV, RD]], ext=True, budget=60, **W)
                     + seqs('A', 'reset', 44, [[WR, IV, WR, RD], [RD, IV, FL, RD]], ext=True, budget=60, **W)
                     + seqs('K', 'any', 64, [[IV, RD]], ext=True, budget=90, **W) + seqs('N', 'reset', 100, [[RD, IV, RD]], ext=True, budget=150, **W),
               thorough=each('ABCDEFGHX', 'any', (12, 14, 16, 18, 20), first=(14,), ext=True, stalls=False, budget=1200, **W)
                     + each('ABE', 'any', (10, 12, 14, 16), first=(14,), ext=True, budget=1200, **W)
                     + each('A', 'any', (8, 10), ext=True, split=TY, budget=1200, **W)
                     + seqs('ABE', 'any', 48, [[a, IV, b] for a in (WR, RD, AM, IV, FL) for b in (RD, AM)] + [[IV, a, RD] for a in (WR, AM, FL, IV)], ext=True, budget=1500, **W)
                     + seqs('A', 'reset', 64, [[WR, a, IV, RD] for a in (WR, RD, AM, IV, FL)] + [[RD, IV, a, RD] for a in (WR, AM, FL)], ext=True, budget=1500, **W)
                     + seqs('C', 'any', 60, [[IV, RD], [WR, IV, RD]], ext=True, budget=1500, **W)
                     + seqs('KLM', 'any', 70, [[IV, RD], [WR, IV, RD]], ext=True, budget=2500, **W)),
     witnesses=['response: invalidate', 'refill after invalidate', 'watched bit: read miss'])

prop('C08', facets=HAND,
     plan=dict(quick=each('A', 'any', (8, 10, 12, 14), split=TY, budget=50) + each('BEH', 'any', (8, 10, 12), budget=45)
                     + seqs('A', 'any', 30, [[IV, FL, RWA], [FL, IV, RWA], [AM, AM, RWA]], budget=60),
               thorough=each('ABCDEFGHX', 'any', (10, 12, 14, 16), split=TY, budget=900) + each('A', 'reset', (16, 24, 30), budget=900)
                     + seqs('ABE', 'any', 40, [[a, b, c] for a in (RW, AM, IV, FL) for b in (RW, AM, IV, FL) for c in (RWA,)], budget=1500)),
     witnesses=['response: flush', 'response: atomic', 'response: read miss', 'write-back: eviction'])

prop('C09', facets=TRAFFIC,
     plan=dict(quick=each('AH', 'any', (8, 10, 12), split=TY, budget=60) + each('BCEGX', 'any', (8, 10), budget=50)
                     + seqs('A', 'any', 30, [[WR, IV, RWA], [FL, FL, RWA], [AM, IV, RWA]], budget=60),
               thorough=each('ABCDEFGHX', 'any', (10, 12, 14), split=TY, budget=900) + each('A', 'reset', (16, 20, 24), budget=900)
                     + seqs('ABE', 'any', 40, [[a, b, c] for a in (RW, AM, IV, FL) for b in (RW, AM, IV, FL) for c in (RWA,)], budget=1500)),
     witnesses=['refill', 'refill after invalidate', 'write-back: eviction', 'write-back: flush'])

prop('C10', facets=['stuck', 'stuck_rdy'],
     plan=dict(quick=[('A', 'any', (29,), dict(calm=4, budget=100)), ('A', 'any', (31,), dict(calm=6, budget=100, split=TY)),
                      ('B', 'any', (31,), dict(calm=5, budget=100)), ('E', 'any', (30,), dict(calm=5, budget=100))],
               thorough=[('A', 'any', (33,), dict(calm=8, budget=1500, split=TY)), ('B', 'any', (33,), dict(calm=8, budget=1500, split=TY)),
                         ('C', 'any', (48,), dict(calm=6, budget=1500, split=TY)), ('E', 'any', (32,), dict(calm=7, budget=1500, split=TY)),
                         ('H', 'any', (30,), dict(calm=5, budget=1500, split=TY))]),
     witnesses=['response: flush', 'response: atomic', 'response: read miss', 'response: invalidate'])

prop('C11', facets=HIT,
     plan=dict(quick=each('A', 'any', (8, 10, 12), split=TY, budget=50) + each('BCEHX', 'any', (8, 10), budget=60)
                     + seqs('A', 'any', 30, [[WR, IV, RWA], [FL, RWA, RWA], [AM, RWA, RWA], [IV, IV, RWA]], budget=60)
                     + seqs('A', 'reset', 40, [[RWA, RWA, RWA, RW], [RW, IV, RW, RW]], budget=60),
               thorough=each('ABCDEFGHX', 'any', (10, 12, 14), split=TY, budget=900) + each('A', 'reset', (16, 20, 24), budget=900)
                     + seqs('ABE', 'any', 40, [[a, b, c] for a in (RW, AM, IV, FL) for b in (RW, AM, IV, FL) for c in (RWA,)], budget=1500)
                     + seqs('A', 'reset', 64, [[a, b, c, RW] for a in (RW, AM) for b in (RW, AM, IV) for c in (RW, AM, IV, FL)], budget=1500)),
     witnesses=['response: read hit', 'response: read miss', 'response: write hit', 'write-back: eviction', 'refill'])

prop('C12', facets=CTL + ['read_data', 'never_ready', 'init_resp', 'init_mem'],
     plan=dict(quick=[('A', 'powerup', (8, 10, 12), dict(W, budget=60)), ('B', 'powerup', (8, 10, 12), dict(W, budget=60)),
                      ('E', 'powerup', (8, 10), dict(W, budget=60)), ('H', 'powerup', (8, 10), dict(budget=60)),
                      ('C', 'powerup', (8, 10), dict(budget=60))] + seqs('KL', 'powerup', 26, [[RW], [AM, RW]], budget=60)
                     + seqs('KL', 'powerup', 44, [[FL]], budget=60) + seqs('M', 'powerup', 50, [[RW]], budget=100) + seqs('P', 'powerup', 10, [[RW]], budget=200),
               thorough=each('ABCDEFGHX', 'powerup', (8, 10, 12, 14, 16), budget=1200, **W)
                     + seqs('KLM', 'powerup', 60, [[RW, RW], [AM, RW], [IV, RW], [FL, RW]], budget=2500, **W) + seqs('M', 'powerup', 110, [[FL]], budget=2500)),
     witnesses=['response: read hit', 'response: read miss', 'watched bit: read miss'])

prop('C13', facets=DATA + ['resp_zext', 'wb_mask', 'flush_wb'],
     plan=dict(quick=each('DEFG', 'any', (6, 8), split=TY[:2], budget=75, **W) + each('EG', 'any', (10, 12), first=(15,), stalls=False, budget=50, **W)
                     + each('I', 'any', (6,), split=TY[:2], budget=75, **W),
               thorough=each('DEFGHI', 'any', (6, 8, 10), split=TY, budget=1200, **W)
                     + each('EFG', 'any', (12, 14, 16), first=(15,), stalls=False, budget=1200, **W)
                     + each('EFG', 'reset', (10, 14), budget=1200, **W)),
     witnesses=['watched bit: read hit', 'watched bit: read miss', 'watched bit: read returns written value', 'watched bit: write-back'])

prop('C14', facets=TIMING,
     plan=dict(quick=each('ABDEG', 'any', (6, 8, 10), stalls=False, timing=True, budget=60) + each('A', 'any', (10, 12), split=TY, stalls=False, timing=True, budget=60)
                     + each('H', 'any', (6, 7, 8), stalls=False, timing=True, budget=60),
               thorough=each('ABCDEFGHX', 'any', (8, 10, 12, 14), split=TY, stalls=False, timing=True, budget=1200)),
     witnesses=['timing: miss', 'timing: hit after hit', 'timing: write hit to a clean word'])

# -- the functional-level model -----------------------------------------
FLENV = ["requests are legal (known types, encodable sizes, naturally aligned; full-width test initialisation; word atomics)",
         "initial memory: up to the stated number of words at arbitrary addresses, zero elsewhere"]

def proxies(n, seed): return [('proxy_check', dict(name='symbolic values against real ones', n=n, seed=seed, budget=1))]

def fl_plan(tier):
  c2, c1 = dict(size=64, ways=2, clw=128, dbw=32), dict(size=64, ways=1, clw=128, dbw=32)
  c4, c8 = dict(size=128, ways=4, clw=128, dbw=32), dict(size=256, ways=2, clw=128, dbw=32)
  c64, c128, c256 = dict(c2, dbw=64), dict(c2, dbw=128), dict(c2, size=128, clw=256)
  ops = ['rd', 'wr', 'in', 6, 'inv', 'fl']
  pairs = [[a, b] for a in ops for b in ops if a not in ('fl',) and b != 'in']
  core = ['rd', 'wr', 6, 'inv']
  trip = [[a, b, c] for a in core for b in core for c in ('rd', 'wr', 6)]
  lru = [['rd'] * 4, ['rd', 'rd', 6, 'rd'], ['rd', 'inv', 'rd', 'rd'], ['wr', 'rd', 6, 'rd'], ['rd', 'rd', 'inv', 'rd', 'rd']]
  b = dict(lens=(0,), ninit=0)
  out = []
  def job(what, cfg, seqs, parts=1, **kw):
    for i in range(parts):
      q = seqs[i::parts]
      nm = f"{what}, {cfg['size']} bytes {cfg['ways']}-way, {cfg['clw']}-bit lines, {cfg['dbw']}-bit data" + (f" ({i + 1}/{parts})" if parts > 1 else '')
      out.append(('fl_model', dict(dict(name=nm, cfg=cfg, seqs=q, budget=100 if tier == 'quick' else 3000), **kw)))
  single = [[o] for o in ops] + [[f] for f in AMOS]
  if tier == 'quick':
    for c in (c2, c64, c128, c256): job('single requests of every size', c, single, ninit=2)
    job('pairs of requests of any size', c2, [['wr', 'rd'], ['wr', 'wr'], ['rd', 'wr']], parts=3, ninit=0)
    job('pairs', c2, pairs, parts=2, lens=(0, 1), ninit=1)
    job('pairs', c64, [['wr', 'rd'], ['wr', 6]], **b)
    job('triples', c2, trip, parts=3, **b)
    for c in (c2, c4): job('order of use', c, lru, **b)
    for c in (c1, c8): job('order of use', c, [['rd'] * 3, ['rd', 6, 'rd'], ['rd', 'inv', 'rd']], **b)
    job('atomic operations', c2, [[f, 'rd'] for f in AMOS] + [[f, f] for f in AMOS], parts=2, **b)
  else:
    for c in (c2, c1, c4, c64, c128, c256): job('single requests of every size', c, single, ninit=3)
    for c in (c2, c1, c64, c128): job('pairs of requests of any size', c, pairs, parts=4, ninit=1)
    for c in (c1, c2, c4, c8): job('triples', c, trip, parts=4, lens=(0, 1), ninit=0)
    four = [[w, x, y, z] for w in core for x in core for y in core for z in ('rd', 'wr')]
    for c in (c1, c2, c4): job('sequences of four', c, four, parts=8, **b)
    for c in (c1, c2, c4): job('order of use', c, lru + [['rd'] * 5, ['rd', 'rd', 6, 'rd', 'rd'], ['rd'] * 6], **b)
    for c in (c2, c64): job('atomic operations', c, [[f, 'rd'] for f in AMOS] + [[f, f] for f in AMOS], parts=4, lens=None, ninit=1)
  return out

prop('C15', facets=['fl_model'], plan=dict(quick=[lambda seed: fl_plan('quick') + proxies(2000, seed)], thorough=[lambda seed: fl_plan('thorough') + proxies(30000, seed)]),
     witnesses=['functional-level paths'], assumptions=FLENV, cosim=False)

# -- building blocks ----------------------------------------------------
UNITENV = ["inputs are arbitrary in every cycle", "the block starts in any state"]
def units(kind, what, plist, depth, witness, **kw):
  return [('unit_bmc', dict(name=f"{what} {' '.join(f'{k}={v}' for k, v in p.items())}", unit=kind, params=p, depth=depth,
                            covers=[witness], **kw)) for p in plist]

def sram_plan(tier):
  W1 = 'memory read back'
  small = [dict(bits=8, words=4), dict(bits=32, words=16), dict(bits=26, words=32), dict(bits=64, words=8)]
  big = [dict(bits=26, words=128), dict(bits=25, words=256)]
  if tier == 'quick': return units('sram', 'memory', small, 4, W1, budget=60) + units('sram', 'memory', big[:1], 3, W1, budget=80)
  return (units('sram', 'memory', small, 10, W1, budget=900) + units('sram', 'memory', big, 5, W1, budget=1500)
          + units('sram', 'memory', [dict(bits=128, words=256), dict(bits=128, words=512)], 4, W1, budget=3000))

prop('C16', facets=[], plan=dict(quick=[lambda seed: sram_plan('quick')], thorough=[lambda seed: sram_plan('thorough')]),
     witnesses=['memory read back'], assumptions=UNITENV + ['the index is below the (power of two) number of words'], cosim=False)

def unit_plan(tier):
  sel = [dict(which=w, dbw=d, clw=c) for w in ('FastDataSelectMux', 'DataSelectMux') for d in (32, 64, 128) for c in (64, 128, 256) if c >= d and (c > d or w[0] == 'F')]
  if tier == 'thorough': sel += [dict(which=w, dbw=d, clw=512) for w in ('FastDataSelectMux', 'DataSelectMux') for d in (32, 64, 128, 256)]
  dep = 3 if tier == 'quick' else 6
  cnt = [dict(bits=b, reset_value=r) for b in (1, 3, 8, 32) for r in (0, 1)] + [dict(bits=8, reset_value=255)]
  wide = [dict(dbw=d, clw=c) for d in (32, 64, 128) for c in (64, 128, 256, 512) if c >= d]
  ways = [dict(w, assoc=a) for w in wide for a in (1, 2, 4)]
  lines = [dict(dbw=32, clw=c, nbytes=n, assoc=a) for c, n in ((64, 64), (128, 4096), (128, 8192), (256, 16384), (512, 1 << 20)) for a in (1, 2, 4)]
  return (units('select', 'sub-word selector', sel, 1, 'sub-word selected', budget=100)
          + units('updown', 'up/down counter', cnt, dep, 'counter counts', budget=100)
          + units('counten', 'step counter', cnt, dep, 'counter counts', budget=100)
          + units('replicate', 'write data replication', wide, 1, 'data replicated', budget=100)
          + units('wben', 'write enables', wide, 1, 'write enables', budget=100)
          + units('tagcmp', 'tag comparison', ways, 1, 'tags compared', budget=100)
          + units('tagupd', 'tag entries', ways, 1, 'tag entries written', budget=100)
          + units('index', 'line numbers', lines, 1, 'lines numbered', budget=100)
          + units('memlen', 'memory request length', wide, 1, 'atomic length', budget=100)
          + units('victim', 'victim', [dict(dbw=32, clw=128)], 1, 'victim chosen', budget=100)
          + units('hold', 'output holding', [dict(bits=b) for b in (1, 26, 128, 512)], 4, 'output held', budget=100)
          + units('mshr', 'miss register', wide, 5, 'miss kept', budget=100))

prop('C17', facets=[], plan=dict(quick=[lambda seed: unit_plan('quick')], thorough=[lambda seed: unit_plan('thorough')]),
     witnesses=['sub-word selected', 'counter counts', 'data replicated', 'write enables', 'tags compared', 'tag entries written',
     'lines numbered', 'atomic length', 'victim chosen', 'output held', 'miss kept'], assumptions=UNITENV + [
       'the offset is aligned to the size; an atomic\'s word comes zero-extended from memory', 'the load input of the step counter stays low'], cosim=False)

# -- memory macros that do not hold their output ------------------------
prop('C18', facets=sorted(set(CTL + DATA + TRAFFIC + HAND)),
     plan=dict(quick=each('A', 'any', (6, 7), split=TY, sram='fresh', budget=60, **W) + each('A', 'reset', (10,), sram='fresh', budget=60, **W)
                     + each('BE', 'any', (6, 7), sram='fresh', budget=60, **W)
                     + seqs('A', 'any', 26, [[RD, FL, RD], [WR, IV, RD], [AM, RD]], sram='fresh', budget=60, **W),
               thorough=each('ABCDEFGHX', 'any', (7, 8, 10), split=TY, sram='fresh', budget=1500, **W)
                     + seqs('ABE', 'any', 40, [[a, b, c] for a in (RWA, IV, FL) for b in (RWA, IV, FL) for c in (RD,)], sram='fresh', budget=1500, **W)),
     witnesses=['response: read hit', 'response: read miss', 'response: atomic', 'response: flush'],
     assumptions=ENV + ["a memory array's output is defined only in the cycle after a read (arbitrary otherwise), as in the Verilog SRAM wrapper"])

# -- preloading ------------------------------------------------------------
IN = (2,)
def pre(cfgs, depth, k, tail, start='powerup', **kw):
  """k WRITE_INITs, then other requests."""
  return seqs(cfgs, start, depth, [[IN] * k + tail], preload=True, ext=True, **kw)

PRE = RESP + PAY + HAND + ['mem_init', 'read_data', 'amo_data', 'flush_mem', 'wb_data', 'flush_wb_data'] + TRAFFIC + HIT + EVICT_CTL
prop('C21', facets=sorted(set(PRE)),
     plan=dict(quick=pre('AB', 24, 3, [RD], budget=60, **W) + pre('A', 26, 2, [RD, RD], budget=60, **W) + pre('ABE', 26, 1, [WR, RD], budget=60, **W)
                     + pre('A', 30, 2, [IV, RD], budget=60, **W) + pre('A', 30, 2, [FL, RD], budget=60, **W) + pre('A', 30, 2, [AM, RD], budget=60, **W)
                     + pre('DGHX', 24, 3, [RD], budget=60, **W) + pre('K', 40, 4, [RD], budget=60, **W)
                     + [(c, 'powerup', (6, 8, 9), dict(W, preload=True, ext=True, first=IN, budget=60)) for c in 'AB'],
               thorough=pre('ABCDEFGHX', 34, 5, [RD, RD], budget=1200, **W) + sum((pre('ABE', 44, 3, [x, y], budget=1200, **W)
                       for x in (RW, AM, IV, FL) for y in (RW, AM)), [])
                     + pre('KLM', 60, 6, [RD], budget=2000, **W) + pre('A', 30, 3, [RD], sram='fresh', budget=1200, **W)
                     + [(c, 'powerup', (8, 10, 12, 14), dict(W, preload=True, ext=True, first=IN, budget=1200)) for c in 'ABCDEGH']),
     witnesses=['response: preload', 'watched bit: read of a preloaded value'],
     assumptions=ENV[:1] + ENV[2:] + ["WRITE_INIT requests have an encodable size and are aligned; they come before the first other request "
       "after reset, for at most one line of each set"])

# -- several caches over one memory -------------------------------------
def coh(pairs, depth, progs, **kw):
  def show(ph): return ' | '.join('+'.join(f"{i}:{NAMES.get(tuple(t), str(t))}" for i, t in p.items()) for p in ph)
  return [('multi_bmc', dict(name=f"caches {c}: {show(ph)}" + (' stalls' if kw.get('stalls') else ''), cfgs=[CFGS[x] for x in c], phases=ph, depth=depth,
                             facets=['coherent_read', 'coherent_atomic', 'memory_latest'],
                             covers=["read of another cache's value", "atomic after another cache's write", 'published value in memory'], **kw))
          for c in pairs for ph in progs]

SHARE = [
  [{1: RD}, {0: WR}, {0: FL}, {1: IV}, {1: RD}],                       # publish, acquire a word already cached
  [{0: WR, 1: WR}, {0: FL, 1: FL}, {0: IV, 1: IV}, {0: RD, 1: RD}],    # two words of a line modified at once
  [{0: WR, 1: WR}, {0: IV}, {0: FL, 1: FL}, {1: IV}, {0: RD, 1: RD}],  # invalidate while holding modified words
  [{0: WR}, {0: FL}, {1: AM}, {0: AM}, {0: RD, 1: RD}],                # atomics on a published word
  [{0: RD}, {1: AM}, {0: IV}, {0: RW}, {1: AM}],                       # atomics behind a cached copy
  [{1: RD}, {0: WR}, {0: RW}, {0: AM}, {1: IV}, {1: RD}],              # an eviction or an atomic publishes the line
  [{0: WR, 1: RD}, {0: FL}, {1: IV}, {1: WR}, {1: FL}, {0: IV}, {0: RD}],   # ownership passes on
]
def coh_plan(tier):
  if tier == 'quick':
    return coh(['AA'], 60, SHARE[:6], budget=100) + coh(['AA'], 72, SHARE[6:], budget=100) + coh(['AB'], 56, SHARE[:1], budget=100)
  ts = (WR, AM, FL, IV)
  gen = [[{1: RW}, {0: a}, {0: b}, {1: c}, {1: RD}] for a in (WR, AM) for b in (FL, AM, RW) for c in (IV, AM)]
  gen += [[{0: WR, 1: WR}, {0: a, 1: b}, {0: c, 1: d}, {0: RD, 1: RD}] for a in ts for b in ts for c in (IV, FL) for d in (IV, FL)]
  return (coh(['AA', 'AB', 'EE'], 76, SHARE, budget=2000) + coh(['AA'], 64, gen, budget=2000)
          + coh(['AA'], 60, SHARE[:4], budget=3000, stalls=True, memlat=True) + coh(['AAA'], 70, [
            [{0: WR, 1: WR, 2: RD}, {0: FL, 1: FL}, {2: IV}, {2: RD}], [{0: AM, 1: RD, 2: AM}, {1: IV}, {1: RD}]], budget=3000))

prop('C19', facets=[], plan=dict(quick=[lambda seed: coh_plan('quick')], thorough=[lambda seed: coh_plan('thorough')]),
     witnesses=["read of another cache's value", "atomic after another cache's write", 'published value in memory'],
     assumptions=ENV + ["one memory serves all caches, each in order; the requests of a phase run concurrently, phases one after the other",
                        "nothing is promised after a data race on the watched word (see vf/multi.py)"])

# -- the emitted SystemVerilog -------------------------------------------
SHIP = dict(obw=8, abw=32, dbw=32, clw=128)
def sv_plan(tier):
  cf = lambda **k: dict(dict(SHIP), **k)
  small = [cf(nbytes=64, clw=64, abw=8, obw=1, assoc=2), cf(nbytes=64, clw=64, abw=8, obw=1, assoc=1), cf(nbytes=512, dbw=64, assoc=1),
           cf(nbytes=512, dbw=64, assoc=2), cf(nbytes=512, clw=256, dbw=128, assoc=2), cf(nbytes=512, clw=256, assoc=1)]
  ship = [(cf(nbytes=4096, assoc=2), True), (cf(nbytes=4096, assoc=1), True), (cf(nbytes=8192, assoc=2), True), (cf(nbytes=4096, assoc=2), False)]
  deep = ([(cf(nbytes=n, clw=c, dbw=d, assoc=a, obw=o, abw=w), False) for n in (128, 1024) for c in (64, 128, 256, 512) for d in (32, 64, 128, 256)
           for a in (1, 2) for o, w in ((1, 12), (8, 32)) if d <= c and n * 8 // c // a > 1]
          + [(cf(nbytes=4096, assoc=1), False), (cf(nbytes=8192, assoc=1), True), (cf(nbytes=8192, assoc=2), False),
             (cf(nbytes=16384, assoc=2), True), (cf(nbytes=2048, clw=128, assoc=2), True), (cf(nbytes=2048, dbw=64, assoc=1), True)])
  out = []
  for c, r in [(c, False) for c in small] + ship + (deep if tier == 'thorough' else []):
    out.append(('sv_equiv', dict(name=f"emitted text against the model, {c['nbytes']} bytes {c['assoc']}-way, {c['clw']}-bit lines, {c['dbw']}-bit data, "
                                      f"{c['obw']}-bit opaque{', memory wrapper' if r else ''}", cfg=c, replace=r, budget=150 if tier == 'quick' else 1500)))
  mem = [dict(num_bits=b, num_words=w) for b, w in ((128, 256), (26, 128), (128, 512), (25, 256), (8, 4), (20, 16), (64, 8))]
  for p in mem[:4 if tier == 'quick' else None] + (mem[4:] if tier == 'quick' else []):
    out.append(('sv_memory', dict(name=f"memory wrapper of {p['num_words']} words of {p['num_bits']} bits", params=p, budget=150)))
  return out

prop('C20', facets=['machines_differ'], plan=dict(quick=[lambda seed: sv_plan('quick')], thorough=[lambda seed: sv_plan('thorough')]),
     witnesses=['accepted'], assumptions=["the model does not raise in the cycle (an out-of-range index has no defined meaning in the emitted text)",
       "a memory's output is compared only after a read (see C18)", "registers start equal; nothing is assumed about the start state otherwise",
       "memory cells that the wrapper only names (sram_<words>x<bits>) behave like the two that have behavioural models"], cosim=False)
