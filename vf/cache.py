"""Environment and specification monitors for BlockingCacheRTL.

Everything here talks to the cache through its two interfaces only.  The one
exception is the optional start state: to explore what can happen after long
histories, the tag, data and replacement arrays of the quiescent cache may be
replaced by arbitrary contents satisfying a stated invariant.  A violation
found from such a state is reported only after it was reproduced on the real
simulation from reset, through the interfaces (see preamble()).
"""
from dataclasses import dataclass, asdict

from .dut import fld, pack, SymDut, SimDut
from .interp import type_nbits

READ, WRITE, WRITE_INIT, AMO_ADD, AMO_XOR, INV, FLUSH = 0, 1, 2, 3, 11, 14, 15


def clog2(n):
  k = 0
  while (1 << k) < n: k += 1
  return k


@dataclass(frozen=True)
class Cfg:
  obw: int = 1
  abw: int = 7
  dbw: int = 32
  clw: int = 64
  nbytes: int = 32
  assoc: int = 2

  @property
  def lines(s): return s.nbytes * 8 // s.clw
  @property
  def sets(s): return s.lines // s.assoc
  @property
  def nw(s): return s.clw // 32
  @property
  def offb(s): return clog2(s.clw // 8)
  @property
  def idxb(s): return clog2(s.sets)
  @property
  def tagb(s): return s.abw - s.offb - s.idxb
  @property
  def lenb(s): return clog2(s.dbw // 8)
  @property
  def memlenb(s): return clog2(s.clw // 8)

  def __str__(s):
    return (f"opaque={s.obw}b addr={s.abw}b data={s.dbw}b line={s.clw}b "
            f"size={s.nbytes}B ways={s.assoc}")


def types(cfg):
  from mem_ifcs.MemMsg import mk_mem_msg
  cr, cs = mk_mem_msg(cfg.obw, cfg.abw, cfg.dbw, has_wr_mask=False)
  mr, ms = mk_mem_msg(cfg.obw, cfg.abw, cfg.clw, has_wr_mask=True)
  return cr, cs, mr, ms

def build(cfg):
  from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
  return BlockingCacheRTL(*types(cfg), cfg.nbytes, cfg.assoc)


class Free:
  """Source of environment choices: fresh solver variables."""
  def __init__(s, g):
    s.g = g
    s.vars = {}
  def __call__(s, name, n):
    assert name not in s.vars, name
    b = tuple(s.g.new_input(f"{name}[{i}]") for i in range(n))
    s.vars[name] = b
    return b
  def values(s, model):
    """name -> int under a solver model."""
    return {k: sum(model.get(l >> 1, 0) << i for i, l in enumerate(b)) for k, b in s.vars.items()}


def sram_paths(top):
  """Paths of the memory macros."""
  from sram.SramGenericPRTL import SramGenericPRTL
  return sorted(repr(c)[2:] for c in top.get_all_object_filter(lambda o: isinstance(o, SramGenericPRTL)))


class Recorded:
  """Source of environment choices: recorded values."""
  def __init__(s, vals):
    s.vals = vals
  def __call__(s, name, n):
    v = s.vals.get(name, 0)
    return tuple((v >> i) & 1 for i in range(n))


class Choices:
  """All environment choices of one cycle."""
  FIELDS = [('want', lambda c: 1), ('type_', lambda c: 4), ('opaque', lambda c: c.obw), ('addr', lambda c: c.abw),
            ('len', lambda c: c.lenb), ('data', lambda c: c.dbw), ('resp_rdy', lambda c: 1), ('mem_rdy', lambda c: 1),
            ('mem_go', lambda c: 1), ('mem_data', lambda c: c.clw), ('mem_type', lambda c: 4),
            ('mem_opaque', lambda c: c.obw), ('amo_new', lambda c: 1), ('ext', lambda c: 2), ('reset', lambda c: 1)]
  def __init__(s, cfg, src, t, pre=None):
    for n, w in s.FIELDS:
      k = f"{n}@{t}"
      setattr(s, n, pre[k] if pre and k in pre else src(k, w(cfg)))


class Harness:
  """opts:
     watch    (byte in line, bit in byte), each a number or None for any; or None
     types    set of request types the environment may send
     lens     'std' or 'cifer' (also len==3 double-word writes)
     calm     from this cycle on the environment neither stalls nor sends
     memq     outstanding memory requests the memory can hold
     stalls   False: all ready inputs are always high
     serial   one request at a time
     single   no requests from this cycle on
     sram     'fresh': the outputs of the memories are arbitrary except in the cycle after a read
     script   types of the 1st, 2nd, ... request (sets), each sent as soon as the cache is ready; then none
     timing   check the pipeline's timing (use with stalls=False)
     preload  WRITE_INITs may come before the first other request, for one line of each set
     ext      another master may change the watched word in memory while the
              cache holds no dirty copy of it
  """
  def __init__(s, cfg, dut, src, watch=None, types_=None, cifer=True, memq=2, stalls=True, ext=False,
                 depth_fifo=3, serial=False, memlat=True, calm=None, timing=False, single=None, strict=False,
               script=None, sram=None, preload=False):
    s.sram = sram
    s.preload = preload
    s.strict = strict
    s.script = script
    s.cfg, s.dut, s.src = cfg, dut, src
    s.g, s.v = dut.g, dut.v
    s.CR, s.CS, s.MR, s.MS = types(cfg)
    s.watch, s.types, s.cifer, s.stalls, s.ext = watch, types_, cifer, stalls, ext
    s.serial = serial
    s.memlat = memlat
    s.calm = calm
    s.timing, s.single = timing, single
    s.pre = None
    s.gate = None          # send a request now (multi.py)
    s.nsent = (0,) * 5
    s.sent = []            # (cycle, accepted, type)
    s.log = None
    s.last_t = None
    s.nmemq, s.nfifo = memq, depth_fifo
    s.assumes = []
    s.bads = {}            # property facet -> [(t, literal)]
    s.covers = {}          # name -> [literal]
    s.t = 0
    c = cfg
    s.WS = src('watch_set', c.idxb) if c.idxb else ()
    s.WT = src('watch_tag', c.tagb)
    s.M = src('mem0', 1)[0]
    if watch is not None:
      # position of the watched bit in its line: bit in byte, byte in line
      bo, k = watch
      s.K = src('watch_bit', 3) if k is None else s.v.const(k, 3)
      s.BO = src('watch_byte', c.offb) if bo is None else s.v.const(bo, c.offb)
      s.BW = s.BO[2:]
    s.Z = lambda n: (0,) * n

  # ------------------------------------------------------------------
  def idle_inputs(s, reset=0):
    d, c = s.dut, s.cfg
    d.set('clk', (0,)); d.set('reset', (reset,))
    d.set('mem_minion_ifc.req.en', (0,)); d.set('mem_minion_ifc.req.msg', s.Z(type_nbits(s.CR)))
    d.set('mem_minion_ifc.resp.rdy', (1,))
    d.set('mem_master_ifc.req.rdy', (1,)); d.set('mem_master_ifc.resp.en', (0,))
    d.set('mem_master_ifc.resp.msg', s.Z(type_nbits(s.MS)))

  def tick(s, t):
    """Advance the clock.  With sram='fresh' the memories' outputs are
    arbitrary unless a read was issued in this cycle."""
    d = s.dut
    if s.sram is None: return d.tick()
    keep = []
    for p in sram_paths(d.top if d.kind == 'sim' else d.m.top):
      csb, web = d.get(p + '.CSB1')[0], d.get(p + '.WEB1')[0]
      keep.append((p, s.g.AND(csb ^ 1, web)))
    d.tick()
    for p, rd in keep:
      n = len(d.state(p + '.dout'))
      x = s.src(f'sram {p}@{t}', n)
      d.poke(p + '.dout', tuple(s.g.MUX(rd, a, b) for a, b in zip(d.state(p + '.dout'), x)))
    d.fresh()

  def reset_phase(s, cycles=1, init_cycles=None):
    """Reset and let the cache initialise itself (no requests).  A replay
    waits for as many cycles as the symbolic run did (init_cycles)."""
    for k in range(cycles):
      s.idle_inputs(1); s.dut.get('mem_minion_ifc.req.rdy'); s.dut.tick()
    s.init_cycles = 0
    for k in range(4 * s.cfg.lines + 8 if init_cycles is None else init_cycles + 1):
      s.idle_inputs()
      rdy = s.dut.get('mem_minion_ifc.req.rdy')[0]
      s._quiet()
      if rdy == 1 and (init_cycles is None or k == init_cycles): break
      s.dut.tick(); s.init_cycles += 1
    else: s.idle_inputs()
    s.ready_after_init = rdy
    s.bad('never_ready', rdy ^ 1)
    # two more idle cycles drain the pipeline registers
    for k in range(2):
      if k: s.idle_inputs()
      s._quiet(); s.dut.tick()

  def _quiet(s):
    # nothing was asked, nothing may be said
    s.bad('init_resp', s.dut.get('mem_minion_ifc.resp.en')[0])
    s.bad('init_mem', s.dut.get('mem_master_ifc.req.en')[0])

  def spec_reset(s):
    """Monitor state right after reset: nothing cached."""
    c = s.cfg
    s.ways = [dict(tag=s.Z(c.tagb), val=0, dm=s.Z(c.nw)) for _ in range(c.assoc)]
    s.lru = 0
    s.V = s.Vp = s.M
    s.stale = s.wrote = 0
    # preloading: the line preloaded in each set; bits nobody specified
    s.started = s.wpre = s.U = s.Up = s.UM = 0
    s.pval, s.ptag = [0] * c.sets, [s.Z(c.tagb)] * c.sets
    s.fifo = [s._no_exp() for _ in range(s.nfifo)]
    s.memq = [s._no_mem() for _ in range(s.nmemq)]
    s.cur = s._no_cur()
    s.prev = dict(en=0, fast=0, slow=0, slow2=0, done=0)
    s.since = s.Z(3)       # cycles since the memory's data arrived
    s.unk = 0              # expectation lost (a request was accepted too early)

  def _no_exp(s):
    c = s.cfg
    return dict(val=0, type_=s.Z(4), opaque=s.Z(c.obw), len=s.Z(c.lenb), inset=0, hit=0, chk=0, vexp=0, stale=0,
                hitk=0, missk=0, ev=0, age=s.Z(3))

  def _no_mem(s):
    return dict(val=0, type_=s.Z(4), opaque=s.Z(s.cfg.obw), len=s.Z(s.cfg.memlenb), watch=0, wbit=0, wpos=0)

  def _no_cur(s):
    c = s.cfg
    d = dict(type_=s.Z(4), addr=s.Z(c.abw), len=s.Z(c.lenb), opaque=s.Z(c.obw), data=s.Z(c.dbw), inset=0,
             wb=0, wbtag=s.Z(c.tagb), wbmask=s.Z(c.nw), fill=0, amo=0,
             n_wb=0, n_fill=0, n_amo=0, inv=0, anew=0)
    for w in range(c.assoc):
      d[f'fl{w}'] = 0; d[f'fltag{w}'] = s.Z(c.tagb); d[f'flmask{w}'] = s.Z(c.nw)
    return d

  # -- small helpers ----------------------------------------------------
  def ited(s, c, a, b):
    if c == 1: return a
    if c == 0: return b
    return {k: (s.g.MUX(c, a[k], b[k]) if isinstance(a[k], int) else s.v.ITE(c, a[k], b[k])) for k in a}

  def bad(s, facet, lit):
    if lit != 0: s.bads.setdefault(facet, []).append((s.t, lit))

  def cover(s, name, lit):
    if lit != 0: s.covers.setdefault(name, []).append(lit)

  def assume(s, lit):
    if lit != 1: s.assumes.append(lit)

  def split(s, addr):
    c = s.cfg
    return addr[c.offb + c.idxb:], addr[c.offb:c.offb + c.idxb], addr[:c.offb]

  def sizes(s):
    """Access sizes: [(encoded len, bytes)]."""
    out = []
    b = 1
    while b <= s.cfg.dbw // 8:
      out.append((0 if b == s.cfg.dbw // 8 else b, b)); b *= 2
    return out

  def legal_req(s, ty, addr, ln, data):
    g, v, c = s.g, s.v, s.cfg
    rd, wr = v.eqc(ty, READ), v.eqc(ty, WRITE)
    amo = s.is_amo(ty)
    mnt = g.OR(v.eqc(ty, INV), v.eqc(ty, FLUSH))
    al = []
    for e, b in s.sizes():
      k = clog2(b)
      ok = g.AND(v.eqc(ln, e), g.ANDN([x ^ 1 for x in addr[:k]]))
      al.append(ok)
    rw_ok = g.ORN(al)
    cif = 0
    if s.cifer and c.dbw == 32 and c.clw >= 64:
      cif = g.AND(v.eqc(ln, 3), g.ANDN([x ^ 1 for x in addr[:3]]))
    word = g.ANDN([x ^ 1 for x in addr[:2]])
    amo_ok = g.AND(word, v.eqc(ln, 0 if c.dbw == 32 else 4))
    zero = g.ANDN([x ^ 1 for x in addr + ln + data])
    ini = s._preloading(ty, addr) if s.preload else 0
    tyok = g.ORN([v.eqc(ty, t) for t in sorted(s.types)]) if s.types else g.ORN([rd, wr, amo, mnt, ini])
    if s.strict:
      return g.ANDN([tyok, g.IMP(rd, g.AND(rw_ok, g.ANDN([x ^ 1 for x in data]))), g.IMP(wr, g.OR(rw_ok, cif)),
                     g.IMP(amo, amo_ok), g.IMP(mnt, zero), g.ORN([rd, wr, amo, mnt])])
    return g.ANDN([tyok, g.IMP(rd, rw_ok), g.IMP(ini, rw_ok), g.IMP(wr, g.OR(rw_ok, cif)), g.IMP(amo, amo_ok),
                   g.ORN([rd, wr, amo, mnt, ini])])

  def _preloading(s, ty, addr):
    """A WRITE_INIT that may be sent now."""
    g, v = s.g, s.v
    tag, idx, _ = s.split(addr)
    ok = [v.eqc(ty, WRITE_INIT), s.started ^ 1]
    for k in range(s.cfg.sets):
      ok.append(g.ANDN([v.eqc(idx, k) if s.cfg.idxb else 1, s.pval[k], v.eq(s.ptag[k], tag) ^ 1]) ^ 1)
    return g.ANDN(ok)

  def is_amo(s, ty):
    return s.g.AND(s.v.ult(ty, s.v.const(AMO_ADD, 4)) ^ 1, s.v.ult(s.v.const(AMO_XOR, 4), ty) ^ 1)

  def word_cover(s, off, ln, wr):
    """Per word of the line: does the access touch it?"""
    g, v, c = s.g, s.v, s.cfg
    out = []
    wi = off[2:]
    for w in range(c.nw):
      l = 0
      for e, b in s.sizes():
        if b <= 4: hit = v.eqc(wi, w)
        else:
          k = clog2(b // 4)
          hit = v.eqc(wi[k:], w >> k)
        l = g.OR(l, g.AND(v.eqc(ln, e), hit))
      if c.dbw == 32 and c.clw >= 64:
        l = g.OR(l, g.ANDN([wr, v.eqc(ln, 3), v.eqc(wi[1:], w >> 1)]))
      out.append(l)
    return tuple(out)

  def at(s, vec, nbytes):
    """The watched bit of a datum of `nbytes` that covers the watched byte."""
    pos = s.K + s.BO[:clog2(nbytes)]
    vec = list(vec[:8 * nbytes])
    for b in pos: vec = [s.g.MUX(b, vec[i + 1], vec[i]) for i in range(0, len(vec), 2)]
    return vec[0]

  def put(s, vec, nbytes, cond, val):
    pos = s.K + s.BO[:clog2(nbytes)]
    for i in range(8 * nbytes): vec[i] = s.g.MUX(s.g.AND(cond, s.v.eqc(pos, i)), val, vec[i])

  def word(s, mask):
    """The watched word's bit of a word mask."""
    vec = list(mask)
    for b in s.BW: vec = [s.g.MUX(b, vec[i + 1], vec[i]) for i in range(0, len(vec), 2)]
    return vec[0]

  def watch_lane(s, off, ln, data, wr):
    """(covered, bit): position of the watched bit in access data."""
    g, v, c = s.g, s.v, s.cfg
    BO = s.BO
    cov, bit = 0, 0
    for e, b in s.sizes():
      k = clog2(b)
      h = g.AND(v.eqc(ln, e), v.eq(off[k:], BO[k:]))
      cov = g.OR(cov, h)
      bit = g.MUX(v.eqc(ln, e), s.at(data, b), bit)
    if c.dbw == 32 and c.clw >= 64:
      l3 = g.AND(v.eqc(ln, 3), wr)
      h = g.AND(l3, v.eq(off[3:], BO[3:]))
      cov = g.OR(cov, h)
      bit = g.MUX(l3, g.AND(s.at(data, 4), BO[2] ^ 1), bit)
    return cov, bit

  # ------------------------------------------------------------------
  def cycle(s, ch=None):
    g, v, c, d = s.g, s.v, s.cfg, s.dut
    if ch is None: ch = Choices(c, s.src, s.t, s.pre)
    s.last = ch
    one = lambda x: x[0]
    if d.kind == 'sim': d.set('mem_minion_ifc.req.en', (0,)); d.set('mem_master_ifc.resp.en', (0,))
    d.set('clk', (0,)); d.set('reset', (0,))
    calm = s.calm is not None and s.t >= s.calm
    stalls, memlat = s.stalls and not calm, s.memlat and not calm
    resp_rdy = one(ch.resp_rdy) if stalls else 1
    mq = s.memq
    mem_rdy = g.AND(one(ch.mem_rdy) if stalls else 1, mq[-1]['val'] ^ 1)
    d.set('mem_minion_ifc.resp.rdy', (resp_rdy,))
    d.set('mem_master_ifc.req.rdy', (mem_rdy,))
    if s.ext: s._external(ch)
    # memory response: in order, as the minion side allows
    h = mq[0]
    mrdy = one(d.get('mem_master_ifc.resp.rdy'))
    go = g.ANDN([one(ch.mem_go) if memlat else 1, h['val'], mrdy])
    mdata = list(ch.mem_data)
    if s.watch:
      s.put(mdata, c.clw // 8, g.AND(h['watch'], h['wpos'] ^ 1), h['wbit'])
      s.put(mdata, 4, g.AND(h['watch'], h['wpos']), h['wbit'])
    if c.clw > 32:
      # the memory answers an atomic with one zero-extended word
      nam = s.is_amo(h['type_']) ^ 1
      mdata = mdata[:32] + [g.AND(x, nam) for x in mdata[32:]]
    d.set('mem_master_ifc.resp.en', (go,))
    mtype_in, mopq_in = v.ITE(go, h['type_'], ch.mem_type), v.ITE(go, h['opaque'], ch.mem_opaque)
    d.set('mem_master_ifc.resp.msg',
          pack(s.MS, type_=mtype_in, opaque=mopq_in,
               len=v.ITE(go, h['len'], s.Z(c.memlenb)), data=tuple(mdata)))
    # processor request
    rdy = one(d.get('mem_minion_ifc.req.rdy'))
    s.req_rdy = rdy
    en = g.AND(rdy, one(ch.want)) if not calm else 0
    if s.single is not None and s.t >= s.single: en = 0
    if s.script:
      n = s.nsent
      en = 0 if calm else rdy
      en = g.AND(en, v.ult(n, v.const(len(s.script), len(n))))
    if s.gate is not None: en = g.AND(rdy, s.gate)
    if s.serial: en = g.AND(en, s.fifo[0]['val'] ^ 1)
    if s.script:
      for k, ty in enumerate(s.script):
        s.assume(g.IMP(g.AND(en, v.eqc(n, k)), g.ORN([v.eqc(ch.type_, x) for x in ty])))
      s.nsent = v.ITE(en, v.add(n, v.const(1, len(n))), n)
    s.en = en
    s.sent.append((s.t, en, ch.type_))
    d.set('mem_minion_ifc.req.en', (en,))
    d.set('mem_minion_ifc.req.msg', pack(s.CR, type_=ch.type_, opaque=ch.opaque, addr=ch.addr, len=ch.len, data=ch.data))
    s.assume(g.IMP(en, s.legal_req(ch.type_, ch.addr, ch.len, ch.data)))
    s.bad('raise', d.raised())

    cur0 = s.cur
    outstanding0 = s.fifo[0]['val']

    # ---------------- responses -----------------------------------------
    ren = one(d.get('mem_minion_ifc.resp.en'))
    rmsg = d.get('mem_minion_ifc.resp.msg')
    s.ren, s.rdata = ren, fld(s.CS, rmsg, 'data')
    R = lambda n: fld(s.CS, rmsg, n)
    e = s.fifo[0]
    s.bad('resp_rdy', g.AND(ren, resp_rdy ^ 1))
    s.bad('resp_spurious', g.AND(ren, e['val'] ^ 1))
    rv = g.AND(ren, e['val'])
    s.bad('resp_type', g.AND(rv, v.eq(R('type_'), e['type_']) ^ 1))
    s.bad('resp_opaque', g.AND(rv, v.eq(R('opaque'), e['opaque']) ^ 1))
    s.bad('resp_len', g.AND(rv, v.eq(R('len'), e['len']) ^ 1))
    e_rd, e_wr, e_amo = v.eqc(e['type_'], READ), v.eqc(e['type_'], WRITE), s.is_amo(e['type_'])
    e_fl, e_inv = v.eqc(e['type_'], FLUSH), v.eqc(e['type_'], INV)
    data = R('data')
    s.was_len, s.was_amo = e['len'], e_amo
    s.bad('resp_zero', g.ANDN([rv, g.OR(e_rd, e_amo) ^ 1, v.nz(data)]))
    for enc, b in s.sizes():
      if b < c.dbw // 8:
        s.bad('resp_zext', g.ANDN([rv, e_rd, v.eqc(e['len'], enc), v.nz(data[8 * b:])]))
    if c.dbw > 32:
      s.bad('amo_zext', g.ANDN([rv, e_amo, v.nz(data[32:])]))
    test = R('test')
    rw_e = g.OR(e_rd, e_wr)
    s.bad('test_hi', g.AND(rv, test[1]))
    s.bad('test_nonrw', g.ANDN([rv, rw_e ^ 1, test[0]]))
    s.bad('test_hit', g.ANDN([rv, rw_e, e['inset'], s.unk ^ 1, g.XOR(test[0], e['hit'])]))
    s.cover('response: read hit', g.ANDN([rv, e_rd, e['inset'], e['hit']]))
    s.cover('response: read miss', g.ANDN([rv, e_rd, e['inset'], e['hit'] ^ 1]))
    s.cover('response: write hit', g.ANDN([rv, e_wr, e['inset'], e['hit']]))
    s.cover('response: write miss', g.ANDN([rv, e_wr, e['inset'], e['hit'] ^ 1]))
    s.cover('response: atomic', g.AND(rv, e_amo))
    s.cover('response: flush', g.AND(rv, e_fl))
    s.cover('response: invalidate', g.AND(rv, e_inv))
    s.cover('response: preload', g.AND(rv, v.eqc(e['type_'], WRITE_INIT)))
    if s.watch:
      bit = 0
      for enc, b in s.sizes(): bit = g.MUX(v.eqc(e['len'], enc), s.at(data, b), bit)
      bit = g.MUX(e_amo, s.at(data, 4), bit)
      s.bad('read_data', g.ANDN([rv, e_rd, e['chk'], g.XOR(bit, e['vexp'])]))
      s.bad('amo_data', g.ANDN([rv, e_amo, e['chk'], g.XOR(bit, e['vexp'])]))
      s.cover('watched bit: read hit', g.ANDN([rv, e_rd, e['chk'], e['hit']]))
      s.cover('watched bit: read miss', g.ANDN([rv, e_rd, e['chk'], e['hit'] ^ 1]))
      s.cover('watched bit: read returns written value', g.ANDN([rv, e_rd, e['chk'], s.wrote]))
      s.cover('watched bit: read of a preloaded value', g.ANDN([rv, e_rd, e['chk'], s.wpre, s.wrote ^ 1, e['hit']]))
      s.cover('watched bit: atomic', g.ANDN([rv, e_amo, e['chk']]))
      # after a flush completes, memory holds the latest value
      s.bad('flush_mem', g.ANDN([rv, e_fl, g.XOR(s.M, e['vexp']), e['stale'] ^ 1]))
      s.cover('watched bit: flush of a written value', g.ANDN([rv, e_fl, s.wrote]))
    s.fifo = [s.ited(ren, (s.fifo[i + 1] if i + 1 < s.nfifo else s._no_exp()), s.fifo[i]) for i in range(s.nfifo)]
    last_resp = g.AND(rv, s.fifo[0]['val'] ^ 1)      # the youngest request is answered
    if s.timing: s._timing_resp(rdy, rv, last_resp)
    cur = cur0
    pend_fl = g.ORN([cur[f'fl{w}'] for w in range(c.assoc)])
    known = g.AND(cur['inset'], s.unk ^ 1)
    s.bad('no_evict', g.ANDN([last_resp, known, cur['wb'], e_amo ^ 1]))
    s.bad('no_fill', g.ANDN([last_resp, known, cur['fill'], cur['inv'] ^ 1]))
    s.bad('no_fill_inv', g.ANDN([last_resp, known, cur['fill'], cur['inv']]))
    s.bad('amo_no_wb', g.ANDN([last_resp, known, cur['wb'], e_amo]))
    s.bad('amo_not_sent', g.ANDN([last_resp, e_amo, s.unk ^ 1, cur['n_amo'] ^ 1]))
    s.bad('flush_incomplete', g.ANDN([last_resp, e_fl, s.unk ^ 1, pend_fl]))
    unacked = g.ORN([g.AND(q['val'], v.eqc(q['type_'], WRITE)) for q in s.memq])
    s.bad('flush_unacked', g.ANDN([last_resp, e_fl, s.unk ^ 1, unacked]))
    s.cover('refill after invalidate', g.ANDN([last_resp, known, cur['n_fill'], cur['inv']]))

    # ---------------- memory requests ------------------------------------
    men = one(d.get('mem_master_ifc.req.en'))
    mmsg = d.get('mem_master_ifc.req.msg')
    s.men = men
    Q = lambda n: fld(s.MR, mmsg, n)
    s.bad('memreq_rdy', g.AND(men, mem_rdy ^ 1))
    mty, maddr, mmask, mdat = Q('type_'), Q('addr'), Q('wr_mask'), Q('data')
    m_rd, m_wr, m_amo = v.eqc(mty, READ), v.eqc(mty, WRITE), s.is_amo(mty)
    mtag, mset, moff = s.split(maddr)
    ctag, cset, coff = s.split(cur['addr'])
    c_rd, c_wr, c_amo = v.eqc(cur['type_'], READ), v.eqc(cur['type_'], WRITE), s.is_amo(cur['type_'])
    c_rw = g.OR(c_rd, c_wr)
    c_fl, c_inv = v.eqc(cur['type_'], FLUSH), v.eqc(cur['type_'], INV)
    act = outstanding0
    s.bad('mem_spurious', g.AND(men, act ^ 1))
    ma = g.AND(men, act)
    s.bad('mem_type', g.AND(men, g.ORN([m_rd, m_wr, m_amo]) ^ 1))
    s.bad('mem_form', g.ANDN([men, m_amo ^ 1, g.OR(v.nz(moff), v.nz(Q('len')))]))
    s.bad('mem_inv', g.AND(ma, c_inv))
    if s.preload: s.bad('mem_init', g.AND(men, v.eqc(cur['type_'], WRITE_INIT)))
    # line refills
    f_ok = g.ANDN([c_rw, v.eq(mtag, ctag), v.eq(mset, cset), cur['n_fill'] ^ 1])
    s.bad('mem_fill', g.ANDN([ma, m_rd, f_ok ^ 1]))
    s.bad('mem_opaque', g.ANDN([ma, m_wr ^ 1, v.eq(Q('opaque'), cur['opaque']) ^ 1]))
    # atomics
    a_ok = g.ANDN([c_amo, v.eq(mty, cur['type_']), v.eq(maddr, cur['addr']), cur['n_amo'] ^ 1])
    s.bad('mem_amo', g.ANDN([ma, g.OR(m_amo, c_amo), g.OR(m_amo, m_rd), a_ok ^ 1]))
    s.bad('mem_amo_len', g.ANDN([ma, m_amo, v.eqc(Q('len'), 4 if c.memlenb > 2 else 0) ^ 1]))
    s.bad('mem_amo_data', g.ANDN([ma, m_amo, v.eq(mdat[:32], cur['data'][:32]) ^ 1]))
    # write-backs
    same_line = g.AND(v.eq(mtag, ctag), v.eq(mset, cset))
    first = g.ORN([cur['n_wb'], cur['n_fill'], cur['n_amo']]) ^ 1
    s.bad('mem_wb', g.ANDN([ma, m_wr, c_rw, g.ANDN([first, v.eq(mset, cset), same_line ^ 1]) ^ 1]))
    s.bad('mem_amo_wb', g.ANDN([ma, m_wr, c_amo, g.AND(first, same_line) ^ 1]))
    s.bad('mem_wb_mask0', g.ANDN([men, m_wr, v.nz(mmask) ^ 1]))
    # against the model of the watched set
    kn = g.ANDN([ma, cur['inset'], s.unk ^ 1])
    s.bad('wb_unexpected', g.ANDN([kn, m_wr, cur['wb'] ^ 1, c_rw]))
    s.bad('wb_addr', g.ANDN([kn, m_wr, cur['wb'], c_rw, v.eq(mtag, cur['wbtag']) ^ 1]))
    s.bad('wb_mask', g.ANDN([kn, m_wr, cur['wb'], v.eq(mmask, cur['wbmask']) ^ 1]))
    s.bad('wb_late', g.ANDN([kn, m_wr ^ 1, cur['wb'], c_rw]))
    s.bad('amo_wb', g.ANDN([kn, c_amo, g.OR(g.AND(m_wr, cur['wb'] ^ 1), g.AND(m_amo, cur['wb']))]))
    s.bad('fill_on_hit', g.ANDN([kn, m_rd, cur['fill'] ^ 1]))
    fk = g.ANDN([ma, c_fl, s.unk ^ 1, m_wr, v.eq(mset, s.WS)])
    s.bad('mem_flush', g.ANDN([ma, c_fl, m_wr ^ 1]))
    fl_ok = 0
    for w in range(c.assoc):
      fl_ok = g.OR(fl_ok, g.ANDN([cur[f'fl{w}'], v.eq(mtag, cur[f'fltag{w}']), v.eq(mmask, cur[f'flmask{w}'])]))
    s.bad('flush_wb', g.AND(fk, fl_ok ^ 1))
    s.cover('write-back: flush', g.AND(fk, fl_ok))
    s.cover('write-back: eviction', g.ANDN([kn, m_wr, cur['wb'], c_rw]))
    s.cover('write-back: before an atomic', g.ANDN([kn, m_wr, cur['wb'], c_amo]))
    s.cover('refill', g.ANDN([kn, m_rd, cur['fill']]))
    # watched bit
    qe = dict(val=1, type_=mty, opaque=Q('opaque'), len=Q('len'), watch=0, wbit=0, wpos=0)
    if s.watch:
      w_line = g.AND(v.eq(mtag, s.WT), v.eq(mset, s.WS))
      wb_w = g.ANDN([men, m_wr, w_line, s.word(mmask)])
      wb_bit = s.at(mdat, c.clw // 8)
      # the line written back on behalf of a request holds the value from
      # before or after that request
      okv = g.OR(g.XOR(wb_bit, s.V) ^ 1, g.AND(outstanding0, g.XOR(wb_bit, s.Vp) ^ 1))
      if s.preload: okv = g.ORN([okv, s.U, s.Up])
      s.bad('wb_data', g.ANDN([wb_w, okv ^ 1, c_amo ^ 1, c_fl ^ 1]))
      s.bad('amo_wb_data', g.ANDN([wb_w, okv ^ 1, c_amo]))
      s.bad('flush_wb_data', g.ANDN([wb_w, okv ^ 1, c_fl]))
      s.cover('watched bit: write-back', wb_w)
      am_w = g.ANDN([men, m_amo, w_line, v.eq(moff[2:], s.BW)])
      Mb = s.M
      s.M = g.MUX(wb_w, wb_bit, g.MUX(am_w, cur['anew'], s.M))
      s.UM = g.MUX(wb_w, g.OR(s.U, s.Up), g.AND(s.UM, am_w ^ 1))
      qe['watch'] = g.OR(g.AND(m_rd, w_line), am_w)
      qe['wbit'] = Mb
      qe['wpos'] = am_w
    if s.timing: s._timing_mem(men, m_rd, m_wr, go, h)
    cur = dict(cur)
    cur['n_wb'] = g.OR(cur['n_wb'], g.AND(men, m_wr))
    cur['n_fill'] = g.OR(cur['n_fill'], g.AND(men, m_rd))
    cur['n_amo'] = g.OR(cur['n_amo'], g.AND(men, m_amo))
    cur['wb'] = g.AND(cur['wb'], g.AND(men, m_wr) ^ 1)
    cur['fill'] = g.AND(cur['fill'], g.AND(men, m_rd) ^ 1)
    cur['amo'] = g.AND(cur['amo'], g.AND(men, m_amo) ^ 1)
    for w in range(c.assoc):
      done = g.ANDN([fk, v.eq(mtag, cur[f'fltag{w}'])])
      cur[f'fl{w}'] = g.AND(cur[f'fl{w}'], done ^ 1)
    # memory queue
    nq = [s.ited(go, (s.memq[i + 1] if i + 1 < s.nmemq else s._no_mem()), s.memq[i]) for i in range(s.nmemq)]
    seen = men
    out = []
    for q in nq:
      here = g.AND(seen, q['val'] ^ 1)
      out.append(s.ited(here, qe, q)); seen = g.AND(seen, q['val'])
    s.memq = out
    s.bad('mem_overflow', seen)

    # ---------------- acceptance: advance the specification ----------------
    if s.log is not None: s._log(ch, en, rdy, ren, rmsg, resp_rdy, men, mmsg, mem_rdy, go, tuple(mdata), mtype_in, mopq_in)
    s._accept(en, ch, cur, last_resp, outstanding0)
    if calm:
      s.bad('stuck', g.AND(1 if s.t == s.last_t else 0, s.fifo[0]['val']))
      s.bad('stuck_rdy', g.AND(1 if s.t == s.last_t else 0, rdy ^ 1))
    s.t += 1
    s.tick(s.t)

  def _timing_resp(s, rdy, rv, last_resp):
    g, v = s.g, s.v
    for i, e in enumerate(s.fifo):
      e = dict(e); x = e['age']
      e['age'] = v.ITE(v.eqc(x, 7), x, v.add(x, v.const(1, 3)))
      s.fifo[i] = e
      # still waiting two cycles after it was accepted
      s.bad('hit_latency', g.ANDN([e['val'], e['hitk'], s.unk ^ 1, v.ult(v.const(1, 3), e['age'])]))
    s.since = v.ITE(rv, s.Z(3), s.since)
    p = s.prev
    s.bad('hit_stream', g.ANDN([p['fast'], s.unk ^ 1, rdy ^ 1]))
    s.bad('hit_clean_stall', g.ANDN([p['slow2'], s.unk ^ 1, rdy ^ 1]))
    s.bad('ready_after', g.ANDN([p['done'], s.unk ^ 1, rdy ^ 1]))
    s.cover('timing: hit after hit', g.ANDN([p['fast'], rdy, s.en]))
    s.cover('timing: write hit to a clean word', p['slow2'])
    s.prev = dict(p, done=g.AND(last_resp, s.en ^ 1), slow2=g.AND(p['slow'], rdy ^ 1), fast=0, slow=0)

  def _timing_mem(s, men, m_rd, m_wr, go, h):
    g, v = s.g, s.v
    late = wb_late = refill = 0
    for e in s.fifo:
      m = g.ANDN([e['val'], e['missk'], s.unk ^ 1])
      late = g.OR(late, g.ANDN([m, v.eqc(e['age'], 2), men ^ 1]))
      refill = g.OR(refill, g.ANDN([m, e['ev'], v.eqc(e['age'], 3), men ^ 1]))
    s.bad('miss_latency', g.OR(late, refill))
    s.cover('timing: miss', g.ORN([g.ANDN([e['val'], e['missk'], v.eqc(e['age'], 2), men]) for e in s.fifo]))
    # answer at most four cycles after the memory's data
    out = s.fifo[0]['val']
    data = g.AND(go, v.eqc(h['type_'], WRITE) ^ 1)
    x = s.since
    s.since = v.ITE(data, v.const(1, 3), v.ITE(g.OR(v.nz(x) ^ 1, out ^ 1), s.Z(3), v.ITE(v.eqc(x, 7), x, v.add(x, v.const(1, 3)))))
    s.bad('refill_latency', g.ANDN([out, s.unk ^ 1, v.ult(v.const(4, 3), s.since)]))

  def _log(s, ch, en, rdy, ren, rmsg, resp_rdy, men, mmsg, mem_rdy, go, mdata, mtype, mopq):
    I = lambda b: sum(x << i for i, x in enumerate(b))
    out = []
    if en: out.append(f"req type={I(ch.type_)} opaque={I(ch.opaque)} addr={I(ch.addr):#x} len={I(ch.len)} data={I(ch.data):#x}")
    elif not rdy: out.append("req not ready")
    def m(T, b): return ' '.join(f"{k.rstrip('_')}={I(fld(T, b, k)):#x}" for k in T.__bitstruct_fields__)
    if men: out.append(f"-> mem {m(s.MR, mmsg)}")
    elif not mem_rdy: out.append("(mem stalls)")
    if go: out.append(f"<- mem type={I(mtype)} opaque={I(mopq)} data={I(mdata):#x}")
    if ren: out.append(f"resp {m(s.CS, rmsg)}")
    elif not resp_rdy: out.append("(resp stalls)")
    bad = sorted({f for f, x in s.bads.items() for t, l in x if t == s.t and l == 1})
    if bad: out.append(f"*** {', '.join(bad)}")
    s.log.append(f"{s.dut.cycles:4d}: " + '; '.join(out))

  def _external(s, ch):
    """Another master writes the watched bit in memory, at a time when no
    request is outstanding and the cache holds no dirty copy of its word."""
    g, v = s.g, s.v
    live, val, dirty = s._watched()
    ok = g.ANDN([ch.ext[0], s.fifo[0]['val'] ^ 1, dirty ^ 1])
    s.M = g.MUX(ok, ch.ext[1], s.M)
    s.V = g.MUX(g.AND(ok, val ^ 1), ch.ext[1], s.V)
    s.stale = g.MUX(g.AND(ok, val), 1, s.stale)
    s.UM = g.AND(s.UM, ok ^ 1)
    s.U = g.AND(s.U, g.AND(ok, val ^ 1) ^ 1)

  def _watched(s, ways=None):
    """(tag present, valid, word dirty) of the watched line in the model."""
    g, v = s.g, s.v
    live = val = dirty = 0
    for w in ways or s.ways:
      m = g.AND(g.OR(w['val'], v.nz(w['dm'])), v.eq(w['tag'], s.WT))
      live = g.OR(live, m); val = g.OR(val, g.AND(m, w['val'])); dirty = g.OR(dirty, g.AND(m, s.word(w['dm'])))
    return live, val, dirty

  def _accept(s, en, ch, cur, last_resp, outstanding0):
    g, v, c = s.g, s.v, s.cfg
    ty, addr, ln, data = ch.type_, ch.addr, ch.len, ch.data
    tag, idx, off = s.split(addr)
    rd, wr, amo = v.eqc(ty, READ), v.eqc(ty, WRITE), s.is_amo(ty)
    inv, fl = v.eqc(ty, INV), v.eqc(ty, FLUSH)
    rw = g.OR(rd, wr)
    ini = v.eqc(ty, WRITE_INIT) if s.preload else 0
    inset = g.AND(v.eq(idx, s.WS), g.ORN([rw, amo, ini]))
    # a blocking cache accepts nothing while an earlier request still has
    # memory traffic to send or to hear back from
    still = g.AND(outstanding0, last_resp ^ 1)
    pend = g.ORN([cur['wb'], cur['fill'], cur['amo']] + [cur[f'fl{w}'] for w in range(c.assoc)])
    busy = g.AND(still, g.OR(pend, s.memq[0]['val']))
    s.bad('accept_busy', g.AND(en, busy))
    s.unk = g.OR(s.unk, g.AND(en, busy))
    # the watched set
    live = [g.OR(w['val'], v.nz(w['dm'])) for w in s.ways]
    match = [g.AND(l, v.eq(w['tag'], tag)) for l, w in zip(live, s.ways)]
    hits = [g.AND(m, w['val']) for m, w in zip(match, s.ways)]
    hit, anym = g.ORN(hits), g.ORN(match)
    lru = s.lru
    victim = [lru ^ 1, lru] if c.assoc == 2 else [1]
    sel = [g.OR(m, g.AND(anym ^ 1, vi)) for m, vi in zip(match, victim)]
    wtag, wmask = s.Z(c.tagb), s.Z(c.nw)
    for w, sl in zip(s.ways, sel):
      wtag, wmask = v.ITE(sl, w['tag'], wtag), v.ITE(sl, w['dm'], wmask)
    evict = g.ANDN([anym ^ 1, v.nz(wmask)])
    amo_wb = g.AND(anym, v.nz(wmask))
    cov = s.word_cover(off, ln, wr)
    new = []
    for i, w in enumerate(s.ways):
      e1 = g.ANDN([en, inset, rw, sel[i]])
      keep = match[i]
      base = v.ITE(keep, w['dm'], s.Z(c.nw))
      dm_rw = v.ITE(wr, v.OR(base, cov), base)
      tag_n, val_n, dm_n = w['tag'], w['val'], w['dm']
      tag_n = v.ITE(e1, tag, tag_n); val_n = g.OR(val_n, e1); dm_n = v.ITE(e1, dm_rw, dm_n)
      e2 = g.ANDN([en, inset, amo, match[i]])
      val_n = g.AND(val_n, e2 ^ 1); dm_n = v.ITE(e2, s.Z(c.nw), dm_n)
      e3 = g.AND(en, inv)
      val_n = g.AND(val_n, e3 ^ 1)
      e4 = g.AND(en, fl)
      dm_n = v.ITE(e4, s.Z(c.nw), dm_n)
      if i == 0:
        e5 = g.ANDN([en, inset, ini])      # preloading fills the first way
        tag_n = v.ITE(e5, tag, tag_n); val_n = g.OR(val_n, e5)
      new.append(dict(tag=tag_n, val=val_n, dm=dm_n))
    ncur = s._no_cur()
    ncur.update(type_=ty, addr=addr, len=ln, opaque=ch.opaque, data=data, inset=inset,
                wb=g.AND(inset, g.OR(g.AND(rw, evict), g.AND(amo, amo_wb))), wbtag=wtag, wbmask=wmask,
                fill=g.ANDN([inset, rw, hit ^ 1]), amo=g.AND(inset, amo),
                inv=g.ANDN([inset, rw, anym, hit ^ 1]), anew=ch.amo_new[0])
    for i, w in enumerate(s.ways):
      ncur[f'fl{i}'] = g.AND(fl, v.nz(w['dm'])); ncur[f'fltag{i}'] = w['tag']; ncur[f'flmask{i}'] = w['dm']
    s.cur = s.ited(en, ncur, cur)
    if c.assoc == 2:
      s.lru = g.MUX(g.ANDN([en, inset, rw]), sel[0], g.MUX(g.ANDN([en, inset, amo, anym]), match[1], lru))
      s.lru = g.OR(s.lru, g.ANDN([en, inset, ini]))
    old, s.ways = s.ways, new
    # expected response
    e = dict(s._no_exp(), val=1, type_=ty, opaque=ch.opaque, len=ln, inset=inset, hit=g.AND(rw, hit), chk=0, vexp=0, stale=s.stale)
    if s.timing:
      hk = g.AND(inset, e['hit'])
      dm = s.Z(c.nw)
      for m, w in zip(match, old): dm = v.ITE(m, w['dm'], dm)
      cov_dirty = v.nz(v.AND(cov, v.NOT(dm))) ^ 1
      e['hitk'] = hk
      e['missk'] = g.OR(ncur['wb'], g.OR(ncur['fill'], ncur['amo']))
      e['ev'] = g.AND(ncur['wb'], g.OR(ncur['fill'], ncur['amo']))
      s.prev = dict(s.prev, fast=g.ANDN([en, hk, g.OR(rd, cov_dirty)]), slow=g.ANDN([en, hk, wr, cov_dirty ^ 1]))
    if s.watch:
      line = g.AND(v.eq(tag, s.WT), v.eq(idx, s.WS))
      lc, bit = s.watch_lane(off, ln, data, wr)
      aw = g.AND(line, v.eq(off[2:], s.BW))
      e['chk'] = g.OR(g.ANDN([line, lc, rd]), g.AND(aw, amo))
      e['vexp'] = s.V
      if s.ext:
        # atomics are performed by memory, whatever clean copy is cached
        e['vexp'] = g.MUX(g.AND(amo, s._watched(old)[2] ^ 1), s.M, s.V)
      wl, wa = g.ANDN([en, line, lc, wr]), g.ANDN([en, aw, amo])
      wi, wu = g.ANDN([en, line, lc, ini]), g.ANDN([en, line, lc ^ 1, ini, s._watched(old)[1] ^ 1])
      if s.preload:
        e['chk'] = g.AND(e['chk'], g.MUX(g.AND(amo, s._watched(old)[2] ^ 1), s.UM, s.U) ^ 1)
        s.Up = g.MUX(en, s.U, s.Up)
        s.U = g.AND(g.OR(s.U, wu), g.ORN([wl, wa, wi]) ^ 1)
        s.wpre = g.OR(s.wpre, wi)
      s.Vp = g.MUX(en, s.V, s.Vp)
      s.V = g.MUX(wi, bit, s.V)
      s.V = g.MUX(wl, bit, g.MUX(wa, ch.amo_new[0], s.V))
      s.wrote = g.OR(s.wrote, wl)
      if s.ext:
        # once the cache holds no copy, the memory's value is the value
        _, val, dirty = s._watched()
        drop = g.ANDN([en, val ^ 1, dirty ^ 1, wa ^ 1, s._watched(old)[2] ^ 1])
        s.V = g.MUX(drop, s.M, s.V)
        s.stale = g.OR(g.AND(s.stale, g.ORN([drop, wl, wa]) ^ 1), g.OR(wi, wu))
        s.U = g.MUX(drop, s.UM, s.U)
    if s.preload:
      for k in range(c.sets):
        x = g.ANDN([en, ini, v.eqc(idx, k) if c.idxb else 1])
        s.pval[k], s.ptag[k] = g.OR(s.pval[k], x), v.ITE(x, tag, s.ptag[k])
      s.started = g.OR(s.started, g.AND(en, ini ^ 1))
    out, seen = [], en
    for q in s.fifo:
      here = g.AND(seen, q['val'] ^ 1)
      out.append(s.ited(here, e, q)); seen = g.AND(seen, q['val'])
    s.bad('accept_overflow', seen)
    s.fifo = out
