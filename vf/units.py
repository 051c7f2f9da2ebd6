"""Stand-alone building blocks: bounded checks of single components.

A unit drives one component with arbitrary inputs for some cycles from an
arbitrary state and marks what may not happen (`bad`)."""
import time

from .cache import Free, Recorded
from .dut import SymDut, SimDut, fld, pack
from .interp import type_nbits
from .solve import Solver, Stats


def clog2(n): return (n - 1).bit_length()


class Unit:
  reset = None               # assert reset for the first cycles
  def __init__(s, **p): s.p = p
  def attach(s, d, src):
    s.d, s.src, s.g, s.v = d, src, d.g, d.v
    s.t, s.bads, s.covers, s.assumes = 0, [], {}, []
    s.log = []
    s.setup()
  def setup(s): pass
  def bad(s, what, lit):
    if lit != 0: s.bads.append((what, s.t, lit))
  def cover(s, what, lit):
    if lit != 0: s.covers.setdefault(what, []).append(lit)
  def inp(s, name, path, n):
    x = s.src(f'{name}@{s.t}', n)
    s.d.set(path, x)
    return x
  def clock(s, reset=0):
    s.d.set('clk', (0,)); s.d.set('reset', (reset,))
  def num(s, b): return sum(x << i for i, x in enumerate(b)) if all(x < 2 for x in b) else None
  def pick(s, vec, idx):
    """vec[idx] for a bit vector idx."""
    out = 0
    for k, b in enumerate(vec): out = s.g.OR(out, s.g.AND(b, s.v.eqc(idx, k)))
    return out


class Sram(Unit):
  """One port, bit write enables, data in the cycle after a read: follow one
  bit of one word."""
  def build(s):
    from sram.SramPRTL import SramPRTL
    return SramPRTL(s.p['bits'], s.p['words'])
  def setup(s):
    n = clog2(s.p['words'])
    s.A = s.src('watch_word', n)
    k = clog2(s.p['bits'])
    s.K = s.src('watch_bit', k)
    s.assumes.append(s.v.ult(s.K, s.v.const(s.p['bits'], k + 1)[:k]) if s.p['bits'] < (1 << k) else 1)
    if s.p['words'] < (1 << n): raise ValueError('power-of-two words only')
    s.known, s.M, s.rd = 0, 0, 0
  def cycle(s):
    g, v = s.g, s.v
    s.clock()
    n = clog2(s.p['words'])
    val, ty = s.inp('val', 'port0_val', 1)[0], s.inp('type', 'port0_type', 1)[0]
    idx = s.inp('idx', 'port0_idx', n)
    wd, be = s.inp('wdata', 'port0_wdata', s.p['bits']), s.inp('wben', 'port0_wben', s.p['bits'])
    out = s.pick(s.d.get('port0_rdata'), s.K)
    s.bad('read data is not what the word holds', g.ANDN([s.rd, s.known, g.XOR(out, s.M)]))
    s.cover('read back', g.ANDN([s.rd, s.known]))
    # what was read once must be read again
    s.M = g.MUX(g.AND(s.rd, s.known ^ 1), out, s.M)
    s.known = g.OR(s.known, s.rd)
    here = g.AND(val, v.eq(idx, s.A))
    w = g.ANDN([here, ty, s.pick(be, s.K)])
    s.cover('write', w)
    s.M = g.MUX(w, s.pick(wd, s.K), s.M)
    s.known = g.OR(s.known, w)
    s.rd = g.AND(here, ty ^ 1)
    if s.d.kind == 'sim':
      s.log.append(f"val={val} {'write' if ty else 'read'} idx={s.num(idx)} wdata={s.num(wd):#x} wben={s.num(be):#x} -> rdata={s.num(s.d.get('port0_rdata')):#x}")


class Select(Unit):
  """Sub-word selection from a line."""
  def build(s):
    from blocking_cache.units import muxes
    from .cache import Cfg, types
    from blocking_cache.CacheDerivedParams import CacheDerivedParams
    p = s.p
    c = Cfg(obw=1, abw=32, dbw=p['dbw'], clw=p['clw'], nbytes=p['clw'] // 8 * 4, assoc=2)
    CR, CS, MR, MS = types(c)
    return getattr(muxes, p['which'])(CacheDerivedParams(CR, CS, MR, MS, c.nbytes, c.assoc))
  def cycle(s):
    g, v, p = s.g, s.v, s.p
    s.clock()
    clw, dbw = p['clw'], p['dbw']
    lb, ob = clog2(dbw // 8), clog2(clw // 8)
    x, en, amo = s.inp('in', 'in_', clw), s.inp('en', 'en', 1)[0], s.inp('amo', 'amo', 1)[0]
    ln, off = s.inp('len', 'len_', lb), s.inp('offset', 'offset', ob)
    out = s.d.get('out')
    exp = (0,) * dbw
    legal = amo
    n = 1
    while n <= dbw // 8:
      enc = v.eqc(ln, n % (dbw // 8))
      al = g.ORN(off[:clog2(n)]) ^ 1
      sel = (0,) * (8 * n)
      for k in range(clw // 8 // n):
        here = v.eqc(off[clog2(n):], k) if ob > clog2(n) else 1
        sel = tuple(g.OR(a, g.AND(b, here)) for a, b in zip(sel, x[8 * n * k:8 * n * (k + 1)]))
      exp = v.ITE(enc, sel + (0,) * (dbw - 8 * n), exp)
      legal = g.OR(legal, g.AND(enc, al))
      s.cover(f'{n} bytes', g.ANDN([enc, al, en, amo ^ 1]))
      n *= 2
    exp = v.ITE(en, exp, (0,) * dbw)
    # an atomic returns memory's (zero-extended) word
    legal = g.AND(legal, g.OR(amo ^ 1, v.nz(x[32:dbw]) ^ 1 if dbw > 32 else 1))
    exp = v.ITE(amo, x[:32] + (0,) * (dbw - 32), exp)
    legal = g.OR(legal, g.AND(en ^ 1, amo ^ 1))
    s.bad('selected data', g.AND(legal, v.eq(out, exp) ^ 1))
    if s.d.kind == 'sim':
      s.log.append(f"in={s.num(x):#x} en={en} amo={amo} len={s.num(ln)} offset={s.num(off)} -> out={s.num(out):#x}, expected {s.num(exp):#x}")


class UpDown(Unit):
  """CounterUpDown: load, up, down, hold; reset value."""
  def build(s):
    from blocking_cache.units.counters import CounterUpDown
    from pymtl3 import mk_bits
    return CounterUpDown(mk_bits(s.p['bits']), s.p['reset_value'])
  def setup(s): s.exp = None
  def cycle(s):
    g, v, n = s.g, s.v, s.p['bits']
    rst = s.src(f'reset@{s.t}', 1)[0]
    s.d.set('clk', (0,)); s.d.set('reset', (rst,))
    up, dw, ld = s.inp('up', 'up_amt', n), s.inp('dw', 'dw_amt', n), s.inp('ld', 'ld_amt', n)
    ue, de, le = s.inp('up_en', 'up_en', 1)[0], s.inp('dw_en', 'dw_en', 1)[0], s.inp('ld_en', 'ld_en', 1)[0]
    out = s.d.get('out')
    if s.exp is not None: s.bad('count', v.eq(out, s.exp) ^ 1)
    nx = v.ITE(g.AND(ue, de ^ 1), v.add(out, up), v.ITE(g.AND(de, ue ^ 1), v.sub(out, dw), out))
    nx = v.ITE(le, ld, nx)
    s.exp = v.ITE(rst, v.const(s.p['reset_value'], n), nx)
    s.cover('counts', g.AND(ue, le ^ 1))
    if s.d.kind == 'sim':
      s.log.append(f"reset={rst} load={le}:{s.num(ld)} up={ue}:{s.num(up)} down={de}:{s.num(dw)} out={s.num(out)}")


class CountEn(Unit):
  """CounterEnRst: counts by one in the given direction while enabled."""
  def build(s):
    from blocking_cache.units.counters import CounterEnRst
    from pymtl3 import mk_bits
    return CounterEnRst(mk_bits(s.p['bits']), s.p['reset_value'])
  def setup(s): s.exp = None
  def cycle(s):
    g, v, n = s.g, s.v, s.p['bits']
    rst = s.src(f'reset@{s.t}', 1)[0]
    s.d.set('clk', (0,)); s.d.set('reset', (rst,))
    en, dn = s.inp('en', 'en', 1)[0], s.inp('down', 'count_down', 1)[0]
    ld = s.inp('load', 'load', 1)[0]; s.inp('ldv', 'load_value', n)
    s.assumes.append(ld ^ 1)          # loading is not implemented by this counter
    out = s.d.get('out')
    if s.exp is not None: s.bad('count', v.eq(out, s.exp) ^ 1)
    one = v.const(1, n)
    s.exp = v.ITE(rst, v.const(s.p['reset_value'], n), v.ITE(en, v.ITE(dn, v.sub(out, one), v.add(out, one)), out))
    s.cover('counts', en)
    if s.d.kind == 'sim': s.log.append(f"reset={rst} en={en} down={dn} out={s.num(out)}")


class Block(Unit):
  """A block of the cache, built for given widths."""
  def params(s):
    from .cache import Cfg, types
    from blocking_cache.CacheDerivedParams import CacheDerivedParams
    p = s.p
    c = Cfg(obw=p.get('obw', 4), abw=p.get('abw', 32), dbw=p['dbw'], clw=p['clw'], nbytes=p.get('nbytes', p['clw'] // 8 * 8), assoc=p.get('assoc', 2))
    CR, CS, MR, MS = types(c)
    s.P = CacheDerivedParams(CR, CS, MR, MS, c.nbytes, c.assoc)
    s.assoc, s.words, s.ob, s.lb = c.assoc, c.clw // 32, clog2(c.clw // 8), clog2(c.dbw // 8)
    s.wb = s.P.bitwidth_clog_asso
    return s.P
  def sizes(s, ln, off):
    """[(bytes, literal: this size, aligned)] of all legal accesses."""
    v, out, n = s.v, [], 1
    while n <= s.p['dbw'] // 8:
      out.append((n, s.g.AND(v.eqc(ln, n % (s.p['dbw'] // 8)), s.g.ORN(off[:clog2(n)]) ^ 1)))
      n *= 2
    # 32-bit data: length code 3 is a zero-extended double word
    if s.p['dbw'] == 32 and s.p['clw'] >= 64: out.append((8, s.g.AND(v.eqc(ln, 3), s.g.ORN(off[:3]) ^ 1)))
    return out
  def cover_words(s, ln, off):
    """Words of the line an access covers, and whether it is legal."""
    g, v = s.g, s.v
    ws, legal = [0] * s.words, 0
    for n, is_n in s.sizes(ln, off):
      legal = g.OR(legal, is_n)
      for k in range(s.words):
        for b in range(0, 32 * s.words // 8, n):
          if b < 4 * k + 4 and 4 * k < b + n: ws[k] = g.OR(ws[k], g.AND(is_n, v.eqc(off, b)))
    return tuple(ws), legal
  def way(s, name, path):
    w = s.inp(name, path, s.wb)
    if s.assoc < 1 << s.wb: s.assumes.append(s.v.ult(w, s.v.const(s.assoc, s.wb)))
    return w
  def entry(s, name, path):
    n = sum(type_nbits(t) for t in s.P.StructTagArray.__bitstruct_fields__.values())
    return s.inp(name, path, n)
  def part(s, e, f): return fld(s.P.StructTagArray, e, f)
  def expect(s, what, out, exp, when=1):
    s.bad(what, s.g.AND(when, s.v.eq(out, exp) ^ 1))
    if s.d.kind == 'sim': s.log.append(f"{what}: {s.num(out):#x}, expected {s.num(exp):#x}" + ('' if when == 1 else ' (not applicable)'))
  def show(s, **kw):
    if s.d.kind == 'sim': s.log.append(f"cycle {s.t}: " + ' '.join(f"{k}={s.num(x):#x}" for k, x in kw.items()))


class Replicate(Block):
  """DataReplicator: the data in every aligned position of its size."""
  def build(s):
    from blocking_cache.units.arithmetics import DataReplicator
    return DataReplicator(s.params())
  def cycle(s):
    g, v, p = s.g, s.v, s.p
    s.clock()
    x, ln, amo = s.inp('in', 'in_', p['dbw']), s.inp('len', 'len_', s.lb), s.inp('amo', 'amo', 1)[0]
    out = s.d.get('out')
    s.show(data=x, len=ln, amo=(amo,))
    s.expect('operand of an atomic', out, x + (0,) * (p['clw'] - p['dbw']), amo)
    for n, is_n in s.sizes(ln, (0,) * s.ob):
      y = (x + (0,) * 64)[:8 * n] if 8 * n > p['dbw'] else x[:8 * n]
      s.expect(f'{n} bytes replicated', out, y * (p['clw'] // 8 // n), g.AND(is_n, amo ^ 1))
      s.cover('replicated', g.AND(is_n, amo ^ 1))


class WriteEnable(Block):
  """WriteBitEnGen: exactly the bytes written, or the words not modified."""
  def build(s):
    from blocking_cache.units.arithmetics import WriteBitEnGen
    return WriteBitEnGen(s.params())
  def cycle(s):
    from blocking_cache import cache_constants as K
    g, v, p = s.g, s.v, s.p
    s.clock()
    cmd, dty = s.inp('cmd', 'cmd', 2), s.inp('dty', 'dty_mask', s.words)
    off, ln = s.inp('off', 'offset', s.ob), s.inp('len', 'len_', s.lb)
    out = s.d.get('out')
    s.show(cmd=cmd, dirty=dty, offset=off, len=ln)
    req = v.eqc(cmd, int(K.WriteBitEnGen_CMD_REQ))
    for n, is_n in s.sizes(ln, off):
      exp = sum(((v.eqc(off[clog2(n):], b // n) if s.ob > clog2(n) else 1,) * 8 * n for b in range(0, p['clw'] // 8, n)), ())
      s.expect(f'bits of a {n}-byte write', out, exp, g.AND(req, is_n))
      s.cover('write enabled', g.AND(req, is_n))
    s.expect('bits of a refill', out, sum(((d ^ 1,) * 32 for d in dty), ()), v.eqc(cmd, int(K.WriteBitEnGen_CMD_DIRTY)))
    s.expect('no write', out, (0,) * p['clw'], v.eqc(cmd, int(K.WriteBitEnGen_CMD_NONE)))


class TagCompare(Block):
  """TagArrayRDataProcessUnit: hits, modified lines and words."""
  def build(s):
    from blocking_cache.units.arithmetics import TagArrayRDataProcessUnit
    return TagArrayRDataProcessUnit(s.params())
  def cycle(s):
    g, v = s.g, s.v
    s.clock()
    en, init = s.inp('en', 'en', 1)[0], s.inp('init', 'is_init', 1)[0]
    tag = s.inp('tag', 'addr_tag', s.P.bitwidth_tag)
    es = [s.entry(f'entry{i}', f'tag_array[{i}]') for i in range(s.assoc)]
    off, ln = s.inp('off', 'offset', s.ob), s.inp('len', 'wr_len', s.lb)
    s.show(en=(en,), init=(init,), tag=tag, offset=off, len=ln, **{f'entry{i}': e for i, e in enumerate(es)})
    val, dty, tg = ([s.part(e, f) for e in es] for f in ('val', 'dty', 'tag'))
    live = [g.OR(v.nz(a), v.nz(b)) for a, b in zip(val, dty)]
    for i in range(s.assoc):
      for j in range(i): s.assumes.append(g.ANDN([live[i], live[j], v.eq(tg[i], tg[j])]) ^ 1)
    on = g.AND(en, init ^ 1)
    eq = [v.eq(t, tag) for t in tg]
    hit = [g.ANDN([on, v.nz(a), e]) for a, e in zip(val, eq)]
    inv = [g.ANDN([on, v.nz(a) ^ 1, v.nz(d), e]) for a, d, e in zip(val, dty, eq)]
    s.expect('hit', s.d.get('hit'), (g.ORN(hit),))
    s.expect('hit on an invalidated, modified line', s.d.get('inval_hit'), (g.ORN(inv),))
    for i in range(s.assoc): s.expect(f'way {i}', s.d.get('hit_way'), v.const(i, s.wb), g.OR(hit[i], inv[i]))
    ws, legal = s.cover_words(ln, off)
    s.expect('words modified', s.d.get('word_dirty'), tuple(g.ANDN([g.OR(a, w ^ 1) for a, w in zip(d, ws)]) for d in dty), legal)
    s.expect('line modified', s.d.get('line_dirty'), tuple(g.AND(en, v.nz(d)) for d in dty))
    for i, e in enumerate(es): s.expect(f'entry {i}', s.d.get(f'tag_entires[{i}]'), tuple(g.AND(en, b) for b in e))
    s.cover('hit', g.AND(g.ORN(hit), legal))


class TagUpdate(Block):
  """UpdateTagArrayUnit: the entry each command writes."""
  def build(s):
    from blocking_cache.units.UpdateTagArrayUnit import UpdateTagArrayUnit
    return UpdateTagArrayUnit(s.params())
  def cycle(s):
    from blocking_cache import cache_constants as K
    g, v = s.g, s.v
    s.clock()
    way, cmd = s.way('way', 'way'), s.inp('cmd', 'cmd', 3)
    off, ln, rd = s.inp('off', 'offset', s.ob), s.inp('len', 'wr_len', s.lb), s.inp('refill', 'refill_dty', s.words)
    es = [s.entry(f'entry{i}', f'old_entries[{i}]') for i in range(s.assoc)]
    s.show(way=way, cmd=cmd, offset=off, len=ln, refill_dirty=rd, **{f'entry{i}': e for i, e in enumerate(es)})
    e = es[0]
    for i in range(1, s.assoc): e = v.ITE(v.eqc(way, i), es[i], e)
    tag, val, dty = (s.part(e, f) for f in ('tag', 'val', 'dty'))
    ws, legal = s.cover_words(ln, off)
    one, zero = v.const(1, len(val)), (0,) * len(val)
    T = s.P.StructTagArray
    OR = lambda a, b: tuple(g.OR(x, y) for x, y in zip(a, b))
    for nm, ok, ent in (('WR_REFILL', legal, (tag, one, OR(rd, ws))), ('RD_REFILL', 1, (tag, one, rd)), ('WR_HIT', legal, (tag, val, OR(dty, ws))),
                        ('CLEAR', 1, ((0,) * len(tag), zero, (0,) * len(dty))), ('INV', 1, (tag, zero, dty))):
      is_c = v.eqc(cmd, int(getattr(K, 'UpdateTagArrayUnit_CMD_' + nm)))
      s.expect(f'entry after {nm}', s.d.get('out'), pack(T, tag=ent[0], val=ent[1], dty=ent[2]), g.AND(is_c, ok))
      s.cover('entry written', g.AND(is_c, ok))


class LineIndex(Block):
  """Indexer: a line of its own for every set and way."""
  def build(s):
    from blocking_cache.units.arithmetics import Indexer
    return Indexer(s.params())
  def cycle(s):
    v, n = s.v, s.P.bitwidth_num_lines
    s.clock()
    idx, way = s.inp('idx', 'index', s.P.bitwidth_index), s.way('way', 'offset')
    s.show(index=idx, way=way)
    exp = v.const(0, n)
    for w in range(s.assoc): exp = v.ITE(v.eqc(way, w), v.add((idx + (0,) * n)[:n], v.const(w * s.P.nblocks_per_way, n)), exp)
    s.expect('line number', s.d.get('out'), exp)
    s.cover('indexed', v.nz(idx))


class MemLength(Block):
  """OffsetLenSelector: whole lines, or the word of an atomic."""
  def build(s):
    from blocking_cache.units.arithmetics import OffsetLenSelector
    return OffsetLenSelector(s.params())
  def cycle(s):
    g, v = s.g, s.v
    s.clock()
    ln, off, amo = s.inp('len', 'len_i', s.lb), s.inp('off', 'offset_i', s.ob), s.inp('amo', 'is_amo', 1)[0]
    s.show(len=ln, offset=off, amo=(amo,))
    word = v.eqc(ln, 4 % (s.p['dbw'] // 8))
    s.expect('offset of a line', s.d.get('offset_o'), (0,) * s.ob, amo ^ 1)
    s.expect('length of a line', s.d.get('len_o'), (0,) * s.ob, amo ^ 1)
    s.expect('offset of an atomic', s.d.get('offset_o'), off, amo)
    s.expect('length of an atomic', s.d.get('len_o'), v.const(4, s.ob), g.AND(amo, word))
    s.cover('atomic', g.AND(amo, word))


class Victim(Block):
  """ReplacementPolicy, two ways: the way not used last."""
  def build(s):
    from blocking_cache.units.ReplacementPolicy import ReplacementPolicy
    return ReplacementPolicy(s.params())
  def cycle(s):
    g, v = s.g, s.v
    s.clock()
    en, is_hit = s.inp('en', 'repreq_en', 1)[0], s.inp('is_hit', 'repreq_is_hit', 1)[0]
    hw, ptr = s.inp('hw', 'repreq_hit_ptr', 1), s.inp('ptr', 'repreq_ptr', 1)
    s.show(en=(en,), is_hit=(is_hit,), hit_way=hw, victim=ptr)
    used = g.MUX(is_hit, hw[0], ptr[0])
    s.expect('victim', s.d.get('represp_ptr'), (g.MUX(en, used ^ 1, ptr[0]),))
    s.cover('used', en)


class Hold(Unit):
  """StallEngine: passes its input, then holds the last one passed."""
  def build(s):
    from blocking_cache.units.StallEngine import StallEngine
    from pymtl3 import mk_bits
    return StallEngine(mk_bits(s.p['bits']))
  def setup(s): s.last = None
  def cycle(s):
    g, v = s.g, s.v
    s.clock()
    x, en = s.inp('in', 'in_', s.p['bits']), s.inp('en', 'en', 1)[0]
    out = s.d.get('out')
    s.bad('input passed', g.AND(en, v.eq(out, x) ^ 1))
    if s.last is not None: s.bad('output held', g.AND(en ^ 1, v.eq(out, s.last) ^ 1))
    s.cover('held', en ^ 1)
    s.last = out
    if s.d.kind == 'sim': s.log.append(f"in={s.num(x):#x} en={en} out={s.num(out):#x}")


class MissReg(Block):
  """MSHR with one entry: keeps the miss from allocation to deallocation."""
  def build(s):
    from blocking_cache.units.MSHR import MSHR
    return MSHR(s.params(), 1)
  def setup(s): s.count, s.msg = None, None
  def cycle(s):
    g, v = s.g, s.v
    rst = 1 if s.t == 0 else 0
    s.clock(rst)
    n = sum(type_nbits(t) for t in s.P.MSHRMsg.__bitstruct_fields__.values())
    al, de, x = s.inp('alloc', 'alloc_en', 1)[0], s.inp('dealloc', 'dealloc_en', 1)[0], s.inp('msg', 'alloc_in', n)
    s.inp('id', 'dealloc_id', s.P.bitwidth_opaque)
    if rst:
      s.assumes.append(g.OR(al, de) ^ 1)
      s.count = 0
      return
    # one miss at a time
    s.assumes.append(g.AND(al, g.OR(s.count, de)) ^ 1)
    s.assumes.append(g.AND(de, s.count ^ 1) ^ 1)
    s.bad('full', s.v.eq(s.d.get('full'), (g.OR(s.count, al),)) ^ 1)
    s.bad('empty', s.v.eq(s.d.get('empty'), (s.count ^ 1,)) ^ 1)
    if s.msg is not None: s.bad('what is kept', g.AND(s.count, v.eq(s.d.get('dealloc_out'), s.msg) ^ 1))
    s.cover('miss kept', g.AND(s.count, de))
    s.msg = x if s.msg is None else v.ITE(al, x, s.msg)
    s.count = g.OR(al, g.AND(s.count, de ^ 1))
    if s.d.kind == 'sim': s.log.append(f"alloc={al} dealloc={de} full={s.num(s.d.get('full'))} empty={s.num(s.d.get('empty'))} out={s.num(s.d.get('dealloc_out')):#x}")


UNITS = dict(sram=Sram, select=Select, updown=UpDown, counten=CountEn, replicate=Replicate, wben=WriteEnable, tagcmp=TagCompare,
             tagupd=TagUpdate, index=LineIndex, memlen=MemLength, victim=Victim, hold=Hold, mshr=MissReg)


def run_unit(U, d, src, depth):
  U.attach(d, src)
  for _ in range(depth):
    U.cycle()
    U.bad('raises', d.raised())
    U.t += 1
    d.tick()
    if d.kind == 'sim' and any(l == 1 for *_, l in U.bads): break
  return U


def unit_bmc(name, unit, params, depth, budget=60, covers=(), **kw):
  t0 = time.time()
  S0 = Stats()
  U = UNITS[unit](**params)
  try:
    d = SymDut(U.build())
    src = Free(d.g)
    d.arbitrary_state(src)
    run_unit(U, d, src, depth)
  except (ImportError, AttributeError, LookupError) as e:
    # the block, or one of its ports, is no longer there: nothing to say about it
    return dict(name=name, cfg=str(params), verdict='inconclusive', depth=0, covers={}, stats=S0.as_dict(), blocks=[], funcs=[], nodes=0,
                start='any state', wall=0, message=f"{type(e).__name__}: {e}", unconfirmed=f"the block has changed its interface: {e}")
  S = Solver(d.g, S0, timeout=budget)
  ass = U.assumes + d.consist
  res = dict(name=name, cfg=str(params), verdict='held', depth=depth, covers={}, blocks=[b[0] for b in d.m.blocks], start='any state',
             funcs=sorted(getattr(f, '__qualname__', str(f)) for f in d.m.interp.funcs), nodes=0, facets=sorted({w for w, *_ in U.bads}))
  r = S.check(ass + [d.g.ORN([l for *_, l in U.bads])])
  if r == 'sat':
    vals = src.values(S.model)
    rec = dict(kind='unit', unit=unit, params=params, depth=depth, vals=vals, state=d.state_values(src, vals))
    bads, trace = replay_unit(rec)
    if bads: res.update(verdict='violation', cex=dict(what=bads, record=rec, trace=trace))
    else: res.update(verdict='error', message='counterexample does not reproduce on the real code')
  elif r == 'unknown': res['verdict'] = 'inconclusive'
  for k, l in U.covers.items():
    ok = S.check(ass + [d.g.ORN(l)]) == 'sat'
    for c in covers: res['covers'][c] = res['covers'].get(c, False) or ok
  res['nodes'] = len(d.g.f0)
  res['stats'] = S0.as_dict()
  res['wall'] = round(time.time() - t0, 1)
  return res


def replay_unit(rec):
  U = UNITS[rec['unit']](**rec['params'])
  sd = SimDut(U.build())
  sd.load_state(rec['state'])
  run_unit(U, sd, Recorded(rec['vals']), rec['depth'])
  return sorted({w for w, _, l in U.bads if l == 1}), U.log
