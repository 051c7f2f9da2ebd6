"""Several caches over one memory: software coherence.

The caches' processors run a program in phases; all requests of a phase run
concurrently, one per cache, and the next phase starts when all are answered.
The monitor follows one bit (any address) and the word it lies in:

  G         the latest value of the bit
  owner[i]  cache i wrote the word and has not flushed since
  fresh[i]  cache i has seen no change of the word by others since its last
            invalidation (or reset)
  race      the program broke the rules, nothing is promised any more

A cache may write a word which nobody else has unflushed changes to, if it is
fresh or overwrites the whole word.  It then promises: reads by the owner, and
by fresh caches when there is no owner, return the latest value; atomics too;
memory holds the latest value when there is no owner.
"""
import time

from .cache import Cfg, Harness, Free, Recorded, build, READ, WRITE, INV, FLUSH
from .dut import SymDut, SimDut
from .solve import Solver, Stats

SHARED = ('mem0', 'watch_byte', 'watch_bit')


class Pair:
  def __init__(s, cfgs, duts, src, phases, **opts):
    g = s.g = duts[0].g
    s.v = duts[0].v
    s.duts, s.src, s.phases, s.t = duts, src, phases, 0
    c = cfgs[0]
    la = src('watch_line', c.abw - c.offb)
    shared = {}
    def mk(i, cfg):
      def f(name, n):
        if name == 'watch_set': return la[:cfg.idxb]
        if name == 'watch_tag': return la[cfg.idxb:]
        if name in SHARED:
          if name not in shared: shared[name] = src(name, n)
          return shared[name]
        return src(f"{i}.{name}", n)
      return f
    s.hs = []
    for i, (cfg, d) in enumerate(zip(cfgs, duts)):
      d.g, d.v = s.g, s.v
      s.hs.append(Harness(cfg, d, mk(i, cfg), watch=(None, None), **opts))
    s.bads, s.covers = {}, {}
    s.n = len(cfgs)
    s.ph = [1] + [0] * len(phases)
    s.log = None

  def reset(s):
    for h in s.hs:
      h.reset_phase()
      h.spec_reset()
    s.M = s.G = s.hs[0].M
    s.race = 0
    s.owner, s.fresh = [0] * s.n, [1] * s.n
    s.chg = [0] * s.n           # written by another cache since
    s.sent = [0] * s.n
    s.acc = [s.nothing() for _ in range(s.n)]

  def nothing(s): return dict(rd=0, wr=0, full=0, amo=0, inv=0, fl=0, cov=0, bit=0, got=0, anew=0)

  def bad(s, f, l):
    if l != 0: s.bads.setdefault(f, []).append((s.t, l))

  def cover(s, f, l):
    if l != 0: s.covers.setdefault(f, []).append(l)

  def cycle(s):
    g, v = s.g, s.v
    for i, h in enumerate(s.hs):
      part = [(p, ph[i]) for p, ph in enumerate(s.phases) if i in ph]
      h.gate = g.ANDN([s.sent[i] ^ 1, g.ORN([s.ph[p] for p, _ in part])])
      h.M = s.M
      h.cycle()
      s.M = h.M
      ch, en = h.last, h.en
      for p, tys in part:
        h.assume(g.IMP(g.AND(en, s.ph[p]), g.ORN([v.eqc(ch.type_, x) for x in tys])))
      tag, idx, off = h.split(ch.addr)
      line = g.AND(v.eq(tag, h.WT), v.eq(idx, h.WS))
      wr = v.eqc(ch.type_, WRITE)
      rd = v.eqc(ch.type_, READ)
      lc, bit = h.watch_lane(off, ch.len, ch.data, wr)
      word = g.AND(line, h.word(h.word_cover(off, ch.len, wr)))
      amo = h.is_amo(ch.type_)
      aw = g.ANDN([amo, line, v.eq(off[2:], h.BW)])
      narrow = g.ORN([v.eqc(ch.len, e) for e, b in h.sizes() if b < 4])
      new = dict(rd=g.ANDN([rd, word]), wr=g.AND(wr, word), full=narrow ^ 1, amo=aw, inv=v.eqc(ch.type_, INV),
                 fl=v.eqc(ch.type_, FLUSH), cov=g.OR(g.AND(line, lc), aw), bit=bit, got=0, anew=ch.amo_new[0])
      s.acc[i] = h.ited(en, new, s.acc[i])
      s.sent[i] = g.OR(s.sent[i], en)
      # what the response says about the watched bit (a request covers it or not)
      b = 0
      for e, nb in h.sizes(): b = g.MUX(v.eqc(h.was_len, e), h.at(h.rdata, nb), b)
      b = g.MUX(h.was_amo, h.at(h.rdata, 4), b)
      s.acc[i] = dict(s.acc[i], got=g.MUX(h.ren, b, s.acc[i]['got']))
    done = 0
    for p, ph in enumerate(s.phases):
      done = g.OR(done, g.ANDN([s.ph[p]] + [x for i in ph for x in (s.sent[i], s.hs[i].fifo[0]['val'] ^ 1)]))
    s.finish(done)
    if s.log is not None:
      for i, h in enumerate(s.hs): s.log += [f"cache {i}: {x}" for x in h.log]; h.log.clear()
      b = [f for f, x in s.bads.items() for t, l in x if t == s.t and l == 1]
      if done == 1: s.log.append(f"-- phase done: latest={s.G} memory={s.M} owner={s.owner} fresh={s.fresh} race={s.race} {' *** ' + ', '.join(b) if b else ''}")
    s.ph = [g.MUX(done, s.ph[p - 1] if p else 0, s.ph[p]) for p in range(len(s.ph))]
    s.sent = [g.AND(x, done ^ 1) for x in s.sent]
    s.acc = [s.hs[0].ited(done, s.nothing(), a) for a in s.acc]
    s.t += 1

  def finish(s, done):
    """All requests of the phase are answered: check and advance."""
    g, A = s.g, s.acc
    N = range(s.n)
    others = lambda f, i: g.ORN([f(j) for j in N if j != i])
    wrote = lambda j: g.OR(A[j]['wr'], A[j]['amo'])
    G, owner, fresh, race = s.G, list(s.owner), list(s.fresh), s.race
    pub = g.ORN(s.owner) ^ 1
    for i in N:
      a = A[i]
      alone = others(wrote, i) ^ 1
      knows = g.OR(s.owner[i], g.AND(pub, s.fresh[i]))
      ok = g.ANDN([done, s.race ^ 1, alone])
      s.bad('coherent_read', g.ANDN([ok, knows, a['rd'], a['cov'], g.XOR(a['got'], s.G)]))
      s.bad('coherent_atomic', g.ANDN([ok, g.OR(s.owner[i], pub), a['amo'], g.XOR(a['got'], s.G)]))
      s.cover('read of another cache\'s value', g.ANDN([ok, knows, s.owner[i] ^ 1, a['rd'], a['cov'], s.chg[i]]))
      s.cover('atomic after another cache\'s write', g.ANDN([ok, pub, a['amo'], s.chg[i]]))
      may = g.OR(s.owner[i], g.AND(pub, g.OR(s.fresh[i], a['full'])))
      race = g.OR(race, g.ANDN([done, a['wr'], g.AND(may, alone) ^ 1]))
      race = g.OR(race, g.ANDN([done, a['amo'], g.AND(g.OR(pub, s.owner[i]), others(wrote, i) ^ 1) ^ 1]))
    for i in N:
      a = A[i]
      w, m = g.AND(done, a['wr']), g.AND(done, a['amo'])
      G = g.MUX(g.AND(w, a['cov']), a['bit'], g.MUX(m, a['anew'], G))
      ow = others(wrote, i)
      owner[i] = g.OR(w, g.AND(s.owner[i], g.OR(m, g.AND(done, a['fl'])) ^ 1))
      fresh[i] = g.ORN([w, m, g.AND(s.fresh[i], g.AND(done, ow) ^ 1), g.ANDN([done, a['inv'], pub, ow ^ 1])])
    for i in N: s.chg[i] = g.ORN([g.AND(done, others(wrote, i)), g.AND(s.chg[i], g.AND(done, wrote(i)) ^ 1)])
    s.G, s.owner, s.fresh, s.race = G, owner, fresh, race
    s.bad('memory_latest', g.ANDN([done, race ^ 1, g.ORN(owner) ^ 1, g.XOR(s.M, G)]))
    both = g.ANDN([done, race ^ 1, g.ORN(owner) ^ 1, g.ORN(s.chg)])
    s.cover('published value in memory', both)

  def all_bads(s):
    out = {f: list(x) for f, x in s.bads.items()}
    for h in s.hs:
      for f, x in h.bads.items(): out.setdefault(f, []).extend(x)
    return out

  def assumes(s):
    return [x for h in s.hs for x in h.assumes]


def multi_bmc(name, cfgs, phases, depth, facets, covers=(), budget=100, stalls=False, memlat=False, **kw):
  t0 = time.time()
  cfgs = [Cfg(**c) for c in cfgs]
  phases = [{int(i): tuple(t) for i, t in p.items()} for p in phases]
  duts = []
  for c in cfgs:
    same = [d for d, c2 in zip(duts, cfgs) if c2 == c]
    duts.append(SymDut(None if same else build(c), model=same[0].m if same else None, g=duts[0].g if duts else None))
  g = duts[0].g
  src = Free(g)
  P = Pair(cfgs, duts, src, phases, stalls=stalls, memlat=memlat)
  P.reset()
  for _ in range(depth): P.cycle()
  S = Solver(g, Stats(), timeout=budget)
  res = dict(name=name, cfg=' + '.join(map(str, cfgs)), verdict='held', depth=depth, covers={}, start='reset',
             blocks=[b[0] for b in duts[0].m.blocks],
             funcs=sorted(getattr(f, '__qualname__', str(f)) for f in duts[0].m.interp.funcs), facets=sorted(facets))
  cons = [x for d in duts for x in d.consist]
  bads = P.all_bads()
  target = [(f, t, l) for f, x in bads.items() if f in facets for t, l in x]
  r = S.check(P.assumes() + cons + [g.ORN([l for _, _, l in target])], timeout=600)
  if r == 'sat':
    vals = src.values(S.model)
    rec = dict(kind='multi', cfgs=[c.__dict__ for c in cfgs], phases=[{str(i): list(t) for i, t in p.items()} for p in phases],
               depth=depth, vals=vals, stalls=stalls, memlat=memlat, facets=sorted(facets))
    got, trace = replay_multi(rec)
    hit = [f for f in got if f in facets]
    res['cex'] = dict(what=hit, record=rec, trace=trace)
    res['verdict'] = 'violation' if hit else 'error'
    if not hit: res['message'] = 'counterexample does not reproduce on the real code'
  elif r == 'unknown': res['verdict'] = 'inconclusive'
  if r != 'sat':
    for c in covers:
      res['covers'][c] = S.check(P.assumes() + cons + [g.ORN(P.covers.get(c, [0]))], timeout=60) == 'sat'
  # the whole program fits into the bound: is its end reached at all?
  if r == 'unsat' and S.check(P.assumes() + cons + [P.ph[-1]], timeout=60) != 'sat':
    res.update(verdict='error', message='the program never completes within the bound')
  res.update(stats=S.stats.as_dict(), wall=round(time.time() - t0, 1), nodes=len(g.f0))
  return res


def replay_multi(rec):
  cfgs = [Cfg(**c) for c in rec['cfgs']]
  phases = [{int(i): tuple(t) for i, t in p.items()} for p in rec['phases']]
  duts = [SimDut(build(c)) for c in cfgs]
  P = Pair(cfgs, duts, Recorded(rec['vals']), phases, stalls=rec['stalls'], memlat=rec['memlat'])
  P.reset()
  P.log = []
  for h in P.hs: h.log = []
  got = []
  for _ in range(rec['depth']):
    P.cycle()
    got = sorted({f for f, x in P.all_bads().items() for _, l in x if l == 1})
    if got: break
    if any(a == 0 for a in P.assumes()):
      P.log.append('-- the environment no longer behaves --'); break
  return got, P.log
