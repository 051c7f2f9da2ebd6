"""Units of work: bounded model checking of the cache, run in worker processes.

A job returns a dict:
  name      what was asked
  verdict   held | violation | inconclusive | error
  bound     human-readable bound reached
  depth     cycles reached
  stats     solver statistics
  blocks    update blocks encoded;  funcs: functions encoded
  covers    {witness: reached}
  cex       for violation: what fails, and the replay record
"""
import time, traceback

from .cache import Cfg, Harness, Free, Recorded, build
from . import cachestart
from .dut import SymDut, SimDut
from .solve import Solver, Stats


def _shape(name, st, g, v, cfg):
  """Restrictions of the start state tried when a counterexample from an
  arbitrary start state cannot be reproduced."""
  L = list(st.lines.values())
  if name == 'any': return 1
  if name == 'all valid': return g.ANDN([x['val'] for x in L])
  if name == 'all live': return g.ANDN([g.OR(x['val'], v.nz(x['dm'])) for x in L])
  if name == 'distinct':
    out = []
    for k in range(cfg.sets):
      for a in range(cfg.assoc):
        for b in range(a):
          out.append(v.eq(st.lines[k, a]['tag'], st.lines[k, b]['tag']) ^ 1)
    return g.ANDN(out)
  raise KeyError(name)


def cache_bmc(name, cfg, facets, depths, start='any', watch=None, ext=False, stalls=True, memlat=True, serial=False,
              first=None, types_=None, cifer=True, covers=(), budget=60, calm=None, memq=2, timing=False, single=None,
              fallback=True, strict=False, script=None, sram=None, preload=False, **kw):
  cfg = Cfg(**cfg)
  opts = dict(watch=watch, ext=ext, stalls=stalls, memlat=memlat, serial=serial, types_=types_, cifer=cifer, memq=memq,
              calm=calm, timing=timing, single=single, strict=strict, script=script, sram=sram, preload=preload)
  t0 = time.time()
  d = SymDut(build(cfg))
  src = Free(d.g)
  g = d.g
  h = Harness(cfg, d, src, **opts)
  st = None
  if start == 'powerup': d.arbitrary_state(src)
  h.reset_phase()
  if start == 'any':
    try: st = cachestart.havoc(h)
    except LookupError as e:
      # the arrays are organised differently: explore from reset instead
      kw2 = dict(opts, cfg=cfg.__dict__, facets=facets, depths=depths, start='reset', first=first, covers=covers, budget=budget)
      r = cache_bmc(name + ' (from reset)', **kw2)
      r['note'] = f'arrays not found: {e}'
      return r
  else: h.spec_reset()
  S = Solver(g, Stats(), timeout=budget)
  res = dict(name=name, cfg=str(cfg), verdict='held', depth=0, covers={}, stats=None,
             blocks=[b[0] for b in d.m.blocks], funcs=sorted(getattr(f, '__qualname__', str(f)) for f in d.m.interp.funcs),
             start=start, nodes=0)
  base = []
  if start == 'any':
    base.append(src_first(src, h))
  if calm is not None: h.last_t = depths[-1] - 1
  done = 0
  for di, depth in enumerate(depths):
    left = budget - (time.time() - t0)
    if di and left < 5: break
    while h.t < depth:
      h.cycle()
      if h.t == 1 and first is not None:
        base.append(g.ORN([d.v.eqc(src.vars['type_@0'], x) for x in first]))
    ass = h.assumes + d.consist + base
    target = [(f, t, l) for f, x in h.bads.items() if f in facets for t, l in x if done <= t < depth]
    shapes = ['any']
    tries = 0
    while True:
      shape = shapes[tries]
      extra = [_shape(shape, st, g, d.v, cfg)] if st is not None else []
      r = S.check(ass + extra + [g.ORN([l for _, _, l in target])], timeout=(max(left, 5) if di or not fallback else 600))
      if r != 'sat': break
      model = S.model
      ev = g.eval([l for _, _, l in target], model)
      hit = sorted((t, f) for (f, t, _), x in zip(target, ev) if x)
      vals = src.values(model)
      # the earliest failing cycle is what has to be reproduced
      rec = dict(kind='cache', cfg=cfg.__dict__, opts=_js(opts), start=start, upto=hit[0][0], vals=vals,
                 init_cycles=h.init_cycles if start == 'powerup' else None,
                 init=cachestart.concrete(st, vals, cfg) if st is not None else None,
                 powerup=d.state_values(src, vals) if start == 'powerup' else None,
                 facets=sorted(facets), expect=hit[0][1])
      got, detail = replay_cache(rec)
      if any(f in facets for f in got):
        res['verdict'] = 'violation'
        res['depth'] = hit[0][0] + 1
        res['cex'] = dict(what=sorted(f for f in got if f in facets), record=rec, trace=detail)
        break
      if st is None:
        res['verdict'] = 'error'
        res['cex'] = dict(what=[hit[0][1]], record=rec, trace=detail)
        res['message'] = f"counterexample does not reproduce on the real code ({hit[0]})"
        break
      if tries == 0: shapes += ['distinct', 'all live', 'all valid']
      tries += 1
      res.setdefault('unconfirmed', []).append([shape, hit[0][1], detail[-1] if detail else ''])
      if tries >= len(shapes):
        res['verdict'] = 'inconclusive'
        # not reachable as such, perhaps: look for the same from reset, after two requests of any kind
        seq = [x for _, x in sorted((t, g.eval(list(ty), model)) for t, en, ty in h.sent if g.eval([en], model)[0])]
        seq = [(sum(b << i for i, b in enumerate(x)),) for x in seq][:3]
        if seq and fallback:
          kw2 = dict(opts, script=[(0, 1) + tuple(range(3, 12))] * 2 + seq, single=None)
          r2 = cache_bmc(name + ' (from reset)', cfg=cfg.__dict__, facets=facets, start='reset', covers=(), budget=150, fallback=False,
                         depths=(24, 24 + hit[0][0] + 4), **kw2)
          res['stats2'] = r2['stats']
          if r2['verdict'] == 'violation': res.update(verdict='violation', depth=r2['depth'], cex=r2['cex'])
        break
    if res['verdict'] != 'held': break
    if r == 'unknown':
      if di == 0: res['verdict'] = 'inconclusive'
      break
    if tries: res['shape'] = shapes[tries]
    done = depth
    res['depth'] = depth
  if res['verdict'] in ('held', 'inconclusive'):
    for c in covers:
      r = S.check(h.assumes + d.consist + base + [g.ORN(h.covers.get(c, [0]))], timeout=60)
      res['covers'][c] = (r == 'sat')
  res['nodes'] = len(g.f0)
  res['stats'] = S.stats.as_dict()
  res['wall'] = round(time.time() - t0, 1)
  res['facets'] = sorted(f for f in facets if f in h.bads)
  return res


def src_first(src, h):
  # the first request is offered in the first cycle (waiting changes nothing
  # in an idle cache)
  b = src('want@0', 1)
  h.pre = {'want@0': b}
  return b[0]


def _js(o):
  return {k: (sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in o.items()}


def replay_cache(rec, verbose=None):
  """Run a recorded environment on the real simulation under the same
  monitors.  Returns (facets that fired, trace lines)."""
  cfg = Cfg(**rec['cfg'])
  sd = SimDut(build(cfg))
  opts = dict(rec['opts'])
  script = opts.pop('script', None)
  vals = dict(rec['vals'])
  trace = []
  init = rec.get('init')
  m0 = vals.get('mem0', 0)
  if init is not None and opts.get('ext') and opts.get('watch') is not None:
    vals['mem0'] = rec['vals'].get('mem0', 0)
    v0 = held_value(cfg, init, vals, opts['watch'])
    if v0 is not None: vals['mem0'] = v0
  h = Harness(cfg, sd, Recorded(vals), **opts)
  if rec.get('powerup'): sd.load_state(rec['powerup'])
  h.reset_phase(init_cycles=rec.get('init_cycles'))
  h.spec_reset()
  h.log = trace
  h.calm = h.single = None # reaching the start state takes as many requests as it takes
  try:
    if init is not None:
      cachestart.drive_to(h, init, ext_m=m0 if opts.get('ext') else None)
      trace.append('-- start state reached --')
    h.t = 0
    h.script = script
    h.calm, h.single = opts.get('calm'), opts.get('single')
    h.last_t = rec['upto']
    for t in range(rec['upto'] + 1):
      h.cycle()
      if any(a == 0 for a in h.assumes):
        trace.append('-- the environment no longer behaves --')
        break
      if fired(h): break
  except cachestart.Stuck:
    trace.append('-- stuck --')
  return fired(h), trace


def fired(h):
  return sorted({f for f, x in h.bads.items() for _, l in x if l == 1})


def held_value(cfg, init, vals, watch):
  bo = watch[0] if watch[0] is not None else vals.get('watch_byte', 0)
  k = watch[1] if watch[1] is not None else vals.get('watch_bit', 0)
  for key, L in init['lines'].items():
    s, w = map(int, key.split(','))
    if s == vals.get('watch_set', 0) and L['tag'] == vals['watch_tag'] and (L['val'] or L['dm']):
      if L['val'] or (L['dm'] >> (bo // 4)) & 1: return (L['row'] >> (bo * 8 + k)) & 1
  return None


def run_job(job):
  fn, kw = job
  try:
    return JOBS[fn](**kw)
  except Exception as e:
    return dict(name=kw.get('name', fn), verdict='error', message=f"{type(e).__name__}: {e}",
                traceback=traceback.format_exc(), depth=0, covers={}, stats=Stats().as_dict(), blocks=[], funcs=[])


def cosim_job(name, cfg, cycles=80, seed=1, **kw):
  from .cosim import cosim, cache_bias
  t0 = time.time()
  c = Cfg(**cfg)
  n = cosim(lambda: build(c), cycles=cycles, seed=seed, bias=cache_bias)
  return dict(name=name, cfg=str(c), verdict='held', depth=cycles, covers={}, stats=Stats().as_dict(), blocks=[], funcs=[],
              compared=n, wall=round(time.time() - t0, 1))


from .flmodel import fl_model, proxy_check

from .units import unit_bmc
from .multi import multi_bmc
from .svjobs import sv_equiv, sv_memory

JOBS = dict(sv_equiv=sv_equiv, sv_memory=sv_memory, multi_bmc=multi_bmc, unit_bmc=unit_bmc, cache_bmc=cache_bmc, cosim=cosim_job, fl_model=fl_model, proxy_check=proxy_check)
