"""The functional-level model (blocking_cache/BlockingCacheFL.py), executed path
by path on symbolic requests, against a flat byte memory and a list of live
lines in order of use."""
import time, traceback

from .solve import Stats

AMO = {3: 'add', 4: 'and', 5: 'or', 6: 'swap', 7: 'min', 8: 'minu', 9: 'max', 10: 'maxu', 11: 'xor'}
MOD = 'blocking_cache.BlockingCacheFL'


class Rec:
  """A message."""
  def __init__(s, kind, f): s.kind, s.f = kind, f

def rec_type(kind, fields, data, zero):
  class T:
    data_nbits = data
    @staticmethod
    def get_field_type(n): return type('F', (), dict(nbits=dict(fields)[n]))
    def __new__(cls, *a, **kw):
      names = [n for n, _ in fields]
      d = dict(zip(names, a))
      if len(a) > len(names): raise TypeError('too many fields')
      d.update(kw)
      out = {}
      for n, w in fields:
        v = d.pop(n, 0)
        out[n] = zero(w, v)
      if d: raise TypeError(f'unexpected {list(d)}')
      return Rec(kind, out)
  return T

def fields(obw, abw, dbw):
  lw = (dbw // 8 - 1).bit_length()
  req = [('type_', 4), ('opaque', obw), ('addr', abw), ('len', lw), ('data', dbw)]
  resp = [('type_', 4), ('opaque', obw), ('test', 2), ('len', lw), ('data', dbw)]
  return req, resp, lw


class Oracle:
  """Word-for-word reference: bytes and line order, over an arithmetic `A`."""
  def __init__(s, A, size, ways, line):
    s.A, s.ways, s.lb = A, ways, line // 8
    s.sets = size // s.lb // ways
    s.ob = s.lb.bit_length() - 1
    s.order = []              # (line number), most recently used first
    s.writes = []             # (addr, nbytes, data), newest last
  def byte(s, a):
    A = s.A
    v = A.k(8, 0)
    for wa, n, d in s.writes:
      for i in range(n): v = A.ite(A.eq(a, A.add(wa, i)), A.slice(d, 8 * i, 8), v)
    return v
  def load(s, a, n): return s.A.cat([s.byte(s.A.add(a, i)) for i in range(n)])
  def store(s, a, n, d): s.writes.append((a, n, d))
  def same_set(s, x, y): return s.A.eq(s.A.mod2(x, s.sets), s.A.mod2(y, s.sets))
  def touch(s, a):
    """Hit, and the line becomes the most recent of its set."""
    A = s.A
    x = A.shr(a, s.ob)
    for i, y in enumerate(s.order):
      if A.test(A.eq(x, y)):
        s.order.insert(0, s.order.pop(i))
        return 1
    s.order.insert(0, x)
    n = 0
    for i, y in enumerate(s.order):
      if A.test(s.same_set(x, y)):
        n += 1
        if n > s.ways:
          del s.order[i]
          break
    return 0
  def drop(s, a):
    x = s.A.shr(a, s.ob)
    for i, y in enumerate(s.order):
      if s.A.test(s.A.eq(x, y)):
        del s.order[i]
        break


class ZA:
  """z3 arithmetic."""
  def __init__(s, z3, run): s.z, s.run = z3, run
  def k(s, n, v): return s.z.BitVecVal(v, n)
  def ite(s, c, a, b): return s.z.simplify(s.z.If(c, a, b))
  def eq(s, a, b): return a == b
  def add(s, a, i): return a + i
  def slice(s, d, lo, n): return s.z.Extract(lo + n - 1, lo, d)
  def cat(s, bs): return s.z.Concat(*reversed(bs)) if len(bs) > 1 else bs[0]
  def shr(s, a, k): return s.z.LShR(a, k)
  def mod2(s, a, n): return a & (n - 1)
  def test(s, c): return s.run.decide(c)
  def zext(s, a, n): return a if a.size() == n else s.z.ZeroExt(n - a.size(), a)
  def amo(s, f, m, a):
    z = s.z
    return {3: lambda: m + a, 4: lambda: m & a, 5: lambda: m | a, 6: lambda: a, 7: lambda: z.If(m < a, m, a),
            8: lambda: z.If(z.ULT(m, a), m, a), 9: lambda: z.If(m > a, m, a), 10: lambda: z.If(z.UGT(m, a), m, a),
            11: lambda: m ^ a}[f]()

class IA:
  """Plain integers."""
  def __init__(s, abw): s.am = (1 << abw) - 1
  def k(s, n, v): return v
  def ite(s, c, a, b): return a if c else b
  def eq(s, a, b): return a == b
  def add(s, a, i): return (a + i) & s.am
  def slice(s, d, lo, n): return (d >> lo) & ((1 << n) - 1)
  def cat(s, bs): return sum(b << (8 * i) for i, b in enumerate(bs))
  def shr(s, a, k): return a >> k
  def mod2(s, a, n): return a & (n - 1)
  def test(s, c): return c
  def zext(s, a, n): return a
  def amo(s, f, m, a):
    M = 0xffffffff
    sg = lambda x: x - (1 << 32) if x >> 31 else x
    return {3: lambda: (m + a) & M, 4: lambda: m & a, 5: lambda: m | a, 6: lambda: a, 7: lambda: min(m, a, key=sg),
            8: lambda: min(m, a), 9: lambda: max(m, a, key=sg), 10: lambda: max(m, a), 11: lambda: m ^ a}[f]()


def expected(A, cfg, ops, reqs, lens, init):
  """Expected (request, response) field values for each operation."""
  o = Oracle(A, cfg['size'], cfg['ways'], cfg['clw'])
  for a, d in init: o.store(a, 4, d)
  out = []
  B = cfg['dbw'] // 8
  for op, (opq, addr, data), ln in zip(ops, reqs, lens):
    n = ln or B
    lnc = ln
    if op == 'rd':
      hit = o.touch(addr)
      out.append((dict(type_=0, opaque=opq, addr=addr, len=lnc, data=0),
                  dict(type_=0, opaque=opq, test=hit, len=lnc, data=A.zext(o.load(addr, n), cfg['dbw']))))
    elif op == 'wr':
      hit = o.touch(addr)
      o.store(addr, n, data)
      out.append((dict(type_=1, opaque=opq, addr=addr, len=lnc, data=data), dict(type_=1, opaque=opq, test=hit, len=lnc, data=0)))
    elif op == 'in':
      o.touch(addr)
      o.store(addr, n, data)
      out.append((dict(type_=2, opaque=opq, addr=addr, len=lnc, data=data), dict(type_=2, opaque=opq, test=0, len=lnc, data=0)))
    elif op in ('inv', 'fl'):
      t = 14 if op == 'inv' else 15
      if op == 'inv': o.order = []
      out.append((dict(type_=t, opaque=opq, addr=0, len=0, data=0), dict(type_=t, opaque=opq, test=0, len=0, data=0)))
    else:
      o.drop(addr)
      m = o.load(addr, 4)
      w = A.slice(data, 0, 32)
      o.store(addr, 4, A.amo(op, m, w))
      out.append((dict(type_=op, opaque=opq, addr=addr, len=lnc, data=A.zext(w, cfg['dbw'])),
                  dict(type_=op, opaque=opq, test=0, len=lnc, data=A.zext(m, cfg['dbw']))))
  return out


def apply_op(m, op, opq, addr, data, ln):
  if op == 'rd': m.read(addr, opq, ln)
  elif op == 'wr': m.write(addr, data, opq, ln)
  elif op == 'in': m.init(addr, data, opq, ln)
  elif op == 'inv': m.invalidate(opq)
  elif op == 'fl': m.flush(opq)
  else: m.amo(addr, data, opq, ln, op)


def lens_of(op, dbw):
  B = dbw // 8
  if op in ('rd', 'wr'): return [0] + [1 << i for i in range(B.bit_length() - 1)]
  if op == 'in': return [0]
  if op in ('inv', 'fl'): return [0]
  return [0 if dbw == 32 else 4]


def fl_model(name, cfg, seqs, budget=60, ninit=1, lens=None, split=False, **kw):
  """cfg: size ways clw dbw; seqs: operation sequences."""
  from . import symex
  z3 = symex.z3
  t0 = time.time()
  S = Stats()
  res = dict(name=name, cfg=str(cfg), verdict='held', depth=0, covers={}, blocks=[], start='empty', funcs=[], nodes=0)
  dbw, clw = cfg['dbw'], cfg['clw']
  req_f, resp_f, lw = fields(8, 32, dbw)
  paths = 0
  mod = symex.load(MOD)
  res['funcs'] = sorted(f'{c}.{f}' for c, o in vars(mod).items() if isinstance(o, type) and o.__module__ == mod.__name__ for f in vars(o)
                        if callable(getattr(o, f)))
  Z = lambda w, v: symex.SBits(w, v)
  CR, CS = rec_type('req', req_f, dbw, Z), rec_type('resp', resp_f, dbw, Z)
  MR = rec_type('mreq', fields(8, 32, clw)[0], clw, Z)
  MS = rec_type('mresp', fields(8, 32, clw)[1], clw, Z)
  ok = lambda c: c if z3.is_bool(c) else z3.BoolVal(bool(c))
  for q in seqs:
    def body(run):
      A = ZA(z3, run)
      reqs, lns, args = [], [], []
      for i, op in enumerate(q):
        a, d, o = z3.BitVec(f'addr{i}', 32), z3.BitVec(f'data{i}', dbw), z3.BitVec(f'opq{i}', 8)
        ls = [x for x in lens_of(op, dbw) if lens is None or x in lens or op not in ('rd', 'wr')]
        k = 0
        while k < len(ls) - 1 and not run.decide(z3.BitVec(f'len{i}', lw) == ls[k]): k += 1
        ln = ls[k]
        run.assume(z3.BitVec(f'len{i}', lw) == ln)
        n = ln or dbw // 8
        if op not in ('inv', 'fl'):
          run.assume(a & (n - 1) == 0)
          if split: run.value(z3.Extract((clw // 8).bit_length() - 2, 0, a))
        reqs.append((o, a, d)); lns.append(ln)
        args.append((op, symex.SBits(8, o), symex.SBits(32, a), symex.SBits(dbw, d), symex.SBits(lw, ln)))
      init = []
      mem = []
      for i in range(ninit):
        a, d = z3.BitVec(f'maddr{i}', 32), z3.BitVec(f'mdata{i}', 32)
        run.assume(a & 3 == 0)
        init.append((a, d)); mem += [symex.SBits(32, a), symex.SBits(32, d)]
      fail = None
      try:
        m = mod.ModelCache(cfg['size'], cfg['ways'], 0, CR, CS, MR, MS, mem)
        for op, o, a, d, ln in args: apply_op(m, op, o, a, d, ln)
        got = m.get_transactions()
      except Exception as e:
        fail = f"{type(e).__name__}: {e}"
      if fail:
        return fail, z3.BoolVal(True)
      exp = expected(A, cfg, q, reqs, lns, init)
      if len(got) != 2 * len(exp): return 'number of transactions', z3.BoolVal(True)
      bad = []
      for j, (er, es) in enumerate(exp):
        for kind, e, g in (('req', er, got[2 * j]), ('resp', es, got[2 * j + 1])):
          if g.kind != kind: return 'order of transactions', z3.BoolVal(True)
          for f, x in e.items():
            bad.append(ok(g.f[f].e != x))
      return 'mismatch', z3.simplify(z3.Or(*bad))
    ex = symex.Explorer()
    try:
      for run, (what, bad) in ex.explore(body, limit=t0 + budget):
        if z3.is_false(bad): r = z3.unsat
        else: r = run.check(bad)
        if r == z3.unknown: raise TimeoutError('solver')
        if r == z3.unsat: continue
        model = run.solver.model()
        val = lambda n, w: model.eval(z3.BitVec(n, w), model_completion=True).as_long()
        rec = dict(kind='fl', cfg=cfg, ops=list(q), reqs=[(val(f'opq{i}', 8), val(f'addr{i}', 32), val(f'data{i}', dbw), val(f'len{i}', lw))
                                                          for i in range(len(q))],
                   init=[(val(f'maddr{i}', 32), val(f'mdata{i}', 32)) for i in range(ninit)])
        bads, trace = replay_fl(rec)
        if bads:
          res.update(verdict='violation', cex=dict(what=bads, record=rec, trace=trace))
        else:
          res.update(verdict='inconclusive', unconfirmed=f"counterexample does not reproduce on the real code: {what} {rec}")
        break
    except TimeoutError as e:
      res['verdict'] = 'inconclusive'
      res['message'] = str(e)
    except symex.OutOfReach as e:
      res['verdict'] = 'inconclusive'
      res['message'] = f'not modelled: {e}'
    S.queries += ex.queries; S.time += ex.time
    paths += ex.paths
    if res['verdict'] != 'held': break
    res['depth'] = max(res['depth'], len(q))
  S.unsat = S.queries
  S.solvers = {'z3': S.queries}
  res['stats'] = S.as_dict()
  res['covers'] = {'functional-level paths': paths > 0}
  res['bound'] = f"{len(seqs)} operation sequences of up to {max(map(len, seqs))} requests, {paths} paths"
  res['wall'] = round(time.time() - t0, 1)
  res['facets'] = ['fl_model']
  return res


def replay_fl(rec):
  """Run the real model on concrete requests."""
  import importlib
  from pymtl3 import Bits
  from mem_ifcs.MemMsg import mk_mem_msg
  m = importlib.import_module(MOD)
  cfg = rec['cfg']
  dbw, clw = cfg['dbw'], cfg['clw']
  lw = fields(8, 32, dbw)[2]
  CR, CS = mk_mem_msg(8, 32, dbw, has_wr_mask=False)
  MR, MS = mk_mem_msg(8, 32, clw)
  mem = []
  for a, d in rec['init']: mem += [a, d]
  trace = []
  bads = []
  exp = expected(IA(32), cfg, rec['ops'], [(o, a, d) for o, a, d, l in rec['reqs']], [l for *_, l in rec['reqs']],
                 [tuple(x) for x in rec['init']])
  for a, d in rec['init']: trace.append(f"memory {a:#x}: {d:#x}")
  try:
    c = m.ModelCache(cfg['size'], cfg['ways'], 0, CR, CS, MR, MS, mem)
    for op, (o, a, d, l) in zip(rec['ops'], rec['reqs']):
      trace.append(f"{AMO.get(op, op)} opaque={o:#x} addr={a:#x} len={l} data={d:#x}")
      apply_op(c, op, Bits(8, o), Bits(32, a), Bits(dbw, d), Bits(lw, l))
  except Exception as e:
    trace.append(f"raises {type(e).__name__}: {e}")
    return [f'raises {type(e).__name__}'], trace
  got = c.get_transactions()
  if len(got) != 2 * len(exp): return ['number of transactions'], trace
  for j, (er, es) in enumerate(exp):
    for k, (e, g) in enumerate(((er, got[2 * j]), (es, got[2 * j + 1]))):
      for f, x in e.items():
        if int(getattr(g, f)) != x:
          bads.append(f"{'response' if k else 'request'} {f}")
          trace.append(f"{'response' if k else 'request'} {j} {f}: expected {x:#x}, got {int(getattr(g, f)):#x}")
  return sorted(set(bads)), trace


def proxy_check(name, n, seed, **kw):
  """Symbolic bit vectors and integers against the real ones."""
  from . import symex
  t0 = time.time()
  k, diff = symex.self_check(n, seed)
  r = dict(name=name, cfg='', verdict='error' if diff else 'held', depth=0, covers={}, blocks=[], start='', funcs=[], nodes=0,
           stats=Stats().as_dict(), compared=k, wall=round(time.time() - t0, 1), facets=[])
  if diff: r['message'] = 'symbolic values differ from real ones: ' + diff
  return r
