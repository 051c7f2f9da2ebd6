"""The translation script's output against the PyMTL model: one clock cycle
from an arbitrary state."""
import os, re, shutil, subprocess, sys, tempfile, time

from pymtl3.dsl import Signal

from .cache import Cfg, build
from .model import Model
from .dut import SimDut
from .solve import Solver, Stats
from .sv import Sv, Resolved, SvUnsupported, SvLoop, Var

REPO = os.environ.get('VERIF_REPO', '/repo')
WRAPPER = os.path.join(REPO, 'sram', 'brg_gf14_sram_generic_synopsys.v')


def norm(sig):
  return repr(sig)[2:].replace('.', '__').replace('[', '__').replace(']', '')


class ScriptBroken(Exception):
  """The script fails by itself, for a configuration the model supports."""


# the script's own part alone: the backend is switched off
PROBE = """
import sys
sys.path.insert(0, sys.argv[1])
import blocking_cache.translate as t
from pymtl3.passes.backends.verilog import VerilogTranslationPass
VerilogTranslationPass.__call__ = lambda s, top: None
sys.argv = ['translate.py'] + sys.argv[2:]
opts = t.parse_cmdline()
try: ok = t.main(opts) is not None
except Exception: ok = False
sys.exit(0 if ok else 3)
"""


def translate(cfg, replace, d):
  """Run the repository's script as a user would; the text and its top module."""
  args = ['--size', cfg.nbytes, '--clw', cfg.clw, '--dbw', cfg.dbw, '--abw', cfg.abw, '--obw', cfg.obw, '--asso', cfg.assoc]
  args = [str(a) for a in args]
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', HOME=d)
  def run(cmd, w):
    os.makedirs(w)
    return subprocess.run([sys.executable, '-W', 'ignore'] + cmd, cwd=w, env=env, capture_output=True, text=True, timeout=300, stdin=subprocess.DEVNULL)
  def script(extra, w):
    r = run([os.path.join(REPO, 'blocking_cache', 'translate.py')] + args + extra, w)
    fs = [f for f in os.listdir(w) if f.endswith(('.v', '.sv'))]
    return r, fs[0] if not r.returncode and len(fs) == 1 else None
  w = os.path.join(d, 'out')
  r, f = script(['--replace-sram'] if replace else [], w)
  if f is None:
    why = (r.stderr.strip().split('\n') or [''])[-1] or r.stdout.strip().split('\n')[-1]
    if run(['-c', PROBE, REPO] + args, os.path.join(d, 'probe')).returncode == 3:
      raise ScriptBroken(f"translate.py {' '.join(args)} fails before the design is translated ({why}); the same configuration can be simulated")
    if replace and script([], os.path.join(d, 'plain'))[1]:
      raise ScriptBroken(f"translate.py {' '.join(args)} works, with --replace-sram it fails ({why})")
    raise SvUnsupported("translation failed: " + why)
  with open(os.path.join(w, f)) as fh: text = fh.read()
  return text, os.path.splitext(f)[0]


class Pairing:
  """Both machines over one graph."""
  def __init__(s, cfg, replace, d):
    s.cfg, s.replace = cfg, replace
    s.text, s.topname = translate(cfg, replace, d)
    s.params, s.build = {}, lambda: build(cfg)
    s.merged = []
    s.m = m = Model(build(cfg))
    m.check_all()
    s.sv = sv = Sv(s.text, s.topname)
    s.pin = {norm(p): p for p in m.input_ports()}
    s.pout = {norm(p): p for p in m.output_ports()}
    s.reg = {}
    for sig, i in m.nxt_of: s.reg[norm(sig)] = sig
    s.svin = {n: x for d_, n, x in sv.top.ports if d_ == 'input'}
    s.svout = {n: x for d_, n, x in sv.top.ports if d_ == 'output'}
    if set(s.svin) != set(s.pin) or set(s.svout) != set(s.pout):
      raise SvUnsupported(f"ports differ: {sorted(set(s.svin) ^ set(s.pin) | set(s.svout) ^ set(s.pout))}")
    s.wrong = []
    for a, b in ((s.svin, s.pin), (s.svout, s.pout)):
      for n, x in a.items():
        w = m.interp.ref(b[n]).n
        if x.width != w or x.dims: s.wrong.append(f"port {n} has {x.width} bits, {w} in the model")
    # memories replaced by the wrapper: compared at their ports here, and by
    # themselves in mem_pairs
    s.mem = {}                 # path -> (component of the model, scope, parameters)
    comps = {norm(c): c for c in m.top.get_all_object_filter(lambda o: type(o).__name__ == 'SramGenericPRTL')}
    if replace:
      for path, mod, par, sc in sv.insts:
        if mod != 'SramGenericPRTL': continue
        if path not in comps: raise SvUnsupported(f"memory {path} is not in the model")
        s.mem[path] = (comps[path], sc, par)
    for path, c in comps.items() if replace else ():
      # where the wrapper names a cell of this shape, that is what is asked for
      if path not in s.mem and named_cell(mem_shape(m, c)): s.wrong.append(f"memory {path} of {mem_shape(m, c)[1]} words is not replaced by the wrapper")
    inmem = lambda n: any(n.startswith(p + '__') for p in s.mem)
    s.key = {}                 # (var name, elem) -> pymtl register
    used = {}
    for x, e, i in sv.nxt:
      if inmem(x.name) or (x.name, e) in s.key: continue
      n = x.name + (f'__{e}' if x.dims else '')
      sig = s.reg.get(n)
      if sig is None: raise SvUnsupported(f"register {n} is not in the model")
      if m.interp.ref(sig).n != x.width: s.wrong.append(f"register {n} has {x.width} bits, {m.interp.ref(sig).n} in the model")
      s.key[x.name, e] = sig
      used[n] = (x, e)
    miss = sorted(n for n in set(s.reg) - set(used) if not inmem(n))
    s.used = used
    if miss: raise SvUnsupported(f"registers only in the model: {miss[:4]}")
    # signals of the same name, where the two can be joined
    s.same = {}
    names = {}
    for o in m.top.get_all_object_filter(lambda o: isinstance(o, Signal) and o.is_top_level_signal()): names[norm(o)] = o
    for x in sv.vars.values():
      if inmem(x.name): continue
      for e in range(x.n):
        o = names.get(x.name + (f'__{e}' if x.dims else ''))
        if o is not None and m.interp.ref(o).n == x.width: s.same[x, e] = o

  def resolve(s, solver, ok, budget):
    """Pairs of bits to compare.  Signals of the same name are proven equal in
    order of depth and then shared, which keeps each question small."""
    m = s.m
    byname = {x.name: s.pin[n] for n, x in s.svin.items()}
    nxt = s.sv.nxt
    outs = {}
    for path, (c, sc, par) in s.mem.items():
      o = [x for d_, n, x in sc.ports if n == 'O1'][0]
      outs[o.name] = m.sig_bits(c.O1)
    merged = {}
    refused = set()
    def leaf(x, e, i):
      l = merged.get((x, e, i))
      if l is not None: return l
      p = byname.get(x.name)
      if p is not None: return m._input(p, i)
      if x.name in outs: return outs[x.name][i]
      if (x, e, i) in nxt: return m._state(s.key[x.name, e], i)
      return None
    t0 = time.time()
    while True:
      s.r = Resolved(s.sv, m.g, leaf)
      todo = []
      for (x, e), o in s.same.items():
        if (x, e) in refused or (x, e, 0) in nxt: continue
        ks = [i for i in range(x.width) if (x, e, i) in s.sv.drv]
        if not ks: continue
        a = m.sig_bits(o)
        b = s.r.lits([s.sv.place(x, e)[i] for i in ks])
        d = [(i, a[i], q) for i, q in zip(ks, b) if a[i] != q]
        if d: todo.append((max(q for _, _, q in d), x.name, x, e, d))
      todo.sort(key=lambda y: y[:2])
      for _, _, x, e, d in todo:
        if time.time() - t0 > budget: todo = []; break
        if solver.check(ok + [m.g.ORN([m.g.XOR(p, q) for _, p, q in d])], timeout=30) == 'unsat':
          for i, p, q in d: merged[x, e, i] = p
          s.merged.append(x.name)
          break
        refused.add((x, e))
      else: break
      if not todo: break
    clk = m._input(s.pin['clk'], 0)
    s.pairs = []               # (what, bit, model literal, sv literal)
    for n, x in s.svout.items():
      a = m.sig_bits(s.pout[n])
      b = s.r.lits(list(s.sv.place(x, 0)))
      for i, (p, q) in enumerate(zip(a, b)): s.pairs.append((('out', n), i, p, q))
    for n, (x, e) in s.used.items():
      sig = s.reg[n]
      keys = [(x, e, i) for i in range(x.width)]
      a = m.lits([m.nxt_of[sig, i] if (sig, i) in m.nxt_of else 0 for i in range(x.width)])
      b = s.r.lits([nxt[k][0] for k in keys])
      if any(c != clk for c in s.r.lits([nxt[k][1] for k in keys])): s.wrong.append(f"register {n} has another clock")
      for i, (p, q) in enumerate(zip(a, b)): s.pairs.append((('reg', x, e), i, p, q))
    for path, (c, sc, par) in s.mem.items():
      for d_, n, x in sc.ports:
        if d_ != 'input' or n == 'CE1': continue
        a = m.sig_bits(getattr(c, n))
        if len(a) != x.width: s.wrong.append(f"port {path}.{n} has {x.width} bits, {len(a)} in the model")
        b = s.r.lits(list(s.sv.place(x, 0)))
        for i, (p, q) in enumerate(zip(a, b)): s.pairs.append((('in', x, getattr(c, n)), i, p, q))


def mem_shape(m, c):
  """(bits, words) of a memory of the model."""
  bits = m.interp.ref(c.I1).n
  ram = getattr(c, 'ram', None)
  return bits, len(ram) if isinstance(ram, list) else 1 << m.interp.ref(c.A1).n


def named_cell(shape, memo={}):
  """Whether the wrapper has a memory cell of its own for this shape."""
  if shape not in memo:
    with open(WRAPPER) as f: text = f.read()
    sv = Sv(text, 'SramGenericPRTL', dict(num_bits=shape[0], num_words=shape[1]))
    memo[shape] = any(re.fullmatch(r'sram_\d+x\d+', mod) for _, mod, _, _ in sv.insts)
  return memo[shape]


class MemPairing:
  """One memory: the wrapper with the given parameters against the model's."""
  def __init__(s, text, par, shape):
    from sram.SramGenericPRTL import SramGenericPRTL
    s.sv = sv = Sv(text, 'SramGenericPRTL', par)
    s.m = m = Model(SramGenericPRTL(*shape))
    m.check_all()
    s.wrong = []
    s.text, s.topname, s.params, s.build = text, 'SramGenericPRTL', par, lambda: SramGenericPRTL(*shape)
    ports = {norm(p): p for p in m.input_ports() + m.output_ports()}
    rams = {x.name: x for x, e, i in sv.nxt if x.dims}
    outs = {x.name: x for x, e, i in sv.nxt if not x.dims}
    if len(rams) != 1 or len(outs) != 1: raise SvUnsupported("registers of the memory wrapper")
    ram, out = list(rams.values())[0], list(outs.values())[0]
    inp = {}
    for d_, n, x in sv.top.ports:
      p = ports.get(n)
      if p is None: raise SvUnsupported(f"memory port {n}")
      if m.interp.ref(p).n != x.width: s.wrong.append(f"memory port {n} has {x.width} bits, {m.interp.ref(p).n} in the model")
      if d_ == 'input': inp[x.name] = p
    regs = {norm(sig): sig for sig, i in m.nxt_of}
    if ram.n != shape[1] or ram.width != shape[0]:
      s.wrong.append(f"memory of {ram.n} words of {ram.width} bits, {shape[1]} of {shape[0]} in the model")
    s.pairs = []
    s.pout = {n: ports[n] for d_, n, x in sv.top.ports if d_ == 'output'}
    s.pin = {n: ports[n] for d_, n, x in sv.top.ports if d_ == 'input'}
    if s.wrong: return
    def sig(x, e): return regs[f'ram__{e}'] if x is ram else regs['dout']
    def leaf(x, e, i):
      p = inp.get(x.name)
      if p is not None: return m._input(p, i)
      if (x, e, i) in sv.nxt: return m._state(sig(x, e), i)
      return None
    r = Resolved(sv, m.g, leaf)
    s.key = {(x.name, e): sig(x, e) for x, e, i in sv.nxt}
    clk = m._input(ports['clk'], 0)
    read = m.g.AND(m.sig_bits(ports['CSB1'])[0] ^ 1, m.sig_bits(ports['WEB1'])[0])
    for d_, n, x in sv.top.ports:
      if d_ == 'output':
        for i, (p, q) in enumerate(zip(m.sig_bits(ports[n]), r.lits(list(sv.place(x, 0))))): s.pairs.append((('out', n), i, p, q))
    for (x, e, i), (l, ck) in sv.nxt.items():
      p = m.lits([m.nxt_of[sig(x, e), i]])[0]
      q, c2 = r.lits([l, ck])
      if c2 != clk: s.wrong.append("memory has another clock")
      # without a read the output is not relied upon (see C18)
      if x is out: p, q = m.g.AND(read, p), m.g.AND(read, q)
      s.pairs.append((('reg', x, e), i, p, q))


def sv_equiv(name, cfg, replace=False, budget=120, **kw):
  t0 = time.time()
  cfg = Cfg(**cfg)
  res = dict(name=name, cfg=str(cfg), verdict='held', depth=1, covers={}, stats=Stats().as_dict(), blocks=[], funcs=[], start='any', nodes=0)
  d = tempfile.mkdtemp(prefix='vf_sv_')
  st = Stats()
  try:
    try:
      P = Pairing(cfg, replace, d)
      res['blocks'] = [b[0] for b in P.m.blocks]
      res['funcs'] = sorted(f"emitted module {x}" for x in P.sv.funcs) + ['blocking_cache/translate.py']
      S = Solver(P.m.g, st, timeout=budget)
      ok = [l ^ 1 for l, _ in P.m.err_lits()]
      if not P.wrong: P.resolve(S, ok, budget)
      todo = [(P, ok)]
      seen = set()
      for path, (c, sc, par) in P.mem.items():
        k = (mem_shape(P.m, c), tuple(sorted(par.items())))
        if k in seen or P.wrong: continue
        seen.add(k)
        M = MemPairing(P.text, par, k[0])
        todo.append((M, [l ^ 1 for l, _ in M.m.err_lits()]))
    except ScriptBroken as e:
      res.update(verdict='violation', cex=dict(what=['machines_differ'], record=dict(kind='script'), trace=[str(e)]))
      return res
    except (SvUnsupported, SvLoop, subprocess.TimeoutExpired) as e:
      res.update(verdict='inconclusive', message=f"{type(e).__name__}: {e}", unconfirmed=str(e))
      return res
    res['compared_bits'] = sum(len(Q.pairs) for Q, _ in todo if hasattr(Q, 'pairs'))
    for Q, ok in todo:
      r = decide(Q, ok, st, budget, d)
      res['nodes'] += len(Q.m.g.f0)
      if r != 'held':
        res.update(r if isinstance(r, dict) else dict(verdict=r))
        break
    if res['verdict'] == 'held':
      # the compared cycle exists: some state and input on which the model does not raise and accepts a request
      m = P.m
      en, rdy = m.sig_bits(m.find('mem_minion_ifc.req.en'))[0], m.sig_bits(m.find('mem_minion_ifc.req.rdy'))[0]
      res['covers']['accepted'] = S.check(todo[0][1] + [en, rdy]) == 'sat'
    return res
  finally:
    shutil.rmtree(d, ignore_errors=True)
    res['stats'] = st.as_dict()
    res['wall'] = round(time.time() - t0, 1)


def decide(Q, ok, st, budget, d):
  if Q.wrong:
    return dict(verdict='violation', cex=dict(what=['machines_differ'], record=dict(kind='sv', wrong=Q.wrong), trace=Q.wrong))
  g = Q.m.g
  S = Solver(g, st, timeout=budget)
  diff = [(w, i, p, q) for w, i, p, q in Q.pairs if p != q]
  # in portions: each question stays small
  for k in range(0, len(diff), 256):
    part = diff[k:k + 256]
    r = S.check(ok + [g.ORN([g.XOR(p, q) for _, _, p, q in part])])
    if r == 'sat': return report(Q, S, part, d)
    if r == 'unknown': return 'inconclusive'
  return 'held'


def report(Q, S, diff, d):
  """A counterexample: run one cycle of the real model and of the emitted text."""
  g, m, model = Q.m.g, Q.m, dict(S.model)
  val = lambda sig: None
  inp = {n: sum(model.get(m.in_lit[p, i] >> 1, 0) << i for i in range(m.interp.ref(p).n) if (p, i) in m.in_lit) for n, p in Q.pin.items()}
  reg = {}
  for (vn, e), sig in Q.key.items():
    reg[vn, e] = sum(model.get(m.st_lit[sig, i] >> 1, 0) << i for i in range(m.interp.ref(sig).n) if (sig, i) in m.st_lit)
  mem = getattr(Q, 'mem', {})
  ev = g.eval([x for _, _, p, q in diff for x in (p, q)], model)
  refs = {}
  for k, (w, i, p, q) in enumerate(diff):
    if ev[2 * k] != ev[2 * k + 1]: refs.setdefault(w, []).append((i, ev[2 * k], ev[2 * k + 1]))
  # the model itself
  sd = SimDut(Q.build())
  st = {repr(sig): v for (vn, e), v in reg.items() for sig in [Q.key[vn, e]]}
  for (sig, i), l in m.st_lit.items():
    if repr(sig) not in st: st[repr(sig)] = sum(model.get(m.st_lit[sig, j] >> 1, 0) << j for j in range(m.interp.ref(sig).n) if (sig, j) in m.st_lit)
  sd.load_state(st)
  for n, p in Q.pin.items(): sd.set(repr(p)[2:], tuple((inp[n] >> i) & 1 for i in range(m.interp.ref(p).n)))
  got = {}
  for w in refs:
    if w[0] == 'out': got[w] = sd.get(repr(Q.pout[w[1]])[2:])
    elif w[0] == 'in': got[w] = sd.get(repr(w[2])[2:])
  if sd.raised(): return dict(verdict='error', message="the model raises where the encoding does not")
  sd.tick()
  for w in refs:
    if w[0] == 'reg': got[w] = sd.get(repr(Q.key[w[1].name, w[2]])[2:])
  for w, xs in refs.items():
    for i, a, b in xs:
      if got[w][i] != a: return dict(verdict='error', message=f"encoding and simulation disagree on {w} bit {i}")
  name = lambda w: w[1] if w[0] == 'out' else w[1].hier + (f'[{w[2]}]' if w[0] == 'reg' and w[1].dims else '')
  trace = [f"{Q.topname} {Q.params or ''}: one clock cycle from a state in which"]
  trace += [f"  {k} = {v:#x}" for k, v in inp.items() if v and k != 'clk']
  trace += [f"  {vn}{f'[{e}]' if Q.sv.vars[vn].dims else ''} = {v:#x}" for (vn, e), v in sorted(reg.items()) if v][:60]
  vl, why = verilate(Q, inp, reg, st, refs, d)
  confirmed = None
  for w, xs in refs.items():
    a = sum(b << i for i, b in enumerate(got[w]))
    b = a
    for i, p, q in xs: b ^= 1 << i
    line = f"{'after the cycle ' if w[0] == 'reg' else ''}{name(w)}: model {a:#x}, emitted text {b:#x} (by the encoding)"
    if vl and w in vl:
      line += f", {vl[w]:#x} (by simulation)"
      mask = sum(1 << i for i, _, _ in xs)
      if (vl[w] ^ a) & mask: confirmed = True
      elif confirmed is None: confirmed = False
    trace.append(line)
  if not vl: trace.append(f"(the emitted text was not simulated: {why})")
  rec = dict(kind='sv', top=Q.topname, params=Q.params, inputs=inp, state=st, differ=[name(w) for w in refs])
  if confirmed is False:
    return dict(verdict='inconclusive', unconfirmed=trace[-5:], message="simulation of the emitted text does not show the difference")
  return dict(verdict='violation', cex=dict(what=['machines_differ'], record=rec, trace=trace))


def verilate(Q, inp, reg, st, refs, d):
  """One cycle of the emitted text in a simulator, from the given state."""
  exe = shutil.which('verilator')
  if not exe: return None, 'no simulator'
  w = os.path.join(d, 'vl')
  os.makedirs(w)
  V = Q.sv.vars
  L = ["module tb(input logic clk, input logic show);"]
  con = ['.clk(clk)']
  for n, v in inp.items():
    if n == 'clk': continue
    b = V[n].width
    L.append(f"  logic [{b - 1}:0] in_{n};")
    con.append(f".{n}(in_{n})")
  for n, p in Q.pout.items():
    L.append(f"  logic [{V[n].width - 1}:0] out_{n};")
    con.append(f".{n}(out_{n})")
  par = ' #(' + ', '.join(f'.{k}({v})' for k, v in Q.params.items()) + ')' if Q.params else ''
  L.append(f"  {Q.topname}{par} dut({', '.join(con)});")
  L.append("  initial begin")
  for n, v in inp.items():
    if n != 'clk': L.append(f"    in_{n} = {V[n].width}'h{v:x};")
  regs = dict(((V[vn], e), v) for (vn, e), v in reg.items())
  # memories inside the wrapper
  for path, (c, sc, _) in getattr(Q, 'mem', {}).items():
    for x, e, i in Q.sv.nxt:
      if i == 0 and x.name.startswith(path + '__'):
        k = repr(c) + (f'.ram[{e}]' if x.dims else '.dout')
        regs[x, e] = st.get(k, 0)
  # what lies in an instance below a generate block is set and shown by
  # statements added to that module (hierarchical names do not reach it)
  def owner(x):
    ps = [y for y in Q.sv.insts if y[0] and x.name.startswith(y[0] + '__')]
    y = max(ps, key=lambda y: len(y[0])) if ps else None
    if y is None or 'genblk' not in y[0] or sum(z[1] == y[1] for z in Q.sv.insts) > 1: return None
    return y[1]
  inside = owner
  own = {}
  local = lambda x, e: x.hier.split('.')[-1] + (f'[{e}]' if x.dims else '')
  for (x, e), v in regs.items():
    if owner(x): own.setdefault(owner(x), []).append(f"  initial {local(x, e)} = {x.width}'h{v:x};")
  for j, r in enumerate(refs):
    if r[0] == 'reg' and owner(r[1]): own[owner(r[1])].append(f'  final $display("R {j} %h", {local(r[1], r[2])});')
  text = Q.text
  for mod, ls in own.items():
    text = re.sub(r'(\bmodule\s+' + mod + r'\b.*?)(\bendmodule\b)', lambda k: k[1] + '\n'.join(ls) + '\n' + k[2], text, count=1, flags=re.S)
  for (x, e), v in regs.items():
    if not inside(x): L.append(f"    dut.{x.hier}{f'[{e}]' if x.dims else ''} = {x.width}'h{v:x};")
  L.append("  end")
  for k, ph in enumerate(('pre', 'post')):
    L.append(f"  always @({'posedge' if k == 0 else 'negedge'} show) begin")
    for j, r in enumerate(refs):
      if (r[0] == 'reg') != (k == 1) or r[0] == 'reg' and inside(r[1]): continue
      o = f"out_{r[1]}" if r[0] == 'out' else f"dut.{r[1].hier}{f'[{r[2]}]' if r[0] == 'reg' and r[1].dims else ''}"
      L.append(f'    $display("R {j} %h", {o});')
    L.append("  end")
  L.append("endmodule")
  # cells that are only named
  for mod, (words, bits) in {y[1]: (y[2]['words'], y[2]['bits']) for y in Q.sv.insts if y[1] not in Q.sv.p.modules}.items():
    ab = max(1, (words - 1).bit_length())
    L.append(f"""module sram_{words}x{bits}(input CLK, CEN, RDWEN, input [{ab - 1}:0] A, input [{bits - 1}:0] D, BW, input T_LOGIC, T_Q_RST, MA_SAWL, MA_WL, MA_VD1, MA_VD0, MA_WRT, output logic [{bits - 1}:0] Q, output logic [1:0] OBSV_CTL);
  logic [{bits - 1}:0] ram [0:{words - 1}];
  always_ff @(posedge CLK) if (!CEN) begin
    if (RDWEN) Q <= ram[A];
    else ram[A] <= (ram[A] & ~BW) | (D & BW);
  end""")
    L += own.get(mod, [])
    L.append("endmodule")
  with open(os.path.join(w, 'tb.sv'), 'w') as f: f.write(text + '\n' + '\n'.join(L) + '\n')
  with open(os.path.join(w, 'main.cpp'), 'w') as f:
    f.write('#include "Vtb.h"\nint main(){Vtb t; t.clk=0; t.show=0; t.eval(); t.show=1; t.eval(); t.clk=1; t.eval(); t.show=0; t.eval(); t.final(); return 0;}\n')
  try:
    r = subprocess.run([exe, '--cc', '--exe', '--build', '-j', '4', '-Wno-fatal', '-Wno-lint', '-Wno-style', '-O1', '--unroll-count', '4096', '--unroll-stmts', '1000000', '--x-assign', '0', '--top-module', 'tb', 'tb.sv', 'main.cpp'],
                       cwd=w, capture_output=True, text=True, timeout=400)
    if r.returncode: return None, 'verilator: ' + ' | '.join(x for x in r.stderr.split('\n') if '%Error' in x)[:300]
    r = subprocess.run([os.path.join(w, 'obj_dir', 'Vtb')], cwd=w, capture_output=True, text=True, timeout=60)
  except subprocess.TimeoutExpired: return None, 'timeout'
  rs = list(refs)
  out = {}
  for line in r.stdout.split('\n'):
    x = line.split()
    if len(x) == 3 and x[0] == 'R': out[rs[int(x[1])]] = int(x[2], 16)
  return (out, None) if out else (None, 'no output')


def sv_memory(name, params, budget=120, **kw):
  """The shipped memory wrapper by itself."""
  t0 = time.time()
  st = Stats()
  res = dict(name=name, cfg=str(params), verdict='held', depth=1, covers={}, stats=st.as_dict(), blocks=[], funcs=[], start='any', nodes=0)
  d = tempfile.mkdtemp(prefix='vf_sv_')
  try:
    try:
      with open(WRAPPER) as f: text = f.read()
      M = MemPairing(text, params, (params['num_bits'], params['num_words']))
    except (SvUnsupported, SvLoop, OSError) as e:
      res.update(verdict='inconclusive', message=f"{type(e).__name__}: {e}", unconfirmed=str(e))
      return res
    res['funcs'] = sorted(f"wrapper module {x}" for x in M.sv.funcs)
    res['blocks'] = [b[0] for b in M.m.blocks]
    res['compared_bits'] = len(M.pairs)
    r = decide(M, [l ^ 1 for l, _ in M.m.err_lits()], st, budget, d)
    res['nodes'] = len(M.m.g.f0)
    if r != 'held': res.update(r if isinstance(r, dict) else dict(verdict=r))
    return res
  finally:
    shutil.rmtree(d, ignore_errors=True)
    res['stats'] = st.as_dict()
    res['wall'] = round(time.time() - t0, 1)
