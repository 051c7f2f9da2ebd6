"""CNF generation and SAT solving (kissat, cadical, z3, minisat by subprocess)."""
import ctypes, os, shutil, signal, subprocess, tempfile, time

CAND = {
  'cadical': ['/app/toolchains/lean-4.33.0-linux/bin/cadical'],
  'kissat': ['/usr/local/bin/kissat'],
  'minisat': ['/usr/bin/minisat'],
  'z3': ['/usr/local/bin/z3-new', '/usr/bin/z3'],
}

def find_solver(name):
  p = shutil.which(name)
  if p: return p
  for c in CAND.get(name, []):
    if os.path.exists(c): return c
  return None


class Stats:
  def __init__(s):
    s.queries, s.time, s.vars, s.clauses = 0, 0.0, 0, 0
    s.sat, s.unsat, s.unknown, s.trivial = 0, 0, 0, 0
    s.solvers = {}

  def as_dict(s):
    return dict(queries=s.queries, solver_seconds=round(s.time, 3), sat=s.sat, unsat=s.unsat,
                unknown=s.unknown, trivial=s.trivial, max_vars=s.vars, max_clauses=s.clauses,
                solvers=s.solvers)

  def merge(s, d):
    s.queries += d['queries']; s.time += d['solver_seconds']
    s.sat += d['sat']; s.unsat += d['unsat']; s.unknown += d['unknown']; s.trivial += d['trivial']
    s.vars = max(s.vars, d['max_vars']); s.clauses = max(s.clauses, d['max_clauses'])
    for k, v in d['solvers'].items(): s.solvers[k] = s.solvers.get(k, 0) + v


def to_cnf(g, lits):
  """Tseitin encoding of the cone of `lits`, all asserted true.
  Detects XOR/MUX pairs.  Returns (nvars, clauses as list of lists, node->var)."""
  order, inputs = g.cone(lits)
  f0, f1 = g.f0, g.f1
  # fan-out counts for mux detection
  fo = {}
  for n in order:
    for l in (f0[n], f1[n]): fo[l >> 1] = fo.get(l >> 1, 0) + 1
  for l in lits: fo[l >> 1] = fo.get(l >> 1, 0) + 2
  isand = set(order)
  skip = set()
  mux = {}
  for n in reversed(order):
    if n in skip: continue
    a, b = f0[n], f1[n]
    if (a & 1) and (b & 1):
      na, nb = a >> 1, b >> 1
      if na in isand and nb in isand:
        a0, a1, b0, b1 = f0[na], f1[na], f0[nb], f1[nb]
        m = None
        for (c, t) in ((a0, a1), (a1, a0)):
          for (d, e) in ((b0, b1), (b1, b0)):
            if c ^ 1 == d: m = (c, t, e); break
          if m: break
        # n = !(c&t) & !(!c&e)  =  c ? !t : !e
        if m:
          mux[n] = m
          if fo[na] == 1: skip.add(na)
          if fo[nb] == 1: skip.add(nb)
  var = {}
  nv = 0
  for n in inputs:
    nv += 1; var[n] = nv
  for n in order:
    if n in skip: continue
    nv += 1; var[n] = nv
  cl = []
  # constant node
  needs_const = any(l <= 1 for l in lits)
  def L(l):
    v = var[l >> 1]
    return -v if l & 1 else v
  for n in order:
    if n in skip: continue
    o = var[n]
    if n in mux:
      c, t, e = mux[n]
      c, t, e = L(c), -L(t), -L(e)
      cl.append((-c, -t, o)); cl.append((-c, t, -o))
      cl.append((c, -e, o)); cl.append((c, e, -o))
      if t != -e:
        cl.append((-t, -e, o)); cl.append((t, e, -o))
    else:
      a, b = L(f0[n]), L(f1[n])
      cl.append((-o, a)); cl.append((-o, b)); cl.append((o, -a, -b))
  for l in lits:
    if l == 1: continue
    if l == 0: cl.append(()); continue
    cl.append((L(l),))
  return nv, cl, var


def write_dimacs(path, nv, cl):
  with open(path, 'w') as f:
    f.write(f"p cnf {nv} {len(cl)}\n")
    f.write("".join(" ".join(map(str, c)) + " 0\n" for c in cl))


class Solver:
  """One-shot queries: is the conjunction of the literals satisfiable?"""
  def __init__(s, g, stats=None, timeout=300, prefer=('cadical', 'kissat', 'minisat', 'z3')):
    s.g = g
    s.stats = stats or Stats()
    s.timeout = timeout
    s.prefer = [p for p in prefer if find_solver(p)]
    if not s.prefer: raise RuntimeError("no SAT solver found")
    s.model = None

  def check(s, lits, timeout=None):
    """'sat' (model in s.model: input node -> 0/1), 'unsat' or 'unknown'."""
    lits = [l for l in lits if l != 1]
    s.stats.queries += 1
    s.model = None
    if any(l == 0 for l in lits):
      s.stats.trivial += 1; s.stats.unsat += 1
      return 'unsat'
    if not lits:
      s.stats.trivial += 1; s.stats.sat += 1
      s.model = {}
      return 'sat'
    nv, cl, var = to_cnf(s.g, lits)
    s.stats.vars = max(s.stats.vars, nv)
    s.stats.clauses = max(s.stats.clauses, len(cl))
    t0 = time.time()
    fd, path = tempfile.mkstemp(suffix='.cnf', prefix='vf_')
    os.close(fd)
    try:
      write_dimacs(path, nv, cl)
      res, model, name = run_solvers(path, s.prefer, timeout or s.timeout)
    finally:
      try: os.unlink(path)
      except OSError: pass
    s.stats.time += time.time() - t0
    s.stats.solvers[name] = s.stats.solvers.get(name, 0) + 1
    if res == 'sat':
      s.stats.sat += 1
      s.model = {n: (1 if v in model else 0) for n, v in var.items() if s.g.f0[n] < 0}
      # the model must satisfy the query on the graph itself
      vals = s.g.eval(lits, s.model)
      if not all(vals): raise RuntimeError("solver model does not satisfy the query")
    elif res == 'unsat': s.stats.unsat += 1
    else: s.stats.unknown += 1
    return res


def _die_with_parent():
  ctypes.CDLL('libc.so.6').prctl(1, signal.SIGKILL)


def run_one(path, name, timeout):
  exe = find_solver(name)
  if name == 'cadical': cmd = [exe, '-q', '-t', str(int(timeout)), path]
  elif name == 'kissat': cmd = [exe, '-q', f'--time={int(timeout)}', path]
  elif name == 'z3': cmd = [exe, f'-T:{int(timeout)}', '-dimacs', path]
  else:
    out = path + '.out'
    try:
      r = subprocess.run([exe, '-verb=0', f'-cpu-lim={int(timeout)}', path, out], capture_output=True, text=True, preexec_fn=_die_with_parent,
                         timeout=timeout + 30)
      txt = open(out).read() if os.path.exists(out) else ''
    except subprocess.TimeoutExpired:
      return 'unknown', None
    finally:
      if os.path.exists(out): os.unlink(out)
    if r.returncode == 20 or txt.startswith('UNSAT'): return 'unsat', None
    if r.returncode == 10 or txt.startswith('SAT'):
      return 'sat', {int(x) for x in txt.split('\n')[1].split() if int(x) > 0}
    return 'unknown', None
  try:
    r = subprocess.run(cmd, capture_output=True, text=True, preexec_fn=_die_with_parent, timeout=timeout + 30)
  except subprocess.TimeoutExpired:
    return 'unknown', None
  res = 'unknown'
  model = set()
  for line in r.stdout.splitlines():
    if line.startswith('s '):
      if 'UNSATISFIABLE' in line: res = 'unsat'
      elif 'SATISFIABLE' in line: res = 'sat'
    elif line.startswith('v '):
      for x in line[2:].split():
        if int(x) > 0: model.add(int(x))
  return res, model


def run_solvers(path, names, timeout):
  n = names[0]
  res, model = run_one(path, n, timeout)
  return res, model, n
