"""Runs the check of one property: jobs in parallel, evidence, verdict."""
import ctypes, json, multiprocessing as mp, os, shutil, signal, sys, tempfile, time
from multiprocessing.connection import wait

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _child(conn, job):
  # solvers and workers end with the check
  ctypes.CDLL('libc.so.6').prctl(1, signal.SIGKILL)
  os.setpgid(0, 0)
  import warnings
  warnings.simplefilter('ignore')
  from .jobs import run_job
  r = run_job(job)
  conn.send_bytes(json.dumps(r, default=str).encode())
  conn.close()
  sys.stdout.flush()
  os._exit(0)


def run_all(jobs, workers, hard, finished):
  """Run the jobs in processes of their own, at most `workers` at a time;
  stop when `finished` says so or when time is up."""
  ctx = mp.get_context('fork')
  todo = list(range(len(jobs)))
  live = {}
  stop = False
  try:
    while (todo or live) and not stop:
      while todo and len(live) < workers:
        i = todo.pop(0)
        rx, tx = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_child, args=(tx, jobs[i]))
        p.start()
        tx.close()
        live[rx] = (i, p)
      if time.time() > hard: break
      for rx in wait(list(live), timeout=max(0.1, min(5, hard - time.time()))):
        i, p = live.pop(rx)
        try: r = json.loads(rx.recv_bytes())
        except EOFError:
          r = dict(name=jobs[i][1].get('name'), verdict='error', message='worker died', depth=0, covers={}, stats=None)
        rx.close()
        p.join()
        if finished(i, r): stop = True
  finally:
    for i, p in live.values():
      try: os.killpg(p.pid, signal.SIGKILL)
      except (ProcessLookupError, PermissionError): p.kill()
      p.join()


def known_findings(pid):
  p = os.path.join(VERIF, 'known_findings.jsonl')
  out = []
  if os.path.exists(p):
    for line in open(p):
      line = line.strip()
      if line:
        d = json.loads(line)
        if d.get('property') == pid and d.get('status') == 'open': out.append(d)
  return out


EXPLAIN = {
  '': "Bounded model checking of the code in the repository: every update block and helper function is executed "
      "symbolically from its source on this run, unrolled over clock cycles with all inputs (and, where stated, "
      "the start state) as solver variables; a SAT solver decides whether any assignment violates the property "
      "within the bound.  A counterexample is replayed on the real simulation before it is reported.",
  'C15': "Path-wise symbolic execution of the functional-level model's own Python methods: addresses, data, sizes and the "
         "initial memory are solver variables, z3 decides every branch and all feasible paths are followed; on each path z3 "
         "decides whether any value violates the comparison with a flat memory and with lists of lines in order of use.  A "
         "counterexample is replayed on the unmodified model before it is reported.",
  'C20': "Equivalence of two transition relations: the repository's script is run and the SystemVerilog it writes is parsed, "
         "elaborated and executed symbolically; the PyMTL model is encoded as for the other properties.  Both share inputs and "
         "registers as solver variables; the solver decides whether any output or next register bit can differ in a cycle in which "
         "the model does not raise.  Equal transition functions from equal registers make the machines equal for ever.  A "
         "counterexample is run on the real model and, where verilator is present, on the emitted text before it is reported.",
}
OUTSIDE = ("other cache sizes, associativities and widths than listed; executions longer than the stated cycles that do not pass "
           "through an idle state satisfying the start invariant; several requests of different kinds beyond the stated first "
           "request or request sequence; illegal requests; WRITE_INIT elsewhere than stated in C21; the Verilog text (see C20)")


TRUST = {
  '': ["vf/interp.py (symbolic execution of the update blocks, compared with the real simulation on every run)",
       "SAT solver (models are re-checked on the graph and replayed; unsat answers are trusted)", "pymtl3's elaboration and net resolution"],
  'C15': ["vf/symex.py (symbolic integers and bit vectors, compared with the real ones on every run)", "z3"],
  'C20': ["vf/interp.py (symbolic execution of the update blocks)", "vf/svparse.py, vf/sv.py (the reading of the emitted SystemVerilog subset)",
          "SAT solver (models are run on the model and on the emitted text; unsat answers are trusted)",
          "memory cells that the wrapper only names are bit-masked single-port memories"],
}
OUTSIDES = {
  'C20': "other configurations and memory shapes than listed; cycles in which the model raises; values of a memory's output when it was not read; "
         "the physical memory cells; start-up values of registers; synthesis of the text",
}


def bound_text(jobs):
  """The bounds in words: one item per query."""
  return [f"{n}: {k.get('depths', [k.get('depth', '')])[-1]} cycles, {k.get('cfg', k.get('params', ''))}" for n, k in
          ((k['name'], k) for w, k in jobs if w in ('cache_bmc', 'unit_bmc'))] + [f"{k['name']}: one cycle from any state" for w, k in jobs if w in ('sv_equiv', 'sv_memory')] + [
          f"{k['name']}: {k['depth']} cycles, {k['cfgs']}" for w, k in jobs if w == 'multi_bmc'] + [
          f"{k['name']}: {len(k['seqs'])} request sequences, every path" for w, k in jobs if w == 'fl_model']


def main(pid, tier, seed, workers=8):
  from .props import PROPS
  t0 = time.time()
  P = PROPS[pid]
  jobs = P.jobs(tier, seed)
  # longest first
  jobs = sorted(jobs, key=lambda j: -j[1].get('budget', 10))
  results = [None] * len(jobs)
  violation = None
  hard = t0 + (820 if tier == 'quick' else 6 * 3600)
  def finished(i, r):
    nonlocal violation
    results[i] = r
    if os.environ.get('VERIF_VERBOSE'):
      print(f"  [{time.time() - t0:6.1f}s] {r['name']}: {r['verdict']} depth {r.get('depth')} "
            f"{(r.get('stats') or {}).get('solver_seconds')}s {r.get('wall')}s {r.get('message', '')} {r.get('unconfirmed', '')}",
            flush=True)
    if r['verdict'] == 'violation' and violation is None: violation = r
    return violation is not None
  # workers that are stopped leave their files here
  tempfile.tempdir = os.environ['TMPDIR'] = tempfile.mkdtemp(prefix='vf_run_')
  try: run_all(jobs, workers, hard, finished)
  finally: shutil.rmtree(tempfile.tempdir, ignore_errors=True)
  return report(pid, P, tier, seed, jobs, results, violation, t0)


def report(pid, P, tier, seed, jobs, results, violation, t0):
  from .solve import Stats
  done = [r for r in results if r is not None]
  st = Stats()
  for r in done: st.merge(r['stats']) if r.get('stats') else None
  blocks, funcs = set(), set()
  for r in done:
    blocks.update(f"{b}" for b in r.get('blocks', []))
    funcs.update(r.get('funcs', []))
  covers = {}
  for r in done:
    for k, x in (r.get('covers') or {}).items(): covers[k] = covers.get(k, False) or x
  errors = [r for r in done if r['verdict'] == 'error']
  inconc = [r for r in done if r['verdict'] == 'inconclusive']
  missing = [j[1]['name'] for j, r in zip(jobs, results) if r is None]
  held = [r for r in done if r['verdict'] == 'held']
  vac = [k for k in P.witnesses if not covers.get(k)] if not violation else []
  cov = dict(
    explanation=EXPLAIN.get(pid, EXPLAIN['']),
    functions_encoded=sorted(funcs | blocks), blocks_encoded=len(blocks), blocks=sorted(blocks)[:400],
    bounds=P.bounds or bound_text(jobs), outside_the_bounds=P.outside or OUTSIDES.get(pid, OUTSIDE),
    queries=[dict(name=r['name'], configuration=r.get('cfg'), start=r.get('start'), verdict=r['verdict'], cycles=r.get('depth'),
                  facets=r.get('facets'), solver=r.get('stats'), graph_nodes=r.get('nodes'), wall_s=r.get('wall'),
                  unconfirmed=r.get('unconfirmed'), compared=r.get('compared'), bits_compared=r.get('compared_bits'), bound=r.get('bound')) for r in done],
    obligations=len(jobs), discharged=len(held),
    queries_discharged=st.queries, solver_seconds=round(st.time, 2), solver_verdicts=st.as_dict(),
    vacuity_witnesses=covers, witnesses_missing=vac,
    encoding_vs_simulation_outputs_compared=sum(r.get('compared', 0) for r in done),
    not_finished=missing, inconclusive=[r['name'] for r in inconc], errors=[r.get('message') for r in errors],
    checker_cmd=' '.join(['check.py', pid, tier]),
    trusted_base=TRUST.get(pid, TRUST['']),
  )
  ev = dict(property=pid, tier=tier, seed=seed, level=P.level, coverage=cov, assumptions=P.assumptions,
            wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  rc = 0
  if violation:
    rp = os.path.join(VERIF, 'evidence', f'replay-{pid}.json')
    with open(rp, 'w') as f: json.dump(dict(property=pid, job=violation['name'], **violation['cex']), f, indent=1, default=str)
    ev['coverage']['violation'] = dict(job=violation['name'], what=violation['cex']['what'],
                                       trace=violation['cex']['trace'][-40:])
    print(f"{pid}: {', '.join(map(str, violation['cex']['what']))} in: {violation['name']}")
    for line in violation['cex']['trace'][-25:]: print('   ', line)
    print(f"VIOLATION property={pid} replay={rp}")
    rc = 1
  elif errors or missing or not held:
    for r in errors:
      print(f"ERROR in {r['name']}: {r.get('message')}")
      if r.get('traceback'): print(r['traceback'])
    for m in missing: print(f"ERROR: {m} did not finish")
    if not held and not errors: print("ERROR: no query was discharged")
    rc = 2
  elif vac and not inconc:
    print(f"ERROR: vacuous: never reached: {vac}")
    rc = 2
  with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
  if rc == 0:
    print(f"{pid}: held on everything explored: {len(held)}/{len(jobs)} jobs, {st.queries} queries, "
          f"{st.time:.0f} s of solver time, {time.time() - t0:.0f} s")
    for r in inconc: print(f"  inconclusive: {r['name']} {r.get('unconfirmed') or ''}")
  return rc
