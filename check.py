#!/usr/bin/env python
"""Decides one property of /repo by checking its contracts.

usage: check.py PROPERTY [--tier quick|thorough] [--only REGEX] [--update-baseline] [-v]
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
for k, v in dict(PYTHONHASHSEED='0', JAX_PLATFORMS='cpu', NO_GCE_CHECK='true', OMP_NUM_THREADS='1',
                 OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', TZ='UTC').items():
  os.environ.setdefault(k, v)
if REPO not in sys.path:
  sys.path.insert(0, REPO)
sys.path.insert(1, HERE)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
  sys.path.append(VT)


def executed_functions(con, case, seed_text):
  """Functions of /repo executed by one concrete sample of the contract."""
  from vc import contract as C
  from vc import patch
  seen = set()

  def prof(frame, event, arg):
    if event == 'call':
      f = frame.f_code
      if patch.is_repo_file(f.co_filename):
        seen.add(os.path.relpath(f.co_filename, REPO) + ':' + f.co_qualname)
  for k in range(5):
    s = C.Sample(seed_text + f'/prof{k}')
    sys.setprofile(prof)
    try:
      r = C.concrete_sample(con, case, s)
    except Exception:  # pylint: disable=broad-except
      r = None
    finally:
      sys.setprofile(None)
    if r is not None:
      break
  return sorted(seen)


def run_task(prop, ci, ki, tier, seed, conn):
  t0 = time.time()
  out = dict(ci=ci, ki=ki, violations=[], records=[], samples=0, evals=0, conf=0, conf_bad=None,
             functions=[], error=None, excluded=0, examples=[], solver={})
  try:
    from vc import contract as C
    from vc import prover
    con = CONTRACTS[ci]
    case = con.cases[ki]
    base = f'{seed}/{prop}/{con.cid}/{ki}'
    out['cid'] = con.cid
    out['case'] = {k: str(v) for k, v in case.items()}

    def record_failure(kind, failures, b, label=None):
      out['violations'].append(dict(kind=kind, contract=con.cid, case=out['case'], failures=failures[:6],
                                    input=C.describe_sample(b)))

    nsamp = con.samples * (1 if tier == 'quick' else 12)
    tmax = (20 if tier == 'quick' else 150) if con.mode == 'both' else (60 if tier == 'quick' else 300)
    tries = 0
    k = 0
    while k < nsamp and time.time() - t0 < tmax and tries < nsamp * 20:
      scale = 1 if k < con.samples else 2
      s = C.Sample(f'{base}/{tries}', k=k, scale=scale)
      tries += 1
      r = C.concrete_sample(con, case, s)
      if r is None:
        out['excluded'] += 1
        continue
      k += 1
      ok, failures, b, n = r
      out['evals'] += n
      if k <= 1:
        out['examples'].append(C.describe_sample(b))
      if not ok:
        record_failure('concrete', failures, b)
        break
    out['samples'] = k
    out['t_concrete'] = time.time() - t0
    if out['violations'] and not CONFIG.get('always_prove'):
      conn.send(out)
      return
    out['functions'] = executed_functions(con, case, base)
    if con.mode == 'both' and not CONFIG.get('found'):
      replayed = [0]

      def on_model(sb, model, label):
        if replayed[0] > 12 or out['violations']:
          return
        replayed[0] += 1
        fixed = C._fixed_from_model(sb, model)
        if fixed is None:
          return
        for t in range(3):
          s = C.Sample(f'{base}/model/{label}/{t}', fixed=fixed)
          s.transpose = False
          try:
            r = C.concrete_sample(con, case, s)
          except Exception:  # pylint: disable=broad-except
            continue
          if r is not None and not r[0]:
            record_failure('countermodel', r[1], r[2])
            return
      budget = 150 if tier == 'quick' else 500
      t1 = time.time()
      records, outs = C.symbolic(con, case, time.time() + budget, on_model)
      out['records'] = records
      out['t_symbolic'] = time.time() - t1
      if outs:
        for q in range(3 if tier == 'quick' else 8):
          s = C.Sample(f'{base}/conf/{q}')
          n, bad = C.conformance(con, case, outs, s)
          out['conf'] += n
          if bad:
            out['conf_bad'] = bad
            break
      # an obligation that is not discharged: search harder for a failing input
      bad = [r for r in records if r['status'] != 'proved']
      if bad and not out['violations']:
        t2 = time.time()
        q = 0
        while q < nsamp * 6 and time.time() - t2 < (25 if tier == 'quick' else 120):
          s = C.Sample(f'{base}/hunt/{q}', scale=1 + q % 2)
          q += 1
          r = C.concrete_sample(con, case, s)
          if r is None:
            continue
          out['samples'] += 1
          out['evals'] += r[3]
          if not r[0]:
            record_failure('concrete', r[1], r[2])
            break
    out['solver'] = dict(prover.STATS)
  except BaseException:  # pylint: disable=broad-except
    out['error'] = traceback.format_exc()[-3000:]
  out['wall'] = time.time() - t0
  conn.send(out)


CONTRACTS = []
CONFIG = {}


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--only')
  ap.add_argument('--update-baseline', action='store_true')
  ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
  ap.add_argument('-v', action='store_true')
  ap.add_argument('-t', action='store_true', help='per-contract times')
  a = ap.parse_args()
  seed = int(os.environ.get('VERIF_SEED', '1'))
  prop = a.property
  t0 = time.time()
  ev_path = os.path.join(HERE, 'evidence', prop + '.json')
  os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
  if os.path.exists(ev_path):
    os.unlink(ev_path)
  from vc import contract as C
  import_error = None
  try:
    mod = importlib.import_module('props.' + prop.replace('-', '_'))
  except BaseException:  # pylint: disable=broad-except
    # /repo does not import, or no longer has a name the contracts refer to
    import_error = traceback.format_exc()
    mod = None
  CONTRACTS[:] = C.take_registry()
  known = json.load(open(os.path.join(HERE, 'known_findings.json')))
  known_here = [f for f in known['findings'] if f['property'] == prop]
  bl_path = os.path.join(HERE, 'baseline', prop + '.json')
  baseline = json.load(open(bl_path)) if os.path.exists(bl_path) else {}
  if import_error:
    path = os.path.join(HERE, 'evidence', 'replay', f'{prop}-import.txt')
    open(path, 'w').write(import_error)
    print(import_error, file=sys.stderr)
    evidence(prop, a.tier, seed, mod, [], [], {}, t0, 1, [])
    print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
    return 1
  tasks = [(ci, ki) for ci, c in enumerate(CONTRACTS) for ki in range(len(c.cases))
           if not a.only or re.search(a.only, c.cid)]
  results = {}
  pending = list(tasks)
  running = {}
  ctx = mp.get_context('fork')
  limit = 330 if a.tier == 'quick' else 1500
  hard = 820 if a.tier == 'quick' else 10**9
  while pending or running:
    while pending and len(running) < a.jobs:
      t = pending.pop(0)
      if time.time() - t0 > hard - 60:
        results[t] = dict(ci=t[0], ki=t[1], cid=CONTRACTS[t[0]].cid, error='not started: out of time', violations=[], records=[], timeout=True)
        continue
      pr, pw = ctx.Pipe(False)
      p = ctx.Process(target=run_task, args=(prop, t[0], t[1], a.tier, seed, pw))
      p.start()
      pw.close()
      running[t] = (p, pr, time.time())
    done = []
    for t, (p, pr, ts) in running.items():
      if pr.poll(0.02):
        try:
          results[t] = pr.recv()
        except EOFError:
          results[t] = dict(ci=t[0], ki=t[1], cid=CONTRACTS[t[0]].cid, error='worker died', violations=[], records=[])
        p.join()
        done.append(t)
      elif time.time() - ts > limit or time.time() - t0 > hard or CONFIG.get('found') and time.time() - max(ts, CONFIG['found']) > 60:
        p.kill()
        p.join()
        results[t] = dict(ci=t[0], ki=t[1], cid=CONTRACTS[t[0]].cid, error='time limit', violations=[], records=[], timeout=True)
        done.append(t)
    for t in done:
      running.pop(t)
      con, case = CONTRACTS[t[0]], CONTRACTS[t[0]].cases[t[1]]
      if results[t]['violations'] and not CONFIG.get('found') and not [
          f for f in known_here if re.fullmatch(f['contract'], con.cid) and f.get('case', case) == case]:
        # the verdict is known: what remains is run on concrete inputs only
        CONFIG['found'] = time.time()

  # an obligation that used to be discharged and now fails without a failing
  # input is tried once more with the machine to itself
  def suspicious(r, t):
    con = CONTRACTS[t[0]]
    tag = f'{con.cid}#{t[1]}' if len(con.cases) > 1 else con.cid
    return not r['violations'] and not r.get('conf_bad') and any(
        rec['status'] in ('refuted', 'failed') and baseline.get(f'{tag}/{rec["label"]}') == 'proved' for rec in r['records'])
  again = [t for t in tasks if suspicious(results[t], t)]
  for t in again[:3]:
    if time.time() - t0 > hard * 0.6:
      break
    pr, pw = ctx.Pipe(False)
    p = ctx.Process(target=run_task, args=(prop, t[0], t[1], a.tier, seed, pw))
    p.start()
    pw.close()
    if pr.poll(min(limit, hard - (time.time() - t0))):
      try:
        results[t] = pr.recv()
      except EOFError:
        pass
    else:
      p.kill()
    p.join()

  lines, status = [], 0
  undecided, alarms = [], []
  new_baseline = {}
  for t in tasks:
    r = results[t]
    con = CONTRACTS[t[0]]
    tag = f'{con.cid}#{t[1]}' if len(con.cases) > 1 else con.cid
    kf = [f for f in known_here if re.fullmatch(f['contract'], con.cid) and f.get('case', con.cases[t[1]]) == con.cases[t[1]]]
    if r.get('error'):
      undecided.append(dict(obligation=tag, status='error', detail=r['error'][-1500:]))
      if a.v or a.update_baseline:
        print(f'-- {tag}: ERROR {r["error"]}')
    for n, v in enumerate(r['violations'][:1]):
      path = os.path.join(HERE, 'evidence', 'replay', f'{prop}-{tag}.json'.replace('#', '-').replace('/', '_'))
      v['how_to_replay'] = f'cd /verif && ./run_check {prop} --only "^{re.escape(con.cid)}$" -v  (VERIF_SEED={seed})'
      json.dump(v, open(path, 'w'), indent=1, default=str)
      if kf:
        lines.append(f'KNOWN-FINDING: property={prop} {kf[0]["summary"]}')
        continue
      status = 1
      alarms.append(tag)
      lines.append(f'  contract {tag} ({r.get("case")}): ' + '; '.join(f'{l}: {d}' for l, d in v['failures'][:2])[:700])
      lines.append(f'VIOLATION property={prop} replay={path}')
    conf_bad = r.get('conf_bad')
    for rec in r['records']:
      ob = f'{tag}/{rec["label"]}'
      st = rec['status']
      if conf_bad and st == 'proved':
        st = 'nonconformant'
      rec['final'] = st
      if st == 'proved':
        new_baseline[ob] = 'proved'
        continue
      undecided.append(dict(obligation=ob, status=st, detail=(rec.get('detail') or '')[:400] if st != 'nonconformant' else conf_bad[:400]))
      if a.v or a.update_baseline:
        print(f'-- {ob}: {st} {(rec.get("detail") or "")[:300]} {conf_bad or ""}')
      if r['violations'] or kf:
        continue
      if st in ('refuted', 'failed') and not conf_bad and baseline.get(ob) == 'proved':
        path = os.path.join(HERE, 'evidence', 'replay', f'{prop}-{tag}-obligation.json'.replace('#', '-').replace('/', '_'))
        json.dump(dict(property=prop, contract=con.cid, case=r.get('case'), failed_obligation=ob, verifier_status=st,
                       verifier_output=rec.get('detail'), functions=r.get('functions')), open(path, 'w'), indent=1)
        status = 1
        alarms.append(ob)
        lines.append(f'  obligation {ob} was discharged on the pinned tree and is now {st}')
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
  nob = sum(len(r['records']) for r in results.values())
  ndis = sum(1 for r in results.values() for rec in r['records'] if rec.get('final') == 'proved')
  nsam = sum(r.get('samples', 0) for r in results.values())
  # vacuity guard of the run itself
  if not tasks or (nob == 0 and nsam == 0):
    print('the check generated nothing', file=sys.stderr)
    return 3
  if a.update_baseline:
    os.makedirs(os.path.dirname(bl_path), exist_ok=True)
    if not a.only:
      json.dump(new_baseline, open(bl_path, 'w'), indent=0, sort_keys=True)
  errs = [r for r in results.values() if r.get('error') and not r.get('timeout')]
  evidence(prop, a.tier, seed, mod, tasks, results, undecided, t0, status, alarms)
  seen = set()
  for l in lines:
    if l not in seen:
      print(l)
      seen.add(l)
  ncon = sum(r.get('conf', 0) for r in results.values())
  print(f'{prop}: contracts={len(tasks)} obligations={nob} discharged={ndis} undecided={len(undecided)} '
        f'bounded-samples={nsam} conformance-values={ncon} wall={time.time() - t0:.1f}s')
  if a.t:
    for t in tasks:
      r = results[t]
      print(f'   {CONTRACTS[t[0]].cid}#{t[1]} wall={r.get("wall", 0):.1f} conc={r.get("t_concrete", 0):.1f} sym={r.get("t_symbolic", 0):.1f} samples={r.get("samples")} excl={r.get("excluded")} obl={len(r["records"])} conf={r.get("conf")}')
  if errs and status == 0 and len(errs) == len(tasks):
    return 3
  return status


def evidence(prop, tier, seed, mod, tasks, results, undecided, t0, status, alarms):
  from vc import prover
  res = list(results.values()) if isinstance(results, dict) else []
  recs = [rec for r in res for rec in r['records']]
  how = {}
  for rec in recs:
    if rec.get('final') == 'proved':
      for h in rec['how']:
        for p in str(h).split('+'):
          how[p] = how.get(p, 0) + 1
  funcs = sorted({f for r in res for f in r.get('functions', [])})
  bounded = sorted({CONTRACTS[t[0]].cid for t in tasks if CONTRACTS[t[0]].mode != 'both'})
  proved_level = bool(recs) and getattr(mod, 'LEVEL', 'proof') == 'proof'
  cov = dict(
      obligations=len(recs), discharged=sum(1 for r in recs if r.get('final') == 'proved'),
      verification_conditions=sum(r.get('vcs', 1) for r in recs),
      checker_cmd=f'./run_check {prop} --tier {tier}',
      discharged_by=how,
      solver=dict(queries=sum(r.get('solver', {}).get('queries', 0) for r in res),
                  solver_seconds=round(sum(r.get('solver', {}).get('time', 0) for r in res), 2),
                  cvc5_queries=sum(r.get('solver', {}).get('cvc5', 0) for r in res),
                  back_ends='z3 5.3.2 (python), cvc5 1.4.2 (second opinion)'),
      functions_under_contract=funcs,
      contracts=sorted({CONTRACTS[t[0]].cid for t in tasks}),
      bounded_only_contracts=bounded,
      bounded_notes={CONTRACTS[t[0]].cid: CONTRACTS[t[0]].note for t in tasks if CONTRACTS[t[0]].note},
      evaluations=sum(r.get('evals', 0) for r in res),
      distinct_nontrivial=sum(r.get('samples', 0) for r in res),
      rule='bounded stand-in and replay: seeded random inputs satisfying each contract precondition, run on the real code '
           'with the installed xarray; an evaluation is one postcondition instance checked (excluded inputs are not counted)',
      excluded_inputs=sum(r.get('excluded', 0) for r in res),
      conformance_values=sum(r.get('conf', 0) for r in res),
      undischarged=undecided if isinstance(undecided, list) else [],
      samples=[dict(contract=r.get('cid'), case=r.get('case'), input=_short(r.get('examples', [None])[0])) for r in res if r.get('examples')][:4],
      obligation_list=[dict(contract=r.get('cid'), case=r.get('case'), obligation=rec['label'], status=rec.get('final'), by=rec['how'], seconds=round(rec['time'], 3))
                       for r in res for rec in r['records']][:600],
      trusted_base=TRUSTED + list(getattr(mod, 'TRUSTED', [])),
      exhaustive=False,
      explanation=getattr(mod, '__doc__', '') or '',
  )
  ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof') if recs or mod is None or getattr(mod, 'LEVEL', 'proof') != 'proof' else 'other',
            coverage=cov, assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + GENERAL_ASSUMPTIONS,
            wall_s=round(time.time() - t0, 2), violations=len(alarms))
  with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)


def _short(x):
  s = json.dumps(x, default=str)
  return json.loads(s) if len(s) < 3000 else s[:3000]


TRUSTED = [
    'vc/sxr.py: assumed contracts of the xarray/numpy operations the code calls (tested against the installed libraries on '
    'concrete inputs on every run: conformance_values)',
    'vc/prover.py and vc/terms.py: VC generation and the sum rules (congruence, linearity, relabelling, sign)',
    'z3, cvc5, CPython',
]
GENERAL_ASSUMPTIONS = [
    'floating point is treated as real arithmetic extended with NaN and signed infinities (no rounding, no overflow, no -0.0)',
    'times are whole seconds',
]

if __name__ == '__main__':
  rc = main()
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(rc)
