"""Parent process of a check: runs the shards, merges them, writes evidence.

Exit 0: held; 1: violation (line on stdout); 2: error of the check.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)


def known_findings(prop):
  """Signatures of listed (unrepaired) findings: {finding id: text}."""
  res = {}
  with open(os.path.join(ROOT, 'known-findings.txt')) as f:
    for line in f:
      line = line.strip()
      if line.startswith('known: property=%s ' % prop):
        rest = line[len('known: property=%s ' % prop):]
        key, text = rest.split(' ', 1)
        res[key] = text
  return res


def worker_cmd(args, extra):
  return [sys.executable, os.path.join(HERE, 'worker.py'), args.id] + extra


def wait_all(procs, deadline):
  """Waits for the processes; returns False if the deadline has passed."""
  while any(p.poll() is None for p in procs):
    if time.time() > deadline:
      for p in procs:
        if p.poll() is None:
          p.kill()
      for p in procs:
        p.wait()
      return False
    time.sleep(0.05)
  return True


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('id')
  ap.add_argument('--replay')
  ap.add_argument('--scale', type=float, default=1.0)
  ap.add_argument('--shards', type=int, default=0)
  ap.add_argument('--only', default='')
  args = ap.parse_args()
  if args.replay:
    return subprocess.call(worker_cmd(args, ['replay', args.replay]))
  start = time.time()
  tier = os.environ.get('VERIF_TIER', 'quick')
  try:
    seed = int(os.environ.get('VERIF_SEED', '0'))
  except ValueError:
    import zlib
    seed = zlib.crc32(os.environ['VERIF_SEED'].encode())
  shards = args.shards or (4 if tier == 'quick' else 8)
  known = known_findings(args.id)
  scratch = tempfile.mkdtemp(prefix='t3fcheck-')
  os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
  try:
    procs = []
    for s in range(shards):
      out = os.path.join(scratch, '%d.json' % s)
      log = open(os.path.join(scratch, '%d.log' % s), 'w')
      procs.append(subprocess.Popen(
          worker_cmd(args, ['run', str(s), str(shards), tier, str(seed),
                            str(args.scale), out, args.only]),
          stdout=log, stderr=subprocess.STDOUT))
      log.close()
    in_time = wait_all(procs, start + 780)
    results = []
    for s, p in enumerate(procs):
      out = os.path.join(scratch, '%d.json' % s)
      if p.returncode != 0 or not os.path.exists(out):
        with open(os.path.join(scratch, '%d.log' % s)) as f:
          sys.stderr.write('shard %d: exit %s%s\n%s\n' % (
              s, p.returncode, '' if in_time else ' (time limit)',
              f.read()[-4000:]))
        continue
      with open(out) as f:
        results.append(json.load(f))
    failures = [f for r in results for f in r['failures']]
    errors = [e for r in results for e in r['errors']]
    if len(results) < len(procs) and not failures:
      return 2
    hits = {}
    fresh = []
    for f in failures:
      if f.get('known') in known:
        hits.setdefault(f['known'], f)
      else:
        fresh.append(f)
    replay = None
    if fresh:
      replay = write_replay(args, fresh, seed, tier, scratch)
    write_evidence(args, results, seed, tier, start, len(fresh), hits, known)
    for key, f in sorted(hits.items()):
      print('KNOWN-FINDING: property=%s %s %s' % (args.id, key, known[key]))
    if replay:
      best, path = replay
      print('case: %s' % json.dumps(best['case'], sort_keys=True))
      print('what: %s' % best['message'][:3000])
      print('VIOLATION property=%s replay=%s' % (args.id, path))
      return 1
    if errors:
      sys.stderr.write('harness error: %s\n' % errors[0])
      return 2
    total = sum(r['evaluations'] for r in results)
    print('OK property=%s tier=%s seed=%d cases=%d wall=%.1fs' % (
        args.id, tier, seed, total, time.time() - start))
    return 0
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def write_replay(args, failures, seed, tier, scratch):
  """Writes the smallest failing case that fails again in a fresh process."""
  failures = sorted(failures,
                    key=lambda f: (len(json.dumps(f['case'])),
                                   json.dumps(f['case'], sort_keys=True)))
  # One candidate per operation, smallest first.
  seen, cands = set(), []
  for f in failures:
    if f['op'] not in seen:
      seen.add(f['op'])
      cands.append(f)
  directory = os.path.join(ROOT, 'evidence', 'replay')
  os.makedirs(directory, exist_ok=True)
  path = os.path.join(directory, '%s-%s-%d.json' % (args.id, tier, seed))
  chosen = None
  for f in cands[:3]:
    tmp = os.path.join(scratch, 'replay.json')
    with open(tmp, 'w') as out:
      json.dump({'property': args.id, 'case': f['case']}, out)
    try:
      rc = subprocess.call(worker_cmd(args, ['replay', tmp]),
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=140)
    except subprocess.TimeoutExpired:
      rc = None
    if rc == 1:
      chosen = f
      doc = {'property': args.id, 'case': f['case'], 'message': f['message'],
             'seed': seed, 'tier': tier, 'alone': True}
      break
  if chosen is None:
    # Only fails after the preceding cases of the same process: keep them.
    chosen = cands[0]
    doc = {'property': args.id, 'case': chosen['case'],
           'message': chosen['message'], 'seed': seed, 'tier': tier,
           'alone': False, 'history': chosen.get('history', [])}
  with open(path, 'w') as out:
    json.dump(doc, out, indent=1, sort_keys=True)
  return chosen, path


def write_evidence(args, results, seed, tier, start, violations, hits, known):
  meta = results[0]
  classes, distinct, samples, per_op = {}, set(), [], {}
  for r in results:
    for k, v in r['classes'].items():
      classes[k] = classes.get(k, 0) + v
    for k, v in r['per_op'].items():
      per_op[k] = per_op.get(k, 0) + v
    distinct.update(r['distinct'])
    samples.extend(r['samples'])
  doc = {
      'property': args.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
      'coverage': {
          'evaluations': sum(r['evaluations'] for r in results),
          'distinct_nontrivial': len(distinct),
          'rule': meta['rule'],
          'samples': samples[:8],
          'cases_per_operation': per_op,
          'classes': classes,
          'shards': len(results),
          'rejected_by_generator': sum(r['rejected'] for r in results),
          'stopped_by_time_limit': sum(r['cut'] for r in results),
      },
      'wall_s': round(time.time() - start, 2),
      'assumptions': meta['assumptions'],
      'violations': violations,
  }
  if known:
    doc['coverage']['known_findings_hit'] = sorted(hits)
  directory = os.path.join(ROOT, 'evidence')
  os.makedirs(directory, exist_ok=True)
  tmp = os.path.join(directory, '.%s.tmp' % args.id)
  with open(tmp, 'w') as f:
    json.dump(doc, f, indent=1, sort_keys=True)
  os.replace(tmp, os.path.join(directory, '%s.json' % args.id))


if __name__ == '__main__':
  try:
    code = main()
  except Exception:  # pylint: disable=broad-except
    import traceback
    traceback.print_exc()
    code = 2
  sys.exit(code if code in (0, 1) else 2)
