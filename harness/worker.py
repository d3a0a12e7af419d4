"""Worker process: generates and runs cases of one shard, or replays a file."""
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
REPO = os.environ.get('VERIF_REPO', '/repo')

import numpy as np
import tensorflow as tf
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)
import t3f
from harness import hypo  # makes hypothesis importable
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from harness import choices, core, run

# Cases of Hypothesis for one uniformly random case.
HYPOTHESIS = 0.4
# Checks whose cases are cheap run twice as many of them in the quick tier.
CHEAP = ('C01', 'C04', 'C05', 'C06', 'C07', 'C08', 'C10', 'C11', 'C12', 'C17',
         'C19', 'C20', 'C21', 'C25', 'C28', 'C30')


class StopShrink(BaseException):
  pass


def canon(case):
  return json.dumps(case, sort_keys=True, separators=(',', ':'))


def through_t3f(tb, error):
  """True if the exception was raised while executing code of the library."""
  prefix = os.path.join(os.path.realpath(REPO), 't3f') + os.sep
  # Nodes of a graph remember where they were made.
  if isinstance(error, tf.errors.OpError) and prefix in str(error):
    return True
  for frame in traceback.extract_tb(tb):
    if os.path.realpath(frame.filename).startswith(prefix):
      return True
  return False


class Factorizations(object):
  """Records whether TensorFlow's own qr and svd give wrong factorizations.

  The float32 kernels lose everything when the squares of the entries of a
  column underflow, which happens to the noise left of a zero summand.
  """

  def __init__(self):
    self.wrong = False

  def judge(self, a, left, right):
    a, left, right = [np.asarray(x) for x in (a, left, right)]
    if not all(np.all(np.isfinite(x)) for x in (a, left, right)):
      return
    tol = 1e-4 if a.dtype == np.float32 else 1e-10
    scale = max(np.max(np.abs(a), initial=0), np.finfo(a.dtype).tiny)
    if np.max(np.abs(left @ right - a), initial=0) > tol * scale:
      self.wrong = True

  def orthonormal(self, q):
    q = np.asarray(q)
    gram = np.swapaxes(q, -1, -2) @ q
    tol = 1e-4 if q.dtype == np.float32 else 1e-10
    if np.max(np.abs(gram - np.eye(gram.shape[-1])), initial=0) > tol:
      self.wrong = True

  def __enter__(self):
    self.old = tf.linalg.qr, tf.linalg.svd
    old_qr, old_svd = self.old

    def qr(a, *args, **kwargs):
      res = old_qr(a, *args, **kwargs)
      if tf.executing_eagerly() and not args and not kwargs:
        self.judge(a, res[0], res[1])
        self.orthonormal(res[0])
      return res

    def svd(a, *args, **kwargs):
      res = old_svd(a, *args, **kwargs)
      if tf.executing_eagerly() and len(res) == 3:
        s, u, v = [np.asarray(x) for x in res]
        k = s.shape[-1]
        u, v = u[..., :k], v[..., :k]
        self.judge(a, u * s[..., None, :], np.swapaxes(v, -1, -2))
        self.orthonormal(u)
        self.orthonormal(v)
      return res

    tf.linalg.qr, tf.linalg.svd = qr, svd
    return self

  def __exit__(self, *exc):
    tf.linalg.qr, tf.linalg.svd = self.old


# Cases take a second or so; longer ones do not finish.
CASE_SECONDS = 100
ENDLESS = 'no result within %d s' % CASE_SECONDS


def on_alarm(signum, frame):
  raise core.Endless(ENDLESS)


def execute(check, case):
  """Runs a case; returns None or the text of the violation."""
  signal.signal(signal.SIGALRM, on_alarm)
  signal.alarm(CASE_SECONDS)
  try:
    message = run_case(check, case)
  except core.Endless:
    return ENDLESS
  finally:
    signal.alarm(0)
  if message is not None and check.id != 'C30':
    with Factorizations() as f:
      run_case(check, case)
    if f.wrong:
      return None
  return message


def run_case(check, case):
  tf.random.set_seed(case.get('seed', 0) % (2 ** 31))
  np.random.seed(case.get('seed', 0) % (2 ** 31))
  tf.keras.backend.clear_session() if check.clear_session else None
  try:
    check.ops[case['op']].run(case)
  except core.Violation as e:
    return str(e) or 'violation'
  except core.Skip:
    return None
  except hypothesis.errors.HypothesisException:
    raise
  except Exception as e:  # pylint: disable=broad-except
    if through_t3f(sys.exc_info()[2], e):
      return 'the library raised %s: %s\n%s' % (
          type(e).__name__, str(e)[:600], traceback.format_exc()[-1500:])
    raise
  return None


class Shard(object):

  def __init__(self, check, shard, shards, tier, seed, scale, only):
    self.check = check
    self.shard, self.shards = shard, shards
    self.tier, self.seed, self.scale = tier, seed, scale
    self.only = only
    self.res = dict(rule=check.rule, assumptions=check.assumptions,
                    evaluations=0, distinct=set(), classes={}, samples=[],
                    per_op={}, failures=[], errors=[], rejected=0, cut=0)
    self.history = []
    self.listed = run.known_findings(check.id)
    self.hits = set()
    self.endless = False
    self.start = time.time()
    self.limit = 600 if tier == 'quick' else 660

  def op_seed(self, name):
    text = '%s/%s/%d/%d/%s' % (self.check.id, name, self.seed, self.shard,
                               self.tier)
    return int(hashlib.sha256(text.encode()).hexdigest()[:12], 16)

  def run_op(self, name):
    """Uniformly random cases, then those of Hypothesis."""
    op = self.check.ops[name]
    total = op.thorough
    if self.tier == 'quick':
      total = op.quick * (2 if self.check.id in CHEAP else 1)
    self.fails = []
    self.first_fail = None
    self.random_cases(op, max(1, int(round(total * self.scale / self.shards))))
    if not self.fails:
      self.hypothesis_cases(op, max(1, int(round(
          HYPOTHESIS * total * self.scale / self.shards))))
    if self.fails:
      size, case, message = min(self.fails, key=lambda f: f[0])
      self.res['failures'].append(dict(
          op=name, case=case, message=message,
          known=self.check.known(case, message),
          history=self.first_history))

  def attempt(self, op, case):
    """Executes a case; True if it violates the property."""
    res = self.res
    now = time.time()
    if self.first_fail is not None and now - self.first_fail > 40:
      raise StopShrink()
    if self.first_fail is None and now - self.start > self.limit:
      res['cut'] += 1
      raise StopShrink()
    self.history.append(case)
    if len(self.history) > 400:
      del self.history[:100]
    message = execute(self.check, case)
    res['evaluations'] += 1
    res['per_op'][op.name] = res['per_op'].get(op.name, 0) + 1
    if self.first_fail is None:
      self.account(case)
    if message is None:
      return False
    key = self.check.known(case, message)
    if key in self.listed:
      # Reported once, and the search goes on.
      if key not in self.hits:
        self.hits.add(key)
        res['failures'].append(dict(op=op.name, case=case, message=message,
                                    known=key, history=[case]))
      return False
    if self.first_fail is None:
      self.first_fail = now
    if not self.fails:
      self.first_history = list(self.history)
    self.fails.append((len(canon(case)), case, message))
    if message == ENDLESS:
      self.endless = True
      raise StopShrink()
    return True

  def trouble(self):
    self.res['errors'].append('%s\n%s' % (
        canon(self.history[-1]) if self.history else '',
        traceback.format_exc()[-3000:]))

  def random_cases(self, op, count):
    rng = random.Random(self.op_seed(op.name))

    def make(c):
      return dict(op.make(c), op=op.name)

    try:
      for _ in range(count):
        c = choices.Choices(rng)
        if self.attempt(op, make(c)):
          choices.shrink(make, c.used, lambda case: self.attempt(op, case), 40)
          return
    except StopShrink:
      pass
    except Exception:  # pylint: disable=broad-except
      self.trouble()

  def hypothesis_cases(self, op, count):

    @hypothesis.seed(self.op_seed(op.name))
    @settings(max_examples=count, database=None, deadline=None,
              derandomize=False, report_multiple_bugs=False,
              print_blob=False, phases=[Phase.generate, Phase.shrink],
              suppress_health_check=list(HealthCheck))
    @given(op.strategy)
    def prop(case):
      if self.attempt(op, dict(case, op=op.name)):
        raise core.Violation(self.fails[-1][2])

    try:
      prop()
    except StopShrink:
      pass
    except core.Violation:
      pass
    except hypothesis.errors.Unsatisfiable:
      self.res['errors'].append('no case generated for %s' % op.name)
    except hypothesis.errors.HypothesisException:
      # Flaky: the failing case passed when repeated; it is in `fails`.
      if not self.fails:
        self.res['errors'].append(traceback.format_exc()[-3000:])
    except Exception:  # pylint: disable=broad-except
      self.trouble()

  def account(self, case):
    res = self.res
    for k in self.check.classify(case):
      res['classes'][k] = res['classes'].get(k, 0) + 1
    if self.check.nontrivial(case):
      text = canon(case)
      h = hashlib.sha1(text.encode()).hexdigest()[:16]
      if h not in res['distinct']:
        res['distinct'].add(h)
        n = sum(1 for s in res['samples'] if s['op'] == case['op'])
        if len(text) < 1500 and n < 1 and len(res['samples']) < 4:
          res['samples'].append(case)

  def run(self):
    names = list(self.check.ops)
    # Shards walk over the operations in different orders, so that a time
    # limit would not starve the same ones.
    k = self.shard % max(1, len(names))
    for name in names[k:] + names[:k]:
      if self.endless or (self.only and name != self.only):
        continue
      self.run_op(name)
    self.res['distinct'] = sorted(self.res['distinct'])
    return self.res


def main():
  here = os.path.dirname(os.path.realpath(t3f.__file__))
  if here != os.path.join(os.path.realpath(REPO), 't3f'):
    sys.stderr.write('wrong t3f: %s\n' % here)
    return 2
  check = importlib.import_module('harness.checks.' + sys.argv[1].lower()).CHECK
  if sys.argv[2] == 'replay':
    with open(sys.argv[3]) as f:
      doc = json.load(f)
    cases = doc.get('history', []) + [doc['case']]
    for case in cases:
      message = execute(check, case)
      if message is not None:
        print('case: %s' % canon(case))
        print('what: %s' % message)
        print('VIOLATION property=%s replay=%s' % (check.id, sys.argv[3]))
        return 1
    print('OK: the case passes')
    return 0
  shard, shards, tier, seed, scale, out = sys.argv[3:9]
  only = sys.argv[9] if len(sys.argv) > 9 else ''
  res = Shard(check, int(shard), int(shards), tier, int(seed), float(scale),
              only).run()
  with open(out + '.tmp', 'w') as f:
    json.dump(res, f)
  os.replace(out + '.tmp', out)
  return 0


if __name__ == '__main__':
  try:
    code = main()
  except Exception:  # pylint: disable=broad-except
    traceback.print_exc()
    code = 2
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(code)
