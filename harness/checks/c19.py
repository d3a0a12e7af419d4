"""C19: Kronecker-product linear algebra."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import Arg, require, must_raise

CHECK = core.Check('C19', rule=(
    'A case counts if the matrix has at least two factors of size above 1; '
    'distinct by JSON.'),
    nontrivial=lambda c: sum(k > 1 for k in c.get('n', c.get('x', {}).get(
        'n', []))) > 1,
    assumptions=['NumPy dense linear algebra in float64 is taken as the truth '
                 'for matrices of up to 300 rows',
                 'for larger ones the determinant is the product of powers of '
                 'determinants of the factors, with integer powers'])

K = t3f.kronecker
KINDS = ('normal', 'orthogonal', 'negative', 'singular', 'zero', 'spd',
         'triangular', 'scaled')


def factor(rng, n, kind):
  if kind == 'orthogonal':
    return np.linalg.qr(rng.randn(n, n))[0]
  if kind == 'negative':
    q = np.linalg.qr(rng.randn(n, n))[0]
    if np.linalg.det(q) > 0:
      q[0] *= -1
    return q * rng.uniform(0.5, 2.0)
  if kind == 'singular':
    # Exactly singular, also in floating point elimination.
    a = rng.randint(-2, 3, size=(n, n)).astype(float)
    a[-1] = 0
    return a
  if kind == 'zero':
    return np.zeros((n, n))
  if kind == 'spd':
    a = rng.randn(n, n)
    return a @ a.T / n + np.eye(n) * rng.uniform(0.3, 2.0)
  if kind == 'triangular':
    return np.tril(rng.randn(n, n)) + 2 * np.eye(n)
  if kind == 'scaled':
    return (rng.randn(n, n) + 2 * np.eye(n)) * 10.0 ** rng.uniform(-2, 2)
  return rng.randn(n, n) + np.eye(n)


def gen_kron(draw, kinds=KINDS, size=300):
  d = gen.pick(draw, 1, 2, 2, 3, 3, 4, 5)
  hi = {1: 12, 2: 7, 3: 5, 4: 4}.get(d, 3)
  n = gen._cap([gen.integer(draw, 1, hi) for _ in range(d)], size)
  bs = gen.batch(draw, 'any')
  # The kinds of factors, one per element of the batch and core.
  style = gen.pick(draw, 'same', 'any')
  k = gen.pick(draw, *kinds)
  fs = [[k if style == 'same' else gen.pick(draw, *kinds) for _ in range(d)]
        for _ in range(bs or 1)]
  return dict(n=n, bs=bs, kinds=fs, dtype=gen.dtype(draw),
              fseed=gen.seed(draw))


def build(case):
  """(TT-object, factors as lists of float64 per element)."""
  rng = np.random.RandomState(case['fseed'] % 2 ** 32)
  dt = case['dtype']
  items = []
  for kinds in case['kinds']:
    items.append([factor(rng, n, k).astype(dt)
                  for n, k in zip(case['n'], kinds)])
  cores = [np.stack([it[k] for it in items])[:, None, :, :, None]
           for k in range(len(case['n']))]
  if case['bs'] is None:
    cores = [c[0] for c in cores]
  tt = core.make_tt(cores, case['bs'] is not None)
  return tt, [[f.astype(np.float64) for f in it] for it in items]


def kron(fs):
  res = np.ones((1, 1))
  for f in fs:
    res = np.kron(res, f)
  return res


def slogdet(fs):
  """Sign, logarithm and accumulated conditioning, by factors."""
  n = [len(f) for f in fs]
  sign, log, cond = 1.0, 0.0, 0.0
  for k, f in enumerate(fs):
    p = core.prod(n[:k] + n[k + 1:])
    s, l = np.linalg.slogdet(f)
    if s == 0:
      return 0.0, -np.inf, 0.0
    sign *= s if p % 2 else 1.0
    log += p * l
    cond += p * len(f) * np.linalg.cond(f) + p * abs(l)
  return sign, log, cond


def sizes(case):
  return (case['bs'],) if case['bs'] is not None else ()


@CHECK.op('determinant', gen_kron, quick=700)
def determinant(case):
  tt, items = build(case)
  res = core.to_np(K.determinant(tt))
  require(res.shape == sizes(case), 'shape %s', res.shape)
  require(res.dtype == np.dtype(case['dtype']), 'dtype %s', res.dtype)
  top = 80.0 if case['dtype'] == 'float32' else 650.0
  for got, fs in zip(res.reshape(-1), items):
    sign, log, cond = slogdet(fs)
    dense = np.linalg.slogdet(kron(fs))
    if sign != 0:
      require(dense[0] == sign and abs(dense[1] - log) <= 1e-9 * (1 + cond),
              'oracle') if cond < 1e5 else None
    # Powers of factors may overflow (documented) though the result does not.
    logs = [core.prod([len(g) for g in fs]) // len(f) * np.linalg.slogdet(f)[1]
            for f in fs]
    if sum(abs(l) for l in logs if np.isfinite(l)) > top:
      continue
    if sign == 0:
      require(got == 0, 'determinant of a singular matrix is %s', got)
      continue
    tol = core.TOL[case['dtype']] * cond
    if tol > 0.3:
      continue
    require(np.isfinite(got) and np.sign(got) == sign and
            abs(np.log(abs(got)) - log) <= tol + 1e-6 * (
                case['dtype'] == 'float32') + 1e-12,
            'determinant %s instead of %s', got, sign * np.exp(log))


@CHECK.op('slog', gen_kron, quick=700)
def slog(case):
  tt, items = build(case)
  res = K.slog_determinant(tt)
  require(len(res) == 2, 'two results')
  signs, logs = [core.to_np(r) for r in res]
  for r in (signs, logs):
    require(r.shape == sizes(case), 'shape %s', r.shape)
    require(r.dtype == np.dtype(case['dtype']), 'dtype %s', r.dtype)
  for s, l, fs in zip(signs.reshape(-1), logs.reshape(-1), items):
    sign, log, cond = slogdet(fs)
    if sign == 0:
      require(s == 0 and l == -np.inf, 'singular matrix: sign %s, logarithm '
              '%s', s, l)
      continue
    tol = core.TOL[case['dtype']] * cond
    if tol > 0.3 * len(kron(fs)):
      continue
    require(s == sign, 'sign %s instead of %s', s, sign)
    require(abs(l - log) <= tol + 1e-12, 'logarithm %s instead of %s', l, log)


def gen_large(draw):
  """Factors whose determinants do not fit into floating point range."""
  n = [gen.integer(draw, 40, 120) for _ in range(gen.integer(draw, 1, 2))]
  bs = gen.pick(draw, None, 2)
  return dict(n=n, bs=bs, kinds=[['scaled'] * len(n)] * (bs or 1),
              dtype=gen.dtype(draw), fseed=gen.seed(draw))


@CHECK.op('slog-large-factors', gen_large, quick=40)
def slog_large(case):
  slog_judge_large(case)


def slog_judge_large(case):
  tt, items = build(case)
  signs, logs = [core.to_np(r) for r in K.slog_determinant(tt)]
  for s, l, fs in zip(signs.reshape(-1), logs.reshape(-1), items):
    sign, log, cond = slogdet(fs)
    require(s == sign or cond * core.TOL[case['dtype']] > 1e4,
            'sign %s instead of %s', s, sign)
    require(abs(l - log) <= core.TOL[case['dtype']] * cond, 'logarithm %s '
            'instead of %s', l, log)


def gen_huge(draw):
  """Numbers of rows beyond 32 and 64 bits and the floating point range."""
  d = gen.integer(draw, 5, 60)
  odd = gen.flag(draw)
  n = [gen.pick(draw, 1, 3, 3, 5, 7) if odd else gen.integer(draw, 1, 6)
       for _ in range(d)]
  bs = gen.pick(draw, None, None, 2)
  return dict(n=n, bs=bs, dtype=gen.dtype(draw),
              dets=[[gen.pick(draw, 1, 1, -1) for _ in range(d)]
                    for _ in range(bs or 1)])


@CHECK.op('huge', gen_huge, quick=200)
def huge(case):
  """Reflections and identities: determinants are exactly +-1."""
  n, dt = case['n'], case['dtype']
  cores = []
  for k in range(len(n)):
    fs = []
    for dets in case['dets']:
      f = np.eye(n[k])
      f[0, 0] = dets[k]
      fs.append(f)
    cores.append(np.stack(fs)[:, None, :, :, None].astype(dt))
  if case['bs'] is None:
    cores = [c[0] for c in cores]
  tt = core.make_tt(cores, case['bs'] is not None)
  want = []
  for dets in case['dets']:
    s = 1.0
    for k in range(len(n)):
      if core.prod(n[:k] + n[k + 1:]) % 2:
        s *= dets[k]
    want.append(s)
  want = want[0] if case['bs'] is None else want
  require(np.array_equal(core.to_np(K.determinant(tt)), want),
          'determinant %s instead of %s', core.to_np(K.determinant(tt)), want)
  s, l = [core.to_np(r) for r in K.slog_determinant(tt)]
  require(np.array_equal(s, want) and np.all(l == 0),
          'sign %s instead of %s, logarithm %s', s, want, l)


def gen_regular(draw):
  return gen_kron(draw, ('normal', 'orthogonal', 'negative', 'spd',
                         'triangular', 'scaled'), 120)


def tt_items(obj, case, what):
  cores, ranks = core.check_structure(obj, True, case['n'], case['n'],
                                      case['bs'], case['dtype'], what)
  require(max(ranks) == 1, '%s: ranks %s', what, ranks)
  d = core.contract(cores, True, case['bs'] is not None)
  return [d] if case['bs'] is None else list(d)


@CHECK.op('inverse', gen_regular, quick=500)
def inverse(case):
  tt, items = build(case)
  for got, fs in zip(tt_items(K.inv(tt), case, 'inverse'), items):
    cond = np.prod([np.linalg.cond(f) for f in fs])
    want = kron([np.linalg.inv(f) for f in fs])
    core.close(got, want, np.abs(want).max() * cond, case['dtype'], 'inverse')
    if core.TOL[case['dtype']] * cond < 1e-2:
      core.close(got @ kron(fs), np.eye(len(want)), cond * 10, case['dtype'],
                 'inverse times matrix')


def gen_spd(draw):
  return gen_kron(draw, ('spd',), 120)


@CHECK.op('cholesky', gen_spd, quick=400)
def cholesky(case):
  tt, items = build(case)
  for got, fs in zip(tt_items(K.cholesky(tt), case, 'cholesky'), items):
    want = kron(fs)
    low = np.linalg.cholesky(want)
    cond = np.prod([np.linalg.cond(f) for f in fs])
    core.close(got, low, np.abs(low).max() * (1 + cond), case['dtype'],
               'cholesky')
    core.close(got @ got.T, want, np.abs(want).max() * 10, case['dtype'],
               'L L^T')
    require(np.all(np.triu(got, 1) == 0), 'not lower triangular')


def gen_reject(draw):
  fault = gen.pick(draw, 'rank', 'rank', 'shape', 'tensor')
  bs = gen.pick(draw, None, 2)
  d = gen.integer(draw, 2, 4)
  n = [gen.integer(draw, 1, 3) for _ in range(d)]
  m, r = list(n), [1] * (d + 1)
  k = gen.integer(draw, 0, d - 1)
  if fault == 'rank':
    r[gen.integer(draw, 1, d - 1)] = gen.integer(draw, 2, 3)
  elif fault == 'shape':
    # Maybe a square matrix of non-square cores.
    m[k] += gen.integer(draw, 1, 2)
    if gen.flag(draw):
      n, m = [2, 3] + [2] * (d - 2), [3, 2] + [2] * (d - 2)
  else:
    m = None
  x = gen.tt(draw, 'tensor' if m is None else 'matrix', n=n, m=m, r=r, bs=bs)
  return dict(x=x, fault=fault)


@CHECK.op('reject', gen_reject, quick=150)
def reject(case):
  x = Arg(case['x'])
  for fn in (K.determinant, K.slog_determinant, K.inv, K.cholesky):
    must_raise(lambda: fn(x.tt), ValueError, fn.__name__)
