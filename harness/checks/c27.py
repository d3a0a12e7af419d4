"""C27: tensors with more entries than fit into memory or 64 bits.

Objects are sums of a few rank-one terms, so all the answers are products of
small scalar products; the oracle never forms the dense tensor.
"""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import require

CHECK = core.Check('C27', rule=(
    'A case counts if the tensor has at least 2^33 entries (or the matrix has '
    'that many rows); distinct by JSON.'),
    nontrivial=lambda c: big(c) >= 2 ** 33,
    assumptions=['scalar products of rank-one terms in NumPy float64 are taken '
                 'as the truth',
                 'tolerance 1e-8 (float64) / 1e-3 (float32) relative to the '
                 'norms of the arguments'])
TOL = {'float64': 1e-8, 'float32': 1e-3}


def big(case):
  return core.prod(case['n'])


def gen_sizes(draw, lo=12, hi=120, maxn=6):
  d = gen.pick(draw, gen.integer(draw, lo, 40), gen.integer(draw, 30, hi))
  style = gen.pick(draw, 'equal', 'mixed', 'wide')
  if style == 'equal':
    return [gen.integer(draw, 2, maxn)] * d
  if style == 'wide':
    return [gen.integer(draw, 30, 100)] * gen.integer(draw, 8, 14)
  seed = gen.seed(draw)
  return [int(v) for v in np.random.RandomState(seed).randint(1, maxn + 1,
                                                              size=d)]


class Cp(object):
  """sum_i w_i a_i1 x ... x a_id with a_ik of norm close to 1."""

  def __init__(self, n, seed, terms, dtype, m=None, near=None, scale=1.0):
    rng = np.random.RandomState(seed % 2 ** 32)
    self.n, self.m, self.dtype, self.terms = n, m, dtype, terms
    self.a = []
    d = len(n)
    for k in range(d):
      size = n[k] * (1 if m is None else m[k])
      v = rng.randn(terms, size)
      if near is not None:
        # Close to the given one: random directions are almost orthogonal.
        v = near.a[k][rng.randint(near.terms, size=terms)] + \
            0.5 / np.sqrt(d * size) * v
      v /= np.linalg.norm(v, axis=1, keepdims=True)
      v *= np.exp(rng.randn(terms, 1) / d)
      self.a.append(v.astype(dtype).astype(np.float64))
    self.a[0] = (self.a[0] * scale).astype(dtype).astype(np.float64)

  def cores(self):
    res = []
    d = len(self.n)
    for k, v in enumerate(self.a):
      t, size = v.shape
      c = np.zeros((t, size, t))
      for i in range(t):
        c[i, :, i] = v[i]
      if k == 0:
        c = c.sum(0, keepdims=True)
      if k == d - 1:
        c = c.sum(2, keepdims=True)
      if self.m is not None:
        c = c.reshape(c.shape[0], self.n[k], self.m[k], c.shape[2])
      res.append(c.astype(self.dtype))
    return res

  @property
  def tt(self):
    return core.make_tt(self.cores(), False)


def flat(cores):
  """Cores as 3-dimensional float64 arrays."""
  return [np.asarray(c, np.float64).reshape(c.shape[0], -1, c.shape[-1])
          for c in cores]


def inner(x, y):
  """Scalar product of two trains of cores."""
  acc = np.ones((1, 1))
  for a, b in zip(flat(x), flat(y)):
    acc = np.einsum('ac,aib,cid->bd', acc, a, b, optimize=True)
  return float(acc[0, 0])


def cores_of(obj, case, what, m=None):
  cores = core.result_cores(obj, what)
  require(all(np.all(np.isfinite(c)) for c in cores), '%s is not finite', what)
  require(len(cores) == len(case['n']), '%s: %d cores', what, len(cores))
  return cores


def probe(case, x, k):
  return Cp(case['n'], case['seed'] + 17 * k + 1, 1, 'float64', x.m,
            near=x).cores()


def same(case, obj, want, base, scale, what):
  """The train equals the linear combination of trains `want`.

  want: list of (coefficient, cores).
  """
  cores = cores_of(obj, case, what)
  dtype = case['dt']
  require(all(c.dtype.name == dtype for c in cores), '%s: dtype', what)
  tol = TOL[dtype] * scale
  for k in range(3):
    p = probe(case, base, k)
    got = inner(cores, p)
    exp = sum(c * inner(w, p) for c, w in want)
    norm = np.sqrt(abs(inner(p, p)))
    require(abs(got - exp) <= tol * norm, '%s: scalar product with a probe is '
            '%r instead of %r', what, got, exp)
  norm2 = sum(c1 * c2 * inner(w1, w2) for c1, w1 in want for c2, w2 in want)
  cross = sum(c * inner(w, cores) for c, w in want)
  gap = inner(cores, cores) - 2 * cross + norm2
  require(abs(gap) <= TOL[dtype] * scale ** 2, '%s: squared distance to the '
          'right answer is %r, scale %r', what, gap, scale)
  return cores


def gen_pair(draw, names, matrix=False, maxn=6, hi=120):
  n = gen_sizes(draw, maxn=3 if matrix else maxn, hi=hi)
  case = dict(n=n, dt=gen.dtype(draw), f=gen.pick(draw, *names),
              terms=[gen.integer(draw, 1, 3), gen.integer(draw, 1, 3)],
              seeds=[gen.seed(draw), gen.seed(draw)], seed=gen.seed(draw),
              scale=gen.pick(draw, 1.0, 1.0, 1e-3, 1e3))
  return case


def pair(case, m=None):
  x = Cp(case['n'], case['seeds'][0], case['terms'][0], case['dt'], m=m,
         scale=case['scale'])
  y = Cp(case['n'], case['seeds'][1], case['terms'][1], case['dt'], m=m, near=x)
  return x, y


TENSOR = ('add', 'sub', 'scale', 'neg', 'mul', 'inner', 'norm', 'gather',
          'index', 'round', 'round-cap', 'round-sum', 'orth', 'orth-left',
          'renorm', 'renorm-huge', 'cast', 'add_n', 'reduce', 'gram', 'concat', 'sparse',
          'like', 'batch')


@CHECK.op('tensor', lambda draw: gen_pair(draw, TENSOR), quick=420)
def tensor(case):
  x, y = pair(case)
  X, Y = x.cores(), y.cores()
  f, dt, d = case['f'], case['dt'], len(case['n'])
  nx, ny = np.sqrt(inner(X, X)), np.sqrt(inner(Y, Y))
  # Terms may almost cancel, but that is not likely; round-off is of terms.
  sx = nx + sum(np.prod([np.linalg.norm(a[i]) for a in x.a])
                for i in range(x.terms))
  sy = ny + sum(np.prod([np.linalg.norm(a[i]) for a in y.a])
                for i in range(y.terms))
  tt, uu = x.tt, y.tt
  require(core.as_int_list(tt.get_shape()) == case['n'], 'shape')
  check = lambda obj, want, scale: same(case, obj, want, x, scale, f)
  num = lambda got, want, scale: core.close(core.to_np(got), want, scale, dt, f,
                                            tol=TOL[dt])
  if f == 'add':
    check(tt + uu, [(1, X), (1, Y)], sx + sy)
  elif f == 'sub':
    check(tt - uu, [(1, X), (-1, Y)], sx + sy)
  elif f == 'scale':
    check(-2.5 * tt, [(-2.5, X)], 2.5 * sx)
  elif f == 'neg':
    check(-tt, [(-1, X)], sx)
  elif f == 'mul':
    # Entries of products of huge tensors are tiny: compare them one by one.
    got = cores_of(tt * uu, case, f)
    rng = np.random.RandomState(case['seed'] % 2 ** 32)
    for _ in range(4):
      idx = [int(rng.randint(s)) for s in case['n']]
      e = [entry(c, idx) for c in (X, Y)]
      a = [entry([np.abs(v) for v in c], idx) for c in (X, Y)]
      core.close(entry(got, idx), e[0] * e[1], a[0] * a[1], dt, f, tol=TOL[dt])
  elif f == 'inner':
    num(t3f.flat_inner(tt, uu), inner(X, Y), sx * sy)
  elif f == 'norm':
    num(t3f.frobenius_norm_squared(tt), nx ** 2, sx ** 2)
    num(t3f.frobenius_norm_squared(tt, differentiable=True), nx ** 2, sx ** 2)
    num(t3f.frobenius_norm(tt), np.sqrt(nx ** 2 + 1e-5),
        sx + sx ** 2 / np.sqrt(1e-5 + nx ** 2))
  elif f == 'gather' or f == 'sparse':
    rng = np.random.RandomState(case['seed'] % 2 ** 32)
    idx = np.stack([rng.randint(0, s, size=5) for s in case['n']], -1)
    want = np.array([entry(X, i) for i in idx])
    mag = np.array([entry([np.abs(v) for v in X], i) for i in idx])
    if f == 'gather':
      num(t3f.gather_nd(tt, idx), want, mag)
    else:
      v = rng.randn(5).astype(dt)
      s = tf.SparseTensor(idx.astype(np.int64), v, case['n'])
      num(t3f.flat_inner(tt, s), (want * v).sum(), (mag * np.abs(v)).sum())
  elif f == 'index':
    rng = np.random.RandomState(case['seed'] % 2 ** 32)
    idx = [int(rng.randint(s)) for s in case['n']]
    keep = rng.randint(d)
    spec = tuple(slice(None) if k == keep else i for k, i in enumerate(idx))
    got = core.result_cores(tt[spec])
    require(len(got) == 1 and got[0].shape[1] == case['n'][keep], 'index')
    for v in range(case['n'][keep]):
      i = list(idx)
      i[keep] = v
      core.close(got[0][0, v, 0], entry(X, i),
                 entry([np.abs(c) for c in X], i), dt, f, tol=TOL[dt])
  elif f == 'round':
    check(t3f.round(tt), [(1, X)], sx)
  elif f == 'round-cap':
    cores = check(t3f.round(tt, max_tt_rank=x.terms), [(1, X)], sx)
    require(max(c.shape[-1] for c in cores) <= x.terms, 'ranks after rounding')
  elif f == 'round-sum':
    z = tt + uu + tt
    cap = x.terms + y.terms
    cores = check(t3f.round(z, max_tt_rank=cap), [(2, X), (1, Y)], 2 * sx + sy)
    require(max(c.shape[-1] for c in cores) <= cap, 'ranks after rounding')
  elif f in ('orth', 'orth-left'):
    left = f == 'orth'
    cores = check(t3f.orthogonalize_tt_cores(tt, left_to_right=left), [(1, X)],
                  sx)
    for c in (cores[:-1] if left else cores[1:]):
      u = c.reshape(-1, c.shape[-1]) if left else c.reshape(c.shape[0], -1).T
      core.close(u.T.astype(np.float64) @ u, np.eye(u.shape[1]), 1, dt,
                 f + ': frames', tol=TOL[dt])
  elif f == 'renorm':
    cores = check(t3f.renormalize_tt_cores(tt), [(1, X)], sx)
    norms = [np.linalg.norm(c) for c in cores]
    require(max(norms) <= min(norms) * 1.01, 'norms of the cores %s', norms)
  elif f == 'renorm-huge':
    # The norm itself does not fit into the dtype.
    rng = np.random.RandomState(case['seed'] % 2 ** 32)
    # Core norms below 1e-4 are clamped by the default epsilon.
    logs = rng.uniform(-4, 4, size=d)
    logs += 1.2 * np.log(float(np.finfo(dt).max)) / d
    big = [(c * np.exp(l)).astype(dt) for c, l in zip(X, logs)]
    got = cores_of(t3f.renormalize_tt_cores(core.make_tt(big, False)), case, f)
    norms = [np.linalg.norm(c.astype(np.float64)) for c in got]
    require(max(norms) <= min(norms) * 1.01, 'norms of the cores %s', norms)
    want = [np.linalg.norm(c.astype(np.float64)) for c in X]
    shift = np.sum(np.log(norms)) - np.sum(np.log(want)) - np.sum(logs)
    require(abs(shift) <= TOL[dt] * d, 'the norm is multiplied by exp(%g)',
            shift)
    unit = [(c / n_ * w).astype(dt) for c, n_, w in zip(got, norms, want)]
    same(case, core.make_tt(unit, False), [(1, X)], x, sx, f)
  elif f == 'cast':
    got = core.result_cores(t3f.cast(tt, tf.float64))
    require(all(np.array_equal(a, b) for a, b in zip(got, X)), 'cast')
  elif f == 'add_n':
    check(t3f.approximate.add_n([tt, uu, tt], x.terms + y.terms),
          [(2, X), (1, Y)], 2 * sx + sy)
  elif f in ('reduce', 'gram', 'concat', 'batch'):
    y = Cp(case['n'], case['seeds'][1], x.terms, dt, near=x)
    Y = y.cores()
    b = core.make_tt([np.stack([p, q]) for p, q in zip(X, Y)], True)
    require(core.as_int_list(b.get_shape()) == [2] + case['n'], 'batch shape')
    sy = sum(np.prod([np.linalg.norm(a[i]) for a in y.a])
             for i in range(y.terms)) + np.sqrt(inner(Y, Y))
    if f == 'reduce':
      check(t3f.approximate.reduce_sum_batch(b, 2 * x.terms), [(1, X), (1, Y)],
            sx + sy)
    elif f == 'gram':
      g = [[inner(p, q) for q in (X, Y)] for p in (X, Y)]
      num(t3f.gram_matrix(b), g, max(sx, sy) ** 2)
    elif f == 'concat':
      c = t3f.concat_along_batch_dim([b, b])
      require(core.as_int_list(c.get_shape()) == [4] + case['n'], 'concat')
      check(c[3], [(1, Y)], sy)
    else:
      r = t3f.round(b)
      check(r[0], [(1, X)], sx)
      check(r[1], [(1, Y)], sy)
      check((b + tt)[1], [(1, X), (1, Y)], sx + sy)
  else:
    ones = cores_of(t3f.ones_like(tt), case, 'ones_like')
    require(all(np.all(c == 1) for c in ones), 'ones_like')
    zeros = cores_of(t3f.zeros_like(tt), case, 'zeros_like')
    require(inner(zeros, zeros) == 0, 'zeros_like')


def entry(cores, idx):
  acc = np.ones((1, 1))
  for c, i in zip(flat(cores), idx):
    acc = acc @ c[:, int(i)]
  return float(acc[0, 0])


# ------------------------------------------------------------------ Riemannian


@CHECK.op('riemannian', lambda draw: gen_pair(
    draw, ('self', 'idempotent', 'symmetric', 'sum', 'grad', 'hessian',
           'pairwise', 'deltas', 'add_n'), hi=60), quick=90)
def riemannian(case):
  """Projections on the tangent space of a huge tensor."""
  x, y = pair(case)
  X, Y = x.cores(), y.cores()
  z = Cp(case['n'], case['seed'] + 5, 2, case['dt'], near=x)
  Z = z.cores()
  f, dt = case['f'], case['dt']
  tol = 10 * TOL[dt]
  # The point is x of the minimal ranks.
  nx, ny, nz = [np.sqrt(inner(c, c)) for c in (X, Y, Z)]
  point = t3f.orthogonalize_tt_cores(x.tt)
  if f == 'self':
    same(case, t3f.project(x.tt, point), [(1, X)], x, 30 * nx, f)
    return
  py = t3f.project(y.tt, point)
  P = cores_of(py, case, 'projection')
  pn = np.sqrt(max(0, inner(P, P)))
  require(pn <= ny * (1 + tol), 'projection increases the norm: %r, %r', pn, ny)
  if f == 'idempotent':
    same(case, t3f.project(py, point), [(1, P)], x, 30 * ny, f)
  elif f == 'symmetric':
    pz = cores_of(t3f.project(z.tt, point), case, 'projection')
    a, b = inner(P, Z), inner(Y, pz)
    require(abs(a - b) <= 30 * tol * ny * nz, '<Py, z> = %r, <y, Pz> = %r', a,
            b)
  elif f == 'sum':
    b = core.make_tt([np.stack([p, p]) for p in Y], True)
    w = np.array([2., -0.5], dt)
    same(case, t3f.project_sum(b, point, w), [(1.5, P)], x, 60 * ny, f)
  elif f == 'grad':
    g = t3f.gradients(lambda t: 0.5 * t3f.flat_inner(t, y.tt) ** 2, point,
                      runtime_check=False)
    c = inner(X, Y)
    same(case, g, [(c, P)], x, 60 * ny * (abs(c) + nx * ny), f)
  elif f == 'hessian':
    h = t3f.hessian_vector_product(
        lambda t: 0.5 * t3f.flat_inner(t, y.tt) ** 2, point, z.tt,
        runtime_check=False)
    pz = cores_of(t3f.project(z.tt, point), case, 'projection')
    c = inner(P, pz)
    same(case, h, [(c, P)], x, 60 * ny * (ny * nz + abs(c)), f)
  elif f == 'pairwise':
    b = core.make_tt([p[None] for p in Y], True)
    q = t3f.project(b, point)
    g = core.to_np(t3f.pairwise_flat_inner_projected(q, q))
    core.close(g, [[pn ** 2]], 60 * ny ** 2, dt, f, tol=TOL[dt])
  elif f == 'deltas':
    back = t3f.riemannian.deltas_to_tangent_space(
        t3f.tangent_space_to_deltas(py), point)
    same(case, back, [(1, P)], x, 60 * ny, f)
  else:
    same(case, t3f.add_n_projected([py, py]), [(2, P)], x, 60 * ny, f)


# -------------------------------------------------------------------- matrices


MATRIX = ('shape', 'shape', 'matvec', 'transpose', 'matmul', 'bilinear', 'eye',
          'add', 'round', 'project_matmul', 'sparse', 'dense')


def gen_matrix(draw):
  case = gen_pair(draw, MATRIX, matrix=True)
  rng = np.random.RandomState(gen.seed(draw))
  case['m'] = [int(v) for v in rng.randint(1, 4, size=len(case['n']))]
  if max(case['n']) > 10:
    case['n'] = [s // 10 for s in case['n']] * 2
    case['m'] = case['m'] * 2
  if case['f'] == 'dense':
    # Tall and thin: the vector fits into memory, the matrix does not.
    case['m'] = [1] * len(case['n'])
  if case['f'] == 'shape':
    case['batch'] = gen.pick(draw, None, None, 2)
  return case


def wrapped(v):
  """int32 value of an overflown number."""
  return (v + 2 ** 31) % 2 ** 32 - 2 ** 31


CHECK.known_rules['matrix-shape-int32'] = lambda case, message: (
    case['op'] == 'matrix' and case['f'] == 'shape' and
    max(core.prod(case['n']), core.prod(case['m'])) >= 2 ** 31 and
    message.startswith('t3f.shape of a TT-matrix wraps around int32'))


@CHECK.op('matrix', gen_matrix, quick=200)
def matrix(case):
  n, m, f, dt = case['n'], case['m'], case['f'], case['dt']
  d = len(n)
  rows, cols = core.prod(n), core.prod(m)
  A = Cp(n, case['seeds'][0], case['terms'][0], dt, m=m)
  AC = A.cores()
  sa = np.sqrt(inner(AC, AC)) + sum(
      np.prod([np.linalg.norm(a[i]) for a in A.a]) for i in range(A.terms))
  tt = A.tt
  if f == 'shape':
    b = case.get('batch')
    if b is not None:
      tt = core.make_tt([np.stack([c] * b) for c in AC], True)
    want = ([] if b is None else [b]) + [rows, cols]
    require(core.as_int_list(tt.get_shape()) == want, 'get_shape is %s instead '
            'of %s', tt.get_shape(), want)
    require([int(v) for v in t3f.lazy_shape(tt)] == want, 'lazy_shape is %s '
            'instead of %s', t3f.lazy_shape(tt), want)
    require(str(rows) in str(tt) and str(cols) in str(tt), 'str is %s', tt)
    require(core.to_np(t3f.raw_shape(tt)).tolist() == [n, m], 'raw_shape')
    require(core.as_int_list(t3f.transpose(tt).get_shape()) ==
            ([] if b is None else [b]) + [cols, rows], 'shape of a transpose')
    require(core.as_int_list((tt + tt).get_shape()) == want, 'shape of a sum')
    got = core.to_np(t3f.shape(tt)).tolist()
    if got != want:
      if got == [wrapped(v) for v in want]:
        core.fail('t3f.shape of a TT-matrix wraps around int32: %s instead of '
                  '%s', got, want)
      core.fail('t3f.shape is %s instead of %s', got, want)
    return
  one = [1] * d
  if f in ('matvec', 'bilinear', 'dense'):
    v = Cp(m, case['seeds'][1], case['terms'][1], dt, m=one)
    V = v.cores()
    sv = sum(np.prod([np.linalg.norm(a[i]) for a in v.a])
             for i in range(v.terms))
    # The product of sums of rank-one terms, core by core.
    want = [np.einsum('anmb,cmkd->acnkbd', a.astype(float), b.astype(float))
            for a, b in zip(AC, V)]
    want = [w.reshape(w.shape[0] * w.shape[1], w.shape[2], w.shape[3], -1)
            for w in want]
    base = Cp(n, case['seeds'][0], A.terms, dt, m=one)
    base.a = [np.linalg.svd(a.reshape(-1, x, y)[0])[0][:, :1].T
              for a, x, y in zip(A.a, n, m)]
    base.terms = 1
    if f == 'matvec':
      same(case, t3f.matmul(tt, v.tt), [(1, want)], base, sa * sv, f)
    elif f == 'dense':
      if rows < 2 ** 33:
        raise core.Skip('small')
      # One column: times a 1 x 1 matrix would be dense; only sizes matter.
      core.must_raise(lambda: t3f.matmul(tt, tf.ones((2, 1), tt.dtype)),
                      ValueError, 'a misaligned dense factor')
    else:
      u = base.cores()
      ut = core.make_tt([c.astype(dt) for c in u], False)
      got = core.to_np(t3f.bilinear_form(tt, ut, v.tt))
      core.close(got, inner([c.astype(dt) for c in u], want),
                 sa * sv * np.sqrt(inner(u, u)), dt, f, tol=TOL[dt])
  elif f == 'transpose':
    got = core.result_cores(t3f.transpose(tt))
    require(all(np.array_equal(g, c.transpose(0, 2, 1, 3))
                for g, c in zip(got, AC)), 'transpose')
  elif f == 'matmul':
    B = Cp(m, case['seeds'][1], 1, dt, m=n)
    BC = B.cores()
    want = [np.einsum('anmb,cmkd->acnkbd', a.astype(float), b.astype(float))
            for a, b in zip(AC, BC)]
    want = [w.reshape(w.shape[0] * w.shape[1], w.shape[2], w.shape[3], -1)
            for w in want]
    sb = np.sqrt(inner(BC, BC))
    res = t3f.matmul(tt, B.tt)
    require(core.as_int_list(res.get_shape()) == [rows, rows], 'shape')
    base = Cp(n, 1, 1, dt, m=n)
    base.a = [w[0, :, :, 0].reshape(1, -1) /
              max(1e-30, np.linalg.norm(w[0, :, :, 0])) for w in want]
    same(case, res, [(1, want)], base, sa * sb, f)
  elif f == 'eye':
    e = t3f.eye(n, dtype=tf.as_dtype(dt))
    require(core.as_int_list(e.get_shape()) == [rows, rows], 'shape of eye')
    same(case, t3f.matmul(e, tt), [(1, AC)], A, sa, f)
  elif f == 'add':
    same(case, tt + 2. * tt, [(3, AC)], A, 3 * sa, f)
  elif f == 'round':
    cores = same(case, t3f.round(tt + tt, max_tt_rank=A.terms), [(2, AC)], A,
                 2 * sa, f)
    require(max(c.shape[-1] for c in cores) <= A.terms, 'ranks')
  elif f == 'project_matmul':
    e = t3f.eye(n, dtype=tf.as_dtype(dt))
    point = t3f.orthogonalize_tt_cores(tt)
    same(case, t3f.project_matmul(tt, point, e), [(1, AC)], A, 30 * sa, f)
  else:
    # Linear indices of sparse matrices have 64 bits.
    if max(rows, cols) >= 2 ** 62:
      raise core.Skip('no such indices')
    rng = np.random.RandomState(case['seed'] % 2 ** 32)
    want, idx = [], []
    for _ in range(4):
      i = [int(rng.randint(s)) for s in n]
      j = [int(rng.randint(s)) for s in m]
      lin = [0, 0]
      for k in range(d):
        lin = [lin[0] * n[k] + i[k], lin[1] * m[k] + j[k]]
      idx.append(lin)
      want.append(entry(AC, [a * s + b for a, b, s in zip(i, j, m)]))
    v = rng.randn(4).astype(dt)
    s = tf.SparseTensor(np.array(idx, np.int64), v, [rows, cols])
    core.close(core.to_np(t3f.flat_inner(tt, s)), (v * np.array(want)).sum(),
               np.abs(v).sum() * max(np.abs(want)) + 1e-12, dt, f, tol=TOL[dt])


# ------------------------------------------------------------------- Kronecker


def gen_kron(draw):
  n = gen_sizes(draw, maxn=4)
  if max(n) > 10:
    n = [5] * len(n) * 2
  return dict(n=n, seed=gen.seed(draw), f=gen.pick(
      draw, 'slogdet', 'slogdet', 'det', 'inv', 'cholesky'), dt='float64',
      batch=gen.pick(draw, None, 2), unit=gen.flag(draw))


@CHECK.op('kronecker', gen_kron, quick=80)
def kronecker(case):
  n, f, b = case['n'], case['f'], case['batch']
  rng = np.random.RandomState(case['seed'] % 2 ** 32)
  factors = []
  for s in n:
    e = rng.randn(b or 1, s, s)
    g = e @ e.transpose(0, 2, 1) / s + np.eye(s)
    if f == 'det' or case['unit']:
      # Determinants of huge matrices are representable only if those of
      # factors are 1.
      g = np.tile(np.eye(s), (b or 1, 1, 1))
      if s > 1:
        p = rng.permutation(s)
        g = g[:, p] if f in ('det', 'slogdet', 'inv') else g
    factors.append(g)
  tt = core.make_tt([g[:, None, :, :, None] if b else g[0][None, :, :, None]
                     for g in factors], b is not None)
  total = core.prod(n)
  k = t3f.kronecker
  if f == 'slogdet' or f == 'det':
    sign = np.ones(b or 1)
    logs = np.zeros(b or 1)
    for s, g in zip(n, factors):
      for i in range(b or 1):
        a, l = np.linalg.slogdet(g[i])
        if (total // s) % 2:
          sign[i] *= np.sign(a)
        logs[i] += float(total // s) * l
    if f == 'det':
      got = core.to_np(k.determinant(tt))
      require(np.all(got == (sign if b else sign[0])), 'determinant is %s '
              'instead of %s', got, sign)
    else:
      gs, gl = [core.to_np(t) for t in k.slog_determinant(tt)]
      require(np.all(gs == (sign if b else sign[0])), 'sign %s', gs)
      require(np.allclose(gl, logs if b else logs[0], rtol=1e-9, atol=1e-300),
              'logarithm %s instead of %s', gl, logs)
    return
  got = core.result_cores(k.inv(tt) if f == 'inv' else k.cholesky(tt))
  for s, g, c in zip(n, factors, got):
    c = c.reshape(-1, s, s)
    require(np.all(np.isfinite(c)), '%s is not finite', f)
    if f == 'inv':
      e = np.matmul(g, c)
      # A scalar may move between the factors.
      t = e[:, :1, :1]
      require(np.allclose(e / t, np.eye(s), atol=1e-8), 'inv')
    else:
      require(np.allclose(np.matmul(c, c.transpose(0, 2, 1)), g, atol=1e-8),
              'cholesky')


# -------------------------------------------------------------- initialization


def gen_random(draw):
  n = gen_sizes(draw)
  rng = np.random.RandomState(gen.seed(draw))
  return dict(n=n, m=[int(v) for v in rng.randint(1, 6, size=len(n))],
              r=gen.integer(draw, 1, 8), dt=gen.dtype(draw), f=gen.pick(
                  draw, 'random_tensor', 'random_matrix', 'glorot', 'he',
                  'lecun', 'batch', 'matrix-batch', 'ones', 'matrix_ones',
                  'zeros'))


@CHECK.op('random', gen_random, quick=140)
def random(case):
  """Cores of random huge objects have the documented scale."""
  n, m, r, f = case['n'], case['m'], case['r'], case['f']
  dt = tf.as_dtype(case['dt'])
  d = len(n)
  rows, cols = core.prod(n), core.prod(m)
  ranks = [1] + [r] * (d - 1) + [1]
  # ln of the variance of entries of the dense object.
  lnvar = {'glorot': np.log(2) - float(np.log(float(rows)) if rows > cols else
                                       np.log(float(cols))) -
           np.log1p(float(min(rows, cols)) / float(max(rows, cols))),
           'he': np.log(2) - np.log(float(rows)),
           'lecun': -np.log(float(rows))}.get(f, 0.0)
  obj = {'random_tensor': lambda: t3f.random_tensor(n, r, dtype=dt),
         'batch': lambda: t3f.random_tensor_batch(n, r, batch_size=2, dtype=dt),
         'random_matrix': lambda: t3f.random_matrix([n, m], r, dtype=dt),
         'matrix-batch': lambda: t3f.random_matrix_batch([n, m], r,
                                                         batch_size=2,
                                                         dtype=dt),
         'glorot': lambda: t3f.glorot_initializer([n, m], r, dtype=dt),
         'he': lambda: t3f.he_initializer([n, m], r, dtype=dt),
         'lecun': lambda: t3f.lecun_initializer([n, m], r, dtype=dt),
         'ones': lambda: t3f.tensor_ones(n, dtype=dt),
         'zeros': lambda: t3f.tensor_zeros(n, dtype=dt),
         'matrix_ones': lambda: t3f.matrix_ones([n, m], dtype=dt)}[f]()
  cores = core.result_cores(obj)
  require(len(cores) == d, 'number of cores')
  require(all(np.all(np.isfinite(c)) for c in cores), '%s is not finite', f)
  require(all(c.dtype == dt.as_numpy_dtype for c in cores), 'dtype')
  if f in ('ones', 'matrix_ones'):
    require(all(np.all(c == 1) for c in cores), f)
    return
  if f == 'zeros':
    require(any(np.all(c == 0) for c in cores), f)
    return
  require(core.as_int_list(obj.get_tt_ranks()) == ranks, 'ranks')
  # Variances of the cores: their product with the ranks is the variance of an
  # entry.  The cores have one variance, which is estimated by all the numbers.
  nums = np.concatenate([c.astype(np.float64).ravel() for c in cores])
  want = (lnvar - sum(np.log(v) for v in ranks)) / d
  got = np.log(np.mean(nums ** 2))
  spread = 7 * np.sqrt(2.0 / len(nums))
  require(abs(got - want) <= spread, '%s: variance of the numbers in the cores '
          'is exp(%.4f) instead of exp(%.4f) +- %.4f', f, got, want, spread)
