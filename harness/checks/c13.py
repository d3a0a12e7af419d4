"""C13: batch operations act on elements separately (metamorphic)."""
import numpy as np
import tensorflow as tf
import t3f
from harness import catalog, core, gen
from harness.core import Arg, require

CHECK = core.Check('C13', rule=(
    'A case counts if the batch has at least two elements, at least two cores '
    'and a TT-rank above 1; distinct by JSON.'),
    nontrivial=lambda c: (c['x']['bs'] or 0) > 1 and len(c['x']['n']) > 1 and
    (max(c['x']['r']) > 1 or c['op'].startswith('kron')))

FILLS = ('mixed', 'mixed', 'mixed', 'normal', 'scaled', 'deficient')


def item(x, i):
  """The i-th element as a fresh object."""
  return core.make_tt([c[i] for c in x.cores], False)


def dense(obj):
  cores = core.result_cores(obj)
  batch = isinstance(obj, t3f.TensorTrainBatch)
  return core.contract(cores, cores[0].ndim - batch == 4, batch)


def same_tt(res, parts, scales, dtype, what):
  require(isinstance(res, t3f.TensorTrainBatch), '%s: not a batch', what)
  got = dense(res)
  require(len(got) == len(parts), '%s: %d elements instead of %d', what,
          len(got), len(parts))
  for i, p in enumerate(parts):
    require(isinstance(p, t3f.TensorTrain), '%s: element result', what)
    core.close(got[i], dense(p), scales[i], dtype, '%s, element %d' % (what, i),
               tol=2 * core.TOL[dtype])


def same_num(res, parts, scales, dtype, what):
  got = core.to_np(res)
  require(got.shape[:1] == (len(parts),), '%s: shape %s', what, got.shape)
  for i, p in enumerate(parts):
    core.close(got[i], core.to_np(p), scales[i], dtype,
               '%s, element %d' % (what, i), tol=2 * core.TOL[dtype])


UNARY = ('full', 'round', 'ortho', 'renorm', 'scale', 'neg', 'norm2',
         'norm2-diff', 'norm', 'transpose', 'cast', 'expand')


def gen_unary(draw):
  kind = gen.pick(draw, 'tensor', 'matrix')
  x = gen.tt(draw, kind, bs=gen.pick(draw, 1, 2, 3, 4, 6), size=400,
             fills=FILLS, maxr=5)
  names = [u for u in UNARY if u != 'transpose' or kind == 'matrix']
  return dict(x=x, f=gen.pick(draw, *names))


@CHECK.op('unary', gen_unary, quick=1200)
def unary(case):
  x, f = Arg(case['x']), case['f']
  other = tf.float32 if x.dtype == 'float64' else tf.float64
  fn = {'full': t3f.full, 'round': t3f.round,
        'ortho': t3f.orthogonalize_tt_cores,
        'renorm': t3f.renormalize_tt_cores, 'scale': lambda z: z * -1.5,
        'neg': lambda z: -z, 'norm2': t3f.frobenius_norm_squared,
        'norm2-diff': lambda z: t3f.frobenius_norm_squared(
            z, differentiable=True),
        'norm': t3f.frobenius_norm, 'transpose': t3f.transpose,
        'cast': lambda z: t3f.cast(z, other), 'expand': lambda z: z}[f]
  res = fn(x.tt)
  parts = [fn(item(x, i)) for i in range(x.bs)]
  dt = 'float32' if f == 'cast' else x.dtype
  if f == 'full':
    same_num(res, parts, x.a, dt, f)
  elif f.startswith('norm2'):
    same_num(res, parts, x.q ** 2, dt, f)
  elif f == 'norm':
    # |sqrt(a) - sqrt(b)| <= |a - b| / sqrt(eps).
    same_num(res, parts, x.q ** 2 / np.sqrt(1e-5) + x.q, dt, f)
  else:
    same_tt(res, parts, 2 * x.q, dt, f)


def gen_cut(draw):
  x = gen.tt(draw, bs=gen.pick(draw, 2, 3, 4), size=400, maxr=5, fills=FILLS)
  d = len(x['n'])
  cap = gen.integer(draw, 1, 4)
  if gen.flag(draw):
    cap = [1] + [gen.integer(draw, 1, 4) for _ in range(d - 1)] + [1]
  return dict(x=x, cap=cap)


@CHECK.op('round-cut', gen_cut, quick=500)
def round_cut(case):
  """Truncation may be not unique, but its error is (up to ties)."""
  x = Arg(case['x'])
  res = dense(t3f.round(x.tt, max_tt_rank=case['cap']))
  for i in range(x.bs):
    alone = dense(t3f.round(item(x, i), max_tt_rank=case['cap']))
    e1 = np.linalg.norm(res[i] - x.d[i])
    e2 = np.linalg.norm(alone - x.d[i])
    # Ties can make successive truncations differ; both obey the same bound.
    from harness.checks import c04, c05
    caps = c04.caps_list(case['cap'], len(x.n), 'inf')
    bound = np.sqrt(c04.tails(c05.interleave(x.d[i], x.n, x.m), caps))
    tol = core.TOL[x.dtype] * x.q[i] * 10
    require(e1 <= bound * (1 + 1e-6) + tol, 'element %d: error %.4g, bound '
            '%.4g', i, e1, bound)
    require(e2 <= bound * (1 + 1e-6) + tol, 'element %d alone', i)


def gen_binary(draw):
  f = gen.pick(draw, 'add', 'mul', 'sub', 'inner', 'matmul', 'project')
  kind = 'matrix' if f == 'matmul' else 'any'
  x = gen.tt(draw, kind, bs=gen.pick(draw, 1, 2, 3, 4), size=300, fills=FILLS,
             maxr=3)
  if f == 'matmul':
    y = gen.tt(draw, 'matrix', n=x['m'], m=[gen.integer(draw, 1, 3)
                                            for _ in x['m']],
               bs=gen.pick(draw, None, 1, x['bs']), dt=x['dtype'], maxr=3,
               fills=FILLS + ('mixed',))
  elif f == 'project':
    y = gen.like(draw, x, bs='no', fills=gen.REGULAR)
  else:
    y = gen.like(draw, x, bs=gen.pick(draw, None, 1, x['bs']),
                 fills=gen.FILLS, maxr=3)
  if y['bs'] is None and y['fill'] == 'mixed':
    y['fill'] = 'normal'
  return dict(x=x, y=y, f=f, swap=gen.flag(draw))


@CHECK.op('binary', gen_binary, quick=1200)
def binary(case):
  x, y, f = Arg(case['x']), Arg(case['y']), case['f']
  fn = {'add': t3f.add, 'sub': lambda a, b: a - b, 'mul': t3f.multiply,
        'inner': t3f.flat_inner, 'matmul': t3f.matmul,
        'project': t3f.project}[f]
  if case['swap'] and f in ('add', 'mul', 'inner', 'sub'):
    x, y = y, x
  bs = core.bcast([x.bs, y.bs])
  part = lambda z, i: (z.tt if z.bs is None else
                       item(z, 0 if z.bs == 1 else i))
  q = lambda z, i: (z.q if z.bs is None else z.q[0 if z.bs == 1 else i])
  res = fn(x.tt, y.tt)
  parts = [fn(part(x, i), part(y, i)) for i in range(bs)]
  scales = []
  for i in range(bs):
    a, b = q(x, i), q(y, i)
    if f == 'project':
      # Directions of a tangent space do not depend on its norm; conditioning
      # of the frames is that of orthogonalization.
      scales.append(10 * a)
    else:
      scales.append(a + b if f in ('add', 'sub') else a * b)
  if f == 'inner':
    same_num(res, parts, scales, x.dtype, f)
  else:
    same_tt(res, parts, scales, x.dtype, f)


def gen_kron(draw):
  d = gen.pick(draw, 1, 2, 3, 4)
  n = [gen.integer(draw, 1, 3) for _ in range(d)]
  return dict(x=gen.tt(draw, 'matrix', n=n, m=n, r=[1] * (d + 1),
                       bs=gen.pick(draw, 1, 2, 3, 4),
                       fills=('normal', 'pos', 'scaled'), dt='float64'),
              f=gen.pick(draw, 'det', 'slogdet', 'inv', 'chol'))


@CHECK.op('kronecker', gen_kron, quick=400)
def kronecker(case):
  x, f = Arg(case['x']), case['f']
  cores = x.cores
  if f == 'chol' or f == 'inv':
    # Well conditioned positive definite factors.
    new = []
    for c in cores:
      m = c[:, 0, :, :, 0]
      g = np.matmul(m, np.swapaxes(m, 1, 2))
      g = g / np.abs(g).max(axis=(1, 2), keepdims=True)
      g = g + np.eye(g.shape[-1]) * 0.5
      new.append(g[:, None, :, :, None])
    cores = new
  obj = core.make_tt(cores, True)
  one = lambda i: core.make_tt([c[i] for c in cores], False)
  k = t3f.kronecker
  if f == 'det':
    res = core.to_np(k.determinant(obj))
    want = np.array([core.to_np(k.determinant(one(i))) for i in range(x.bs)])
    require(res.shape == want.shape and np.allclose(res, want, rtol=1e-9,
                                                    atol=0), 'det %s %s', res,
            want)
  elif f == 'slogdet':
    s, l = [core.to_np(t) for t in k.slog_determinant(obj)]
    for i in range(x.bs):
      s1, l1 = [core.to_np(t) for t in k.slog_determinant(one(i))]
      require(s[i] == s1 and np.allclose(l[i], l1, rtol=1e-9, atol=1e-9),
              'slogdet of element %d', i)
  else:
    fn = k.inv if f == 'inv' else k.cholesky
    parts = [fn(one(i)) for i in range(x.bs)]
    scales = [np.abs(dense(p)).max() for p in parts]
    same_tt(fn(obj), parts, scales, 'float64', f)


def gen_forms(draw):
  d = gen.pick(draw, 1, 2, 3)
  hi = {1: 5, 2: 4}.get(d, 3)
  n, m, k = gen.mode_lists(draw, 3, d, hi)
  dt = gen.dtype(draw)
  bs = gen.pick(draw, 1, 2, 3)
  bx, by = gen.pick(draw, (bs, bs), (bs, bs), (bs, None), (None, bs))
  one = [1] * d
  mk = lambda a, b, c: gen.tt(draw, 'matrix', n=a, m=b, bs=c, dt=dt, maxr=3,
                              fills=FILLS if c else gen.REGULAR)
  if gen.flag(draw):
    return dict(x=mk(n, one, bx), A=mk(n, m, None), y=mk(m, one, by))
  return dict(x=mk(n, one, bx), A=mk(n, m, None), B=mk(m, k, None),
              y=mk(k, one, by))


@CHECK.op('bilinear', gen_forms, quick=500)
def bilinear(case):
  x, A, y = [Arg(case[k]) for k in 'xAy']
  B = Arg(case['B']) if 'B' in case else None
  if B is None:
    f = lambda p, q: t3f.bilinear_form(A.tt, p, q)
  else:
    f = lambda p, q: t3f.ops.bilinear_form_two_mat(p, A.tt, B.tt, q)
  res = f(x.tt, y.tt)
  part = lambda z, i: z.tt if z.bs is None else item(z, i)
  bs = x.bs or y.bs
  parts = [f(part(x, i), part(y, i)) for i in range(bs)]
  scales = np.ones(bs) * x.q * A.q * y.q * (1 if B is None else B.q)
  same_num(res, parts, scales, A.dtype, 'bilinear')
  if B is None and x.bs is not None and y.bs is not None:
    pair = core.to_np(t3f.pairwise_flat_inner(x.tt, y.tt, A.tt))
    require(pair.shape == (x.bs, y.bs), 'pairwise shape')
    same_num(np.diag(pair).copy(), parts, scales, A.dtype, 'pairwise')


# --------------------------------------------- all operations of the catalog


# Results which follow the batch element by element; weights are sliced too.
FOLLOW = ('full', 'round', 'orthogonalize', 'renormalize', 'neg', 'norm2',
          'norm2-diff', 'norm', 'norm-diff', 'transpose', 'l2', 'scale', 'cast',
          'kron-determinant', 'kron-slog_determinant', 'kron-inv',
          'kron-cholesky', 'add', 'sub', 'mul', 'flat_inner', 'project',
          'matmul', 'bilinear_form', 'bilinear_form_two_mat', 'multiply_along',
          'project_matmul', 'add_n-projected', 'deltas', 'approximate-add_n')


def gen_follow(draw):
  case = catalog.gen_case(draw, FOLLOW)
  if case['f'] == 'approximate-add_n':
    case['p']['cap'] = 50  # Truncation may amplify round-off.
  case['x'] = case['tt']['x']
  return case


@CHECK.op('catalog', gen_follow, quick=1500)
def follow(case):
  f = case['f']
  tts, arrays = catalog.arguments(case)
  sizes = [x.bs for x in tts.values() if x.bs is not None]
  if not sizes:
    raise core.Skip('no batch')
  bs = max(sizes)
  res = catalog.flatten(catalog.call(case, {k: x.tt for k, x in tts.items()},
                                     arrays))
  scale = catalog.scale_of(case, tts, arrays)
  dt = 'float32' if case['p'].get('to') == 'float32' else tts['x'].dtype
  for i in range(bs):
    part = {k: x.tt if x.bs is None else item(x, 0 if x.bs == 1 else i)
            for k, x in tts.items()}
    weights = dict(arrays)
    if f == 'multiply_along':
      # The weight of an element alone is a number.
      alone = [part['x'] * float(arrays['w'][i])]
    else:
      if 'w' in weights and weights['w'].ndim == 2:
        weights['w'] = weights['w'][:, i]
      alone = catalog.flatten(catalog.call(case, part, weights))
    require(len(alone) == len(res), '%s: number of results', f)
    for r, a in zip(res, alone):
      require(core.is_tt(r) == core.is_tt(a), '%s: kinds', f)
      if core.is_tt(r):
        require(isinstance(r, t3f.TensorTrainBatch) and
                isinstance(a, t3f.TensorTrain), '%s: not a batch', f)
        r, a = dense(r), dense(a)
      else:
        r, a = core.to_np(r), core.to_np(a)
      require(r.shape == (bs,) + a.shape, '%s: shape %s, of an element %s', f,
              r.shape, a.shape)
      core.close(r[i], a, scale + np.max(np.abs(a)), dt,
                 '%s, element %d' % (f, i), tol=2 * core.TOL[dt])


# Pairs and sums: elements of the result are functions of some elements.
PAIRS = ('pairwise', 'gram', 'pairwise-matrix', 'pairwise-projected', 'gather',
         'index', 'concat', 'project_sum')


def gen_pairs(draw):
  case = catalog.gen_case(draw, PAIRS)
  case['x'] = case['tt']['x']
  return case


@CHECK.op('pairs', gen_pairs, quick=600)
def pairs(case):
  f = case['f']
  tts, arrays = catalog.arguments(case)
  x = tts['x']
  if x.bs is None:
    raise core.Skip('no batch')
  objs = {k: t.tt for k, t in tts.items()}
  call = lambda o, a=arrays: catalog.call(case, o, a)
  res = call(objs)
  scale = catalog.scale_of(case, tts, arrays)
  tol = 2 * core.TOL[x.dtype]
  if f in ('pairwise', 'gram', 'pairwise-matrix', 'pairwise-projected'):
    other = {'gram': 'x', 'pairwise-projected': 'z'}.get(f, 'y')
    y = tts[other]
    res = core.to_np(res)
    require(res.shape == (x.bs, y.bs), '%s: shape %s', f, res.shape)
    for i in range(x.bs):
      for j in range(y.bs):
        a, b = item(x, i), item(y, j)
        if f == 'pairwise-matrix':
          want = t3f.bilinear_form(objs['A'], a, b)
        elif f == 'pairwise-projected':
          want = t3f.flat_inner(t3f.project(a, objs['y']),
                                t3f.project(b, objs['y']))
        else:
          want = t3f.flat_inner(a, b)
        core.close(res[i, j], core.to_np(want), scale, x.dtype,
                   '%s, elements %d and %d' % (f, i, j), tol=tol)
  elif f == 'gather':
    res = core.to_np(res)
    idx = arrays['i'].reshape(-1, arrays['i'].shape[-1])
    require(res.shape == arrays['i'].shape[:-1], 'gather: shape')
    for got, ind in zip(res.reshape(-1), idx):
      want = t3f.gather_nd(item(x, ind[0]), ind[None, 1:])[0]
      core.close(got, core.to_np(want), scale, x.dtype, 'gather', tol=tol)
  elif f == 'index':
    b, rest = case['p']['idx'][0], case['p']['idx'][1:]
    rest = tuple(slice(*i) if isinstance(i, list) else i for i in rest)
    which = list(range(*b)) if isinstance(b, list) else [b]
    got = dense(res)
    require(isinstance(res, t3f.TensorTrainBatch) == isinstance(b, list),
            'index: kind')
    got = got if isinstance(b, list) else got[None]
    require(len(got) == len(which), 'index: %d elements', len(got))
    for g, i in zip(got, which):
      core.close(g, dense(item(x, i)[rest]), scale, x.dtype, 'index', tol=tol)
  elif f == 'concat':
    elements = [item(t, i) for t in (x, tts['y']) for i in range(t.bs)]
    same_tt(res, elements, [scale] * len(elements), x.dtype, f)
  else:
    w = arrays.get('w')
    columns = 1 if w is None or w.ndim == 1 else w.shape[1]
    parts = [dense(t3f.project(item(x, i), objs['y'])) for i in range(x.bs)]
    got = dense(res)
    if w is not None and w.ndim == 2:
      require(isinstance(res, t3f.TensorTrainBatch), 'project_sum: kind')
    else:
      require(isinstance(res, t3f.TensorTrain), 'project_sum: kind')
      got = got[None]
    require(len(got) == columns, 'project_sum: %d elements', len(got))
    w = np.ones((x.bs, 1)) if w is None else w.reshape(x.bs, -1)
    for c in range(columns):
      want = sum(w[i, c] * parts[i] for i in range(x.bs))
      core.close(got[c], want, scale, x.dtype, 'project_sum', tol=tol)
