"""C15: arithmetic of elements of one tangent space."""
import numpy as np
import tensorflow as tf
import t3f
from t3f import riemannian
from harness import core, gen
from harness.core import Arg, require, must_raise

CHECK = core.Check('C15', assumptions=[
    'values of tangent vectors are taken from their cores by dense '
    'contraction; that they are right is C14',
    'tolerance 1e-10/3e-5 of the norms of the arguments'])

COEF = (0.0, 1.0, -1.0, 0.5, 3.0, -7.25, 100.0)


def dense(obj):
  cores = core.result_cores(obj)
  batch = isinstance(obj, t3f.TensorTrainBatch)
  return core.contract(cores, cores[0].ndim - batch == 4, batch)


def gen_vector(draw, x, bs):
  """How a tangent vector (or a batch of them) is obtained."""
  matrix = x['m'] is not None
  how = gen.pick(draw, 'project', 'project', 'sum', 'self',
                 *(['matmul'] if matrix else []))
  v = dict(how=how, z=gen.like(draw, x, bs=bs, maxr=3))
  if how == 'sum':
    k = gen.integer(draw, 1, 3)
    v['z'] = gen.like(draw, x, bs=k, maxr=3)
    if bs is None:
      v['w'] = [gen.pick(draw, *COEF) for _ in range(k)]
    else:
      v['w'] = [[gen.pick(draw, *COEF) for _ in range(bs)] for _ in range(k)]
  elif how == 'matmul':
    v['a'] = gen.tt(draw, 'matrix', n=x['n'], m=x['n'], bs='no',
                    dt=x['dtype'], maxr=2)
  return v


def vector(v, x, bs):
  """(tangent vector, scale)."""
  z = Arg(v['z'])
  if v['how'] == 'project':
    return t3f.project(z.tt, x.tt), np.max(z.q)
  if v['how'] == 'sum':
    w = np.abs(np.array(v['w'])).sum()
    return t3f.project_sum(z.tt, x.tt, v['w']), w * np.sum(z.q)
  if v['how'] == 'matmul':
    a = Arg(v['a'])
    return t3f.project_matmul(z.tt, x.tt, a.tt), a.q * np.max(z.q)
  # The point itself belongs to its tangent space.
  if bs is None:
    return t3f.project(x.tt, x.tt), x.q
  cores = [np.stack([c] * bs) for c in x.cores]
  return t3f.project(core.make_tt(cores, True), x.tt), x.q


def gen_sums(draw):
  x = gen.tt(draw, bs='no', size=250, fills=gen.FILLS)
  bs = gen.pick(draw, None, None, 1, 2, 3)
  k = gen.integer(draw, 1, 4)
  vs = [gen_vector(draw, x, bs) for _ in range(k)]
  # A program of sums: every sum takes some earlier vectors.
  sums = []
  for i in range(gen.integer(draw, 1, 3)):
    num = gen.integer(draw, 1, 4)
    ids = [gen.integer(draw, 0, k + i - 1) for _ in range(num)]
    style = gen.pick(draw, 'none', 'vector', 'vector',
                     *(['matrix', 'matrix'] if bs else []))
    coef = None
    if style == 'vector':
      coef = [gen.pick(draw, *COEF) for _ in range(num)]
    elif style == 'matrix':
      coef = [[gen.pick(draw, *COEF) for _ in range(bs)] for _ in range(num)]
    sums.append(dict(ids=ids, coef=coef,
                     form=gen.pick(draw, 'list', 'array', 'tensor')))
  return dict(x=x, bs=bs, vs=vs, sums=sums)


@CHECK.op('sums', gen_sums, quick=300)
def sums(case):
  x, bs = Arg(case['x']), case['bs']
  pool = []
  for v in case['vs']:
    t, q = vector(v, x, bs)
    pool.append((t, dense(t), q))
  for s in case['sums']:
    args = [pool[i] for i in s['ids']]
    coef = s['coef']
    if coef is None:
      res = t3f.add_n_projected([a[0] for a in args])
      w = np.ones(len(args))
    else:
      c = coef
      if s['form'] == 'array':
        c = np.array(coef, x.dtype)
      elif s['form'] == 'tensor':
        c = tf.constant(coef, x.dtype)
      res = t3f.add_n_projected([a[0] for a in args], coef=c)
      w = np.array(coef)
    ext = w if w.ndim == 1 else w.reshape(list(w.shape) + [1] * (
        args[0][1].ndim - 1))
    want = sum(ext[i] * args[i][1] for i in range(len(args)))
    q = sum(np.abs(w[i]).max() * args[i][2] for i in range(len(args)))
    cores, ranks = core.check_structure(res, x.matrix, x.n, x.m, bs, x.dtype,
                                        'sum')
    require(ranks == [int(r) for r in args[0][0].get_tt_ranks().as_list()],
            'the sum has ranks %s', ranks)
    core.close(dense(res), want, 4 * q, x.dtype, 'sum of %s' % s['ids'])
    pool.append((res, want, q))
  # Inner products of everything with everything.
  for i in range(len(pool)):
    a, b = pool[i], pool[-1]
    got = core.to_np(t3f.pairwise_flat_inner_projected(a[0], b[0]))
    k = bs or 1
    want = a[1].reshape(k, -1) @ b[1].reshape(k, -1).T
    require(got.dtype == np.dtype(x.dtype), 'dtype of inner products')
    core.close(got, want, 16 * a[2] * b[2], x.dtype, 'inner products')


def gen_inner(draw):
  x = gen.tt(draw, bs='no', size=250, fills=gen.FILLS)
  b1, b2 = [gen.pick(draw, None, 1, 2, 3) for _ in range(2)]
  return dict(x=x, b1=b1, b2=b2, v1=gen_vector(draw, x, b1),
              v2=gen_vector(draw, x, b2))


@CHECK.op('inner', gen_inner, quick=400)
def inner(case):
  x = Arg(case['x'])
  t1, q1 = vector(case['v1'], x, case['b1'])
  t2, q2 = vector(case['v2'], x, case['b2'])
  k1, k2 = case['b1'] or 1, case['b2'] or 1
  got = core.to_np(t3f.pairwise_flat_inner_projected(t1, t2))
  require(got.shape == (k1, k2), 'shape %s', got.shape)
  want = dense(t1).reshape(k1, -1) @ dense(t2).reshape(k2, -1).T
  core.close(got, want, 16 * q1 * q2, x.dtype, 'inner products')


def gen_deltas(draw):
  x = gen.tt(draw, bs='no', size=250, fills=gen.FILLS)
  bs = gen.pick(draw, None, None, 1, 2, 3)
  return dict(x=x, bs=bs, v=gen_vector(draw, x, bs),
              frames=gen.pick(draw, 'none', 'none', 'left', 'both'))


@CHECK.op('deltas', gen_deltas, quick=400)
def deltas(case):
  x, bs = Arg(case['x']), case['bs']
  t, q = vector(case['v'], x, bs)
  ds = t3f.tangent_space_to_deltas(t)
  require(len(ds) == len(x.n), '%d deltas', len(ds))
  off = 0 if bs is None else 1
  ranks = t.get_tt_ranks().as_list()
  half = [1] + [r // 2 for r in ranks[1:-1]] + [1]
  for k, c in enumerate(ds):
    c = core.to_np(c)
    shape = [half[k], x.n[k]] + ([x.m[k]] if x.matrix else []) + [half[k + 1]]
    shape = ([bs] if off else []) + shape
    require(list(c.shape) == shape, 'delta %d has shape %s instead of %s', k,
            c.shape, shape)
  kw = {}
  # Passing the orthogonalized versions is documented as a shortcut; it is
  # valid when the ranks are not redundant.
  if case['frames'] != 'none':
    left = t3f.orthogonalize_tt_cores(x.tt)
    right = t3f.orthogonalize_tt_cores(left, left_to_right=False)
    if left.get_tt_ranks() == right.get_tt_ranks():
      kw['left'] = left
      if case['frames'] == 'both':
        kw['right'] = right
  back = riemannian.deltas_to_tangent_space(ds, x.tt, **kw)
  core.check_structure(back, x.matrix, x.n, x.m, bs, x.dtype, 'round trip')
  core.close(dense(back), dense(t), 4 * q, x.dtype, 'round trip')
  # The result is again an element of the tangent space.
  total = t3f.add_n_projected([back, t])
  core.close(dense(total), 2 * dense(t), 8 * q, x.dtype, 'sum with itself')
  # The norm is the norm of deltas.
  k = bs or 1
  flat = np.concatenate([core.to_np(c).reshape(k, -1) for c in ds], axis=1)
  flat = flat.astype(np.float64)
  core.close((flat ** 2).sum(1), (dense(t).reshape(k, -1) ** 2).sum(1),
             16 * q ** 2, x.dtype, 'norm of deltas')


def gen_foreign(draw):
  x = gen.tt(draw, bs='no', size=200, fills=gen.REGULAR)
  bs = gen.pick(draw, None, 2)
  return dict(x=x, y=gen.like(draw, x, bs='no', fills=gen.REGULAR), bs=bs,
              v=gen_vector(draw, x, bs), w=gen.like(draw, x, bs=bs),
              what=gen.pick(draw, 'other', 'ordinary'),
              where=gen.pick(draw, 'first', 'last', 'both'))


@CHECK.op('foreign', gen_foreign, quick=200)
def foreign(case):
  """Vectors of another tangent space and ordinary objects are rejected."""
  x, y, w = Arg(case['x']), Arg(case['y']), Arg(case['w'])
  good, _ = vector(case['v'], x, case['bs'])
  if case['what'] == 'other':
    bad = t3f.project(w.tt, y.tt)
  else:
    bad = w.tt
    must_raise(lambda: t3f.tangent_space_to_deltas(bad), ValueError,
               'deltas of an ordinary object')
  args = {'first': [bad, good], 'last': [good, bad],
          'both': [good, good, bad]}[case['where']]
  must_raise(lambda: t3f.add_n_projected(args), ValueError, 'foreign sum')
  must_raise(lambda: t3f.pairwise_flat_inner_projected(args[0], args[-1]),
             ValueError, 'foreign inner products')
