"""C11: batch-level operations."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import Arg, require

CHECK = core.Check('C11')


def flat(x, bs):
  return x.reshape(bs, -1)


def gen_pairwise(draw):
  x = gen.tt(draw, bs='yes', size=600)
  return dict(x=x, y=gen.like(draw, x, bs=gen.batch(draw, 'yes')))


@CHECK.op('pairwise', gen_pairwise, quick=800)
def pairwise(case):
  x, y = Arg(case['x']), Arg(case['y'])
  want = flat(x.d, x.bs).dot(flat(y.d, y.bs).T)
  scale = flat(x.a, x.bs).dot(flat(y.a, y.bs).T)
  core.expect_dense(t3f.pairwise_flat_inner(x.tt, y.tt), want, scale, x.dtype)


@CHECK.op('gram', lambda draw: dict(x=gen.tt(draw, bs='yes', size=600)),
          quick=500)
def gram(case):
  x = Arg(case['x'])
  v, a = flat(x.d, x.bs), flat(x.a, x.bs)
  core.expect_dense(t3f.gram_matrix(x.tt), v.dot(v.T), a.dot(a.T), x.dtype)


def gen_vectors(draw):
  d = gen.pick(draw, 1, 2, 2, 3, 3, 4)
  hi = {1: 8, 2: 5, 3: 4, 4: 3}[d]
  n, m = gen.mode_lists(draw, 2, d, hi)
  dt = gen.dtype(draw)
  one = [1] * d
  return dict(A=gen.tt(draw, 'matrix', n=n, m=m, bs='no', dt=dt, maxr=3),
              x=gen.tt(draw, 'matrix', n=n, m=one, bs='yes', dt=dt, maxr=3),
              y=gen.tt(draw, 'matrix', n=m, m=one, bs='yes', dt=dt, maxr=3))


@CHECK.op('pairwise-matrix', gen_vectors, quick=800)
def pairwise_matrix(case):
  A, x, y = [Arg(case[k]) for k in 'Axy']
  want = x.d[..., 0].dot(A.d).dot(y.d[..., 0].T)
  scale = x.a[..., 0].dot(A.a).dot(y.a[..., 0].T)
  core.expect_dense(t3f.pairwise_flat_inner(x.tt, y.tt, A.tt), want, scale,
                    x.dtype)


def gen_gram_matrix(draw):
  case = gen_vectors(draw)
  n, dt = case['A']['n'], case['A']['dtype']
  case['A'] = gen.tt(draw, 'matrix', n=n, m=n, bs='no', dt=dt, maxr=3)
  del case['y']
  return case


@CHECK.op('gram-matrix', gen_gram_matrix, quick=500)
def gram_matrix(case):
  A, x = [Arg(case[k]) for k in 'Ax']
  v, a = x.d[..., 0], x.a[..., 0]
  core.expect_dense(t3f.gram_matrix(x.tt, A.tt), v.dot(A.d).dot(v.T),
                    a.dot(A.a).dot(a.T), x.dtype)


def gen_concat(draw):
  x = gen.tt(draw, bs='yes', size=600)
  more = [dict(gen.like(draw, x, bs=gen.batch(draw, 'yes')), r=x['r'])
          for _ in range(gen.integer(draw, 0, 3))]
  return dict(xs=[x] + more)


@CHECK.op('concat', gen_concat, quick=600)
def concat(case):
  xs = [Arg(s) for s in case['xs']]
  res = t3f.concat_along_batch_dim([x.tt for x in xs])
  ref = xs[0].ref.like(np.concatenate([x.d for x in xs]),
                       np.concatenate([x.a for x in xs]),
                       bs=sum(x.bs for x in xs))
  core.expect_tt(res, ref, max_r=xs[0].r)
  require([int(r) for r in res.get_tt_ranks()] == xs[0].r, 'ranks changed')


def gen_along(draw):
  x = gen.tt(draw, bs='yes', size=600)
  return dict(x=x, w=[gen.pick(draw, 1.0, 0.0, -2.0, 0.5, 3.25, -0.125)
                      for _ in range(x['bs'])],
              feed=gen.pick(draw, 'tensor', 'array', 'list', 'variable'))


@CHECK.op('along', gen_along, quick=600)
def along(case):
  x, w = Arg(case['x']), np.array(case['w'])
  arg = {'tensor': lambda: tf.constant(w, dtype=x.dtype),
         'array': lambda: w.astype(x.dtype), 'list': lambda: list(case['w']),
         'variable': lambda: tf.Variable(w.astype(x.dtype))}[case['feed']]()
  res = t3f.multiply_along_batch_dim(x.tt, arg)
  ww = w.reshape([-1] + [1] * (x.d.ndim - 1))
  core.expect_tt(res, x.ref.like(ww * x.d, np.abs(ww) * x.a), max_r=x.r)


@CHECK.op('expand-squeeze', lambda draw: dict(x=gen.tt(draw, size=600)),
          quick=500)
def expand_squeeze(case):
  x = Arg(case['x'])
  if x.bs is None:
    one = x.ref.like(x.d[None], x.a[None], bs=1)
    core.expect_tt(t3f.expand_batch_dim(x.tt), one, 'expand', max_r=x.r)
    core.expect_tt(t3f.squeeze_batch_dim(x.tt), x.ref, 'squeeze', max_r=x.r)
    core.expect_tt(t3f.squeeze_batch_dim(t3f.expand_batch_dim(x.tt)), x.ref,
                   'squeeze(expand)', max_r=x.r)
  else:
    core.expect_tt(t3f.expand_batch_dim(x.tt), x.ref, 'expand', max_r=x.r)
    ref = x.ref
    if x.bs == 1:
      ref = x.ref.like(x.d[0], x.a[0], bs=None)
    core.expect_tt(t3f.squeeze_batch_dim(x.tt), ref, 'squeeze', max_r=x.r)
