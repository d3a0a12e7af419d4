"""C08: matrix products and transposes."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import Arg, require

CHECK = core.Check('C08')


def gen_mm(draw):
  d = gen.pick(draw, 1, 2, 2, 3, 3, 4, 5)
  hi = {1: 7, 2: 5, 3: 4, 4: 2}.get(d, 2)
  n, k, m = gen.mode_lists(draw, 3, d, hi)
  vec = gen.pick(draw, '', '', 'col', 'row', 'inner')
  if vec == 'col':
    m = [1] * d
  elif vec == 'row':
    n = [1] * d
  elif vec == 'inner':
    k = [1] * d
  dt = gen.dtype(draw)
  x = gen.tt(draw, 'matrix', n=n, m=k, dt=dt, maxr=3)
  y = gen.tt(draw, 'matrix', n=k, m=m, dt=dt, maxr=3,
             bs=gen.partner_batch(draw, x['bs']))
  return dict(x=x, y=y)


def product(x, y):
  bs = core.bcast([x.bs, y.bs])
  d, a = np.matmul(x.d, y.d), np.matmul(x.a, y.a)
  return core.Ref(d, a, x.n, y.m, bs, x.dtype)


@CHECK.op('tt-tt', gen_mm, quick=1200)
def tt_tt(case):
  x, y = Arg(case['x']), Arg(case['y'])
  core.expect_tt(t3f.matmul(x.tt, y.tt), product(x, y), 'product',
                 max_r=[a * b for a, b in zip(x.r, y.r)])


def gen_dense(draw):
  x = gen.tt(draw, 'matrix', bs='no', size=1200)
  return dict(x=x, cols=gen.pick(draw, 1, 2, 3, 5, 8,
                                       core.prod(x['n']), core.prod(x['m'])), fill=gen.pick(
      draw, 'normal', 'int'), side=gen.pick(draw, 'right', 'left'))


@CHECK.op('tt-dense', gen_dense, quick=1200)
def tt_dense(case):
  x = Arg(case['x'])
  rng = np.random.RandomState(case['seed'] % 2 ** 32)
  rows = x.d.shape[1] if case['side'] == 'right' else x.d.shape[0]
  v = rng.randn(rows, case['cols'])
  if case['fill'] == 'int':
    v = np.round(v)
  if case['side'] == 'left':
    v = np.ascontiguousarray(v.T)
  v = v.astype(x.dtype)
  if case['side'] == 'right':
    res = t3f.matmul(x.tt, tf.constant(v))
    want, scale = x.d.dot(v), x.a.dot(np.abs(v))
  else:
    res = t3f.matmul(tf.constant(v), x.tt)
    want, scale = v.astype(np.float64).dot(x.d), np.abs(v).dot(x.a)
  core.expect_dense(res, want, np.max(scale), x.dtype)


@CHECK.op('transpose', lambda draw: dict(x=gen.tt(draw, 'matrix', size=1500)),
          quick=800)
def transpose(case):
  x = Arg(case['x'])
  ref = core.Ref(np.swapaxes(x.d, -1, -2), np.swapaxes(x.a, -1, -2), x.m, x.n,
                 x.bs, x.dtype)
  res = t3f.transpose(x.tt)
  core.expect_tt(res, ref, 'transpose', max_r=x.r)
  core.expect_tt(t3f.transpose(res), x.ref, 'double transpose', max_r=x.r)


def gen_chain(draw):
  d = gen.pick(draw, 1, 2, 3, 4)
  hi = {1: 5, 2: 3}.get(d, 2)
  n, k, m, p = gen.mode_lists(draw, 4, d, hi)
  dt = gen.dtype(draw)
  mk = lambda a, b: gen.tt(draw, 'matrix', n=a, m=b, bs='no', dt=dt, maxr=2,
                           fills=gen.REGULAR)
  return dict(x=mk(n, k), y=mk(k, m), z=mk(m, p))


@CHECK.op('chain', gen_chain, quick=300)
def chain(case):
  """(xy)z = x(yz) = dense, (xy)^T = y^T x^T, and eye is neutral."""
  x, y, z = Arg(case['x']), Arg(case['y']), Arg(case['z'])
  ref = core.Ref(x.d.dot(y.d).dot(z.d), x.a.dot(y.a).dot(z.a), x.n, z.m, None,
                 x.dtype)
  core.expect_tt(t3f.matmul(t3f.matmul(x.tt, y.tt), z.tt), ref, '(xy)z')
  core.expect_tt(t3f.matmul(x.tt, t3f.matmul(y.tt, z.tt)), ref, 'x(yz)')
  ref = core.Ref(x.d.dot(y.d).T, x.a.dot(y.a).T, y.m, x.n, None, x.dtype)
  core.expect_tt(t3f.matmul(t3f.transpose(y.tt), t3f.transpose(x.tt)), ref,
                 'y^T x^T')
  one = t3f.eye(x.n, dtype=tf.as_dtype(x.dtype))
  core.expect_tt(t3f.matmul(one, x.tt), x.ref, 'eye x', max_r=x.r)
