"""C09: inner products and norms."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import Arg, require

CHECK = core.Check('C09')


def gen_pair(draw):
  x = gen.tt(draw, size=1200)
  return dict(x=x, y=gen.like(draw, x, bs=gen.partner_batch(draw, x['bs'])))


@CHECK.op('inner', gen_pair, quick=1500)
def inner(case):
  x, y = Arg(case['x']), Arg(case['y'])
  bs = core.bcast([x.bs, y.bs])
  (xd, xa), (yd, ya) = [core.lift(z, bs or 1) for z in (x, y)]
  want = (xd * yd).reshape(bs or 1, -1).sum(1)
  scale = (xa * ya).reshape(bs or 1, -1).sum(1)
  if bs is None:
    want, scale = want[0], scale[0]
  core.expect_dense(t3f.flat_inner(x.tt, y.tt), want, scale, x.dtype, 'inner')


def gen_sparse(draw):
  x = gen.tt(draw, size=1200, bs='no')
  return dict(x=x, count=gen.pick(draw, 0, 1, 2, 3, 7, 20, 60),
              style=gen.pick(draw, 'any', 'any', 'corner', 'line'),
              order=gen.flag(draw))


@CHECK.op('sparse', gen_sparse, quick=900)
def sparse(case):
  x = Arg(case['x'])
  rng = np.random.RandomState(case['seed'] % 2 ** 32)
  shape = x.d.shape
  count = min(case['count'], x.d.size)
  if case['style'] == 'line':
    axis = rng.randint(len(shape))
    base = [rng.randint(s) for s in shape]
    count = min(count, shape[axis])
    pos = rng.permutation(shape[axis])[:count]
    lin = []
    for p in pos:
      base[axis] = p
      lin.append(int(np.ravel_multi_index(base, shape)))
    lin = np.array(lin, dtype=int)
  else:
    lin = rng.permutation(x.d.size)[:count]
    if case['style'] == 'corner' and count:
      lin = np.unique(np.append(lin[:-1], x.d.size - 1))
      rng.shuffle(lin)
  if case['order']:
    lin = np.sort(lin)
  idx = np.stack(np.unravel_index(lin, shape), 1).astype(np.int64)
  idx = idx.reshape(len(lin), len(shape))
  val = rng.randn(len(lin)).astype(x.dtype)
  sp = tf.SparseTensor(idx, val, shape)
  want = float((x.d.reshape(-1)[lin] * val).sum())
  scale = float((x.a.reshape(-1)[lin] * np.abs(val)).sum())
  core.expect_dense(t3f.flat_inner(x.tt, sp), want, scale, x.dtype, 'inner')


def gen_norm(draw):
  return dict(x=gen.tt(draw, size=1500, maxr=5, fills=gen.FILLS + ('small',)),
              diff=gen.pick(draw, None, True, False),
              eps=gen.pick(draw, None, None, 0.0, 1e-5, 1e-2, 3.0))


@CHECK.op('norm-squared', gen_norm, quick=1000)
def norm2(case):
  x = Arg(case['x'])
  want = (x.d ** 2).reshape(x.bs or 1, -1).sum(1)
  scale = np.reshape(x.q ** 2, -1)
  if x.bs is None:
    want, scale = want[0], scale[0]
  kw = {} if case['diff'] is None else dict(differentiable=case['diff'])
  core.expect_dense(t3f.frobenius_norm_squared(x.tt, **kw), want, scale,
                    x.dtype, 'norm squared')


@CHECK.op('norm', gen_norm, quick=1000)
def norm(case):
  x = Arg(case['x'])
  want = (x.d ** 2).reshape(x.bs or 1, -1).sum(1)
  scale = np.reshape(x.q ** 2, -1)
  if x.bs is None:
    want, scale = want[0], scale[0]
  kw = {} if case['diff'] is None else dict(differentiable=case['diff'])
  eps = case['eps']
  if eps is not None:
    kw['epsilon'] = eps
  else:
    eps = 1e-5
  res = core.to_np(t3f.frobenius_norm(x.tt, **kw))
  require(res.dtype == np.dtype(x.dtype), 'dtype %s', res.dtype)
  # Compare squares: the root is ill-conditioned near zero.  A negative zero
  # argument of the root within round-off gives nan; only possible without eps.
  res = res.astype(np.float64)
  if not case['eps'] == 0.0:
    require(np.all(np.isfinite(res)), 'norm is not finite')
  res = np.where(np.isfinite(res), res, 0.0)
  core.close(res ** 2, want + eps, 2 * (scale + eps), x.dtype, 'norm^2')
  require(np.all(res >= 0), 'negative norm')


@CHECK.op('norm-laws', lambda draw: dict(
    x=gen.tt(draw, size=800, fills=gen.REGULAR), c=gen.integer(draw, -6, 6)),
          quick=400)
def laws(case):
  """|c x|^2 = c^2 |x|^2 = c^2 <x, x>, also after a renormalization."""
  x, c = Arg(case['x']), case['c']
  want = (x.d ** 2).reshape(x.bs or 1, -1).sum(1) * c * c
  scale = np.reshape(x.q ** 2, -1) * c * c
  if x.bs is None:
    want, scale = want[0], scale[0]
  y = x.tt * float(c)
  core.expect_dense(t3f.frobenius_norm_squared(y), want, scale, x.dtype, 'cx')
  core.expect_dense(t3f.flat_inner(y, y), want, scale, x.dtype, '<cx,cx>')
