"""C10: bilinear forms."""
import numpy as np
import t3f
from harness import core, gen
from harness.core import Arg, require

CHECK = core.Check('C10')


def vec_batch(draw):
  """Batch sizes of the two vectors."""
  b = gen.pick(draw, 1, 2, 3, 4)
  return gen.pick(draw, (None, None), (b, None), (None, b), (b, b))


def gen_form(draw):
  d = gen.pick(draw, 1, 2, 2, 3, 3, 4, 5)
  hi = {1: 8, 2: 6, 3: 4, 4: 3}.get(d, 2)
  n, m = gen.mode_lists(draw, 2, d, hi)
  if gen.pick(draw, True, False, False):
    m = list(n)
  dt = gen.dtype(draw)
  b1, b2 = vec_batch(draw)
  one = [1] * d
  return dict(A=gen.tt(draw, 'matrix', n=n, m=m, bs='no', dt=dt),
              b=gen.tt(draw, 'matrix', n=n, m=one, bs=b1, dt=dt),
              c=gen.tt(draw, 'matrix', n=m, m=one, bs=b2, dt=dt),
              old=gen.pick(draw, False, False, False, True))


def evaluate(b, mid, c):
  """b^T mid c per element."""
  res = np.einsum('...ik,ij,...jk->...', b, mid, c)
  return res


@CHECK.op('bilinear', gen_form, quick=1500)
def bilinear(case):
  A, b, c = Arg(case['A']), Arg(case['b']), Arg(case['c'])
  f = t3f.quadratic_form if case['old'] else t3f.bilinear_form
  core.expect_dense(f(A.tt, b.tt, c.tt), evaluate(b.d, A.d, c.d),
                    evaluate(b.a, A.a, c.a), A.dtype, 'b^T A c')


def gen_two(draw):
  d = gen.pick(draw, 1, 2, 2, 3, 4)
  hi = {1: 6, 2: 4, 3: 3}.get(d, 2)
  n, k, m = gen.mode_lists(draw, 3, d, hi)
  if gen.pick(draw, True, False, False):
    k, m = list(n), list(n)
  dt = gen.dtype(draw)
  b1, b2 = vec_batch(draw)
  one = [1] * d
  mk = lambda a, b, bs: gen.tt(draw, 'matrix', n=a, m=b, bs=bs, dt=dt, maxr=3)
  return dict(x=mk(n, one, b1), A=mk(n, k, None), B=mk(k, m, None),
              y=mk(m, one, b2))


@CHECK.op('two-matrices', gen_two, quick=900)
def two(case):
  x, A, B, y = [Arg(case[k]) for k in 'xABy']
  core.expect_dense(t3f.ops.bilinear_form_two_mat(x.tt, A.tt, B.tt, y.tt),
                    evaluate(x.d, A.d.dot(B.d), y.d),
                    evaluate(x.a, A.a.dot(B.a), y.a), A.dtype, 'x^T A B y')
