"""C05: rounding."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import Arg, require
from harness.checks import c04

CHECK = core.Check('C05', assumptions=[
    'NumPy SVD of the unfoldings in float64 is taken as the truth',
    'round-off 1e-10/3e-5 relative to the product of norms of the cores'])


def interleave(x, n, m):
  if m is None:
    return x
  d = len(n)
  y = x.reshape(list(n) + list(m))
  y = y.transpose([i for k in range(d) for i in (k, d + k)])
  return y.reshape([a * b for a, b in zip(n, m)])


def judge(res, x, caps, eps=None, ranks=None):
  """res is the rounding of the Arg x with the given caps."""
  d = len(x.n)
  shape = [a * b for a, b in zip(x.n, x.m or [1] * d)]
  lim = [min(caps[k], x.r[k]) for k in range(d + 1)]
  if not eps:
    lim = [min(lim[k], core.prod(shape[:k]), core.prod(shape[k:]))
           for k in range(d + 1)]
  cores, got_r = core.check_structure(res, x.matrix, x.n, x.m, x.bs, x.dtype,
                                      max_r=lim)
  got = core.contract(cores, x.matrix, x.bs is not None)
  if x.bs is None:
    got, want, q = [got], [x.d], [x.q]
  else:
    got, want, q = list(got), list(x.d), list(x.q)
  for b in range(len(got)):
    err = np.linalg.norm(got[b] - want[b])
    require(np.isfinite(err), 'element %d is not finite', b)
    bound = np.sqrt(c04.tails(interleave(want[b], x.n, x.m), caps))
    bound = bound * (1 + 1e-6)
    if eps:
      bound += eps * np.linalg.norm(want[b])
    tol = core.TOL[x.dtype] * q[b] * (1 + d)
    require(err <= bound + tol, 'element %d: error %.5g exceeds the bound '
            '%.5g + %.2g', b, err, bound, tol)


def gen_round(draw, **kw):
  x = gen.tt(draw, size=500, **kw)
  return dict(x=x, cap=c04.gen_cap(draw, len(x['n']), 5),
              style=gen.pick(draw, 'plain', 'array', 'tuple'),
              eps=gen.pick(draw, None, None, None, 0.0, 0.1))


def run_round(case):
  x = Arg(case['x'])
  caps = c04.caps_list(case['cap'], len(x.n), 'inf')
  res = t3f.round(x.tt, **c04.kwargs(case))
  judge(res, x, caps, case['eps'])
  after = core.result_cores(x.tt)
  for a, b in zip(after, x.cores):
    require(np.array_equal(a, b), 'the argument was modified')


CHECK.op('single', lambda draw: gen_round(draw, bs='no', maxr=5), quick=900)(
    run_round)
CHECK.op('batch', lambda draw: gen_round(draw, bs='yes', maxr=5), quick=900)(
    run_round)
CHECK.op('deficient', lambda draw: gen_round(
    draw, maxr=9, fills=('deficient', 'sparse', 'zerocore', 'normal')),
         quick=400)(run_round)


def gen_redundant(draw):
  """A sum of an object with itself: exact rank is known to be smaller."""
  x = gen.tt(draw, size=500, fills=gen.REGULAR, maxr=3)
  return dict(x=x, times=gen.integer(draw, 2, 3))


@CHECK.op('redundant', gen_redundant, quick=500)
def redundant(case):
  x = Arg(case['x'])
  y = x.tt
  for _ in range(case['times'] - 1):
    y = y + x.tt
  res = t3f.round(y, max_tt_rank=list(x.r))
  ref = x.ref.like(case['times'] * x.d, case['times'] * x.a)
  q = case['times'] ** len(x.n) * x.q
  scale = q if x.bs is None else q.reshape([-1] + [1] * (x.d.ndim - 1))
  core.expect_tt(res, ref, max_r=x.r, scale=scale)
