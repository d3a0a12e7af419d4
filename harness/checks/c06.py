"""C06: orthogonalization and renormalization."""
import numpy as np
import t3f
from harness import core, gen
from harness.core import Arg, require

CHECK = core.Check('C06', assumptions=[
    'round-off 1e-10/3e-5 relative to the product of norms of the cores'])


def per_item(q, x):
  return q if x.bs is None else np.reshape(q, [-1] + [1] * (x.d.ndim - 1))


def gen_ortho(draw, **kw):
  return dict(x=gen.tt(draw, size=600, **kw), left=gen.flag(draw),
              default=gen.flag(draw))


def ortho(case):
  x = Arg(case['x'])
  left = case['left'] or x.bs is not None
  if left and case['default']:
    res = t3f.orthogonalize_tt_cores(x.tt)
  else:
    res = t3f.orthogonalize_tt_cores(x.tt, left_to_right=left)
  core.expect_tt(res, x.ref, max_r=x.r, scale=per_item(x.q, x))
  cores = core.result_cores(res)
  d = len(cores)
  tol = 1e-9 if x.dtype == 'float64' else 1e-4
  for b in range(x.bs or 1):
    for k in (range(d - 1) if left else range(1, d)):
      c = (cores[k] if x.bs is None else cores[k][b]).astype(np.float64)
      u = c.reshape(-1, c.shape[-1]) if left else c.reshape(c.shape[0], -1).T
      g = u.T.dot(u)
      require(np.allclose(g, np.eye(len(g)), atol=tol),
              'core %d of element %d is not orthonormal', k, b)
  for a, b in zip(core.result_cores(x.tt), x.cores):
    require(np.array_equal(a, b), 'the argument was modified')


CHECK.op('ortho', gen_ortho, quick=1200)(ortho)
CHECK.op('ortho-overrank', lambda draw: gen_ortho(
    draw, maxr=9, fills=('normal', 'deficient', 'sparse', 'int')), quick=500)(
        ortho)


def gen_renorm(draw):
  return dict(x=gen.tt(draw, size=600, fills=gen.FILLS + ('small',)),
              eps=gen.pick(draw, None, None, 1e-8, 1e-4, 1e-12, 0.5))


@CHECK.op('renorm', gen_renorm, quick=1200)
def renorm(case):
  x = Arg(case['x'])
  if case['eps'] is None:
    res = t3f.renormalize_tt_cores(x.tt)
  else:
    res = t3f.renormalize_tt_cores(x.tt, epsilon=case['eps'])
  core.expect_tt(res, x.ref, max_r=x.r, scale=core.item_max(x.a, x.bs) * 3)
  cores = [c.astype(np.float64) for c in core.result_cores(res)]
  require([c.shape for c in cores] == [c.shape for c in x.cores],
          'shapes of the cores changed')
  eps = 1e-8 if case['eps'] is None else case['eps']
  for b in range(x.bs or 1):
    pick = (lambda c: c) if x.bs is None else (lambda c: c[b])
    before = [np.linalg.norm(pick(c).astype(np.float64)) for c in x.cores]
    after = [np.linalg.norm(pick(c)) for c in cores]
    if min(before) ** 2 > eps * 1.01:
      want = np.exp(np.mean(np.log(before)))
      tol = 1e-9 if x.dtype == 'float64' else 1e-4
      require(np.allclose(after, want, rtol=tol), 'norms of the cores %s '
              'instead of %.6g each', after, want)
