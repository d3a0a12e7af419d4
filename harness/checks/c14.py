"""C14: projection on a tangent space."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen, tangent
from harness.core import Arg, require

CHECK = core.Check('C14', assumptions=[
    'NumPy SVD of the unfoldings of the point gives the tangent space',
    'values are compared at regular points; at other points (deficient, zero) '
    'only the laws of an orthogonal projection are checked',
    'tolerance 1e-10/3e-5 times the conditioning of the point'])

POINTS = ('normal', 'normal', 'normal', 'pos', 'int', 'scaled', 'sparse')


def gen_pair(draw, bs='any'):
  x = gen.tt(draw, bs='no', fills=POINTS, size=400)
  return dict(x=x, z=gen.like(draw, x, bs=bs))


def judge(res, want, space, x, bs, scale, what):
  """res is the TT-object of projections of what `want` was computed from."""
  max_r = [1] + [2 * r for r in x.r[1:-1]] + [1]
  cores, _ = core.check_structure(res, x.matrix, x.n, x.m, bs, x.dtype, what,
                                  max_r=max_r)
  got = core.contract(cores, x.matrix, bs is not None)
  require(np.all(np.isfinite(got)), '%s: not finite', what)
  tol = core.TOL[x.dtype] * space.cond
  if not tol < 1e-3:
    return False
  scale = np.asarray(scale, np.float64)
  if bs is not None:
    scale = np.broadcast_to(scale, (bs,)).reshape([bs] + [1] * (got.ndim - 1))
  core.close(got, want, scale, x.dtype, what, tol=tol)
  return True


@CHECK.op('project', gen_pair, quick=600)
def project(case):
  x, z = Arg(case['x']), Arg(case['z'])
  space = tangent.Space(x)
  if z.bs is None:
    want = space.project(z.d)
  else:
    want = np.stack([space.project(v) for v in z.d])
  judge(t3f.project(z.tt, x.tt), want, space, x, z.bs, z.q, 'project')


def gen_sum(draw):
  case = gen_pair(draw, bs=gen.pick(draw, 'any', 'yes', 'yes'))
  b = case['z']['bs']
  rng = lambda: gen.pick(draw, 0.0, 1.0, -1.0, 0.5, 3.0, -7.25, 100.0)
  k = gen.pick(draw, 'none', 'vector', 'matrix', 'matrix')
  case['weights'] = None
  if k == 'vector':
    case['weights'] = [rng() for _ in range(b or 1)]
  elif k == 'matrix':
    cols = gen.integer(draw, 1, 4)
    case['weights'] = [[rng() for _ in range(cols)] for _ in range(b or 1)]
  case['style'] = gen.pick(draw, 'list', 'array', 'tensor')
  return case


@CHECK.op('project-sum', gen_sum, quick=600)
def project_sum(case):
  x, z = Arg(case['x']), Arg(case['z'])
  space = tangent.Space(x)
  w = case['weights']
  arg = w
  if w is not None and case['style'] == 'array':
    arg = np.array(w, dtype=x.dtype)
  elif w is not None and case['style'] == 'tensor':
    arg = tf.constant(w, dtype=x.dtype)
  items = z.ref.items()
  q = np.atleast_1d(z.q)
  if w is None:
    res = t3f.project_sum(z.tt, x.tt)
    w = [1.0] * len(items)
  else:
    res = t3f.project_sum(z.tt, x.tt, arg)
  w = np.array(w)
  if w.ndim == 1:
    want = space.project(sum(a * v for a, v in zip(w, items)))
    bs, scale = None, float((np.abs(w) * q).sum())
  else:
    want = np.stack([space.project(sum(a * v for a, v in zip(col, items)))
                     for col in w.T])
    bs, scale = w.shape[1], (np.abs(w) * q[:, None]).sum(0)
  judge(res, want, space, x, bs, scale, 'project_sum')


def gen_matmul(draw):
  x = gen.tt(draw, 'matrix', bs='no', fills=POINTS, size=300)
  n, m = x['n'], x['m']
  z = gen.tt(draw, 'matrix', n=n, m=m, dt=x['dtype'])
  a = gen.tt(draw, 'matrix', n=n, m=n, bs='no', dt=x['dtype'], maxr=3)
  return dict(x=x, z=z, a=a)


@CHECK.op('project-matmul', gen_matmul, quick=500)
def project_matmul(case):
  x, z, a = [Arg(case[k]) for k in 'xza']
  space = tangent.Space(x)
  prods = [a.d @ v for v in z.ref.items()]
  want = [space.project(p) for p in prods]
  want = want[0] if z.bs is None else np.stack(want)
  judge(t3f.project_matmul(z.tt, x.tt, a.tt), want, space, x, z.bs,
        z.q * a.q, 'project_matmul')


def gen_laws(draw):
  x = gen.tt(draw, bs='no', fills=gen.FILLS + ('deficient', 'sparse'),
             size=300)
  return dict(x=x, z=gen.like(draw, x, bs='no'), y=gen.like(draw, x, bs='no'),
              c=gen.pick(draw, 2.0, -0.5, 10.0))


def dense(obj):
  cores = core.result_cores(obj)
  return core.contract(cores, cores[0].ndim == 4, False)


@CHECK.op('laws', gen_laws, quick=500)
def laws(case):
  """Laws of an orthogonal projection, at any points including deficient."""
  x, y, z = [Arg(case[k]) for k in 'xyz']
  c, dt = case['c'], x.dtype
  py, pz = t3f.project(y.tt, x.tt), t3f.project(z.tt, x.tt)
  dy, dz = dense(py), dense(pz)
  d = len(x.n)
  tol = core.TOL[dt] * d
  core.close(dense(t3f.project(x.tt, x.tt)), x.d, x.q, dt, 'P x = x', tol)
  core.close(dense(t3f.project(py, x.tt)), dy, 4 * y.q, dt, 'P P y = P y', tol)
  core.close((dy * z.d).sum(), (y.d * dz).sum(), 4 * y.q * z.q, dt,
             '<P y, z> = <y, P z>', tol)
  core.close(((y.d - dy) * dz).sum(), 0.0, 4 * y.q * z.q, dt,
             '<y - P y, P z> = 0', tol)
  core.close(dense(t3f.project(y.tt + z.tt * c, x.tt)), dy + c * dz,
             4 * (y.q + abs(c) * z.q), dt, 'linearity', tol)
